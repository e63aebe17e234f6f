// One registry of the "ptr" world; compiled once per REG.
#include "ptr.hpp"
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/smart_ptr/intrusive_ptr.hpp>
#include <cstring>
#include <memory>
#include <new>

#ifndef REG
#define REG 0
#endif

namespace ptrw {
namespace om = boost::openmethod;
namespace pol = om::policies;
namespace {

#if REG == 0
struct R : om::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, pol::runtime_checks> {};
#elif REG == 1
struct R : om::registry<pol::std_rtti, pol::vptr_map<>, pol::throw_error_handler, pol::runtime_checks, pol::indirect_vptr> {};
#else
struct R : om::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, pol::runtime_checks, pol::indirect_vptr> {};
#endif

struct A;
struct B;
template<class T> using vp = om::virtual_ptr<T, R>;

template<class T> void born(T* o, int id, int cls);

struct A {
    long a1 = 1;
    int id;
    mutable int rc = 0;
    vp<std::shared_ptr<A>> next_s{nullptr};
    vp<boost::intrusive_ptr<A>> next_i{nullptr};
    vp<std::shared_ptr<B>> next_b{nullptr};
    std::shared_ptr<A> next_r;
    explicit A(int id) : id(id) { born(this, id, A_); }
    A(const A&) = delete;
    virtual ~A() { host->gone(id, A_); }
};
inline void intrusive_ptr_add_ref(const A* a) { ++a->rc; }
inline void intrusive_ptr_release(const A* a) {
    if (--a->rc == 0) delete a;
}
struct L {
    long l1 = 2, l2 = 3;
    int id;
    explicit L(int id) : id(id) { born(this, id, L_); }
    L(const L&) = delete;
    virtual ~L() { host->gone(id, L_); }
};
struct B : A {
    long b1 = 4;
    explicit B(int id) : A(id) { born(this, id, B_); }
    ~B() { host->gone(id, B_); }
};
struct C : L, B {
    long c1 = 5;
    explicit C(int id) : L(id), B(id) { born(this, id, C_); }
    ~C() { host->gone(L::id, C_); }
};
struct V : virtual A {
    long v1 = 6;
    explicit V(int id) : A(id) { born(this, id, V_); }
    ~V() { host->gone(id, V_); }
};
struct W : L, V {
    long w1 = 7;
    explicit W(int id) : A(id), L(id), V(id) { born(this, id, W_); }
    ~W() { host->gone(L::id, W_); }
};
struct U : B {
    explicit U(int id) : B(id) { born(this, id, U_); }
    ~U() { host->gone(id, U_); }
};
template<class T> struct code_of;
template<> struct code_of<A> { enum { v = A_ }; };
template<> struct code_of<B> { enum { v = B_ }; };
template<> struct code_of<L> { enum { v = L_ }; };
template<> struct code_of<C> { enum { v = C_ }; };
template<> struct code_of<V> { enum { v = V_ }; };
template<> struct code_of<W> { enum { v = W_ }; };
template<int> struct cls_of;
template<> struct cls_of<A_> { using type = A; };
template<> struct cls_of<B_> { using type = B; };
template<> struct cls_of<L_> { using type = L; };
template<> struct cls_of<C_> { using type = C; };
template<> struct cls_of<V_> { using type = V; };
template<> struct cls_of<W_> { using type = W; };
template<> struct cls_of<U_> { using type = U; };

template<class T> void born(T* o, int id, int cls) {
    void* sub[NC] = {};
    auto put = [&](auto* t, int c) {
        using S = std::remove_reference_t<decltype(*t)>;
        if constexpr (std::is_base_of_v<S, T>) sub[c] = static_cast<S*>(o);
    };
    put((A*)0, A_);
    put((B*)0, B_);
    put((L*)0, L_);
    put((C*)0, C_);
    put((V*)0, V_);
    put((W*)0, W_);
    if (host->born(id, cls, sub)) throw Boom();
}

static om::use_classes<A, B, L, C, V, W, R> classes;
struct E1 : B {};
struct E2 : V {};

template<int K, class T> struct ty;
template<class T> struct ty<PLAIN, T> { using v = vp<T>; using s = void; };
template<class T> struct ty<PCONST, T> { using v = vp<const T>; using s = void; };
template<class T> struct ty<SHARED, T> { using v = vp<std::shared_ptr<T>>; using s = std::shared_ptr<T>; };
template<class T> struct ty<SCONST, T> { using v = vp<std::shared_ptr<const T>>; using s = std::shared_ptr<const T>; };
template<class T> struct ty<UNIQUE, T> { using v = vp<std::unique_ptr<T>>; using s = std::unique_ptr<T>; };
template<class T> struct ty<INTR, T> { using v = vp<boost::intrusive_ptr<T>>; using s = boost::intrusive_ptr<T>; };

// ------------------------------------------------- classes without virtual functions
struct Pad { long pad = 11; };
struct N0 { long id; explicit N0(long id = 0) : id(id) {} };
struct N1 : Pad, N0 { explicit N1(long id = 1) : N0(id) {} };
struct N2 : N1 { long more = 2; N2() : N1(2) {} };
struct N3 : N0 { N3() : N0(3) {} };
static om::use_classes<N0, N1, N2, N3, R> np_classes;
template<int> struct ncls_of;
template<> struct ncls_of<0> { using type = N0; };
template<> struct ncls_of<1> { using type = N1; };
template<> struct ncls_of<2> { using type = N2; };
template<> struct ncls_of<3> { using type = N3; };
template<int C> using ncls = typename ncls_of<C>::type;
struct np_id;
struct nps_id;
using np_meth = om::method<np_id, long(vp<N0>, long), R>;
using nps_meth = om::method<nps_id, long(const vp<std::shared_ptr<N0>>&), R>;
template<int C> long npf(vp<ncls<C>> p, long x) { return p->id == C || C == 0 ? 10 * C + p->id + x : -1; }
template<int C> long npsf(const vp<std::shared_ptr<ncls<C>>>& p) { return p->id == C || C == 0 ? 10 * C + p->id : -1; }
static np_meth::override<npf<0>, npf<1>, npf<2>> np_over; // none for N3
static nps_meth::override<npsf<0>, npsf<1>, npsf<2>> nps_over;

// ------------------------------------------------------------------ methods
template<int K, class Root, bool ByRef> struct mid;
template<int K, class Root, bool ByRef>
using meth = om::method<mid<K, Root, ByRef>, long(std::conditional_t<ByRef, const typename ty<K, Root>::v&, typename ty<K, Root>::v>), R>;


template<class T> struct counted : std::false_type {};
template<class T> struct counted<std::shared_ptr<T>> : std::true_type {};

template<int K, class T, bool ByRef>
long f(std::conditional_t<ByRef, const typename ty<K, T>::v&, typename ty<K, T>::v> p) {
    long n = -1;
    if constexpr (counted<typename ty<K, T>::s>::value) n = p.pointer().use_count();
    host->called(code_of<T>::v, static_cast<const void*>(p.get()), n, p.vptr() == nullptr);
    return 100 + code_of<T>::v;
}
// who(A) by value on plain pointers has no overrider for B: the plug module has
struct over_plain {
    meth<PLAIN, A, false>::override<f<PLAIN, A, false>, f<PLAIN, C, false>, f<PLAIN, V, false>, f<PLAIN, W, false>> a;
};
template<int K, bool ByRef>
struct over {
    typename meth<K, A, ByRef>::template override<f<K, A, ByRef>, f<K, B, ByRef>, f<K, C, ByRef>, f<K, V, ByRef>, f<K, W, ByRef>> a;
};
template<int K, bool ByRef>
struct overL {
    typename meth<K, L, ByRef>::template override<f<K, L, ByRef>, f<K, C, ByRef>, f<K, W, ByRef>> l;
};
static over_plain o1;
static over<PLAIN, true> o2;
static over<PCONST, false> o3;
static over<PCONST, true> o4;
static over<SHARED, false> o5;
static over<SHARED, true> o6;
static over<SCONST, false> o7;
static over<SCONST, true> o8;
static over<UNIQUE, false> o9;
static over<INTR, false> o10;
static over<INTR, true> o11;
static overL<PLAIN, false> l1;
static overL<PLAIN, true> l2;
static overL<PCONST, false> l3;
static overL<PCONST, true> l4;
static overL<SHARED, false> l5;
static overL<SHARED, true> l6;
static overL<SCONST, false> l7;
static overL<SCONST, true> l8;
static overL<UNIQUE, false> l9;
// the "plug" module's overrider of the plain method for B
static long f_plug(vp<A> p) {
    vp<B> b(p.cast<B>());
    host->called(B_, static_cast<const void*>(b.get()), -1, b.vptr() == nullptr);
    return 200 + B_;
}

// ------------------------------------------------------------------ helpers
template<class F>
Err guard(F&& f) {
    try {
        sim::LibScope ls;
        f();
        return OK;
    } catch (const Boom&) {
        return E_CTOR;
    } catch (const om::not_initialized&) {
        return E_NOTINIT;
    } catch (const om::missing_class&) {
        return E_MISSING;
    } catch (const om::final_error&) {
        return E_FINAL;
    } catch (const std::bad_alloc&) {
        return E_ALLOC;
    } catch (...) {
        return E_OTHER;
    }
}
template<int N> using I = std::integral_constant<int, N>;
template<class F>
void on_cls(int c, F&& f) {
    switch (c) {
    case A_: f(I<A_>()); break;
    case B_: f(I<B_>()); break;
    case L_: f(I<L_>()); break;
    case C_: f(I<C_>()); break;
    case V_: f(I<V_>()); break;
    case W_: f(I<W_>()); break;
    }
}
template<class F>
void on_kind(int k, F&& f) {
    switch (k) {
    case PLAIN: f(I<PLAIN>()); break;
    case PCONST: f(I<PCONST>()); break;
    case SHARED: f(I<SHARED>()); break;
    case SCONST: f(I<SCONST>()); break;
    case UNIQUE: f(I<UNIQUE>()); break;
    case INTR: f(I<INTR>()); break;
    }
}
template<int K, int C> constexpr bool ok = !(K == INTR && C == L_);
template<class F>
void on(int k, int c, F&& f) {
    on_kind(k, [&](auto K) {
        on_cls(c, [&](auto C) {
            if constexpr (ok<K.value, C.value>) f(K, C);
        });
    });
}
template<int C> using cls = typename cls_of<C>::type;
template<int K, int C> using vpt = typename ty<K, cls<C>>::v;
template<int K, int C> using smt = typename ty<K, cls<C>>::s;
constexpr bool kind_conv(int from, int to) {
    return from == to || (from == PLAIN && to == PCONST) || (from == SHARED && to == SCONST) ||
        (to == PLAIN && from != PCONST && from != SCONST) || to == PCONST;
}
template<int SK, int SC, int DK, int DC>
constexpr bool conv = ok<SK, SC> && ok<DK, DC> && kind_conv(SK, DK) && std::is_base_of_v<cls<DC>, cls<SC>>;

struct RegT : Reg {
    alignas(16) char mem[NSLOT][64] = {};
    template<class T> T& at(int s) { return *reinterpret_cast<T*>(mem[s]); }
    const char* name() override { return REG == 0 ? "direct" : REG == 1 ? "map,indirect" : "vector,indirect"; }
    bool indirect() override { return R::has_indirect_vptr; }
    bool checks() override { return R::has_runtime_checks; }
    void initialize() override {
        sim::LibScope ls;
        om::initialize<R>();
    }
    void finalize() override {
        sim::LibScope ls;
        om::finalize<R>();
    }
    using Extra = om::use_classes<B, E1, V, E2, R>;
    alignas(Extra) char extra_mem[sizeof(Extra)];
    struct Plug : om::detail::overrider_info {
        om::type_id ids[1];
        void (*nx)();
    };
    alignas(Plug) char plug_mem[sizeof(Plug)];
    Extra* extrap = nullptr;
    Plug* plugp = nullptr;
    void load(int what) override {
        sim::LibScope ls;
        if (what == 0) {
            memset(extra_mem, 0, sizeof extra_mem);
            extrap = new (extra_mem) Extra;
        } else {
            memset(plug_mem, 0, sizeof plug_mem);
            plugp = new (plug_mem) Plug;
            auto& m = meth<PLAIN, A, false>::fn;
            plugp->method = &m;
            plugp->ids[0] = R::rtti::template static_type<B>();
            plugp->vp_begin = plugp->ids;
            plugp->vp_end = plugp->ids + 1;
            plugp->next = &plugp->nx;
            plugp->type = R::rtti::template static_type<Plug>();
            plugp->return_type = R::rtti::template static_type<void>();
            plugp->pf = reinterpret_cast<void (*)()>(&f_plug);
            m.overriders.push_back(*plugp);
        }
    }
    void unload(int what) override {
        sim::LibScope ls;
        if (what == 0) extrap->~Extra();
        else plugp->~Plug();
    }
    const void* static_vptr(int c) override {
        const void* r = nullptr;
        on_cls(c, [&](auto C) { r = R::template static_vptr<cls<C.value>>; });
        return r;
    }
    void new_raw(int id, int c) override {
        if (c == U_) new U(id);
        else on_cls(c, [&](auto C) { new cls<C.value>(id); });
    }
    void delete_raw(int, int c, void* most) override {
        if (c == U_) delete static_cast<B*>(most);
        else on_cls(c, [&](auto C) { delete static_cast<cls<C.value>*>(most); });
    }
    void* storage(int s) override { return mem[s]; }

    Err make_smart(int d, int kind, int c, int id, int dyn) override {
        Err e = E_SKIP;
        on(kind, c, [&](auto K, auto C) {
            if constexpr (K.value >= SHARED) {
                using S = smt<K.value, C.value>;
                auto mk = [&](auto* t) {
                    using D = std::remove_pointer_t<decltype(t)>;
                    if constexpr (std::is_base_of_v<cls<C.value>, D>) {
                        e = guard([&] { new (mem[d]) S(new D(id)); });
                    }
                };
                if (dyn == U_) mk((U*)0);
                else on_cls(dyn, [&](auto D) { mk((cls<D.value>*)0); });
            }
        });
        return e;
    }
    Err make_virtual(int d, int kind, int c, int id, long fail_at) override {
        Err e = E_SKIP;
        on(kind, c, [&](auto K, auto C) {
            using T = cls<C.value>;
            using D = vpt<K.value, C.value>;
            sim::arm_alloc_failure(fail_at);
            if constexpr (K.value == SHARED) e = guard([&] { new (mem[d]) D(om::make_shared_virtual<T, R>(id)); });
            if constexpr (K.value == UNIQUE) e = guard([&] { new (mem[d]) D(om::make_unique_virtual<T, R>(id)); });
            if constexpr (K.value == INTR) e = guard([&] { new (mem[d]) D(om::make_boost_intrusive_virtual<T, R>(id)); });
            sim::arm_alloc_failure(-1);
        });
        return e;
    }
    template<class F>
    void with_object(void* obj, int as, F&& f) {
        if (as == U_) f(*static_cast<U*>(obj));
        else on_cls(as, [&](auto C) { f(*static_cast<cls<C.value>*>(obj)); });
    }
    Err from_object(int d, int kind, int c, void* obj, int as, int how) override {
        Err e = E_SKIP;
        on_cls(c, [&](auto C) {
            with_object(obj, as, [&](auto& o) {
                using O = std::remove_reference_t<decltype(o)>;
                if constexpr (std::is_base_of_v<cls<C.value>, O>) {
                    if (kind == PLAIN) {
                        using D = vpt<PLAIN, C.value>;
                        e = guard([&] { how & 1 ? new (mem[d]) D(&o) : new (mem[d]) D(o); });
                    } else {
                        using D = vpt<PCONST, C.value>;
                        const O& co = o;
                        if (how & 2) e = guard([&] { how & 1 ? new (mem[d]) D(&o) : new (mem[d]) D(o); });
                        else e = guard([&] { how & 1 ? new (mem[d]) D(&co) : new (mem[d]) D(co); });
                    }
                }
            });
        });
        return e;
    }
    Err assign_object(int d, int kind, int c, void* obj, int as, int how) override {
        Err e = E_SKIP;
        on_cls(c, [&](auto C) {
            with_object(obj, as, [&](auto& o) {
                using O = std::remove_reference_t<decltype(o)>;
                if constexpr (std::is_base_of_v<cls<C.value>, O>) {
                    if (kind == PLAIN) {
                        auto& p = at<vpt<PLAIN, C.value>>(d);
                        e = guard([&] { how & 1 ? p = &o : p = o; });
                    } else {
                        auto& p = at<vpt<PCONST, C.value>>(d);
                        const O& co = o;
                        if (how & 2) e = guard([&] { how & 1 ? p = &o : p = o; });
                        else e = guard([&] { how & 1 ? p = &co : p = co; });
                    }
                }
            });
        });
        return e;
    }
    Err final_object(int d, int kind, int as, void* obj, int how) override {
        Err e = E_SKIP;
        on_cls(as, [&](auto C) {
            auto& o = *static_cast<cls<C.value>*>(obj);
            if (kind == PLAIN) {
                using D = vpt<PLAIN, C.value>;
                e = guard([&] { how & 1 ? new (mem[d]) D(D::final(o)) : new (mem[d]) D(om::final_virtual_ptr<R>(o)); });
            } else {
                using D = vpt<PCONST, C.value>;
                const auto& co = o;
                e = guard([&] { how & 1 ? new (mem[d]) D(D::final(co)) : new (mem[d]) D(om::final_virtual_ptr<R>(co)); });
            }
        });
        return e;
    }
    Err final_smart(int d, int s, int kind, int c, int how) override {
        Err e = E_SKIP;
        on(kind, c, [&](auto K, auto C) {
            if constexpr (K.value >= SHARED) {
                using D = vpt<K.value, C.value>;
                auto& o = at<smt<K.value, C.value>>(s);
                e = guard([&] { how & 1 ? new (mem[d]) D(D::final(std::move(o))) : new (mem[d]) D(om::final_virtual_ptr<R>(std::move(o))); });
            }
        });
        return e;
    }
    // f(K1, C1, K2, C2) for a conversion that exists
    template<class F>
    void pair(int sk, int sc, int dk, int dc, F&& f) {
        on(sk, sc, [&](auto SK, auto SC) {
            on(dk, dc, [&](auto DK, auto DC) {
                if constexpr (conv<SK.value, SC.value, DK.value, DC.value>) f(SK, SC, DK, DC);
            });
        });
    }
    Err from_smart(int d, int dk, int dc, int s, int sk, int sc, int how) override {
        Err e = E_SKIP;
        pair(sk, sc, dk, dc, [&](auto SK, auto SC, auto DK, auto DC) {
            if constexpr (SK.value >= SHARED && DK.value >= SHARED) {
                using D = vpt<DK.value, DC.value>;
                auto& o = at<smt<SK.value, SC.value>>(s);
                if (how == 2) e = guard([&] { new (mem[d]) D(std::move(o)); });
                else if constexpr (SK.value != UNIQUE) {
                    if (how == 0) e = guard([&] { new (mem[d]) D(std::as_const(o)); });
                    else e = guard([&] { new (mem[d]) D(o); });
                }
            }
        });
        return e;
    }
    Err assign_smart(int d, int dk, int dc, int s, int sk, int sc, int how) override {
        Err e = E_SKIP;
        pair(sk, sc, dk, dc, [&](auto SK, auto SC, auto DK, auto DC) {
            if constexpr (SK.value >= SHARED && DK.value >= SHARED) {
                auto& p = at<vpt<DK.value, DC.value>>(d);
                auto& o = at<smt<SK.value, SC.value>>(s);
                if (how == 2) e = guard([&] { p = std::move(o); });
                else if constexpr (SK.value != UNIQUE) {
                    if (how == 0) e = guard([&] { p = std::as_const(o); });
                    else e = guard([&] { p = o; });
                }
            }
        });
        return e;
    }
    Err convert(int d, int dk, int dc, int s, int sk, int sc, int how) override {
        Err e = E_SKIP;
        pair(sk, sc, dk, dc, [&](auto SK, auto SC, auto DK, auto DC) {
            using D = vpt<DK.value, DC.value>;
            auto& o = at<vpt<SK.value, SC.value>>(s);
            if (how == 2) e = guard([&] { new (mem[d]) D(std::move(o)); });
            else if constexpr (DK.value != UNIQUE) {
                if (how == 0) e = guard([&] { new (mem[d]) D(std::as_const(o)); });
                else e = guard([&] { new (mem[d]) D(o); });
            }
        });
        return e;
    }
    Err assign(int d, int dk, int dc, int s, int sk, int sc, int how) override {
        Err e = E_SKIP;
        pair(sk, sc, dk, dc, [&](auto SK, auto SC, auto DK, auto DC) {
            auto& p = at<vpt<DK.value, DC.value>>(d);
            auto& o = at<vpt<SK.value, SC.value>>(s);
            if (how == 2) e = guard([&] { p = std::move(o); });
            else if constexpr (DK.value != UNIQUE) {
                if (how == 0) e = guard([&] { p = std::as_const(o); });
                else e = guard([&] { p = o; });
            }
        });
        return e;
    }
    template<int k, int sc, int k2, int dc>
    Err cast_impl(int d, int s, int how) {
        Err e = E_SKIP;
        if constexpr (k == k2) {
            using T = cls<sc>;
            using O = cls<dc>;
            if constexpr (std::is_base_of_v<T, O> || std::is_base_of_v<O, T>) {
                using Other = std::conditional_t<k == PCONST || k == SCONST, const O, O>;
                using D = vpt<k, dc>;
                auto& o = at<vpt<k, sc>>(s);
                if (how == 2) e = guard([&] { new (mem[d]) D(std::move(o).template cast<Other>()); });
                else if constexpr (k != UNIQUE) {
                    if (how == 0) e = guard([&] { new (mem[d]) D(std::as_const(o).template cast<Other>()); });
                    else e = guard([&] { new (mem[d]) D(o.template cast<Other>()); });
                }
            }
        }
        return e;
    }
    Err cast(int d, int dc, int s, int sk, int sc, int how) override {
        Err e = E_SKIP;
        on(sk, sc, [&](auto K, auto SC) {
            on(sk, dc, [&](auto K2, auto DC) {
                e = this->template cast_impl<decltype(K)::value, decltype(SC)::value, decltype(K2)::value, decltype(DC)::value>(d, s, how);
            });
        });
        return e;
    }
    Err null(int d, int kind, int c, int how) override {
        Err e = E_SKIP;
        on(kind, c, [&](auto K, auto C) {
            using D = vpt<K.value, C.value>;
            if (how & 1 && K.value >= SHARED) e = guard([&] { new (mem[d]) D(); });
            else e = guard([&] { new (mem[d]) D(nullptr); });
        });
        return e;
    }
    Err assign_null(int d, int kind, int c) override {
        Err e = E_SKIP;
        on(kind, c, [&](auto K, auto C) { e = guard([&] { at<vpt<K.value, C.value>>(d) = nullptr; }); });
        return e;
    }
    Err copy_smart(int d, int s, int kind, int c, int how) override {
        Err e = E_SKIP;
        on(kind, c, [&](auto K, auto C) {
            if constexpr (K.value >= SHARED) {
                using S = smt<K.value, C.value>;
                if (how == 2) e = guard([&] { new (mem[d]) S(std::move(at<S>(s))); });
                else if constexpr (K.value != UNIQUE) e = guard([&] { new (mem[d]) S(at<S>(s)); });
            }
        });
        return e;
    }
    void destroy(int d, int form, int kind, int c) override {
        on(kind, c, [&](auto K, auto C) {
            sim::LibScope ls;
            if (form == VP) {
                using D = vpt<K.value, C.value>;
                at<D>(d).~D();
            } else if constexpr (K.value >= SHARED) {
                using D = smt<K.value, C.value>;
                at<D>(d).~D();
            }
        });
        memset(mem[d], 0xEE, sizeof mem[d]);
    }
    Err swap(int d, int s, int kind, int c) override {
        Err e = E_SKIP;
        on(kind, c, [&](auto K, auto C) {
            using D = vpt<K.value, C.value>;
            e = guard([&] { std::swap(at<D>(d), at<D>(s)); });
        });
        return e;
    }
    Err link_to(A* a, int t, int w) {
        switch (w) {
        case 0: return guard([&] { a->next_s = std::as_const(at<vpt<SHARED, A_>>(t)); });
        case 1: return guard([&] { a->next_i = std::as_const(at<vpt<INTR, A_>>(t)); });
        case 2: return guard([&] { a->next_b = std::as_const(at<vpt<SHARED, B_>>(t)); });
        default: return guard([&] { a->next_r = at<vpt<SHARED, A_>>(t).pointer(); });
        }
    }
    template<int K, int C>
    Err link_impl(int s, int t, int w) {
        if constexpr (C != L_) return link_to(const_cast<A*>(static_cast<const A*>(at<vpt<K, C>>(s).get())), t, w);
        else return E_SKIP;
    }
    Err link(int s, int kind, int c, int t, int w) override {
        Err e = E_SKIP;
        on(kind, c, [&](auto K, auto C) { e = this->template link_impl<decltype(K)::value, decltype(C)::value>(s, t, w); });
        return e;
    }
    template<class P, class M>
    Err advance_impl(P& p, M m, int how) {
        return guard([&] {
            if (how == 0) p = std::as_const(p.get()->*m);
            else if (how == 1) p = p.get()->*m;
            else p = std::move(p.get()->*m);
        });
    }
    Err advance(int s, int w, int how) override {
        switch (w) {
        case 0: return advance_impl(at<vpt<SHARED, A_>>(s), &A::next_s, how);
        case 1: return advance_impl(at<vpt<INTR, A_>>(s), &A::next_i, how);
        case 2: return advance_impl(at<vpt<SHARED, A_>>(s), &A::next_b, how);
        default: return advance_impl(at<vpt<SHARED, A_>>(s), &A::next_r, how);
        }
    }
    template<int k, int c, int r>
    Err call_root(int s, int form, int how, long* result, bool* moved) {
        Err e = E_SKIP;
        using Root = cls<r>;
        if constexpr (ok<k, r> && std::is_base_of_v<Root, cls<c>>) {
            if (form == SMART) {
                if constexpr (k >= SHARED) {
                    auto& o = at<smt<k, c>>(s);
                    if (how == 1 || k == UNIQUE) {
                        *moved = true;
                        e = guard([&] { *result = meth<k, Root, false>::fn(std::move(o)); });
                    } else if constexpr (k != UNIQUE) {
                        if (how == 2) e = guard([&] { *result = meth<k, Root, true>::fn(o); });
                        else e = guard([&] { *result = meth<k, Root, false>::fn(o); });
                    }
                }
                return e;
            }
            auto& o = at<vpt<k, c>>(s);
            if (how == 3) { // as a plain virtual_ptr
                if constexpr (k == PCONST || k == SCONST) e = guard([&] { *result = meth<PCONST, Root, false>::fn(o); });
                else e = guard([&] { *result = meth<PLAIN, Root, false>::fn(o); });
            } else if (how == 1 || k == UNIQUE) {
                *moved = k >= SHARED;
                e = guard([&] { *result = meth<k, Root, false>::fn(std::move(o)); });
            } else if constexpr (k != UNIQUE) {
                if (how == 2) e = guard([&] { *result = meth<k, Root, true>::fn(o); });
                else e = guard([&] { *result = meth<k, Root, false>::fn(o); });
            }
        }
        return e;
    }
    Err call(int s, int form, int kind, int c, int how, long* result, bool* moved) override {
        Err e = E_SKIP;
        *moved = false;
        on(kind, c, [&](auto K, auto C) {
            e = how >= 4 ? this->template call_root<decltype(K)::value, decltype(C)::value, L_>(s, form, how - 4, result, moved)
                         : this->template call_root<decltype(K)::value, decltype(C)::value, A_>(s, form, how, result, moved);
        });
        return e;
    }
    bool equal(int a, int ka, int ca, int b, int kb, int cb, bool ne) override {
        bool r = false;
        pair(ka, ca, kb, cb, [&](auto KA, auto CA, auto KB, auto CB) {
            constexpr int x = KA.value, y = KB.value;
            if constexpr (x == y || (x == PLAIN && y == PCONST) || (x == SHARED && y == SCONST)) {
                auto& p = at<vpt<x, CA.value>>(a);
                auto& q = at<vpt<y, CB.value>>(b);
                sim::LibScope ls;
                r = ne ? !(p != q) : p == q;
            }
        });
        return r;
    }
    struct Np {
        int form = 0;
        vp<N0> p{nullptr};
        vp<std::shared_ptr<N0>> s;
        vp<std::unique_ptr<N0>> u;
    } np[NNP];
    N0 n0;
    N1 n1;
    N2 n2;
    N3 n3;
    template<int C> ncls<C>& nobj() {
        if constexpr (C == 0) return n0;
        else if constexpr (C == 1) return n1;
        else if constexpr (C == 2) return n2;
        else return n3;
    }
    template<int C> Err np_make_impl(Np& x, int form, int how) {
        using T = ncls<C>;
        return guard([&] {
            if (form == 1) {
                if (how & 1) x.p = vp<T>::final(nobj<C>());
                else x.p = om::final_virtual_ptr<R>(nobj<C>());
            } else if (form == 2) {
                switch (how & 3) {
                case 0: x.s = om::make_shared_virtual<T, R>(); break;
                case 1: x.s = om::final_virtual_ptr<R>(std::make_shared<T>()); break;
                default: x.s = vp<std::shared_ptr<T>>::final(std::make_shared<T>());
                }
            } else {
                if constexpr (C == 0) { // a unique_ptr to a base would delete through it
                    if (how & 1) x.u = om::make_unique_virtual<T, R>();
                    else x.u = om::final_virtual_ptr<R>(std::make_unique<T>());
                }
            }
            x.form = form;
        });
    }
    Err np_make(int s, int form, int c, int how) override {
        np_destroy(s);
        switch (form == 3 ? 0 : c) {
        case 0: return np_make_impl<0>(np[s], form, how);
        case 1: return np_make_impl<1>(np[s], form, how);
        case 2: return np_make_impl<2>(np[s], form, how);
        default: return np_make_impl<3>(np[s], form, how);
        }
    }
    void np_destroy(int s) override {
        sim::LibScope ls;
        np[s].form = 0;
        np[s].p = nullptr;
        np[s].s = nullptr;
        np[s].u = nullptr;
    }
    bool np_look(int s, int* c, const void** vptr) override {
        sim::LibScope ls;
        auto& x = np[s];
        auto read = [&](auto& p) {
            *c = int(p->id);
            *vptr = p.vptr();
        };
        if (x.form == 1) {
            read(x.p);
            vp<const N0> q = x.p;
            return q.vptr() == *vptr && q.get() == x.p.get();
        }
        if (x.form == 2) {
            read(x.s);
            vp<const N0> q = x.s;
            vp<std::shared_ptr<const N0>> r = x.s;
            return q.vptr() == *vptr && r.vptr() == *vptr && q.get() == x.s.get();
        }
        read(x.u);
        vp<N0> q = x.u;
        return q.vptr() == *vptr && q.get() == x.u.get();
    }
    Err np_call(int s, int how, long* result) override {
        auto& x = np[s];
        return guard([&] {
            if (x.form == 1) *result = np_meth::fn(x.p, 0);
            else if (x.form == 3) *result = np_meth::fn(x.u, 0);
            else *result = how & 1 ? nps_meth::fn(x.s) : np_meth::fn(x.s, 0);
        });
    }
    Err np_cast(int s) override {
        auto& x = np[s];
        bool same = true;
        Err e = guard([&] {
            if (x.form == 1) {
                auto q = x.p.template cast<N1>();
                auto b = q.template cast<N0>();
                same = q.vptr() == x.p.vptr() && q->id == x.p->id && b.get() == x.p.get() && b.vptr() == q.vptr();
            } else if (x.form == 2) {
                auto q = x.s.template cast<N1>();
                auto b = q.template cast<N0>();
                same = q.vptr() == x.s.vptr() && q->id == x.s->id && b.get() == x.s.get() && b.vptr() == q.vptr() && b.pointer().use_count() == 3;
            }
        });
        return e == OK && !same ? E_OTHER : e;
    }
    const void* np_static_vptr(int c) override {
        switch (c) {
        case 0: return R::template static_vptr<N0>;
        case 1: return R::template static_vptr<N1>;
        case 2: return R::template static_vptr<N2>;
        default: return R::template static_vptr<N3>;
        }
    }
    void look(int s, int form, int kind, int c, const void** get, const void** vptr, bool* vp_null, long* n) override {
        *n = -1;
        on(kind, c, [&](auto K, auto C) {
            auto cnt = [&](auto& sp) {
                if constexpr (K.value == SHARED || K.value == SCONST) *n = sp.use_count();
                if constexpr (K.value == INTR && C.value != L_)
                    if (sp) *n = static_cast<const A*>(sp.get())->rc;
            };
            if (form == VP) {
                auto& p = at<vpt<K.value, C.value>>(s);
                *get = p.get();
                *vptr = p.vptr();
                *vp_null = *vptr == nullptr;
                if constexpr (K.value >= SHARED) cnt(p.pointer());
            } else if constexpr (K.value >= SHARED) {
                auto& p = at<smt<K.value, C.value>>(s);
                *get = p.get();
                cnt(p);
            }
        });
    }
};
static RegT reg;
} // namespace
#if REG == 0
Reg* reg0() { return &reg; }
#elif REG == 1
Reg* reg1() { return &reg; }
#else
Reg* reg2() { return &reg; }
#endif
} // namespace ptrw
