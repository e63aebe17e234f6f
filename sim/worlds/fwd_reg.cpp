// One registry of the "forward" world; compiled once per REG.
#include "fwd.hpp"
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/smart_ptr/intrusive_ptr.hpp>
#include <memory>
#include <new>
#include <tuple>

#ifndef REG
#define REG 0
#endif

namespace fwd {
namespace om = boost::openmethod;
namespace pol = om::policies;
namespace {

#if REG == 0
struct R : om::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler> {};
#else
struct R : om::registry<pol::std_rtti, pol::vptr_map<>, pol::throw_error_handler, pol::runtime_checks, pol::indirect_vptr> {};
#endif
template<class T> using vp = om::virtual_ptr<T, R>;

// ------------------------------------------------------------------ classes
template<class T> void born(T* o, int id, int cls);
struct A {
    long a1 = 1;
    int id;
    mutable int rc = 0;
    explicit A(int id) : id(id) { born(this, id, A_); }
    A(const A&) = delete;
    virtual ~A() { host->gone(id, A_); }
};
inline void intrusive_ptr_add_ref(const A* a) { ++a->rc; }
inline void intrusive_ptr_release(const A* a) {
    if (--a->rc == 0) delete a;
}
struct L {
    long l1 = 2, l2 = 3;
    int id;
    explicit L(int id) : id(id) { born(this, id, L_); }
    L(const L&) = delete;
    virtual ~L() { host->gone(id, L_); }
};
struct B : A {
    long b1 = 4;
    explicit B(int id) : A(id) { born(this, id, B_); }
    ~B() { host->gone(id, B_); }
};
struct C : L, B {
    long c1 = 5;
    explicit C(int id) : L(id), B(id) { born(this, id, C_); }
    ~C() { host->gone(L::id, C_); }
};
struct V : virtual A {
    long v1 = 6;
    explicit V(int id) : A(id) { born(this, id, V_); }
    ~V() { host->gone(id, V_); }
};
struct W : L, V {
    long w1 = 7;
    explicit W(int id) : A(id), L(id), V(id) { born(this, id, W_); }
    ~W() { host->gone(L::id, W_); }
};
static om::use_classes<A, B, L, C, V, W, R> classes;

template<class T> struct code_of;
template<> struct code_of<A> { enum { v = A_ }; };
template<> struct code_of<B> { enum { v = B_ }; };
template<> struct code_of<L> { enum { v = L_ }; };
template<> struct code_of<C> { enum { v = C_ }; };
template<> struct code_of<V> { enum { v = V_ }; };
template<> struct code_of<W> { enum { v = W_ }; };
template<> struct code_of<void> { enum { v = -1 }; };

template<class T> void born(T* o, int id, int cls) {
    const void* sub[NC] = {};
    auto put = [&](auto* t, int c) {
        using S = std::remove_reference_t<decltype(*t)>;
        if constexpr (std::is_base_of_v<S, T>) sub[c] = static_cast<S*>(o);
    };
    put((A*)0, A_);
    put((B*)0, B_);
    put((L*)0, L_);
    put((C*)0, C_);
    put((V*)0, V_);
    put((W*)0, W_);
    host->born(id, cls, sub);
}
template<class Root>
Root* make_object(int cls, int id) {
    Root* r = nullptr;
    auto mk = [&](auto* t) {
        using D = std::remove_reference_t<decltype(*t)>;
        if constexpr (std::is_base_of_v<Root, D>) r = new D(id);
    };
    switch (cls) {
    case A_: mk((A*)0); break;
    case B_: mk((B*)0); break;
    case L_: mk((L*)0); break;
    case C_: mk((C*)0); break;
    case V_: mk((V*)0); break;
    case W_: mk((W*)0); break;
    }
    return r;
}

// ------------------------------------------------------- tracked values
struct Tracked {
    long val;
    char* heap;
    explicit Tracked(long v) : val(v), heap(new char[24]) { ++live_tracked; }
    Tracked(const Tracked& o) : val(o.val), heap(nullptr) {
        if (host->copying(false)) throw Boom{3};
        heap = new char[24];
        ++live_tracked;
    }
    Tracked(Tracked&& o) : val(o.val), heap(nullptr) {
        if (host->copying(true)) throw Boom{4};
        heap = o.heap;
        o.heap = nullptr;
        o.val = -1;
        ++live_tracked;
    }
    ~Tracked() {
        delete[] heap;
        --live_tracked;
    }
    Tracked& operator=(const Tracked&) = delete;
};
struct MoveOnly : Tracked {
    explicit MoveOnly(long v) : Tracked(v) {}
    MoveOnly(const MoveOnly&) = delete;
    MoveOnly(MoveOnly&&) = default;
};

// ---------------------------------------------------------- parameters
// a: as the caller passes it, p: as the method declares it, o<C>: as the
// overrider for class C declares it
template<int K, class Root> struct Q_base {
    enum { kind = K, root = code_of<Root>::v, virt = 1 };
    using Rt = Root;
};
template<class X> long use_count(const std::shared_ptr<X>& p) { return p.use_count(); }
template<class X> long use_count(const boost::intrusive_ptr<X>& p) { return p ? static_cast<const A*>(p.get())->rc : 0; }
template<class X> long use_count(const std::unique_ptr<X>& p) { return p ? 1 : 0; }

template<class Root>
struct raw_hold {
    std::unique_ptr<Root> obj;
    void make(int cls, int id, long, bool) { obj.reset(make_object<Root>(cls, id)); }
    void state(ArgState& s) {
        s.null = !obj;
        s.addr = obj.get();
    }
};
template<int K, class Root> struct Q;
template<class Root> struct Q<REF, Root> : Q_base<REF, Root> {
    using a = Root&;
    using p = om::virtual_<Root&>;
    template<class X> using o = X&;
    struct hold : raw_hold<Root> {
        a pass(bool) { return *this->obj; }
    };
    template<class X> static Info look(X& x) { return {&x, 0, -1}; }
    template<class X> static a up(X& x, bool) { return x; }
    template<class X> static X* ptr(X& x) { return &x; }
};
template<class Root> struct Q<CREF, Root> : Q_base<CREF, Root> {
    using a = const Root&;
    using p = om::virtual_<const Root&>;
    template<class X> using o = const X&;
    struct hold : raw_hold<Root> {
        a pass(bool) { return *this->obj; }
    };
    template<class X> static Info look(const X& x) { return {&x, 0, -1}; }
    template<class X> static a up(const X& x, bool) { return x; }
    template<class X> static X* ptr(const X& x) { return const_cast<X*>(&x); }
};
template<class Root> struct Q<RREF, Root> : Q_base<RREF, Root> {
    using a = Root&&;
    using p = om::virtual_<Root&&>;
    template<class X> using o = X&&;
    struct hold : raw_hold<Root> {
        a pass(bool) { return std::move(*this->obj); }
    };
    template<class X> static Info look(X& x) { return {&x, 0, -1}; }
    template<class X> static a up(X& x, bool) { return std::move(x); }
    template<class X> static X* ptr(X& x) { return &x; }
};
template<class Root> struct Q<PTR, Root> : Q_base<PTR, Root> {
    using a = Root*;
    using p = om::virtual_<Root*>;
    template<class X> using o = X*;
    struct hold : raw_hold<Root> {
        a pass(bool) { return this->obj.get(); }
    };
    template<class X> static Info look(X* x) { return {x, 0, -1}; }
    template<class X> static a up(X* x, bool) { return x; }
    template<class X> static X* ptr(X* x) { return x; }
};
template<class Root> struct Q<CPTR, Root> : Q_base<CPTR, Root> {
    using a = const Root*;
    using p = om::virtual_<const Root*>;
    template<class X> using o = const X*;
    struct hold : raw_hold<Root> {
        a pass(bool) { return this->obj.get(); }
    };
    template<class X> static Info look(const X* x) { return {x, 0, -1}; }
    template<class X> static a up(const X* x, bool) { return x; }
    template<class X> static X* ptr(const X* x) { return const_cast<X*>(x); }
};
// things that own an object
template<template<class> class Ptr, class Root>
struct smart_hold {
    Ptr<Root> h, kept;
    void make(int cls, int id, long, bool keep) {
        h = Ptr<Root>(make_object<Root>(cls, id));
        if constexpr (std::is_copy_constructible_v<Ptr<Root>>)
            if (keep) kept = h;
    }
    void state(ArgState& s) {
        s.null = !h;
        s.addr = &h;
        s.count = h ? use_count(h) : kept ? use_count(kept) : 0;
    }
};
template<template<class> class Ptr, class Root>
struct vsmart_hold {
    vp<Ptr<Root>> h, kept;
    void make(int cls, int id, long, bool keep) {
        h = Ptr<Root>(make_object<Root>(cls, id));
        if constexpr (std::is_copy_constructible_v<Ptr<Root>>)
            if (keep) kept = h;
    }
    void state(ArgState& s) {
        s.null = !h.get();
        s.addr = &h;
        s.count = h.get() ? use_count(h.pointer()) : kept.get() ? use_count(kept.pointer()) : 0;
        if (!h.get() != !h.vptr()) s.count = -99;
    }
};
template<class X> using shared = std::shared_ptr<X>;
template<class X> using unique = std::unique_ptr<X>;
template<class X> using intr = boost::intrusive_ptr<X>;

template<class P> P give(P& h, bool move) {
    if constexpr (std::is_copy_constructible_v<P>)
        if (!move) return P(h);
    return P(std::move(h));
}
template<class To, class From> To give_as(From& h, bool move) {
    if constexpr (std::is_copy_constructible_v<From>)
        if (!move) return To(h);
    return To(std::move(h));
}
template<int K, template<class> class Ptr, class Root>
struct Q_smart_val : Q_base<K, Root> {
    using a = Ptr<Root>;
    using p = om::virtual_<Ptr<Root>>;
    template<class X> using o = Ptr<X>;
    struct hold : smart_hold<Ptr, Root> {
        a pass(bool move) { return give(this->h, move); }
    };
    template<class P> static Info look(P& x) { return {x.get(), 0, use_count(x)}; }
    template<class P> static a up(P& x, bool copy) { return give_as<a>(x, !copy); }
    template<class P> static auto ptr(P& x) { return x.get(); }
};
template<int K, template<class> class Ptr, class Root>
struct Q_smart_ref : Q_base<K, Root> {
    using a = const Ptr<Root>&;
    using p = om::virtual_<const Ptr<Root>&>;
    template<class X> using o = const Ptr<X>&;
    struct hold : smart_hold<Ptr, Root> {
        a pass(bool) { return this->h; }
    };
    template<class P> static Info look(const P& x) { return {x.get(), 0, use_count(x)}; }
    template<class P> static const P& up(const P& x, bool) { return x; }
    template<class P> static auto ptr(const P& x) { return x.get(); }
};
template<class Root> struct Q<SHP, Root> : Q_smart_val<SHP, shared, Root> {};
template<class Root> struct Q<UNP, Root> : Q_smart_val<UNP, unique, Root> {};
template<class Root> struct Q<INP, Root> : Q_smart_val<INP, intr, Root> {};
template<class Root> struct Q<SHPR, Root> : Q_smart_ref<SHPR, shared, Root> {};
template<class Root> struct Q<INPR, Root> : Q_smart_ref<INPR, intr, Root> {};
template<class Root> struct Q<VP, Root> : Q_base<VP, Root> {
    using a = vp<Root>;
    using p = vp<Root>;
    template<class X> using o = vp<X>;
    struct hold : raw_hold<Root> {
        a pass(bool) { return a(*this->obj); }
    };
    template<class P> static Info look(P& x) { return {x.get(), 0, x.vptr() ? -1 : -99}; }
    template<class P> static P& up(P& x, bool) { return x; }
    template<class P> static auto ptr(P& x) { return x.get(); }
};
template<class Root> struct Q<VPC, Root> : Q_base<VPC, Root> {
    using a = vp<const Root>;
    using p = vp<const Root>;
    template<class X> using o = vp<const X>;
    struct hold : raw_hold<Root> {
        a pass(bool) { return a(*this->obj); }
    };
    template<class P> static Info look(P& x) { return {x.get(), 0, x.vptr() ? -1 : -99}; }
    template<class P> static P& up(P& x, bool) { return x; }
    template<class P> static auto ptr(P& x) { return const_cast<std::remove_const_t<typename P::element_type>*>(x.get()); }
};
template<class Root> struct Q<VPR, Root> : Q_base<VPR, Root> {
    using a = const vp<Root>&;
    using p = const vp<Root>&;
    template<class X> using o = const vp<X>&;
    struct hold {
        std::unique_ptr<Root> obj;
        vp<Root> h{nullptr};
        void make(int cls, int id, long, bool) {
            obj.reset(make_object<Root>(cls, id));
            h = *obj;
        }
        void state(ArgState& s) {
            s.null = !h.get();
            s.addr = &h;
        }
        a pass(bool) { return h; }
    };
    template<class P> static Info look(const P& x) { return {x.get(), 0, x.vptr() ? -1 : -99}; }
    template<class P> static const P& up(const P& x, bool) { return x; }
    template<class P> static auto ptr(const P& x) { return x.get(); }
};
template<int K, template<class> class Ptr, class Root>
struct Q_vsmart_val : Q_base<K, Root> {
    using a = vp<Ptr<Root>>;
    using p = a;
    template<class X> using o = vp<Ptr<X>>;
    struct hold : vsmart_hold<Ptr, Root> {
        a pass(bool move) { return give(this->h, move); }
    };
    template<class P> static Info look(P& x) { return {x.get(), 0, x.vptr() ? use_count(x.pointer()) : -99}; }
    template<class P> static a up(P& x, bool copy) { return give_as<a>(x, !copy); }
    template<class P> static auto ptr(P& x) { return x.get(); }
};
template<int K, template<class> class Ptr, class Root>
struct Q_vsmart_ref : Q_base<K, Root> {
    using a = const vp<Ptr<Root>>&;
    using p = a;
    template<class X> using o = const vp<Ptr<X>>&;
    struct hold : vsmart_hold<Ptr, Root> {
        a pass(bool) { return this->h; }
    };
    template<class P> static Info look(const P& x) { return {x.get(), 0, x.vptr() ? use_count(x.pointer()) : -99}; }
    template<class P> static const P& up(const P& x, bool) { return x; }
    template<class P> static auto ptr(const P& x) { return x.get(); }
};
template<class Root> struct Q<VPS, Root> : Q_vsmart_val<VPS, shared, Root> {};
template<class Root> struct Q<VPU, Root> : Q_vsmart_val<VPU, unique, Root> {};
template<class Root> struct Q<VPI, Root> : Q_vsmart_val<VPI, intr, Root> {};
template<class Root> struct Q<VPSR, Root> : Q_vsmart_ref<VPSR, shared, Root> {};
template<class Root> struct Q<VPIR, Root> : Q_vsmart_ref<VPIR, intr, Root> {};

template<int K> struct N;
template<class T> struct track_hold {
    std::unique_ptr<T> h;
    void make(int, int, long v, bool) { h.reset(new T(v)); }
    void state(ArgState& s) {
        s.addr = h.get();
        s.val = h->val;
    }
};
template<int K> struct N_base {
    enum { kind = K, root = -1, virt = 0 };
    using Rt = void;
    template<class T> static Info look(const T& x) { return {&x, x.val, -1}; }
};
template<> struct N<TVAL> : N_base<TVAL> {
    using a = Tracked;
    using p = a;
    template<class> using o = a;
    struct hold : track_hold<Tracked> {
        a pass(bool move) { return give(*h, move); }
    };
    static a up(Tracked& x, bool copy) { return give(x, !copy); }
};
template<> struct N<TREF> : N_base<TREF> {
    using a = Tracked&;
    using p = a;
    template<class> using o = a;
    struct hold : track_hold<Tracked> {
        a pass(bool) { return *h; }
    };
    static a up(Tracked& x, bool) { return x; }
};
template<> struct N<TCREF> : N_base<TCREF> {
    using a = const Tracked&;
    using p = a;
    template<class> using o = a;
    struct hold : track_hold<Tracked> {
        a pass(bool) { return *h; }
    };
    static a up(const Tracked& x, bool) { return x; }
};
template<> struct N<TRREF> : N_base<TRREF> {
    using a = Tracked&&;
    using p = a;
    template<class> using o = a;
    struct hold : track_hold<Tracked> {
        a pass(bool) { return std::move(*h); }
    };
    static a up(Tracked& x, bool) { return std::move(x); }
};
template<> struct N<TPTR> : N_base<TPTR> {
    using a = Tracked*;
    using p = a;
    template<class> using o = a;
    struct hold : track_hold<Tracked> {
        a pass(bool) { return h.get(); }
    };
    static Info look(Tracked* x) { return {x, x->val, -1}; }
    static a up(Tracked* x, bool) { return x; }
};
template<> struct N<MVAL> : N_base<MVAL> {
    using a = MoveOnly;
    using p = a;
    template<class> using o = a;
    struct hold : track_hold<MoveOnly> {
        a pass(bool) { return MoveOnly(std::move(*h)); }
    };
    static a up(MoveOnly& x, bool) { return MoveOnly(std::move(x)); }
};
template<> struct N<MRREF> : N_base<MRREF> {
    using a = MoveOnly&&;
    using p = a;
    template<class> using o = a;
    struct hold : track_hold<MoveOnly> {
        a pass(bool) { return std::move(*h); }
    };
    static a up(MoveOnly& x, bool) { return std::move(x); }
};
template<> struct N<INT> : N_base<INT> {
    using a = long;
    using p = a;
    template<class> using o = a;
    struct hold {
        long h = 0;
        void make(int, int, long v, bool) { h = v; }
        void state(ArgState& s) {
            s.addr = &h;
            s.val = h;
        }
        a pass(bool) { return h; }
    };
    static Info look(long x) { return {nullptr, x, -1}; }
    static a up(long x, bool) { return x; }
};

// ---------------------------------------------------------------- results
// t: the method's result, o<C>: the overrider's; C: class of its first virtual parameter
struct RVoid {
    enum { kind = RVOID };
    using t = void;
    template<class> using o = void;
};
struct RTrack {
    enum { kind = RTRACK };
    using t = Tracked;
    template<class> using o = Tracked;
    static Outcome look(const Tracked& r) { return {&r, r.val}; }
    template<class Self, class X, class Args> static Tracked own(const Action& a, Args&) { return Tracked(a.value); }
};
struct RMove {
    enum { kind = RMOVE };
    using t = MoveOnly;
    template<class> using o = MoveOnly;
    static Outcome look(const MoveOnly& r) { return {&r, r.val}; }
    template<class Self, class X, class Args> static MoveOnly own(const Action& a, Args&) { return MoveOnly(a.value); }
};
// a reference to the first parameter of kind TREF
struct RRef {
    enum { kind = RREFARG };
    using t = Tracked&;
    template<class> using o = Tracked&;
    static Outcome look(Tracked& r) { return {&r, r.val}; }
};
// a pointer to the first virtual argument's object, as its own class
template<class Root> struct RCov {
    enum { kind = RCOV };
    using t = Root*;
    template<class X> using o = X*;
    static Outcome look(const Root* r) { return {r, 0}; }
};
// the first virtual argument (a unique_ptr or virtual_ptr to unique_ptr), given back
template<class P> struct RSelf {
    enum { kind = RSELF };
    using t = P;
    template<class X> using o = P;
    static Outcome look(const P& r) { return {r.get(), 0}; }
};
// a new shared_ptr to the class of the first virtual parameter, converted
template<class Root> struct RShr {
    enum { kind = RSHARED };
    using t = std::shared_ptr<Root>;
    template<class X> using o = std::shared_ptr<X>;
    static Outcome look(const t& r) { return {r.get(), r ? r.use_count() : 0}; }
};

template<class... Ss> struct first_virtual;
template<class S, class... Ss> struct first_virtual<S, Ss...> {
    static constexpr int v = S::virt ? 0 : 1 + first_virtual<Ss...>::v;
};
template<> struct first_virtual<> { static constexpr int v = 0; };
template<class... Ss> struct first_tref;
template<class S, class... Ss> struct first_tref<S, Ss...> {
    static constexpr int v = int(S::kind) == TREF ? 0 : 1 + first_tref<Ss...>::v;
};
template<> struct first_tref<> { static constexpr int v = 0; };

// ------------------------------------------------------------------ methods
template<int M> struct mid;

template<class Id, int M_, class Ret_, class... Ss>
struct Meth {
    enum { M = M_ };
    using Ret = Ret_;
    using meth = om::method<Id, typename Ret::t(typename Ss::p...), R>;
    static constexpr int fv = first_virtual<Ss...>::v;
    template<class... Cs> // one per parameter, void for the others
    struct Ov {
        static int index;
        using C0 = std::tuple_element_t<fv, std::tuple<Cs...>>;
        using Res = typename Ret::template o<C0>;
        static Res fn(typename Ss::template o<Cs>... args) {
            Info infos[] = {Ss::look(args)...};
            Action act = host->enter(M, index, infos, int(sizeof...(Ss)));
            constexpr bool take = Ret::kind == RTRACK || Ret::kind == RMOVE || Ret::kind == RREFARG || Ret::kind == RSELF;
            bool has = meth::template has_next<fn>();
            host->has_next(has);
            if constexpr (Ret::kind == RVOID) {
                if (act.next && has) {
                    meth::template next<fn>(Ss::up(args, act.copy)...);
                    host->next_returned({});
                }
                host->leave(M, index);
                return;
            } else {
                if (act.next && has) {
                    if constexpr (take) {
                        Res r = meth::template next<fn>(Ss::up(args, act.copy)...);
                        host->next_returned(Ret::look(r));
                        host->leave(M, index);
                        return static_cast<Res>(r_move(r));
                    } else {
                        auto r = meth::template next<fn>(Ss::up(args, true)...);
                        host->next_returned(Ret::look(r));
                    }
                }
                host->leave(M, index);
                if constexpr (Ret::kind == RTRACK || Ret::kind == RMOVE) return Res(act.value);
                else {
                    auto tup = std::forward_as_tuple(args...);
                    if constexpr (Ret::kind == RREFARG) return std::get<first_tref<Ss...>::v>(tup);
                    else if constexpr (Ret::kind == RCOV) return std::tuple_element_t<fv, std::tuple<Ss...>>::ptr(std::get<fv>(tup));
                    else if constexpr (Ret::kind == RSELF) return Res(std::move(std::get<fv>(tup)));
                    else return make_result<C0>(act.value);
                }
            }
        }
        template<class T> static decltype(auto) r_move(T& r) {
            if constexpr (std::is_reference_v<Res>) return static_cast<Res>(r);
            else return std::move(r);
        }
    };
    template<class X> static std::shared_ptr<X> make_result(long) { return std::make_shared<X>(host->new_id()); }

    // registration
    template<class List> struct as_ov;
    template<class... Cs> struct as_ov<std::tuple<Cs...>> { using type = Ov<Cs...>; };
    template<class... Os> // tuples of classes
    struct overriders {
        typename meth::template override<as_ov<Os>::type::fn...> reg;
        overriders(std::vector<Method>& ms, const char* name) {
            Method m;
            m.name = name;
            m.ret = Ret::kind;
            m.params = {Param{int(Ss::kind), int(Ss::root)}...};
            (add<typename as_ov<Os>::type>(m, (Os*)0), ...);
            if (int(ms.size()) != M) __builtin_trap();
            ms.push_back(m);
        }
        template<class O, class... Cs> static void add(Method& m, std::tuple<Cs...>*) {
            O::index = int(m.overriders.size());
            int codes[] = {int(code_of<Cs>::v)...};
            std::vector<int> v;
            for (int c : codes)
                if (c >= 0) v.push_back(c);
            m.overriders.push_back(v);
        }
    };

    template<class Call>
    static void call_with(const CallSpec& cs, Call&& call) {
        std::tuple<typename Ss::hold...> holds;
        ArgState before[MAXP], after[MAXP];
        each(holds, cs, before, [&](auto& h, int i, int v) {
            int id = -1;
            if (v >= 0) {
                id = host->new_id();
                before[i].obj = id;
            }
            h.make(v >= 0 ? cs.cls[v] : 0, id, cs.val[i], cs.keep[i]);
        });
        each(holds, cs, before, [&](auto& h, int i, int) { h.state(before[i]); });
        host->before(M, cs, before);
        Err e = OK;
        long err[4] = {};
        try {
            std::apply([&](auto&... h) { call(h...); }, holds);
        } catch (const Boom& b) {
            e = E_BOOM;
            err[0] = b.where;
        } catch (const std::bad_alloc&) {
            e = E_ALLOC;
        } catch (const om::no_overrider& x) {
            e = E_NOOVER;
            err[0] = long(x.arity);
            for (int k = 0; k < int(x.arity) && k < 2; ++k) err[1 + k] = long(reinterpret_cast<std::intptr_t>(x.types[k]));
            err[3] = x.method == R::rtti::template static_type<meth>();
        } catch (const om::ambiguous_call&) {
            e = E_AMBIGUOUS;
        } catch (const om::not_initialized&) {
            e = E_NOTINIT;
        } catch (...) {
            e = E_OTHER;
        }
        each(holds, cs, after, [&](auto& h, int i, int) { h.state(after[i]); });
        host->after(M, cs, after, e, err);
    }
    template<class H, class F>
    static void each(H& holds, const CallSpec& cs, ArgState* st, F&& f) {
        int i = 0, v = 0;
        constexpr bool virts[] = {bool(Ss::virt)...};
        std::apply([&](auto&... h) { ((f(h, i, virts[i] ? v++ : -1), ++i), ...); }, holds);
    }
    static void call(const CallSpec& cs) {
        call_with(cs, [&](auto&... h) {
            go(cs, std::index_sequence_for<Ss...>(), h...);
        });
    }
    template<std::size_t... Is, class... Hs>
    static void go(const CallSpec& cs, std::index_sequence<Is...>, Hs&... h) {
        if constexpr (Ret::kind == RVOID) {
            meth::fn(h.pass(cs.move[Is])...);
            host->returned(M, {});
        } else {
            decltype(auto) r = meth::fn(h.pass(cs.move[Is])...);
            host->returned(M, Ret::look(r));
        }
    }
};
template<class Id, int M_, class Ret_, class... Ss>
template<class... Cs>
int Meth<Id, M_, Ret_, Ss...>::Ov<Cs...>::index;

template<class C, class... Ss> using tup_for = std::tuple<std::conditional_t<bool(Ss::virt), C, void>...>;

static std::vector<Method>& all() {
    static std::vector<Method> v;
    return v;
}
using Caller = void (*)(const CallSpec&);
static std::vector<Caller>& callers() {
    static std::vector<Caller> v;
    return v;
}
// one virtual parameter
template<int M, class Ret, class... Ss>
struct U {
    using Mt = Meth<mid<M>, M, Ret, Ss...>;
    template<class... Cs>
    struct with {
        typename Mt::template overriders<tup_for<Cs, Ss...>...> o;
        explicit with(const char* name) : o(all(), name) { callers().push_back(&Mt::call); }
    };
};
// two virtual parameters
template<class X, class Y> struct pr {};
template<class T, class E> struct app;
template<class... Ts, class E> struct app<std::tuple<Ts...>, E> { using type = std::tuple<Ts..., E>; };
template<class T, class P, int I, class... Ss> struct mk2;
template<class T, class P, int I> struct mk2<T, P, I> { using type = T; };
template<class T, class X, class Y, int I, class S, class... Ss>
struct mk2<T, pr<X, Y>, I, S, Ss...> {
    using E = std::conditional_t<!S::virt, void, std::conditional_t<I == 0, X, Y>>;
    using type = typename mk2<typename app<T, E>::type, pr<X, Y>, I + int(S::virt), Ss...>::type;
};
template<int M, class Ret, class... Ss>
struct D {
    using Mt = Meth<mid<M>, M, Ret, Ss...>;
    template<class... Ps>
    struct with {
        typename Mt::template overriders<typename mk2<std::tuple<>, Ps, 0, Ss...>::type...> o;
        explicit with(const char* name) : o(all(), name) { callers().push_back(&Mt::call); }
    };
};

// clang-format off
static U<0, RTrack, Q<REF, A>, N<TVAL>, N<TREF>>::with<A, B, C, V, W> m0("ref");
static U<1, RVoid, N<TRREF>, Q<CREF, A>, N<MVAL>>::with<A, C, V> m1("cref");
static U<2, RMove, N<MVAL>, Q<RREF, A>, N<INT>>::with<A, B, V, W> m2("rref");
static U<3, RCov<A>, Q<PTR, A>, N<TCREF>>::with<A, B, C, V, W> m3("ptr");
static U<4, RCov<L>, Q<REF, L>, N<TVAL>>::with<L, C, W> m4("ref L");
static U<5, RTrack, Q<CPTR, A>, N<TPTR>, N<MRREF>>::with<A, B, W> m5("cptr");
static U<6, RSelf<std::shared_ptr<A>>, Q<SHP, A>, N<TVAL>>::with<A, B, C, V, W> m6("shared");
static U<7, RTrack, N<TVAL>, Q<SHPR, A>>::with<A, B, C, V, W> m7("shared cref");
static U<8, RSelf<std::unique_ptr<A>>, Q<UNP, A>, N<TCREF>>::with<A, B, C, V, W> m8("unique");
static U<9, RTrack, Q<INP, A>, N<TREF>>::with<A, B, C, V, W> m9("intrusive");
static U<10, RVoid, Q<INPR, A>, N<INT>>::with<A, B, V, W> m10("intrusive cref");
static U<11, RRef, Q<VP, A>, N<TREF>, N<TVAL>>::with<A, B, C, V, W> m11("vptr");
static U<12, RTrack, N<INT>, Q<VPC, A>>::with<A, B, C, V> m12("vptr const");
static U<13, RMove, Q<VPR, A>, N<MVAL>>::with<A, B, C, V, W> m13("vptr cref");
static U<14, RSelf<vp<std::shared_ptr<A>>>, Q<VPS, A>, N<TVAL>>::with<A, B, C, V, W> m14("vptr shared");
static U<15, RTrack, Q<VPSR, A>, N<TRREF>>::with<A, B, C, V, W> m15("vptr shared cref");
static U<16, RSelf<vp<std::unique_ptr<A>>>, Q<VPU, A>, N<MVAL>>::with<A, B, C, V, W> m16("vptr unique");
static U<17, RTrack, Q<VPI, A>, N<TVAL>>::with<A, B, C, V, W> m17("vptr intrusive");
static U<18, RVoid, Q<VPIR, A>, N<TREF>>::with<A, B, V> m18("vptr intrusive cref");
static U<19, RShr<A>, Q<VP, A>, N<TVAL>>::with<A, B, C, V, W> m19("shared result");
static U<20, RTrack, Q<SHP, L>, N<TVAL>>::with<L, C, W> m20("shared L");
static U<21, RSelf<vp<std::unique_ptr<L>>>, Q<VPU, L>>::with<L, C, W> m21("vptr unique L");
static U<22, RCov<L>, N<MRREF>, Q<VP, L>>::with<L, C, W> m22("vptr L");
static D<23, RTrack, Q<REF, A>, N<TVAL>, Q<VP, L>>::with<pr<A, L>, pr<B, L>, pr<C, C>, pr<V, W>> m23("ref+vptr");
static D<24, RVoid, Q<VPS, A>, N<TREF>, Q<VPS, L>, N<MVAL>>::with<pr<A, L>, pr<B, C>, pr<W, L>, pr<W, W>> m24("vptr shared x2");
static D<25, RTrack, Q<CREF, A>, Q<SHP, A>, N<TCREF>>::with<pr<A, A>, pr<B, A>, pr<B, V>, pr<C, W>> m25("cref+shared");
static D<26, RCov<A>, Q<VP, A>, N<TVAL>, Q<VPU, A>>::with<pr<A, A>, pr<V, A>, pr<V, B>, pr<W, C>> m26("vptr+vptr unique");
static D<27, RRef, N<TREF>, Q<PTR, L>, N<TVAL>, Q<RREF, A>>::with<pr<L, A>, pr<C, A>, pr<C, V>, pr<W, W>> m27("ptr+rref");
static U<28, RTrack, N<TVAL>, Q<VPU, A>, N<MVAL>>::with<B, V> m28("partial");
static D<29, RMove, N<MVAL>, Q<VPS, A>, N<TVAL>, Q<VPR, A>>::with<pr<B, A>, pr<A, B>, pr<V, V>> m29("partial+ambiguous");
// clang-format on

// ------------------------------------------------------------------- macros
namespace mac {
using std::shared_ptr;
using std::unique_ptr;
BOOST_OPENMETHOD(fm_a, (om::virtual_<A&>, Tracked, MoveOnly), Tracked, R);
BOOST_OPENMETHOD(fm_b, (om::virtual_ptr<shared_ptr<A>, R>, Tracked&), Tracked&, R);
BOOST_OPENMETHOD(fm_c, (om::virtual_ptr<unique_ptr<A>, R>, Tracked&&), void, R);

using Ma = Meth<BOOST_OPENMETHOD_ID(fm_a), 30, RTrack, Q<REF, A>, N<TVAL>, N<MVAL>>;
using Mb = Meth<BOOST_OPENMETHOD_ID(fm_b), 31, RRef, Q<VPS, A>, N<TREF>>;
using Mc = Meth<BOOST_OPENMETHOD_ID(fm_c), 32, RVoid, Q<VPU, A>, N<TRREF>>;

#define OVER_A(X, I)                                                                                                                    \
    BOOST_OPENMETHOD_OVERRIDE(fm_a, (X & x, Tracked t, MoveOnly m), Tracked) {                                                          \
        Info infos[] = {{&x, 0, -1}, {&t, t.val, -1}, {&m, m.val, -1}};                                                                 \
        Action act = host->enter(30, I, infos, 3);                                                                                      \
        host->has_next(has_next());                                                                                                     \
        if (act.next && has_next()) {                                                                                                   \
            Tracked r = act.copy ? next(x, t, std::move(m)) : next(x, std::move(t), std::move(m));                                      \
            host->next_returned(RTrack::look(r));                                                                                       \
            host->leave(30, I);                                                                                                         \
            return r;                                                                                                                   \
        }                                                                                                                               \
        host->leave(30, I);                                                                                                             \
        return Tracked(act.value);                                                                                                      \
    }
OVER_A(A, 0)
OVER_A(C, 1)
OVER_A(V, 2)
#define OVER_B(X, I)                                                                                                                    \
    BOOST_OPENMETHOD_OVERRIDE(fm_b, (om::virtual_ptr<shared_ptr<X>, R> x, Tracked & t), Tracked&) {                                      \
        Info infos[] = {Q<VPS, A>::look(x), {&t, t.val, -1}};                                                                           \
        Action act = host->enter(31, I, infos, 2);                                                                                      \
        host->has_next(has_next());                                                                                                     \
        if (act.next && has_next()) {                                                                                                   \
            Tracked& r = act.copy ? next(x, t) : next(std::move(x), t);                                                                 \
            host->next_returned(RRef::look(r));                                                                                         \
            host->leave(31, I);                                                                                                         \
            return r;                                                                                                                   \
        }                                                                                                                               \
        host->leave(31, I);                                                                                                             \
        return t;                                                                                                                       \
    }
OVER_B(A, 0)
OVER_B(B, 1)
OVER_B(W, 2)
#define OVER_C(X, I)                                                                                                                    \
    BOOST_OPENMETHOD_OVERRIDE(fm_c, (om::virtual_ptr<unique_ptr<X>, R> x, Tracked && t), void) {                                         \
        Info infos[] = {Q<VPU, A>::look(x), {&t, t.val, -1}};                                                                           \
        Action act = host->enter(32, I, infos, 2);                                                                                      \
        host->has_next(has_next());                                                                                                     \
        if (act.next && has_next()) {                                                                                                   \
            next(std::move(x), std::move(t));                                                                                           \
            host->next_returned({});                                                                                                    \
        }                                                                                                                               \
        host->leave(32, I);                                                                                                             \
    }
OVER_C(A, 0)
OVER_C(B, 1)
OVER_C(V, 2)
template<class Mt, class... Cs>
static void add(const char* name, std::vector<std::vector<int>> overriders, Caller call, int ret, std::vector<Param> ps) {
    Method m;
    m.name = name;
    m.ret = ret;
    m.params = ps;
    m.overriders = overriders;
    if (int(all().size()) != Mt::M) __builtin_trap();
    all().push_back(m);
    callers().push_back(call);
}
static struct AddAll {
    AddAll() {
        add<Ma>("macro ref", {{A_}, {C_}, {V_}}, [](const CallSpec& cs) {
            Ma::call_with(cs, [&](auto& a, auto& t, auto& m) {
                Tracked r = cs.move[1] ? fm_a(*a.obj, std::move(*t.h), std::move(*m.h)) : fm_a(*a.obj, *t.h, std::move(*m.h));
                host->returned(30, RTrack::look(r));
            });
        }, RTRACK, {{REF, A_}, {TVAL, -1}, {MVAL, -1}});
        add<Mb>("macro vptr shared", {{A_}, {B_}, {W_}}, [](const CallSpec& cs) {
            Mb::call_with(cs, [&](auto& a, auto& t) {
                Tracked& r = cs.move[0] ? fm_b(std::move(a.h), *t.h) : fm_b(a.h, *t.h);
                host->returned(31, RRef::look(r));
            });
        }, RREFARG, {{VPS, A_}, {TREF, -1}});
        add<Mc>("macro vptr unique", {{A_}, {B_}, {V_}}, [](const CallSpec& cs) {
            Mc::call_with(cs, [&](auto& a, auto& t) {
                fm_c(std::move(a.h), std::move(*t.h));
                host->returned(32, {});
            });
        }, RVOID, {{VPU, A_}, {TRREF, -1}});
    }
} add_all;
} // namespace mac

struct RegT : Reg {
    RegT() {}
    const char* name() override { return REG == 0 ? "direct" : "indirect"; }
    void initialize() override {
        methods = all();
        sim::LibScope ls;
        om::initialize<R>();
    }
    void finalize() override {
        sim::LibScope ls;
        om::finalize<R>();
    }
    void call(int m, const CallSpec& cs) override {
        sim::LibScope ls;
        callers()[m](cs);
    }
    long type_of(int c) override {
        switch (c) {
        case A_: return long(reinterpret_cast<std::intptr_t>(&typeid(A)));
        case B_: return long(reinterpret_cast<std::intptr_t>(&typeid(B)));
        case L_: return long(reinterpret_cast<std::intptr_t>(&typeid(L)));
        case C_: return long(reinterpret_cast<std::intptr_t>(&typeid(C)));
        case V_: return long(reinterpret_cast<std::intptr_t>(&typeid(V)));
        default: return long(reinterpret_cast<std::intptr_t>(&typeid(W)));
        }
    }
};
static RegT reg;
} // namespace
#if REG == 0
Reg* reg0() {
    reg.methods = all();
    return &reg;
}
#else
Reg* reg1() {
    reg.methods = all();
    return &reg;
}
#endif
} // namespace fwd
