// One registry of the "mods" world; compiled once per REG, with
// -fno-access-control: modules are loaded by constructing the library's own
// registrar objects in zeroed memory, and unloaded by destroying them.
#include "mods.hpp"
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <cstring>
#include <memory>
#include <new>
#include <tuple>

#ifndef REG
#define REG 0
#endif

namespace mods {
namespace om = boost::openmethod;
namespace pol = om::policies;
namespace {

struct O {
    int cls;
    explicit O(int c) : cls(c) {}
    virtual ~O() {}
};
struct A : virtual O {
    long a = 1;
    A() : O(A_) {}
    virtual void pure() = 0;
};
struct B : virtual A {
    long b = 2;
    B() : O(B_) {}
    void pure() override {}
};
struct C : virtual A {
    long c = 3;
    C() : O(C_) {}
    void pure() override {}
};
struct D : B, C {
    long d = 4;
    D() : O(D_) {}
    void pure() override {}
};
struct E : virtual O {
    long e[2] = {5, 6};
    E() : O(E_) {}
};
struct F : B, E {
    F() : O(F_) {}
};
struct G : D {
    long g = 7;
    G() : O(G_) {}
};
struct H : C {
    H() : O(H_) {}
};
struct I : H, E {
    long i = 8;
    I() : O(I_) {}
    virtual void pure2() = 0;
};
struct J : I {
    J() : O(J_) {}
    void pure2() override {}
};
template<class T> struct code_ { enum { v = -1 }; };
template<> struct code_<O> { enum { v = O_ }; };
template<> struct code_<A> { enum { v = A_ }; };
template<> struct code_<B> { enum { v = B_ }; };
template<> struct code_<C> { enum { v = C_ }; };
template<> struct code_<D> { enum { v = D_ }; };
template<> struct code_<E> { enum { v = E_ }; };
template<> struct code_<F> { enum { v = F_ }; };
template<> struct code_<G> { enum { v = G_ }; };
template<> struct code_<H> { enum { v = H_ }; };
template<> struct code_<I> { enum { v = I_ }; };
template<> struct code_<J> { enum { v = J_ }; };
template<class T> constexpr int code = code_<std::remove_cv_t<T>>::v;

const void* ids[NC];
template<class T> char tag;

template<class Category>
struct my_rtti : Category {
    template<class Registry>
    struct fn : Category::defaults {
        template<class T>
        static constexpr bool is_polymorphic = std::is_base_of_v<O, T>;
        template<class T>
        static auto static_type() -> om::type_id {
            if constexpr (code<T> >= 0) {
                if (host) host->read_id(REG, code<T>);
                return ids[code<T>];
            } else
                return &tag<T>;
        }
        template<class T>
        static auto dynamic_type(const T& o) -> om::type_id {
            if constexpr (std::is_base_of_v<O, T>) return ids[static_cast<const O&>(o).cls];
            else return nullptr;
        }
        template<class D, class B>
        static auto dynamic_cast_ref(B&& o) -> D {
            return dynamic_cast<D>(o);
        }
    };
};

#if REG == 0
struct R : om::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, pol::runtime_checks> {};
constexpr Traits traits{"std,hash", true, false, false, false};
#elif REG == 1
struct R : om::registry<my_rtti<pol::deferred_static_rtti>, pol::vptr_map<>, pol::throw_error_handler, pol::runtime_checks, pol::indirect_vptr> {};
constexpr Traits traits{"deferred,map,indirect", true, true, true, true};
#elif REG == 2
struct R : om::registry<my_rtti<pol::rtti>, pol::vptr_vector, pol::throw_error_handler, pol::runtime_checks> {};
constexpr Traits traits{"custom,vector", true, false, false, true};
#else
struct R : om::registry<my_rtti<pol::deferred_static_rtti>, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, pol::runtime_checks> {};
constexpr Traits traits{"deferred,hash", true, false, true, true};
#endif

template<class T> using vp = om::virtual_ptr<T, R>;
using om::virtual_;

// ------------------------------------------------------------------ objects
template<class T> T* object() {
    static T* p = [] { sim::HostScope hs; return new T; }();
    return p;
}
template<class T> std::shared_ptr<T> shared_object() {
    static std::shared_ptr<T>* p = [] { sim::HostScope hs; return new std::shared_ptr<T>(object<T>(), [](T*) {}); }();
    return *p;
}
O* obj(int cls) {
    switch (cls) {
    case O_: { static O* p = [] { sim::HostScope hs; return new O(O_); }(); return p; }
    case B_: return object<B>();
    case C_: return object<C>();
    case D_: return object<D>();
    case E_: return object<E>();
    case F_: return object<F>();
    case G_: return object<G>();
    case H_: return object<H>();
    case J_: return object<J>();
    default: return nullptr;
    }
}
template<class T> T& as(int cls) { return dynamic_cast<T&>(*obj(cls)); }
std::shared_ptr<O> shared_obj(int cls) {
    static std::shared_ptr<O> s[NC];
    sim::HostScope hs;
    if (!s[cls]) s[cls] = std::shared_ptr<O>(obj(cls), [](O*) {});
    return s[cls];
}
template<class T> std::shared_ptr<T> shared_as(int cls) {
    if constexpr (std::is_same_v<T, O>) return shared_obj(cls);
    else return std::dynamic_pointer_cast<T>(shared_obj(cls));
}
const void* sub_(int o, int c) {
    O* p = obj(o);
    switch (c) {
    case O_: return p;
    case A_: return dynamic_cast<A*>(p);
    case B_: return dynamic_cast<B*>(p);
    case C_: return dynamic_cast<C*>(p);
    case D_: return dynamic_cast<D*>(p);
    case E_: return dynamic_cast<E*>(p);
    case F_: return dynamic_cast<F*>(p);
    case G_: return dynamic_cast<G*>(p);
    case H_: return dynamic_cast<H*>(p);
    case I_: return dynamic_cast<I*>(p);
    case J_: return dynamic_cast<J*>(p);
    }
    return nullptr;
}

// --------------------------------------------------------------- parameters
template<class T> struct pREF {
    enum { kind = REF, cls = code<T> };
    using decl = virtual_<T&>;
    template<class U> using arg = U&;
    static T& make(int c, long) { return as<T>(c); }
};
template<class T> struct pCREF {
    enum { kind = CREF, cls = code<T> };
    using decl = virtual_<const T&>;
    template<class U> using arg = const U&;
    static const T& make(int c, long) { return as<T>(c); }
};
template<class T> struct pRREF {
    enum { kind = RREF, cls = code<T> };
    using decl = virtual_<T&&>;
    template<class U> using arg = U&&;
    static T&& make(int c, long) { return std::move(as<T>(c)); }
};
template<class T> struct pPTR {
    enum { kind = PTR, cls = code<T> };
    using decl = virtual_<T*>;
    template<class U> using arg = U*;
    static T* make(int c, long) { return &as<T>(c); }
};
template<class T> struct pVP {
    enum { kind = VP, cls = code<T> };
    using decl = vp<T>;
    template<class U> using arg = vp<U>;
    static T& make(int c, long) { return as<T>(c); }
};
template<class T> struct pCVP {
    enum { kind = CVP, cls = code<T> };
    using decl = const vp<T>&;
    template<class U> using arg = const vp<U>&;
    static vp<T> make(int c, long) { return vp<T>(as<T>(c)); }
};
template<class T> struct pSHP {
    enum { kind = SHP, cls = code<T> };
    using decl = virtual_<std::shared_ptr<T>>;
    template<class U> using arg = std::shared_ptr<U>;
    static std::shared_ptr<T> make(int c, long) { return shared_as<T>(c); }
};
template<class T> struct pCSHP {
    enum { kind = CSHP, cls = code<T> };
    using decl = virtual_<const std::shared_ptr<T>&>;
    template<class U> using arg = const std::shared_ptr<U>&;
    static std::shared_ptr<T> make(int c, long) { return shared_as<T>(c); }
};
template<class T> struct pVPS {
    enum { kind = VPS, cls = code<T> };
    using decl = vp<std::shared_ptr<T>>;
    template<class U> using arg = vp<std::shared_ptr<U>>;
    static std::shared_ptr<T> make(int c, long) { return shared_as<T>(c); }
};
struct pINT {
    enum { kind = INT, cls = -1 };
    using decl = long;
    template<class U> using arg = long;
    static long make(int, long v) { return v; }
};
struct Seen {
    const void* at[MAXV] = {};
    int n = 0;
    long ival = 0;
    void see(const O& o, const void* p) { (void)o; at[n++] = p; }
};
template<class T, class = std::enable_if_t<std::is_base_of_v<O, T>>> void look(Seen& s, T& x) { s.see(x, &x); }
template<class T, class = std::enable_if_t<std::is_base_of_v<O, T>>> void look(Seen& s, T* const& x) { s.see(*x, x); }
template<class T> void look(Seen& s, const vp<T>& x) { s.see(*x, &*x); }
template<class T> void look(Seen& s, const std::shared_ptr<T>& x) { s.see(*x, x.get()); }
void look(Seen& s, const long& v) { s.ival = v; }

// ------------------------------------------------------------------ results
template<class T> struct ret_;
template<> struct ret_<long> {
    enum { cls = -1 };
    static long make(int over) { return 1000 + over; }
    static long value(int over) { return 1000 + over; }
    template<class As> static long seen(long r) { return r; }
};
template<class T> struct results { // one result object per overrider
    static T* at(int over);
};
// results are objects of concrete classes; an overrider that returns an abstract class returns an object of a derived one
template<class T> struct conc { using type = T; };
template<> struct conc<A> { using type = B; };
template<> struct conc<I> { using type = J; };
template<class T> T* result_object(int over) {
    using K = typename conc<T>::type;
    static K* p[64];
    sim::HostScope hs;
    if (!p[over]) {
        if constexpr (std::is_same_v<K, O>) p[over] = new O(O_);
        else p[over] = new K;
    }
    return p[over];
}
template<class T> long address(T* p) { return reinterpret_cast<long>(static_cast<const void*>(static_cast<const O*>(p))); }
template<class T> struct ret_<T*> {
    enum { cls = code<T> };
    static T* make(int over) { return result_object<T>(over); }
    static long value(int over) { return address(result_object<T>(over)); }
};
template<class T> struct ret_<T&> {
    enum { cls = code<T> };
    static T& make(int over) { return *result_object<T>(over); }
    static long value(int over) { return address(result_object<T>(over)); }
};
template<class T> struct ret_<std::shared_ptr<T>> {
    enum { cls = code<T> };
    static std::shared_ptr<T> make(int over) { sim::HostScope hs; return std::shared_ptr<T>(result_object<T>(over), [](T*) {}); }
    static long value(int over) { return address(result_object<T>(over)); }
};
template<class T> struct ret_<vp<T>> {
    enum { cls = code<T> };
    static vp<T> make(int over) { return vp<T>(*result_object<T>(over)); }
    static long value(int over) { return address(result_object<T>(over)); }
};
template<> struct ret_<void> {
    enum { cls = -1 };
    static void make(int) {}
    static long value(int) { return 0; }
};
inline long got(long r) { return r; }
template<class T, class = std::enable_if_t<std::is_base_of_v<O, T>>> long got(T* p) { return address(p); }
template<class T, class = std::enable_if_t<std::is_base_of_v<O, T>>> long got(T& p) { return address(&p); }
template<class T> long got(const std::shared_ptr<T>& p) { return address(p.get()); }
template<class T> long got(const vp<T>& p) { return address(p.get()); }

// ------------------------------------------------------- methods, overriders
template<int M> struct mid;
template<class...> struct list {};
struct none {};

template<int Mth, class Ret, class... Ps>
struct Sig {
    enum { m = Mth };
    using ret = Ret;
    using pars = list<Ps...>;
    using method = om::method<mid<Mth>, Ret(typename Ps::decl...), R>;
};

template<class S, int N, class Ret, class Ps, class Cs> struct OverFn;
template<class S, int N, class Ret, class... Ps, class... Cs>
struct OverFn<S, N, Ret, list<Ps...>, list<Cs...>> {
    static Ret fn(typename Ps::template arg<Cs>... args) {
        Seen s;
        (look(s, args), ...);
        int what;
        bool has = S::method::template has_next<fn>();
        {
            sim::HostScope hs;
            what = host->enter(S::m, N, s.at, s.n, s.ival);
            host->has_next(has);
        }
        if (what == 2 || (what == 1 && has)) {
            if constexpr (std::is_void_v<typename S::ret>) S::method::template next<fn>(std::forward<typename Ps::template arg<Cs>>(args)...);
            else {
                decltype(auto) r = S::method::template next<fn>(std::forward<typename Ps::template arg<Cs>>(args)...);
                (void)r;
            }
            sim::HostScope hs;
            host->next_returned(true);
        }
        return ret_<Ret>::make(N);
    }
    using impl = typename S::method::template override_impl<fn, Ret>;
};

#define OV(S, N, Ret, ...) OverFn<S, N, Ret, S::pars, list<__VA_ARGS__>>
using M0 = Sig<0, long, pREF<A>>;
using M1 = Sig<1, void, pVP<O>>;
using M2 = Sig<2, long, pCREF<A>, pINT, pVP<E>>;
using M3 = Sig<3, long, pVP<A>, pCVP<A>>;
using M4 = Sig<4, A*, pPTR<B>>;
using M5 = Sig<5, A&, pVP<A>, pVP<A>>;
using M6 = Sig<6, vp<E>, pCVP<E>, pPTR<A>>;
using M7 = Sig<7, long, pINT, pVPS<E>>;
using M8 = Sig<8, long, pREF<C>, pCREF<C>, pRREF<A>>;
using M9 = Sig<9, std::shared_ptr<O>, pCSHP<O>, pSHP<E>>;
using Meths = std::tuple<M0, M1, M2, M3, M4, M5, M6, M7, M8, M9>;
using n = none;
using Overs = std::tuple<
    OV(M0, 0, long, A), OV(M0, 1, long, B), OV(M0, 2, long, C), OV(M0, 3, long, D), OV(M0, 4, long, F), OV(M0, 5, long, H), OV(M0, 6, long, J),
    OV(M1, 7, void, O), OV(M1, 8, void, A), OV(M1, 9, void, E), OV(M1, 10, void, F), OV(M1, 11, void, I),
    OV(M2, 12, long, A, n, E), OV(M2, 13, long, B, n, E), OV(M2, 14, long, A, n, F), OV(M2, 15, long, D, n, J), OV(M2, 16, long, H, n, I),
    OV(M3, 17, long, A, A), OV(M3, 18, long, B, A), OV(M3, 19, long, A, B), OV(M3, 20, long, C, D), OV(M3, 21, long, D, C), OV(M3, 22, long, F, H),
    OV(M4, 23, A*, B), OV(M4, 24, B*, D), OV(M4, 25, F*, F), OV(M4, 26, D*, G),
    OV(M5, 27, A&, A, A), OV(M5, 28, B&, B, A), OV(M5, 29, A&, A, B), OV(M5, 30, D&, D, A), OV(M5, 31, C&, A, D), OV(M5, 32, G&, B, C), OV(M5, 33, D&, C, B),
    OV(M6, 34, vp<E>, E, A), OV(M6, 35, vp<F>, F, A), OV(M6, 36, vp<E>, E, B), OV(M6, 37, vp<J>, J, C), OV(M6, 38, vp<I>, I, H),
    OV(M7, 39, long, n, E), OV(M7, 40, long, n, F), OV(M7, 41, long, n, I),
    OV(M8, 42, long, C, C, A), OV(M8, 43, long, D, C, A), OV(M8, 44, long, C, D, A), OV(M8, 45, long, C, C, C), OV(M8, 46, long, H, H, B), OV(M8, 47, long, D, D, D),
    OV(M9, 48, std::shared_ptr<O>, O, E), OV(M9, 49, std::shared_ptr<A>, A, E), OV(M9, 50, std::shared_ptr<E>, E, F), OV(M9, 51, std::shared_ptr<F>, F, E)>;

// ------------------------------------------------------------------ classes
template<class... Cs> struct Use {
    using type = om::use_classes<Cs..., R>;
    static std::vector<int> listed() { return {code<Cs>...}; }
};
using Uses = std::tuple<
    Use<O, A, B, C, D, E, F, G, H, I, J>, Use<O, A>, Use<O, E>, Use<A, B>, Use<A, C>, Use<B, C, D>, Use<A, B, C, D>, Use<B, E, F>, Use<D, G>, Use<C, H>,
    Use<H, E, I>, Use<I, J>, Use<J, I, E, H>, Use<G, D, C, B, A>, Use<E>, Use<A>, Use<O>, Use<F, B>, Use<F, E>, Use<J, A, E>, Use<A, D, G>, Use<D, C>,
    Use<B, D>, Use<A, O, E>, Use<J, I, H, G, F, E, D, C, B, A, O>, Use<H, C, A>, Use<J>, Use<G, A>, Use<D, B, C>, Use<E, F, B>, Use<I, H, C>, Use<I, E>>;

template<class F>
Err guard(F f) {
    Err e;
    try {
        f();
    } catch (om::not_initialized&) {
        e.kind = "not_initialized";
    } catch (om::no_overrider& x) {
        sim::HostScope hs;
        e.kind = "no_overrider";
        e.id = x.method;
        e.arity = x.arity;
        for (std::size_t i = 0; i < x.arity && i < 16; ++i) e.types.push_back(x.types[i]);
    } catch (om::ambiguous_call& x) {
        sim::HostScope hs;
        e.kind = "ambiguous_call";
        e.id = x.method;
        e.arity = x.arity;
        for (std::size_t i = 0; i < x.arity && i < 16; ++i) e.types.push_back(x.types[i]);
    } catch (om::missing_class& x) {
        e.kind = "missing_class";
        e.id = x.type;
    } catch (om::missing_base& x) {
        e.kind = "missing_base";
        e.id = x.base;
        e.id2 = x.derived;
    } catch (std::bad_alloc&) {
        e.kind = "bad_alloc";
    } catch (std::exception& x) {
        sim::HostScope hs;
        e.kind = std::string("exception ") + x.what();
    }
    return e;
}

template<std::size_t... I, class F>
void visit_(std::index_sequence<I...>, std::size_t i, F f) {
    (void)((I == i && (f(std::integral_constant<std::size_t, I>()), true)) || ...);
}
template<class Tuple, class F>
void visit(int i, F f) {
    visit_(std::make_index_sequence<std::tuple_size_v<Tuple>>(), std::size_t(i), f);
}
template<class T, int N> struct Slot { alignas(T) static char mem[sizeof(T)]; };
template<class T, int N> alignas(T) char Slot<T, N>::mem[sizeof(T)];
template<class T, int N> T* slot() { return reinterpret_cast<T*>(Slot<T, N>::mem); }
template<class T, int N> void construct() {
    memset(Slot<T, N>::mem, 0, sizeof(T));
    new (Slot<T, N>::mem) T;
}
template<class T, int N> void destroy() {
    slot<T, N>()->~T();
    memset(Slot<T, N>::mem, 0xbd, sizeof(T));
}

template<class S, class Ps> struct Caller;
template<class S, class... Ps>
struct Caller<S, list<Ps...>> {
    template<std::size_t... I>
    static void call(std::index_sequence<I...>, const int* c, long ival, long& out) {
        if constexpr (std::is_void_v<typename S::ret>) {
            S::method::fn(Ps::make(c[I], ival)...);
            out = 0;
        } else
            out = got(S::method::fn(Ps::make(c[I], ival)...));
    }
    static void go(const int* cls, long ival, long& out) {
        int c[sizeof...(Ps)];
        int i = 0, v = 0;
        ((c[i++] = Ps::kind == INT ? -1 : cls[v++]), ...);
        call(std::index_sequence_for<Ps...>(), c, ival, out);
    }
    static Meth describe() { return Meth{{Par{Ps::kind, Ps::cls}...}, ret_<typename S::ret>::cls}; }
};
template<class T> struct OverInfo;
template<class S, int N, class Ret, class... Ps, class... Cs>
struct OverInfo<OverFn<S, N, Ret, list<Ps...>, list<Cs...>>> {
    static Over describe() {
        Over o{S::m, {}, ret_<Ret>::cls};
        for (int c : {int(code<Cs>)...})
            if (c >= 0) o.cls.push_back(c);
        return o;
    }
    static long value() { return ret_<Ret>::value(N); }
    static void forget_next() { S::method::template next<OverFn<S, N, Ret, list<Ps...>, list<Cs...>>::fn> = nullptr; }
};

struct RegT : Reg {
    RegT() {
        t = traits;
        for (int i = 0; i < int(std::tuple_size_v<Uses>); ++i)
            visit<Uses>(i, [&](auto I) { classes.push_back(std::tuple_element_t<I.value, Uses>::listed()); });
        for (int i = 0; i < int(std::tuple_size_v<Meths>); ++i)
            visit<Meths>(i, [&](auto I) {
                using S = std::tuple_element_t<I.value, Meths>;
                methods.push_back(Caller<S, typename S::pars>::describe());
                S::method::fn.~method(); // its static constructor ran already: start unloaded
            });
        for (int i = 0; i < int(std::tuple_size_v<Overs>); ++i)
            visit<Overs>(i, [&](auto I) { overs.push_back(OverInfo<std::tuple_element_t<I.value, Overs>>::describe()); });
    }
    void load_classes(int i, int copy) override {
        sim::LibScope ls;
        visit<Uses>(i, [&](auto I) {
            using T = typename std::tuple_element_t<I.value, Uses>::type;
            if (copy) construct<T, 1>();
            else construct<T, 0>();
        });
    }
    void unload_classes(int i, int copy) override {
        sim::LibScope ls;
        visit<Uses>(i, [&](auto I) {
            using T = typename std::tuple_element_t<I.value, Uses>::type;
            if (copy) destroy<T, 1>();
            else destroy<T, 0>();
        });
    }
    void load_method(int m) override {
        sim::LibScope ls;
        visit<Meths>(m, [&](auto I) {
            using T = typename std::tuple_element_t<I.value, Meths>::method;
            memset((void*)&T::fn, 0, sizeof(T::fn));
            new ((void*)&T::fn) T;
        });
    }
    void unload_method(int m) override {
        sim::LibScope ls;
        visit<Meths>(m, [&](auto I) {
            using T = typename std::tuple_element_t<I.value, Meths>::method;
            T::fn.~T();
            memset((void*)&T::fn, 0xbd, sizeof(T::fn));
        });
    }
    void load_over(int o) override {
        sim::LibScope ls;
        visit<Overs>(o, [&](auto I) { construct<typename std::tuple_element_t<I.value, Overs>::impl, 0>(); });
    }
    void unload_over(int o) override {
        sim::LibScope ls;
        visit<Overs>(o, [&](auto I) {
            using T = std::tuple_element_t<I.value, Overs>;
            destroy<typename T::impl, 0>();
            OverInfo<T>::forget_next();
        });
    }
    template<class... Opts> void do_init(Report& r, Opts... opts) {
        auto c = om::initialize<R>(opts...);
        r = Report{c.report.cells, c.report.not_implemented, c.report.ambiguous};
    }
    Err init(int opts, Report& r) override {
        sim::LibScope ls;
        return guard([&] {
            switch (opts) {
            case 0: return do_init(r);
            case 1: return do_init(r, om::n2216());
            }
        });
    }
    Err fin() override {
        sim::LibScope ls;
        return guard([&] { om::finalize<R>(); });
    }
    Err call(int m, const int* cls, long ival, long& ret) override {
        sim::LibScope ls;
        Err e;
        visit<Meths>(m, [&](auto I) {
            using S = std::tuple_element_t<I.value, Meths>;
            e = guard([&] { Caller<S, typename S::pars>::go(cls, ival, ret); });
        });
        return e;
    }
    const void* type(int cls) override {
#if REG == 0
        static const std::type_info* t[] = {&typeid(O), &typeid(A), &typeid(B), &typeid(C), &typeid(D), &typeid(E), &typeid(F), &typeid(G), &typeid(H), &typeid(I), &typeid(J)};
        return t[cls];
#else
        return ids[cls];
#endif
    }
    const void* method_type(int m) override {
        const void* p = nullptr;
        visit<Meths>(m, [&](auto I) { p = R::rtti::template static_type<typename std::tuple_element_t<I.value, Meths>::method>(); });
        return p;
    }
    const void* sub(int o, int c) override { return sub_(o, c); }
    long ret_of(int o) override {
        long v = 0;
        visit<Overs>(o, [&](auto I) { v = OverInfo<std::tuple_element_t<I.value, Overs>>::value(); });
        return v;
    }
    template<class F> void with_class(int c, F f) {
        using All = std::tuple<O, A, B, C, D, E, F_t, G, H, I, J>;
        visit<All>(c, [&](auto K) { f((std::tuple_element_t<K.value, All>*)nullptr); });
    }
    using F_t = F;
    void poison_vptr(int c) override {
        with_class(c, [](auto* p) { R::static_vptr<std::remove_pointer_t<decltype(p)>> = nullptr; });
    }
    const void* peek_vptr(int c) override {
        const void* v = nullptr;
        with_class(c, [&](auto* p) { v = R::static_vptr<std::remove_pointer_t<decltype(p)>>; });
        return v;
    }
    void set_id(int cls, long id) override { ids[cls] = reinterpret_cast<const void*>(id); }
};
} // namespace
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
Reg* CAT(reg, REG)() {
    static RegT r;
    return &r;
}
} // namespace mods
