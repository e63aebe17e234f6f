// World "inplace": objects with embedded v-table pointers.  Classes, methods and
// registrars are real (ordinary library declarations); the simulator decides
// which objects are made, copied, assigned and destroyed, where constructors
// throw, when modules are loaded and the registry re-initialized, and interleaves
// several constructions.  Calls are made from every constructor, destructor,
// member initializer and member destructor, through every base.
#include "../sim.hpp"
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <cstring>
#include <memory>
#include <new>

namespace inp {
namespace om = boost::openmethod;
namespace pol = om::policies;
using sim::failed;
using sim::logf;
using sim::Op;
using sim::Plan;
using sim::Rng;

static std::string the_prop;
static void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void fail(const char* kind, const char* fmt, ...) {
    char b[900];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    sim::HostScope hs;
    sim::fail(kind, "%s", b);
}

// classes, in the order used by all the tables below
enum { A_, B_, C_, X_, Y_, Z_, M_, N_, P_, Q_, S_, NCLASS };
static const char* cname[] = {"A", "B", "C", "X", "Y", "Z", "M", "N", "P", "Q", "S"};
enum { RA, RX, RZ, NROOT };
static const std::vector<int> dbases[NCLASS] = {{}, {A_}, {B_}, {}, {X_}, {}, {B_, Y_}, {M_}, {C_, Y_, Z_}, {P_}, {X_, Z_}};
static int root_of[NCLASS] = {RA, -1, -1, RX, -1, RZ, -1, -1, -1, -1, -1};
static bool has_root(int c, int r) {
    if (root_of[c] == r) return true;
    for (int b : dbases[c])
        if (has_root(b, r)) return true;
    return false;
}
static bool derives(int d, int b) {
    if (d == b) return true;
    for (int x : dbases[d])
        if (derives(x, b)) return true;
    return false;
}
static int base_with_root(int c, int r) { // direct base of c that contains root r, -1 if c is the root
    for (int b : dbases[c])
        if (has_root(b, r)) return b;
    return -1;
}

struct Boom {
    int at;
};

// ------------------------------------------------------------------ objects
enum { UNKNOWN = -1, DEAD = -2 };
struct Ctx { // one complete object, or one being made or destroyed
    char* mem = nullptr;
    std::size_t size = 0;
    int cls = -1;
    bool live = false; // complete
    long epoch = 0;    // of the registry when it was made or last assigned
    int expect[NROOT] = {UNKNOWN, UNKNOWN, UNKNOWN};
    void* root[NROOT] = {};
};
constexpr int NSLOT = 8;

struct World;
struct RegBase {
    long epoch = 0;
    bool inited = false;
    bool plug = false, plug_now = false, extra = false, extra_now = false; // loaded / as of the last initialize
    virtual ~RegBase() {}
    virtual const char* name() = 0;
    virtual bool indirect() = 0;
    virtual bool checks() = 0;
    virtual bool throws() = 0;
    virtual void point(void* root) = 0;
    virtual void make(char* mem, int cls, int how) = 0;
    virtual std::size_t size(int cls) = 0;
    virtual bool abstract(int cls) = 0;
    int concrete(int cls) { return !abstract(cls) ? cls : cls == A_ ? int(B_) : int(Y_); }
    virtual void copy(char* mem, int cls, void* const* src_roots, int src_cls, int how) = 0;
    virtual void assign(void* const* dst, int dst_cls, void* const* src, int src_cls, int as, int how) = 0;
    virtual void destroy(void* const* roots, int cls, char* mem) = 0;
    virtual void roots(char* mem, int cls, void** roots) = 0;
    // calls through root r of an object expected to be of class e; several forms
    virtual long call(int r, void* root, int form, bool poly) = 0;
    virtual int forms(int r) = 0;
    virtual long call_pair(void* a, void* x) = 0;
    virtual int null_words(int r, void* root) = 0; // 1 null, 0 not, -1 unknown
    virtual void initialize() = 0;
    virtual void learn() = 0; // find the embedded pointers
    virtual void finalize() = 0;
    virtual void load(int what) = 0;
    virtual void unload(int what) = 0;
    virtual void hold(int n, void* root, int r) = 0; // virtual_ptr to the object
    virtual long call_held(int n) = 0;
};

struct EventSink {
    virtual void event(void* self, int cls, void* const* roots, int phase) = 0;
};
static EventSink* sink;
enum { CTOR, MEMBER, MCOPY, DTOR, MDTOR };
static const char* phname[] = {"ctor", "member", "member-copy", "dtor", "member-dtor"};

template<class R> struct A;
template<class R> struct X;
template<class R> struct Z;
template<class T> struct info;

template<class T>
void event(T* self, int phase) {
    using R = typename info<T>::reg;
    void* roots[NROOT] = {};
    if constexpr (std::is_base_of_v<A<R>, T>) roots[RA] = static_cast<A<R>*>(self);
    if constexpr (std::is_base_of_v<X<R>, T>) roots[RX] = static_cast<X<R>*>(self);
    if constexpr (std::is_base_of_v<Z<R>, T>) roots[RZ] = static_cast<Z<R>*>(self);
    sink->event(self, info<T>::code, roots, phase);
}

// a member: its initializer and destructor run after the bases are complete and
// before the class's own constructor body
template<class T>
struct Memb {
    T* self;
    explicit Memb(T* s) : self(s) { event(self, MEMBER); }
    Memb(const Memb& o) {
        auto off = reinterpret_cast<const char*>(&o) - reinterpret_cast<const char*>(o.self);
        self = reinterpret_cast<T*>(reinterpret_cast<char*>(this) - off);
        event(self, MCOPY);
    }
    Memb& operator=(const Memb&) { return *this; }
    ~Memb() { event(self, MDTOR); }
};

#define SPECIAL(T)                                                                                                     \
    T() { event(this, CTOR); }                                                                                         \
    T(const T&) = default;                                                                                             \
    T(T&&) = default;                                                                                                  \
    T& operator=(const T&) = default;                                                                                  \
    T& operator=(T&&) = default;                                                                                       \
    ~T() { event(this, DTOR); }

// in some registries the roots A and X are abstract
template<class R, bool> struct PureA {};
template<class R> struct PureA<R, true> {
    virtual int pure_a() = 0;
};
template<class R, bool> struct PureX {};
template<class R> struct PureX<R, true> {
    virtual int pure_x() = 0;
};
template<class R, class = void> struct abstract_roots : std::false_type {};
template<class R> struct abstract_roots<R, std::enable_if_t<R::abstract>> : std::true_type {};

template<class R>
struct A : om::inplace_vptr_base<A<R>, R>, PureA<R, abstract_roots<R>::value> {
    int tagA = 1000 + A_;
    SPECIAL(A)
};
template<class R>
struct B : A<R>, om::inplace_vptr_derived<B<R>, A<R>> {
    int tagB = 1000 + B_;
    int pure_a() { return 1; }
    Memb<B> memb{this};
    SPECIAL(B)
};
template<class R>
struct C : B<R>, om::inplace_vptr_derived<C<R>, B<R>> {
    int tagC = 1000 + C_;
    SPECIAL(C)
};
template<class R>
struct X : om::inplace_vptr_base<X<R>, R>, PureX<R, abstract_roots<R>::value> {
    int tagX = 1000 + X_;
    X() { event(this, CTOR); }
    X(const X&) = default;
    X(X&&) = default;
    X& operator=(const X&) = default;
    X& operator=(X&&) = default;
    virtual ~X() { event(this, DTOR); }
};
template<class R>
struct Y : X<R>, om::inplace_vptr_derived<Y<R>, X<R>> {
    int tagY = 1000 + Y_;
    int pure_x() { return 1; }
    SPECIAL(Y)
};
template<class R>
struct Z : om::inplace_vptr_base<Z<R>, R> {
    int tagZ = 1000 + Z_;
    SPECIAL(Z)
};
template<class R>
struct M : B<R>, Y<R>, om::inplace_vptr_derived<M<R>, B<R>, Y<R>> {
    int tagM = 1000 + M_;
    Memb<M> memb{this};
    SPECIAL(M)
};
template<class R>
struct N : M<R>, om::inplace_vptr_derived<N<R>, M<R>> {
    int tagN = 1000 + N_;
    SPECIAL(N)
};
template<class R>
struct P : C<R>, Y<R>, Z<R>, om::inplace_vptr_derived<P<R>, C<R>, Y<R>, Z<R>> {
    int tagP = 1000 + P_;
    SPECIAL(P)
};
template<class R>
struct Q : P<R>, om::inplace_vptr_derived<Q<R>, P<R>> {
    int tagQ = 1000 + Q_;
    Memb<Q> memb{this};
    SPECIAL(Q)
};
template<class R>
struct S : X<R>, Z<R>, om::inplace_vptr_derived<S<R>, X<R>, Z<R>> {
    int tagS = 1000 + S_;
    int pure_x() { return 1; }
    SPECIAL(S)
};
#define INFO(T)                                                                                                        \
    template<class R>                                                                                                  \
    struct info<T<R>> {                                                                                                \
        using reg = R;                                                                                                 \
        static constexpr int code = T##_;                                                                              \
        static int tag(const T<R>& o) { return o.tag##T; }                                                             \
    };
INFO(A) INFO(B) INFO(C) INFO(X) INFO(Y) INFO(Z) INFO(M) INFO(N) INFO(P) INFO(Q) INFO(S)
#undef INFO
// classes of the "extra" module; never instantiated
template<class R> struct E1 : B<R> {};
template<class R> struct E2 : E1<R>, X<R> {};

// ------------------------------------------------------------------ methods
struct who_id;
struct whoc_id;
struct whop_id;
struct wvp_id;
struct lvl_id;
struct pair_id;
template<class Rt, class R> using who = om::method<who_id, long(om::virtual_<Rt&>), R>;
template<class Rt, class R> using whoc = om::method<whoc_id, long(int, om::virtual_<const Rt&>), R>;
template<class Rt, class R> using whop = om::method<whop_id, long(om::virtual_<Rt*>), R>;
template<class R> using wvp = om::method<wvp_id, long(om::virtual_ptr<X<R>, R>), R>;
template<class R> using lvl = om::method<lvl_id, long(om::virtual_<B<R>&>), R>;
template<class R> using mpair = om::method<pair_id, long(om::virtual_<A<R>&>, om::virtual_<const X<R>&>), R>;

template<class T> long f_who(T& o) { return info<T>::tag(o); }
template<class T> long f_whoc(int n, const T& o) { return n == 77 ? info<T>::tag(o) : -77; }
template<class T> long f_whop(T* o) { return info<T>::tag(*o); }
template<class T> long f_wvp(om::virtual_ptr<T, typename info<T>::reg> o) { return info<T>::tag(*o); }
template<class T> long f_lvl(T& o) { return info<T>::tag(o); }
template<class T, class U> long f_pair(T& a, const U& x) { return info<T>::tag(a) * 10000 + info<U>::tag(x); }
// the "plug" module's overrider of who(A&) for C
template<class R> long f_plug(A<R>& o) { return 5000 + info<C<R>>::tag(static_cast<C<R>&>(o)); }

template<class R>
struct Regs {
    typename who<A<R>, R>::template override<
        f_who<A<R>>, f_who<B<R>>, f_who<M<R>>, f_who<N<R>>, f_who<P<R>>, f_who<Q<R>>>
        a;
    typename who<X<R>, R>::template override<
        f_who<X<R>>, f_who<Y<R>>, f_who<M<R>>, f_who<N<R>>, f_who<P<R>>, f_who<Q<R>>, f_who<S<R>>>
        x;
    typename who<Z<R>, R>::template override<f_who<Z<R>>, f_who<P<R>>, f_who<Q<R>>, f_who<S<R>>> z;
    typename whoc<A<R>, R>::template override<
        f_whoc<A<R>>, f_whoc<B<R>>, f_whoc<C<R>>, f_whoc<M<R>>, f_whoc<N<R>>, f_whoc<P<R>>, f_whoc<Q<R>>>
        ca;
    typename whoc<X<R>, R>::template override<
        f_whoc<X<R>>, f_whoc<Y<R>>, f_whoc<M<R>>, f_whoc<N<R>>, f_whoc<P<R>>, f_whoc<Q<R>>, f_whoc<S<R>>>
        cx;
    typename whop<A<R>, R>::template override<
        f_whop<A<R>>, f_whop<B<R>>, f_whop<C<R>>, f_whop<M<R>>, f_whop<N<R>>, f_whop<P<R>>, f_whop<Q<R>>>
        pa;
    typename whop<Z<R>, R>::template override<f_whop<Z<R>>, f_whop<P<R>>, f_whop<Q<R>>, f_whop<S<R>>> pz;
    typename lvl<R>::template override<f_lvl<B<R>>, f_lvl<C<R>>, f_lvl<M<R>>, f_lvl<Q<R>>> l;
    typename mpair<R>::template override<
        f_pair<A<R>, X<R>>, f_pair<B<R>, X<R>>, f_pair<A<R>, Y<R>>, f_pair<B<R>, Y<R>>, f_pair<M<R>, M<R>>, f_pair<P<R>, P<R>>, f_pair<Q<R>, Q<R>>>
        p;
};
template<class R>
struct RegsVp {
    typename wvp<R>::template override<
        f_wvp<X<R>>, f_wvp<Y<R>>, f_wvp<M<R>>, f_wvp<N<R>>, f_wvp<P<R>>, f_wvp<Q<R>>, f_wvp<S<R>>>
        v;
};

// what the tables above must give
static long exp_who(int r, int e) { // who: C has no overrider in RA: B's runs
    return 1000 + (r == RA && e == C_ ? B_ : e);
}
static long exp_lvl(int e) { return 1000 + (derives(e, Q_) ? Q_ : derives(e, M_) ? M_ : derives(e, C_) ? C_ : B_); }
static long exp_pair(int a, int x) {
    if (derives(a, Q_) && derives(x, Q_)) return 1000l * 10000 + Q_ * 10000 + 1000 + Q_;
    if (derives(a, P_) && derives(x, P_)) return (1000l + P_) * 10000 + 1000 + P_;
    if (derives(a, M_) && derives(x, M_)) return (1000l + M_) * 10000 + 1000 + M_;
    return (1000l + (derives(a, B_) ? B_ : A_)) * 10000 + 1000 + (derives(x, Y_) ? Y_ : X_);
}

// --------------------------------------------------------------- registries
struct direct : om::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, pol::runtime_checks> {};
struct indirect : om::registry<pol::std_rtti, pol::vptr_map<>, pol::throw_error_handler, pol::runtime_checks, pol::indirect_vptr> {};
struct noobj : om::registry<pol::static_rtti> {};
struct noobj_ind : om::registry<pol::static_rtti, pol::indirect_vptr, pol::runtime_checks> {};
struct abs_direct : om::registry<pol::std_rtti, pol::vptr_map<>, pol::throw_error_handler, pol::runtime_checks> {
    static constexpr bool abstract = true;
};
struct abs_indirect : om::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, pol::runtime_checks, pol::indirect_vptr> {
    static constexpr bool abstract = true;
};
static Regs<abs_direct> regs_ad;
static RegsVp<abs_direct> regsvp_ad;
static Regs<abs_indirect> regs_ai;
static RegsVp<abs_indirect> regsvp_ai;
static Regs<direct> regs_d;
static RegsVp<direct> regsvp_d;
static Regs<indirect> regs_i;
static RegsVp<indirect> regsvp_i;
static Regs<noobj> regs_n;
static Regs<noobj_ind> regs_ni;

template<class R> constexpr bool poly = R::rtti::template is_polymorphic<X<R>>;

template<class R, class F>
static void on_class(int c, F f) {
    switch (c) {
    case A_: f(static_cast<A<R>*>(nullptr)); break;
    case B_: f(static_cast<B<R>*>(nullptr)); break;
    case C_: f(static_cast<C<R>*>(nullptr)); break;
    case X_: f(static_cast<X<R>*>(nullptr)); break;
    case Y_: f(static_cast<Y<R>*>(nullptr)); break;
    case Z_: f(static_cast<Z<R>*>(nullptr)); break;
    case M_: f(static_cast<M<R>*>(nullptr)); break;
    case N_: f(static_cast<N<R>*>(nullptr)); break;
    case P_: f(static_cast<P<R>*>(nullptr)); break;
    case Q_: f(static_cast<Q<R>*>(nullptr)); break;
    case S_: f(static_cast<S<R>*>(nullptr)); break;
    }
}
template<class T, class R>
static T* from_roots(void* const* roots) { // any root pointer of a complete object that is a T or derives from T
    if constexpr (std::is_base_of_v<A<R>, T>) return static_cast<T*>(static_cast<A<R>*>(roots[RA]));
    else if constexpr (std::is_base_of_v<X<R>, T>) return static_cast<T*>(static_cast<X<R>*>(roots[RX]));
    else return static_cast<T*>(static_cast<Z<R>*>(roots[RZ]));
}

template<class R>
struct RegT : RegBase {
    const char* nm;
    // where the embedded pointer is in each root, found on a scratch object
    int off[NROOT] = {-1, -1, -1};
    explicit RegT(const char* n) : nm(n) {}
    const char* name() override { return nm; }
    bool indirect() override { return R::has_indirect_vptr; }
    bool checks() override { return R::has_runtime_checks; }
    bool throws() override { return R::has_error_handler; }
    void point(void* root) override {
        if constexpr (poly<R>) {
            om::virtual_ptr<X<R>, R> p(static_cast<X<R>*>(root));
            (void)p;
        }
    }
    std::size_t size(int c) override {
        std::size_t n = 0;
        on_class<R>(c, [&](auto* t) { n = sizeof(*t); });
        return n;
    }
    bool abstract(int c) override {
        bool a = false;
        on_class<R>(c, [&](auto* t) { a = std::is_abstract_v<std::remove_reference_t<decltype(*t)>>; });
        return a;
    }
    void make(char* mem, int c, int how) override {
        on_class<R>(c, [&](auto* t) {
            using T = std::remove_reference_t<decltype(*t)>;
            if constexpr (!std::is_abstract_v<T>) {
                if (how == 0) new (mem) T;
                else new (mem) T();
            }
        });
    }
    void copy(char* mem, int c, void* const* src, int, int how) override {
        on_class<R>(c, [&](auto* t) {
            using T = std::remove_reference_t<decltype(*t)>;
            T* s = from_roots<T, R>(src);
            if constexpr (!std::is_abstract_v<T>) {
                if (how == 0) new (mem) T(*s);
                else if (how == 1) new (mem) T(std::move(*s));
                else new (mem) T(static_cast<const T&>(*s));
            }
        });
    }
    void assign(void* const* dst, int, void* const* src, int, int as, int how) override {
        on_class<R>(as, [&](auto* t) {
            using T = std::remove_reference_t<decltype(*t)>;
            T *d = from_roots<T, R>(dst), *s = from_roots<T, R>(src);
            if (how == 0) *d = *s;
            else if constexpr (std::is_abstract_v<T>) *d = std::move(*s);
            else if (how == 1) *d = std::move(*s);
            else std::swap(*d, *s);
        });
    }
    void destroy(void* const* rt, int c, char*) override {
        on_class<R>(c, [&](auto* t) {
            using T = std::remove_reference_t<decltype(*t)>;
            from_roots<T, R>(rt)->~T();
        });
    }
    void roots(char* mem, int c, void** rt) override {
        on_class<R>(c, [&](auto* t) {
            using T = std::remove_reference_t<decltype(*t)>;
            T* o = reinterpret_cast<T*>(mem);
            if constexpr (std::is_base_of_v<A<R>, T>) rt[RA] = static_cast<A<R>*>(o);
            if constexpr (std::is_base_of_v<X<R>, T>) rt[RX] = static_cast<X<R>*>(o);
            if constexpr (std::is_base_of_v<Z<R>, T>) rt[RZ] = static_cast<Z<R>*>(o);
        });
    }
    // the polymorphic forms are not available with static_rtti
    int forms(int r) override { return r == RA ? 3 : r == RX ? (poly<R> ? 4 : 2) : 2; }
    long call(int r, void* root, int form, bool) override {
        if (r == RA) {
            auto& o = *static_cast<A<R>*>(root);
            if (form == 0) return who<A<R>, R>::fn(o);
            if (form == 1) return whoc<A<R>, R>::fn(77, o);
            return whop<A<R>, R>::fn(&o);
        } else if (r == RX) {
            auto& o = *static_cast<X<R>*>(root);
            if (form == 0) return who<X<R>, R>::fn(o);
            if (form == 1) return whoc<X<R>, R>::fn(77, o);
            if constexpr (poly<R>) {
                if (form == 2) return wvp<R>::fn(o);
                om::virtual_ptr<X<R>, R> p(o);
                return wvp<R>::fn(p);
            }
            return -1;
        }
        auto& o = *static_cast<Z<R>*>(root);
        if (form == 0) return who<Z<R>, R>::fn(o);
        return whop<Z<R>, R>::fn(&o);
    }
    long call_pair(void* a, void* x) override { return mpair<R>::fn(*static_cast<A<R>*>(a), *static_cast<X<R>*>(x)); }
    struct Held {
        bool on = false;
        long (*call)(RegT*, int) = nullptr;
    };
    std::conditional_t<poly<R>, om::virtual_ptr<X<R>, R>, int> held[NSLOT + 1] = {};
    void hold(int n, void* root, int r) override {
        if constexpr (poly<R>) {
            if (r == RX) held[n] = *static_cast<X<R>*>(root);
        }
    }
    long call_held(int n) override {
        if constexpr (poly<R>) return wvp<R>::fn(held[n]);
        else return -1;
    }
    void learn() override {
        // find the embedded pointers: the word that holds the v-table of the class
        auto find = [&](int r, const void* o, std::size_t n, const void* want) {
            off[r] = -1;
            int hits = 0;
            for (std::size_t i = 0; i + sizeof(void*) <= n; i += sizeof(void*))
                if (!memcmp(static_cast<const char*>(o) + i, &want, sizeof want)) off[r] = int(i), ++hits;
            if (hits != 1) off[r] = -1;
        };
        EventSink* s = sink;
        struct None : EventSink {
            void event(void*, int, void* const*, int) override {}
        } none;
        sink = &none;
        {
            // an object of the root, or of a class derived from it
            using TA = std::conditional_t<std::is_abstract_v<A<R>>, B<R>, A<R>>;
            using TX = std::conditional_t<std::is_abstract_v<X<R>>, Y<R>, X<R>>;
            TA a;
            TX x;
            Z<R> z;
            A<R>* pa = &a;
            X<R>* px = &x;
            if constexpr (R::has_indirect_vptr) {
                find(RA, pa, sizeof *pa, &R::template static_vptr<TA>);
                find(RX, px, sizeof *px, &R::template static_vptr<TX>);
                find(RZ, &z, sizeof z, &R::template static_vptr<Z<R>>);
            } else {
                find(RA, pa, sizeof *pa, R::template static_vptr<TA>);
                find(RX, px, sizeof *px, R::template static_vptr<TX>);
                find(RZ, &z, sizeof z, R::template static_vptr<Z<R>>);
            }
        }
        sink = s;
    }
    int null_words(int r, void* root) override {
        if (off[r] < 0) return -1;
        void* w;
        memcpy(&w, static_cast<char*>(root) + off[r], sizeof w);
        return w == nullptr;
    }
    void initialize() override {
        sim::LibScope ls;
        om::initialize<R>();
    }
    void finalize() override {
        sim::LibScope ls;
        om::finalize<R>();
    }
    // modules
    using Extra = om::use_classes<B<R>, E1<R>, X<R>, E2<R>, R>;
    alignas(Extra) char extra_mem[sizeof(Extra)] = {};
    struct Plug : om::detail::overrider_info {
        om::type_id ids[1];
        void (*nx)();
    };
    alignas(Plug) char plug_mem[sizeof(Plug)] = {};
    Plug* plugp = nullptr;
    Extra* extrap = nullptr;
    void load(int what) override {
        sim::LibScope ls;
        if (what == 0) {
            memset(extra_mem, 0, sizeof extra_mem);
            extrap = new (extra_mem) Extra;
        } else {
            memset(plug_mem, 0, sizeof plug_mem);
            plugp = new (plug_mem) Plug;
            plugp->method = &who<A<R>, R>::fn;
            plugp->ids[0] = R::rtti::template static_type<C<R>>();
            plugp->vp_begin = plugp->ids;
            plugp->vp_end = plugp->ids + 1;
            plugp->next = &plugp->nx;
            plugp->type = R::rtti::template static_type<Plug>();
            plugp->return_type = R::rtti::template static_type<void>();
            plugp->pf = reinterpret_cast<void (*)()>(&f_plug<R>);
            who<A<R>, R>::fn.overriders.push_back(*plugp);
        }
    }
    void unload(int what) override {
        sim::LibScope ls;
        if (what == 0) {
            extrap->~Extra();
        } else {
            plugp->~Plug();
        }
    }
};
static RegT<direct> rt_d("direct");
static RegT<indirect> rt_i("indirect");
static RegT<noobj> rt_n("static_rtti,direct");
static RegT<noobj_ind> rt_ni("static_rtti,indirect");
static RegT<abs_direct> rt_ad("abstract roots,direct");
static RegT<abs_indirect> rt_ai("abstract roots,indirect");
static RegBase* all_regs[] = {&rt_d, &rt_i, &rt_n, &rt_ni, &rt_ad, &rt_ai};
constexpr unsigned long NREG = sizeof all_regs / sizeof *all_regs;

// -------------------------------------------------------------------- world
struct InplaceWorld : sim::World, EventSink {
    const char* name() const override { return "inplace"; }
    RegBase* R = nullptr;
    Ctx slots[NSLOT];
    long held[NSLOT]; // epoch, -1 none
    int heldcls[NSLOT];
    unsigned probe_pm = 0;
    std::uint64_t prng = 0;
    struct Op1 { // state of the operation running on one fiber
        long throw_at = -1;
        long events = 0;
        Ctx* extra = nullptr; // array elements
        int nextra = 0;
    } cur[17];
    Op1& me() { return cur[sim::Fibers::current() + 1]; }

    Ctx* ctx_of(const void* p) {
        auto c = static_cast<const char*>(p);
        for (auto& s : slots)
            if (s.mem && c >= s.mem && c < s.mem + s.size) return &s;
        for (auto& o : cur)
            for (int i = 0; i < o.nextra; ++i)
                if (c >= o.extra[i].mem && c < o.extra[i].mem + o.extra[i].size) return &o.extra[i];
        return nullptr;
    }
    // class c's part of the object is being left: its bases take over
    void end_class(Ctx& x, int c) {
        for (int r = 0; r < NROOT; ++r)
            if (has_root(c, r)) {
                int b = base_with_root(c, r);
                x.expect[r] = b < 0 ? int(DEAD) : b;
            }
    }
    bool usable(const Ctx& x) const { return R->indirect() || x.epoch == R->epoch; }
    void check_dead(Ctx& x, const char* where) {
        for (int r = 0; r < NROOT; ++r)
            if (x.expect[r] == DEAD && x.root[r] && R->null_words(r, x.root[r]) == 0)
                fail("inplace-not-null", "%s: the v-table pointer of a destroyed %s sub-object of a %s is not null", where, r == RA ? "A" : r == RX ? "X" : "Z",
                     cname[x.cls]);
    }
    // before the first initialize and after finalize every use is reported
    void probe_un(Ctx& x, const char* where) {
        if (!R->checks()) return;
        auto is_reported = [&](auto f) {
            bool thrown = false;
            auto run = [&] {
                try {
                    sim::LibScope ls;
                    f();
                } catch (const om::not_initialized&) {
                    thrown = true;
                } catch (const om::openmethod_error&) {
                } catch (const std::runtime_error&) {
                }
            };
            if (R->throws()) run();
            else thrown = sim::aborts(run);
            sim::count("inplace.not_initialized");
            return thrown;
        };
        for (int r = 0; r < NROOT && !failed(); ++r) {
            if (x.expect[r] < 0) continue;
            for (int f = 0, n = R->forms(r); f < n && !failed(); ++f)
                if (!is_reported([&] { R->call(r, x.root[r], f, false); }))
                    fail("inplace-not-reported", "%s of a %s: a call through its %s base (form %d) does not report not_initialized", where, cname[x.cls],
                         r == RA ? "A" : r == RX ? "X" : "Z", f);
            if (r == RX && R->forms(RX) > 2 && !failed() && !is_reported([&] { R->point(x.root[r]); }))
                fail("inplace-not-reported", "%s of a %s: a virtual_ptr to it is made without reporting not_initialized", where, cname[x.cls]);
            if (r == RX && R->forms(RX) > 2 && !failed() && !is_reported([&] { R->hold(NSLOT, x.root[r], RX); }))
                fail("inplace-not-reported", "%s of a %s: a virtual_ptr to it is assigned without reporting not_initialized", where, cname[x.cls]);
        }
        if (x.expect[RA] >= 0 && x.expect[RX] >= 0 && !failed() && !is_reported([&] { R->call_pair(x.root[RA], x.root[RX]); }))
            fail("inplace-not-reported", "%s of a %s: a call with both its A and X bases does not report not_initialized", where, cname[x.cls]);
    }
    void probe(Ctx& x, const char* where, bool all) {
        if (!R->inited) probe_un(x, where);
        if (!R->inited || !usable(x)) return;
        for (int r = 0; r < NROOT && !failed(); ++r) {
            if (x.expect[r] < 0) continue;
            int e = x.expect[r];
            prng = sim::mix(prng, 17);
            int nf = R->forms(r), f0 = all ? 0 : int(prng % nf), f1 = all ? nf : f0 + 1;
            for (int f = f0; f < f1; ++f) {
                long want = f == 0 ? exp_who(r, e) : 1000 + e;
                if (r == RA && f == 0 && e == C_ && R->plug_now) want = 6000 + C_;
                if (r == RA && f == 0 && R->plug_now && derives(e, C_) && e != C_) want = 1000 + e;
                long got = do_call(r, x.root[r], f);
                sim::count("inplace.call");
                if (got != want)
                    fail("inplace-wrong-class", "%s of a %s: a call through its %s base (form %d) ran overrider %s, expected %s", where, cname[x.cls],
                         r == RA ? "A" : r == RX ? "X" : "Z", f, label(got).c_str(), label(want).c_str());
            }
        }
        if (x.expect[RA] >= 0 && x.expect[RX] >= 0 && !failed()) {
            long got, want = exp_pair(x.expect[RA], x.expect[RX]);
            {
                sim::LibScope ls;
                got = R->call_pair(x.root[RA], x.root[RX]);
            }
            sim::count("inplace.call_pair");
            if (got != want) fail("inplace-wrong-class", "%s of a %s: a call with both its A and X bases returned %ld, expected %ld", where, cname[x.cls], got, want);
        }
    }
    static std::string label(long v) {
        if (v >= 6000 && v < 6000 + NCLASS) return std::string("plug:") + cname[v - 6000];
        if (v >= 1000 && v < 1000 + NCLASS) return cname[v - 1000];
        return std::to_string(v);
    }
    long do_call(int r, void* root, int f) {
        try {
            sim::LibScope ls;
            return R->call(r, root, f, false);
        } catch (const om::openmethod_error&) {
            return -1000;
        } catch (const std::runtime_error&) {
            return -1001;
        }
    }
    void event(void* self, int cls, void* const* roots, int phase) override {
        sim::HostScope hs;
        Ctx* x = ctx_of(self);
        if (!x || failed()) return;
        bool up = phase <= MCOPY;
        auto& o = me();
        logf("%s %s in %s", phname[phase], cname[cls], cname[x->cls]);
        if (!up) { // which class was left on the way?
            for (int guard = 0; guard < NCLASS; ++guard) {
                int out = -1;
                for (int r = 0; r < NROOT; ++r)
                    if (roots[r] && x->expect[r] >= 0 && x->expect[r] != cls && derives(x->expect[r], cls)) out = x->expect[r];
                if (out < 0) break;
                end_class(*x, out);
            }
        }
        for (int r = 0; r < NROOT; ++r)
            if (roots[r]) {
                x->root[r] = roots[r];
                x->expect[r] = cls;
            }
        sim::count(up ? "inplace.event.construct" : "inplace.event.destroy");
        std::string where = std::string(phname[phase]) + " of " + cname[cls];
        check_dead(*x, where.c_str());
        prng = sim::mix(prng, 3);
        sim::Fibers::yield();
        if (failed()) return;
        if (prng % 1000 < probe_pm) {
            probe(*x, where.c_str(), prng & 1024);
            // other objects do not change meanwhile
            auto& other = slots[(prng >> 20) % NSLOT];
            if (other.live) probe(other, "life", false);
        }
        std::uint64_t h = cls * 31 + phase;
        for (int r = 0; r < NROOT; ++r) h = h * 37 + x->expect[r] + 2;
        sim::note_state(sim::mix(h, x->cls));
        if (!up && root_of[cls] >= 0) x->expect[root_of[cls]] = DEAD;
        if (up && o.throw_at >= 0 && o.events++ == o.throw_at) {
            o.throw_at = -1;
            sim::count("fault.ctor_throw");
            logf("throw");
            end_class(*x, cls);
            throw Boom{cls};
        }
    }
    void forget(Ctx& x) { x = Ctx(); }
    void start(Ctx& x, int cls, char* mem) {
        x.mem = mem;
        x.size = R->size(cls);
        x.cls = cls;
        x.live = false;
        x.epoch = R->epoch;
        for (int r = 0; r < NROOT; ++r) x.expect[r] = UNKNOWN, x.root[r] = nullptr;
    }
    void complete(Ctx& x) {
        x.live = true;
        R->roots(x.mem, x.cls, x.root);
        for (int r = 0; r < NROOT; ++r)
            if (has_root(x.cls, r)) x.expect[r] = x.cls;
    }
    void over(Ctx& x, const char* where) { // everything of it has been destroyed
        for (int r = 0; r < NROOT; ++r)
            if (x.root[r]) x.expect[r] = DEAD;
        check_dead(x, where);
        delete[] x.mem;
        forget(x);
    }
    void op_new(int s, int cls, int how, long throw_at) {
        cls = R->concrete(cls);
        auto& x = slots[s];
        if (x.mem || !ready()) return;
        char* mem = new char[R->size(cls)];
        memset(mem, 0xA5, R->size(cls));
        start(x, cls, mem);
        me() = Op1();
        me().throw_at = throw_at;
        try {
            R->make(mem, cls, how);
            complete(x);
        } catch (const Boom&) {
            over(x, "unwinding");
        }
        me().throw_at = -1;
        logf("new %s %s", cname[cls], x.live ? "made" : "threw");
        if (x.live) probe(x, "life", true);
    }
    void op_del(int s) {
        auto& x = slots[s];
        if (!x.live) return;
        if (held[s] >= 0) held[s] = -1;
        x.live = false;
        if (!usable(x) || !R->inited)
            for (auto& e : x.expect) e = e == DEAD ? e : e;
        x.epoch = usable(x) ? R->epoch : -1; // an object from before a re-initialize is only destroyed
        int cls = x.cls;
        R->destroy(x.root, cls, x.mem);
        sim::count("inplace.destroyed");
        over(x, "destruction");
    }
    bool ready() const { return R->inited || R->indirect(); }
    void op_copy(int d, int cls, int s, int how, long throw_at) {
        auto &x = slots[d], &y = slots[s];
        if (x.mem || !y.live || !ready()) return;
        if (!usable(y)) return;
        for (int k = 0; k < NCLASS && (R->abstract(cls) || !derives(y.cls, cls)); ++k) cls = (cls + 1) % NCLASS;
        char* mem = new char[R->size(cls)];
        memset(mem, 0xA5, R->size(cls));
        start(x, cls, mem);
        me() = Op1();
        me().throw_at = throw_at;
        try {
            R->copy(mem, cls, y.root, y.cls, how);
            complete(x);
        } catch (const Boom&) {
            over(x, "unwinding");
        }
        me().throw_at = -1;
        sim::count(cls == y.cls ? "inplace.copy" : "inplace.slice");
        logf("copy %s from %s %s", cname[cls], cname[y.cls], x.live ? "made" : "threw");
        if (x.live) probe(x, "life", true);
        if (y.live && !failed()) probe(y, "life", true);
    }
    void op_assign(int d, int s, int as, int how) {
        auto &x = slots[d], &y = slots[s];
        if (!x.live || !y.live || !usable(x) || !usable(y) || !ready()) return;
        for (int k = 0; k < NCLASS && !(derives(x.cls, as) && derives(y.cls, as)); ++k) as = (as + 1) % NCLASS;
        if (!derives(x.cls, as) || !derives(y.cls, as)) return;
        if (how == 2 && &x == &y) how = 0; // a self-swap says nothing
        me() = Op1();
        R->assign(x.root, x.cls, y.root, y.cls, as, how);
        sim::count("inplace.assign");
        logf("assign %s = %s as %s how %d", cname[x.cls], cname[y.cls], cname[as], how);
        probe(x, "life", true);
        if (!failed()) probe(y, "life", true);
    }
    void op_array(int cls, int n, long throw_at) {
        cls = R->concrete(cls);
        if (!ready()) return;
        auto& o = me();
        o = Op1();
        o.throw_at = throw_at;
        std::vector<Ctx> xs(n);
        char* mem = new char[R->size(cls) * n];
        memset(mem, 0xA5, R->size(cls) * n);
        for (int i = 0; i < n; ++i) start(xs[i], cls, mem + i * R->size(cls));
        o.extra = xs.data();
        o.nextra = n;
        int done = 0;
        try {
            for (; done < n && !failed(); ++done) {
                R->make(xs[done].mem, cls, 0);
                complete(xs[done]);
            }
        } catch (const Boom&) {
        }
        o.throw_at = -1;
        sim::count("inplace.array");
        while (done-- > 0 && !failed()) {
            xs[done].live = false;
            void* roots[NROOT];
            memcpy(roots, xs[done].root, sizeof roots);
            R->destroy(roots, cls, xs[done].mem);
        }
        for (auto& x : xs) {
            for (int r = 0; r < NROOT; ++r)
                if (x.root[r]) x.expect[r] = DEAD;
            check_dead(x, "destruction");
        }
        o.nextra = 0;
        delete[] mem;
    }
    void op_init() {
        try {
            sim::arena_step();
            R->initialize();
        } catch (...) {
            fail("init-error", "initialize of a correct registry failed");
            return;
        }
        ++R->epoch;
        R->inited = true;
        R->plug_now = R->plug;
        R->extra_now = R->extra;
        sim::count("init.ok");
        logf("init");
        for (auto& s : slots) {
            if (s.live && usable(s)) {
                sim::count("inplace.survived_init");
                probe(s, "life after re-initialize", true);
            }
        }
        for (int i = 0; i < NSLOT; ++i)
            if (held[i] >= 0) call_held(i);
    }
    void call_held(int i) {
        if (held[i] < 0 || !R->inited || (!R->indirect() && held[i] != R->epoch)) return;
        long got;
        {
            sim::LibScope ls;
            got = R->call_held(i);
        }
        sim::count("inplace.call_held");
        if (got != 1000 + heldcls[i]) fail("inplace-wrong-class", "virtual_ptr to a %s made from its embedded pointer: ran %s", cname[heldcls[i]], label(got).c_str());
    }

    Plan generate(std::uint64_t seed, const std::string& prop, bool thorough) override {
        Rng r(seed);
        Plan p;
        p.knobs["reg"] = prop == "P07" ? (r.chance(700) ? 1 : 3) : r.range(0, 3);
        if (r.chance(300)) p.knobs["reg"] = prop == "P07" ? 5 : r.range(4, 5);
        p.knobs["arena_mode"] = r.range(0, 4);
        p.knobs["arena_seed"] = long(r.below(1 << 20));
        p.knobs["probe"] = r.chance(700) ? 1000 : 300;
        p.knobs["prng"] = long(r.below(1 << 20));
        bool p13 = prop == "P13";
        if (p13) p.knobs["reg"] = std::vector<long>{0, 1, 3, 4, 5}[r.below(5)];
        bool late = p.knobs["reg"] % 2 == 1 && r.chance(p13 ? 400 : 150);
        if (!late) p.ops.push_back({"init", {}});
        int n = int(r.range(4, thorough ? 60 : 25));
        auto thr = [&] { return r.chance(400) ? long(r.below(8)) : -1l; };
        bool p07 = prop == "P07";
        for (int i = 0; i < n; ++i) {
            int k = int(r.below(100));
            long s = r.below(NSLOT), c = r.below(NCLASS);
            if (k < 30) p.ops.push_back({"new", {s, c, long(r.below(2)), p07 ? -1 : thr()}});
            else if (k < 45) p.ops.push_back({"del", {s}});
            else if (k < 58) p.ops.push_back({"copy", {s, c, long(r.below(NSLOT)), long(r.below(3)), thr()}});
            else if (k < 70) p.ops.push_back({"assign", {s, long(r.below(NSLOT)), c, long(r.below(3))}});
            else if (k < 75) p.ops.push_back({"array", {c, long(r.range(1, 4)), thr()}});
            else if (k < 80) p.ops.push_back({"hold", {s}});
            else if (k < (p07 ? 90 : 83)) {
                p.ops.push_back({r.chance(500) ? "load" : "unload", {long(r.below(2))}});
                if (r.chance(600)) p.ops.push_back({"init", {}});
            } else if (k < (p07 ? 95 : 85)) p.ops.push_back({"init", {}});
            else if (k < (p07 ? 97 : p13 ? 93 : 86)) {
                p.ops.push_back({"fin", {}});
                if (r.chance(p13 ? 500 : 800)) p.ops.push_back({"init", {}});
            } else {
                // several objects are made and destroyed at the same time
                int nf = int(r.range(2, 4));
                Op o{"par", {long(r.below(1 << 20)), long(r.range(200, 1000))}};
                for (int f = 0; f < nf; ++f) {
                    o.a.push_back(long(r.below(NCLASS)));
                    o.a.push_back(thr());
                    o.a.push_back(r.range(1, 3));
                }
                p.ops.push_back(o);
            }
        }
        return p;
    }
    bool knob_shrinkable(const std::string& k) override { return k == "arena_mode" || k == "arena_seed" || k == "prng"; }

    void execute(const Plan& plan) override {
        the_prop = plan.prop;
        sink = this;
        R = all_regs[(unsigned long)(plan.knob("reg")) % NREG];
        probe_pm = unsigned(plan.knob("probe"));
        prng = std::uint64_t(plan.knob("prng"));
        for (int i = 0; i < NSLOT; ++i) held[i] = -1;
        if (plan.prop == "P07")
            sim::set_relevant({"inplace.survived_init"});
        else if (plan.prop == "P13")
            sim::set_relevant({"inplace.not_initialized"});
        else
            sim::set_relevant({"inplace.event.construct"});
        sim::count((std::string("registry.") + R->name()).c_str());
        // learn where the embedded pointers are
        R->initialize();
        R->learn();
        R->finalize();
        R->inited = false;
        R->epoch = 1;
        int idx = 0;
        for (auto& op : plan.ops) {
            sim::set_op(idx++);
            if (failed()) return;
            auto& a = op;
            auto S = [&](int i) { return int(op.uarg(i) % NSLOT); };
            // the first slot at or after the argument that holds (or not) an object
            auto nth = [&](int i, bool live) {
                int s0 = S(i);
                for (int k = 0; k < NSLOT; ++k) {
                    auto& x = slots[(s0 + k) % NSLOT];
                    if (live ? x.live : !x.mem) return (s0 + k) % NSLOT;
                }
                return s0;
            };
            auto Cl = [&](int i) { return int(op.uarg(i) % NCLASS); };
            if (op.name == "init") op_init();
            else if (op.name == "fin") {
                R->finalize();
                R->inited = false;
                sim::count("finalize");
                ++R->epoch;
                for (auto& s : slots)
                    if (s.live && !failed()) probe_un(s, "life after finalize");
            } else if (op.name == "new") op_new(nth(0, false), Cl(1), int(op.uarg(2) & 1), op.arg(3));
            else if (op.name == "del") op_del(nth(0, true));
            else if (op.name == "copy") op_copy(nth(0, false), Cl(1), nth(2, true), int(op.uarg(3) % 3), op.arg(4));
            else if (op.name == "assign") op_assign(nth(0, true), nth(1, true), Cl(2), int(op.uarg(3) % 3));
            else if (op.name == "array") op_array(Cl(0), 1 + int(op.uarg(1) % 4), op.arg(2));
            else if (op.name == "hold") {
                int hs = nth(0, true);
                auto& x = slots[hs];
                if (x.live && R->inited && usable(x) && has_root(x.cls, RX) && R->forms(RX) > 2) {
                    {
                        sim::LibScope ls;
                        R->hold(hs, x.root[RX], RX);
                    }
                    held[hs] = R->epoch;
                    heldcls[hs] = x.cls;
                    sim::count("inplace.hold");
                    call_held(hs);
                }
            } else if (op.name == "load" || op.name == "unload") {
                int w = int(op.uarg(0) & 1);
                bool& f = w ? R->plug : R->extra;
                bool want = op.name == "load";
                if (f != want) {
                    want ? R->load(w) : R->unload(w);
                    f = want;
                    sim::count(want ? "module.load" : "module.unload");
                    // an unloaded overrider must not be called before initialize
                    if (w && !want && R->inited && R->plug_now) op_init();
                }
            } else if (op.name == "par") {
                if (!ready()) continue;
                std::vector<std::function<void()>> fs;
                int nf = int(op.a.size() - 2) / 3;
                for (int f = 0; f < nf; ++f) {
                    int cls = Cl(2 + f * 3);
                    long t = op.arg(3 + f * 3);
                    int n = int(op.uarg(4 + f * 3) % 4);
                    fs.push_back([this, cls, t, n] {
                        for (int i = 0; i < n && !failed(); ++i) op_array(cls, 1 + i, i == n - 1 ? t : -1);
                    });
                }
                sim::Fibers::run(fs, op.uarg(0), unsigned(op.uarg(1) % 1001));
                sim::count("inplace.par");
            }
        }
        for (int i = 0; i < NSLOT && !failed(); ++i) op_del(i);
        if (failed()) return;
        R->finalize();
    }
};
static InplaceWorld the_world;
static struct Init {
    Init() { sim::add_world(&the_world); }
} init_;
} // namespace inp
