#include "stock.hpp"
#include <algorithm>
#include <cstring>
#include <memory>
#include <new>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>

namespace stock {
using om::virtual_;
using om::virtual_ptr;
using sim::count;
using sim::failed;
using sim::logf;
using sim::Op;
using sim::Plan;
using sim::Rng;
static void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void fail(const char* kind, const char* fmt, ...) {
    char b[900];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    sim::HostScope hs;
    sim::fail(kind, "%s", b);
}

BOOST_OPENMETHOD_CLASSES(Animal, Dog, om::indirect_registry);
BOOST_OPENMETHOD_CLASSES(Dog, Bulldog, om::indirect_registry);
BOOST_OPENMETHOD_CLASSES(Bulldog, Dog); // again, in the default registry
long direct_greet(Dog& d, long n) {
    return BOOST_OPENMETHOD_OVERRIDER(greet, (virtual_ptr<Dog>, long), long)::fn(d, n);
}

struct R2 : om::default_registry::with<pol::throw_error_handler> {};
struct R3 : om::default_registry::without<pol::output>::with<pol::vptr_map<>> {};
struct R4 : om::default_registry::without<pol::runtime_checks>::with<pol::throw_error_handler> {};
struct R5 : om::default_registry::with<pol::throw_error_handler, pol::indirect_vptr, pol::vptr_map<>>::without<pol::type_hash, pol::output> {};
struct R6 : om::registry<pol::std_rtti>::with<pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, pol::runtime_checks, pol::stderr_output> {};
struct R7 : R6::with<pol::default_error_handler, pol::indirect_vptr> {};
constexpr int NR = 8;

struct SimThrow {
    int n;
};
struct Seen { // what a handler or a catch clause got
    int times = 0, who = -1;
    std::string kind, text, expected; // expected: the description that the error gives of itself
    std::vector<const void*> types;
};
static Seen seen;

// Installs a handler and calls into the library while static objects are being initialized: registrars and use_classes are
// static objects too, nothing says that users may not.
struct EarlyHandler {
    int n;
    template<class V>
    void operator()(const V&) const { throw SimThrow{n}; }
};
struct Early {
    bool was_empty = false;
    int got = -1;
    const char* other = nullptr;
    Early() {
        auto old = om::indirect_registry::error_handler::set(EarlyHandler{6});
        was_empty = !old;
        try {
            om::indirect_registry::require_initialized();
        } catch (SimThrow& t) {
            got = t.n;
        } catch (...) {
            other = "another exception";
        }
    }
};
static Early early;

struct Traits {
    const char* name;
    bool rtc, thrower, out, indirect, hash;
};
struct Reg {
    Traits t;
    virtual ~Reg() {}
    virtual std::string config() = 0;
    virtual void init(int opts) = 0;
    virtual void fin(int opts) = 0;
    virtual void require() = 0;
    virtual void puppy(bool on) = 0;
    virtual int handler(int n) = 0; // installs, returns the previous one
    virtual long poke(Animal& a, int how, long n) = 0;
    virtual long meet(Animal& a, Animal& b, int how) = 0;
    virtual long look(Widget& w, int how) = 0;
    virtual long read(Token& t) = 0;
    virtual long macro(Animal& a, Animal& b, int how) { return -2; }
    virtual bool has_macro() { return false; }
    virtual void hold(int slot, Animal& a, int how) = 0;
    virtual long poke_held(int slot, long n) = 0;
    virtual void forget() = 0;
    virtual bool caught() = 0; // classifies the exception in flight
};

static Animal* animal(int k) {
    static Animal a;
    static Dog d;
    static Cat c;
    static Bulldog b;
    static Puppy p;
    static Robot r;
    Animal* t[] = {&a, &d, &c, &b, &p, &r};
    return t[k];
}
static const std::type_info* type_of(int k) {
    const std::type_info* t[] = {&typeid(Animal), &typeid(Dog), &typeid(Cat), &typeid(Bulldog), &typeid(Puppy), &typeid(Robot)};
    return t[k];
}

template<class R>
struct Unit {
    struct poke_id;
    struct meet_id;
    struct look_id;
    struct read_id;
    using VA = virtual_ptr<Animal, R>;
    using poke = om::method<poke_id, long(VA, long), R>;
    using meet = om::method<meet_id, long(virtual_<Animal&>, VA), R>;
    using look = om::method<look_id, long(virtual_<const Widget&>), R>;
    static long poke_dog(virtual_ptr<Dog, R>, long n) { return 100 + n; }
    static long poke_bulldog(virtual_ptr<Bulldog, R> b, long n) { return 1000 + poke::template next<poke_bulldog>(b, n); }
    static long poke_puppy(virtual_ptr<Puppy, R> b, long n) { return 2000 + poke::template next<poke_puppy>(b, n); }
    static long meet_dog(Dog&, VA) { return 1; }
    static long meet_any_bulldog(Animal&, virtual_ptr<Bulldog, R>) { return 2; }
    static long look_widget(const Widget&) { return 10; }
    static long look_button(const Button& b) { return 20 + look::template next<look_button>(b); }
    static long look_label(const Label&) { return 40; }
    static inline typename poke::template override<poke_dog, poke_bulldog> o1;
    static inline typename meet::template override<meet_dog> o2;
    static inline typename meet::template override<meet_any_bulldog> o3;
    static inline typename look::template override<look_widget, look_button, look_label> o4;
    static inline om::use_classes<Animal, Dog, Cat, Bulldog, R> c1;
    static inline om::use_classes<Widget, Button, Label, R> c2;
    static inline const void* touch[] = {&o1, &o2, &o3, &o4, &c1, &c2, &poke::fn, &meet::fn, &look::fn};
};
template<class R>
struct TokenUnit { // v-table pointers by value: not with indirect_vptr
    struct read_id;
    using read = om::method<read_id, long(virtual_<const Token&>), R>;
    static long read_token(const Token&) { return 3; }
    static long read_word(const Word& w) { return 30 + read::template next<read_word>(w); }
    static inline typename read::template override<read_token, read_word> o1;
    static inline om::use_classes<Token, Word, R> c1;
    static inline const void* touch[] = {&o1, &c1, &read::fn};
};

template<class R>
struct RegT : Reg {
    using U = Unit<R>;
    using VA = typename U::VA;
    using EH = typename R::error_handler;
    using Base = typename R::registry_type;
    static constexpr bool defaults = std::is_same_v<EH, pol::default_error_handler::fn<Base>>;
    using PuppyClass = om::use_classes<Dog, Puppy, R>;
    using PuppyOver = typename U::poke::template override_impl<U::poke_puppy, long>;
    void *pc = nullptr, *po = nullptr;
    VA* held[4] = {};
    explicit RegT(Traits x) {
        t = x;
        static const void* const* keep[] = {U::touch};
        (void)keep;
        if constexpr (!R::has_indirect_vptr) {
            static const void* const* keep2[] = {TokenUnit<R>::touch};
            (void)keep2;
        }
    }
    std::string config() override {
        std::string s;
        auto flag = [&](const char* n, bool got, bool exp) {
            if (got != exp) s += std::string(n) + (got ? " present " : " absent ");
        };
        flag("runtime_checks", R::has_runtime_checks, t.rtc);
        flag("output", R::has_output, t.out);
        flag("indirect_vptr", R::has_indirect_vptr, t.indirect);
        flag("vptr", R::has_vptr, true);
        flag("error_handler", R::has_error_handler, true);
        flag("default_error_handler", defaults, !t.thrower);
        flag("type_hash", !std::is_same_v<typename R::template policy<pol::type_hash>, void>, t.hash);
        return s;
    }
    template<class... O>
    static void go(O... o) {
        sim::LibScope ls;
        om::initialize<R>(o...);
    }
    void init(int opts) override {
        if constexpr (R::has_output) {
            if ((opts & 3) == 1) return opts & 4 ? go(om::trace(), om::n2216()) : go(om::trace(true));
            if ((opts & 3) == 2) return opts & 4 ? go(om::n2216(), om::trace(false)) : go(om::trace(false));
            if ((opts & 3) == 3) {
                if (opts & 8) setenv("BOOST_OPENMETHOD_TRACE", "1", 1);
                else unsetenv("BOOST_OPENMETHOD_TRACE");
                return go(om::trace::from_env());
            }
        }
        if (opts & 4) go(om::n2216());
        else go();
    }
    void fin(int opts) override {
        sim::LibScope ls;
        if constexpr (R::has_output) {
            if (opts & 1) return om::finalize<R>(om::trace(true));
            if (opts & 2) return om::finalize<R>(om::trace(false));
        }
        om::finalize<R>();
    }
    void require() override {
        sim::LibScope ls;
        R::require_initialized();
    }
    void puppy(bool on) override {
        if (on == !!pc) return;
        if (on) {
            pc = calloc(1, sizeof(PuppyClass));
            po = calloc(1, sizeof(PuppyOver));
            sim::LibScope ls;
            new (pc) PuppyClass;
            new (po) PuppyOver;
        } else {
            sim::LibScope ls;
            static_cast<PuppyOver*>(po)->~PuppyOver();
            static_cast<PuppyClass*>(pc)->~PuppyClass();
            memset(pc, 0xDD, sizeof(PuppyClass));
            memset(po, 0xDD, sizeof(PuppyOver));
            pc = po = nullptr;
        }
    }
    template<class E>
    static void note(const E& e) {
        if constexpr (std::is_same_v<E, om::not_initialized>) seen.kind = "not_initialized";
        else if constexpr (std::is_same_v<E, om::no_overrider>) {
            seen.kind = "no_overrider";
            seen.types.assign(e.types, e.types + e.arity);
        } else if constexpr (std::is_same_v<E, om::ambiguous_call>) {
            seen.kind = "ambiguous_call";
            seen.types.assign(e.types, e.types + e.arity);
        } else if constexpr (std::is_same_v<E, om::missing_class>) {
            seen.kind = "missing_class";
            seen.types = {e.type};
        } else if constexpr (std::is_same_v<E, om::final_error>) {
            seen.kind = "final_error";
            seen.types = {e.static_type, e.dynamic_type};
        } else
            seen.kind = "other";
    }
    struct H {
        int n; // 9 returns
        template<class V>
        void operator()(const V& v) const {
            sim::HostScope hs;
            ++seen.times;
            seen.who = n;
            std::visit([](auto& e) { note(e); }, v);
            if (n != 9) throw SimThrow{n};
        }
    };
    int handler(int n) override {
        if constexpr (defaults) {
            sim::LibScope ls;
            typename EH::function_type old = n == 0 ? EH::set(EH::default_handler) : EH::set(H{n});
            if (auto h = old.template target<H>()) return h->n;
            if (auto h = old.template target<EarlyHandler>()) return h->n;
            return old ? 0 : -3;
        } else
            return -1;
    }
    template<class E>
    static bool one() {
        try {
            throw;
        } catch (const E& e) {
            note(e);
            std::ostringstream os;
            e.template write<R>(os);
            seen.expected = os.str();
            return true;
        } catch (...) {
            return false;
        }
    }
    bool caught() override {
        sim::HostScope hs;
        bool k = one<om::not_initialized>() || one<om::no_overrider>() || one<om::ambiguous_call>() || one<om::missing_class>() ||
            one<om::final_error>();
        try {
            throw;
        } catch (const std::runtime_error& e) {
            seen.text = e.what();
            seen.who = -1;
            ++seen.times;
        } catch (...) {
            return false;
        }
        return k;
    }
    long poke(Animal& a, int how, long n) override {
        sim::LibScope ls;
        switch (how & 3) {
        case 0: return U::poke::fn(a, n);
        case 1: {
            VA p(a);
            VA q = p;
            return U::poke::fn(q, n);
        }
        case 2: return U::poke::fn(VA(&a), n);
        default: {
            if (auto d = dynamic_cast<Dog*>(&a)) return U::poke::fn(virtual_ptr<Dog, R>(*d), n);
            return U::poke::fn(a, n);
        }
        }
    }
    long meet(Animal& a, Animal& b, int how) override {
        sim::LibScope ls;
        if (how & 1) return U::meet::fn(a, VA(b));
        return U::meet::fn(a, b);
    }
    long look(Widget& w, int how) override {
        sim::LibScope ls;
        return U::look::fn(w);
    }
    long read(Token& t) override {
        sim::LibScope ls;
        if constexpr (!R::has_indirect_vptr) return TokenUnit<R>::read::fn(t);
        return -2;
    }
    void hold(int slot, Animal& a, int how) override {
        VA* p;
        {
            sim::LibScope ls;
            if (how & 1) p = new VA(a);
            else {
                p = new VA(nullptr);
                std::unique_ptr<VA> g(p);
                *p = a;
                g.release();
            }
        }
        held[slot] = p; // an older one is leaked
    }
    long poke_held(int slot, long n) override {
        sim::LibScope ls;
        return U::poke::fn(*held[slot], n);
    }
    void forget() override {
        for (auto& h : held) h = nullptr;
    }
    long macro(Animal& a, Animal& b, int how) override {
        if constexpr (std::is_same_v<R, om::default_registry>) {
            sim::LibScope ls;
            if (how & 1)
                if (auto d = dynamic_cast<Dog*>(&a)) return direct_greet(*d, 3);
            return greet(a, 3);
        } else if constexpr (std::is_same_v<R, om::indirect_registry>) {
            sim::LibScope ls;
            return part(a, b);
        }
        return -2;
    }
    bool has_macro() override { return std::is_same_v<R, om::default_registry> || std::is_same_v<R, om::indirect_registry>; }
};

static Reg* get(int i) {
    static RegT<om::default_registry> r0({"default_registry", true, false, true, false, true});
    static RegT<om::indirect_registry> r1({"indirect_registry", true, false, true, true, true});
    static RegT<R2> r2({"with throw", true, true, true, false, true});
    static RegT<R3> r3({"without output, with map", true, false, false, false, true});
    static RegT<R4> r4({"without runtime_checks", false, true, true, false, true});
    static RegT<R5> r5({"with throw, indirect, map", true, true, false, true, false});
    static RegT<R6> r6({"from std_rtti", true, true, true, false, true});
    static RegT<R7> r7({"from R6", true, false, true, true, true});
    Reg* t[] = {&r0, &r1, &r2, &r3, &r4, &r5, &r6, &r7};
    return t[i];
}

struct StockWorld : sim::World {
    const char* name() const override { return "stock"; }
    enum { NONE, OK, UNSURE };
    struct State {
        int st = NONE;
        bool puppy = false, snap_puppy = false, n2216 = false;
        int handler = 0;
        int held[4] = {-1, -1, -1, -1};
        bool held_puppy[4] = {};
        int held_gen[4] = {};
        int gen = 0;
        std::int64_t mem = 0; // blocks of memory that initialize holds
    };
    State S[NR];
    int errfd = -1;
    off_t errpos = 0;
    bool err_ok = true, over = false;

    void set_stderr(int mode) { // 0: works, 1: no space, 2: closed, 3: read-only
        if (mode == 0) dup2(errfd, 2);
        else if (mode == 1) {
            int fd = open("/dev/full", O_WRONLY);
            if (fd < 0) return;
            dup2(fd, 2);
            close(fd);
            count("fault.stderr-full");
        } else if (mode == 2) {
            close(2);
            count("fault.stderr-closed");
        } else {
            int fd = open("/dev/null", O_RDONLY);
            dup2(fd, 2);
            close(fd);
            count("fault.stderr-unwritable");
        }
        err_ok = mode == 0;
        clearerr(stderr);
    }
    std::string fresh() { // what was written since
        std::string s;
        char b[4096];
        ssize_t n;
        fflush(stderr);
        while ((n = pread(errfd, b, sizeof b, errpos)) > 0) {
            s.append(b, n);
            errpos += n;
        }
        return s;
    }
    struct Want {
        std::string err;
        std::vector<int> types;
        long value = 0;
        std::set<long> any; // n2216
    };
    static bool is(int k, int b) { return b == ANIMAL || k == b || (b == DOG && (k == BULLDOG || k == PUPPY)); }
    static bool knows(const State& s, int k) { return k != ROBOT && (k != PUPPY || s.snap_puppy); }
    Want bad(const char* e, std::vector<int> t = {}) {
        Want w;
        w.err = e;
        w.types = t;
        return w;
    }
    Want good(long v) {
        Want w;
        w.value = v;
        return w;
    }
    Want want_poke(const State& s, int k, long n) {
        if (!knows(s, k)) return bad("missing_class", {k});
        if (k == BULLDOG) return good(1100 + n);
        if (k == PUPPY) return good(2100 + n);
        if (k == DOG) return good(100 + n);
        return bad("no_overrider", {k});
    }
    Want want_meet(const State& s, int a, int b) {
        if (!knows(s, b)) return bad("missing_class", {b}); // the argument is converted first
        if (!knows(s, a)) return bad("missing_class", {a});
        bool one = is(a, DOG), two = b == BULLDOG;
        if (one && two) {
            if (!s.n2216) return bad("ambiguous_call", {a, b});
            Want w;
            w.any = {1, 2};
            return w;
        }
        if (one) return good(1);
        if (two) return good(2);
        return bad("no_overrider", {a, b});
    }
    Want want_macro(int r, const State& s, int a, int b, int how) {
        if (r == 0) {
            if (!knows(s, a)) return bad("missing_class", {a});
            if (a == CAT) return good(910);
            if (is(a, DOG)) return good(80);
            return good(10);
        }
        if (!knows(s, b)) return bad("missing_class", {b});
        if (!knows(s, a)) return bad("missing_class", {a});
        return good(is(a, DOG) && b == BULLDOG ? 105 : 5);
    }
    // carries out one use of registry r and compares with what is due
    template<class F>
    void use(int r, const char* what, const Want& w0, F&& f) {
        if (failed() || over) return;
        auto& s = S[r];
        auto& R = *get(r);
        Want w = w0;
        if (s.st == UNSURE) return;
        if (s.st == NONE) {
            if (!R.t.rtc) return; // undefined
            w = bad("not_initialized");
        }
        if (!R.t.rtc && (w.err == "missing_class" || w.err == "final_error")) return; // undefined
        seen = Seen();
        bool threw = false, sim_throw = false;
        int thrown_n = 0;
        long v = -99;
        bool aborted = false;
        try {
            aborted = sim::aborts([&] { v = f(); });
        } catch (const SimThrow& e) {
            sim_throw = true;
            thrown_n = e.n;
        } catch (...) {
            threw = true;
            if (!R.caught() && seen.kind.empty()) seen.kind = "unknown exception";
        }
        auto text = fresh();
        logf("%d %s -> %s%ld%s", r, what, seen.kind.c_str(), v, aborted ? " abort" : "");
        if (w.err.empty()) {
            count("call.ok");
            if (aborted || threw || sim_throw) {
                fail("error", "registry %s, %s: %s%s %s, nothing was wrong", R.t.name, what, aborted ? "abort " : "", seen.kind.c_str(), text.c_str());
                return;
            }
            bool ok = w.any.empty() ? v == w.value : w.any.count(v);
            if (!ok) fail("result", "registry %s, %s: %ld instead of %ld", R.t.name, what, v, w.value);
            if (!text.empty()) fail("output", "registry %s, %s wrote '%s'", R.t.name, what, text.c_str());
            return;
        }
        count(("error." + w.err).c_str());
        if (!aborted && !threw && !sim_throw) {
            fail("no-error", "registry %s, %s returned %ld instead of %s", R.t.name, what, v, w.err.c_str());
            return;
        }
        if (R.t.thrower) {
            if (!threw) {
                fail("handler", "registry %s, %s: stopped instead of an exception", R.t.name, what);
                return;
            }
            check_seen(R, what, w);
            if (seen.text.empty()) fail("handler", "registry %s, %s: %s without a description", R.t.name, what, w.err.c_str());
            if (seen.text != seen.expected)
                fail("text", "registry %s, %s: the exception says '%s', the error '%s'", R.t.name, what, seen.text.c_str(), seen.expected.c_str());
            check_text(R, what, w, seen.text);
            if (!text.empty()) fail("output", "registry %s, %s wrote '%s'", R.t.name, what, text.c_str());
            return;
        }
        if (s.handler == 0) {
            if (!aborted) {
                fail("handler", "registry %s, %s: %s did not stop the program", R.t.name, what, w.err.c_str());
                return;
            }
            if (err_ok) {
                count("stderr.line");
                if (!R.t.out) {
                    if (!text.empty()) fail("output", "registry %s has no output, %s wrote '%s'", R.t.name, what, text.c_str());
                } else if (text.size() < 2 || text.back() != '\n' || text.find('\n') != text.size() - 1)
                    fail("output", "registry %s, %s: '%s' is not one line", R.t.name, what, text.c_str());
                else
                    check_text(R, what, w, text);
            }
            over = true;
            return;
        }
        if (s.handler == 9 ? !aborted : !sim_throw) {
            fail("handler", "registry %s, %s: handler %d, but %s", R.t.name, what, s.handler, aborted ? "the program stopped" : "another exception");
            return;
        }
        if (!text.empty()) fail("output", "registry %s, %s wrote '%s'", R.t.name, what, text.c_str());
        if (seen.who != s.handler) fail("handler", "registry %s, %s: handler %d was called, %d is installed", R.t.name, what, seen.who, s.handler);
        check_seen(R, what, w);
        if (aborted) over = true;
    }
    void check_seen(Reg& R, const char* what, const Want& w) {
        if (seen.times != 1) fail("handler", "registry %s, %s: %d errors", R.t.name, what, seen.times);
        if (seen.kind != w.err) fail("wrong-error", "registry %s, %s: %s instead of %s", R.t.name, what, seen.kind.c_str(), w.err.c_str());
        std::vector<const void*> t;
        for (int k : w.types) t.push_back(type_of(k));
        if (seen.types != t) fail("error-details", "registry %s, %s: %s carries other types", R.t.name, what, w.err.c_str());
    }
    void check_text(Reg& R, const char* what, const Want& w, const std::string& s) {
        // a class is described by its name, all of it
        static const char* const n[] = {"Animal", "Dog", "Cat", "Bulldog", "Puppy", "Machine"};
        if (w.err != "missing_class" && w.err != "final_error") return;
        for (int k : w.types)
            if (s.find(std::string("stock::") + n[k]) == std::string::npos || (k == ROBOT && s.find("stock::made_of_metal") == std::string::npos)) {
                fail("text", "registry %s, %s: '%s' does not name the class", R.t.name, what, s.c_str());
                return;
            }
    }
    void init(const Op& op) {
        int r = int(op.uarg(0) % NR), opts = op.arg(1);
        long af = op.arg(2);
        auto& s = S[r];
        auto& R = *get(r);
        for (int attempt = 0; attempt < 2 && !failed(); ++attempt) {
            sim::arena_step();
            if (af >= 0 && attempt == 0) sim::arm_alloc_failure(af);
            bool bad = false, ab = false;
            auto live = sim::alloc_stats().live;
            try {
                ab = sim::aborts([&] { R.init(opts); });
            } catch (std::bad_alloc&) {
                bad = true;
            } catch (...) {
                R.caught();
                fail("init", "registry %s: initialize ended in %s", R.t.name, seen.kind.c_str());
            }
            sim::arm_alloc_failure(-1);
            s.mem += sim::alloc_stats().live - live;
            auto text = fresh();
            bool traced = R.t.out && ((opts & 3) == 1 || ((opts & 3) == 3 && (opts & 8)));
            if (ab) {
                fail("init", "registry %s: initialize stopped the program: %s", R.t.name, text.c_str());
                return;
            }
            if (err_ok) {
                if (!traced && !text.empty()) fail("output", "registry %s: initialize wrote '%.200s' without trace", R.t.name, text.c_str());
                if (traced && !bad && text.empty()) fail("output", "registry %s: initialize with trace wrote nothing", R.t.name);
                if (traced && !bad) {
                    count("trace.on");
                    if (text.find("stock::Bulldog") == std::string::npos) fail("output", "registry %s: the trace does not speak of the classes", R.t.name);
                }
            }
            if (bad) {
                if (af < 0 || attempt) {
                    fail("init", "registry %s: bad_alloc from initialize", R.t.name);
                    return;
                }
                count("fault.alloc");
                s.st = UNSURE;
                continue;
            }
            s.st = OK;
            s.snap_puppy = s.puppy;
            s.n2216 = !(R.t.out && (opts & 3) == 3) && (opts & 4);
            ++s.gen;
            count("init.ok");
            sim::note_state(sim::mix(r * 1000 + s.puppy * 16 + s.n2216 * 8 + s.handler, hash()));
            logf("init %d", r);
            return;
        }
    }
    std::uint64_t hash() {
        std::uint64_t h = 0;
        for (auto& s : S) h = sim::mix(h, s.st * 4 + s.puppy * 2 + s.snap_puppy);
        return h;
    }
    void call(int r, std::uint64_t x) {
        auto& s = S[r];
        auto& R = *get(r);
        int a = int(x % NA), b = int(x / 8 % NA), how = int(x / 64 % 4), n = int(x / 256 % 50);
        char what[80];
        if (s.puppy != s.snap_puppy && (a == PUPPY || b == PUPPY)) return; // loaded since: either answer
        switch (x / 65536 % 6) {
        case 0:
        case 1:
            snprintf(what, sizeof what, "poke(%d,%d) %d", a, n, how);
            return use(r, what, want_poke(s, a, n), [&] { return R.poke(*animal(a), how, n); });
        case 2:
            snprintf(what, sizeof what, "meet(%d,%d) %d", a, b, how);
            return use(r, what, want_meet(s, a, b), [&] { return R.meet(*animal(a), *animal(b), how); });
        case 3: {
            static Widget w0;
            static Button w1;
            static Label w2;
            Widget* w[] = {&w0, &w1, &w2};
            static const long v[] = {10, 30, 40};
            snprintf(what, sizeof what, "look(%d)", a % 3);
            return use(r, what, good(v[a % 3]), [&] { return R.look(*w[a % 3], how); });
        }
        case 4: {
            if (R.t.indirect) return;
            static Token t0{0};
            static Word t1;
            t1.kind = 1;
            snprintf(what, sizeof what, "read(%d)", a % 2);
            return use(r, what, good(a % 2 ? 33 : 3), [&] { return R.read(a % 2 ? t1 : t0); });
        }
        default:
            if (!R.has_macro()) return;
            snprintf(what, sizeof what, "macro(%d,%d) %d", a, b, how);
            return use(r, what, want_macro(r, s, a, b, how), [&] { return R.macro(*animal(a), *animal(b), how); });
        }
    }
    void run(const Op& op) {
        auto& n = op.name;
        int r = int(op.uarg(0) % NR);
        auto& s = S[r];
        auto& R = *get(r);
        if (n == "init") init(op);
        else if (n == "fin") {
            auto live = sim::alloc_stats().live;
            bool ab = sim::aborts([&] { R.fin(op.arg(1)); });
            s.mem += sim::alloc_stats().live - live;
            if (s.mem > 0) fail("leak", "registry %s: finalize left %ld blocks of memory that initialize allocated", R.t.name, long(s.mem));
            s.mem = 0;
            auto text = fresh();
            if (ab) fail("finalize", "registry %s: finalize stopped the program", R.t.name);
            if (err_ok && !(R.t.out && (op.arg(1) & 1)) && !text.empty()) fail("output", "registry %s: finalize wrote '%.200s'", R.t.name, text.c_str());
            s.st = NONE;
            count("finalize");
        } else if (n == "call") call(r, op.uarg(1));
        else if (n == "calls" || n == "callall") {
            Rng g(op.uarg(1));
            for (int k = 0; k < 40 && !failed() && !over; ++k) call(n == "callall" ? int(g.below(NR)) : r, g.next());
        } else if (n == "require") {
            use(r, "require_initialized", good(0), [&] {
                R.require();
                return 0L;
            });
        } else if (n == "puppy") {
            R.puppy(op.arg(1) & 1);
            s.puppy = op.arg(1) & 1;
            count("puppy");
        } else if (n == "handler") {
            int h = int(op.arg(1));
            int old = R.handler(h);
            if (R.t.thrower) return;
            count("handler.set");
            if (old != s.handler) fail("handler", "registry %s: set returned handler %d instead of %d", R.t.name, old, s.handler);
            s.handler = h;
        } else if (n == "stderr") set_stderr(int(op.arg(1)));
        else if (n == "hold") {
            int slot = int(op.uarg(1) & 3), k = int(op.uarg(2) % (NA));
            if (s.st != OK || (k == PUPPY && s.puppy != s.snap_puppy)) return;
            bool known = knows(s, k);
            use(r, "hold", known ? good(0) : bad("missing_class", {k}), [&] {
                R.hold(slot, *animal(k), int(op.arg(3)));
                return 0L;
            });
            if (known) {
                s.held[slot] = k;
                s.held_gen[slot] = s.gen;
            }
        } else if (n == "held") {
            int slot = int(op.uarg(1) & 3), k = s.held[slot];
            if (k < 0 || (s.st == NONE && !R.t.rtc)) return;
            if (s.st == OK && !R.t.indirect && s.held_gen[slot] != s.gen) return; // stale, by design
            if (k == PUPPY && (s.puppy != s.snap_puppy || !s.puppy)) return;
            count(s.held_gen[slot] != s.gen ? "held.reinit" : "held.call");
            use(r, "poke held", want_poke(s, k, 5), [&] { return R.poke_held(slot, 5); });
        } else
            fail("plan", "unknown operation %s", n.c_str());
    }
    Plan generate(std::uint64_t seed, const std::string& prop, bool thorough) override {
        Plan p;
        p.world = name();
        p.prop = prop;
        p.seed = seed;
        Rng g(sim::mix(seed, 0x57));
        p.knobs["arena"] = long(g.below(5));
        p.knobs["arenaseed"] = long(g.next() >> 1);
        auto add = [&](const char* n, std::vector<long> a) { p.ops.push_back({n, std::move(a)}); };
        int few = int(g.range(1, prop == "P09" ? 8 : 4));
        std::vector<int> rs;
        for (int i = 0; i < few; ++i) {
            int x = int(g.below(NR));
            if (prop == "P07")
                while (!get(x)->t.indirect) x = int(g.below(NR));
            rs.push_back(x);
        }
        bool faults = g.chance(400);
        auto opts = [&]() -> long { return g.chance(prop == "P21" ? 800 : 250) ? long(g.below(16)) : g.chance(150) ? 4 : 0; };
        auto r = [&]() -> long { return g.pick(rs); };
        bool all = prop != "P20" && g.chance(800);
        for (int x = 0; x < NR; ++x) // else the first error ends the run
            if (all || (std::count(rs.begin(), rs.end(), x) && !g.chance(prop == "P20" ? 350 : 100))) add("handler", {x, long(g.range(1, 4))});
        int n = int(g.range(5, thorough ? 80 : 40));
        if (prop == "P07")
            for (int x : rs) {
                add("init", {x, 0, -1});
                add("handler", {x, long(g.range(1, 3))});
                for (int k = 0; k < 4; ++k) add("hold", {x, k, long(g.below(NA)), long(g.below(4))});
            }
        for (int i = 0; i < n; ++i) {
            switch (prop == "P07" && g.chance(500) ? (g.chance(700) ? 7 : g.range(0, 6)) : g.below(prop == "P13" ? 14 : 12)) {
            case 0:
            case 1: add("init", {r(), opts(), faults && g.chance(300) ? long(g.below(300)) : -1}); break;
            case 2: add("puppy", {r(), long(g.below(2))}); break;
            case 3: add("calls", {r(), long(g.next() >> 1)}); break;
            case 4: add("callall", {0, long(g.next() >> 1)}); break;
            case 5:
                if (g.chance(prop == "P20" ? 800 : 300)) add("handler", {r(), g.chance(100) ? 9 : g.chance(100) ? 0 : long(g.range(1, 4))});
                break;
            case 6: add("hold", {r(), long(g.below(4)), long(g.below(NA)), long(g.below(4))}); break;
            case 7:
            case 8: add("held", {r(), long(g.below(4))}); break;
            case 9:
                if (g.chance(prop == "P13" ? 800 : 300)) add("fin", {r(), long(g.below(4))});
                break;
            case 10:
                if (faults && g.chance(400)) add("stderr", {0, long(g.below(4))});
                break;
            case 11: add("call", {r(), long(g.next() >> 1)}); break;
            default: add(g.chance(500) ? "require" : "call", {r(), long(g.next() >> 1)}); break;
            }
        }
        for (int i = 0; i < NR; ++i) { // all of them serve in the end
            add("init", {i, opts(), -1});
            add("handler", {i, 1});
            add("calls", {i, long(g.next() >> 1)});
        }
        if (g.chance(500)) { // one error with what was installed in the first place
            int x = int(g.below(NR));
            add("stderr", {0, 0});
            add("handler", {x, g.chance(700) ? 0 : 9});
            add("calls", {x, long(g.next() >> 1)});
        }
        return p;
    }
    void execute(const Plan& plan) override {
        sim::arena_mode(int(plan.knob("arena")), std::uint64_t(plan.knob("arenaseed")));
        auto& p = plan.prop;
        if (p == "P20") sim::set_relevant({"error.", "handler.set"});
        else if (p == "P13") sim::set_relevant({"error.not_initialized", "finalize"});
        else if (p == "P21") sim::set_relevant({"trace.on"});
        else if (p == "P07") sim::set_relevant({"held.reinit"});
        else if (p == "P04") sim::set_relevant({"error.no_overrider", "error.ambiguous_call"});
        else sim::set_relevant({"call.ok"});
        int saved = dup(2);
        errfd = memfd_create("stderr", 0);
        if (errfd < 0) errfd = open("/dev/null", O_RDWR);
        errpos = 0;
        set_stderr(0);
        fflush(stderr);
        for (auto& s : S) s = State();
        over = false;
        int h = get(1)->handler(6); // see Early
        S[1].handler = 6;
        if (plan.prop == "P20") {
            if (early.was_empty) fail("handler", "during static initialization set returns an empty function, not the initial handler");
            else if (early.got != 6)
                fail("handler", "a handler installed during static initialization is not called: %s", early.other ? early.other : "no exception");
            else if (h != 6)
                fail("handler", "registry %s: the handler installed during static initialization was replaced by %d", get(1)->t.name, h);
        }
        for (int i = 0; i < NR && !failed(); ++i) {
            get(i)->forget();
            auto c = get(i)->config();
            if (!c.empty()) fail("config", "registry %s has not the policies it was made of: %s", get(i)->t.name, c.c_str());
        }
        int idx = 0;
        for (auto& op : plan.ops) {
            sim::set_op(idx++);
            if (failed() || over) break;
            run(op);
        }
        dup2(saved, 2);
        close(saved);
        clearerr(stderr);
    }
};
static StockWorld the_world;
static struct Init {
    Init() { sim::add_world(&the_world); }
} init_;
} // namespace stock
