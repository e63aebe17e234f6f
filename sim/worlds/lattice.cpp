// World "lattice": executes plans against real registries and checks every
// observation against a small reference model.
#include "lattice.hpp"
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>

namespace lat {
using sim::Op;
using sim::Plan;
using sim::Rng;
using sim::failed;
using sim::logf;

// Checks that decide one aspect only speak for the properties that state it, so
// that a fault in (say) tracing is not reported against dispatch.
static std::string the_prop;
static int g_in_next = 0; // frames entered through next
static bool speaks(const char* kind) {
    static const struct {
        const char *kind, *props;
    } narrow[] = {{"trace", "P21"},
                  {"report", "P02 P05 P15 P16 P21"},
                  {"handler", "P04 P13 P17 P20"},
                  {"allocation", "P19"},
                  {"leak", "P06 P13"},
                  {"finalize", "P06 P13"},
                  {"unstable-pick", "P14"},
                  {"traced-pick", "P21"},
                  {"has_next", "P02 P03 P05 P14 P16 P21"},
                  {"next-cycle", "P02 P03 P05 P14 P16 P21"}};
    for (auto& n : narrow)
        if (!strcmp(n.kind, kind)) return strstr(n.props, the_prop.c_str()) != nullptr;
    if (g_in_next && !strcmp(kind, "wrong-overrider")) return strstr("P02 P03 P05 P14 P16 P19 P21", the_prop.c_str()) != nullptr;
    if (g_in_next && (!strcmp(kind, "wrong-error") || !strcmp(kind, "overrider-then-error")))
        return strstr("P02 P03 P04 P05 P14 P16 P19 P21", the_prop.c_str()) != nullptr;
    return true;
}
static void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void fail(const char* kind, const char* fmt, ...) {
    if (!speaks(kind)) {
        sim::count((std::string("not-ours.") + kind).c_str());
        return;
    }
    char b[900];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    sim::fail(kind, "%s", b);
}

Driver::Driver() { memset(&ids, 0, sizeof ids); }
Host* host;

#define CFG(n) Driver* get_driver_##n() __attribute__((weak));
CFG(0) CFG(1) CFG(2) CFG(3) CFG(4) CFG(5) CFG(6) CFG(7) CFG(8) CFG(9) CFG(10) CFG(11) CFG(12) CFG(13)
#undef CFG
Driver* get_driver(int c) {
    switch (c) {
#define CFG(n)                                                                                                         \
    case n: return get_driver_##n ? get_driver_##n() : nullptr;
        CFG(0) CFG(1) CFG(2) CFG(3) CFG(4) CFG(5) CFG(6) CFG(7) CFG(8) CFG(9) CFG(10) CFG(11) CFG(12) CFG(13)
#undef CFG
    }
    return nullptr;
}

const std::vector<MethodShape>& shapes() {
    static const std::vector<MethodShape> s{{{VP}},
                                            {{REF}},
                                            {{INT, PTR}},
                                            {{VPC, INT}},
                                            {{VP, VP}},
                                            {{CREF, INT, VP}},
                                            {{VPC, PTR}},
                                            {{VP, REF, VP}},
                                            {{INT, REF, INT, CREF, VP, INT}},
                                            {{VP, VPC, VP, VP}},
                                            {{VP, VP}}};
    return s;
}

static std::string codes(const std::vector<int>& v) {
    std::string s;
    for (int c : v) {
        char b[32];
        if (c < 0)
            snprintf(b, sizeof b, "?");
        else
            snprintf(b, sizeof b, "%d.%d", c / MAXA, c % MAXA);
        s += (s.empty() ? "" : ",") + std::string(b);
    }
    return s;
}
std::string Err::str() const {
    std::string s = kind;
    if (arity >= 0) s += " method=" + std::to_string(method) + " arity=" + std::to_string(arity);
    if (!ids.empty()) s += " ids=" + codes(ids);
    return s;
}

using Mask = unsigned;
struct OSnap {
    int o;
    std::vector<int> p; // classes
    int ret;            // class or -1
    int gen;
    int script;
    long sarg;
};
struct MSnap {
    std::vector<int> p;
    int ret = -1;
    int gen = 0;
    std::vector<OSnap> ovs;
};
struct Snap {
    bool n2216 = false;
    std::set<int> ids;
    bool reg[MAXC] = {};
    bool der[MAXC][MAXC] = {}; // der[b][d]: d is b or derives from b
    std::map<int, MSnap> meths;
    long maxid = -1;
};
struct Pred {
    Mask allowed = 0;
    std::string err;
};

enum St { UNINIT, OK, UNCERTAIN, BROKEN };
static const char* stname[] = {"UNINIT", "OK", "UNCERTAIN", "BROKEN"};

struct PoolEntry {
    bool exists = false;
    Obj* obj = nullptr;
    long epoch = -1;
    bool old = false; // survived a re-initialize
};

struct Reg {
    int index = 0, cfg = 0;
    Driver* d = nullptr;
    Traits t;
    std::int64_t mem = 0; // blocks of memory that initialize holds
    NodeDef nodes[128];
    bool nloaded[128] = {};
    NodeDef nactive[128];
    MethDef meths[NMETH], mactive[NMETH];
    bool mloaded[NMETH] = {};
    int mgen[NMETH] = {};
    OvrDef ovrs[NMETH][NOVR], oactive[NMETH][NOVR];
    bool oloaded[NMETH][NOVR] = {};
    int ogen[NMETH][NOVR] = {};
    St st = UNINIT;
    Snap snap;
    Report rep;
    long epoch = 0;
    int gens = 0;
    int hmode = 0; // 0: handler throws, 1: handler returns
    int hnum = 0;  // default_error_handler: installed handler
    PoolEntry pool[NPOOL];
    struct Pick { // what n2216 chose among equals
        int o;
        bool traced; // by an initialize that traced
        bool shaky;  // differs from one initialize to another anyway
    };
    std::map<std::vector<int>, Pick> picks;
    bool traced = false; // the last initialize
};

enum Mode { PLAIN, CHAIN, CHAINFORCE, SCRIPT };

struct Frame {
    int reg, m;
    Args args;
    Pred pred;
    std::vector<int> pickkey;
    std::set<std::string> errs; // acceptable errors (Err::str)
    bool entered = false, threw = false;
    long ret = 0;
    Mode mode = PLAIN;
    int depth = 0;
    bool next = false; // entered through next
};

struct Fault {
    int kind = 0; // 1 alloc, 2 output
    long n = 0;
};

struct LatWorld : sim::World, Host {
    const char* name() const override { return "lattice"; }
    Plan generate(std::uint64_t seed, const std::string& prop, bool thorough) override;
    void execute(const Plan& plan) override;
    bool knob_shrinkable(const std::string& k) override { return k == "arena_mode" || k == "arena_seed" || k == "idseed"; }

    // ------------------------------------------------------------ run state
    std::vector<std::unique_ptr<Reg>> regs;
    int K = 0;
    bool cdef[MAXC] = {};
    int nalias[MAXC];
    bool abstract_[MAXC] = {};
    bool truth[MAXC][MAXC] = {}; // truth[b][d]
    Obj objs[MAXC * MAXA];
    std::vector<Frame*> stacks[16];
    Err last_err[16];
    int nerr[16] = {};
    std::uint64_t total_errors = 0;
    bool dead = false;
    bool no_text_check = false;
    bool in_par = false;
    int nested_budget = 0;
    std::uint64_t callseq = 0;

    int fib() const { return sim::Fibers::current() + 1; }

    // ------------------------------------------------------------ model
    static bool dominates(const Snap& s, const OSnap& a, const OSnap& b) {
        bool r = false;
        for (std::size_t i = 0; i < a.p.size(); ++i) {
            if (a.p[i] == b.p[i]) continue;
            if (s.der[b.p[i]][a.p[i]])
                r = true;
            else if (s.der[a.p[i]][b.p[i]])
                return false;
        }
        return r;
    }
    static Pred choose(const Snap& s, const MSnap& m, const std::vector<const OSnap*>& c) {
        Pred r;
        if (c.empty()) {
            r.err = "no_overrider";
            return r;
        }
        std::vector<const OSnap*> u;
        for (auto a : c) {
            bool dom = false;
            for (auto b : c)
                if (a != b && dominates(s, *b, *a)) dom = true;
            if (!dom) u.push_back(a);
        }
        if (u.size() == 1) {
            r.allowed = 1u << u[0]->o;
            return r;
        }
        if (!s.n2216) {
            r.err = "ambiguous_call";
            return r;
        }
        if (u.empty()) u = c;
        bool cov = m.ret >= 0 && s.reg[m.ret];
        for (auto a : u) {
            bool worse = false;
            if (cov)
                for (auto b : u)
                    if (a->ret != b->ret && s.der[a->ret][b->ret]) worse = true;
            if (!worse) r.allowed |= 1u << a->o;
        }
        return r;
    }
    static Pred predict(const Snap& s, const MSnap& m, const std::vector<int>& cls) {
        std::vector<const OSnap*> c;
        for (auto& o : m.ovs) {
            bool ok = true;
            for (std::size_t i = 0; i < cls.size(); ++i) ok = ok && s.der[o.p[i]][cls[i]];
            if (ok) c.push_back(&o);
        }
        return choose(s, m, c);
    }
    static Pred predict_next(const Snap& s, const MSnap& m, const OSnap& me) {
        std::vector<const OSnap*> c;
        for (auto& o : m.ovs) {
            if (o.o == me.o) continue;
            bool ok = true, strict = false;
            for (std::size_t i = 0; i < me.p.size(); ++i) {
                ok = ok && s.der[o.p[i]][me.p[i]];
                strict = strict || o.p[i] != me.p[i];
            }
            if (ok && strict) c.push_back(&o);
        }
        return choose(s, m, c);
    }
    static bool has_duplicate(const MSnap& m, const OSnap& me) {
        for (auto& o : m.ovs)
            if (o.o != me.o && o.p == me.p) return true;
        return false;
    }

    // registered relation as listed by the loaded nodes
    struct Listed {
        bool reg[MAXC] = {};
        bool der[MAXC][MAXC] = {};
        std::set<int> ids;
    };
    Listed listed(const Reg& r) const {
        Listed l;
        for (int n = 0; n < 128; ++n)
            if (r.nloaded[n]) {
                auto& d = r.nactive[n];
                l.reg[d.cls] = true;
                l.der[d.cls][d.cls] = true;
                l.ids.insert(d.cls * MAXA + d.alias);
            }
        for (int n = 0; n < 128; ++n)
            if (r.nloaded[n])
                for (int b : r.nactive[n].bases)
                    if (l.reg[b / MAXA]) l.der[b / MAXA][r.nactive[n].cls] = true;
        for (int k = 0; k < MAXC; ++k)
            for (int i = 0; i < MAXC; ++i)
                for (int j = 0; j < MAXC; ++j)
                    if (l.der[i][k] && l.der[k][j]) l.der[i][j] = true;
        return l;
    }
    bool listing_complete(const Listed& l) const {
        for (int i = 0; i < MAXC; ++i)
            for (int j = 0; j < MAXC; ++j)
                if (l.reg[i] && l.reg[j] && l.der[i][j] != truth[i][j]) return false;
        return true;
    }
    std::set<std::string> init_errors(const Reg& r, const Listed& l) const {
        std::set<std::string> e;
        auto mc = [&](int code) {
            Err x;
            x.kind = "missing_class";
            x.ids = {code};
            e.insert(x.str());
        };
        for (int n = 0; n < 128; ++n)
            if (r.nloaded[n])
                for (int b : r.nactive[n].bases)
                    if (!l.reg[b / MAXA]) mc(b);
        for (int m = 0; m < NMETH; ++m)
            if (r.mloaded[m]) {
                auto& md = r.mactive[m];
                for (int p : md.params)
                    if (!l.reg[p / MAXA]) mc(p);
                bool cov = md.ret >= 0 && l.reg[md.ret / MAXA];
                for (int o = 0; o < NOVR; ++o)
                    if (r.oloaded[m][o]) {
                        auto& od = r.oactive[m][o];
                        for (std::size_t i = 0; i < od.params.size(); ++i) {
                            int p = od.params[i];
                            if (!l.reg[p / MAXA])
                                mc(p);
                            else if (l.reg[md.params[i] / MAXA] && !l.der[md.params[i] / MAXA][p / MAXA]) {
                                Err x; // aliases: reported by class
                                x.kind = "missing_base";
                                x.ids = {md.params[i] / MAXA * MAXA, p / MAXA * MAXA};
                                e.insert(x.str());
                            }
                        }
                        if (cov && (od.ret < 0 || !l.reg[od.ret / MAXA])) mc(od.ret);
                    }
            }
        return e;
    }
    Snap make_snap(const Reg& r, const Listed& l, bool n2216) const {
        Snap s;
        s.n2216 = n2216;
        s.ids = l.ids;
        memcpy(s.reg, l.reg, sizeof s.reg);
        memcpy(s.der, l.der, sizeof s.der);
        for (int m = 0; m < NMETH; ++m)
            if (r.mloaded[m]) {
                auto& ms = s.meths[m];
                for (int p : r.mactive[m].params) ms.p.push_back(p / MAXA);
                ms.ret = r.mactive[m].ret < 0 ? -1 : r.mactive[m].ret / MAXA;
                ms.gen = r.mgen[m];
                for (int o = 0; o < NOVR; ++o)
                    if (r.oloaded[m][o]) {
                        auto& od = r.oactive[m][o];
                        OSnap os;
                        os.o = o;
                        for (int p : od.params) os.p.push_back(p / MAXA);
                        os.ret = od.ret < 0 ? -1 : od.ret / MAXA;
                        os.gen = r.ogen[m][o];
                        os.script = od.script;
                        os.sarg = od.sarg;
                        ms.ovs.push_back(os);
                    }
            }
        for (int c : s.ids) s.maxid = std::max(s.maxid, long(r.d->ids.id[c / MAXA][c % MAXA]));
        return s;
    }
    static const OSnap* find_o(const MSnap& m, int o) {
        for (auto& x : m.ovs)
            if (x.o == o) return &x;
        return nullptr;
    }
    std::vector<std::vector<int>> tuples(const Snap& s, const MSnap& m, std::uint64_t limit, std::uint64_t seed) const {
        std::vector<std::vector<int>> doms;
        std::uint64_t total = 1;
        for (int p : m.p) {
            std::vector<int> d;
            for (int c = 0; c < MAXC; ++c)
                if (s.der[p][c]) d.push_back(c);
            total *= d.size();
            doms.push_back(d);
        }
        std::vector<std::vector<int>> r;
        if (!total) return r;
        auto decode = [&](std::uint64_t i) {
            std::vector<int> t;
            for (auto& d : doms) {
                t.push_back(d[i % d.size()]);
                i /= d.size();
            }
            return t;
        };
        if (total <= limit) {
            for (std::uint64_t i = 0; i < total; ++i) r.push_back(decode(i));
        } else {
            Rng rng(seed);
            for (std::uint64_t i = 0; i < limit; ++i) r.push_back(decode(rng.below(total)));
        }
        return r;
    }
    void check_report(Reg& r) {
        auto& s = r.snap;
        Report e;
        for (auto& [mi, m] : s.meths) {
            auto ts = tuples(s, m, 40000, 1);
            std::uint64_t total = 1;
            for (int p : m.p) {
                int n = 0;
                for (int c = 0; c < MAXC; ++c) n += s.der[p][c];
                total *= n;
            }
            if (total > 40000) return; // too large to enumerate: not compared
            bool ni = false, am = false;
            for (auto& t : ts) {
                auto p = predict(s, m, t);
                if (p.err == "no_overrider") ni = true;
                if (p.err == "ambiguous_call") am = true;
            }
            e.not_implemented += ni;
            e.ambiguous += am;
            if (m.p.size() > 1) {
                std::size_t cells = 1;
                for (std::size_t i = 0; i < m.p.size(); ++i) {
                    std::set<Mask> masks;
                    for (int c = 0; c < MAXC; ++c)
                        if (s.der[m.p[i]][c]) {
                            Mask k = 0;
                            for (auto& o : m.ovs)
                                if (s.der[o.p[i]][c]) k |= 1u << o.o;
                            masks.insert(k);
                        }
                    cells *= masks.size();
                }
                e.cells += cells;
            }
        }
        if (s.n2216) e.ambiguous = r.rep.ambiguous; // not specified there
        logf("report cells=%zu ni=%zu amb=%zu", r.rep.cells, r.rep.not_implemented, r.rep.ambiguous);
        sim::count("check.report");
        if (e.cells != r.rep.cells || e.not_implemented != r.rep.not_implemented || e.ambiguous != r.rep.ambiguous)
            fail("report", "report says cells=%zu not_implemented=%zu ambiguous=%zu, calls say %zu %zu %zu", r.rep.cells,
                 r.rep.not_implemented, r.rep.ambiguous, e.cells, e.not_implemented, e.ambiguous);
    }

    // ------------------------------------------------------------ calls
    bool alias_registered(const Reg& r, const Obj* o) const { return r.snap.ids.count(o->code()); }
    // can an unregistered object be looked up legally (error expected)?
    bool unreg_checked(const Reg& r, const Obj* o) const {
        if (!r.t.rtc) return false;
        if (r.t.hash || r.t.map) return true;
        return long(r.d->ids.id[o->cls][o->alias]) > r.snap.maxid;
    }
    bool pool_usable(const Reg& r, int slot) const {
        auto& p = r.pool[slot];
        if (!p.exists || !p.obj) return false;
        if (r.t.indirect) return r.snap.reg[p.obj->cls] && p.epoch >= 0;
        return p.epoch == r.epoch;
    }
    bool can_throw(const Reg& r) const { return r.t.handler == 0 || (r.hmode == 0 && !(r.t.handler == 2 && r.hnum == 0)); }

    // Fills the frame's expectations.  Returns false if the call is outside the contract.
    bool expect(Reg& r, Frame& f) {
        if (!r.mloaded[f.m]) return false;
        if (r.st == BROKEN) return false;
        Err ni;
        ni.kind = "not_initialized";
        if (r.st == UNINIT) {
            if (!r.t.rtc) return false;
            f.errs.insert(ni.str());
            return true;
        }
        if (r.st == UNCERTAIN) {
            if (!r.t.rtc) return false;
            f.errs.insert(ni.str());
        }
        auto mi = r.snap.meths.find(f.m);
        if (mi == r.snap.meths.end() || mi->second.gen != r.mgen[f.m]) return false;
        auto& ms = mi->second;
        std::vector<int> cls, ids;
        bool bad = false;
        for (std::size_t i = 0; i < f.args.a.size(); ++i) {
            if (shapes()[f.m].pars[i] == INT) continue;
            auto& a = f.args.a[i];
            cls.push_back(a.obj->cls);
            ids.push_back(a.obj->code());
            if (a.pool >= 0) {
                if (!pool_usable(r, a.pool)) return false;
                continue;
            }
            if (!alias_registered(r, a.obj)) {
                if (!unreg_checked(r, a.obj)) return false;
                Err e;
                e.kind = "missing_class";
                e.ids = {a.obj->code()};
                f.errs.insert(e.str());
                bad = true;
            }
        }
        if (bad) return true;
        f.pred = predict(r.snap, ms, cls);
        f.pickkey = {f.m, -1};
        f.pickkey.insert(f.pickkey.end(), cls.begin(), cls.end());
        return settle(r, ms, f, ids);
    }
    // common to calls and next: unloaded overriders are out of contract
    bool settle(Reg& r, const MSnap& ms, Frame& f, const std::vector<int>& ids) {
        for (auto& o : ms.ovs)
            if ((f.pred.allowed >> o.o) & 1)
                if (!r.oloaded[f.m][o.o] || r.ogen[f.m][o.o] != o.gen) return false;
        if (!f.pred.err.empty()) {
            Err e;
            e.kind = f.pred.err;
            e.method = f.m;
            e.arity = long(ids.size());
            e.ids = ids;
            f.errs.insert(e.str());
        }
        return true;
    }

    Err classify(Reg& r) {
        Err e = r.d->classify();
        if (e.kind == "sim:handled") return last_err[fib()];
        return e;
    }
    static bool is_library_error(const std::string& k) {
        return k == "not_initialized" || k == "no_overrider" || k == "ambiguous_call" || k == "missing_class" ||
            k == "missing_base" || k == "final_error" || k == "search_error" || k == "odr_violation";
    }
    void check_text(Reg& r, const Err& e) {
        if (r.t.handler != 0 || !is_library_error(e.kind)) return;
        if (no_text_check) return; // an allocation failed while the text was made
        if (e.text != e.written || e.text.empty())
            fail("handler", "%s: exception text '%s', error text '%s'", e.kind.c_str(), e.text.c_str(), e.written.c_str());
        else {
            auto d = describe(e.str());
            if (d != "?" && e.text != d) fail("handler", "%s: exception text '%s', expected '%s'", e.kind.c_str(), e.text.c_str(), d.c_str());
        }
    }
    void check_search_error(Reg& r, const Err& e, bool tracing) {
        if (e.kind != "search_error") {
            fail("wrong-error", "got %s, expected search_error", e.str().c_str());
            return;
        }
        auto& t = e.written;
        if (t.find(std::to_string(e.attempts)) == std::string::npos || t.find(std::to_string(e.buckets)) == std::string::npos ||
            t.find('\n') != std::string::npos)
            fail("handler", "search_error after %lu attempts with %lu buckets is described as '%s'", e.attempts, e.buckets, t.c_str());
        if (!tracing) return;
        // the trace tells the number of buckets of each pass; the error, of the last one
        auto& o = r.d->out;
        auto p = o.rfind("trying with M");
        auto q = p == std::string::npos ? p : o.find(" buckets", p);
        if (q == std::string::npos) return;
        auto b = q;
        while (b > p && isdigit(o[b - 1])) --b;
        if (b < q && std::stoul(o.substr(b, q - b)) != e.buckets)
            fail("handler", "search_error says the last attempt used %lu buckets, the trace says %s", e.buckets, o.substr(b, q - b).c_str());
    }
    static std::string norm(const Err& e) {
        if (e.kind == "missing_base") { // which alias of a class is named is not specified
            Err x = e;
            for (auto& i : x.ids)
                if (i >= 0) i = i / MAXA * MAXA;
            return x.str();
        }
        return e.str();
    }

    // runs fn under frame f, checks the outcome; rethrows errors
    long invoke(Reg& r, Frame& f, const std::function<long()>& fn) {
        auto& st = stacks[fib()];
        st.push_back(&f);
        nerr[fib()] = 0;
        try {
            long v = fn();
            st.pop_back();
            if (!f.entered) {
                fail("no-overrider-ran", "call of method %d returned %ld without running an overrider", f.m, v);
            } else if (v != f.ret)
                fail("result", "overrider returned %ld, caller received %ld", f.ret, v);
            if (r.st == UNCERTAIN) r.st = OK;
            return v;
        } catch (...) {
            ++total_errors;
            Err e = classify(r);
            st.pop_back();
            if (f.threw) {
                logf("propagate %s", e.str().c_str());
                throw;
            }
            logf("error %s", e.str().c_str());
            check_text(r, e);
            auto es = norm(e);
            g_in_next = f.next;
            if (f.entered)
                fail("overrider-then-error", "method %d: an overrider ran and then %s was raised", f.m, es.c_str());
            else if (!f.errs.count(es)) {
                std::string want = f.errs.empty() ? (f.pred.allowed ? "an overrider to run" : "nothing") : *f.errs.begin();
                fail("wrong-error", "method %d: got %s, expected %s", f.m, es.c_str(), want.c_str());
            }
            g_in_next = 0;
            if (r.t.handler != 0 && nerr[fib()] != 1)
                fail("handler", "handler was called %d times for one error", nerr[fib()]);
            if (r.st == UNCERTAIN) r.st = e.kind == "not_initialized" ? UNINIT : OK;
            sim::count(("error." + e.kind).c_str());
            throw;
        }
    }

    long body(int reg, int m, int o, const Args& args, bool (*has_next)(), const std::function<long()>& next) override {
        auto& r = *regs[reg];
        auto& st = stacks[fib()];
        if (st.empty()) {
            fail("stray-overrider", "overrider %d of method %d ran outside any call", o, m);
            return 0;
        }
        Frame& f = *st.back();
        logf("enter r%d m%d o%d", reg, m, o);
        ++callseq;
        if (f.reg != reg || f.m != m) {
            fail("wrong-method", "overrider %d of method %d ran in a call of method %d", o, m, f.m);
            return 0;
        }
        if (f.entered) {
            fail("twice", "overrider %d of method %d ran after another one in the same call", o, m);
            return 0;
        }
        f.entered = true;
        if (!((f.pred.allowed >> o) & 1)) {
            std::string want = f.errs.empty() ? "mask " + std::to_string(f.pred.allowed) : *f.errs.begin();
            g_in_next = f.next;
            fail("wrong-overrider", "method %d ran overrider %d, expected %s", m, o, want.c_str());
            g_in_next = 0;
            return 0;
        }
        for (std::size_t i = 0; i < args.a.size(); ++i)
            if (args.a[i].obj != f.args.a[i].obj || args.a[i].val != f.args.a[i].val) {
                fail("wrong-argument", "method %d overrider %d: argument %zu is not the caller's", m, o, i);
                return 0;
            }
        if (f.pred.allowed & (f.pred.allowed - 1)) {
            auto [it, fresh] = r.picks.emplace(f.pickkey, Reg::Pick{o, r.traced, false});
            auto& pk = it->second;
            if (!fresh && pk.o != o) {
                fail("unstable-pick", "method %d: n2216 picked overrider %d, earlier %d", m, o, pk.o);
                if (pk.traced == r.traced) pk.shaky = true;
                else if (!pk.shaky)
                    fail("traced-pick", "method %d: overrider %d is picked %s trace, %d otherwise", m, o, r.traced ? "with" : "without", pk.o);
            }
            sim::count("n2216.pick");
        }
        sim::count("calls.overriders-run");
        long ret = 1000 * m + 10 * o + 7;
        for (auto& a : args.a) ret = ret * 31 + a.val;
        auto& ms = r.snap.meths[m];
        auto& me = *find_o(ms, o);
        Pred np = predict_next(r.snap, ms, me);
        // with n2216 'next' of an overrider hidden behind a duplicate is unspecified
        bool next_ok = !has_duplicate(ms, me);
        Frame nf;
        nf.reg = reg;
        nf.m = m;
        nf.next = true;
        nf.args = f.args;
        nf.pred = np;
        nf.mode = f.mode;
        nf.depth = f.depth + 1;
        nf.pickkey = {m, o};
        {
            std::vector<int> ids;
            for (std::size_t i = 0; i < args.a.size(); ++i)
                if (shapes()[m].pars[i] != INT) ids.push_back(args.a[i].obj->code());
            if (next_ok && !settle(r, ms, nf, ids)) next_ok = false;
        }
        try {
            bool want = np.err.empty();
            auto check_has = [&] {
                bool h = has_next();
                sim::count("next.has_next");
                if (h != want)
                    fail("has_next", "method %d overrider %d: has_next is %d, expected %d (%s)", m, o, h, want,
                         np.err.empty() ? "runs" : np.err.c_str());
                return h;
            };
            auto call_next = [&] {
                sim::count(np.err.empty() ? "next.runs" : ("next." + np.err).c_str());
                return invoke(r, nf, next);
            };
            int script = f.mode == SCRIPT ? me.script : f.mode == PLAIN ? RET : f.mode == CHAIN ? NEXT : FORCE;
            if (failed()) script = RET;
            if (f.depth > 40) {
                fail("next-cycle", "method %d: chain of next is longer than the number of overriders", m);
                script = RET;
            }
            switch (script) {
            case RET: break;
            case NEXT:
                if (next_ok && check_has()) ret = ret * 17 + call_next();
                break;
            case FORCE:
                if (next_ok) {
                    check_has();
                    if (np.err.empty() || can_throw(r)) ret = ret * 19 + call_next();
                }
                break;
            case NESTED:
                if (nested_budget > 0) {
                    --nested_budget;
                    Rng rng(me.sarg * 7919 + o);
                    ret = ret * 23 + nested_call(r, rng, f.depth + 1);
                }
                break;
            case THROW: {
                sim::count("fault.overrider-throws");
                throw SimThrow{"ovr" + std::to_string(o)};
            }
            }
        } catch (...) {
            f.threw = true;
            throw;
        }
        f.ret = ret;
        logf("leave r%d m%d o%d %ld", reg, m, o, ret);
        return ret;
    }
    long nested_call(Reg& r, Rng& rng, int depth) {
        std::vector<int> ms;
        for (auto& [m, s] : r.snap.meths)
            if (r.mloaded[m]) ms.push_back(m);
        if (ms.empty()) return 0;
        Frame f;
        std::vector<long> raw;
        int m = ms[rng.below(ms.size())];
        for (int i = 0; i < 6; ++i) raw.push_back(long(rng.below(1 << 16)));
        if (!make_args(r, m, raw, f)) return 0;
        f.mode = SCRIPT;
        f.depth = depth;
        if (!expect(r, f)) return 0;
        if (!f.errs.empty() && !can_throw(r)) return 0;
        sim::count("calls.nested");
        try {
            return invoke(r, f, [&] { return r.d->call(f.m, f.args); });
        } catch (...) {
            return 5; // the overrider handles it
        }
    }
    void seam(int, const char*) override { sim::count("seam.dynamic_type"); }
    bool on_error(int reg, Err&& e, int handler) override {
        auto& r = *regs[reg];
        ++nerr[fib()];
        logf("handler r%d n%d %s", reg, handler, e.str().c_str());
        last_err[fib()] = std::move(e);
        if (r.t.handler == 2 && handler != r.hnum)
            fail("handler", "error delivered to handler %d, handler %d is in force", handler, r.hnum);
        return r.hmode == 0;
    }

    // raw[i]: bits 0-3 selector, bit 14 pool, rest index
    bool make_args(Reg& r, int m, const std::vector<long>& raw, Frame& f) {
        f.reg = r.index;
        f.m = m;
        auto& sh = shapes()[m];
        std::vector<int> params;
        auto mi = r.snap.meths.find(m);
        if (r.st != UNINIT) {
            if (mi == r.snap.meths.end()) return false;
            params = mi->second.p;
        } else {
            for (int p : r.mactive[m].params) params.push_back(p / MAXA);
        }
        int vi = 0;
        for (std::size_t i = 0; i < sh.pars.size(); ++i) {
            long v = i < raw.size() ? raw[i] : 0;
            if (v < 0) v = -v;
            Arg a;
            if (sh.pars[i] == INT) {
                a.val = v % 1000;
                f.args.a.push_back(a);
                continue;
            }
            int pc = params[vi++];
            bool virt = sh.pars[i] == VP || sh.pars[i] == VPC;
            if (virt && (v >> 14) & 1) {
                std::vector<int> slots;
                for (int s = 0; s < NPOOL; ++s)
                    if (pool_usable(r, s) && truth[pc][r.pool[s].obj->cls]) slots.push_back(s);
                if (!slots.empty()) {
                    a.pool = slots[(v >> 4) % slots.size()];
                    a.obj = r.pool[a.pool].obj;
                    if (r.pool[a.pool].old) sim::count("vptr.old-used");
                    f.args.a.push_back(a);
                    continue;
                }
            }
            std::vector<int> good, bad;
            for (int c = 0; c < MAXC; ++c)
                if (cdef[c] && truth[pc][c])
                    for (int al = 0; al < nalias[c]; ++al) {
                        int code = c * MAXA + al;
                        if (r.st == UNINIT || r.snap.ids.count(code))
                            good.push_back(code);
                        else if (unreg_checked(r, &objs[code]))
                            bad.push_back(code);
                    }
            bool pick_bad = (v & 15) == 15 && !bad.empty();
            auto& from = pick_bad ? bad : good;
            if (from.empty()) return false;
            a.obj = &objs[from[(v >> 4 & 1023) % from.size()]];
            f.args.a.push_back(a);
        }
        return true;
    }
    // a call from the outside world; returns false if skipped
    bool do_call(Reg& r, int m, const std::vector<long>& raw, Mode mode) {
        if (!r.mloaded[m] || r.st == BROKEN) return false;
        Frame f;
        if (!make_args(r, m, raw, f)) return false;
        f.mode = mode;
        if (!expect(r, f)) return false;
        return run_frame(r, f);
    }
    bool run_frame(Reg& r, Frame& f) {
        bool may_fail = !f.errs.empty();
        if (!can_throw(r)) {
            if (may_fail) {
                if (in_par || r.st == UNCERTAIN) return false;
            } else if (f.mode == CHAINFORCE)
                f.mode = CHAIN;
        }
        std::string a;
        for (auto& x : f.args.a) a += " " + (x.obj ? codes({x.obj->code()}) + (x.pool >= 0 ? "p" + std::to_string(x.pool) : "") : std::to_string(x.val));
        logf("call r%d m%d mode%d%s st=%s", r.index, f.m, int(f.mode), a.c_str(), stname[r.st]);
        sim::count("calls.total");
        if (may_fail && !can_throw(r)) { // the program must be stopped
            bool ab = sim::aborts([&] {
                try {
                    invoke(r, f, [&] { return r.d->call(f.m, f.args); });
                } catch (...) {
                }
            });
            check_abort(r, f.errs, ab, f.entered);
            return true;
        }
        if (!in_par) nested_budget = 6;
        auto a0 = sim::alloc_stats();
        auto e0 = total_errors;
        try {
            long v = invoke(r, f, [&] { return r.d->call(f.m, f.args); });
            logf("result %ld", v);
        } catch (...) {
            logf("raised");
        }
        if (!in_par && e0 == total_errors && sim::alloc_stats().allocs != a0.allocs)
            fail("allocation", "a method call allocated memory");
        return true;
    }
    void check_abort(Reg& r, const std::set<std::string>& errs, bool ab, bool entered, bool tracing = false) {
        dead = true;
        if (!ab) {
            fail("no-abort", "the handler returned and the program was not stopped");
            return;
        }
        sim::count("abort.expected");
        if (entered) fail("overrider-then-error", "an overrider ran and then the program was stopped");
        if (r.t.handler == 2 && r.hnum == 0) {
            if (!r.t.output) return;
            auto o = r.d->out;
            bool ok = false;
            for (auto& e : errs) {
                auto d = describe(e);
                d += "\n";
                if (e.find("missing_base") == 0) o = alias0(o); // any of a class's type_ids may be named
                if (tracing ? o.size() > d.size() && o.compare(o.size() - d.size(), d.size(), d) == 0 : o == d) ok = true;
            }
            logf("default handler wrote %s", o.c_str());
            if (!ok)
                fail("handler", "the default handler wrote '%s', expected '%s' and a newline", o.c_str(),
                     errs.empty() ? "" : describe(*errs.begin()).c_str());
            return;
        }
        if (nerr[fib()] != 1) {
            fail("handler", "handler was called %d times for one error", nerr[fib()]);
            return;
        }
        auto es = norm(last_err[fib()]);
        if (!errs.count(es)) fail("wrong-error", "got %s, expected %s", es.c_str(), errs.empty() ? "none" : errs.begin()->c_str());
    }
    static std::string alias0(std::string s) {
        for (auto p = s.rfind(" -<| "); p != std::string::npos && p < s.size(); p = s.find('.', p)) {
            if (s[p] == '.') {
                auto e = ++p;
                while (e < s.size() && isdigit(s[e])) ++e;
                s.replace(p, e - p, "0");
            }
        }
        auto q = s.rfind("missing base C");
        if (q != std::string::npos && (q = s.find('.', q)) != std::string::npos) {
            auto e = ++q;
            while (e < s.size() && isdigit(s[e])) ++e;
            s.replace(q, e - q, "0");
        }
        return s;
    }
    // documented descriptions, from Err::str()
    static std::string describe(const std::string& s) {
        auto id = [&](int n) {
            auto p = s.find("ids=");
            if (p == std::string::npos) return std::string("?");
            p += 4;
            while (n--) p = s.find(',', p) + 1;
            auto e = s.find(',', p);
            return "C" + s.substr(p, e == std::string::npos ? e : e - p);
        };
        if (s.find("not_initialized") == 0) return "not initialized";
        if (s.find("no_overrider") == 0) return "not implemented";
        if (s.find("ambiguous_call") == 0) return "ambiguous";
        if (s.find("missing_class") == 0) return "unknown class " + id(0);
        if (s.find("missing_base") == 0) return "missing base " + id(0) + " -<| " + id(1);
        if (s.find("final_error") == 0) return "invalid call to final construct: static type = " + id(0) + ", dynamic type = " + id(1);
        return "?";
    }

    // all (or many) argument combinations of all methods
    void check_all(Reg& r, std::uint64_t seed, std::uint64_t limit, Mode mode) {
        if (r.st != OK && r.st != UNCERTAIN) return;
        auto snap_meths = r.snap.meths;
        for (auto& [m, ms] : snap_meths) {
            if (!r.mloaded[m] || r.mgen[m] != ms.gen) continue;
            Rng rng(seed + m);
            for (auto& t : tuples(r.snap, ms, limit, seed * 31 + m)) {
                if (failed() || dead) return;
                Frame f;
                f.reg = r.index;
                f.m = m;
                std::size_t vi = 0;
                bool ok = true;
                for (auto p : shapes()[m].pars) {
                    Arg a;
                    if (p == INT)
                        a.val = long(rng.below(1000));
                    else {
                        int c = t[vi++];
                        std::vector<int> al;
                        for (int i = 0; i < nalias[c]; ++i)
                            if (r.snap.ids.count(c * MAXA + i)) al.push_back(i);
                        if (al.empty()) {
                            ok = false;
                            break;
                        }
                        a.obj = &objs[c * MAXA + al[rng.below(al.size())]];
                    }
                    f.args.a.push_back(a);
                }
                if (!ok) continue;
                f.mode = mode;
                if (!expect(r, f)) continue;
                if (!f.errs.empty() && !can_throw(r)) continue;
                sim::count("check.tuples");
                run_frame(r, f);
                if (r.st == UNINIT) return;
            }
        }
    }

    // ------------------------------------------------------------ initialize
    void invalidate_pool(Reg& r) {
        (void)r; // entries keep their epoch; pool_usable() decides
    }
    bool hash_may_fail(const Reg& r, const Listed& l) const {
        int n = 0;
        for (int c = 0; c < MAXC; ++c) n += l.reg[c];
        return r.t.hash && int(l.ids.size()) > n;
    }
    bool hash_must_fail(const Reg& r, const Listed& l) const {
        if (!r.t.hash) return false;
        int n = 0, M = 1;
        for (int c = 0; c < MAXC; ++c) n += l.reg[c];
        for (int s = n * 5 / 4; s >>= 1;) ++M;
        (void)n;
        return l.ids.size() > (std::size_t(1) << (M + 3)) * 64; // no table of any plausible size: never with MAXA
    }
    bool do_init(Reg& r, int opts, Fault fl) {
        auto l = listed(r);
        auto errs = init_errors(r, l);
        if (errs.empty() && !listing_complete(l)) {
            logf("init r%d skipped: incomplete listing", r.index);
            return false;
        }
        if (r.t.deferred && !r.d->ids.assigned) return false;
        if (!r.t.output) opts &= ~3;
        bool search = hash_may_fail(r, l);
        bool thr = can_throw(r);
        r.d->out.clear();
        r.d->writes = 0;
        r.d->out_fail_at = -1;
        if (fl.kind == 2 && !(opts & 2)) fl.kind = 0;
        if (fl.kind == 2) r.d->out_fail_at = fl.n;
        logf("init r%d opts=%d fault=%d/%ld st=%s", r.index, opts, fl.kind, fl.n, stname[r.st]);
        sim::count("init.total");
        if ((opts & 3) == 3) sim::count("init.traced");
        Report rep;
        Err e;
        bool ok = false, ab = false;
        nerr[0] = 0;
        struct Mem { // what initialize keeps
            Reg& r;
            std::int64_t live = sim::alloc_stats().live;
            ~Mem() { r.mem += sim::alloc_stats().live - live; }
        };
        auto run = [&] {
            Mem mem{r};
            try {
                if (fl.kind == 1) sim::arm_alloc_failure(fl.n);
                sim::arena_step();
                rep = r.d->initialize(opts);
                ok = true;
            } catch (...) {
                sim::arm_alloc_failure(-1);
                r.d->out_fail_at = -1;
                ++total_errors;
                e = classify(r);
            }
            sim::arm_alloc_failure(-1);
            r.d->out_fail_at = -1;
        };
        if (!thr && !errs.empty()) {
            ab = sim::aborts(run);
            sim::arm_alloc_failure(-1);
            if (!ab && !ok && (e.kind == "bad_alloc" || e.kind == "output-fault")) {
                r.st = r.t.rtc && r.st != BROKEN ? (r.st == UNINIT ? UNINIT : UNCERTAIN) : BROKEN;
                return true;
            }
            check_abort(r, errs, ab, false, (opts & 3) == 3);
            return true;
        }
        if (!thr && search) { // if no factors are found, the program stops
            ab = sim::aborts(run);
            sim::arm_alloc_failure(-1);
            if (ab) {
                dead = true;
                sim::count("abort.expected");
                sim::count("fault.hash-search-failure");
                if (r.t.handler != 2 || r.hnum) {
                    if (nerr[fib()] != 1) fail("handler", "handler was called %d times for one error", nerr[fib()]);
                    else check_search_error(r, last_err[fib()], (opts & 3) == 3);
                } else if (r.t.output && r.d->out.empty()) fail("handler", "the default handler wrote nothing");
                return true;
            }
            if (!ok && is_library_error(e.kind)) {
                fail("wrong-error", "initialize raised %s", norm(e).c_str());
                return true;
            }
            if (ok && nerr[fib()]) {
                fail("no-abort", "the handler returned and initialize went on");
                return true;
            }
        } else
            run();
        bool tracing = (opts & 3) == 3;
        if (ok) {
            logf("init ok");
            sim::count("init.ok");
            if (!errs.empty()) {
                fail("undetected", "initialize succeeded, expected %s", errs.begin()->c_str());
                return true;
            }
            if (tracing && !r.d->writes) fail("trace", "initialize with trace wrote nothing");
            if (!tracing && r.d->writes) fail("trace", "initialize without trace wrote '%.60s'", r.d->out.c_str());
            r.st = OK;
            r.traced = tracing;
            ++r.epoch;
            r.snap = make_snap(r, l, opts & 4);
            r.rep = rep;
            for (int s = 0; s < NPOOL; ++s)
                if (r.t.indirect && r.pool[s].exists && r.pool[s].obj && r.snap.reg[r.pool[s].obj->cls]) {
                    r.pool[s].epoch = r.epoch;
                    r.pool[s].old = true;
                }
            check_report(r);
            state(r);
            check_pool(r);
            return true;
        }
        auto es = norm(e);
        logf("init error %s", es.c_str());
        sim::count(("init." + e.kind).c_str());
        no_text_check = fl.kind == 1;
        check_text(r, e);
        no_text_check = false;
        if (is_library_error(e.kind) && r.t.handler != 0 && nerr[0] != 1)
            fail("handler", "handler was called %d times for one error", nerr[0]);
        if (errs.count(es)) {
            // raised while analysing the registrations: nothing was installed
            if (!tracing && r.d->writes) fail("trace", "initialize without trace wrote '%.60s'", r.d->out.c_str());
        } else if ((e.kind == "bad_alloc" && fl.kind == 1) || (e.kind == "output-fault" && fl.kind == 2) || (e.kind == "search_error" && search)) {
            if (e.kind == "search_error") {
                sim::count("fault.hash-search-failure");
                check_search_error(r, e, tracing);
            }
            r.st = r.t.rtc && r.st != BROKEN ? (r.st == UNINIT ? UNINIT : UNCERTAIN) : BROKEN;
        } else if (errs.empty())
            fail("wrong-error", "initialize of a correct registry raised %s", es.c_str());
        else
            fail("wrong-error", "initialize raised %s, expected %s", es.c_str(), errs.begin()->c_str());
        state(r);
        return true;
    }
    void do_finalize(Reg& r, int opts) {
        logf("finalize r%d", r.index);
        auto live = sim::alloc_stats().live;
        try {
            r.d->finalize(opts);
        } catch (...) {
            fail("finalize", "finalize threw");
        }
        r.mem += sim::alloc_stats().live - live;
        if (r.mem > 0) fail("leak", "finalize left %ld blocks of memory that initialize allocated", long(r.mem));
        r.mem = 0;
        r.st = r.t.rtc ? UNINIT : BROKEN;
        ++r.epoch;
        sim::count("finalize.total");
        state(r);
    }
    void state(Reg& r) {
        std::uint64_t h = r.cfg * 1000 + r.st;
        if (r.st == OK || r.st == UNCERTAIN) {
            h = sim::mix(h, r.snap.n2216);
            for (int c : r.snap.ids) h = sim::mix(h, c);
            for (int i = 0; i < MAXC; ++i)
                for (int j = 0; j < MAXC; ++j)
                    if (r.snap.der[i][j]) h = sim::mix(h, i * 100 + j);
            for (auto& [m, s] : r.snap.meths) {
                h = sim::mix(h, m);
                for (auto& o : s.ovs) {
                    h = sim::mix(h, o.o + 77);
                    for (int p : o.p) h = sim::mix(h, p);
                }
            }
        }
        sim::note_state(h);
    }

    // ------------------------------------------------------------ registrations
    void load_n(Reg& r, int n) {
        if (n < 0 || n >= 128 || r.nloaded[n] || r.nodes[n].cls < 0) return;
        r.nactive[n] = r.nodes[n];
        r.nloaded[n] = true;
        r.picks.clear();
        r.d->load_class(n, r.nactive[n]);
        sim::count("load.class");
    }
    void unload_n(Reg& r, int n) {
        if (n < 0 || n >= 128 || !r.nloaded[n]) return;
        r.nloaded[n] = false;
        r.picks.clear();
        r.d->unload_class(n);
        sim::count("unload.class");
    }
    void load_m(Reg& r, int m) {
        if (m < 0 || m >= NMETH || r.mloaded[m] || !r.meths[m].defined) return;
        for (int o = 0; o < NOVR; ++o)
            if (r.oloaded[m][o] && !compatible(r.meths[m], r.oactive[m][o])) return;
        r.mactive[m] = r.meths[m];
        r.mloaded[m] = true;
        r.picks.clear();
        r.mgen[m] = ++r.gens;
        r.d->load_method(m, r.mactive[m]);
        sim::count("load.method");
    }
    void unload_m(Reg& r, int m) {
        if (m < 0 || m >= NMETH || !r.mloaded[m]) return;
        r.mloaded[m] = false;
        r.picks.clear();
        r.d->unload_method(m);
        sim::count("unload.method");
    }
    // C++ would not compile an overrider whose parameter does not derive from the method's
    bool compatible(const MethDef& m, const OvrDef& o) const {
        if (m.params.size() != o.params.size()) return false;
        for (std::size_t i = 0; i < m.params.size(); ++i)
            if (!truth[m.params[i] / MAXA][o.params[i] / MAXA]) return false;
        if ((m.ret < 0) != (o.ret < 0)) return false;
        if (m.ret >= 0 && !truth[m.ret / MAXA][o.ret / MAXA]) return false;
        return true;
    }
    void load_o(Reg& r, int m, int o) {
        if (m < 0 || m >= NMETH || o < 0 || o >= NOVR || r.oloaded[m][o] || !r.ovrs[m][o].defined) return;
        auto& md = r.mloaded[m] ? r.mactive[m] : r.meths[m];
        if (!md.defined || !compatible(md, r.ovrs[m][o])) return;
        r.oactive[m][o] = r.ovrs[m][o];
        r.oloaded[m][o] = true;
        r.picks.clear();
        r.ogen[m][o] = ++r.gens;
        r.d->load_overrider(m, o, r.oactive[m][o]);
        sim::count("load.overrider");
    }
    void unload_o(Reg& r, int m, int o) {
        if (m < 0 || m >= NMETH || o < 0 || o >= NOVR || !r.oloaded[m][o]) return;
        r.oloaded[m][o] = false;
        r.picks.clear();
        r.d->unload_overrider(m, o);
        sim::count("unload.overrider");
    }
    struct Item {
        int k, a, b;
    };
    std::vector<Item> items(Reg& r, bool loaded) {
        std::vector<Item> v;
        for (int n = 0; n < 128; ++n)
            if (r.nloaded[n] == loaded && (loaded || r.nodes[n].cls >= 0)) v.push_back({0, n, 0});
        for (int m = 0; m < NMETH; ++m) {
            if (r.mloaded[m] == loaded && (loaded || r.meths[m].defined)) v.push_back({1, m, 0});
            for (int o = 0; o < NOVR; ++o)
                if (r.oloaded[m][o] == loaded && (loaded || r.ovrs[m][o].defined)) v.push_back({2, m, o});
        }
        return v;
    }
    void load(Reg& r, const Item& i) {
        if (i.k == 0) load_n(r, i.a);
        if (i.k == 1) load_m(r, i.a);
        if (i.k == 2) load_o(r, i.a, i.b);
    }
    void unload(Reg& r, const Item& i) {
        if (i.k == 0) unload_n(r, i.a);
        if (i.k == 1) unload_m(r, i.a);
        if (i.k == 2) unload_o(r, i.a, i.b);
    }

    // ------------------------------------------------------------ virtual_ptr pool
    void check_slot(Reg& r, int s) {
        auto& p = r.pool[s];
        if (!p.exists) return;
        if (r.d->vp_obj(s) != p.obj) {
            fail("virtual_ptr", "virtual_ptr does not point to the expected object");
            return;
        }
        if (!p.obj) {
            if (!r.d->vp_vptr_null(s)) fail("virtual_ptr", "null virtual_ptr with a v-table pointer");
            return;
        }
        if (r.st == OK && pool_usable(r, s) && !r.d->vp_vptr_is(s, p.obj->cls))
            fail("virtual_ptr", "virtual_ptr carries another class's v-table (class %d)", p.obj->cls);
    }
    void check_pool(Reg& r) {
        for (int s = 0; s < NPOOL; ++s) check_slot(r, s);
    }
    // expected errors of a lookup of o; false: out of contract
    bool expect_lookup(Reg& r, Obj* o, std::set<std::string>& errs, bool& may_succeed) {
        may_succeed = false;
        if (r.st == BROKEN) return false;
        if (!r.t.rtc && r.st != OK) return false;
        if (r.st == UNINIT || r.st == UNCERTAIN) errs.insert("not_initialized");
        if (r.st == UNINIT) return true;
        if (alias_registered(r, o)) {
            may_succeed = true;
            return true;
        }
        if (!unreg_checked(r, o)) return false;
        Err e;
        e.kind = "missing_class";
        e.ids = {o->code()};
        errs.insert(e.str());
        return true;
    }
    // runs f; returns true if it succeeded; checks errors
    bool attempt(Reg& r, const std::set<std::string>& errs, bool may_succeed, const char* what, const std::function<void()>& f) {
        if (!errs.empty() && !can_throw(r)) {
            if (may_succeed) return false; // undecided: skip
            nerr[0] = 0;
            r.d->out.clear();
            bool ab = sim::aborts([&] {
                try {
                    f();
                } catch (...) {
                }
            });
            check_abort(r, errs, ab, false);
            return false;
        }
        nerr[fib()] = 0;
        auto a0 = sim::alloc_stats();
        try {
            f();
            if (!may_succeed) fail("undetected", "%s succeeded, expected %s", what, errs.empty() ? "?" : errs.begin()->c_str());
            if (!in_par && sim::alloc_stats().allocs != a0.allocs) fail("allocation", "%s allocated memory", what);
            if (r.st == UNCERTAIN) r.st = OK;
            return true;
        } catch (...) {
            ++total_errors;
            Err e = classify(r);
            check_text(r, e);
            auto es = norm(e);
            logf("%s error %s", what, es.c_str());
            sim::count(("error." + e.kind).c_str());
            if (!errs.count(es))
                fail("wrong-error", "%s raised %s, expected %s", what, es.c_str(), errs.empty() ? "success" : errs.begin()->c_str());
            if (r.t.handler != 0 && nerr[fib()] != 1) fail("handler", "handler was called %d times for one error", nerr[fib()]);
            if (r.st == UNCERTAIN) r.st = e.kind == "not_initialized" ? UNINIT : OK;
            return false;
        }
    }
    Obj* pick_obj(Reg& r, long v) {
        if (v < 0) v = -v;
        std::vector<int> good, bad;
        for (int c = 0; c < MAXC; ++c)
            if (cdef[c])
                for (int al = 0; al < nalias[c]; ++al)
                    (r.snap.ids.count(c * MAXA + al) ? good : bad).push_back(c * MAXA + al);
        auto& from = ((v & 15) >= 13 && !bad.empty()) || good.empty() ? bad : good;
        if (from.empty()) return nullptr;
        return &objs[from[(v >> 4) % from.size()]];
    }
    void op_vpmake(Reg& r, int s, long ov, int how) {
        Obj* o = pick_obj(r, ov);
        if (!o) return;
        std::set<std::string> errs;
        bool may;
        if (!expect_lookup(r, o, errs, may)) return;
        auto& p = r.pool[s];
        if (!p.exists) {
            if (how >= 2) r.d->vp_null(s, 0);
        }
        PoolEntry old = p;
        if (!old.exists) old.exists = how >= 2;
        logf("vpmake r%d s%d %s how%d", r.index, s, codes({o->code()}).c_str(), how);
        sim::count("vptr.make");
        if (attempt(r, errs, may, "virtual_ptr construction", [&] { r.d->vp_make(s, o, how); })) {
            p.exists = true;
            p.obj = o;
            p.epoch = r.epoch;
            p.old = false;
        } else {
            if (dead || failed()) return;
            sim::count("vptr.make-failed");
            p = old;
            if (p.exists && p.obj && r.d->vp_obj(s) == nullptr) p.obj = nullptr;
        }
        check_slot(r, s);
    }
    void op_vpfinal(Reg& r, int s, long ov, long cv, int how) {
        Obj* o = pick_obj(r, ov);
        if (!o) return;
        int c = o->cls;
        if ((cv & 7) == 7) { // mismatch with an other class
            std::vector<int> cs;
            for (int k = 0; k < MAXC; ++k)
                if (cdef[k] && k != c) cs.push_back(k);
            if (cs.empty()) return;
            c = cs[(cv >> 3) % cs.size()];
        }
        if (r.st == BROKEN || (!r.t.rtc && r.st != OK)) return;
        std::set<std::string> errs;
        bool may = false;
        if (r.st == UNINIT || r.st == UNCERTAIN) errs.insert("not_initialized");
        if (r.st != UNINIT) {
            if (c != o->cls) {
                if (!r.t.rtc) return;
                Err e;
                e.kind = "final_error";
                e.ids = {c * MAXA, o->code()};
                errs.insert(e.str());
            } else {
                if (!r.snap.reg[c]) return;
                may = true;
            }
        }
        auto& p = r.pool[s];
        if (!p.exists) {
            r.d->vp_null(s, 0);
            p.exists = true;
        }
        logf("vpfinal r%d s%d %s as %d how%d", r.index, s, codes({o->code()}).c_str(), c, how);
        sim::count("vptr.final");
        if (attempt(r, errs, may, "final construct", [&] { r.d->vp_final(s, o, c, how); })) {
            p.obj = o;
            p.epoch = r.epoch;
            p.old = false;
        }
        if (dead || failed()) return;
        check_slot(r, s);
    }
    void look_all(Reg& r) {
        for (int c = 0; c < MAXC; ++c)
            if (cdef[c])
                for (int a = 0; a < nalias[c] && !failed() && !dead; ++a) {
                    Obj* o = &objs[c * MAXA + a];
                    std::set<std::string> errs;
                    bool may, good = true;
                    if (!expect_lookup(r, o, errs, may)) continue;
                    if (!errs.empty() && !can_throw(r)) continue;
                    sim::count("lookup.total");
                    if (attempt(r, errs, may, "lookup", [&] { good = r.d->lookup_ok(o); }) && !good)
                        fail("lookup", "type_id of %d.%d leads to another class's v-table", c, a);
                }
    }

    // ------------------------------------------------------------ ids
    void make_ids(Reg& r, int scheme, std::uint64_t seed) {
        Rng rng(seed * 977 + r.index);
        std::set<std::uintptr_t> used;
        if (r.t.vec && !r.t.hash) scheme = scheme % 2 ? 100 : 101;
        std::vector<int> order;
        for (int c = 0; c < MAXC * MAXA; ++c) order.push_back(c);
        rng.shuffle(order);
        std::uintptr_t next = scheme == 100 ? rng.below(3) : 0;
        std::uintptr_t base = (0x500000000000ull + (rng.next() & 0xfffffff000ull));
        for (int c : order) {
            if (c % MAXA >= nalias[c / MAXA]) continue;
            std::uintptr_t v = 0;
            do {
                switch (scheme) {
                case 100: v = next++; break;                              // dense
                case 101: v = rng.below(3000); break;                     // sparse small
                case 0: v = base + 16 * rng.below(4096); break;           // one module's type_infos
                case 1: v = base + 64 * (next++); break;                  // regular stride
                case 2: v = rng.next() & 0x7ffffffffffffff8ull; break;    // anywhere
                case 3: v = 1 + next++; break;                            // small integers
                case 4: v = (rng.below(4) << 40) + 8 * rng.below(64) + 0x1000; break; // clusters
                case 5: v = (std::uintptr_t(1) + next++) << 32; break;    // low bits all zero
                default: v = ~std::uintptr_t(1) - 2 * (next++); break;    // huge values
                }
            } while (!used.insert(v).second);
            r.d->ids.id[c / MAXA][c % MAXA] = Id(v);
        }
        for (int c = 0; c < MAXC; ++c) r.d->ids.naliases[c] = nalias[c];
        r.d->ids.assigned = true;
    }

    void epilogue(Reg& r) {
        // faults stop; the registry must come back
        r.hmode = 0;
        if (r.t.handler == 2 && r.hnum == 0) {
            r.d->set_handler(1);
            r.hnum = 1;
        }
        if (!r.d->ids.assigned) make_ids(r, 2, 1);
        for (auto& i : items(r, false)) load(r, i);
        for (int round = 0; round < 40; ++round) {
            auto l = listed(r);
            auto e = init_errors(r, l);
            if (e.empty()) break;
            bool any = false;
            for (int n = 0; n < 128; ++n)
                if (r.nloaded[n])
                    for (int b : r.nactive[n].bases)
                        if (!l.reg[b / MAXA]) {
                            unload_n(r, n);
                            any = true;
                            break;
                        }
            if (any) continue;
            for (int m = 0; m < NMETH; ++m)
                if (r.mloaded[m]) {
                    bool bad = false;
                    for (int p : r.mactive[m].params) bad = bad || !l.reg[p / MAXA];
                    bool cov = r.mactive[m].ret >= 0 && l.reg[r.mactive[m].ret / MAXA];
                    for (int o = 0; o < NOVR && !bad; ++o)
                        if (r.oloaded[m][o]) {
                            bool ob = false;
                            for (std::size_t i = 0; i < r.oactive[m][o].params.size(); ++i) {
                                int p = r.oactive[m][o].params[i];
                                ob = ob || !l.reg[p / MAXA] || !l.der[r.mactive[m].params[i] / MAXA][p / MAXA];
                            }
                            ob = ob || (cov && !l.reg[r.oactive[m][o].ret / MAXA]);
                            if (ob) unload_o(r, m, o);
                        }
                    if (bad) unload_m(r, m);
                }
        }
        logf("epilogue r%d", r.index);
        auto l = listed(r);
        if (hash_may_fail(r, l)) { // drop the extra ids: service must then be restored
            for (int n = 0; n < 128; ++n)
                if (r.nloaded[n] && r.nactive[n].alias > 2) unload_n(r, n);
            if (!listing_complete(listed(r))) return;
        }
        auto before = r.epoch;
        if (!do_init(r, 0, Fault())) return;
        if (failed()) return;
        if (r.st != OK || r.epoch == before) {
            if (hash_may_fail(r, listed(r))) return;
            fail("no-recovery", "initialize did not restore service once faults stopped");
            return;
        }
        sim::count("recovery.checked");
        check_all(r, 4242, 150, CHAIN);
        look_all(r);
    }

    void exec_op(const Op& op);
    void par(Reg& r, std::uint64_t seed, unsigned sw, int n, unsigned preempt);
};

void LatWorld::par(Reg& r, std::uint64_t seed, unsigned sw, int n, unsigned preempt) {
    if (!can_throw(r) || (r.st != OK && r.st != UNINIT && r.st != UNCERTAIN)) return;
    if (n < 1) n = 1;
    if (n > 6) n = 6;
    std::vector<std::function<void()>> bodies;
    in_par = true;
    nested_budget = 12;
    auto a0 = sim::alloc_stats();
    auto e0 = total_errors;
    for (int i = 0; i < n; ++i)
        bodies.push_back([this, &r, seed, i] {
            Rng rng(seed * 131 + i);
            int k = 1 + int(rng.below(5));
            while (k-- && !failed()) {
                std::vector<int> ms;
                for (int m = 0; m < NMETH; ++m)
                    if (r.mloaded[m]) ms.push_back(m);
                auto dice = rng.below(10);
                if (ms.empty() || dice == 0) {
                    Obj* o = pick_obj(r, long(rng.below(1 << 12)));
                    std::set<std::string> errs;
                    bool may, good = true;
                    if (!o || !expect_lookup(r, o, errs, may)) continue;
                    if (attempt(r, errs, may, "lookup", [&] { good = r.d->lookup_ok(o); }) && !good)
                        fail("lookup", "interleaved lookup found another class's v-table");
                    continue;
                }
                std::vector<long> raw;
                int m = ms[rng.below(ms.size())];
                for (int j = 0; j < 6; ++j) raw.push_back(long(rng.below(1 << 15)));
                do_call(r, m, raw, dice < 6 ? SCRIPT : dice < 8 ? CHAIN : CHAINFORCE);
            }
        });
    logf("par r%d n%d", r.index, n);
    auto s0 = sim::Fibers::switches();
    auto p0 = sim::Fibers::preemptions();
    sim::Fibers::run(bodies, seed, sw, preempt);
    sim::count("par.preemptions", sim::Fibers::preemptions() - p0);
    sim::count("par.batches");
    sim::count("par.switches", sim::Fibers::switches() - s0);
    in_par = false;
    if (!failed() && e0 == total_errors && sim::alloc_stats().allocs != a0.allocs)
        fail("allocation", "interleaved method calls allocated memory");
}

void LatWorld::exec_op(const Op& op) {
    auto& n = op.name;
    if (n == "CLS") {
        int k = int(op.arg(0));
        if (k < 0 || k >= MAXC || cdef[k]) return;
        cdef[k] = true;
        nalias[k] = std::max(1, std::min<int>(MAXA, int(op.arg(1))));
        abstract_[k] = op.arg(2);
        truth[k][k] = true;
        for (std::size_t i = 3; i < op.a.size(); ++i) {
            int b = int(op.a[i]);
            if (b >= 0 && b < k && cdef[b])
                for (int a = 0; a < MAXC; ++a)
                    if (truth[a][b]) truth[a][k] = true;
        }
        for (auto& r : regs) r->d->ids.naliases[k] = nalias[k];
        return;
    }
    if (n == "IDS") {
        for (auto& r : regs)
            if (!r->t.deferred) make_ids(*r, int(op.arg(0)), op.uarg(1));
        return;
    }
    int ri = int(op.arg(0));
    if (ri < 0 || ri >= int(regs.size())) return;
    Reg& r = *regs[ri];
    auto okcode = [&](long c) { return c >= 0 && c < MAXC * MAXA && cdef[c / MAXA] && c % MAXA < nalias[c / MAXA]; };
    if (n == "SETIDS") {
        if (!r.t.deferred) return;
        make_ids(r, int(op.arg(1)), op.uarg(2));
        // ids changed under an initialised registry: nothing is promised until the next initialize
        if (r.st == OK || r.st == UNCERTAIN) r.st = BROKEN;
        sim::count("deferred.ids-assigned");
        return;
    }
    if (n == "NODE") {
        long i = op.arg(1), c = op.arg(2);
        if (i < 0 || i >= 128 || !okcode(c)) return;
        NodeDef d;
        d.cls = int(c / MAXA);
        d.alias = int(c % MAXA);
        d.abstract_ = abstract_[d.cls];
        for (std::size_t k = 3; k < op.a.size() && d.bases.size() < 8; ++k)
            if (okcode(op.a[k]) && truth[op.a[k] / MAXA][d.cls]) d.bases.push_back(int(op.a[k]));
        r.nodes[i] = d;
    } else if (n == "MDEF") {
        long m = op.arg(1);
        if (m < 0 || m >= NMETH) return;
        MethDef d;
        d.defined = true;
        d.ret = op.arg(2) >= 0 && okcode(op.arg(2)) ? int(op.arg(2)) : -1;
        for (int i = 0; i < shapes()[m].arity(); ++i) {
            if (!okcode(op.arg(3 + i))) return;
            d.params.push_back(int(op.arg(3 + i)));
        }
        r.meths[m] = d;
    } else if (n == "ODEF") {
        long m = op.arg(1), o = op.arg(2);
        if (m < 0 || m >= NMETH || o < 0 || o >= NOVR) return;
        OvrDef d;
        d.defined = true;
        d.ret = op.arg(3) >= 0 && okcode(op.arg(3)) ? int(op.arg(3)) : -1;
        d.script = int(op.arg(4)) % 5;
        d.sarg = op.arg(5);
        for (int i = 0; i < shapes()[m].arity(); ++i) {
            if (!okcode(op.arg(6 + i))) return;
            d.params.push_back(int(op.arg(6 + i)));
        }
        r.ovrs[m][o] = d;
    } else if (n == "LC")
        load_n(r, int(op.arg(1)));
    else if (n == "UC")
        unload_n(r, int(op.arg(1)));
    else if (n == "LM")
        load_m(r, int(op.arg(1)));
    else if (n == "UM")
        unload_m(r, int(op.arg(1)));
    else if (n == "LO")
        load_o(r, int(op.arg(1)), int(op.arg(2)));
    else if (n == "UO")
        unload_o(r, int(op.arg(1)), int(op.arg(2)));
    else if (n == "INIT")
        do_init(r, int(op.arg(1)), {int(op.arg(2)), op.arg(3)});
    else if (n == "FIN")
        do_finalize(r, int(op.arg(1)));
    else if (n == "CALL") {
        if (op.arg(1) < 0 || op.arg(1) >= NMETH) return;
        std::vector<long> raw(op.a.begin() + std::min<std::size_t>(3, op.a.size()), op.a.end());
        do_call(r, int(op.arg(1)), raw, Mode(op.uarg(2) % 4));
    } else if (n == "ALL")
        check_all(r, op.uarg(1), std::min<std::uint64_t>(5000, op.uarg(2)), Mode(op.uarg(3) % 4));
    else if (n == "LOOK")
        look_all(r);
    else if (n == "PAR")
        par(r, op.uarg(1), unsigned(op.arg(2)), int(op.arg(3)), unsigned(op.uarg(4) % 201));
    else if (n == "HND") {
        r.hmode = int(op.arg(1)) % 2;
        if (r.t.handler == 2) {
            int want = int(op.arg(2)) % 4;
            int old = r.d->set_handler(want);
            logf("set_handler %d -> %d", want, old);
            if (old != r.hnum) fail("handler", "set returned handler %d, handler %d was in force", old, r.hnum);
            r.hnum = want;
            sim::count("handler.set");
        }
    } else if (n == "VPM")
        op_vpmake(r, int(op.uarg(1) % NPOOL), op.arg(2), int(op.uarg(3) % 4));
    else if (n == "VPF")
        op_vpfinal(r, int(op.uarg(1) % NPOOL), op.arg(2), op.arg(3), int(op.uarg(4) % 3));
    else if (n == "VPN") {
        int s = int(op.uarg(1) % NPOOL);
        r.d->vp_null(s, int(op.uarg(2) % 2));
        r.pool[s] = PoolEntry();
        r.pool[s].exists = true;
        check_slot(r, s);
    } else if (n == "VPC") {
        int d = int(op.uarg(1) % NPOOL), s = int(op.uarg(2) % NPOOL);
        if (!r.pool[s].exists) return;
        r.d->vp_copy(d, s, int(op.uarg(3) % 4));
        r.pool[d] = r.pool[s];
        logf("vpcopy r%d %d<-%d", r.index, d, s);
        sim::count("vptr.copy");
        check_slot(r, d);
        check_slot(r, s);
    } else if (n == "PERM") {
        auto v = items(r, true);
        Rng rng(op.uarg(1));
        rng.shuffle(v);
        for (auto& i : v) unload(r, i);
        rng.shuffle(v);
        for (auto& i : v) load(r, i);
        // an overrider loaded before its method is fine; a second pass completes the set
        for (auto& i : v) load(r, i);
        sim::count("perm.total");
        auto old = r.rep;
        auto st = r.st;
        do_init(r, int(op.arg(2)), Fault());
        (void)old;
        (void)st;
    } else if (n == "CYC") {
        auto l = listed(r);
        if (!init_errors(r, l).empty() || !listing_complete(l) || hash_may_fail(r, l)) return;
        if (r.t.deferred && !r.d->ids.assigned) return;
        std::int64_t live = -1, bytes = 0;
        for (int i = 0; i < 5 && !failed(); ++i) {
            do_init(r, int(op.arg(1)), Fault());
            if (i == 3) check_all(r, 7, 20, PLAIN);
            do_finalize(r, int(op.arg(1)) & 1);
            auto& a = sim::alloc_stats();
            if (i == 1) {
                live = a.live;
                bytes = a.live_bytes;
            }
            if (i > 1 && (a.live > live || a.live_bytes > bytes))
                fail("leak", "initialize/finalize cycles grow memory: %lld blocks/%lld bytes after 2, %lld/%lld after %d", (long long)live,
                     (long long)bytes, (long long)a.live, (long long)a.live_bytes, i + 1);
        }
        sim::count("cycle.total");
    } else if (n == "LEAK") {
        auto l = listed(r);
        if (!init_errors(r, l).empty() || !listing_complete(l) || hash_may_fail(r, l) || !can_throw(r)) return;
        if (r.t.deferred && !r.d->ids.assigned) return;
        int opts = int(op.arg(1));
        do_init(r, opts, Fault());
        do_init(r, opts, Fault());
        auto a = sim::alloc_stats();
        Rng rng(op.uarg(2));
        for (int i = 0; i < 6 && !failed(); ++i) {
            do_init(r, opts, {rng.chance(700) ? 1 : 2, long(rng.below(op.uarg(3) + 1))});
            if (r.st == UNCERTAIN && rng.chance(300)) check_all(r, rng.next(), 10, PLAIN);
        }
        if (failed()) return;
        do_init(r, opts, Fault());
        auto& b = sim::alloc_stats();
        if (b.live > a.live || b.live_bytes > a.live_bytes)
            fail("leak", "failed initializes grow memory: %lld blocks/%lld bytes before, %lld/%lld after", (long long)a.live,
                 (long long)a.live_bytes, (long long)b.live, (long long)b.live_bytes);
        sim::count("leak.checked");
    }
}

static void relevance(const std::string& p) {
    static const std::map<std::string, std::vector<const char*>> m{
        {"P01", {"calls.overriders-run"}},
        {"P02", {"perm.total", "calls.overriders-run"}},
        {"P03", {"next."}},
        {"P04", {"error.no_overrider", "error.ambiguous_call", "abort.expected"}},
        {"P05", {"calls.overriders-run"}},
        {"P06", {"init.std:bad_alloc", "init.sim:output", "fault.", "recovery.checked"}},
        {"P07", {"vptr.old-used"}},
        {"P08", {"lookup.total", "fault.hash-search-failure"}},
        {"P09", {"calls.overriders-run"}},
        {"P11", {"vptr.make", "vptr.copy"}},
        {"P12", {"vptr.final"}},
        {"P13", {"finalize.total", "error.not_initialized", "cycle.total"}},
        {"P14", {"n2216.pick", "calls.overriders-run"}},
        {"P15", {"check.report"}},
        {"P16", {"deferred.ids-assigned"}},
        {"P17", {"init.missing_class", "init.missing_base"}},
        {"P19", {"par.batches"}},
        {"P20", {"error.", "fault.hash-search-failure", "init.missing", "abort.expected", "handler.set"}},
        {"P21", {"init.traced"}}};
    auto i = m.find(p);
    if (i != m.end()) sim::set_relevant(i->second);
}

void LatWorld::execute(const Plan& plan) {
    host = this;
    the_prop = plan.prop;
    relevance(plan.prop);
    int nr = int(std::max(1L, std::min(3L, plan.knob("nreg", 1))));
    for (int c = 0; c < MAXC; ++c) {
        nalias[c] = 1;
        for (int a = 0; a < MAXA; ++a) {
            objs[c * MAXA + a].cls = c;
            objs[c * MAXA + a].alias = a;
        }
    }
    std::set<int> seen;
    for (int i = 0; i < nr; ++i) {
        int cfg = int(plan.knob("cfg" + std::to_string(i)));
        if (!seen.insert(cfg).second) continue;
        Driver* d = get_driver(cfg);
        if (!d) {
            fprintf(stderr, "configuration %d is not linked in\n", cfg);
            _Exit(3);
        }
        auto r = std::make_unique<Reg>();
        r->index = int(regs.size());
        r->cfg = cfg;
        r->d = d;
        r->t = d->traits();
        d->reg = r->index;
        r->st = r->t.rtc ? UNINIT : BROKEN;
        d->ids.assigned = false;
        for (int c = 0; c < MAXC; ++c) {
            d->ids.naliases[c] = 1;
            for (int a = 0; a < MAXA; ++a) d->ids.id[c][a] = Id(std::uintptr_t(0x6600000000) + r->index * 65536 + c * 1024 + a * 8);
        }
        d->reset();
        regs.push_back(std::move(r));
    }
    for (std::size_t i = 0; i < plan.ops.size(); ++i) {
        sim::set_op(int(i));
        for (auto& rg : regs) rg->d->out.clear();
        if (plan.ops[i].name != "CLS" && i > 0 && plan.ops[i - 1].name == "CLS") {
            for (auto& r : regs)
                if (!r->t.deferred) make_ids(*r, int(plan.knob("ids")), std::uint64_t(plan.knob("idseed")));
        }
        exec_op(plan.ops[i]);
        if (failed() || dead) break;
    }
    if (!failed() && !dead) {
        sim::set_op(int(plan.ops.size()));
        for (auto& r : regs) {
            epilogue(*r);
            if (failed() || dead) break;
        }
        // and nothing done to one registry may have disturbed another
        for (auto& r : regs)
            if (!failed() && !dead) check_all(*r, 99, 30, PLAIN);
    }
    for (auto& r : regs)
        for (int s = 0; s < NPOOL; ++s) r->d->vp_destroy(s);
}

// ====================================================================== plans
struct Profile {
    std::vector<int> cfgs;
    int nreg = 1;
    bool twins = false; // cfgs[2i] and cfgs[2i+1] go together
    unsigned perm = 0, fault = 0, fin = 0, par = 0, vptr = 0, n2216 = 0, trace = 100, unload = 400, broken = 0, handler = 0, cyc = 0, leak = 0,
             look = 200, finals = 0, sparse = 300, aliases = 100, pigeon = 0, setids = 0, uninit = 50, throwing = 60;
    int maxk = 12, maxmeth = 6, phases = 4;
    std::vector<int> modes{PLAIN, CHAIN, CHAINFORCE, SCRIPT};
};
static Profile profile(const std::string& p) {
    Profile f;
    f.cfgs = {0, 3, 4};
    if (p == "P01") {
        f.cfgs = {0, 3, 4, 2};
        f.modes = {PLAIN, PLAIN, SCRIPT};
        f.vptr = 200;
        f.phases = 2;
    } else if (p == "P02") {
        f.cfgs = {0, 3};
        f.perm = 900;
        f.aliases = 200;
        f.phases = 2;
    } else if (p == "P03") {
        f.cfgs = {0, 2};
        f.modes = {CHAIN, CHAINFORCE, CHAINFORCE};
        f.sparse = 100;
        f.phases = 2;
    } else if (p == "P04") {
        f.cfgs = {0, 2, 4, 9};
        f.modes = {PLAIN, CHAINFORCE, SCRIPT};
        f.sparse = 700;
        f.handler = 300;
        f.vptr = 200;
        f.aliases = 250;
    } else if (p == "P05") {
        f.cfgs = {0, 3, 8};
        f.unload = 900;
        f.phases = 7;
        f.perm = 100;
    } else if (p == "P06") {
        f.cfgs = {0, 2, 6, 1};
        f.fault = 800;
        f.leak = 500;
        f.trace = 400;
        f.broken = 200;
        f.pigeon = 80;
        f.vptr = 200;
    } else if (p == "P07") {
        f.cfgs = {3, 5, 6, 8};
        f.vptr = 950;
        f.finals = 400;
        f.unload = 800;
        f.phases = 6;
        f.fault = 150;
        f.setids = 100;
    } else if (p == "P08") {
        f.cfgs = {0, 2, 4, 5};
        f.aliases = 700;
        f.pigeon = 60;
        f.look = 950;
        f.maxk = 20;
        f.maxmeth = 3;
        f.vptr = 200;
        f.unload = 700;
    } else if (p == "P09") {
        f.cfgs = {0, 1, 2, 12, 3, 13, 4, 9, 5, 6};
        f.twins = true; // pairs of registries that have the same stateful policies
        f.nreg = 3;
        f.fault = 300;
        f.fin = 200;
        f.broken = 150;
        f.unload = 600;
        f.maxk = 8;
        f.vptr = 200;
        f.handler = 100;
    } else if (p == "P11") {
        f.cfgs = {0, 3, 5};
        f.vptr = 1000;
        f.finals = 300;
        f.fin = 150;
        f.aliases = 300;
    } else if (p == "P12") {
        f.cfgs = {0, 1, 5};
        f.vptr = 900;
        f.finals = 1000;
        f.fin = 200;
        f.aliases = 400;
        f.uninit = 300;
    } else if (p == "P13") {
        f.cfgs = {0, 2, 5, 9};
        f.fin = 600;
        f.cyc = 500;
        f.uninit = 700;
        f.handler = 200;
        f.vptr = 400;
        f.finals = 300;
        f.fault = 100;
    } else if (p == "P14") {
        f.cfgs = {0, 3};
        f.n2216 = 850;
        f.sparse = 50;
        f.perm = 200;
        f.throwing = 0;
    } else if (p == "P15") {
        f.cfgs = {0, 10};
        f.phases = 8;
        f.maxmeth = 8;
        f.unload = 800;
        f.sparse = 500;
    } else if (p == "P16") {
        f.cfgs = {7, 8, 11};
        f.setids = 600;
        f.unload = 700;
        f.phases = 5;
        f.fault = 100;
        f.aliases = 250;
    } else if (p == "P17") {
        f.cfgs = {0, 2, 4, 8};
        f.broken = 850;
        f.handler = 150;
        f.n2216 = 200;
        f.unload = 700;
        f.phases = 6;
        f.aliases = 200;
    } else if (p == "P19") {
        f.cfgs = {0, 3, 4, 2};
        f.par = 1000;
        f.vptr = 300;
        f.throwing = 150;
        f.phases = 3;
    } else if (p == "P20") {
        f.cfgs = {0, 2, 4, 9};
        f.handler = 900;
        f.broken = 300;
        f.uninit = 300;
        f.finals = 300;
        f.vptr = 300;
        f.fin = 150;
        f.sparse = 600;
        f.pigeon = 60;
    } else if (p == "P21") {
        f.cfgs = {0, 4, 2, 6};
        f.trace = 850;
        f.n2216 = 300;
        f.broken = 200;
        f.fault = 150;
        f.pigeon = 40;
    }
    return f;
}

Plan LatWorld::generate(std::uint64_t seed, const std::string& prop, bool thorough) {
    Rng g(seed);
    Plan p;
    Profile f = profile(prop);
    auto add = [&](const char* n, std::vector<long> a) { p.ops.push_back(Op{n, std::move(a)}); };
    p.knobs["arena_mode"] = long(g.below(5));
    p.knobs["arena_seed"] = long(g.below(1 << 20));
    p.knobs["ids"] = long(g.below(7));
    p.knobs["idseed"] = long(g.below(1 << 20));
    int nreg = f.nreg > 1 ? int(g.range(2, f.nreg)) : 1;
    p.knobs["nreg"] = nreg;
    std::vector<int> cfgs = f.cfgs;
    g.shuffle(cfgs);
    if (f.twins && g.chance(800)) {
        size_t i = g.below(f.cfgs.size() / 2) * 2;
        int a = f.cfgs[i], b = f.cfgs[i + 1];
        cfgs.erase(std::remove_if(cfgs.begin(), cfgs.end(), [&](int c) { return c == a || c == b; }), cfgs.end());
        if (g.chance(500)) std::swap(a, b);
        cfgs.insert(cfgs.begin(), {a, b});
    }
    for (int i = 0; i < nreg; ++i) p.knobs["cfg" + std::to_string(i)] = cfgs[i % cfgs.size()];

    // ---- classes
    int K2 = int(g.range(3, std::min(MAXC, f.maxk + (thorough && g.chance(300) ? 6 : 0))));
    int shape = int(g.below(6));
    std::vector<std::vector<int>> bases(K2);
    std::vector<int> na(K2, 1);
    for (int k = 1; k < K2; ++k) {
        std::set<int> b;
        switch (shape) {
        case 0: // forest
            if (g.chance(850)) b.insert(int(g.below(k)));
            break;
        case 1: // chains
            if (g.chance(900)) b.insert(k - 1);
            break;
        case 2: // stacked diamonds
            if (k % 3 == 0 && k >= 2) {
                b.insert(k - 1);
                b.insert(k - 2);
            } else
                b.insert(k - k % 3);
            if (*b.begin() >= k) b = {k - 1};
            break;
        case 3: // two or three roots, then joins
            if (k >= 3) {
                b.insert(int(g.below(k)));
                if (g.chance(600)) b.insert(int(g.below(k)));
                if (g.chance(250)) b.insert(int(g.below(k)));
            }
            break;
        case 4: // dense lattice
            for (int j = 0; j < k; ++j)
                if (g.chance(300)) b.insert(j);
            break;
        default:
            if (g.chance(800)) b.insert(int(g.below(k)));
            if (g.chance(300)) b.insert(int(g.below(k)));
        }
        bases[k].assign(b.begin(), b.end());
    }
    bool der[MAXC][MAXC] = {};
    for (int k = 0; k < K2; ++k) {
        der[k][k] = true;
        for (int b : bases[k])
            for (int a = 0; a < K2; ++a)
                if (der[a][b]) der[a][k] = true;
    }
    // drop listed bases that are bases of other bases (direct bases only)
    for (int k = 0; k < K2; ++k) {
        std::vector<int> d;
        for (int b : bases[k]) {
            bool indirect = false;
            for (int c : bases[k])
                if (c != b && der[b][c]) indirect = true;
            if (!indirect) d.push_back(b);
        }
        bases[k] = d;
    }
    bool pigeon = g.chance(f.pigeon);
    for (int k = 0; k < K2; ++k)
        if (g.chance(f.aliases)) na[k] = int(g.range(2, 3));
    if (pigeon) na[g.below(K2)] = 31;
    for (int k = 0; k < K2; ++k) {
        std::vector<long> a{k, na[k], g.chance(200)};
        for (int b : bases[k]) a.push_back(b);
        add("CLS", a);
    }
    auto code = [&](int c) { return long(c * MAXA + (na[c] > 1 && g.chance(400) ? long(g.below(std::min(na[c], 3))) : 0)); };

    struct RegPlan {
        std::vector<std::vector<Op>> modules;
        int nodes = 0;
        std::vector<int> meths;
        bool loaded[16] = {};
    };
    std::vector<RegPlan> rp(nreg);
    for (int r = 0; r < nreg; ++r) {
        auto& R = rp[r];
        int nmod = int(g.range(1, f.unload > 500 ? 6 : 4));
        R.modules.resize(nmod);
        std::vector<int> home(K2); // module of each class's complete registration
        for (int k = 0; k < K2; ++k) {
            // derived classes tend to live in the same or later modules than their bases
            int lo = 0;
            for (int b : bases[k]) lo = std::max(lo, home[b]);
            home[k] = g.chance(850) ? int(g.range(lo, g.chance(500) ? lo : nmod - 1)) : int(g.below(nmod));
            auto node = [&](long c, std::vector<long> bs, int mod) {
                if (R.nodes >= 120) return;
                std::vector<long> a{r, R.nodes, c};
                if (bs.size() > 8) bs.resize(8);
                a.insert(a.end(), bs.begin(), bs.end());
                add("NODE", a);
                R.modules[mod].push_back(Op{"C", {R.nodes}});
                ++R.nodes;
            };
            std::vector<long> full;
            if (g.chance(700)) full.push_back(long(k) * MAXA); // as is_base_of does
            for (int b : bases[k]) full.push_back(code(b));
            if (g.chance(300)) // indirect bases listed too
                for (int b = 0; b < k; ++b)
                    if (der[b][k] && g.chance(600) && full.size() < 8) full.push_back(long(b) * MAXA);
            g.shuffle(full);
            int style = int(g.below(10));
            if (style < 7 || bases[k].size() < 2)
                node(long(k) * MAXA, full, home[k]);
            else { // each base listed in another registration
                for (int b : bases[k]) node(long(k) * MAXA, {code(b), long(k) * MAXA}, g.chance(800) ? home[k] : int(g.below(nmod)));
            }
            if (g.chance(150)) node(long(k) * MAXA, full, int(g.below(nmod))); // duplicate elsewhere
            if (g.chance(100)) node(long(k) * MAXA, {}, int(g.below(nmod)));   // bare
            for (int a = 1; a < na[k]; ++a)
                if (g.chance(na[k] > 3 ? 950 : 750)) node(long(k) * MAXA + a, g.chance(500) ? full : std::vector<long>{}, g.chance(700) ? home[k] : int(g.below(nmod)));
        }
        // ---- methods
        int nm = int(g.range(1, f.maxmeth));
        std::vector<int> all;
        for (int m = 0; m < NMETH; ++m) all.push_back(m);
        g.shuffle(all);
        for (int i = 0; i < nm; ++i) {
            int m = all[i];
            R.meths.push_back(m);
            int ar = shapes()[m].arity();
            std::vector<int> mp;
            for (int j = 0; j < ar; ++j) {
                // prefer classes with descendants
                int c = int(g.below(K2));
                for (int t = 0; t < 3; ++t) {
                    int n = 0;
                    for (int d = 0; d < K2; ++d) n += der[c][d];
                    if (n >= 3) break;
                    c = int(g.below(K2));
                }
                mp.push_back(c);
            }
            if (ar > 1 && g.chance(400))
                for (auto& c : mp) c = mp[0];
            // three overriders, each more specific than the next, in a circle
            std::vector<std::vector<int>> circle;
            if (ar >= 3 && g.chance(250)) {
                std::vector<std::array<int, 4>> found; // H, L : H, M apart, and a base of all
                for (int o = 0; o < K2 && found.size() < 200; ++o)
                    for (int l = 0; l < K2; ++l)
                        for (int h = 0; h < K2; ++h)
                            for (int q = 0; q < K2; ++q)
                                if (l != h && der[h][l] && der[l][o] && der[q][o] && !der[q][h] && !der[h][q] && !der[q][l] && !der[l][q])
                                    for (int b = 0; b < K2; ++b)
                                        if (der[b][h] && der[b][q]) found.push_back({h, l, q, b});
                if (!found.empty()) {
                    auto c = g.pick(found);
                    int h = c[0], l = c[1], q = c[2];
                    for (auto& x : mp) x = c[3];
                    std::vector<int> row(ar, c[3]);
                    int turn[3][3] = {{l, q, h}, {h, l, q}, {q, h, l}};
                    for (auto& t : turn) {
                        for (int j = 0; j < 3; ++j) row[j] = t[j];
                        circle.push_back(row);
                    }
                }
            }
            int ret = g.chance(f.n2216 ? 700 : 200) ? int(g.below(K2)) : -1;
            std::vector<long> a{r, m, ret < 0 ? -1 : code(ret)};
            int mod = 0;
            for (int c : mp) {
                a.push_back(code(c));
                mod = std::max(mod, home[c]);
            }
            add("MDEF", a);
            if (g.chance(150)) mod = int(g.below(nmod));
            R.modules[mod].push_back(Op{"M", {m}});
            int no = g.chance(f.sparse) ? int(g.range(0, 3)) : int(g.range(2, NOVR));
            if (!circle.empty()) no = std::max(no, int(g.range(3, 5)));
            std::vector<std::vector<int>> prev;
            for (int o = 0; o < no; ++o) {
                std::vector<int> op;
                for (int j = 0; j < ar; ++j) {
                    std::vector<int> d;
                    for (int c = 0; c < K2; ++c)
                        if (der[mp[j]][c]) d.push_back(c);
                    op.push_back(g.chance(300) ? mp[j] : g.pick(d));
                }
                if (o < int(circle.size())) op = circle[o];
                else if (!prev.empty() && g.chance(40)) op = g.pick(prev); // duplicate signature
                else if (!prev.empty() && g.chance(300)) {            // variation of an earlier one
                    auto q = g.pick(prev);
                    q[g.below(ar)] = op[g.below(1)];
                    bool ok = true;
                    for (int j = 0; j < ar; ++j) ok = ok && der[mp[j]][q[j]];
                    if (ok) op = q;
                }
                if (o >= int(circle.size()) && g.chance(950) && std::find(prev.begin(), prev.end(), op) != prev.end() && !g.chance(100)) continue;
                prev.push_back(op);
                int oret = -1;
                if (ret >= 0) {
                    std::vector<int> d;
                    for (int c = 0; c < K2; ++c)
                        if (der[ret][c]) d.push_back(c);
                    oret = g.pick(d);
                }
                int sc = int(g.below(4));
                if (g.chance(f.throwing)) sc = THROW;
                std::vector<long> oa{r, m, o, oret < 0 ? -1 : code(oret), sc, long(g.below(1000))};
                int om = mod;
                for (int c : op) {
                    oa.push_back(code(c));
                    om = std::max(om, home[c]);
                }
                if (oret >= 0) om = std::max(om, home[oret]);
                if (g.chance(150)) om = int(g.below(nmod));
                add("ODEF", oa);
                R.modules[om].push_back(Op{"O", {m, o}});
            }
        }
        for (auto& m : R.modules) g.shuffle(m);
    }
    auto lop = [&](int r, const Op& i, bool load) {
        std::vector<long> a{r};
        a.insert(a.end(), i.a.begin(), i.a.end());
        std::string n = (load ? "L" : "U") + i.name;
        p.ops.push_back(Op{n, a});
    };
    auto mod = [&](int r, int m, bool load) {
        auto v = rp[r].modules[m];
        if (g.chance(500)) g.shuffle(v);
        if (!load && g.chance(700)) std::reverse(v.begin(), v.end());
        for (auto& i : v) lop(r, i, load);
        rp[r].loaded[m] = load;
    };
    auto opts = [&] {
        long o = 0;
        if (g.chance(f.trace)) o |= g.chance(650) ? 3 : 1;
        if (g.chance(f.n2216)) o |= 4;
        if (g.chance(300)) o |= 8;
        if (g.chance(200)) o |= 16;
        o |= long(g.below(8)) << 5;
        return o;
    };
    auto init = [&](int r) {
        if (g.chance(f.fault)) {
            int times = int(g.range(1, 3));
            while (times--) {
                long o = opts();
                int kind = (o & 2) && g.chance(500) ? 2 : 1;
                add("INIT", {r, o, kind, long(g.below(kind == 1 ? (g.chance(300) ? 20 : 400) : 600))});
                if (g.chance(400)) add("ALL", {r, long(g.below(1000)), 6, g.pick(f.modes)});
                if (g.chance(200)) add("VPM", {r, long(g.below(NPOOL)), long(g.below(4096)), long(g.below(4))});
            }
        }
        if (prop == "P21" && g.chance(500)) { // the same again, trace on and off
            long o = opts() & ~3;
            if (g.chance(500)) o |= 4;
            for (int i = int(g.range(2, 4)); i > 0; --i) {
                add("INIT", {r, o | (i & 1 ? 3 : g.chance(500) ? 1 : 0), 0, 0});
                if (i > 1) add("ALL", {r, long(g.below(1000)), long(g.range(10, 60)), g.pick(f.modes)});
            }
        } else if (!g.chance(80) || f.fault < 100)
            add("INIT", {r, opts(), 0, 0});
    };
    auto probes = [&](int r, int n) {
        for (int i = 0; i < n; ++i) {
            auto d = g.below(1000);
            if (g.chance(f.vptr / 2)) add("VPM", {r, long(g.below(NPOOL)), long(g.below(4096)), long(g.below(4))});
            if (g.chance(f.vptr / 3)) add("VPC", {r, long(g.below(NPOOL)), long(g.below(NPOOL)), long(g.below(4))});
            if (g.chance(f.vptr / 12)) add("VPN", {r, long(g.below(NPOOL)), long(g.below(2))});
            if (g.chance(f.finals / 2)) add("VPF", {r, long(g.below(NPOOL)), long(g.below(4096)), long(g.below(4096)), long(g.below(3))});
            if (g.chance(f.handler / 3)) add("HND", {r, long(g.chance(600) ? 0 : 1), long(g.below(4))});
            if (g.chance(f.par)) {
                add("PAR", {r, long(g.below(1 << 20)), long(g.range(100, 900)), long(g.range(2, 6)), g.pick(std::vector<long>{0, 30, 100, 200})});
                continue;
            }
            if (d < 500) {
                int m = rp[r].meths[g.below(rp[r].meths.size())];
                std::vector<long> a{r, m, g.pick(f.modes)};
                for (std::size_t j = 0; j < shapes()[m].pars.size(); ++j) a.push_back(long(g.below(g.chance(f.vptr) ? 1 << 15 : 1 << 14)));
                add("CALL", a);
            } else if (d < 850)
                add("ALL", {r, long(g.below(1000)), long(g.range(5, thorough ? 200 : 60)), g.pick(f.modes)});
            else if (g.chance(f.look))
                add("LOOK", {r});
        }
    };
    for (int r = 0; r < nreg; ++r) {
        if (f.handler && g.chance(800)) add("HND", {r, g.chance(800) ? 0 : 1, long(1 + g.below(3))});
        else add("HND", {r, 0, 1});
        if (g.chance(f.uninit)) probes(r, 2);
    }
    int phases = int(g.range(1, f.phases + (thorough ? 3 : 0)));
    for (int r = 0; r < nreg; ++r) {
        // initial load
        std::vector<int> ms;
        for (int m = 0; m < int(rp[r].modules.size()); ++m) ms.push_back(m);
        if (g.chance(500)) g.shuffle(ms);
        for (int m : ms) {
            if (m > 0 && g.chance(f.unload / 3)) continue;
            mod(r, m, true);
        }
        if (g.chance(f.setids ? 1000 : 300)) add("SETIDS", {r, long(g.below(7)), long(g.below(1 << 16))});
        if (g.chance(f.uninit)) probes(r, 2);
        init(r);
        probes(r, int(g.range(2, 5)));
    }
    for (int ph = 0; ph < phases; ++ph) {
        int r = int(g.below(nreg));
        auto& R = rp[r];
        if (g.chance(f.broken)) { // lose a registration somewhere
            int m = int(g.below(R.modules.size()));
            if (!R.modules[m].empty()) {
                int n = int(g.range(1, 2));
                std::vector<Op> lost;
                for (int i = 0; i < n; ++i) {
                    // prefer classes
                    Op it = g.pick(R.modules[m]);
                    for (int t = 0; t < 3 && it.name != "C"; ++t) it = g.pick(R.modules[m]);
                    lost.push_back(it);
                    lop(r, it, false);
                }
                add("INIT", {r, opts(), 0, 0});
                if (g.chance(600)) probes(r, 2);
                if (g.chance(700))
                    for (auto& it : lost) lop(r, it, true);
            }
        }
        if (g.chance(f.unload)) {
            int n = int(g.range(1, 3));
            while (n--) {
                int m = int(g.below(R.modules.size()));
                if (g.chance(250) && !R.modules[m].empty()) {
                    Op it = g.pick(R.modules[m]);
                    lop(r, it, !R.loaded[m] || g.chance(300));
                } else
                    mod(r, m, !R.loaded[m]);
                if (g.chance(250)) probes(r, 1); // calls while modules come and go
            }
        }
        if (g.chance(f.fin)) {
            add("FIN", {r, long(g.below(4))});
            if (g.chance(200)) add("FIN", {r, 0});
            probes(r, 2);
        }
        if (g.chance(f.setids)) {
            add("SETIDS", {r, long(g.below(7)), long(g.below(1 << 16))});
        }
        if (g.chance(f.cyc)) add("CYC", {r, opts()});
        if (g.chance(f.leak)) add("LEAK", {r, opts(), long(g.below(1 << 16)), long(g.chance(500) ? 60 : 500)});
        if (g.chance(f.perm))
            add("PERM", {r, long(g.below(1 << 16)), opts()});
        else
            init(r);
        probes(r, int(g.range(1, 5)));
        if (nreg > 1)
            for (int q = 0; q < nreg; ++q)
                if (q != r) probes(q, 1);
    }
    return p;
}

static LatWorld world;
static bool registered = (sim::add_world(&world), true);

} // namespace lat
