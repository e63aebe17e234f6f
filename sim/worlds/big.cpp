#include "big.hpp"
#include <algorithm>
#include <bitset>
#include <cstring>
#include <map>
#include <set>

namespace big {
Driver* get_big_0();
Driver* get_big_1();
Driver* get_big_2();
Host* host;
using sim::count;
using sim::failed;
using sim::logf;
using sim::Op;
using sim::Plan;
using sim::Rng;
static void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void fail(const char* kind, const char* fmt, ...) {
    char b[900];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    sim::HostScope hs;
    sim::fail(kind, "%s", b);
}
using Set = std::bitset<MAXC>;
using Mask = std::bitset<NO>;
struct MaskLess {
    bool operator()(const Mask& a, const Mask& b) const { return memcmp(&a, &b, sizeof a) < 0; }
};
struct Over {
    int o;
    std::vector<int> spec;
};
struct Meth {
    bool on = false;
    std::vector<int> params;
    std::vector<Over> overs;
};
struct Snap {
    bool inited = false, n2216 = false;
    Set reg;
    Set anc[MAXC]; // ancestors, itself included
    std::map<int, Meth> meths;
};
// what a call does: over >= 0, or error
struct Out {
    std::string err;
    std::set<int> picks; // more than one under n2216
};

struct BigWorld : sim::World, Host {
    const char* name() const override { return "big"; }
    Driver* D = nullptr;
    // registered now
    struct Cls {
        bool on = false, pending = false, abstract_ = false;
        std::vector<int> bases;
    };
    Cls cls[MAXC];
    std::map<int, Meth> meths;
    Snap snap;
    Report rep;
    Obj objs[MAXC];
    int held[64];
    bool deadly_hash = false;

    // ------------------------------------------------------------ the model
    static bool dominates(const Snap& s, const Over& a, const Over& b) {
        bool r = false;
        for (std::size_t i = 0; i < a.spec.size(); ++i) {
            int x = a.spec[i], y = b.spec[i];
            if (x == y) continue;
            if (s.anc[x][y]) r = true;
            else if (s.anc[y][x]) return false;
        }
        return r;
    }
    static Out best(const Snap& s, const std::vector<const Over*>& app) {
        Out r;
        for (auto a : app) {
            bool dom = false;
            for (auto b : app)
                if (dominates(s, *b, *a)) {
                    dom = true;
                    break;
                }
            if (!dom) r.picks.insert(a->o);
        }
        if (app.empty()) r.err = "no_overrider";
        else if (r.picks.size() != 1 && !(s.n2216 && !r.picks.empty())) {
            r.err = "ambiguous_call";
            r.picks.clear();
        }
        return r;
    }
    static Out predict(const Snap& s, const Meth& m, const int* t) {
        std::vector<const Over*> app;
        for (auto& o : m.overs) {
            bool ok = true;
            for (std::size_t i = 0; ok && i < o.spec.size(); ++i) ok = s.anc[t[i]][o.spec[i]];
            if (ok) app.push_back(&o);
        }
        return best(s, app);
    }
    static Out predict_next(const Snap& s, const Meth& m, const Over& from) {
        std::vector<const Over*> app;
        for (auto& o : m.overs) {
            bool all = true, strict = false;
            for (std::size_t i = 0; all && i < o.spec.size(); ++i) {
                all = s.anc[from.spec[i]][o.spec[i]];
                if (o.spec[i] != from.spec[i]) strict = true;
            }
            if (all && strict) app.push_back(&o);
        }
        return best(s, app);
    }
    void snapshot(bool n2216) {
        snap.inited = true;
        snap.n2216 = n2216;
        snap.reg.reset();
        for (int c = 0; c < MAXC; ++c) {
            snap.reg[c] = cls[c].on;
            snap.anc[c].reset();
        }
        std::vector<char> done(MAXC, 0);
        for (int c = 0; c < MAXC; ++c)
            if (cls[c].on) close(c, done);
        snap.meths = meths;
    }
    void close(int c, std::vector<char>& done) {
        if (done[c]) return;
        done[c] = 1;
        snap.anc[c].set(c);
        for (int b : cls[c].bases)
            if (cls[b].on) {
                close(b, done);
                snap.anc[c] |= snap.anc[b];
            }
    }
    std::vector<int> domain(int p) const {
        std::vector<int> r;
        for (int c = 0; c < MAXC; ++c)
            if (snap.reg[c] && snap.anc[c][p]) r.push_back(c);
        return r;
    }
    void check_report() {
        Report e;
        for (auto& [mi, m] : snap.meths) {
            std::vector<std::vector<Mask>> rows;
            std::size_t cells = 1;
            for (std::size_t i = 0; i < m.params.size(); ++i) {
                std::set<Mask, MaskLess> masks;
                for (int c : domain(m.params[i])) {
                    Mask k;
                    for (std::size_t j = 0; j < m.overs.size(); ++j)
                        if (snap.anc[c][m.overs[j].spec[i]]) k.set(j);
                    masks.insert(k);
                }
                rows.emplace_back(masks.begin(), masks.end());
                cells *= masks.size();
            }
            if (m.params.size() > 1) e.cells += cells;
            if (cells > 120000) return; // not compared
            bool ni = false, am = false;
            std::set<Mask, MaskLess> seen;
            for (std::size_t n = 0; n < cells && !(ni && am); ++n) {
                Mask k;
                k.set();
                std::size_t x = n;
                for (auto& r : rows) {
                    k &= r[x % r.size()];
                    x /= r.size();
                }
                if (!seen.insert(k).second) continue;
                std::vector<const Over*> app;
                for (std::size_t j = 0; j < m.overs.size(); ++j)
                    if (k[j]) app.push_back(&m.overs[j]);
                if (app.empty()) ni = true;
                else {
                    auto o = best(snap, app);
                    if (!o.err.empty()) am = true;
                }
            }
            e.not_implemented += ni;
            e.ambiguous += am;
        }
        logf("report cells=%zu ni=%zu amb=%zu", rep.cells, rep.not_implemented, rep.ambiguous);
        if (snap.n2216) e.ambiguous = rep.ambiguous;
        count("check.report");
        if (e.cells != rep.cells || e.not_implemented != rep.not_implemented || e.ambiguous != rep.ambiguous)
            fail("report", "report says cells=%zu not_implemented=%zu ambiguous=%zu, calls say %zu %zu %zu", rep.cells, rep.not_implemented,
                 rep.ambiguous, e.cells, e.not_implemented, e.ambiguous);
    }

    // ------------------------------------------------------------ calls
    struct Frame {
        const Meth* m = nullptr;
        int mi = 0;
        Obj* objs[MAXAR];
        int n = 0;
        std::vector<int> ran;
        int follow = 0; // how many times to call next
        std::string next_err;
    };
    Frame* fr = nullptr;
    long body(int over, Obj* const* o, int n, long (*next)(Obj* const*, int)) override {
        if (!fr) {
            fail("stray", "overrider %d ran outside a call", over);
            return 0;
        }
        if (n != fr->n) fail("arity", "overrider %d of a method of %d arguments ran for one of %d", over, n, fr->n);
        for (int i = 0; i < n && !failed(); ++i)
            if (o[i] != fr->objs[i]) fail("argument", "argument %d of method %d is not the object passed", i, fr->mi);
        fr->ran.push_back(over);
        if (failed() || fr->ran.size() > std::size_t(NO) + 2) return over;
        if (fr->follow > 0) {
            --fr->follow;
            count("over.next");
            next(o, over);
        }
        return over;
    }
    struct Result {
        std::string err;
        Thrown t;
        std::vector<int> ran;
        long value = -1;
    };
    Result invoke(int mi, const int* t, int n, int follow, int slot = -1) {
        Result r;
        Frame f;
        f.m = &snap.meths[mi];
        f.mi = mi;
        f.n = n;
        f.follow = follow;
        for (int i = 0; i < n; ++i) f.objs[i] = &objs[t[i]];
        fr = &f;
        try {
            bool ab = sim::aborts([&] {
                r.value = slot >= 0 ? D->call_held(mi, slot) : D->call(mi, f.objs);
            });
            if (ab) r.err = "abort";
        } catch (Thrown& e) {
            r.err = e.kind;
            r.t = e;
        }
        fr = nullptr;
        r.ran = f.ran;
        return r;
    }
    static std::string list(const std::vector<int>& v) {
        std::string s;
        for (int x : v) s += (s.empty() ? "" : ",") + std::to_string(x);
        return s;
    }
    void check_error(const Result& r, const std::string& err, int mi, const int* t, int n) {
        if (r.err != err) {
            fail("error", "method %d%s: got %s, expected %s", mi, ("(" + list({t, t + n}) + ")").c_str(),
                 r.err.empty() ? ("overrider " + list(r.ran)).c_str() : r.err.c_str(), err.empty() ? "an overrider" : err.c_str());
            return;
        }
        if (err.empty()) return;
        count("over.error");
        if (r.t.method != mi || r.t.arity != n || r.t.cls != std::vector<int>(t, t + std::min(n, 16)))
            fail("error-details", "%s of method %d(%s) says method %d, arity %ld, classes %s", err.c_str(), mi, list({t, t + n}).c_str(), r.t.method,
                 r.t.arity, list(r.t.cls).c_str());
    }
    void check_call(int mi, const int* t, int follow, int slot = -1) {
        auto& m = snap.meths[mi];
        int n = int(m.params.size());
        auto p = predict(snap, m, t);
        auto r = invoke(mi, t, n, follow, slot);
        if (failed()) return;
        logf("call %d(%s) -> %s%s", mi, list({t, t + n}).c_str(), list(r.ran).c_str(), r.err.c_str());
        std::size_t at = 0;
        auto exp = p;
        int left = follow;
        while (true) {
            if (!exp.err.empty()) {
                check_error(r, exp.err, mi, t, n);
                if (!failed() && r.ran.size() != at) fail("error-ran", "overriders ran where %s was due", exp.err.c_str());
                return;
            }
            if (at >= r.ran.size()) {
                fail("missing", "method %d(%s)%s: %s, expected overrider %d", mi, list({t, t + n}).c_str(), at ? " next" : "",
                     r.err.empty() ? "nothing ran" : r.err.c_str(), *exp.picks.begin());
                return;
            }
            int ran = r.ran[at++];
            if (!exp.picks.count(ran)) {
                fail("wrong-overrider", "method %d(%s): step %zu ran overrider %d instead of %d", mi, list({t, t + n}).c_str(), at, ran,
                     *exp.picks.begin());
                return;
            }
            count("over.run");
            if (exp.picks.size() > 1) count("n2216.pick");
            if (left-- <= 0) break;
            for (auto& o : m.overs)
                if (o.o == ran) {
                    exp = predict_next(snap, m, o);
                    break;
                }
        }
        if (at != r.ran.size()) fail("extra", "method %d: %zu overriders ran instead of %zu", mi, r.ran.size(), at);
        else if (!r.err.empty()) check_error(r, "", mi, t, n);
        else if (r.value != r.ran[0]) fail("result", "method %d returned %ld instead of %d", mi, r.value, r.ran[0]);
    }
    void calls(int mi, std::uint64_t seed, int n, int follow) {
        auto i = snap.meths.find(mi);
        if (i == snap.meths.end()) return;
        auto& m = i->second;
        std::vector<std::vector<int>> dom;
        for (int p : m.params) dom.push_back(domain(p));
        Rng g(seed);
        for (int k = 0; k < n && !failed(); ++k) {
            int t[MAXAR] = {};
            if (!m.overs.empty() && g.chance(600)) { // near an overrider
                auto& o = g.pick(m.overs);
                for (std::size_t j = 0; j < dom.size(); ++j) t[j] = g.chance(700) ? o.spec[j] : g.pick(dom[j]);
            } else
                for (std::size_t j = 0; j < dom.size(); ++j) t[j] = g.pick(dom[j]);
            check_call(mi, t, g.chance(500) ? 0 : follow);
        }
    }

    // ------------------------------------------------------------ registration
    bool known(int c) const { return c >= 0 && c < MAXC && cls[c].on; }
    bool derives_now(int d, int b, std::vector<char>& seen) const {
        if (d == b) return true;
        if (seen[d]) return false;
        seen[d] = 1;
        for (int x : cls[d].bases)
            if (cls[x].on && derives_now(x, b, seen)) return true;
        return false;
    }
    bool derives_now(int d, int b) const {
        std::vector<char> seen(MAXC, 0);
        return derives_now(d, b, seen);
    }
    std::vector<Op> pending;
    void load_pending() {
        // classes first decide which exist; records go in the order of the plan
        for (auto& op : pending)
            if (op.name == "class") {
                int c = op.arg(0);
                if (c < 0 || c >= MAXC) continue;
                cls[c].on = true;
                cls[c].pending = true;
            }
        for (auto& op : pending)
            if (op.name == "class") {
                int c = op.arg(0);
                if (c < 0 || c >= MAXC) continue;
                std::vector<int> bases;
                for (std::size_t i = 2; i < op.a.size(); ++i) {
                    int b = op.a[i];
                    if (!known(b) || b == c) {
                        if (b == c) bases.push_back(b);
                        continue;
                    }
                    bases.push_back(b);
                    if (std::find(cls[c].bases.begin(), cls[c].bases.end(), b) == cls[c].bases.end()) cls[c].bases.push_back(b);
                }
                D->add_class(c, op.arg(1), bases);
            }
        for (auto& op : pending)
            if (op.name == "method") {
                int m = op.arg(0);
                if (m < 0 || m >= NM || meths[m].on || int(op.a.size()) != 1 + arity_of(m)) continue;
                std::vector<int> ps;
                bool ok = true;
                for (std::size_t i = 1; i < op.a.size(); ++i) {
                    ok = ok && known(op.a[i]);
                    ps.push_back(op.a[i]);
                }
                if (!ok) continue;
                meths[m] = Meth();
                meths[m].on = true;
                meths[m].params = ps;
                D->add_method(m, ps);
            }
        for (auto& op : pending)
            if (op.name == "over") {
                int m = op.arg(0), o = op.arg(1);
                if (m < 0 || m >= NM || o < 0 || o >= (arity_of(m) == MAXAR ? 16 : NO) || !meths[m].on || int(op.a.size()) != 2 + arity_of(m)) continue;
                bool ok = true;
                for (auto& x : meths[m].overs) ok = ok && x.o != o;
                std::vector<int> sp;
                for (std::size_t i = 2; i < op.a.size(); ++i) {
                    ok = ok && known(op.a[i]) && derives_now(op.a[i], meths[m].params[i - 2]);
                    sp.push_back(op.a[i]);
                }
                if (!ok) continue;
                meths[m].overs.push_back({o, sp});
                D->add_over(m, o, sp);
            }
        for (auto i = meths.begin(); i != meths.end();)
            if (!i->second.on) i = meths.erase(i);
            else ++i;
        pending.clear();
    }
    void drop_over(int m, int o) {
        auto i = meths.find(m);
        if (i == meths.end()) return;
        auto& v = i->second.overs;
        for (std::size_t k = 0; k < v.size(); ++k)
            if (v[k].o == o) {
                v.erase(v.begin() + k);
                D->del_over(m, o);
                count("unload.over");
                return;
            }
    }
    void drop_method(int m) {
        auto i = meths.find(m);
        if (i == meths.end()) return;
        while (!i->second.overs.empty()) drop_over(m, i->second.overs.back().o);
        D->del_method(m);
        meths.erase(i);
        count("unload.method");
    }
    void drop_class(int c) {
        if (!known(c)) return;
        cls[c].on = false;
        for (int d = 0; d < MAXC; ++d)
            if (cls[d].on && std::find(cls[d].bases.begin(), cls[d].bases.end(), c) != cls[d].bases.end()) drop_class(d);
        std::vector<int> ms;
        for (auto& [mi, m] : meths) {
            if (std::find(m.params.begin(), m.params.end(), c) != m.params.end()) {
                ms.push_back(mi);
                continue;
            }
            for (std::size_t k = m.overs.size(); k-- > 0;)
                if (std::find(m.overs[k].spec.begin(), m.overs[k].spec.end(), c) != m.overs[k].spec.end()) drop_over(mi, m.overs[k].o);
        }
        for (int m : ms) drop_method(m);
        D->del_class(c);
        cls[c] = Cls();
        count("unload.class");
    }
    void init(const Op& op) {
        // a: n2216, allocation that fails (-1: none)
        sim::arena_step();
        load_pending();
        bool n2216 = op.arg(0);
        long af = op.arg(1);
        for (int attempt = 0; attempt < 2; ++attempt) {
            std::string err;
            if (af >= 0 && attempt == 0) sim::arm_alloc_failure(af);
            try {
                if (sim::aborts([&] { rep = D->initialize(n2216); })) err = "abort";
            } catch (Thrown& t) {
                err = t.kind;
            } catch (std::bad_alloc&) {
                err = "bad_alloc";
            }
            sim::arm_alloc_failure(-1);
            if (err.empty()) {
                snapshot(n2216);
                int nm = int(snap.meths.size());
                std::size_t no = 0, mo = 0;
                for (auto& [i, m] : snap.meths) no += m.overs.size(), mo = std::max(mo, m.overs.size());
                logf("init classes=%zu methods=%d overriders=%zu", snap.reg.count(), nm, no);
                count("init.ok");
                if (snap.reg.count() > 255) count("size.classes>255");
                if (snap.reg.count() > 64) count("size.classes>64");
                if (nm > 64) count("size.methods>64");
                if (snap.meths.lower_bound(NM - NMX) != snap.meths.end()) count("size.parameters>16");
                if (mo > 64) count("size.overriders>64");
                if (mo > 255) count("size.overriders>255");
                if (rep.cells > 65535) count("size.cells>65535");
                sim::note_state(sim::mix(snap.reg.count() * 1000 + nm, no * 131 + rep.cells));
                check_report();
                return;
            }
            logf("init %s", err.c_str());
            if (err == "search_error" && D->hash) { // no perfect hash: the ids are too unlucky
                count("init.search_error");
                deadly_hash = true;
                snap = Snap();
                return;
            }
            if (err == "bad_alloc" && af >= 0 && attempt == 0) {
                count("fault.alloc");
                sim::arena_step();
                continue;
            }
            fail("init", "initialize ended in %s", err.c_str());
            return;
        }
    }
    void run(const Op& op) {
        auto& n = op.name;
        if (n == "class" || n == "method" || n == "over") {
            pending.push_back(op);
            return;
        }
        if (n == "init") return deadly_hash ? void() : init(op);
        if (n == "dropover") return drop_over(op.arg(0), op.arg(1));
        if (n == "dropmethod") return drop_method(op.arg(0));
        if (n == "dropclass") return drop_class(op.arg(0));
        if (!snap.inited) return;
        if (n == "calls") {
            if (current(op.arg(0))) calls(op.arg(0), op.uarg(1), op.arg(2), op.arg(3));
        } else if (n == "callall") { // a few calls of each method
            auto ms = snap.meths;
            for (auto& [mi, m] : ms) {
                if (failed()) return;
                if (current(mi)) calls(mi, op.uarg(0) + mi, op.arg(1), op.arg(2));
            }
        } else if (n == "sweep") { // every class, unary
            int mi = op.arg(0);
            auto i = snap.meths.find(mi);
            if (i == snap.meths.end() || !current(mi) || arity_of(mi) != 1) return;
            for (int c : domain(i->second.params[0]))
                if (!failed() && cls[c].on) check_call(mi, &c, 0);
            count("sweep");
        } else if (n == "lookup") {
            for (int c = 0; c < MAXC && !failed(); ++c)
                if (snap.reg[c] && cls[c].on) {
                    count("lookup");
                    try {
                        if (!D->lookup(&objs[c])) fail("lookup", "class %d finds another v-table than its own", c);
                    } catch (Thrown& t) {
                        fail("lookup", "looking up class %d: %s", c, t.kind.c_str());
                    }
                }
        } else if (n == "unknown") { // objects of classes that are not registered
            Rng g(op.uarg(0));
            for (int k = 0; k < 20 && !failed(); ++k) {
                int c = int(g.below(MAXC));
                if (snap.reg[c] || cls[c].on) continue;
                std::string err;
                std::vector<int> who;
                try {
                    D->lookup(&objs[c]);
                } catch (Thrown& t) {
                    err = t.kind;
                    who = t.cls;
                }
                count("lookup.unknown");
                if (err != "missing_class" || who != std::vector<int>{c})
                    fail("unknown", "class %d is not registered, lookup ends in '%s' (%s)", c, err.c_str(), list(who).c_str());
            }
        } else if (n == "hold") {
            int c = op.arg(1), s = op.arg(0) & 63;
            if (c >= 0 && c < MAXC && snap.reg[c] && cls[c].on) {
                D->hold(s, &objs[c]);
                held[s] = c;
            }
        } else if (n == "held") { // unary call through a virtual_ptr made earlier
            int s = op.arg(0) & 63, mi = op.arg(1);
            int c = held[s];
            auto i = snap.meths.find(mi);
            if (c < 0 || i == snap.meths.end() || arity_of(mi) != 1 || !current(mi)) return;
            if (!snap.reg[c] || !cls[c].on || !snap.anc[c][i->second.params[0]]) return;
            count("held.call");
            check_call(mi, &c, 0, s);
        } else
            fail("plan", "unknown operation %s", n.c_str());
    }
    // what is loaded of the method is what was at initialize (otherwise calls are not compared)
    bool current(int mi) const {
        auto i = meths.find(mi);
        auto j = snap.meths.find(mi);
        if (i == meths.end() || j == snap.meths.end()) return false;
        if (i->second.overs.size() != j->second.overs.size()) return false;
        for (int c = 0; c < MAXC; ++c)
            if (snap.reg[c] && !cls[c].on) return false;
        return true;
    }

    // ------------------------------------------------------------ plans
    int op_cpu_limit() override { return 60; } // a search for hash factors may take long
    Plan generate(std::uint64_t seed, const std::string& prop, bool thorough) override {
        Plan p;
        p.world = name();
        p.prop = prop;
        p.seed = seed;
        Rng g(sim::mix(seed, 0xB16));
        int reg = prop == "P07" ? 1 : int(g.below(3));
        p.knobs["reg"] = reg;
        p.knobs["ids"] = long(g.below(4));
        p.knobs["idseed"] = long(g.next() >> 1);
        p.knobs["arena"] = long(g.below(5));
        p.knobs["arenaseed"] = long(g.next() >> 1);
        static const int sizes[] = {33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 320};
        auto size = [&](int cap) {
            int s = g.chance(600) ? sizes[g.below(17)] : int(g.range(5, 320));
            return std::min(s, cap);
        };
        auto add = [&](const char* n, std::vector<long> a) { p.ops.push_back({n, std::move(a)}); };
        int profile = int(g.below(4)); // classes, overriders, methods, mixed
        if (prop == "P03") profile = g.chance(700) ? 1 : 3;
        if (prop == "P08") profile = 0;
        int nc = profile == 0 ? (g.chance(200) ? int(g.range(320, 430)) : size(430)) : profile == 1 ? size(330) : profile == 2 ? int(g.range(3, 24)) : int(g.range(20, 140));
        // ---- inheritance
        int topo = int(g.below(6));
        bool grid = profile == 1 && g.chance(80); // one overrider for each class, paired: a table of more than 65536 cells
        if (profile == 1 && g.chance(400)) nc = int(g.range(256, 330));
        if (grid) {
            static const int flat[] = {1, 2, 5};
            topo = flat[g.below(3)];
            nc = int(g.range(262, 325));
        }
        std::vector<std::vector<int>> base(nc);
        std::vector<int> perm(nc);
        for (int i = 0; i < nc; ++i) perm[i] = i; // names; spread over the ids below
        int heavy = 0;
        for (int i = 1; i < nc; ++i) {
            auto& b = base[i];
            switch (topo) {
            case 0: b = {i - 1}; break;
            case 1: b = {0}; break;
            case 2: b = {(i - 1) / 2}; break;
            case 3: b = {int(g.range(std::max(0, i - 6), i - 1))}; break;
            case 4: // several bases
                b = {int(g.below(i))};
                if (heavy < 60 && g.chance(250)) {
                    int x = int(g.below(i));
                    if (x != b[0]) b.push_back(x), ++heavy;
                }
                break;
            default: // a few hubs
                b = {i < 6 ? 0 : int(g.range(0, 5))};
                break;
            }
        }
        std::vector<Set> anc(nc);
        for (int i = 0; i < nc; ++i) {
            anc[i].set(i);
            for (int b : base[i]) anc[i] |= anc[b];
        }
        std::vector<std::vector<int>> below_(nc);
        for (int i = 0; i < nc; ++i)
            for (int b = 0; b <= i; ++b)
                if (anc[i][b]) below_[b].push_back(i);
        // which class number each has among MAXC
        std::vector<int> num(MAXC);
        for (int i = 0; i < MAXC; ++i) num[i] = i;
        if (g.chance(500)) g.shuffle(num);
        std::vector<Op> regs;
        for (int i = 0; i < nc; ++i) {
            int times = g.chance(40) ? 2 : 1;
            for (int k = 0; k < times; ++k) {
                Op o{"class", {num[i], long(g.chance(100))}};
                if (g.chance(700)) o.a.push_back(num[i]);
                for (int b : base[i]) o.a.push_back(num[b]);
                if (g.chance(150)) { // and a remoter one
                    int b = int(g.below(i + 1));
                    if (b != i && anc[i][b]) o.a.push_back(num[b]);
                }
                if (g.chance(300)) {
                    for (std::size_t x = o.a.size(); x > 3; --x) std::swap(o.a[x - 1], o.a[2 + g.below(x - 2)]);
                }
                regs.push_back(o);
            }
        }
        // ---- methods
        struct M {
            int m;
            std::vector<int> params;
        };
        std::vector<M> ms;
        int nmeth = profile == 2 ? (g.chance(500) ? NM : int(g.range(60, NM))) : profile == 0 ? int(g.range(1, 4)) : profile == 1 ? int(g.range(1, 2)) : int(g.range(10, 60));
        std::vector<int> pool(NM);
        for (int i = 0; i < NM; ++i) pool[i] = i;
        if (grid) pool = {NM1 + int(g.below(NM2))};
        else if (profile == 1 && g.chance(600)) { // unary or binary
            pool.clear();
            pool.push_back(int(g.below(NM1)));
            pool.push_back(NM1 + int(g.below(NM2)));
            if (g.chance(500)) std::swap(pool[0], pool[1]);
        } else if (profile == 0) {
            pool.clear();
            pool.push_back(int(g.below(NM1)));
            pool.push_back(NM1 + int(g.below(NM2)));
            pool.push_back(int(g.below(NM)));
            pool.push_back(int(g.below(NM)));
            if (pool[2] == pool[0] || pool[2] == pool[1] || pool[2] == pool[3]) pool[2] = (pool[2] + 37) % NM;
        } else
            g.shuffle(pool);
        auto upper = [&] { // a class with many below
            int best = int(g.below(nc));
            for (int k = 0; k < 3; ++k) {
                int x = int(g.below(nc));
                if (below_[x].size() > below_[best].size()) best = x;
            }
            return g.chance(400) ? 0 : best;
        };
        if (!grid && g.chance(100)) pool[0] = NM - 1 - int(g.below(NMX));
        for (int i = 0; i < nmeth && i < int(pool.size()); ++i) {
            M m{pool[i], {}};
            for (int k = 0; k < arity_of(m.m); ++k) m.params.push_back(grid || (profile == 2 && g.chance(500)) ? 0 : upper());
            bool dup = false;
            for (auto& x : ms) dup = dup || x.m == m.m;
            if (dup) continue;
            Op o{"method", {m.m}};
            for (int c : m.params) o.a.push_back(num[c]);
            regs.push_back(o);
            ms.push_back(m);
        }
        std::vector<Op> overs;
        for (auto& m : ms) {
            int no = profile == 1 ? std::min(size(NO), NO) : profile == 0 ? int(g.range(1, 40)) : profile == 2 ? int(g.range(0, 4)) : int(g.range(0, 12));
            int ar = arity_of(m.m);
            if (ar == 3) no = std::min(no, 24);
            if (ar == 4) no = std::min(no, 4);
            if (ar == MAXAR) no = std::min(no, 5);
            if (ar == 2 && no > 100) no = std::min(no, g.chance(thorough ? 300 : 50) ? 180 : 100); // initialize takes long
            int style = int(g.below(3));
            if (grid) no = nc, style = 1;
            else if (profile == 1 && ar == 1 && g.chance(500)) no = std::min(nc, NO), style = 1;
            int wide[] = {int(g.below(MAXAR)), MAXAR - 1};
            std::set<std::vector<int>> had;
            std::vector<int> ids(NO);
            for (int i = 0; i < NO; ++i) ids[i] = i;
            if (ar == MAXAR) ids.resize(16);
            if (g.chance(300)) g.shuffle(ids);
            for (int i = 0; i < no; ++i) {
                std::vector<int> sp;
                for (int k = 0; k < ar; ++k) {
                    auto& dom = below_[m.params[k]];
                    int c;
                    if (style == 0) c = dom[g.below(dom.size())];
                    else if (style == 1) c = dom[std::size_t(i) % dom.size()];
                    else c = k == i % ar ? dom[std::size_t(i / ar) % dom.size()] : m.params[k];
                    if (ar == MAXAR && k != 0 && k != wide[0] && k != wide[1]) c = m.params[k];
                    sp.push_back(c);
                }
                if (!had.insert(sp).second && !g.chance(30)) continue;
                Op o{"over", {m.m, ids[i]}};
                for (int c : sp) o.a.push_back(num[c]);
                overs.push_back(o);
            }
        }
        g.shuffle(regs);
        if (g.chance(500)) g.shuffle(overs);
        // some come later
        std::vector<Op> late;
        auto split = [&](std::vector<Op>& v, unsigned permille) {
            for (auto& o : v) (g.chance(permille) ? late : p.ops).push_back(o);
        };
        bool two = g.chance(prop == "P05" || prop == "P06" || prop == "P07" ? 1000 : 400);
        for (auto& o : regs) p.ops.push_back(o); // classes and methods first, so that nothing dangles
        split(overs, two ? 300 : 0);
        auto af = [&]() -> long { return prop == "P06" || g.chance(50) ? long(g.below(g.chance(500) ? 400 : 4000)) : -1; };
        auto n2216 = [&]() -> long { return prop == "P14" ? 1 : prop == "P15" || prop == "P02" ? 0 : g.chance(150); };
        auto probes = [&] {
            if (g.chance(prop == "P08" ? 1000 : 300)) add("lookup", {});
            if (g.chance(prop == "P08" ? 1000 : 200)) add("unknown", {long(g.next() >> 1)});
            long follow = prop == "P03" ? long(g.range(1, NO)) : long(g.below(4));
            if (ms.size() > 12) add("callall", {long(g.next() >> 1), 6, follow});
            else
                for (auto& m : ms) {
                    if (arity_of(m.m) == 1 && g.chance(700)) add("sweep", {m.m});
                    add("calls", {m.m, long(g.next() >> 1), long(g.range(20, 200)), follow});
                }
        };
        add("init", {n2216(), af()});
        probes();
        if (two) {
            int nh = int(g.range(2, 10));
            std::vector<int> slots;
            if (reg == 1)
                for (int i = 0; i < nh; ++i) add("hold", {i, num[g.below(nc)]});
            int rounds = int(g.range(1, 3));
            for (int r = 0; r < rounds; ++r) {
                for (int k = int(g.below(20)); k > 0 && !overs.empty(); --k) {
                    auto& o = g.pick(overs);
                    add("dropover", {o.a[0], o.a[1]});
                    if (g.chance(300)) late.push_back(o);
                }
                if (g.chance(300)) add("dropclass", {num[g.below(nc)]});
                if (g.chance(300) && !ms.empty()) add("dropmethod", {g.pick(ms).m});
                std::vector<Op> rest;
                for (auto& o : late) (r + 1 == rounds || g.chance(500) ? p.ops : rest).push_back(o);
                late.swap(rest);
                add("init", {n2216(), af()});
                probes();
                if (reg == 1)
                    for (int i = 0; i < nh; ++i)
                        for (auto& m : ms)
                            if (arity_of(m.m) == 1 && g.chance(ms.size() > 12 ? 100 : 1000)) add("held", {i, m.m});
            }
        }
        return p;
    }
    void execute(const Plan& plan) override {
        host = this;
        int reg = int(plan.knob("reg"));
        D = reg == 0 ? get_big_0() : reg == 1 ? get_big_1() : get_big_2();
        sim::arena_mode(int(plan.knob("arena")), std::uint64_t(plan.knob("arenaseed")));
        auto& p = plan.prop;
        if (p == "P03") sim::set_relevant({"over.next"});
        else if (p == "P05") sim::set_relevant({"unload."});
        else if (p == "P06") sim::set_relevant({"fault."});
        else if (p == "P07") sim::set_relevant({"held.call"});
        else if (p == "P08") sim::set_relevant({"lookup"});
        else if (p == "P15") sim::set_relevant({"check.report"});
        else if (p == "P04") sim::set_relevant({"over.error"});
        else if (p == "P14") sim::set_relevant({"n2216.pick"});
        else sim::set_relevant({"over.run"});
        Rng g(std::uint64_t(plan.knob("idseed")));
        std::uintptr_t start = 0, stride = 1;
        int kind = int(plan.knob("ids"));
        if (D->dense) {
            start = 0;
            stride = kind & 1 ? 1 : 1 + g.below(3);
        } else if (D->hash || kind < 2) { // laid out like type_info objects, or small numbers
            static const std::uintptr_t st[] = {1, 8, 16, 24, 32, 40, 48, 64};
            stride = st[g.below(8)];
            start = kind & 1 ? 1 + g.below(100) : 0x400000 + (g.next() & 0xFFFFFF8);
        }
        std::set<std::uintptr_t> used;
        for (int i = 0; i < MAXC; ++i) {
            std::uintptr_t v = start + std::uintptr_t(i) * stride;
            if (!D->dense && !D->hash && kind >= 2) do v = kind == 2 ? g.next() : g.next() & 0xFFFF;
                while (!v || !used.insert(v).second);
            D->ids[i] = Id(v);
            objs[i].cls = i;
        }
        for (auto& c : cls) c = Cls();
        meths.clear();
        pending.clear();
        snap = Snap();
        deadly_hash = false;
        for (auto& h : held) h = -1;
        D->reset();
        int idx = 0;
        for (auto& op : plan.ops) {
            sim::set_op(idx++);
            if (failed()) return;
            run(op);
        }
    }
};
static BigWorld the_world;
static struct Init {
    Init() { sim::add_world(&the_world); }
} init_;
} // namespace big
