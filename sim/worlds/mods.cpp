#include "mods.hpp"
#include <algorithm>
#include <cstring>
#include <set>

#ifndef WORLD_NAME
#define WORLD_NAME "mods"
#endif

namespace mods {
Reg* reg0();
Reg* reg1();
Reg* reg2();
Reg* reg3();
Reg* get_reg(int i) { return i == 0 ? reg0() : i == 1 ? reg1() : i == 2 ? reg2() : reg3(); }
using sim::count;
using sim::failed;
using sim::logf;
using sim::Op;
using sim::Plan;
using sim::Rng;
const char* const cname[NC] = {"O", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J"};
static const std::vector<int> direct[NC] = {{}, {O_}, {A_}, {A_}, {B_, C_}, {O_}, {B_, E_}, {D_}, {C_}, {H_, E_}, {I_}};
bool derives(int d, int b) {
    if (d == b) return true;
    for (int x : direct[d])
        if (derives(x, b)) return true;
    return false;
}
Host* host;
static void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void fail(const char* kind, const char* fmt, ...) {
    char b[900];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    sim::HostScope hs;
    sim::fail(kind, "%s", b);
}

struct ModsWorld : sim::World, Host {
    const char* name() const override { return WORLD_NAME; }
    enum State { NONE, INITED, UNCERTAIN };
    struct Snap {
        bool reg[NC] = {}, der[NC][NC] = {}; // der[d][b]
        std::vector<bool> meth, over;
        bool n2216 = false;
        const void* id[NC] = {};
    };
    Reg* R = nullptr;
    State st = NONE;
    Snap snap;
    std::vector<bool> lc[2], lm, lo, mstale, ostale;
    bool cstale[NC] = {};
    long idv[NC] = {};
    bool loading = false;

    // -------------------------------------------------------------- the model
    Snap now() const {
        Snap s;
        for (int k = 0; k < 2; ++k)
            for (std::size_t i = 0; i < lc[k].size(); ++i)
                if (lc[k][i])
                    for (int d : R->classes[i]) {
                        s.reg[d] = true;
                        for (int b : R->classes[i])
                            if (derives(d, b)) s.der[d][b] = true;
                    }
        for (int k = 0; k < NC; ++k)
            for (int i = 0; i < NC; ++i)
                for (int j = 0; j < NC; ++j)
                    if (s.der[i][k] && s.der[k][j]) s.der[i][j] = true;
        s.meth = lm;
        s.over = lo;
        return s;
    }
    bool dominates(const Snap& s, const Over& a, const Over& b) const {
        bool r = false;
        for (std::size_t i = 0; i < a.cls.size(); ++i) {
            if (a.cls[i] == b.cls[i]) continue;
            if (s.der[a.cls[i]][b.cls[i]]) r = true;
            else if (s.der[b.cls[i]][a.cls[i]]) return false;
        }
        return r;
    }
    struct Pick {
        std::set<int> any;
        const char* err = "";
    };
    Pick choose(const Snap& s, int m, const std::vector<int>& c) const {
        Pick r;
        if (c.empty()) {
            r.err = "no_overrider";
            return r;
        }
        std::vector<int> u;
        for (int a : c) {
            bool dom = false;
            for (int b : c)
                if (a != b && dominates(s, R->overs[b], R->overs[a])) dom = true;
            if (!dom) u.push_back(a);
        }
        if (u.size() == 1) {
            r.any.insert(u[0]);
            return r;
        }
        if (!s.n2216) {
            r.err = "ambiguous_call";
            return r;
        }
        if (u.empty()) u = c;
        int mr = R->methods[m].ret;
        bool cov = mr >= 0 && s.reg[mr];
        for (int a : u) {
            bool worse = false;
            if (cov)
                for (int b : u) {
                    int ra = R->overs[a].ret, rb = R->overs[b].ret;
                    if (ra != rb && s.der[rb][ra]) worse = true;
                }
            if (!worse) r.any.insert(a);
        }
        return r;
    }
    Pick predict(const Snap& s, int m, const int* cls) const {
        std::vector<int> c;
        for (std::size_t o = 0; o < R->overs.size(); ++o) {
            auto& ov = R->overs[o];
            if (!s.over[o] || ov.method != m) continue;
            bool ok = true;
            for (std::size_t i = 0; i < ov.cls.size(); ++i) ok = ok && s.der[cls[i]][ov.cls[i]];
            if (ok) c.push_back(int(o));
        }
        return choose(s, m, c);
    }
    Pick predict_next(const Snap& s, int me) const {
        std::vector<int> c;
        auto& my = R->overs[me];
        for (std::size_t o = 0; o < R->overs.size(); ++o) {
            auto& ov = R->overs[o];
            if (int(o) == me || !s.over[o] || ov.method != my.method) continue;
            bool ok = true, strict = false;
            for (std::size_t i = 0; i < ov.cls.size(); ++i) {
                ok = ok && s.der[my.cls[i]][ov.cls[i]];
                strict = strict || my.cls[i] != ov.cls[i];
            }
            if (ok && strict) c.push_back(int(o));
        }
        return choose(s, my.method, c);
    }

    // ------------------------------------------------------------------- calls
    struct Frame {
        int m;
        int cls[MAXV];
        long ival;
        int mode; // 0: no next; 1: next if any; 2: next always
        std::set<int> want;
        std::string err; // expected; "" none
        std::vector<int> ran;
        Pick nx;
    };
    Frame* fr = nullptr;
    std::map<std::vector<int>, int> picked; // n2216: choices made since the registrations changed
    std::string show(const Frame& f) const {
        std::string s = "method " + std::to_string(f.m) + "(";
        for (std::size_t i = 0; i < R->methods[f.m].vcls().size(); ++i) s += (i ? "," : "") + std::string(cname[f.cls[i]]);
        return s + ")";
    }
    int enter(int m, int o, const void* const* seen, int n, long ival) override {
        Frame* f = fr;
        count("over.run");
        if (!f || f->m != m) {
            fail("wrong-overrider", "overrider %d of method %d runs without a call", o, m);
            return 0;
        }
        f->ran.push_back(o);
        if (!f->want.count(o)) {
            std::string w;
            for (int x : f->want) w += " " + std::to_string(x);
            fail(f->ran.size() > 1 ? "wrong-next" : "wrong-overrider", "%s: overrider %d runs, expected%s", show(*f).c_str(), o,
                f->want.empty() ? f->err.empty() ? " none" : (" " + f->err).c_str() : w.c_str());
            return 0;
        }
        if (f->want.size() > 1) {
            count("n2216.pick");
            std::vector<int> k{m, f->ran.size() > 1 ? f->ran[f->ran.size() - 2] : -1};
            if (f->ran.size() == 1) k.insert(k.end(), f->cls, f->cls + MAXV);
            auto i = picked.emplace(k, o).first;
            if (i->second != o) fail("unstable", "%s: overrider %d runs, previously %d", show(*f).c_str(), o, i->second);
        }
        auto& ov = R->overs[o];
        for (int i = 0; i < n; ++i)
            if (seen[i] != R->sub(f->cls[i], ov.cls[i]))
                fail("wrong-argument", "%s: overrider %d receives another object for its parameter %d", show(*f).c_str(), o, i);
        for (auto& p : R->methods[m].params)
            if (p.kind == INT && ival != f->ival) fail("wrong-argument", "%s: overrider %d receives %ld, expected %ld", show(*f).c_str(), o, ival, f->ival);
        f->nx = predict_next(snap, o);
        f->want.clear();
        if (f->mode == 2 || (f->mode == 1 && !f->nx.any.empty())) {
            f->want = f->nx.any;
            f->err = f->nx.err;
        }
        for (int x : f->want)
            if (ostale[x]) { // next leads to an overrider that was unloaded
                f->want.clear();
                f->err = "";
                f->mode = 0;
                break;
            }
        return f->mode;
    }
    void has_next(bool has) override {
        if (!fr || failed()) return;
        if (has != !fr->nx.any.empty())
            fail("wrong-has-next", "%s: has_next in overrider %d is %d, expected %d", show(*fr).c_str(), fr->ran.back(), has, !has);
    }
    void next_returned(bool) override { count("over.next"); }
    void read_id(int, int cls) override {
        if (loading && R->t.deferred) fail("early-read", "the type_id of %s is read at registration", cname[cls]);
    }
    bool usable(int c) const { return !cstale[c]; }
    bool call(int m, const int* cls, int mode, bool quiet = false) {
        if (failed() || m < 0 || m >= int(lm.size()) || !lm[m]) return false;
        auto v = R->methods[m].vcls();
        Frame f;
        f.m = m;
        f.mode = mode;
        f.ival = 40 + m;
        std::set<int> unreg;
        memset(f.cls, 0, sizeof f.cls);
        for (std::size_t i = 0; i < v.size(); ++i) {
            f.cls[i] = cls[i];
            if (abstract(cls[i]) || !derives(cls[i], v[i])) return false;
        }
        bool may_not_init = st != INITED;
        bool may_run = st != NONE;
        Pick p;
        if (may_run && snap.meth.size()) {
            if (mstale[m] || !snap.meth[m]) return false;
            for (std::size_t i = 0; i < v.size(); ++i) {
                int c = cls[i];
                if (R->t.custom && (!idv[c] || (snap.reg[c] && snap.id[c] != R->type(c)))) return false;
                if (!snap.reg[c]) {
                    if (R->t.custom)
                        for (int k = 0; k < NC; ++k)
                            if (snap.reg[k] && snap.id[k] == R->type(c)) return false; // another class had this id
                    unreg.insert(c);
                } else if (!snap.der[c][v[i]] || !usable(c))
                    return false;
            }
            if (unreg.empty()) {
                p = predict(snap, m, cls);
                f.want = p.any;
                f.err = p.err;
                for (int o : p.any)
                    if (ostale[o]) return false;
                if (m == 6)
                    for (int c : {E_, F_, J_})
                        if (snap.reg[c] && (!usable(c) || snap.id[c] != R->type(c))) return false;
            } else {
                f.err = "missing_class";
                count("call.unregistered");
            }
        } else if (may_run)
            return false;
        if (!may_run) f.err = "not_initialized";
        fr = &f;
        long ret = -1;
        Err e = R->call(m, f.cls, f.ival, ret);
        fr = nullptr;
        if (failed()) return true;
        count("call");
        logf("call %s -> %s%s %ld", show(f).c_str(), f.ran.empty() ? "" : std::to_string(f.ran[0]).c_str(), e.kind.c_str(), f.ran.empty() ? 0L : long(f.ran.size()));
        if (e.kind == "not_initialized" && may_not_init) {
            count("error.not_initialized");
            if (!f.ran.empty()) fail("wrong-error", "%s: not_initialized after an overrider ran", show(f).c_str());
            return true;
        }
        if (e.kind != f.err) {
            fail("wrong-error", "%s: got %s, expected %s", show(f).c_str(), e.kind.empty() ? "no error" : e.kind.c_str(), f.err.empty() ? "no error" : f.err.c_str());
            return true;
        }
        if (e.kind == "missing_class") {
            bool ok = false;
            for (int c : unreg) ok = ok || e.id == R->type(c);
            if (!ok) fail("wrong-error-details", "%s: missing_class carries the wrong type_id", show(f).c_str());
            if (!f.ran.empty()) fail("wrong-error", "%s: missing_class after an overrider ran", show(f).c_str());
        } else if (!e.kind.empty()) {
            count(("error." + e.kind).c_str());
            bool ok = e.id == R->method_type(m) && e.arity == v.size() && e.types.size() == v.size();
            for (std::size_t i = 0; ok && i < v.size(); ++i) ok = e.types[i] == R->type(cls[i]);
            if (!ok) fail("wrong-error-details", "%s: %s carries wrong details", show(f).c_str(), e.kind.c_str());
        } else {
            if (f.ran.empty()) {
                fail("wrong-overrider", "%s: no overrider ran", show(f).c_str());
                return true;
            }
            if (!f.want.empty() && f.mode) fail("wrong-next", "%s: next ran no overrider", show(f).c_str());
            if (ret != R->ret_of(f.ran[0])) fail("wrong-result", "%s: the result is not what overrider %d returned", show(f).c_str(), f.ran[0]);
        }
        return true;
    }
    void all_calls(int mode, std::uint64_t seed, int limit) {
        Rng g(seed);
        for (std::size_t m = 0; m < lm.size() && !failed(); ++m) {
            if (!lm[m]) continue;
            auto v = R->methods[m].vcls();
            int done = 0;
            std::vector<std::vector<int>> ts(1);
            for (int p : v) {
                std::vector<std::vector<int>> t2;
                for (auto& t : ts)
                    for (int c = 0; c < NC; ++c)
                        if (!abstract(c) && derives(c, p)) {
                            t2.push_back(t);
                            t2.back().push_back(c);
                        }
                ts.swap(t2);
            }
            if (int(ts.size()) > limit) g.shuffle(ts);
            for (auto& t : ts) {
                t.resize(MAXV);
                done += call(int(m), t.data(), mode);
                if (failed() || done >= limit) break;
            }
        }
    }

    // -------------------------------------------------------------- initialize
    void check_report(const Report& r) {
        std::size_t cells = 0, ni = 0, amb = 0;
        for (std::size_t m = 0; m < lm.size(); ++m) {
            if (!snap.meth[m]) continue;
            auto v = R->methods[m].vcls();
            std::vector<int> t(MAXV, 0);
            bool n = false, a = false;
            std::function<void(std::size_t)> rec = [&](std::size_t i) {
                if (i == v.size()) {
                    auto p = predict(snap, int(m), t.data());
                    n = n || !strcmp(p.err, "no_overrider");
                    a = a || !strcmp(p.err, "ambiguous_call");
                    return;
                }
                for (int c = 0; c < NC; ++c)
                    if (snap.der[c][v[i]]) {
                        t[i] = c;
                        rec(i + 1);
                    }
            };
            rec(0);
            ni += n;
            amb += a;
            if (v.size() > 1) {
                std::size_t prod = 1;
                for (std::size_t i = 0; i < v.size(); ++i) {
                    std::set<std::set<int>> groups;
                    for (int c = 0; c < NC; ++c)
                        if (snap.der[c][v[i]]) {
                            std::set<int> g;
                            for (std::size_t o = 0; o < R->overs.size(); ++o)
                                if (snap.over[o] && R->overs[o].method == int(m) && snap.der[c][R->overs[o].cls[i]]) g.insert(int(o));
                            groups.insert(g);
                        }
                    prod *= groups.size();
                }
                cells += prod;
            }
        }
        count("check.report");
        if (r.cells != cells) fail("wrong-report", "report.cells is %zu, expected %zu", r.cells, cells);
        if (r.not_implemented != ni) fail("wrong-report", "report.not_implemented is %zu, expected %zu", r.not_implemented, ni);
        if (!snap.n2216 && r.ambiguous != amb) fail("wrong-report", "report.ambiguous is %zu, expected %zu", r.ambiguous, amb);
    }
    void assign_ids() {
        Snap s = now();
        for (int c = 0; c < NC; ++c)
            if (R->t.custom && s.reg[c] && !idv[c]) assign(c, 0);
    }
    int id_scheme = 0;
    void assign(int c, long k) {
        // small distinct integers; deferred registries with a hash also get spread and clustered ones
        long v = 1 + (c * 7 + k * 3) % 11 + 11 * (k % 3);
        if (R->t.deferred && id_scheme == 1) v = 0x10000 + v * 16;
        if (R->t.deferred && id_scheme == 2) v = v * 0x123457;
        for (int b = 0; b < NC; ++b)
            if (b != c && idv[b] == v) return assign(c, k + 1);
        idv[c] = v;
        R->set_id(c, v);
    }
    void do_init(int opts, int fault_n) {
        assign_ids();
        Snap s = now();
        std::set<std::string> want;
        auto cls_err = [&](int c) { want.insert(std::string("missing_class ") + cname[c]); };
        for (std::size_t m = 0; m < lm.size(); ++m) {
            if (!lm[m]) continue;
            auto v = R->methods[m].vcls();
            for (int c : v)
                if (!s.reg[c]) cls_err(c);
            for (std::size_t o = 0; o < lo.size(); ++o) {
                auto& ov = R->overs[o];
                if (!lo[o] || ov.method != int(m)) continue;
                for (int c : ov.cls)
                    if (!s.reg[c]) cls_err(c);
                int mr = R->methods[m].ret;
                if (mr >= 0 && s.reg[mr] && !s.reg[ov.ret]) cls_err(ov.ret);
                for (std::size_t i = 0; i < v.size(); ++i)
                    if (s.reg[v[i]] && s.reg[ov.cls[i]] && !s.der[ov.cls[i]][v[i]])
                        want.insert(std::string("missing_base ") + cname[v[i]] + " " + cname[ov.cls[i]]);
            }
        }
        opts &= 1;
        if (fault_n >= 0) sim::arm_alloc_failure(fault_n);
        Report rep{};
        sim::arena_step();
        Err e = R->init(opts, rep);
        sim::arm_alloc_failure(-1);
        logf("init %d -> %s %zu %zu %zu", opts, e.kind.c_str(), rep.cells, rep.not_implemented, rep.ambiguous);
        if (e.kind == "bad_alloc" && fault_n >= 0) {
            count("fault.alloc");
            if (st == INITED) st = UNCERTAIN;
            return;
        }
        if (e.kind == "missing_class" || e.kind == "missing_base") {
            count(("init." + e.kind).c_str());
            bool ok = false;
            for (int a = 0; a < NC; ++a) {
                if (e.kind == "missing_class") {
                    if (e.id == R->type(a) && want.count(std::string("missing_class ") + cname[a])) ok = true;
                } else
                    for (int b = 0; b < NC; ++b)
                        if (e.id == R->type(a) && e.id2 == R->type(b) && want.count(std::string("missing_base ") + cname[a] + " " + cname[b])) ok = true;
            }
            if (!ok) fail("wrong-init-error", "initialize reports %s (%s), which is not a fault of the registrations", e.kind.c_str(), class_of(e.id));
            if (st == INITED) st = UNCERTAIN;
            return;
        }
        if (!e.kind.empty()) return fail("wrong-init-error", "initialize throws %s", e.kind.c_str());
        if (!want.empty()) return fail("missed-init-error", "initialize succeeds, expected %s", want.begin()->c_str());
        count("init.ok");
        st = INITED;
        snap = s;
        snap.n2216 = opts & 1;
        for (int c = 0; c < NC; ++c) snap.id[c] = R->type(c);
        std::fill(mstale.begin(), mstale.end(), false);
        std::fill(ostale.begin(), ostale.end(), false);
        memset(cstale, 0, sizeof cstale);
        std::uint64_t h = opts & 1;
        for (int i = 0; i < NC; ++i)
            for (int j = 0; j < NC; ++j) h = sim::mix(h, s.der[i][j]);
        for (std::size_t i = 0; i < lo.size(); ++i) h = sim::mix(h, lo[i]);
        for (std::size_t i = 0; i < lm.size(); ++i) h = sim::mix(h, lm[i]);
        sim::note_state(h);
        check_report(rep);
    }
    const char* class_of(const void* id) const {
        for (int c = 0; c < NC; ++c)
            if (R->type(c) == id) return cname[c];
        return "?";
    }

    // ----------------------------------------------------------------- modules
    void load_classes(int i, int k) {
        if (lc[k][i]) return;
        for (int c : R->classes[i]) {
            bool was = now().reg[c];
            if (!was && fresh && st == NONE) R->poison_vptr(c);
            // without deferred RTTI, type_ids are known when a module is loaded
            if (R->t.custom && !R->t.deferred && !idv[c]) assign(c, 0);
        }
        loading = true;
        R->load_classes(i, k);
        loading = false;
        lc[k][i] = true;
        count("load.classes");
    }
    bool fresh = false;
    void unload_classes(int i, int k) {
        if (!lc[k][i]) return;
        Snap before = now();
        R->unload_classes(i, k);
        lc[k][i] = false;
        Snap after = now();
        for (int c = 0; c < NC; ++c)
            if (before.reg[c] && !after.reg[c]) {
                if (R->t.indirect) cstale[c] = true;
                if (fresh) {
                    cstale[c] = true;
                    R->poison_vptr(c); // with the memory of the module
                }
            }
        count("unload.classes");
    }
    void load_method(int m) {
        if (lm[m]) return;
        if (R->t.custom && !R->t.deferred) {
            // the ids of the classes it mentions
            for (int c : R->methods[m].vcls())
                if (!idv[c]) assign(c, 0);
            if (R->methods[m].ret >= 0 && !idv[R->methods[m].ret]) assign(R->methods[m].ret, 0);
        }
        loading = true;
        R->load_method(m);
        loading = false;
        lm[m] = true;
        mstale[m] = true;
        count("load.method");
    }
    void unload_method(int m) {
        if (!lm[m]) return;
        for (std::size_t o = 0; o < lo.size(); ++o)
            if (R->overs[o].method == m) unload_over(int(o));
        R->unload_method(m);
        lm[m] = false;
        mstale[m] = true;
        count("unload.method");
    }
    void load_over(int o) {
        auto& ov = R->overs[o];
        if (lo[o]) return;
        load_method(ov.method);
        if (R->t.custom && !R->t.deferred) {
            for (int c : ov.cls)
                if (!idv[c]) assign(c, 0);
            if (ov.ret >= 0 && !idv[ov.ret]) assign(ov.ret, 0);
        }
        loading = true;
        R->load_over(o);
        loading = false;
        lo[o] = true;
        ostale[o] = true;
        count("load.over");
    }
    void unload_over(int o) {
        if (!lo[o]) return;
        R->unload_over(o);
        lo[o] = false;
        ostale[o] = true;
        count("unload.over");
    }

    void run(const Op& op) {
        auto& n = op.name;
        int ni = int(R->classes.size()), no = int(R->overs.size()), nm = int(R->methods.size());
        if (n.size() == 2) picked.clear(); // the registrations change
        if (n == "lc") load_classes(int(op.uarg(0) % ni), int(op.uarg(1) % 2));
        else if (n == "uc") unload_classes(int(op.uarg(0) % ni), int(op.uarg(1) % 2));
        else if (n == "lm") load_method(int(op.uarg(0) % nm));
        else if (n == "um") unload_method(int(op.uarg(0) % nm));
        else if (n == "lo") load_over(int(op.uarg(0) % no));
        else if (n == "uo") unload_over(int(op.uarg(0) % no));
        else if (n == "init") do_init(int(op.arg(0)), op.a.size() > 1 ? int(op.arg(1)) : -1);
        else if (n == "all") all_calls(int(op.uarg(0) % 3), op.uarg(1), int(op.arg(2)));
        else if (n == "call") {
            int cls[MAXV];
            for (int i = 0; i < MAXV; ++i) cls[i] = int(op.uarg(1 + i) % NC);
            call(int(op.uarg(0) % nm), cls, int(op.uarg(4) % 3));
        } else if (n == "fin") {
            Err e = R->fin();
            if (!e.kind.empty()) fail("finalize", "finalize throws %s", e.kind.c_str());
            st = NONE;
            count("finalize");
        } else if (n == "id") { // the id of a class that is not registered changes (its module comes back elsewhere)
            int c = int(op.uarg(0) % NC);
            if (R->t.deferred && !mentioned(c)) {
                idv[c] = 0;
                assign(c, long(op.uarg(1) % 40));
                count("id.assigned");
            }
        }
    }
    // is the type_id of this class known to something loaded?
    bool mentioned(int c) const {
        if (now().reg[c]) return true;
        for (std::size_t m = 0; m < lm.size(); ++m) {
            if (!lm[m]) continue;
            auto v = R->methods[m].vcls();
            if (R->methods[m].ret == c || std::count(v.begin(), v.end(), c)) return true;
        }
        for (std::size_t o = 0; o < lo.size(); ++o)
            if (lo[o] && (R->overs[o].ret == c || std::count(R->overs[o].cls.begin(), R->overs[o].cls.end(), c))) return true;
        return false;
    }

    Plan generate(std::uint64_t seed, const std::string& prop, bool thorough) override {
        Rng g(seed);
        Plan p;
        auto is = [&](const char* x) { return prop == x; };
        static const int deferred[] = {1, 3};
        int reg = is("P16") ? deferred[g.below(2)] : int(g.below(NREG));
        p.knobs["reg"] = reg;
        p.knobs["arena_mode"] = r_arena(g);
        p.knobs["arena_seed"] = long(g.below(1 << 20));
        p.knobs["fresh"] = g.chance(500);
        p.knobs["ids"] = long(g.below(3));
        Reg* r = get_reg(reg);
        int ni = int(r->classes.size()), no = int(r->overs.size()), nm = int(r->methods.size());
        auto add = [&](const char* n, std::vector<long> a) { p.ops.push_back(Op{n, std::move(a)}); };
        std::vector<Op> l;
        bool whole = g.chance(is("P17") ? 250 : 500);
        if (whole) l.push_back({"lc", {g.chance(500) ? 0 : 24, 0}});
        int k = whole ? int(g.below(4)) : int(g.range(3, 14));
        for (int i = 0; i < k; ++i) l.push_back({"lc", {long(g.below(ni)), long(g.below(10) == 0)}});
        std::vector<int> ms;
        for (int m = 0; m < nm; ++m) ms.push_back(m);
        g.shuffle(ms);
        ms.resize(g.range(1, is("P01") || is("P15") ? 8 : 5));
        unsigned keep = unsigned(g.range(300, 1000));
        for (int m : ms) {
            l.push_back({"lm", {m}});
            for (int o = 0; o < no; ++o)
                if (r->overs[o].method == m && g.chance(keep)) l.push_back({"lo", {o}});
        }
        if (g.chance(700)) g.shuffle(l);
        bool faults = is("P06") || g.chance(200);
        auto opts = [&] { return g.chance(is("P14") ? 850 : 200) ? 1 : 0; };
        int limit = thorough ? 60 : 25;
        auto probe = [&] {
            if (g.chance(800)) add("all", {long(is("P03") ? g.range(1, 2) : g.below(3)), long(g.below(1 << 16)), limit});
            else
                for (int i = 0; i < 4; ++i) add("call", {long(g.below(nm)), long(g.below(NC)), long(g.below(NC)), long(g.below(NC)), long(g.below(3))});
        };
        auto init = [&] {
            if (faults && g.chance(500)) {
                add("init", {opts(), long(g.below(g.chance(500) ? 40 : 400))});
                if (g.chance(600)) probe();
            }
            if (is("P16"))
                for (int i = 0; i < 4; ++i)
                    if (g.chance(300)) add("id", {long(g.below(NC)), long(g.below(40))});
            add("init", {opts()});
            probe();
        };
        if (g.chance(100)) probe();
        for (auto& op : l) {
            p.ops.push_back(op);
            if (is("P16") && g.chance(100)) add("id", {long(g.below(NC)), long(g.below(40))});
        }
        init();
        int phases = int(g.range(1, thorough ? 8 : 4));
        while (phases--) {
            if (g.chance(600)) { // what was missing
                if (g.chance(700)) add("lc", {g.chance(500) ? 0 : 24, 0});
                else add("lc", {long(g.below(ni)), 0});
            }
            int n = int(g.range(1, is("P05") ? 10 : 5));
            while (n--) {
                switch (g.below(8)) {
                case 0: add("lc", {long(g.below(ni)), long(g.below(10) == 0)}); break;
                case 1:
                case 2: add("uc", {l.empty() || g.chance(300) ? long(g.below(ni)) : unload_of(g, l, "lc"), long(g.below(20) == 0)}); break;
                case 3: add("lm", {long(g.below(nm))}); break;
                case 4: add("um", {long(g.pick(ms))}); break;
                case 5: add("lo", {over_of(g, r, ms)}); break;
                case 6:
                case 7: add("uo", {over_of(g, r, ms)}); break;
                }
                if (g.chance(is("P05") ? 250 : 100)) probe();
            }
            if (g.chance(is("P13") ? 500 : 80)) {
                add("fin", {});
                if (g.chance(200)) add("fin", {});
                if (g.chance(700)) probe();
            }
            init();
        }
        return p;
    }
    static long r_arena(Rng& g) { return long(g.below(5)); }
    static long unload_of(Rng& g, const std::vector<Op>& l, const char* n) {
        for (int i = 0; i < 10; ++i) {
            auto& o = g.pick(l);
            if (o.name == n) return o.a[0];
        }
        return 0;
    }
    static long over_of(Rng& g, Reg* r, const std::vector<int>& ms) {
        for (int i = 0; i < 30; ++i) {
            long o = long(g.below(r->overs.size()));
            if (std::count(ms.begin(), ms.end(), r->overs[o].method)) return o;
        }
        return 0;
    }
    bool knob_shrinkable(const std::string& k) override { return k == "arena_mode" || k == "arena_seed" || k == "fresh" || k == "ids"; }
    void execute(const Plan& plan) override {
        host = this;
        R = get_reg(int(std::uint64_t(plan.knob("reg")) % NREG));
        fresh = plan.knob("fresh");
        id_scheme = int(plan.knob("ids"));
        for (auto& l : lc) l.assign(R->classes.size(), false);
        lm.assign(R->methods.size(), false);
        lo.assign(R->overs.size(), false);
        mstale.assign(R->methods.size(), true);
        ostale.assign(R->overs.size(), true);
        count((std::string("registry.") + R->t.name).c_str());
        auto& p = plan.prop;
        if (p == "P03") sim::set_relevant({"over.next"});
        else if (p == "P05") sim::set_relevant({"unload."});
        else if (p == "P06") sim::set_relevant({"fault.", "init.missing"});
        else if (p == "P13") sim::set_relevant({"finalize"});
        else if (p == "P14") sim::set_relevant({"n2216.pick"});
        else if (p == "P15") sim::set_relevant({"check.report"});
        else if (p == "P16") sim::set_relevant({"init.ok"});
        else if (p == "P17") sim::set_relevant({"init.missing"});
        else sim::set_relevant({"over.run"});
        int idx = 0;
        for (auto& op : plan.ops) {
            sim::set_op(idx++);
            if (failed()) return;
            run(op);
        }
    }
};
static ModsWorld the_world;
static struct Init {
    Init() { sim::add_world(&the_world); }
} init_;
} // namespace mods
