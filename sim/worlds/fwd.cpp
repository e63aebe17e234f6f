#include "fwd.hpp"
#include <algorithm>
#include <cstring>

#ifndef WORLD_NAME
#define WORLD_NAME "fwd"
#endif

namespace fwd {
using sim::count;
using sim::failed;
using sim::logf;
using sim::Op;
using sim::Plan;
using sim::Rng;
const char* const cname[NC] = {"A", "B", "L", "C", "V", "W"};
const char* const kname[NKINDS] = {"X&", "const X&", "X&&", "X*", "const X*", "shared_ptr", "const shared_ptr&", "unique_ptr", "intrusive_ptr",
    "const intrusive_ptr&", "virtual_ptr", "virtual_ptr<const>", "const virtual_ptr&", "virtual_ptr<shared_ptr>", "const virtual_ptr<shared_ptr>&",
    "virtual_ptr<unique_ptr>", "virtual_ptr<intrusive_ptr>", "const virtual_ptr<intrusive_ptr>&", "T", "T&", "const T&", "T&&", "T*", "move-only",
    "move-only&&", "long"};
const char* const ename[] = {"ok", "exception", "bad_alloc", "no_overrider", "ambiguous_call", "not_initialized", "other exception"};
Host* host;
long live_tracked;
static const std::vector<int> bases[NC] = {{}, {A_}, {}, {L_, B_}, {A_}, {L_, V_}};
bool derives(int d, int b) {
    if (d == b) return true;
    for (int x : bases[d])
        if (derives(x, b)) return true;
    return false;
}
static void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void fail(const char* kind, const char* fmt, ...) {
    char b[900];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    sim::HostScope hs;
    sim::fail(kind, "%s", b);
}
static const bool cxx20 = __cplusplus >= 202002L;

struct FwdWorld : sim::World, Host {
    const char* name() const override { return WORLD_NAME; }
    Reg* R = nullptr;
    struct Obj {
        const void* sub[NC] = {};
        int cls = -1;
        bool born = false, gone = false;
    };
    std::vector<Obj> objs;
    bool inited = false;
    struct Level {
        int overrider;
        bool copy = false;
        long value = 0;
        bool took_next = false;
    };
    struct Frame {
        int m;
        const CallSpec* cs;
        ArgState before[MAXP];
        std::vector<Level> stack; // overriders now running
        int expect = -1;          // the overrider to run next; -1: none
        int entered = 0;
        long copies = 0, expected_copies = 0;
        bool returned = false;
        Outcome result;     // of the innermost overrider that has returned
        bool have_result = false;
        const Op* op;
    };
    std::vector<Frame*> frames;
    // fault injection
    int fault = 0;
    long fault_n = 0;
    bool fired = false;
    int calls_depth = 0;
    int last_obj = -1;

    // ------------------------------------------------------------ model
    bool applies(const std::vector<int>& o, const int* dyn) {
        for (std::size_t i = 0; i < o.size(); ++i)
            if (!derives(dyn[i], o[i])) return false;
        return true;
    }
    bool more_specific(const std::vector<int>& a, const std::vector<int>& b) {
        bool strict = false;
        for (std::size_t i = 0; i < a.size(); ++i) {
            if (!derives(a[i], b[i])) return false;
            strict |= a[i] != b[i];
        }
        return strict;
    }
    int best(const Method& m, const std::vector<int>& cand) { // -1 none, -2 ambiguous
        if (cand.empty()) return -1;
        for (int i : cand) {
            bool ok = true;
            for (int j : cand) ok &= i == j || more_specific(m.overriders[i], m.overriders[j]);
            if (ok) return i;
        }
        return -2;
    }
    int target(const Method& m, const CallSpec& cs) {
        std::vector<int> cand;
        for (int i = 0; i < int(m.overriders.size()); ++i)
            if (applies(m.overriders[i], cs.cls)) cand.push_back(i);
        return best(m, cand);
    }
    int next_of(const Method& m, int o) {
        std::vector<int> cand;
        for (int i = 0; i < int(m.overriders.size()); ++i)
            if (i != o && more_specific(m.overriders[o], m.overriders[i])) cand.push_back(i);
        return best(m, cand);
    }

    // -------------------------------------------------------- callbacks
    int new_id() override {
        sim::HostScope hs;
        objs.push_back({});
        return last_obj = int(objs.size()) - 1;
    }
    void born(int id, int cls, const void* const* sub) override {
        sim::HostScope hs;
        for (int c = 0; c < NC; ++c)
            if (sub[c]) objs[id].sub[c] = sub[c];
        objs[id].cls = cls;
        objs[id].born = true;
    }
    void gone(int id, int cls) override {
        sim::HostScope hs;
        if (id < 0 || id >= int(objs.size())) return fail("fwd-destroyed", "a destructor ran on something that is not an object");
        if (objs[id].cls != cls) return;
        if (objs[id].gone) fail("fwd-destroyed", "an object was destroyed twice");
        objs[id].gone = true;
    }
    bool hit(int kind) {
        if (fault != kind || fired) return false;
        if (fault_n-- > 0) return false;
        fired = true;
        return true;
    }
    bool copying(bool move) override {
        sim::HostScope hs;
        if (frames.empty()) return false;
        if (!move) ++frames.back()->copies;
        if (hit(move ? 4 : 3)) {
            count(move ? "fault.move_throw" : "fault.copy_throw");
            return true;
        }
        return false;
    }
    void before(int m, const CallSpec& cs, ArgState* args) override {
        sim::HostScope hs;
        auto f = new Frame;
        f->m = m;
        f->cs = &cs;
        f->op = cur_op;
        std::copy(args, args + MAXP, f->before);
        auto& me = R->methods[m];
        for (std::size_t i = 0; i < me.params.size(); ++i) {
            if (args[i].obj >= 0)
                for (int c = 0; c < NC; ++c) f->before[i].sub[c] = objs[args[i].obj].sub[c];
            if (me.params[i].kind == TVAL && !cs.move[i]) ++f->expected_copies;
        }
        f->expect = inited ? target(me, cs) : -1;
        frames.push_back(f);
        if (frames.size() == 1) {
            fired = false;
            fault = int(f->op->uarg(7) % 6);
            fault_n = long(f->op->uarg(8) % 6);
            if (fault == 5) sim::arm_alloc_failure(fault_n);
        }
    }
    Action enter(int m, int o, const Info* in, int n) override {
        sim::HostScope hs;
        Action act;
        auto& me = R->methods[m];
        if (frames.empty() || frames.back()->m != m) {
            fail("fwd-dispatch", "an overrider of '%s' runs although the method was not called", me.name.c_str());
            return act;
        }
        auto& f = *frames.back();
        ++f.entered;
        int level = int(f.stack.size());
        logf("enter %d.%d level %d", m, o, level);
        if (o != f.expect) {
            fail("fwd-dispatch", "'%s': overrider %d runs, expected %d", me.name.c_str(), o, f.expect);
            return act;
        }
        f.expect = -1;
        int v = 0, copies_above = 0;
        for (auto& l : f.stack) copies_above += l.copy;
        for (int i = 0; i < n; ++i) {
            auto& p = me.params[i];
            auto& b = f.before[i];
            char what[200];
            snprintf(what, sizeof what, "'%s', overrider %d at depth %d, parameter %d (%s)", me.name.c_str(), o, level, i, kname[p.kind]);
            if (is_virt(p.kind)) {
                int oc = me.overriders[o][v++];
                if (in[i].addr != b.sub[oc]) return fail("fwd-address", "%s: the object is not at the address of its %s part", what, cname[oc]), act;
                if (objs[b.obj].gone) return fail("fwd-destroyed", "%s: the object was destroyed before the overrider ran", what), act;
                if (!owns(p.kind)) {
                    if (in[i].count == -99) return fail("fwd-vptr", "%s: no v-table pointer", what), act;
                    continue;
                }
                bool keep = f.cs->keep[i] && !move_only(p.kind);
                bool moved = by_value(p.kind) && (f.cs->move[i] || move_only(p.kind));
                long least = long(keep) + !moved + (by_value(p.kind) ? 1 + (move_only(p.kind) ? 0 : copies_above) : 0);
                long most = least + 3 * (level + 1);
                if (move_only(p.kind) || (cxx20 && (p.kind == SHP || p.kind == VPS))) most = least;
                if (p.kind == SHPR && me.overriders[o][v - 1] == p.root && level == 0) most = least;
                if (in[i].count < least || in[i].count > most)
                    return fail("fwd-owners", "%s: the object has %ld owners, expected %ld%s", what, in[i].count, least, most > least ? " or a few more" : ""), act;
            } else {
                if (in[i].val != b.val)
                    return fail("fwd-value", "%s: value %ld, expected %ld", what, in[i].val, b.val), act;
                bool ref = p.kind == TREF || p.kind == TCREF || p.kind == TRREF || p.kind == TPTR || p.kind == MRREF;
                if (ref && in[i].addr != b.addr) return fail("fwd-reference", "%s: does not refer to the caller's object", what), act;
                if (!ref && p.kind != INT && in[i].addr == b.addr) return fail("fwd-reference", "%s: refers to the caller's object", what), act;
            }
        }
        count("fwd.enter");
        count((std::string("ret.") + std::to_string(me.ret)).c_str());
        sim::note_state(((m * 16 + o) * 64 + level * 16 + copies_above * 4 + f.cs->keep[0] * 2 + f.cs->move[0]) * 8 + frames.size());
        // nested call
        long bits = f.op->arg(6) >> (2 * level);
        Level l;
        l.overrider = o;
        l.value = 5000 + 100 * m + 10 * o + level;
        l.copy = bits & 2;
        act.next = bits & 1;
        act.copy = l.copy;
        act.value = l.value;
        f.stack.push_back(l);
        if (hit(1)) {
            count("fault.overrider_throw");
            f.stack.pop_back();
            throw Boom{1};
        }
        if (frames.size() < 3 && level == int(f.op->uarg(9) >> 4) % 4 && (f.op->arg(9) & 15) < 7) {
            count("fwd.nested");
            Err e = nested(*f.op, int(frames.size()));
            if (e == E_BOOM && (f.op->arg(10) & 1) && !failed()) {
                count("fault.rethrow");
                f.stack.pop_back();
                throw Boom{6};
            }
        }
        return act;
    }
    void has_next(bool has) override {
        sim::HostScope hs;
        if (frames.empty() || failed()) return;
        auto& f = *frames.back();
        auto& me = R->methods[f.m];
        auto& l = f.stack.back();
        int nx = next_of(me, l.overrider);
        if (has != (nx >= 0)) return fail("fwd-next", "'%s': has_next() of overrider %d is %d", me.name.c_str(), l.overrider, has);
        int level = int(f.stack.size()) - 1;
        bool take = (f.op->arg(6) >> (2 * level)) & 1;
        if (has && take) {
            f.expect = nx;
            l.took_next = true;
            bool always = me.ret == RCOV || me.ret == RSHARED;
            if (always) l.copy = true;
            if (l.copy)
                for (auto& p : me.params) f.expected_copies += p.kind == TVAL;
        } else l.copy = false;
    }
    void next_returned(const Outcome& o) override {
        sim::HostScope hs;
        if (frames.empty() || failed()) return;
        auto& f = *frames.back();
        count("fwd.next");
        check_result(f, o, "next");
    }
    void check_result(Frame& f, const Outcome& o, const char* what) {
        auto& me = R->methods[f.m];
        if (!f.have_result) return fail("fwd-dispatch", "'%s': %s returned but no overrider ran", me.name.c_str(), what);
        int fv = 0;
        while (!is_virt(me.params[fv].kind)) ++fv;
        auto bad = [&] { fail("fwd-result", "'%s': %s did not return what the overrider returned", me.name.c_str(), what); };
        switch (me.ret) {
        case RTRACK:
        case RMOVE:
            if (o.val != f.result.val) bad();
            break;
        case RREFARG:
        case RCOV:
            if (o.addr != f.result.addr) bad();
            break;
        case RSELF:
            if (o.addr != f.result.addr) bad();
            break;
        case RSHARED:
            if (o.addr != objs[last_result].sub[me.params[fv].root] || o.val != 1) bad();
            break;
        }
    }
    int last_result = -1;
    void leave(int m, int o) override {
        sim::HostScope hs;
        if (frames.empty() || failed()) return;
        auto& f = *frames.back();
        auto& me = R->methods[m];
        if (f.expect >= 0) return fail("fwd-next", "'%s': next() of overrider %d ran nothing", me.name.c_str(), o);
        Level l = f.stack.back();
        f.stack.pop_back();
        logf("leave %d.%d", m, o);
        if (hit(2)) {
            count("fault.overrider_throw_late");
            throw Boom{2};
        }
        int fv = 0;
        while (!is_virt(me.params[fv].kind)) ++fv;
        auto& b = f.before[fv];
        Outcome r;
        bool from_next = l.took_next;
        switch (me.ret) {
        case RTRACK:
        case RMOVE: r.val = from_next ? f.result.val : l.value; break;
        case RREFARG:
            for (std::size_t i = 0; i < me.params.size(); ++i)
                if (me.params[i].kind == TREF) r.addr = f.before[i].addr;
            break;
        case RCOV:
        case RSELF: r.addr = b.sub[me.params[fv].root]; break;
        case RSHARED: last_result = int(objs.size()); break; // the overrider makes it next
        }
        f.result = r;
        f.have_result = true;
    }
    void returned(int m, const Outcome& o) override {
        sim::HostScope hs;
        if (frames.empty() || failed()) return;
        auto& f = *frames.back();
        check_result(f, o, "the call");
        f.returned = true;
    }
    void after(int m, const CallSpec& cs, ArgState* a, Err e, const long* err) override {
        sim::HostScope hs;
        Frame* f = frames.back();
        if (frames.size() == 1) sim::arm_alloc_failure(-1);
        last_err = e;
        if (!failed()) check_after(*f, cs, a, e, err);
        frames.pop_back();
        delete f;
    }
    void check_after(Frame& f, const CallSpec& cs, ArgState* a, Err e, const long* err) {
        auto& me = R->methods[f.m];
        const char* n = me.name.c_str();
        logf("call %s -> %s", n, ename[e]);
        int t = inited ? target(me, cs) : -3;
        Err want = t == -3 ? E_NOTINIT : t == -1 ? E_NOOVER : t == -2 ? E_AMBIGUOUS : OK;
        bool alloc_failed = sim::alloc_stats().failed != 0 && fault == 5;
        if (e == E_BOOM) {
            int w = int(err[0]);
            if (!(fired || w == 6)) return fail("fwd-error", "'%s': an exception that was not thrown", n);
            count("error.exception");
        } else if (e == E_ALLOC) {
            if (!alloc_failed) return fail("fwd-error", "'%s': bad_alloc", n);
            count("fault.alloc");
        } else if (e != want) return fail("fwd-error", "'%s': got %s, expected %s", n, ename[e], ename[want]);
        else if (e != OK) count((std::string("error.") + ename[e]).c_str());
        if (e == OK && !f.returned) return fail("fwd-dispatch", "'%s' did not return", n);
        if (want != OK && f.entered) return fail("fwd-error", "'%s': an overrider ran in spite of the error", n);
        if (e == E_NOOVER) {
            if (err[0] != me.nvirt()) return fail("fwd-error", "'%s': no_overrider carries arity %ld", n, err[0]);
            for (int v = 0; v < me.nvirt(); ++v)
                if (err[1 + v] != R->type_of(cs.cls[v])) return fail("fwd-error", "'%s': no_overrider carries the wrong type for virtual argument %d", n, v);
            if (!err[3]) return fail("fwd-error", "'%s': no_overrider carries the wrong method", n);
        }
        if (e == OK) count("fwd.call");
        if (e == OK && f.copies != f.expected_copies)
            return fail("fwd-copies", "'%s': %ld copies were made, a direct call would make %ld", n, f.copies, f.expected_copies);
        for (std::size_t i = 0; i < me.params.size(); ++i) {
            auto& p = me.params[i];
            auto& b = f.before[i];
            auto& x = a[i];
            bool moved = by_value(p.kind) && (cs.move[i] || move_only(p.kind));
            char what[160];
            snprintf(what, sizeof what, "after '%s', argument %zu (%s)", n, i, kname[p.kind]);
            if (is_virt(p.kind)) {
                if (x.count == -99) return fail("fwd-vptr", "%s: object and v-table pointer disagree", what);
                if (!owns(p.kind)) {
                    if (x.null) return fail("fwd-argument", "%s was reset", what);
                    if (objs[b.obj].gone) return fail("fwd-destroyed", "%s: the object was destroyed", what);
                    continue;
                }
                if (!moved && x.null) return fail("fwd-argument", "%s was reset although it was not moved", what);
                if (moved && e == OK && !x.null) return fail("fwd-argument", "%s was not moved from", what);
                int owners = !x.null + (cs.keep[i] && !move_only(p.kind));
                if (x.count != owners) return fail("fwd-owners", "%s: the object has %ld owners, expected %d", what, x.count, owners);
                if (objs[b.obj].gone != (owners == 0)) return fail("fwd-destroyed", "%s: the object with %d owners %s", what, owners, owners ? "was destroyed" : "is still alive");
            } else {
                if (!moved && x.val != b.val) return fail("fwd-value", "%s changed from %ld to %ld", what, b.val, x.val);
                if (moved && e == OK && p.kind != INT && x.val != -1) return fail("fwd-argument", "%s was not moved from", what);
            }
        }
    }

    // -------------------------------------------------------------- running
    const Op* cur_op = nullptr;
    Err last_err = OK;
    std::vector<int> rooted(int root) {
        std::vector<int> r;
        for (int c = 0; c < NC; ++c)
            if (derives(c, root)) r.push_back(c);
        return r;
    }
    void do_call(const Op& op) {
        int m = int(op.uarg(0) % R->methods.size());
        auto& me = R->methods[m];
        if (!inited) // the caller could not make its virtual_ptrs
            for (auto& p : me.params)
                if (p.kind == VPR || p.kind == VPS || p.kind == VPSR || p.kind == VPU || p.kind == VPI || p.kind == VPIR) return;
        CallSpec cs;
        int v = 0;
        for (std::size_t i = 0; i < me.params.size(); ++i) {
            if (is_virt(me.params[i].kind)) {
                auto r = rooted(me.params[i].root);
                cs.cls[v] = r[op.uarg(1 + v) % r.size()];
                ++v;
            }
            cs.move[i] = (op.arg(3) >> i) & 1;
            cs.keep[i] = (op.arg(4) >> i) & 1;
            cs.val[i] = 10 + long(i) * 100 + long(op.uarg(5) % 90);
        }
        auto live = sim::alloc_stats().live;
        auto tracked = live_tracked;
        std::size_t first = objs.size();
        auto saved = cur_op;
        cur_op = &op;
        R->call(m, cs);
        cur_op = saved;
        if (failed()) return;
        for (std::size_t i = first; i < objs.size(); ++i)
            if (objs[i].born && !objs[i].gone) return fail("fwd-leak", "'%s': an object (%s) is never destroyed", me.name.c_str(), cname[objs[i].cls]);
        if (live_tracked != tracked) return fail("fwd-leak", "'%s': %ld value(s) never destroyed", me.name.c_str(), live_tracked - tracked);
        if (sim::alloc_stats().live != live) return fail("fwd-leak", "'%s': %ld allocation(s) never released", me.name.c_str(), long(sim::alloc_stats().live - live));
    }
    Err nested(const Op& outer, int depth) {
        Op op = outer;
        Rng r(outer.uarg(9) * 77 + depth);
        for (int i = 0; i < 7; ++i) op.a[i] = long(r.below(1 << 10));
        op.a[9] = long(r.below(64));
        do_call(op);
        return last_err;
    }
    void run(const Op& op) {
        if (op.name == "init") {
            sim::arena_step();
            R->initialize();
            inited = true;
            count("init.ok");
        } else if (op.name == "fin") {
            R->finalize();
            inited = false;
            count("finalize");
        } else if (op.name == "call") {
            if (op.a.size() < 11) return;
            if (!inited && !has_checks()) return;
            do_call(op);
        }
    }
    bool has_checks() { return strcmp(R->name(), "indirect") == 0; }

    Plan generate(std::uint64_t seed, const std::string& prop, bool thorough) override {
        Rng r(seed);
        Plan p;
        p.knobs["reg"] = r.range(0, 1);
        p.knobs["arena_mode"] = r.range(0, 4);
        p.knobs["arena_seed"] = long(r.below(1 << 20));
        bool faults = r.chance(600);
        bool p04 = prop == "P04";
        p.ops.push_back({"init", {}});
        int n = int(r.range(3, thorough ? 80 : 30));
        for (int i = 0; i < n; ++i) {
            if (r.chance(20)) p.ops.push_back({"init", {}});
            if (faults && r.chance(15)) {
                p.ops.push_back({"fin", {}});
                if (r.chance(700)) {
                    p.ops.push_back({"call", {}});
                    for (int k = 0; k < 11; ++k) p.ops.back().a.push_back(long(r.below(1 << 10)));
                    p.ops.back().a[7] = 0;
                }
                p.ops.push_back({"init", {}});
            }
            Op op{"call", {}};
            for (int k = 0; k < 11; ++k) op.a.push_back(long(r.below(1 << 10)));
            if (p04 && r.chance(600)) op.a[0] = 28 + long(r.below(2));
            op.a[7] = faults && r.chance(400) ? r.range(1, 5) : 0;
            if (r.chance(600)) op.a[9] |= 15; // no nested call
            p.ops.push_back(op);
        }
        return p;
    }
    bool knob_shrinkable(const std::string& k) override { return k == "arena_mode" || k == "arena_seed"; }
    void execute(const Plan& plan) override {
        host = this;
        R = plan.knob("reg") ? reg1() : reg0();
        count((std::string("registry.") + R->name()).c_str());
        if (plan.prop == "P04") sim::set_relevant({"error.no_overrider", "error.ambiguous"});
        else sim::set_relevant({"fwd.call", "error.exception"});
        objs.reserve(1 << 16);
        int idx = 0;
        for (auto& op : plan.ops) {
            sim::set_op(idx++);
            if (failed()) return;
            run(op);
        }
    }
};
static FwdWorld the_world;
static struct Init {
    Init() { sim::add_world(&the_world); }
} init_;
} // namespace fwd
