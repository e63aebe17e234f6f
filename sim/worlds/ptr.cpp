#include "ptr.hpp"
#include <algorithm>
#include <cstring>

#ifndef WORLD_NAME
#define WORLD_NAME "ptr"
#endif

namespace ptrw {
using sim::count;
using sim::failed;
using sim::logf;
using sim::Op;
using sim::Plan;
using sim::Rng;
const char* const cname[ND] = {"A", "B", "L", "C", "V", "W", "U"};
const char* const kname[NK] = {"plain", "plain const", "shared", "shared const", "unique", "intrusive"};
const char* const ename[] = {"ok", "not_initialized", "missing_class", "final_error", "bad_alloc", "constructor exception", "other exception", "skip"};
Host* host;
static const std::vector<int> bases[ND] = {{}, {A_}, {}, {L_, B_}, {A_}, {L_, V_}, {B_}};
bool derives(int d, int b) {
    if (d == b) return true;
    for (int x : bases[d])
        if (derives(x, b)) return true;
    return false;
}
static void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void fail(const char* kind, const char* fmt, ...) {
    char b[900];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    sim::HostScope hs;
    sim::fail(kind, "%s", b);
}
static bool kind_conv(int from, int to) {
    return from == to || (from == PLAIN && to == PCONST) || (from == SHARED && to == SCONST) || (to == PLAIN && from != PCONST && from != SCONST) ||
        to == PCONST;
}
static int family_of(int kind) { return kind == SCONST ? int(SHARED) : kind; }

struct PtrWorld : sim::World, Host {
    const char* name() const override { return WORLD_NAME; }
    Reg* R = nullptr;
    std::vector<MObj> objs;
    MSlot slots[NSLOT];
    struct { int form = 0, cls = 0; long epoch = 0; } nps[NNP];
    CallInfo last;
    int ncalled = 0;
    bool p12 = false;

    // ---------------------------------------------------------- from classes
    bool born(int id, int cls, void** sub) override {
        sim::HostScope hs;
        auto& o = objs[id];
        for (int c = 0; c < NC; ++c)
            if (sub[c]) o.sub[c] = sub[c];
        if (o.throw_cls == cls) {
            o.dead = true;
            count("fault.ctor_throw");
            return true;
        }
        if (cls == o.cls) o.born = true;
        return false;
    }
    void gone(int id, int cls) override {
        sim::HostScope hs;
        if (id < 0 || id >= int(objs.size())) {
            fail("ptr-destroyed-twice", "a destructor ran on an object that is not alive");
            return;
        }
        auto& o = objs[id];
        if (cls != o.cls) return;
        if (o.dead) fail("ptr-destroyed-twice", "object %d (%s) was destroyed twice", id, cname[o.cls]);
        o.dead = true;
        logf("~%d", id);
    }
    void called(int cls, const void* addr, long n, bool null_vptr) override {
        sim::HostScope hs;
        ++ncalled;
        last.cls = cls;
        last.addr = addr;
        last.count = n;
        last.null_vptr = null_vptr;
    }

    // ----------------------------------------------------------------- model
    void own(int o) {
        if (o >= 0) ++objs[o].owners;
    }
    void drop(int o) {
        if (o < 0) return;
        if (--objs[o].owners > 0) return;
        objs[o].alive = false;
        for (auto& n : objs[o].next) {
            int t = n;
            n = -1;
            drop(t);
        }
    }
    bool vpsmart(const MSlot& s) { return smart(s.kind); }
    void set(int d, int form, int kind, int cls, int obj, long epoch) {
        auto& s = slots[d];
        s.form = form;
        s.kind = kind;
        s.cls = cls;
        s.obj = obj;
        s.epoch = epoch;
        if (smart(kind)) own(obj);
    }
    void become(int d, int obj, long epoch) { // the thing in d now refers to obj
        auto& s = slots[d];
        int old = s.obj;
        if (smart(s.kind)) own(obj);
        s.obj = obj;
        s.epoch = epoch;
        if (smart(s.kind)) drop(old);
    }
    bool alive(int o) { return o < 0 || objs[o].alive; }
    bool usable(const MSlot& s) { return R->inited && (R->indirect() || s.epoch == R->epoch); }
    int new_obj(int cls, int family) {
        MObj o;
        o.cls = cls;
        o.family = family;
        objs.push_back(o);
        return int(objs.size()) - 1;
    }
    // an acquisition of the v-table pointer of a cls object would give
    Err acquire(int obj) {
        if (obj < 0) return OK;
        if (!R->inited) return E_NOTINIT;
        if (objs[obj].cls == U_) return E_MISSING;
        return OK;
    }

    std::string desc(int i) {
        auto& s = slots[i];
        char b[200];
        snprintf(b, sizeof b, "%s<%s %s> (slot %d, %s)", s.form == VP ? "virtual_ptr" : "smart", kname[s.kind], cname[s.cls], i,
                 s.obj < 0 ? "null" : cname[objs[s.obj].cls]);
        return b;
    }
    void check(const char* what) {
        if (failed()) return;
        for (std::size_t i = 0; i < objs.size(); ++i) {
            auto& o = objs[i];
            if (o.alive && o.dead) return fail("ptr-destroyed", "after %s: object %zu (%s) was destroyed although it has %d owner(s)", what, i, cname[o.cls], o.owners);
            if (!o.alive && !o.dead && o.born) return fail("ptr-leak", "after %s: object %zu (%s) has no owner and was not destroyed", what, i, cname[o.cls]);
        }
        for (int i = 0; i < NSLOT && !failed(); ++i) {
            auto& s = slots[i];
            if (s.form == EMPTY || !alive(s.obj)) continue;
            const void *get = nullptr, *vptr = nullptr;
            bool vn = false;
            long n = -1;
            R->look(i, s.form, s.kind, s.cls, &get, &vptr, &vn, &n);
            const void* want = s.obj < 0 ? nullptr : objs[s.obj].sub[s.cls];
            if (get != want) {
                fail("ptr-object", "after %s: %s points to %s", what, desc(i).c_str(), !get ? "null" : !want ? "an object" : "another object or address");
                return;
            }
            if (n >= 0 && s.obj >= 0 && n != objs[s.obj].owners)
                return fail("ptr-owners", "after %s: the object of %s has %ld owners, expected %d", what, desc(i).c_str(), n, objs[s.obj].owners);
            if (s.form != VP) continue;
            if (s.obj < 0) {
                if (!vn) return fail("ptr-vptr", "after %s: %s refers to no object but has a v-table pointer", what, desc(i).c_str());
            } else if (R->inited) {
                if (vn) return fail("ptr-vptr", "after %s: %s refers to an object but its v-table pointer is null", what, desc(i).c_str());
                if (usable(s) && vptr != R->static_vptr(objs[s.obj].cls))
                    return fail("ptr-vptr", "after %s: the v-table pointer of %s is not that of %s", what, desc(i).c_str(), cname[objs[s.obj].cls]);
            }
        }
        std::uint64_t h = 7;
        for (auto& s : slots) h = sim::mix(h, (s.form * 8 + s.kind) * 8 + s.cls + (s.obj < 0 ? 0 : 512 * (1 + objs[s.obj].cls + 8 * std::min(objs[s.obj].owners, 3))));
        sim::note_state(h);
    }
    bool expect(Err got, Err want, const char* what) {
        if (got == want) {
            if (want != OK) count((std::string("error.") + ename[want]).c_str());
            return true;
        }
        fail("ptr-error", "%s: got %s, expected %s", what, ename[got], ename[want]);
        return false;
    }

    // ------------------------------------------------------------- selection
    template<class P>
    int pick(long from, P pred) {
        for (int k = 0; k < NSLOT; ++k) {
            int i = int((std::uint64_t(from) + k) % NSLOT);
            if (pred(slots[i])) return i;
        }
        return -1;
    }
    int pick_empty(long from) {
        int i = pick(from, [](auto& s) { return s.form == EMPTY; });
        if (i < 0) {
            i = int(std::uint64_t(from) % NSLOT);
            destroy(i);
        }
        return i;
    }
    void destroy(int i) {
        auto& s = slots[i];
        if (s.form == EMPTY) return;
        R->destroy(i, s.form, s.kind, s.cls);
        MSlot old = s;
        s = MSlot();
        if (smart(old.kind)) drop(old.obj);
    }
    int pick_obj(long from, bool raw_only) {
        int n = int(objs.size());
        for (int k = 0; k < n; ++k) {
            int i = int((std::uint64_t(from) + k) % n);
            if (objs[i].alive && (!raw_only || objs[i].family == PLAIN)) return i;
        }
        return -1;
    }
    int base_from(long from, int cls) { // a static class for an object of class cls
        for (int k = 0; k < NC; ++k) {
            int c = int((std::uint64_t(from) + k) % NC);
            if (derives(cls, c)) return c;
        }
        return A_;
    }

    // ------------------------------------------------------------------- ops
    void run(const Op& op) {
        auto& n = op.name;
        auto A = [&](int i) { return op.uarg(i); };
        if (n == "init") {
            try {
                sim::arena_step();
                R->initialize();
            } catch (...) {
                return fail("init-error", "initialize of a correct registry failed");
            }
            ++R->epoch;
            R->inited = true;
            R->plug_now = R->plug;
            count("init.ok");
            int survivors = 0;
            for (int i = 0; i < NSLOT && !failed(); ++i)
                if (slots[i].form == VP && slots[i].obj >= 0 && alive(slots[i].obj) && usable(slots[i])) {
                    ++survivors;
                    if (slots[i].kind != UNIQUE) call(i, 0, "a call after re-initialize");
                }
            if (survivors) count("ptr.survived_init", survivors);
            for (int i = 0; i < NNP && !failed(); ++i) check_np(i, i);
            check("initialize");
        } else if (n == "fin") {
            R->finalize();
            R->inited = false;
            ++R->epoch;
            count("finalize");
        } else if (n == "load" || n == "unload") {
            int w = int(A(0) & 1);
            bool& f = w ? R->plug : R->extra;
            bool want = n == "load";
            if (f == want) return;
            want ? R->load(w) : R->unload(w);
            f = want;
            count(want ? "module.load" : "module.unload");
            if (w && !want && R->inited && R->plug_now) run(Op{"init", {}});
        } else if (n == "raw") {
            int cls = int(A(0) % ND);
            int o = new_obj(cls, PLAIN);
            R->new_raw(o, cls);
            objs[o].alive = true;
            objs[o].owners = 1000;
            count("ptr.raw");
        } else if (n == "rawdel") {
            int o = pick_obj(op.arg(0), true);
            if (o < 0) return;
            objs[o].alive = false;
            int t[NEXT];
            for (int w = 0; w < NEXT; ++w) t[w] = objs[o].next[w], objs[o].next[w] = -1;
            int st = objs[o].cls == U_ ? B_ : objs[o].cls;
            R->delete_raw(o, objs[o].cls, objs[o].sub[st]);
            for (int x : t) drop(x);
            check("deletion of an object");
        } else if (n == "smart") { // kind, dynamic class, static class, slot
            int kind = SHARED + int(A(0) % 4), dyn = int(A(1) % ND), cls = base_from(op.arg(2), dyn);
            if (kind == INTR && cls == L_) cls = A_;
            if (kind == INTR && dyn == L_) dyn = cls = B_;
            if (kind == SCONST) kind = SHARED;
            int d = pick_empty(op.arg(3));
            int o = new_obj(dyn, kind);
            Err e = R->make_smart(d, kind, cls, o, dyn);
            if (!expect(e, OK, "making an object")) return;
            objs[o].alive = true;
            set(d, SMART, kind, cls, o, 0);
            check("making an object");
        } else if (n == "make") { // kind, class, slot, fault
            static const int ks[] = {SHARED, UNIQUE, INTR};
            int kind = ks[A(0) % 3], cls = int(A(1) % NC);
            if (kind == INTR && cls == L_) cls = C_;
            int d = pick_empty(op.arg(2));
            int o = new_obj(cls, kind);
            long f = op.arg(3);
            if (f == 2) objs[o].throw_cls = base_from(op.arg(1) >> 4, cls);
            auto fails = sim::alloc_stats().failed;
            Err e = R->make_virtual(d, kind, cls, o, f == 1 ? long(A(4) % 3) : -1);
            Err want = OK;
            if (sim::alloc_stats().failed != fails) {
                want = E_ALLOC;
                count("fault.alloc");
            } else if (f == 2) want = E_CTOR;
            else if (!R->inited) want = E_NOTINIT;
            // an allocation failure while the error is being made
            if (want == E_ALLOC && e == E_NOTINIT) want = e;
            if (!expect(e, want, "make_*_virtual")) return;
            count("ptr.final.make");
            if (e == OK) {
                objs[o].alive = true;
                set(d, VP, kind, cls, o, R->epoch);
            }
            check("make_*_virtual");
        } else if (n == "object") { // object, static class of the reference, class of the pointer, kind, how, slot
            int d = pick_empty(op.arg(5)); // may destroy an object
            int o = pick_obj(op.arg(0), false);
            if (o < 0) return;
            int dyn = objs[o].cls, as = dyn == U_ && (A(1) & 64) ? int(U_) : base_from(op.arg(1), dyn);
            int cls = base_from(op.arg(2), as), kind = int(A(3) & 1);
            Err e = R->from_object(d, kind, cls, objs[o].sub[as == U_ ? int(B_) : as], as, int(A(4) & 3));
            if (!expect(e, acquire(o), "construction from an object")) return;
            count("ptr.from_object");
            if (e == OK) set(d, VP, kind, cls, o, R->epoch);
            check("construction from an object");
        } else if (n == "assignobj") {
            int o = pick_obj(op.arg(0), false);
            int d = o < 0 ? -1 : pick(op.arg(5), [&](auto& s) { return s.form == VP && !smart(s.kind) && derives(objs[o].cls, s.cls); });
            if (d < 0) return;
            int dyn = objs[o].cls, as = -1;
            for (int k = 0; k < NC && as < 0; ++k) {
                int c = int((A(1) + k) % NC);
                if (derives(dyn, c) && derives(c, slots[d].cls)) as = c;
            }
            if (as < 0) return;
            Err e = R->assign_object(d, slots[d].kind, slots[d].cls, objs[o].sub[as], as, int(A(4) & 3));
            if (!expect(e, acquire(o), "assignment of an object")) return;
            count("ptr.assign_object");
            if (e == OK) become(d, o, R->epoch);
            check("assignment of an object");
        } else if (n == "final") { // object, class, kind, how, slot
            int d = pick_empty(op.arg(4));
            int o = pick_obj(op.arg(0), false);
            if (o < 0) return;
            int dyn = objs[o].cls, as = A(1) & 32 ? base_from(op.arg(1), dyn) : dyn == U_ ? int(B_) : dyn;
            int kind = int(A(2) & 1);
            Err e = R->final_object(d, kind, as, objs[o].sub[as], int(A(3) & 1));
            Err want = !R->inited ? E_NOTINIT : dyn != as ? E_FINAL : OK;
            if (!expect(e, want, "final_virtual_ptr of an object")) return;
            count("ptr.final.object");
            if (e == OK) set(d, VP, kind, as, o, R->epoch);
            check("final_virtual_ptr of an object");
        } else if (n == "finalsmart") {
            int s = pick(op.arg(0), [&](auto& s) { return s.form == SMART && s.obj >= 0; });
            if (s < 0) return;
            MSlot src = slots[s];
            int d = pick(op.arg(2), [](auto& s) { return s.form == EMPTY; });
            if (d < 0) return;
            Err e = R->final_smart(d, s, src.kind, src.cls, int(A(1) & 1));
            Err want = !R->inited ? E_NOTINIT : objs[src.obj].cls != src.cls ? E_FINAL : OK;
            if (!expect(e, want, "final_virtual_ptr of a smart pointer")) return;
            count("ptr.final.smart");
            if (e == OK) {
                set(d, VP, src.kind, src.cls, src.obj, R->epoch);
                become(s, -1, 0);
            }
            check("final_virtual_ptr of a smart pointer");
        } else if (n == "fromsmart" || n == "assignsmart") { // source, how, class, kind, slot
            int s = pick(op.arg(0), [&](auto& s) { return s.form == SMART; });
            if (s < 0) return;
            MSlot src = slots[s];
            int how = src.kind == UNIQUE ? 2 : int(A(1) % 3);
            bool as = n == "assignsmart";
            int d, cls, kind;
            if (as) {
                d = pick(op.arg(4), [&](auto& t) { return t.form == VP && smart(t.kind) && kind_conv(src.kind, t.kind) && derives(src.cls, t.cls); });
                if (d < 0) return;
                cls = slots[d].cls;
                kind = slots[d].kind;
            } else {
                cls = base_from(op.arg(2), src.cls);
                kind = src.kind == SHARED && (A(3) & 1) ? int(SCONST) : src.kind;
                if (kind == INTR && cls == L_) cls = src.cls;
                d = pick(op.arg(4), [](auto& s) { return s.form == EMPTY; });
                if (d < 0) return;
            }
            Err e = as ? R->assign_smart(d, kind, cls, s, src.kind, src.cls, how) : R->from_smart(d, kind, cls, s, src.kind, src.cls, how);
            const char* what = as ? "assignment of a smart pointer" : "construction from a smart pointer";
            if (!expect(e, acquire(src.obj), what)) return;
            count(as ? "ptr.assign_smart" : "ptr.from_smart");
            if (e == OK) {
                if (as) become(d, src.obj, R->epoch);
                else set(d, VP, kind, cls, src.obj, R->epoch);
                if (how == 2) become(s, -1, 0);
            }
            check(what);
        } else if (n == "convert" || n == "assign") { // source, how, class, kind, slot
            int s = pick(op.arg(0), [&](auto& s) { return s.form == VP && alive(s.obj); });
            if (s < 0) return;
            MSlot src = slots[s];
            int how = int(A(1) % 3), d, cls, kind;
            bool as = n == "assign";
            if (as) {
                d = pick(op.arg(4), [&](auto& t) {
                    return t.form == VP && kind_conv(src.kind, t.kind) && derives(src.cls, t.cls) && (t.kind != UNIQUE || how == 2);
                });
                if (d < 0) return;
                cls = slots[d].cls;
                kind = slots[d].kind;
            } else {
                cls = base_from(op.arg(2), src.cls);
                kind = src.kind;
                for (int k = 0; k < NK; ++k) {
                    int c = int((A(3) + k) % NK);
                    if (kind_conv(src.kind, c)) {
                        kind = c;
                        break;
                    }
                }
                if (kind == INTR && cls == L_) cls = src.cls;
                if (kind == UNIQUE) how = 2;
                d = pick(op.arg(4), [](auto& s) { return s.form == EMPTY; });
                if (d < 0) return;
            }
            const char* what = as ? (d == s ? "self-assignment" : "assignment") : "conversion";
            if (d == s && how == 2) what = "self-move-assignment";
            logf("%s %s -> %s %s how %d", what, desc(s).c_str(), kname[kind], cname[cls], how);
            Err e = as ? R->assign(d, kind, cls, s, src.kind, src.cls, how) : R->convert(d, kind, cls, s, src.kind, src.cls, how);
            if (!expect(e, OK, what)) return;
            count(as ? "ptr.assign" : "ptr.convert");
            if (d == s && how == 2 && smart(kind)) {
                // unspecified, but object and v-table pointer must agree
                const void *get = nullptr, *vptr = nullptr;
                bool vn;
                long cnt;
                R->look(d, VP, kind, cls, &get, &vptr, &vn, &cnt);
                if (!get) become(d, -1, 0);
            } else {
                if (as) become(d, src.obj, src.epoch);
                else set(d, VP, kind, cls, src.obj, src.epoch);
                if (how == 2 && smart(src.kind) && smart(kind)) become(s, -1, 0);
            }
            check(what);
        } else if (n == "cast") { // source, how, class, slot
            int s = pick(op.arg(0), [&](auto& s) { return s.form == VP && s.obj >= 0 && alive(s.obj); });
            if (s < 0) return;
            MSlot src = slots[s];
            int how = src.kind == UNIQUE ? 2 : int(A(1) % 3), cls = -1;
            for (int k = 0; k < NC && cls < 0; ++k) {
                int c = int((A(2) + k) % NC);
                if (derives(objs[src.obj].cls, c) && (derives(c, src.cls) || derives(src.cls, c)) && !(src.kind == INTR && c == L_)) cls = c;
            }
            int d = pick(op.arg(3), [](auto& s) { return s.form == EMPTY; });
            if (cls < 0 || d < 0) return;
            Err e = R->cast(d, cls, s, src.kind, src.cls, how);
            if (!expect(e, OK, "cast")) return;
            count("ptr.cast");
            logf("cast %s to %s how %d", desc(s).c_str(), cname[cls], how);
            set(d, VP, src.kind, cls, src.obj, src.epoch);
            if (how == 2 && smart(src.kind)) {
                const void *get = nullptr, *vptr = nullptr;
                bool vn;
                long cnt;
                R->look(s, VP, src.kind, src.cls, &get, &vptr, &vn, &cnt);
                if (!get) become(s, -1, 0);
                else if (src.kind == UNIQUE) return fail("ptr-owners", "cast of a unique virtual_ptr: two owners");
            }
            check("cast");
        } else if (n == "null") {
            int kind = int(A(0) % NK), cls = int(A(1) % NC);
            if (kind == INTR && cls == L_) cls = A_;
            int d = pick_empty(op.arg(3));
            if (!expect(R->null(d, kind, cls, int(A(2) & 1)), OK, "null construction")) return;
            set(d, VP, kind, cls, -1, 0);
            check("null construction");
        } else if (n == "setnull") {
            int d = pick(op.arg(0), [&](auto& s) { return s.form == VP; });
            if (d < 0) return;
            if (!expect(R->assign_null(d, slots[d].kind, slots[d].cls), OK, "assignment of null")) return;
            count("ptr.assign_null");
            become(d, -1, 0);
            check("assignment of null");
        } else if (n == "copysmart") {
            int s = pick(op.arg(0), [&](auto& s) { return s.form == SMART; });
            int d = pick(op.arg(2), [](auto& s) { return s.form == EMPTY; });
            if (s < 0 || d < 0) return;
            MSlot src = slots[s];
            int how = src.kind == UNIQUE || (A(1) & 1) ? 2 : 0;
            if (R->copy_smart(d, s, src.kind, src.cls, how) != OK) return;
            set(d, SMART, src.kind, src.cls, src.obj, 0);
            if (how == 2) become(s, -1, 0);
        } else if (n == "del") {
            int d = pick(op.arg(0), [&](auto& s) { return s.form != EMPTY; });
            if (d < 0) return;
            destroy(d);
            check("destruction of a pointer");
        } else if (n == "swap") {
            int s = pick(op.arg(0), [&](auto& s) { return s.form == VP; });
            if (s < 0) return;
            int d = pick(op.arg(1), [&](auto& t) { return &t != &slots[s] && t.form == VP && t.kind == slots[s].kind && t.cls == slots[s].cls; });
            if (d < 0) return;
            if (!expect(R->swap(d, s, slots[s].kind, slots[s].cls), OK, "swap")) return;
            count("ptr.swap");
            std::swap(slots[d].obj, slots[s].obj);
            std::swap(slots[d].epoch, slots[s].epoch);
            check("swap");
        } else if (n == "link") { // s: any pointer to an A, t: shared or intrusive virtual_ptr to A
            int t = pick(op.arg(1), [&](auto& t) {
                return t.form == VP && ((t.kind == SHARED && (t.cls == A_ || t.cls == B_)) || (t.kind == INTR && t.cls == A_));
            });
            int s = pick(op.arg(0), [&](auto& s) { return s.form == VP && s.cls != L_ && s.obj >= 0 && alive(s.obj); });
            if (s < 0 || t < 0) return;
            int w = slots[t].kind == INTR ? 1 : slots[t].cls == B_ ? 2 : A(2) & 1 ? 3 : 0;
            int o = slots[s].obj;
            std::vector<int> reach{slots[t].obj};
            while (!reach.empty()) { // no cycles
                int x = reach.back();
                reach.pop_back();
                if (x < 0) continue;
                if (x == o) return;
                for (int nx : objs[x].next) reach.push_back(nx);
            }
            Err e = R->link(s, slots[s].kind, slots[s].cls, t, w);
            if (!expect(e, OK, "assignment to a member")) return;
            count("ptr.link");
            int old = objs[o].next[w];
            own(slots[t].obj);
            objs[o].next[w] = slots[t].obj;
            objs[o].next_epoch[w] = slots[t].epoch;
            drop(old);
            check("assignment to a member");
        } else if (n == "advance") {
            int s = pick(op.arg(0), [&](auto& s) { return s.form == VP && (s.kind == SHARED || s.kind == INTR) && s.cls == A_ && s.obj >= 0; });
            if (s < 0) return;
            static const int ws[] = {0, 2, 3};
            int w = slots[s].kind == INTR ? 1 : ws[A(2) % 3], o = slots[s].obj, how = int(A(1) % 3);
            for (int k = 0; k < 3 && w != 1 && objs[o].next[w] < 0 && (A(3) & 7); ++k) w = ws[(A(2) + k) % 3];
            int nx = objs[o].next[w];
            long ep = w == 3 ? R->epoch : objs[o].next_epoch[w];
            Err want = w == 3 ? acquire(nx) : OK;
            Err e = R->advance(s, w, how);
            if (!expect(e, want, "assignment from a member of the object")) return;
            if (e != OK) return check("a failed assignment from a member of the object");
            count("ptr.advance");
            logf("advance how %d", how);
            own(nx);
            if (how == 2) { // moved
                objs[o].next[w] = -1;
                drop(nx);
            }
            become(s, nx, ep);
            drop(nx);
            check("assignment from a member of the object (p = p->next)");
        } else if (n == "call") {
            int s = pick(op.arg(0), [&](auto& s) { return s.form != EMPTY && s.obj >= 0 && alive(s.obj); });
            if (s < 0) return;
            call(s, int(A(1) & 7), "a call");
            check("a call");
        } else if (n == "np") { // slot, form, class, how
            auto& x = nps[A(0) % NNP];
            int s = int(A(0) % NNP), form = 1 + int(A(1) % 3), cls = form == 3 ? 0 : int(A(2) % 4);
            x.form = 0;
            if (!expect(R->np_make(s, form, cls, int(A(3) & 3)), R->inited ? OK : E_NOTINIT, "making a virtual_ptr to an object of a class that is not polymorphic"))
                return;
            count("ptr.final.np");
            if (!R->inited) return;
            x.form = form;
            x.cls = cls;
            x.epoch = R->epoch;
            check_np(s, op.uarg(3) >> 2);
        } else if (n == "npcall") {
            for (int s = 0; s < NNP && !failed(); ++s) check_np(s, op.uarg(0));
        } else if (n == "equal") {
            auto ok = [&](auto& s) { return s.form == VP && alive(s.obj); };
            int a = pick(op.arg(0), ok);
            if (a < 0) return;
            int b = pick(op.arg(1), [&](auto& t) {
                auto& s = slots[a];
                return ok(t) && derives(s.cls, t.cls) &&
                    (s.kind == t.kind || (s.kind == PLAIN && t.kind == PCONST) || (s.kind == SHARED && t.kind == SCONST));
            });
            if (b < 0) return;
            bool r = R->equal(a, slots[a].kind, slots[a].cls, b, slots[b].kind, slots[b].cls, A(2) & 1);
            count("ptr.equal");
            if (r != (slots[a].obj == slots[b].obj)) fail("ptr-equal", "comparison of %s and %s is wrong", desc(a).c_str(), desc(b).c_str());
        }
    }
    void check_np(int s, std::uint64_t how) {
        auto& x = nps[s];
        if (!x.form) return;
        if (R->inited && !R->indirect() && x.epoch != R->epoch) return; // stale
        int c = -1;
        const void* v = nullptr;
        if (R->inited) {
            if (!R->np_look(s, &c, &v) || c != x.cls || v != R->np_static_vptr(c))
                return fail("ptr-vptr", "virtual_ptr to N%d (not polymorphic, form %d): wrong object or v-table pointer", x.cls, x.form);
            bool n1 = x.cls == 1 || x.cls == 2;
            if (n1 && !expect(R->np_cast(s), OK, "cast of a virtual_ptr to a class that is not polymorphic")) return;
        }
        long r = -1;
        if (!expect(R->np_call(s, int(how), &r), R->inited ? OK : E_NOTINIT, "a call with an object of a class that is not polymorphic")) return;
        count("ptr.call");
        if (R->inited && r != (x.cls == 3 ? 3 : 11 * x.cls))
            fail("ptr-call", "a call with an object of class N%d (not polymorphic): got %ld", x.cls, r);
    }
    void call(int i, int how, const char* what) {
        MSlot s = slots[i];
        auto& o = objs[s.obj];
        int root = how >= 4 ? L_ : A_;
        if (!derives(s.cls, root) || (s.kind == INTR && root == L_)) {
            root = root == A_ ? int(L_) : int(A_);
            if (!derives(s.cls, root) || (s.kind == INTR && root == L_)) return;
        }
        how = (how & 3) + (root == L_ ? 4 : 0);
        if (s.form == VP && R->inited && !usable(s)) return;
        if (s.form == SMART && (how & 3) == 3) --how;
        int dyn = o.cls;
        Err want = s.form == SMART ? acquire(s.obj) : R->inited ? OK : E_NOTINIT;
        long result = -1;
        bool moved = false;
        ncalled = 0;
        last = CallInfo();
        Err e = R->call(i, s.form, s.kind, s.cls, how, &result, &moved);
        if (e == E_SKIP) return;
        count("ptr.call");
        logf("call %s how %d -> %ld %s", desc(i).c_str(), how, result, ename[e]);
        if (!expect(e, want, what)) return;
        if (e == OK) {
            int h = how & 3;
            bool plain_val = root == A_ && s.form == VP && ((h == 3 && s.kind != PCONST && s.kind != SCONST) || (s.kind == PLAIN && (h == 0 || h == 1)));
            int wcls = plain_val && dyn == B_ && !R->plug_now ? int(A_) : dyn;
            long wres = (plain_val && dyn == B_ && R->plug_now ? 200 : 100) + wcls;
            if (result != wres || ncalled != 1 || last.cls != wcls) {
                fail("ptr-call", "%s through %s: overrider %ld ran (%d time(s)), expected %ld", what, desc(i).c_str(), result, ncalled, wres);
                return;
            }
            if (last.addr != o.sub[wcls]) return fail("ptr-call-address", "%s through %s: the overrider for %s received a wrong address", what, desc(i).c_str(), cname[wcls]);
            if (last.null_vptr) return fail("ptr-call-vptr", "%s through %s: the overrider received a virtual_ptr without v-table", what, desc(i).c_str());
            if (moved) become(i, -1, 0);
        } else if (moved && s.form == VP) become(i, -1, 0);
    }

    // ------------------------------------------------------------ generation
    Plan generate(std::uint64_t seed, const std::string& prop, bool thorough) override {
        Rng r(seed);
        Plan p;
        bool p07 = prop == "P07", p12g = prop == "P12", p13 = prop == "P13";
        p.knobs["reg"] = p07 ? r.range(1, 2) : r.range(0, 2);
        p.knobs["arena_mode"] = r.range(0, 4);
        p.knobs["arena_seed"] = long(r.below(1 << 20));
        bool faults = p13 || r.chance(400);
        if (!r.chance(p13 ? 400 : 80)) p.ops.push_back({"init", {}});
        int n = int(r.range(6, thorough ? 150 : 60));
        auto X = [&] { return long(r.below(1 << 10)); };
        // each run favours some operations
        std::vector<std::pair<const char*, int>> w = {
            {"raw", 4}, {"rawdel", 1}, {"smart", 8}, {"make", 10}, {"object", 6}, {"assignobj", 5}, {"final", 4}, {"finalsmart", 4},
            {"fromsmart", 8}, {"assignsmart", 6}, {"convert", 10}, {"assign", 14}, {"cast", 10}, {"null", 4}, {"setnull", 3}, {"copysmart", 3},
            {"del", 8}, {"swap", 4}, {"link", 8}, {"advance", 8}, {"call", 14}, {"equal", 4}, {"np", 3}, {"npcall", 1}, {"load", 1}, {"unload", 1}, {"init", 2}, {"fin", 1}};
        for (auto& e : w) {
            std::string o = e.first;
            if (p12g && (o == "assignobj" || o == "assignsmart" || o == "assign" || o == "link" || o == "advance" || o == "swap" || o == "cast")) e.second = 0;
            if (p12g && (o == "final" || o == "finalsmart" || o == "make" || o == "np")) e.second *= 4;
            if (p13 && (o == "np" || o == "final" || o == "finalsmart" || o == "make")) e.second *= 2;
            if (p07 && (o == "init" || o == "load" || o == "unload")) e.second *= 5;
            if (o == "fin") e.second = p13 ? 6 : faults ? 2 : 0;
            if (r.chance(250)) e.second *= 4;
            else if (r.chance(200) && o != "make" && o != "raw") e.second /= 2;
        }
        int total = 0;
        for (auto& e : w) total += e.second;
        for (int i = 0; i < n; ++i) {
            int k = int(r.below(total));
            const char* o = "";
            for (auto& e : w)
                if ((k -= e.second) < 0) {
                    o = e.first;
                    break;
                }
            if (!strcmp(o, "make")) p.ops.push_back({o, {X(), X(), X(), faults && r.chance(200) ? r.range(1, 2) : 0, X()}});
            else p.ops.push_back({o, {X(), X(), X(), X(), X(), X()}});
            if (!strcmp(o, "fin") && r.chance(800)) {
                if (r.chance(500)) p.ops.push_back({"call", {X(), X()}});
                if (r.chance(500)) p.ops.push_back({"fromsmart", {X(), X(), X(), X(), X()}});
                if (r.chance(300)) p.ops.push_back({"assignsmart", {X(), X(), X(), X(), X()}});
                if (r.chance(300)) p.ops.push_back({"final", {X(), X(), X(), X(), X()}});
                if (r.chance(300)) p.ops.push_back({r.chance(700) ? "np" : "npcall", {X(), X(), X(), X(), X()}});
                p.ops.push_back({"init", {}});
            }
        }
        return p;
    }
    bool knob_shrinkable(const std::string& k) override { return k == "arena_mode" || k == "arena_seed"; }

    void execute(const Plan& plan) override {
        host = this;
        p12 = plan.prop == "P12";
        Reg* regs[] = {reg0(), reg1(), reg2()};
        R = regs[plan.knob("reg") % 3];
        count((std::string("registry.") + R->name()).c_str());
        if (plan.prop == "P07") sim::set_relevant({"ptr.survived_init"});
        else if (plan.prop == "P12") sim::set_relevant({"ptr.final"});
        else if (plan.prop == "P13") sim::set_relevant({"error.not_initialized"});
        else sim::set_relevant({"ptr."});
        objs.reserve(plan.ops.size() + 1);
        int idx = 0;
        for (auto& op : plan.ops) {
            sim::set_op(idx++);
            if (failed()) return;
            logf("%s", op.name.c_str());
            run(op);
        }
        for (int i = 0; i < NNP; ++i) R->np_destroy(i);
        for (int i = 0; i < NSLOT && !failed(); ++i) {
            destroy(i);
            check("destruction of a pointer");
        }
        for (std::size_t i = 0; i < objs.size() && !failed(); ++i)
            if (objs[i].alive && objs[i].family == PLAIN) run(Op{"rawdel", {long(i)}});
        check("the end");
        if (!failed())
            for (std::size_t i = 0; i < objs.size(); ++i)
                if (objs[i].alive) return fail("ptr-leak", "object %zu (%s) is never destroyed", i, cname[objs[i].cls]);
    }
};
static PtrWorld the_world;
static struct Init {
    Init() { sim::add_world(&the_world); }
} init_;
} // namespace ptrw
