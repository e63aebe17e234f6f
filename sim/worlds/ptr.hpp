// World "ptr": virtual_ptrs of every kind, driven through construction, copy,
// move, assignment, cast, final construct, call and destruction, over registries
// that are re-initialized, finalized and extended meanwhile.
#pragma once
#include "../sim.hpp"
#include <string>
#include <vector>

namespace ptrw {
enum { A_, B_, L_, C_, V_, W_, NC, U_ = NC, ND }; // U_: never registered; ND dynamic classes
extern const char* const cname[ND];
// kinds of virtual_ptr
enum { PLAIN, PCONST, SHARED, SCONST, UNIQUE, INTR, NK };
extern const char* const kname[NK];
inline bool smart(int k) { return k >= SHARED; }
bool derives(int d, int b); // d is b or derives from it

constexpr int NEXT = 4;
enum Form { EMPTY, VP, SMART };
struct MObj {
    int cls = 0, family = 0; // family: PLAIN host-owned, SHARED, UNIQUE, INTR
    bool born = false, alive = false;
    int owners = 0;
    void* sub[NC] = {};
    int throw_cls = -1; // the constructor of this class throws
    bool dead = false;  // its destructor has run (or its constructor threw)
    int next[NEXT] = {-1, -1, -1, -1}; // through A::next_s, next_i, next_b, next_r
    long next_epoch[NEXT] = {};
};
struct MSlot {
    int form = EMPTY, kind = 0, cls = 0, obj = -1;
    long epoch = 0;
};
constexpr int NSLOT = 12, NNP = 4; // NNP: slots for classes that are not polymorphic
struct CallInfo {
    int cls = -1;
    const void* addr = nullptr;
    long count = -1;
    bool null_vptr = false;
};
enum Err { OK, E_NOTINIT, E_MISSING, E_FINAL, E_ALLOC, E_CTOR, E_OTHER, E_SKIP };
extern const char* const ename[];

struct Host { // called from the classes
    virtual bool born(int id, int cls, void** sub) = 0; // true: throw
    virtual void gone(int id, int cls) = 0;
    virtual void called(int cls, const void* addr, long use_count, bool null_vptr) = 0;
};
extern Host* host;
struct Boom {};

// what a registry's translation unit does for the simulator
struct Reg {
    bool inited = false, plug = false, plug_now = false, extra = false;
    long epoch = 1;
    virtual ~Reg() {}
    virtual const char* name() = 0;
    virtual bool indirect() = 0;
    virtual bool checks() = 0;
    virtual void initialize() = 0;
    virtual void finalize() = 0;
    virtual void load(int what) = 0;
    virtual void unload(int what) = 0;
    virtual const void* static_vptr(int cls) = 0;
    // objects
    virtual void new_raw(int id, int cls) = 0;
    virtual void delete_raw(int id, int cls, void* most) = 0;
    virtual void* storage(int slot) = 0;
    // slot operations; every one of them makes the thing in slot d
    virtual Err make_smart(int d, int kind, int cls, int id, int dyn) = 0; // plain smart pointer to a new object
    virtual Err make_virtual(int d, int kind, int cls, int id, long fail_at) = 0; // make_*_virtual
    virtual Err from_object(int d, int kind, int cls, void* obj, int as, int how) = 0; // plain virtual_ptr
    virtual Err final_object(int d, int kind, int as, void* obj, int how) = 0;
    virtual Err final_smart(int d, int s, int kind, int cls, int how) = 0;
    virtual Err from_smart(int d, int dk, int dc, int s, int sk, int sc, int how) = 0;
    virtual Err convert(int d, int dk, int dc, int s, int sk, int sc, int how) = 0;
    virtual Err cast(int d, int dc, int s, int sk, int sc, int how) = 0;
    virtual Err null(int d, int kind, int cls, int how) = 0;
    virtual Err assign_smart(int d, int dk, int dc, int s, int sk, int sc, int how) = 0;
    virtual Err assign(int d, int dk, int dc, int s, int sk, int sc, int how) = 0;
    virtual Err assign_object(int d, int kind, int cls, void* obj, int as, int how) = 0;
    virtual Err assign_null(int d, int kind, int cls) = 0;
    virtual Err copy_smart(int d, int s, int sk, int sc, int how) = 0;
    virtual void destroy(int d, int form, int kind, int cls) = 0;
    virtual Err swap(int d, int s, int kind, int cls) = 0;
    virtual Err link(int s, int kind, int cls, int t, int w) = 0; // s's object's next[w] = t
    virtual Err advance(int s, int w, int how) = 0; // p = p->next[w]
    virtual Err call(int s, int form, int kind, int cls, int how, long* result, bool* moved) = 0;
    virtual bool equal(int a, int ka, int ca, int b, int kb, int cb, bool ne) = 0;
    // classes that are not polymorphic: N0; N1: pad, N0; N2: N1; N3: N0
    virtual Err np_make(int s, int form, int cls, int how) = 0; // form: 1 plain, 2 shared, 3 unique
    virtual void np_destroy(int s) = 0;
    virtual bool np_look(int s, int* cls, const void** vptr) = 0; // cls: recorded in the object; false: vptr of a copy differs
    virtual Err np_call(int s, int how, long* result) = 0;
    virtual Err np_cast(int s) = 0; // to N1 and back; E_OTHER: another object or v-table
    virtual const void* np_static_vptr(int cls) = 0;
    // observation
    virtual void look(int s, int form, int kind, int cls, const void** get, const void** vptr, bool* vp_null, long* use_count) = 0;
};
Reg* reg0();
Reg* reg1();
Reg* reg2();
} // namespace ptrw
