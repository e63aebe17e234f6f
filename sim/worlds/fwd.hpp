// World "forward": what travels through a method call - arguments of every kind,
// results, exceptions - for methods of many signatures.
#pragma once
#include "../sim.hpp"
#include <string>
#include <vector>

namespace fwd {
enum { A_, B_, L_, C_, V_, W_, NC };
extern const char* const cname[NC];
bool derives(int d, int b);
// virtual parameters
enum VKind { REF, CREF, RREF, PTR, CPTR, SHP, SHPR, UNP, INP, INPR, VP, VPC, VPR, VPS, VPSR, VPU, VPI, VPIR, NVK };
// other parameters
enum NKind { TVAL = NVK, TREF, TCREF, TRREF, TPTR, MVAL, MRREF, INT, NKINDS };
extern const char* const kname[NKINDS];
// results
enum RKind { RVOID, RTRACK, RREFARG, RCOV, RMOVE, RUNIQ, RSELF, RSHARED };
inline bool by_value(int k) { return k == SHP || k == UNP || k == INP || k == VP || k == VPC || k == VPS || k == VPU || k == VPI || k == TVAL || k == MVAL; }
inline bool owns(int k) { return k == SHP || k == SHPR || k == UNP || k == INP || k == INPR || k == VPS || k == VPSR || k == VPU || k == VPI || k == VPIR; }
inline bool move_only(int k) { return k == UNP || k == VPU || k == MVAL; }
inline bool is_virt(int k) { return k < NVK; }

struct Param {
    int kind, root; // root: of virtual parameters
};
struct Method {
    std::string name;
    int ret = 0;
    std::vector<Param> params;
    std::vector<std::vector<int>> overriders; // classes of the virtual parameters
    int nvirt() const {
        int n = 0;
        for (auto& p : params) n += is_virt(p.kind);
        return n;
    }
};
struct Info { // an argument as an overrider sees it
    const void* addr = nullptr;
    long val = 0, count = -1;
};
struct Action { // what the overrider does
    bool next = false, copy = false;
    long value = 0; // to return
};
struct Outcome {
    const void* addr = nullptr; // of the result, or of the object it refers to
    long val = 0;
};
enum Err { OK, E_BOOM, E_ALLOC, E_NOOVER, E_AMBIGUOUS, E_NOTINIT, E_OTHER };
extern const char* const ename[];
struct Boom {
    int where;
};
constexpr int MAXP = 5;
struct CallSpec {
    int cls[MAXP] = {};   // dynamic classes of the virtual arguments
    bool move[MAXP] = {}; // by-value arguments: move (else copy)
    bool keep[MAXP] = {}; // the caller keeps another owner
    long val[MAXP] = {};
    int style = 0;
};
struct ArgState { // an argument as the caller has it, before and after the call
    const void* sub[NC] = {}; // addresses of the object, as each class
    const void* addr = nullptr;
    int obj = -1;
    long val = 0, count = -1;
    bool null = false;
};
struct Host {
    virtual void born(int id, int cls, const void* const* sub) = 0;
    virtual void gone(int id, int cls) = 0;
    virtual bool copying(bool move) = 0; // true: throw
    virtual Action enter(int method, int overrider, const Info* infos, int n) = 0;
    virtual void has_next(bool has) = 0;
    virtual void next_returned(const Outcome& o) = 0;
    virtual void leave(int method, int overrider) = 0; // may throw
    virtual void before(int method, const CallSpec& cs, ArgState* args) = 0;
    virtual void returned(int method, const Outcome& o) = 0; // result still alive
    virtual void after(int method, const CallSpec& cs, ArgState* args, Err e, const long* error) = 0;
    virtual int new_id() = 0;
};
extern Host* host;
extern long live_tracked;

struct Reg {
    std::vector<Method> methods;
    virtual ~Reg() {}
    virtual const char* name() = 0;
    virtual void initialize() = 0;
    virtual void finalize() = 0;
    virtual void call(int m, const CallSpec& cs) = 0;
    virtual long type_of(int cls) = 0;
};
Reg* reg0();
Reg* reg1();
} // namespace fwd
