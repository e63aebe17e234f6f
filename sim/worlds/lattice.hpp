// The "lattice" world: synthetic registries under simulation.  Everything the
// library sees (type_ids, inheritance lattice, registration schedule, error
// handlers, output stream, memory) is supplied by the simulator; everything the
// library does (compiler, tables, dispatch, virtual_ptr, policies) is real.
#pragma once
#include "../sim.hpp"
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace lat {

using Id = const void*;
constexpr int MAXC = 24;      // C++ classes ObjC<0..MAXC-1>
constexpr int MAXA = 32;      // aliases (type_ids) per class
constexpr int NMETH = 11;     // C++ methods
constexpr int NOVR = 8;       // overriders per method
constexpr int MAXARITY = 4;   // virtual parameters
constexpr int NPOOL = 8;      // virtual_ptr pool slots

// an object: its class and which of the class's type_ids it reports
struct Obj {
    int cls = 0, alias = 0;
    int code() const { return cls * MAXA + alias; }
};
template<int K>
struct ObjC : Obj {};

// type_ids of one registry
struct Ids {
    Id id[MAXC][MAXA];
    bool assigned = false;
    int naliases[MAXC];
    int find_code(Id i) const {
        for (int c = 0; c < MAXC; ++c)
            for (int a = 0; a < naliases[c]; ++a)
                if (id[c][a] == i) return c * MAXA + a;
        return -1;
    }
};

// shape of the C++ methods
enum Par { VP, VPC, REF, CREF, PTR, INT };
struct MethodShape {
    std::vector<Par> pars;
    int arity() const {
        int n = 0;
        for (auto p : pars) n += p != INT;
        return n;
    }
};
const std::vector<MethodShape>& shapes();

struct NodeDef { // one class_info
    int cls = -1, alias = 0;
    bool abstract_ = false;
    std::vector<int> bases; // codes
};
struct MethDef {
    bool defined = false;
    std::vector<int> params; // codes
    int ret = -1;            // code, -1: void
};
enum Script { RET, NEXT, FORCE, NESTED, THROW };
struct OvrDef {
    bool defined = false;
    std::vector<int> params;
    int ret = -1;
    int script = RET;
    long sarg = 0;
};

struct Traits {
    const char* name;
    bool rtc, hash, map, indirect, deferred, output, vec;
    int handler; // 0 throw_error_handler, 1 simulator's, 2 default_error_handler
};

struct Report {
    std::size_t cells = 0, not_implemented = 0, ambiguous = 0;
};

struct SimThrow { // thrown by handlers of kind 1/2, and by overriders
    std::string what;
};
struct OutputFault {};

// description of an error, filled by classify()
struct Err {
    std::string kind;      // "" none, or library error name, or other
    std::vector<int> ids;  // codes (or -1) where applicable
    int method = -1;
    long arity = -1;
    unsigned long attempts = 0, buckets = 0; // search_error
    std::string text;      // what() of the runtime_error if any
    std::string written;   // what error.write() produces
    std::string str() const;
};

// arguments of one call
struct Arg {
    Obj* obj = nullptr; // virtual argument
    int pool = -1;      // taken from the virtual_ptr pool
    long val = 0;       // INT
};
struct Args {
    std::vector<Arg> a; // one per parameter
};

// What the world gives to the driver
struct Host {
    virtual ~Host() {}
    // an overrider's body; call_next(which) performs next(args...)
    virtual long body(int reg, int m, int o, const Args& args, bool (*has_next)(), const std::function<long()>& next) = 0;
    virtual void seam(int reg, const char* what) = 0;
    virtual bool on_error(int reg, Err&& e, int handler) = 0; // true: throw
};
extern Host* host;

struct Driver {
    int reg = -1; // index in the run
    Ids ids;
    std::string out;    // what was written to the registry's output
    std::uint64_t writes = 0;
    long out_fail_at = -1;
    Driver();
    virtual ~Driver() {}
    virtual const Traits& traits() const = 0;
    virtual void reset() = 0;
    // registrations
    virtual void load_class(int node, const NodeDef&) = 0;
    virtual void unload_class(int node) = 0;
    virtual void load_method(int m, const MethDef&) = 0;
    virtual void unload_method(int m) = 0;
    virtual void load_overrider(int m, int o, const OvrDef&) = 0;
    virtual void unload_overrider(int m, int o) = 0;
    // opts: 1 trace option present, 2 trace on, 4 n2216, 8 reversed, 16 lvalues
    virtual Report initialize(int opts) = 0;
    virtual int method_of(const void* type_id) = 0;
    virtual void finalize(int opts) = 0;
    virtual long call(int m, const Args& args) = 0;
    virtual Err classify() = 0; // rethrows the current exception
    // virtual_ptr pool.  how: 0 ctor(ref) 1 ctor(ptr) 2 assign ref 3 assign ptr
    virtual void vp_make(int slot, Obj* o, int how) = 0;
    virtual void vp_copy(int dst, int src, int how) = 0;  // 0 copy ctor 1 assign 2 move 3 via derived type cast
    virtual void vp_final(int slot, Obj* o, int cls, int how) = 0;
    virtual void vp_null(int slot, int how) = 0;
    virtual void vp_destroy(int slot) = 0;
    virtual const void* vp_obj(int slot) = 0;
    virtual bool vp_vptr_is(int slot, int cls) = 0; // vptr() == static_vptr<cls>
    virtual bool vp_vptr_null(int slot) = 0;
    virtual bool lookup_ok(Obj* o) = 0;  // virtual_ptr(o).vptr() == static_vptr<cls>; may throw
    // default_error_handler
    virtual int set_handler(int n) { (void)n; return -1; } // returns previous handler's number
};

Driver* get_driver(int cfg); // nullptr if not linked in

} // namespace lat
