// The "big" world: registries of hundreds of classes, methods, overriders and
// slots, where counters, masks and indices that are too narrow give way.
#pragma once
#include "../sim.hpp"
#include <string>
#include <vector>

namespace big {
using Id = const void*;
constexpr int MAXC = 448;  // classes
constexpr int NM1 = 100, NM2 = 16, NM3 = 8, NM4 = 60, NMX = 3; // methods by arity
constexpr int MAXAR = 18; // of the last NMX methods: more than an error can carry
constexpr int NM = NM1 + NM2 + NM3 + NM4 + NMX;
constexpr int NO = 330;    // overriders per method
inline int arity_of(int m) { return m < NM1 ? 1 : m < NM1 + NM2 ? 2 : m < NM1 + NM2 + NM3 ? 3 : m < NM - NMX ? 4 : MAXAR; }

struct Obj {
    int cls = 0;
};
struct Thrown { // what the simulated error handler throws
    std::string kind;
    int method = -1;
    long arity = -1;
    std::vector<int> cls; // classes of the type_ids reported, -1 if unknown
};
struct Report {
    std::size_t cells = 0, not_implemented = 0, ambiguous = 0;
};
struct Host {
    virtual ~Host() {}
    // an overrider body; next() invokes next with the same arguments
    virtual long body(int over, Obj* const* objs, int n, long (*next)(Obj* const*, int over)) = 0;
};
extern Host* host;

struct Driver {
    Id ids[MAXC];
    const char* label;
    bool rtc, indirect, hash, dense;
    int current = -1; // method being called
    virtual ~Driver() {}
    virtual void reset() = 0;
    virtual void add_class(int c, bool abstract_, const std::vector<int>& bases) = 0;
    virtual void del_class(int c) = 0;
    virtual void add_method(int m, const std::vector<int>& params) = 0;
    virtual void del_method(int m) = 0;
    virtual void add_over(int m, int o, const std::vector<int>& specs) = 0;
    virtual void del_over(int m, int o) = 0;
    virtual Report initialize(bool n2216) = 0;
    virtual void finalize() = 0;
    virtual long call(int m, Obj* const* objs) = 0;
    virtual bool lookup(Obj* o) = 0; // dynamic lookup agrees with the class's static v-table pointer
    virtual void hold(int slot, Obj* o) = 0;
    virtual long call_held(int m, int slot) = 0; // unary
};
} // namespace big
