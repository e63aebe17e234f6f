// World "mods": modules made of real registrars (use_classes, method, overrider
// objects of the library, constructed and destroyed at run time), over real
// classes, in registries with standard, custom and deferred RTTI.
#pragma once
#include "../sim.hpp"
#include <string>
#include <vector>

namespace mods {
enum { O_, A_, B_, C_, D_, E_, F_, G_, H_, I_, J_, NC };
extern const char* const cname[NC];
bool derives(int d, int b); // in C++
inline bool abstract(int c) { return c == A_ || c == I_; }

enum Kind { REF, CREF, RREF, PTR, VP, CVP, SHP, CSHP, VPS, INT };
struct Par {
    int kind, cls;
};
struct Over {
    int method;
    std::vector<int> cls; // of the virtual parameters
    int ret;              // class of the result, or -1
};
struct Meth {
    std::vector<Par> params;
    int ret; // class of the result, or -1
    std::vector<int> vcls() const {
        std::vector<int> v;
        for (auto& p : params)
            if (p.kind != INT) v.push_back(p.cls);
        return v;
    }
};
struct Report {
    std::size_t cells, not_implemented, ambiguous;
};
struct Err {
    std::string kind; // "" none
    const void* id = nullptr;    // missing_class: type; missing_base: base; bad calls: method
    const void* id2 = nullptr;   // missing_base: derived
    std::vector<const void*> types; // bad calls
    std::size_t arity = 0;
};
constexpr int MAXV = 3;
struct Traits {
    const char* name;
    bool checks, indirect, deferred, custom;
};
struct Host {
    // an overrider was entered with these objects; returns 0: return, 1: next if any, 2: next
    virtual int enter(int method, int over, const void* const* seen, int n, long ival) = 0;
    virtual void has_next(bool has) = 0;
    virtual void next_returned(bool same) = 0;
    virtual void read_id(int reg, int cls) = 0; // static_type of a class is read
};
extern Host* host;

struct Reg {
    Traits t;
    std::vector<std::vector<int>> classes; // use_classes<...> statements
    std::vector<Meth> methods;
    std::vector<Over> overs;
    virtual ~Reg() {}
    virtual void load_classes(int i, int copy) = 0;
    virtual void unload_classes(int i, int copy) = 0;
    virtual void load_method(int m) = 0;
    virtual void unload_method(int m) = 0;
    virtual void load_over(int o) = 0;
    virtual void unload_over(int o) = 0;
    virtual Err init(int opts, Report& r) = 0; // 1: n2216
    virtual Err fin() = 0;
    // cls: dynamic classes of the virtual arguments; ret: address of the result as its class, or the number returned
    virtual Err call(int m, const int* cls, long ival, long& ret) = 0;
    virtual const void* type(int cls) = 0; // type_id
    virtual const void* method_type(int m) = 0;
    virtual const void* sub(int obj, int cls) = 0; // the object of class obj, as a cls
    virtual long ret_of(int over) = 0;             // what this overrider returns
    virtual void poison_vptr(int cls) = 0;         // the memory of the last module that registered it is gone
    virtual const void* peek_vptr(int cls) = 0;
    virtual void set_id(int cls, long id) = 0;
};
Reg* get_reg(int i);
constexpr int NREG = 4;
} // namespace mods
