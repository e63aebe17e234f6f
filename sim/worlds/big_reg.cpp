// One registry per translation unit: -DREG=n
#include <algorithm>
#include <cstring>
#include <sstream>
#include <string_view>
#include "big.hpp"
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)

namespace big {
namespace {
struct Access {};
} // namespace
} // namespace big
namespace boost::openmethod::detail {
template<class R>
struct use_class_aux<R, big::Access> {
    static auto& classes() { return R::classes; }
    static auto& methods() { return R::methods; }
};
} // namespace boost::openmethod::detail

namespace big {
namespace {
namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
Driver* drv;
template<class T>
char tag;
template<int M>
struct MId;

struct big_rtti : pol::rtti {
    template<class R>
    struct fn : pol::rtti::defaults {
        template<class C>
        static constexpr bool is_polymorphic = std::is_base_of_v<Obj, C>;
        template<class C>
        static auto static_type() -> bom::type_id { return &tag<C>; }
        template<class C>
        static auto dynamic_type(const C& o) -> bom::type_id {
            if constexpr (std::is_base_of_v<Obj, C>) return drv->ids[o.cls];
            else return &tag<C>;
        }
    };
};
int code(bom::type_id t) {
    for (int i = 0; i < MAXC; ++i)
        if (drv->ids[i] == t) return i;
    return -1;
}
int method_of(bom::type_id t);
struct big_handler : pol::error_handler {
    template<class R>
    struct fn {
        static void call(Thrown& t, const bom::bad_call& e) {
            t.method = method_of(e.method);
            t.arity = long(e.arity);
            for (std::size_t i = 0; i < e.arity && i < bom::bad_call::max_types; ++i) t.cls.push_back(code(e.types[i]));
        }
        template<class E>
        [[noreturn]] static void error(const E& e) {
            sim::HostScope hs;
            Thrown t;
            if constexpr (std::is_same_v<E, bom::no_overrider>) t.kind = "no_overrider", call(t, e);
            else if constexpr (std::is_same_v<E, bom::ambiguous_call>) t.kind = "ambiguous_call", call(t, e);
            else if constexpr (std::is_same_v<E, bom::missing_class>) t.kind = "missing_class", t.cls = {code(e.type)};
            else if constexpr (std::is_same_v<E, bom::missing_base>) t.kind = "missing_base", t.cls = {code(e.base), code(e.derived)};
            else if constexpr (std::is_same_v<E, bom::not_initialized>) t.kind = "not_initialized";
            else if constexpr (std::is_same_v<E, pol::fast_perfect_hash::search_error>) t.kind = "search_error";
            else t.kind = "other";
            throw t;
        }
    };
};
#if REG == 0
struct R : bom::registry<big_rtti, pol::vptr_vector, pol::fast_perfect_hash, big_handler, pol::runtime_checks> {};
#elif REG == 1
struct R : bom::registry<big_rtti, pol::vptr_vector, big_handler, pol::indirect_vptr, pol::runtime_checks> {};
#else
struct R : bom::registry<big_rtti, pol::vptr_map<>, big_handler, pol::runtime_checks> {};
#endif
using Base = R::registry_type;
using Acc = bom::detail::use_class_aux<Base, Access>;
using P = bom::virtual_ptr<Obj, R>;
template<int A>
struct SigOf;
template<>
struct SigOf<1> { using type = long(P); };
template<>
struct SigOf<2> { using type = long(P, P); };
template<>
struct SigOf<3> { using type = long(P, P, P); };
template<>
struct SigOf<4> { using type = long(P, P, P, P); };
template<>
struct SigOf<MAXAR> { using type = long(P, P, P, P, P, P, P, P, P, P, P, P, P, P, P, P, P, P); };
constexpr int ar(int m) { return m < NM1 ? 1 : m < NM1 + NM2 ? 2 : m < NM1 + NM2 + NM3 ? 3 : m < NM - NMX ? 4 : MAXAR; }
template<int M>
using Method = bom::method<MId<M>, typename SigOf<ar(M)>::type, R>;

void (*nexts[NM][NO])();

template<class Sig, int O>
struct Ovr;
template<int O, class... A>
struct Ovr<long(A...), O> {
    template<std::size_t... I>
    static long go(Obj* const* o, int over, std::index_sequence<I...>) {
        sim::LibScope ls;
        return reinterpret_cast<long (*)(A...)>(nexts[drv->current][over])(P(*o[I])...);
    }
    static long next(Obj* const* o, int over) { return go(o, over, std::index_sequence_for<A...>()); }
    static long fn(A... a) {
        sim::HostScope hs;
        Obj* o[] = {a.get()...};
        return host->body(O, o, int(sizeof...(A)), &next);
    }
};
using Raw = void (*)();
template<int A, std::size_t... O>
const Raw* raw_table(std::index_sequence<O...>) {
    static const Raw t[] = {reinterpret_cast<Raw>(&Ovr<typename SigOf<A>::type, int(O)>::fn)...};
    return t;
}
Raw raw(int m, int o) {
    static const Raw* const t[] = {raw_table<1>(std::make_index_sequence<NO>()), raw_table<2>(std::make_index_sequence<NO>()),
                                   raw_table<3>(std::make_index_sequence<NO>()), raw_table<4>(std::make_index_sequence<NO>()),
                                   raw_table<MAXAR>(std::make_index_sequence<16>())};
    return t[std::min(ar(m), 5) - 1][o];
}
template<int M, std::size_t... I>
long call_(Obj* const* o, std::index_sequence<I...>) {
    return Method<M>::fn(P(*o[I])...);
}
struct MethodRow {
    bom::type_id id;
    bom::detail::method_info* real;
    long (*call)(Obj* const*);
    long (*call_vp)(P);
};
template<int M>
long call1(P p) {
    if constexpr (ar(M) == 1) return Method<M>::fn(p);
    else return -1;
}
template<std::size_t... M>
MethodRow* rows_(std::index_sequence<M...>) {
    static MethodRow t[] = {{&tag<Method<M>>, &Method<M>::fn,
                             [](Obj* const* o) { return call_<M>(o, std::make_index_sequence<ar(M)>()); }, &call1<M>}...};
    return t;
}
MethodRow* rows() { return rows_(std::make_index_sequence<NM>()); }
int method_of(bom::type_id t) {
    for (int m = 0; m < NM; ++m)
        if (rows()[m].id == t) return m;
    return -1;
}

template<class Info>
struct Rec : Info {
    std::vector<bom::type_id> types;
};
using ClassRec = Rec<bom::detail::class_info>;
using MethRec = Rec<bom::detail::method_info>;
using OvrRec = Rec<bom::detail::overrider_info>;

struct D : Driver {
    std::vector<ClassRec*> classes[MAXC];
    MethRec* meths[NM] = {};
    OvrRec* ovrs[NM][NO] = {};
    bom::vptr_type sv[MAXC];
    std::vector<P> held;
    D() {
        label = REG == 0 ? "hash+vector" : REG == 1 ? "vector,indirect" : "unordered_map";
        rtc = true;
        indirect = REG == 1;
        hash = REG == 0;
        dense = REG == 1;
    }
    template<class T>
    T* alloc() {
        void* p = calloc(1, sizeof(T));
        return new (p) T;
    }
    void reset() override {
        drv = this;
        Acc::methods().clear();
        Acc::classes().clear();
        for (auto& c : classes) c.clear();
        for (auto& v : sv) v = {};
        memset(meths, 0, sizeof meths);
        memset(ovrs, 0, sizeof ovrs);
        held.clear();
        rows();
    }
    void add_class(int c, bool abstract_, const std::vector<int>& bases) override {
        sim::HostScope hs;
        auto p = alloc<ClassRec>();
        for (int b : bases) p->types.push_back(ids[b]);
        p->type = ids[c];
        p->first_base = p->types.data();
        p->last_base = p->first_base + p->types.size();
        p->is_abstract = abstract_;
        p->static_vptr = &sv[c];
        classes[c].push_back(p);
        sim::LibScope ls;
        Acc::classes().push_back(*p);
    }
    void del_class(int c) override {
        for (auto p : classes[c]) Acc::classes().remove(*p);
        sim::HostScope hs;
        classes[c].clear();
    }
    void add_method(int m, const std::vector<int>& params) override {
        sim::HostScope hs;
        auto p = alloc<MethRec>();
        auto& r = *rows()[m].real;
        p->slots_strides_ptr = r.slots_strides_ptr;
        p->not_implemented = r.not_implemented;
        p->ambiguous = r.ambiguous;
        p->method_type_id = rows()[m].id;
        p->return_type_id = &tag<void>;
        for (int b : params) p->types.push_back(ids[b]);
        p->vp_begin = p->types.data();
        p->vp_end = p->vp_begin + p->types.size();
        meths[m] = p;
        sim::LibScope ls;
        Acc::methods().push_back(*p);
    }
    void del_method(int m) override {
        Acc::methods().remove(*meths[m]);
        meths[m] = nullptr;
    }
    void add_over(int m, int o, const std::vector<int>& specs) override {
        sim::HostScope hs;
        auto p = alloc<OvrRec>();
        p->method = meths[m];
        p->return_type = &tag<void>;
        p->type = &tag<OvrRec>;
        p->next = &nexts[m][o];
        nexts[m][o] = nullptr;
        p->pf = raw(m, o);
        for (int b : specs) p->types.push_back(ids[b]);
        p->vp_begin = p->types.data();
        p->vp_end = p->vp_begin + p->types.size();
        ovrs[m][o] = p;
        sim::LibScope ls;
        meths[m]->overriders.push_back(*p);
    }
    void del_over(int m, int o) override {
        meths[m]->overriders.remove(*ovrs[m][o]);
        ovrs[m][o] = nullptr;
    }
    Report initialize(bool n2216) override {
        sim::LibScope ls;
        if (n2216) {
            auto c = bom::initialize<R>(bom::n2216());
            return {c.report.cells, c.report.not_implemented, c.report.ambiguous};
        }
        auto c = bom::initialize<R>();
        return {c.report.cells, c.report.not_implemented, c.report.ambiguous};
    }
    void finalize() override {
        sim::LibScope ls;
        bom::finalize<R>();
    }
    long call(int m, Obj* const* o) override {
        current = m;
        auto f = rows()[m].call;
        sim::LibScope ls;
        return f(o);
    }
    bool lookup(Obj* o) override {
        sim::LibScope ls;
        P p(*o);
        return p.get() == o && p.vptr() == sv[o->cls];
    }
    void hold(int slot, Obj* o) override {
        sim::HostScope hs;
        if (std::size_t(slot) >= held.size()) held.resize(slot + 1, P(nullptr));
        held[slot] = P(*o);
    }
    long call_held(int m, int slot) override {
        current = m;
        auto f = rows()[m].call_vp;
        sim::LibScope ls;
        return f(held[slot]);
    }
};
} // namespace
Driver* CAT(get_big_, REG)() {
    static D d;
    return &d;
}
} // namespace big
