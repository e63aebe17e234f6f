#pragma once
#include "lattice.hpp"
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>
#include <cstring>
#include <map>

namespace lat {
namespace bom = boost::openmethod;

template<class R>
struct Env { // R: the registry<...> specialisation
    static Driver* drv;
};
template<class R>
Driver* Env<R>::drv;

template<class T>
inline char type_tag;
template<int M>
struct MethodTag {};

// ---- rtti seam
template<class T>
struct ClassIndex {
    static constexpr int value = -1;
};
template<int K>
struct ClassIndex<ObjC<K>> {
    static constexpr int value = K;
};

template<class Category>
struct sim_rtti_t : Category {
    template<class R>
    struct fn : bom::policies::rtti::defaults {
        template<class C>
        static constexpr bool is_polymorphic = std::is_base_of_v<Obj, C>;
        template<class C>
        static auto static_type() -> bom::type_id {
            if constexpr (ClassIndex<C>::value >= 0)
                return Env<R>::drv->ids.id[ClassIndex<C>::value][0];
            else
                return &type_tag<C>;
        }
        template<class C>
        static auto dynamic_type(const C& obj) -> bom::type_id {
            if constexpr (std::is_base_of_v<Obj, C>) {
                bom::type_id r;
                {
                    sim::HostScope hs;
                    host->seam(Env<R>::drv->reg, "dynamic_type");
                    r = Env<R>::drv->ids.id[obj.cls][obj.alias];
                }
                sim::Fibers::yield();
                return r;
            } else {
                return &type_tag<C>;
            }
        }
        template<class Stream>
        static void type_name(bom::type_id t, Stream& s) {
            int c = Env<R>::drv->ids.find_code(t);
            if (c >= 0) {
                char b[32];
                snprintf(b, sizeof b, "C%d.%d", c / MAXA, c % MAXA);
                s << static_cast<const char*>(b);
            } else
                s << "type";
        }
        static auto type_index(bom::type_id t) -> bom::type_id {
            int c = Env<R>::drv->ids.find_code(t);
            return c >= 0 ? Env<R>::drv->ids.id[c / MAXA][0] : t;
        }
        template<class D, class B>
        static auto dynamic_cast_ref(B&& o) -> D {
            return static_cast<D>(o);
        }
    };
};
using sim_rtti = sim_rtti_t<bom::policies::rtti>;
using sim_deferred_rtti = sim_rtti_t<bom::policies::deferred_static_rtti>;

// ---- output seam
template<class R>
struct SimStream {
    void put(const char* p, std::size_t n) {
        auto& d = *Env<R>::drv;
        if (d.out_fail_at >= 0 && d.out_fail_at-- == 0) {
            sim::count("fault.output-failure");
            throw OutputFault();
        }
        sim::HostScope hs;
        ++d.writes;
        d.out.append(p, n);
        if (d.out.size() > 8000) d.out.erase(0, 4000);
    }
    template<class T>
    SimStream& operator<<(const T& v) {
        if constexpr (std::is_convertible_v<const T&, const char*>) {
            const char* p = v;
            put(p, strlen(p));
        } else if constexpr (std::is_convertible_v<const T&, std::string_view>) {
            std::string_view s = v;
            put(s.data(), s.size());
        } else if constexpr (std::is_integral_v<T>) {
            char b[32];
            put(b, snprintf(b, sizeof b, "%lld", (long long)v));
        } else {
            put("*", 1);
        }
        return *this;
    }
};
struct sim_output : bom::policies::output {
    template<class R>
    struct fn {
        static inline SimStream<R> os;
    };
};

// ---- errors
template<class R>
struct Errs {
    static int code(bom::type_id t) { return Env<R>::drv->ids.find_code(t); }
    template<class E>
    static std::string text(const E& e) {
        std::ostringstream o;
        e.template write<R>(o);
        return o.str();
    }
    template<class E>
    static void common(Err& r, const char* kind, const E& e) {
        r.kind = kind;
        r.written = text(e);
    }
    static void fill(Err& r, const bom::not_initialized& e) { common(r, "not_initialized", e); }
    static void bad_call(Err& r, const bom::bad_call& e);
    static void fill(Err& r, const bom::no_overrider& e) {
        common(r, "no_overrider", e);
        bad_call(r, e);
    }
    static void fill(Err& r, const bom::ambiguous_call& e) {
        common(r, "ambiguous_call", e);
        bad_call(r, e);
    }
    static void fill(Err& r, const bom::missing_class& e) {
        common(r, "missing_class", e);
        r.ids = {code(e.type)};
    }
    static void fill(Err& r, const bom::missing_base& e) {
        common(r, "missing_base", e);
        r.ids = {code(e.base), code(e.derived)};
    }
    static void fill(Err& r, const bom::final_error& e) {
        common(r, "final_error", e);
        r.ids = {code(e.static_type), code(e.dynamic_type)};
    }
    static void fill(Err& r, const bom::odr_violation&) { r.kind = "odr_violation"; }
    static void fill(Err& r, const bom::policies::fast_perfect_hash::search_error& e) {
        common(r, "search_error", e);
        r.attempts = e.attempts;
        r.buckets = e.buckets;
    }
};

struct sim_handler : bom::policies::error_handler {
    template<class R>
    struct fn {
        template<class E>
        static void error(const E& e) {
            bool thr;
            std::string what;
            {
                sim::HostScope hs;
                Err r;
                Errs<R>::fill(r, e);
                thr = host->on_error(Env<R>::drv->reg, std::move(r), 0);
            }
            sim::Fibers::yield();
            if (thr) {
                sim::HostScope hs;
                throw SimThrow{"handled"};
            }
        }
    };
};

struct SimAccess {};
} // namespace lat

namespace boost::openmethod::detail {
template<class R>
struct use_class_aux<R, lat::SimAccess> {
    static auto& classes() { return R::classes; }
    static auto& methods() { return R::methods; }
};
} // namespace boost::openmethod::detail

namespace lat {

// ---- methods
template<class R>
using P = bom::virtual_ptr<Obj, R>;

template<class R>
using Sigs = boost::mp11::mp_list<
    long(P<R>),                                                    // 0
    long(bom::virtual_<Obj&>),                                     // 1
    long(int, bom::virtual_<Obj*>),                                // 2
    long(const P<R>&, int),                                        // 3
    long(P<R>, P<R>),                                              // 4
    long(bom::virtual_<const Obj&>, int, P<R>),                    // 5
    long(const P<R>&, bom::virtual_<Obj*>),                        // 6
    long(P<R>, bom::virtual_<Obj&>, P<R>),                         // 7
    long(int, bom::virtual_<Obj&>, int, bom::virtual_<const Obj&>, P<R>, int), // 8
    long(P<R>, const P<R>&, P<R>, P<R>),                           // 9
    long(P<R>, P<R>)                                               // 10
    >;

template<class R, int M>
struct MethodId;
template<class R, int M>
using Method = bom::method<MethodId<R, M>, boost::mp11::mp_at_c<Sigs<R>, M>, R>;

template<class R>
void Errs<R>::bad_call(Err& r, const bom::bad_call& e) {
    r.method = Env<R>::drv->method_of(e.method);
    r.arity = long(e.arity);
    for (std::size_t i = 0; i < e.arity && i < bom::bad_call::max_types; ++i) r.ids.push_back(code(e.types[i]));
}

// argument <-> C++ parameter
template<class R>
struct Pools {
    static inline std::map<int, P<R>*> vps;
};
template<class T, class R>
struct Conv;
template<class R>
struct Conv<P<R>, R> {
    static P<R> to(const Arg& a) {
        if (a.pool >= 0) return *Pools<R>::vps[a.pool];
        return P<R>(*a.obj);
    }
    static Arg from(const P<R>& p) { return {p.get(), -1, 0}; }
};
template<class R>
struct Conv<const P<R>&, R> : Conv<P<R>, R> {};
template<class R>
struct Conv<Obj&, R> {
    static Obj& to(const Arg& a) { return *a.obj; }
    static Arg from(Obj& o) { return {&o, -1, 0}; }
};
template<class R>
struct Conv<const Obj&, R> {
    static const Obj& to(const Arg& a) { return *a.obj; }
    static Arg from(const Obj& o) { return {const_cast<Obj*>(&o), -1, 0}; }
};
template<class R>
struct Conv<Obj*, R> {
    static Obj* to(const Arg& a) { return a.obj; }
    static Arg from(Obj* o) { return {o, -1, 0}; }
};
template<class R>
struct Conv<int, R> {
    static int to(const Arg& a) { return int(a.val); }
    static Arg from(int v) { return {nullptr, -1, v}; }
};
template<class T>
using Strip = bom::detail::remove_virtual_<T>;

template<class R, int M, int O, class Sig = boost::mp11::mp_at_c<Sigs<R>, M>>
struct Ovr;
template<class R, int M, int O, class... A>
struct Ovr<R, M, O, long(A...)> {
    static long fn(Strip<A>... a);
    static bool has_next() {
        sim::LibScope ls;
        return Method<R, M>::template has_next<&Ovr::fn>();
    }
    static bom::detail::unspecified dummy;
    static void (*raw_thunk())() { return reinterpret_cast<void (*)()>(&Ovr::fn); }
    static void (**raw_next())() { return reinterpret_cast<void (**)()>(&Method<R, M>::template next<&Ovr::fn>); }
    static long call(const Args& args) { return call_(args, std::index_sequence_for<A...>()); }
    template<std::size_t... I>
    static long call_(const Args& args, std::index_sequence<I...>) {
        return Method<R, M>::fn(Conv<Strip<A>, R>::to(args.a[I])...);
    }
};
template<class R, int M, int O, class... A>
long Ovr<R, M, O, long(A...)>::fn(Strip<A>... a) {
    sim::HostScope hs;
    Args args;
    args.a = {Conv<Strip<A>, R>::from(a)...};
    sim::Fibers::yield();
    return host->body(Env<typename R::registry_type>::drv->reg, M, O, args, &Ovr::has_next, [&]() -> long {
        sim::LibScope ls;
        return Method<R, M>::template next<&Ovr::fn>(std::forward<Strip<A>>(a)...);
    });
}

// ---- registration proxies
template<bool Deferred>
using class_base = std::conditional_t<Deferred, bom::detail::deferred_class_info, bom::detail::class_info>;
template<bool Deferred>
using ovr_base = std::conditional_t<Deferred, bom::detail::deferred_overrider_info, bom::detail::overrider_info>;
template<bool Deferred>
using meth_base = std::conditional_t<Deferred, bom::detail::deferred_method_info, bom::detail::method_info>;

inline Id id_of(const Ids& ids, int code) { return ids.id[code / MAXA][code % MAXA]; }

template<bool Deferred>
struct ClassProxy : class_base<Deferred> {
    NodeDef* def;
    const Ids* ids;
    Id bases[8];
    void resolve_type_ids() {
        this->type = ids->id[def->cls][def->alias];
        for (std::size_t i = 0; i < def->bases.size() && i < 8; ++i) bases[i] = id_of(*ids, def->bases[i]);
    }
};
template<bool Deferred>
struct MethProxy : meth_base<Deferred> {
    MethDef* def;
    const Ids* ids;
    Id params[MAXARITY], void_id;
    void* mid;
    void resolve_type_ids() {
        this->method_type_id = mid;
        this->return_type_id = def->ret < 0 ? void_id : id_of(*ids, def->ret);
        for (std::size_t i = 0; i < def->params.size(); ++i) params[i] = id_of(*ids, def->params[i]);
    }
};
template<bool Deferred>
struct OvrProxy : ovr_base<Deferred> {
    OvrDef* def;
    const Ids* ids;
    Id params[MAXARITY], void_id;
    void resolve_type_ids() {
        this->type = &type_tag<OvrProxy>;
        this->return_type = def->ret < 0 ? void_id : id_of(*ids, def->ret);
        for (std::size_t i = 0; i < def->params.size(); ++i) params[i] = id_of(*ids, def->params[i]);
    }
};

template<class R>
struct DriverT : Driver {
    using Base = typename R::registry_type;
    static constexpr bool D = R::has_deferred_static_rtti;
    using Acc = bom::detail::use_class_aux<Base, SimAccess>;
    Traits tr;
    NodeDef ndefs[128];
    MethDef mdefs[NMETH];
    OvrDef odefs[NMETH][NOVR];
    ClassProxy<D>* nodes[128];
    MethProxy<D>* meths[NMETH];
    OvrProxy<D>* ovrs[NMETH][NOVR];
    static inline void (*pf[NMETH][NOVR])();
    static inline void (**nx[NMETH][NOVR])();
    static inline long (*callers[NMETH])(const Args&);
    static inline bom::vptr_type* svptr[MAXC];

    explicit DriverT(Traits t) : tr(t) { Env<Base>::drv = this; }
    const Traits& traits() const override { return tr; }

    template<int M>
    void init_meth() {
        callers[M] = &Ovr<R, M, 0>::call;
        meths[M] = alloc<MethProxy<D>>();
        auto& real = Method<R, M>::fn;
        auto& p = *meths[M];
        p.slots_strides_ptr = real.slots_strides_ptr;
        p.not_implemented = real.not_implemented;
        p.ambiguous = real.ambiguous;
        p.mid = &type_tag<Method<R, M>>;
        init_ovrs<M>(std::make_index_sequence<NOVR>());
    }
    template<int M, std::size_t... O>
    void init_ovrs(std::index_sequence<O...>) {
        ((pf[M][O] = Ovr<R, M, O>::raw_thunk(), nx[M][O] = Ovr<R, M, O>::raw_next()), ...);
    }
    template<std::size_t... M>
    void init_meths(std::index_sequence<M...>) {
        (init_meth<M>(), ...);
    }
    template<std::size_t... K>
    void init_classes(std::index_sequence<K...>) {
        ((svptr[K] = &R::template static_vptr<ObjC<K>>), ...);
    }
    template<class T>
    T* alloc() {
        void* p = calloc(1, sizeof(T)); // like static storage: zero-initialised
        return new (p) T;
    }
    void reset() override {
        sim::HostScope hs;
        Env<Base>::drv = this;
        Acc::methods().clear();
        Acc::classes().clear();
        for (auto& n : nodes) n = nullptr;
        for (auto& m : ovrs)
            for (auto& o : m) o = nullptr;
        init_meths(std::make_index_sequence<NMETH>());
        init_classes(std::make_index_sequence<MAXC>());
        Pools<R>::vps.clear();
    }
    void load_class(int n, const NodeDef& def) override {
        sim::HostScope hs;
        ndefs[n] = def;
        auto p = alloc<ClassProxy<D>>();
        p->def = &ndefs[n];
        p->ids = &ids;
        p->first_base = p->bases;
        p->last_base = p->bases + std::min<std::size_t>(def.bases.size(), 8);
        p->is_abstract = def.abstract_;
        p->static_vptr = svptr[def.cls];
        if constexpr (D) {
            p->type = Id(0x5A5A5A5A00 + n);
            for (auto& b : p->bases) b = Id(0x5A5A5A5A5A);
        } else
            p->resolve_type_ids();
        nodes[n] = p;
        sim::LibScope ls;
        Acc::classes().push_back(*p);
    }
    void unload_class(int n) override {
        {
            sim::LibScope ls;
            Acc::classes().remove(*nodes[n]);
        }
        memset(static_cast<void*>(nodes[n]), 0xDD, sizeof *nodes[n]);
        nodes[n] = nullptr;
    }
    void load_method(int m, const MethDef& def) override {
        mdefs[m] = def;
        auto p = meths[m];
        p->def = &mdefs[m];
        p->ids = &ids;
        p->void_id = &type_tag<void>;
        p->vp_begin = p->params;
        p->vp_end = p->params + def.params.size();
        if constexpr (D) {
            p->method_type_id = p->return_type_id = Id(0x5A5A5A5A5A);
            for (auto& b : p->params) b = Id(0x5A5A5A5A5A);
        } else
            p->resolve_type_ids();
        sim::LibScope ls;
        Acc::methods().push_back(*p);
    }
    void unload_method(int m) override {
        sim::LibScope ls;
        Acc::methods().remove(*meths[m]);
    }
    void load_overrider(int m, int o, const OvrDef& def) override {
        sim::HostScope hs;
        odefs[m][o] = def;
        auto p = alloc<OvrProxy<D>>();
        p->def = &odefs[m][o];
        p->ids = &ids;
        p->void_id = &type_tag<void>;
        p->method = meths[m];
        p->next = nx[m][o];
        *p->next = nullptr;
        p->pf = pf[m][o];
        p->vp_begin = p->params;
        p->vp_end = p->params + def.params.size();
        if constexpr (D) {
            p->type = p->return_type = Id(0x5A5A5A5A5A);
            for (auto& b : p->params) b = Id(0x5A5A5A5A5A);
        } else
            p->resolve_type_ids();
        ovrs[m][o] = p;
        sim::LibScope ls;
        meths[m]->overriders.push_back(*p);
    }
    void unload_overrider(int m, int o) override {
        {
            sim::LibScope ls;
            static_cast<bom::detail::overrider_info*>(ovrs[m][o])->~overrider_info();
        }
        memset(static_cast<void*>(ovrs[m][o]), 0xDD, sizeof *ovrs[m][o]);
        ovrs[m][o] = nullptr;
    }
    int method_of(bom::type_id t) override {
        int r = -1;
        boost::mp11::mp_for_each<boost::mp11::mp_iota_c<NMETH>>([&](auto m) {
            if (t == &type_tag<Method<R, decltype(m)::value>>) r = decltype(m)::value;
        });
        return r;
    }
    template<class... Opts>
    static Report init_(Opts... o) {
        sim::LibScope ls;
        auto c = bom::initialize<R>(std::move(o)...);
        return {c.report.cells, c.report.not_implemented, c.report.ambiguous};
    }
    template<class... Opts>
    static Report init_lv(Opts... o) { // options passed as lvalues
        sim::LibScope ls;
        auto c = bom::initialize<R>(o...);
        return {c.report.cells, c.report.not_implemented, c.report.ambiguous};
    }
    Report initialize(int opts) override {
        if constexpr (R::has_output) {
            if (opts & 1) {
                if (opts & 16) {
                    if (opts & 4) return init_lv(bom::n2216(), bom::trace(opts & 2));
                    return init_lv(bom::trace(opts & 2));
                }
                if (opts & 4)
                    return opts & 8 ? init_(bom::n2216(), bom::trace(opts & 2)) : init_(bom::trace(opts & 2), bom::n2216());
                if (opts & 8) { // BOOST_OPENMETHOD_TRACE in the environment
                    static const char* const off[] = {nullptr, "0", "", "10", "11", "yes", " 1", "01"};
                    const char* v = opts & 2 ? "1" : off[(opts >> 5) & 7];
                    if (v) setenv("BOOST_OPENMETHOD_TRACE", v, 1);
                    else unsetenv("BOOST_OPENMETHOD_TRACE");
                    sim::count("trace.from_env");
                    return init_(bom::trace::from_env());
                }
                return init_(bom::trace(opts & 2));
            }
        }
        if (opts & 4) return opts & 16 ? init_lv(bom::n2216()) : init_(bom::n2216());
        return init_();
    }
    void finalize(int opts) override {
        sim::LibScope ls;
        if (opts & 1)
            bom::finalize<R>(bom::trace(opts & 2));
        else
            bom::finalize<R>();
    }
    long call(int m, const Args& args) override {
        sim::LibScope ls;
        return callers[m](args);
    }
    template<class E>
    static bool try_fill(Err& r) {
        try {
            throw;
        } catch (const E& e) {
            sim::HostScope hs;
            Errs<Base>::fill(r, e);
            return true;
        } catch (...) {
            return false;
        }
    }
    Err classify() override {
        sim::HostScope hs;
        Err r;
        try_fill<bom::not_initialized>(r) || try_fill<bom::no_overrider>(r) || try_fill<bom::ambiguous_call>(r) ||
            try_fill<bom::missing_class>(r) || try_fill<bom::missing_base>(r) || try_fill<bom::final_error>(r) ||
            try_fill<bom::odr_violation>(r) || try_fill<bom::policies::fast_perfect_hash::search_error>(r);
        try {
            throw;
        } catch (const std::runtime_error& e) {
            r.text = e.what();
            if (r.kind.empty()) r.kind = "runtime_error";
        } catch (const SimThrow& e) {
            if (r.kind.empty()) r.kind = "sim:" + e.what;
        } catch (const std::bad_alloc&) {
            r.kind = "bad_alloc";
        } catch (const OutputFault&) {
            r.kind = "output-fault";
        } catch (const std::exception& e) {
            if (r.kind.empty()) r.kind = std::string("std::exception ") + typeid(e).name();
        } catch (...) {
            if (r.kind.empty()) r.kind = "unknown exception";
        }
        return r;
    }

    // ---- virtual_ptr pool
    void put(int slot, const P<R>& v) {
        sim::HostScope hs;
        auto& s = Pools<R>::vps[slot];
        if (s)
            *s = v;
        else
            s = new P<R>(v);
    }
    P<R>& at(int slot) {
        sim::HostScope hs;
        auto& s = Pools<R>::vps[slot];
        if (!s) s = new P<R>(nullptr);
        return *s;
    }
    void vp_make(int slot, Obj* o, int how) override {
        auto& dst = at(slot);
        sim::LibScope ls;
        switch (how) {
        case 0: put(slot, P<R>(*o)); break;
        case 1: put(slot, P<R>(o)); break;
        case 2: dst = *o; break;
        default: dst = o; break;
        }
    }
    void vp_copy(int d, int s, int how) override {
        auto& dst = at(d);
        auto& src = at(s);
        sim::LibScope ls;
        switch (how) {
        case 0: {
            P<R> c(src);
            dst = c;
            break;
        }
        case 1: dst = src; break;
        case 2: {
            P<R> c(std::move(src));
            dst = std::move(c);
            break;
        }
        default: { // through a derived-class view of the same object
            if (src.get()) {
                auto c = src.template cast<ObjC<0>>();
                dst = c;
            } else
                dst = src;
            break;
        }
        }
    }
    template<int K>
    static void fin(DriverT& d, int slot, Obj* o, int how) {
        auto& obj = static_cast<ObjC<K>&>(*o);
        auto& dst = d.at(slot);
        sim::LibScope ls;
        if (how == 0)
            dst = bom::virtual_ptr<ObjC<K>, R>::final(obj);
        else if (how == 1)
            dst = bom::final_virtual_ptr<R>(obj);
        else
            dst = P<R>::final(obj);
    }
    template<std::size_t... K>
    static auto fins(std::index_sequence<K...>) {
        static constexpr void (*t[])(DriverT&, int, Obj*, int) = {&fin<K>...};
        return &t[0];
    }
    void vp_final(int slot, Obj* o, int cls, int how) override { fins(std::make_index_sequence<MAXC>())[cls](*this, slot, o, how); }
    void vp_null(int slot, int how) override {
        auto& dst = at(slot);
        sim::LibScope ls;
        if (how == 0)
            dst = nullptr;
        else
            put(slot, P<R>(nullptr));
    }
    void vp_destroy(int slot) override {
        sim::HostScope hs;
        auto i = Pools<R>::vps.find(slot);
        if (i != Pools<R>::vps.end()) {
            delete i->second;
            Pools<R>::vps.erase(i);
        }
    }
    const void* vp_obj(int slot) override { return at(slot).get(); }
    bool vp_vptr_is(int slot, int cls) override { return at(slot).vptr() == *svptr[cls]; }
    bool vp_vptr_null(int slot) override { return at(slot).vptr() == nullptr; }
    bool lookup_ok(Obj* o) override {
        sim::LibScope ls;
        P<R> p(*o);
        return p.get() == o && p.vptr() == *svptr[o->cls];
    }
    int set_handler(int n) override {
        using EH = typename R::error_handler;
        if constexpr (std::is_same_v<EH, bom::policies::default_error_handler::fn<Base>>) {
            struct H {
                int n;
                void operator()(const typename EH::error_variant& v) const {
                    bool thr;
                    {
                        sim::HostScope hs;
                        Err r;
                        std::visit([&](auto& e) { Errs<Base>::fill(r, e); }, v);
                        thr = host->on_error(Env<Base>::drv->reg, std::move(r), n);
                    }
                    sim::Fibers::yield();
                    if (thr) {
                        sim::HostScope hs;
                        throw SimThrow{"handled"};
                    }
                }
            };
            sim::LibScope ls;
            typename EH::function_type old;
            if (n == 0)
                old = EH::set(&EH::default_handler);
            else
                old = EH::set(H{n});
            if (auto h = old.template target<H>()) return h->n;
            if (old) return 0;
            return -2;
        } else
            return -1;
    }
};

} // namespace lat
