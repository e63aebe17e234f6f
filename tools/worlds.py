# Which worlds decide which property, and how each world is built.
SIMFLAGS = ["-std=c++17", "-O1", "-g0", "-fno-lifetime-dse", "-DBOOST_ENABLE_ASSERT_HANDLER", "-w"]

LATTICE_CFGS = {
    "P01": [0, 3, 4, 2], "P02": [0, 3], "P03": [0, 2], "P04": [0, 2, 4, 9], "P05": [0, 3, 8], "P06": [0, 2, 6, 1],
    "P07": [3, 5, 6, 8], "P08": [0, 2, 4, 5], "P09": [0, 1, 2, 12, 3, 13, 4, 9, 5, 6], "P11": [0, 3, 5], "P12": [0, 1, 5], "P13": [0, 2, 5, 9],
    "P14": [0, 3], "P15": [0, 10], "P16": [7, 8, 11], "P17": [0, 2, 4, 8], "P19": [0, 3, 4, 2], "P20": [0, 2, 4, 9],
    "P21": [0, 4, 2, 6],
}

# world -> how to build it: list of (source, defines), extra compile flags, link flags
def build_spec(world, prop):
    if world == "lattice":
        tus = [("sim/sim.cpp", []), ("sim/worlds/lattice.cpp", [])]
        # P19: the compiler reports each memory access of the library to the simulator; unoptimized, so that none is merged away
        extra = ["-O0", "-fsanitize=thread"] if prop == "P19" else []
        tus += [("sim/worlds/lattice_cfg.cpp", ["-DCFG=%d" % c] + extra) for c in LATTICE_CFGS[prop]]
        return dict(tus=tus, flags=[], link=["-static", "-no-pie", "-Wl,-z,muldefs"], real=REAL_LATTICE, stub=STUB_LATTICE)
    if world in ("ptr", "ptr20"):
        flags = ["-std=c++20"] if world == "ptr20" else []
        return dict(tus=[("sim/sim.cpp", []), ("sim/worlds/ptr.cpp", ['-DWORLD_NAME="%s"' % world])] +
                    [("sim/worlds/ptr_reg.cpp", ["-DREG=%d" % r]) for r in range(3)],
                    flags=flags, link=["-static", "-no-pie", "-Wl,-z,muldefs"], real=REAL_PTR, stub=STUB_PTR)
    if world in ("fwd", "fwd20"):
        flags = ["-std=c++20"] if world == "fwd20" else []
        return dict(tus=[("sim/sim.cpp", []), ("sim/worlds/fwd.cpp", ['-DWORLD_NAME="%s"' % world])] +
                    [("sim/worlds/fwd_reg.cpp", ["-DREG=%d" % r]) for r in range(2)],
                    flags=flags, link=["-static", "-no-pie", "-Wl,-z,muldefs"], real=REAL_FWD, stub=STUB_FWD)
    if world == "mods":
        return dict(tus=[("sim/sim.cpp", []), ("sim/worlds/mods.cpp", [])] +
                    [("sim/worlds/mods_reg.cpp", ["-DREG=%d" % r]) for r in range(4)],
                    flags=["-fno-access-control"], link=["-static", "-no-pie", "-Wl,-z,muldefs"], real=REAL_MODS, stub=STUB_MODS)
    if world == "big":
        return dict(tus=[("sim/sim.cpp", []), ("sim/worlds/big.cpp", [])] + [("sim/worlds/big_reg.cpp", ["-DREG=%d" % r]) for r in range(3)],
                    flags=[], link=["-static", "-no-pie", "-Wl,-z,muldefs"], real=REAL_BIG, stub=STUB_BIG)
    if world == "stock":
        return dict(tus=[("sim/sim.cpp", []), ("sim/worlds/stock.cpp", []), ("sim/worlds/stock_mod.cpp", [])],
                    flags=["-fno-access-control"], link=["-static", "-no-pie", "-Wl,-z,muldefs"], real=REAL_STOCK, stub=STUB_STOCK)
    if world in SIMPLE:
        flags, real, stub = SIMPLE[world]
        return dict(tus=[("sim/sim.cpp", []), ("sim/worlds/%s.cpp" % world, [])], flags=flags,
                    link=["-static", "-no-pie", "-Wl,-z,muldefs"], real=real, stub=stub)
    raise KeyError(world)


REAL_LATTICE = ("boost::openmethod: initialize/compiler, v-tables and dispatch tables, method::operator(), next/has_next, "
                "virtual_ptr, policies vptr_vector, vptr_map, fast_perfect_hash, throw_error_handler, default_error_handler, "
                "runtime_checks, indirect_vptr, static_list catalogs")
STUB_LATTICE = ("rtti policy (type_ids and dynamic types supplied by the simulator), output policy (stream whose writes are "
                "counted and may fail), operator new/delete (simulated address layout and failures), abort, registration "
                "records built at run time by the simulator in place of static constructors")

REAL_PTR = ("boost::openmethod: virtual_ptr (plain, const, shared_ptr, shared_ptr<const>, unique_ptr, boost::intrusive_ptr), "
            "final_virtual_ptr, make_shared/unique/boost_intrusive_virtual, methods taking virtual_ptrs, initialize, finalize, registrars, "
            "std_rtti, vptr_vector, vptr_map, fast_perfect_hash, indirect_vptr, runtime_checks, throw_error_handler; real classes with "
            "multiple and virtual inheritance; libstdc++ and Boost smart pointers")
STUB_PTR = ("loading and unloading of modules (registration records constructed and destroyed at run time), constructors that throw "
            "where the simulator says, operator new/delete (simulated address layout and failures), abort")

REAL_FWD = ("boost::openmethod: method (operator(), fn, next, has_next, not_implemented and ambiguous overriders), thunks, virtual_traits and "
            "parameter casts of references, pointers, shared_ptr, unique_ptr, intrusive_ptr and virtual_ptrs to them; BOOST_OPENMETHOD macros; "
            "initialize, finalize, std_rtti, vptr_vector, vptr_map, fast_perfect_hash, indirect_vptr, runtime_checks, throw_error_handler; "
            "real classes with multiple and virtual inheritance; libstdc++ and Boost smart pointers")
STUB_FWD = ("overriders that throw, copies and moves that throw where the simulator says, operator new/delete (simulated address "
            "layout and failures), abort")

REAL_MODS = ("boost::openmethod: use_classes, method and overrider registrars of the library itself, inheritance maps, deferred resolution of "
             "type_ids, static_list catalogs, initialize, finalize, methods with 1-3 virtual parameters of every kind, next, has_next, n2216, "
             "covariant results (pointers, references, shared_ptr, virtual_ptr), std_rtti, vptr_vector, vptr_map, fast_perfect_hash, indirect_vptr, "
             "runtime_checks, throw_error_handler; real classes with multiple and virtual inheritance")
STUB_MODS = ("loading and unloading of modules (registrars constructed in zeroed memory and destroyed; static v-table pointers forgotten with the "
             "module's memory), custom rtti policies whose type_ids the simulator assigns, operator new/delete (simulated address layout and "
             "failures), abort")

REAL_BIG = ("boost::openmethod at scale (up to 430 classes, 184 methods of 1-4 virtual parameters, 330 overriders of one method): "
            "initialize/compiler, slots, v-tables and dispatch tables, method::operator(), next, error reporting, virtual_ptr, vptr_vector, "
            "vptr_map, fast_perfect_hash, indirect_vptr, runtime_checks")
STUB_BIG = ("rtti policy (type_ids supplied by the simulator), error handler that throws, operator new/delete (simulated address layout and "
            "failures), abort, registration records built at run time")

REAL_STOCK = ("boost::openmethod as shipped: default_registry, indirect_registry and registries made from them with with/without; std_rtti, "
              "vptr_vector, vptr_map, fast_perfect_hash, default_error_handler, throw_error_handler, runtime_checks, indirect_vptr, stderr_output "
              "and detail::ostderr; BOOST_OPENMETHOD macros in two translation units; boost_openmethod_vptr of the user; trace::from_env; initialize, "
              "finalize, virtual_ptr")
STUB_STOCK = ("file descriptor 2 (a memory file; full, closed, not writable), loading and unloading of a class with its overrider, the environment "
              "variable BOOST_OPENMETHOD_TRACE, operator new/delete (simulated address layout and failures), abort")

# worlds made of one source: extra flags, real code, stubs
SIMPLE = {
    "inplace": ([], "boost::openmethod: inplace_vptr_base/derived, registrars, methods, initialize, virtual_ptr, std_rtti, static_rtti, "
                "vptr_vector, vptr_map, fast_perfect_hash, indirect_vptr, runtime_checks; real classes with single and multiple inheritance",
                "constructors that throw where the simulator says, interleaving of constructions (fibers), operator new/delete, abort"),
}

# property -> [(world, quick runs, thorough runs)]
CHECKS = {p: [("lattice", 12000, 400000)] for p in LATTICE_CFGS}
CHECKS["P10"] = [("inplace", 12000, 400000)]
CHECKS["P07"] += [("inplace", 8000, 200000), ("ptr", 6000, 150000)]
CHECKS["P11"] = [("ptr", 16000, 500000), ("ptr20", 8000, 300000), ("lattice", 4000, 100000)]
CHECKS["P12"] = [("ptr", 14000, 500000), ("ptr20", 6000, 200000), ("lattice", 4000, 100000)]

CHECKS["P18"] = [("fwd", 14000, 500000), ("fwd20", 10000, 300000)]
CHECKS["P04"] += [("fwd", 6000, 150000)]

for p_ in ("P01", "P02", "P03", "P05", "P06", "P13", "P14", "P15", "P16", "P17"):
    CHECKS[p_] += [("mods", 6000, 200000)]

for p_ in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P14", "P15"):
    CHECKS[p_] += [("big", 1200, 60000)]

for p_ in ("P04", "P07", "P09", "P13", "P20", "P21"):
    CHECKS[p_] += [("stock", 4000, 200000)]

CHECKS["P13"] += [("inplace", 8000, 200000), ("ptr", 6000, 200000)]

RULES = {
    "*": "one case is one simulated run: a plan (operation list) generated from one seed and executed against real registries; "
         "it is non-trivial if the behaviour the property speaks of occurred at least once (probe list per property in the world's "
         "source), and distinct if its event log differs from every other run's",
}
ASSUMPTIONS = [
    "the reference model in the world's source states the property correctly",
    "x86-64 Linux, g++ 13, C++17, -O1, assertions enabled; one OS thread (interleavings are simulated at seams the library calls, for P19 also at memory accesses)",
    "a clean batch of seeded runs is evidence, not proof",
]
NOTES = {
    "*": "Seeded search over simulated runs of the real library against a reference model; a clean batch is evidence, not proof. "
         "Trusts the model and the simulator; single OS thread, g++ 13 at -O1, x86-64.",
}
SELFTEST = [("lattice", "P01")]
