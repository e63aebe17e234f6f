import json
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,obs,hook):
    over=[o.replace(' ','_') for o in over]
    st=[] if state=='none' else [dict(name=x.strip(),where=files[0]) for x in state.split(',')]
    me=[dict(name=mech,where=', '.join(files))]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,state=st,mechanism=me,observe_at=[obs],hook_needed=None if hook.startswith('none') else hook)))
I="include/boost/openmethod/"
p("P01","A method call runs the unique most specialised applicable overrider",
"After a successful initialize, calling a method runs exactly once the overrider that is applicable to the dynamic types of all virtual arguments and is not dominated by another applicable overrider (A dominates B if some virtual parameter of A is more derived than B's and none is less derived), for single, multiple and diamond inheritance, any number of virtual parameters and every parameter kind (virtual_ptr, const virtual_ptr&, virtual_<T&>, virtual_<T*>). The overrider receives the very objects and values passed by the caller and its return value is what the caller gets.",
["inputs","histories","schedules"],"for every class lattice, method set, overrider set, registration schedule, address/type_id layout and tuple of dynamic argument types",
"Tests fix a handful of small hierarchies with one registration order each; slot allocation, group compression and strides interact over the whole lattice and over all methods sharing a class.",
[I+"initialize.hpp",I+"core.hpp"],"v-tables, slots_strides, dispatch tables",
"compiler::assign_slots/build_dispatch_tables/select_dominant_overriders/write_global_data; method::resolve*","overrider body (which one ran, with which arguments) and value returned to the caller","none: custom rtti policy and public registration structs are the seams")
p("P02","Registration order, duplication and grouping do not change behaviour",
"Classes, methods and overriders may be registered in any order, classes several times and in any grouping that lists each class with its direct bases somewhere; once initialize has succeeded, which overrider, next overrider or error every call gets, and the report, depend only on the set of things registered. Without n2216 two registration schedules of the same set are observationally equal.",
["schedules","histories"],"for every permutation of static constructors / module loads registering the same set of classes, methods and overriders",
"A test binary has one link order, hence one registration order; order-dependent base closure or dominance elimination shows up only under other static-initialisation schedules.",
[I+"initialize.hpp",I+"detail/static_list.hpp"],"class and method catalogs (static_list), class_map, transitive_bases","compiler::augment_classes/augment_methods, select_dominant_overriders","calls, next chains, errors and report compared between schedules","none")
p("P03","next and has_next lead to the next most specialised overrider",
"In an overrider that was selected by a call, next invokes the most specialised overrider among those of the same method whose virtual parameters are all bases of (or same as, at least one strictly) its own, with the same arguments; if there is none it reports no_overrider, and if there is no single best one it reports ambiguous_call. has_next is true exactly when calling next would run an overrider, and following next repeatedly always terminates.",
["inputs","histories","schedules"],"for every overrider set and lattice, after any history of loads, unloads and re-initializations",
"Tests look at a few next calls in one configuration; next pointers are global state written as a side effect of building each dispatch cell, so the last cell processed wins.",
[I+"initialize.hpp",I+"core.hpp"],"method::next<Fn>","compiler::build_dispatch_table (next selection), write_global_data, method::has_next","chain of overriders run through next and has_next's answers","none")
p("P04","Bad calls are reported with exact details and run no overrider",
"A call for which no overrider is applicable reports exactly one no_overrider, and one for which there is no single best overrider exactly one ambiguous_call, before any overrider runs; the error carries the method's type_id, the number of virtual arguments, and the dynamic type_ids of the virtual arguments in order. If the handler throws, the exception reaches the caller and later calls behave normally; if it returns, the program is aborted.",
["inputs","schedules","fault sequences"],"for every lattice, overrider set, argument tuple, mix of virtual and non-virtual parameters and handler behaviour (throw or return) at any call, nested or not",
"Tests check two hard-coded bad calls with only virtual parameters; they never check what happens after the handler threw from a nested call.",
[I+"core.hpp",I+"preamble.hpp",I+"policies/throw_error_handler.hpp",I+"policies/default_error_handler.hpp"],"bad_call","method::fn_not_implemented/fn_ambiguous, detail::init_bad_call","error object received by the handler, exception at the call site, abort","none")
p("P05","Loading and unloading modules takes effect exactly at initialize",
"After any sequence of loading and unloading modules that add classes, methods and overriders (static constructors/destructors, dlopen/dlclose), a successful initialize makes dispatch, next and the report reflect exactly what is registered at that moment, with nothing left over from unloaded modules. Until the next initialize or finalize, calls on what remains loaded keep behaving as the last successful initialize left them, even if other modules were loaded meanwhile.",
["histories","schedules"],"for every interleaving of load, unload, initialize and finalize, on registries and with real shared libraries",
"Tests initialize once per process; stale entries, broken list links after removal at head/middle/tail, and leftovers of earlier tables need long histories.",
[I+"detail/static_list.hpp",I+"initialize.hpp",I+"core.hpp",I+"policies/vptr_vector.hpp",I+"policies/vptr_map.hpp"],"class/method/overrider lists, dispatch_data, policy tables","static registrars' constructors/destructors, compiler::initialize, registry::finalize","behaviour of calls after each step of the history","none")
p("P06","A failed initialize is contained and can be retried",
"If initialize is interrupted by an exception at any point (error handler throwing, memory exhaustion, output stream failure while tracing, hash search failure), it neither crashes nor loses registrations nor leaks; afterwards a registry with runtime_checks either still behaves as before the call or reports not_initialized on use, never anything else. A later initialize that is not interrupted succeeds and gives fully correct dispatch.",
["crash points","fault sequences","histories"],"for every allocation, output write or error report inside initialize at which it can fail, at the first or any later initialize",
"Tests never fail an allocation or a write inside initialize, nor look at the registry after an initialize that threw.",
[I+"initialize.hpp",I+"policies/vptr_vector.hpp",I+"policies/vptr_map.hpp",I+"policies/fast_perfect_hash.hpp",I+"preamble.hpp"],"dispatch_data, static_vptr, slots_strides, policy tables, initialized flag","compiler::install_global_tables/write_global_data, vptr policies' initialize","calls made after the failed initialize; result of the retry; live allocations","none: operator new, output policy and error handler are the seams")
p("P07","Indirect virtual_ptrs survive re-initialization",
"In a registry with the indirect_vptr policy, virtual_ptrs (plain and smart, copied, moved or cast, from any constructor or final construct) and objects with an inplace v-table pointer created before a re-initialize remain valid after it, however many modules were loaded or unloaded in between. Calls through them dispatch according to the latest successful initialize, exactly as calls through a freshly made virtual_ptr.",
["histories","schedules"],"for every history of creations, copies, loads, unloads and initializes and every vptr policy",
"Needs pointers carried across table rebuilds whose size and layout change; tests do it at most once.",
[I+"core.hpp",I+"inplace_vptr.hpp",I+"policies/vptr_vector.hpp",I+"policies/vptr_map.hpp",I+"initialize.hpp"],"virtual_ptr::vp, static_vptr, vptr tables","detail::box_vptr/unbox_vptr, vptr policies' dynamic_vptr, indirect storage","overrider run when calling through an old virtual_ptr, compared with a fresh one","none")
p("P08","Every registered type_id finds its own v-table, whatever its value",
"For any set of type_id values, including several ids for one class, dense small integers, clustered or aligned addresses, the configured vptr policy maps every registered type_id to its class's v-table and never to another's. With runtime_checks, looking up an object whose class is not registered reports missing_class carrying that type_id; if no perfect hash is found, initialize reports search_error instead of installing a colliding one.",
["inputs","schedules"],"for every layout of type_ids (link/load address layout, custom ids, aliases) and every history of re-initializations that grows or shrinks the set",
"Each test binary has a single address layout; the hash factor search, its range and its control table depend on the concrete ids.",
[I+"policies/fast_perfect_hash.hpp",I+"policies/vptr_vector.hpp",I+"policies/vptr_map.hpp",I+"initialize.hpp"],"hash factors, control table, vptr table","fast_perfect_hash::initialize/hash/check, vptr_vector, vptr_map","v-table acquired for an object; error reported","none")
p("P09","Registries are isolated from each other",
"Whatever is done to one registry (loading, unloading, initialize with success or failure, finalize, calls, error handler replacement) leaves the behaviour of every other registry unchanged, even when the same classes are registered in several of them with different policies. Registries that differ only by a policy keep separate catalogs, tables, hash factors and handlers.",
["histories","schedules"],"for every interleaving of operations on two or more registries with equal or different policies",
"Tests use one registry at a time; state shared by mistake between instantiations only shows when histories interleave.",
[I+"preamble.hpp",I+"policies/fast_perfect_hash.hpp",I+"policies/vptr_vector.hpp",I+"policies/vptr_map.hpp",I+"policies/default_error_handler.hpp"],"all registry and policy static state","static members templated on Registry","calls on the untouched registry before and after each operation on another","none")
p("P10","Embedded v-table pointers follow object construction and destruction",
"For classes using inplace_vptr_base/inplace_vptr_derived, a method called on an object during its life dispatches on the class whose constructor or destructor is running at that moment, and on its complete class between them, for single and multiple inheritance and through any of its bases. This also holds while a partially constructed object is unwound because a constructor threw, for objects made or assigned by copying or moving from (or slicing) others, and the v-table pointer is null after the root's destruction.",
["crash points","histories","schedules"],"for every class in the hierarchy, every point of construction or destruction at which a call is made or an exception is thrown, direct and indirect registries",
"Tests construct objects once and never throw from constructors between two base sub-objects.",
[I+"inplace_vptr.hpp",I+"core.hpp"],"boost_openmethod_vptr embedded pointers","inplace_vptr_base/inplace_vptr_derived constructors and destructors, boost_openmethod_update_vptr","class seen by an overrider called from constructors, destructors and in between","none")
p("P11","virtual_ptrs keep object and v-table in step and conserve ownership",
"Through any sequence of constructions, copies, moves, assignments, casts, null assignments and method calls by value or reference on plain, shared, unique and intrusive virtual_ptrs, each one refers to the expected object and carries that object's v-table pointer (null if it is null), and objects are destroyed exactly once, when the last owner goes. If an operation throws (unregistered class, registry not initialized), the target still holds a matching object and v-table pair and nothing is leaked.",
["inputs","histories","fault sequences"],"for every sequence of value operations over a pool of virtual_ptrs, with failures injected in v-table acquisition",
"Tests apply each operation once to fresh pointers with no failure; wrong order of updates or missed null checks needs sequences and throwing acquisitions.",
[I+"core.hpp",I+"interop/std_shared_ptr.hpp",I+"interop/std_unique_ptr.hpp",I+"interop/boost_intrusive_ptr.hpp"],"virtual_ptr::vp and obj, reference counts","virtual_ptr constructors, assignments, cast; virtual_traits::cast","get(), pointer(), vptr(), instance and reference counts","none")
p("P12","final constructs accept exact types only and skip no check",
"final_virtual_ptr, virtual_ptr::final and the make_*_virtual functions yield a virtual_ptr to the given object carrying the v-table of its static class, equivalent to one made by dynamic lookup. In a registry with runtime_checks, if the object's dynamic class differs from the static one they report final_error carrying both type_ids, and if the registry is not initialized they report not_initialized, and no virtual_ptr is produced.",
["inputs","histories"],"for every pair of static and dynamic class, id layout including several ids per class, and registry state",
"Tests check one mismatch in one state of one registry.",
[I+"core.hpp",I+"interop/std_shared_ptr.hpp",I+"interop/std_unique_ptr.hpp",I+"interop/boost_intrusive_ptr.hpp"],"static_vptr","final_virtual_ptr","v-table carried by the result, error reported","none")
p("P13","Use of an uninitialized or finalized registry is reported",
"With runtime_checks, calling a method, or constructing or assigning a virtual_ptr, before the first successful initialize or after finalize reports not_initialized and runs no overrider; if the handler throws, the registry is unharmed. finalize gives back all the memory that initialize allocated and can be repeated; a later initialize restores full service.",
["histories","fault sequences"],"for every position of initialize, finalize and uses in a history",
"Tests check the very first use only; none uses a registry after finalize or cycles initialize/finalize.",
[I+"preamble.hpp",I+"core.hpp",I+"initialize.hpp",I+"policies/fast_perfect_hash.hpp",I+"policies/vptr_vector.hpp",I+"policies/vptr_map.hpp"],"initialized flag, dispatch_data, policy tables","registry::require_initialized, registry::finalize, policies' finalize","errors reported, allocations alive after finalize","none: operator new/delete are the seam")
p("P14","n2216 resolves ambiguities by return type, then stably",
"With the n2216 option a call that would be ambiguous runs instead one of the undominated applicable overriders: if the method's return type is a registered class, one whose return type is not less specific than another's, and otherwise any one of them, the same on every call and on every re-run of the program. Unambiguous calls and missing overriders are resolved as without the option, an otherwise ambiguous next is resolved by the same rule, and initialize never crashes.",
["inputs","schedules"],"for every lattice, overrider set, assignment of covariant return types and address layout",
"Tests have one ambiguity with two overriders; elimination loops misbehave with three or more candidates in particular orders.",
[I+"initialize.hpp"],"dispatch tables","compiler::select_dominant_overriders under has_option<n2216>","overrider run for ambiguous tuples, repeated under different address layouts","none")
p("P15","The initialize report counts what calls will actually do",
"The report returned by initialize gives as not_implemented and ambiguous the number of methods having at least one combination of registered argument classes for which a call reports respectively no_overrider or ambiguous_call (without n2216), and as cells the total number of cells of the multi-method dispatch tables, i.e. the sum over multi-methods of the product over virtual parameters of the number of distinct sets of applicable overriders. In particular both counts are zero if and only if no call on registered classes can fail.",
["inputs","histories"],"for every lattice, method and overrider set, and every re-initialize in a history",
"Tests compare the report with constants for one small registry.",
[I+"initialize.hpp"],"compiler::report, method_report","compiler::build_dispatch_tables, accumulate","report fields compared with exhaustively called tuples","none")
p("P16","Deferred type_ids are read at initialize, never before",
"In a registry whose rtti policy derives from deferred_static_rtti, classes, methods and overriders may be registered while their type_ids are not yet assigned; the first initialize after a registration resolves its type_ids before using any of them. Dispatch, errors and next are then the same as if the ids had been known at registration.",
["schedules","histories"],"for every order of registration, id assignment, load, unload and initialize",
"Depends on static-initialisation order across translation units and on what was loaded since the previous initialize.",
[I+"core.hpp",I+"initialize.hpp",I+"preamble.hpp"],"deferred_class_info, deferred_method_info, deferred_overrider_info","resolve_type_ids calls in augment_classes/augment_methods","dispatch after ids assigned late or reassigned between initializes","none: the rtti policy is the seam")
p("P17","Missing registrations are reported by initialize",
"initialize reports missing_class carrying the type_id if a class used as a virtual parameter of a method or overrider, or as an overrider's return type when the method's is registered, is not registered, and missing_base with base set to the method's parameter class and derived to the overrider's if the latter is not registered as derived from the former; it reports an error only if such a fault exists. If the handler throws, what was installed by the previous initialize, if any, still works.",
["inputs","histories","fault sequences"],"for every subset of registrations left out and every state of the registry",
"Tests have one missing class and one missing base in a fresh registry and do not look at the error's contents.",
[I+"initialize.hpp",I+"preamble.hpp"],"class_map","compiler::augment_classes/augment_methods","error received by the handler; calls after the failed initialize","none")
p("P18","Arguments, results and exceptions pass through a call unchanged",
"A method call and next forward every argument to the overrider with its value category preserved: references refer to the caller's objects, values are moved and not copied more than by a direct call, move-only arguments arrive intact, smart pointers keep their owner count, virtual arguments are adjusted to the overrider's class also under multiple and virtual inheritance, and results are returned unchanged. An exception thrown by an overrider, or by copying an argument, propagates to the caller without leaks and leaves the registry fully usable.",
["inputs","fault sequences","schedules"],"for every parameter kind and position, nesting of calls, and point at which an overrider, a copy or an allocation fails",
"Tests call each signature once and never throw through the dispatch path.",
[I+"core.hpp",I+"interop/std_shared_ptr.hpp",I+"interop/std_unique_ptr.hpp",I+"interop/boost_intrusive_ptr.hpp"],"none","method::operator(), thunk::fn, parameter_traits/virtual_traits::cast","addresses, copy/move/destroy counts and values seen by overriders and callers","none")
p("P19","Interleaved callers do not affect each other",
"Once initialized, a registry is only read by method calls, virtual_ptr construction and lookups: calls made by several callers (threads, coroutines, or re-entrant calls from overriders, rtti callbacks and error handlers) and interleaved at any point each get the result and error they would get alone. A call allocates no memory and leaves the registry's state as it was.",
["schedules"],"for every interleaving of calls at the points where the library calls back into user code, with and without errors",
"Tests are sequential; per-call state cached in a static would only show when two calls overlap.",
[I+"core.hpp",I+"policies/vptr_vector.hpp",I+"policies/vptr_map.hpp",I+"policies/fast_perfect_hash.hpp"],"dispatch_data, policy tables (read only)","method::resolve*, acquire_vptr, dynamic_vptr","results and errors of each simulated caller compared with the model","none: rtti policy, error handler and overrider bodies are the yield points")
p("P20","Errors reach the handler in force, once, and then the program stops or unwinds",
"Every error is delivered exactly once to the error handler in force: with default_error_handler the function last installed by set, which returns the previous one, with the initial handler writing one line describing the error to the registry's output; with throw_error_handler an exception that can be caught as the specific error type or as std::runtime_error with that description. When the handler returns the program is aborted, and no library code runs past an error.",
["histories","fault sequences"],"for every kind of error, sequence of handler replacements and registry",
"Tests install one handler once and check one or two kinds of error.",
[I+"policies/default_error_handler.hpp",I+"policies/throw_error_handler.hpp",I+"preamble.hpp",I+"core.hpp"],"default_error_handler::fn::handler","error_handler::error followed by abort","handler invocations, output text, exception types, abort","none")
p("P21","Tracing is an observer",
"Passing trace to initialize, on or off, changes nothing in the tables installed, the errors reported or the report; nothing is written to the output when trace is off, and something is written when it is on. This holds for every registry and with any other option.",
["inputs","histories"],"for every registration set, with the trace option absent, off and on",
"Tests use trace only for manual inspection.",
[I+"initialize.hpp",I+"policies/fast_perfect_hash.hpp",I+"policies/stderr_output.hpp",I+"detail/ostdstream.hpp"],"output stream","trace_stream, has_trace","bytes written and behaviour compared with and without trace","none: the output policy is the seam")
p("P30","Ill-formed methods, overriders and virtual_ptrs are rejected at compile time",
"Methods without virtual parameters, virtual parameters of non-polymorphic class, overriders whose parameters do not match the method's, mixing registries, and repeated or inaccessible bases do not compile, and each well-formed combination does.",
["inputs"],"for every declaration",
"The space of declarations is unbounded; the tests compile a dozen.",
[I+"core.hpp",I+"interop/std_shared_ptr.hpp"],"none","static_asserts and enable_if","compiler diagnostics","none")
p("P31","Dispatch costs a constant number of memory loads",
"Dispatching through virtual_ptr costs two dependent loads plus one per extra virtual argument, independently of the number of classes, methods and overriders, and dispatch tables are compressed to one row or column per distinct set of applicable overriders.",
["inputs"],"for every registry",
"Tests do not measure cost.",
[I+"core.hpp",I+"initialize.hpp"],"dispatch tables","method::resolve*","generated code","none")
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    try: jsonschema.validate(x,s)
    except Exception as e: print(x["id"],e.message[:200])
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
