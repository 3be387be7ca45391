#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
I = "include/boost/openmethod/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A method call runs exactly the most specialised applicable overrider",
 "After initialization, calling a method with any tuple of objects of registered classes runs exactly one overrider, once, and returns its result: the one that remains after discarding, from all overriders applicable to the dynamic types of the virtual arguments, every overrider dominated by another applicable one. This holds for any number of virtual arguments, any position among non-virtual ones, any number of methods sharing the classes, and any class lattice including multiple and virtual inheritance.",
 ["programs", "inputs"], "For every registered class lattice, set of methods and overriders, and every tuple of dynamic types for which exactly one overrider remains.",
 "The tests call a few dozen hand-picked tuples on four or five fixed hierarchies; slot allocation, grouping and strides depend on the whole lattice and on which other methods exist.",
 [I+"initialize.hpp", I+"core.hpp"],
 [("class lattice reconstruction", I+"initialize.hpp: compiler::augment_classes"), ("v-table slot allocation", I+"initialize.hpp: assign_slots / assign_tree_slots / assign_lattice_slots"), ("grouping, strides, cell selection", I+"initialize.hpp: build_dispatch_tables, select_dominant_overriders"), ("table emission", I+"initialize.hpp: write_global_data"), ("table lookup at call", I+"core.hpp: method::resolve_uni / resolve_multi_first / resolve_multi_next")],
 ["overrider bodies (which ran, how often, with which objects)", "call return value"],
 [("slots_strides", "per-method slots and strides", I+"core.hpp: method"), ("dispatch_data", "all v-tables and dispatch tables of a registry", I+"preamble.hpp: registry")])

prop("C02", "A call without a unique best overrider is reported, never mis-dispatched",
 "If no overrider applies to the arguments' dynamic types, the call reports a no-overrider error; if several apply and none is left as the single most specialised one, it reports an ambiguity; no overrider body runs in either case. The report names the called method, the number of virtual arguments and, in order, the dynamic type of each virtual argument; if the error handler returns, the program aborts, and if it throws, the exception reaches the caller and later calls behave as if the bad call had not happened.",
 ["inputs", "programs", "histories"], "For every class lattice, overrider set and argument tuple with zero or several remaining overriders, for every error handler behaviour (returns, throws), and any later calls.",
 "Tests trigger one missing and one ambiguous cell per hierarchy; distinguishing empty, ambiguous and dominated cells depends on every combination of overriders.",
 [I+"initialize.hpp", I+"core.hpp", I+"preamble.hpp"],
 [("selection of the error cell", I+"initialize.hpp: build_dispatch_table"), ("error thunks", I+"core.hpp: method::fn_not_implemented, fn_ambiguous, detail::init_bad_call")],
 ["error handler argument", "process termination signal", "overrider bodies"])

prop("C03", "Calling next runs the next most specialised overrider, or reports",
 "From inside an overrider, next() runs the overrider that would be selected if the current one did not exist, with the same arguments, and reports a no-overrider or ambiguity error when there is none or no single one; has_next() is true exactly when calling next() would run an overrider. Chains of next() always terminate and never enter an overrider whose parameters do not accept the actual arguments.",
 ["programs", "inputs"], "For every class lattice, overrider set, overrider and argument tuple that reaches it, and every chain of next() calls.",
 "One pointer per overrider must be right for every tuple that can reach it; tests follow one or two chains in single-inheritance hierarchies.",
 [I+"initialize.hpp", I+"core.hpp"],
 [("next selection per overrider", I+"initialize.hpp: build_dispatch_table, write_global_data ('Setting next pointers')"), ("has_next/next", I+"core.hpp: method::next, method::has_next"), ("macro-level next", I+"macros.hpp")],
 ["overrider bodies along the chain", "has_next() results", "error handler"])

prop("C04", "Behaviour does not depend on registration order, grouping or repetition",
 "Which overrider or error any call, next() or has_next() produces, and what the initialization report says, depends only on the set of registered class-base relations, methods and overriders. It does not change with the order in which they were registered, with how classes are grouped or repeated across registrations (as long as each class appears with each of its direct bases in at least one), or with the order in which translation units are initialized.",
 ["programs", "configurations"], "For every program and every two registration orders and groupings of the same classes, methods and overriders.",
 "Tests register classes once in one order; order and grouping effects on lattice reconstruction and overrider elimination need permutations.",
 [I+"initialize.hpp", I+"core.hpp", I+"detail/static_list.hpp"],
 [("merging registrations into one lattice", I+"initialize.hpp: augment_classes, collect_transitive_bases, calculate_transitive_derived"), ("order-free elimination", I+"initialize.hpp: select_dominant_overriders"), ("class registration", I+"core.hpp: use_classes / use_class_aux")],
 ["outcome of every call tuple under permuted registrations", "report"])

prop("C05", "Re-initializing after any history equals a fresh start",
 "After any sequence of initialize, finalize, failed initialization, and adding or removing classes, methods and overriders, a successful initialize leaves calls, next(), has_next(), error reports and the returned report exactly as a first initialize of the current registrations would. Removed registrations have no further influence and re-added ones count once.",
 ["histories"], "For every sequence of registrations, removals, initialize and finalize calls.",
 "Tests initialize once or twice; stale table, hash, map and next-pointer state only shows after specific histories.",
 [I+"initialize.hpp", I+"detail/static_list.hpp", I+"policies/vptr_vector.hpp", I+"policies/vptr_map.hpp", I+"policies/fast_perfect_hash.hpp"],
 [("intrusive registration lists", I+"detail/static_list.hpp: push_back, remove"), ("rebuild from scratch", I+"initialize.hpp: compiler"), ("policy state refresh", I+"policies/*.hpp: initialize/finalize")],
 ["outcomes after each initialize compared with the model of current registrations"])

prop("C06", "The initialization report tells whether bad calls are possible",
 "The report returned by initialize counts, over all methods, those that have at least one combination of registered classes with no applicable overrider, and those that have at least one ambiguous combination; so both counters are zero exactly when no combination of registered classes (abstract ones included) would make a bad call. With the N2216 option, a combination that return types resolve to a single overrider does not count as ambiguous; the other counts are the same. The cell count is the total size of the multi-method dispatch tables: per method, the product over virtual parameters of the number of sets of overriders that classes can select on that parameter.",
 ["programs"], "For every class lattice and set of methods and overriders.",
 "Tests check the counters on a handful of hierarchies.",
 [I+"initialize.hpp"],
 [("per-method and total report", I+"initialize.hpp: build_dispatch_tables, accumulate")],
 ["initialize(...).report"])

prop("C07", "The ambiguity-resolution option picks one most specific result, consistently",
 "When initialized with the N2216 option, an ambiguous call runs one of the remaining overriders instead of reporting: if the method returns a registered class, one whose return type is not less specific than another remaining overrider's; and the choice is the same for every call with the same dynamic types. Calls that are not ambiguous, and calls without any applicable overrider, behave as without the option.",
 ["programs", "inputs"], "For every class lattice, overrider set, covariant return type assignment and argument tuple.",
 "The tests cover one matrix example; return-type elimination interacts with every set of tied overriders.",
 [I+"initialize.hpp", I+"preamble.hpp"],
 [("return-type tie-break", I+"initialize.hpp: select_dominant_overriders (n2216 branch), augment_methods (covariant_return_type)")],
 ["overrider bodies", "repeat calls"])

prop("C08", "Initialization rejects exactly the inconsistent registrations",
 "initialize reports a missing-class error naming an unregistered class when a class used as a virtual parameter of a method or overrider (or as an overrider's covariant return type) is not registered, and a missing-base error naming the method parameter's class as base and the overrider parameter's class as derived when registrations do not connect them. It reports no error for any consistent set of registrations.",
 ["programs", "fault_sequences"], "For every set of class, method and overrider registrations, consistent or with any number of missing classes or missing base links, in any parameter position.",
 "Tests omit one class or link in one position.",
 [I+"initialize.hpp", I+"preamble.hpp"],
 [("lookups during initialization", I+"initialize.hpp: augment_classes, augment_methods")],
 ["error handler argument during initialize"])

prop("C09", "Type hashing is collision-free on registered ids and rejects all others",
 "For every set of distinct type ids that initialization accepts, the hash maps registered ids to distinct indices inside the announced range, so each object finds its own class's v-table; with runtime checks any other id is reported as a missing class naming that id instead of yielding a v-table. If no hash is found, a search error stating the attempts made and the number of buckets last tried is reported, and only if working hash factors are rare; initialization always terminates.",
 ["inputs", "histories"], "For every set of type ids (clustered, sparse, aligned, colliding), every unregistered probe id, and every history of re-initialization with other sets.",
 "Tests hash a few linker-chosen addresses and one failing set.",
 [I+"policies/fast_perfect_hash.hpp", I+"policies/vptr_vector.hpp"],
 [("multiplicative hash search", I+"policies/fast_perfect_hash.hpp: fn::initialize"), ("control table check", I+"policies/fast_perfect_hash.hpp: fn::check")],
 ["hash(id) for registered and probe ids", "announced range", "reported errors"],
 [("mult/shift/min/max", "hash parameters", I+"policies/fast_perfect_hash.hpp: fn")])

prop("C10", "Every policy and argument form leads to the same overrider",
 "The same program gives the same dispatch results whichever shipped strategy locates v-tables (vector, hashed vector, maps, direct or indirect, embedded in the object), whichever RTTI is used (standard, static, custom, deferred), and whichever way an object is passed as a virtual argument (reference, pointer, rvalue, virtual_ptr, smart pointer, const or not). The v-table found dynamically for an object is the one published statically for its class.",
 ["configurations", "programs", "inputs"], "For every program, registry configuration built from the shipped policies, and way of passing each virtual argument.",
 "Each test uses one configuration and one or two argument forms; the cross product is not compared.",
 [I+"policies/vptr_vector.hpp", I+"policies/vptr_map.hpp", I+"policies/std_rtti.hpp", I+"policies/static_rtti.hpp", I+"core.hpp", I+"default_registry.hpp", I+"preamble.hpp"],
 [("vptr acquisition", I+"core.hpp: detail::acquire_vptr, method::vptr"), ("vptr policies", I+"policies/vptr_vector.hpp, vptr_map.hpp: dynamic_vptr"), ("policy substitution", I+"preamble.hpp: registry::with / without")],
 ["overrider bodies per configuration", "virtual_ptr::vptr() against static_vptr"])

prop("C11", "With indirect v-table pointers, a virtual_ptr survives re-initialization",
 "When the registry uses indirect v-table pointers, every virtual_ptr (plain, smart or made for a known dynamic type) and every object with an embedded v-table pointer that was created before a re-initialization stays usable after it, and calls through it dispatch according to the newest initialization.",
 ["histories"], "For every interleaving of virtual_ptr creation, copy, cast and assignment with registration changes and re-initialization.",
 "Tests re-initialize once with one pointer.",
 [I+"core.hpp", I+"inplace_vptr.hpp", I+"policies/vptr_vector.hpp", I+"policies/vptr_map.hpp"],
 [("boxed vptr", I+"core.hpp: detail::box_vptr / unbox_vptr"), ("reference-returning lookup", I+"policies: dynamic_vptr returns const vptr_type&")],
 ["outcome of calls through old pointers", "vptr() of old pointers vs static_vptr"])

prop("C12", "A virtual_ptr always pairs an object with that object's own v-table",
 "After any sequence of construction from references, pointers or other virtual_ptrs, copies, assignments, up- and down-casts and resets, a non-null plain virtual_ptr designates exactly the (sub)object a raw pointer put through the same operations would, with the v-table of that object's dynamic class. A virtual_ptr set to null has null object and null v-table, and comparison agrees with comparison of the raw pointers.",
 ["histories", "inputs"], "For every sequence of value operations over objects of any class in the hierarchy, including multiple and virtual inheritance, const and non-const, direct and indirect registries.",
 "Tests apply each operation once from a fresh state.",
 [I+"core.hpp"],
 [("pairing in every constructor and assignment", I+"core.hpp: virtual_ptr (primary template)")],
 ["get(), vptr(), operator==, and dispatch through the pointer"])

prop("C13", "Smart virtual_ptrs keep ownership exact and pair it with the right v-table",
 "A virtual_ptr holding a shared, unique or intrusive pointer owns its object exactly as that smart pointer would after the same operations: objects live while owned, are destroyed exactly once, and reference counts match, including through method calls, casts, upcasts and moves. A smart virtual_ptr that owns an object carries that object's v-table; one that is default constructed, built or assigned from null, or moved from is null with a null v-table.",
 ["histories", "inputs"], "For every sequence of construct, copy, move, assign, cast, reset and method-call operations over the three smart pointer families, with null and non-null sources, over objects of any class.",
 "Tests exercise each operation once with a non-null pointer and one class.",
 [I+"core.hpp", I+"interop/std_shared_ptr.hpp", I+"interop/std_unique_ptr.hpp", I+"interop/boost_intrusive_ptr.hpp"],
 [("smart pointer specialisation", I+"core.hpp: virtual_ptr<SmartPtr, Registry, ...>"), ("traits", I+"interop/*.hpp: virtual_traits::peek/cast/rebind, make_*_virtual")],
 ["live object set", "use counts", "get(), vptr()"])

prop("C14", "An embedded v-table pointer always matches the object's current class",
 "For classes that embed their v-table pointer, at every moment of an object's life (each phase of construction and destruction, after copying, moving, slicing or assigning from any object) a method called on it dispatches on the class the object currently is, like a C++ virtual call would. This holds for single and multiple inheritance, every base subobject, and direct and indirect registries.",
 ["histories", "programs"], "For every hierarchy using embedded v-table pointers, and every sequence of construction, copy, assignment, slicing and destruction.",
 "Tests observe one chain of constructors and destructors and never copy or assign.",
 [I+"inplace_vptr.hpp"],
 [("vptr update per phase", I+"inplace_vptr.hpp: inplace_vptr_base / inplace_vptr_derived constructors and destructors, boost_openmethod_update_vptr")],
 ["method calls from constructors/destructors and on every subobject", "embedded vptr vs static_vptr"])

prop("C15", "With runtime checks, misuse is reported instead of using a wrong v-table",
 "In a registry with runtime checks, calling a method or making a virtual_ptr before initialization or after finalization reports not-initialized; using an object of an unregistered class reports a missing class naming its dynamic type; and claiming a dynamic type that the object does not have reports a final-type error naming both types. Each error is reported at the offending operation, before any table is read or overrider run, and correct uses are never reported.",
 ["inputs", "histories", "configurations"], "For every entry point (call, virtual_ptr construction and assignment, final construction, smart pointer factories), v-table strategy, and registered, unregistered and mistyped object, before, between and after initializations.",
 "Tests probe a few entry points with one strategy.",
 [I+"core.hpp", I+"preamble.hpp", I+"policies/vptr_vector.hpp", I+"policies/vptr_map.hpp", I+"policies/fast_perfect_hash.hpp"],
 [("initialized flag", I+"preamble.hpp: registry::require_initialized"), ("class checks", I+"policies/*.hpp: dynamic_vptr, hash, check"), ("final check", I+"core.hpp: final_virtual_ptr")],
 ["error handler argument", "termination", "sanitizer reports"])

prop("C16", "Overriders receive exactly the caller's arguments, suitably cast",
 "Each virtual argument reaches the overrider (and every overrider reached by next) as the same object, adjusted to the subobject the overrider's parameter names even under multiple or virtual inheritance, with its const-ness and value category kept and without copying the object. A smart pointer passed by constant reference is the caller's own, not a copy, unless it must be converted. Non-virtual arguments arrive with the same value or identity, move-only values are moved and never copied, and return values (including references) and exceptions reach the caller unchanged.",
 ["programs", "inputs"], "For every hierarchy shape, parameter kind, argument position, mix of virtual and non-virtual parameters and return type.",
 "Tests check pointer identity in a few single-inheritance cases.",
 [I+"core.hpp", I+"interop/std_shared_ptr.hpp", I+"interop/std_unique_ptr.hpp", I+"policies/std_rtti.hpp"],
 [("thunk and traits casts", I+"core.hpp: method::thunk::fn, virtual_traits::cast, detail::optimal_cast, parameter_traits")],
 ["addresses and values seen inside overriders", "copy/move counters", "returned references"])

prop("C17", "Dispatch from many threads is race-free after initialization",
 "Once initialization has returned, any number of threads can concurrently call methods, use next and has_next, create, copy and destroy virtual_ptrs of every kind, construct and destroy objects with embedded v-table pointers and raise bad calls, without data races and with the same results as sequential execution. Initializing or using one registry concurrently with another does not race either.",
 ["schedules"], "For every interleaving of calls from several threads, with another registry being (re)initialized at the same time.",
 "The test suite has no threads.",
 [I+"core.hpp", I+"initialize.hpp", I+"policies/vptr_map.hpp", I+"policies/fast_perfect_hash.hpp", I+"policies/vptr_vector.hpp"],
 [("read-only tables after initialize", I+"core.hpp: method::resolve; policies: dynamic_vptr"), ("per-registry state", I+"preamble.hpp: registry static members")],
 ["ThreadSanitizer reports", "per-thread results"])

prop("C18", "Registries are isolated from each other",
 "Registering, initializing, re-initializing, finalizing, changing the error handler of, or failing in one registry never changes the results, errors, reports or v-tables of another registry, even when the same C++ classes, function names and policies are used in both (registries derived from the same registry<...> type share their state by design).",
 ["histories", "configurations"], "For every interleaving of operations on several registries sharing classes and policies.",
 "Tests put one registry per program and rarely interleave two.",
 [I+"preamble.hpp", I+"initialize.hpp", I+"policies/vptr_vector.hpp", I+"policies/vptr_map.hpp", I+"policies/fast_perfect_hash.hpp", I+"policies/default_error_handler.hpp"],
 [("state templated on the registry", I+"preamble.hpp: registry static members; policies: fn<Registry>")],
 ["outcomes in registry A across operations on registry B"])

prop("C19", "Loading and unloading shared libraries keeps dispatch consistent",
 "After a shared library that adds classes, methods or overriders is loaded or unloaded and initialize is called again, every call in the program and in the remaining libraries behaves as if the program had been built with exactly the libraries now loaded. Unloaded overriders are never called again and no reference into unloaded memory remains in use.",
 ["histories", "configurations"], "For every sequence of loading and unloading of libraries followed by re-initialization, direct and indirect registries.",
 "The shared-library examples load one library and exit.",
 [I+"core.hpp", I+"preamble.hpp", I+"initialize.hpp", I+"detail/static_list.hpp"],
 [("registration in static constructors/destructors", I+"core.hpp: use_class_aux, method, override_impl; "+I+"preamble.hpp: overrider_info destructor")],
 ["outcomes after each dlopen/dlclose + initialize"])

prop("C20", "Every error reaches the installed handler exactly once, with its content",
 "Each error detected by the library is passed exactly once to the error handler currently installed in that registry, as the documented error type with its documented content, before anything else happens; installing a handler returns the previous one and takes effect for the next error. The default handler writes one description line to the registry's output, the throwing handler throws an exception that is both the error type and a standard runtime error with that description, and the program aborts if a handler returns.",
 ["histories", "configurations", "inputs"], "For every error kind, handler configuration (default, custom, throwing, none) and sequence of handler replacements.",
 "Tests cover some error kinds with one handler each.",
 [I+"policies/default_error_handler.hpp", I+"policies/throw_error_handler.hpp", I+"preamble.hpp", I+"core.hpp"],
 [("handler dispatch", I+"policies/default_error_handler.hpp: error, set, default_handler"), ("throwing handler", I+"policies/throw_error_handler.hpp")],
 ["handler invocations", "captured output", "exception type and what()", "termination signal"])

prop("C21", "Tracing never changes behaviour and is silent unless enabled",
 "Initializing with the trace option, on or off, yields the same dispatch results, errors, next chains and report as without it. Output is produced by initialize only when tracing is on, the environment-controlled form is on exactly when the environment variable is \"1\", and traced output mentions every registered class and method.",
 ["programs", "configurations"], "For every program, option combination and environment value.",
 "No test initializes the same program with and without trace and compares.",
 [I+"initialize.hpp", I+"preamble.hpp", I+"policies/fast_perfect_hash.hpp"],
 [("trace stream guards", I+"initialize.hpp: detail::trace_stream"), ("environment", I+"preamble.hpp: trace::from_env")],
 ["registry output", "outcomes with and without trace"])

prop("C22", "Mixing conflicting default registries in one program is detected",
 "If translation units of one program see different definitions of the default registry, initialize reports an ODR-violation error through the error handler and the program terminates (or the handler throws) instead of running with split registrations; if all agree, no such error is ever reported, whatever the number of translation units and other registries.",
 ["configurations", "programs"], "For every combination of translation units built with and without runtime checks or custom default registries, and any number of other registries.",
 "One test links one mixed and none of the consistent multi-unit configurations.",
 [I+"preamble.hpp", I+"default_registry.hpp", I+"initialize.hpp"],
 [("definition counter", I+"preamble.hpp: detail::odr_check"), ("check at initialize", I+"initialize.hpp: initialize")],
 ["error handler", "termination"])

prop("C23", "The whole life cycle is free of memory errors, UB and leaks",
 "No registration, initialization, call, next, error report, re-initialization, finalization, unregistration or program exit, in any order the documentation allows, reads or writes memory it does not own, uses freed memory, invokes undefined behaviour, or leaks memory that repeated initialize/finalize cycles would accumulate.",
 ["histories", "programs", "inputs"], "For every documented sequence of operations on any program.",
 "The tests are not run under sanitizers and table sizes depend on the lattice.",
 [I+"initialize.hpp", I+"core.hpp", I+"preamble.hpp", I+"policies/vptr_vector.hpp", I+"policies/vptr_map.hpp", I+"policies/fast_perfect_hash.hpp", I+"detail/static_list.hpp"],
 [("table sizing and emission", I+"initialize.hpp: write_global_data, assign_slots"), ("finalize", I+"initialize.hpp: registry::finalize")],
 ["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer", "allocation balance across cycles"])

prop("C24", "Methods and overriders shared by many translation units act as one",
 "Methods declared in headers included by many translation units, in any namespaces, with overriders defined through any of the library's macros or the core interface, behave as one program-wide method: every overrider participates exactly once no matter how many units see its declaration, overloaded methods of the same name stay distinct, and naming an overrider explicitly calls that very one.",
 ["programs", "configurations"], "For every distribution of declarations, inline and out-of-line overriders, namespaces and class registrations over translation units, in any link order.",
 "Tests are single-unit, except for two small examples.",
 [I+"macros.hpp", I+"core.hpp"],
 [("macro-generated methods, containers and guides", I+"macros.hpp"), ("registration deduplication", I+"core.hpp: override_impl")],
 ["overrider bodies", "report"])

prop("C25", "A class known under several type ids is still one class",
 "When the RTTI policy gives one class several type ids that it declares to be the same type, objects presenting any of the registered ids dispatch identically, registrations under different ids merge into one class with all its bases, and errors and v-tables refer to that one class.",
 ["programs", "configurations", "inputs"], "For every assignment of one or more ids to classes, and every split of registrations, method and overrider declarations over the ids.",
 "No test uses more than one type id per class except one fixed example.",
 [I+"initialize.hpp", I+"policies/std_rtti.hpp", I+"policies/vptr_vector.hpp", I+"policies/vptr_map.hpp", I+"policies/fast_perfect_hash.hpp"],
 [("merge by type index", I+"initialize.hpp: augment_classes (class_map)"), ("all ids published", I+"policies: initialize loops over type_id_begin/end")],
 ["outcome per id"])

prop("C26", "A failed initialization can be corrected and retried",
 "If initialize reports an error through a handler that throws (inconsistent registrations or a failed hash search), the exception reaches the caller of initialize, no overrider or table of the failed attempt is used, and after correcting the registrations a new initialize succeeds with exactly the results of a fresh program. In a registry with runtime checks that had never been successfully initialized, or was finalized, calls after the failure are still reported as not initialized.",
 ["fault_sequences", "histories"], "For every kind and place of initialization failure, any number of failures, and any later correction.",
 "No test continues after a failed initialize.",
 [I+"initialize.hpp", I+"policies/fast_perfect_hash.hpp"],
 [("initialized flag set last", I+"initialize.hpp: compiler::initialize"), ("errors raised before tables are published", I+"initialize.hpp: compile before install_global_tables")],
 ["exceptions out of initialize", "outcomes after retry"])

prop("C27", "Ill-formed methods and overriders are rejected at compile time",
 "A method without virtual parameters, an overrider whose parameters do not match its method, a non-polymorphic virtual argument or a registry mismatch is rejected by the compiler; every well-formed use compiles.",
 ["programs"], "For every method and overrider declaration.",
 "Only sixteen hand-written compile_fail cases exist.",
 [I+"core.hpp"], [("static assertions", I+"core.hpp: validate_method_parameter, validate_overrider_parameter")],
 ["compiler exit status"])

prop("C28", "A call costs constant time whatever the number of overriders",
 "The work done by a method call, by next(), or by making a virtual_ptr does not grow with the number of registered classes, methods or overriders, nor with the number of past initializations (on average, for registries that keep v-table pointers in hash maps).",
 ["programs", "inputs"], "For every program size.",
 "Tests do not measure cost.",
 [I+"core.hpp", I+"policies/fast_perfect_hash.hpp"], [("table lookup", I+"core.hpp: method::resolve")],
 ["instruction counts"])

prop("C29", "Registries use exactly the policies they are composed of, as documented",
 "A registry contains at most one policy per category: `with` replaces the policy of the category or adds it, `without` removes it, and nothing else changes. A user-written policy that follows its blueprint works like a shipped one: each successful initialize presents the v-table pointer policy (and through it the hash policy), once, every registered class exactly once with all its distinct type ids, its published v-table pointer and the options given to initialize; lookups happen only between initialize and finalize and only for the arguments used, finalize reaches each policy exactly once, and a deferred rtti policy is not asked for type ids before initialize. Optional policies are optional: without an error handler a bad use aborts silently, without an output policy nothing is written, without a v-table pointer policy virtual_ptrs made for known dynamic types still work.",
 ["configurations", "programs", "histories"], "For every composition of shipped and user-written policies, every set of registrations and every sequence of initialize and finalize.",
 "Tests use a few fixed compositions and look at the results of calls only, not at what policies are told and when.",
 [I+"preamble.hpp", I+"initialize.hpp", I+"policies/vptr_vector.hpp", I+"policies/default_error_handler.hpp"],
 [("composition", I+"preamble.hpp: registry::with, without, policy"), ("initialization context", I+"initialize.hpp: compiler, generic_compiler::class_, write_global_data"), ("finalization", I+"initialize.hpp: registry::finalize"), ("announced hash range", I+"policies/vptr_vector.hpp: initialize")],
 ["what user-written policies receive and when", "policy_list and policy<Category>", "output and termination of processes that make a bad use"])

prop("C30", "A user-written boost_openmethod_vptr decides exactly where it applies",
 "Whenever a v-table pointer is needed for an object, for a `virtual_` argument or to make a virtual_ptr from a reference, a pointer or a smart pointer, and `boost_openmethod_vptr` can be called with a const reference of the static type of the object and a pointer to the registry and returns a v-table pointer, then that function, chosen by overload resolution, is called for that very object, the registry's policy is not consulted, and dispatch follows the v-table returned, for classes that are polymorphic and for those that are not. Functions that do not apply (for another registry, for modifiable objects, with another result, for a class derived from the static type) are ignored, and the policy is used. A virtual_ptr keeps the v-table obtained when it was made, whatever the function would answer later.",
 ["programs", "histories", "configurations"], "For every class with such functions, every argument form, every answer that names the v-table of a class of the object, and every sequence of initializations.",
 "Tests have one hierarchy whose objects always answer with their own class and are passed by reference.",
 [I+"core.hpp"],
 [("finding and calling the function", I+"core.hpp: detail::has_vptr_fn, detail::acquire_vptr"), ("method call", I+"core.hpp: method::vptr"), ("making a virtual_ptr", I+"core.hpp: virtual_ptr constructors and assignments"), ("storing the answer", I+"core.hpp: detail::box_vptr")],
 ["functions and policies asked, and about which objects", "overriders executed"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
