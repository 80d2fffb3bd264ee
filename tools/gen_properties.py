#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the long texts stay readable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe or [],hook_needed=None)))
K="src/kernel/lib/"; C="src/compiler/lib/"
p("C01","Generated kernels compute exactly what the stencil equations say",
 "For every legal stencil solution (any mix of vars, step/domain/misc dimensions, operators, offsets, stages and time direction), running the kernel library generated from it leaves in every element of every non-scratch var the value obtained by evaluating the solution's equations point by point for each step in order. Elements no equation assigns keep their value.",
 ["programs","inputs"],"all legal stencil programs and all initial data, domain sizes and step ranges",
 "Tests compare the kernel with a scalar reference generated from the same AST by the same printer for ~40 fixed stencils, so an error common to both sides (parse, dependency order, halo size, step allocation, constants) is invisible, and other programs are never built.",
 [C+"Eqs.cpp",C+"Expr.cpp",C+"Cpp.cpp",C+"CppIntrin.cpp",C+"YaskKernel.cpp",C+"Vec.cpp",K+"stencil_calc.cpp",K+"context.cpp"],
 [("equation analysis and stage building","src/compiler/lib/Eqs.cpp"),("code printer","src/compiler/lib/YaskKernel.cpp")],
 ["yk_var get_elements_in_slice after yk_solution::run_solution"])
p("C02","Tile sizes, temporal tiling and threads never change results",
 "For a given solution, data and step range, every element of every var after a run is the same for every setting of the mega-block, block, micro-block, nano-block and pico-block sizes (in the step and domain dimensions), padding options, thread counts and binding, scalar/vector selection and allocation options. Performance settings affect only speed.",
 ["configurations","schedules","programs"],"all combinations of run-time performance options (incl. temporal wave-front tiling and thread counts) over all solutions and sizes",
 "The suite runs a fixed list of option strings per stencil; the space of size/alignment/temporal-angle combinations, where off-by-one errors in trapezoid and remainder handling live, is unbounded.",
 [K+"context.cpp",K+"stencil_calc.cpp",K+"stencil_calc.hpp",K+"setup.cpp",K+"settings.cpp","utils/bin/gen_loops.pl"],
 [("wave-front shifting of blocks","src/kernel/lib/context.cpp calc_mega_block/calc_block"),("settings rounding","src/kernel/lib/settings.cpp adjust_settings"),("peel/remainder masks","src/kernel/lib/stencil_calc.cpp")],
 ["yk_var elements after run_solution with different apply_command_line_options strings"])
p("C03","MPI domain decomposition never changes results",
 "For every number of ranks, rank layout, per-rank domain size and communication option (shared memory, overlap, scalar/vector packing, minimum exterior), the union over ranks of each rank's domain after a run equals, at every global index, the result of a single-rank run of the same global problem, and this also holds with temporal tiling.",
 ["configurations","schedules","programs","histories"],"all rank counts and layouts, uneven rank sizes, halo shapes (incl. diagonal and asymmetric), communication options",
 "Only 4 ranks with two option strings are exercised, on symmetric near-cubic sizes; corner-neighbor, thin-rank and asymmetric-halo layouts are not reached.",
 [K+"halo.cpp",K+"setup.cpp",K+"context.cpp",K+"alloc.cpp"],
 [("halo exchange","src/kernel/lib/halo.cpp exchange_halos"),("neighbor setup and buffers","src/kernel/lib/setup.cpp setup_rank, alloc_mpi_data")],
 ["each rank's domain slice after run_solution"])
p("C04","Compiler options, target ISA, folding and precision do not change meaning",
 "For a fixed solution, kernels generated with any vector folding, target instruction set, inner-loop dimension, domain-dimension order, memory-layout option, optimization switch, load/pointer/buffering style, prefetch distance, equation bundling, expression-size threshold or (for exactly representable data) element size all produce the same results.",
 ["configurations","programs"],"all combinations of documented stencil-compiler options over all solutions",
 "Tests use a handful of fold/option combinations on fixed stencils; unaligned-fold, odd inner dims, and option interactions are not covered.",
 [C+"Settings.cpp",C+"Cpp.cpp",C+"CppIntrin.cpp",C+"Vec.cpp",C+"Expr.cpp",C+"ExprUtils.cpp",C+"YaskKernel.cpp",K+"realv.hpp","utils/bin/gen_layouts.pl"],
 [("fold setup","src/compiler/lib/Settings.cpp"),("unaligned vector construction","src/compiler/lib/CppIntrin.cpp"),("CSE etc.","src/compiler/lib/ExprUtils.cpp")],
 ["yk_var elements after run_solution for different generated kernels"])
p("C05","Domain and step conditions gate exactly the selected elements",
 "An equation with a domain condition updates exactly the elements of the overall problem domain where the condition is true and an equation with a step condition takes effect exactly on the steps where it is true; every other element, including halo and padding elements and other step slots, is left untouched. This is independent of tiling, folding and rank decomposition.",
 ["programs","inputs","configurations"],"all boolean conditions over domain indices, first/last indices, step index and var values, under any tiling and rank layout",
 "Test stencils use few fixed conditions, and the reference they are compared with evaluates the same generated condition and bounding-box code.",
 [C+"Eqs.cpp",C+"YaskKernel.cpp",K+"setup.cpp",K+"stencil_calc.cpp",K+"context.cpp"],
 [("bounding boxes of sub-domains","src/kernel/lib/setup.cpp find_bounding_box"),("is_in_valid_domain / is_in_valid_step code","src/compiler/lib/YaskKernel.cpp")],
 ["all allocated elements incl. padding, before and after run_solution"])
p("C06","Running steps in pieces equals running them at once; step indices are exact",
 "Running steps a..c in one call gives the same data as any split into consecutive calls (forward or reverse solutions), with arbitrary element writes by the user between calls taking effect exactly as if made at that point. After every call the valid step range of each var is the last allocated-steps window ending at the last step written, reads inside the window return the logical step's data, and indices outside are rejected (or wrap when step-wrap is enabled).",
 ["histories","inputs"],"all interleavings of run_solution calls, var writes and reads over step ranges, incl. negative step indices and reverse time",
 "The API tests call run_solution with two or three fixed ranges and hardly read step indices; window tracking across mixed writes/runs is a history property.",
 [K+"context.cpp",K+"yk_var.cpp",K+"yk_var.hpp",K+"yk_var_apis.cpp",K+"generic_var.cpp"],
 [("step-index wrapping","src/kernel/lib/yk_var.hpp _wrap_step/get_alloc_step"),("valid-step update","src/kernel/lib/yk_var.cpp update_valid_step")],
 ["get_first/last_valid_step_index, get_element"])
p("C07","A var behaves as an n-dimensional array under every element access API",
 "For any var (any dims, folding, layout, padding), any history of element/slice writes, adds and fills followed by reads returns at each index the last value stored there and never disturbs another index; returned element counts and strict/non-strict index handling are as documented, float/double buffers are row-major in declared dimension order, and rejected calls change nothing.",
 ["histories","inputs","configurations"],"all sequences of set/get/add/slice/fill calls with any in-range or out-of-range indices on any var shape and layout",
 "API tests touch a few fixed slices on one or two stencils; layout bijection over all shapes/folds and partial-vector slices is not sampled.",
 [K+"yk_var.hpp",K+"yk_var.cpp",K+"yk_var_apis.cpp",K+"generic_var.cpp",K+"new_var.cpp","utils/bin/gen_layouts.pl"],
 [("element address computation","src/kernel/lib/yk_var.hpp get_elem_ptr"),("slice loops","src/kernel/lib/yk_var.hpp get_elements_in_slice et al.")],
 ["yk_var element APIs"])
p("C08","Reductions equal element-wise computation over the slice",
 "reduce_elements_in_slice returns, for any requested combination of sum, sum-of-squares, product, max and min, exactly the value obtained by reading the slice's elements one at a time, over any slice of any var including partial vectors and padding, with the documented count; reductions that were not requested raise an exception when queried and the var is unchanged.",
 ["inputs","configurations"],"all slices, masks, var shapes, folds and data",
 "One fixed reduction over the full domain is tested.",
 [K+"yk_var.hpp",K+"yk_var.cpp",K+"yk_var_apis.cpp"],[("reduction loops","src/kernel/lib/yk_var.hpp reduce_elements_in_slice")],
 ["yk_reduction_result getters"])
p("C09","Var geometry obeys the documented size and index relations",
 "After preparation and for any sequence of size, padding, halo, misc-index and allocation settings, each var's allocation equals last minus first local index plus one, padding is at least the requested minimum and the halo, domain/halo/padding indices abut as documented, misc ranges follow the set first index and allocation, settings not allowed for the var kind or after allocation are rejected, and every element in the reported ranges is accessible while the next one outside is not.",
 ["histories","configurations","inputs"],"all orders of geometry-setting calls before and after allocation on all var kinds (solution, new, fixed-size, scalar, partial-dim)",
 "API tests print the values but check few of the relations and only for one configuration.",
 [K+"yk_var.cpp",K+"yk_var_apis.cpp",K+"new_var.cpp",K+"setup.cpp",K+"soln_apis.cpp"],
 [("resize","src/kernel/lib/yk_var.cpp resize"),("setter macros","src/kernel/lib/yk_var_apis.cpp SET_VAR_API")],
 ["yk_var size/index getters"])
p("C10","Ranks' sub-domains partition the overall domain",
 "For any mix of given and omitted rank counts, rank positions, local sizes and overall sizes that is legal, preparation assigns every rank a distinct grid position and an index interval such that the intervals tile 0..overall-1 exactly in each dimension, sizes given by the user are honored, omitted ones are derived consistently on all ranks, and illegal mixes are rejected with an exception and never computed on.",
 ["configurations","inputs"],"all rank counts and partial specifications in 1-4 dimensions",
 "Only 4 ranks with default decomposition are exercised.",
 [K+"setup.cpp",K+"soln_apis.cpp",K+"settings.cpp","src/common/tuple.cpp"],
 [("rank setup","src/kernel/lib/setup.cpp setup_rank"),("rank factoring","src/common/tuple.hpp get_compact_factors")],
 ["get_num_ranks, get_rank_index, get_first/last_rank_domain_index"])
p("C11","Equation order is irrelevant; unsatisfiable or illegal programs are rejected",
 "The order in which equations are added to a solution never affects results: same-step dependencies, direct or through scratch vars, are always evaluated producer first. Programs with cyclic same-step dependencies, conflicting unconditional definitions, non-unit step offsets or future reads (in either time direction), and illegal left-hand sides are rejected by an exception at output time rather than compiled into a wrong kernel.",
 ["programs"],"all permutations of equations of all solutions, and all single-fault mutations of legal programs",
 "Test stencils define equations in one fixed order; only one or two rejections are tested.",
 [C+"Eqs.cpp",C+"Eqs.hpp",C+"Solution.cpp",C+"Settings.cpp",C+"VarPoint.cpp"],
 [("dependency analysis","src/compiler/lib/Eqs.cpp analyze_eqs"),("topological sort","src/compiler/lib/Eqs.hpp Dependencies/DepGroup")],
 ["yc_solution::output_solution, kernel results"])
p("C12","Scratch vars are transparent temporaries",
 "Replacing a scratch var by its defining expression at each use (shifted by the use's offset) gives the same results for any chain of scratch vars, any offsets, any tiling, threads and ranks; scratch vars never leak values between points, tiles, steps or threads.",
 ["programs","configurations","schedules"],"all scratch-var dependency chains with any offsets, under any tiling/threading/ranks",
 "A few fixed scratch test stencils exist with symmetric offsets and few tilings.",
 [C+"Eqs.cpp",C+"Var.cpp",K+"context.cpp",K+"stencil_calc.cpp",K+"setup.cpp"],
 [("write-halo computation","src/compiler/lib/Eqs.cpp calc_halos"),("scratch-var placement","src/kernel/lib/context.cpp update_scratch_var_info")],
 ["non-scratch vars after run_solution"])
p("C13","Halo data seen by each rank is never stale",
 "On any number of ranks, for any history of element/slice writes through the API on any rank, explicit halo exchanges and solution runs, every run uses for points owned by a neighbor the value that neighbor last held, and after an explicit exchange each rank's halo equals the owning rank's domain data for every var and valid step.",
 ["histories","schedules","configurations"],"all operation histories over all rank layouts and halo shapes",
 "MPI tests initialise once and run once; dirty-flag tracking over histories is not exercised.",
 [K+"halo.cpp",K+"yk_var.hpp",K+"yk_var_apis.cpp",K+"context.cpp"],
 [("dirty-step flags","src/kernel/lib/yk_var.hpp set_dirty"),("exchange","src/kernel/lib/halo.cpp")],
 ["get_element in halo after exchange_halos; run results"])
p("C14","Auto-tuning changes only performance",
 "With the auto-tuner active during runs, results are identical to untuned runs for any tuning targets, radius, starting sizes and splits of the run; settings reached by tuning are legal (each tile no larger than its container), tuning state can be reset or stopped at any point, and standalone tuning leaves a solution that computes correctly once data is re-initialised.",
 ["configurations","histories","schedules"],"all tuner targets/settings and run histories",
 "Auto-tuning is disabled or exercised on few fixed runs in tests.",
 [K+"auto_tuner.cpp",K+"auto_tuner.hpp",K+"settings.cpp",K+"context.cpp"],
 [("tuner evaluation","src/kernel/lib/auto_tuner.cpp eval")],
 ["run_auto_tuner_now, reset_auto_tuner, get_block_size, results"])
p("C15","Storage sharing and lifecycle: fused vars alias, and release is safe",
 "After fusing, both vars (in the same or different solutions) denote the same storage: a write through either is read through the other, and data survives as long as any owner does; layout compatibility and storage-sharing queries agree with observed behaviour, releasing and re-allocating storage and ending or re-preparing a solution leave all other vars intact, and lifecycle hooks run exactly once per event in registration order.",
 ["histories"],"all sequences of fuse, allocate, release, prepare, end, read and write over several solutions",
 "API tests fuse once with default settings.",
 [K+"yk_var_apis.cpp",K+"generic_var.cpp",K+"soln_apis.cpp",K+"alloc.cpp",K+"new_var.cpp"],
 [("fuse","src/kernel/lib/yk_var_apis.cpp fuse_vars"),("storage management","src/kernel/lib/generic_var.cpp")],
 ["is_storage_allocated, is_storage_layout_identical, element reads"])
p("C16","Command-line options parse predictably and losslessly",
 "For any argument vector, the option parser assigns exactly the recognised options (last one wins, boolean options support the no- form, comma lists split), returns the unrecognised arguments in order, and rejects missing or malformed numeric values with an exception; tokenizing honors quotes; kernel and compiler options applied this way are reflected by the matching getters and value listing.",
 ["inputs"],"all argument strings",
 "No test exercises the parser beyond the options the suite happens to pass.",
 ["src/common/common_utils.cpp","include/yask_common_api.hpp",K+"settings.cpp",C+"Solution.cpp"],
 [("parser","src/common/common_utils.cpp command_line_parser")],
 ["command_line_parser::parse_args, apply_command_line_options return values"])
p("C17","Finite-difference coefficients are exact on polynomials",
 "For any derivative order, accuracy and (arbitrary, distinct) sample points and evaluation point, the returned coefficients have the documented count and differentiate every polynomial of degree below the number of points exactly up to rounding; center, forward and backward forms agree with the arbitrary form on the corresponding points and with each other under reflection.",
 ["inputs"],"all derivative orders, radii, accuracy orders and sample-point sets",
 "The coefficient test is in no test target and covers a few cases.",
 ["src/common/fd_coeff2.cpp","src/contrib/coefficients/fd_coeff.cpp"],[("Fornberg recurrence","src/contrib/coefficients/fd_coeff.cpp")],
 ["get_*_fd_coefficients"])
p("C18","Run statistics count exactly the work done",
 "Between statistics queries, the reported steps are exactly the steps requested by run calls, elements are the overall domain size summed over all ranks, writes and reads reflect the points selected by each equation's conditions on each executed step, and querying or clearing resets the counters, independent of tiling, threads and ranks.",
 ["histories","configurations"],"all run histories, tilings and rank layouts",
 "Tests print statistics but do not check them.",
 [K+"context.cpp",K+"soln_apis.cpp",K+"setup.cpp",K+"utils.cpp"],[("get_stats","src/kernel/lib/soln_apis.cpp / context.cpp")],
 ["yk_solution::get_stats"])
p("C19","Misuse is reported by an exception and leaves state unchanged",
 "Any API call with invalid arguments or in an invalid state (unknown dimension or var names, wrong index counts, out-of-range indices, undersized buffers, unallocated storage, runs before preparation, duplicate names, unset format) raises the documented exception, never crashes or writes out of bounds, and the solution remains usable with identical data and settings (except that options preceding a malformed one in the same command line may already have been applied).",
 ["inputs","histories"],"all invalid argument combinations at any point of a call history",
 "The exception tests try a handful of fixed bad calls.",
 [K+"soln_apis.cpp",K+"yk_var_apis.cpp",K+"new_var.cpp",C+"Solution.cpp",C+"Var.cpp",C+"Expr.cpp"],
 [("index checks","src/kernel/lib/generic_var.cpp / yk_var.cpp checkIndices")],
 ["yask_exception"])
p("C20","Generated loop nests visit every point exactly once",
 "For any loop specification accepted by the loop generator and any begin/end/stride/alignment in each dimension, the generated code visits a set of tiles that cover every index in the range exactly once with tile bounds inside the range, in any number of dimensions, for every path option and thread count.",
 ["inputs","configurations","schedules"],"all loop specifications, ranges, strides, tile groupings and thread counts",
 "Only the default loop specifications are compiled, on a few sizes.",
 ["utils/bin/gen_loops.pl","src/kernel/lib/indices.hpp",K+"utils.hpp"],[("loop generator","utils/bin/gen_loops.pl")],
 ["callback indices of generated loops"])
p("C21","Compiler output is deterministic and side-effect free",
 "Outputting a solution is a pure function of the definitions and options: repeating the output in the same process or another process, for the same or after other formats, yields identical text, leaves the solution's equations, vars and API-visible tree unchanged, and cloned trees are independent of their originals.",
 ["programs","histories"],"all solutions and sequences of output/query calls",
 "Tests output each solution once.",
 [C+"Solution.cpp",C+"Expr.cpp",C+"ExprUtils.cpp",C+"Eqs.cpp",C+"Print.cpp"],
 [("output_solution","src/compiler/lib/Solution.cpp"),("clone_ast","src/compiler/lib/Expr.hpp")],
 ["output_solution text, format_simple"])
p("C22","Shipped stencil solutions run as defined for every radius and size",
 "Every solution shipped with the stencil compiler, at every radius it supports, builds into a kernel whose results equal an independent evaluation of its equations within floating-point rounding, for any domain size, number of steps, tiling and number of ranks.",
 ["programs","inputs","configurations"],"all shipped solutions x radii x sizes x settings",
 "Only test stencils plus two applications are built by the suite, mostly with the default radius, and checked against the generated reference only.",
 ["src/stencils/"]+[C+"Eqs.cpp",C+"YaskKernel.cpp",K+"context.cpp"],[("stencil definitions","src/stencils/*.cpp"),("solution registry","include/aux/yc_solution_api.hpp")],
 ["var elements after run_solution"])
p("C23","Concurrent atomic updates lose nothing",
 "Any number of OpenMP threads adding to elements of a var concurrently through the atomic-add API, to the same or different elements, yields the same totals as performing the additions one after another.",
 ["schedules","inputs"],"all thread counts, interleavings and index distributions",
 "No test calls the add API from more than one thread.",
 [K+"yk_var.hpp",K+"yk_var_apis.cpp"],[("atomic add","src/kernel/lib/yk_var.hpp add_to_element")],["get_element after parallel add_to_element"])
p("C24","Multi-dimensional tuples and index arithmetic are consistent",
 "For any sizes and dimension order, flattening an n-dimensional point to a linear index and back is a bijection in both first-inner and last-inner order, visiting all points enumerates each exactly once in layout order, element-wise arithmetic/min/max/reductions equal the scalar definitions by dimension name, and compact factorisation returns factors whose product is the requested number and that keep pre-set factors whenever they can be kept; flooring division and modulus satisfy a = b*q + r with 0 <= r < b for all signs.",
 ["inputs"],"all sizes, dimension sets and orders",
 "tuple_test and combo_test check a few literals.",
 ["src/common/tuple.hpp","src/common/tuple.cpp","src/common/idiv.hpp","src/common/combo.cpp",K+"indices.hpp"],
 [("layout/unlayout","src/common/tuple.hpp"),("idiv_flr/imod_flr","src/common/idiv.hpp")],["Tuple and idiv functions"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
