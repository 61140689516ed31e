# generates /verif/properties.jsonl (run by the author; the .jsonl is the committed artefact)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
VW='openmdao/core/vec_wrapper.py'
p('C01','Variable storage is faithful and isolated',
 "Writing a value to a variable of a system and reading it back returns that value in the variable's declared shape (a plain float for a scalar), and changes no other variable of the problem. Every numeric variable occupies its own contiguous block of its system's flat vector: blocks do not overlap, leave no gap and follow declaration order, and a group's and its subsystems' names for one variable are the same storage. Unit-converted access to a param returns the stored value times its conversion factor, and scaled residual access divides by the declared residual scaler.",
 ['inputs','configurations'],'every set of declared variables (any shapes, sizes, pass-by-object flags, nesting), every value written, every order of reads and writes',
 'tests write a handful of variables in small fixed models; overlap, aliasing and shape errors appear only for particular combinations of shapes, orders and nesting',
 [VW,'openmdao/core/vec_wrapper_complex_step.py','openmdao/util/array_util.py'],
 [('Accessor getters and setters',VW+' Accessor'),('block layout',VW+' SrcVecWrapper.setup, TgtVecWrapper.setup'),('sub-views',VW+' get_view'),('index blocks',VW+' _get_local_idxs, merge_idxs')],
 ['system.unknowns / params / resids item access and .vec'])
p('C02','Data transfer copies exactly the connected values',
 "When values are passed to a system before it runs, every connected numeric param receives exactly the connected source's current values (the elements its src_indices select, in that order), and a pass-by-object param receives the source's object. Nothing else changes: unconnected params, params of systems that are not the destination, and all unknowns keep their values.",
 ['inputs','configurations'],'every connection graph, source value, set of source indices and hierarchy of groups',
 'tests check a few fixed models; the quantifier is over all index sets and nestings, and most mistakes only show for particular src_indices or partially connected groups',
 ['openmdao/core/data_transfer.py','openmdao/core/group.py',VW],
 [('transfer','openmdao/core/data_transfer.py DataTransfer.transfer'),('index construction','openmdao/core/group.py _setup_data_transfer, _get_global_idxs'),('slices','openmdao/util/array_util.py to_slice, to_slices')],
 ['params of every system after problem.run()'])
p('C03','Reverse linear operators are the transpose of forward ones',
 "For every system, applying its linearization in forward mode to a direction and in reverse mode to a residual direction give adjoint operators: the inner products agree for every pair of vectors. The reverse data scatter is the transpose of the forward data transfer, summing the contributions of all params fed by one source, and a library component's matrix-free product agrees with its Jacobian in both modes. A reverse application accumulates only into the vectors of the variables involved and leaves all others unchanged.",
 ['inputs','configurations'],'every model, every pair of perturbation vectors, both modes, with and without src_indices and unit conversion',
 'tests compare fwd and rev totals on fixed models; sign, accumulation and index mistakes that cancel there go unseen',
 ['openmdao/core/system.py','openmdao/core/group.py','openmdao/core/component.py','openmdao/core/data_transfer.py','openmdao/components/linear_system.py','openmdao/components/unit_comp.py'],
 [('jacobian product','openmdao/core/system.py _apply_linear_jac'),('unit-scaled derivative params','openmdao/core/vec_wrapper.py _apply_unit_derivatives'),('reverse scatter','openmdao/core/data_transfer.py transfer')],
 ['dumat/dpmat/drmat vectors after apply_linear'])
p('C04','Unit conversion is physically consistent',
 "Converting a value between any two compatible units and back returns the value, converting through an intermediate compatible unit gives the same result as converting directly, and the conversion agrees with multiplying out the units' base-unit factors and offsets. Units of different dimension are never convertible: the attempt raises an error. Products, quotients and integer powers of units have the product, quotient and power of the factors and the sum, difference and multiple of the base-dimension exponents; units with an offset cannot be multiplied, divided or exponentiated.",
 ['inputs'],'all pairs and triples of unit expressions built from the library, all real values',
 'tests use a dozen unit pairs; an error in offset handling or exponent arithmetic needs particular unit combinations',
 ['openmdao/units/units.py','openmdao/core/problem.py'],
 [('unit algebra','openmdao/units/units.py PhysicalUnit'),('conversion','openmdao/units/units.py conversion_tuple_to, convert_value, get_conversion_tuple'),('connection units','openmdao/core/problem.py _setup_units')],
 ['convert_units, get_conversion_tuple, param values of connected components with different units'])
p('C05','An options dictionary never holds an invalid value',
 "Every value ever held by a declared option satisfies that option's declared type, allowed values and bounds; setting an invalid value, an undeclared option or a locked option raises an error and leaves every option as it was. A valid set is returned by the next read and changes no other option, and lower and upper limits are inclusive.",
 ['inputs','histories'],'every sequence of declarations, sets, reads, locks and resets with any values',
 'tests try a handful of valid and invalid values; the guarantee is over all values at the limits, types and sequences',
 ['openmdao/util/options.py'],
 [('validation','openmdao/util/options.py OptionsDictionary._check, _check_type, _check_low, _check_high, _check_values'),('writes','openmdao/util/options.py __setitem__, add_option, lock_option')],
 ['reads of the options dictionary, raised errors'])
DR='openmdao/core/driver.py'
p('C06','Driver scaling is consistent and reversible',
 "What a driver is given for a design variable, objective or constraint is (model value + adder) * scaler, and setting a design variable stores value / scaler - adder at the design variable's indices and nowhere else, so get after set returns the value set. Declared lower, upper and equality limits are stored in that same scaled space, and an invalid or contradictory declaration (duplicate name, both equality and inequality, no limit at all) raises an error.",
 ['inputs','configurations'],'all real values, adders and non-zero scalers (scalar or array), index subsets and variable shapes',
 'tests use a few scalers on scalar variables; array scalers, adders with bounds, and index subsets are sampled rarely',
 [DR],
 [('scaled reads',DR+' _get_distrib_var, get_desvars, get_objectives, get_constraints'),('write back',DR+' set_desvar'),('declaration',DR+' add_desvar, add_objective, add_constraint')],
 ['driver.get_desvars()/get_objectives()/get_constraints(), root.unknowns after set_desvar, get_desvar_metadata()'])
p('C07','Finite-difference derivatives are exact quotients and leave no trace',
 "A finite-difference Jacobian entry is exactly the forward, backward or central difference quotient, with the configured step, of the system's outputs or residuals with respect to that input element (a complex-step entry is the imaginary part over the step), each element being placed in its own row and column. After the computation, params, unknowns and residuals hold exactly the values they had before. With relative step the step is scaled by the magnitude of the input.",
 ['inputs','configurations'],'every system, form, step, subset of inputs and outputs, and every input shape',
 'tests check smooth models to tolerance, so a wrong column, a stale base value or an unrestored state that perturbs little goes unnoticed',
 ['openmdao/core/system.py','openmdao/core/vec_wrapper_complex_step.py'],
 [('fd','openmdao/core/system.py fd_jacobian'),('complex step','openmdao/core/system.py complex_step_jacobian'),('complex vectors','openmdao/core/vec_wrapper_complex_step.py')],
 ['system.fd_jacobian result, params/unknowns/resids vectors before and after'])
p('C08','Nonlinear solvers are honest about convergence',
 "A nonlinear solver that stops before its iteration limit has a residual norm at or below its absolute tolerance, or a reduction at or below its relative tolerance, or hit another declared stopping rule; after the initial run of its subsystems it never performs more than maxiter iterations. When it ends unconverged, or with a residual that is not a finite number, it raises an AnalysisError if err_on_maxiter is set, and otherwise it raises none; a step inside an iteration applies the solution of the linear system to the states exactly once. Options it changes temporarily are restored however it ends.",
 ['inputs','histories','configurations'],'every sequence of residual norms (including NaN), tolerances and limits',
 'tests run models that converge or plainly diverge; boundary cases (converging on the last iteration, NaN, zero initial residual) are not covered',
 ['openmdao/solvers/nl_gauss_seidel.py','openmdao/solvers/newton.py','openmdao/solvers/backtracking.py','openmdao/solvers/brent.py','openmdao/solvers/run_once.py'],
 [('fixed point loop','openmdao/solvers/nl_gauss_seidel.py solve'),('newton loop','openmdao/solvers/newton.py solve'),('line search','openmdao/solvers/backtracking.py solve')],
 ['iter_count, raised AnalysisError, residual norm at exit'])
p('C09','Newton and line-search steps respect declared bounds',
 "If every unknown starts within its declared lower and upper limits, the step length granted to a Newton or line-search step keeps it within them: the limited step is between 0 and the requested length, and it is the longest such step. Unknowns without limits, and systems without any limits, never shorten a step.",
 ['inputs','configurations'],'every set of unknowns, values, scalar or array limits, directions and requested step lengths',
 'tests use one or two bounded states; which variable, element and side binds is a choice over all of them',
 [VW,'openmdao/solvers/newton.py','openmdao/solvers/backtracking.py'],
 [('step limiter',VW+' SrcVecWrapper.distance_along_vector_to_limit'),('use','openmdao/solvers/newton.py solve; openmdao/solvers/backtracking.py solve')],
 ['unknowns after every Newton update'])
p('C10','Linear solvers solve the linear system they are given',
 "On a converged linear solve the returned vector satisfies the assembled linear system (or its transpose in reverse mode) for the given right-hand side, for every right-hand side of the request, and the right-hand side is not altered for the caller. The matrix assembled for a direct solve equals the operator applied column by column, and all linear solvers agree on a system they can all solve.",
 ['inputs','configurations'],'all models, right-hand sides and modes',
 'tests solve a few models; transposition and accumulation errors vanish on symmetric or weakly coupled ones',
 ['openmdao/solvers/ln_direct.py','openmdao/solvers/ln_gauss_seidel.py','openmdao/solvers/scipy_gmres.py','openmdao/solvers/solver_base.py','openmdao/core/group.py'],
 [('direct','openmdao/solvers/ln_direct.py'),('block Gauss-Seidel','openmdao/solvers/ln_gauss_seidel.py'),('Krylov','openmdao/solvers/scipy_gmres.py mult'),('assembly','openmdao/core/group.py assemble_jacobian')],
 ['solution vectors of solve_linear'])
PR='openmdao/core/problem.py'
p('C11','Total derivatives are the derivatives of the model',
 "Each entry of the total-derivative result is the derivative of that output element with respect to that input element, placed under its own names, row and column in array and dictionary form, whether computed in forward mode, reverse mode or by finite difference. Driver indices select exactly the named rows and columns, and driver scaling multiplies a row by that output element's scaler and divides a column by that input element's scaler. Computing derivatives leaves the model's values unchanged.",
 ['inputs','configurations'],'every model, list of inputs and outputs, index subset, scaler, mode and return format',
 'tests compare a few entries on fixed models; row and column bookkeeping is over all shapes, subsets and orders',
 [PR],
 [('seeding and gathering',PR+' _calc_gradient_ln_solver'),('fd totals',PR+' _calc_gradient_fd'),('mode and relevance',PR+' calc_gradient, _setup')],
 ['problem.calc_gradient results'])
p('C12','Recorders see every iteration once, filtered exactly as asked',
 "A variable is recorded exactly when it matches an include pattern and no exclude pattern and its category is enabled, and its recorded value is its current value, unaffected by later changes of the model. Every recorder of a driver or solver receives each iteration exactly once, in order, with an iteration coordinate that is unique in the run and reads back as the nesting of names and counts that produced it.",
 ['inputs','histories','configurations'],'all sets of variables, include/exclude patterns, iteration sequences and nestings',
 'tests record a few iterations of fixed models with one or two patterns',
 ['openmdao/recorders/base_recorder.py','openmdao/recorders/recording_manager.py','openmdao/recorders/inmem_recorder.py','openmdao/util/record_util.py'],
 [('filters','openmdao/recorders/base_recorder.py'),('dispatch','openmdao/recorders/recording_manager.py record_iteration'),('coordinates','openmdao/util/record_util.py create_local_meta, update_local_meta, format_iteration_coordinate')],
 ['contents of an in-memory recorder'])
p('C13','Names resolve to one variable under promotion',
 "A variable is promoted exactly when its name matches one of its system's promotion patterns, and its promoted name at each level is its local name with the path of the non-promoting subsystems in front. Every absolute path resolves to one promoted name and back, a path made relative to an enclosing system and re-qualified is the original path, and name similarity (one name being a prefix of another) never makes one system appear to contain another's variables.",
 ['inputs','configurations'],'all system trees, names and promotion patterns',
 'tests use a few trees; prefix-like names and multi-level promotion combine in unbounded ways',
 ['openmdao/util/string_util.py','openmdao/core/system.py','openmdao/core/group.py'],
 [('string helpers','openmdao/util/string_util.py'),('promotion','openmdao/core/system.py _promoted, _sysdata; openmdao/core/group.py _setup_variables'),('children','openmdao/core/group.py _subsystem, subsystems')],
 ['to_prom_name maps, system.promoted names'])
p('C14','Every input has exactly one, compatible source',
 "After setup every connected param has exactly one source, determined by explicit connections or a shared promoted name, and a param fed by two different sources, a connection to a non-existent variable, an output connected into an output, or mismatched shapes without source indices is reported as an error rather than silently resolved. Params promoted to the same name and connected to no source are reported as unconnected, never silently linked to a source.",
 ['inputs','configurations'],'all system trees, promotion patterns and lists of connect statements',
 'tests try each error once in a small model',
 [PR,'openmdao/core/group.py','openmdao/core/_checks.py'],
 [('explicit','openmdao/core/group.py connect, _get_explicit_connections'),('implicit',PR+' _get_implicit_connections'),('resolution',PR+' _setup_connections'),('checks','openmdao/core/_checks.py')],
 ['problem setup errors, root.connections'])
p('C15','Automatic execution order respects data flow',
 "The automatic order contains every subsystem exactly once and places each subsystem after all those it depends on, except along connections that lie inside a dependency cycle. The set of connections it ignores always leaves the remaining graph free of cycles, a user-specified order is used exactly as given, and an order that omits, repeats or invents a subsystem is rejected.",
 ['inputs','configurations'],'every directed dependency graph and every user-given order',
 'tests use a handful of graphs; cycle breaking depends on the particular strongly connected components',
 ['openmdao/util/graph.py','openmdao/core/group.py'],
 [('cycle breaking','openmdao/core/group.py _break_cycles; openmdao/util/graph.py'),('ordering','openmdao/core/group.py list_auto_order, set_order')],
 ['group.list_auto_order(), order of subsystem execution'])
p('C16','Relevance never drops a variable that matters',
 "A variable or system lying on some dependency path from a design input to a response is always treated as relevant to both, and one lying on no such path is not; the systems and variables so marked are the same in forward and reverse mode. Skipping irrelevant systems therefore never changes a computed derivative.",
 ['inputs','configurations'],'every variable dependency graph and every selection of design variables and responses (including groups of them)',
 'tests use one or two graphs',
 ['openmdao/core/relevance.py','openmdao/util/graph.py'],
 [('graph search','openmdao/util/graph.py plain_bfs; openmdao/core/relevance.py Relevance._get_relevant_vars'),('system query','openmdao/core/relevance.py is_relevant, is_relevant_system')],
 ['relevance queries and derivative results'])
p('C17','Design-of-experiments cases cover what they promise',
 "Every case a sampling driver runs lies within the lower and upper limits of each design variable element. A full factorial runs each combination of its evenly spaced levels, end points included, exactly once; a Latin hypercube puts exactly one sample in each of its equal strata along every dimension; a case driver runs exactly the given cases in order. The division of cases among workers gives every case to exactly one of them, with shares differing by at most one.",
 ['inputs','configurations'],'every number of levels, samples, variables, sizes, limits and seeds, and every number of workers',
 'tests use one or two sizes and seeds',
 ['openmdao/drivers/fullfactorial_driver.py','openmdao/drivers/latinhypercube_driver.py','openmdao/drivers/uniform_driver.py','openmdao/drivers/case_driver.py','openmdao/drivers/predeterminedruns_driver.py','openmdao/util/array_util.py'],
 [('run lists','_build_runlist of each driver'),('division','openmdao/util/array_util.py evenly_distrib_idxs')],
 ['cases produced by the drivers'])
p('C18','The optimizer is given the problem the user declared',
 "The function and gradient values handed to the optimizer are those of the declared objective and constraints at the design point it asks for, with every constraint expressed so that it is satisfied exactly when its declared lower, upper or equality limit is satisfied, element by element. The gradient of each constraint carries the same sign, row and scaling as its value, and the bounds handed over are the declared ones.",
 ['inputs','configurations'],'all objectives, constraints (lower, upper, double-sided, equality; scalar or array limits) and design points',
 'tests check that a few optimizations converge; sign or index errors in inactive or double-sided constraints are invisible there',
 ['openmdao/drivers/scipy_optimizer.py',DR],
 [('objective','openmdao/drivers/scipy_optimizer.py _objfunc'),('constraints','openmdao/drivers/scipy_optimizer.py _confunc, _congradfunc'),('run','openmdao/drivers/scipy_optimizer.py run')],
 ['arguments handed to scipy.optimize.minimize'])
p('C19','Surrogates fit their training data and differentiate themselves',
 "A metamodel trains each surrogate with exactly the given training points, every param's and output's values in its own columns, and evaluates it at its current params in the same column order. The gradient a surrogate reports is the derivative of its own prediction with respect to each input, and a response surface trained on data of a quadratic reproduces it.",
 ['inputs','configurations'],'all training sets, input and output dimensions and evaluation points',
 'tests use few dimensions, mostly scalar inputs',
 ['openmdao/components/meta_model.py','openmdao/surrogate_models/response_surface.py','openmdao/surrogate_models/kriging.py'],
 [('training matrix','openmdao/components/meta_model.py _train'),('inputs','openmdao/components/meta_model.py _params_to_inputs'),('response surface','openmdao/surrogate_models/response_surface.py')],
 ['arguments of surrogate.train/predict, metamodel outputs and derivatives'])
p('C20','Variable declarations are checked and recorded faithfully',
 "Declaring a param, output or state records its value, shape, size, units and options exactly as given, with shape and size always those of the value; a shape given without a value means zeros of that shape, and an output or state with neither is an error. Values that cannot be differentiated are passed by object. Duplicate or illegal names and declarations after setup raise an error, and a failed declaration leaves earlier declarations unchanged.",
 ['inputs','histories'],'all sequences of declarations with any names, values, shapes and options',
 'tests declare typical variables only',
 ['openmdao/core/component.py'],
 [('declaration','openmdao/core/component.py add_param, add_output, add_state, _add_variable'),('checks','openmdao/core/component.py _check_val, _check_name, _check_varname; _get_initial_val')],
 ['component metadata, raised errors'])
p('C21','Text files written and parsed by the file wrappers round-trip',
 "A value placed into a template file at an anchor, line and field by the input-file generator is the value read back from that place by the file parser, and all other text of the file is unchanged.",
 ['inputs'],'all template texts, anchors, positions, delimiters and values',
 'tests use a few templates',
 ['openmdao/util/file_wrap.py','openmdao/util/namelist_util.py'],
 [('generator','openmdao/util/file_wrap.py InputFileGenerator'),('parser','openmdao/util/file_wrap.py FileParser')])
p('C22','Parallel runs give the serial answer',
 "Running a model under MPI with any number of processes gives the same values and derivatives as running it serially.",
 ['schedules','configurations'],'all models, process counts and message orders',
 'no MPI is available to most test runs',
 ['openmdao/core/petsc_impl.py','openmdao/core/parallel_group.py','openmdao/core/parallel_fd_group.py'],
 [('petsc vectors','openmdao/core/petsc_impl.py')])
p('C23','Persisted recordings read back as recorded',
 "A case written by a file-based recorder and read back holds the same names, values and metadata.",
 ['inputs','crash_points'],'all values and record sequences',
 'tests record a few cases',
 ['openmdao/recorders/sqlite_recorder.py','openmdao/recorders/csv_recorder.py','openmdao/recorders/dump_recorder.py'],
 [('sqlite','openmdao/recorders/sqlite_recorder.py')])
p('C24','Library components compute what they declare',
 "An expression component's outputs are the values of its expressions at its params, its reported derivatives are the derivatives of those expressions with respect to every param element, and computing them changes no value. A constraint expression component's output is non-positive exactly when its inequality holds, and a linear-system component's state solves its system.",
 ['inputs','configurations'],'all expressions, param values and shapes',
 'tests use a few expressions and shapes',
 ['openmdao/components/exec_comp.py','openmdao/components/constraint.py','openmdao/components/linear_system.py'],
 [('expressions','openmdao/components/exec_comp.py solve_nonlinear, linearize'),('constraint orientation','openmdao/components/constraint.py _combined_expr'),('linear system','openmdao/components/linear_system.py')],
 ['component unknowns and linearize results'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
