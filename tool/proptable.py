prop("C01", "Engine vector operations compute exactly their documented result",
     "For every engine that keeps the state in host memory, copying, filling, scaled addition, linear combination, compensated linear combination, maximum of absolute values, "
     "reading, writing and wrapping into the box compute exactly their documented per-element result on every element of the state vector. "
     "They write nothing outside the destination, whatever the number of bodies is and however the loops are tiled or parallelised.",
     ["inputs", "configurations"], "every body count (including 1 and counts that are no multiple of a tile or thread count), every buffer content, every host engine",
     "The tests compare a few engines on one body count with random data; sizes off the tile boundary, zero coefficients and untouched tails are not sampled.",
     ["nbody/nbody_engine.cpp", "nbody/nbody_engine_simple.cpp", "nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_block.cpp", "nbody/nbody_engine_ah.cpp"],
     [("element loops of the vector operations", "nbody/nbody_engine_simple.cpp, nbody/nbody_engine_openmp.cpp"), ("generic linear combinations", "nbody/nbody_engine.cpp")],
     technique="effect summaries of each operation over SSA form (loops closed symbolically), compared with the documented formula by polynomial identity testing",
     note="Sound for the arithmetic read as real-number arithmetic (rounding and evaluation order are not judged); identity testing has one-sided error below 1e-12 per obligation. Loop shapes outside the recognised ones are reported as undecided, not as passing.")

prop("C02", "All direct engines evaluate the same softened Newtonian right-hand side",
     "For every engine that sums all pairs directly, the derivative of a position is the velocity of that body and the derivative of a velocity is the sum over all bodies of mass times separation over the cubed distance, "
     "attractive, with squared distances below a tiny fixed floor raised to that floor. All these engines agree for every number of bodies, and write only the derivative.",
     ["inputs", "configurations"], "every body count, every position/velocity/mass content, every direct engine",
     "The engine tests compare engines on one or two body counts and random positions; tile remainders, close encounters and exchanged components at other counts are not sampled.",
     ["nbody/nbody_engine_simple.cpp", "nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_block.cpp", "nbody/nbody_data.cpp"],
     [("pair force with clamped distance", "nbody/nbody_data.cpp force"), ("all-pairs loops", "nbody_engine_simple/openmp/block fcompute")],
     technique="effect summary of the derivative evaluation compared with the pair-force specification by identity testing of summed forms",
     note="Real-number semantics; every body count is covered because loop bounds are kept as forms in the count. Engines whose summation order depends on run-time data (trees, neighbour lists) are outside this property.")

prop("C03", "Loading bodies into an engine and reading them back is the identity",
     "Initialising an engine stores component c of body i at element c*count+i of the state vector (three position components, then three velocity components) and the mass of body i at element i of the mass vector, for every count. "
     "Reading the engine back stores exactly those elements into the positions and velocities of the same bodies and changes nothing else about them. The buffers have exactly the size this needs, "
     "and time and step number of the engine are those of the bodies: advancing by dt adds dt to the time and one to the step number.",
     ["inputs", "configurations"], "every body count and content; the host engines and the host side of the OpenCL engines",
     "The tests load one universe, whose masses and components are compared only through forces; swapped components, wrong strides at other counts and a stale clock are not observed.",
     ["nbody/nbody_engine_simple.cpp", "nbody/nbody_engine_opencl.cpp", "nbody/nbody_engine.cpp", "nbody/nbody_data.cpp"],
     [("init and get_data", "nbody/nbody_engine_simple.cpp, nbody/nbody_engine_opencl.cpp"), ("clock accessors", "nbody/nbody_engine.cpp, nbody/nbody_data.cpp")],
     technique="effect summaries of initialisation and read-back over SSA form, compared with the layout by identity testing of the index and value forms",
     note="Real-number and mathematical-integer semantics. For the OpenCL engines the host arrays handed to the transfer calls are judged, not the transfer.")

prop("C04", "Every Runge-Kutta table has its published order and is self-consistent",
     "Each built-in Runge-Kutta coefficient table satisfies all rooted-tree order conditions of its published pair of weight rows, its stage times are the row sums of its stage matrix, and every coefficient a step reads is inside the stored table. "
     "The weight row that advances the solution reaches the documented order of the solver, and each solver uses the table of its own method. A table is declared implicit exactly when its stages need it, and every table except rk4 and rkgl is declared embedded (two weight rows of different order), so that its steps can be subdivided.",
     ["configurations", "inputs"], "all ten tables, all order conditions up to order 14 (tens of thousands of trees)",
     "Tests integrate one short trajectory at one step size: a perturbed coefficient of a high-order stage or companion weight shifts the result below their tolerance, and the companion row is not observed without adaptive subdivision.",
     ["nbody/nbody_butcher_table.cpp", "nbody/nbody_solver_rkck.cpp", "nbody/nbody_solver_rkdp.cpp", "nbody/nbody_solver_rkdverk.cpp", "nbody/nbody_solver_rkf.cpp", "nbody/nbody_solver_rkfeagin10.cpp", "nbody/nbody_solver_rkfeagin12.cpp", "nbody/nbody_solver_rkfeagin14.cpp", "nbody/nbody_solver_rkgl.cpp", "nbody/nbody_solver_rklc.cpp"],
     [("static coefficient arrays", "nbody/nbody_solver_rk*.cpp and nbody/nbody_butcher_table.cpp"), ("solver constructors", "nbody/nbody_solver_rk*.cpp")],
     technique="constant propagation over static storage, then exact rooted-tree order conditions on the propagated tableau",
     note="Coefficients are taken at the precision of the compiled constants or of their source text (80-bit arithmetic, residual tolerance 4e-16 / 1e-18). Four tables advance with their lower-order row: recorded as known findings.")

prop("C05", "One step of each fixed-formula solver is its textbook formula",
     "A step of the Euler, midpoint, classical Runge-Kutta, trapezoidal, Stetter midpoint and Adams-Bashforth solvers maps the old state to the state given by the method's textbook formula, every derivative being evaluated at its own stage time, "
     "and moves the simulation time forward by exactly the step, once. For Adams-Bashforth of rank 1 to 5 the formula combines the derivatives of the most recent consecutive steps with the exact weights of that rank, and starting steps are delegated unchanged to the starting solver.",
     ["inputs", "histories", "configurations"], "every state, time and step size, every step number of a run, with and without compensated summation, every refinement count",
     "Tests integrate one trajectory with constant steps and a loose tolerance and no engine uses the stage time, so wrong stage times, wrong slots of the derivative history at later step numbers and low-order slips stay below the tolerance.",
     ["nbody/nbody_solver_euler.cpp", "nbody/nbody_solver_midpoint.cpp", "nbody/nbody_solver_rk4.cpp", "nbody/nbody_solver_trapeze.cpp", "nbody/nbody_solver_midpoint_stetter.cpp", "nbody/nbody_solver_adams.cpp"],
     [("step functions issuing engine vector operations", "nbody/nbody_solver_*.cpp advise")],
     technique="forward dataflow of state vectors through the engine interface, identity testing of the resulting form against the method's formula",
     note="Engine operations are taken at their documented meaning (decided by C01/C02). Real-number semantics. Adams step numbers 0..3*rank+2 are enumerated as configurations.")

prop("C06", "A tabulated Runge-Kutta step is the scheme of its table",
     "A step of any table-driven Runge-Kutta solver evaluates stage i at time t + c[i]*dt on the state plus dt times the i-th row of the stage matrix applied to the stages, and advances the state by dt times its second weight row applied to the stages; "
     "for implicit tables the stages are refined by the configured number of fixed-point passes. "
     "With an embedded pair, if the largest difference of the two weight rows exceeds the threshold, the step is redone as the configured number of equal parts on the buffer of the next recursion level, "
     "unless the recursion limit or the minimal step is reached. The running compensation of compensated summation is changed by accepted updates only, and time moves by dt and the step number by one exactly once.",
     ["inputs", "configurations", "histories"], "every table, state, time, step size, error threshold, recursion limit, subdivision count and refinement count",
     "Tests run default settings on one trajectory: subdivision, deep recursion, a rejected step with compensation and later implicit refinements are hardly or never reached.",
     ["nbody/nbody_solver_rk_butcher.cpp"],
     [("sub_step, sub_step_implicit, advise", "nbody/nbody_solver_rk_butcher.cpp")],
     technique="forward dataflow of state vectors and stage lists through the engine interface, loop recurrences closed, identity testing against the scheme",
     note="Engine operations are taken at their documented meaning (C01). Coefficients are symbolic; the tables themselves are C04. Real-number semantics.")

prop("C07", "A Bulirsch-Stoer step extrapolates independent restarts of the same step",
     "In a Bulirsch-Stoer step with at least three levels every level restarts from the state and time at the beginning of the step, runs its own number of equal substeps with a freshly reset inner solver and enters the result in the extrapolation table. "
     "From the third level on, the step ends with the extrapolated state of the first level whose error estimate is below the threshold, or of the last level. "
     "The numbers of substeps of the levels are the Bulirsch-Stoer sequence 2, 4, 6, 8, 12, 16, 24, ... (from the fourth on twice the last but one). The extrapolation is built for the same sequence and for error expansions in even powers, and the time afterwards is the time before plus dt.",
     ["inputs", "histories", "configurations"], "every state, time and step size, every level count of three or more, every threshold",
     "Tests use one threshold and one trajectory; a stale inner solver or a wrong restart at late levels changes the result below their tolerance.",
     ["nbody/nbody_solver_bulirsch_stoer.cpp"],
     [("advise, compute_substep, init_steps", "nbody/nbody_solver_bulirsch_stoer.cpp")],
     technique="forward dataflow of state vectors with the inner solver and the extrapolation table as abstract state, identity testing of the closed loop recurrences; conditional constant propagation of the substep sequence through the constructor",
     note="Level counts up to 12 and thresholds are sampled in the identity test of the closed forms. The step counter is not part of the property (inner substeps advance it too).")

prop("C08", "A stream frame becomes visible in the index only when it is complete on disk",
     "When a simulation frame is written to a stream, its index line (step, time, part number, position where the frame starts) reaches the index file only after all positions and then all velocities of the frame were written to that part file at that position and flushed. "
     "A write that fails earlier adds no index line, so a process that dies or a disk that fills up at any point leaves an index that names complete frames only. "
     "A new part with the next number is started exactly when a positive size limit is reached. A newly opened stream starts empty part 0 and index and is headed by one header before the first frame; a resumed stream appends to the last part and to the index of the stream it continues, without truncating them and without a second header.",
     ["crash_points", "fault_sequences", "histories"], "every path of write() and open() with every outcome of every file operation, every part size limit, every earlier state of the stream object",
     "Tests write a few frames to a healthy disk; the order of effects, full disks, crashes between two writes and reopened stream objects are not observable in them.",
     ["nbody/nbody_data_stream.cpp"],
     [("write, open, write_header, open_data_file, open_index_file", "nbody/nbody_data_stream.cpp")],
     technique="path-sensitive typestate analysis of files and text streams over SSA form with failure outcomes split at every operation",
     note="Flushing is to the operating system (QFile::flush), not to the medium. Qt calls are modelled by their documented contracts.")

prop("C09", "Input, output and parse failures are reported to the caller",
     "No function that saves or loads bodies (text, Zeno and automatic formats) or writes, opens, loads, seeks or reads a stream reports success after a file could not be opened, positioned, read completely, written completely or flushed, or after a number could not be converted; "
     "lines with an unreadable number are never recorded as bodies or frames, columns are used only after their number was checked, data lines are not skipped silently, and input that ends before the announced number of bodies is rejected. "
     "Only a failure that occurs after a frame's own data were read (prefetching the next frame, colours, masses) may leave the read successful.",
     ["fault_sequences", "inputs"], "every path of the nine input and output functions with every outcome of every file operation and conversion",
     "Tests have a handful of broken files; full disks, short reads in the middle of a file and garbage in a late column cannot be sampled exhaustively.",
     ["nbody/nbody_data.cpp", "nbody/nbody_data_stream.cpp", "nbody/nbody_data_stream_reader.cpp"],
     [("save, load, load_zeno_ascii, load_initial", "nbody/nbody_data.cpp"), ("write, open", "nbody/nbody_data_stream.cpp"), ("load, seek, read", "nbody/nbody_data_stream_reader.cpp")],
     technique="path-sensitive typestate analysis with failure outcomes split at every file, stream and conversion operation",
     note="Qt calls are modelled by their documented contracts. Whether an error message is printed is not judged.")

prop("C10", "The stream reader understands exactly what the writer writes",
     "Each column of an index line is parsed into the field that the reader uses for that quantity, with the separator, number of columns and kind of number the writer emits; each header line carries the quantity that the reader keeps for its key (coordinate size, body count, box size); "
     "frames, colours and masses are read in the order, with the sizes and into the arrays they were written from, and the names of the index, part, colour and mass files are built alike on both sides. "
     "Data are never read into bodies whose number differs from the stream's, and a stream of another coordinate size, one whose header lacks the body count or the box size, and an index line with a column that is not a number are not accepted; complete headers and records are.",
     ["inputs", "histories"], "every stream that the writer can produce: all body counts, steps, times, part numbers and positions",
     "Tests round-trip small streams: step numbers, positions or part numbers that need more than 32 bits, wrong body counts and foreign coordinate sizes are not reached.",
     ["nbody/nbody_data_stream.cpp", "nbody/nbody_data_stream_reader.cpp"],
     [("write, write_header, make_*_name", "nbody/nbody_data_stream.cpp"), ("load, parse_header_line, read, read_colors, read_masses", "nbody/nbody_data_stream_reader.cpp")],
     technique="typestate and value-flow analysis of writer and reader, comparison of the emitted and the parsed format",
     note="The time in the index has the six digits of the text stream's default format (pinned by the test suite); its precision is not part of the property.")

prop("C11", "The stream reader delivers the frame it names and can be used again",
     "seek() succeeds only for a frame number below the number of frames, and then the part file of that frame is open at that frame's position and the frame is the current one; load() ends at frame 0. "
     "read() takes data only from the position of the current frame, gives the bodies that frame's time and step, and makes the next frame current unless the last one was read or the next one cannot be reached; it succeeds only when the frame could be read in full. Colours and masses come with the first frame read after load (when that fails, with the next one) and are then not read again. "
     "load() forgets everything of the previous stream, and the frame count, last step, last time and last part number are those of the last index entry (0 without one).",
     ["histories", "inputs", "fault_sequences"], "every sequence of load, seek, read and close calls with every outcome of every file operation",
     "Tests walk a stream forward and seek a few times; re-reading the last frame, seeking across part files after a failure and loading a second stream are not sampled.",
     ["nbody/nbody_data_stream_reader.cpp"],
     [("load, close, seek, read, get_*", "nbody/nbody_data_stream_reader.cpp")],
     technique="path-sensitive typestate analysis of the reader's file and members; inductive step over each public operation",
     note="Qt calls are modelled by their documented contracts.")

prop("C12", "Text files of bodies are written and read without loss, column by column",
     "nbody_data::save writes every body as one line x y z vx vy vz mass radius with at least 17 significant digits. "
     "nbody_data::load reads such lines: columns 0 to 6 become position, velocity and mass of one body in that order, column 7 the radius (0 when absent); masses are multiplied by the gravity constant of the chosen units. A line of seven or more numbers is a body; a line with fewer columns or with a column that is not a number makes the load fail; text after // is ignored. "
     "load_initial knows the type names G1, SI, ADK and Zeno and selects exactly these units; a Zeno file is read as all masses, then all positions, then all velocities; the box size becomes the whole part of the largest coordinate of any body, at least 1. "
     "Loading replaces the bodies held before, and the reader splits lines where the writer separates numbers.",
     ["inputs"], "every number of bodies, every coordinate value, every file content that parses",
     "Tests round-trip one or two files; a swapped column, a lost digit or a unit that is applied to one format only shows for values the samples do not have.",
     ["nbody/nbody_data.cpp"],
     [("nbody_data::save/load/load_initial/load_zeno_ascii", "nbody/nbody_data.cpp")],
     technique="path-sensitive dataflow: every store into a body array is traced back to the column it was converted from, every emitted number to the array element",
     note="Qt calls are modelled by their documented contracts.")

prop("C13", "The arrays of nbody_data stay in step and hold what they are given",
     "On every path of every nbody_data member function that adds, removes or resizes bodies, positions, velocities, masses, radii and colours change by the same number of elements and the count with them; add_body puts each of its arguments in the array of that name. "
     "is_equal returns true only when the counts agree and for every body mass, radius and all components of position and velocity differ by at most the tolerance, and does not tell equal bodies apart. "
     "advise_time adds dt to the time and one to the step; set_time and set_step set just that.",
     ["inputs", "histories"], "every body, every sequence of member function calls",
     "An array left behind shows up only as an out-of-bounds read or a stale value in some later operation; tests compare a few hand-made bodies.",
     ["nbody/nbody_data.cpp", "nbody/nbody_data.h"],
     [("add_body, resize, clear, add_galaxy, make_universe, load*, is_equal, advise_time, set_*", "nbody/nbody_data.cpp")],
     technique="path-sensitive effect analysis of the body arrays (inductive invariant), witness assignments against the path facts for is_equal")

prop("C14", "A run steps to the end time and checks and dumps exactly when due",
     "The step sizes, the clamping flag (off in a new solver), the engine and the check visitors in use are those that were set or added. nbody_solver::run makes passes exactly while the simulated time is below the end time; each pass calls advise once with max_step, and before it, exactly when clamping is enabled, wraps the coordinates into the data's box. "
     "After the step, statistics are printed and every check visitor is called once exactly when the check interval is positive and at least that interval (less a tenth of the step) has passed since the last check; "
     "the state is copied from the engine and then written to the stream exactly when a stream is set, the dump interval is positive and that interval (less a tenth of the step) has passed since the last dump; the time of the last check or dump becomes the time of that pass. "
     "The initial state is written first exactly when a stream is set, the dump interval is positive and the simulation starts at time 0. run returns 0 only after the end time is reached and nonzero at once when a write fails.",
     ["schedules", "configurations", "fault_sequences"], "every end time, interval, step size, flag, number of visitors and outcome of every write",
     "Tests run a few intervals that divide the end time; missed or doubled dumps show for other ratios of step, check and dump interval or on write failures.",
     ["nbody/nbody_solver.cpp"],
     [("nbody_solver::run", "nbody/nbody_solver.cpp:118"), ("set_time_step, set_check_list, add_check_visitor", "nbody/nbody_solver.cpp")],
     technique="path-sensitive dataflow over the run loop; the conditions of every path are compared with the specified ones on witness assignments")

prop("C15", "The extrapolators build the documented tables, weights and error estimates",
     "Constructed with order p, an extrapolator uses the substep counts raised to the power p. "
     "Neville: entering the result of level k sets T[k][0] to it and T[k][j+1] = (n_k T[k][j] - n_(k-j-1) T[k-1][j]) / (n_k - n_(k-j-1)) for j < k, T[k-1] being the row entered before; the entered state is not changed; extrapolate gives T[level][level]. "
     "Berrut: entering a result keeps it under its level and changes no other; extrapolate(level) is the mean of the first `level` results with weights proportional to (-1)^n n_n. "
     "estimate_error is the largest absolute difference of extrapolate(level) and extrapolate(level-1) (Neville: of the last two entries of the current row), and the largest finite number at level 0. Neither estimating nor extrapolating changes the table.",
     ["inputs", "histories"], "all levels (decided for rows 0 to 4 and 7), all substep sequences and all states",
     "Tests run whole integrations and accept small global errors: a wrong entry beyond the first rows only lowers the order of convergence.",
     ["nbody/nbody_extrapolator.cpp"],
     [("nbody_extrapolator_neville::update_table/estimate_error/extrapolate", "nbody/nbody_extrapolator.cpp:122"), ("nbody_extrapolator_berrut::*", "nbody/nbody_extrapolator.cpp:34"), ("nbody_extrapolator constructor", "nbody/nbody_extrapolator.cpp:5")],
     technique="abstract interpretation over linear combinations of engine buffers; the form left in every table entry is compared with the recurrence by polynomial identity testing",
     note="Rows and levels are enumerated (0-4, 7); values and substep counts are arbitrary.")

prop("C16", "The reported conserved quantities are those of the bodies",
     "print_statistics first fetches the bodies from the engine when one is given, and then updates a quantity exactly when its letter is in the check list: impulse P = sum of m v, angular momentum L = sum of r x m v, mass centre V = sum of m r over sum of m, energy E = kinetic (half the sum of m v^2) plus potential (half the sum over all ordered pairs of different bodies of -m m'/r, pairs closer than the softening distance counting 0). "
     "The initial values are the totals of the first call and are never changed by later calls. The relative errors are 100 |last - initial| / |initial| of impulse, angular momentum and total energy. "
     "Sums are compensated: sum minus correction grows by exactly the addend in every pass. The force and potential between two bodies are the softened Newtonian ones.",
     ["inputs", "histories"], "all bodies and numbers of bodies, all check lists, every sequence of calls",
     "Tests look at the errors of a few short runs with generous bounds; a wrong weight, a lost body or a drifting reference value stays within them.",
     ["nbody/nbody_data.cpp", "nbody/summation.h", "nbody/summation_proxy.h", "nbody/vertex.h"],
     [("nbody_data::print_statistics", "nbody/nbody_data.cpp:57"), ("nbody_data::get_*_err, force, potential_energy", "nbody/nbody_data.cpp"), ("summation, *_proxy", "nbody/summation.h")],
     technique="value numbering over the reals with loop sums in closed form, compared with the specified sums by identity testing; dataflow cut at the rounded sum for the compensation",
     note="Sums are exact in the comparison; the size of rounding errors is not bounded.")

prop("C17", "Solvers own their buffers: made before use, never read stale, released once",
     "In every sequence of steps and resets: a new solver or extrapolator holds no buffer it has not created; every buffer handed to the engine has been created and not released, has room for the whole state, and is an existing element of its list; no operation reads a buffer nothing has been written to since its creation; no buffer in use is replaced by a new one; the compensation of a compensated sum starts at zero. "
     "reset gives the solver its initial state: the members a step changes are as after construction, no later step reads what the steps before reset left in a buffer, and the inner (starter) solver is reset too. "
     "An inner solver has been given the engine before it advances. The destructor releases every buffer exactly once and destroys every object the solver owns; engines likewise release the buffers init created. "
     "create_buffers creates as many buffers as asked for, each of the size asked for, and free_buffers releases every buffer of the list.",
     ["histories", "configurations"], "every sequence of steps, resets and destruction, all orders, table kinds, recursion depths and compensation settings",
     "Tests run each solver once from construction to destruction with one configuration: a stale buffer after reset, a buffer missing only with compensation, or a leak stays invisible.",
     ["nbody/nbody_solver_*.cpp", "nbody/nbody_extrapolator.cpp", "nbody/nbody_engine.cpp", "nbody/nbody_engine_simple.cpp"],
     [("nbody_solver_*::advise, reset, destructors", "nbody/nbody_solver_*.cpp"), ("nbody_extrapolator_*", "nbody/nbody_extrapolator.cpp"), ("nbody_engine::create_buffers/free_buffers", "nbody/nbody_engine.cpp:21")],
     technique="disjunctive forward ownership and initialisation dataflow (typestate of every buffer member) over construction, three steps, reset, three more steps and destruction",
     note="Options are taken as set before the first step; lists are taken to have at least one element.")

prop("C18", "Factories build the documented object and every option reaches its setting",
     "nbody_create_solver, nbody_create_engine and nbody_create_extrapolator return, for each documented alias, an object of the class that implements it, and nothing for any other alias or for an undocumented value of traverse_type or tree_layout (opencl_bh: also for layout tree). "
     "Every option named after a setting (solvers: min_step 1e-9, max_step 1e-2, clamp off, rank 1, correction off, max_level 8, error_threshold 1e-4 (bs: 1e-11), max_recursion 8, refine_steps_count 1, substep_subdivisions 8; "
     "engines: full_recompute_rate 1000, max_dist 10, min_force 1e-4, distance_to_node_radius_ratio 10, tree_build_rate 0, traverse_type cycle, tree_layout tree (opencl_bh: heap), block_size, device 0:0, verbose, oclprof) reaches exactly that setting, converted to its type without loss, with the default given here when it is absent. "
     "The Adams starter is built from the same options with alias starter_solver (default euler); an unknown starter gives no solver, and building it ends for every starter. An OpenCL engine whose devices cannot be selected is deleted and not returned. "
     "nbody_parse_arguments stores exactly the arguments of the form --key=value, all of them, under key with text value; tree layout names and values convert into each other without loss.",
     ["configurations", "inputs"], "every alias and every combination of options and argument lists",
     "Tests build each object with one or two option sets and compare results with loose tolerances: an option that is swapped, ignored or has another default changes accuracy or speed, not the result of the test.",
     ["nbody/nbody_solvers.cpp", "nbody/nbody_engines.cpp", "nbody/nbody_extrapolator.cpp", "nbody/nbody_arg_parser.cpp", "nbody/nbody_engine_simple_bh.cpp", "nbody/nbody_solver_*.cpp", "nbody/nbody_engine_ah.cpp"],
     [("nbody_create_solver", "nbody/nbody_solvers.cpp:17"), ("nbody_create_engine", "nbody/nbody_engines.cpp:4"), ("nbody_create_extrapolator", "nbody/nbody_extrapolator.cpp:183"), ("nbody_parse_arguments", "nbody/nbody_arg_parser.cpp:5")],
     technique="conditional constant propagation specialised for each alias: option values are traced as terms from the option map through conversions, constructors and setters into the members of the returned object",
     note="Members are identified by name in the class layout; a renamed member, a table of creators or an option that is validated or bounded on its way is reported as undecided. CUDA engines are not built here and not analysed.")

prop("C19", "Barnes-Hut trees hold every body once and every node sums up its bodies",
     "After build(count, rx, ry, rz, mass, ratio) of nbody_space_tree and nbody_space_heap (also used by the stackless heap), for every number of bodies from 1 on: every body is in exactly one leaf, which holds its position as mass centre and as both corners of its box, its mass and its number, and has radius 0; "
     "bodies are split in two parts at the median of x, y and z in turn, neither part empty; every inner node holds the sum of its children's masses, the mass-weighted mean of their mass centres, the smallest box around both boxes, and as squared radius ratio^2 * (half the box diagonal + distance of box centre and mass centre)^2. "
     "In a heap node i has the children 2i and 2i + 1, the root is node 1 and the leaves of n bodies are the nodes n .. 2n - 1. "
     "rebuild(count, rx, ry, rz, ratio) keeps bodies and masses where they are and gives every node, children before their parent, the position, box and radius for the new coordinates and ratio.",
     ["inputs", "configurations"], "every number of bodies, all positions and masses, both layouts, build and rebuild",
     "Tests compare total forces of a few trees with power-of-two sizes and a tolerance of per cent: a wrong box, a node that is not updated or an opening radius that is too small costs accuracy only for some shapes and counts.",
     ["nbody/nbody_space_tree.cpp", "nbody/nbody_space_heap.cpp", "nbody/nbody_space_tree.h", "nbody/nbody_space_heap.h", "nbody/nbody_space_heap_func_priv.h"],
     [("nbody_space_tree::node::build", "nbody/nbody_space_tree.cpp:49"), ("nbody_space_tree::node::rebuild", "nbody/nbody_space_tree.cpp:107"), ("nbody_space_heap::build_p", "nbody/nbody_space_heap.cpp:147"), ("nbody_space_heap::rebuild", "nbody/nbody_space_heap.cpp:38")],
     technique="value numbering of the fields of a node in one step of the recursion, compared with the specified forms by identity testing; constant propagation of sizes and node numbers through the recursion and the level loops",
     note="Inductive over the recursion: a node is judged from its children. Sizes and level loops are followed for 1 to 69 (heap leaves) and 1 to 40 (rebuild) bodies; that std::nth_element partitions is taken from the standard library, and the comparators are not analysed beyond the coordinate they use.")

prop("C20", "Barnes-Hut traversal opens exactly the near nodes and gives every body its force",
     "traverse(data, v1, mass1) of nbody_space_tree, nbody_space_heap and nbody_space_heap_stackless starts at the root and returns the sum of data->force(v1, mass centre, mass1, node mass) over the nodes that are farther from v1 than their radius (squared distance > squared radius) and whose ancestors all are not; a node that is not farther contributes nothing itself and has both of its children visited (a leaf: nothing), no node is visited twice or left out, and the traversal ends when none is left. "
     "fcompute of the engines nbody_engine_simple_bh_tree, _heap and _heap_stackless builds the tree when it is empty, tree_build_rate is 0 or divides the step number, and rebuilds it in all other cases, before traversing it, with the coordinates of y, the masses and the ratio; "
     "then for traverse type cycle and nested_tree alike every body i gets its velocity as derivative of its place and traverse(place of i, mass of i) / mass of i as derivative of its velocity, in all six components.",
     ["inputs", "configurations"], "every tree, body, ratio, traverse type, layout, build rate and step",
     "Tests compare forces for some ratios with a tolerance that hides a node visited twice, a node opened too late, or a tree not rebuilt at some steps.",
     ["nbody/nbody_space_tree.cpp", "nbody/nbody_space_heap.cpp", "nbody/nbody_space_heap_stackless.cpp", "nbody/nbody_engine_simple_bh.cpp", "nbody/nbody_space_tree.h", "nbody/nbody_space_heap.h", "nbody/nbody_space_heap_func_priv.h"],
     [("nbody_space_tree::traverse", "nbody/nbody_space_tree.cpp:137"), ("nbody_space_heap::traverse", "nbody/nbody_space_heap.cpp:64"), ("nbody_space_heap_stackless::traverse", "nbody/nbody_space_heap_stackless.cpp:3"), ("nbody_engine_simple_bh::space_subdivided_fcompute", "nbody/nbody_engine_simple_bh.cpp:16")],
     technique="typestate of the traversal loop (current node, stack or next index, totals): the forms of one pass are compared with the specified step for every kind of node; path conditions and arguments of build, rebuild and traverse calls by value numbering",
     note="Inductive over the passes of the loop; heap indices are checked for sizes 2 to 12, where they depend on the size. The depth of the fixed-size stack is not bounded by this analysis.")

prop("C21", "Adjacent-bodies engine counts every other body once",
     "fcompute of nbody_engine_ah evaluates all pairs when full_recompute_rate is 0 or divides the step number, or when no forces are kept for this number of bodies; then every body gets velocity and total force of all other bodies / mass, and each other body is either recorded in the body's list of adjacent bodies - exactly when its squared distance is below max_dist^2 or its squared force above min_force^2 - or its force is added to the kept force, never both and never neither; lists and kept forces of earlier evaluations are discarded. "
     "At all other steps the derivative of every body's velocity is (kept force + sum of the forces of the recorded bodies at their current places) / mass, and that of its place is its velocity.",
     ["inputs", "histories", "configurations"], "all positions, masses, thresholds, rates and steps",
     "Tests compare with the direct engine for one threshold, where nearly all bodies are adjacent, and a loose tolerance.",
     ["nbody/nbody_engine_ah.cpp", "nbody/nbody_engine_ah.h"],
     [("nbody_engine_ah::fcompute", "nbody/nbody_engine_ah.cpp:16"), ("nbody_engine_ah::fcompute_full", "nbody/nbody_engine_ah.cpp:44"), ("nbody_engine_ah::fcompute_sparse", "nbody/nbody_engine_ah.cpp:118")],
     technique="path conditions of the two evaluations; one pass of the pair loop compared with the specified step for itself, close, strong and far bodies; closed form of the sparse evaluation by value numbering and identity testing")


prop("C22", "No data races in the OpenMP parallel code",
     "In every OpenMP region of the library (engines openmp, block, ah, simple_bh, host side of opencl, tree and heap build / rebuild / traverse): two different iterations of a parallel loop never touch the same shared memory unless both only read it - "
     "scratch values and stacks belong to one iteration or thread, each iteration writes results only to the places of its own body (block, node), maxima are combined by a reduction or under a lock; nodes of one level of a heap are updated only from nodes of deeper levels; "
     "a parallel loop that uses results of an earlier one starts after a barrier; outside of parallel loops only one thread of a team writes shared memory (single, master, critical); "
     "and the data of a subtree that is built or rebuilt by a task is not read before the task has been waited for. The results therefore do not depend on the number of threads or their schedule.",
     ["schedules", "inputs", "configurations"], "every schedule, number of threads and iteration pair, for all counts",
     "A race shows only under a particular interleaving; tests run with small problems where the window is rarely hit and compare with tolerances.",
     ["nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_block.cpp", "nbody/nbody_engine_ah.cpp", "nbody/nbody_engine_simple_bh.cpp", "nbody/nbody_engine_opencl.cpp", "nbody/nbody_space_tree.cpp", "nbody/nbody_space_heap.cpp", "nbody/nbody_space_heap.h"],
     [("nbody_engine_openmp::fcompute", "nbody/nbody_engine_openmp.cpp:55"), ("nbody_engine_openmp::fmaxabs", "nbody/nbody_engine_openmp.cpp:287"), ("nbody_space_heap::build_p", "nbody/nbody_space_heap.cpp:190"), ("nbody_space_heap::rebuild", "nbody/nbody_space_heap.cpp:44"),
      ("nbody_space_tree::node::rebuild", "nbody/nbody_space_tree.cpp:123"), ("nbody_engine_simple_bh::space_subdivided_fcompute", "nbody/nbody_engine_simple_bh.cpp:80"), ("nbody_engine_block::fcompute", "nbody/nbody_engine_block.cpp:51")],
     technique="loop dependence analysis on the outlined OpenMP code: addresses of all shared accesses as forms of the iteration number, conflicts decided on the footprints of different iterations; barrier / single / taskwait typestate on the control flow graph",
     note="Buffers passed to an operation are taken to be different unless the code shows otherwise; indices read from an array that all iterations share (leaf to body) are taken to be distinct, which C19 shows. CUDA code is not compiled here. Footprints are compared for 2 to 9 (block engine: to 130) iterations.")


prop("C23", "OpenCL kernels and their launches compute what the host engines compute",
     "The kernels of nbody_engine_opencl.cl, in the OpenCL 1.2 and the 2.0 build: fill, fmadd, fmadd_inplace, fmadd_inplace_corr and ClampCoord treat exactly the element of their work item as the operation says; fmaxabs leaves the largest absolute value of its part; "
     "ComputeBlockLocal adds up the force of every body once, reading local memory only between barriers; ComputeTreeBH, ComputeTreeBHSL, ComputeHeapBH and ComputeHeapBHSL visit the nodes like the tree traversals of C20 (far nodes and leaves counted once, near nodes opened, the stackless ones by the next node), and write velocity and acceleration of the body they stand for; "
     "UpdateLeafBH and UpdateNodeBH give a leaf its body's place and an inner node the box, mass centre and squared opening radius of its children. "
     "nbody_engine_opencl launches on every device the kernel that belongs to the operation, with this device's buffers in the right order, the offset and number of work items of this device's share of the bodies; one launch for every coefficient that is not zero in fmaddn_corr; "
     "update_tree updates every inner node after both of its children, whatever the number of bodies; rebuild_tree builds the heap from the state and the masses and uploads each of its arrays into its own buffer; the tree is rebuilt when tree_build_rate is 0, divides the step, or there is no tree yet, else updated; "
     "with several devices the state is exchanged before the forces are computed, and the parts of the result are collected (heap traversal: cleared before, summed) afterwards, so that every device holds every device's part (sum: every contribution once); read_buffer gathers each device's part, write_buffer and copy_buffer treat the whole buffer on every device; "
     "every command that is enqueued has been waited for when the method returns, and commands that are not ordered do not use the same element; fmaxabs returns the biggest of the partial results.",
     ["inputs", "configurations"], "all states, masses, ratios, trees, numbers of devices, both OpenCL versions",
     "The tests run the kernels on a simulator with a few power-of-two sizes, one kind of coefficients and one OpenCL version, and compare with tolerances.",
     ["nbody/nbody_engine_opencl.cl", "nbody/nbody_engine_opencl.cpp", "nbody/nbody_space_heap_func_priv.h", "nbody/nbody_engine_opencl_bh.cpp"],
     [("ComputeBlockLocal", "nbody/nbody_engine_opencl.cl:4"), ("ComputeTreeBH", "nbody/nbody_engine_opencl.cl:101"), ("ComputeHeapBHSL", "nbody/nbody_engine_opencl.cl:357"), ("UpdateNodeBH", "nbody/nbody_engine_opencl.cl:456"), ("nbody_engine_opencl::data::update_tree", "nbody/nbody_engine_opencl.cpp:1018"), ("nbody_engine_opencl::fcompute_bh_impl", "nbody/nbody_engine_opencl.cpp:1080")],
     technique="kernels compiled to IR with the work-item functions as symbols, closed forms by value numbering compared with the specified ones by identity testing; barrier typestate; typestate of the traversal loops; forms of the launch arguments of the host code per device, constant propagation through the launch loops",
     note="Kernel arithmetic is taken over the reals. Launch arguments are compared for 1 to 5 devices and 128 to 768 bodies, the level loop for 64 to 1344 bodies. Exchange between 2, 4 and 8 devices. The OpenCL runtime itself and the sum on the host for devices in different contexts are not analysed.")

prop("C24", "Engines account for every force evaluation and for all their buffers",
     "Every engine counts each force evaluation that computes forces exactly once, on every path (full and sparse evaluation of the adjacent-bodies engine, tree build and tree update, OpenCL); the counter of a new engine is zero and get_compute_count returns the number of evaluations. get_ode_order returns what set_ode_order was given last, and neither changes anything else; a solver that is given an engine works with it and tells it the order of its equations. "
     "create_buffers(size, n) returns n different new buffers of the given size; if one of them cannot be made it releases those made before, once each, and returns an empty array. free_buffers releases every buffer of the array once and leaves the array empty. "
     "A host buffer made for n bytes reports size n and owns at least n bytes, which are given back exactly once by free_buffer; free_buffer of no buffer does nothing.",
     ["inputs", "fault_sequences", "configurations"], "every path of every force evaluation, every number of buffers, failure at every creation",
     "Tests look at the count of few engines on one path, never let a buffer creation fail and cannot see a leak or a released pointer that stays in an array.",
     ["nbody/nbody_engine.cpp", "nbody/nbody_engine_simple.cpp", "nbody/nbody_engine_ah.cpp", "nbody/nbody_engine_block.cpp", "nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_simple_bh.cpp", "nbody/nbody_engine_opencl.cpp"],
     [("nbody_engine::create_buffers, free_buffers, advise_compute_count", "nbody/nbody_engine.cpp:21"), ("nbody_engine_simple::create_buffer, smemory", "nbody/nbody_engine_simple.cpp:201"), ("nbody_engine_ah::fcompute", "nbody/nbody_engine_ah.cpp:16")],
     technique="path-sensitive counting typestate over the control flow graph and the call graph; conditional constant propagation of object fields, allocations and pointer arrays through the buffer functions with a failure split at every creation",
     note="Arrays of 0, 1, 2, 3 and 5 buffers. A path computes forces when it enters a loop, an OpenMP region or an OpenCL launch. Device buffers of OpenCL are not analysed here.")
