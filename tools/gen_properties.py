#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SYS=["src/system_mod/cont_circ.rs","src/system_mod/cont_cubic.rs","src/system_mod/cont_cyl.rs","src/system_mod/mod.rs"]
AG=["src/agent_mod/cont_passive_indep.rs","src/agent_mod/cont_passive_merge.rs","src/agent_mod/cont_passive_exp.rs","src/agent_mod/cont_passive_lj.rs"]

p("C01","A particle never leaves its domain over any history of moves",
 "For every domain shape (ball, cube, cylinder), boundary type and dimension, a particle that starts inside and makes any sequence of moves is inside the domain after every move that was accepted. A move is either accepted or refused with an error; it never panics, and a move that ends nowhere (an infinite or overflowing displacement, or one that is not a number) is refused.",
 ["histories","configurations"],"Domain shapes, sizes (1e-6..1e6), dimensions 1..8, boundary types incl. mixed and degenerate splits, sequences of displacements from tiny to several domain sizes, and huge, infinite or undefined ones; in balls also through the exact and first-order wall treatments.",
 "The tests move a particle a handful of times in 2D; containment has to hold for every position, displacement, corner and dimension, after every prefix of a trajectory.",
 SYS,[("boundary check of a move","src/system_mod/cont_circ.rs:check_bc"),("boundary check of a move","src/system_mod/cont_cubic.rs:check_bc"),("boundary check of a move","src/system_mod/cont_cyl.rs:check_bc")],
 ["position after each move","result of the inclusion query"])
p("C02","A move ends exactly where one reflection or wrap-around puts it",
 "A move that stays inside the domain ends at start plus displacement; a move across the boundary ends at the mirror image in the wall (reflecting directions, radially for balls and for the round part of cylinders) or at the opposite side (periodic directions), each direction treated on its own. A move is refused with an error exactly when this single reflection or wrap does not bring it back inside.",
 ["inputs","configurations"],"All domain shapes, boundary types, splits between reflecting and periodic directions, dimensions 1..8, start points inside, displacements up to several domain sizes, away from rounding-size corner cases.",
 "Tests check single hand-computed 2D points; which direction gets which treatment depends on dimension, index and split and is only visible on generated geometry.",
 SYS,[("fold of the end point","src/system_mod/*.rs:check_bc"),("inclusion query","src/system_mod/*.rs:check_inclusion")],["end point of the move","error of a refused move"])
p("C03","Specular reflection in a ball is exact, its approximations consistent",
 "The exact reflection of a straight path in a ball ends where mirror reflection at the wall puts it: hitting the wall on the segment, keeping the path length, with equal angles of incidence and reflection. For short steps near the wall the cheaper first-order and radial treatments agree with the exact one up to second order in the step.",
 ["inputs"],"Balls of dimension 1..6 and sizes 1e-3..1e3, start points inside, displacements crossing the wall whose single reflection stays inside.",
 "The tests use one radius in 2D and compare few angles; the geometric law is over all start points, directions and dimensions.",
 ["src/system_mod/cont_circ.rs"],[("exact reflection","src/system_mod/cont_circ.rs:check_bc_exact"),("first order reflection","src/system_mod/cont_circ.rs:check_bc_first_order"),("radial reflection","src/system_mod/cont_circ.rs:check_bc")],["end point of the move"])
p("C04","Random positions lie in the domain and are uniform over its volume",
 "Every randomly drawn position lies inside the domain, and the draws are distributed uniformly over its volume, without preferred direction and without correlation between directions or between successive draws. The allocating and the in-place way of drawing give the same distribution, whatever the vector held before.",
 ["inputs","configurations"],"All shapes, dimensions 1..6, sizes over 8 decades, round/straight splits of cylinders including the degenerate ones, seeds, prior contents of the target vector.",
 "Existing tests draw few points in one 2D system; uniformity is a statement about the distribution for each shape, dimension and interface.",
 SYS+["src/random_mod/mod.rs"],[("random position","src/system_mod/*.rs:random_pos"),("random position in place","src/system_mod/*.rs:random_pos_to_vec")],["drawn positions"])
p("C05","The outside marker position is outside, the inclusion query is exact",
 "The position a system offers as 'outside of the system' has the system's dimension and lies outside of it, identically through both interfaces and for every size and shape. The inclusion query answers true exactly for the points of the closed ball, cube or cylinder.",
 ["inputs","configurations"],"All shapes, size ratios between radius and length from 1e-6 to 1e6, dimensions 1..8, probe points at all relative depths incl. just inside/outside of each wall, and infinite or undefined ones (never inside).",
 "Tests use one size per shape; for cylinders the answer depends on the ratio radius/length and the split.",
 SYS,[("marker","src/system_mod/*.rs:position_out_of_system(_to_vec)"),("inclusion","src/system_mod/*.rs:check_inclusion")],["marker position","inclusion answer"])
p("C06","Agents start inside the domain, off the target, in the right dimension",
 "Agents created with uniform initialisation, and agents renewed for the next ensemble, stand inside the domain and not on the target, with the dimension of the system, however they were used before (other dimension, other position, merged). Renewal gives each allowed place the same chance and keeps the agent's parameters, except that a merged cluster becomes a single particle with its single-particle diffusion coefficient again.",
 ["histories","configurations"],"Four agent kinds x three shapes x dimensions 1..4 x target places and sizes (also off-centre, covering most of the domain) x histories of use before renewal x seeds.",
 "Tests renew one agent once in one system; the claim is about every previous history and every system/target pair.",
 AG,[("creation","src/agent_mod/*.rs:new_uniform"),("renewal","src/agent_mod/*.rs:renew_uniform"),("creation from arguments","src/agent_mod/*.rs:convert_from")],["position, dimension and parameters of the agent"])
p("C07","A target is found exactly within its radius",
 "A searcher finds the target exactly when its distance to the target's centre is smaller than the target's radius, in every dimension and direction; the reported distance is the Euclidean one. A position of another dimension is refused with an error.",
 ["inputs"],"Target positions, radii over many decades incl. 0, dimensions 1..8, probes at all relative distances incl. the two sides of the rim.",
 "Tests probe a few points of one 2D target.",
 ["src/target_mod/cont_bulk.rs","src/position.rs"],[("detection","src/target_mod/cont_bulk.rs:check_find"),("distance","src/position.rs:distance")],["detection answer"])
p("C08","Brownian displacement has mean zero and variance 2 D dt per direction",
 "The random displacement of an agent is normally distributed in each direction with mean 0 and variance 2 D dt, independent between directions and between successive steps, for each agent kind; it scales with the square root of D dt for the same random numbers. The in-place form adds the displacement to what the vector holds, and both forms draw the same numbers from the same random state; kinds of motion that are not supported are refused with an error, leaving the vector as it was.",
 ["inputs"],"Four agent kinds, dimensions 1..6, D and dt over many decades incl. 0 and pairs with a common sum, product or ratio, seeds, prior vector contents.",
 "The tests look at one dimension, one D, one dt; the law is over all of them and over the distribution.",
 AG+["src/random_mod/mod.rs"],[("displacement","src/agent_mod/*.rs:random_move"),("in place","src/agent_mod/*.rs:random_move_to_vec")],["displacement vectors"])
p("C09","Equal seeds give equal histories, different seeds different ones",
 "Everything random (numbers, vectors, positions, agents, displacements, whole trajectories) is a function of the seed and of the calls made: the same seed and calls give bit-identical results, in any process or thread and whatever happened on other generators. Seeds that differ in any of their 128 bits give different streams.",
 ["histories"],"Seeds over the whole 128 bit range incl. pairs differing in one bit, random programs of calls to all random operations, interleaved with other generators.",
 "Tests use a handful of small seeds and fixed call sequences.",
 ["src/random_mod/mod.rs"]+AG+SYS,[("seeding","src/random_mod/mod.rs:rng_seed"),("draws","src/random_mod/mod.rs:get_*")],["values drawn"])
p("C10","Forces are minus the gradient of the stated potentials",
 "The exponential agents' potential is s*exp(-r/g) and the Lennard-Jones agents' potential is 4s((a/r)^12-(a/r)^6), and the force is minus the derivative of the potential at every distance. Agents with the same parameters have the same potential and force, whichever way they were created, copied or renewed.",
 ["inputs","histories"],"Strengths (both signs, 0), ranges and sizes over many decades, distances from 0.3 to 30 ranges, dimensions 1..4, every construction route followed by renewals.",
 "Tests evaluate one or two distances of a directly constructed agent.",
 ["src/agent_mod/cont_passive_exp.rs","src/agent_mod/cont_passive_lj.rs"],[("coefficients","coeff in both files"),("potential and force","impl Interaction in both files")],["potential and force values"])
p("C11","Mutual displacement is the unit vector and distance to the other agent",
 "For two agents at different places the mutual displacement is the unit vector pointing from the first to the second together with their Euclidean distance; exchanging the agents flips the vector and keeps the distance. The in-place form overwrites the vector with the same result, and the plain distance query agrees with both; agents or vectors of different dimension are refused.",
 ["inputs"],"Four agent kinds, dimensions 1..6, positions over many decades, prior vector contents.",
 "Tests use one pair of points in 2D.",
 AG,[("displacement","src/agent_mod/*.rs:mutual_displacement(_to_vec)"),("distance","src/agent_mod/*.rs:mutual_distance")],["returned vector and distance"])
p("C12","The agent list always enumerates exactly its live elements, in order",
 "After any history of appends, deletions (also of first, last and only elements, and while a traversal is under way), reconnections and earlier partial traversals, a traversal visits exactly the live elements, each once, in the order they were appended, with their right indices and contents. Deleting an element that does not exist or is already deleted is refused and changes nothing; reconnecting brings all elements back.",
 ["histories"],"Histories of up to 60 operations on lists of 0..15 elements, all five single-traversal forms, deletion during traversal at every place.",
 "Unit tests run three fixed histories; the list invariants are over all histories.",
 ["src/iterator.rs"],[("deletion","src/iterator.rs:del"),("append","src/iterator.rs:push"),("cursor","src/iterator.rs:get/get_mut/enumerate/enumerate_mut/indicies")],["visited indices and contents"],
 [("links","chain of live elements","src/iterator.rs:LinkedList"),("current","cursors of the traversals","src/iterator.rs:LinkedList")])
p("C13","Pair traversal meets each pair of live elements exactly once",
 "A pair traversal visits each unordered pair of live elements once, in lexicographic order of the list, never an element with itself and never a deleted element, and terminates. When elements are deleted or merged away during the traversal, the pairs still to come among the remaining elements are neither skipped nor repeated.",
 ["histories"],"Lists of 0..12 elements after random deletions and appends, deletion of any subset of elements at any point of the traversal, all three pair-traversal forms.",
 "One fixed example exists; missing or repeated pairs appear only for particular deletion places.",
 ["src/iterator.rs"],[("pair cursor","src/iterator.rs:get_double/enumerate_double/indicies_double"),("cursor repair on deletion","src/iterator.rs:del")],["visited pairs"])
p("C14","Merging conserves total size and follows the diffusion law",
 "Over any history of merges the total size of the live clusters equals the initial number of particles, the number of live clusters drops by one per merge, the absorbed cluster is gone, and a cluster of size n diffuses with D1*n^(-alpha), where D1 is the single-particle coefficient. A merge that is refused (cluster with itself, dead or missing cluster, unsupported motion) leaves every cluster as it was.",
 ["histories"],"Populations of 1..20 agents, D1 and alpha over wide ranges, random merge sequences incl. invalid ones, direct merging of agents, merging during traversals, renewals in between.",
 "Tests merge two agents four times with D1=1.",
 ["src/iterator.rs","src/agent_mod/cont_passive_merge.rs"],[("list merge","src/iterator.rs:merge"),("cluster merge","src/agent_mod/cont_passive_merge.rs:merge/add_size"),("renewal","src/agent_mod/cont_passive_merge.rs:renew_uniform")],["sizes, diffusion coefficients, live elements"])
p("C15","A constant-step clock yields 0, dt, 2dt, ... up to the time limit",
 "The constant-step clock yields the multiples of its step from 0 on, each reported step equals the difference to the next time, and it stops exactly after the last time not beyond the limit; a limit of 0 means no limit and a negative one is refused. Renewal restarts it at 0, reading it with steps goes on from where it is and does not disturb the original, and clocks made directly and from arguments behave alike.",
 ["inputs","histories"],"Steps 1e-12..1e6, limits incl. 0, tiny, and between multiples, histories of next/renew/limit changes.",
 "One test with dt=1 and limit 5.",
 ["src/time_mod/mod.rs"],[("iteration","src/time_mod/mod.rs:ConstStep::next"),("limits","src/time_mod/mod.rs:ConstStep::set_tmax/convert_from")],["yielded times and steps"])
p("C16","The growing-step clock follows its schedule",
 "The growing-step clock starts at 0 with the minimal step, multiplies its step by the growth ratio after every block of the configured number of steps until it reaches the maximal step, never exceeds it, and its growth ratio is always larger than one; a ratio set under way holds from the next increase on and leaves the running block as it is; each yielded step is the difference to the next time and no time lies beyond the limit. Renewal restarts the same schedule, and clocks made directly and from arguments behave alike apart from the default ratio.",
 ["inputs","histories"],"Minimal/maximal steps over 20 decades incl. equal ones, block lengths 1..50, ratios incl. ones too large for the block length, limits, histories of next/renew/ratio/limit changes.",
 "Tests run one schedule; block boundaries, caps and short blocks differ per parameter set.",
 ["src/time_mod/mod.rs"],[("schedule","src/time_mod/mod.rs:ExponentialStep::next"),("ratio","src/time_mod/mod.rs:ExponentialStep::set_inc/new"),("renewal","src/time_mod/mod.rs:ExponentialStep::renew")],["yielded times and steps"])
p("C17","Values survive the trip through their text form",
 "Reading the printed form of any system type, boundary condition, target type, agent type, kind of motion, initialisation, interaction, position or time-step type gives the value back (time steps within the printed digits), and the short input forms documented for the command line denote the documented values. Separators and brackets accepted for positions all mean the same position. A position without components can be printed as well: its text is empty.",
 ["inputs"],"All variants with generated numbers over the whole floating-point range, dimensions 0..40, the documented short forms with generated numbers.",
 "Tests print and read a few constants; the round trip is over all numbers and variants.",
 ["src/system_mod/mod.rs","src/target_mod/mod.rs","src/agent_mod/types.rs","src/time_mod/mod.rs","src/position.rs"],[("printing","impl Display in these files"),("reading","impl FromStr in these files")],["parsed values"])
p("C18","Configuration written to a data file is read back unchanged",
 "The configuration block printed for any system, target, agent, clock or simulation, at any column width, is read back from a file to the same values, consuming exactly its own lines, so that blocks written one after the other are read one after the other. Arguments given as text on the command line and read are the same values as well, surrounding blanks ignored, and so are arguments put together directly from the values; clearing arguments leaves their kind and sets every value to its default.",
 ["inputs","configurations"],"All 12 parameter structures with generated values (full-range numbers, output paths with separators and colons), random sequences of blocks followed by data lines, widths 0..40.",
 "The tests read one or two fixed blocks.",
 ["src/argument.rs","src/macros.rs","src/setup.rs"],[("printing","src/argument.rs:impl_fn_print_configuration"),("reading","src/argument.rs:impl_fn_read_args_from_lines"),("command line","src/argument.rs:impl_fn_read_args_from_vec")],["structures read","remaining lines"])
p("C19","Malformed input is refused with an error, never a panic or a silent default",
 "Text that gives no value of its kind (garbage, unknown or missing keywords, missing or unreadable numbers, wrong numbers of components), argument lists of the wrong length and damaged or truncated configuration blocks are refused with an error, and so are pairs and other analysed names with a wrong count of numbers; nothing panics. A number that cannot be read is never silently replaced by another value. (Descriptive words after a leading keyword carry no meaning and need not be checked, except that the sentence of an interaction has to be whole, with no word missing or added.)",
 ["inputs"],"Byte-level and token-level mutations of valid texts for every type and structure, random texts, argument lists of every length 0..12, configuration blocks cut or damaged at every line.",
 "Tests try a few malformed strings.",
 ["src/argument.rs","src/system_mod/mod.rs","src/agent_mod/types.rs","src/time_mod/mod.rs","src/position.rs","src/analysis.rs"],[("reading","impl FromStr in these files"),("argument count","src/argument.rs:impl_fn_read_args_from_vec")],["error result"])
p("C20","Invalid parameters are refused alike by constructors and argument conversion",
 "A system, clock, exponential or Lennard-Jones agent with parameters outside its domain (sizes or steps that are not positive or not numbers, zero dimension, a split larger than the dimension, minimal above maximal step, inconsistent shape/boundary/dimension or interaction kinds) cannot be made, whether directly or from arguments, and all valid parameters can. What is made has exactly the given parameters, and both routes give the same object.",
 ["inputs","configurations"],"Parameter sets of all constructible things drawn from valid and invalid ranges with boundary values.",
 "Tests try single invalid values for some constructors; conversion is hardly tested.",
 SYS+AG+["src/time_mod/mod.rs","src/target_mod/cont_bulk.rs","src/setup.rs"],[("construction","new in each file"),("conversion","convert_from in each file")],["constructed values or refusal"])
p("C21","Histograms count every sample once, in its bin, with the right density",
 "For any bin layout and samples, each sample inside the time range is counted once in the linear and once in the logarithmic histogram, in the bin that contains it, and samples outside it or that are not numbers are not counted; this holds at the ends of the range as well. Every non-empty bin appears in the exported distribution with its centre, its count and density = count/(number of samples x bin width), empty ones do not; unusable bin layouts (bins that are not positive and finite, ranges that are empty or not finite) are refused.",
 ["inputs"],"Layouts by bin size and by number of bins, ranges over many decades, samples placed everywhere incl. exactly at range ends, single- and multi-variable analyses.",
 "Tests plot one Gaussian sample; bin edges, ends of the range and other layouts are not compared with anything.",
 ["src/analysis.rs"],[("bin lookup","src/analysis.rs:construct_trait_bin"),("counting","src/analysis.rs:add_ensemble"),("densities","src/analysis.rs:draw"),("export","src/analysis.rs:export_distribution/export_log_scaled_distribution")],["exported rows"])
p("C22","Mean, standard deviation and ensemble size are those of the samples",
 "For any samples, in any order, the reported mean, standard deviation and number of samples agree with a reference computation, per variable for vectors; a constant sample has standard deviation 0 up to rounding, never NaN. After clearing, an analysis behaves like a new one with the same bins.",
 ["inputs","histories"],"Samples of 1..200 values of widely different magnitudes, constant samples, permutations, clear and reuse, the three analyses.",
 "Tests compare one Gaussian sample; rounding cases (constant samples) and reuse are not tested.",
 ["src/analysis.rs"],[("accumulation","src/analysis.rs:add_ensemble/add_pair"),("moments","src/analysis.rs:draw"),("reset","src/analysis.rs:clear")],["exported mean/stddev line"])
p("C23","Process analysis averages the values of each time bin",
 "For any set of (time, value) records the exported linear and logarithmic time profiles hold, for exactly the bins with records, the number of records with time in the bin and the mean and standard deviation of their values, whatever their sign; the long-term mean and deviation are those of all records, and the number of processes is reported.",
 ["inputs"],"Processes with 0..50 records, values of both signs and zero, times everywhere incl. range ends, bin layouts as for histograms.",
 "No unit test compares a process analysis with anything.",
 ["src/analysis.rs"],[("accumulation","src/analysis.rs:ProcessAnalysis::add_pair"),("profile","src/analysis.rs:ProcessAnalysis::draw/export_*")],["exported rows"])
p("C24","Data sets are pooled exactly when their parameters are equal",
 "Two data sets are the same key for pooling exactly when all their identifying parameters (system, target, agent and clock parameters, not the run index or thread count) are equal, however close the values are, and equal keys always hash alike. Reading a data file gives the key of the parameters it was written with.",
 ["inputs"],"Pairs of parameter sets that are equal, differ in one parameter by anything from one rounding unit to orders of magnitude, or differ in sign or in run index only.",
 "The tests compare values that differ by 1 or more.",
 ["src/macros.rs","src/analysis.rs","moledyn_proc/src/lib.rs"],[("identity","src/macros.rs:derive_hash"),("dataset","src/analysis.rs:construct_dataset")],["equality, hash, hash-map behaviour"])
p("C25","Directory analysis pools the right files and loses nothing",
 "Analysing a directory yields one summary row and one pair of distribution files per distinct parameter set, computed from exactly the samples of all its data files, independent of how samples are split over files and of file names and order; files that are not data files, files without samples and sub-directories contribute nothing. The data files stay as they are, an earlier analysis or one running at the same time is never written into (it may be refused), and damaged data lines, unreadable arguments or a missing directory are reported as an error, not a panic, without making anything in its place.",
 ["inputs","histories","schedules"],"Directories with several parameter sets x run indices x splits, empty and foreign files and sub-directories, repeated and simultaneous analyses, the three analyses with both argument forms.",
 "The analysis pipeline is exercised by one integration test without checking numbers.",
 ["src/analysis.rs","src/setup.rs"],[("pipeline","src/analysis.rs:analyze"),("grouping","src/analysis.rs:construct_dataset/from_file")],["files in the analysis directory"])
p("C26","Data file names tell all parameter sets and runs apart",
 "The name of a data file starts with the prefix, names every parameter with its value and the run parameters, and ends with .dat; different parameter sets or runs never share a name, equal ones always do. The name of the pooled result depends on everything but the run parameters.",
 ["inputs"],"Pairs of parameter sets differing in one parameter by as little as one rounding unit, numbers over the whole range, prefixes.",
 "Tests compare one name.",
 ["src/analysis.rs"],[("name","src/analysis.rs:export_file"),("pooled name","src/analysis.rs:export_file_removed_idx")],["file names"])
p("C27","Every combination of building blocks makes a working simulation program",
 "For every analysis, system, target, agent, clock and simulation kind the one-line simulation set-up compiles and gives a program that accepts exactly the arguments of its parts in order, makes the parts from them, creates its data file under the name of its parameters with a header from which the same parameters are read back, analyses a directory when given the analysis arguments, and otherwise (wrong number of arguments, unreadable or invalid values, nothing to analyse) fails with an explanation, leaving every existing file, an earlier data file included, as it was.",
 ["programs","inputs"],"All combinations of building blocks, with generated argument values, analysis calls and wrong argument counts.",
 "Tests instantiate two or three combinations.",
 ["moledyn_proc/src/lib.rs","src/setup.rs","src/argument.rs","src/analysis.rs"],[("set-up macro","moledyn_proc/src/lib.rs:simulation"),("argument handling","src/setup.rs:setup_simulation/read_arguments"),("file creation","src/setup.rs:export_simulation_info")],["program behaviour, files created"])
p("C28","Vector operations obey the algebra of component-wise vectors",
 "Sums, differences, scalings, norms, distances, inner and taxicab products of vectors equal their component-wise definition in every dimension, in all forms (allocating, in-place, by shared or mutable reference), leave their read-only operands alone, and keep the dimension; integer and real vectors agree wherever the result is representable. Indexing, slicing, iterating, extending and clearing see the same components.",
 ["inputs"],"Dimensions 1..10, real components over many decades, pairs of vectors that differ by rounding only, integer components over the whole representable range, all operation forms.",
 "Tests use two or three fixed 2D vectors.",
 ["src/position.rs"],[("operators","src/position.rs:Add/Sub/Numerics"),("metrics","src/position.rs:norm/distance/inner_product/taxi_distance")],["resulting vectors and numbers"])
p("C29","Operands of the wrong dimension are refused and nothing is changed",
 "Every query, move, random draw or agent operation that gets a vector or partner of the wrong dimension (too short or too long) is refused with an error instead of panicking, truncating or reading garbage, and leaves the vectors and agents it was given unchanged.",
 ["inputs"],"All shapes, agents (also ones made from arguments and not placed yet), targets and vector operations that can fail, dimensions 0..8 in every unequal combination.",
 "Tests try one mismatch for some operations.",
 SYS+AG+["src/target_mod/cont_bulk.rs","src/position.rs"],[("dimension checks","first lines of the operations")],["error result, operands afterwards"])
p("C30","Simulated physics agrees with closed-form results",
 "Programs composed of the building blocks reproduce known physics: free diffusion spreads as 2 D t per direction with any clock, reflecting and periodic domains keep a uniform population uniform, mean first-passage times agree with the closed-form value, coalescence conserves mass and follows the number of clusters, and interacting pairs relax along their potential. First-passage data written by such programs and analysed by the pipeline give the mean of the written samples.",
 ["configurations","histories"],"Randomly chosen domains, targets, diffusion constants, clocks and seeds in the regime where the closed form applies; tolerances from the statistics.",
 "The integration tests only run the programs or compare one configuration.",
 SYS+AG+["src/time_mod/mod.rs","src/iterator.rs","src/target_mod/cont_bulk.rs"],[("moves and boundaries","random_move, check_bc"),("clock","src/time_mod/mod.rs")],["trajectory statistics"])
p("C31","Each column of the summary is the one its header announces",
 "In the summary of any analysis, at any column width, the header and the rows have matching columns, apart from each other and in the same order: first the identifying parameters with their values, then the number of samples, the mean and the standard deviation (per variable). Numbers are written so that reading them gives the analysed value.",
 ["inputs","configurations"],"The three analyses, generated parameter sets and samples, column widths.",
 "No test reads a summary file.",
 ["src/analysis.rs","src/macros.rs"],[("header","src/analysis.rs:export_form"),("row","src/analysis.rs:export_mean_stddev, src/macros.rs:export_data")],["summary header and rows"])
p("C32","Random primitives have their stated distribution and write discipline",
 "Uniform numbers lie strictly between 0 and 1 and are uniform; Gaussian numbers are standard normal; vectors have independent such components. The plain in-place forms overwrite whatever the vector holds (non-numbers included), the scaled forms add a value uniform on the given interval or normal with the given mean and deviation to each component; all forms use the same numbers for the same random state.",
 ["inputs"],"Seeds, dimensions 0..8, intervals, means and deviations over many decades, prior contents.",
 "The statistical tests use one seed and standard parameters, and compare nothing about prior contents.",
 ["src/random_mod/mod.rs"],[("draws","src/random_mod/mod.rs:get_*")],["numbers drawn"])
p("C33","Usage text and accepted arguments agree",
 "For every building block and analysis the usage text names its arguments, one line of description each, in the order and number in which they are accepted; an argument given at the place of a name sets the parameter of that name and no other. For the analyses, the number of arguments announced is accepted.",
 ["programs","inputs"],"All building blocks, argument vectors with distinct generated values per place.",
 "The tests compare the usage text with a constant, not with what is read.",
 ["src/argument.rs","src/setup.rs","src/analysis.rs"]+SYS+AG,[("usage","src/argument.rs:impl_fn_info/impl_fn_brief_info"),("reading","src/argument.rs:impl_fn_read_args_from_vec")],["usage text, parameters read"])
p("C34","Failures are reported with their cause, nothing is lost silently",
 "When storage refuses to create, take or give a file's content at any byte during the set-up of a simulation, an analysis or an export (limited or full storage, writers that take parts, a file where a directory is needed, data that is not text), the call returns an error of the I/O category carrying the system's message and a program ends with a failure status; a call that reports success has written everything, and data files and earlier results stay as they are. Errors the library raises itself (dimensions, arguments, formats) are syntax errors; errors are equal exactly when their categories are.",
 ["faults","inputs"],"Storage limits at every byte of every file written, writers with short, interrupted and failing writes, unusable directories and files, refused operations of all parts.",
 "No test injects a fault; the errors compared in tests are built by hand.",
 ["src/analysis.rs","src/setup.rs","src/error.rs"],[("summary","src/analysis.rs:analyze/export"),("set-up","src/setup.rs:export_simulation_info"),("categories","src/error.rs:classify")],["result, error category and text, exit status, file contents"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert x["statement"].count(". ")<=2,(x["id"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
