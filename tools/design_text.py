"""Hand-written part of DESIGN.md; gen_design.py puts it together with the rules of the checks."""
HEAD = r'''# Design

Generated by `tools/gen_design.py` from `tools/design_text.py` (text), `harness/src/p_*.rs` (rules and counts of
the checks) and `seeded/*/meta.json` + `tools/seeded_results.json` (planted bugs). Edit those, not this file.

## 1. What is verified and how

`moledyn` is a library of building blocks for random-target-search and diffusion simulations: domains
(`system_mod`), targets (`target_mod`), agents (`agent_mod`), clocks (`time_mod`), random primitives
(`random_mod`), vectors (`position`), an index-linked list with single and pair traversals (`iterator`), the text
formats of all of them (`argument`, `macros`, Display/FromStr), a data pipeline (data files, data-set identity,
histograms, statistics, directory analysis; `analysis`), and macros that assemble whole simulation programs
(`setup`, `moledyn_proc`). What a user relies on is written down in `properties.jsonl` (C01..C34): physics
(C01-C11, C14-C16, C30, C32), the list (C12-C14), text and arguments (C17-C20, C33), data and analysis (C21-C26,
C31), whole programs (C27, C30), faults (C34), vector algebra and dimension discipline (C28, C29), reproducibility (C09).

Every property is decided by generated-input search against an explicit oracle. There is no property to which
the technique cannot be applied; `not_applicable` in MANIFEST.json is empty.

### 1.1 Engine (`harness/`)

A crate with an empty workspace of its own and a path dependency on `/repo`; no other dependency, so it builds
offline in a few seconds. It is compiled with debug assertions (overflow checks are on, as in the users' debug
builds) at optimisation level 2.

* `pbt.rs`: a case is a function of a byte-free *choice sequence*: every generator draw is one recorded integer.
  Case `i` of check `c` under seed `VERIF_SEED` has a derived stream, so a run is reproducible whatever the number
  of threads. A failing case is shrunk on its choice sequence (dropping blocks, zeroing, halving, decrementing),
  keeping the same failure signature, and written to `replays/<check>-<signature>.txt` with the choices; `check.sh
  <ID> replay <file>` runs it again. A check can discard a case (pre-condition, decision within rounding of a
  boundary); discards are counted.
* Case counts, non-trivial counts (by the rule stated for each check), the number of distinct non-trivial cases
  (hash of the choice sequence), and samples go to `evidence/<id>.json`.
* `guard.rs`: the search runs in a child process. A shared memory page names the case each worker is in; when the
  child hangs (a case takes more than 100 s in the quick tier; the slowest ordinary case takes about 1 s), aborts,
  overflows its stack or runs out of memory (address space limited to 14 GB), the suspected cases are run alone,
  and a case that does it again is reported as a violation with a replay file that names seed and index.
* Panics of the code under test are caught per call (`no_panic`) and are failures wherever the property excludes
  them. Constructors that are documented to panic on invalid parameters are expected to.
* `gen.rs`: shared generators: numbers (special values, short decimals, powers of ten, dyadic grids, random bit
  patterns, neighbours of a value), domains of every shape/boundary/dimension (1 to 8, one case in 40 up to 24, 40 or 70), points inside, on and one rounding
  unit beside walls, agents made by every route, scratch directories (`Scratch`, unique per process and case,
  removed on drop; everything that touches files works inside it).
  Steered seeds: the generator of the crate is inverted (`seed_with_output`), so a seed can be chosen whose first
  output is extreme (0, all ones, runs of ones, one bit): uniform numbers at the ends of their range, the tails of
  the normal numbers and zero vectors are reached, which random seeds reach once in 2^50 cases.
* `stat.rs`: statistical oracles (chi-square, Kolmogorov-Smirnov, z-scores) with thresholds |z| < 6.5 or
  equivalent, a false alarm probability below 1e-10 per statistic; the random numbers of a case are seeded from
  its choices, so a verdict is reproducible.

The supervised binary is one executable `vharness`; `sim/` is a second crate: 216 programs made by `simulation!`
(3 systems x 4 agents x 2 clocks x 3 simulation kinds x 3 analyses; generated by `tools/gen_sim.py`), run as
processes by the checks of C27.

### 1.2 Oracles

* reference models: coordinate-wise fold, plain `Vec` list model, cluster model, histogram by independent
  grouping, compensated two-pass statistics, independent renderer of names and headers, closed-form physics;
* exact arithmetic where possible: dyadic inputs for which every operation of code and oracle is exact, so that
  ends of ranges and points on walls are decided, not skipped;
* metamorphic/differential: allocating vs in-place form, constructor vs arguments, one file vs split files,
  permuted samples, swapped agents, scaling of D dt, other process/thread, cleared vs new;
* round trips: print/read of values, blocks, names, headers, data files;
* statistical tests for distributions.

Where floating-point rounding makes the verdict arbitrary (a point within a few rounding units of a wall, a record
within rounding of a bin edge) the comparison of that item is skipped and only the invariant is checked; dyadic
sub-cases decide the ends themselves.

### 1.3 Tiers and cost

quick: about 3 s per sub-check on 8 cores (the counts below), 190 s for all properties together.
thorough: sixty times the cases. Both are `check.sh <ID> quick|thorough`; `setup.sh` builds both crates.
'''

P = {}
P['C01'] = ('Invariant over histories: after every accepted move the inclusion is recomputed by an independent predicate; refused moves must be errors, not panics. Reaches what tests cannot: corner crossings, moves of several domain sizes, every split dimension, starts on the wall, 40-step histories.',)
P['C02'] = ('Reference fold written from the statement, per coordinate (radially for round parts), deciding both the end point and accept/refuse. `c02_grid` uses dyadic coordinates so that ends exactly on a wall and at the limit of acceptance are decided exactly.',)
P['C03'] = ('Inverse construction: choose the wall point, the incidence angle and the lengths of both legs, derive the path, and demand the constructed end. Order conditions compare the cheaper methods with the exact one at relative steps 1e-5..1e-2.',)
P['C04'] = ('Support (every draw inside) and distribution (radial law, angles, axis moments, correlations between axes and successive draws) for both forms over used vectors. Long streams: extremes and rare regions hit as often as expected.',)
P['C05'] = ('Inclusion against an independent predicate including points exactly on and one part in 1e9 beside the wall; marker through both interfaces.',)
P['C06'] = ('Targets of every size up to covering all but 1/512 of the domain. Agents made by every route and used before (other dimension, place, merged) are renewed; position inside, off target, right dimension, parameters kept; radial law of the allowed region; extremes of long streams.',)
P['C07'] = ('Distance by exact geometry (dyadic 3-4-5 triangles) and by reference formula with searchers a relative 1e-9 off the surface.',)
P['C08'] = ('Normal law of displacements per agent kind and form; both forms and scaling compared number by number from the same state; unsupported motion refused and vector untouched. Tails of long streams against the normal law.',)
P['C09'] = ('Replay of random call histories from one seed on fresh generators, other threads, other processes, with foreign generators used in between on related parameters (same sum, product or ratio: no hidden memory may survive); every single seed bit flipped.',)
P['C10'] = ('Potential against the formula, force against its derivative and the difference quotient, for agents made in all ways.',)
P['C11'] = ('Unit vector and distance against a reference; all forms, both orders, dirty vectors.',)
P['C12'] = ('Stateful model-based testing: random operation histories against a plain model, compared after each step, including abandoned traversals and deletion while traversing. `c12_large`: lists up to 2000 elements.',)
P['C13'] = ('Model of the remaining pairs of the live elements; deletions between steps; termination by step bound.',)
P['C14'] = ('Model of clusters (sizes, coefficients, liveness) over histories of valid and refused merges and renewals.',)
P['C15'] = ('Schedule against exact dyadic multiples; histories (renew, limits, copies) against a model; long runs.',)
P['C16'] = ('Schedule recomputed from the parameters; histories (ratio and limit set under way, renewals) against a step-by-step model.',)
P['C17'] = ('Print/read round trip of ten kinds of values with random bit patterns, and documented short forms against the documented values.',)
P['C18'] = ('Blocks of 13 building blocks written one after another, read back in order, rest of the file intact.',)
P['C19'] = ('Mutated printed forms, token soup, truncated blocks; the oracle knows what must be refused, and otherwise demands that every number of the result is in the text. Nothing may panic.',)
P['C20'] = ('Validity predicate written from the statement; both routes must agree with it and with each other.',)
P['C21'] = ('Independent grouping of the samples into bins (exact for dyadic layouts) against every exported row; layouts accepted exactly when usable.',)
P['C22'] = ('Compensated two-pass statistics; permutation; clear vs new byte for byte.',)
P['C23'] = ('Independent grouping of (time, value) records; long-term statistics over all records.',)
P['C24'] = ('Equality by value against equality and hash of the keys, differences of one rounding unit; pooling in a HashMap; key of a written file; pairs of runs of the real programs differing in one parameter, one run parameter or nothing: keys and pooled rows.',)
P['C25'] = ('Generated directories with all kinds of files and links (data files behind hard and symbolic links, links to nothing and to directories, the directory itself given by a link or with an odd name) against a reference pooling; split/merge metamorphic relation; damaged lines and arguments; several analyses of one directory started together.',)
P['C26'] = ('Names against an independent rendering and injectivity on pairs; pairs of runs of the real programs.',)
P['C27'] = ('All 216 programs are compiled and run as processes with generated arguments in a scratch directory: variables and parts as seen by the program, file, header read back, analysis, refusals (wrong counts, unreadable and invalid values, also after a good run) that leave all files as they were.',)
P['C28'] = ('Component-wise definition, bit for bit where no sum is involved; 64-bit arithmetic for integers; histories against a plain Vec.',)
P['C29'] = ('Every operation with operands of dimension 0..10 different from the right one: error, no panic, nothing changed.',)
P['C30'] = ('Closed-form physics with generated parameters: spreading, uniformity, mean first-passage times, first of n, coalescence against an independent model, deterministic pair motion, Boltzmann law, pipeline.',)
P['C31'] = ('Header split by names, rows read back and compared by column name; whole directory analyses of vectors of up to 300 numbers.',)
P['C32'] = ('Distribution tests and exact agreement of all forms from equal generator states, including the state afterwards; tails of long streams.',)
P['C33'] = ('Names in the usage text exchanged one by one: only the parameter of that name may change.',)

P['C34'] = ('Fault injection: the 216 programs and the exports are run with storage that ends at a generated byte (first a short write, then a refusal), writers that take a few bytes, are interrupted or fail; oracle: success exactly if everything fits and then the same bytes as without limit, else an I/O error naming the cause; earlier files untouched. Categories and texts of errors of all kinds, made directly and by refused operations.',)

TAIL = r'''
## 3. Scope limits

Behaviour that is deliberately not claimed (and not generated):

* Infinite sizes, steps and limits; NaN as a force parameter, radius or coefficient; bins finer than memory holds; -0.0 as a parameter.
* Boundary type, kind of motion, target position and `exp_dim` are not part of the data-set identity (as designed
  by the data-set macros of the set-up).
* Descriptive words after the leading keyword (of initialisations: the two leading words) carry
  no meaning.
* Mutual displacement of agents at zero distance. Empty vectors have no printed form. `mut_add`/`mut_sub`/`+`/`-`
  on mismatched dimensions panic by design (documented by tests of the repository).
* Clock texts keep six significant digits. Limits in (0, 1e-15) count as none; a minimal time of 0 means 1e-15.
  Arguments of the growing clock need blocks of at least 10 steps; `set_inc` caps the ratio at max(length/2, 1.2).
* Output directories with surrounding blanks or line breaks. Appending during a traversal. The position after a
  refused (too large) move, and the displacement vector after any move.
* Renewal with a target of another dimension is only required to be an error.
* Position texts with blanks inside an initialisation text. Pair texts without brackets are accepted.
* A sample exactly on the edge of a logarithmic bin may be counted on either side (except at the range ends).
* Data-file names above 255 bytes (only required to be refused with an I/O error, C34).
* A directory entry that cannot be opened at all counts as not a data file (C25). Loss inside the operating system's cache.
* Radial reflection in balls keeps the population uniform only up to order step/R; the tolerance includes it.
* Items `(t, dt)` of a clock read with steps: dt leads to the NEXT time. `examples/mfpt_exp.rs` with `skip(1)` is off
  by one step for growing clocks; examples are not part of the claim.
* Only the public interface is driven; no hook was needed in /repo (MANIFEST hooks are empty).

## 4. Genuine defects found (all repaired, see KNOWN_FINDINGS.txt)

The checks found the defects listed there as `fixed:`; each is one "fix:" commit in /repo with the existing tests
unedited and passing. No finding is left unrepaired. Each repair was reverted alone in a scratch copy and the
check of its property reported it again (section 6).

## 5. False alarms met while building, and what was corrected

* C02/C05: comparisons within rounding of a wall - skipped unless dyadic.
* C03: order comparison too tight for steps of 1e-2 of the radius - bound by the square of the relative step.
* C04/C30: radial reflection in balls has a bias of order step/R - tolerance includes it, exact reflection has none.
* C16: `set_inc` caps the ratio - the model caps too. C17: clock texts keep six digits - statement says so.
* C19: descriptive words and Pair texts are looser than first written - statement narrowed.
* C21: analysis by number of bins uses the corresponding bin sizes - oracle follows; log-bin edges either way.
* C27: long names limited. (Analysing a missing directory was at first taken for intended; it is a defect, repaired in 2e202b4 and checked by c25_damaged and c27_refuse.)
* C30: closed forms needed the discrete-time correction of the target radius (0.5826 sqrt(2 D dt)).
* The engine: a slow case under load was once close to the hang limit - suspected cases are always confirmed alone.

## 5a. How well the machinery covers the code

* Lines of /repo/src run by the harness alone (without the programs of `sim/`), measured with `-C
  instrument-coverage`: 94.5 %; analysis 99.9 %, iterator, argument, random and agents 99-100 %. The rest: error
  branches no input reaches, `Default` values, helpers no code calls, and the macros and set-up code that only the
  programs of `sim/` run.
* Mutation: random single-token changes of /repo/src (operators, constants, conditions, removed statements) were
  tested against the quick checks: 161 mutants, 40 did not build, 102 were reported; the 19 survivors were read one by one
  and change nothing a statement speaks of (equal code, a performance hint, unreachable code) or are reached only by
  the programs of `sim/`, which the mutation run leaves out.
* Edits that keep the behaviour: about 45 (loops rewritten, helpers extracted, order of statements, other
  containers, allocation) over all modules together; all checks stay quiet on four seeds.
* The checks were run on the unchanged tree with many seeds; alarms that were wrong are in section 5.
'''
