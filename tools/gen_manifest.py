#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T={
"C01":("stateful property-based testing of move histories with an inclusion invariant","Generated histories over all shapes/boundaries/dims; the inclusion oracle is written independently of the library. Assumes finite parameters."),
"C02":("property-based testing against an independent reference fold","Reference model per direction; decisions within rounding of a wall are skipped. Also lattice points computed exactly."),
"C03":("property-based testing of the geometric law (metamorphic and reference)","Law of reflection checked with relative tolerance; order relations of the approximations by scaling the step."),
"C04":("property-based testing: inclusion per draw plus statistical goodness-of-fit per generated configuration","Sequential chi-square/KS tests with |z|<6.5; deviations far below the sampling error stay undetected."),
"C05":("property-based testing against an exact inclusion oracle","Probe points at generated relative depths; points within rounding of a wall are skipped."),
"C06":("stateful property-based testing over agent histories plus statistical uniformity","Start places per draw; uniformity over the allowed region by chi-square with |z|<6.5."),
"C07":("property-based testing against a reference distance","Probes on both sides of the rim; exact lattice cases have no tolerance."),
"C08":("property-based testing with statistical goodness-of-fit and differential check of the two forms","Moments, correlation and KS with |z|<6.5; forms compared bit by bit."),
"C09":("property-based testing of random call programs: replay equality, across threads and processes","Bit equality of replayed programs; distinctness of streams for generated seed pairs."),
"C10":("property-based testing against closed forms and numerical derivative","All construction routes; relative tolerance."),
"C11":("property-based testing against a reference computation and exchange symmetry","All agents, dims 1..6; relative tolerance."),
"C12":("stateful model-based testing of list histories","Reference model: vector with live flags; histories of up to 60 operations plus large lists."),
"C13":("stateful model-based testing of pair traversals with deletions","Reference model of the pairs still to come; all deletion places."),
"C14":("stateful model-based testing of merge histories","Reference cluster model; refused operations compared bit by bit."),
"C15":("stateful property-based testing against a reference schedule","Reference schedule in extended care with rounding of the limit decision skipped."),
"C16":("stateful property-based testing against a reference schedule","Reference schedule; bounds on step, growth and limit."),
"C17":("round-trip property-based testing","Texts written by the library are read back and compared exactly, for all public value kinds."),
"C18":("round-trip property-based testing of argument lists and data-file headers","Generated parameter sets written as header and argument list and read back."),
"C19":("grammar-aware mutation fuzzing of texts, argument lists and headers with an acceptance oracle","Mutants of valid texts; oracle: independent recogniser of the accepted language; no panic, no silent default."),
"C20":("property-based differential testing of constructors and argument conversion","Each parameter varied through valid and invalid values on both routes."),
"C21":("property-based testing against a reference histogram","Reference counts and densities, exported file parsed; samples within rounding of an edge are placed by tolerance."),
"C22":("property-based testing against reference statistics, metamorphic clear/re-analyse","Relative tolerance scaled by the data."),
"C23":("property-based testing against a reference binned average","Reference bins per variable, exported file parsed."),
"C24":("property-based differential testing of pooling against parameter equality","Keys for generated parameter pairs incl. neighbours of one unit in the last place, pooled through memory and files."),
"C25":("property-based testing with generated directories and file damage","Real directories in a scratch folder; oracle: pooled reference analysis."),
"C26":("property-based testing of the injectivity of names over generated parameter sets","Pairwise comparison in generated families incl. neighbours."),
"C27":("property-based testing of generated simulation programs in subprocesses","All combinations of building blocks compiled from the macros; argument lists generated; files written are parsed."),
"C28":("property-based testing of algebraic laws against a reference vector","Exact for integers, bit exact for component-wise float operations."),
"C29":("property-based testing with before/after comparison","Every operation taking two operands or a slice, over generated pairs of dimensions."),
"C30":("property-based testing of generated simulations against closed-form physics","Statistical with |z|<6.5 and stated systematic allowance; deviations below the sampling error stay undetected."),
"C31":("property-based testing against the announced header","Parses header and rows over generated data sets."),
"C32":("property-based testing with statistical goodness-of-fit and write-discipline checks","Chi-square/KS with |z|<6.5 per generated configuration."),
"C33":("property-based testing of argument lists of every length against the usage text","Number of arguments announced compared with the ones accepted."),
"C34":("property-based testing with injected storage faults at generated bytes","Programs run with the size of files limited (RLIMIT_FSIZE), exports to failing writers; success exactly if everything fits, otherwise an I/O error."),
}
NA=json.load(open(os.path.join(ROOT,"tools","not_claimed.json"))) if os.path.exists(os.path.join(ROOT,"tools","not_claimed.json")) else {}
checks=[]
for k,(t,n) in T.items():
    if k in NA: continue
    checks.append({"property":k,"quick_cmd":f"./check.sh {k} quick","thorough_cmd":f"./check.sh {k} thorough","evidence_file":f"evidence/{k}.json","technique":t,"level":"exploration","level_note":n})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
"notes":"One harness binary (harness/) drives all checks; check.sh rebuilds it against /repo's working tree. Replay a recorded case with ./check.sh <id> replay <file>. No hooks in /repo are needed."}
json.dump(m,open(os.path.join(ROOT,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(ROOT,"MANIFEST.json"),"a").write("\n")
