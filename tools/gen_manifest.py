#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the checks that exist.
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
TECH = {
 "C01": ("property-based testing: random stencil programs, differential against a reference interpreter", "random programs x sizes x options; every element compared"),
 "C02": ("property-based testing: random tile/thread/temporal settings, metamorphic equality plus reference interpreter", "random run-time settings of random programs"),
 "C03": ("property-based testing: random rank layouts on real MPI ranks against the reference interpreter of the whole problem", "1-8 ranks"),
 "C04": ("property-based testing: random compiler options and targets, differential against a reference interpreter", "all targets the CPU can run"),
 "C05": ("property-based testing: random domain/step conditions, every element incl. halo and padding against the reference interpreter", "random conditions x tilings x ranks"),
 "C06": ("stateful property-based testing: random histories of runs, writes and reads against a model of step windows and values", "random histories"),
 "C07": ("model-based stateful testing: random API histories on random var shapes against an n-D array model", "random histories; ASan/UBSan build"),
 "C08": ("property-based testing: random reductions against exact element-wise evaluation", "random slices and shapes"),
 "C09": ("property-based testing: relations between geometry queries over random configurations", "random configurations, incl. ranks"),
 "C10": ("property-based testing: random rank layouts and sizes, partition relations over the ranks' answers", "random layouts on real MPI ranks"),
 "C11": ("property-based testing: permuted equation orders (metamorphic) and mutated illegal programs against a reference legality model", "random programs and mutations"),
 "C12": ("property-based testing: scratch vars against their inlined form and the reference interpreter (metamorphic)", "random scratch chains"),
 "C13": ("stateful property-based testing: random histories of writes, exchanges and runs over MPI ranks with poisoned halos", "random histories on real MPI ranks"),
 "C14": ("property-based testing: random auto-tuner use in run histories against the reference interpreter and validity relations", "random histories"),
 "C15": ("model-based stateful testing: random lifecycle/storage/fusion histories of several solutions", "random histories"),
 "C16": ("property-based testing and fuzzing of the command-line parser against a reference parser", "random option tables and command lines"),
 "C17": ("property-based testing: finite-difference coefficients against exact rational solutions and moment conditions", "random orders, points"),
 "C18": ("property-based testing: statistics against counts derived from the program and history", "random programs and histories"),
 "C19": ("stateful fuzzing of the APIs with misuse; outcome and state checked against a model, ASan/UBSan build", "random misuse in histories"),
 "C20": ("property-based testing: random loop specs through gen_loops.pl, executed and compared with the set of indices", "random loop specs"),
 "C21": ("property-based testing: repeated and interleaved code generation compared byte for byte (metamorphic)", "random programs and generation histories"),
 "C22": ("differential testing of every shipped stencil against an interpretation of its equation tree", "all shipped stencils x random sizes/options"),
 "C23": ("concurrent property-based testing: random schedules of concurrent adds with exact sums", "random schedules"),
 "C24": ("property-based testing of index arithmetic against exact integer models", "random tuples/indices"),
}
have = [p["id"] for p in props if os.path.exists("%s/checks/%s.py" % (H, p["id"].lower()))]
NA = {}
m = dict(version=1, setup_cmd="tools/setup.sh",
         checks=[dict(property=i, quick_cmd="checks/run.py %s --tier quick" % i, thorough_cmd="checks/run.py %s --tier thorough" % i,
                      technique=TECH[i][0], level="exploration", level_note=TECH[i][1] + "; see DESIGN.md section " + i) for i in have],
         not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")) for p in props if p["id"] not in have])
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
