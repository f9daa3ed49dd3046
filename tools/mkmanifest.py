#!/usr/bin/env python3
# Writes MANIFEST.json.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over schedules and faults of the real code, "
COMMON = (" Assurance is that of the seeded runs reported in the evidence file, not of all runs: no bound is enumerated. "
          "Trusted: the build-time instrumentation (yield points before statements; sync, time, os, io/ioutil, path/filepath, channels, go statements and map iteration replaced by simulated ones), the simulated file system, and the generator and reference model in sim/h.")
C = {
 "C01": ("results of differently scheduled runs compared with each other", "The same project, run under several schedules and table orders, has to give byte-identical files and the same multiset of diagnostics (call stacks inside error texts aside)."),
 "C02": ("set and markers of the outputs checked against a reference model of the import graph", "The set of output paths is exactly the model's, and every output consists of the tokens of its own file."),
 "C03": ("outputs compared with those of the pasted-together file compiled alone", "Each inlined output equals the compiled text of the file the reference model pasted together; projects without cycles."),
 "C04": ("termination within a step budget on adversarial import graphs, deadlock detection, reference model for what must be present", "A run that blocks or exceeds its budget fails; on cycles only presence of every reachable file's rules and boundedness are required."),
 "C05": ("outputs under injected load failures compared with those of the failure-free twin and with the reference model", "Read, parse and resolve failures are injected at chosen files; unaffected outputs are compared byte for byte with a run without the failure."),
 "C06": ("diagnostics checked both ways against the injected failures", "Every injected failure needs a diagnostic naming it, and failure-free projects have to be silent."),
 "C07": ("torn, corrupted and mixed file contents injected into reads; crash, step budget, unaffected outputs and truncation checked", "Panics are caught as violations, endless loops by a budget per byte read."),
 "C08": ("files replaced, removed and failing mid-run; every result has to agree with one outcome per file", "The outcomes of the reads the run made are enumerated; all results have to equal those of a static compilation under one of them."),
 "C09": ("reporters that are slow, blocking or gated; overlap, loss and lateness of deliveries checked", "Overlapping calls, calls after the return and missing diagnostics fail."),
 "C10": ("joint, concurrent and sequential compilations compared with each entry compiled alone", "Outputs equal those of compiling alone; diagnostics are compared as multisets with the multiplicities sharing allows."),
 "C11": ("happens-before race detection under the simulated schedules", "The code under test is compiled with Go's race detector, which sees only the code's own synchronisation as modelled by the simulated sync package; a race needs a run in which both accesses happen."),
 "C12": ("positions in diagnostics compared with those the generator planted", "Each planted offence has to be shown with path, line, column and line text, no diagnostic may point elsewhere, and rendering again later has to give the same text."),
 "C13": ("embedded source maps decoded and compared with the texts read and with the positions of marked rules", "sourcesContent is compared with the bytes the simulated read returned; each marked top-level rule has to be mapped."),
 "C14": ("answers compared with an independent implementation of the documented lookup, under injected file-system faults", "With failing calls any answer that treats them as absent, or leaves out the place they failed at, is accepted, as is an error."),
 "C15": ("bundler loads, also concurrent and with files changing, compared with direct compilations", "The plugin's load callback is called directly with a stub bundler."),
 "C16": ("writes to a simulated standard error, also failing and partial, compared with the expected diagnostics", "Each diagnostic has to arrive as one contiguous piece among the noise of other writers."),
 "C17": ("goroutines, file reads, resolver and reporter calls tracked beyond the return", "A goroutine may still execute its last few statements after the return, but not wait, work or call anything."),
 "C18": ("questions to a scripted resolver compared with the import statements of the loaded files, outputs with its answers", "Questions are compared as a set, and outputs with the model built from the answers, under delayed and failing answers."),
}
checks = []
for i, (t, n) in C.items():
    checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                   "technique": T + t, "level": "exploration", "level_note": n + COMMON})
NA = "A property of one pure function of its input: no concurrency, time, I/O, randomness or second party for it to depend on, so schedules and faults cannot reach it; deciding it needs differential or property-based testing of the %s, which is another family of technique."
json.dump({"version": 1, "setup_cmd": "bin/build && bin/build race", "checks": checks,
  "not_applicable": [{"property": "C19", "reason": NA % "parser and printer"}, {"property": "C20", "reason": NA % "transforms against CSS semantics"}, {"property": "C21", "reason": NA % "transforms"}],
  "notes": "No hooks in /repo: the seams are put in at build time, into a copy of /repo's working tree under .build/ (bin/build). Replays: bin/check replay FILE. Findings: known-findings.txt."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
