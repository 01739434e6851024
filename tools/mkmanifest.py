#!/usr/bin/env python3
# Writes MANIFEST.json. Claimed properties are listed in CLAIMED.
import json, os, subprocess
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
CODEC = "seeded deterministic simulation: "
T = {
 "C01": CODEC + "goroutine schedules over instrumented decoders, pools and locks; refinement against each call run alone",
 "C02": CODEC + "goroutine schedules over instrumented encoders on shared values; refinement against each call run alone",
 "C03": CODEC + "histories with failing and panicking callbacks and pool drops; refinement against a restarted process",
 "C04": CODEC + "histories with half-failed decodes, then Reset; refinement against a new object",
 "C05": CODEC + "ownership invariant re-checked after every operation under pool scribbling and seeded schedules",
 "C06": CODEC + "lossy channel (delay, duplication, reordering, truncation, corruption) with recycling receivers; conservation of the sent value",
 "C07": CODEC + "fault injection into encoding callbacks and writers, error recovery and later-call checks",
 "C08": CODEC + "fault injection into decoding callbacks and documents, error recovery and later-call checks",
 "C09": "seeded deterministic simulation of the generator on a simulated file system, clock, hash seeds and process histories; refinement against a fresh process",
 "C10": "seeded deterministic simulation of the generator with failing system calls; reported success is compared with an undisturbed run",
 "C11": "seeded deterministic simulation of the generator killed at system-call boundaries and inside writes, then run again",
 "C17": CODEC + "long histories of repeated work with fresh content and failures; invariant that retained memory and cost of a round stop growing",
 "C16": "seeded deterministic simulation of several generator processes on one file system, switched at system calls, some failing or killed; refinement against running alone",
 "C12": "seeded deterministic simulation of the generator with faults and kills; whole-file-system invariant after every mutating system call",
}
NOTE_CODEC = ("Seeded exploration, no proof: holds on every simulated run explored (counts in the evidence file). The generator, the generated code, "
 "fastjson and jwriter are real code, instrumented at statement level; sync.Pool, locks and hash seeds are simulated. Trusts the instrumentation and sequentially consistent memory; "
 "unordered accesses to package-level state are reported separately.")
NOTE_GEN = ("Seeded exploration, no proof. Generator, go-ast, go/parser, go/format and package os are real code; every file-system call goes to an in-memory model "
 "with numbered calls, faults and kill points. When a process dies, completed writes stay; when the power fails (C11), unsynced contents are lost, torn or zeroed and the tail of an ordered metadata journal is lost.")
NA = {
 "C13": "a pure function of one document or value: no schedule, fault, clock, I/O or history takes part, so simulation has nothing to decide; C06 decides the part about messages between two parties",
 "C14": "rule checking depends on one document alone, with no concurrency, time or I/O; C03, C04 and C08 decide the parts that depend on histories and failures",
 "C15": "whether emitted code compiles is a pure function of the declarations; no schedule, fault or history takes part",
}
CLAIMED = ["C%02d" % i for i in range(1, 9)]
PENDING = {}
if os.path.exists("sim/_target/genh/main.go"):
    CLAIMED += ["C09", "C10", "C11", "C12", "C16", "C17"]
else:
    for p in ("C09", "C10", "C11", "C12", "C16"):
        NA[p] = "the generator's simulator is being built; see DESIGN.md"
m = {
 "version": 1,
 "setup_cmd": "bash check.sh setup",
 "checks": [{
   "property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json", "technique": T[p], "level": "exploration",
   "level_note": NOTE_CODEC if p <= "C08" or p == "C17" else NOTE_GEN} for p in CLAIMED],
 "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks instrument scratch copies of its working tree and overlay the Go standard library at build time", "source_commits": []},
 "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA)],
 "notes": "Replay a violation with: bash check.sh replay <file>. Genuine defects: known_findings.json and DESIGN.md.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
