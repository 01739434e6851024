package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
)

type evidenceIn struct {
	prop, tier                         string
	seed                               uint64
	stat                               map[string]uint64
	keys, pairs, types, visited, viols int
	w                                  *workspace
	samples                            []any
	wall, runWall                      float64
	known                              map[int]int
	active                             []knownFinding
	workers                            int
}

func writeEvidence(e evidenceIn) {
	faults := map[string]uint64{}
	for k, v := range e.stat {
		if strings.HasPrefix(k, "fault:") || strings.HasPrefix(k, "channel:") {
			faults[k] = v
		}
	}
	per := 0.0
	if e.runWall > 0 {
		per = float64(e.stat["runs"]) / e.runWall * 3600
	}
	useful := e.stat["useful"]
	if uint64(e.keys) < useful {
		useful = uint64(e.keys)
	}
	gen := family(e.prop) == "gen"
	cov := map[string]any{
		"evaluations":         e.stat["runs"],
		"distinct_nontrivial": useful,
		"rule":                rules[e.prop],
		"samples":             e.samples,
		"runs_per_hour":       int(per),
		"seeds_per_hour":      int(per),
		"distinct_executions": e.keys,
		"simulated_time":      map[string]any{"unit": "executed instrumented statements (the codecs read no clock)", "steps": e.stat["steps"]},
		"faults_injected":     faults,
		"counters":            e.stat,
		"interleavings": map[string]any{"measure": "distinct executions by hash of (plan, every switch with task and step); pairs of statements between which a switch happened",
			"distinct_executions": e.keys, "distinct_switch_pairs": e.pairs},
		"statements_reached":     e.visited,
		"statements_in_all":      len(e.w.in.sites),
		"declared_types_used":    e.types,
		"corpora_left_out":       e.w.dropped,
		"known_findings_met":     e.known,
		"determinism_rechecks":   e.stat["repeated"],
		"real_components":        "generator of /repo's working tree, the code it generates, its helper template, fastjson (parser, pools), easyjson jwriter and buffer: all real code, instrumented at statement level; Go maps with seeded hash randomness",
		"stubbed_components":     "sync.Pool, sync.Mutex, sync.RWMutex, sync.WaitGroup waiting (simulated by the scheduler); user-supplied codec Cust (hand-written, with fault switch)",
		"workers":                e.workers,
		"budget_cut_by_walltime": e.stat["wall_stop"] > 0,
	}
	if gen {
		cov["simulated_time"] = map[string]any{"unit": "simulated system calls; the clock seen by the code advances with them", "steps": e.stat["steps"]}
		cov["real_components"] = "generator, codegen, discoverer and static packages of /repo's working tree, go-ast, go/parser, go/format, os, path/filepath: real code"
		cov["stubbed_components"] = "every file-system system call (in-memory file system with fault injection and crash points), the clock, hash seeds"
		delete(cov, "declared_types_used")
		delete(cov, "corpora_left_out")
	}
	m := map[string]any{
		"property": e.prop, "tier": e.tier, "seed": e.seed, "level": "exploration", "coverage": cov,
		"wall_s": e.wall, "violations": e.viols,
		"assumptions": []string{
			"interleavings are explored at statement granularity (sequentially consistent memory); accesses to one package-level variable or map that nothing orders are reported separately",
			"the simulated file system keeps a completed write or rename when a process dies; when the power fails (C11) it loses a seeded part of what was not synced: file contents lost, torn or zeroed, and the tail of the metadata journal, which is otherwise ordered",
		},
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.MkdirAll("evidence", 0o755)
	os.WriteFile(filepath.Join("evidence", e.prop+".json"), append(b, '\n'), 0o644)
}

var rules = map[string]string{
	"C01": "one case = a seeded plan (types, objects, documents, pool policy) run under a seeded schedule and compared with every task run alone in a restarted world; non-trivial = at least one switch between tasks happened; distinct by plan and switches",
	"C02": "one case = shared and private values encoded by several tasks under a seeded schedule, compared with every task alone; non-trivial = at least one switch; distinct by plan and switches",
	"C03": "one case = a history of operations (several tasks, failures, panics, pool drops) followed by probe calls, compared with the probes in a restarted world; distinct by plan and switches",
	"C04": "one case = a history on one object, Reset, then encode, decode, encode beside a new object; distinct by plan",
	"C05": "one case = a history in which, after every operation, every other object and every returned byte slice is compared with its last known content; distinct by plan and switches",
	"C06": "one case = values sent over a simulated channel (delay, duplication, reordering, truncation, corruption) to recycling receivers; distinct by plan and switches",
	"C07": "one case = a history with one encode in which one part fails; non-trivial = the failure was reached; distinct by plan and switches",
	"C08": "one case = a history with one decode in which one part fails or is of the wrong kind; non-trivial = the failure was reached; distinct by plan and switches",
	"C09": "one case = a history of generator runs (modules, listing order, clock, hash seeds, leftovers, interleaving) compared with a run in a restarted world; distinct by plan",
	"C10": "one case = a generator run with one or more failing system calls; non-trivial = a fault was delivered; distinct by plan",
	"C11": "one case = a generator run killed at a system call, then run again; non-trivial = the kill happened before the end; distinct by plan",
	"C17": "one case = rounds of the same work (decode, encode, reset; some failing or panicking) on content that is new in every round; what package-level variables and pools hold and what a round costs is compared after k, 2k and 4k rounds, and watched until 4 MB or 250000 rounds if it grows; distinct by plan",
	"C16": "one case = several generator processes, each with its own memory, on one file system, switched at seeded system calls, compared with a run alone; non-trivial = at least two ran at a time; distinct by plan",
	"C12": "one case = a generator run with faults or a kill, the whole file system compared with before; distinct by plan",
}
