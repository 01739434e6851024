package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"vsimw/simrt"
)

type Known struct {
	Property string `json:"property"`
	Check    string `json:"check"`
	Sig      string `json:"sig"`
	re       *regexp.Regexp
}

var known []Known

func fresh(prop string, vs []Viol, hits map[int]int) []Viol {
	var out []Viol
next:
	for _, v := range vs {
		for i := range known {
			k := &known[i]
			if k.Property == prop && k.Check == v.Check && k.re.MatchString(v.Sig) {
				if hits != nil {
					hits[i]++
				}
				continue next
			}
		}
		out = append(out, v)
	}
	return out
}

type Out struct {
	Type    string            `json:"type"`
	Viol    *Viol             `json:"viol,omitempty"`
	Plan    *Plan             `json:"plan,omitempty"`
	Seed    uint64            `json:"seed,omitempty"`
	Digest  string            `json:"digest,omitempty"`
	Log     []string          `json:"log,omitempty"`
	Stat    map[string]uint64 `json:"stat,omitempty"`
	Keys    []uint64          `json:"keys,omitempty"`
	Pairs   []uint64          `json:"pairs,omitempty"`
	Sites   []uint64          `json:"sites,omitempty"`
	Known   map[int]int       `json:"known,omitempty"`
	Samples []any             `json:"samples,omitempty"`
}

var stdout *os.File

func emit(o *Out) {
	b, err := json.Marshal(o)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	stdout.Write(append(b, '\n'))
}

func main() {
	mode := flag.String("mode", "explore", "explore, replay, one")
	prop := flag.String("prop", "C09", "")
	seed := flag.Uint64("seed", 1, "")
	worker := flag.Int("worker", 0, "")
	workers := flag.Int("workers", 1, "")
	n := flag.Int("n", 100, "runs in all")
	wall := flag.Float64("wall", 60, "seconds at most")
	file := flag.String("file", "", "plan to replay")
	prog := flag.String("progress", "", "")
	knownF := flag.String("known", "", "")
	nsites := flag.Int("sites", 200000, "")
	from := flag.Int("from", 0, "")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	stdout = os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // the code under test may print
	}
	debug.SetGCPercent(-1)
	simrt.Visited = make([]uint64, *nsites/64+2)
	exe, _ := os.Executable()
	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "gendata.json"))
	if err == nil {
		err = json.Unmarshal(b, &data)
	}
	if err == nil && *knownF != "" {
		if b, err = os.ReadFile(*knownF); err == nil {
			err = json.Unmarshal(b, &known)
		}
		for i := range known {
			known[i].re = regexp.MustCompile(known[i].Sig)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	simrt.Snapshot()
	if f := os.Getenv("VPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	switch *mode {
	case "one":
		p := buildPlan(*prop, simrt.Mix(*seed, uint64(*from)))
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Fprintln(stdout, string(b))
		x := judge(p)
		for _, v := range x.viols {
			fmt.Fprintln(stdout, v.Check, "|", v.Sig, "|", v.Msg)
		}
		fmt.Fprintf(stdout, "%016x\n", x.digest)
		for _, l := range planLog(p, x) {
			fmt.Fprintln(stdout, l)
		}
	case "replay":
		b, err := os.ReadFile(*file)
		var p Plan
		if err == nil {
			err = json.Unmarshal(b, &p)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		x := judge(&p)
		for i := range x.viols {
			emit(&Out{Type: "viol", Viol: &x.viols[i]})
		}
		emit(&Out{Type: "done", Digest: fmt.Sprintf("%016x", x.digest), Log: planLog(&p, x)})
	case "explore":
		explore(*prop, *seed, *worker, *workers, *n, *wall, *prog, *verbose)
	}
}

// collect frees memory between runs; finalizers close what dead processes left open.
func collect(force bool) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if force || m.HeapAlloc > 600<<20 {
		runtime.GC()
		time.Sleep(time.Millisecond)
	}
}

func explore(prop string, seed uint64, worker, workers, n int, wall float64, prog string, verbose bool) {
	t0 := time.Now()
	var pf *os.File
	if prog != "" {
		pf, _ = os.Create(prog)
	}
	st := map[string]uint64{}
	hits := map[int]int{}
	keys, pairs := map[uint64]bool{}, map[uint64]bool{}
	var samples []any
	reported := map[string]bool{}
	for i := worker; i < n; i += workers {
		if time.Since(t0).Seconds() > wall {
			st["wall_stop"] = 1
			break
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%012d", i)), 0)
		}
		collect(false)
		ps := simrt.Mix(seed, uint64(i))
		p := buildPlan(prop, ps)
		p.counting = true
		x := judge(p)
		p.counting = false
		st["runs"]++
		if x.useful {
			st["useful"]++
		}
		st["module:"+p.Kind]++
		st["processes"] += uint64(len(x.procs))
		for pi, r := range x.procs {
			for _, j := range r.Jobs {
				if j.Ok {
					st["jobs:succeeded"]++
				} else if j.Fail {
					st["jobs:failed"]++
					if len(p.Procs[pi].Faults) == 0 && p.Procs[pi].Kill == 0 && verbose && os.Getenv("VFAIL") != "" {
						fmt.Fprintln(os.Stderr, i, "FAIL", p.Kind, j.At, cut(j.Err, 200))
					}
				} else {
					st["jobs:cut_off"]++
				}
			}
			if r.Dead {
				st["killed"]++
			}
			if r.Power != "" {
				st["power_failures"]++
			}
			// a state: which calls were made, and what the process died of or met
			h := uint64(7)
			for _, w := range p.Procs[pi].Sw {
				h = simrt.Mix(h, uint64(w.At), uint64(w.To))
			}
			for _, c := range r.Calls {
				h = simrt.Mix(h, hstr(c.op), hstr(c.path))
			}
			keys[simrt.Mix(h, hstr(strings.Join(r.Fired, ",")), uint64(p.Procs[pi].Kill), p.Procs[pi].Shuffle)] = true
			for _, f := range r.Fired {
				pairs[simrt.Mix(hstr(f), uint64(len(r.Calls)))] = true
			}
		}
		if i%23 == worker%23 || len(samples) == 0 {
			y := judge(p)
			if y.digest != x.digest {
				emit(&Out{Type: "nondet", Seed: ps, Digest: fmt.Sprintf("%016x/%016x", x.digest, y.digest)})
			}
			st["repeated"]++
			if len(samples) < 2 {
				samples = append(samples, map[string]any{"run": i, "seed": ps, "log": head(planLog(p, x), 14)})
			}
		}
		vs := fresh(prop, x.viols, hits)
		if len(vs) > 0 {
			first := vs[0]
			if verbose {
				fmt.Fprintln(os.Stderr, i, first.Check, "|", first.Sig, "|", first.Msg)
			}
			if !reported[first.Check+first.Sig] && len(reported) < 4 && !verbose {
				reported[first.Check+first.Sig] = true
				q, v, dig := minimise(p, first)
				emit(&Out{Type: "viol", Viol: &v, Plan: q, Seed: ps, Digest: dig})
			}
			st["violating"]++
			if st["violating"] > 40 && !verbose {
				st["violation_stop"] = 1
				break
			}
		}
	}
	st["steps"] = simCalls
	if switches > 0 {
		st["process_switches"] = switches
	}
	st["statements_executed"] = simSteps
	for k, c := range faultsFired {
		if strings.HasPrefix(k, "kill:") {
			st["fault:"+k] += uint64(c)
		} else {
			st["fault:"+k] += uint64(c)
		}
	}
	o := &Out{Type: "stat", Stat: st, Known: hits, Samples: samples, Sites: simrt.Visited}
	for k := range keys {
		o.Keys = append(o.Keys, k)
	}
	for k := range pairs {
		o.Pairs = append(o.Pairs, k)
	}
	w := bufio.NewWriter(stdout)
	b, _ := json.Marshal(o)
	w.Write(append(b, '\n'))
	w.Flush()
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// planLog tells the story of an execution.
func planLog(p *Plan, x *execution) []string {
	var out []string
	for i, r := range x.procs {
		pr := &p.Procs[i]
		s := fmt.Sprintf("process %d:", i)
		if pr.Cwd != "" {
			s += " in " + pr.Cwd
		}
		if pr.Rel {
			s += " relative paths"
		}
		if pr.Shuffle != 0 {
			s += " shuffled listings"
		}
		for _, f := range pr.Faults {
			s += fmt.Sprintf(" fault %s at call %d;", f.Kind, f.At)
		}
		if pr.With {
			s += " together with the one before;"
		}
		for _, w := range pr.Sw {
			s += fmt.Sprintf(" before call %d process %d of the group goes on;", w.At, w.To)
		}
		if pr.Kill > 0 {
			s += fmt.Sprintf(" killed at call %d", pr.Kill)
		}
		out = append(out, s)
		for _, st := range pr.Steps {
			if st.K == "edit" {
				out = append(out, fmt.Sprintf("  edit %d", st.J))
			} else {
				out = append(out, fmt.Sprintf("  %s %s", st.K, p.Jobs[st.J].In))
			}
		}
		for _, j := range sortedInts(r.Jobs) {
			jr := r.Jobs[j]
			switch {
			case jr.Ok:
				out = append(out, fmt.Sprintf("  -> %s: success (%d bytes)", p.Jobs[j].Out, len(jr.Out)))
			case jr.Fail:
				out = append(out, fmt.Sprintf("  -> %s: failure in %s: %s", p.Jobs[j].Out, jr.At, cut(jr.Err, 160)))
			default:
				out = append(out, fmt.Sprintf("  -> %s: cut off", p.Jobs[j].Out))
			}
		}
		for k, c := range r.Calls {
			if c.mut || pr.Kill == k+1 {
				out = append(out, fmt.Sprintf("  call %d: %s %s %d", k+1, c.op, c.path, c.n))
			}
		}
		if len(r.Fired) > 0 {
			out = append(out, "  happened: "+strings.Join(r.Fired, " "))
		}
		if r.Power != "" {
			out = append(out, "  power failure: "+r.Power)
		}
	}
	return out
}
