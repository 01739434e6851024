package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime/debug"
	"time"
	"unicode/utf8"

	"vsimw/simrt"
)

func (d Doc) MarshalJSON() ([]byte, error) {
	if utf8.Valid(d) {
		return json.Marshal("t:" + string(d))
	}
	return json.Marshal("x:" + base64.StdEncoding.EncodeToString(d))
}

func (d *Doc) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	if len(s) >= 2 && s[:2] == "x:" {
		x, err := base64.StdEncoding.DecodeString(s[2:])
		*d = x
		return err
	}
	*d = Doc(s[2:])
	return nil
}

var stat = struct {
	steps   uint64
	avoided uint64
	longer  uint64
	ages    uint64
	masked  uint64
	chan_   map[string]int
}{chan_: map[string]int{}}

type Known struct {
	Property string `json:"property"`
	Check    string `json:"check"`
	Sig      string `json:"sig"` // regular expression
	re       *regexp.Regexp
}

var known []Known

func isKnown(prop string, v Viol) int {
	for i := range known {
		k := &known[i]
		if k.Property == prop && k.Check == v.Check && k.re.MatchString(v.Sig) {
			return i
		}
	}
	return -1
}

// fresh returns the violations of a verdict that no known finding explains.
func fresh(prop string, vs []Viol, hits map[int]int) []Viol {
	var out []Viol
	for _, v := range vs {
		if i := isKnown(prop, v); i >= 0 {
			if hits != nil {
				hits[i]++
			}
			continue
		}
		out = append(out, v)
	}
	return out
}

type Out struct {
	Type    string            `json:"type"`
	Viol    *Viol             `json:"viol,omitempty"`
	Plan    *Plan             `json:"plan,omitempty"`
	Seed    uint64            `json:"seed,omitempty"`
	Digest  string            `json:"digest,omitempty"`
	Log     []string          `json:"log,omitempty"`
	Stat    map[string]uint64 `json:"stat,omitempty"`
	Keys    []uint64          `json:"keys,omitempty"`
	Pairs   []uint64          `json:"pairs,omitempty"`
	Sites   []uint64          `json:"sites,omitempty"`
	Types   []string          `json:"types,omitempty"`
	Known   map[int]int       `json:"known,omitempty"`
	Samples []any             `json:"samples,omitempty"`
}

func emit(o *Out) {
	b, err := json.Marshal(o)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Stdout.Write(append(b, '\n'))
}

func main() {
	mode := flag.String("mode", "explore", "explore, replay, one, types")
	prop := flag.String("prop", "C01", "")
	seed := flag.Uint64("seed", 1, "")
	worker := flag.Int("worker", 0, "")
	workers := flag.Int("workers", 1, "")
	n := flag.Int("n", 100, "runs in all")
	wall := flag.Float64("wall", 60, "seconds at most")
	file := flag.String("file", "", "plan to replay")
	prog := flag.String("progress", "", "")
	knownF := flag.String("known", "", "")
	nsites := flag.Int("sites", 100000, "")
	from := flag.Int("from", 0, "")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	simrt.Visited = make([]uint64, *nsites/64+2)
	simrt.Scribble = scribble
	initTypes()
	simrt.Snapshot()
	if *knownF != "" {
		b, err := os.ReadFile(*knownF)
		if err == nil {
			err = json.Unmarshal(b, &known)
		}
		for i := range known {
			known[i].re = regexp.MustCompile(known[i].Sig)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	switch *mode {
	case "types":
		for _, t := range tops {
			fmt.Println(t.Name, kindName[t.TD.K], len(t.TD.Fields))
		}
		fmt.Println(simrt.Nodes, simrt.GlobalCount(), simrt.Skipped)
	case "one": // the run of one index, unminimised
		p := buildPlan(*prop, simrt.Mix(*seed, uint64(*from)))
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
		v := judge(p)
		for _, x := range v.viols {
			fmt.Println(x.Check, "|", x.Sig, "|", x.Msg)
		}
		fmt.Printf("%016x\n", v.digest)
		for _, l := range planLog(p, v.main) {
			fmt.Println(l)
		}
	case "replay":
		b, err := os.ReadFile(*file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var p Plan
		if err := json.Unmarshal(b, &p); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for i := range p.Setup {
			checkType(&p.Setup[i])
		}
		v := judge(&p)
		for i := range v.viols {
			emit(&Out{Type: "viol", Viol: &v.viols[i]})
		}
		emit(&Out{Type: "done", Digest: fmt.Sprintf("%016x", v.digest), Log: planLog(&p, v.main)})
	case "explore":
		explore(*prop, *seed, *worker, *workers, *n, *wall, *prog, *verbose)
	}
}

func checkType(op *Op) {
	if op.K == "new" && topIdx[op.T] == nil {
		fmt.Fprintln(os.Stderr, "type not in the corpora of this tree:", op.T)
		os.Exit(4)
	}
}

func explore(prop string, seed uint64, worker, workers, n int, wall float64, prog string, verbose bool) {
	t0 := time.Now()
	var pf *os.File
	if prog != "" {
		pf, _ = os.Create(prog)
	}
	st := map[string]uint64{}
	hits := map[int]int{}
	keys := map[uint64]bool{}
	pairs := map[uint64]bool{}
	types := map[string]bool{}
	var samples []any
	reported := map[string]bool{}
	lastOut := time.Now()
	for i := worker; i < n; i += workers {
		if time.Since(t0).Seconds() > wall {
			st["wall_stop"] = 1
			break
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%012d", i)), 0)
		}
		ps := simrt.Mix(seed, uint64(i))
		p := buildPlan(prop, ps)
		v := judge(p)
		st["runs"]++
		if v.useful {
			st["useful"]++
		}
		if v.main.S != nil {
			k := simrt.Mix(v.main.S.Hash, planKey(p))
			keys[k] = true
			st["switches"] += uint64(v.main.S.Switches)
			for q := range v.main.S.Pairs {
				if len(pairs) < 2_000_000 {
					pairs[q] = true
				}
			}
		} else {
			keys[planKey(p)] = true
		}
		tally(p, v.main, st, types)
		if i%97 == worker%97 || len(samples) == 0 {
			// one seed is one execution: the same plan again gives the same everything
			if w := judge(p); w.digest != v.digest {
				emit(&Out{Type: "nondet", Seed: ps, Digest: fmt.Sprintf("%016x/%016x", v.digest, w.digest)})
			}
			st["repeated"]++
			if len(samples) < 2 {
				samples = append(samples, map[string]any{"run": i, "seed": ps, "log": head(planLog(p, v.main), 12)})
			}
		}
		vs := fresh(prop, v.viols, hits)
		if len(vs) > 0 && st["growth_that_ended"] <= 3+st["runs"]/500 {
			first := vs[0]
			if verbose && prop != "C17" {
				fmt.Fprintln(os.Stderr, i, first.Check, "|", first.Sig, "|", first.Msg)
			}
			if !reported[first.Check+first.Sig] && len(reported) < 4 {
				reported[first.Check+first.Sig] = true
				q, viol, dig := minimise(p, v, first)
				if prop == "C17" && (viol.Check == "keeps-growing" || viol.Check == "slows-down") {
					if st["growth_that_ended"] > 3+st["runs"]/500 || !lasts(q) {
						st["growth_that_ended"]++
						delete(reported, first.Check+first.Sig)
						continue
					}
				}
				if verbose && prop == "C17" {
					fmt.Fprintln(os.Stderr, i, viol.Check, "|", viol.Sig, "|", viol.Msg)
				}
				emit(&Out{Type: "viol", Viol: &viol, Plan: q, Seed: ps, Digest: dig})
			}
			st["violating"]++
			if st["violating"] > 60 && !verbose {
				st["violation_stop"] = 1
				break
			}
		}
		if time.Since(lastOut) > 30*time.Second {
			lastOut = time.Now()
		}
	}
	st["steps"] = stat.steps
	st["values_avoided"] = stat.avoided
	if prop == "C17" {
		st["watched_longer"] = stat.longer
	}
	st["comparisons_masked"] = stat.masked
	st["pool_gets"], st["pool_hits"], st["pool_puts"] = uint64(simrt.PoolGets), uint64(simrt.PoolHits), uint64(simrt.PoolPuts)
	st["fault:pool_drop"], st["fault:scribble"] = uint64(simrt.PoolDrops), uint64(simrt.Scribbles)
	st["var_accesses"] = uint64(simrt.Accesses)
	for k, c := range simrt.FaultFired {
		st["fault:"+k] += uint64(c)
	}
	for k, c := range stat.chan_ {
		if k == "" {
			k = "intact"
		}
		st["channel:"+k] += uint64(c)
	}
	o := &Out{Type: "stat", Stat: st, Known: hits, Samples: samples, Sites: simrt.Visited, Types: sortedKeys(types)}
	for k := range keys {
		o.Keys = append(o.Keys, k)
	}
	for k := range pairs {
		o.Pairs = append(o.Pairs, k)
	}
	w := bufio.NewWriter(os.Stdout)
	b, _ := json.Marshal(o)
	w.Write(append(b, '\n'))
	w.Flush()
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func planKey(p *Plan) uint64 {
	b, _ := json.Marshal([]any{p.Setup, p.Tasks, p.Probe, p.Pool})
	return hstr(string(b))
}

func tally(p *Plan, x *Exec, st map[string]uint64, types map[string]bool) {
	for _, op := range p.Setup {
		if op.K == "new" {
			types[op.T] = true
		}
	}
	one := func(ops []Op, rs []Res) {
		for i := range ops {
			if i >= len(rs) || !rs[i].Ran {
				continue
			}
			st["op:"+ops[i].K]++
			if rs[i].HasErr {
				st["failed:"+ops[i].K]++
			}
			if rs[i].Panic != "" {
				st["panicked:"+ops[i].K]++
			}
		}
	}
	for t := range p.Tasks {
		if t < len(x.Tasks) {
			one(p.Tasks[t], x.Tasks[t])
		}
	}
	one(p.Probe, x.Probe)
	switch p.Pool.Policy {
	case simrt.PoolNewest:
		st["pool:newest"]++
	case simrt.PoolOldest:
		st["pool:oldest"]++
	case simrt.PoolRandom:
		st["pool:random"]++
	}
}

// planLog tells the story of an execution.
func planLog(p *Plan, x *Exec) []string {
	var out []string
	one := func(who string, ops []Op, rs []Res) {
		for i := range ops {
			op := &ops[i]
			s := fmt.Sprintf("%s.%d %s obj%d", who, i, op.K, op.O)
			if op.T != "" {
				s += " " + op.T
			}
			if op.D != nil {
				s += " doc=" + cut(fmt.Sprintf("%q", string(op.D)), 160)
			}
			if op.F != nil {
				s += fmt.Sprintf(" fault=%+v", *op.F)
			}
			if op.X != "" {
				s += " [" + op.X + "]"
			}
			if i < len(rs) && rs[i].Ran {
				r := rs[i]
				if r.HasErr {
					s += " -> error " + cut(r.Err, 120)
				}
				if r.Panic != "" {
					s += " -> panic " + cut(r.Panic, 120)
				}
				if r.Out != nil {
					s += " -> " + cut(string(r.Out), 160)
				}
			}
			out = append(out, s)
		}
	}
	one("setup", p.Setup, x.Setup)
	for t := range p.Tasks {
		var rs []Res
		if t < len(x.Tasks) {
			rs = x.Tasks[t]
		}
		one(fmt.Sprintf("task%d", t), p.Tasks[t], rs)
	}
	one("probe", p.Probe, x.Probe)
	if x.S != nil {
		out = append(out, fmt.Sprintf("schedule: %d switches, first task %d", x.S.Switches, x.S.First))
	}
	return out
}
