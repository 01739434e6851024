package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func repoDir() string {
	if r := os.Getenv("VSIM_REPO"); r != "" { // development only
		return r
	}
	return "/repo"
}

// budgets: simulated runs and a wall-clock cap in seconds.
type budget struct {
	runs int
	wall float64
}

var quickRuns = map[string]budget{
	"C01": {120000, 60}, "C02": {120000, 60}, "C03": {120000, 60}, "C04": {120000, 60}, "C05": {120000, 60},
	"C06": {120000, 60}, "C07": {120000, 60}, "C08": {120000, 60},
	"C09": {12000, 120}, "C10": {18000, 130}, "C11": {12000, 120}, "C12": {12000, 110}, "C16": {8000, 130}, "C17": {20000, 60},
}

type viol struct {
	Check string
	Sig   string
	Msg   string
}

type out struct {
	Type    string            `json:"type"`
	Viol    *viol             `json:"viol"`
	Plan    json.RawMessage   `json:"plan"`
	Seed    uint64            `json:"seed"`
	Digest  string            `json:"digest"`
	Log     []string          `json:"log"`
	Stat    map[string]uint64 `json:"stat"`
	Keys    []uint64          `json:"keys"`
	Pairs   []uint64          `json:"pairs"`
	Sites   []uint64          `json:"sites"`
	Types   []string          `json:"types"`
	Known   map[int]int       `json:"known"`
	Samples []any             `json:"samples"`
}

// replayFile is what a violation is reported as.
type replayFile struct {
	Property string          `json:"property"`
	Family   string          `json:"family"` // codec or gen
	Check    string          `json:"check"`
	Where    string          `json:"where"`
	What     string          `json:"what"`
	Seed     uint64          `json:"seed"` // corpora seed
	Thorough bool            `json:"thorough"`
	RunSeed  uint64          `json:"run_seed"`
	Digest   string          `json:"digest"`
	Log      []string        `json:"log"`
	Plan     json.RawMessage `json:"plan"`
}

type knownFinding struct {
	Property string `json:"property"`
	Check    string `json:"check,omitempty"`
	Sig      string `json:"sig,omitempty"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
	// Plan shows the finding: it is executed by every check.
	Plan json.RawMessage `json:"plan,omitempty"`
}

func die(code int, format string, a ...any) {
	fmt.Printf(format+"\n", a...)
	cleanup()
	os.Exit(code)
}

var (
	cleanMu sync.Mutex
	cleans  []func()
)

func cleanup() {
	cleanMu.Lock()
	defer cleanMu.Unlock()
	for _, f := range cleans {
		f()
	}
	cleans = nil
}

func onExit(f func()) {
	cleanMu.Lock()
	cleans = append(cleans, f)
	cleanMu.Unlock()
}

func envSeed() uint64 {
	s, err := strconv.ParseUint(strings.TrimSpace(os.Getenv("VERIF_SEED")), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func main() {
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM)
	go func() { <-sig; cleanup(); os.Exit(2) }()
	defer cleanup()
	if len(os.Args) < 3 {
		fmt.Println("usage: check.sh <property> quick|thorough | replay <file> | build codec|gen")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "replay":
		os.Exit(finish(replayCmd(os.Args[2])))
	case "build": // development: leaves the workspace behind
		w, bin, err := build(os.Args[2], envSeed(), len(os.Args) > 3)
		fmt.Println(bin, err)
		if w != nil {
			fmt.Println(w.timing, len(w.in.sites), w.dropped)
			b, _ := json.Marshal(w.in.sites)
			os.WriteFile(w.path("sites.json"), b, 0o644)
		}
		os.Exit(0)
	}
	tier := os.Args[2]
	if tier != "quick" && tier != "thorough" {
		die(2, "unknown tier %q", tier)
	}
	os.Exit(finish(check(os.Args[1], tier)))
}

func finish(code int) int { cleanup(); return code }

func family(prop string) string {
	switch prop {
	case "C09", "C10", "C11", "C12", "C16":
		return "gen"
	}
	return "codec"
}

func build(fam string, seed uint64, thorough bool) (*workspace, string, error) {
	w, err := newWorkspace(repoDir())
	if err != nil {
		return w, "", err
	}
	var bin string
	if fam == "gen" {
		bin, err = w.buildGen(corpora(seed, thorough))
	} else {
		bin, err = w.buildCodec(corpora(seed, thorough))
	}
	return w, bin, err
}

type workerResult struct {
	outs  []out
	err   error
	last  int
	extra string
}

func startWorker(w *workspace, bin string, k int, args []string) workerResult {
	prog := w.path(fmt.Sprintf("progress.%d", k))
	a := append([]string{}, args...)
	a = append(a, "-worker", fmt.Sprint(k), "-progress", prog)
	c := exec.Command(bin, a...)
	c.Dir = w.dir
	c.Env = w.env("GOMAXPROCS=1", "GOTRACEBACK=single")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var errb bytes.Buffer
	c.Stderr = &limited{b: &errb, n: 20000}
	pipe, err := c.StdoutPipe()
	if err != nil {
		return workerResult{err: err}
	}
	if err := c.Start(); err != nil {
		return workerResult{err: err}
	}
	var res workerResult
	rd := bufio.NewReaderSize(pipe, 1<<20)
	for {
		l, err := rd.ReadBytes('\n')
		if len(l) > 0 {
			var o out
			if json.Unmarshal(l, &o) == nil && o.Type != "" {
				res.outs = append(res.outs, o)
			}
		}
		if err != nil {
			break
		}
	}
	res.err = c.Wait()
	res.extra = errb.String()
	if b, err := os.ReadFile(prog); err == nil {
		res.last, _ = strconv.Atoi(strings.TrimLeft(string(b), "0"))
	}
	return res
}

type limited struct {
	b io.Writer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.b.Write(q)
		l.n -= len(q)
	}
	return len(p), nil
}

func loadKnown() ([]knownFinding, error) {
	b, err := os.ReadFile("known_findings.json")
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var all []knownFinding
	return all, json.Unmarshal(b, &all)
}

func check(prop, tier string) int {
	t0 := time.Now()
	seed := envSeed()
	thorough := tier == "thorough"
	b, ok := quickRuns[prop]
	if !ok {
		fmt.Println("no check for", prop)
		return 2
	}
	if thorough {
		b.runs *= 20
		b.wall = 700
	}
	if v := os.Getenv("VSIM_RUNS"); v != "" {
		b.runs, _ = strconv.Atoi(v)
	}
	all, err := loadKnown()
	if err != nil {
		fmt.Println("known_findings.json:", err)
		return 2
	}
	var active []knownFinding
	for _, k := range all {
		if k.Fixed == "" && k.Property == prop {
			if _, err := regexp.Compile(k.Sig); err != nil {
				fmt.Println("known_findings.json:", err)
				return 2
			}
			active = append(active, k)
		}
	}
	fam := family(prop)
	w, bin, err := build(fam, seed, thorough)
	if w != nil {
		onExit(w.close)
	}
	if err != nil {
		fmt.Println("build failed:", err)
		return 2
	}
	for _, d := range w.dropped {
		fmt.Println("note: types left out:", clip(d, 300))
	}
	kf := w.path("known.json")
	kb, _ := json.Marshal(active)
	os.WriteFile(kf, kb, 0o644)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	common := []string{"-prop", prop, "-seed", fmt.Sprint(seed), "-workers", fmt.Sprint(nw), "-n", fmt.Sprint(b.runs),
		"-wall", fmt.Sprint(b.wall), "-known", kf, "-sites", fmt.Sprint(len(w.in.sites) + 64)}
	tRun := time.Now()
	results := make([]workerResult, nw)
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			results[k] = startWorker(w, bin, k, append([]string{"-mode", "explore"}, common...))
		}()
	}
	wg.Wait()
	runWall := time.Since(tRun).Seconds()

	stat := map[string]uint64{}
	keys, pairs, types := map[uint64]bool{}, map[uint64]bool{}, map[string]bool{}
	sites := make([]uint64, len(w.in.sites)/64+4)
	known := map[int]int{}
	var samples []any
	type found struct {
		o   out
		rf  replayFile
		bad string
	}
	var viols []found
	broken := ""
	for k, r := range results {
		for _, o := range r.outs {
			switch o.Type {
			case "viol":
				viols = append(viols, found{o: o})
			case "nondet":
				broken = fmt.Sprintf("the simulator is not deterministic: run seed %d gave %s", o.Seed, o.Digest)
			case "stat":
				for n, c := range o.Stat {
					stat[n] += c
				}
				for _, x := range o.Keys {
					keys[x] = true
				}
				for _, x := range o.Pairs {
					pairs[x] = true
				}
				for i, x := range o.Sites {
					if i < len(sites) {
						sites[i] |= x
					}
				}
				for _, t := range o.Types {
					types[t] = true
				}
				for i, c := range o.Known {
					known[i] += c
				}
				if len(samples) < 4 {
					samples = append(samples, o.Samples...)
				}
			}
		}
		if r.err != nil {
			// the code under test brought the process down: confirm in isolation
			one := []string{"-mode", "one", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(r.last), "-sites", fmt.Sprint(len(w.in.sites) + 64)}
			c := exec.Command(bin, one...)
			c.Env = w.env("GOMAXPROCS=1")
			var ob, eb bytes.Buffer
			c.Stdout, c.Stderr = &ob, &eb
			err := c.Run()
			if err == nil {
				broken = fmt.Sprintf("worker %d ended (%v) at run %d but that run alone does not end so: %s", k, r.err, r.last, clip(r.extra, 600))
				continue
			}
			var plan json.RawMessage
			json.NewDecoder(bytes.NewReader(ob.Bytes())).Decode(&plan)
			if len(plan) == 0 {
				broken = fmt.Sprintf("worker %d ended (%v) at run %d, and the run alone: %s", k, r.err, r.last, clip(eb.String(), 600))
				continue
			}
			viols = append(viols, found{o: out{Viol: &viol{"process-crash", fatalLine(eb.String()), "the process died: " + clip(eb.String(), 800)}, Plan: plan, Digest: "crash"}})
		}
	}
	for i, k := range active {
		if len(k.Plan) == 0 {
			continue
		}
		vs, dig, err := replayViols(w, bin, prop, k.Plan)
		if err != nil {
			broken = fmt.Sprintf("probe of a known finding (%s): %v", k.What, err)
			continue
		}
		for _, v := range vs {
			m := false
			for j, a := range active {
				if a.Check == v.Check && regexp.MustCompile(a.Sig).MatchString(v.Sig) {
					known[j]++
					m = true
					break
				}
			}
			if !m {
				viols = append(viols, found{o: out{Viol: &v, Plan: k.Plan, Digest: dig}})
			}
		}
		_ = i
	}
	sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].o.Plan) < len(viols[j].o.Plan) })
	// write replay files and make sure each reproduces in a process of its own
	dir := filepath.Join("evidence", "replays")
	os.MkdirAll(dir, 0o755)
	old, _ := filepath.Glob(filepath.Join(dir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	seen := map[string]bool{}
	n := 0
	cwd, _ := os.Getwd()
	var reports []string
	for i := range viols {
		v := &viols[i]
		id := v.o.Viol.Check + "|" + v.o.Viol.Sig
		if seen[id] || n >= 6 {
			continue
		}
		seen[id] = true
		v.rf = replayFile{Property: prop, Family: fam, Check: v.o.Viol.Check, Where: v.o.Viol.Sig, What: v.o.Viol.Msg, Seed: seed, Thorough: thorough, RunSeed: v.o.Seed, Digest: v.o.Digest, Plan: v.o.Plan}
		rep := replayIn(w, bin, &v.rf)
		if !rep.ok {
			broken = fmt.Sprintf("violation %s does not replay: %s", id, rep.msg)
			continue
		}
		v.rf.Log = rep.log
		f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, n))
		jb, _ := json.MarshalIndent(&v.rf, "", " ")
		os.WriteFile(f, jb, 0o644)
		n++
		reports = append(reports, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, filepath.Join(cwd, f)),
			fmt.Sprintf("  %s at %s: %s", v.rf.Check, v.rf.Where, clip(v.rf.What, 600)))
	}
	visited := 0
	for _, x := range sites {
		for ; x != 0; x &= x - 1 {
			visited++
		}
	}
	writeEvidence(evidenceIn{prop: prop, tier: tier, seed: seed, stat: stat, keys: len(keys), pairs: len(pairs), types: len(types), visited: visited, w: w,
		samples: samples, viols: n, wall: time.Since(t0).Seconds(), runWall: runWall, known: known, active: active, workers: nw})
	for i, k := range active {
		if known[i] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		} else {
			fmt.Printf("note: listed finding not met: %s\n", k.What)
		}
	}
	fmt.Printf("%s %s: %d runs (%d with content), %d distinct executions, %d/%d statements reached, %.1fs build, %.1fs running\n", prop, tier,
		stat["runs"], stat["useful"], len(keys), visited, len(w.in.sites), time.Since(t0).Seconds()-runWall, runWall)
	for _, r := range reports {
		fmt.Println(r)
	}
	if n > 0 {
		return 1
	}
	if broken != "" {
		fmt.Println("CHECK BROKEN:", broken)
		return 2
	}
	if stat["runs"] == 0 || stat["useful"] == 0 {
		fmt.Println("CHECK BROKEN: nothing was explored")
		return 2
	}
	return 0
}

func fatalLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return clip(l, 120)
		}
	}
	return "process"
}

type replayResult struct {
	ok  bool
	msg string
	log []string
}

func replayIn(w *workspace, bin string, rf *replayFile) replayResult {
	ob, eb, err := runReplay(w, bin, rf.Property, rf.Plan)
	if rf.Digest == "crash" {
		if err != nil {
			return replayResult{ok: true, log: strings.Split(clip(eb.String(), 3000), "\n")}
		}
		return replayResult{msg: "the process does not die"}
	}
	if err != nil {
		return replayResult{msg: fmt.Sprintf("%v %s", err, clip(eb.String(), 1000))}
	}
	res := replayResult{}
	hit := false
	dig := ""
	for _, l := range strings.Split(ob.String(), "\n") {
		var o out
		if json.Unmarshal([]byte(l), &o) != nil {
			continue
		}
		if o.Type == "viol" && o.Viol.Check == rf.Check && o.Viol.Sig == rf.Where {
			hit = true
		}
		if o.Type == "done" {
			dig, res.log = o.Digest, o.Log
		}
	}
	switch {
	case !hit:
		res.msg = "not reproduced: " + clip(ob.String(), 600)
	case dig != rf.Digest:
		res.msg = fmt.Sprintf("reproduced, but execution %s is not the recorded one %s", dig, rf.Digest)
	default:
		res.ok = true
	}
	return res
}

func runReplay(w *workspace, bin, prop string, plan []byte) (ob, eb bytes.Buffer, err error) {
	f := w.path("replay-plan.json")
	os.WriteFile(f, plan, 0o644)
	c := exec.Command(bin, "-mode", "replay", "-prop", prop, "-file", f, "-sites", fmt.Sprint(len(w.in.sites)+64))
	c.Dir = w.dir
	c.Env = w.env("GOMAXPROCS=1")
	c.Stdout, c.Stderr = &ob, &eb
	err = c.Run()
	return
}

// replayViols executes a plan and returns what it violates.
func replayViols(w *workspace, bin, prop string, plan []byte) (vs []viol, dig string, err error) {
	ob, eb, err := runReplay(w, bin, prop, plan)
	if err != nil {
		return []viol{{"process-crash", fatalLine(eb.String()), "the process died: " + clip(eb.String(), 800)}}, "crash", nil
	}
	err = fmt.Errorf("no answer: %s", clip(ob.String(), 300))
	for _, l := range strings.Split(ob.String(), "\n") {
		var o out
		if json.Unmarshal([]byte(l), &o) != nil {
			continue
		}
		if o.Type == "viol" {
			vs = append(vs, *o.Viol)
		}
		if o.Type == "done" {
			dig, err = o.Digest, nil
		}
	}
	return
}

func replayCmd(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	w, bin, err := build(rf.Family, rf.Seed, rf.Thorough)
	if w != nil {
		onExit(w.close)
	}
	if err != nil {
		fmt.Println("build failed:", err)
		return 2
	}
	r := replayIn(w, bin, &rf)
	for _, l := range r.log {
		fmt.Println("  " + l)
	}
	if r.ok {
		fmt.Printf("%s at %s: %s\n", rf.Check, rf.Where, rf.What)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
		return 1
	}
	fmt.Println("not reproduced on this tree:", r.msg)
	return 0
}
