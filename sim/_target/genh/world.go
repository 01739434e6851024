package main

import (
	"fmt"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/iv-menshenin/valyjson/generator"

	"vsimw/simrt"
)

// ---- plans ----

type File struct {
	P string `json:"p"`           // absolute path
	D string `json:"d,omitempty"` // content
	L string `json:"l,omitempty"` // symbolic link target
	X bool   `json:"x,omitempty"` // remove (edits)
	M bool   `json:"m,omitempty"` // directory
}

// Job is one use of the generator.
type Job struct {
	In  string   `json:"in"`
	Out string   `json:"out"`
	Int []string `json:"int,omitempty"` // arguments of FixImports
	Cli bool     `json:"cli,omitempty"` // the command in main.go, run in the directory Dir
	Dir string   `json:"dir,omitempty"`
}

type Step struct {
	K string `json:"k"` // gen (everything), regen (everything, over changed outputs), new, parse, dec, enc, imports, print, edit
	J int    `json:"j"` // job, or edit set
}

// Proc is one process: it starts with nothing in memory.
type Proc struct {
	Steps   []Step            `json:"steps"`
	Kill    int               `json:"kill,omitempty"` // dies in this system call
	Part    int               `json:"part,omitempty"` // thousandths of the write that happen
	Faults  []Fault           `json:"faults,omitempty"`
	Shuffle uint64            `json:"shuffle,omitempty"`
	Clock   int64             `json:"clock,omitempty"` // seconds since the epoch
	Tick    int64             `json:"tick,omitempty"`  // nanoseconds per system call
	Env     map[string]string `json:"env,omitempty"`
	Cwd     string            `json:"cwd,omitempty"`
	Rel     bool              `json:"rel,omitempty"` // paths are given relative to Cwd
	Hash    uint64            `json:"hash,omitempty"`
	Pid     int               `json:"pid,omitempty"`
	With    bool              `json:"with,omitempty"`  // runs at the same time as the process before
	Sw      []Sw              `json:"sw,omitempty"`    // where it gives way
	Power   uint64            `json:"power,omitempty"` // the power fails when the process dies or right after it ended: seed of what is lost
}

// Sw says: before system call At, member To of the group goes on.
type Sw struct {
	At int `json:"at"`
	To int `json:"to"`
}

type Plan struct {
	Prop  string   `json:"prop"`
	Seed  uint64   `json:"seed"`
	Kind  string   `json:"kind"`
	Base  string   `json:"base,omitempty"` // "fixtures" or "corpora": files known to the harness
	Root  string   `json:"root,omitempty"` // where the base module is
	Dirs  []string `json:"dirs,omitempty"` // packages of the base that are there
	Files []File   `json:"files,omitempty"`
	Jobs  []Job    `json:"jobs"`
	Edits [][]File `json:"edits,omitempty"`
	Procs []Proc   `json:"procs"`

	counting bool
	reals    map[string]string
}

// real is the path without symbolic links.
func (p *Plan) real(q string) string {
	if r, ok := p.reals[q]; ok {
		return r
	}
	r, links := q, false
	for _, f := range p.Files {
		links = links || f.L != ""
	}
	if links {
		r = p.tree(nil).real(q)
	}
	if p.reals == nil {
		p.reals = map[string]string{}
	}
	p.reals[q] = r
	return r
}

// ---- the tree ----

type Data struct {
	Fixtures map[string]string
	FixJobs  []string
	Corpora  []struct {
		Name  string
		Files map[string]string
		Gen   []string
	}
}

var data Data
var cliMain func()

func apply(fs *simFS, files []File) {
	for _, f := range files {
		switch {
		case f.X:
			fs.rm(f.P)
		case f.M:
			fs.hostMkdir(f.P)
		case f.L != "":
			fs.link(f.P, f.L)
		default:
			fs.put(f.P, []byte(f.D))
		}
	}
}

func (p *Plan) hasDir(d string) bool {
	for _, x := range p.Dirs {
		if x == d || strings.HasPrefix(d, x+"/") {
			return true
		}
	}
	return false
}

// tree builds the sources of a plan with the first n edits done.
func (p *Plan) tree(edits []int) *simFS {
	fs := newFS()
	for _, d := range []string{"/tmp", "/var/tmp", "/home/u/.cache", "/home/u/.config"} {
		fs.hostMkdir(d)
	}
	switch p.Base {
	case "fixtures":
		for _, n := range sortedKeys(data.Fixtures) {
			if n == "go.mod" || p.hasDir(path.Dir(n)) {
				fs.put(path.Join(p.Root, n), []byte(data.Fixtures[n]))
			}
		}
	case "corpora":
		fs.put(path.Join(p.Root, "go.mod"), []byte("module vcorp\n\ngo 1.18\n"))
		for _, c := range data.Corpora {
			if p.hasDir(c.Name) {
				for _, n := range sortedKeys(c.Files) {
					fs.put(path.Join(p.Root, c.Name, n), []byte(c.Files[n]))
				}
			}
		}
	}
	apply(fs, p.Files)
	for _, e := range edits {
		apply(fs, p.Edits[e])
	}
	return fs
}

func sortedKeys[T any](m map[string]T) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- running a process ----

type JobRes struct {
	Ok, Fail bool
	Err      string
	At       string // step it failed in
	Order    int    // when it ended
	Edits    []int  // edits done before it began

	Out, Utils       string // the files when it had ended
	HasOut, HasUtils bool
}

type ProcRes struct {
	Jobs    map[int]*JobRes
	Calls   []call
	Fired   []string
	Vanish  []string
	Strays  []string
	Dead    bool
	Power   string // what a power failure took
	Hung    string
	Crash   string
	Created map[string]bool
	Steps   uint64
	Edits   []int
	Log     []string
}

type procCfg struct {
	p     *Plan
	allow func(path string) bool
	edits []int // done before
}

var (
	simSteps, simCalls uint64
	faultsFired        = map[string]int{}
)

func (j *Job) utils() string { return path.Join(path.Dir(j.Out), "valyjson_utils.go") }

// member is a process of a group that runs together.
type member struct {
	id      int
	fs      *simFS
	pr      *Proc
	cfg     procCfg
	res     *ProcRes
	world   *simrt.World
	group   []*member
	sw      []Sw
	since   int
	outcome *JobRes
	env     []string
}

func runProc(fs *simFS, pr *Proc, cfg procCfg) *ProcRes {
	return runGroup(fs, []*Proc{pr}, []procCfg{cfg})[0]
}

var switches uint64

// runGroup runs processes at the same time on one file system. Each has its own
// memory; they take turns at system calls.
func runGroup(fs *simFS, prs []*Proc, cfgs []procCfg) []*ProcRes {
	fs.settle()
	var ms []*member
	var bodies []func()
	simrt.Restart()
	for i, pr := range prs {
		v := fs
		if len(prs) > 1 {
			c := *fs
			v = &c
		}
		m := &member{id: i, fs: v, pr: pr, cfg: cfgs[i]}
		m.prepare()
		if len(prs) > 1 {
			v.m = m
			m.world = simrt.NewWorld()
			m.sw = pr.Sw
		}
		ms = append(ms, m)
		bodies = append(bodies, m.body)
	}
	for _, m := range ms {
		m.group = ms
	}
	limit := uint64(60_000_000)
	var seed uint64
	for _, pr := range prs {
		seed = simrt.Mix(seed, pr.Hash)
	}
	cfg := simrt.Config{Mode: 1, Seed: prs[0].Hash, Prob: 20, Limit: limit}
	if len(prs) > 1 {
		cfg = simrt.Config{Mode: 0, Seed: seed, Limit: limit * uint64(len(prs))}
		simrt.StartWorlds(-1, func(from, to int) {
			if from >= 0 {
				ms[from].world.Save()
			}
			ms[to].resume()
		})
	} else {
		ms[0].resume()
	}
	s := simrt.Run(cfg, bodies)
	simrt.StartWorlds(-1, nil)
	syscall.SimFS = nil
	time.SimNow = nil
	time.SimSleep = nil
	var out []*ProcRes
	for i, m := range ms {
		res := m.res
		if i < len(s.Tasks) {
			res.Steps = s.Tasks[i].Steps
		}
		if len(ms) == 1 {
			res.Steps = s.Total()
		}
		for _, t := range s.Tasks {
			if t.PanicV != nil && (t.Owner == i || len(ms) == 1) {
				res.Crash = fmt.Sprint(t.PanicV)
				if m.outcome != nil && !m.outcome.Ok {
					m.outcome.Fail = true
				}
			}
		}
		if s.Hang != "" {
			res.Hung = "goes on for ever (" + s.Hang + ")"
		}
		if s.Deadlock {
			res.Hung = "deadlock"
		}
		v := m.fs
		if v.hung {
			res.Hung = fmt.Sprintf("does not come to an end after %d system calls", len(v.calls))
		}
		res.Calls, res.Fired, res.Vanish = v.calls, v.fired, v.vanish
		res.Dead = v.dead && !v.hung
		if m.pr.Power != 0 {
			res.Power = v.powerLoss(m.pr.Power)
			res.Fired = append(res.Fired, "power failure")
		}
		for p := range v.strays {
			res.Strays = append(res.Strays, p)
		}
		sort.Strings(res.Strays)
		simSteps += res.Steps
		simCalls += uint64(len(res.Calls))
		if m.cfg.p.counting {
			for _, f := range res.Fired {
				faultsFired[f]++
			}
		}
		if len(ms) > 1 {
			fs.hash = simrt.Mix(fs.hash, v.hash)
		}
		out = append(out, res)
	}
	if cfgs[0].p.counting {
		switches += uint64(s.Switches)
	}
	return out
}

// resume puts everything in place that belongs to the process.
func (m *member) resume() {
	if m.world != nil {
		m.world.Load()
	}
	syscall.SimFS = m.fs
	time.SimNow = m.fs.now
	time.SimSleep = m.fs.sleep
	for _, k := range envNames {
		os.Unsetenv(k)
	}
	os.Setenv("HOME", "/home/u")
	for k, v := range m.pr.Env {
		os.Setenv(k, v)
	}
	m.since = 0
}

// giveWay lets another process run.
func (m *member) giveWay(to int) {
	if to == m.id || !simrt.Alive(to) {
		return
	}
	simrt.SwitchTo(to)
}

// next lets the next process run, if there is one.
func (m *member) next() bool {
	for i := 1; i < len(m.group); i++ {
		to := (m.id + i) % len(m.group)
		if simrt.Alive(to) {
			m.giveWay(to)
			return true
		}
	}
	return false
}

func (m *member) before(call int) {
	for len(m.sw) > 0 && m.sw[0].At <= call {
		w := m.sw[0]
		m.sw = m.sw[1:]
		if w.At == call {
			m.giveWay(w.To)
		}
	}
	if m.since++; m.since > 5000 {
		m.next()
	}
}

func (m *member) prepare() {
	pr, fs := m.pr, m.fs
	m.res = &ProcRes{Jobs: map[int]*JobRes{}, Created: map[string]bool{}, Edits: append([]int{}, m.cfg.edits...)}
	fs.calls, fs.fds, fs.fired, fs.vanish, fs.slept, fs.m, fs.bad = nil, map[int]*ofile{}, nil, nil, 0, nil, nil
	fs.faults = map[int]Fault{}
	for _, f := range pr.Faults {
		fs.faults[f.At] = f
	}
	fs.kill, fs.killAt, fs.dead, fs.full, fs.hung = pr.Kill, pr.Part, false, false, false
	fs.shuffle = pr.Shuffle
	fs.clock = pr.Clock * int64(time.Second)
	fs.step = pr.Tick
	if fs.step == 0 {
		fs.step = 1000
	}
	fs.cwd = pr.Cwd
	if fs.cwd == "" {
		fs.cwd = "/"
	}
	fs.pid = 1000 + pr.Pid
	fs.strays = map[string]bool{}
	fs.created = m.res.Created
	fs.allow = m.cfg.allow
}

// body is what the process does.
func (m *member) body() {
	fs, pr, res, cfg := m.fs, m.pr, m.res, m.cfg
	name := func(p string) string {
		if pr.Rel {
			if r, ok := relTo(fs.cwd, p); ok {
				return r
			}
		}
		return p
	}
	gens := map[int]*generator.Gen{}
	order := 0
	simrt.SetTaskRand(simrt.Mix(pr.Hash, 0x9e4))
	for _, st := range pr.Steps {
		if st.K == "edit" {
			simrt.Host(func() {
				fs.host(func() { apply(fs, cfg.p.Edits[st.J]) })
				res.Edits = append(res.Edits, st.J)
			})
			continue
		}
		j := &cfg.p.Jobs[st.J]
		r := res.Jobs[st.J]
		if st.K == "regen" {
			simrt.Host(func() { fs.host(func() { scribble(cfg.p, fs, j, uint64(len(res.Jobs))+pr.Hash+uint64(st.J)) }) })
		}
		if st.K == "new" || st.K == "gen" || st.K == "regen" || r == nil {
			r = &JobRes{Edits: append([]int{}, res.Edits...)}
			res.Jobs[st.J] = r
		}
		if r.Fail || r.Ok {
			continue
		}
		m.outcome = r
		ks := []string{st.K}
		if st.K == "gen" || st.K == "regen" {
			ks = genSteps
		}
		for _, k := range ks {
			if r.Fail {
				break
			}
			one(gens, st.J, j, k, r, name, fs)
		}
		if (r.Fail || st.K == "gen" || st.K == "regen" || st.K == "print") && r.Order == 0 {
			order++
			r.Order = order
			r.Ok = !r.Fail
			simrt.Host(func() {
				o, ok := fs.get(j.Out)
				u, ok2 := fs.get(j.utils())
				r.Out, r.HasOut, r.Utils, r.HasUtils = string(o), ok, string(u), ok2
			})
		}
	}
	fs.unlockAll()
}

// scribble changes the outputs that are there, as somebody with an editor does; they stay valid Go.
func scribble(p *Plan, fs *simFS, j *Job, h uint64) {
	r := simrt.NewRand(h)
	for _, q := range []string{j.Out, j.utils()} {
		d, ok := fs.get(q)
		if !ok || r.P(1, 3) {
			continue
		}
		t := string(d)
		switch r.N(4) {
		case 0:
			t = strings.Replace(t, "Code generated", "code generated", 1)
		case 1:
			t += "\n// by hand\n"
		case 2:
			t = strings.Replace(t, " nil", " nul", 1+r.N(3))
		case 3:
			t = strings.Replace(t, "return", "return ", 1)
		}
		fs.put(p.real(q), []byte(t))
	}
}

var envNames = []string{"HOME", "PWD", "TMPDIR", "GOPATH", "GOFLAGS", "GOOS", "GOARCH", "LANG", "TZ", "USER", "GO111MODULE", "GOWORK", "VALYJSON", "DEBUG", "XDG_CACHE_HOME", "GOCACHE"}

var genSteps = []string{"new", "parse", "dec", "enc", "imports", "print"}

// one makes one call of the generator's interface.
func one(gens map[int]*generator.Gen, ji int, j *Job, k string, r *JobRes, name func(string) string, fs *simFS) {
	defer func() {
		if x := recover(); x != nil {
			if simrt.IsAbort(x) {
				panic(x)
			}
			r.Fail, r.Err, r.At = true, fmt.Sprint(x), k
			if e, ok := x.(runtime.Error); ok {
				r.Err = "runtime: " + e.Error()
			}
		}
	}()
	if j.Cli {
		if k == "print" {
			was := fs.cwd
			fs.cwd = j.Dir
			defer func() { fs.cwd = was }()
			cliMain()
		}
		return
	}
	g := gens[ji]
	if g == nil && k != "new" {
		g = generator.New(name(j.In))
		gens[ji] = g
	}
	switch k {
	case "new":
		gens[ji] = generator.New(name(j.In))
	case "parse":
		if err := g.Parse(); err != nil {
			r.Fail, r.Err, r.At = true, err.Error(), k
		}
	case "dec":
		g.BuildDecoders()
	case "enc":
		g.BuildEncoders()
	case "imports":
		g.FixImports(j.Int...)
	case "print":
		g.Print(name(j.Out))
	}
}

// relTo gives p relative to the directory dir, if it is inside it.
func relTo(dir, p string) (string, bool) {
	if dir == "/" {
		return strings.TrimPrefix(p, "/"), true
	}
	if strings.HasPrefix(p, dir+"/") {
		return p[len(dir)+1:], true
	}
	return p, false
}

// ---- the undisturbed run ----

type base struct {
	ok         bool
	err        string
	out, utils string
	calls      int
}

var baseCache = map[uint64]*base{}

// baseline is what a fresh process makes of the pristine sources.
func baseline(p *Plan, edits []int, vanished []string, ji int) *base {
	j := &p.Jobs[ji]
	h := simrt.Mix(hstr(p.Base), hstr(p.Root), hstr(strings.Join(p.Dirs, " ")), hstr(fmt.Sprint(p.Files)), hstr(fmt.Sprint(*j)))
	for _, e := range edits {
		h = simrt.Mix(h, hstr(fmt.Sprint(p.Edits[e])))
	}
	h = simrt.Mix(h, hstr(strings.Join(vanished, " ")))
	if b := baseCache[h]; b != nil {
		return b
	}
	fs := p.tree(edits)
	for _, v := range vanished {
		fs.rm(v)
	}
	q := *p
	q.counting = false
	r := runProc(fs, &Proc{Steps: []Step{{"gen", ji}}}, procCfg{p: &q, edits: edits})
	b := &base{calls: len(r.Calls)}
	jr := r.Jobs[ji]
	b.ok, b.err = jr.Ok && r.Crash == "" && r.Hung == "", jr.Err
	if o, ok := fs.get(j.Out); ok {
		b.out = string(o)
	} else if b.ok {
		b.ok, b.err = false, "no output"
	}
	if u, ok := fs.get(j.utils()); ok {
		b.utils = string(u)
	} else if b.ok {
		b.ok, b.err = false, "no helper file"
	}
	if len(baseCache) > 4000 {
		baseCache = map[uint64]*base{}
	}
	baseCache[h] = b
	return b
}
