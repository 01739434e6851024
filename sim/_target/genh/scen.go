package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"vsimw/simrt"
)

type builder struct {
	r    *simrt.Rand
	p    *Plan
	main int // number of jobs of the module under scrutiny
	syn  *synth
}

func buildPlan(prop string, seed uint64) *Plan {
	r := simrt.NewRand(seed)
	b := &builder{r: r, p: &Plan{Prop: prop, Seed: seed}}
	b.module()
	switch prop {
	case "C09":
		b.histories()
	case "C10":
		b.faults()
	case "C11":
		b.kills()
	case "C16":
		b.together()
	case "C12":
		switch r.N(4) {
		case 0:
			b.histories()
		case 1:
			b.kills()
		default:
			b.faults()
		}
	}
	return b.p
}

// module chooses the sources and the jobs.
func (b *builder) module() {
	r, p := b.r, b.p
	switch k := r.N(20); {
	case k < 3 && len(data.FixJobs) > 0:
		p.Kind, p.Base, p.Root = "fixtures", "fixtures", "/w/fill"
		dirs := map[string]bool{}
		n := 1 + r.N(3)
		for i := 0; i < n; i++ {
			in := data.FixJobs[r.N(len(data.FixJobs))]
			top := strings.SplitN(in, "/", 2)[0]
			dirs[top] = true
			src := data.Fixtures[in]
			for _, d := range sortedKeys(data.Fixtures) {
				if o := strings.SplitN(d, "/", 2)[0]; strings.Contains(src, "fill/"+o) {
					dirs[o] = true
				}
			}
			b.addJob(Job{In: path.Join(p.Root, in), Out: path.Join(p.Root, in) + ".out.go"})
		}
		p.Dirs = sortedKeys(dirs)
	case k < 4 && len(data.Corpora) > 0:
		p.Kind, p.Base, p.Root = "corpora", "corpora", "/w/vcorp"
		dirs := map[string]bool{"cust": true, "extp": true}
		c := data.Corpora[r.N(len(data.Corpora))]
		size := func(files map[string]string) (n int) {
			for _, d := range files {
				n += len(d)
			}
			return
		}
		// rather a small one: a run over a big one takes as long as dozens of others
		if o := data.Corpora[r.N(len(data.Corpora))]; r.P(3, 4) && size(o.Files) < size(c.Files) {
			c = o
		}
		dirs[c.Name] = true
		for _, f := range c.Gen {
			in := path.Join(p.Root, c.Name, f)
			b.addJob(Job{In: in, Out: in + ".out.go"})
		}
		p.Dirs = sortedKeys(dirs)
	case k < 5 && cliMain != nil:
		p.Kind = "cli"
		root := "/w/tool"
		s := newSynth(r.U64(), root, true)
		p.Files = append(p.Files, s.files...)
		src := ""
		for _, f := range s.files {
			if len(s.jobs) > 0 && f.P == s.jobs[len(s.jobs)-1].In {
				src = f.D
			}
		}
		p.Files = append(p.Files, File{P: root + "/benchmark/data.go", D: src})
		b.addJob(Job{In: root + "/benchmark/data.go", Out: root + "/benchmark/data_json.go", Cli: true, Dir: root})
		b.syn = s
	default:
		p.Kind = "synth"
		s := newSynth(r.U64(), pick(r, "/w/m", "/home/u/src/m", "/m"), r.P(1, 3))
		s.surroundings()
		if r.P(1, 15) || p.Prop == "C12" && r.P(1, 6) {
			s.files = s.merged(s.broken(true))
		}
		p.Files = append(p.Files, s.files...)
		for _, j := range s.jobs {
			b.addJob(j)
		}
		b.syn = s
	}
	b.main = len(p.Jobs)
}

func (b *builder) addJob(j Job) {
	for _, o := range b.p.Jobs {
		if o.Out == j.Out {
			return
		}
	}
	b.p.Jobs = append(b.p.Jobs, j)
}

// edit adds a change of the sources (-1: none possible).
func (b *builder) edit() int {
	if b.syn == nil || b.p.Kind == "cli" {
		return -1
	}
	e := b.syn.edit()
	if len(e) == 0 {
		return -1
	}
	b.p.Edits = append(b.p.Edits, e)
	return len(b.p.Edits) - 1
}

// surroundings of a process that must not matter
func (b *builder) around(pr *Proc) {
	r := b.r
	if r.P(2, 3) {
		pr.Shuffle = r.U64() >> 16
	}
	if r.P(2, 3) {
		pr.Hash = r.U64() >> 16
	}
	if r.P(1, 2) {
		pr.Clock = int64(r.N(2_000_000_000))
		pr.Tick = int64(pick(r, 1, 1000, 1_000_000, 3_000_000_000))
	}
	if r.P(1, 2) {
		pr.Pid = r.N(30000)
	}
	if r.P(1, 2) {
		pr.Env = map[string]string{}
		for i := 0; i < 1+r.N(4); i++ {
			pr.Env[pick(r, envNames...)] = pick(r, "/home/u", "/tmp", "linux", "windows", "off", "C", "-mod=mod", "Asia/Tokyo", "1", "")
		}
		delete(pr.Env, "PWD")
	}
	roots := map[string]bool{}
	for _, j := range b.p.Jobs {
		roots[b.moduleRoot(j.In)] = true
	}
	all := true // a relative path works from the module's root or above
	var only string
	for d := range roots {
		only = d
	}
	all = len(roots) == 1
	switch r.N(5) {
	case 0:
		pr.Cwd = "/"
		pr.Rel = r.P(1, 2)
	case 1:
		if all {
			pr.Cwd, pr.Rel = only, true
		}
	case 2:
		if all {
			pr.Cwd, pr.Rel = path.Dir(only), r.P(1, 2)
		}
	case 3:
		pr.Cwd = "/tmp"
	}
}

func (b *builder) moduleRoot(in string) string {
	if b.p.Root != "" && strings.HasPrefix(in, b.p.Root+"/") {
		return b.p.Root
	}
	best := "/"
	if b.syn != nil && b.syn.via != "" && strings.HasPrefix(in, b.syn.via+"/") {
		return b.syn.via
	}
	for _, f := range b.p.Files {
		if path.Base(f.P) == "go.mod" && strings.HasPrefix(in, path.Dir(f.P)+"/") && len(path.Dir(f.P)) > len(best) {
			best = path.Dir(f.P)
		}
	}
	return best
}

func (b *builder) gen(j int) Step { return Step{"gen", j} }

// histories: several processes, other modules, repetition, edits, interleaving.
func (b *builder) histories() {
	r, p := b.r, b.p
	if r.P(1, 2) { // another module, whose packages have the same names
		s := newSynth(r.U64(), "/w2/other", r.P(1, 2))
		if b.syn == nil || s.mod != b.syn.mod || true {
			p.Files = append(p.Files, s.files...)
			p.Jobs = append(p.Jobs, s.jobs...)
		}
	}
	np := 1 + r.N(3)
	for k := 0; k < np; k++ {
		var pr Proc
		last := k == np-1
		n := 1 + r.N(4)
		for i := 0; i < n; i++ {
			switch {
			case r.P(1, 6):
				if e := b.edit(); e >= 0 {
					pr.Steps = append(pr.Steps, Step{"edit", e})
				}
			case r.P(1, 4) && len(p.Jobs) > 1 && p.Kind != "cli":
				pr.Steps = append(pr.Steps, b.interleaved()...)
			default:
				st := b.gen(r.N(len(p.Jobs)))
				if r.P(1, 4) {
					st.K = "regen"
				}
				pr.Steps = append(pr.Steps, st)
			}
		}
		if last {
			for _, j := range b.perm(b.main) {
				st := b.gen(j)
				if r.P(1, 4) {
					st.K = "regen"
				}
				pr.Steps = append(pr.Steps, st)
			}
		}
		b.around(&pr)
		p.Procs = append(p.Procs, pr)
	}
}

func (b *builder) perm(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	for i := n - 1; i > 0; i-- {
		j := b.r.N(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// interleaved: generators that are at work at the same time.
func (b *builder) interleaved() []Step {
	js := b.perm(len(b.p.Jobs))
	n := 2 + b.r.N(2)
	if n > len(js) {
		n = len(js)
	}
	at := make([]int, n)
	var out []Step
	for {
		var open []int
		for i := 0; i < n; i++ {
			if at[i] < len(genSteps) {
				open = append(open, i)
			}
		}
		if len(open) == 0 {
			return out
		}
		i := open[b.r.N(len(open))]
		out = append(out, Step{genSteps[at[i]], js[i]})
		at[i]++
	}
}

// before: what happened earlier (old outputs, changed sources since).
func (b *builder) before() {
	r, p := b.r, b.p
	if !r.P(2, 3) {
		return
	}
	var pr Proc
	for _, j := range b.perm(b.main) {
		if r.P(4, 5) {
			pr.Steps = append(pr.Steps, b.gen(j))
		}
	}
	p.Procs = append(p.Procs, pr)
	if r.P(2, 3) {
		if e := b.edit(); e >= 0 {
			p.Procs[len(p.Procs)-1].Steps = append(p.Procs[len(p.Procs)-1].Steps, Step{"edit", e})
		}
	}
}

func (b *builder) someJobs() (out []Step) {
	n := 1
	if b.r.P(1, 4) {
		n = 2
	}
	for i, j := range b.perm(b.main) {
		if i < n {
			out = append(out, b.gen(j))
		}
	}
	return
}

// dry runs what is planned so far and then pr, and returns its system calls.
func (b *builder) dry(pr *Proc) []call {
	q := *b.p
	q.counting = false
	q.Procs = append(append([]Proc{}, b.p.Procs...), *pr)
	x := execute(&q)
	return x.procs[len(x.procs)-1].Calls
}

func (b *builder) pickCall(cs []call, ok func(c *call) bool) int {
	type key struct{ op, role string }
	groups := map[key][]int{}
	var order []key
	for i := range cs {
		c := &cs[i]
		if ok != nil && !ok(c) {
			continue
		}
		k := key{c.op, b.p.role(c.path)}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], i+1)
	}
	if len(order) == 0 {
		return 0
	}
	g := groups[order[b.r.N(len(order))]]
	return g[b.r.N(len(g))]
}

var kindsFor = map[string][]string{
	"open":      {"EIO", "EACCES", "EACCES", "EMFILE", "ENFILE", "EINTR", "ENOMEM", "ESTALE", "EPERM", "vanish", "vanish"},
	"create":    {"EIO", "ENOSPC", "EDQUOT", "EACCES", "EROFS", "EMFILE", "EINTR", "full", "ENOMEM"},
	"trunc":     {"EIO", "EACCES", "EROFS", "ETXTBSY", "EINTR", "EMFILE", "ENOSPC"},
	"read":      {"EIO", "EINTR", "short", "short", "ESTALE", "torn"},
	"write":     {"EIO", "ENOSPC", "EDQUOT", "EFBIG", "EINTR", "short", "torn", "torn", "full"},
	"getdents":  {"EIO", "EINTR", "ESTALE", "EACCES"},
	"stat":      {"EIO", "EACCES", "EINTR", "ENOMEM", "vanish"},
	"fstat":     {"EIO", "EINTR", "ESTALE"},
	"close":     {"EIO"},
	"closew":    {"EIO", "ENOSPC", "EDQUOT"},
	"rename":    {"EIO", "EACCES", "ENOSPC", "EROFS", "EPERM", "EINTR"},
	"unlink":    {"EIO", "EACCES", "EPERM", "EINTR"},
	"chmod":     {"EIO", "EPERM", "EINTR"},
	"ftruncate": {"EIO", "ENOSPC", "EINTR"},
	"fsync":     {"EIO", "ENOSPC", "EINTR"},
	"flock":     {"ENOLCK"},
	"mkdir":     {"EIO", "ENOSPC", "EACCES"},
	"link":      {"EIO", "EPERM"},
	"symlink":   {"EIO", "EPERM"},
}

func (b *builder) faultAt(cs []call, at int, mild bool) Fault {
	r := b.r
	c := &cs[at-1]
	f := Fault{At: at, Kind: "EIO"}
	if ks := kindsFor[c.op]; len(ks) > 0 {
		f.Kind = ks[r.N(len(ks))]
	}
	if mild {
		f.Kind = "EINTR"
		if (c.op == "read" || c.op == "write") && r.P(1, 2) {
			f.Kind = "short"
		}
		if r.P(1, 3) {
			f.Rep = r.N(4)
		}
	}
	if f.Kind == "vanish" && b.p.role(c.path) != "src" && b.p.role(c.path) != "gomod" {
		f.Kind = "EIO"
	}
	switch f.Kind {
	case "short", "full":
		f.Part = r.N(1000)
	case "torn":
		f.Err = pick(r, "EIO", "ENOSPC", "EDQUOT")
		f.Part = r.N(1000)
		if c.op == "read" {
			f.Err = pick(r, "EIO", "ESTALE")
		}
	}
	if c.op == "closew" {
		f.Part = pick(r, 0, r.N(1000), 1000)
	}
	if !mild && f.Kind != "vanish" && r.P(1, 4) { // not just this once
		switch c.op {
		case "open":
			f.Kind = pick(r, "denied", "denied", "sick")
		case "stat", "getdents", "read", "fstat":
			f.Kind = "sick"
		case "create", "rename", "chmod":
			f.Kind = "readonly"
		}
	} else if !mild && f.Kind != "vanish" && r.P(1, 6) {
		f.Rep = 1 + r.N(3)
	}
	return f
}

// faults: a run during which system calls fail, then one without.
func (b *builder) faults() {
	r, p := b.r, b.p
	b.before()
	pr := Proc{Steps: b.someJobs()}
	b.around(&pr)
	cs := b.dry(&pr)
	mild := r.P(1, 4)
	n := 1
	if r.P(1, 3) {
		n += r.N(4)
	}
	if mild {
		n = 1 + r.N(12)
	}
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		at := b.pickCall(cs, nil)
		if i == 0 && b.r.P(1, 3) { // what is looked at more than once is what matters
			seen := map[string]int{}
			for _, c := range cs {
				if c.op == "open" {
					seen[c.path]++
				}
			}
			again := b.pickCall(cs, func(c *call) bool {
				return seen[c.path] > 1 && (c.op == "open" || c.op == "getdents" || c.op == "read")
			})
			if again > 0 {
				at = again
			}
		}
		if at == 0 || used[at] {
			continue
		}
		used[at] = true
		pr.Faults = append(pr.Faults, b.faultAt(cs, at, mild))
	}
	p.Procs = append(p.Procs, pr)
	if r.P(2, 3) {
		var again Proc
		for _, j := range b.perm(b.main) {
			again.Steps = append(again.Steps, b.gen(j))
		}
		b.around(&again)
		p.Procs = append(p.Procs, again)
	}
}

// kills: a run that dies (perhaps several in a row), then one that does not.
func (b *builder) kills() {
	r, p := b.r, b.p
	b.before()
	n := 1
	if r.P(1, 3) {
		n += 1 + r.N(2)
	}
	for i := 0; i < n; i++ {
		pr := Proc{Steps: b.someJobs()}
		b.around(&pr)
		cs := b.dry(&pr)
		if len(cs) == 0 {
			continue
		}
		at := 0
		switch r.N(5) {
		case 0:
			at = 1 + r.N(len(cs))
		case 1:
			at = b.pickCall(cs, nil)
		default: // at, or just behind, something that changes files
			at = b.pickCall(cs, func(c *call) bool { return c.mut || c.op == "closew" })
			if r.P(1, 3) && at < len(cs) {
				at++
			}
		}
		if at == 0 {
			at = 1 + r.N(len(cs))
		}
		pr.Kill, pr.Part = at, pick(r, 0, r.N(1000), r.N(1000), 999)
		if p.Prop == "C12" && r.P(1, 4) && at > 1 {
			f := b.faultAt(cs, 1+r.N(at-1), false)
			pr.Faults = append(pr.Faults, f)
		}
		if p.Prop == "C11" && r.P(1, 3) {
			at := b.pickCall(cs[:pr.Kill-1], func(c *call) bool { return c.mut || c.op == "closew" || c.op == "fsync" })
			if r.P(1, 5) || at == 0 {
				at = b.pickCall(cs[:pr.Kill-1], nil)
			}
			if at > 0 {
				f := b.faultAt(cs, at, false)
				if f.Kind != "vanish" {
					pr.Faults = append(pr.Faults, f)
				}
			}
		}
		if p.Prop == "C11" && r.P(2, 5) {
			pr.Power = r.U64() | 1
			if r.P(1, 3) { // just after it has ended
				pr.Kill, pr.Part = 0, 0
			}
		}
		p.Procs = append(p.Procs, pr)
	}
	var again Proc
	for _, j := range b.perm(b.main) {
		again.Steps = append(again.Steps, b.gen(j))
	}
	b.around(&again)
	p.Procs = append(p.Procs, again)
}

// together: processes that run at the same time, one of them perhaps failing or dying.
func (b *builder) together() {
	r, p := b.r, b.p
	b.before()
	for round := 1 + r.N(2); round > 0; round-- {
		n := 2 + r.N(2)
		from := len(p.Procs)
		same := b.perm(b.main)
		for i := 0; i < n; i++ {
			pr := Proc{With: i > 0}
			js := b.perm(b.main)
			if r.P(1, 3) {
				js = same
			}
			k := 1 + r.N(len(js))
			if r.P(1, 2) {
				k = 1
			}
			for _, j := range js[:k] {
				pr.Steps = append(pr.Steps, b.gen(j))
			}
			b.around(&pr)
			p.Procs = append(p.Procs, pr)
		}
		// what they do when nobody is in the way
		dense := r.N(3)
		for i := from; i < len(p.Procs); i++ {
			pr := &p.Procs[i]
			alone := *pr
			alone.With = false
			q := *p
			q.Procs = p.Procs[:from:from]
			bb := *b
			bb.p = &q
			cs := bb.dry(&alone)
			if len(cs) == 0 {
				continue
			}
			m := 1 + r.N(4)
			if dense == 1 {
				m = 4 + r.N(30)
			} else if dense == 2 {
				m = len(cs) / 2
			}
			used := map[int]bool{}
			for x := 0; x < m; x++ {
				at := 1 + r.N(len(cs)+2)
				if dense != 2 && r.P(2, 3) { // just before or behind something that changes files
					at = b.pickCall(cs, func(c *call) bool { return c.mut || c.op == "closew" || c.op == "fsync" })
					if r.P(1, 2) {
						at++
					}
				}
				if at > 0 && !used[at] {
					used[at] = true
					pr.Sw = append(pr.Sw, Sw{at, r.N(n)})
				}
			}
			sort.Slice(pr.Sw, func(a, b int) bool { return pr.Sw[a].At < pr.Sw[b].At })
			switch {
			case i == from && r.P(1, 4):
				pr.Kill, pr.Part = b.pickCall(cs, func(c *call) bool { return c.mut || c.op == "closew" || c.op == "fsync" }), r.N(1000)
			case i == from && r.P(1, 4):
				if at := b.pickCall(cs, nil); at > 0 {
					f := b.faultAt(cs, at, false)
					if f.Kind != "vanish" && f.Kind != "full" {
						pr.Faults = append(pr.Faults, f)
					}
				}
			}
		}
	}
	if r.P(1, 3) {
		var again Proc
		for _, j := range b.perm(b.main) {
			again.Steps = append(again.Steps, b.gen(j))
		}
		p.Procs = append(p.Procs, again)
	}
}

// role says what a path is in a plan.
func (p *Plan) role(x string) string {
	is := func(o string) bool {
		return x == o || x == p.real(o) || x == path.Join(p.real(path.Dir(o)), path.Base(o))
	}
	for i := range p.Jobs {
		if is(p.Jobs[i].Out) {
			return "out"
		}
		if is(p.Jobs[i].utils()) {
			return "utils"
		}
	}
	switch {
	case path.Base(x) == "go.mod":
		return "gomod"
	case strings.HasSuffix(x, ".go"):
		return "src"
	case path.Ext(x) == "":
		return "dir"
	}
	return "other"
}

func fmtFault(f string) string { return fmt.Sprint(f) }
