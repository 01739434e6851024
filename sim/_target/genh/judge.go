package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"vsimw/simrt"
)

type Viol struct {
	Check string
	Sig   string
	Msg   string
}

type execution struct {
	procs  []*ProcRes
	digest uint64
	viols  []Viol
	useful bool
}

// execute runs a plan without judging it.
func execute(p *Plan) *execution { return run(p, false) }

func judge(p *Plan) *execution { return run(p, true) }

func outs(p *Plan) map[string]bool {
	m := map[string]bool{}
	for i := range p.Jobs {
		m[p.real(p.Jobs[i].Out)] = true
		m[p.real(p.Jobs[i].utils())] = true
	}
	return m
}

func run(p *Plan, judging bool) *execution {
	x := &execution{}
	p.reals = nil
	fs := p.tree(nil)
	var edits []int
	outp := outs(p)
	outDirs := map[string]bool{}
	for o := range outp {
		outDirs[path.Dir(o)] = true
	}
	add := func(check, sig, format string, a ...any) {
		x.viols = append(x.viols, Viol{check, sig, fmt.Sprintf(format, a...)})
	}
	x.digest = 1
	disturbed := false
	clean := map[string]string{} // outputs as the last successful job left them
	for at := 0; at < len(p.Procs); {
		end := at + 1
		for end < len(p.Procs) && p.Procs[end].With {
			end++
		}
		before := fs.snapshot()
		var prs []*Proc
		var cfgs []procCfg
		var mines []map[string]bool
		ed := append([]int{}, edits...)
		for pi := at; pi < end; pi++ {
			pr := &p.Procs[pi]
			// the outputs this process is asked for
			mine := map[string]bool{}
			for _, st := range pr.Steps {
				if st.K != "edit" {
					mine[p.real(p.Jobs[st.J].Out)] = true
					mine[p.real(p.Jobs[st.J].utils())] = true
				}
			}
			allow := func(q string) bool {
				if mine[q] {
					return true
				}
				if _, was := before[q]; was {
					return false
				}
				for o := range mine {
					if path.Dir(o) == path.Dir(q) {
						return true
					}
				}
				return false
			}
			prs, mines = append(prs, pr), append(mines, mine)
			cfgs = append(cfgs, procCfg{p: p, allow: allow, edits: edits})
		}
		fs.hash = 0
		ress := runGroup(fs, prs, cfgs)
		x.procs = append(x.procs, ress...)
		x.digest = simrt.Mix(x.digest, fs.hash, fs.digest())
		for _, res := range ress {
			if len(res.Edits) > len(edits) {
				edits = res.Edits
			}
			x.digest = simrt.Mix(x.digest, res.Steps)
			for _, j := range sortedInts(res.Jobs) {
				r := res.Jobs[j]
				x.digest = simrt.Mix(x.digest, uint64(j), b2u(r.Ok), b2u(r.Fail), hstr(r.Out), hstr(r.Utils))
			}
		}
		pi, pr, res, mine := at, prs[0], ress[0], mines[0]
		at = end
		if !judging {
			continue
		}
		disturbed = disturbed || len(pr.Faults) > 0 || pr.Kill > 0 || pr.Power != 0
		switch p.Prop {
		case "C16":
			x.useful = x.useful || len(ress) > 1
			judgeTogether(p, pi, ress, prs, before, fs, mines, add)
		case "C09":
			x.useful = true
			judgeSame(p, pi, res, clean, fs, add)
		case "C10":
			if len(res.Fired) > 0 {
				x.useful = true
			}
			if disturbed {
				judgeFaults(p, pi, res, fs, pr, add)
			}
		case "C11":
			if res.Dead || res.Power != "" {
				x.useful = true
			}
			if disturbed {
				judgeKill(p, pi, res, before, fs, pr, add)
			}
		case "C12":
			if len(res.Fired) > 0 || res.Dead || p.Kind != "" {
				x.useful = true
			}
			judgeTouch(p, pi, res, before, fs, ed, mine, add)
		}
		if len(x.viols) > 0 {
			break
		}
	}
	return x
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func sortedInts[T any](m map[int]T) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// diffAt finds the first line two texts differ in.
func diffAt(a, b string) (line, desc string) {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		u, v := "(end)", "(end)"
		if i < len(la) {
			u = la[i]
		}
		if i < len(lb) {
			v = lb[i]
		}
		if u != v {
			return u, fmt.Sprintf("line %d: %q instead of %q", i+1, cut(v, 120), cut(u, 120))
		}
	}
	return "", "same"
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func what(want, got string, has bool) string {
	switch {
	case !has:
		return "missing"
	case got == "":
		return "empty"
	case strings.HasPrefix(want, got):
		return "cut off"
	}
	return "different"
}

// importsOf lists the import paths of a generated file.
func importsOf(s string) []string {
	var out []string
	in := false
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "import ("):
			in = true
		case in && t == ")":
			return out
		case strings.HasPrefix(t, "import ") || in && t != "":
			i, j := strings.IndexByte(t, '"'), strings.LastIndexByte(t, '"')
			if i >= 0 && j > i {
				out = append(out, t[i+1:j])
			}
		}
	}
	return out
}

func diffSig(want, got string) string {
	have := map[string]bool{}
	for _, i := range importsOf(want) {
		have[i] = true
	}
	for _, i := range importsOf(got) {
		if !have[i] {
			return "import " + i
		}
	}
	return "code"
}

type adder func(check, sig, format string, a ...any)

// exact compares what a successful job left with what a fresh process makes.
func exact(p *Plan, pi, j int, r *JobRes, add adder, check string) {
	b := baseline(p, r.Edits, nil, j)
	jb := &p.Jobs[j]
	if b.ok != r.Ok {
		if b.ok {
			add(check+"-fails", r.At, "process %d: %s fails (%s) where a fresh process succeeds", pi, jb.In, cut(r.Err, 300))
		} else {
			add(check+"-succeeds", "", "process %d: %s succeeds where a fresh process fails (%s)", pi, jb.In, cut(b.err, 300))
		}
		return
	}
	if !r.Ok {
		return
	}
	if !r.HasOut || r.Out != b.out {
		_, d := diffAt(b.out, r.Out)
		add(check+"-output", diffSig(b.out, r.Out), "process %d: %s: output is %s: %s", pi, jb.In, what(b.out, r.Out, r.HasOut), d)
	} else if !r.HasUtils || r.Utils != b.utils {
		_, d := diffAt(b.utils, r.Utils)
		add(check+"-helper", what(b.utils, r.Utils, r.HasUtils), "process %d: %s: helper file is %s: %s", pi, jb.In, what(b.utils, r.Utils, r.HasUtils), d)
	}
}

// judgeTogether: what a process does is what it does alone, whatever else runs, fails or dies meanwhile.
func judgeTogether(p *Plan, pi int, ress []*ProcRes, prs []*Proc, before map[string]string, fs *simFS, mines []map[string]bool, add adder) {
	allOk, dead, met := true, false, false
	for i, res := range ress {
		if res.Hung != "" || res.Crash != "" {
			add("together-end", "", "process %d %s %s", pi+i, res.Hung, cut(res.Crash, 300))
			return
		}
		if len(res.Strays) > 0 {
			add("together-stray", p.role(res.Strays[0]), "process %d changed %s, which is none of its outputs", pi+i, res.Strays[0])
			return
		}
		dead, met = dead || res.Dead, met || len(res.Fired) > 0
	}
	hurt := map[string]bool{} // may be old
	want := map[string][]string{}
	for i, res := range ress {
		for _, j := range sortedInts(res.Jobs) {
			r := res.Jobs[j]
			jb := &p.Jobs[j]
			b := baseline(p, r.Edits, nil, j)
			for q, t := range map[string]string{p.real(jb.Out): b.out, p.real(jb.utils()): b.utils} {
				if b.ok {
					want[q] = append(want[q], t)
				}
				if !r.Ok {
					hurt[q] = true
				}
			}
			if !r.Ok {
				allOk = false
			}
			if res.Dead || len(res.Fired) > 0 && !r.Ok {
				continue
			}
			n := 0
			exact(p, pi+i, j, r, func(c, s, f string, a ...any) { n++; add(c, s, f, a...) }, "together")
			if n > 0 {
				return
			}
		}
	}
	for _, q := range sortedKeys(want) {
		d, ok := fs.get(q)
		good := false
		for _, t := range want[q] {
			good = good || ok && t == string(d)
		}
		old, had := before[q]
		if had {
			old = old[strings.IndexByte(old[5:], ' ')+6:]
		}
		if hurt[q] && !good {
			good = ok == had && (!ok || old == string(d))
		}
		if !good {
			_, df := diffAt(want[q][0], string(d))
			add("together-final", p.role(q), "after processes %d to %d: %s is %s: %s", pi, pi+len(ress)-1, q, what(want[q][0], string(d), ok), df)
			return
		}
	}
	now := fs.snapshot()
	all := map[string]bool{}
	for _, m := range mines {
		for q := range m {
			all[q] = true
		}
	}
	for _, res := range ress { // edits are ours
		for _, e := range res.Edits {
			for _, f := range p.Edits[e] {
				for d := f.P; d != "/"; d = path.Dir(d) {
					all[d] = true
				}
			}
		}
	}
	for _, k := range sortedKeys(before) {
		if v, has := now[k]; !all[k] && (!has || v != before[k]) {
			add("together-stray", p.role(k), "processes %d to %d changed or removed %s", pi, pi+len(ress)-1, k)
			return
		}
	}
	if allOk && !dead && !met {
		for _, k := range sortedKeys(now) {
			if _, was := before[k]; !was && !all[k] {
				add("together-left", p.role(k), "processes %d to %d succeeded and left %s behind", pi, pi+len(ress)-1, k)
				return
			}
		}
	}
}

// judgeSame: every job of every process does what it does in a fresh process.
func judgeSame(p *Plan, pi int, res *ProcRes, clean map[string]string, fs *simFS, add adder) {
	if res.Hung != "" || res.Crash != "" {
		add("history-end", "hang or crash", "process %d: %s %s", pi, res.Hung, cut(res.Crash, 300))
		return
	}
	byOrder := sortedInts(res.Jobs)
	sort.SliceStable(byOrder, func(a, b int) bool { return res.Jobs[byOrder[a]].Order < res.Jobs[byOrder[b]].Order })
	for _, j := range byOrder {
		r := res.Jobs[j]
		n := 0
		exact(p, pi, j, r, func(c, s, f string, a ...any) { n++; add(c, s, f, a...) }, "history")
		if n > 0 {
			return
		}
		jb := &p.Jobs[j]
		if r.Ok {
			clean[jb.Out], clean[jb.utils()] = r.Out, r.Utils
		} else {
			delete(clean, jb.Out)
			delete(clean, jb.utils())
		}
	}
	for _, q := range sortedKeys(clean) {
		d, ok := fs.get(q)
		if !ok || string(d) != clean[q] {
			add("history-damage", p.role(q), "process %d: %s, complete before, is %s now", pi, q, what(clean[q], string(d), ok))
			return
		}
	}
}

// lastWriter: the job that was the last to end among those that write a file.
func lastWriter(p *Plan, res *ProcRes, q string) int {
	best := -1
	for _, j := range sortedInts(res.Jobs) {
		jb := &p.Jobs[j]
		if jb.Out != q && jb.utils() != q {
			continue
		}
		if best < 0 || res.Jobs[j].Order > res.Jobs[best].Order {
			best = j
		}
	}
	return best
}

func harmless(fired []string) bool {
	for _, f := range fired {
		if !strings.HasPrefix(f, "EINTR:") && !strings.HasPrefix(f, "short:") {
			return false
		}
	}
	return true
}

func subsets(xs []string) [][]string {
	out := [][]string{nil}
	seen := map[string]bool{}
	for _, x := range xs {
		if seen[x] || len(out) > 8 {
			continue
		}
		seen[x] = true
		for _, o := range out[:len(out):len(out)] {
			out = append(out, append(append([]string{}, o...), x))
		}
	}
	return out
}

func judgeFaults(p *Plan, pi int, res *ProcRes, fs *simFS, pr *Proc, add adder) {
	if res.Hung != "" {
		add("no-end", "", "process %d %s", pi, res.Hung)
		return
	}
	faults := strings.Join(res.Fired, " ")
	for _, j := range sortedInts(res.Jobs) {
		r := res.Jobs[j]
		jb := &p.Jobs[j]
		if !r.Ok {
			b := baseline(p, r.Edits, nil, j)
			if b.ok && len(pr.Faults) == 0 && len(gone(p, fs, edited(p, res.Edits))) == 0 {
				add("next-run-fails", r.At, "process %d: after the failed run, with nothing failing any more, %s fails: %s", pi, jb.In, cut(r.Err, 300))
				return
			}
			if b.ok && len(pr.Faults) > 0 && harmless(res.Fired) && len(gone(p, fs, edited(p, res.Edits))) == 0 {
				add("retryable-fails", strings.Join(uniq(res.Fired), " "), "process %d: %s fails (%s) although only %s happened", pi, jb.In, cut(r.Err, 300), cut(faults, 200))
				return
			}
			continue
		}
		lost := gone(p, fs, edited(p, res.Edits))
		for _, q := range []string{jb.Out, jb.utils()} {
			if lastWriter(p, res, q) != j {
				continue
			}
			d, ok := fs.get(q)
			good := false
			var first *base
			for _, v := range subsets(lost) {
				b := baseline(p, r.Edits, v, j)
				if first == nil {
					first = b
				}
				want := b.out
				if q == jb.utils() {
					want = b.utils
				}
				if b.ok && ok && want == string(d) {
					good = true
					break
				}
			}
			if good {
				continue
			}
			want := first.out
			if q == jb.utils() {
				want = first.utils
			}
			_, df := diffAt(want, string(d))
			if len(pr.Faults) == 0 {
				add("next-run-wrong", p.role(q), "process %d: after the failed run, with nothing failing any more, %s is %s: %s", pi, q, what(want, string(d), ok), df)
			} else {
				add("success-over-wrong", p.role(q), "process %d reports success for %s, faults [%s], but %s is %s: %s", pi, jb.In, cut(faults, 300), q, what(want, string(d), ok), df)
			}
			return
		}
	}
}

func uniq(xs []string) (out []string) {
	seen := map[string]bool{}
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return
}

// edited is the tree as it should be without any generator.
func edited(p *Plan, edits []int) *simFS { return p.tree(edits) }

// gone lists the sources that have vanished.
func gone(p *Plan, fs, want *simFS) (out []string) {
	have := fs.snapshot()
	for q := range want.snapshot() {
		if _, ok := have[q]; !ok {
			out = append(out, q)
		}
	}
	sort.Strings(out)
	return
}

func judgeKill(p *Plan, pi int, res *ProcRes, before map[string]string, fs *simFS, pr *Proc, add adder) {
	if !res.Dead && res.Power == "" && len(pr.Faults) == 0 {
		for _, j := range sortedInts(res.Jobs) {
			r := res.Jobs[j]
			n := 0
			exact(p, pi, j, r, func(c, s, f string, a ...any) { n++; add(c, s, f, a...) }, "rerun")
			if n > 0 {
				return
			}
		}
		return
	}
	ops := strings.Join(res.Fired, " ")
	for _, j := range sortedInts(res.Jobs) {
		r := res.Jobs[j]
		jb := &p.Jobs[j]
		b := baseline(p, r.Edits, nil, j)
		for _, q := range []string{jb.Out, jb.utils()} {
			d, ok := fs.get(q)
			old, had := before[p.real(q)]
			if had {
				old = old[strings.IndexByte(old[5:], ' ')+6:]
			}
			if ok == had && (!ok || old == string(d)) {
				continue
			}
			want := b.out
			if q == jb.utils() {
				want = b.utils
			}
			if ok && b.ok && string(d) == want {
				continue
			}
			if ok && !b.ok {
				continue // a source the generator refuses
			}
			_, df := diffAt(want, string(d))
			if res.Power != "" {
				ops += ": " + cut(res.Power, 300)
			}
			add("torn-output", p.role(q), "process %d killed (%s at call %d): %s is neither the old nor the new content but %s: %s", pi, ops, pr.Kill, q, what(want, string(d), ok), df)
			return
		}
	}
}

func judgeTouch(p *Plan, pi int, res *ProcRes, before map[string]string, fs *simFS, ed []int, mine map[string]bool, add adder) {
	how := "process " + fmt.Sprint(pi)
	if len(res.Fired) > 0 {
		how += " (" + cut(strings.Join(res.Fired, " "), 200) + ")"
	}
	if len(res.Strays) > 0 {
		q := res.Strays[0]
		kind := "made in another place"
		if _, ok := before[q]; ok {
			kind = "existing file"
		}
		add("stray-change", p.role(q)+" "+kind, "%s changed %s, which is none of its outputs (%s)", how, q, kind)
		return
	}
	ok := !res.Dead && res.Power == "" && res.Hung == "" && res.Crash == ""
	for _, r := range res.Jobs {
		ok = ok && r.Ok
	}
	want := map[string]string{}
	for k, v := range before {
		want[k] = v
	}
	if len(res.Edits) > len(ed) { // what the user changed meanwhile
		is, was := p.tree(res.Edits).snapshot(), p.tree(ed).snapshot()
		for _, k := range sortedKeys(was) {
			if _, has := is[k]; !has && !mine[k] {
				delete(want, k)
			}
		}
		for _, k := range sortedKeys(is) {
			if !mine[k] && is[k] != was[k] {
				want[k] = is[k]
			}
		}
	}
	now := fs.snapshot()
	van := map[string]bool{}
	for _, v := range res.Vanish {
		van[v] = true
	}
	for _, k := range sortedKeys(want) {
		if mine[k] || van[k] {
			continue
		}
		v, has := now[k]
		if !has {
			add("stray-change", p.role(k)+" removed", "%s removed %s", how, k)
			return
		}
		if v != want[k] {
			add("stray-change", p.role(k)+" changed", "%s changed %s", how, k)
			return
		}
	}
	for _, k := range sortedKeys(now) {
		if _, was := want[k]; was || mine[k] {
			continue
		}
		in := false
		for o := range mine {
			if strings.HasPrefix(k, path.Dir(o)+"/") {
				in = true
			}
		}
		if !in {
			add("left-behind", p.role(k)+" elsewhere", "%s left %s behind, outside the output's directory", how, k)
			return
		}
		if ok {
			add("left-behind", p.role(k), "%s succeeded and left %s behind", how, k)
			return
		}
	}
}
