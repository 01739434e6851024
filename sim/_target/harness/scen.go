package main

import (
	"fmt"
	"strings"

	"vsimw/simrt"
)

// ---- building plans ----

type builder struct {
	r *simrt.Rand
	p *Plan
}

var mainPkgs = []string{"cust", "cumix", "shape", "wide", "bench", "extp", "odd"}

func (b *builder) pickType(cond func(*TopType) bool) *TopType {
	for try := 0; try < 400; try++ {
		var ts []*TopType
		if b.r.P(2, 5) {
			ts = pkgIdx[mainPkgs[b.r.N(len(mainPkgs))]]
		} else {
			t := tops[b.r.N(len(tops))]
			ts = pkgIdx[t.Name[:strings.IndexByte(t.Name, '.')]]
		}
		if len(ts) == 0 {
			continue
		}
		t := ts[b.r.N(len(ts))]
		if t.TD.K == KCust || (cond != nil && !cond(t)) {
			continue
		}
		return t
	}
	return tops[0]
}

func (b *builder) dirt() int {
	return []int{0, 0, 1, 1, 1, 2, 2, 3}[b.r.N(8)]
}

func (b *builder) pool() {
	b.p.Pool = simrt.PoolCfg{Policy: b.r.N(3), Seed: b.r.U64() >> 16, Scribble: b.r.P(3, 4)}
	if b.r.P(1, 4) {
		b.p.Pool.Drop = 2 + b.r.N(4)
	}
}

func (b *builder) sched() {
	b.p.Sched = Sched{Seed: b.r.U64() >> 16}
	if b.r.P(2, 3) {
		b.p.Sched.Mode = 1
		b.p.Sched.Prob = []int{2, 4, 10, 30, 100, 300}[b.r.N(6)]
	} else {
		b.p.Sched.Mode = 2
		b.p.Sched.Depth = 1 + b.r.N(4)
	}
}

func (b *builder) fault(kind string) *simrt.FaultPlan {
	f := &simrt.FaultPlan{K: 1 + b.r.N(6), Kind: kind}
	if kind == "" {
		f.Kind = []string{"err", "panic", "werr"}[b.r.N(3)]
	}
	return f
}

func (b *builder) dec(o int, tt *TopType) Op {
	k := "dec"
	if b.r.P(1, 6) {
		k = "fill"
	}
	op := Op{K: k, O: o, R: b.r.U64() >> 16, D: document(tt.TD, b.r.U64(), b.dirt())}
	if b.r.P(1, 10) && hasKind(tt.TD, KCust) {
		op.F = b.fault("")
	}
	return op
}

func (b *builder) enc(o int, tt *TopType, faulty bool) Op {
	k := "enc"
	if b.r.P(1, 5) {
		k = "encto"
	}
	op := Op{K: k, O: o, R: b.r.U64() >> 16}
	if faulty && b.r.P(1, 8) && hasKind(tt.TD, KCust) {
		op.F = b.fault("")
	}
	return op
}

func (b *builder) simple(k string, o int) Op { return Op{K: k, O: o, R: b.r.U64() >> 16} }

// anyOp draws one operation of a history for object o.
func (b *builder) anyOp(o int, tt *TopType) Op {
	switch b.r.N(12) {
	case 0, 1, 2, 3, 4:
		return b.dec(o, tt)
	case 5, 6:
		return b.enc(o, tt, true)
	case 7:
		return b.simple("reset", o)
	case 8:
		return b.simple("val", o)
	case 9:
		return b.simple("mut", o)
	case 10:
		return b.simple("zero", o)
	default:
		return b.simple("gc", o)
	}
}

func newOp(o int, tt *TopType) Op { return Op{K: "new", O: o, T: tt.Name} }

func buildPlan(prop string, seed uint64) *Plan {
	b := &builder{r: simrt.NewRand(simrt.Mix(seed, hstr(prop))), p: &Plan{Prop: prop, Seed: seed}}
	b.pool()
	b.sched()
	p := b.p
	switch prop {
	case "C01":
		n := 2 + b.r.N(3)
		var same *TopType
		if b.r.P(3, 5) {
			same = b.pickType(nil)
		}
		for t := 0; t < n; t++ {
			tt := same
			if tt == nil {
				tt = b.pickType(nil)
			}
			o := t * 10
			p.Setup = append(p.Setup, newOp(o, tt))
			if b.r.P(1, 3) { // recycled objects and warm pools
				p.Setup = append(p.Setup, b.dec(o, tt))
				if b.r.P(1, 2) {
					p.Setup = append(p.Setup, b.simple("reset", o))
				}
			}
			var ops []Op
			for i := 1 + b.r.N(4); i > 0; i-- {
				switch b.r.N(8) {
				case 0:
					ops = append(ops, b.enc(o, tt, false))
				case 1:
					ops = append(ops, b.simple("reset", o))
				default:
					ops = append(ops, b.dec(o, tt))
				}
			}
			p.Tasks = append(p.Tasks, ops)
		}
	case "C02":
		n := 2 + b.r.N(3)
		ns := 1 + b.r.N(2)
		var sh []*TopType
		for i := 0; i < ns; i++ {
			tt := b.pickType(nil)
			sh = append(sh, tt)
			o := sharedBase + i
			p.Setup = append(p.Setup, newOp(o, tt))
			switch b.r.N(3) {
			case 0:
				p.Setup = append(p.Setup, b.simple("val", o))
			case 1:
				d := b.dec(o, tt)
				d.F = nil
				p.Setup = append(p.Setup, d)
			case 2:
				d := b.dec(o, tt)
				d.F = nil
				p.Setup = append(p.Setup, d, b.simple("mut", o))
			}
		}
		for t := 0; t < n; t++ {
			i := b.r.N(ns)
			tt, o := sh[i], t*10
			pt := tt
			if b.r.P(1, 2) {
				pt = b.pickType(nil)
			}
			p.Setup = append(p.Setup, newOp(o, pt), b.simple("val", o))
			var ops []Op
			for k := 1 + b.r.N(4); k > 0; k-- {
				switch b.r.N(8) {
				case 0:
					ops = append(ops, b.dec(o, pt))
				case 1:
					ops = append(ops, b.simple("val", o))
				case 2, 3:
					ops = append(ops, b.enc(o, pt, true))
				default:
					ops = append(ops, b.enc(sharedBase+i, tt, false))
				}
			}
			p.Tasks = append(p.Tasks, ops)
		}
	case "C03":
		n := 1 + b.r.N(3)
		var ts []*TopType
		for i := 1 + b.r.N(3); i > 0; i-- {
			ts = append(ts, b.pickType(nil))
		}
		for t := 0; t < n; t++ {
			var ops []Op
			o := t * 10
			tt := ts[b.r.N(len(ts))]
			p.Setup = append(p.Setup, newOp(o, tt))
			for i := 1 + b.r.N(8); i > 0; i-- {
				if b.r.P(1, 4) {
					tt = ts[b.r.N(len(ts))]
					ops = append(ops, newOp(o, tt))
				}
				ops = append(ops, b.anyOp(o, tt))
			}
			p.Tasks = append(p.Tasks, ops)
		}
		for i := 1 + b.r.N(3); i > 0; i-- {
			tt := ts[b.r.N(len(ts))]
			if b.r.P(1, 5) {
				tt = b.pickType(nil)
			}
			o := 500 + i
			d := b.dec(o, tt)
			d.F = nil
			p.Probe = append(p.Probe, newOp(o, tt), d, b.enc(o, tt, false), newOp(o+50, tt), b.simple("val", o+50), b.enc(o+50, tt, false), b.simple("zero", o+50))
		}
	case "C04":
		tt := b.pickType(func(t *TopType) bool { _, ok := t.New().(resetter); return ok && t.TD.K != KMap }) // Reset of a named map: known finding
		p.Setup = []Op{newOp(0, tt)}
		var ops []Op
		// mostly keep clear of the known finding about slices of structs
		prone, used := staleProne(tt.TD) && b.r.P(1, 2), false
		for i := 1 + b.r.N(6); i > 0; i-- {
			op := b.anyOp(0, tt)
			if prone {
				switch op.K {
				case "dec", "fill":
					if used {
						ops = append(ops, b.simple("reset", 0))
					}
					op.D, op.F, used = document(tt.TD, b.r.U64(), b.r.N(3)/2), nil, true
				case "mut":
					op.X = "keep"
				}
			}
			ops = append(ops, op)
		}
		p.Tasks = [][]Op{ops}
		d := b.dec(1, tt)
		d.F = nil
		if b.r.P(1, 2) {
			d.D = document(tt.TD, b.r.U64(), b.r.N(2))
		}
		d0 := d
		d0.O = 0
		z0, z1 := b.simple("zero", 0), b.simple("zero", 1)
		p.Probe = []Op{newOp(1, tt), b.simple("reset", 0),
			z0, z1,
			{K: "enc", O: 0, R: 5, X: "pair"}, {K: "enc", O: 1, R: 5, X: "pair"},
			d0, d,
			{K: "enc", O: 0, R: 9, X: "pair"}, {K: "enc", O: 1, R: 9, X: "pair"}}
	case "C05":
		n := 1 + b.r.N(3)
		tt := b.pickType(nil)
		for t := 0; t < n; t++ {
			var ops []Op
			var mine []*TopType
			k := 1 + b.r.N(3)
			for i := 0; i < k; i++ {
				x := tt
				if b.r.P(1, 3) {
					x = b.pickType(nil)
				}
				mine = append(mine, x)
				p.Setup = append(p.Setup, newOp(t*10+i, x))
			}
			for i := 2 + b.r.N(7); i > 0; i-- {
				j := b.r.N(k)
				o := t*10 + j
				switch b.r.N(10) {
				case 0, 1, 2, 3:
					ops = append(ops, b.dec(o, mine[j]))
				case 4, 5:
					ops = append(ops, b.enc(o, mine[j], false))
				case 6:
					ops = append(ops, b.simple("mut", o))
				case 7:
					e := b.enc(o, mine[j], false)
					e2 := e
					ops = append(ops, e, b.simple("outscrib", 0), e2)
				case 8:
					ops = append(ops, b.simple("reset", o))
				case 9:
					ops = append(ops, b.simple("val", o))
				}
			}
			p.Tasks = append(p.Tasks, ops)
		}
	case "C06":
		nm := 1 + b.r.N(5)
		var ts []*TopType
		for i := 1 + b.r.N(2); i > 0; i-- {
			ts = append(ts, b.pickType(lossless))
		}
		senders := 1 + b.r.N(2)
		recvs := 1 + b.r.N(2)
		st := make([][]Op, senders)
		rt := make([][]Op, recvs)
		which := map[int]int{}
		for m := 0; m < nm; m++ {
			s := m % senders
			k := b.r.N(len(ts))
			which[m] = k
			o := s*10 + k
			st[s] = append(st[s], Op{K: "send", O: o, M: m, R: b.r.U64() >> 16})
		}
		for s := 0; s < senders; s++ {
			for k, tt := range ts {
				p.Setup = append(p.Setup, newOp(s*10+k, tt))
			}
		}
		for r := 0; r < recvs; r++ {
			for k, tt := range ts {
				p.Setup = append(p.Setup, newOp(100+r*10+k, tt))
			}
			for i := 1 + b.r.N(2*nm); i > 0; i-- { // delayed, duplicated, reordered
				m := b.r.N(nm)
				x := ""
				switch b.r.N(6) {
				case 0:
					x = "cut"
				case 1:
					x = "corrupt"
				}
				rt[r] = append(rt[r], Op{K: "recv", O: 100 + r*10 + which[m], M: m, X: x, R: b.r.U64() >> 16})
			}
		}
		p.Tasks = append(st, rt...)
	case "C17":
		b.longLife()
	case "C07", "C08":
		b.faultPlan(prop)
	}
	return p
}

// lossless: types whose values survive encoding (custom parts included).
func lossless(t *TopType) bool {
	_, enc := t.New().(marshaler)
	_, dec := t.New().(unmarshaler)
	return enc && dec
}

func (b *builder) faultPlan(prop string) {
	p := b.p
	isCust := func(t *TopType) bool { return hasKind(t.TD, KCust) }
	wrongKind := prop == "C08" && b.r.P(3, 5)
	n := 1 + b.r.N(2)
	victim := b.r.N(n)
	tt := b.pickType(isCust)
	if wrongKind {
		tt = b.pickType(func(t *TopType) bool { _, dec := t.New().(unmarshaler); return dec })
	}
	for t := 0; t < n; t++ {
		x := tt
		if t != victim && b.r.P(1, 2) {
			x = b.pickType(nil)
		}
		o := t * 10
		p.Setup = append(p.Setup, newOp(o, x), b.simple("val", o), newOp(o+1, x))
		var ops []Op
		for k := 1 + b.r.N(3); k > 0; k-- {
			if b.r.P(1, 2) {
				d := b.dec(o+1, x)
				d.F = nil
				ops = append(ops, d)
			} else {
				ops = append(ops, b.enc(o, x, false))
			}
		}
		if t == victim {
			at := b.r.N(len(ops) + 1)
			var bad Op
			o := t*10 + 2
			p.Setup = append(p.Setup, newOp(o, x))
			if prop == "C07" {
				p.Setup = append(p.Setup, b.simple("val", o))
				bad = b.enc(o, x, false)
				bad.F = &simrt.FaultPlan{Kind: []string{"err", "err", "werr", "panic"}[b.r.N(4)]}
			} else {
				g := newGen(b.r.U64(), 0)
				j := g.doc(x.TD, 0)
				bad = Op{K: []string{"dec", "dec", "fill"}[b.r.N(3)], O: o, R: b.r.U64() >> 16}
				if wrongKind {
					good := g.render(j)
					bad.X = "wrong"
					bad.D = good
					p.Kind = "wrong"
					if path := wrongSpot(g, j); path != "" {
						bad.X = "wrong " + path
						bad.D = g.render(j)
						p.Probe = []Op{newOp(900, x), {K: bad.K, O: 900, D: good, R: bad.R}}
					}
				} else {
					bad.D = g.render(j)
					bad.F = &simrt.FaultPlan{Kind: []string{"err", "err", "err", "panic"}[b.r.N(4)]}
				}
			}
			ops = append(ops[:at], append([]Op{bad}, ops[at:]...)...)
			if bad.F != nil { // learn how many callbacks there are, then pick one
				keep := p.Tasks
				p.Tasks = [][]Op{{bad}}
				x := execute(p, execOpt{solo: -1, alone: true, setup: true, tasks: true, limit: 3_000_000, noDmp: true})
				if c := x.Tasks[0][0].Calls; c > 0 {
					ops[at].F = &simrt.FaultPlan{Kind: bad.F.Kind, K: 1 + b.r.N(c)}
					p.Kind = "fault"
				}
				p.Tasks = keep
			}
		}
		b.p.Tasks = append(b.p.Tasks, ops)
	}
}

// wrongSpot damages one place of the document so that it cannot be decoded; it
// returns the kind of that place.
func wrongSpot(g *gen, root *J) string {
	var all []*J
	var walk func(j *J)
	walk = func(j *J) {
		if j.td != nil && !j.null && j.td.K != KOpaque {
			all = append(all, j)
		}
		for _, k := range j.kids {
			walk(k)
		}
	}
	walk(root)
	if len(all) == 0 {
		return ""
	}
	j := all[g.r.N(len(all))]
	td := j.td
	w := g.wrong(td)
	*j = *w
	k := td
	for k.K == KPtr {
		k = k.Elem
	}
	return kindName[k.K] + " " + td.T.String() + " as " + map[byte]string{'o': "object", 'a': "array", 's': "string", 'r': "literal"}[w.k]
}

// ---- judging ----

const stepLimit = 6_000_000

type verdict struct {
	viols  []Viol
	digest uint64
	main   *Exec
	keys   []uint64 // what makes this run different from others
	useful bool
}

func resDiff(a, b *Res, tt string) (sig, msg string) {
	switch {
	case a.Panic != b.Panic:
		return "panic", fmt.Sprintf("panic %q <> %q", a.Panic, b.Panic)
	case a.HasErr != b.HasErr || a.Err != b.Err:
		return "error", fmt.Sprintf("error %q <> %q", cut(a.Err, 200), cut(b.Err, 200))
	case !sameOut(a.Out, b.Out) || a.OutNil != b.OutNil:
		return "bytes", fmt.Sprintf("bytes %s <> %s", cut(string(a.Out), 300), cut(string(b.Out), 300))
	case a.Dump != b.Dump:
		p, d := firstDiff(a.Dump, b.Dump)
		return "value" + normPath(p), "object " + d
	case a.Zero != b.Zero:
		return "zero", fmt.Sprintf("zero %v <> %v", a.Zero, b.Zero)
	}
	return "", ""
}

func opType(p *Plan, o int) string {
	name := ""
	for _, l := range append([][]Op{p.Setup}, append(p.Tasks, p.Probe)...) {
		for _, op := range l {
			if op.K == "new" && op.O == o {
				name = op.T
			}
		}
	}
	return name
}

func judge(p *Plan) (v verdict) {
	if p.Prop == "C17" {
		v.longLife(p, func(check, sig, msg string) { v.viols = append(v.viols, Viol{check, sig, msg}) })
		return
	}
	opt := execOpt{solo: -1, setup: true, tasks: true, probe: true, limit: stepLimit}
	switch p.Prop {
	case "C05", "C02":
		opt.watch = true
	}
	x := execute(p, opt)
	v.main = x
	v.digest = x.digest()
	v.viols = append(v.viols, x.Env.viols...)
	add := func(check, sig, msg string) { v.viols = append(v.viols, Viol{check, sig, msg}) }
	hung := x.S != nil && (x.S.Hang != "" || x.S.Deadlock)
	// panics that nobody injected
	for t := range x.Tasks {
		for i := range x.Tasks[t] {
			r := &x.Tasks[t][i]
			if r.Panic != "" && !strings.HasPrefix(r.Panic, "injected") && p.Prop == "C06" {
				add("panic", opType(p, p.Tasks[t][i].O), fmt.Sprintf("%s of %s panicked: %s", p.Tasks[t][i].K, opType(p, p.Tasks[t][i].O), r.Panic))
			}
		}
	}
	switch p.Prop {
	case "C01", "C02":
		if hung || len(v.viols) > 0 {
			break
		}
		for t := range p.Tasks {
			solo := execute(p, execOpt{solo: t, alone: true, setup: true, tasks: true, limit: stepLimit})
			if len(solo.Env.viols) > 0 {
				// alone already wrong: reported by the properties about single calls
				if p.Prop == "C02" {
					v.viols = append(v.viols, solo.Env.viols...)
				}
				continue
			}
			for i := range p.Tasks[t] {
				op := &p.Tasks[t][i]
				if sig, msg := resDiff(&x.Tasks[t][i], &solo.Tasks[t][i], ""); sig != "" {
					add("differs-from-alone", opType(p, op.O)+" "+sig, fmt.Sprintf("task %d operation %d (%s of %s): together <> alone: %s", t, i, op.K, opType(p, op.O), msg))
					break
				}
			}
		}
		v.useful = x.S.Switches > 0
	case "C03":
		ref := execute(p, execOpt{solo: -1, alone: true, probe: true, limit: stepLimit})
		for i := range p.Probe {
			if sig, msg := resDiff(&x.Probe[i], &ref.Probe[i], ""); sig != "" {
				op := &p.Probe[i]
				add("depends-on-history", opType(p, op.O)+" "+sig, fmt.Sprintf("%s of %s: after history <> in a new process: %s", op.K, opType(p, op.O), msg))
				break
			}
		}
		v.useful = true
	case "C04":
		ty := opType(p, 0)
		pr := x.Probe
		stale := staleProne(x.Env.objs[0].tt.TD) && leavesStale(p.Tasks[0], x.Tasks[0])
		for i := 2; i+1 < len(p.Probe); i += 2 {
			a, b := &pr[i], &pr[i+1]
			k := p.Probe[i].K
			masked := stale && (k == "dec" || k == "fill") && p.Kind != "probe"
			if stale && k == "enc" && i > 0 && decBefore(p.Probe[:i]) {
				stat.avoided++
				break
			}
			if !a.Ran || !b.Ran {
				break
			}
			if a.HasErr != b.HasErr || (a.Panic == "") != (b.Panic == "") {
				add("reset-"+k, ty+" outcome", fmt.Sprintf("%s: recycled <> new: error %q panic %q <> error %q panic %q", k, cut(a.Err, 200), a.Panic, cut(b.Err, 200), b.Panic))
				break
			}
			if a.HasErr || a.Panic != "" {
				break
			}
			switch k {
			case "zero":
				if la, lb := looseDump(a.Dump), looseDump(b.Dump); la != lb {
					p, d := firstDiff(la, lb)
					add("reset-state", ty+normPath(p), fmt.Sprintf("%s after Reset <> new: %s", ty, d))
				} else if a.Zero != b.Zero && a.Dump == b.Dump {
					add("reset-zero", ty, fmt.Sprintf("IsZero of %s: recycled %v, new %v", ty, a.Zero, b.Zero))
				}
			case "enc":
				la, oka := looseJSON(a.Out)
				lb, okb := looseJSON(b.Out)
				if oka != okb || la != lb {
					add("reset-enc", ty, fmt.Sprintf("encoding of %s: recycled <> new: %s <> %s", ty, cut(string(a.Out), 300), cut(string(b.Out), 300)))
				}
			case "dec", "fill":
				da, db := looseDump(a.Dump), looseDump(b.Dump)
				if masked {
					stat.masked++
					da, db = maskElems(da), maskElems(db)
				}
				if da != db {
					p, d := firstDiff(da, db)
					add("reset-dec", ty+normPath(p), fmt.Sprintf("decoding into recycled %s <> new: %s", ty, d))
				}
			}
			if len(v.viols) > 0 {
				break
			}
		}
		v.useful = true
	case "C05":
		// the same value encoded again gives the same bytes
		if !hung {
			for t := range p.Tasks {
				last := map[int]*Res{}
				for i := range p.Tasks[t] {
					op, r := &p.Tasks[t][i], &x.Tasks[t][i]
					switch op.K {
					case "enc", "encto":
						if r.HasErr || r.Panic != "" {
							continue
						}
						if l := last[op.O]; l != nil && !sameOut(l.Out, r.Out) {
							add("encoding-changed", opType(p, op.O), fmt.Sprintf("two encodings of an untouched %s differ: %s <> %s", opType(p, op.O), cut(string(l.Out), 300), cut(string(r.Out), 300)))
						}
						last[op.O] = r
					case "outscrib", "gc", "zero":
					default:
						delete(last, op.O)
					}
				}
			}
		}
		v.useful = true
	case "C06":
		v.useful = true
	case "C07", "C08":
		judgeFault(p, x, &v, add)
	}
	return
}

// leavesStale: after this history parts of slices that are in use no more may hold
// old data.
func leavesStale(ops []Op, rs []Res) bool {
	used := false
	for i := range ops {
		switch ops[i].K {
		case "dec", "fill":
			if used || rs[i].HasErr || rs[i].Panic != "" {
				return true
			}
			used = true
		case "mut":
			if ops[i].X != "keep" {
				return true
			}
			used = true
		case "val":
			used = true
		case "reset":
			used = false
		}
	}
	return false
}

func decBefore(ops []Op) bool {
	for _, o := range ops {
		if o.K == "dec" || o.K == "fill" {
			return true
		}
	}
	return false
}

// maskElems leaves out what lies inside slices and arrays (see leavesStale).
func maskElems(dump string) string {
	ls := strings.SplitAfter(dump, "\n")
	out := ls[:0]
	for _, l := range ls {
		p := l
		if k := strings.IndexByte(p, '='); k >= 0 {
			p = p[:k]
		}
		if strings.IndexByte(p, '[') < 0 {
			out = append(out, l)
		}
	}
	return strings.Join(out, "")
}

func looseDump(s string) string {
	return strings.ReplaceAll(s, "=empty\n", "=nil\n")
}

func judgeFault(p *Plan, x *Exec, v *verdict, add func(a, b, c string)) {
	if x.S != nil && (x.S.Hang != "" || x.S.Deadlock) {
		return
	}
	for t := range p.Tasks {
		for i := range p.Tasks[t] {
			op, r := &p.Tasks[t][i], &x.Tasks[t][i]
			ty := opType(p, op.O)
			switch {
			case op.F != nil && op.F.K > 0:
				if !r.Fired {
					continue
				}
				v.useful = true
				if op.F.Kind == "panic" {
					if r.Panic == "" && !r.HasErr {
						add("panic-swallowed", ty, fmt.Sprintf("%s of %s: a panic in a user-supplied part vanished", op.K, ty))
					}
				} else if r.Panic != "" {
					add("error-became-panic", ty, fmt.Sprintf("%s of %s panicked after an injected error: %s", op.K, ty, r.Panic))
				} else if !r.HasErr {
					add("failure-swallowed", ty+" "+op.F.Kind, fmt.Sprintf("%s of %s reports success although part %d of it failed (%s); result %s", op.K, ty, op.F.K, op.F.Kind, cut(string(r.Out)+r.Dump, 300)))
				} else if !r.FaultErr {
					add("cause-lost", ty+" "+op.F.Kind, fmt.Sprintf("%s of %s: the original error cannot be recovered from %q", op.K, ty, r.Err))
				} else if p.Prop == "C07" && (len(r.Out) > 0) {
					add("bytes-with-error", ty, fmt.Sprintf("%s of %s returned an error and bytes %s", op.K, ty, cut(string(r.Out), 200)))
				}
			case strings.HasPrefix(op.X, "wrong "):
				if len(p.Probe) == 2 && (x.Probe[1].HasErr || x.Probe[1].Panic != "") {
					continue // the undamaged document is not acceptable either
				}
				v.useful = true
				if r.Panic != "" {
					add("panic", ty, fmt.Sprintf("%s of %s panicked: %s", op.K, ty, r.Panic))
				} else if !r.HasErr {
					add("bad-part-accepted", op.X, fmt.Sprintf("%s of %s reports success although a part is unusable (%s): %s", op.K, ty, op.X[6:], cut(string(op.D), 400)))
				}
			default:
				continue
			}
			// nobody else notices
			for t2 := range p.Tasks {
				ref := execute(p, execOpt{solo: t2, alone: true, setup: true, tasks: true, limit: stepLimit, drop: &[2]int{t, i}})
				for k := range p.Tasks[t2] {
					o2 := &p.Tasks[t2][k]
					if (t2 == t && k == i) || (o2.O == op.O && p.Prop == "C08") {
						continue
					}
					if sig, msg := resDiff(&x.Tasks[t2][k], &ref.Tasks[t2][k], ""); sig != "" {
						add("failure-leaks", opType(p, o2.O)+" "+sig, fmt.Sprintf("%s of %s: with the failed %s elsewhere <> without: %s", o2.K, opType(p, o2.O), op.K, msg))
						return
					}
				}
			}
		}
	}
}
