package main

import (
	"fmt"
	"strings"

	"vsimw/simrt"
)

// A long-running process: the same kind of work again and again, on content it has
// not seen before.

const shortLife = 24

func (b *builder) longLife() {
	r, p := b.r, b.p
	p.Pool.Policy %= 2 // one that forgets makes the pools grow
	p.Pool.Scribble = p.Pool.Scribble && r.P(1, 3)
	for t := 1 + r.N(5)/3; t > 0; t-- {
		var ops []Op
		for n := 1 + r.N(3); n > 0; n-- {
			tt := b.pickType(nil)
			o := len(p.Tasks)*100 + n
			if _, ok := tt.New().(resetter); r.P(2, 3) || !ok || hasKind(tt.TD, KMap) {
				ops = append(ops, newOp(o, tt)) // decoding adds to a map that is there
			} else {
				p.Setup = append(p.Setup, newOp(o, tt))
				ops = append(ops, b.simple("reset", o))
			}
			for i := 1 + r.N(4); i > 0; i-- {
				switch r.N(8) {
				case 0, 1, 2, 3:
					op := b.dec(o, tt)
					if r.P(1, 3) {
						op.D = document(tt.TD, r.U64(), 4)
					}
					ops = append(ops, op)
				case 4, 5:
					ops = append(ops, b.enc(o, tt, true))
				case 6:
					ops = append(ops, b.simple("zero", o))
				case 7:
					ops = append(ops, b.simple("reset", o))
				}
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

// age says what is held, and what a round costs.
type age struct {
	used, room, cost uint64
}

type life struct {
	p     *Plan
	env   *Env
	x     *Exec
	at    int // cycles done
	cost  []uint64
	fresh int
	steps uint64
	hash  uint64
}

func newLife(p *Plan) *life {
	simrt.Restart()
	e := newEnv()
	e.wantDmp = false
	l := &life{p: p, env: e, x: &Exec{Env: e}, hash: 3}
	simrt.SetPools(p.Pool)
	s := simrt.Run(simrt.Config{Limit: stepLimit}, []func(){func() { l.x.Setup = runSeq(e, p.Setup) }})
	stat.steps += s.Total()
	return l
}

// cycle does the work once more.
func (l *life) cycle() bool {
	p, e := l.p, l.env
	e.outs = nil
	l.x.Tasks = make([][]Res, len(p.Tasks))
	var bodies []func()
	n := 0
	for t := range p.Tasks {
		t := t
		ops := append([]Op{}, p.Tasks[t]...)
		for i := range ops {
			if ops[i].D != nil {
				ops[i].D = freshen(ops[i].D, simrt.NewRand(simrt.Mix(p.Seed, uint64(l.at), uint64(t), uint64(i))), &n)
			}
		}
		l.x.Tasks[t] = make([]Res, len(ops))
		bodies = append(bodies, func() {
			for i := range ops {
				l.x.Tasks[t][i] = e.do(&ops[i])
			}
		})
	}
	l.fresh += n
	cfg := simrt.Config{Limit: stepLimit}
	if len(bodies) > 1 {
		cfg = simrt.Config{Mode: 1, Seed: simrt.Mix(p.Sched.Seed, uint64(l.at)), Prob: 100, Limit: stepLimit}
	}
	s := simrt.Run(cfg, bodies)
	stat.steps += s.Total()
	l.steps += s.Total()
	l.cost = append(l.cost, s.Total())
	l.x.S = s
	l.at++
	l.hash = simrt.Mix(l.hash, s.Total(), s.Hash)
	return s.Hang == "" && !s.Deadlock && len(e.viols) == 0
}

func (l *life) until(k int) (a age, ok bool) {
	for l.at < k {
		if !l.cycle() {
			return a, false
		}
	}
	a.used, a.room = simrt.Retained()
	n := max(1, k/8)
	for _, c := range l.cost[k-n:] {
		a.cost += c
	}
	a.cost /= uint64(n)
	stat.ages++
	return a, true
}

// grows: as much in the second half of the time as an endless growth would show.
func grows(a, b, c, least uint64) bool {
	return b > a && c > b && c-b >= least && 2*(c-b) >= 3*(b-a)
}

func (v *verdict) longLife(p *Plan, add func(check, sig, msg string)) {
	l := newLife(p)
	v.main = l.x
	v.useful = true
	defer func() {
		v.digest = simrt.Mix(l.hash, l.x.digest())
	}()
	k := p.Cycles
	if k == 0 {
		k = shortLife
	}
	a, ok := l.until(k / 4)
	b, ok2 := l.until(k / 2)
	if !ok || !ok2 {
		return
	}
	for {
		c, ok := l.until(k)
		if !ok {
			return
		}
		n := uint64(k)
		used, room := grows(a.used, b.used, c.used, n/4), grows(a.room, b.room, c.room, n/4)
		cost := grows(a.cost, b.cost, c.cost, max(3, a.cost/400))
		if !used && !room && !cost {
			return
		}
		if p.Cycles > 0 || k >= 16*shortLife {
			what := strings.Join(l.types(), ", ")
			switch {
			case used || room:
				add("keeps-growing", what, fmt.Sprintf("what package-level variables and pools hold grows for ever: after %d, %d and %d rounds of the same work (%s) it is %d, %d and %d bytes (allocated %d, %d, %d)",
					k/4, k/2, k, what, a.used, b.used, c.used, a.room, b.room, c.room))
			case cost:
				add("slows-down", what, fmt.Sprintf("the same work (%s) takes %d statements after %d rounds, %d after %d, %d after %d", what, a.cost, k/4, b.cost, k/2, c.cost, k))
			}
			return
		}
		k *= 2
		a, b = b, c
		stat.longer++
	}
}

// lasts tells an endless growth from one that comes to an end, as that of a cache with
// a limit: it goes on with the work until there can be no such limit any more.
func lasts(p *Plan) bool {
	const enough = 4 << 20
	l := newLife(p)
	k := 4 * shortLife
	first, ok := l.until(k / 4)
	b, ok2 := l.until(k / 2)
	if !ok || !ok2 {
		return true
	}
	a := first
	for {
		c, ok := l.until(k)
		if !ok {
			return true
		}
		n := uint64(k)
		size := grows(a.used, b.used, c.used, n/4) || grows(a.room, b.room, c.room, n/4)
		cost := grows(a.cost, b.cost, c.cost, max(3, a.cost/400))
		switch {
		case !size && !cost:
			return false
		case size && (c.used > first.used+enough || c.room > first.room+4*enough):
			return true
		case cost && c.cost > 20*first.cost:
			return true
		case l.at > 250_000 || l.steps > 1_000_000_000:
			return size || c.cost > first.cost+first.cost/5+10
		}
		k *= 2
		a, b = b, c
	}
}

func (l *life) types() []string {
	set := map[string]bool{}
	for _, o := range l.env.objs {
		set[o.tt.Name] = true
	}
	return sortedKeys(set)
}

// freshen replaces the text in a document by other text of the same form: strings,
// names that are no field of the type, the last digits of whole numbers.
func freshen(d []byte, r *simrt.Rand, n *int) []byte {
	out := append([]byte{}, d...)
	names := map[string]string{}
	for i := 0; i < len(out); {
		switch c := out[i]; {
		case c == '"':
			j := i + 1
			for j < len(out) && out[j] != '"' {
				if out[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(out) {
				return out
			}
			k := j + 1
			for k < len(out) && (out[k] == ' ' || out[k] == '\t' || out[k] == '\n' || out[k] == '\r') {
				k++
			}
			in := out[i+1 : j]
			if k < len(out) && out[k] == ':' {
				s := string(in)
				if !fieldName[s] {
					if t, ok := names[s]; ok {
						copy(in, t)
					} else {
						freshText(in, r)
						names[s] = string(in)
						*n++
					}
				}
			} else if !timeLike(in) {
				freshText(in, r)
				*n++
			}
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(out) && strings.IndexByte("0123456789.eE+-", out[j]) >= 0 {
				j++
			}
			if w := out[i:j]; len(w) > 1 && strings.IndexAny(string(w), ".eE+-") < 0 {
				w[len(w)-1] = '0' + byte(r.N(int(w[len(w)-1]-'0')+1))
			}
			i = j
		default:
			i++
		}
	}
	return out
}

func timeLike(b []byte) bool {
	return len(b) >= 10 && (b[4] == '-' && b[7] == '-' || b[2] == '.' && b[5] == '.') && b[0] >= '0' && b[0] <= '9'
}

func freshText(b []byte, r *simrt.Rand) {
	hex := len(b) >= 32
	for _, c := range b {
		hex = hex && (c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c == '-')
	}
	for i := 0; i < len(b); i++ {
		switch c := b[i]; {
		case c == '\\':
			if i+1 < len(b) && b[i+1] == 'u' {
				i += 4
			}
			i++
		case hex && c != '-':
			b[i] = "0123456789abcdef"[r.N(16)]
		case c >= 'a' && c <= 'z':
			b[i] = 'a' + byte(r.N(26))
		case c >= 'A' && c <= 'Z':
			b[i] = 'A' + byte(r.N(26))
		case c >= '0' && c <= '9':
			b[i] = '0' + byte(r.N(10))
		}
	}
}

// fieldName has every name that a struct of the corpora uses.
var fieldName = map[string]bool{"v": true, "s": true}

func collectNames(d *TD, seen map[*TD]bool) {
	if d == nil || seen[d] {
		return
	}
	seen[d] = true
	collectNames(d.Elem, seen)
	for i := range d.Fields {
		fieldName[d.Fields[i].JSON] = true
		collectNames(d.Fields[i].TD, seen)
	}
}
