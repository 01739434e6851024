package main

import (
	"encoding/json"
	"fmt"
	"time"

	"vsimw/simrt"
)

func clone(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	if err := json.Unmarshal(b, &q); err != nil {
		panic(err)
	}
	return &q
}

// explicit turns a random schedule into the list of switches it made.
func explicit(p *Plan, x *Exec) *Plan {
	q := clone(p)
	if x.S != nil && q.Sched.Mode != 0 {
		q.Pre = append([]simrt.Preempt{}, x.S.Recorded...)
		q.First = x.S.First
		q.Sched = Sched{}
	}
	return q
}

func minimise(p *Plan, v verdict, want Viol) (*Plan, Viol, string) {
	t0 := time.Now()
	attempts := 0
	check := func(q *Plan) (_ Viol, _ *Exec, _ string, ok bool) {
		attempts++
		// a plan cut down too far may not make sense to the judge
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		w := judge(q)
		for _, x := range w.viols {
			if x.Check == want.Check && x.Sig == want.Sig {
				return x, w.main, fmt.Sprintf("%016x", w.digest), true
			}
		}
		return Viol{}, nil, "", false
	}
	best := clone(p)
	bv, _, dig, ok := check(best)
	if !ok {
		return p, want, fmt.Sprintf("%016x", v.digest)
	}
	if p.Prop == "C17" { // see it sooner
		for _, k := range []int{4 * shortLife} {
			q := clone(p)
			q.Cycles = k
			if x, _, d, ok := check(q); ok {
				best, bv, dig = q, x, d
				break
			}
		}
	} else if q := explicit(p, v.main); q.Sched.Mode == 0 {
		if x, _, d, ok := check(q); ok {
			best, bv, dig = q, x, d
		}
	}
	try := func(q *Plan) bool {
		if attempts > 900 || time.Since(t0).Seconds() > 12 {
			return false
		}
		if x, _, d, ok := check(q); ok {
			best, bv, dig = q, x, d
			return true
		}
		return false
	}
	for round := 0; round < 4; round++ {
		changed := false
		// whole tasks, emptied so that numbering stays
		for t := range best.Tasks {
			if len(best.Tasks[t]) == 0 {
				continue
			}
			q := clone(best)
			q.Tasks[t] = nil
			changed = try(q) || changed
		}
		// single operations
		for t := range best.Tasks {
			for i := len(best.Tasks[t]) - 1; i >= 0; i-- {
				q := clone(best)
				q.Tasks[t] = append(q.Tasks[t][:i:i], q.Tasks[t][i+1:]...)
				changed = try(q) || changed
			}
		}
		for i := len(best.Setup) - 1; i >= 0; i-- {
			q := clone(best)
			q.Setup = append(q.Setup[:i:i], q.Setup[i+1:]...)
			changed = try(q) || changed
		}
		if best.Prop == "C03" {
			for i := len(best.Probe) - 1; i >= 0; i-- {
				q := clone(best)
				q.Probe = append(q.Probe[:i:i], q.Probe[i+1:]...)
				changed = try(q) || changed
			}
		}
		// the schedule
		for n := len(best.Pre); n >= 1; n /= 2 {
			for i := 0; i < len(best.Pre); {
				q := clone(best)
				e := min(len(q.Pre), i+n)
				q.Pre = append(q.Pre[:i:i], q.Pre[e:]...)
				if try(q) {
					changed = true
				} else {
					i += n
				}
				if time.Since(t0).Seconds() > 8 {
					break
				}
			}
		}
		// faults, pool behaviour
		for t := range best.Tasks {
			for i := range best.Tasks[t] {
				if best.Tasks[t][i].F != nil {
					q := clone(best)
					q.Tasks[t][i].F = nil
					changed = try(q) || changed
				}
			}
		}
		if best.Pool.Scribble {
			q := clone(best)
			q.Pool.Scribble = false
			changed = try(q) || changed
		}
		if best.Pool.Drop > 0 {
			q := clone(best)
			q.Pool.Drop = 0
			changed = try(q) || changed
		}
		if best.Pool.Policy != simrt.PoolNewest {
			q := clone(best)
			q.Pool.Policy = simrt.PoolNewest
			changed = try(q) || changed
		}
		// documents
		each(best, func(op *Op) {
			if len(op.D) == 0 {
				return
			}
			for _, s := range smaller(op.D) {
				old := op.D
				q := clone(best)
				replaceDoc(q, old, s)
				if try(q) {
					changed = true
					return
				}
			}
		})
		if !changed {
			break
		}
	}
	return best, bv, dig
}

func each(p *Plan, f func(*Op)) {
	for i := range p.Setup {
		f(&p.Setup[i])
	}
	for t := range p.Tasks {
		for i := range p.Tasks[t] {
			f(&p.Tasks[t][i])
		}
	}
	for i := range p.Probe {
		f(&p.Probe[i])
	}
}

// replaceDoc replaces a document everywhere it occurs (probes come in pairs).
func replaceDoc(p *Plan, old, by Doc) {
	each(p, func(op *Op) {
		if string(op.D) == string(old) {
			op.D = by
		}
	})
}

// smaller proposes smaller variants of a document: members and elements removed.
func smaller(d Doc) []Doc {
	var v any
	if json.Unmarshal(d, &v) != nil {
		return []Doc{d[:len(d)/2]}
	}
	var out []Doc
	var paths []func(any) (any, bool)
	_ = paths
	var walk func(x any, rebuild func(any) any, depth int)
	walk = func(x any, rebuild func(any) any, depth int) {
		if len(out) > 40 {
			return
		}
		put := func(y any) {
			if b, err := json.Marshal(rebuild(y)); err == nil && len(b) < len(d) {
				out = append(out, b)
			}
		}
		switch t := x.(type) {
		case map[string]any:
			for _, k := range sortedKeys(t) {
				m := map[string]any{}
				for k2, v2 := range t {
					if k2 != k {
						m[k2] = v2
					}
				}
				put(m)
			}
			for _, k := range sortedKeys(t) {
				walk(t[k], func(y any) any {
					m := map[string]any{}
					for k2, v2 := range t {
						m[k2] = v2
					}
					m[k] = y
					return rebuild(m)
				}, depth+1)
			}
		case []any:
			for i := range t {
				put(append(append([]any{}, t[:i]...), t[i+1:]...))
			}
			for i := range t {
				walk(t[i], func(y any) any {
					a := append([]any{}, t...)
					a[i] = y
					return rebuild(a)
				}, depth+1)
			}
		case string:
			if len(t) > 4 {
				put(t[:2])
			}
		}
	}
	walk(v, func(y any) any { return y }, 0)
	return out
}
