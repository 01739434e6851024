package main

import (
	"encoding/json"
	"fmt"
	"time"
)

func clone(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	if err := json.Unmarshal(b, &q); err != nil {
		panic(err)
	}
	return &q
}

// minimise makes a plan smaller as long as it violates the same thing.
func minimise(p *Plan, want Viol) (*Plan, Viol, string) {
	t0 := time.Now()
	check := func(q *Plan) (v Viol, dig string, ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		x := judge(q)
		for _, w := range x.viols {
			if w.Check == want.Check && w.Sig == want.Sig {
				return w, fmt.Sprintf("%016x", x.digest), true
			}
		}
		return
	}
	best := clone(p)
	bv, dig, ok := check(best)
	if !ok {
		return p, want, "0"
	}
	try := func(f func(q *Plan) bool) bool {
		if time.Since(t0) > 25*time.Second {
			return false
		}
		q := clone(best)
		if !f(q) {
			return false
		}
		if v, d, ok := check(q); ok {
			best, bv, dig = q, v, d
			return true
		}
		return false
	}
	for again := true; again && time.Since(t0) < 25*time.Second; {
		again = false
		for i := len(best.Procs) - 1; i >= 0; i-- {
			again = try(func(q *Plan) bool { q.Procs = append(q.Procs[:i], q.Procs[i+1:]...); return len(q.Procs) > 0 }) || again
		}
		for i := range best.Procs {
			for k := len(best.Procs[i].Steps) - 1; k >= 0; k-- {
				again = try(func(q *Plan) bool {
					s := q.Procs[i].Steps
					q.Procs[i].Steps = append(s[:k], s[k+1:]...)
					return len(s) > 1
				}) || again
			}
			for k := len(best.Procs[i].Faults) - 1; k >= 0; k-- {
				again = try(func(q *Plan) bool {
					s := q.Procs[i].Faults
					q.Procs[i].Faults = append(s[:k], s[k+1:]...)
					return true
				}) || again
			}
			for n := len(best.Procs[i].Sw); n > 0; n /= 2 {
				for k := 0; k+n <= len(best.Procs[i].Sw); {
					if !try(func(q *Plan) bool {
						s := q.Procs[i].Sw
						q.Procs[i].Sw = append(s[:k:k], s[k+n:]...)
						return true
					}) {
						k += n
					} else {
						again = true
					}
				}
			}
			try(func(q *Plan) bool { r := &q.Procs[i]; was := r.Kill != 0; r.Kill, r.Part = 0, 0; return was })
			for k := range best.Procs[i].Faults {
				try(func(q *Plan) bool { was := q.Procs[i].Faults[k].Rep; q.Procs[i].Faults[k].Rep = 0; return was != 0 })
			}
			try(func(q *Plan) bool { was := q.Procs[i].Env != nil; q.Procs[i].Env = nil; return was })
			try(func(q *Plan) bool { r := &q.Procs[i]; was := r.Shuffle != 0; r.Shuffle = 0; return was })
			try(func(q *Plan) bool { r := &q.Procs[i]; was := r.Hash != 0; r.Hash = 0; return was })
			try(func(q *Plan) bool {
				r := &q.Procs[i]
				was := r.Clock != 0 || r.Tick != 0
				r.Clock, r.Tick = 0, 0
				return was
			})
			try(func(q *Plan) bool { r := &q.Procs[i]; was := r.Pid != 0; r.Pid = 0; return was })
			try(func(q *Plan) bool { r := &q.Procs[i]; was := r.Cwd != ""; r.Cwd, r.Rel = "", false; return was })
			try(func(q *Plan) bool { r := &q.Procs[i]; was := r.Power != 0; r.Power = 0; return was })
			if k := best.Procs[i].Part; k != 0 {
				try(func(q *Plan) bool { q.Procs[i].Part = 0; return true })
			}
		}
		for i := len(best.Files) - 1; i >= 0; i-- {
			again = try(func(q *Plan) bool { q.Files = append(q.Files[:i], q.Files[i+1:]...); return true }) || again
		}
		for i := len(best.Dirs) - 1; i >= 0; i-- {
			again = try(func(q *Plan) bool { q.Dirs = append(q.Dirs[:i], q.Dirs[i+1:]...); return true }) || again
		}
	}
	return best, bv, dig
}
