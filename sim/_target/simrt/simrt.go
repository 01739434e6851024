// Package simrt is the simulator's run time inside the system under test: the
// cooperative scheduler (one coroutine per simulated goroutine, switched only at
// instrumented statements), the pool/lock seams, the fault switchboard and the
// restartable world (snapshot of every package-level variable).
package simrt

import (
	"fmt"
	"iter"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"unsafe"
)

// ---- random ----

type Rand struct{ S uint64 }

func NewRand(s uint64) *Rand { return &Rand{S: s*0x9E3779B97F4A7C15 + 0x1234567} }
func (r *Rand) U64() uint64 {
	r.S += 0x9E3779B97F4A7C15
	z := r.S
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) P(num, den int) bool { return r.N(den) < num }

func Mix(a ...uint64) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, x := range a {
		h ^= x
		h *= 0x100000001b3
		h ^= h >> 29
		h *= 0xBF58476D1CE4E5B9
		h ^= h >> 32
	}
	return h
}

// ---- tasks ----

type Preempt struct {
	T  int    `json:"t"`  // task
	K  uint64 `json:"k"`  // its local step number
	To int    `json:"to"` // task switched to
}

type Task struct {
	ID      int
	body    func()
	next    func() (struct{}, bool)
	stop    func()
	yield   func(struct{}) bool
	Steps   uint64
	at      uint64 // next local step at which an explicit preemption is due (0: none)
	pre     []Preempt
	done    bool
	blocked bool
	toNext  int // task to resume next, -1: default
	site    uint32
	randS   uint64
	PanicV  any
	Owner   int // the first task of the process it belongs to
	acc     []access // package-level variables the pending statement touches directly
}

type access struct {
	name  string
	ptr   unsafe.Pointer
	write bool
}

var (
	cur   *Task // task on the CPU, nil outside simulated execution
	quiet int   // >0: the simulator itself is running target code, no switches
	S     *Sched
)

type abortT struct{ why string }

func (a abortT) Error() string { return "sim abort: " + a.why }

// IsAbort tells whether a recovered value is the simulator's own unwinding.
func IsAbort(v any) bool { _, ok := v.(abortT); return ok }

type Sched struct {
	Tasks    []*Task
	Mode     int // 0 explicit, 1 random walk, 2 priority change points (PCT)
	rng      *Rand
	Prob     int // random mode: switch with probability 1/Prob per step
	prio     []int
	chg      []uint64
	total    uint64
	Limit    uint64
	Recorded []Preempt
	Hang     string
	Deadlock bool
	Switches int
	aborted  bool
	Pairs    map[uint64]struct{}
	Hash     uint64 // digest of the interleaving
	lastLow  int
	trans    map[[2]uint64][]int
	First    int
	Race     string // two tasks about to touch the same variable, one writing, nothing ordering them
	RaceVar  string
}

func (s *Sched) Total() uint64 { return s.total }

// transBit marks recorded switches that happen because a task ended or blocked.
const transBit = uint64(1) << 40

// Visited marks the instrumented statements that were reached.
var Visited []uint64

// Y is the instrumented statement hook.
func Y(site uint32) {
	t := cur
	if t == nil || quiet > 0 {
		return
	}
	t.acc = t.acc[:0]
	t.site = site
	if i := int(site >> 6); i < len(Visited) {
		Visited[i] |= 1 << (site & 63)
	}
	t.step(0)
}

// A announces that the statement about to run reads or writes a package-level
// variable directly; if another task is about to do the same, one of them
// writes and both got here, then nothing orders the two accesses.
func A(name string, write bool) {
	t := cur
	if t == nil || quiet > 0 {
		return
	}
	t.access(access{name, nil, write}, 4)
}

// M is the same for an access to the map x (it does nothing for other types).
func M[T any](x T, write bool) {
	t := cur
	if t == nil || quiet > 0 {
		return
	}
	ty := reflect.TypeFor[T]()
	if ty.Kind() != reflect.Map {
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&x))
	if p == nil {
		return
	}
	t.access(access{ty.String(), p, write}, 0)
}

func (t *Task) access(n access, prob int) {
	for _, o := range S.Tasks {
		if o == t || o.done {
			continue
		}
		for _, a := range o.acc {
			if a.name == n.name && a.ptr == n.ptr && (a.write || n.write) && S.Race == "" {
				S.RaceVar = n.name
				what := "package-level variable"
				if n.ptr != nil {
					what = "one map of type"
				}
				S.Race = fmt.Sprintf("task %d (%s) and task %d (%s) access %s %s at the same time", o.ID, rw(a.write), t.ID, rw(n.write), what, n.name)
			}
		}
	}
	t.acc = append(t.acc, n)
	Accesses++
	t.step(prob)
}

var Accesses int

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}

// step is one possible point of preemption; prob overrides the random walk's rate.
func (t *Task) step(prob int) {
	t.Steps++
	s := S
	if prob == 0 || prob > s.Prob {
		prob = s.Prob
	}
	s.total++
	if s.total > s.Limit {
		if !s.aborted {
			s.aborted = true
			s.Hang = fmt.Sprintf("step limit %d exceeded in task %d", s.Limit, t.ID)
		}
		panic(abortT{"step limit"})
	}
	switch s.Mode {
	case 0:
		if t.at == t.Steps {
			to := t.pre[0].To
			t.pop()
			s.switchTo(t, to)
		}
	case 1:
		if len(s.Tasks) > 1 && s.rng.U64()%uint64(prob) == 0 {
			to := s.rng.N(len(s.Tasks))
			if to != t.ID {
				s.record(t, to)
				s.switchTo(t, to)
			}
		}
	case 2:
		if len(s.chg) > 0 && s.chg[0] == s.total {
			s.chg = s.chg[1:]
			s.lastLow--
			s.prio[t.ID] = s.lastLow
			to := s.best()
			if to >= 0 && to != t.ID {
				s.record(t, to)
				s.switchTo(t, to)
			}
		}
	}
}

func (s *Sched) best() int {
	b := -1
	for i, t := range s.Tasks {
		if t.done || t.blocked {
			continue
		}
		if b < 0 || s.prio[i] > s.prio[b] {
			b = i
		}
	}
	return b
}

func (t *Task) pop() {
	t.pre = t.pre[1:]
	t.at = 0
	if len(t.pre) > 0 {
		t.at = t.pre[0].K
	}
}

func (s *Sched) record(t *Task, to int) {
	s.Recorded = append(s.Recorded, Preempt{t.ID, t.Steps, to})
}

func (s *Sched) switchTo(t *Task, to int) {
	if to < 0 || to >= len(s.Tasks) || to == t.ID || s.Tasks[to].done {
		return
	}
	t.toNext = to
	s.Switches++
	s.Pairs[uint64(t.site)<<32|uint64(s.Tasks[to].site)] = struct{}{}
	s.Hash = Mix(s.Hash, uint64(t.ID), t.Steps, uint64(to))
	t.park()
}

func (t *Task) park() {
	t.randS = runtime.SimGetRand()
	runtime.SimSetRand(false, 0)
	cur = nil
	ok := t.yield(struct{}{})
	cur = t
	t.enter()
	runtime.SimSetRand(true, t.randS)
	if !ok {
		panic(abortT{"stopped"})
	}
}

// block parks the running task because it cannot go on before another one has.
func block() bool {
	t := cur
	if t == nil {
		return false
	}
	if quiet > 0 {
		panic("simrt: blocked inside the simulator's own call")
	}
	t.blocked = true
	t.toNext = -1
	t.acc = t.acc[:0]
	S.Hash = Mix(S.Hash, uint64(t.ID), t.Steps, 0xb10c)
	t.park()
	return true
}

// Wait parks the running task until another one has made progress.
func Wait() bool { return block() }

// SetTaskRand reseeds the map/hash randomness of the running task.
func SetTaskRand(s uint64) {
	if cur != nil {
		runtime.SimSetRand(true, s)
	}
}

// Host runs simulator bookkeeping inside a task: no switches, and the hash
// randomness of the task is as it was afterwards.
func Host(f func()) {
	on := cur != nil
	var save uint64
	if on {
		save = runtime.SimGetRand()
		runtime.SimSetRand(true, 0x51b0)
	}
	quiet++
	defer func() {
		quiet--
		if on {
			runtime.SimSetRand(true, save)
		}
	}()
	f()
}

// Quiet runs f without any switch.
func Quiet(f func()) {
	quiet++
	defer func() { quiet-- }()
	f()
}

// CurTask returns the id of the task on the CPU (-1: none).
func CurTask() int {
	if cur == nil {
		return -1
	}
	return cur.ID
}

func TaskSteps() uint64 {
	if cur == nil {
		return 0
	}
	return cur.Steps
}

// Go is what a go statement of the code under test becomes.
func Go(f func()) {
	if cur == nil || S == nil {
		go f()
		return
	}
	S.add(f)
}

func (s *Sched) add(f func()) *Task {
	t := &Task{ID: len(s.Tasks), body: f, toNext: -1}
	t.Owner = t.ID
	if cur != nil {
		t.Owner = cur.Owner
	}
	t.randS = Mix(0x7a5c, uint64(t.ID))
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		cur = t
		t.enter()
		runtime.SimSetRand(true, t.randS)
		defer func() {
			if r := recover(); r != nil && !IsAbort(r) {
				t.PanicV = r
			}
			t.done = true
			t.acc = nil
			runtime.SimSetRand(false, 0)
			cur = nil
		}()
		t.body()
	})
	s.Tasks = append(s.Tasks, t)
	if s.Mode == 2 {
		s.prio = append(s.prio, s.rng.N(1000)+10)
	}
	return t
}

type Config struct {
	Mode  int
	Seed  uint64
	Prob  int
	Depth int    // PCT change points
	Est   uint64 // PCT estimated steps
	Pre   []Preempt
	First int
	Limit uint64
}

// Run executes the bodies under the scheduler until all are done.
func Run(cfg Config, bodies []func()) *Sched {
	s := &Sched{Mode: cfg.Mode, rng: NewRand(cfg.Seed), Prob: cfg.Prob, Limit: cfg.Limit, Pairs: map[uint64]struct{}{}}
	if s.Prob <= 0 {
		s.Prob = 50
	}
	if s.Limit == 0 {
		s.Limit = 5_000_000
	}
	if s.Mode == 2 {
		est := cfg.Est
		if est == 0 {
			est = 2000
		}
		for i := 0; i < cfg.Depth; i++ {
			s.chg = append(s.chg, 1+s.rng.U64()%est)
		}
		sort.Slice(s.chg, func(i, j int) bool { return s.chg[i] < s.chg[j] })
		for i := 1; i < len(s.chg); i++ {
			if s.chg[i] <= s.chg[i-1] {
				s.chg[i] = s.chg[i-1] + 1
			}
		}
	}
	S = s
	simActive(true)
	defer func() {
		simActive(false)
		cur = nil
		S = nil
	}()
	for _, b := range bodies {
		s.add(b)
	}
	s.trans = map[[2]uint64][]int{}
	for _, p := range cfg.Pre {
		if p.K&transBit != 0 {
			k := [2]uint64{uint64(p.T), p.K}
			s.trans[k] = append(s.trans[k], p.To)
			continue
		}
		if p.T >= 0 && p.T < len(s.Tasks) {
			t := s.Tasks[p.T]
			t.pre = append(t.pre, p)
		}
	}
	for _, t := range s.Tasks {
		sort.SliceStable(t.pre, func(i, j int) bool { return t.pre[i].K < t.pre[j].K })
		if len(t.pre) > 0 {
			t.at = t.pre[0].K
		}
	}
	at := cfg.First
	if at >= len(s.Tasks) || at < 0 {
		at = 0
	}
	if s.Mode == 2 {
		at = s.best()
	}
	s.First = at
	idle := 0
	for {
		if s.aborted {
			for _, t := range s.Tasks {
				if !t.done {
					t.stop()
				}
			}
			return s
		}
		t := s.Tasks[at]
		if !t.done {
			wasBlocked := t.blocked
			before := t.Steps
			t.blocked = false
			t.toNext = -1
			t.next()
			if t.done || !t.blocked || t.Steps != before || !wasBlocked {
				idle = 0
				if !t.blocked || t.done {
					for _, o := range s.Tasks {
						o.blocked = false
					}
				}
			} else {
				idle++
			}
		}
		// who is next
		if n := t.toNext; n >= 0 && n < len(s.Tasks) && !s.Tasks[n].done {
			at = n
			continue
		}
		nx, live := -1, false
		if s.Mode == 2 {
			nx = s.best()
			if nx >= 0 {
				s.Recorded = append(s.Recorded, Preempt{t.ID, t.Steps | transBit, nx})
			}
		} else if k := [2]uint64{uint64(t.ID), t.Steps | transBit}; len(s.trans[k]) > 0 {
			nx = s.trans[k][0]
			s.trans[k] = s.trans[k][1:]
			if nx >= len(s.Tasks) || s.Tasks[nx].done || s.Tasks[nx].blocked {
				nx = -1
			}
		}
		for i := 1; i <= len(s.Tasks) && nx < 0; i++ {
			j := (at + i) % len(s.Tasks)
			if s.Tasks[j].done {
				continue
			}
			live = true
			if !s.Tasks[j].blocked {
				nx = j
			}
		}
		if nx < 0 {
			if !live {
				return s
			}
			// everybody is blocked: let each retry once
			if idle > 2*len(s.Tasks)+2 {
				s.Deadlock = true
				s.aborted = true
				continue
			}
			for i := 1; i <= len(s.Tasks); i++ {
				j := (at + i) % len(s.Tasks)
				if !s.Tasks[j].done {
					nx = j
					break
				}
			}
		}
		at = nx
	}
}

// ---- pools ----

const (
	PoolNewest = iota
	PoolOldest
	PoolRandom
	PoolNone // behave as if the garbage collector emptied the pool every time
)

type PoolCfg struct {
	Policy   int    `json:"policy"`
	Seed     uint64 `json:"seed"`
	Drop     int    `json:"drop"` // 1/Drop of the Puts are dropped (0: never)
	Scribble bool   `json:"scribble"`
}

type poolState struct{ items []any }

var (
	pools                                              = map[*sync.Pool]*poolState{}
	poolCfg                                            PoolCfg
	poolRng                                            = NewRand(1)
	Scribble                                           func(x any)
	PoolGets, PoolHits, PoolPuts, PoolDrops, Scribbles int
)

func SetPools(c PoolCfg) {
	poolCfg = c
	poolRng = NewRand(c.Seed)
}

func DropPools() {
	for _, p := range pools {
		p.items = nil
	}
	PoolDrops++
}

func ResetPools() { pools = map[*sync.Pool]*poolState{} }

func poolGet(p *sync.Pool) (any, bool) {
	if S == nil && poolCfg.Policy != PoolNone && quiet == 0 {
		// outside a simulated execution: same rules, no scheduling
	}
	PoolGets++
	st := pools[p]
	if st == nil || len(st.items) == 0 || poolCfg.Policy == PoolNone {
		return nil, false
	}
	i := len(st.items) - 1
	switch poolCfg.Policy {
	case PoolOldest:
		i = 0
	case PoolRandom:
		i = poolRng.N(len(st.items) + 1)
		if i == len(st.items) {
			return nil, false
		}
	}
	x := st.items[i]
	st.items = append(append([]any{}, st.items[:i]...), st.items[i+1:]...)
	PoolHits++
	return x, true
}

func poolPut(p *sync.Pool, x any) {
	PoolPuts++
	if poolCfg.Scribble && Scribble != nil {
		Scribbles++
		Host(func() { Scribble(x) })
	}
	if poolCfg.Policy == PoolNone {
		return
	}
	if poolCfg.Drop > 0 && poolRng.N(poolCfg.Drop) == 0 {
		PoolDrops++
		return
	}
	st := pools[p]
	if st == nil {
		st = &poolState{}
		pools[p] = st
	}
	if len(st.items) > 64 {
		return
	}
	st.items = append(st.items, x)
}

func simActive(on bool) {
	if on {
		sync.SimBlock = block
	} else {
		sync.SimBlock = nil
	}
}

func init() {
	sync.SimPoolGet = poolGet
	sync.SimPoolPut = poolPut
}

// ---- faults in user supplied code ----

type FaultPlan struct {
	K    int    `json:"k"`    // the k-th callback of the operation (1-based) fails
	Kind string `json:"kind"` // err, panic, werr
	On   string `json:"on"`   // "", or restricts counting to one callback name
}

type FaultErr struct{ ID string }

func (e *FaultErr) Error() string { return "injected failure " + e.ID }

var (
	faults     = map[int]*faultState{}
	FaultFired = map[string]int{}
)

type faultState struct {
	plan  FaultPlan
	n     int
	err   *FaultErr
	fired bool
}

// ArmFault sets the fault plan of the running task for the next operation.
func ArmFault(p *FaultPlan) *FaultErr {
	id := CurTask()
	if p == nil {
		delete(faults, id)
		return nil
	}
	st := &faultState{plan: *p, err: &FaultErr{ID: fmt.Sprintf("#%d/%s", p.K, p.Kind)}}
	faults[id] = st
	return st.err
}

// DisarmFault clears it and tells whether it fired and how many callbacks were seen.
func DisarmFault() (fired bool, calls int) {
	id := CurTask()
	if st := faults[id]; st != nil {
		fired, calls = st.fired, st.n
	}
	delete(faults, id)
	return
}

// Fault is called by user-supplied (corpus) encoders and decoders.
// kind tells the callback what to do: "" nothing, "err" return err, "werr" leave err in the writer.
func Fault(name string) (kind string, err error) {
	st := faults[CurTask()]
	if st == nil || (st.plan.On != "" && st.plan.On != name) {
		return "", nil
	}
	st.n++
	if st.n != st.plan.K {
		return "", nil
	}
	st.fired = true
	FaultFired[name+"/"+st.plan.Kind]++
	if st.plan.Kind == "panic" {
		panic(st.err)
	}
	return st.plan.Kind, st.err
}
