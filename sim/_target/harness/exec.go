package main

import (
	"errors"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/mailru/easyjson/jwriter"
	"github.com/valyala/fastjson"

	"vsimw/simrt"
)

var parserT = reflect.TypeOf(&fastjson.Parser{})

type filler interface {
	FillFromJSON(*fastjson.Value) error
}
type marshalTo interface {
	MarshalTo(*jwriter.Writer) error
}
type resetter interface{ Reset() }
type zeroer interface{ IsZero() bool }

var showStacks = os.Getenv("VSIM_STACKS") != ""

// ---- plans ----

type Op struct {
	K string           `json:"k"`           // new dec fill enc encto reset zero val mut gc outscrib
	O int              `json:"o"`           // object
	T string           `json:"t,omitempty"` // type, for new
	D Doc              `json:"d,omitempty"`
	R uint64           `json:"r,omitempty"`
	F *simrt.FaultPlan `json:"f,omitempty"`
	X string           `json:"x,omitempty"` // what a judge knows about the operation; for recv what the channel does
	M int              `json:"m,omitempty"` // message number, for send and recv
}

// Doc is raw bytes, kept readable in plan files when possible.
type Doc []byte

type Sched struct {
	Mode  int    `json:"mode"`
	Seed  uint64 `json:"seed"`
	Prob  int    `json:"prob,omitempty"`
	Depth int    `json:"depth,omitempty"`
}

type Plan struct {
	Prop  string          `json:"prop"`
	Seed  uint64          `json:"seed"`
	Kind  string          `json:"kind,omitempty"`
	Pool  simrt.PoolCfg   `json:"pool"`
	Sched Sched           `json:"sched"`
	Setup []Op            `json:"setup,omitempty"`
	Tasks [][]Op          `json:"tasks,omitempty"`
	Probe []Op            `json:"probe,omitempty"`
	Pre   []simrt.Preempt `json:"pre,omitempty"` // explicit schedule (mode 0)
	First int             `json:"first,omitempty"`

	Cycles int `json:"cycles,omitempty"` // C17: rounds of the tasks (0: as many as it takes to tell)
}

const sharedBase = 1000

type Res struct {
	Ran      bool
	Err      string
	HasErr   bool
	FaultErr bool // the injected error can be recovered from Err
	Fired    bool
	Panic    string
	Calls    int
	Out      []byte
	OutNil   bool
	Dump     string
	Zero     bool
}

type Obj struct {
	tt    *TopType
	p     any
	busy  bool
	dump  string // content after the last operation on it
	dirty bool
}

type retained struct {
	out  []byte
	copy []byte
	who  string
	dead bool
}

type Viol struct {
	Check string // which check failed
	Sig   string // where, stable across seeds
	Msg   string
}

type Env struct {
	objs    map[int]*Obj
	order   []int
	outs    []*retained
	watch   bool // ownership checks after every operation
	scribIn bool // overwrite inputs after use
	viols   []Viol
	wantDmp bool
	msgs    map[int]*msg
}

// msg is a message in the simulated channel.
type msg struct {
	b     []byte
	ok    bool // it was encoded
	loose string
	tt    *TopType
}

func newEnv() *Env { return &Env{objs: map[int]*Obj{}, wantDmp: true, msgs: map[int]*msg{}} }

func (e *Env) fail(check, sig, format string, a ...any) {
	if len(e.viols) < 5 {
		e.viols = append(e.viols, Viol{check, sig, fmt.Sprintf(format, a...)})
	}
}

func (e *Env) obj(i int) *Obj { return e.objs[i] }

// host runs simulator bookkeeping: no switches, no influence on the randomness of the task.
func host(f func()) { simrt.Host(f) }

// do executes one operation as the running task.
func (e *Env) do(op *Op) (res Res) {
	res.Ran = true
	var o *Obj
	var in []byte
	if op.K == "gc" {
		host(simrt.DropPools)
		return
	}
	if op.K == "outscrib" {
		host(func() {
			for _, r := range e.outs {
				if !r.dead {
					for i := range r.out {
						r.out[i] = '!'
					}
					full := r.out[:cap(r.out)]
					for i := range full {
						full[i] = '!'
					}
					r.copy = append([]byte{}, r.out...)
				}
			}
		})
		e.audit("outscrib", -1)
		return
	}
	host(func() {
		if op.K == "new" {
			tt := topIdx[op.T]
			if tt != nil {
				if _, ok := e.objs[op.O]; !ok {
					e.order = append(e.order, op.O)
				}
				o = &Obj{tt: tt, p: tt.New()}
				e.objs[op.O] = o
				o.dump = dumpObj(o.p, false)
			}
			return
		}
		o = e.objs[op.O]
		if op.D != nil {
			in = append(make([]byte, 0, len(op.D)+8), op.D...)
		}
	})
	if o == nil || op.K == "new" {
		return
	}
	shared := op.O >= sharedBase
	if !shared {
		o.busy = true
	}
	before := o.dump
	simrt.SetTaskRand(op.R)
	simrt.ArmFault(op.F)
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if simrt.IsAbort(r) {
					panic(r)
				}
				res.Panic = cut(fmt.Sprint(r), 300)
				if showStacks {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
				if fe, ok := r.(*simrt.FaultErr); ok {
					res.Panic = "injected " + fe.ID
				}
			}
		}()
		switch op.K {
		case "dec":
			if u, ok := o.p.(unmarshaler); ok {
				err = u.UnmarshalJSON(in)
			}
		case "fill":
			if u, ok := o.p.(filler); ok {
				p := &fastjson.Parser{}
				var v *fastjson.Value
				if v, err = p.ParseBytes(in); err == nil {
					err = u.FillFromJSON(v)
					host(func() { scribble(p) })
				}
			}
		case "enc":
			if m, ok := o.p.(marshaler); ok {
				res.Out, err = m.MarshalJSON()
			}
		case "encto":
			if m, ok := o.p.(marshalTo); ok {
				var w jwriter.Writer
				if err = m.MarshalTo(&w); err == nil {
					res.Out, err = w.BuildBytes()
				}
			}
		case "reset":
			if m, ok := o.p.(resetter); ok {
				m.Reset()
			}
		case "zero":
			if m, ok := o.p.(zeroer); ok {
				res.Zero = m.IsZero()
			}
		case "val":
			host(func() {
				reflect.ValueOf(o.p).Elem().SetZero()
				g := newGen(op.R, 0)
				if g.big == 0 && g.r.P(1, 8) {
					g.big = 10
				}
				g.fillVal(reflect.ValueOf(o.p).Elem(), o.tt.TD, 0, nil)
			})
		case "send":
			err = e.send(op, o, &res)
		case "recv":
			err = e.recv(op, o, &res)
		case "mut":
			host(func() { mutate(reflect.ValueOf(o.p).Elem(), simrt.NewRand(op.R), 0, op.X == "keep") })
		}
	}()
	res.Fired, res.Calls = simrt.DisarmFault()
	host(func() {
		if err != nil {
			res.HasErr = true
			res.Err = err.Error()
			var fe *simrt.FaultErr
			res.FaultErr = errors.As(err, &fe)
		}
		if in != nil {
			// the caller reuses its buffer
			for i := range in {
				in[i] = '?'
			}
		}
		if res.Out != nil {
			r := &retained{out: res.Out, copy: append([]byte{}, res.Out...), who: op.K}
			e.outs = append(e.outs, r)
			res.Out = r.copy
			if len(e.outs) > 40 {
				e.outs = e.outs[1:]
			}
		} else {
			res.OutNil = true
		}
		if o != nil && e.wantDmp {
			nd := dumpObj(o.p, false)
			switch op.K {
			case "enc", "encto", "zero":
				if nd != before && (!shared || true) {
					p, d := firstDiff(before, nd)
					e.fail("value-changed-by-"+op.K, o.tt.Name+normPath(p), "%s of %s changed the value: %s", op.K, o.tt.Name, d)
				}
			}
			o.dump = nd
			res.Dump = nd
		}
	})
	if !shared {
		o.busy = false
	}
	e.audit(op.K, op.O)
	return
}

// audit: nothing that is not being worked on has changed.
func (e *Env) audit(after string, by int) {
	host(func() {
		for _, r := range e.outs {
			if string(r.out) != string(r.copy) {
				e.fail("output-changed", "bytes", "bytes returned by an earlier %s changed after %s: %.120q -> %.120q", r.who, after, r.copy, r.out)
				r.copy = append([]byte{}, r.out...)
			}
		}
		if !e.watch {
			return
		}
		for _, i := range e.order {
			o := e.objs[i]
			if o.busy || i == by {
				continue
			}
			nd := dumpObj(o.p, false)
			if nd != o.dump {
				p, d := firstDiff(o.dump, nd)
				e.fail("object-changed", o.tt.Name+normPath(p), "object %d (%s) changed after %s of object %d: %s", i, o.tt.Name, after, by, d)
				o.dump = nd
			}
		}
	})
}

// ---- executions ----

type Exec struct {
	Setup []Res
	Tasks [][]Res
	Probe []Res
	Env   *Env
	S     *simrt.Sched
	Hash  uint64
}

func runSeq(e *Env, ops []Op) []Res {
	out := make([]Res, len(ops))
	for i := range ops {
		out[i] = e.do(&ops[i])
	}
	return out
}

type execOpt struct {
	solo  int // -1: all tasks
	alone bool
	watch bool
	noDmp bool
	setup bool
	probe bool
	tasks bool
	limit uint64
	drop  *[2]int // skip this operation (task, index)
}

// execute runs a plan in a restarted world.
func execute(p *Plan, opt execOpt) *Exec {
	simrt.Restart()
	e := newEnv()
	e.watch = opt.watch
	e.wantDmp = !opt.noDmp
	x := &Exec{Env: e}
	pool := p.Pool
	if opt.alone {
		pool = simrt.PoolCfg{Policy: simrt.PoolNone}
	}
	simrt.SetPools(pool)
	one := func(ops []Op) []Res {
		var out []Res
		if len(ops) == 0 {
			return out
		}
		s := simrt.Run(simrt.Config{Limit: opt.limit}, []func(){func() { out = runSeq(e, ops) }})
		stat.steps += s.Total()
		if s.Hang != "" {
			e.fail("hang", "sequential", "%s", s.Hang)
		}
		if s.Deadlock {
			e.fail("deadlock", "sequential", "a lone caller blocks for ever")
		}
		if out == nil {
			out = make([]Res, len(ops))
		}
		return out
	}
	if opt.setup {
		x.Setup = one(p.Setup)
	}
	if opt.tasks {
		x.Tasks = make([][]Res, len(p.Tasks))
		var bodies []func()
		for i := range p.Tasks {
			if opt.solo >= 0 && opt.solo != i {
				continue
			}
			i := i
			x.Tasks[i] = make([]Res, len(p.Tasks[i]))
			bodies = append(bodies, func() {
				for k := range p.Tasks[i] {
					if opt.drop != nil && opt.drop[0] == i && opt.drop[1] == k {
						continue
					}
					x.Tasks[i][k] = e.do(&p.Tasks[i][k])
				}
			})
		}
		cfg := simrt.Config{Mode: p.Sched.Mode, Seed: p.Sched.Seed, Prob: p.Sched.Prob, Depth: p.Sched.Depth, Pre: p.Pre, First: p.First, Limit: opt.limit}
		if opt.solo >= 0 {
			cfg = simrt.Config{Limit: opt.limit}
		}
		if cfg.Mode == 2 {
			cfg.Est = estimate(p)
		}
		s := simrt.Run(cfg, bodies)
		x.S = s
		stat.steps += s.Total()
		for _, t := range s.Tasks {
			if t.PanicV != nil {
				e.fail("panic", "simulator", "task %d panicked outside an operation: %v", t.ID, t.PanicV)
			}
		}
		if s.Hang != "" {
			e.fail("hang", "concurrent", "%s", s.Hang)
		}
		if s.Deadlock {
			e.fail("deadlock", "concurrent", "every unfinished caller is blocked for ever")
		}
		if s.Race != "" {
			e.fail("unsynchronised-access", s.RaceVar, "%s", s.Race)
		}
	}
	if opt.probe {
		x.Probe = one(p.Probe)
	}
	return x
}

// estimate guesses the number of steps of a plan for priority change points.
func estimate(p *Plan) uint64 {
	n := uint64(0)
	for _, t := range p.Tasks {
		for _, o := range t {
			n += 60 + uint64(len(o.D))*2
		}
	}
	return n
}

func (x *Exec) digest() uint64 {
	h := uint64(7)
	add := func(rs []Res) {
		for _, r := range rs {
			h = simrt.Mix(h, hstr(r.Err), hstr(string(r.Out)), hstr(r.Dump), hstr(r.Panic), uint64(r.Calls))
		}
	}
	add(x.Setup)
	for _, t := range x.Tasks {
		add(t)
	}
	add(x.Probe)
	if x.S != nil {
		h = simrt.Mix(h, x.S.Hash, x.S.Total())
	}
	for _, v := range x.Env.viols {
		h = simrt.Mix(h, hstr(v.Check+v.Sig+v.Msg))
	}
	return h
}

func hstr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// send encodes a fresh value and hands the bytes to the channel.
func (e *Env) send(op *Op, o *Obj, res *Res) error {
	m := &msg{tt: o.tt}
	skip := false
	host(func() {
		e.msgs[op.M] = m
		v := reflect.ValueOf(o.p).Elem()
		v.SetZero()
		if op.D != nil { // the value is given as a document
			if err := o.p.(unmarshaler).UnmarshalJSON(op.D); err != nil {
				skip = true
			}
			m.loose = dumpObj(o.p, true)
			return
		}
		skip = true
		for try := 0; try < 6 && skip; try++ {
			v.SetZero()
			g := newGen(simrt.Mix(op.R, uint64(try)), 0)
			if g.big == 0 && g.r.P(1, 8) {
				g.big = 10
			}
			g.safe = true
			g.fillVal(v, o.tt.TD, 0, nil)
			skip = hasTrigger(v, o.tt.TD, nil)
		}
		if skip {
			stat.avoided++
			return
		}
		m.loose = dumpObj(o.p, true)
	})
	if skip {
		m.b = []byte{}
		return nil
	}
	defer func() { // also when the encoder panics the receivers must not wait for ever
		if m.b == nil {
			m.b = []byte{}
		}
	}()
	out, err := o.p.(marshaler).MarshalJSON()
	host(func() {
		if err != nil {
			e.fail("encode-failed", o.tt.Name, "a value of %s cannot be encoded: %v", o.tt.Name, err)
			return
		}
		m.ok = true
		m.b = append([]byte{}, out...)
		if nd := dumpObj(o.p, true); nd != m.loose {
			p, d := firstDiff(m.loose, nd)
			e.fail("value-changed-by-enc", o.tt.Name+normPath(p), "encoding %s changed it: %s", o.tt.Name, d)
		}
	})
	return nil
}

// recv takes a message as the channel delivers it and decodes it into a recycled object.
func (e *Env) recv(op *Op, o *Obj, res *Res) error {
	for {
		m := e.msgs[op.M]
		if m != nil && m.b != nil {
			break
		}
		if !simrt.Wait() {
			return nil
		}
	}
	m := e.msgs[op.M]
	if !m.ok {
		return nil
	}
	var b []byte
	host(func() {
		b = append([]byte{}, m.b...)
		r := simrt.NewRand(op.R)
		switch op.X {
		case "cut":
			if len(b) > 0 && (b[0] == '{' || b[0] == '[' || b[0] == '"') {
				b = b[:r.N(len(b))]
			}
		case "corrupt":
			if op.D != nil {
				b = append([]byte{}, op.D...)
			} else if !byteArrays(o.tt.TD) {
				b = damage(r, b)
			}
		}
		stat.chan_[op.X]++
	})
	if r, ok := o.p.(resetter); ok {
		r.Reset()
	} else {
		host(func() { reflect.ValueOf(o.p).Elem().SetZero() })
	}
	was := string(b)
	err := o.p.(unmarshaler).UnmarshalJSON(b)
	host(func() {
		defer func() {
			if op.X == "corrupt" { // what a damaged message leaves behind the end of slices: known finding
				o.dirty = true
			}
		}()
		for i := range b {
			b[i] = '?'
		}
		switch {
		case op.X == "cut" && len(was) < len(m.b):
			if err == nil {
				e.fail("cut-accepted", o.tt.Name, "%s accepted a message cut short: %s", o.tt.Name, cut(was, 300))
			}
		case op.X == "" && err != nil:
			e.fail("intact-rejected", o.tt.Name+sigOfErr(err), "%s rejected its own encoding: %v; message %s", o.tt.Name, err, cut(was, 300))
		case op.X == "":
			want, nd := m.loose, dumpObj(o.p, true)
			if o.dirty && staleProne(o.tt.TD) {
				stat.masked++
				want, nd = maskElems(want), maskElems(nd)
			}
			if nd != want {
				p, d := firstDiff(want, nd)
				e.fail("value-lost", o.tt.Name+normPath(p), "%s sent <> received: %s; message %s", o.tt.Name, d, cut(was, 300))
			}
		}
	})
	return err
}

// sigOfErr keeps the field an error names, without values.
func sigOfErr(err error) string {
	s := err.Error()
	i := strings.Index(s, "'")
	if i < 0 {
		return ""
	}
	s = s[i+1:]
	j := strings.Index(s, "'")
	if j <= 0 || j > 40 {
		return ""
	}
	for _, c := range s[:j] {
		if c != '_' && c != '-' && (c < '0' || c > '9') && (c < 'A' || c > 'Z') && (c < 'a' || c > 'z') {
			return ""
		}
	}
	return ":" + s[:j]
}
