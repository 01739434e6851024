package simrt

import (
	"reflect"
	"sync"
	"unsafe"
)

// Several processes in one simulation: each has package-level variables of its
// own, which are in place only while it runs.

type World struct {
	vals []reflect.Value
	pool map[*sync.Pool]*poolState
}

// NewWorld makes the memory of a process that has done nothing yet. The
// variables must be as Restart leaves them.
func NewWorld() *World {
	w := &World{pool: map[*sync.Pool]*poolState{}}
	seen := map[visitKey]reflect.Value{}
	for _, g := range globals {
		w.vals = append(w.vals, cloneVal(g.ptr.Elem(), seen))
	}
	return w
}

// Load puts the process's variables in place, Save takes them away.
func (w *World) Load() {
	for i, g := range globals {
		g.ptr.Elem().Set(w.vals[i])
	}
	pools = w.pool
}

func (w *World) Save() {
	for i, g := range globals {
		w.vals[i].Set(g.ptr.Elem())
	}
	w.pool = pools
}

// cloneVal makes a copy of v and all memory reachable from it. v is addressable
// and may be set, and so is the result.
func cloneVal(v reflect.Value, seen map[visitKey]reflect.Value) reflect.Value {
	t := v.Type()
	out := reflect.New(t).Elem()
	out.Set(v)
	if !stopType(t) {
		deepen(out, seen)
	}
	return out
}

func deepen(v reflect.Value, seen map[visitKey]reflect.Value) {
	t := v.Type()
	if stopType(t) || t == poolType || t == syncMapType {
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() || stopType(t.Elem()) {
			return
		}
		k := visitKey{v.UnsafePointer(), t}
		n, ok := seen[k]
		if !ok {
			n = reflect.New(t.Elem())
			seen[k] = n
			n.Elem().Set(reflect.NewAt(t.Elem(), v.UnsafePointer()).Elem())
			deepen(n.Elem(), seen)
		}
		v.Set(n.Convert(t))
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		switch e := v.Elem(); e.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Slice:
			c := reflect.New(e.Type()).Elem()
			c.Set(e)
			deepen(c, seen)
			v.Set(c)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			deepen(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			deepen(v.Index(i), seen)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		k := visitKey{v.UnsafePointer(), t}
		full := v.Slice(0, v.Cap())
		if n, ok := seen[k]; ok && n.Len() >= full.Len() {
			v.Set(n.Slice3(0, v.Len(), v.Cap()))
			return
		}
		n := reflect.MakeSlice(t, full.Len(), full.Len())
		seen[k] = n
		reflect.Copy(n, full)
		for i := 0; i < n.Len(); i++ {
			deepen(n.Index(i), seen)
		}
		v.Set(n.Slice3(0, v.Len(), v.Cap()))
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := visitKey{v.UnsafePointer(), t}
		if n, ok := seen[k]; ok {
			v.Set(n)
			return
		}
		n := reflect.MakeMapWithSize(t, v.Len())
		seen[k] = n
		it := v.MapRange()
		for it.Next() {
			e := reflect.New(t.Elem()).Elem()
			e.Set(it.Value())
			deepen(e, seen)
			n.SetMapIndex(it.Key(), e)
		}
		v.Set(n)
	}
}

// OnSwitch, when set, is told when a task of another process gets the CPU.
var OnSwitch func(from, to int)

var lastOwner int

func (t *Task) enter() {
	if OnSwitch != nil && t.Owner != lastOwner {
		from := lastOwner
		lastOwner = t.Owner
		OnSwitch(from, t.Owner)
	}
}

// StartWorlds says whose variables are in place.
func StartWorlds(owner int, f func(from, to int)) { lastOwner, OnSwitch = owner, f }

// SwitchTo hands the CPU to a task of another process until that one hands it over or ends.
func SwitchTo(owner int) {
	if cur == nil {
		return
	}
	for _, t := range S.Tasks {
		if t.Owner == owner && !t.done && !t.blocked {
			S.switchTo(cur, t.ID)
			return
		}
	}
}

// Alive tells whether a process has something left that can go on.
func Alive(owner int) bool {
	if S == nil {
		return false
	}
	for _, t := range S.Tasks {
		if t.Owner == owner && !t.done && !t.blocked {
			return true
		}
	}
	return false
}
