package simrt

import (
	"reflect"
	"sync"
	"unsafe"
)

// ---- restartable world ----

type global struct {
	name string
	ptr  reflect.Value
}

type TypeReg struct {
	Name string
	New  func() any
}

var (
	globals []global
	Types   []TypeReg
	records []func()
	Nodes   int
	Skipped int
)

func RegGlobal(name string, ptr any) { globals = append(globals, global{name, reflect.ValueOf(ptr)}) }
func RegType(name string, n func() any) {
	Types = append(Types, TypeReg{name, n})
}
func GlobalCount() int { return len(globals) }

type visitKey struct {
	p unsafe.Pointer
	t reflect.Type
}

var (
	poolType    = reflect.TypeOf(sync.Pool{})
	syncMapType = reflect.TypeOf(sync.Map{})
)

func stopType(t reflect.Type) bool {
	switch t.PkgPath() {
	case "reflect", "runtime", "internal/abi", "os", "net", "io/fs", "embed", "syscall", "internal/poll":
		return true
	case "time":
		return t.Name() == "Location"
	}
	return false
}

// Snapshot remembers the present content of every registered package-level
// variable and of all memory reachable from it; Restart puts it back.
func Snapshot() {
	records = nil
	seen := map[visitKey]bool{}
	for _, g := range globals {
		snapPtr(g.ptr, seen)
	}
}

func Restart() {
	ResetPools()
	for _, r := range records {
		r()
	}
}

func snapPtr(p reflect.Value, seen map[visitKey]bool) {
	if p.IsNil() {
		return
	}
	t := p.Type().Elem()
	k := visitKey{p.UnsafePointer(), t}
	if seen[k] || stopType(t) {
		return
	}
	seen[k] = true
	Nodes++
	if Nodes > 500000 {
		Skipped++
		return
	}
	dst := reflect.NewAt(t, p.UnsafePointer()).Elem()
	if t == poolType {
		return
	}
	if t == syncMapType {
		m := dst.Addr().Interface().(*sync.Map)
		type kv struct{ k, v any }
		var kvs []kv
		m.Range(func(k, v any) bool { kvs = append(kvs, kv{k, v}); return true })
		records = append(records, func() {
			m.Clear()
			for _, e := range kvs {
				m.Store(e.k, e.v)
			}
		})
		return
	}
	if !hasPool(t) {
		save := reflect.New(t).Elem()
		save.Set(dst)
		records = append(records, func() { dst.Set(save) })
	}
	snapVal(dst, seen)
}

func hasPool(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct:
		if t == poolType || t == syncMapType {
			return true
		}
		for i := 0; i < t.NumField(); i++ {
			if hasPool(t.Field(i).Type) {
				return true
			}
		}
	case reflect.Array:
		return hasPool(t.Elem())
	}
	return false
}

// snapVal walks an addressable value looking for indirections.
func snapVal(v reflect.Value, seen map[visitKey]bool) {
	t := v.Type()
	if stopType(t) {
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			snapPtr(v, seen)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		switch e.Kind() {
		case reflect.Ptr:
			snapPtr(e, seen)
		case reflect.Map, reflect.Slice:
			c := reflect.New(e.Type()).Elem()
			c.Set(e)
			snapVal(c, seen)
		}
	case reflect.Struct:
		if t == poolType || t == syncMapType {
			return
		}
		mixed := hasPool(t)
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			if !f.CanAddr() {
				return
			}
			fp := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr()))
			if mixed {
				snapPtr(fp, seen)
				continue
			}
			snapVal(fp.Elem(), seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			snapVal(v.Index(i), seen)
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		full := v.Slice(0, v.Cap())
		k := visitKey{v.UnsafePointer(), t}
		if seen[k] {
			return
		}
		seen[k] = true
		Nodes++
		if t.Elem().Size() == 0 {
			return
		}
		save := reflect.MakeSlice(t, full.Len(), full.Len())
		reflect.Copy(save, full)
		records = append(records, func() { reflect.Copy(full, save) })
		switch t.Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Slice, reflect.Map, reflect.Array:
			for i := 0; i < full.Len(); i++ {
				snapVal(full.Index(i), seen)
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := visitKey{v.UnsafePointer(), t}
		if seen[k] {
			return
		}
		seen[k] = true
		Nodes++
		m := v
		var ks, vs []reflect.Value
		it := m.MapRange()
		for it.Next() {
			ks = append(ks, it.Key())
			vs = append(vs, it.Value())
			e := it.Value()
			c := reflect.New(e.Type()).Elem()
			c.Set(e)
			snapVal(c, seen)
		}
		records = append(records, func() {
			same := m.Len() == len(ks)
			if same {
				for i := range ks {
					e := m.MapIndex(ks[i])
					if !e.IsValid() || !e.Comparable() || !vs[i].Comparable() || !e.Equal(vs[i]) {
						same = false
						break
					}
				}
			}
			if same {
				return
			}
			m.Clear()
			for i := range ks {
				m.SetMapIndex(ks[i], vs[i])
			}
		})
	}
}
