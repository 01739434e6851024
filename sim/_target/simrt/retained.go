package simrt

import (
	"reflect"
	"sort"
	"sync"
	"unsafe"
)

// Retained measures what the package-level variables and the pools hold on to:
// used counts lengths, room counts capacities, in bytes.
func Retained() (used, room uint64) {
	w := &weigher{seen: map[visitKey]bool{}}
	for _, g := range globals {
		w.val(g.ptr.Elem())
	}
	ps := make([]*sync.Pool, 0, len(pools))
	for p := range pools {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return uintptr(unsafe.Pointer(ps[i])) < uintptr(unsafe.Pointer(ps[j])) })
	for _, p := range ps {
		for _, x := range pools[p].items {
			w.used += 16
			w.room += 16
			w.iface(reflect.ValueOf(x))
		}
	}
	return w.used, w.room
}

type weigher struct {
	seen       map[visitKey]bool
	used, room uint64
}

func (w *weigher) add(n uint64) { w.used += n; w.room += n }

func (w *weigher) once(p unsafe.Pointer, t reflect.Type) bool {
	k := visitKey{p, t}
	if p == nil || w.seen[k] || len(w.seen) > 3_000_000 {
		return false
	}
	w.seen[k] = true
	return true
}

func (w *weigher) iface(v reflect.Value) {
	if !v.IsValid() {
		return
	}
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	w.add(uint64(v.Type().Size()))
	w.val(c)
}

// val weighs what an addressable value refers to.
func (w *weigher) val(v reflect.Value) {
	t := v.Type()
	if stopType(t) || t == poolType {
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && !stopType(t.Elem()) && w.once(v.UnsafePointer(), t) {
			w.add(uint64(t.Elem().Size()))
			w.val(reflect.NewAt(t.Elem(), v.UnsafePointer()).Elem())
		}
	case reflect.Interface:
		if !v.IsNil() {
			w.iface(v.Elem())
		}
	case reflect.String:
		s := v.String()
		if len(s) > 0 && w.once(unsafe.Pointer(unsafe.StringData(s)), t) {
			w.add(uint64(len(s)))
		}
	case reflect.Struct:
		if t == syncMapType {
			v.Addr().Interface().(*sync.Map).Range(func(k, e any) bool {
				w.add(32)
				w.iface(reflect.ValueOf(k))
				w.iface(reflect.ValueOf(e))
				return true
			})
			return
		}
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			w.val(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem())
		}
	case reflect.Array:
		if plain(t.Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.val(v.Index(i))
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 || !w.once(v.UnsafePointer(), t) {
			return
		}
		z := uint64(t.Elem().Size())
		w.used += z * uint64(v.Len())
		w.room += z * uint64(v.Cap())
		if plain(t.Elem()) {
			return
		}
		full := v.Slice(0, v.Cap())
		for i := 0; i < full.Len(); i++ {
			w.val(full.Index(i))
		}
	case reflect.Map:
		if v.IsNil() || !w.once(v.UnsafePointer(), t) {
			return
		}
		w.add(uint64(v.Len()) * uint64(t.Key().Size()+t.Elem().Size()))
		it := v.MapRange()
		for it.Next() {
			k := reflect.New(t.Key()).Elem()
			k.Set(it.Key())
			w.val(k)
			e := reflect.New(t.Elem()).Elem()
			e.Set(it.Value())
			w.val(e)
		}
	case reflect.Chan:
		if !v.IsNil() && w.once(v.UnsafePointer(), t) {
			w.add(uint64(v.Len()) * uint64(t.Elem().Size()))
		}
	}
}

func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Slice, reflect.Map, reflect.Array, reflect.String, reflect.Chan:
		return false
	}
	return true
}
