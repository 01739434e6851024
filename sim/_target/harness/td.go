package main

import (
	"reflect"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"vsimw/simrt"
)

// Type descriptors: what the generated codec of a type is supposed to hold where.

type Kind int

const (
	KOpaque Kind = iota
	KInt
	KUint
	KFloat
	KBool
	KStr
	KTime
	KUUID
	KBytes
	KCust
	KStruct
	KSlice
	KArray
	KMap
	KPtr
)

var kindName = []string{"opaque", "int", "uint", "float", "bool", "string", "time", "uuid", "bytes", "custom", "struct", "slice", "array", "map", "ptr"}

type Field struct {
	JSON      string
	Idx       []int
	TD        *TD
	Omit, Req bool
	Def       bool
}

type TD struct {
	T      reflect.Type
	K      Kind
	Elem   *TD
	Fields []Field
	Layout string
	Codec  bool // has its own generated methods
}

type tdKey struct {
	t      reflect.Type
	layout string
	bytes  bool
}

var tdCache = map[tdKey]*TD{}
var timeT = reflect.TypeOf(time.Time{})

type marshaler interface{ MarshalJSON() ([]byte, error) }
type unmarshaler interface{ UnmarshalJSON([]byte) error }

var unmT = reflect.TypeOf((*unmarshaler)(nil)).Elem()

func tdOf(t reflect.Type, layout string, asBytes bool) *TD {
	k := tdKey{t, layout, asBytes}
	if d := tdCache[k]; d != nil {
		return d
	}
	d := &TD{T: t, Layout: layout}
	tdCache[k] = d
	ptrCodec := t.Name() != "" && reflect.PointerTo(t).Implements(unmT)
	d.Codec = ptrCodec
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.K = KInt
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		d.K = KUint
	case reflect.Float32, reflect.Float64:
		d.K = KFloat
	case reflect.Bool:
		d.K = KBool
	case reflect.String:
		d.K = KStr
	case reflect.Ptr:
		d.K = KPtr
		d.Elem = tdOf(t.Elem(), layout, asBytes)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && (asBytes || ptrCodec) {
			d.K = KBytes
			break
		}
		d.K = KSlice
		d.Elem = tdOf(t.Elem(), layout, false)
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 && t.Len() == 16 {
			d.K = KUUID
			break
		}
		if t.Elem().Kind() == reflect.Uint8 && ptrCodec {
			d.K = KBytes
			break
		}
		d.K = KArray
		d.Elem = tdOf(t.Elem(), layout, false)
	case reflect.Map:
		d.K = KMap
		d.Elem = tdOf(t.Elem(), layout, false)
	case reflect.Struct:
		if t.ConvertibleTo(timeT) {
			d.K = KTime
			if d.Layout == "" {
				d.Layout = time.RFC3339Nano
			}
			break
		}
		if t.Name() == "Cust" {
			d.K = KCust
			break
		}
		d.K = KStruct
		d.Fields = structFields(t, nil)
	}
	return d
}

func structFields(t reflect.Type, prefix []int) []Field {
	var out []Field
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		idx := append(append([]int{}, prefix...), i)
		tag := f.Tag.Get("json")
		ps := strings.Split(tag, ",")
		inline := false
		fl := Field{JSON: ps[0], Idx: idx}
		for _, p := range ps[1:] {
			switch p {
			case "omitempty":
				fl.Omit = true
			case "required":
				fl.Req = true
			case "inline":
				inline = true
			}
		}
		if f.Anonymous && (inline && !hasMember(f.Type, f.Type.Name()) || tag == "") {
			out = append(out, structFields(f.Type, idx)...)
			continue
		}
		if !f.IsExported() || ps[0] == "" || ps[0] == "-" {
			continue
		}
		_, fl.Def = f.Tag.Lookup("default")
		layout, sim := f.Tag.Get("layout"), f.Tag.Get("sim")
		if layout != "" && sim != "" { // the layout is given by the name of a constant
			layout = sim
		}
		fl.TD = tdOf(f.Type, layout, sim == "bytes")
		out = append(out, fl)
	}
	return out
}

// hasMember: a struct with a field of its own type's name is not inlined but kept as a field.
func hasMember(t reflect.Type, name string) bool {
	_, ok := t.FieldByName(name)
	return ok
}

type TopType struct {
	Name string
	New  func() any
	TD   *TD
}

var (
	tops   []*TopType
	topIdx = map[string]*TopType{}
	pkgIdx = map[string][]*TopType{}
)

func initTypes() {
	for _, t := range simrt.Types {
		x := t.New()
		tt := &TopType{Name: t.Name, New: t.New, TD: tdOf(reflect.TypeOf(x).Elem(), "", false)}
		topIdx[t.Name] = tt
		if strings.HasPrefix(t.Name, "kf.") {
			continue // known findings only
		}
		tops = append(tops, tt)
		collectNames(tt.TD, map[*TD]bool{})
	}
	sort.Slice(tops, func(i, j int) bool { return tops[i].Name < tops[j].Name })
	for _, t := range tops {
		p := t.Name[:strings.IndexByte(t.Name, '.')]
		pkgIdx[p] = append(pkgIdx[p], t)
	}
}

func validStr(s string) bool { return utf8.ValidString(s) }

// hasKind tells whether a value of kind k can occur anywhere below d.
func hasKind(d *TD, k Kind) bool { return hasKind0(d, k, map[*TD]bool{}) }
func hasKind0(d *TD, k Kind, seen map[*TD]bool) bool {
	if d == nil || seen[d] {
		return false
	}
	seen[d] = true
	if d.K == k {
		return true
	}
	for _, f := range d.Fields {
		if hasKind0(f.TD, k, seen) {
			return true
		}
	}
	return hasKind0(d.Elem, k, seen)
}
