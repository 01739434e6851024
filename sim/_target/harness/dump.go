package main

import (
	"bytes"
	"encoding/json"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

// dump renders an object as lines "path=value"; two objects are equal when their
// dumps are. With loose, nil and empty containers look the same.
type dumper struct {
	b     []byte
	path  []byte
	loose bool
	deep  int
}

func dumpObj(p any, loose bool) string {
	d := &dumper{loose: loose}
	d.val(reflect.ValueOf(p).Elem())
	return string(d.b)
}

func (d *dumper) line(s string) {
	d.b = append(d.b, d.path...)
	d.b = append(d.b, '=')
	d.b = append(d.b, s...)
	d.b = append(d.b, '\n')
}

func (d *dumper) val(v reflect.Value) {
	d.deep++
	defer func() { d.deep-- }()
	if d.deep > 200 {
		d.line("TOO DEEP (cycle?)")
		return
	}
	n := len(d.path)
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.line(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.line(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		d.line(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Bool:
		d.line(strconv.FormatBool(v.Bool()))
	case reflect.String:
		d.line(strconv.Quote(v.String()))
	case reflect.Ptr:
		if v.IsNil() {
			d.line(map[bool]string{false: "nil", true: "empty"}[d.loose])
			return
		}
		if e := v.Elem(); d.loose && (e.Kind() == reflect.Slice || e.Kind() == reflect.Map) && e.Len() == 0 {
			d.line("empty") // a pointer to nothing in particular
			return
		}
		d.path = append(d.path, '*')
		d.val(v.Elem())
	case reflect.Slice:
		if v.Len() == 0 {
			if v.IsNil() && !d.loose {
				d.line("nil")
			} else {
				d.line("empty")
			}
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			d.line(strconv.Quote(string(v.Bytes())))
			return
		}
		d.line("len " + strconv.Itoa(v.Len()))
		for i := 0; i < v.Len(); i++ {
			d.path = append(append(append(d.path[:n], '['), strconv.Itoa(i)...), ']')
			d.val(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			d.path = append(append(append(d.path[:n], '['), strconv.Itoa(i)...), ']')
			d.val(v.Index(i))
		}
	case reflect.Map:
		if v.Len() == 0 {
			if v.IsNil() && !d.loose {
				d.line("nil")
			} else {
				d.line("empty")
			}
			return
		}
		d.line("len " + strconv.Itoa(v.Len()))
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		for _, k := range ks {
			d.path = append(append(append(d.path[:n], '{'), strconv.Quote(k.String())...), '}')
			e := v.MapIndex(k)
			c := reflect.New(e.Type()).Elem()
			c.Set(e)
			d.val(c)
		}
	case reflect.Struct:
		if v.Type().ConvertibleTo(timeT) {
			t := v.Convert(timeT).Interface().(time.Time)
			if d.loose {
				t = t.UTC()
			}
			d.line(t.Format(time.RFC3339Nano))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanInterface() {
				if !f.CanAddr() {
					continue
				}
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			d.path = append(append(d.path[:n], '.'), v.Type().Field(i).Name...)
			d.val(f)
		}
	case reflect.Interface:
		if v.IsNil() {
			d.line("nil")
			return
		}
		c := reflect.New(v.Elem().Type()).Elem()
		c.Set(v.Elem())
		d.val(c)
	default:
		d.line(v.Kind().String())
	}
	d.path = d.path[:n]
}

// firstDiff names the first place where two dumps differ.
func firstDiff(a, b string) (path, desc string) {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			p := x
			if k := strings.IndexByte(p, '='); k >= 0 {
				p = p[:k]
			}
			return p, cut(x, 160) + "  <>  " + cut(y, 160)
		}
	}
	return "", ""
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// normPath drops indices and keys from a path.
func normPath(p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '[':
			b.WriteString("[]")
			for i < len(p) && p[i] != ']' {
				i++
			}
		case '{':
			b.WriteString("{}")
			i++
			if i < len(p) && p[i] == '"' {
				i++
				for i < len(p) && p[i] != '"' {
					if p[i] == '\\' {
						i++
					}
					i++
				}
			}
			for i < len(p) && p[i] != '}' {
				i++
			}
		default:
			b.WriteByte(p[i])
		}
	}
	return b.String()
}

// ---- JSON up to the order of members ----

type member struct {
	k string
	v any
}

// canonJSON renders JSON with the members of objects sorted (stably, repeated
// members kept); ok is false when the bytes are not JSON.
func canonJSON(b []byte) (string, bool) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	v, err := readAny(dec)
	if err != nil || dec.More() {
		return string(b), false
	}
	if _, err := dec.Token(); err == nil {
		return string(b), false
	}
	var sb strings.Builder
	canonWrite(&sb, v)
	return sb.String(), true
}

func readAny(dec *json.Decoder) (any, error) {
	t, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch d := t.(type) {
	case json.Delim:
		if d == '{' {
			ms := []member{}
			for dec.More() {
				k, err := dec.Token()
				if err != nil {
					return nil, err
				}
				v, err := readAny(dec)
				if err != nil {
					return nil, err
				}
				ms = append(ms, member{k.(string), v})
			}
			_, err := dec.Token()
			return ms, err
		}
		arr := []any{}
		for dec.More() {
			v, err := readAny(dec)
			if err != nil {
				return nil, err
			}
			arr = append(arr, v)
		}
		_, err := dec.Token()
		return arr, err
	}
	return t, nil
}

func canonWrite(b *strings.Builder, v any) {
	switch x := v.(type) {
	case []member:
		sort.SliceStable(x, func(i, j int) bool { return x[i].k < x[j].k })
		b.WriteByte('{')
		for i, m := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(m.k))
			b.WriteByte(':')
			canonWrite(b, m.v)
		}
		b.WriteByte('}')
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			canonWrite(b, e)
		}
		b.WriteByte(']')
	case string:
		b.WriteString(strconv.Quote(x))
	case json.Number:
		b.WriteString(x.String())
	case bool:
		b.WriteString(strconv.FormatBool(x))
	default:
		b.WriteString("null")
	}
}

// looseJSON is canonJSON where members holding an empty container, a zero or null do
// not count (nil and empty containers are the same thing, which also decides whether
// a struct around them is left out as zero).
func looseJSON(b []byte) (string, bool) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	v, err := readAny(dec)
	if err != nil {
		if c := withQuotes(b); c != nil {
			return looseJSON(c)
		}
		if c := withCommas(b); c != nil {
			return looseJSON(c)
		}
		return string(b), false
	}
	v = loosen(v)
	var sb strings.Builder
	canonWrite(&sb, v)
	return sb.String(), true
}

func loosen(v any) any {
	switch x := v.(type) {
	case []member:
		out := []member{}
		for _, m := range x {
			if y := loosen(m.v); y != nil {
				out = append(out, member{m.k, y})
			}
		}
		if len(out) == 0 {
			return nil
		}
		return out
	case string:
		// also what an empty []byte, a zero [N]byte, uuid and time look like
		if strings.Trim(x, "A=") == "" || x == "0001-01-01T00:00:00Z" || x == "00000000-0000-0000-0000-000000000000" {
			return nil
		}
	case bool:
		if !x {
			return nil
		}
	case json.Number:
		if x.String() == "0" {
			return nil
		}
	case []any:
		if len(x) == 0 {
			return nil
		}
		out := []any{}
		zero := true
		for _, e := range x {
			y := loosen(e)
			zero = zero && y == nil
			out = append(out, y)
		}
		if zero { // what an array in an otherwise empty struct looks like
			return nil
		}
		return out
	}
	return v
}

// sameOut compares two encodings up to the order of map members.
func sameOut(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	if len(a) != len(b) {
		// members of equal maps have equal text whatever their order
		return false
	}
	ca, oka := canonJSON(a)
	cb, okb := canonJSON(b)
	if oka != okb {
		return false
	}
	if oka {
		return ca == cb
	}
	x, y := append([]byte{}, a...), append([]byte{}, b...)
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	sort.Slice(y, func(i, j int) bool { return y[i] < y[j] })
	return bytes.Equal(x, y)
}

// withCommas puts in the comma that known finding KF1 leaves out after a null;
// nil when there is nothing to put in.
func withCommas(b []byte) []byte {
	var out []byte
	in := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		if in {
			if c == '\\' && i+1 < len(b) {
				out = append(out, c)
				i++
				c = b[i]
			} else if c == '"' {
				in = false
			}
		} else if c == '"' {
			if n := len(out); n > 4 && string(out[n-4:]) == "null" {
				out = append(out, ',')
			}
			in = true
		}
		out = append(out, c)
	}
	if len(out) == len(b) {
		return nil
	}
	return out
}

// withQuotes puts quotes around the infinities and NaNs that floats are written as;
// nil when there are none.
func withQuotes(b []byte) []byte {
	var out []byte
	in := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		if in {
			if c == '\\' && i+1 < len(b) {
				out = append(out, c)
				i++
				c = b[i]
			} else if c == '"' {
				in = false
			}
		} else if c == '"' {
			in = true
		} else {
			hit := ""
			for _, w := range []string{"+Inf", "-Inf", "NaN"} {
				if bytes.HasPrefix(b[i:], []byte(w)) {
					hit = w
				}
			}
			if hit != "" {
				out = append(out, '"')
				out = append(out, hit...)
				out = append(out, '"')
				i += len(hit) - 1
				continue
			}
		}
		out = append(out, c)
	}
	if len(out) == len(b) {
		return nil
	}
	return out
}
