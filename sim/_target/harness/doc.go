package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"vsimw/simrt"
)

// Documents and values drawn from a type descriptor.

type J struct {
	k    byte // o a s r(raw)
	keys []string
	kids []*J
	s    string
	td   *TD
	null bool
}

type gen struct {
	r      *simrt.Rand
	dirt   int // 0 clean, 1 absent/null/extra members, 2 anything
	budget int
	big    int  // 1/big chance of a large string or container (0: never)
	extra  int  // 1/extra of the objects have members that are no fields (0: few)
	safe   bool // keep clear of what known findings say cannot be carried
}

func newGen(seed uint64, dirt int) *gen {
	g := &gen{r: simrt.NewRand(seed), dirt: dirt, budget: 120}
	if g.r.P(1, 12) {
		g.budget = 500
	}
	if g.r.P(1, 10) {
		g.big = 12
	}
	return g
}

var alphabet = []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-./:<>&'\"\\\n\t\u0001éßжΩ漢字😀\u2028\ufffd")

func (g *gen) str() string {
	n := 0
	switch g.r.N(8) {
	case 0:
		n = 0
	case 1, 2, 3:
		n = 1 + g.r.N(4)
	case 4, 5:
		n = 4 + g.r.N(12)
	case 6:
		n = 16 + g.r.N(40)
	case 7:
		n = g.r.N(9)
	}
	if g.big > 0 && g.r.P(1, g.big) {
		n = []int{100, 130, 513, 700, 1100, 5000, 33000}[g.r.N(7)]
		if g.budget <= 0 {
			n = 130
		}
		g.budget -= n / 50
	}
	var b strings.Builder
	plain := g.r.P(1, 2)
	for i := 0; i < n; i++ {
		if plain {
			b.WriteByte("abcdefghijklmnopqrstuvwxyz0123456789"[g.r.N(36)])
		} else {
			b.WriteRune(alphabet[g.r.N(len(alphabet))])
		}
	}
	return b.String()
}

func (g *gen) key() string {
	switch g.r.N(6) {
	case 0:
		return fmt.Sprintf("k%d", g.r.N(4))
	case 1:
		return g.str()
	case 2:
		return fmt.Sprintf("key_%d", g.r.N(30))
	default:
		return string("abcdefghxyz"[g.r.N(11)])
	}
}

func bitsOf(t reflect.Type) int { return t.Bits() }

func (g *gen) intIn(t reflect.Type) int64 {
	b := t.Bits()
	lo, hi := int64(-1)<<(b-1), int64(1)<<(b-1)-1
	switch g.r.N(7) {
	case 0:
		return 0
	case 1:
		return hi
	case 2:
		return lo
	case 3:
		v := int64(g.r.U64()) >> (64 - b)
		return v
	default:
		v := int64(g.r.N(2001) - 1000)
		if v < lo || v > hi {
			v = v % (hi + 1)
		}
		return v
	}
}

func (g *gen) uintIn(t reflect.Type) uint64 {
	b := t.Bits()
	hi := ^uint64(0) >> (64 - b)
	switch g.r.N(6) {
	case 0:
		return 0
	case 1:
		return hi
	case 2:
		return g.r.U64() & hi
	default:
		return uint64(g.r.N(1000)) & hi
	}
}

// floats with few significant digits: the JSON parser underneath rounds longer ones
func (g *gen) float() float64 {
	m := float64(g.r.N(2000001) - 1000000)
	switch g.r.N(6) {
	case 0:
		return 0
	case 1:
		return m
	case 2:
		return m / 1000
	case 3:
		return m / 8
	case 4:
		f, _ := strconv.ParseFloat(fmt.Sprintf("%de%d", g.r.N(9)+1, g.r.N(12)), 64)
		return f
	default:
		return float64(g.r.N(100)) / 4
	}
}

func (g *gen) timeVal(layout string) time.Time {
	sec := int64(g.r.N(4000000000)) - 1000000000
	if g.r.P(1, 8) {
		sec = []int64{-62135596799, -62135510400, 253402214400, 0, -1}[g.r.N(5)]
	}
	t := time.Unix(sec, 0).UTC()
	if layout == time.RFC3339Nano {
		if g.r.P(1, 3) {
			t = t.Add(time.Duration([]int{1, 1000, 120000000, 999999999, g.r.N(1000000000)}[g.r.N(5)]))
		}
		if g.r.P(1, 3) {
			t = t.In(time.FixedZone("", (g.r.N(27)-13)*3600+g.r.N(2)*1800))
		}
		return t
	}
	if s := t.Format(layout); layout != "" {
		if u, err := time.Parse(layout, s); err == nil {
			t = u.UTC()
		}
	}
	return t
}

func (g *gen) timeDoc(layout string) string { return g.timeVal(layout).Format(layout) }

func raw(s string, td *TD) *J  { return &J{k: 'r', s: s, td: td} }
func jstr(s string, td *TD) *J { return &J{k: 's', s: s, td: td} }
func null(td *TD) *J           { return &J{k: 'r', s: "null", td: td, null: true} }

func (g *gen) count(depth int) int {
	n := g.r.N(4)
	if depth > 3 {
		n = g.r.N(2)
	}
	if g.big > 0 && depth <= 2 && g.r.P(1, g.big) {
		n = 8 + g.r.N(60)
	}
	if g.budget <= 0 {
		n = 0
	}
	return n
}

// doc draws a document for d.
func (g *gen) doc(d *TD, depth int) *J {
	g.budget--
	if g.dirt >= 2 && g.r.P(1, 60) {
		return g.wrong(d)
	}
	switch d.K {
	case KInt:
		if g.dirt >= 2 && g.r.P(1, 40) {
			return raw([]string{"1.5", "99999999999999999999", "-99999999999999999999", "1e3", "300", "-1", "70000", "5000000000"}[g.r.N(8)], d)
		}
		return raw(strconv.FormatInt(g.intIn(d.T), 10), d)
	case KUint:
		if g.dirt >= 2 && g.r.P(1, 40) {
			return raw([]string{"-1", "1.5", "99999999999999999999", "256", "65536", "4294967296"}[g.r.N(6)], d)
		}
		return raw(strconv.FormatUint(g.uintIn(d.T), 10), d)
	case KFloat:
		if g.dirt >= 2 && g.r.P(1, 40) {
			return raw([]string{"1e400", "-0", "1e-400", "123456789012345678901234567890", "1E5", "0.1e1"}[g.r.N(6)], d)
		}
		return raw(strconv.FormatFloat(g.float(), 'g', -1, 64), d)
	case KBool:
		return raw([]string{"true", "false"}[g.r.N(2)], d)
	case KStr:
		return jstr(g.str(), d)
	case KTime:
		return jstr(g.timeDoc(d.Layout), d)
	case KUUID:
		return jstr(g.uuid(), d)
	case KBytes:
		n := g.r.N(20)
		if d.T.Kind() == reflect.Array {
			n = d.T.Len()
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(g.r.U64())
		}
		if g.r.P(1, 6) {
			clear(b)
		}
		return jstr(base64.StdEncoding.EncodeToString(b), d)
	case KCust:
		return &J{k: 'o', td: d, keys: []string{"v", "s"}, kids: []*J{raw(strconv.Itoa(g.r.N(1000)), nil), jstr(g.str(), nil)}}
	case KPtr:
		if (depth > 4 || g.budget <= 0 || g.dirt > 0) && g.r.P(1, 6) {
			return null(d)
		}
		j := g.doc(d.Elem, depth)
		return j
	case KSlice, KArray:
		n := g.count(depth)
		if d.K == KArray {
			n = d.T.Len()
			if g.dirt > 0 && g.r.P(1, 4) {
				n = g.r.N(n + 2)
			}
		}
		j := &J{k: 'a', td: d}
		for i := 0; i < n; i++ {
			if g.dirt > 0 && g.r.P(1, 20) {
				j.kids = append(j.kids, null(d.Elem))
				continue
			}
			j.kids = append(j.kids, g.doc(d.Elem, depth+1))
		}
		return j
	case KMap:
		n := g.count(depth)
		j := &J{k: 'o', td: d}
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			k := g.key()
			if seen[k] && !(g.dirt >= 2 && g.r.P(1, 3)) {
				continue
			}
			seen[k] = true
			j.keys = append(j.keys, k)
			if g.dirt > 0 && g.r.P(1, 20) {
				j.kids = append(j.kids, null(d.Elem))
				continue
			}
			j.kids = append(j.kids, g.doc(d.Elem, depth+1))
		}
		return j
	case KStruct:
		j := &J{k: 'o', td: d}
		drop, nul := 0, 0
		if g.dirt > 0 {
			drop, nul = []int{0, 4, 2}[g.r.N(3)], []int{0, 0, 6, 12}[g.r.N(4)]
		}
		one, two := g.sparse(len(d.Fields))
		for i := range d.Fields {
			f := &d.Fields[i]
			if one >= 0 && i != one && i != two && !f.Req {
				continue
			}
			if drop > 0 && g.r.P(1, drop) && (!f.Req || g.r.P(1, 15)) {
				continue
			}
			if deepRec(f.TD, d) && (depth > 3 || g.budget <= 0) && !f.Req {
				continue
			}
			if nul > 0 && g.r.P(1, nul) {
				j.keys = append(j.keys, f.JSON)
				j.kids = append(j.kids, null(f.TD))
				continue
			}
			j.keys = append(j.keys, f.JSON)
			j.kids = append(j.kids, g.doc(f.TD, depth+1))
		}
		if g.dirt >= 2 && g.r.P(1, 25) || g.extra > 0 && g.r.P(1, g.extra) {
			j.keys = append(j.keys, "unknown_"+strconv.Itoa(g.r.N(5)))
			j.kids = append(j.kids, g.junk(2))
		}
		if g.dirt >= 2 && len(j.keys) > 0 && g.r.P(1, 40) {
			i := g.r.N(len(j.keys))
			j.keys = append(j.keys, j.keys[i])
			j.kids = append(j.kids, j.kids[i])
		}
		if g.r.P(1, 3) {
			for i := len(j.keys) - 1; i > 0; i-- {
				k := g.r.N(i + 1)
				j.keys[i], j.keys[k] = j.keys[k], j.keys[i]
				j.kids[i], j.kids[k] = j.kids[k], j.kids[i]
			}
		}
		return j
	}
	return null(d)
}

// sparse picks the one or two members, of n, that are the only ones set; mostly none.
func (g *gen) sparse(n int) (int, int) {
	if n < 2 || !g.r.P(1, 8) {
		return -1, -1
	}
	one := g.r.N(n)
	if g.r.P(1, 3) {
		one = n - 1
	}
	return one, g.r.N(n)
}

// deepRec: is the field's type (through containers) a struct again?
func deepRec(d, owner *TD) bool {
	for d != nil && (d.K == KPtr || d.K == KSlice || d.K == KMap || d.K == KArray) {
		d = d.Elem
	}
	return d != nil && d.K == KStruct
}

func (g *gen) uuid() string {
	b := make([]byte, 16)
	if !g.r.P(1, 6) {
		for i := range b {
			b[i] = byte(g.r.U64())
		}
	}
	h := hex.EncodeToString(b)
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

func (g *gen) junk(depth int) *J {
	switch n := g.r.N(8); {
	case n == 0:
		return raw("null", nil)
	case n == 1:
		return raw("true", nil)
	case n == 2:
		return raw(strconv.Itoa(g.r.N(1e6)-500000), nil)
	case n == 3 || depth <= 0:
		return jstr(g.str(), nil)
	case n <= 5:
		j := &J{k: 'a'}
		for i := g.r.N(4); i > 0; i-- {
			j.kids = append(j.kids, g.junk(depth-1))
		}
		return j
	default:
		j := &J{k: 'o'}
		for i := g.r.N(4); i > 0; i-- {
			j.keys = append(j.keys, g.key())
			j.kids = append(j.kids, g.junk(depth-1))
		}
		return j
	}
}

// wrong draws something of a kind that d can never take.
func (g *gen) wrong(d *TD) *J {
	for d.K == KPtr {
		d = d.Elem
	}
	obj := &J{k: 'o', td: d, keys: []string{"a"}, kids: []*J{raw("1", nil)}}
	arr := &J{k: 'a', td: d, kids: []*J{raw("1", nil)}}
	str, num, tru := jstr("zz", d), raw("12", d), raw("true", d)
	pick := func(js ...*J) *J { return js[g.r.N(len(js))] }
	switch d.K {
	case KInt:
		return pick(obj, arr, tru, str, raw("1.5", d), raw("1e99", d))
	case KUint:
		return pick(obj, arr, tru, str, raw("1.5", d), raw("-1", d))
	case KFloat:
		return pick(obj, arr, tru, str)
	case KBool:
		return pick(obj, arr, str, num)
	case KStr:
		return pick(obj, arr, tru, num)
	case KUUID:
		u := g.uuid()
		at := g.r.N(len(u))
		return pick(obj, arr, tru, num, str, jstr("", d), jstr(u[:at], d), jstr(u[:at]+"x"+u[at+1:], d), jstr(u+"0", d))
	case KTime:
		return pick(obj, arr, tru, num, str, jstr("2021-02-30T11:00:00Z", d), jstr("2021-13-01T11:00:00Z", d), jstr("", d))
	case KBytes:
		return pick(obj, arr, tru, num, str)
	case KStruct, KMap, KCust:
		return pick(arr, tru, num, str)
	case KSlice, KArray:
		return pick(obj, tru, num, str)
	}
	return num
}

// render writes the document; ws adds white space and escapes.
func (g *gen) render(j *J) []byte {
	var b []byte
	fancy := g.r.P(1, 4)
	ws := func() {
		if fancy && g.r.P(1, 4) {
			b = append(b, " \t\n\r"[g.r.N(4)])
		}
	}
	var w func(j *J)
	w = func(j *J) {
		switch j.k {
		case 'r':
			b = append(b, j.s...)
		case 's':
			b = g.quote(b, j.s, fancy)
		case 'a':
			b = append(b, '[')
			for i, e := range j.kids {
				if i > 0 {
					b = append(b, ',')
				}
				ws()
				w(e)
				ws()
			}
			b = append(b, ']')
		case 'o':
			b = append(b, '{')
			for i, e := range j.kids {
				if i > 0 {
					b = append(b, ',')
				}
				ws()
				b = g.quote(b, j.keys[i], fancy)
				ws()
				b = append(b, ':')
				ws()
				w(e)
				ws()
			}
			b = append(b, '}')
		}
	}
	ws()
	w(j)
	ws()
	return b
}

func (g *gen) quote(b []byte, s string, fancy bool) []byte {
	b = append(b, '"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b = append(b, '\\', byte(r))
		case r == '\n':
			b = append(b, "\\n"...)
		case r == '\t':
			b = append(b, "\\t"...)
		case r < 0x20 || (fancy && g.r.P(1, 8) && r < 0x10000):
			b = append(b, fmt.Sprintf("\\u%04x", r)...)
		case fancy && r >= 0x10000:
			r -= 0x10000
			b = append(b, fmt.Sprintf("\\u%04x\\u%04x", 0xd800+r>>10, 0xdc00+r&0x3ff)...)
		default:
			b = append(b, string(r)...)
		}
	}
	return append(b, '"')
}

// document draws a rendered document of the given dirtiness; 3 adds damage to the bytes.
func document(td *TD, seed uint64, dirt int) []byte {
	g := newGen(seed, min(dirt, 2))
	if dirt >= 4 {
		g.dirt, g.extra, dirt = 1, 3, 0
	}
	b := g.render(g.doc(td, 0))
	if dirt >= 3 {
		b = damage(g.r, b)
	}
	return b
}

// damage applies what a bad channel or a hostile sender does to bytes.
func damage(r *simrt.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + r.N(3); n > 0; n-- {
		if len(b) == 0 {
			return b
		}
		i := r.N(len(b))
		switch r.N(7) {
		case 0:
			b = b[:i]
		case 1:
			b[i] ^= byte(1) << r.N(8)
		case 2:
			const bad = "{}[],:\"\\0x\x00\xff nt-e."
			b[i] = bad[r.N(len(bad))]
		case 3:
			b = append(b[:i], b[min(len(b), i+1+r.N(4)):]...)
		case 4:
			k := r.N(len(b))
			if k < i {
				i, k = k, i
			}
			b = append(b[:k], append(append([]byte{}, b[i:k]...), b[k:]...)...)
		case 5:
			b = append(b[:i], append([]byte("{\"x\":"), b[i:]...)...)
		case 6:
			b = append(b, b[i:]...)
		}
	}
	if len(b) > 200000 {
		b = b[:200000]
	}
	return b
}

// ---- values ----

// fillVal builds a value of d in v as a user would: only what the codec can carry.
func (g *gen) fillVal(v reflect.Value, d *TD, depth int, f *Field) { g.fillVal1(v, d, depth, f, false) }

func (g *gen) fillVal1(v reflect.Value, d *TD, depth int, f *Field, lead bool) {
	g.budget--
	nonzero := f != nil && f.Def && f.Omit
	switch d.K {
	case KInt:
		v.SetInt(g.intIn(d.T))
	case KUint:
		v.SetUint(g.uintIn(d.T))
	case KFloat:
		x := g.float()
		if v.Kind() == reflect.Float32 {
			x = float64(float32(x))
			if math.IsInf(x, 0) {
				x = 1
			}
		}
		v.SetFloat(x)
	case KBool:
		v.SetBool(g.r.P(1, 2))
	case KStr:
		v.SetString(g.str())
	case KTime:
		t := g.timeVal(d.Layout)
		if g.r.P(1, 8) {
			t = time.Time{}
		}
		v.Set(reflect.ValueOf(t).Convert(d.T))
	case KUUID:
		if g.r.P(1, 6) {
			v.Set(reflect.Zero(d.T))
			return
		}
		for i := 0; i < 16; i++ {
			v.Index(i).SetUint(uint64(byte(g.r.U64())))
		}
	case KBytes:
		if v.Kind() == reflect.Slice {
			n := g.r.N(20)
			if n == 0 {
				v.Set(reflect.Zero(d.T))
				return
			}
			v.Set(reflect.MakeSlice(d.T, n, n))
		}
		if g.r.P(1, 6) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetUint(uint64(byte(g.r.U64())))
		}
	case KCust:
		v.FieldByName("V").SetInt(int64(g.r.N(2000) - 1000))
		v.FieldByName("S").SetString(g.str())
	case KPtr:
		if (!g.safe || !lead && !namedNil(d, f)) && g.mayNil(f, depth) {
			v.Set(reflect.Zero(d.T))
			return
		}
		p := reflect.New(d.T.Elem())
		g.fillVal(p.Elem(), d.Elem, depth, nil)
		v.Set(p.Convert(d.T))
	case KSlice:
		n := g.count(depth)
		if n == 0 && (f != nil && f.Req || g.safe && noEmpty(d, f)) {
			n = 1
		}
		if n == 0 {
			if g.r.P(1, 2) {
				v.Set(reflect.Zero(d.T))
			} else {
				v.Set(reflect.MakeSlice(d.T, 0, g.r.N(3)))
			}
			return
		}
		s := reflect.MakeSlice(d.T, n, n+g.r.N(3))
		for i := 0; i < n; i++ {
			g.fillVal(s.Index(i), d.Elem, depth+1, elemField)
		}
		v.Set(s)
	case KArray:
		for i := 0; i < v.Len(); i++ {
			g.fillVal(v.Index(i), d.Elem, depth+1, elemField)
		}
	case KMap:
		n := g.count(depth)
		if n == 0 && (f != nil && f.Req || g.safe && noEmpty(d, f)) {
			n = 1
		}
		if n == 0 && g.r.P(1, 2) {
			v.Set(reflect.Zero(d.T))
			return
		}
		m := reflect.MakeMap(d.T)
		for i := 0; i < n; i++ {
			e := reflect.New(d.T.Elem()).Elem()
			g.fillVal(e, d.Elem, depth+1, elemField)
			m.SetMapIndex(reflect.ValueOf(g.key()).Convert(d.T.Key()), e)
		}
		v.Set(m)
	case KStruct:
		lead := true // nothing has been written for certain yet
		one, two := g.sparse(len(d.Fields))
		for i := range d.Fields {
			fl := &d.Fields[i]
			fv := v.FieldByIndex(fl.Idx)
			first := lead && !fl.Omit
			if !fl.Omit && len(fl.Idx) == 1 {
				lead = false
			}
			rest := one >= 0 && i != one && i != two
			if rest && !fl.Req && !fl.Def && (fl.Omit || fl.TD.K != KPtr && fl.TD.K != KStruct && fl.TD.K != KArray && !(g.safe && noEmpty(fl.TD, fl))) {
				continue // nearly everything left zero
			}
			if deepRec(fl.TD, d) && (depth > 3 || g.budget <= 0) && !fl.Req {
				continue
			}
			if g.r.P(1, 5) && !fl.Req && !fl.Def && fl.TD.K != KPtr && !(g.safe && (noEmpty(fl.TD, fl) || fl.TD.K == KStruct || fl.TD.K == KArray)) {
				continue // left zero
			}
			g.fillVal1(fv, fl.TD, depth+1, fl, first)
		}
	}
	if nonzero && v.IsZero() {
		switch v.Kind() {
		case reflect.String:
			v.SetString("x")
		case reflect.Bool:
			v.SetBool(true)
		}
	}
}

var elemField = &Field{Req: true}

// noEmpty: containers that are encoded as null when empty and then not accepted
// (fields), or not noticed (a map at the top): known findings.
func noEmpty(d *TD, f *Field) bool {
	if d.T.Name() == "" || d.K != KSlice && d.K != KMap {
		return false
	}
	if f == nil {
		return d.K == KMap
	}
	return !f.Omit
}

// namedNil: named pointers that are encoded as null when nil, which is then not
// accepted: a known finding.
func namedNil(d *TD, f *Field) bool { return d.T.Name() != "" && f != nil && !f.Omit }

// hasTrigger: the value meets one of the known findings all the same, or it is one
// that does not honour its own tags (a required container that is nil is sent as null).
func hasTrigger(v reflect.Value, d *TD, f *Field) bool {
	switch d.K {
	case KPtr:
		return !v.IsNil() && hasTrigger(v.Elem(), d.Elem, elemField)
	case KSlice, KArray:
		if d.K == KSlice && v.Len() == 0 {
			return noEmpty(d, f)
		}
		for i := 0; i < v.Len(); i++ {
			if hasTrigger(v.Index(i), d.Elem, elemField) {
				return true
			}
		}
	case KMap:
		if v.Len() == 0 {
			return noEmpty(d, f)
		}
		for it := v.MapRange(); it.Next(); {
			if hasTrigger(it.Value(), d.Elem, elemField) {
				return true
			}
		}
	case KStruct:
		lead := true
		for i := range d.Fields {
			fl := &d.Fields[i]
			fv := v.FieldByIndex(fl.Idx)
			if fl.TD.K == KPtr && !fl.Omit && fv.IsNil() && (lead && len(d.Fields) > 1 || namedNil(fl.TD, fl)) {
				return true
			}
			if !fl.Omit && len(fl.Idx) == 1 {
				lead = false
			}
			switch fl.TD.K {
			case KPtr, KSlice, KMap, KBytes:
				if fl.Req && fv.Kind() != reflect.Array && fv.IsNil() {
					return true
				}
			}
			if hasTrigger(fv, fl.TD, fl) {
				return true
			}
		}
	}
	return false
}

// byteArrays: a base64 text for these that is longer than the array is a known finding.
func byteArrays(d *TD) bool { return byteArrays0(d, map[*TD]bool{}) }
func byteArrays0(d *TD, seen map[*TD]bool) bool {
	if d == nil || seen[d] {
		return false
	}
	seen[d] = true
	if d.K == KBytes && d.T.Kind() == reflect.Array {
		return true
	}
	for _, f := range d.Fields {
		if byteArrays0(f.TD, seen) {
			return true
		}
	}
	return byteArrays0(d.Elem, seen)
}

// mayNil: a required, defaulted or container element pointer is never nil.
func (g *gen) mayNil(f *Field, depth int) bool {
	if f == nil || f.Req || f.Def {
		return false
	}
	if depth > 4 || g.budget <= 0 {
		return true
	}
	return g.r.P(1, 4)
}

// ---- mutation in place: everything a user can reach is overwritten ----

// With keep set no slice gets shorter and nothing behind its end is touched.
func mutate(v reflect.Value, r *simrt.Rand, depth int, keep bool) {
	if depth > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(int8(r.U64())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(byte(r.U64())))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.N(1000)) / 8)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.String:
		v.SetString("mut" + strconv.Itoa(r.N(100)))
	case reflect.Ptr:
		if !v.IsNil() {
			mutate(v.Elem(), r, depth+1, keep)
			if r.P(1, 6) {
				v.Set(reflect.Zero(v.Type()))
			}
		}
	case reflect.Slice:
		n := v.Len()
		full := v
		if v.Cap() > n && !keep {
			full = v.Slice(0, v.Cap())
		}
		for i := 0; i < full.Len() && i < 300; i++ {
			mutate(full.Index(i), r, depth+1, keep)
		}
		switch r.N(5) {
		case 0:
			if !keep {
				v.Set(v.Slice(0, r.N(n+1)))
			}
		case 1:
			if n > 0 && n < 1000 {
				v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			mutate(v.Index(i), r, depth+1, keep)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		ks := v.MapKeys()
		sortKeys(ks)
		for i, k := range ks {
			if r.P(1, 4) {
				v.SetMapIndex(k, reflect.Value{})
				continue
			}
			c := reflect.New(v.Type().Elem()).Elem()
			c.Set(v.MapIndex(k))
			mutate(c, r, depth+1, keep)
			v.SetMapIndex(k, c)
			_ = i
		}
		if len(ks) > 0 && r.P(1, 3) {
			v.SetMapIndex(reflect.ValueOf("mutkey").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
			if v.Type().Elem().Kind() == reflect.Ptr {
				v.SetMapIndex(reflect.ValueOf("mutkey").Convert(v.Type().Key()), reflect.Value{})
			}
		}
	case reflect.Struct:
		if v.Type().ConvertibleTo(timeT) {
			v.Set(reflect.ValueOf(time.Unix(int64(r.N(2000000000)), 0).UTC()).Convert(v.Type()))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.CanSet() {
				mutate(f, r, depth+1, keep)
			}
		}
	}
}

func sortKeys(ks []reflect.Value) {
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j].String() < ks[j-1].String(); j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
}

// ---- hostile reuse of recycled memory ----

func scribble(x any) {
	if b, ok := x.([]byte); ok {
		fillBytes(b[:cap(b)])
		return
	}
	v := reflect.ValueOf(x)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	if v.Type() == parserT {
		scribbleParser(v)
		return
	}
	scribbleTail(v.Elem(), 0)
}

func fillBytes(b []byte) {
	for i := range b {
		b[i] = "#SCRIBBLE~"[i%10]
	}
}

// scribbleTail overwrites the unused part of byte buffers inside a pooled struct.
func scribbleTail(v reflect.Value, depth int) {
	if depth > 3 {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Cap() > v.Len() {
			p := (*[]byte)(unsafe.Pointer(v.UnsafeAddr()))
			fillBytes((*p)[len(*p):cap(*p)])
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribbleTail(v.Field(i), depth+1)
		}
	}
}

// scribbleParser does to a recycled JSON parser what its next user does: its
// buffer is overwritten and its value nodes get other content.
func scribbleParser(v reflect.Value) {
	p := v.Elem()
	bf := p.FieldByName("b")
	if bf.IsValid() && bf.Kind() == reflect.Slice {
		b := (*[]byte)(unsafe.Pointer(bf.UnsafeAddr()))
		fillBytes((*b)[:cap(*b)])
	}
	c := p.FieldByName("c")
	for n := 0; n < 1000 && c.IsValid() && c.Kind() == reflect.Struct; n++ {
		if vs := c.FieldByName("vs"); vs.IsValid() && vs.Kind() == reflect.Slice {
			full := vs.Slice(0, vs.Cap())
			for i := 0; i < full.Len(); i++ {
				if s := full.Index(i).FieldByName("s"); s.IsValid() && s.Kind() == reflect.String {
					*(*string)(unsafe.Pointer(s.UnsafeAddr())) = "#HOSTILE#"
				}
			}
		}
		nx := c.FieldByName("nx")
		if !nx.IsValid() || nx.Kind() != reflect.Ptr || nx.IsNil() {
			break
		}
		c = nx.Elem()
	}
}

// staleProne: the type has slices whose elements are decoded in place, member by
// member; Reset leaves what lies behind their end as it is (known finding).
func staleProne(d *TD) bool { return staleProne0(d, map[*TD]bool{}) }
func staleProne0(d *TD, seen map[*TD]bool) bool {
	if d == nil || seen[d] {
		return false
	}
	seen[d] = true
	if d.K == KSlice {
		e := d.Elem
		for e.K == KSlice || e.K == KArray {
			e = e.Elem
		}
		if e.K == KStruct || e.K == KMap || e.K == KCust {
			return true
		}
	}
	for _, f := range d.Fields {
		if staleProne0(f.TD, seen) {
			return true
		}
	}
	return staleProne0(d.Elem, seen)
}
