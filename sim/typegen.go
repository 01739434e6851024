package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// Type corpora: Go source packages whose types are handed to the generator under
// test. They cover every field type and wrapping the generator supports, user
// supplied codecs, top-level containers, transit types, inlining, defaults,
// layouts, external packages, and random mixtures.

//go:embed supported.json
var supportedJSON []byte

const fastjsonPath = "github.com/valyala/fastjson"

type corpPkg struct {
	name  string
	files map[string]string // file name -> source; "t.go" is handed to the generator
	gen   []string          // files to generate from, in order
}

const helperTypes = `
type MyInt int32
type MyU64 uint64
type MyF32 float32
type MyStr string
type MyBool bool
type MyIntP *int32
type MyStrP *string

//json:json
type TagInt int64

//json:json
type TagStr string

//json:json
type TagBool bool

//json:json
type St struct {
	A int64  ` + "`json:\"a\"`" + `
	B string ` + "`json:\"b,omitempty\"`" + `
}

//json:json
type StSlice []St

//json:json
type IntSlice []int64

//json:json
type StrSlice []string
type USl []string
type UM map[string]int64

//json:json
type StrMap map[string]string

//json:json
type StMap map[string]St

//json:json
type StPMap map[string]*St

//json:json
type By []byte

//json:json
type Arr3 [3]int64

//json:json
type ArrB [4]byte

//json:json
type TTime time.Time

//json:json
type TUUID uuid.UUID

//json:json
type StT St
`

func fileHead(pkg string) string {
	return "package " + pkg + "\n\nimport (\n\t\"time\"\n\n\t\"github.com/google/uuid\"\n)\n\nvar _ time.Time\nvar _ uuid.UUID\n"
}

func supported() []string {
	var m map[string]string
	if err := json.Unmarshal(supportedJSON, &m); err != nil {
		panic(err)
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type prng struct{ s uint64 }

func (r *prng) u64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *prng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// matrix packages: every supported field type, plain and omitempty (and a share
// of them required), a handful per struct so that neighbours vary.
func matrixPkgs(nPkg, perStruct int) []corpPkg {
	sup := supported()
	r := &prng{s: 42}
	type fld struct{ t, tag string }
	var fs []fld
	for i, t := range sup {
		fs = append(fs, fld{t, ""}, fld{t, ",omitempty"})
		if i%3 == 0 {
			fs = append(fs, fld{t, ",required"})
		}
	}
	for i := len(fs) - 1; i > 0; i-- {
		j := r.n(i + 1)
		fs[i], fs[j] = fs[j], fs[i]
	}
	var pkgs []corpPkg
	per := (len(fs) + nPkg - 1) / nPkg
	for p := 0; p < nPkg; p++ {
		lo, hi := p*per, (p+1)*per
		if hi > len(fs) {
			hi = len(fs)
		}
		name := fmt.Sprintf("m%02d", p)
		var b strings.Builder
		b.WriteString(fileHead(name))
		b.WriteString(helperTypes)
		n := 0
		for i := lo; i < hi; i += perStruct {
			e := i + perStruct
			if e > hi {
				e = hi
			}
			fmt.Fprintf(&b, "\n//json:%s\ntype T%d struct {\n", []string{"json", "strict", "optional"}[n%3], n)
			for k, f := range fs[i:e] {
				fmt.Fprintf(&b, "\tF%d %s `json:\"f%d%s\"`\n", k, f.t, k, f.tag)
			}
			b.WriteString("}\n")
			n++
		}
		pkgs = append(pkgs, corpPkg{name: name, files: map[string]string{"t.go": b.String()}, gen: []string{"t.go"}})
	}
	return pkgs
}

// ---- user supplied codecs ----

const custTypes = `
//json:custom
type Cust struct {
	V int64  ` + "`json:\"v\"`" + `
	S string ` + "`json:\"s\"`" + `
}

//json:json
type Leaf struct {
	N  int64   ` + "`json:\"n\"`" + `
	C  Cust    ` + "`json:\"c\"`" + `
	CP *Cust   ` + "`json:\"cp,omitempty\"`" + `
}

//json:json
type Mid struct {
	Name string           ` + "`json:\"name\"`" + `
	L    Leaf             ` + "`json:\"l\"`" + `
	LP   *Leaf            ` + "`json:\"lp,omitempty\"`" + `
	LS   []Leaf           ` + "`json:\"ls,omitempty\"`" + `
	LPS  []*Leaf          ` + "`json:\"lps\"`" + `
	LM   map[string]Leaf  ` + "`json:\"lm\"`" + `
	LPM  map[string]*Leaf ` + "`json:\"lpm,omitempty\"`" + `
}

//json:strict
type Top struct {
	ID  string          ` + "`json:\"id\"`" + `
	M   Mid             ` + "`json:\"m\"`" + `
	MP  *Mid            ` + "`json:\"mp,omitempty\"`" + `
	MS  []Mid           ` + "`json:\"ms\"`" + `
	MPM map[string]*Mid ` + "`json:\"mpm\"`" + `
	End int64           ` + "`json:\"end,required\"`" + `
}

//json:json
type C1 struct {
	A   int32            ` + "`json:\"a,required\"`" + `
	C   Cust             ` + "`json:\"c\"`" + `
	Cs  []Cust           ` + "`json:\"cs\"`" + `
	CPs []*Cust          ` + "`json:\"cps,omitempty\"`" + `
	CM  map[string]Cust  ` + "`json:\"cm,omitempty\"`" + `
	CPM map[string]*Cust ` + "`json:\"cpm\"`" + `
	Z   string           ` + "`json:\"z,required\"`" + `
}

//json:json
type C2 struct {
	A   string    ` + "`json:\"a,required\"`" + `
	CO  Cust      ` + "`json:\"co,omitempty\"`" + `
	CP  *Cust     ` + "`json:\"cp,omitempty\"`" + `
	CC  [][]Cust  ` + "`json:\"cc\"`" + `
	CCP [][]*Cust ` + "`json:\"ccp,omitempty\"`" + `
	B   bool      ` + "`json:\"b,required\"`" + `
}

//json:json
type C3 struct {
	Mid ` + "`json:\",inline\"`" + `
	X   int64 ` + "`json:\"x\"`" + `
}

//json:json
type C4 struct {
	Leaf ` + "`json:\"leaf\"`" + `
	Y    int64 ` + "`json:\"y\"`" + `
}

//json:json
type CustSlice []Cust

//json:json
type CustMap map[string]Cust

//json:json
type CustPMap map[string]*Cust

//json:json
type TopMap map[string]Top

//json:json
type TopPMap map[string]*Mid

//json:json
type MidSlice []Mid

//json:json
type C5 struct {
	S  CustSlice   ` + "`json:\"s\"`" + `
	M  CustMap     ` + "`json:\"m\"`" + `
	PM CustPMap    ` + "`json:\"pm,omitempty\"`" + `
	T  TopPMap     ` + "`json:\"t,omitempty\"`" + `
	MS MidSlice    ` + "`json:\"ms,omitempty\"`" + `
	SS []CustSlice ` + "`json:\"ss\"`" + `
	E  string      ` + "`json:\"e,required\"`" + `
}
`

const custMethods = `package cust

import (
	"github.com/mailru/easyjson/jwriter"
	"github.com/valyala/fastjson"

	"vsimw/simrt"
)

// Hand-written codec of a user-supplied type; simrt.Fault decides whether it fails.

func (c *Cust) UnmarshalJSON(data []byte) error {
	var p fastjson.Parser
	v, err := p.ParseBytes(data)
	if err != nil {
		return err
	}
	return c.FillFromJSON(v)
}

func (c *Cust) FillFromJSON(v *fastjson.Value) error {
	if v.Type() == fastjson.TypeNull {
		return nil
	}
	if kind, err := simrt.Fault("fill"); kind != "" {
		return err
	}
	o, err := v.Object()
	if err != nil {
		return err
	}
	if x := o.Get("v"); x != nil {
		if c.V, err = x.Int64(); err != nil {
			return err
		}
	}
	if x := o.Get("s"); x != nil {
		b, err := x.StringBytes()
		if err != nil {
			return err
		}
		c.S = string(b)
	}
	return nil
}

func (c *Cust) MarshalJSON() ([]byte, error) {
	var w jwriter.Writer
	if err := c.MarshalTo(&w); err != nil {
		return nil, err
	}
	return w.BuildBytes()
}

func (c *Cust) MarshalTo(w *jwriter.Writer) error {
	if c == nil {
		w.RawString("null")
		return nil
	}
	w.RawString("{\"v\":")
	switch kind, err := simrt.Fault("marshal"); kind {
	case "werr":
		w.Error = err
		w.RawString("0}")
		return nil
	case "err":
		return err
	}
	w.Int64(c.V)
	w.RawString(",\"s\":")
	w.String(c.S)
	w.RawByte('}')
	return nil
}

func (c Cust) IsZero() bool { return c.V == 0 && c.S == "" }

func (c *Cust) Reset() { *c = Cust{} }
`

func custPkg() corpPkg {
	src := "package cust\n" + custTypes
	return corpPkg{name: "cust", files: map[string]string{"t.go": src, "methods.go": custMethods}, gen: []string{"t.go"}}
}

// custMixPkg: user-supplied parts at every place a struct can have, in small and in big structs.
func custMixPkg(name string, seed uint64) corpPkg {
	r := &prng{s: seed*2654435761 + 7}
	word := regexp.MustCompile(`\bSt\b`)
	var cs, sup []string
	for _, t := range supported() {
		sup = append(sup, t)
		if word.MatchString(t) {
			cs = append(cs, word.ReplaceAllString(t, "Cust"))
		}
	}
	var b strings.Builder
	b.WriteString(fileHead(name))
	b.WriteString(helperTypes)
	b.WriteString("\n//json:custom\ntype Cust struct {\n\tV int64 `json:\"v\"`\n\tS string `json:\"s\"`\n}\n")
	b.WriteString("\n//json:json\ntype CuList []Cust\n\n//json:json\ntype CuMap map[string]Cust\n\n//json:json\ntype CuPMap map[string]*Cust\n")
	cs = append(cs, "CuList", "CuMap", "CuPMap")
	var own []string
	wraps := []string{"%s", "*%s", "[]%s", "[]*%s", "map[string]%s", "map[string]*%s", "[][]%s", "[][]*%s"}
	at := 0
	for i, n := range []int{2, 3, 4, 5, 5, 6, 7, 9, 12, 17, 25, 33, 45, 66, 70, 129} {
		tn := fmt.Sprintf("Mix%d", n+100*i)
		fmt.Fprintf(&b, "\n//json:%s\ntype %s struct {\n", []string{"json", "strict", "optional"}[r.n(3)], tn)
		one := r.n(n) // at least this one
		for k := 0; k < n; k++ {
			t := sup[r.n(len(sup))]
			switch {
			case k == one || n < 30 && r.n(3) == 0 || r.n(12) == 0:
				t = cs[at%len(cs)]
				at++
			case len(own) > 0 && n < 30 && r.n(4) == 0:
				t = fmt.Sprintf(wraps[r.n(len(wraps))], own[r.n(len(own))])
			case n > 30 && r.n(3) > 0:
				t = basicNames[r.n(len(basicNames))]
			}
			tag := []string{"", "", ",omitempty", ",omitempty", ",required"}[r.n(5)]
			fmt.Fprintf(&b, "\tF%d %s `json:\"f%d%s\"`\n", k, t, k, tag)
		}
		b.WriteString("}\n")
		if n < 10 {
			own = append(own, tn)
		}
	}
	return corpPkg{name: name, files: map[string]string{"t.go": b.String(), "methods.go": strings.Replace(custMethods, "package cust\n", "package "+name+"\n", 1)}, gen: []string{"t.go"}}
}

var basicNames = []string{"int", "int64", "uint32", "string", "bool", "float64", "*string", "[]string", "map[string]int64"}

// ---- shapes: top-level containers, transit, inline, defaults, layouts, external ----

const extpSrc = `package extp

import "time"

type EInt int32
type EStr string

//json:json
type Ext struct {
	ID   int64   ` + "`json:\"id\"`" + `
	Name string  ` + "`json:\"name,omitempty\"`" + `
	L    []string ` + "`json:\"l,omitempty\"`" + `
}

//json:optional
type Ext2 struct {
	When time.Time        ` + "`json:\"when\"`" + `
	Sub  Ext              ` + "`json:\"sub\"`" + `
	SubP *Ext             ` + "`json:\"sub_p,omitempty\"`" + `
	M    map[string]int64 ` + "`json:\"m,omitempty\"`" + `
}

//json:json
type ESlice []Ext

//json:json
type EMap map[string]Ext

//json:optional
type Inl struct {
	P string ` + "`json:\"p\"`" + `
	Q int64  ` + "`json:\"q,omitempty\"`" + `
}

//json:optional
type Inl2 struct {
	R []int64 ` + "`json:\"r\"`" + `
	T *bool   ` + "`json:\"t,omitempty\"`" + `
}
`

const shapeSrc = `package shape

import (
	"time"

	"github.com/google/uuid"

	"vcorp/extp"
)

type Num int64
type Key string
type PInt *int32

//json:strict
type Base struct {
	A int64   ` + "`json:\"a\"`" + `
	B string  ` + "`json:\"b\"`" + `
	C float64 ` + "`json:\"c,omitempty\"`" + `
}

//json:strict
type Defaults struct {
	I32 int32   ` + "`json:\"i32\" default:\"32\"`" + `
	I64 int64   ` + "`json:\"i64\" default:\"-7\"`" + `
	U8  uint8   ` + "`json:\"u8\" default:\"8\"`" + `
	F   float64 ` + "`json:\"f\" default:\"1.5\"`" + `
	S   string  ` + "`json:\"s\" default:\"hello\"`" + `
	B   bool    ` + "`json:\"b\" default:\"true\"`" + `
	N   Num     ` + "`json:\"n\" default:\"5\"`" + `
	K   Key     ` + "`json:\"k\" default:\"key\"`" + `
	PI  *int32  ` + "`json:\"pi\" default:\"3\"`" + `
	PS  *string ` + "`json:\"ps\" default:\"pstr\"`" + `
	R   string  ` + "`json:\"r,required\"`" + `
}

//json:strict
type DefRef struct {
	X PInt  ` + "`json:\"x\" default:\"12\"`" + `
	Y *PInt ` + "`json:\"y\" default:\"13\"`" + `
	Z int64 ` + "`json:\"z\"`" + `
}

//json:strict
type Times struct {
	T1 time.Time   ` + "`json:\"t1\"`" + `
	T2 time.Time   ` + "`json:\"t2\" layout:\"2006-01-02\"`" + `
	T3 *time.Time  ` + "`json:\"t3,omitempty\"`" + `
	T4 *time.Time  ` + "`json:\"t4\" layout:\"2006-01-02T15:04:05Z07:00\"`" + `
	TS []time.Time ` + "`json:\"ts\"`" + `
	U1 uuid.UUID   ` + "`json:\"u1\"`" + `
	U2 *uuid.UUID  ` + "`json:\"u2,omitempty\"`" + `
}

//json:json
type Inline struct {
	Base ` + "`json:\",inline\"`" + `
	X    string ` + "`json:\"x,required\"`" + `
}

//json:json
type InlineExt struct {
	extp.Inl  ` + "`json:\",inline\"`" + `
	extp.Inl2 ` + "`json:\",inline\"`" + `
	W         int64 ` + "`json:\"w\"`" + `
}

//json:json
type Inject struct {
	Base ` + "`json:\"base,omitempty\"`" + `
	Y    bool ` + "`json:\"y\"`" + `
}

//json:strict
type Tree struct {
	Name string           ` + "`json:\"name\"`" + `
	Kids []Tree           ` + "`json:\"kids,omitempty\"`" + `
	PK   []*Tree          ` + "`json:\"pk,omitempty\"`" + `
	L    *Tree            ` + "`json:\"l,omitempty\"`" + `
	M    map[string]*Tree ` + "`json:\"m,omitempty\"`" + `
}

//json:json
type ExtUse struct {
	A  extp.Ext             ` + "`json:\"a\"`" + `
	B  *extp.Ext2           ` + "`json:\"b,omitempty\"`" + `
	C  []extp.Ext           ` + "`json:\"c\"`" + `
	D  []*extp.Ext          ` + "`json:\"d,omitempty\"`" + `
	E  map[string]extp.Ext  ` + "`json:\"e\"`" + `
	F  map[string]*extp.Ext ` + "`json:\"f,omitempty\"`" + `
	G  extp.EInt            ` + "`json:\"g\"`" + `
	H  extp.EStr            ` + "`json:\"h,omitempty\"`" + `
	J  extp.ESlice          ` + "`json:\"j,omitempty\"`" + `
	KK extp.EMap            ` + "`json:\"kk,omitempty\"`" + `
}

//json:json
type TrBase Base

//json:json
type TrExt extp.Ext

//json:json
type TrExt2 extp.Ext2

//json:transit
type TrTransit struct {
	Base
}

//json:json
type TrInt int64

//json:json
type TrStr string

//json:json
type TrTime time.Time

//json:json
type TrUUID uuid.UUID

//json:json
type MapI map[string]int64

//json:json
type MapS map[string]string

//json:json
type MapB map[string]Base

//json:json
type MapPB map[string]*Base

//json:json
type MapE map[string]extp.Ext

//json:json
type MapPE map[string]*extp.Ext

//json:json
type MapK map[Key]Num

//json:json
type MapTree map[string]Tree

//json:json
type SlI []int64

//json:json
type SlS []string

//json:json
type SlB []Base

//json:json
type SlE []extp.Ext

//json:json
type SlES []extp.EStr

//json:json
type SlTree []Tree

//json:json
type SlT []time.Time

//json:json
type Ar3 [3]int64

//json:json
type Ar2T [2]time.Time

//json:json
type Ar2S [2]string

//json:json
type Bytes []byte

//json:json
type Bytes8 [8]byte

//json:json
type Holder struct {
	By  Bytes            ` + "`json:\"by\"`" + `
	B8  Bytes8           ` + "`json:\"b8\"`" + `
	MI  MapI             ` + "`json:\"mi\"`" + `
	MB  MapB             ` + "`json:\"mb,omitempty\"`" + `
	SB  SlB              ` + "`json:\"sb\"`" + `
	SI  SlI              ` + "`json:\"si,omitempty\"`" + `
	A3  Ar3              ` + "`json:\"a3\"`" + `
	TI  TrInt            ` + "`json:\"ti\"`" + `
	MK  map[Key]Base     ` + "`json:\"mk,omitempty\"`" + `
	MF  map[Key]float32  ` + "`json:\"mf\"`" + `
	MU  map[Key]*uint16  ` + "`json:\"mu\"`" + `
	MBo map[Key]bool     ` + "`json:\"mbo,omitempty\"`" + `
}
`

// odd: the constructs that the matrix does not produce (empty structs, encode-only and decode-only
// types, untagged elements, renamed imports, layouts by name, fixed byte arrays, names that get in
// the way of inlining, unusual member names).
const exoSrc = `package exo

import "time"

const Stamp = "2006-01-02 15:04:05"

//json:json
type Leaf struct {
	N int64  ` + "`json:\"n\"`" + `
	S string ` + "`json:\"s,omitempty\"`" + `
}

//json:json
type Pin struct {
	Leaf Leaf      ` + "`json:\"leaf\"`" + `
	Pos  int64     ` + "`json:\"pos,omitempty\"`" + `
	When time.Time ` + "`json:\"when\"`" + `
}

//json:json
type Kick struct {
	Kick string ` + "`json:\"kick\"`" + `
	P    int64  ` + "`json:\"p\"`" + `
}
`

const oddSrc = `package odd

import (
	"time"

	"vcorp/exo"
	xo "vcorp/exo"
)

const Stamp = "2006-01-02T15:04:05Z07:00"

type U64 uint64

type Elem struct {
	A int64  ` + "`json:\"a\"`" + `
	B string ` + "`json:\"b,omitempty\"`" + `
}

//json:json
type T8 int8

//json:json
type TU8 uint8

//json:json
type TU64 uint64

//json:json
type TF32 float32

//json:json
type TF64 float64

//json:json
type TB bool

//json:json
type Empty struct {
}

//json:strict
type EmptyS struct {
}

//json:strict
type Elems []Elem

//json:json
type Layouts struct {
	A time.Time  ` + "`json:\"a\" layout:\"time.RFC1123Z\" sim:\"Mon, 02 Jan 2006 15:04:05 -0700\"`" + `
	B time.Time  ` + "`json:\"b\" layout:\"Mon, 02 Jan 2006 15:04:05 -0700\"`" + `
	C *time.Time ` + "`json:\"c,omitempty\" layout:\"time.RFC3339\" sim:\"2006-01-02T15:04:05Z07:00\"`" + `
	D time.Time  ` + "`json:\"d,omitempty\" layout:\"time.DateTime\" sim:\"2006-01-02 15:04:05\"`" + `
	E time.Time  ` + "`json:\"e,required\" layout:\"time.RFC3339Nano\" sim:\"2006-01-02T15:04:05.999999999Z07:00\"`" + `
	F *time.Time ` + "`json:\"f\" layout:\"02.01.2006\"`" + `
	G time.Time  ` + "`json:\"g\" layout:\" 2006-01-02 \"`" + `
	H *time.Time ` + "`json:\"h,omitempty\" layout:\"02 \\\"Jan\\\" 2006\"`" + `
	I time.Time  ` + "`json:\"i\" layout:\"\\\"Jan\\\" 2006 \\\\ 02\"`" + `
}

//json:json
type Days struct {
	A []time.Time          ` + "`json:\"a\" layout:\"2006-01-02\"`" + `
	D [2]time.Time         ` + "`json:\"d\" layout:\"2006-01-02\"`" + `
}

//json:json
type Fix4 [4]byte

//json:json
type HoldFix struct {
	F  Fix4     ` + "`json:\"f\"`" + `
	E  Empty    ` + "`json:\"e\"`" + `
	EP *Empty   ` + "`json:\"ep,omitempty\"`" + `
	ES []Empty  ` + "`json:\"es\"`" + `
	EM map[string]Empty ` + "`json:\"em,omitempty\"`" + `
	T8 TU8      ` + "`json:\"t8\"`" + `
	T9 *TU64    ` + "`json:\"t9,omitempty\"`" + `
	TF []TF64   ` + "`json:\"tf\"`" + `
}

//json:json
type Pinned struct {
	exo.Pin ` + "`json:\",inline\"`" + `
	Z       int64 ` + "`json:\"z\"`" + `
}

//json:json
type KickX struct {
	exo.Kick ` + "`json:\"kk,inline\"`" + `
	Z        int64 ` + "`json:\"z\"`" + `
}

//json:json
type Inner struct {
	Inner string ` + "`json:\"inner\"`" + `
	Q     int64  ` + "`json:\"q\"`" + `
}

//json:json
type KickI struct {
	Inner ` + "`json:\"inn,inline\"`" + `
	Z     int64 ` + "`json:\"z\"`" + `
}

//json:json
type Named struct {
	P xo.Pin ` + "`json:\"p,inline\"`" + `
	Q Inner  ` + "`json:\"q,inline\"`" + `
	Z int64  ` + "`json:\"z\"`" + `
}

//json:json
type EmbX struct {
	xo.Pin ` + "`json:\"pin\"`" + `
	Z      int64 ` + "`json:\"z\"`" + `
}

//json:encode
type OnlyEnc struct {
	A int64 ` + "`json:\"a\"`" + `
	E Elems ` + "`json:\"e,omitempty\"`" + `
}

//json:decode
type OnlyDec struct {
	A int64 ` + "`json:\"a,required\"`" + `
	E Elems ` + "`json:\"e,omitempty\"`" + `
}

//json:json
type TrPin xo.Pin

//json:json
type Names struct {
	C string ` + "`json:\"жук,omitempty\"`" + `
	D string ` + "`json:\"x y\"`" + `
	E int64  ` + "`json:\"e-1.f\"`" + `
	F int64  ` + "`json:\"Ключ/日本\"`" + `
}

//json:json
type Defs struct {
	A int16    ` + "`json:\"a\" default:\"-3\"`" + `
	T *float64 ` + "`json:\"t\" default:\"1.25\"`" + `
	U *bool    ` + "`json:\"u\" default:\"true\"`" + `
	V U64      ` + "`json:\"v\" default:\"9\"`" + `
	W *U64     ` + "`json:\"w\" default:\"10\"`" + `
}
`

// wide: encoded size far beyond the writer's chunk sizes
func wideSrc() string {
	var b strings.Builder
	b.WriteString(fileHead("wide") + "\n//json:json\ntype Row struct {\n\tID int64 `json:\"id\"`\n\tText string `json:\"text\"`\n\tTags []string `json:\"tags,omitempty\"`\n}\n")
	b.WriteString("\n//json:json\ntype Table struct {\n\tRows []Row `json:\"rows\"`\n\tIdx map[string]Row `json:\"idx,omitempty\"`\n\tRaw []byte `json:\"raw,omitempty\" sim:\"bytes\"`\n\tNote string `json:\"note\"`\n}\n")
	ts := []string{"string", "int64", "float64", "bool", "[]string", "map[string]string", "*string", "uint32", "Row", "*Row", "[]Row"}
	for _, w := range []struct {
		name, rule string
		n          int
	}{{"Wide", "strict", 48}, {"Broad", "json", 72}, {"Vast", "strict", 135}} {
		fmt.Fprintf(&b, "\n//json:%s\ntype %s struct {\n", w.rule, w.name)
		for i := 0; i < w.n; i++ {
			tag := ""
			if i%3 == 1 {
				tag = ",omitempty"
			}
			fmt.Fprintf(&b, "\tF%02d %s `json:\"field_%02d%s\"`\n", i, ts[i%len(ts)], i, tag)
		}
		b.WriteString("}\n")
	}
	// many fields that are mostly empty, left out as a whole when all of them are
	ts = []string{"string", "int64", "*bool", "float64", "[]string", "map[string]int64", "*string", "uint32", "time.Time", "Row", "uuid.UUID", "[]Row", "*Row", "bool"}
	for _, n := range []int{33, 70, 140} {
		fmt.Fprintf(&b, "\n//json:json\ntype Thin%d struct {\n", n)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "\tF%02d %s `json:\"f%02d,omitempty\"`\n", i, ts[i%len(ts)], i)
		}
		b.WriteString("}\n")
		fmt.Fprintf(&b, "\n//json:strict\ntype Holds%[1]d struct {\n\tA Thin%[1]d `json:\"a,omitempty\"`\n\tB *Thin%[1]d `json:\"b,omitempty\"`\n\tC []Thin%[1]d `json:\"c,omitempty\"`\n\tD int64 `json:\"d\"`\n}\n", n)
	}
	b.WriteString("\n//json:json\ntype Tables []Table\n")
	return b.String()
}

func benchSrc() string {
	return `package bench

//json:optional
type SearchMetadata struct {
	CompletedIn float64 ` + "`json:\"completed_in\"`" + `
	Count       int     ` + "`json:\"count\"`" + `
	MaxID       int64   ` + "`json:\"max_id\"`" + `
	MaxIDStr    string  ` + "`json:\"max_id_str\"`" + `
	Query       string  ` + "`json:\"query\"`" + `
}

//json:optional
type Hashtag struct {
	Indices []int  ` + "`json:\"indices\"`" + `
	Text    string ` + "`json:\"text\"`" + `
}

//json:optional
type Entities struct {
	Hashtags     []Hashtag ` + "`json:\"hashtags\"`" + `
	Urls         []*string ` + "`json:\"urls\"`" + `
	UserMentions []*string ` + "`json:\"user_mentions\"`" + `
}

//json:optional
type User struct {
	Name     string   ` + "`json:\"name\"`" + `
	Location *string  ` + "`json:\"location\"`" + `
	Ent      Entities ` + "`json:\"entities\"`" + `
	Verified bool     ` + "`json:\"verified\"`" + `
	Lang     string   ` + "`json:\"lang,omitempty\"`" + `
}

//json:optional
type Status struct {
	Coordinates *string  ` + "`json:\"coordinates\"`" + `
	Favorited   bool     ` + "`json:\"favorited\"`" + `
	CreatedAt   string   ` + "`json:\"created_at\"`" + `
	Entities    Entities ` + "`json:\"entities\"`" + `
	User        User     ` + "`json:\"user\"`" + `
	Contribs    []*string ` + "`json:\"contributors\"`" + `
	ID          int64    ` + "`json:\"id\"`" + `
}

//json:optional
type LargeStruct struct {
	SearchMetadata SearchMetadata ` + "`json:\"search_metadata\"`" + `
	Statuses       []Status       ` + "`json:\"statuses\"`" + `
}

//json:optional
type XLStruct struct {
	Data []LargeStruct ` + "`json:\"data\"`" + `
}
`
}

// randomPkg draws struct types of mixed fields, nested into one another.
// stylePkg: declarations as different authors write them: names of types, fields and members, sizes,
// the order of tags, the way the directive is written, grouping, files that use each other's types.
func stylePkg(name string, seed uint64, structs int) corpPkg {
	r := &prng{s: seed*104729 + 31}
	sup := supported()
	words := []string{"id", "user", "name", "value", "data", "key", "err", "result", "buf", "w", "v", "s", "o", "item", "list", "count", "type", "is_ok", "created_at", "x", "y", "len", "writer", "json", "total", "URL", "http", "i18n", "ab", "abc", "abcd", "абв", "größe", "名前", "p", "q", "zz", "n", "func", "map", "nil"}
	camel := func(w string) string {
		out, up := "", true
		for _, c := range w {
			switch {
			case c == '_' || c == '-' || c == '.' || c == ' ' || c == '/':
				up = true
				continue
			case up && c >= 'a' && c <= 'z':
				c -= 32
			}
			up = false
			out += string(c)
		}
		return out
	}
	goStyle, jsStyle := r.n(5), r.n(9)
	usedTypes := map[string]bool{}
	for _, l := range strings.Split(helperTypes, "\n") {
		if f := strings.Fields(l); len(f) > 1 && f[0] == "type" {
			usedTypes[f[1]] = true
		}
	}
	title := []string{"Order", "OrderItem", "OrderItems", "User", "UserID", "URLSet", "Node", "Doc", "Document", "Page", "Group", "GroupOf", "A", "AB", "ABC", "Err", "Error2", "Value", "Values", "Long", "Very_Long", "X1", "X11", "Reader", "Writer2", "Parser"}
	typeName := func() string {
		for try := 0; ; try++ {
			n := title[r.n(len(title))]
			switch r.n(6) {
			case 0:
				n += title[r.n(len(title))]
			case 1:
				n += strings.Repeat("Xy", 1+r.n(24))
			case 2:
				n = strings.ToLower(n[:1]) + n[1:] + "T"
			}
			if try > 20 {
				n += fmt.Sprint(try)
			}
			if !usedTypes[n] {
				usedTypes[n] = true
				return n
			}
		}
	}
	var plain []string // types that need no declaration
	for _, t := range sup {
		if !strings.ContainsAny(strings.ReplaceAll(strings.ReplaceAll(t, "time.Time", ""), "uuid.UUID", ""), "ABCDEFGHIJKLMNOPQRSTUVWXYZ") {
			plain = append(plain, t)
		}
	}
	var done, done2 []string
	decl := func(grouped, second bool) string {
		sup, own := sup, &done
		if second { // a type of the other file can be used as an element only
			sup, own = plain, &done2
		}
		var b strings.Builder
		nf := []int{0, 1, 1, 2, 3, 4, 5, 6, 8, 11, 16, 21, 26, 33, 47}[r.n(15)]
		if r.n(24) == 0 {
			nf = 65 + r.n(70)
		}
		tn := typeName()
		tag := []string{"json", "strict", "optional", "strict,optional", "JSON", "Strict"}[r.n(6)]
		dir := []string{"//json:" + tag, "// json:" + tag, "// " + tn + " is a type.\n//json:" + tag, "//json:" + tag + "\n// that is all", "//   json: " + tag, "//json:optional\n//json:" + tag}[r.n(6)]
		kw := "type "
		if grouped {
			kw = ""
		}
		fmt.Fprintf(&b, "\n%s\n%s%s struct {\n", dir, kw, tn)
		goNames, jsNames := map[string]bool{}, map[string]bool{}
		allTag := r.n(8)
		for k := 0; k < nf; k++ {
			t := sup[r.n(len(sup))]
			switch {
			case nf > 20 && r.n(4) > 0:
				t = []string{"string", "int64", "bool", "float64", "*string", "[]string", "uint8"}[r.n(7)]
			case second && len(done) > 0 && r.n(5) == 0:
				t = fmt.Sprintf([]string{"[]%s", "[]*%s", "map[string]%s"}[r.n(3)], done[r.n(len(done))])
			case len(*own) > 0 && r.n(4) == 0:
				wraps := []string{"%s", "*%s", "[]%s", "[]*%s", "map[string]%s", "map[string]*%s", "[][]%s", "map[MyStr]%s"}
				if second {
					wraps = wraps[:7]
				}
				t = fmt.Sprintf(wraps[r.n(len(wraps))], (*own)[r.n(len(*own))])
			case r.n(12) == 0:
				t = fmt.Sprintf("[%d]%s", []int{0, 1, 2, 4, 5, 8, 16, 17, 32}[r.n(9)], []string{"int64", "string", "bool", "float64"}[r.n(4)])
			}
			gn, jn := "", ""
			for try := 0; gn == "" || goNames[gn] || jsNames[jn]; try++ {
				w := words[r.n(len(words))]
				if r.n(3) == 0 {
					w += "_" + words[r.n(len(words))]
				}
				if try > 3 {
					w += fmt.Sprint(r.n(1000))
				}
				gn = camel(w)
				if c := gn[0]; c >= 128 && !strings.HasPrefix(w, "абв") || c >= '0' && c <= '9' {
					gn = "F" + gn
				}
				if strings.HasPrefix(gn, "абв") {
					gn = "Абв" + gn[len("абв"):]
				}
				switch goStyle {
				case 1:
					gn = strings.Repeat("Field", 1+r.n(9)) + gn
				case 2:
					gn += "_" + fmt.Sprint(k)
				case 3:
					gn = fmt.Sprintf("%c%d", 'A'+r.n(26), k)
				}
				switch jsStyle {
				case 0:
					jn = w
				case 1:
					jn = gn
				case 2:
					jn = strings.ReplaceAll(w, "_", "-")
				case 3:
					jn = strings.ToUpper(w)
				case 4:
					jn = strings.ReplaceAll(w, "_", ".") + []string{"", " ", "/x", ":y", "[0]", "$", "@id", "#"}[r.n(8)]
				case 5:
					jn = strings.Repeat(w+"_", 1+r.n(20)) + "end"
				case 6:
					jn = strings.Repeat("a", 1+r.n(30)) + []string{"", "b"}[r.n(2)]
				case 7:
					jn = fmt.Sprint(k, w)
				default:
					jn = strings.ToLower(gn[:1]) + gn[1:]
					if gn[0] >= 128 {
						jn = gn
					}
				}
				if try > 12 { // all taken
					gn, jn = gn+fmt.Sprint("N", try), jn+fmt.Sprint(try)
				}
			}
			goNames[gn], jsNames[jn] = true, true
			tag := []string{"", "", ",omitempty", ",omitempty", ",required"}[r.n(5)]
			if allTag < 2 {
				tag = []string{",omitempty", ",required"}[allTag]
			}
			more := []string{"", "", "", " db:\"x\"", " validate:\"min=1,max=2\""}[r.n(5)]
			if r.n(6) == 0 {
				fmt.Fprintf(&b, "\t// %s is a field\n", gn)
			}
			if r.n(6) == 0 {
				fmt.Fprintf(&b, "\t%s %s `xml:\"%s\" json:\"%s%s\"%s` // %s\n", gn, t, gn, jn, tag, more, gn)
			} else {
				fmt.Fprintf(&b, "\t%s %s `json:\"%s%s\"%s`\n", gn, t, jn, tag, more)
			}
		}
		b.WriteString("}\n")
		*own = append(*own, tn)
		return b.String()
	}
	var one, two strings.Builder
	one.WriteString(fileHead(name))
	one.WriteString(helperTypes)
	two.WriteString(fileHead(name))
	for i := 0; i < structs; i++ {
		w, second := &one, r.n(3) == 0
		if second {
			w = &two
		}
		if r.n(4) == 0 {
			w.WriteString("\ntype (")
			for g := 1 + r.n(3); g > 0; g-- {
				w.WriteString(decl(true, second))
			}
			w.WriteString(")\n")
			continue
		}
		w.WriteString(decl(false, second))
	}
	return corpPkg{name: name, files: map[string]string{"t.go": one.String(), "u.go": two.String()}, gen: []string{"t.go", "u.go"}}
}

func randomPkg(name string, seed uint64, structs int) corpPkg {
	r := &prng{s: seed*7919 + 17}
	sup := supported()
	var b strings.Builder
	b.WriteString(fileHead(name))
	b.WriteString(helperTypes)
	wraps := []string{"%s", "*%s", "[]%s", "[]*%s", "map[string]%s", "map[string]*%s", "[][]%s", "[][]*%s"}
	for i := 0; i < structs; i++ {
		fmt.Fprintf(&b, "\n//json:%s\ntype R%d struct {\n", []string{"json", "strict", "optional"}[r.n(3)], i)
		nf := 2 + r.n(9)
		for k := 0; k < nf; k++ {
			t := sup[r.n(len(sup))]
			if i > 0 && r.n(3) == 0 {
				t = fmt.Sprintf(wraps[r.n(len(wraps))], fmt.Sprintf("R%d", r.n(i)))
			}
			tag := []string{"", "", ",omitempty", ",omitempty", ",required"}[r.n(5)]
			fmt.Fprintf(&b, "\tF%d %s `json:\"f%d%s\"`\n", k, t, k, tag)
		}
		b.WriteString("}\n")
	}
	return corpPkg{name: name, files: map[string]string{"t.go": b.String()}, gen: []string{"t.go"}}
}

// kfSrc: declarations that only the probes of known findings use.
const kfSrc = `package kf

import "time"

//json:json
type Moments [2]time.Time

//json:json
type Period struct {
	At Moments ` + "`json:\"at,omitempty\"`" + `
	N  int64   ` + "`json:\"n\"`" + `
}

//json:json
type Visit struct {
	P Period ` + "`json:\"p,omitempty\"`" + `
	N int64  ` + "`json:\"n\"`" + `
}

type Ref *string

//json:json
type Note struct {
	N int64 ` + "`json:\"n\"`" + `
	R Ref   ` + "`json:\"r\"`" + `
}
`

func one(name, src string) corpPkg {
	return corpPkg{name: name, files: map[string]string{"t.go": src}, gen: []string{"t.go"}}
}

func corpora(seed uint64, thorough bool) []corpPkg {
	ps := []corpPkg{custPkg(), one("extp", extpSrc), one("exo", exoSrc), one("odd", oddSrc), one("shape", shapeSrc), one("wide", wideSrc()), one("bench", benchSrc()), one("kf", kfSrc), custMixPkg("cumix", 1)}
	ps = append(ps, matrixPkgs(14, 6)...)
	n := 2
	if thorough {
		n = 8
	}
	for i := 0; i < n; i++ {
		ps = append(ps, randomPkg(fmt.Sprintf("r%02d", i), seed*100+uint64(i), 8), custMixPkg(fmt.Sprintf("cm%02d", i), seed*100+uint64(i)+2))
	}
	for i := 0; i < 2*n+2; i++ {
		ps = append(ps, stylePkg(fmt.Sprintf("s%02d", i), seed*100+uint64(i), 10))
	}
	return ps
}
