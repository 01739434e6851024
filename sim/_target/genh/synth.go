package main

import (
	"fmt"
	"path"
	"strings"

	"vsimw/simrt"
)

// A seeded module: packages that use each other's types, declarations that are
// there twice (build tags), and everything else one finds in a source tree.

type synth struct {
	r     *simrt.Rand
	root  string
	mod   string
	files []File
	jobs  []Job
	model []ext // types other packages may use
	pkgs  []string
	alike bool   // the packages use the same names for different types
	via   string // a symbolic link the jobs reach the module by
}

type ext struct {
	dir, pkg, name string
	kind           string // struct, basic, slice, map
}

func (s *synth) put(p, d string) {
	s.files = append(s.files, File{P: path.Join(s.root, p), D: d})
}

func pick[T any](r *simrt.Rand, xs ...T) T { return xs[r.N(len(xs))] }

var basics = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string", "bool"}

var words = []string{"Order", "Item", "Person", "Place", "Event", "Tariff", "Account", "Token", "Shelf", "Route", "Batch", "Meter"}

func (s *synth) field(i int, local []string, exts []ext, alias map[string]string) string {
	r := s.r
	name := fmt.Sprintf("F%d", i)
	key := fmt.Sprintf("f_%d", i)
	opt := pick(r, "", "", ",omitempty", ",required")
	t := ""
	switch r.N(12) {
	case 0, 1:
		t = pick(r, basics...)
	case 2:
		t = "*" + pick(r, basics...)
		if opt == ",required" {
			opt = ""
		}
	case 3:
		t = "[]" + pick(r, basics[:5]...)
	case 4:
		t = "map[string]" + pick(r, "string", "int64", "bool", "float64")
	case 5:
		t = pick(r, "time.Time", "*time.Time")
	case 6, 7:
		if len(local) > 0 {
			t = pick(r, "", "*", "[]") + pick(r, local...)
		} else {
			t = "string"
		}
		opt = strings.ReplaceAll(opt, ",required", "")
	default:
		if len(exts) == 0 {
			t = "[]string"
			break
		}
		e := pick(r, exts...)
		q := e.pkg
		if a := alias[e.dir]; a != "" {
			q = a
		}
		pre := ""
		if e.kind == "struct" {
			pre = pick(r, "", "", "*", "[]")
		} else if e.kind == "basic" {
			pre = pick(r, "", "", "", "*")
		}
		t = pre + q + "." + e.name
		opt = strings.ReplaceAll(opt, ",required", "")
	}
	return fmt.Sprintf("\t%s %s `json:\"%s%s\"`\n", name, t, key, opt)
}

func (s *synth) file(pkg string, imports []string, body string) string {
	var b strings.Builder
	if s.r.P(1, 4) {
		b.WriteString("// Package " + pkg + " is part of the simulation.\n")
	}
	b.WriteString("package " + pkg + "\n\n")
	if len(imports) > 0 {
		b.WriteString("import (\n")
		for _, i := range imports {
			b.WriteString("\t" + i + "\n")
		}
		b.WriteString(")\n\n")
	}
	b.WriteString(body)
	return b.String()
}

// modelPkg declares types that others use.
func (s *synth) modelPkg(dir, pkg string) {
	r := s.r
	var b strings.Builder
	n := 0
	add := func(kind, decl string) {
		name := fmt.Sprintf("%s%d", pick(r, words...), n)
		if s.alike {
			name = fmt.Sprintf("%s%d", words[n], n)
		}
		n++
		b.WriteString(fmt.Sprintf(decl, name) + "\n\n")
		s.model = append(s.model, ext{dir, pkg, name, kind})
	}
	tagged := r.P(1, 2)
	tag := ""
	if tagged {
		tag = "//json:" + pick(r, "optional", "strict", "json") + "\n"
	}
	var local []string
	for i := 1 + r.N(2); i > 0; i-- {
		fs := ""
		for k := 0; k < 1+r.N(4); k++ {
			f := s.field(k, local, nil, nil)
			if strings.Contains(f, "time.") {
				f = fmt.Sprintf("\tF%d int `json:\"f_%d\"`\n", k, k)
			}
			fs += f
		}
		add("struct", tag+"type %s struct {\n"+strings.ReplaceAll(fs, "%", "%%")+"}")
		local = append(local, s.model[len(s.model)-1].name)
	}
	if r.P(2, 3) {
		add("basic", "type %s "+pick(r, "string", "int32", "uint8", "int64", "float64", "bool"))
	}
	if r.P(1, 3) {
		add("slice", tag+"type %s []"+pick(r, "string", "int64"))
	}
	if r.P(1, 3) {
		add("map", tag+"type %s map[string]"+pick(r, "string", "int64"))
	}
	f := pick(r, "types.go", "model.go", "a.go", "zz.go")
	s.put(path.Join(dir, f), s.file(pkg, nil, b.String()))
	s.pkgs = append(s.pkgs, dir)
	if tagged {
		s.job(dir, f, pkg)
	}
	// declarations that are there twice
	last := s.model[len(s.model)-1]
	switch r.N(5) {
	case 0:
		last.kind = "basic"
		last.name = "Kind" + fmt.Sprint(n)
		one, two := "linux", pick(r, "windows", "plan9", "arm64")
		s.put(path.Join(dir, "kind_"+one+".go"), s.file(pkg, nil, "type "+last.name+" "+pick(r, "string", "int64")+"\n"))
		s.put(path.Join(dir, "kind_"+two+".go"), s.file(pkg, nil, "type "+last.name+" "+pick(r, "uint8", "float64")+"\n"))
		s.model = append(s.model, last)
	case 1:
		s.put(path.Join(dir, "gen.go"), "//go:build ignore\n\npackage main\n\ntype "+last.name+" "+pick(r, "struct{ A int }", "string", "[]int")+"\n\nfunc main() {}\n")
	case 2:
		s.put(path.Join(dir, "x_test.go"), "package "+pkg+"_test\n\ntype "+last.name+" struct{ A int }\n")
	}
}

func (s *synth) job(dir, f, pkg string) {
	stem := strings.TrimSuffix(f, ".go")
	out := pick(s.r, f+".out.go", f+".out.go", stem+"_json.go", stem+"_gen.go", "zz_generated."+stem+".go", stem+".vj.go", "a_"+stem+".go")
	s.jobs = append(s.jobs, Job{In: path.Join(s.root, dir, f), Out: path.Join(s.root, dir, out)})
}

// apiPkg uses the types of other packages.
func (s *synth) apiPkg(dir, pkg string, files int) {
	r := s.r
	tn := 0
	var local []string
	for i := 0; i < files; i++ {
		// what this file imports
		var dirs []string
		seenName := map[string]bool{}
		var exts []ext
		alias := map[string]string{}
		for _, e := range s.model {
			if e.dir == dir || !r.P(3, 4) {
				continue
			}
			if _, ok := alias[e.dir]; !ok {
				a := ""
				if path.Base(e.dir) != e.pkg || seenName[e.pkg] || r.P(1, 5) {
					a = pick(r, "mm", "xm", "im", "mm") + fmt.Sprint(len(alias))
					if o := pick(r, "url", "log", "hash", "sql", "x", "p"); len(alias) == 0 && r.P(1, 4) {
						a = o
					}
				}
				seenName[e.pkg] = true
				alias[e.dir] = a
				dirs = append(dirs, e.dir)
			}
			exts = append(exts, e)
		}
		var b strings.Builder
		used := map[string]bool{}
		n := 1 + r.N(3)
		for k := 0; k < n; k++ {
			name := fmt.Sprintf("%s%d", pick(r, words...), tn)
			tn++
			tag := "//json:" + pick(r, "optional", "strict", "json", "strict,skip", "optional,unlimited") + "\n"
			switch r.N(7) {
			case 0:
				if len(exts) > 0 {
					e := pick(r, exts...)
					q := e.pkg
					if a := alias[e.dir]; a != "" {
						q = a
					}
					if e.kind == "struct" || e.kind == "basic" {
						b.WriteString("//json:json\ntype " + name + " []" + q + "." + e.name + "\n\n")
						used[e.dir] = true
						continue
					}
				}
				b.WriteString("//json:json\ntype " + name + " map[string]" + pick(r, "string", "int64") + "\n\n")
				continue
			case 1:
				b.WriteString("//json:json\ntype " + name + " []" + pick(r, "string", "int64", "bool") + "\n\n")
				continue
			}
			b.WriteString(tag + "type " + name + " struct {\n")
			fl := 1 + r.N(6)
			for x := 0; x < fl; x++ {
				f := s.field(x, local, exts, alias)
				b.WriteString(f)
				for d, a := range alias {
					q := a
					if q == "" {
						q = path.Base(d)
					}
					if strings.Contains(f, q+".") {
						used[d] = true
					}
				}
			}
			if r.P(2, 3) {
				for _, e := range exts {
					// a struct of another package, inlined: found by the package's name
					if e.kind == "struct" && alias[e.dir] == "" && path.Base(e.dir) == e.pkg {
						b.WriteString("\t" + e.pkg + "." + e.name + " `json:\",inline\"`\n")
						used[e.dir] = true
						break
					}
				}
			}
			b.WriteString("}\n\n")
			local = append(local, name)
		}
		var imps []string
		for _, d := range dirs {
			if used[d] || r.P(1, 6) {
				i := fmt.Sprintf("%q", s.mod+"/"+d)
				if a := alias[d]; a != "" {
					i = a + " " + i
				}
				imps = append(imps, i)
			}
		}
		if strings.Contains(b.String(), "time.") {
			imps = append(imps, `"time"`)
		}
		local = nil // types of one file are not visible to the generator in another
		f := pick(r, "api", "data", "types", "dto") + fmt.Sprint(i) + ".go"
		s.put(path.Join(dir, f), s.file(pkg, imps, b.String()))
		s.job(dir, f, pkg)
	}
	s.pkgs = append(s.pkgs, dir)
}

// noise puts things into the tree that have nothing to do with the job.
func (s *synth) noise() {
	r := s.r
	add := func(num int, f func()) {
		if r.P(num, 10) {
			f()
		}
	}
	any_ := func() string { return pick(r, s.pkgs...) }
	add(4, func() { s.put("README.md", "# about\n") })
	add(3, func() { s.put(".git/HEAD", "ref: refs/heads/main\n") })
	add(3, func() { s.put("vendor/example.test/dep/dep.go", "package dep\n\ntype Order0 struct{ A int }\n") })
	add(3, func() { s.put("testdata/x.go", "package testdata\n") })
	add(2, func() { s.put("_old/old.go", "package old\n\nfunc f() {}\n") })
	add(3, func() { s.put(path.Join(any_(), "doc.txt"), "nothing") })
	add(3, func() {
		s.put(path.Join(any_(), "helper_test.go"), "package "+path.Base(any_())+"_test\n\nfunc Help() {}\n")
	})
	add(2, func() { s.put("main.go", "package main\n\nfunc main() {}\n") })
	add(2, func() { s.files = append(s.files, File{P: path.Join(s.root, "empty", "dir"), M: true}) })
	if len(s.jobs) > 0 {
		j := pick(r, s.jobs...)
		for _, suf := range []string{".tmp", "~", ".bak", ".0.tmp", ".1.tmp", ".new", ".swp"} {
			if r.P(1, 8) {
				s.files = append(s.files, File{P: j.Out + suf, D: "do not touch " + suf})
			}
			if r.P(1, 12) {
				s.files = append(s.files, File{P: j.utils() + suf, D: "nor this " + suf})
			}
		}
	}
}

func newSynth(seed uint64, root string, small bool) *synth {
	r := simrt.NewRand(seed)
	s := &synth{r: r, root: root, alike: r.P(3, 5)}
	s.mod = pick(r, "example.test/m", "m", "corp.example/team/svc", "example.test/m-go/v2", "x.y/z")
	gm := "module " + s.mod + "\n\ngo 1.18\n"
	switch r.N(4) {
	case 0:
		gm = "// the module\n" + gm
	case 1:
		gm += "\nrequire (\n\tgithub.com/valyala/fastjson v1.6.3\n)\n"
	case 2:
		gm = "module \"" + s.mod + "\"\n"
	}
	s.put("go.mod", gm)
	type md struct{ dir, pkg string }
	cand := []md{{"model", "model"}, {"pkg/common", "common"}, {"internal/types", "dto"}, {"a/shared", "shared"}, {"b/shared", "shared"}, {"deep/er/still", "still"}, {"lib/uuid", "uuid"}, {"errors", "errors"}}
	n := 1 + r.N(3)
	if small {
		n = r.N(2)
	}
	off := r.N(len(cand))
	if r.P(2, 5) { // two of the same name
		off = 3
		if n < 2 {
			n = 2
		}
	}
	for i := 0; i < n; i++ {
		c := cand[(off+i)%len(cand)]
		s.modelPkg(c.dir, c.pkg)
	}
	apis := []md{{"api", "api"}, {"svc/http", "httpapi"}, {"cmd/tool", "main"}}
	off = r.N(len(apis))
	n = 1
	if !small && r.P(1, 3) {
		n = 2
	}
	for i := 0; i < n; i++ {
		c := apis[(off+i)%len(apis)]
		s.apiPkg(c.dir, c.pkg, 1+r.N(2))
	}
	if !small || r.P(1, 2) {
		s.noise()
	}
	if r.P(1, 9) {
		s.files = s.merged(s.broken(false))
	}
	s.habits()
	// the module may sit below another one, with a go.mod of its own
	if r.P(1, 6) {
		s.files = append(s.files, File{P: path.Join(path.Dir(s.root), "go.mod"), D: "module outer.test\n"},
			File{P: path.Join(path.Dir(s.root), "outer", "o.go"), D: "package model\n\ntype Order0 int\n"})
	}
	return s
}

// surroundings that are unusual for a module: links, and what an earlier version
// of the generator has left.
func (s *synth) surroundings() {
	r := s.r
	has := map[string]bool{}
	for _, f := range s.files {
		has[f.P] = true
	}
	for i := range s.jobs {
		j := &s.jobs[i]
		pkg := "main"
		for _, f := range s.files {
			if f.P == j.In {
				k := strings.Index(f.D, "package ")
				if strings.HasPrefix(f.D, "// Package") {
					k = strings.Index(f.D, "\npackage ") + 1
				}
				if k < 0 || k+8 >= len(f.D) {
					continue
				}
				if w := strings.Fields(f.D[k+8:]); len(w) > 0 {
					pkg = w[0]
				}
			}
		}
		for _, q := range []string{j.Out, j.utils()} {
			if has[q] || !r.P(1, 6) {
				continue
			}
			has[q] = true
			old := "// Code generated by an earlier version. DO NOT EDIT.\npackage " + pkg + "\n"
			switch r.N(4) {
			case 0:
				old += "\nfunc former() int { return 1 }\n"
			case 1:
				old += strings.Repeat("\n// as it was", 400)
			}
			switch r.N(4) {
			case 0: // the file is somewhere else
				to := fmt.Sprintf("/srv/gen/%d_%s", i, path.Base(q))
				s.files = append(s.files, File{P: to, D: old}, File{P: q, L: to})
			case 1:
				to := path.Join(path.Dir(q), "real_"+path.Base(q))
				if !has[to] {
					has[to] = true
					s.files = append(s.files, File{P: to, D: old}, File{P: q, L: path.Base(to)})
				}
			default:
				s.files = append(s.files, File{P: q, D: old})
			}
		}
	}
	if r.P(1, 10) {
		real := pick(r, "/data/src/real", "/w/real", "/mnt/m")
		for i := range s.files {
			if strings.HasPrefix(s.files[i].P, s.root+"/") {
				s.files[i].P = real + s.files[i].P[len(s.root):]
			}
		}
		s.files = append(s.files, File{P: s.root, L: real})
		s.via, s.root = s.root, real
	}
}

// phys is where a file of the module really is.
func (s *synth) phys(p string) string {
	if s.via != "" && strings.HasPrefix(p, s.via+"/") {
		return s.root + p[len(s.via):]
	}
	return p
}

// moved changes the module's name or a package's place.
func (s *synth) moved() (out []File) {
	r := s.r
	if r.P(1, 2) {
		to := pick(r, "renamed.test/other", "n", "example.test/m2", s.mod+"x")
		for _, f := range s.files {
			if f.L != "" || f.M || !strings.HasPrefix(f.P, s.root+"/") {
				continue
			}
			d := strings.ReplaceAll(f.D, `"`+s.mod+`/`, `"`+to+`/`)
			if path.Base(f.P) == "go.mod" {
				d = strings.ReplaceAll(strings.ReplaceAll(d, "module "+s.mod, "module "+to), `"`+s.mod+`"`, `"`+to+`"`)
			}
			if d != f.D {
				out = append(out, File{P: f.P, D: d})
			}
		}
		return out
	}
	if len(s.model) == 0 {
		return nil
	}
	dir := pick(r, s.model...).dir
	to := "moved/" + path.Base(dir)
	for _, f := range s.files {
		if f.L != "" || f.M || !strings.HasPrefix(f.P, s.root+"/") {
			continue
		}
		if path.Dir(f.P) == path.Join(s.root, dir) {
			for _, j := range s.jobs {
				if s.phys(j.In) == f.P {
					return nil
				}
			}
			out = append(out, File{P: f.P, X: true}, File{P: path.Join(s.root, to, path.Base(f.P)), D: f.D})
			continue
		}
		d := strings.ReplaceAll(f.D, `"`+s.mod+"/"+dir+`"`, `"`+s.mod+"/"+to+`"`)
		if d != f.D {
			out = append(out, File{P: f.P, D: d})
		}
	}
	return out
}

// broken makes a source one that cannot be generated from: somebody is working on it.
func (s *synth) broken(job bool) []File {
	r := s.r
	outs := map[string]bool{} // not these: whether they are whole is what is judged
	for i := range s.jobs {
		outs[s.phys(s.jobs[i].Out)], outs[s.phys(s.jobs[i].utils())] = true, true
	}
	for _, f := range s.files {
		if outs[f.P] && f.L != "" {
			if !path.IsAbs(f.L) {
				f.L = path.Join(path.Dir(f.P), f.L)
			}
			outs[f.L] = true
		}
	}
	var can []File
	for _, f := range s.files {
		if path.Ext(f.P) != ".go" || f.L != "" || f.M || outs[f.P] || !strings.HasPrefix(f.P, s.root+"/") {
			continue
		}
		w, of := 1, false
		for _, j := range s.jobs {
			if s.phys(j.In) == f.P {
				w = 6
				of = true
			}
		}
		for ; w > 0 && (of || !job); w-- {
			can = append(can, f)
		}
	}
	if len(can) == 0 {
		return nil
	}
	f := pick(r, can...)
	wrong := []string{"var = 1", "func (", "type T struct { A int `json", "x := 1", "<<<<<<< HEAD", "=======", "}", "type", "const (", "import \"late\"", "\"", "\x00", "\xff"}
	switch r.N(6) {
	case 0:
		f.D = f.D[:r.N(len(f.D)+1)]
	case 1:
		f.D = strings.Repeat(pick(r, wrong[:7]...)+"\n", 1+r.N(15)) + f.D
	case 2:
		f.D += "\n//json:json\ntype Unready struct {\n\tA " + pick(r, "chan int", "func()", "Undeclared", "nowhere.Type", "interface{}", "[]", "*") + " `json:\"a\"`\n}\n"
	default:
		ls := strings.SplitAfter(f.D, "\n")
		d := ""
		n := 1 + r.N(12)
		for i, l := range ls {
			d += l
			if n > 0 && l != "" && l[len(l)-1] == '\n' && (r.P(1, 3) || len(ls)-i <= n) {
				d += pick(r, wrong...) + "\n"
				n--
			}
		}
		f.D = d
	}
	return []File{f}
}

// renamed gives a package that nobody imports another name of the same length.
func (s *synth) renamed() (out []File) {
	dir := path.Dir(s.phys(pick(s.r, s.jobs...).In))
	for _, e := range s.model {
		if path.Join(s.root, e.dir) == dir {
			return nil
		}
	}
	for _, f := range s.files {
		if path.Dir(f.P) != dir || f.L != "" || f.M || path.Ext(f.P) != ".go" {
			continue
		}
		for _, j := range s.jobs {
			if s.phys(j.In) != f.P {
				continue
			}
			i := strings.Index(f.D, "package ")
			k := i + len("package ")
			if i < 0 || k >= len(f.D) {
				continue
			}
			to := "q"
			if f.D[k] == 'q' {
				to = "z"
			}
			out = append(out, File{P: f.P, D: f.D[:k] + to + f.D[k+1:]})
			break
		}
	}
	return out
}

// merged puts changed files into the tree.
func (s *synth) merged(ch []File) []File {
	for _, c := range ch {
		for i := range s.files {
			if s.files[i].P == c.P {
				s.files[i] = c
			}
		}
	}
	return s.files
}

// habits of editors: line ends, marks, blanks.
func (s *synth) habits() {
	r := s.r
	mode := r.N(12)
	for i := range s.files {
		f := &s.files[i]
		if path.Ext(f.P) != ".go" && path.Base(f.P) != "go.mod" {
			continue
		}
		go_ := path.Ext(f.P) == ".go"
		switch {
		case mode == 0 || mode == 1 && r.P(1, 2):
			f.D = strings.ReplaceAll(f.D, "\n", "\r\n")
		case mode == 2 && go_:
			f.D = "\ufeff" + f.D
		case mode == 3 && go_:
			f.D = strings.TrimRight(f.D, "\n")
		case mode == 4 && go_:
			f.D = strings.ReplaceAll(f.D, "\t", "    ")
		case mode == 5 && go_:
			f.D = strings.ReplaceAll(f.D, "\n", "  \n") + "\n\n\n"
		}
	}
}

// edit changes the sources of a module: what is generated afterwards differs.
func (s *synth) edit() []File {
	r := s.r
	var out []File
	if len(s.jobs) == 0 {
		return nil
	}
	if r.P(1, 4) {
		if out = s.moved(); len(out) > 0 {
			return out
		}
	}
	if r.P(1, 8) {
		if out = s.renamed(); len(out) > 0 {
			return out
		}
	}
	if r.P(1, 6) {
		return s.broken(false)
	}
	j := pick(r, s.jobs...)
	for _, f := range s.files {
		if f.P != s.phys(j.In) {
			continue
		}
		d := f.D
		name := "Added" + fmt.Sprint(r.N(1000))
		switch r.N(5) {
		case 3: // nothing changes but the order
			d = strings.NewReplacer("json:\"f_0", "json:\"f_1", "json:\"f_1", "json:\"f_0").Replace(d)
		case 4: // as long as before
			d = strings.ReplaceAll(d, "json:\"f_0", "json:\"g_0")
		case 0:
			d += "\n//json:optional\ntype " + name + " struct {\n\tA int `json:\"a\"`\n\tB []string `json:\"b,omitempty\"`\n}\n"
		case 1:
			d = strings.ReplaceAll(d, "`json:\"f_0", "`json:\"renamed_0")
			d += "\n//json:json\ntype " + name + " []int64\n"
		case 2:
			d += "\n//json:json\ntype " + name + " map[string]bool\n"
		}
		out = append(out, File{P: f.P, D: d})
	}
	// a struct of another package gets another member, in a file nothing is made from
	if r.P(1, 3) {
		for _, f := range s.files {
			for _, e := range s.model {
				at := strings.Index(f.D, "type "+e.name+" struct {\n")
				if e.kind != "struct" || at < 0 || !strings.HasPrefix(f.P, path.Join(s.root, e.dir)+"/") || f.P == s.phys(j.In) || strings.HasSuffix(f.P, "gen.go") {
					continue
				}
				at += len("type " + e.name + " struct {\n")
				out = append(out, File{P: f.P, D: f.D[:at] + fmt.Sprintf("\tNew%d string `json:\"new_%d\"`\n", r.N(9), r.N(9)) + f.D[at:]})
				return out
			}
		}
	}
	// a type of another package becomes something else
	if r.P(1, 2) {
		for _, f := range s.files {
			for _, e := range s.model {
				if e.kind == "basic" && strings.HasPrefix(f.P, path.Join(s.root, e.dir)+"/") && strings.Contains(f.D, "type "+e.name+" ") && !strings.HasSuffix(f.P, "gen.go") {
					i := strings.Index(f.D, "type "+e.name+" ")
					k := strings.IndexByte(f.D[i:], '\n')
					out = append(out, File{P: f.P, D: f.D[:i] + "type " + e.name + " " + pick(r, "uint64", "string", "bool", "int8") + f.D[i+k:]})
					return out
				}
			}
		}
	}
	return out
}
