package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const simrtPath = "vsimw/simrt"

type instrumenter struct {
	site  int
	sites []string        // site number -> file:line (of the uninstrumented source)
	glob  map[string]bool // package-level variables of the directory at hand
	label string          // its import path
	maps  bool            // also announce accesses to maps
}

// file rewrites one Go file: a scheduling point before every statement, go
// statements handed to the simulator. Files that use embed are left as they are.
func (in *instrumenter) file(path, label string, yields bool) (pkg string, vars []string, err error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return "", nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return "", nil, err
	}
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, s := range gd.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						vars = append(vars, n.Name)
					}
				}
			}
		}
	}
	if !yields || bytes.Contains(src, []byte("//go:embed")) {
		return f.Name.Name, vars, nil
	}
	f.Comments = nil
	stripDocs(f)
	used := false
	mkY := func(pos token.Pos) ast.Stmt {
		in.site++
		in.sites = append(in.sites, fmt.Sprintf("%s:%d", label, fset.Position(pos).Line))
		used = true
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt__"), Sel: ast.NewIdent("Y")},
			Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(in.site)}}}}
	}
	list := func(l []ast.Stmt) []ast.Stmt {
		out := make([]ast.Stmt, 0, 2*len(l))
		for _, s := range l {
			switch st := s.(type) {
			case *ast.EmptyStmt:
				continue
			case *ast.GoStmt:
				s = goStmt(st)
			}
			out = append(out, mkY(s.Pos()))
			out = append(out, in.announce(f, s)...)
			out = append(out, s)
		}
		return out
	}
	// walk function bodies bottom-up is not needed: lists are rewritten in place
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if x != nil {
				for _, s := range x.List {
					ast.Inspect(s, visit)
				}
				x.List = list(x.List)
			}
			return false
		case *ast.CaseClause:
			for _, e := range x.List {
				ast.Inspect(e, visit)
			}
			for _, s := range x.Body {
				ast.Inspect(s, visit)
			}
			x.Body = list(x.Body)
			return false
		case *ast.CommClause:
			for _, s := range x.Body {
				ast.Inspect(s, visit)
			}
			x.Body = list(x.Body)
			return false
		case *ast.SwitchStmt:
			if x.Init != nil {
				ast.Inspect(x.Init, visit)
			}
			for _, c := range x.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		case *ast.TypeSwitchStmt:
			for _, c := range x.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		case *ast.SelectStmt:
			for _, c := range x.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		}
		return true
	}
	for _, d := range f.Decls {
		ast.Inspect(d, visit)
	}
	if used || usesSimrt(f) {
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("simrt__"),
			Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", simrtPath)}}}}
		f.Decls = append([]ast.Decl{imp}, f.Decls...)
	}
	var buf bytes.Buffer
	// a fresh file set: positions of the original would only disturb the printer
	if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
		return "", nil, err
	}
	return f.Name.Name, vars, os.WriteFile(path, buf.Bytes(), 0o644)
}

func usesSimrt(f *ast.File) bool {
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == "simrt__" {
			found = true
		}
		return !found
	})
	return found
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

// goStmt turns "go f(a, b)" into "{ f', a', b' := f, a, b; simrt.Go(func() { f'(a', b') }) }".
func goStmt(g *ast.GoStmt) ast.Stmt {
	call := g.Call
	simGo := func(body *ast.BlockStmt) ast.Stmt {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt__"), Sel: ast.NewIdent("Go")},
			Args: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body}}}}
	}
	if len(call.Args) == 0 {
		if fl, ok := call.Fun.(*ast.FuncLit); ok {
			return simGo(fl.Body)
		}
	}
	blk := &ast.BlockStmt{}
	bind := func(name string, e ast.Expr) ast.Expr {
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(name)
	}
	c2 := &ast.CallExpr{Fun: bind("simfn__", call.Fun), Ellipsis: call.Ellipsis}
	for i, a := range call.Args {
		c2.Args = append(c2.Args, bind(fmt.Sprintf("simarg%d__", i), a))
	}
	blk.List = append(blk.List, simGo(&ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c2}}}))
	return blk
}

// dir instruments every non-test file of a directory and adds the registration file.
func (in *instrumenter) dir(dir, importPath string, yields bool, types []string) error {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	pkg := ""
	var vars []string
	in.glob, in.label = packageVars(dir), importPath
	in.maps = strings.HasPrefix(importPath, "vcorp/")
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasPrefix(n, "zz_sim") {
			continue
		}
		p, vs, err := in.file(filepath.Join(dir, n), importPath+"/"+n, yields)
		if err != nil {
			return fmt.Errorf("%s: %w", n, err)
		}
		if b, _ := os.ReadFile(filepath.Join(dir, n)); bytes.Contains(b, []byte("//go:build ignore")) || bytes.Contains(b, []byte("// +build gofuzz")) {
			continue
		}
		pkg = p
		vars = append(vars, vs...)
	}
	if pkg == "" || (len(vars) == 0 && len(types) == 0) {
		return nil
	}
	sort.Strings(vars)
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport simrt__ %q\n\nfunc init() {\n", pkg, simrtPath)
	for _, v := range vars {
		fmt.Fprintf(&b, "\tsimrt__.RegGlobal(%q, &%s)\n", importPath+"."+v, v)
	}
	for _, t := range types {
		fmt.Fprintf(&b, "\tsimrt__.RegType(%q, func() any { return new(%s) })\n", pkg+"."+t, t)
	}
	b.WriteString("}\n")
	return os.WriteFile(filepath.Join(dir, "zz_simreg.go"), []byte(b.String()), 0o644)
}

// codecTypes lists the types of a package directory that have generated or
// hand-written JSON methods, in order of name.
func codecTypes(dir string) []string {
	seen := map[string]bool{}
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv == nil || len(fd.Recv.List) != 1 {
				continue
			}
			if fd.Name.Name != "UnmarshalJSON" && fd.Name.Name != "MarshalJSON" {
				continue
			}
			t := fd.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			if id, ok := t.(*ast.Ident); ok {
				seen[id.Name] = true
			}
		}
	}
	var out []string
	for n := range seen {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func packageVars(dir string) map[string]bool {
	out := map[string]bool{}
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				for _, s := range gd.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						out[n.Name] = true
					}
				}
			}
		}
	}
	return out
}

// announce returns the calls that tell the simulator which package-level
// variables (and maps) the statement is going to read or write directly.
func (in *instrumenter) announce(f *ast.File, s ast.Stmt) []ast.Stmt {
	type acc struct {
		e ast.Expr // map expression, nil for a variable
		w bool
	}
	vars := map[string]bool{} // name -> written
	var mapAcc []acc
	isGlobal := func(id *ast.Ident) bool {
		if !in.glob[id.Name] {
			return false
		}
		return id.Obj == nil || f.Scope != nil && f.Scope.Lookup(id.Name) == id.Obj
	}
	mark := func(id *ast.Ident, w bool) {
		if isGlobal(id) {
			vars[id.Name] = vars[id.Name] || w
		}
	}
	mapsOK := in.maps
	var read func(e ast.Expr)
	var pure func(e ast.Expr) bool
	pure = func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.Ident:
			return x.Name != "_" && x.Name != "nil"
		case *ast.SelectorExpr:
			return pure(x.X)
		case *ast.ParenExpr:
			return pure(x.X)
		case *ast.StarExpr:
			return pure(x.X)
		}
		return false
	}
	onMap := func(e ast.Expr, w bool) {
		if mapsOK && pure(e) {
			mapAcc = append(mapAcc, acc{e, w})
		}
	}
	var root func(e ast.Expr) *ast.Ident
	root = func(e ast.Expr) *ast.Ident {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			return root(x.X)
		case *ast.IndexExpr:
			return root(x.X)
		case *ast.ParenExpr:
			return root(x.X)
		case *ast.StarExpr:
			return root(x.X)
		case *ast.SliceExpr:
			return root(x.X)
		}
		return nil
	}
	writeTo := func(e ast.Expr) {
		if id := root(e); id != nil {
			mark(id, true)
		}
		if ix, ok := e.(*ast.IndexExpr); ok {
			onMap(ix.X, true)
			read(ix.Index)
		}
	}
	read = func(e ast.Expr) {
		switch x := e.(type) {
		case nil:
		case *ast.Ident:
			mark(x, false)
		case *ast.SelectorExpr:
			read(x.X)
		case *ast.IndexExpr:
			onMap(x.X, false)
			read(x.X)
			read(x.Index)
		case *ast.ParenExpr:
			read(x.X)
		case *ast.StarExpr:
			read(x.X)
		case *ast.SliceExpr:
			read(x.X)
			read(x.Low)
			read(x.High)
		case *ast.BinaryExpr:
			read(x.X)
			if x.Op != token.LAND && x.Op != token.LOR {
				read(x.Y)
			}
		case *ast.UnaryExpr:
			if x.Op != token.AND {
				read(x.X)
			}
		case *ast.TypeAssertExpr:
			read(x.X)
		case *ast.CompositeLit:
			for _, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					read(kv.Value)
				} else {
					read(el)
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 {
				switch id.Name {
				case "delete", "clear", "copy":
					if r := root(x.Args[0]); r != nil {
						mark(r, true)
					}
					if id.Name != "copy" {
						onMap(x.Args[0], true)
					}
				}
				read(x.Fun)
			}
			for _, a := range x.Args {
				read(a)
			}
		}
	}
	switch x := s.(type) {
	case *ast.AssignStmt:
		for _, r := range x.Rhs {
			read(r)
		}
		if x.Tok != token.DEFINE {
			for _, l := range x.Lhs {
				writeTo(l)
			}
		}
	case *ast.IncDecStmt:
		writeTo(x.X)
	case *ast.ExprStmt:
		read(x.X)
	case *ast.ReturnStmt:
		for _, r := range x.Results {
			read(r)
		}
	case *ast.RangeStmt:
		onMap(x.X, false)
		read(x.X)
	case *ast.IfStmt:
		if x.Init == nil {
			read(x.Cond)
		} else if a, ok := x.Init.(*ast.AssignStmt); ok {
			for _, r := range a.Rhs {
				read(r)
			}
			mapsOK = false
			read(x.Cond)
		}
	case *ast.SwitchStmt:
		if x.Init == nil {
			read(x.Tag)
		}
	case *ast.DeclStmt:
		if gd, ok := x.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				for _, v := range sp.(*ast.ValueSpec).Values {
					read(v)
				}
			}
		}
	}
	var out []ast.Stmt
	call := func(fn string, args ...ast.Expr) {
		out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt__"), Sel: ast.NewIdent(fn)}, Args: args}})
	}
	b := func(w bool) ast.Expr { return ast.NewIdent(fmt.Sprint(w)) }
	var names []string
	for n := range vars {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		call("A", &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", in.label+"."+n)}, b(vars[n]))
	}
	for _, m := range mapAcc {
		call("M", m.e, b(m.w))
	}
	return out
}
