From e1b03cd145f96b43cdb151a406372e565a86abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 01/11] fix: encode nil pointers to time, uuid and array as
 null

---
 generator/codegen/field/fields.go     |  4 +--
 generator/codegen/field/marshalers.go | 36 ++++++++++++++++++++++-----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 411573e..4644a45 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -165,7 +165,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 			return block.Render(putCommaFirstIf)
 		}
 		if tt.Sel.Name == "UUID" {
-			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty")
+			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar)
 			return block.Render(putCommaFirstIf)
 		}
 		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar).Render(putCommaFirstIf)
@@ -192,7 +192,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 			dec := GetDecorExpr(tt.Elt)
 			valType := helpers.DenotedType(tt.Elt)
 			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
-			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", GetValueExtractor(valType, errExpr, dec), tt.Len == nil)
+			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", GetValueExtractor(valType, errExpr, dec), tt.Len == nil, f.isStar)
 		}
 		return block.Render(putCommaFirstIf)
 
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 1ef5143..4dc089c 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -43,6 +43,17 @@ func (w WriteBlock) Render(putComma ast.Stmt) []ast.Stmt {
 	}
 }
 
+// notNilRef checks that every reference on the way to the value is set
+//
+//	s.Field != nil
+//	s.Field != nil && *s.Field != nil
+func notNilRef(src ast.Expr) ast.Expr {
+	if star, ok := src.(*ast.StarExpr); ok {
+		return asthlp.And(notNilRef(star.X), asthlp.NotNil(src))
+	}
+	return asthlp.NotNil(src)
+}
+
 // timeMarshal produces block of code that writes date-time format.
 //
 //	result.WriteRune(',')
@@ -59,7 +70,7 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 	}
 	var notZero = asthlp.Not(asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, names.MethodNameZero))))
 	if isStar {
-		notZero = asthlp.NotNil(src)
+		notZero = notNilRef(src)
 		src = asthlp.Star(src)
 	}
 	var w = WriteBlock{
@@ -78,11 +89,14 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 		if layout == "" {
 			layout = time.RFC3339
 		}
-		var zeroDate = time.Time{}.Format(layout)
+		var zeroDate = `"` + time.Time{}.Format(layout) + `"`
+		if isStar {
+			zeroDate = "null"
+		}
 		w.IfZero = []ast.Stmt{
 			asthlp.CallStmt(asthlp.Call(
 				RawStringFn,
-				asthlp.StringConstant(fmt.Sprintf(`"%s":"%s"`, jsonName, zeroDate)).Expr(),
+				asthlp.StringConstant(fmt.Sprintf(`"%s":%s`, jsonName, zeroDate)).Expr(),
 			)),
 			SetCommaVar,
 		}
@@ -97,9 +111,17 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 //			result.Write(buf)
 //			result.WriteRune('"')
 //		}
-func uuidMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
+func uuidMarshal(src ast.Expr, jsonName string, omitempty, isStar bool) WriteBlock {
 	var bufVar = asthlp.NewIdent("buf")
+	var notZero ast.Expr
+	if isStar {
+		notZero = notNilRef(src)
+	}
+	if _, ok := src.(*ast.StarExpr); ok {
+		src = asthlp.ParenExpr(src)
+	}
 	var w = WriteBlock{
+		NotZero: notZero,
 		Block: []ast.Stmt{
 			asthlp.IfInitElse(
 				asthlp.Assign(
@@ -454,7 +476,7 @@ func mapMarshal(src ast.Expr, jsonName string, omitempty, isStringKey bool, ve V
 	return w
 }
 
-func arrayMarshal(src ast.Expr, jsonName string, omitempty bool, ve ValueExtractor, isSlice bool) WriteBlock {
+func arrayMarshal(src ast.Expr, jsonName string, omitempty bool, ve ValueExtractor, isSlice, isStar bool) WriteBlock {
 	const (
 		key = "_k"
 		val = "_v"
@@ -476,7 +498,9 @@ func arrayMarshal(src ast.Expr, jsonName string, omitempty bool, ve ValueExtract
 	var notNil = asthlp.NotNil(src)
 	var wComma = asthlp.Var(asthlp.VariableType(WantCommaVar.Name, asthlp.Bool))
 	if !isSlice {
-		notNil = nil
+		if !isStar {
+			notNil = nil
+		}
 		wComma = asthlp.Assign(asthlp.MakeVarNames(WantCommaVar.Name), asthlp.Assignment, asthlp.False)
 	}
 	var w = WriteBlock{
-- 
2.43.0


From 1a1a39345683a6106a5b0c7dc4a2d0a42e7b39ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 02/11] fix: do not lose the parsing error of a time, uuid or
 map array item

---
 generator/codegen/field/fields.go |  2 ++
 generator/codegen/field/fill.go   | 42 +++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 4644a45..50a470a 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -35,6 +35,8 @@ type (
 		filled bool
 		// level counts code hierarchy
 		level int
+		// root is json name of the field that contains this array item
+		root string
 	}
 )
 
diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 35d7662..da112b0 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -238,6 +238,10 @@ func (f *Field) TypedValue(dst *ast.Ident, v string, elemPathExpr ast.Expr) []as
 			expr:  t.Elt,
 			tags:  tags.Parse(fmt.Sprintf(`json:"%s"`, f.tags.JsonName())),
 			level: f.level + 1,
+			root:  f.root,
+		}
+		if f.level == 0 {
+			intF.root = f.tags.JsonName()
 		}
 		intF.prepareRef()
 		if t.Len == nil {
@@ -522,6 +526,15 @@ func (f *Field) breakErr(elemPathChain ast.Expr) []ast.Stmt {
 		// no error checking for string
 		return nil
 	}
+	if f.redefinesErr() {
+		// this error is visible only in the loop body, so it would be lost after break
+		return []ast.Stmt{
+			asthlp.If(
+				asthlp.NotNil(ast.NewIdent(names.VarNameError)),
+				asthlp.Return(f.itemParsingError()),
+			),
+		}
+	}
 	return []ast.Stmt{
 		asthlp.If(
 			asthlp.NotNil(ast.NewIdent(names.VarNameError)),
@@ -535,6 +548,35 @@ func (f *Field) breakErr(elemPathChain ast.Expr) []ast.Stmt {
 	}
 }
 
+// redefinesErr reports whether the code extracting the value of this type defines its own err variable
+func (f *Field) redefinesErr() bool {
+	t := f.refx
+	if star, ok := t.(*ast.StarExpr); ok {
+		t = star.X
+	}
+	switch t := t.(type) {
+
+	case *ast.SelectorExpr:
+		return t.Sel.Name == "Time" || t.Sel.Name == "UUID"
+
+	case *ast.MapType:
+		return true
+
+	default:
+		return false
+	}
+}
+
+// newParsingError("field", newParsingError(strconv.Itoa(_key1), newParsingError(strconv.Itoa(_key2), err)))
+func (f *Field) itemParsingError() ast.Expr {
+	var err ast.Expr = ast.NewIdent(names.VarNameError)
+	for level := f.level; level > 0; level-- {
+		itemNum := ast.NewIdent(fmt.Sprintf("_key%d", level))
+		err = asthlp.Call(asthlp.InlineFunc(asthlp.NewIdent(names.ParsingError)), asthlp.Call(asthlp.StrconvItoaFn, itemNum), err)
+	}
+	return asthlp.Call(asthlp.InlineFunc(asthlp.NewIdent(names.ParsingError)), asthlp.StringConstant(f.root).Expr(), err)
+}
+
 func (f *Field) fillRefField(rhs, dst ast.Expr) []ast.Stmt {
 	switch t := f.expr.(type) {
 
-- 
2.43.0


From 224e073aa725d8a6c02600959186ce3d49ecf69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:35 +0000
Subject: [PATCH 03/11] fix: look types of other packages up in a fixed order

ExploreType and exploreInlinedSelector went through the files of a package
in map order. A type that is declared more than once (build constraints, an
ignored main package in the same directory) was resolved to one or the other
declaration by chance, so that two runs could generate different code.
---
 generator/analyse.go           |  4 +++-
 generator/discoverer/parser.go |  2 +-
 generator/parser.go            | 21 +++++++++++++++++----
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 15c33ae..beadc0c 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -315,7 +315,9 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 		panic(fmt.Errorf("can't inline struct %q; can't parse '%s' package: %+v", inlined.Sel.Name, packIdent.Name, err))
 	}
 	var v1 = visitor{g: v.g, over: packIdent}
-	ast.Walk(&v1, pkg)
+	for _, fileName := range sortedKeys(pkg.Files) {
+		ast.Walk(&v1, pkg.Files[fileName])
+	}
 	decl := v1.getDeclByName(inlined.Sel.Name)
 	if decl == nil {
 		panic("can't resolve inlined field by name")
diff --git a/generator/discoverer/parser.go b/generator/discoverer/parser.go
index 7a54e99..c74e2e7 100644
--- a/generator/discoverer/parser.go
+++ b/generator/discoverer/parser.go
@@ -8,7 +8,7 @@ import (
 	"strings"
 )
 
-func (d *Discoverer) GetPackage(packageName string, hints ...string) (ast.Node, error) {
+func (d *Discoverer) GetPackage(packageName string, hints ...string) (*ast.Package, error) {
 	packagePaths, ok := d.packages[packageName]
 	if !ok {
 		return nil, fmt.Errorf("can't find package '%s'", packageName)
diff --git a/generator/parser.go b/generator/parser.go
index 878e64a..73903b3 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -9,6 +9,7 @@ import (
 	"go/token"
 	"os"
 	"path"
+	"sort"
 	"strings"
 
 	"github.com/iv-menshenin/go-ast/explorer"
@@ -139,12 +140,14 @@ func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 	if err != nil {
 		return nil
 	}
-	for name, pack := range parsed {
-		if strings.HasSuffix(name, "_test") {
+	for _, name := range sortedKeys(parsed) {
+		if name == "main" || strings.HasSuffix(name, "_test") {
+			// nothing of it can be imported
 			continue
 		}
-		for _, file := range pack.Files {
-			for _, decl := range file.Decls {
+		pack := parsed[name]
+		for _, fileName := range sortedKeys(pack.Files) {
+			for _, decl := range pack.Files[fileName].Decls {
 				genDecl, ok := decl.(*ast.GenDecl)
 				if !ok {
 					continue
@@ -164,6 +167,16 @@ func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 	return nil
 }
 
+// sortedKeys lists the keys of a map in an order that is always the same.
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func fmtGOFile(fileName string) (err error) {
 	var fileSet = token.NewFileSet()
 	f, err := parser.ParseFile(fileSet, fileName, nil, parser.ParseComments)
-- 
2.43.0


From 05a06d3047c4644b71f2c74077e0d2aae4b80fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:12 +0000
Subject: [PATCH 04/11] fix: do not take an unreadable package for one without
 the type

An error of reading the package of an imported type was dropped, the type was
treated as unknown and the generator went on to produce different code as if
all was well. Only a package that does not exist or is no valid Go is skipped
now.
---
 generator/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generator/parser.go b/generator/parser.go
index 73903b3..00616d8 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -1,11 +1,13 @@
 package generator
 
 import (
+	"errors"
 	"fmt"
 	"go/ast"
 	"go/format"
 	"go/parser"
 	"go/printer"
+	"go/scanner"
 	"go/token"
 	"os"
 	"path"
@@ -137,6 +139,11 @@ func (g *Gen) Print(name string) {
 
 func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 	parsed, err := parsePackage(g.discovery.PackagePathFromPath(p.Path))
+	var syntax scanner.ErrorList
+	if err != nil && !os.IsNotExist(err) && !errors.As(err, &syntax) {
+		// the package is there, but it could not be read
+		panic(fmt.Errorf("can't read package %q: %w", p.Path, err))
+	}
 	if err != nil {
 		return nil
 	}
-- 
2.43.0


From 57f229e9e826b8012e21e8910f3d2d427bb10056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:21 +0000
Subject: [PATCH 05/11] fix: replace generated files in one step and report
 every error

Print truncated the output and wrote it piece by piece, twice: once raw and
once formatted. A run that was killed, or that found the disk full, left a cut
off file behind which the next run then choked on, and errors of formatting
and of closing the files were dropped. The code is now rendered and formatted
in memory and written to a temporary file beside the target, which is renamed.
---
 generator/parser.go        | 32 +++++++++------------
 generator/static/static.go |  9 +-----
 generator/static/write.go  | 59 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 73 insertions(+), 27 deletions(-)
 create mode 100644 generator/static/write.go

diff --git a/generator/parser.go b/generator/parser.go
index 00616d8..987254e 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -1,6 +1,7 @@
 package generator
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"go/ast"
@@ -115,18 +116,16 @@ func (g *Gen) imports() {
 }
 
 func (g *Gen) Print(name string) {
-	f, err := os.Create(name)
-	if err != nil {
+	var source bytes.Buffer
+	source.WriteString("// Code generated [github.com/iv-menshenin/valyjson]; DO NOT EDIT.\n")
+	if err := printer.Fprint(&source, token.NewFileSet(), &g.result); err != nil {
 		panic(err)
 	}
-	defer fmtGOFile(name)
-	defer f.Close()
-	_, err = fmt.Fprint(f, "// Code generated [github.com/iv-menshenin/valyjson]; DO NOT EDIT.\n")
+	formatted, err := fmtGOFile(name, source.Bytes())
 	if err != nil {
 		panic(err)
 	}
-
-	if err := printer.Fprint(f, token.NewFileSet(), &g.result); err != nil {
+	if err = static.WriteFile(name, formatted); err != nil {
 		panic(err)
 	}
 	err = static.Print(static.Context{
@@ -184,22 +183,17 @@ func sortedKeys[V any](m map[string]V) []string {
 	return keys
 }
 
-func fmtGOFile(fileName string) (err error) {
+func fmtGOFile(fileName string, source []byte) ([]byte, error) {
 	var fileSet = token.NewFileSet()
-	f, err := parser.ParseFile(fileSet, fileName, nil, parser.ParseComments)
+	f, err := parser.ParseFile(fileSet, fileName, source, parser.ParseComments)
 	if err != nil {
-		return err
+		return nil, err
 	}
-	out, err := os.Create(fileName)
-	if err != nil {
-		return err
+	var out bytes.Buffer
+	if err = format.Node(&out, fileSet, f); err != nil {
+		return nil, err
 	}
-	defer func() {
-		if e := out.Close(); e != nil && err == nil {
-			err = e
-		}
-	}()
-	return format.Node(out, fileSet, f)
+	return out.Bytes(), nil
 }
 
 func parseGo(file string) (ast.Node, error) {
diff --git a/generator/static/static.go b/generator/static/static.go
index 3cadd45..001b97d 100644
--- a/generator/static/static.go
+++ b/generator/static/static.go
@@ -2,7 +2,6 @@ package static
 
 import (
 	"embed"
-	"os"
 	"path"
 	"strings"
 	"text/template"
@@ -69,13 +68,7 @@ func (t *TPL) Execute(ctx Context) error {
 }
 
 func (t *TPL) Print(name string) error {
-	f, err := os.Create(name)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
-	_, err = f.WriteString(t.str.String())
-	return err
+	return WriteFile(name, []byte(t.str.String()))
 }
 
 func newTemplate(tplPath, fName string) (*TPL, error) {
diff --git a/generator/static/write.go b/generator/static/write.go
new file mode 100644
index 0000000..421bfea
--- /dev/null
+++ b/generator/static/write.go
@@ -0,0 +1,59 @@
+package static
+
+import (
+	"errors"
+	"fmt"
+	"io/fs"
+	"os"
+	"path/filepath"
+)
+
+// WriteFile puts the content into the file in one step: whatever happens in the
+// meantime, there is either the former file or the complete new one.
+func WriteFile(name string, content []byte) (err error) {
+	var perm fs.FileMode = 0666
+	if target, e := filepath.EvalSymlinks(name); e == nil {
+		name = target
+	}
+	stat, err := os.Stat(name)
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return err
+	}
+	exists := err == nil
+	if exists {
+		perm = stat.Mode().Perm()
+	}
+	f, err := createTemp(name, perm)
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			_ = os.Remove(f.Name())
+		}
+	}()
+	_, err = f.Write(content)
+	if err == nil && exists {
+		err = f.Chmod(perm)
+	}
+	if err == nil {
+		err = f.Sync()
+	}
+	if e := f.Close(); err == nil {
+		err = e
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(f.Name(), name)
+}
+
+// createTemp creates a new file beside the named one.
+func createTemp(name string, perm fs.FileMode) (*os.File, error) {
+	for i := 0; ; i++ {
+		f, err := os.OpenFile(fmt.Sprintf("%s.%d.tmp", name, i), os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+		if !errors.Is(err, fs.ErrExist) {
+			return f, err
+		}
+	}
+}
-- 
2.43.0


From 86a2e599e40394d3f7d56da73947ee98a5170a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 06/11] fix: encode a time with the layout that its constant's
 name stands for

A layout given as time.RFC1123Z was understood by the decoder only: the
encoder took the name itself for the layout and wrote such text as
"time.RFC1111Z", which its own decoder refuses.
---
 generator/codegen/field/extractors.go | 24 ++++++++++++++----------
 generator/codegen/field/marshalers.go |  7 ++++++-
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/generator/codegen/field/extractors.go b/generator/codegen/field/extractors.go
index 0bfdb51..d027071 100644
--- a/generator/codegen/field/extractors.go
+++ b/generator/codegen/field/extractors.go
@@ -317,15 +317,6 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	if layout == "" {
 		extrStmt = timeExtractionUnify(dst, srcString)
 	} else {
-		var layoutExpr ast.Expr
-		if l := strings.Split(layout, "."); len(l) == 2 && l[0] == "time" {
-			layoutExpr = &ast.SelectorExpr{
-				X:   ast.NewIdent(l[0]),
-				Sel: ast.NewIdent(l[1]),
-			}
-		} else {
-			layoutExpr = &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf(`"%s"`, strings.Replace(layout, "\"", "\\\"", -1))}
-		}
 		extrStmt = []ast.Stmt{
 			&ast.AssignStmt{
 				Lhs: []ast.Expr{dst, ast.NewIdent("err")},
@@ -337,7 +328,7 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 							Sel: ast.NewIdent("Parse"),
 						},
 						Args: []ast.Expr{
-							layoutExpr,
+							timeLayoutExpr(layout),
 							srcString,
 						},
 					},
@@ -369,6 +360,19 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	)
 }
 
+// timeLayoutExpr makes the expression of a layout, a constant of the time package can be given by its name.
+func timeLayoutExpr(layout string) ast.Expr {
+	if isTimeConstant(layout) {
+		return asthlp.SimpleSelector("time", strings.TrimPrefix(layout, "time."))
+	}
+	return &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf(`"%s"`, strings.Replace(layout, "\"", "\\\"", -1))}
+}
+
+func isTimeConstant(layout string) bool {
+	l := strings.Split(layout, ".")
+	return len(l) == 2 && l[0] == "time"
+}
+
 // valDateBegin, err := parseDateTime(string(b))
 func timeExtractionUnify(dst *ast.Ident, v ast.Expr) []ast.Stmt {
 	return []ast.Stmt{
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 4dc089c..14119d0 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -66,7 +66,7 @@ func notNilRef(src ast.Expr) ast.Expr {
 func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool) WriteBlock {
 	var layoutExpr = names.TimeDefaultLayout
 	if layout != "" {
-		layoutExpr = asthlp.StringConstant(layout).Expr()
+		layoutExpr = timeLayoutExpr(layout)
 	}
 	var notZero = asthlp.Not(asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, names.MethodNameZero))))
 	if isStar {
@@ -85,6 +85,11 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 			SetCommaVar,
 		},
 	}
+	if !omitempty && !isStar && isTimeConstant(layout) {
+		// the text of the zero time is known at run time only
+		w.IfZero = w.Block
+		return w
+	}
 	if !omitempty {
 		if layout == "" {
 			layout = time.RFC3339
-- 
2.43.0


From c43abe6d8c11201c4391d0bc9b3963e08bcbb022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 07/11] fix: keep the whole time layout when it contains a
 comma

"Mon, 02 Jan 2006" was cut down to "Mon", so the date was lost.
---
 generator/codegen/tags/tags.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index 4005038..7aa4d57 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -72,7 +72,7 @@ func (t Tags) Layout() string {
 func Parse(tag string) Tags {
 	var result = make(map[string][]string)
 	result["json"] = strings.Split(StructTag(tag).Get("json"), ",")
-	result["layout"] = strings.Split(StructTag(tag).Get("layout"), ",")
+	result["layout"] = []string{StructTag(tag).Get("layout")}
 	result["default"] = strings.Split(StructTag(tag).Get("default"), ",")
 	return result
 }
-- 
2.43.0


From fb5b3a44ce68d0e9e0dcda1dd0fbc8af33389be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 08/11] fix: do not let one file's imports change what is
 generated for the next one

---
 generator/parser.go | 62 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 9 deletions(-)

diff --git a/generator/parser.go b/generator/parser.go
index 987254e..1fecaed 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -80,41 +80,85 @@ func (g *Gen) FixImports(internals ...string) {
 	})
 
 	// discovery used imports and build their declaration
+	used := usedImports{
+		common: explorer.New(),
+		own:    make(map[string]explorer.Package),
+		found:  make(map[string]string),
+	}
 	for name, pkg := range g.packages {
 		for i := range pkg {
-			explorer.RegisterPackage(name, pkg[i])
+			used.own[name] = pkg[i]
 		}
 	}
 	for i := 0; i < len(internals); i += 2 {
-		explorer.RegisterPackage(internals[i], explorer.Package{
+		used.own[internals[i]] = explorer.Package{
 			Path: internals[i+1],
 			Kind: explorer.PkgKindInternal,
-		})
+		}
 	}
-	g.imports()
+	g.imports(&used)
 }
 
-func (g *Gen) imports() {
+func (g *Gen) imports(used *usedImports) {
 	defer func() {
 		if r := recover(); r != nil {
 			panic(fmt.Errorf("PANIC at %q: %+v", g.fileName, r))
 		}
 	}()
-	discovery := explorer.New()
-	discovery.Explore(&g.result)
+	ast.Walk(used, &g.result)
 	var decls = make([]ast.Decl, 0, len(g.result.Decls)+1)
 
-	imports := discovery.ImportSpec()
+	imports := used.importSpec()
 	if len(imports) > 0 {
 		decls = append(decls, &ast.GenDecl{
 			Tok:   token.IMPORT,
-			Specs: discovery.ImportSpec(),
+			Specs: imports,
 		})
 	}
 	decls = append(decls, g.result.Decls...)
 	g.result.Decls = decls
 }
 
+// usedImports collects the packages that the code refers to. The packages of the
+// module are known to this generator only: whatever is given to
+// explorer.RegisterPackage stays known to every generator of the process.
+type usedImports struct {
+	common *explorer.Discoverer
+	own    map[string]explorer.Package
+	found  map[string]string // path -> name
+}
+
+func (u *usedImports) Visit(node ast.Node) ast.Visitor {
+	if sel, ok := node.(*ast.SelectorExpr); ok {
+		if x, ok := sel.X.(*ast.Ident); ok {
+			if pkg, ok := u.own[x.Name]; ok {
+				u.found[pkg.Path] = x.Name
+				return u
+			}
+		}
+	}
+	u.common.Visit(node)
+	return u
+}
+
+func (u *usedImports) importSpec() []ast.Spec {
+	specs := u.common.ImportSpec()
+	for i, pkgPath := range sortedKeys(u.found) {
+		var addLine, alias string
+		if i == 0 {
+			addLine = "\n\t"
+		}
+		if name := u.found[pkgPath]; path.Base(pkgPath) != name {
+			alias = name + " "
+		}
+		specs = append(specs, &ast.ImportSpec{Path: &ast.BasicLit{
+			Kind:  token.STRING,
+			Value: fmt.Sprintf("%s%s\"%s\"", addLine, alias, pkgPath),
+		}})
+	}
+	return specs
+}
+
 func (g *Gen) Print(name string) {
 	var source bytes.Buffer
 	source.WriteString("// Code generated [github.com/iv-menshenin/valyjson]; DO NOT EDIT.\n")
-- 
2.43.0


From 005e56afbbc3aafecd8115ac38e17ce0315d444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:01 +0000
Subject: [PATCH 09/11] fix: do not replace a link to the output when it cannot
 be read

---
 generator/static/write.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/static/write.go b/generator/static/write.go
index 421bfea..e8235e0 100644
--- a/generator/static/write.go
+++ b/generator/static/write.go
@@ -12,7 +12,11 @@ import (
 // meantime, there is either the former file or the complete new one.
 func WriteFile(name string, content []byte) (err error) {
 	var perm fs.FileMode = 0666
-	if target, e := filepath.EvalSymlinks(name); e == nil {
+	target, err := filepath.EvalSymlinks(name)
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return err
+	}
+	if err == nil {
 		name = target
 	}
 	stat, err := os.Stat(name)
-- 
2.43.0


From ac1159ae3d622a33e7d03d51b8de4ee95457f278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 10/11] fix: report a source that vanishes while its package is
 read

---
 generator/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/parser.go b/generator/parser.go
index 1fecaed..b5a15e1 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -183,7 +183,8 @@ func (g *Gen) Print(name string) {
 func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 	parsed, err := parsePackage(g.discovery.PackagePathFromPath(p.Path))
 	var syntax scanner.ErrorList
-	if err != nil && !os.IsNotExist(err) && !errors.As(err, &syntax) {
+	missing := os.IsNotExist(err) && parsed == nil // the directory itself
+	if err != nil && !missing && !errors.As(err, &syntax) {
 		// the package is there, but it could not be read
 		panic(fmt.Errorf("can't read package %q: %w", p.Path, err))
 	}
-- 
2.43.0


From 7d144638f8c3d1b60a5a2f2253a0b237542ab592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 11/11] fix: escape the quotes of a time layout in the encoded
 text

---
 generator/codegen/field/extractors.go | 4 ++--
 generator/codegen/field/marshalers.go | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/field/extractors.go b/generator/codegen/field/extractors.go
index d027071..daf71fe 100644
--- a/generator/codegen/field/extractors.go
+++ b/generator/codegen/field/extractors.go
@@ -1,9 +1,9 @@
 package field
 
 import (
-	"fmt"
 	"go/ast"
 	"go/token"
+	"strconv"
 	"strings"
 
 	"github.com/iv-menshenin/go-ast"
@@ -365,7 +365,7 @@ func timeLayoutExpr(layout string) ast.Expr {
 	if isTimeConstant(layout) {
 		return asthlp.SimpleSelector("time", strings.TrimPrefix(layout, "time."))
 	}
-	return &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf(`"%s"`, strings.Replace(layout, "\"", "\\\"", -1))}
+	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(layout)}
 }
 
 func isTimeConstant(layout string) bool {
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 14119d0..9903c01 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -3,6 +3,7 @@ package field
 import (
 	"fmt"
 	"go/ast"
+	"strings"
 	"time"
 
 	asthlp "github.com/iv-menshenin/go-ast"
@@ -65,6 +66,8 @@ func notNilRef(src ast.Expr) ast.Expr {
 //	}
 func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool) WriteBlock {
 	var layoutExpr = names.TimeDefaultLayout
+	// the formatted text is written as it is, so quotes of the layout have to be escaped in it
+	layout = strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(layout)
 	if layout != "" {
 		layoutExpr = timeLayoutExpr(layout)
 	}
-- 
2.43.0

