package main

import (
	"bytes"
	"embed"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

//go:embed all:_target
var targetFS embed.FS

type workspace struct {
	dir      string
	repo     string
	goroot   string
	modcache string
	in       *instrumenter
	dropped  []string // corpora packages that could not be generated or compiled
	pkgs     []string
	notes    []string
	timing   map[string]float64
}

var goFlags = []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"}

func (w *workspace) env(extra ...string) []string {
	var out []string
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e+"=", '=')]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOSUMDB", "GOTOOLCHAIN", "GOWORK", "CGO_ENABLED", "GODEBUG", "GOMAXPROCS", "GOGC", "GOMEMLIMIT":
			continue
		}
		out = append(out, e)
	}
	return append(append(out, goFlags...), extra...)
}

func (w *workspace) run(dir string, stdin string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = w.env()
	if stdin != "" {
		c.Stdin = strings.NewReader(stdin)
	}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.String(), err
}

func newWorkspace(repo string) (*workspace, error) {
	dir, err := os.MkdirTemp("", "vsim-")
	if err != nil {
		return nil, err
	}
	w := &workspace{dir: dir, repo: repo, in: &instrumenter{}, timing: map[string]float64{}}
	out, err := w.run("/", "", "go", "env", "GOROOT", "GOMODCACHE")
	if err != nil {
		return w, fmt.Errorf("go env: %v %s", err, out)
	}
	f := strings.Fields(out)
	w.goroot, w.modcache = f[0], f[1]
	return w, nil
}

func (w *workspace) close() { os.RemoveAll(w.dir) }

func (w *workspace) path(p ...string) string {
	return filepath.Join(append([]string{w.dir}, p...)...)
}

func write(path, s string) error {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, []byte(s), 0o644)
}

// copyTree copies the non-test Go sources (and embedded templates) of a module.
func copyTree(src, dst string, keep func(rel string, d fs.DirEntry) bool) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if rel != "." && !keep(rel, d) {
			if d.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}

func goOnly(rel string, d fs.DirEntry) bool {
	n := d.Name()
	if d.IsDir() {
		return n != "testdata" && n != ".git" && n != "bootstrap" && n != "benchmark" && n != "tests" && n != "test" && n != "gen" && n != "parser"
	}
	if strings.HasSuffix(n, "_test.go") {
		return false
	}
	return strings.HasSuffix(n, ".go") || n == "go.mod" || strings.HasSuffix(n, ".tpl")
}

// modVersion finds the replace/require target of a module in a go.mod.
func modVersion(gomod, mod string) string {
	v := ""
	for _, l := range strings.Split(gomod, "\n") {
		f := strings.Fields(strings.TrimPrefix(strings.TrimSpace(l), "require "))
		if i := strings.Index(l, "=>"); i >= 0 && strings.Contains(l[:i], mod+" ") {
			g := strings.Fields(l[i+2:])
			if len(g) == 2 {
				return g[0] + "@" + g[1]
			}
			continue
		}
		if len(f) >= 2 && f[0] == mod && v == "" {
			v = f[0] + "@" + f[1]
		}
	}
	return v
}

func (w *workspace) target(sub ...string) error {
	for _, s := range sub {
		err := fs.WalkDir(targetFS, "_target/"+s, func(p string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() {
				return err
			}
			b, err := targetFS.ReadFile(p)
			if err != nil {
				return err
			}
			return write(w.path(strings.TrimPrefix(p, "_target/")), string(b))
		})
		if err != nil {
			return err
		}
	}
	return nil
}

// deps copies and instruments the run-time dependencies of the generated code.
func (w *workspace) depCopy(name, modAt string, yields bool, subdirs []string) error {
	src := filepath.Join(w.modcache, modAt)
	dst := w.path("dep", name)
	if err := copyTree(src, dst, goOnly); err != nil {
		return fmt.Errorf("%s: %w", modAt, err)
	}
	path := strings.SplitN(modAt, "@", 2)[0]
	for _, sd := range subdirs {
		if err := w.in.dir(filepath.Join(dst, sd), filepath.Join(path, sd), yields, nil); err != nil {
			return fmt.Errorf("instrument %s/%s: %w", name, sd, err)
		}
	}
	return nil
}

func (w *workspace) fixtureMod() (string, string, error) {
	gm, err := os.ReadFile(filepath.Join(w.repo, "test/tests/fill/go.mod"))
	if err != nil {
		return "", "", err
	}
	gs, err := os.ReadFile(filepath.Join(w.repo, "test/tests/fill/go.sum"))
	return string(gm), string(gs), err
}

// buildGentool compiles the plain generator of the working tree.
func (w *workspace) buildGentool() (string, error) {
	d := w.path("gentool")
	repoSum, _ := os.ReadFile(filepath.Join(w.repo, "go.sum"))
	repoMod, err := os.ReadFile(filepath.Join(w.repo, "go.mod"))
	if err != nil {
		return "", err
	}
	mod := "module gentool\n\ngo 1.18\n\nrequire github.com/iv-menshenin/valyjson v0.0.0\n\nreplace github.com/iv-menshenin/valyjson => " + w.repo + "\n"
	for _, l := range strings.Split(string(repoMod), "\n") {
		if strings.HasPrefix(strings.TrimSpace(l), "replace ") {
			mod += l + "\n"
		}
	}
	write(filepath.Join(d, "go.mod"), mod)
	write(filepath.Join(d, "go.sum"), string(repoSum))
	write(filepath.Join(d, "main.go"), gentoolSrc)
	out, err := w.run(d, "", "go", "build", "-o", "gentool.bin", ".")
	if err != nil {
		return "", fmt.Errorf("building the generator: %v\n%s", err, out)
	}
	return filepath.Join(d, "gentool.bin"), nil
}

const gentoolSrc = `package main

import (
	"bufio"
	"fmt"
	"os"
	"strings"

	"github.com/iv-menshenin/valyjson/generator"
)

func gen(in, out string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	g := generator.New(in)
	if err := g.Parse(); err != nil {
		return err
	}
	g.BuildDecoders()
	g.BuildEncoders()
	g.FixImports()
	g.Print(out)
	return nil
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		f := strings.Fields(sc.Text())
		if err := gen(f[0], f[1]); err != nil {
			fmt.Printf("GENFAIL %s %s\n", f[0], strings.ReplaceAll(err.Error(), "\n", " "))
		} else {
			fmt.Printf("GENOK %s\n", f[0])
		}
	}
}
`

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			f(i)
			<-sem
		}()
	}
	wg.Wait()
}

// codecWorkspace prepares and builds the harness for the generated codecs.
func (w *workspace) buildCodec(pkgs []corpPkg) (string, error) {
	t0 := time.Now()
	lap := func(s string) { w.timing[s] = time.Since(t0).Seconds(); t0 = time.Now() }
	gm, gs, err := w.fixtureMod()
	if err != nil {
		return "", err
	}
	fj := modVersion(gm, fastjsonPath)
	ej := modVersion(gm, "github.com/mailru/easyjson")
	if fj == "" || ej == "" {
		return "", fmt.Errorf("cannot find fastjson/easyjson versions in test/tests/fill/go.mod")
	}
	corpMod := strings.Replace(gm, "module fill", "module vcorp", 1)
	// generation, from copies of the sources
	tool, err := w.buildGentool()
	if err != nil {
		return "", err
	}
	lap("gentool")
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	var mu sync.Mutex
	failed := map[string]string{}
	parallel(nw, func(k int) {
		root := w.path("gen", fmt.Sprint(k))
		write(filepath.Join(root, "go.mod"), corpMod)
		for _, p := range pkgs {
			for n, s := range p.files {
				write(filepath.Join(root, p.name, n), s)
			}
		}
		var in strings.Builder
		mine := map[string]bool{}
		for i, p := range pkgs {
			if i%nw != k {
				continue
			}
			mine[p.name] = true
			for _, f := range p.gen {
				fmt.Fprintf(&in, "%s %s\n", filepath.Join(root, p.name, f), filepath.Join(root, p.name, f+".out.go"))
			}
		}
		if len(mine) == 0 {
			return
		}
		out, err := w.run(root, in.String(), tool)
		mu.Lock()
		defer mu.Unlock()
		okFiles := map[string]bool{}
		for _, l := range strings.Split(out, "\n") {
			f := strings.SplitN(l, " ", 3)
			if f[0] == "GENOK" {
				okFiles[f[1]] = true
			}
			if f[0] == "GENFAIL" {
				failed[filepath.Base(filepath.Dir(f[1]))] = "generator: " + f[2]
			}
		}
		for p := range mine {
			if _, bad := failed[p]; !bad && err != nil {
				for _, q := range pkgs {
					if q.name != p {
						continue
					}
					for _, f := range q.gen {
						if !okFiles[filepath.Join(root, p, f)] {
							failed[p] = "generator died: " + firstLine(out)
						}
					}
				}
			}
		}
	})
	for i, p := range pkgs {
		if msg, bad := failed[p.name]; bad {
			w.dropped = append(w.dropped, p.name+": "+msg)
			continue
		}
		src := w.path("gen", fmt.Sprint(i%nw), p.name)
		if err := copyTree(src, w.path("corp", p.name), func(string, fs.DirEntry) bool { return true }); err != nil {
			return "", err
		}
		w.pkgs = append(w.pkgs, p.name)
	}
	os.RemoveAll(w.path("gen"))
	write(w.path("corp", "go.mod"), corpMod)
	lap("generate")

	if err := w.depCopy("fastjson", fj, true, []string{".", "fastfloat"}); err != nil {
		return "", err
	}
	if err := w.depCopy("easyjson", ej, true, []string{"jwriter", "buffer"}); err != nil {
		return "", err
	}
	if err := w.target("simrt", "harness"); err != nil {
		return "", err
	}
	mod := "module vsimw\n\ngo 1.24\n\nrequire vcorp v0.0.0\n\n"
	for _, l := range strings.Split(gm, "\n") {
		if strings.HasPrefix(l, "module ") || strings.HasPrefix(l, "go ") || strings.HasPrefix(l, "replace ") {
			continue
		}
		mod += l + "\n"
	}
	mod += "\nreplace vcorp => ./corp\nreplace " + fastjsonPath + " => ./dep/fastjson\nreplace github.com/mailru/easyjson => ./dep/easyjson\n"
	write(w.path("go.mod"), mod)
	write(w.path("go.sum"), gs)
	ov := w.path("overlay")
	os.MkdirAll(ov, 0o755)
	ovf, err := writeOverlay(w.goroot, ov, false)
	if err != nil {
		return "", err
	}
	// instrument corpora
	for _, p := range w.pkgs {
		d := w.path("corp", p)
		if err := w.in.dir(d, "vcorp/"+p, true, codecTypes(d)); err != nil {
			return "", fmt.Errorf("instrument corpora %s: %w", p, err)
		}
	}
	lap("instrument")
	// compile, dropping packages that do not
	bin := w.path("harness.bin")
	for try := 0; ; try++ {
		var imp strings.Builder
		imp.WriteString("package main\n\nimport (\n")
		sort.Strings(w.pkgs)
		for _, p := range w.pkgs {
			fmt.Fprintf(&imp, "\t_ \"vcorp/%s\"\n", p)
		}
		imp.WriteString(")\n")
		write(w.path("harness", "corpora.go"), imp.String())
		out, err := w.run(w.dir, "", "go", "build", "-gcflags=-e", "-overlay", ovf, "-o", bin, "./harness")
		if err == nil {
			break
		}
		bad := map[string]string{}
		cur := ""
		for _, l := range strings.Split(out, "\n") {
			if strings.HasPrefix(l, "# vcorp/") {
				cur = strings.TrimPrefix(l, "# vcorp/")
				cur = strings.Fields(cur)[0]
			} else if strings.HasPrefix(l, "# ") {
				cur = ""
			} else if cur != "" && bad[cur] == "" {
				bad[cur] = "does not compile: " + l
			}
		}
		if len(bad) == 0 || try > 4 {
			return "", fmt.Errorf("building the harness: %v\n%s", err, clip(out, 4000))
		}
		var keep []string
		for _, p := range w.pkgs {
			if m, b := bad[p]; b {
				w.dropped = append(w.dropped, p+": "+m)
				os.RemoveAll(w.path("corp", p))
			} else {
				keep = append(keep, p)
			}
		}
		w.pkgs = keep
		if len(w.pkgs) == 0 {
			return "", fmt.Errorf("no corpora package compiles:\n%s", clip(out, 4000))
		}
	}
	lap("compile")
	return bin, nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// buildGen: see gen.go
