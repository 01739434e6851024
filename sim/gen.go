package main

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"time"
)

const goAstPath = "github.com/iv-menshenin/go-ast"

// genData is what the generator's harness gets to build scenarios from.
type genData struct {
	Fixtures map[string]string // the fixture module without generated files
	FixJobs  []string          // its source files with declarations to generate for
	Corpora  []genCorp
}

type genCorp struct {
	Name  string
	Files map[string]string
	Gen   []string
}

// buildGen compiles the generator of the working tree into a harness in which
// every file-system call goes to the simulated file system.
func (w *workspace) buildGen(pkgs []corpPkg) (string, error) {
	t0 := time.Now()
	lap := func(s string) { w.timing[s] = time.Since(t0).Seconds(); t0 = time.Now() }
	gm, err := os.ReadFile(filepath.Join(w.repo, "go.mod"))
	if err != nil {
		return "", err
	}
	gs, _ := os.ReadFile(filepath.Join(w.repo, "go.sum"))
	ga := modVersion(string(gm), goAstPath)
	if ga == "" {
		return "", fmt.Errorf("cannot find the version of go-ast in go.mod")
	}
	// the generator itself, with the command in main.go as a package
	dst := w.path("dep", "valyjson")
	var dirs []string
	err = filepath.WalkDir(filepath.Join(w.repo, "generator"), func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(w.repo, p)
		if d.IsDir() {
			if d.Name() == "testdata" {
				return filepath.SkipDir
			}
			dirs = append(dirs, rel)
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if strings.HasSuffix(d.Name(), "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
	if err != nil {
		return "", err
	}
	write(filepath.Join(dst, "go.mod"), string(gm))
	write(filepath.Join(dst, "go.sum"), string(gs))
	cli := false
	if b, err := os.ReadFile(filepath.Join(w.repo, "main.go")); err == nil {
		s := string(b)
		if strings.Count(s, "\nfunc main() {") == 1 && strings.Count(s, "package main\n") == 1 {
			s = strings.Replace(s, "package main\n", "package cli\n", 1)
			s = strings.Replace(s, "\nfunc main() {", "\nfunc Main() {", 1)
			write(filepath.Join(dst, "cli", "main.go"), s)
			dirs = append(dirs, "cli")
			cli = true
		}
	}
	if err := w.depCopy("go-ast", ga, true, []string{".", "explorer"}); err != nil {
		return "", err
	}
	for _, d := range dirs {
		ents, _ := os.ReadDir(filepath.Join(dst, d))
		has := false
		for _, e := range ents {
			has = has || strings.HasSuffix(e.Name(), ".go")
		}
		if !has {
			continue
		}
		if err := w.in.dir(filepath.Join(dst, d), "github.com/iv-menshenin/valyjson/"+d, true, nil); err != nil {
			return "", fmt.Errorf("instrument %s: %w", d, err)
		}
	}
	lap("instrument")
	if err := w.target("simrt", "genh"); err != nil {
		return "", err
	}
	if cli {
		write(w.path("genh", "cli.go"), "package main\n\nimport \"github.com/iv-menshenin/valyjson/cli\"\n\nfunc init() { cliMain = cli.Main }\n")
	}
	mod := "module vsimw\n\ngo 1.24\n\nrequire github.com/iv-menshenin/valyjson v0.0.0\n\n"
	for _, l := range strings.Split(string(gm), "\n") {
		if strings.HasPrefix(l, "module ") || strings.HasPrefix(l, "go ") || strings.Contains(l, "=>") && strings.Contains(l, goAstPath) {
			continue
		}
		mod += l + "\n"
	}
	mod += "\nreplace github.com/iv-menshenin/valyjson => ./dep/valyjson\nreplace " + goAstPath + " => ./dep/go-ast\n"
	write(w.path("go.mod"), mod)
	write(w.path("go.sum"), string(gs))
	ov := w.path("overlay")
	os.MkdirAll(ov, 0o755)
	ovf, err := writeOverlay(w.goroot, ov, true)
	if err != nil {
		return "", err
	}
	data := genData{Fixtures: map[string]string{}}
	root := filepath.Join(w.repo, "test/tests/fill")
	err = filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		n := d.Name()
		if n != "go.mod" && !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, ".out.go") || n == "valyjson_utils.go" || strings.HasSuffix(n, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		data.Fixtures[rel] = string(b)
		if strings.Contains(string(b), "//json:") || strings.Contains(string(b), "// json:") {
			data.FixJobs = append(data.FixJobs, rel)
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	for _, p := range pkgs {
		data.Corpora = append(data.Corpora, genCorp{p.name, p.files, p.gen})
	}
	b, _ := json.Marshal(data)
	if err := os.WriteFile(w.path("gendata.json"), b, 0o644); err != nil {
		return "", err
	}
	bin := w.path("harness.bin")
	out, err := w.run(w.dir, "", "go", "build", "-gcflags=-e", "-overlay", ovf, "-o", bin, "./genh")
	if err != nil {
		return "", fmt.Errorf("building the generator's harness: %v\n%s", err, clip(out, 4000))
	}
	lap("compile")
	return bin, nil
}
