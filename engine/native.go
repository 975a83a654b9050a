package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// nativeBuild compiles the harnesses with the real libraries, from the working tree, through an overlay.
type nativeBuild struct {
	dir       string // scratch
	bin       string
	err       error
	ready     chan struct{}
	exponents bool
	runs      int
	mu        sync.Mutex
}

const runnerSrc = `// Package main runs one harness natively.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"

	"pol/zzverif/h"
	"pol/zzverif/jitter"
	"pol/zzverif/nd"
)

var registry = map[string]func(){
%s}

func main() {
	var spec struct {
		Harness    string
		Params     map[string]int64
		Assignment map[string]string
		Seed       int64
		Jitter     int64
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &spec); err != nil {
		panic(err)
	}
	nd.S.Params = spec.Params
	nd.S.Assign = spec.Assignment
	nd.S.Rnd = rand.New(rand.NewSource(spec.Seed))
	jitter.Init(spec.Jitter, %d, %d)
	nd.S.Stubs = %v
	f := registry[spec.Harness]
	if f == nil {
		panic("no harness " + spec.Harness)
	}
	f()
	fmt.Println("ND OK")
}
`

func startNative(harnessDir string, harnesses []string, exponents, race bool) *nativeBuild {
	nb := &nativeBuild{ready: make(chan struct{}), exponents: exponents}
	var err error
	nb.dir, err = os.MkdirTemp("", "verif-native-")
	if err != nil {
		nb.err = err
		close(nb.ready)
		return nb
	}
	go func() {
		defer close(nb.ready)
		nb.err = nb.build(harnessDir, harnesses, race, race)
		if nb.err != nil && race {
			nb.err = nb.build(harnessDir, harnesses, race, false)
		}
	}()
	return nb
}

func (nb *nativeBuild) build(harnessDir string, harnesses []string, race, instr bool) error {
	repl := map[string]string{}
	for _, sub := range []string{"nd", "h", "sha256", "jitter"} {
		fs, _ := filepath.Glob(filepath.Join(harnessDir, sub, "*.go"))
		for _, f := range fs {
			repl[filepath.Join(repoDir, "zzverif", sub, filepath.Base(f))] = f
		}
	}
	var reg strings.Builder
	sort.Strings(harnesses)
	last := ""
	for _, h := range harnesses {
		if h != last {
			fmt.Fprintf(&reg, "\t%q: h.%s,\n", h, h)
		}
		last = h
	}
	modfile := ""
	if nb.exponents {
		// group elements are their discrete logarithms
		cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", mathlibPath)
		cmd.Dir = repoDir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
		out, err := cmd.Output()
		if err != nil {
			return fmt.Errorf("native build: %v", err)
		}
		// overlays may not reach into the module cache: a copy of the module is built instead
		from, to := strings.TrimSpace(string(out)), filepath.Join(nb.dir, "mathlib")
		err = filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(from, p)
			if fi.IsDir() {
				return os.MkdirAll(filepath.Join(to, rel), 0o755)
			}
			if strings.HasSuffix(p, "_test.go") || (!strings.HasSuffix(p, ".go") && filepath.Base(p) != "go.mod") {
				return nil
			}
			b, err := os.ReadFile(p)
			if err == nil && filepath.ToSlash(rel) == "driver/gurvy/bn254.go" {
				b, err = os.ReadFile(filepath.Join(harnessDir, "expgroup", "bn254.go"))
			}
			if err != nil {
				return err
			}
			return os.WriteFile(filepath.Join(to, rel), b, 0o644)
		})
		if err != nil {
			return err
		}
		mod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
		if err != nil {
			return err
		}
		mod = append(mod, []byte(fmt.Sprintf("\nreplace %s => %s\n", mathlibPath, to))...)
		sum, err := os.ReadFile(filepath.Join(repoDir, "go.sum"))
		if err != nil {
			return err
		}
		modfile = filepath.Join(nb.dir, "exp.mod")
		if err := os.WriteFile(modfile, mod, 0o644); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(nb.dir, "exp.sum"), sum, 0o644); err != nil {
			return err
		}
	}
	// the code under test with its hash function going through the tracer
	n, sites, lits := 0, 0, 0
	stubbed := map[string]bool{}
	{
		// contracts that hold natively, too, and those that only do where schedules are replayed
		re := regexp.MustCompile(`nd\.Replace\("([^"]+)"`)
		if instr {
			re = regexp.MustCompile(`nd\.(?:Stub|Replace)\("([^"]+)"`)
		}
		fs, _ := filepath.Glob(filepath.Join(harnessDir, "h", "*.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, m := range re.FindAllStringSubmatch(string(b), -1) {
				stubbed[m[1]] = true
			}
		}
	}
	filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") && p != repoDir {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, p, b, 0)
		if err != nil {
			return nil
		}
		type edit struct {
			off, del int
			ins      string
		}
		var es []edit
		for _, im := range af.Imports {
			if path, _ := strconv.Unquote(im.Path.Value); path == "crypto/sha256" {
				es = append(es, edit{fs.Position(im.Path.Pos()).Offset, len(im.Path.Value), `"pol/zzverif/sha256"`})
			}
		}
		// the conversion of digests to scalars goes through the tracer, too
		if filepath.Base(filepath.Dir(p)) == "common" {
			traced := false
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || fd.Body == nil || fd.Name.Name != "FieldElementFromBytes" {
					continue
				}
				if l := fd.Type.Params.List; len(l) == 1 && len(l[0].Names) == 1 {
					if at, ok := l[0].Type.(*ast.ArrayType); ok && at.Len == nil {
						es = append(es, edit{fs.Position(fd.Body.Lbrace).Offset + 1, 0, fmt.Sprintf(" zztrace.TraceChallenge(%s); ", l[0].Names[0].Name)})
						traced = true
					}
				}
			}
			if traced {
				es = append(es, edit{fs.Position(af.Name.End()).Offset, 0, `; import zztrace "pol/zzverif/nd"`})
			}
		}
		if instr && !strings.Contains(p, "zzverif") {
			conc := false
			ast.Inspect(af, func(n ast.Node) bool {
				if _, ok := n.(*ast.GoStmt); ok {
					conc = true
				}
				return true
			})
			es = append(es, edit{fs.Position(af.Name.End()).Offset, 0, `; import zzjitter "pol/zzverif/jitter"`}, edit{len(b), 0, "\nvar _ = zzjitter.Beat\n"})
			var walk func(n ast.Node, lit bool)
			body := func(l []ast.Stmt, lit bool) {
				for _, s := range l {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return
					}
					call := "zzjitter.Beat(); "
					if conc && lit {
						call = fmt.Sprintf("zzjitter.Point(%d); ", 1000000+lits)
						lits++
					} else if conc {
						call = fmt.Sprintf("zzjitter.Point(%d); ", sites)
						sites++
					}
					es = append(es, edit{fs.Position(s.Pos()).Offset, 0, call})
				}
			}
			walk = func(n ast.Node, lit bool) {
				ast.Inspect(n, func(m ast.Node) bool {
					switch x := m.(type) {
					case *ast.FuncLit:
						if !lit {
							walk(x.Body, true)
							return false
						}
					case *ast.BlockStmt:
						body(x.List, lit)
					case *ast.CaseClause:
						body(x.Body, lit)
					case *ast.CommClause:
						body(x.Body, lit)
					}
					return true
				})
			}
			walk(af, false)
		}
		if !strings.Contains(p, "zzverif") {
			// functions that a harness replaces
			needND := false
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || fd.Type.TypeParams != nil {
					continue
				}
				rel, _ := filepath.Rel(repoDir, filepath.Dir(p))
				name := "pol/" + rel + "." + fd.Name.Name
				recv, self := "", ""
				if fd.Recv != nil {
					st, ok := fd.Recv.List[0].Type.(*ast.StarExpr)
					if !ok || len(fd.Recv.List[0].Names) != 1 {
						continue
					}
					id, ok := st.X.(*ast.Ident)
					if !ok {
						continue
					}
					name = "(*pol/" + rel + "." + id.Name + ")." + fd.Name.Name
					self = fd.Recv.List[0].Names[0].Name
					recv = self + " *" + id.Name
				}
				if !stubbed[name] {
					continue
				}
				sig := string(b[fs.Position(fd.Type.Params.Pos()).Offset:fs.Position(fd.Type.End()).Offset])
				var args []string
				plain := self != "_"
				if recv != "" {
					args = append(args, self)
					if fd.Type.Params.NumFields() > 0 {
						recv += ", "
					}
					sig = "(" + recv + sig[1:]
				}
				for _, f := range fd.Type.Params.List {
					if _, ok := f.Type.(*ast.Ellipsis); ok || len(f.Names) == 0 {
						plain = false
					}
					for _, n := range f.Names {
						plain = plain && n.Name != "_"
						args = append(args, n.Name)
					}
				}
				if !plain || fd.Type.Results.NumFields() == 0 {
					continue
				}
				es = append(es, edit{fs.Position(fd.Body.Lbrace).Offset + 1, 0,
					fmt.Sprintf(" if zzf, ok := zznd.Stubbed(%q).(func%s); ok { return zzf(%s) }; ", name, sig, strings.Join(args, ", "))})
				if !needND {
					needND = true
					es = append(es, edit{fs.Position(af.Name.End()).Offset, 0, `; import zznd "pol/zzverif/nd"`}, edit{len(b), 0, "\nvar _ = zznd.Stubbed\n"})
				}
			}
		}
		if len(es) == 0 {
			return nil
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].off > es[j].off })
		out := string(b)
		for _, e := range es {
			out = out[:e.off] + e.ins + out[e.off+e.del:]
		}
		n++
		f := filepath.Join(nb.dir, fmt.Sprintf("src%d.go", n))
		if os.WriteFile(f, []byte(out), 0o644) == nil {
			repl[p] = f
		}
		return nil
	})
	main := filepath.Join(nb.dir, "main.go")
	if err := os.WriteFile(main, []byte(fmt.Sprintf(runnerSrc, reg.String(), sites, lits, instr)), 0o644); err != nil {
		return err
	}
	repl[filepath.Join(repoDir, "zzverif", "run", "main.go")] = main
	oj, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	of := filepath.Join(nb.dir, "overlay.json")
	if err := os.WriteFile(of, oj, 0o644); err != nil {
		return err
	}
	nb.bin = filepath.Join(nb.dir, "run")
	args := []string{"build", "-overlay", of, "-o", nb.bin}
	if race {
		args = append(args, "-race")
	}
	if modfile != "" {
		args = append(args, "-modfile="+modfile)
	}
	args = append(args, "./zzverif/run")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v: %s", err, out)
	}
	return nil
}

func (nb *nativeBuild) close() {
	<-nb.ready
	if nb.dir != "" {
		os.RemoveAll(nb.dir)
	}
}

type nativeSpec struct {
	Harness    string            `json:"harness"`
	Params     map[string]int64  `json:"params"`
	Assignment map[string]string `json:"assignment"`
	Seed       int64             `json:"seed"`
	Jitter     int64             `json:"jitter,omitempty"`
}

// run executes a harness natively. status: ok, fail, assume, panic, timeout, error.
func (nb *nativeBuild) run(sp nativeSpec, timeout time.Duration) (status, msg string) {
	<-nb.ready
	if nb.err != nil {
		return "error", nb.err.Error()
	}
	nb.mu.Lock()
	nb.runs++
	f := filepath.Join(nb.dir, fmt.Sprintf("in%d.json", nb.runs))
	nb.mu.Unlock()
	b, _ := json.Marshal(sp)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return "error", err.Error()
	}
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, nb.bin, f)
	cmd.Dir = nb.dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=6GiB", "GOTRACEBACK=single")
	cmd.WaitDelay = 2 * time.Second
	out, err := cmd.CombinedOutput()
	txt := string(out)
	if ctx.Err() != nil {
		return "timeout", "does not return within " + timeout.String()
	}
	last := ""
	for _, l := range strings.Split(txt, "\n") {
		if strings.HasPrefix(l, "ND ") {
			last = l
		}
	}
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	switch {
	case code == 0 && last == "ND OK":
		return "ok", ""
	case code == 3 && strings.HasPrefix(last, "ND FAIL"):
		return "fail", strings.TrimSpace(strings.TrimPrefix(last, "ND FAIL"))
	case code == 4:
		return "assume", ""
	case code == 66 || strings.Contains(txt, "WARNING: DATA RACE"):
		return "race", clip(txt, 1500)
	case code == 2 && (strings.Contains(txt, "panic:") || strings.Contains(txt, "fatal error:") || strings.Contains(txt, "goroutine ")):
		return "panic", clip(txt, 600)
	}
	return "error", fmt.Sprintf("exit %d: %s", code, clip(txt, 400))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// harnessNames lists the harness functions of the harness package.
func harnessNames(dir string) []string {
	var out []string
	fs := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(dir, "h", "*.go"))
	for _, p := range files {
		af, err := parser.ParseFile(fs, p, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Type.Params.NumFields() == 0 && fd.Type.Results.NumFields() == 0 && ast.IsExported(fd.Name.Name) && strings.HasPrefix(fd.Name.Name, "H") {
				out = append(out, fd.Name.Name)
			}
		}
	}
	return out
}
