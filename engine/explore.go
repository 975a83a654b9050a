package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	rtdebug "runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const harnessPkg = "pol/zzverif/h"

// repoDir is the code under test; VERIF_REPO names a scratch copy while checks are developed.
var repoDir = func() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

// Spec is one entry of props.json.
type Spec struct {
	H      string           `json:"h"`
	Params map[string]int64 `json:"params,omitempty"`
	Steps  int64            `json:"steps,omitempty"` // instruction bound of a path
	Paths  int              `json:"paths,omitempty"` // bound on the number of paths
	Reach  []string         `json:"reach,omitempty"` // labels that must be reached
	Native int              `json:"native,omitempty"`
	Race   bool             `json:"race,omitempty"`
}

type Prop struct {
	Bounds      string   `json:"bounds"`
	Assumptions []string `json:"assumptions"`
	Budget      int      `json:"budget,omitempty"`
	Exponents   bool     `json:"exponents,omitempty"` // native runs use discrete logarithms for group elements
	Quick       []Spec   `json:"quick"`
	Thorough    []Spec   `json:"thorough"`
}

type harnessRun struct {
	spec    *Spec
	fn      *ssa.Function
	mu      sync.Mutex
	paths   int
	queued  int
	outcome map[string]int
	incon   map[string]int
	notes   map[string]bool
	reached map[string]int
	asserts int
	steps   int64
	maxStep int64
	forks   int64
	valid   []*Violation // models of completed paths, for replay
	dropped int
	t0      time.Time
	secs    float64
	nvalid  int
	gen     int // starts over without a merge that hid the identity of an object
	noMerge map[string]bool
}

type job struct {
	Harness string
	hr      *harnessRun
	prefix  []int
	gen     int
	noMerge map[string]bool
}

type explorer struct {
	prog     *ssa.Program
	hpkg     *ssa.Package
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*job
	active   int
	stop     bool
	deadline time.Time
	timedOut bool
	stats    Stats
	funcs    map[*ssa.Function]bool
	cands    []*Violation
	seen     map[string]int
	onCand   func(v *Violation)
	samples  []interface{}
	idents   int
	solverTO int
	thorough bool
}

type worker struct {
	ex         *explorer
	c          *Ctx
	s          *Solver
	st         Stats
	job        *job
	shared     map[*ssa.Global]*value
	sharedInit map[*ssa.Package]bool
	npaths     int
	idents     int
	spans      int
}

func (w *worker) fresh() {
	if w.s != nil {
		w.s.Close()
	}
	w.c = NewCtx()
	w.s = NewSolver(w.c, &w.st, w.ex.solverTO)
	w.shared = map[*ssa.Global]*value{}
	w.sharedInit = map[*ssa.Package]bool{}
	w.npaths = 0
}

// loadProgram loads the code under test, as it is in the working tree, with the harness on top.
func loadProgram(harnessDir string) (*ssa.Program, *ssa.Package, map[string][]byte, error) {
	ov := map[string][]byte{}
	for _, sub := range []string{"nd", "h"} {
		fs, _ := filepath.Glob(filepath.Join(harnessDir, sub, "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, nil, nil, err
			}
			ov[filepath.Join(repoDir, "zzverif", sub, filepath.Base(f))] = b
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: ov,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	ps, err := packages.Load(cfg, "./zzverif/h")
	if err != nil {
		return nil, nil, nil, err
	}
	if packages.PrintErrors(ps) > 0 {
		return nil, nil, nil, fmt.Errorf("the code does not compile with the harness")
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	var hp *ssa.Package
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == harnessPkg {
			hp = p
		}
	}
	if hp == nil {
		return nil, nil, nil, fmt.Errorf("no harness package")
	}
	buildPkg(hp)
	return prog, hp, ov, nil
}

func (ex *explorer) push(js ...*job) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, js...)
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func (ex *explorer) pop() *job {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return nil
		}
		if time.Now().After(ex.deadline) {
			if len(ex.queue) > 0 {
				ex.timedOut = true
				for _, j := range ex.queue {
					j.hr.dropped++
				}
				ex.queue = nil
			}
			ex.cond.Broadcast()
			return nil
		}
		if n := len(ex.queue); n > 0 {
			j := ex.queue[n-1]
			ex.queue = ex.queue[:n-1]
			if j.gen != j.hr.gen {
				continue
			}
			if j.hr.spec.Paths > 0 && j.hr.paths >= j.hr.spec.Paths {
				j.hr.dropped++
				continue
			}
			j.hr.paths++
			ex.active++
			return j
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (ex *explorer) done() {
	ex.mu.Lock()
	ex.active--
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func (ex *explorer) run(hrs []*harnessRun, workers int) {
	for i := len(hrs) - 1; i >= 0; i-- {
		ex.queue = append(ex.queue, &job{Harness: hrs[i].spec.H, hr: hrs[i]})
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		w := &worker{ex: ex}
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.fresh()
			for {
				j := ex.pop()
				if j == nil {
					break
				}
				if w.npaths > 0 && (w.npaths > 400 || w.c.nterm > 1500000 || len(w.c.monos) > 3000000) {
					w.fresh()
				}
				w.npaths++
				w.path(j)
				ex.done()
			}
			w.s.Close()
			ex.mu.Lock()
			ex.stats.merge(&w.st)
			ex.idents += w.idents
			ex.mu.Unlock()
		}()
	}
	wg.Wait()
}

func (s *Stats) merge(o *Stats) {
	s.queries += o.queries
	s.sat += o.sat
	s.unsat += o.unsat
	s.unknown += o.unknown
	s.solverNs += o.solverNs
	s.groupEqs += o.groupEqs
	s.identUnsat += o.identUnsat
	s.identUnknown += o.identUnknown
	s.identSat += o.identSat
	s.identSkipped += o.identSkipped
	s.spanUnsat += o.spanUnsat
	s.spanUnknown += o.spanUnknown
	s.spanSkipped += o.spanSkipped
	s.blasted += o.blasted
	s.merges += o.merges
	s.trivial += o.trivial
	s.paths += o.paths
	if o.slowest > s.slowest {
		s.slowest = o.slowest
	}
}

func (w *worker) newInterp(j *job) *Interp {
	ex := w.ex
	w.c.subst = map[int32]*Poly{}
	w.s.reset()
	in := &Interp{c: w.c, s: w.s, prog: ex.prog, st: &w.st, w: w,
		globals: map[*ssa.Global]*value{}, shared: w.shared, sharedInit: w.sharedInit, inited: map[*ssa.Package]bool{},
		prefix: j.prefix, noMergeAt: j.noMerge, phi: map[interface{}]string{}, pcSet: map[*Term]bool{}, ub: map[*Term]*big.Int{}, fresh: map[*value]bool{}, ndIdx: map[string]*ndVar{},
		reached: map[string]bool{}, notes: map[string]bool{}, stubs: map[string]value{}, funcs: map[*ssa.Function]bool{},
		syncs: map[*value]*gsync{}, initing: map[*ssa.Package]bool{}, params: j.hr.spec.Params,
		shadow: map[interface{}]*shadow{}, races: map[string]bool{}, syncVC: map[interface{}]map[int]int{},
		thorough: ex.thorough,
	}
	in.maxSteps = j.hr.spec.Steps
	if in.maxSteps == 0 {
		in.maxSteps = 60000000
	}
	in.deadline = func() bool { return time.Now().After(ex.deadline) || ex.stop }
	in.curPos = func() string {
		for f := in.curFr; f != nil; f = f.caller {
			if f.curInstr != nil && f.curInstr.Pos().IsValid() && isPol(fnPkgPath(f.fn)) {
				p := in.prog.Fset.Position(f.curInstr.Pos())
				return fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
			}
		}
		return "?"
	}
	in.initSched()
	return in
}

func (w *worker) path(j *job) {
	w.job = j
	in := w.newInterp(j)
	hr := j.hr
	t0 := time.Now()
	kind, msg := w.exec(in, hr)
	in.killGors()
	if time.Since(t0) > 3*time.Second {
		debugf("slow path %s %v: %v %s", j.Harness, j.prefix, time.Since(t0), kind)
	}
	switch kind {
	case "panic":
		in.violateSafe("panic", "panic: "+msg)
	case "crash":
		in.violateSafe("crash", msg)
	case "steps":
		in.violateSafe("steps", "does not terminate within the instruction bound: "+msg)
	}
	w.st.paths++
	// a model of a completed path is replayed natively
	if kind == "ok" {
		hr.mu.Lock()
		want := hr.nvalid < hr.validTarget() || (hr.outcome["ok"]%7 == 3 && hr.nvalid < 2*hr.validTarget())
		if want {
			hr.nvalid++
		}
		hr.mu.Unlock()
		if want && len(in.viols) == 0 {
			func() {
				defer func() { recover() }()
				if r, m := in.model(); r == Sat {
					hr.mu.Lock()
					hr.valid = append(hr.valid, &Violation{Harness: j.Harness, Params: in.params, Assign: m, Kind: "path"})
					hr.mu.Unlock()
				}
			}()
		}
	}
	ex := w.ex
	if kind == "unmerge" {
		ex.mu.Lock()
		if !hr.noMerge[msg] {
			nm := map[string]bool{msg: true}
			for k := range hr.noMerge {
				nm[k] = true
			}
			hr.noMerge = nm
			hr.gen++
			hr.paths = 0
			ex.queue = append(ex.queue, &job{Harness: j.Harness, hr: hr, gen: hr.gen, noMerge: nm})
			ex.cond.Broadcast()
			debugf("no merge at %s", msg)
		}
		ex.mu.Unlock()
	}
	debugf("path %s %v: %s %s (%v, %d steps, %d asserts)", j.Harness, in.decisions, kind, msg, time.Since(t0).Round(time.Millisecond), in.steps, in.asserts)
	hr.mu.Lock()
	hr.outcome[kind]++
	hr.asserts += in.asserts
	hr.steps += in.steps
	if in.steps > hr.maxStep {
		hr.maxStep = in.steps
	}
	hr.forks += int64(len(in.forks))
	hr.secs += time.Since(t0).Seconds()
	for _, s := range in.incon {
		hr.incon[s]++
	}
	for s := range in.notes {
		hr.notes[s] = true
	}
	for s := range in.reached {
		hr.reached[s]++
	}
	if kind == "unsupported" || kind == "time" || kind == "error" {
		hr.incon[kind+": "+msg]++
	}
	hr.mu.Unlock()
	var js []*job
	for _, f := range in.forks {
		js = append(js, &job{Harness: j.Harness, hr: hr, prefix: f, gen: j.gen, noMerge: j.noMerge})
	}
	ex.mu.Lock()
	if j.gen != hr.gen {
		js = nil
	}
	for f := range in.funcs {
		ex.funcs[f] = true
	}
	var news []*Violation
	for _, v := range in.viols {
		k := v.Harness + "|" + v.Msg
		ex.seen[k]++
		if ex.seen[k] <= 60 {
			ex.cands = append(ex.cands, v)
			news = append(news, v)
		}
	}
	ex.mu.Unlock()
	for _, v := range news {
		ex.onCand(v)
	}
	ex.push(js...)
}

func (hr *harnessRun) validTarget() int {
	if hr.spec.Native < 0 {
		return 0
	}
	if hr.spec.Native > 0 {
		return hr.spec.Native
	}
	return 3
}

func (in *Interp) violateSafe(kind, msg string) {
	defer func() {
		if r := recover(); r != nil {
			in.incon = append(in.incon, "undecided: "+msg)
		}
	}()
	in.dying = false
	in.violate(kind, msg)
	in.dying = true
}

// exec runs one path and classifies how it ended.
func (w *worker) exec(in *Interp, hr *harnessRun) (kind, msg string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case abort:
			kind, msg = r.kind, r.msg
		case targetPanic:
			kind, msg = "panic", in.panicString(&r)
		case mergeFail:
			kind, msg = "unsupported", "merge: "+r.why
		case dieSignal:
			kind, msg = "error", "scheduler"
		default:
			kind, msg = "error", fmt.Sprint(r)
			st := string(rtdebug.Stack())
			debugf("engine error: %v\n%s", r, st)
			msg += " " + engineFrame(st)
		}
		if kind == "unsupported" || kind == "error" {
			msg += " [" + in.where() + "]"
		}
	}()
	in.callFn(nil, hr.fn.Pkg.Func("init"), nil, nil)
	in.callFn(nil, hr.fn, nil, nil)
	return "ok", ""
}

func (in *Interp) where() string {
	var s []string
	for f := in.curFr; f != nil && len(s) < 4; f = f.caller {
		x := f.fn.Name()
		if f.curInstr != nil && f.curInstr.Pos().IsValid() {
			p := in.prog.Fset.Position(f.curInstr.Pos())
			x += fmt.Sprintf("@%s:%d", filepath.Base(p.Filename), p.Line)
		}
		s = append(s, x)
	}
	return strings.Join(s, " < ")
}

var engFrame = regexp.MustCompile(`/verif/engine/([a-z]+\.go:\d+)`)

func engineFrame(st string) string {
	m := engFrame.FindAllStringSubmatch(st, 8)
	var s []string
	for _, x := range m {
		if !strings.HasPrefix(x[1], "explore.go") {
			s = append(s, x[1])
		}
	}
	if len(s) > 4 {
		s = s[:4]
	}
	return "(" + strings.Join(s, " ") + ")"
}

// recordIdentity lets the solver confirm, from the two sides as they were computed,
// that a group equation found to be an identity (or refutable) is one. Bounded in size and number.
func (in *Interp) recordIdentity(x, y *G1V, r *Term) {
	if r != in.c.t {
		return
	}
	x, y = in.c.g1Norm(x), in.c.g1Norm(y)
	n := 0
	for _, p := range x.p {
		n += len(p.m)
	}
	for _, p := range y.p {
		n += len(p.m)
	}
	max := 40
	if in.thorough {
		max = 400
	}
	if n > 120 || n == 0 || in.w.idents >= max {
		in.st.identSkipped++
		return
	}
	in.w.idents++
	q := map[int32][2]*Poly{}
	for i, b := range x.b {
		q[b] = [2]*Poly{x.p[i], in.c.pZero}
	}
	for i, b := range y.b {
		e := q[b]
		if e[0] == nil {
			e[0] = in.c.pZero
		}
		e[1] = y.p[i]
		q[b] = e
	}
	var bs []int
	for b := range q {
		bs = append(bs, int(b))
	}
	sort.Ints(bs)
	switch in.s.identity(q, bs) {
	case Unsat:
		in.st.identUnsat++
	case Sat:
		in.st.identSat++
		in.incon = append(in.incon, "the solver disagrees with the canonical form of a group equation")
	default:
		in.st.identUnknown++
	}
}

// identity checks, over uninterpreted integer values of the indeterminates, that the two sides agree modulo the group order.
func (s *Solver) identity(q map[int32][2]*Poly, bs []int) Res {
	var sb strings.Builder
	names := map[int32]string{}
	enc := func(p *Poly) string {
		t := "(+ 0"
		for i, m := range p.m {
			mi := s.c.monos[m]
			t += " (* " + num(p.c[i].SBig())
			for j, v := range mi.vars {
				n := names[v]
				if n == "" {
					n = fmt.Sprintf("iv%d", v)
					names[v] = n
					fmt.Fprintf(&sb, "(declare-const %s Int)\n", n)
				}
				e := mi.exps[j]
				if e < 0 {
					ni := fmt.Sprintf("iw%d", v)
					if names[-v-1] == "" {
						names[-v-1] = ni
						fmt.Fprintf(&sb, "(declare-const %s Int)\n", ni)
					}
					n, e = ni, -e
				}
				for ; e > 0; e-- {
					t += " " + n
				}
			}
			t += ")"
		}
		return t + ")"
	}
	var ds []string
	for _, b := range bs {
		e := q[int32(b)]
		ds = append(ds, "(not (= 0 (mod (- "+enc(e[0])+" "+enc(e[1])+") "+P.String()+")))")
	}
	return s.once(sb.String() + "(assert (or false " + strings.Join(ds, " ") + "))\n")
}

// once decides a script of its own.
func (s *Solver) once(script string) Res {
	s.flush()
	s.send("(push 1)\n" + script + "(set-option :timeout 500)\n(check-sat)\n")
	t0 := time.Now()
	l, ok := s.readLine(10 * time.Second)
	s.stats.queries++
	s.stats.solverNs += int64(time.Since(t0))
	if !ok {
		s.stats.unknown++
		s.restart()
		return Unknown
	}
	s.send(fmt.Sprintf("(pop 1)\n(set-option :timeout %d)\n", s.timeout))
	switch l {
	case "unsat":
		s.stats.unsat++
		return Unsat
	case "sat":
		s.stats.sat++
		return Sat
	}
	s.stats.unknown++
	if strings.HasPrefix(l, "(error") {
		debugf("solver: %s", l)
		s.restart()
	}
	return Unknown
}

var _ = big.NewInt
