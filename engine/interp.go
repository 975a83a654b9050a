package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var debug = os.Getenv("ENGINE_DEBUG") != ""

func debugf(f string, a ...interface{}) {
	if debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

type fnInfo struct {
	idx     map[ssa.Value]int
	n       int
	ipdom   []int // per block: index of the immediate post-dominator, -1 exit, -2 unknown
	region  map[int]bool
	regOK   map[int]bool
	hasDef  bool
	intr    intrinsic
	noBody  bool
	allowed bool
	name    string
}

type intrinsic func(in *Interp, fr *frame, args []value) value

var (
	infoMu sync.Mutex
	infos  = map[*ssa.Function]*fnInfo{}
	bldMu  sync.Mutex
	built  = map[*ssa.Package]bool{}
)

func buildPkg(p *ssa.Package) {
	bldMu.Lock()
	defer bldMu.Unlock()
	if !built[p] {
		built[p] = true
		p.Build()
	}
}

func getInfo(fn *ssa.Function) *fnInfo {
	infoMu.Lock()
	defer infoMu.Unlock()
	if i := infos[fn]; i != nil {
		return i
	}
	if fn.Pkg != nil {
		buildPkg(fn.Pkg)
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		buildPkg(o.Pkg)
	}
	i := &fnInfo{name: fn.String(), regOK: map[int]bool{}}
	i.intr = lookupIntrinsic(fn, i.name)
	i.idx = map[ssa.Value]int{}
	add := func(v ssa.Value) {
		i.idx[v] = i.n
		i.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
			if _, ok := ins.(*ssa.Defer); ok {
				i.hasDef = true
			}
		}
	}
	i.noBody = len(fn.Blocks) == 0
	i.allowed = allowedFn(fn)
	i.computeIpdom(fn)
	infos[fn] = i
	return i
}

// computeIpdom computes immediate post-dominators with the simple iterative algorithm.
func (fi *fnInfo) computeIpdom(fn *ssa.Function) {
	n := len(fn.Blocks)
	fi.ipdom = make([]int, n)
	if n == 0 {
		return
	}
	// post-dominator sets as bitsets; exit = n. Blocks that panic do not count as exits.
	full := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(n+1)), bigOne)
	pd := make([]*big.Int, n+1)
	for i := range pd {
		pd[i] = full
	}
	pd[n] = new(big.Int).Lsh(bigOne, uint(n))
	isPanic := func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
		return ok
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			var x *big.Int
			if len(b.Instrs) == 0 || isPanic(b) {
				continue // stays full: no path to the exit
			}
			if len(b.Succs) == 0 {
				x = new(big.Int).Set(pd[n])
			} else {
				x = new(big.Int).Set(full)
				for _, s := range b.Succs {
					x.And(x, pd[s.Index])
				}
			}
			x = new(big.Int).SetBit(x, i, 1)
			if x.Cmp(pd[i]) != 0 {
				pd[i] = x
				ch = true
			}
		}
	}
	cnt := func(x *big.Int) int {
		k := 0
		for i := 0; i <= n; i++ {
			k += int(x.Bit(i))
		}
		return k
	}
	for i := range fi.ipdom {
		fi.ipdom[i] = -2
		best := -1
		for j := 0; j <= n; j++ {
			if j != i && pd[i].Bit(j) == 1 && pd[i] != full {
				// the immediate one is post-dominated by all others: largest set
				if best < 0 || cnt(pd[j]) > cnt(pd[best]) {
					best = j
				}
			}
		}
		if best == n {
			fi.ipdom[i] = -1
		} else if best >= 0 {
			fi.ipdom[i] = best
		}
	}
}

type deferred struct {
	fn   value
	args []value
	call *ssa.CallCommon
}

type frame struct {
	in        *Interp
	fn        *ssa.Function
	info      *fnInfo
	env       []value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	caller    *frame
	defers    []deferred
	result    value
	panicking bool
	panic     *targetPanic
	skipPhi   bool
	curInstr  ssa.Instruction
}

// Interp executes one path.
type Interp struct {
	c       *Ctx
	s       *Solver
	prog    *ssa.Program
	st      *Stats
	globals map[*ssa.Global]*value
	shared  map[*ssa.Global]*value // globals of library packages
	inited  map[*ssa.Package]bool
	w       *worker

	prefix           []int
	noMergeAt        map[string]bool        // branches that are not merged on this tree of paths
	phi              map[interface{}]string // objects whose identity a merge hid, with the branch
	decisions        []int
	pc               []*Term
	pcSet            map[*Term]bool
	nhash, maxHashes int
	ub               map[*Term]*big.Int // upper bounds of linear terms implied by pc
	forks            [][]int
	steps            int64
	maxSteps         int64
	nfresh           int
	nrand            int

	jdepth int
	jrn    []jent
	fresh  map[*value]bool
	assume []*Term

	ndvars     []*ndVar
	ndIdx      map[string]*ndVar
	asserts    int
	reached    map[string]bool
	viols      []*Violation
	incon      []string
	notes      map[string]bool
	mapMode    int
	sched      int
	stubs      map[string]value
	funcs      map[*ssa.Function]bool
	trace      [][]value
	challenges [][]value // inputs of the conversion of digests to scalars
	tracing    bool
	gors       []*gor
	running    sync.WaitGroup
	cur        *gor
	dying      bool
	crash      *targetPanic
	syncs      map[*value]*gsync
	initing    map[*ssa.Package]bool
	preempt    int
	params     map[string]int64
	curFr      *frame
	quiet      bool
	hashes     []hashRec
	nsubst     int // how often c.subst grew on this path
	normVer    int
	normKeys   map[*Chunk]string
	lastFr     *frame
	ident      bool
	thorough   bool
	deadline   func() bool
	sharedInit map[*ssa.Package]bool
	races      map[string]bool
	raceOn     bool
	shadow     map[interface{}]*shadow
	curPos     func() string
	fatal      interface{}
	syncVC     map[interface{}]map[int]int
}

type jent struct {
	loc interface{}
	old interface{}
}

type mergeFail struct{ why string }

func (in *Interp) goPanic(msg string) {
	panic(targetPanic{v: iface{t: runtimeErrType, v: &ErrObj{msg: "runtime error: " + msg}}})
}

func (in *Interp) store(p *value, v value) {
	if in.jdepth > 0 {
		in.jrn = append(in.jrn, jent{p, *p})
	}
	*p = v
}

func (in *Interp) jobj(o interface{}) {
	if in.jdepth == 0 {
		return
	}
	switch o := o.(type) {
	case *ZrObj:
		in.jrn = append(in.jrn, jent{o, o.v})
	case *G1Obj:
		in.jrn = append(in.jrn, jent{o, o.v})
	case *G2Obj:
		in.jrn = append(in.jrn, jent{o, o.v})
	case *GtObj:
		in.jrn = append(in.jrn, jent{o, *o})
	case *BigObj:
		in.jrn = append(in.jrn, jent{o, o.t})
	default:
		panic(mergeFail{fmt.Sprintf("mutation of %T", o)})
	}
}

func restoreLoc(e jent) {
	switch l := e.loc.(type) {
	case *value:
		*l = e.old
	case *ZrObj:
		l.v = e.old.(ZVal)
	case *G1Obj:
		l.v = e.old.(*G1V)
	case *G2Obj:
		l.v = e.old.(*Poly)
	case *GtObj:
		*l = e.old.(GtObj)
	case *BigObj:
		l.t = e.old.(*Term)
	}
}

func readLoc(loc interface{}) interface{} {
	switch l := loc.(type) {
	case *value:
		return *l
	case *ZrObj:
		return l.v
	case *G1Obj:
		return l.v
	case *G2Obj:
		return l.v
	case *GtObj:
		return *l
	case *BigObj:
		return l.t
	}
	return nil
}

// noMerge aborts an enclosing merge attempt.
func (in *Interp) noMerge(why string) {
	if in.jdepth > 0 {
		panic(mergeFail{why})
	}
}

func (fr *frame) get(v ssa.Value) value {
	switch v := v.(type) {
	case *ssa.Const:
		return constValue(v)
	case *ssa.Global:
		return fr.in.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	case nil:
		return nil
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %v", v, fr.fn))
	}
	return fr.env[i]
}

func (fr *frame) set(v ssa.Value, x value) { fr.env[fr.info.idx[v]] = x }

var (
	constMu    sync.RWMutex
	constCache = map[*ssa.Const]value{}
)

func constValue(k *ssa.Const) value {
	constMu.RLock()
	v, ok := constCache[k]
	constMu.RUnlock()
	if ok {
		return v
	}
	v = constValue1(k)
	constMu.Lock()
	constCache[k] = v
	constMu.Unlock()
	return v
}

func constValue1(k *ssa.Const) value {
	if k.Value == nil {
		return zero(k.Type())
	}
	b := basic(k.Type())
	if b == nil {
		panic(unsupported("constant %v", k))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return k.Value.String() == "true"
	case b.Info()&types.IsString != 0:
		return constString(k)
	case b.Info()&types.IsInteger != 0:
		w, s, _ := intInfo(k.Type())
		if s {
			return wrapI(k.Int64(), w)
		}
		return wrapU(k.Uint64(), w)
	case b.Info()&types.IsFloat != 0:
		return k.Float64()
	}
	panic(unsupported("constant %v", k))
}

// call calls a function value.
func (in *Interp) call(caller *frame, fn value, args []value) value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		return in.callFn(caller, fn, args, nil)
	case *closure:
		if fn == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		return in.callFn(caller, fn.fn, args, fn.env)
	case *native:
		return fn.fn(in, args)
	case *boundMethod:
		return in.call(caller, fn.fn, append([]value{fn.recv}, args...))
	}
	panic(unsupported("call of %T", fn))
}

type boundMethod struct {
	fn   value
	recv value
}

func (in *Interp) callFn(caller *frame, fn *ssa.Function, args []value, env []value) value {
	info := getInfo(fn)
	if len(in.stubs) > 0 {
		if st, ok := in.stubs[info.name]; ok && !isStubCaller(caller) {
			in.noMerge("stub")
			return in.call(caller, st, args)
		}
	}
	if in.tracing && info.name == "pol/common.FieldElementFromBytes" {
		if d, ok := args[0].([]value); ok {
			in.noMerge("challenge trace")
			in.challenges = append(in.challenges, append([]value(nil), d...))
		}
	}
	if info.intr != nil {
		return info.intr(in, caller, args)
	}
	if info.noBody || !info.allowed {
		panic(unsupported("call of %s", info.name))
	}
	if trackFn(fn) {
		in.funcs[fn] = true
	}
	if fn.Synthetic == "package initializer" && !in.wantInit(fn.Pkg) {
		return nil
	}
	fr := &frame{in: in, fn: fn, info: info, env: make([]value, info.n), caller: caller}
	copy(fr.env, args)
	for i, v := range env {
		fr.env[len(fn.Params)+i] = v
	}
	fr.block = fn.Blocks[0]
	if caller != nil {
		d := 0
		for f := caller; f != nil && d < 3000; f = f.caller {
			d++
		}
		if d >= 3000 {
			panic(abort{"steps", "recursion is too deep in " + info.name})
		}
	}
	in.run(fr)
	return fr.result
}

func isStubCaller(fr *frame) bool { return false }

// run executes a frame to completion, with defers and recovery.
func (in *Interp) run(fr *frame) {
	if !fr.info.hasDef {
		in.exec(fr, nil)
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				in.noMerge("panic")
				fr.panicking = true
				fr.panic = &tp
			}
		}()
		in.exec(fr, nil)
	}()
	if fr.panicking {
		in.runDefers(fr)
		if fr.panicking {
			panic(*fr.panic)
		}
		if fr.fn.Recover != nil {
			fr.block = fr.fn.Recover
			fr.prev = nil
			in.exec(fr, nil)
		} else {
			fr.result = zero(fr.fn.Signature.Results())
			if fr.fn.Signature.Results().Len() == 1 {
				fr.result = fr.result.(tuple)[0]
			}
		}
	}
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = true
					fr.panic = &tp
				}
			}()
			if b, ok := d.fn.(*ssa.Builtin); ok {
				in.builtin(fr, b, d.call, d.args)
			} else {
				in.call(fr, d.fn, d.args)
			}
		}()
	}
	if fr.panicking && fr.fn.Recover == nil && !fr.info.hasDef {
		panic(*fr.panic)
	}
}

// exec runs until stop is about to be entered (returns true) or the function returns (false).
func (in *Interp) exec(fr *frame, stop *ssa.BasicBlock) bool {
	for {
		if stop != nil && fr.block == stop {
			return true
		}
		blk := fr.block
		i := 0
		if fr.skipPhi {
			fr.skipPhi = false
			for i < len(blk.Instrs) {
				if _, ok := blk.Instrs[i].(*ssa.Phi); !ok {
					break
				}
				i++
			}
		} else if _, ok := blk.Instrs[0].(*ssa.Phi); ok {
			vals := in.phiVals(fr, blk, fr.prev)
			for j, v := range vals {
				fr.set(blk.Instrs[j].(*ssa.Phi), v)
			}
			i = len(vals)
		}
		jumped := false
		for ; i < len(blk.Instrs); i++ {
			ins := blk.Instrs[i]
			in.steps++
			if in.steps > in.maxSteps {
				panic(abort{"steps", fmt.Sprintf("more than %d steps, in %s", in.maxSteps, fr.info.name)})
			}
			if in.steps&0xffff == 0 && in.deadline != nil && in.deadline() {
				panic(abort{"time", "time budget"})
			}
			switch ins := ins.(type) {
			case *ssa.Return:
				switch len(ins.Results) {
				case 0:
				case 1:
					fr.result = fr.get(ins.Results[0])
				default:
					t := make(tuple, len(ins.Results))
					for k, r := range ins.Results {
						t[k] = fr.get(r)
					}
					fr.result = t
				}
				return false
			case *ssa.Jump:
				fr.prev, fr.block = blk, blk.Succs[0]
				jumped = true
			case *ssa.If:
				cond := fr.get(ins.Cond)
				var b bool
				if t, ok := cond.(*Term); ok {
					done, returned := in.tryMerge(fr, blk, t)
					if returned {
						return false
					}
					if done {
						jumped = true
						break
					}
					b = in.branch(t)
				} else {
					b = cond.(bool)
				}
				fr.prev = blk
				if b {
					fr.block = blk.Succs[0]
				} else {
					fr.block = blk.Succs[1]
				}
				jumped = true
			case *ssa.Panic:
				v := fr.get(ins.X)
				panic(targetPanic{v: v, pos: in.pos(ins.Pos())})
			case *ssa.RunDefers:
				in.runDefers(fr)
				if fr.panicking {
					panic(*fr.panic)
				}
			default:
				fr.curInstr = ins
				in.curFr = fr
				in.instr(fr, ins)
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic("block without terminator")
		}
	}
}

func (in *Interp) pos(p token.Pos) string {
	return in.prog.Fset.Position(p).String()
}

func (in *Interp) phiVals(fr *frame, blk, pred *ssa.BasicBlock) []value {
	k := -1
	for j, p := range blk.Preds {
		if p == pred {
			k = j
			break
		}
	}
	var vals []value
	for _, ins := range blk.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, fr.get(phi.Edges[k]))
	}
	return vals
}

// regionOK: the blocks between b and its post-dominator are few and do not contain b.
func (fi *fnInfo) regionCheck(fn *ssa.Function, b *ssa.BasicBlock) bool {
	infoMu.Lock()
	defer infoMu.Unlock()
	if ok, seen := fi.regOK[b.Index]; seen {
		return ok
	}
	ok := true
	j := fi.ipdom[b.Index]
	if j == -2 {
		ok = false
	}
	seen := map[int]bool{}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if x.Index == j || seen[x.Index] || !ok {
			return
		}
		if x == b || len(seen) > 24 {
			ok = false
			return
		}
		seen[x.Index] = true
		for _, ins := range x.Instrs {
			switch ins.(type) {
			case *ssa.Defer, *ssa.Go, *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.RunDefers:
				ok = false
			}
		}
		for _, s := range x.Succs {
			walk(s)
		}
	}
	for _, s := range b.Succs {
		walk(s)
	}
	if j == -1 && fi.hasDef {
		ok = false
	}
	fi.regOK[b.Index] = ok
	return ok
}

type sideResult struct {
	ret     bool
	result  value
	phis    []value
	writes  []jent // final values
	failure string
}

// tryMerge executes both sides of a symbolic branch up to the join point and merges the effects.
func (in *Interp) tryMerge(fr *frame, blk *ssa.BasicBlock, cond *Term) (done, returned bool) {
	if cond == in.c.t || cond == in.c.f || in.known(cond) != nil {
		return false, false
	}
	if in.jdepth > 3 || !fr.info.regionCheck(fr.fn, blk) {
		return false, false
	}
	site := fmt.Sprintf("%s#%d", fr.fn.String(), blk.Index)
	if in.noMergeAt[site] {
		return false, false
	}
	var join *ssa.BasicBlock
	if j := fr.info.ipdom[blk.Index]; j >= 0 {
		join = fr.fn.Blocks[j]
	}
	side := func(k int) (res sideResult) {
		mark := len(in.jrn)
		in.jdepth++
		steps := in.maxSteps
		if in.steps+200000 < in.maxSteps {
			in.maxSteps = in.steps + 200000
		}
		lit := cond
		if k == 1 {
			lit = in.c.Not(cond)
		}
		in.assume = append(in.assume, lit)
		oldRes := fr.result
		defer func() {
			in.jdepth--
			in.maxSteps = steps
			in.assume = in.assume[:len(in.assume)-1]
			if r := recover(); r != nil {
				switch r := r.(type) {
				case mergeFail:
					res.failure = r.why
				case targetPanic:
					res.failure = "panic"
				case abort:
					res.failure = r.msg
				default:
					panic(r)
				}
			}
			// collect and undo
			seen := map[interface{}]bool{}
			for i := len(in.jrn) - 1; i >= mark; i-- {
				e := in.jrn[i]
				if !seen[e.loc] {
					seen[e.loc] = true
					res.writes = append(res.writes, jent{e.loc, readLoc(e.loc)})
				}
			}
			for i := len(in.jrn) - 1; i >= mark; i-- {
				restoreLoc(in.jrn[i])
			}
			in.jrn = in.jrn[:mark]
			fr.result = oldRes
			fr.skipPhi = false
		}()
		fr.prev, fr.block = blk, blk.Succs[k]
		if in.exec(fr, join) {
			if join == nil {
				panic(mergeFail{"no join"})
			}
			if fr.skipPhi {
				// a merge inside this side ended at the same point
				for _, ins := range join.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					res.phis = append(res.phis, fr.get(phi))
				}
			} else {
				res.phis = in.phiVals(fr, join, fr.prev)
			}
		} else {
			if join != nil {
				panic(mergeFail{"return"})
			}
			res.ret = true
			res.result = fr.result
		}
		return
	}
	nf, nr := in.nfresh, in.nrand
	a := side(0)
	if a.failure != "" {
		in.nfresh, in.nrand = nf, nr
		debugf("merge failed: %s: %s", in.pos(blk.Instrs[len(blk.Instrs)-1].Pos()), a.failure)
		return false, false
	}
	b := side(1)
	fail := func() (bool, bool) {
		in.nfresh, in.nrand = nf, nr
		return false, false
	}
	if b.failure != "" {
		debugf("merge failed: %s: %s", in.pos(blk.Instrs[len(blk.Instrs)-1].Pos()), b.failure)
		return fail()
	}
	m := &merger{in: in, cond: cond}
	var out sideResult
	if a.ret {
		v, ok := m.val(a.result, b.result)
		if !ok {
			debugf("merge of results failed in %s: %s", fr.info.name, m.why)
			return fail()
		}
		out.result = v
	}
	for i := range a.phis {
		v, ok := m.val(a.phis[i], b.phis[i])
		if !ok {
			debugf("merge of phi failed in %s: %s", fr.info.name, m.why)
			return fail()
		}
		out.phis = append(out.phis, v)
	}
	av := map[interface{}]interface{}{}
	bv := map[interface{}]interface{}{}
	var order []interface{}
	for _, e := range a.writes {
		av[e.loc] = e.old
		order = append(order, e.loc)
	}
	for _, e := range b.writes {
		if _, ok := av[e.loc]; !ok {
			order = append(order, e.loc)
		}
		bv[e.loc] = e.old
	}
	for _, l := range order {
		x, okx := av[l]
		y, oky := bv[l]
		if !okx {
			x = readLoc(l)
		}
		if !oky {
			y = readLoc(l)
		}
		if p, ok := l.(*value); ok && in.fresh[p] {
			// allocated inside the region: only its own side sees it
			if okx {
				out.writes = append(out.writes, jent{l, x})
			} else {
				out.writes = append(out.writes, jent{l, y})
			}
			continue
		}
		v, ok := m.val(x, y)
		if !ok {
			debugf("merge of write failed in %s: %s", fr.info.name, m.why)
			return fail()
		}
		out.writes = append(out.writes, jent{l, v})
	}
	for _, e := range out.writes {
		switch l := e.loc.(type) {
		case *value:
			in.store(l, e.old)
		default:
			in.jobj(l)
			restoreLoc(e)
		}
	}
	for _, o := range m.objs {
		if _, dup := in.phi[o]; !dup {
			in.phi[o] = site
		}
	}
	in.st.merges++
	if a.ret {
		fr.result = out.result
		return true, true
	}
	for i, v := range out.phis {
		fr.set(join.Instrs[i].(*ssa.Phi), v)
	}
	fr.block, fr.prev, fr.skipPhi = join, nil, true
	if len(out.phis) == 0 {
		fr.skipPhi = false
	}
	return true, false
}

type merger struct {
	in     *Interp
	cond   *Term
	why    string
	solved bool
	ok     bool
	pos    bool // the equality holds on the first side
	sub    map[int32]*Poly
	objs   []interface{} // pairs of objects of which the merged value is either, and the stand-in
}

// unmerge abandons this tree of paths if the identity of the object matters but was hidden by a merge: the
// exploration starts over without that merge.
func (in *Interp) unmerge(o interface{}) {
	if site, ok := in.phi[o]; ok {
		panic(abort{"unmerge", site})
	}
}

// solve extracts substitutions from the condition.
func (m *merger) solve() {
	if m.solved {
		return
	}
	m.solved = true
	c := m.in.c
	t := m.cond
	m.pos = true
	if t.op == OpNot {
		t, m.pos = t.args[0], false
	}
	m.sub = map[int32]*Poly{}
	lits := []*Term{t}
	if t.op == OpAnd {
		lits = t.args
	}
	for _, l := range lits {
		v, p := c.solveLit(l)
		if p == nil {
			return
		}
		old := c.subst
		c.subst = m.sub
		p = c.Norm(p)
		c.subst = old
		m.sub[v] = p
	}
	m.ok = true
}

// solveLit turns an equality into a substitution.
func (c *Ctx) solveLit(l *Term) (int32, *Poly) {
	var p *Poly
	switch l.op {
	case OpEq0:
		p = c.PTerm(l.args[0])
	case OpPZ:
		p = l.poly
	case OpNot: // !(b == 0) for a bit b, i.e. b == 1
		if l.args[0].op == OpEq0 {
			x := l.args[0].args[0]
			if x.op == OpVar && inRange(x, bigZero, bigOne) {
				p = c.PSub(c.PTerm(x), c.pOne)
			}
		}
	case OpLe0: // x <= 0 for a non-negative x, or 1 <= b for a bit
		x := l.args[0]
		if x.lo != nil && x.lo.Sign() == 0 {
			p = c.PTerm(x)
		}
	}
	if p == nil {
		return 0, nil
	}
	// a variable that occurs once, alone and with exponent one
	count := map[int32]int{}
	for _, m := range p.m {
		for _, v := range c.monos[m].vars {
			count[v]++
		}
	}
	for i := len(p.m) - 1; i >= 0; i-- {
		mi := c.monos[p.m[i]]
		if len(mi.vars) != 1 || mi.exps[0] != 1 || count[mi.vars[0]] != 1 {
			continue
		}
		v := mi.vars[0]
		rest := &Poly{m: append(append([]int32(nil), p.m[:i]...), p.m[i+1:]...), c: append(append([]Fe(nil), p.c[:i]...), p.c[i+1:]...)}
		return v, c.PScale(rest, feNeg(feInv(p.c[i])))
	}
	return 0, nil
}

func (m *merger) agree(special, general *Poly) bool {
	m.solve()
	if !m.ok {
		return false
	}
	c := m.in.c
	old := c.subst
	c.subst = m.sub
	defer func() { c.subst = old }()
	d := c.PSub(special, general)
	return c.Norm(d).IsZero()
}

func (m *merger) zval(a, b ZVal) (ZVal, bool) {
	if a.p.Key() == b.p.Key() && a.it == b.it && a.red == b.red {
		return a, true
	}
	m.solve()
	s, g := a, b
	if !m.pos {
		s, g = b, a
	}
	if m.ok && s.red && g.red && m.agree(s.p, g.p) {
		return g, true
	}
	if a.it != nil && b.it != nil {
		return m.in.c.zTerm(m.in.c.Ite(m.cond, a.it, b.it)), true
	}
	m.why = "scalars differ"
	return a, false
}

func (m *merger) g1(a, b *G1V) (*G1V, bool) {
	c := m.in.c
	d := c.g1Add(a, b, true)
	if len(d.b) == 0 {
		return a, true
	}
	m.solve()
	if !m.ok {
		m.why = "condition not solvable: " + m.cond.String()
		return a, false
	}
	for i := range d.p {
		if !m.agree(d.p[i], c.pZero) {
			m.why = "group elements differ"
			return a, false
		}
	}
	if m.pos {
		return b, true
	}
	return a, true
}

func (m *merger) val(a, b interface{}) (interface{}, bool) {
	if sameVal(a, b) {
		return a, true
	}
	switch x := a.(type) {
	case *Term, bool, int64, uint64:
		switch b.(type) {
		case *Term, bool, int64, uint64:
			t := m.in.c.Ite(m.cond, m.in.toTerm(x), m.in.toTerm(b))
			return normTerm(t, a), true
		}
	case ZVal:
		if y, ok := b.(ZVal); ok {
			return m.zval(x, y)
		}
	case *G1V:
		if y, ok := b.(*G1V); ok {
			return m.g1(x, y)
		}
	case *ZrObj:
		if y, ok := b.(*ZrObj); ok {
			if x == nil || y == nil {
				break
			}
			v, ok := m.zval(x.v, y.v)
			o := &ZrObj{v}
			m.objs = append(m.objs, x, y, o)
			return o, ok
		}
	case *G1Obj:
		if y, ok := b.(*G1Obj); ok {
			if x == nil || y == nil {
				break
			}
			v, ok := m.g1(x.v, y.v)
			o := &G1Obj{v}
			m.objs = append(m.objs, x, y, o)
			return o, ok
		}
	case iface:
		if y, ok := b.(iface); ok && x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
			v, ok := m.val(x.v, y.v)
			return iface{x.t, v}, ok
		}
	case tuple:
		if y, ok := b.(tuple); ok && len(x) == len(y) {
			r := make(tuple, len(x))
			for i := range x {
				v, ok := m.val(x[i], y[i])
				if !ok {
					return nil, false
				}
				r[i] = v
			}
			return r, true
		}
	case structure:
		if y, ok := b.(structure); ok && len(x) == len(y) {
			r := make(structure, len(x))
			for i := range x {
				v, ok := m.val(x[i], y[i])
				if !ok {
					return nil, false
				}
				r[i] = v
			}
			return r, true
		}
	}
	m.why = fmt.Sprintf("%T and %T", a, b)
	return nil, false
}

// normTerm keeps constants concrete; like tells the machine type of the other side.
func normTerm(t *Term, like value) value {
	switch t.op {
	case OpTrue:
		return true
	case OpFalse:
		return false
	case OpConst:
		if _, ok := like.(uint64); ok {
			return t.k.Uint64()
		}
		if t.k.IsInt64() {
			return t.k.Int64()
		}
		return t.k.Uint64()
	}
	return t
}

func sameVal(a, b interface{}) bool {
	switch x := a.(type) {
	case []value:
		y, ok := b.([]value)
		if !ok || len(x) != len(y) || cap(x) != cap(y) || (x == nil) != (y == nil) {
			return false
		}
		return cap(x) == 0 || &x[:1][0] == &y[:1][0]
	case structure, array, tuple, ZVal:
		return false
	case iface:
		y, ok := b.(iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && sameVal(x.v, y.v)
	case GtObj:
		return false
	case *SymStr:
		return false
	}
	switch b.(type) {
	case []value, structure, array, tuple, ZVal, iface, GtObj, *SymStr:
		return false
	}
	return a == b
}

// known returns whether the path condition syntactically decides cond.
func (in *Interp) known(cond *Term) *bool {
	tr, fa := true, false
	if in.pcSet[cond] {
		return &tr
	}
	n := in.c.Not(cond)
	if in.pcSet[n] {
		return &fa
	}
	switch cond.op {
	case OpLe0:
		l, k := in.c.bound(cond)
		if b := in.ub[l]; b != nil && b.Cmp(k) <= 0 {
			return &tr
		}
		// -l <= b, that is l >= -b > k
		if b := in.ub[in.c.Neg(l)]; b != nil && new(big.Int).Neg(b).Cmp(k) > 0 {
			return &fa
		}
	case OpEq0:
		l, k := in.c.bound(cond)
		if b := in.ub[l]; b != nil && b.Cmp(k) < 0 {
			return &fa
		}
		if b := in.ub[in.c.Neg(l)]; b != nil && new(big.Int).Neg(b).Cmp(k) > 0 {
			return &fa
		}
	}
	for _, a := range in.assume {
		if a == cond {
			return &tr
		}
		if a == n {
			return &fa
		}
	}
	if cond.op == OpAnd {
		all := true
		for _, x := range cond.args {
			k := in.known(x)
			if k == nil {
				all = false
			} else if !*k {
				return &fa
			}
		}
		if all {
			return &tr
		}
	}
	if cond.op == OpOr {
		all := true
		for _, x := range cond.args {
			k := in.known(x)
			if k == nil {
				all = false
			} else if *k {
				return &tr
			}
		}
		if all {
			return &fa
		}
	}
	return nil
}

// branch decides a symbolic condition, forking when both outcomes are feasible.
func (in *Interp) branch(cond *Term) bool {
	switch cond.op {
	case OpTrue:
		return true
	case OpFalse:
		return false
	}
	if k := in.known(cond); k != nil {
		return *k
	}
	if in.jdepth > 0 {
		panic(mergeFail{"nested branch: " + cond.String()})
	}
	pos := len(in.decisions)
	if pos < len(in.prefix) {
		d := in.prefix[pos]
		in.decisions = append(in.decisions, d)
		b := d == 0 || d == 2
		in.addPC(cond, b, d < 2)
		return b
	}
	if in.deadline != nil && in.deadline() {
		panic(abort{"time", "time budget"})
	}
	n := in.c.Not(cond)
	r1, _ := in.s.Check(nil, cond)
	if r1 == Unsat {
		in.decisions = append(in.decisions, 3)
		in.addPC(cond, false, false)
		return false
	}
	r2, _ := in.s.Check(nil, n)
	if r2 == Unsat {
		in.decisions = append(in.decisions, 2)
		in.addPC(cond, true, false)
		return true
	}
	if r1 == Unknown || r2 == Unknown {
		in.notes["a branch condition was undecided within the solver timeout (both sides explored)"] = true
	}
	// equalities of generic expressions: explore "different" first
	first := 0
	if cond.op == OpPZ || cond.op == OpEq0 || (cond.op == OpAnd) {
		first = 1
	}
	in.forks = append(in.forks, append(append([]int(nil), in.decisions...), 1-first))
	in.decisions = append(in.decisions, first)
	in.addPC(cond, first == 0, true)
	return first == 0
}

func (in *Interp) addPC(cond *Term, b bool, assert bool) {
	l := cond
	if !b {
		l = in.c.Not(cond)
	}
	if debug {
		debugf("PC %.600s", l.String())
	}
	in.addLit(l, assert)
}

func (in *Interp) addLit(l *Term, assert bool) {
	if l == in.c.t || in.pcSet[l] {
		return
	}
	in.pcSet[l] = true
	in.pc = append(in.pc, l)
	if assert {
		in.s.Assert(l)
	}
	if l.op == OpAnd {
		for _, x := range l.args {
			in.pcSet[x] = true
		}
	}
	lits := []*Term{l}
	if l.op == OpAnd {
		lits = l.args
	}
	ub := func(l *Term, k *big.Int) {
		if b := in.ub[l]; b == nil || b.Cmp(k) > 0 {
			in.ub[l] = k
		}
	}
	for _, x := range lits {
		switch x.op {
		case OpLe0:
			ub(in.c.bound(x))
		case OpEq0:
			l, k := in.c.bound(x)
			ub(l, k)
			ub(in.c.Neg(l), new(big.Int).Neg(k))
		}
	}
	for _, x := range lits {
		if x.op == OpEq0 || x.op == OpPZ || x.op == OpNot || x.op == OpLe0 {
			if v, p := in.c.solveLit(x); p != nil {
				if _, dup := in.c.subst[v]; !dup {
					p = in.c.Norm(p)
					// keep the substitution acyclic
					cyc := false
					for _, m := range p.m {
						for _, w := range in.c.monos[m].vars {
							if w == v {
								cyc = true
							}
						}
					}
					if !cyc {
						for k, q := range in.c.subst {
							in.c.subst[k] = in.c.SubstVar(q, v, p)
						}
						in.c.subst[v] = p
						in.nsubst++
					}
				}
			}
		}
	}
}

// choose explores all of 0..n-1.
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	in.noMerge("choice")
	pos := len(in.decisions)
	if pos < len(in.prefix) {
		d := in.prefix[pos]
		in.decisions = append(in.decisions, d)
		return d - 10
	}
	for i := n - 1; i >= 1; i-- {
		in.forks = append(in.forks, append(append([]int(nil), in.decisions...), 10+i))
	}
	in.decisions = append(in.decisions, 10)
	return 0
}

// concretize forks over the feasible values of a term.
func (in *Interp) concretize(t *Term) *big.Int {
	if t.isConst() {
		return t.k
	}
	in.noMerge("concretization")
	for n := 0; ; n++ {
		if n > 4096 {
			panic(unsupported("too many values for %v", t))
		}
		var cand *big.Int
		if t.lo != nil && t.hi != nil && new(big.Int).Sub(t.hi, t.lo).BitLen() < 9 {
			cand = new(big.Int).Add(t.lo, big.NewInt(int64(n)))
			if cand.Cmp(t.hi) > 0 {
				panic(abort{"infeasible", "no value"})
			}
		} else {
			pos := len(in.decisions)
			if pos < len(in.prefix) {
				// recorded value: stored in the worker table
				d := in.prefix[pos]
				in.decisions = append(in.decisions, d)
				cand = cval(d)
			} else {
				r, m := in.s.Check([]*Term{in.tmpVar(t)}, in.c.Eq(in.tmpVar(t), t))
				if r != Sat {
					panic(unsupported("no model for a value to concretize"))
				}
				cand = m[in.tmpVar(t).name]
				if cand == nil {
					panic(unsupported("no model value"))
				}
				in.decisions = append(in.decisions, cput(cand))
			}
		}
		if in.branch(in.c.Eq(t, in.c.Int(cand))) {
			return cand
		}
	}
}

func (in *Interp) tmpVar(t *Term) *Term {
	return in.c.IntVar(fmt.Sprintf("tmp%d", t.id), nil, nil)
}

func (in *Interp) cint(v value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case uint64:
		return int64(v)
	case *Term:
		return in.concretize(v).Int64()
	}
	panic(unsupported("integer expected, got %T", v))
}
