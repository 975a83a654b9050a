package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var (
	cvMu   sync.Mutex
	cvTab  []*big.Int
	cvIdx  = map[string]int{}
	cvBase = 1000000
)

func cput(b *big.Int) int {
	cvMu.Lock()
	defer cvMu.Unlock()
	if i, ok := cvIdx[b.String()]; ok {
		return i
	}
	i := cvBase + len(cvTab)
	cvTab = append(cvTab, b)
	cvIdx[b.String()] = i
	return i
}

func cval(i int) *big.Int {
	cvMu.Lock()
	defer cvMu.Unlock()
	return cvTab[i-cvBase]
}

func trackFn(fn *ssa.Function) bool {
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "pol/") && !strings.Contains(fn.Pkg.Pkg.Path(), "zzverif")
}

func constString(k *ssa.Const) string {
	if k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value)
	}
	return string(rune(k.Int64()))
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// newObj allocates a zero value; library objects get their models.
func (in *Interp) newObj(t types.Type) value {
	switch typeName(t) {
	case "math/big.Int":
		return &BigObj{in.c.I(0)}
	case "github.com/IBM/mathlib.Zr", "github.com/IBM/mathlib.G1", "github.com/IBM/mathlib.G2", "github.com/IBM/mathlib.Gt":
		panic(unsupported("allocation of %v", t))
	}
	v := new(value)
	*v = zero(t)
	if in.jdepth > 0 {
		in.fresh[v] = true
	}
	return v
}

func (in *Interp) load(p value, t types.Type) value {
	switch p := p.(type) {
	case *value:
		if p == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		in.access(p, false)
		return cp(*p)
	case *BigObj:
		return structure{p}
	case *ZrObj, *G1Obj, *G2Obj, *GtObj:
		panic(unsupported("copy of a library object"))
	}
	panic(unsupported("load through %T", p))
}

func (in *Interp) instr(fr *frame, ins ssa.Instruction) {
	switch ins := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.set(ins, in.newObj(deref(ins.Type())))
	case *ssa.UnOp:
		fr.set(ins, in.unop(fr, ins, fr.get(ins.X)))
	case *ssa.BinOp:
		fr.set(ins, in.binop(ins.Op, ins.X.Type(), ins.Y.Type(), fr.get(ins.X), fr.get(ins.Y)))
	case *ssa.Call:
		fn, args := in.prepareCall(fr, &ins.Call)
		if b, ok := fn.(*ssa.Builtin); ok {
			fr.set(ins, in.builtin(fr, b, &ins.Call, args))
		} else {
			fr.set(ins, in.call(fr, fn, args))
		}
	case *ssa.Defer:
		in.noMerge("defer")
		fn, args := in.prepareCall(fr, &ins.Call)
		fr.defers = append(fr.defers, deferred{fn, args, &ins.Call})
	case *ssa.Go:
		in.noMerge("go")
		fn, args := in.prepareCall(fr, &ins.Call)
		in.spawn(fr, fn, args)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var x ssa.Value
		if c, ok := ins.(*ssa.ChangeInterface); ok {
			x = c.X
		} else {
			x = ins.(*ssa.ChangeType).X
		}
		fr.set(ins.(ssa.Value), fr.get(x))
	case *ssa.Convert:
		fr.set(ins, in.convert(ins.Type(), ins.X.Type(), fr.get(ins.X)))
	case *ssa.MultiConvert:
		fr.set(ins, in.convert(ins.Type(), ins.X.Type(), fr.get(ins.X)))
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	case *ssa.MakeInterface:
		fr.set(ins, iface{ins.X.Type(), fr.get(ins.X)})
	case *ssa.Extract:
		fr.set(ins, fr.get(ins.Tuple).(tuple)[ins.Index])
	case *ssa.Slice:
		fr.set(ins, in.slice(fr, ins))
	case *ssa.Store:
		p, ok := fr.get(ins.Addr).(*value)
		if !ok {
			if b, isB := fr.get(ins.Addr).(*BigObj); isB {
				if s, isS := fr.get(ins.Val).(structure); isS && len(s) == 1 {
					in.jobj(b)
					b.t = s[0].(*BigObj).t
					return
				}
			}
			panic(unsupported("store through %T", fr.get(ins.Addr)))
		}
		if p == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		in.access(p, true)
		in.storeVal(p, fr.get(ins.Val))
	case *ssa.MakeClosure:
		c := &closure{fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			c.env = append(c.env, fr.get(b))
		}
		fr.set(ins, c)
	case *ssa.MakeSlice:
		n, m := in.cint(fr.get(ins.Len)), in.cint(fr.get(ins.Cap))
		if n < 0 || n > 1<<26 {
			in.goPanic("makeslice: len out of range")
		}
		if m < n || m > 1<<26 {
			in.goPanic("makeslice: cap out of range")
		}
		fr.set(ins, in.makeSlice(ins.Type().Underlying().(*types.Slice).Elem(), int(n), int(m)))
	case *ssa.MakeMap:
		fr.set(ins, &hmap{idx: map[interface{}]int{}})
	case *ssa.MakeChan:
		fr.set(ins, &channel{cap: int(in.cint(fr.get(ins.Size))), elem: ins.Type().Underlying().(*types.Chan).Elem()})
	case *ssa.MapUpdate:
		m := fr.get(ins.Map).(*hmap)
		if m == nil {
			panic(targetPanic{v: iface{runtimeErrType, &ErrObj{msg: "assignment to entry in nil map"}}})
		}
		in.noMerge("map update")
		in.access2(m, true)
		in.mapSet(m, fr.get(ins.Key), fr.get(ins.Value))
	case *ssa.Lookup:
		fr.set(ins, in.lookup(fr, ins))
	case *ssa.FieldAddr:
		p, ok := fr.get(ins.X).(*value)
		if !ok {
			panic(unsupported("field of %T in %s", fr.get(ins.X), fr.info.name))
		}
		if p == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(structure)
		if !ok {
			panic(unsupported("field of %T", *p))
		}
		fr.set(ins, in.fieldPtr(&s[ins.Field]))
	case *ssa.Field:
		fr.set(ins, cp(fr.get(ins.X).(structure)[ins.Field]))
	case *ssa.IndexAddr:
		fr.set(ins, in.indexAddr(fr, ins))
	case *ssa.Index:
		fr.set(ins, in.index(fr, ins))
	case *ssa.Range:
		fr.set(ins, in.rangeIter(fr.get(ins.X), ins.X.Type()))
	case *ssa.Next:
		fr.set(ins, fr.get(ins.Iter).(iterator).next(in))
	case *ssa.TypeAssert:
		fr.set(ins, in.typeAssert(ins, fr.get(ins.X).(iface)))
	case *ssa.Send:
		in.chanSend(fr.get(ins.Chan).(*channel), fr.get(ins.X))
	case *ssa.Select:
		fr.set(ins, in.selectStmt(fr, ins))
	default:
		panic(unsupported("instruction %T", ins))
	}
}

// fieldPtr: fields that hold library objects by value are represented by the object itself.
func (in *Interp) fieldPtr(p *value) value {
	return p
}

func (in *Interp) storeVal(p *value, v value) {
	v = cp(v)
	// keep the identity of nested cells: assign element-wise so that pointers to fields stay valid
	switch nv := v.(type) {
	case structure:
		if ov, ok := (*p).(structure); ok && len(ov) == len(nv) {
			for i := range nv {
				in.storeVal(&ov[i], nv[i])
			}
			return
		}
	case array:
		if ov, ok := (*p).(array); ok && len(ov) == len(nv) {
			for i := range nv {
				in.storeVal(&ov[i], nv[i])
			}
			return
		}
	}
	in.store(p, v)
}

func (in *Interp) makeSlice(t types.Type, n, m int) []value {
	s := make([]value, m)
	z := zero(t)
	for i := range s {
		s[i] = cp(z)
	}
	in.markFresh(s)
	return s[:n]
}

func (in *Interp) markFresh(s []value) {
	if in.jdepth > 0 {
		for i := range s {
			in.fresh[&s[i]] = true
		}
	}
}

func (in *Interp) prepareCall(fr *frame, call *ssa.CallCommon) (value, []value) {
	v := fr.get(call.Value)
	var args []value
	var fn value
	if call.Method == nil {
		fn = v
	} else {
		recv := v.(iface)
		if recv.t == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		if f := in.modelMethod(recv, call.Method.Name()); f != nil {
			fn = f
		} else {
			f := in.prog.LookupMethod(recv.t, call.Method.Pkg(), call.Method.Name())
			if f == nil {
				panic(unsupported("method %s of %v", call.Method.Name(), recv.t))
			}
			fn = f
		}
		args = append(args, recv.v)
	}
	for _, a := range call.Args {
		args = append(args, cp(fr.get(a)))
	}
	return fn, args
}

func (in *Interp) unop(fr *frame, ins *ssa.UnOp, x value) value {
	switch ins.Op {
	case token.MUL:
		return in.load(x, deref(ins.X.Type()))
	case token.ARROW:
		return in.chanRecv(x.(*channel), ins.CommaOk)
	case token.NOT:
		if t, ok := x.(*Term); ok {
			return fromTerm(in.c.Not(t), ins.Type())
		}
		return !x.(bool)
	case token.SUB:
		if f, ok := x.(float64); ok {
			return -f
		}
		w, s, _ := intInfo(ins.Type())
		switch x := x.(type) {
		case int64:
			return wrapI(-x, w)
		case uint64:
			return wrapU(-x, w)
		case *Term:
			return fromTerm(in.c.wrap(in.c.Neg(x), w, s), ins.Type())
		}
	case token.XOR:
		w, s, _ := intInfo(ins.Type())
		switch x := x.(type) {
		case int64:
			return wrapI(^x, w)
		case uint64:
			return wrapU(^x, w)
		case *Term:
			if s {
				return fromTerm(in.c.Sub(in.c.I(-1), x), ins.Type())
			}
			_, hi := bound(w, false)
			return fromTerm(in.c.Sub(in.c.Int(hi), x), ins.Type())
		}
	}
	panic(unsupported("unary %v of %T", ins.Op, x))
}

func isSym(v value) bool { _, ok := v.(*Term); return ok }

func (in *Interp) binop(op token.Token, t, yt types.Type, x, y value) value {
	switch op {
	case token.EQL:
		return in.eqValue(t, x, y)
	case token.NEQ:
		e := in.eqValue(t, x, y)
		if b, ok := e.(bool); ok {
			return !b
		}
		return fromTerm(in.c.Not(e.(*Term)), types.Typ[types.Bool])
	}
	switch x.(type) {
	case string, *SymStr:
		return in.strOp(op, x, y)
	case float64:
		return floatOp(op, x.(float64), y.(float64))
	case bool:
		if y, ok := y.(bool); ok {
			switch op {
			case token.AND:
				return x.(bool) && y
			case token.OR:
				return x.(bool) || y
			case token.XOR:
				return x.(bool) != y
			}
		}
	}
	w, s, ok := intInfo(t)
	if !ok {
		if b := basic(t); b != nil && b.Info()&types.IsBoolean != 0 {
			a, b := in.toTerm(x), in.toTerm(y)
			switch op {
			case token.AND:
				return fromTerm(in.c.And(a, b), t)
			case token.OR:
				return fromTerm(in.c.Or(a, b), t)
			}
		}
		panic(unsupported("operation %v on %v", op, t))
	}
	if !isSym(x) && !isSym(y) {
		return in.intOp(op, w, s, x, y)
	}
	return in.symOp(op, t, w, s, x, y)
}

func (in *Interp) shiftCount(y value) uint64 {
	switch y := y.(type) {
	case int64:
		if y < 0 {
			in.goPanic("negative shift amount")
		}
		return uint64(y)
	case uint64:
		return y
	}
	panic("shift")
}

func (in *Interp) intOp(op token.Token, w int, s bool, x, y value) value {
	if op == token.SHL || op == token.SHR {
		n := in.shiftCount(y)
		if s {
			a := x.(int64)
			if op == token.SHL {
				if n >= 64 {
					return int64(0)
				}
				return wrapI(a<<n, w)
			}
			if n >= 64 {
				n = 63
			}
			return wrapI(a>>n, w)
		}
		a := x.(uint64)
		if n >= 64 {
			return uint64(0)
		}
		if op == token.SHL {
			return wrapU(a<<n, w)
		}
		return wrapU(a>>n, w)
	}
	if s {
		a, b := x.(int64), y.(int64)
		switch op {
		case token.ADD:
			return wrapI(a+b, w)
		case token.SUB:
			return wrapI(a-b, w)
		case token.MUL:
			return wrapI(a*b, w)
		case token.QUO:
			if b == 0 {
				in.goPanic("integer divide by zero")
			}
			return wrapI(a/b, w)
		case token.REM:
			if b == 0 {
				in.goPanic("integer divide by zero")
			}
			if b == -1 {
				return int64(0)
			}
			return wrapI(a%b, w)
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return wrapI(a^b, w)
		case token.AND_NOT:
			return a &^ b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	} else {
		a, b := x.(uint64), y.(uint64)
		switch op {
		case token.ADD:
			return wrapU(a+b, w)
		case token.SUB:
			return wrapU(a-b, w)
		case token.MUL:
			return wrapU(a*b, w)
		case token.QUO:
			if b == 0 {
				in.goPanic("integer divide by zero")
			}
			return a / b
		case token.REM:
			if b == 0 {
				in.goPanic("integer divide by zero")
			}
			return a % b
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return a ^ b
		case token.AND_NOT:
			return a &^ b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	panic(unsupported("operation %v", op))
}

func (in *Interp) symOp(op token.Token, t types.Type, w int, s bool, x, y value) value {
	c := in.c
	a := in.toTerm(x)
	switch op {
	case token.SHL, token.SHR:
		var n uint64
		if yt, ok := y.(*Term); ok {
			n = in.concretize(yt).Uint64()
		} else {
			n = in.shiftCount(y)
		}
		if n >= uint64(w) && op == token.SHL {
			return fromTerm(c.I(0), t)
		}
		k := new(big.Int).Lsh(bigOne, uint(n))
		if op == token.SHL {
			return fromTerm(c.wrap(c.Scale(a, k), w, s), t)
		}
		return fromTerm(c.Div(a, k), t)
	}
	b := in.toTerm(y)
	bt := types.Typ[types.Bool]
	switch op {
	case token.ADD:
		return fromTerm(c.wrap(c.Add(a, b), w, s), t)
	case token.SUB:
		return fromTerm(c.wrap(c.Sub(a, b), w, s), t)
	case token.MUL:
		return fromTerm(c.wrap(c.Mul(a, b), w, s), t)
	case token.LSS:
		return fromTerm(c.Lt(a, b), bt)
	case token.LEQ:
		return fromTerm(c.Le(a, b), bt)
	case token.GTR:
		return fromTerm(c.Lt(b, a), bt)
	case token.GEQ:
		return fromTerm(c.Le(b, a), bt)
	case token.QUO, token.REM:
		if !b.isConst() {
			b = c.Int(in.concretize(b))
		}
		if b.k.Sign() == 0 {
			in.goPanic("integer divide by zero")
		}
		abs := new(big.Int).Abs(b.k)
		var q, r *Term
		if a.lo != nil && a.lo.Sign() >= 0 {
			q, r = c.Div(a, abs), c.Mod(a, abs)
		} else {
			neg := c.Lt(a, c.I(0))
			na := c.Neg(a)
			q = c.Ite(neg, c.Neg(c.Div(na, abs)), c.Div(a, abs))
			r = c.Ite(neg, c.Neg(c.Mod(na, abs)), c.Mod(a, abs))
		}
		if b.k.Sign() < 0 {
			q = c.Neg(q)
		}
		if op == token.QUO {
			return fromTerm(c.wrap(q, w, s), t)
		}
		return fromTerm(r, t)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		off := func(z *Term) *Term {
			if s {
				return c.Mod(z, new(big.Int).Lsh(bigOne, uint(w)))
			}
			return z
		}
		ua, ub := off(a), off(b)
		if op == token.AND_NOT {
			_, hi := bound(w, false)
			ub = c.Sub(c.Int(hi), ub)
		}
		n := map[token.Token]string{token.AND: "and", token.AND_NOT: "and", token.OR: "or", token.XOR: "xor"}[op]
		return fromTerm(c.wrap(c.BitOp(n, w, ua, ub), w, s), t)
	}
	panic(unsupported("operation %v", op))
}

func floatOp(op token.Token, a, b float64) value {
	switch op {
	case token.ADD:
		return a + b
	case token.SUB:
		return a - b
	case token.MUL:
		return a * b
	case token.QUO:
		return a / b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic(unsupported("float operation %v", op))
}

func (in *Interp) strOp(op token.Token, x, y value) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			switch op {
			case token.ADD:
				return a + b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
	}
	if op == token.ADD {
		return mkStr(append(append([]value(nil), strBytes(x)...), strBytes(y)...))
	}
	panic(unsupported("comparison of symbolic strings"))
}

// eqValue compares values of type t: the result is a bool or a *Term.
func (in *Interp) eqValue(t types.Type, x, y value) value {
	switch t.Underlying().(type) {
	case *types.Interface:
		a, okA := x.(iface)
		b, okB := y.(iface)
		if !okA || !okB {
			panic(unsupported("interface comparison of %T and %T", x, y))
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !types.Identical(a.t, b.t) {
			return false
		}
		return in.eqValue(a.t, a.v, b.v)
	case *types.Struct:
		out := in.c.t
		st := t.Underlying().(*types.Struct)
		for i := range x.(structure) {
			e := in.eqValue(st.Field(i).Type(), x.(structure)[i], y.(structure)[i])
			out = in.c.And(out, in.toTerm(e))
		}
		return fromTerm(out, types.Typ[types.Bool])
	case *types.Array:
		out := in.c.t
		at := t.Underlying().(*types.Array)
		if bt := basic(at.Elem()); bt != nil && bt.Kind() == types.Uint8 {
			return fromTerm(in.bytesEq([]value(x.(array)), []value(y.(array))), types.Typ[types.Bool])
		}
		for i := range x.(array) {
			out = in.c.And(out, in.toTerm(in.eqValue(at.Elem(), x.(array)[i], y.(array)[i])))
		}
		return fromTerm(out, types.Typ[types.Bool])
	case *types.Pointer, *types.Map, *types.Slice, *types.Signature, *types.Chan:
		if isNil(x) || isNil(y) {
			return isNil(x) && isNil(y)
		}
		if !sameVal(x, y) {
			in.unmerge(keyOf(x))
			in.unmerge(keyOf(y))
		}
		return sameVal(x, y)
	}
	switch a := x.(type) {
	case string:
		if b, ok := y.(string); ok {
			return a == b
		}
		return fromTerm(in.bytesEq(strBytes(x), strBytes(y)), types.Typ[types.Bool])
	case *SymStr:
		return fromTerm(in.bytesEq(strBytes(x), strBytes(y)), types.Typ[types.Bool])
	case float64:
		return a == y.(float64)
	}
	if !isSym(x) && !isSym(y) {
		if isNil(x) || isNil(y) {
			return isNil(x) && isNil(y)
		}
		return x == y
	}
	a, b := in.toTerm(x), in.toTerm(y)
	if a.isBool() {
		return fromTerm(in.c.Or(in.c.And(a, b), in.c.And(in.c.Not(a), in.c.Not(b))), types.Typ[types.Bool])
	}
	ra, okA := in.c.byteRefs[a]
	rb, okB := in.c.byteRefs[b]
	if okA || okB {
		if okA && okB && ra.ch == rb.ch {
			return ra.i == rb.i
		}
		in.notes["single bytes of opaque serializations were compared: taken as different"] = true
		return false
	}
	return fromTerm(in.c.Eq(a, b), types.Typ[types.Bool])
}

// bytesEq compares byte sequences; complete opaque serializations are compared by content.
func (in *Interp) bytesEq(a, b []value) *Term {
	c := in.c
	if len(a) != len(b) {
		return c.f
	}
	if x, y := c.hexVecs[byteKey(a)], c.hexVecs[byteKey(b)]; x != nil && y != nil {
		return c.Eq(x, y)
	}
	out := c.t
	for i := 0; i < len(a); {
		if a[i] == b[i] {
			i++
			continue
		}
		ta, okA := a[i].(*Term)
		tb, okB := b[i].(*Term)
		ra, ia := byteRef{}, false
		rb, ib := byteRef{}, false
		if okA {
			ra, ia = c.byteRefs[ta]
		}
		if okB {
			rb, ib = c.byteRefs[tb]
		}
		if ia && ib && ra.i == 0 && rb.i == 0 && ra.ch.n == rb.ch.n && i+ra.ch.n <= len(a) && c.asChunk(a[i:i+ra.ch.n]) != nil && c.asChunk(b[i:i+rb.ch.n]) != nil {
			e := in.chunkEq(ra.ch, rb.ch)
			out = c.And(out, e)
			if out == c.f {
				return out
			}
			i += ra.ch.n
			continue
		}
		if ia && !ib && ra.i == 0 && i+ra.ch.n <= len(a) && c.asChunk(a[i:i+ra.ch.n]) != nil {
			if bs, ok := concreteBytes(b[i : i+ra.ch.n]); ok {
				out = c.And(out, in.chunkEqBytes(ra.ch, bs))
				if out == c.f {
					return out
				}
				i += ra.ch.n
				continue
			}
		}
		if ib && !ia && rb.i == 0 && i+rb.ch.n <= len(a) && c.asChunk(b[i:i+rb.ch.n]) != nil {
			if bs, ok := concreteBytes(a[i : i+rb.ch.n]); ok {
				out = c.And(out, in.chunkEqBytes(rb.ch, bs))
				if out == c.f {
					return out
				}
				i += rb.ch.n
				continue
			}
		}
		if ia || ib {
			return c.f
		}
		out = c.And(out, c.Eq(in.toTerm(a[i]), in.toTerm(b[i])))
		if out == c.f {
			return out
		}
		i++
	}
	return out
}

func (in *Interp) chunkEq(a, b *Chunk) *Term {
	c := in.c
	if a == b {
		return c.t
	}
	if a.kind != b.kind {
		return c.f
	}
	switch a.kind {
	case "g1":
		return in.g1IsZero(c.g1Add(a.obj.(*G1V), b.obj.(*G1V), true))
	case "g2":
		return c.PZ(c.PSub(a.obj.(*Poly), b.obj.(*Poly)))
	case "zr":
		return in.zEq(a.obj.(ZVal), b.obj.(ZVal))
	case "sha", "mac":
		return in.bytesEq(a.obj.([]value), b.obj.([]value))
	}
	return c.f
}

func (in *Interp) chunkEqBytes(a *Chunk, b []byte) *Term {
	c := in.c
	switch a.kind {
	case "g1":
		z := true
		for _, x := range b {
			z = z && x == 0
		}
		if z {
			return in.g1IsZero(a.obj.(*G1V))
		}
	case "zr":
		return in.zEq(a.obj.(ZVal), c.zBig(new(big.Int).SetBytes(b)))
	}
	return c.f
}

func (in *Interp) convert(to, from types.Type, x value) value {
	ut, uf := to.Underlying(), from.Underlying()
	if tb, ok := ut.(*types.Basic); ok {
		if tb.Info()&types.IsString != 0 {
			switch uf := uf.(type) {
			case *types.Slice:
				if b, ok := uf.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
					return mkStr(x.([]value))
				}
				var sb strings.Builder
				for _, r := range x.([]value) {
					sb.WriteRune(rune(r.(int64)))
				}
				return sb.String()
			case *types.Basic:
				if uf.Info()&types.IsString != 0 {
					return x
				}
				if uf.Info()&types.IsInteger != 0 {
					return string(rune(in.cint(x)))
				}
			}
		}
		if tb.Info()&types.IsInteger != 0 {
			w, s, _ := intInfo(to)
			switch v := x.(type) {
			case int64:
				if s {
					return wrapI(v, w)
				}
				return wrapU(uint64(v), w)
			case uint64:
				if s {
					return wrapI(int64(v), w)
				}
				return wrapU(v, w)
			case float64:
				if s {
					return wrapI(int64(v), w)
				}
				return wrapU(uint64(v), w)
			case *Term:
				return fromTerm(in.c.wrap(v, w, s), to)
			}
		}
		if tb.Info()&types.IsFloat != 0 {
			switch v := x.(type) {
			case int64:
				return float64(v)
			case uint64:
				return float64(v)
			case float64:
				return v
			}
		}
		if tb.Kind() == types.UnsafePointer {
			return x
		}
	}
	if ts, ok := ut.(*types.Slice); ok {
		if b, ok := ts.Elem().Underlying().(*types.Basic); ok {
			if b.Kind() == types.Byte {
				bs := append([]value(nil), strBytes(x)...)
				in.markFresh(bs)
				if bs == nil {
					bs = []value{}
				}
				return bs
			}
			var r []value
			for _, ch := range x.(string) {
				r = append(r, int64(ch))
			}
			return r
		}
	}
	if _, ok := ut.(*types.Pointer); ok {
		return x
	}
	panic(unsupported("conversion from %v to %v", from, to))
}

func (in *Interp) slice(fr *frame, ins *ssa.Slice) value {
	x := fr.get(ins.X)
	opt := func(v ssa.Value, d int) int {
		if v == nil {
			return d
		}
		return int(in.cint(fr.get(v)))
	}
	switch s := x.(type) {
	case string, *SymStr:
		b := strBytes(s)
		lo := opt(ins.Low, 0)
		hi := opt(ins.High, len(b))
		if lo < 0 || hi < lo || hi > len(b) {
			in.goPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, len(b)))
		}
		if cs, ok := s.(string); ok {
			return cs[lo:hi]
		}
		return mkStr(b[lo:hi])
	case []value:
		lo := opt(ins.Low, 0)
		hi := opt(ins.High, len(s))
		mx := opt(ins.Max, cap(s))
		if lo < 0 || hi < lo || hi > mx || mx > cap(s) {
			in.goPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(s)))
		}
		return s[lo:hi:mx]
	case *value:
		if s == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		a := (*s).(array)
		lo := opt(ins.Low, 0)
		hi := opt(ins.High, len(a))
		mx := opt(ins.Max, len(a))
		if lo < 0 || hi < lo || hi > mx || mx > len(a) {
			in.goPanic("slice bounds out of range")
		}
		return []value(a)[lo:hi:mx]
	}
	panic(unsupported("slice of %T", x))
}

func (in *Interp) idx(v value, n int) int {
	i := in.cint(v)
	if i < 0 || i >= int64(n) {
		in.goPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return int(i)
}

// table is the value of a constant table at a symbolic index, which is in range, as a case distinction over the runs
// of entries that are equal or increase by one; nil if there are too many.
func (in *Interp) table(x []value, idx value, t types.Type) value {
	i, ok := idx.(*Term)
	bt := basic(t)
	if !ok || i.isConst() || bt == nil || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 || len(x) < 8 {
		return nil
	}
	num := func(v value) (int64, bool) {
		switch v := v.(type) {
		case int64:
			return v, true
		case uint64:
			return int64(v), v < 1<<62
		case bool:
			if v {
				return 1, true
			}
			return 0, true
		}
		return 0, false
	}
	type run struct {
		hi   int
		v    int64 // value, or offset from the index
		incr bool
	}
	var rs []run
	for lo := 0; lo < len(x); {
		v, ok := num(x[lo])
		if !ok {
			return nil
		}
		same, incr := lo, lo
		for same+1 < len(x) {
			if w, ok := num(x[same+1]); !ok || w != v {
				break
			}
			same++
		}
		for incr+1 < len(x) {
			if w, ok := num(x[incr+1]); !ok || w != v+int64(incr+1-lo) {
				break
			}
			incr++
		}
		if incr > same {
			rs = append(rs, run{incr, v - int64(lo), true})
			lo = incr + 1
		} else {
			rs = append(rs, run{same, v, false})
			lo = same + 1
		}
		if len(rs) > 24 {
			return nil
		}
	}
	c := in.c
	var out *Term
	for k := len(rs) - 1; k >= 0; k-- {
		r := rs[k]
		v := c.I(r.v)
		if r.incr {
			v = c.Add(v, i)
		}
		if out == nil {
			out = v
		} else {
			out = c.Ite(c.Le(i, c.I(int64(r.hi))), v, out)
		}
	}
	if bt.Info()&types.IsBoolean != 0 {
		return fromTerm(c.Not(c.Eq(out, c.I(0))), types.Typ[types.Bool])
	}
	return fromTerm(out, t)
}

// onlyRead: an element's address is used for reading it, at once.
func onlyRead(ins *ssa.IndexAddr) bool {
	rs := ins.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL || u.Block() != ins.Block() {
			if _, dbg := r.(*ssa.DebugRef); !dbg {
				return false
			}
		}
	}
	return true
}

func (in *Interp) indexAddr(fr *frame, ins *ssa.IndexAddr) value {
	if t, ok := fr.get(ins.Index).(*Term); ok && onlyRead(ins) {
		var xs []value
		switch x := fr.get(ins.X).(type) {
		case []value:
			xs = x
		case *value:
			if x != nil {
				xs, _ = (*x).(array)
			}
		}
		if v := in.table(xs, t, ins.Type().Underlying().(*types.Pointer).Elem()); v != nil {
			in.inRange(t, len(xs))
			return &v
		}
	}
	switch x := fr.get(ins.X).(type) {
	case []value:
		return &x[in.symIdx(fr.get(ins.Index), len(x))]
	case *value:
		if x == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		a := (*x).(array)
		return &a[in.symIdx(fr.get(ins.Index), len(a))]
	}
	panic(unsupported("index of %T", fr.get(ins.X)))
}

func (in *Interp) symIdx(v value, n int) int {
	if t, ok := v.(*Term); ok {
		in.noMerge("symbolic index")
		in.inRange(t, n)
	}
	return in.idx(v, n)
}

// inRange panics like the program where an index is out of range.
func (in *Interp) inRange(t *Term, n int) {
	{
		if !inRange(t, bigZero, big.NewInt(int64(n-1))) {
			c := in.c
			if !in.branch(c.And(c.Le(c.I(0), t), c.Lt(t, c.I(int64(n))))) {
				in.goPanic("index out of range")
			}
		}
	}
}

func (in *Interp) index(fr *frame, ins *ssa.Index) value {
	switch x := fr.get(ins.X).(type) {
	case array:
		if t, ok := fr.get(ins.Index).(*Term); ok {
			if v := in.table(x, t, ins.Type()); v != nil {
				in.inRange(t, len(x))
				return v
			}
		}
		return cp(x[in.symIdx(fr.get(ins.Index), len(x))])
	case string:
		if t, ok := fr.get(ins.Index).(*Term); ok {
			if v := in.table(strBytes(x), t, ins.Type()); v != nil {
				in.inRange(t, len(x))
				return v
			}
		}
		return uint64(x[in.symIdx(fr.get(ins.Index), len(x))])
	case *SymStr:
		return x.b[in.symIdx(fr.get(ins.Index), len(x.b))]
	}
	panic(unsupported("index of %T", fr.get(ins.X)))
}

func (in *Interp) mapKey(k value) interface{} {
	switch k := k.(type) {
	case *Term:
		if k.isBool() {
			return in.branch(k)
		}
		return in.concretize(k).Int64()
	case uint64:
		return int64(k)
	case string, int64, bool, float64:
		return k
	case iface:
		if k.t == nil {
			return nil
		}
		return [2]interface{}{k.t.String(), in.mapKey(k.v)}
	case structure:
		s := ""
		for _, f := range k {
			s += keyText(in.mapKey(f)) + ";"
		}
		return s
	case array:
		s := "a"
		for _, f := range k {
			s += keyText(in.mapKey(f)) + ";"
		}
		return s
	case *value, *ZrObj, *G1Obj:
		return k
	case *SymStr:
		panic(unsupported("symbolic string as a map key"))
	}
	panic(unsupported("map key %T", k))
}

// keyText is an injective text of a map key.
func keyText(k interface{}) string {
	switch k := k.(type) {
	case [2]interface{}:
		return fmt.Sprintf("%q:%s", k[0], keyText(k[1]))
	case string:
		return strconv.Quote(k)
	case *value, *ZrObj, *G1Obj:
		return fmt.Sprintf("%p", k)
	}
	return fmt.Sprintf("%T(%v)", k, k)
}

// concKey replaces symbolic keys by their concrete value.
func concKey(in *Interp, k value, nk interface{}) value {
	if _, ok := k.(*Term); ok {
		switch n := nk.(type) {
		case int64:
			return n
		case bool:
			return n
		}
	}
	return k
}

// hasSymStr: some string in the key has symbolic bytes.
func hasSymStr(k value) bool {
	switch k := k.(type) {
	case *SymStr:
		return true
	case iface:
		return k.t != nil && hasSymStr(k.v)
	case structure:
		for _, f := range k {
			if hasSymStr(f) {
				return true
			}
		}
	case array:
		for _, f := range k {
			if hasSymStr(f) {
				return true
			}
		}
	}
	return false
}

// keyEq compares two keys of one map.
func (in *Interp) keyEq(x, y value) *Term {
	switch a := x.(type) {
	case iface:
		b, ok := y.(iface)
		if !ok || a.t == nil || b.t == nil || !types.Identical(a.t, b.t) {
			return in.c.Bool(ok && a.t == nil && b.t == nil)
		}
		return in.keyEq(a.v, b.v)
	case structure:
		out := in.c.t
		for i := range a {
			out = in.c.And(out, in.keyEq(a[i], y.(structure)[i]))
		}
		return out
	case array:
		out := in.c.t
		for i := range a {
			out = in.c.And(out, in.keyEq(a[i], y.(array)[i]))
		}
		return out
	case string, *SymStr:
		return in.bytesEq(strBytes(x), strBytes(y))
	case *Term:
		return in.c.Eq(a, in.toTerm(y))
	}
	if _, ok := y.(*Term); ok {
		return in.c.Eq(in.toTerm(x), y.(*Term))
	}
	return in.c.Bool(in.mapKey(x) == in.mapKey(y))
}

// mapFind is the entry of a key. Where a symbolic string is involved, the key is compared with those present.
func (in *Interp) mapFind(m *hmap, k value) (int, bool) {
	sym := hasSymStr(k)
	if !sym && !m.sym {
		i, ok := m.idx[in.mapKey(k)]
		return i, ok
	}
	in.noMerge("symbolic map key")
	for j := range m.keys {
		if !m.dead[j] && (sym || hasSymStr(m.keys[j])) && in.branch(in.keyEq(k, m.keys[j])) {
			return j, true
		}
	}
	if !sym {
		i, ok := m.idx[in.mapKey(k)]
		return i, ok
	}
	return 0, false
}

func (in *Interp) mapSet(m *hmap, k, v value) {
	if i, ok := in.mapFind(m, k); ok {
		m.vals[i] = cp(v)
		return
	}
	if hasSymStr(k) {
		m.sym = true
		m.keys = append(m.keys, cp(k))
		m.vals = append(m.vals, cp(v))
		m.dead = append(m.dead, false)
		m.n++
		return
	}
	nk := in.mapKey(k)
	m.idx[nk] = len(m.keys)
	m.keys = append(m.keys, concKey(in, k, nk))
	m.vals = append(m.vals, cp(v))
	m.dead = append(m.dead, false)
	m.n++
}

func (in *Interp) mapDel(m *hmap, k value) {
	if m == nil {
		return
	}
	if i, ok := in.mapFind(m, k); ok {
		m.dead[i] = true
		m.n--
		if !hasSymStr(m.keys[i]) {
			delete(m.idx, in.mapKey(m.keys[i]))
		}
	}
}

func (in *Interp) lookup(fr *frame, ins *ssa.Lookup) value {
	switch x := fr.get(ins.X).(type) {
	case string, *SymStr:
		b := strBytes(x)
		return b[in.symIdx(fr.get(ins.Index), len(b))]
	case *hmap:
		var v value
		ok := false
		if x != nil {
			in.access2(x, false)
			var i int
			k := fr.get(ins.Index)
			if t, isT := k.(*Term); isT && !t.isBool() {
				// compare with the keys present instead of enumerating the domain
				found := false
				for j := range x.keys {
					if x.dead[j] {
						continue
					}
					if in.branch(in.c.Eq(t, in.toTerm(x.keys[j]))) {
						i, found = j, true
						break
					}
				}
				ok = found
			} else {
				i, ok = in.mapFind(x, k)
			}
			if ok {
				v = cp(x.vals[i])
			}
		}
		if !ok {
			t := ins.X.Type().Underlying().(*types.Map).Elem()
			v = zero(t)
		}
		if ins.CommaOk {
			return tuple{v, ok}
		}
		return v
	}
	panic(unsupported("lookup in %T", fr.get(ins.X)))
}

type iterator interface{ next(in *Interp) value }

type mapIter struct {
	m     *hmap
	order []int
	i     int
	kt    types.Type
	vt    types.Type
}

func (it *mapIter) next(in *Interp) value {
	for it.i < len(it.order) {
		j := it.order[it.i]
		it.i++
		if !it.m.dead[j] {
			k := it.m.keys[j]
			if n, ok := k.(int64); ok {
				if _, s, isInt := intInfo(it.kt); isInt && !s {
					k = uint64(n)
				}
			}
			return tuple{true, k, cp(it.m.vals[j])}
		}
	}
	return tuple{false, nil, nil}
}

type strIter struct {
	b []value
	i int
}

func (it *strIter) next(in *Interp) value {
	if it.i >= len(it.b) {
		return tuple{false, nil, nil}
	}
	if s, ok := mkStr(it.b[it.i:]).(string); ok {
		for _, r := range s {
			i := it.i
			it.i += len(string(r))
			return tuple{true, int64(i), int64(r)}
		}
	}
	i := it.i
	r, w := in.decodeRune(it.b[it.i:])
	it.i += w
	return tuple{true, int64(i), r}
}

// decodeRune is utf8.DecodeRune.
func (in *Interp) decodeRune(b []value) (value, int) {
	if len(b) == 0 {
		return int64(utf8.RuneError), 0
	}
	c := in.c
	at := func(i int) *Term { return in.toTerm(b[i]) }
	within := func(t *Term, lo, hi int64) bool { return in.branch(c.And(c.Le(c.I(lo), t), c.Le(t, c.I(hi)))) }
	t := at(0)
	i32 := types.Typ[types.Int32]
	if within(t, 0, 127) {
		return fromTerm(t, i32), 1
	}
	cont := func(i int, k int64) *Term { return c.Scale(c.Sub(at(i), c.I(0x80)), big.NewInt(k)) }
	bad := int64(utf8.RuneError)
	switch {
	case within(t, 0xC2, 0xDF):
		if len(b) > 1 && within(at(1), 0x80, 0xBF) {
			return fromTerm(c.Add(c.Scale(c.Sub(t, c.I(0xC0)), big.NewInt(64)), cont(1, 1)), i32), 2
		}
	case within(t, 0xE0, 0xEF):
		if len(b) > 2 && within(at(1), 0x80, 0xBF) && within(at(2), 0x80, 0xBF) &&
			!in.branch(c.Or(c.And(c.Eq(t, c.I(0xE0)), c.Lt(at(1), c.I(0xA0))), c.And(c.Eq(t, c.I(0xED)), c.Lt(c.I(0x9F), at(1))))) {
			return fromTerm(c.Add(c.Add(c.Scale(c.Sub(t, c.I(0xE0)), big.NewInt(4096)), cont(1, 64)), cont(2, 1)), i32), 3
		}
	case within(t, 0xF0, 0xF4):
		if len(b) > 3 && within(at(1), 0x80, 0xBF) && within(at(2), 0x80, 0xBF) && within(at(3), 0x80, 0xBF) &&
			!in.branch(c.Or(c.And(c.Eq(t, c.I(0xF0)), c.Lt(at(1), c.I(0x90))), c.And(c.Eq(t, c.I(0xF4)), c.Lt(c.I(0x8F), at(1))))) {
			return fromTerm(c.Add(c.Add(c.Add(c.Scale(c.Sub(t, c.I(0xF0)), big.NewInt(262144)), cont(1, 4096)), cont(2, 64)), cont(3, 1)), i32), 4
		}
	}
	return bad, 1
}

func (in *Interp) rangeIter(x value, t types.Type) value {
	switch x := x.(type) {
	case string, *SymStr:
		return &strIter{b: strBytes(x)}
	case *hmap:
		mt := t.Underlying().(*types.Map)
		it := &mapIter{m: x, kt: mt.Key(), vt: mt.Elem()}
		if x == nil {
			it.m = &hmap{}
			return it
		}
		in.access2(x, false)
		for j := range x.keys {
			if !x.dead[j] {
				it.order = append(it.order, j)
			}
		}
		n := len(it.order)
		switch in.mapMode {
		case 1: // reversed
			for i := 0; i < n/2; i++ {
				it.order[i], it.order[n-1-i] = it.order[n-1-i], it.order[i]
			}
		case 2: // every rotation and the reversed order
			if n > 1 {
				k := in.choose(n + 1)
				if k == n {
					for i := 0; i < n/2; i++ {
						it.order[i], it.order[n-1-i] = it.order[n-1-i], it.order[i]
					}
				} else {
					it.order = append(append([]int(nil), it.order[k:]...), it.order[:k]...)
				}
			}
		}
		return it
	}
	panic(unsupported("range over %T", x))
}

func (in *Interp) typeAssert(ins *ssa.TypeAssert, x iface) value {
	ok := false
	var v value
	if x.t != nil {
		if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
			switch x.v.(type) {
			case *ErrObj, *HashObj, *RandObj:
				ok = it.NumMethods() <= 1
			default:
				ok = types.AssignableTo(x.t, ins.AssertedType) || types.Implements(x.t, it)
			}
			v = x
		} else {
			ok = types.Identical(x.t, ins.AssertedType)
			v = x.v
		}
	}
	if !ok {
		if !ins.CommaOk {
			panic(targetPanic{v: iface{runtimeErrType, &ErrObj{msg: "interface conversion: interface is not " + ins.AssertedType.String()}}, pos: in.pos(ins.Pos())})
		}
		return tuple{zero(ins.AssertedType), false}
	}
	if ins.CommaOk {
		return tuple{cp(v), true}
	}
	return cp(v)
}

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, call *ssa.CallCommon, args []value) value {
	switch b.Name() {
	case "append":
		s := args[0].([]value)
		if len(args) == 1 {
			return s
		}
		var add []value
		switch y := args[1].(type) {
		case []value:
			add = y
		case string, *SymStr:
			add = strBytes(y)
		case nil:
		}
		et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		return in.appendSlice(s, add, et)
	case "copy":
		d := args[0].([]value)
		var src []value
		switch y := args[1].(type) {
		case []value:
			src = y
		default:
			src = strBytes(y)
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			in.access(&src[i], false)
			tmp[i] = cp(src[i])
		}
		for i := 0; i < n; i++ {
			in.access(&d[i], true)
			in.storeVal(&d[i], tmp[i])
		}
		return int64(n)
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case *SymStr:
			return int64(len(x.b))
		case []value:
			return int64(len(x))
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case *hmap:
			if x == nil {
				return int64(0)
			}
			in.access2(x, false)
			return int64(x.n)
		case *channel:
			return int64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return int64(cap(x))
		case array:
			return int64(len(x))
		case *channel:
			return int64(x.cap)
		}
	case "delete":
		in.noMerge("delete")
		in.access2(args[0].(*hmap), true)
		in.mapDel(args[0].(*hmap), args[1])
		return nil
	case "clear":
		in.noMerge("clear")
		if m, ok := args[0].(*hmap); ok {
			*m = hmap{idx: map[interface{}]int{}}
			return nil
		}
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{v: args[0]})
	case "recover":
		// the caller of the deferred function is the panicking frame
		if fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			v := fr.caller.panic.v
			if v == nil {
				return iface{}
			}
			return v
		}
		return iface{}
	case "close":
		args[0].(*channel).closed = true
		return nil
	case "min", "max":
		acc := args[0]
		t := call.Args[0].Type()
		for _, a := range args[1:] {
			lt := in.binop(token.LSS, t, t, a, acc)
			if b.Name() == "max" {
				lt = in.binop(token.LSS, t, t, acc, a)
			}
			switch l := lt.(type) {
			case bool:
				if l {
					acc = a
				}
			case *Term:
				acc = fromTerm(in.c.Ite(l, in.toTerm(a), in.toTerm(acc)), t)
			}
		}
		return acc
	case "ssa:wrapnilchk":
		if isNil(args[0]) {
			in.goPanic("value method called using nil pointer")
		}
		return args[0]
	}
	panic(unsupported("builtin %s", b.Name()))
}

func elemSize(t types.Type) int64 {
	return sizes.Sizeof(t)
}

var sizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap mirrors the runtime's growslice so that aliasing through append is as in the real build.
func growCap(oldCap, need int, size int64) int {
	newcap := oldCap
	if double := newcap + newcap; need > double {
		newcap = need
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < need {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if size == 0 {
		return newcap
	}
	mem := int64(newcap) * size
	if mem <= 32768 {
		for _, s := range sizeClasses {
			if s >= mem {
				mem = s
				break
			}
		}
	} else {
		mem = (mem + 8191) / 8192 * 8192
	}
	return int(mem / size)
}

func (in *Interp) appendSlice(s, add []value, et types.Type) []value {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			in.access(&r[len(s)+i], true)
			in.storeVal(&r[len(s)+i], v)
		}
		if s == nil && n == 0 {
			return s
		}
		return r
	}
	r := in.makeSlice(et, n, growCap(cap(s), n, elemSize(et)))
	for i := range s {
		in.access(&s[i], false)
		r[i] = cp(s[i])
	}
	for i, v := range add {
		r[len(s)+i] = cp(v)
	}
	return r
}

// keyOf returns the objects whose identity a merge may hide.
func keyOf(v value) interface{} {
	switch v.(type) {
	case *ZrObj, *G1Obj:
		return v
	}
	return nil
}
