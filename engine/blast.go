package main

import (
	"context"
	"fmt"
	"math/big"
	"os/exec"
	"strings"
	"time"
)

// A second encoding for queries over bounded integers that the integer solver leaves undecided:
// the same terms as two's complement bit vectors, wide enough that nothing wraps.

type blaster struct {
	sb     strings.Builder
	w      int
	def    map[*Term]string
	decl   map[string]bool
	ok     map[*Term]int // 1 expressible, 2 not
	maxLen int
}

// fits: every node of t has a finite range; the widest value is noted.
func (b *blaster) fits(t *Term) bool {
	if v := b.ok[t]; v != 0 {
		return v == 1
	}
	b.ok[t] = 2
	note := func(x *big.Int) {
		if n := x.BitLen(); n > b.maxLen {
			b.maxLen = n
		}
	}
	r := true
	switch t.op {
	case OpPZ:
		r = false
	case OpConst:
		note(t.k)
	case OpTrue, OpFalse, OpBVar:
	default:
		for _, a := range t.args {
			if !b.fits(a) {
				return false
			}
		}
		if !t.isBool() {
			if t.lo == nil || t.hi == nil {
				return false
			}
			note(t.lo)
			note(t.hi)
		}
		switch t.op {
		case OpSum:
			// partial sums
			s := new(big.Int).Abs(t.k)
			for i, a := range t.args {
				m := new(big.Int).Abs(a.lo)
				if a.hi.CmpAbs(m) > 0 {
					m.Abs(a.hi)
				}
				s.Add(s, m.Mul(m, new(big.Int).Abs(t.coefs[i])))
			}
			note(s)
		case OpDiv, OpMod:
			note(t.k)
		case OpBit:
			for _, a := range t.args {
				if a.lo.Sign() < 0 {
					return false
				}
			}
			note(new(big.Int).Lsh(bigOne, uint(t.k.Int64())))
		}
	}
	if r {
		b.ok[t] = 1
	}
	return r
}

func (b *blaster) num(x *big.Int) string {
	if x.Sign() < 0 {
		x = new(big.Int).Add(x, new(big.Int).Lsh(bigOne, uint(b.w)))
	}
	return fmt.Sprintf("(_ bv%s %d)", x, b.w)
}

func (b *blaster) enc(t *Term) string {
	if n, ok := b.def[t]; ok {
		return n
	}
	srt := fmt.Sprintf("(_ BitVec %d)", b.w)
	var body string
	as := func(i int) string { return b.enc(t.args[i]) }
	switch t.op {
	case OpConst:
		return b.num(t.k)
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpVar, OpBVar:
		n := quote(t.name)
		if !b.decl[n] {
			b.decl[n] = true
			if t.op == OpBVar {
				fmt.Fprintf(&b.sb, "(declare-const %s Bool)\n", n)
			} else {
				fmt.Fprintf(&b.sb, "(declare-const %s %s)\n(assert (bvsle %s %s))\n(assert (bvsle %s %s))\n", n, srt, b.num(t.lo), n, n, b.num(t.hi))
			}
		}
		return n
	case OpSum:
		body = b.num(t.k)
		for i := range t.args {
			body = "(bvadd " + body + " (bvmul " + b.num(t.coefs[i]) + " " + as(i) + "))"
		}
	case OpMul:
		body = "(bvmul " + as(0) + " " + as(1) + ")"
	case OpDiv:
		if t.args[0].lo.Sign() >= 0 {
			body = "(bvudiv " + as(0) + " " + b.num(t.k) + ")"
		} else {
			body = "(bvsdiv (bvsub " + as(0) + " (bvsmod " + as(0) + " " + b.num(t.k) + ")) " + b.num(t.k) + ")"
		}
	case OpMod:
		if t.args[0].lo.Sign() >= 0 {
			body = "(bvurem " + as(0) + " " + b.num(t.k) + ")"
		} else {
			body = "(bvsmod " + as(0) + " " + b.num(t.k) + ")"
		}
	case OpIte:
		body = "(ite " + as(0) + " " + as(1) + " " + as(2) + ")"
	case OpBit:
		m := b.num(new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(t.k.Int64())), bigOne))
		body = "(bvand " + m + " (bv" + t.name + " " + as(0) + " " + as(1) + "))"
	case OpLe0:
		srt, body = "Bool", "(bvsle "+as(0)+" "+b.num(bigZero)+")"
	case OpEq0:
		srt, body = "Bool", "(= "+as(0)+" "+b.num(bigZero)+")"
	case OpNot:
		srt, body = "Bool", "(not "+as(0)+")"
	case OpAnd, OpOr:
		srt, body = "Bool", "(and"
		if t.op == OpOr {
			body = "(or"
		}
		for i := range t.args {
			body += " " + as(i)
		}
		body += ")"
	}
	n := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&b.sb, "(define-fun %s () %s %s)\n", n, srt, body)
	b.def[t] = n
	return n
}

// bitblast decides the current assertions and extra. Assertions that cannot be expressed are left out,
// which is sound for an unsatisfiable answer only.
func (s *Solver) bitblast(vars, extra []*Term) (Res, map[string]*big.Int) {
	b := &blaster{def: map[*Term]string{}, decl: map[string]bool{}, ok: map[*Term]int{}}
	var as []*Term
	all := true
	for _, t := range extra {
		if !b.fits(t) {
			return Unknown, nil
		}
		as = append(as, t)
	}
	for _, t := range s.asserts {
		if b.fits(t) {
			as = append(as, t)
		} else {
			all = false
		}
	}
	for _, v := range vars {
		all = all && b.fits(v)
	}
	b.w = b.maxLen + 2
	if b.w > 600 {
		return Unknown, nil
	}
	for _, t := range as {
		e := b.enc(t)
		b.sb.WriteString("(assert " + e + ")\n")
	}
	if all {
		for _, v := range vars {
			b.enc(v)
		}
	}
	b.sb.WriteString("(check-sat)\n")
	if all {
		for _, v := range vars {
			n := quote(v.name)
			if b.decl[n] && v.op == OpVar {
				fmt.Fprintf(&b.sb, "(echo \"@%s\")\n(eval (bv2nat %s))\n", v.name, n)
			} else if b.decl[n] {
				fmt.Fprintf(&b.sb, "(echo \"@%s\")\n(eval (ite %s 1 0))\n", v.name, n)
			}
		}
	}
	t0 := time.Now()
	defer func() { s.stats.queries++; s.stats.blasted++; s.stats.solverNs += int64(time.Since(t0)) }()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(2*s.timeout)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, solverBin, "-in", "-memory:3000")
	cmd.Stdin = strings.NewReader(b.sb.String())
	out, _ := cmd.Output()
	ls := strings.Split(strings.TrimSpace(string(out)), "\n")
	switch strings.TrimSpace(ls[0]) {
	case "unsat":
		return Unsat, nil
	case "sat":
		if !all {
			return Unknown, nil
		}
		model := map[string]*big.Int{}
		for i := 1; i+1 < len(ls); i++ {
			l := strings.TrimSpace(ls[i])
			if !strings.HasPrefix(l, "@") {
				continue
			}
			x, ok := new(big.Int).SetString(strings.TrimSpace(ls[i+1]), 10)
			if !ok {
				return Unknown, nil
			}
			for _, v := range vars {
				if v.name == l[1:] {
					// two's complement
					if x.BitLen() == b.w {
						x.Sub(x, new(big.Int).Lsh(bigOne, uint(b.w)))
					}
					model[v.name] = x
				}
			}
		}
		for _, v := range vars {
			if model[v.name] == nil {
				model[v.name] = bigZero
				if v.lo != nil && v.lo.Sign() > 0 {
					model[v.name] = v.lo
				}
			}
		}
		return Sat, model
	}
	return Unknown, nil
}
