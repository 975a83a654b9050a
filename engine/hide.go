package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"strings"
)

// What scalars and group elements disclose of a witness: they are polynomials in the witness, the randomness and
// generic constants (challenges, discrete logarithms of the generators). A function of them that is determined by
// the witness alone exists, to first order, iff the derivative by the witness is not in the span of those by the
// randomness. Ranks are those at a generic point, over the field.

// generic is the value of a variable or of the discrete logarithm of a base at the generic point.
func generic(name string) Fe {
	h := sha256.Sum256([]byte("generic point: " + name))
	f := feFromBig(new(big.Int).SetBytes(h[:]))
	if f.IsZero() {
		return feOne
	}
	return f
}

type differ struct {
	in   *Interp
	val  map[int32]Fe // monomials
	cols map[int32]int
	ncol int
}

func (d *differ) variable(v int32) Fe { return generic(d.in.c.vars[v].name) }

func (d *differ) mono(m int32) Fe {
	if f, ok := d.val[m]; ok {
		return f
	}
	f := feOne
	mi := &d.in.c.monos[m]
	for i, v := range mi.vars {
		x := d.variable(v)
		e := mi.exps[i]
		if e < 0 {
			x, e = feInv(x), -e
		}
		for ; e > 0; e-- {
			f = feMul(f, x)
		}
	}
	d.val[m] = f
	return f
}

// add adds k times the gradient of p to row.
func (d *differ) add(row []Fe, p *Poly, k Fe) {
	p = d.in.c.Norm(p)
	for i, m := range p.m {
		mi := &d.in.c.monos[m]
		for j, v := range mi.vars {
			col, ok := d.cols[v]
			if !ok {
				continue
			}
			x := feMul(feMul(p.c[i], k), feMul(d.mono(m), feInv(d.variable(v))))
			row[col] = feAdd(row[col], feMul(x, feFromInt(int64(mi.exps[j]))))
		}
	}
}

func (d *differ) gradient(s slot) []Fe {
	c := d.in.c
	row := make([]Fe, d.ncol)
	g1 := func(g *G1V, k Fe) {
		for i, b := range g.b {
			d.add(row, g.p[i], feMul(k, generic("base "+c.bases[b])))
		}
	}
	switch s.kind {
	case "zr":
		d.add(row, (*s.p).(*ZrObj).v.p, feOne)
	case "g1":
		g1((*s.p).(*G1Obj).v, feOne)
	case "g2":
		d.add(row, (*s.p).(*G2Obj).v, feOne)
	case "gt":
		g := (*s.p).(*GtObj)
		g1(g.m, feOne)
		g1(g.e, feOne)
	}
	return row
}

// rankOf counts the independent columns among the first n.
func rankOf(rows [][]Fe, n int) int {
	m := make([][]Fe, len(rows))
	for i := range rows {
		m[i] = append([]Fe(nil), rows[i][:n]...)
	}
	k := 0
	for col := 0; col < n && k < len(m); col++ {
		piv := -1
		for i := k; i < len(m); i++ {
			if !m[i][col].IsZero() {
				piv = i
				break
			}
		}
		if piv < 0 {
			continue
		}
		m[k], m[piv] = m[piv], m[k]
		inv := feInv(m[k][col])
		for i := k + 1; i < len(m); i++ {
			if m[i][col].IsZero() {
				continue
			}
			q := feMul(m[i][col], inv)
			for j := col; j < n; j++ {
				if !m[k][j].IsZero() {
					m[i][j] = feSub(m[i][j], feMul(q, m[k][j]))
				}
			}
		}
		k++
	}
	return k
}

// compensate solves, for the columns from k on, for the combination of the first k columns that they are.
func compensate(rows [][]Fe, k int) [][]Fe {
	if len(rows) == 0 {
		return nil
	}
	n := len(rows[0])
	m := make([][]Fe, len(rows))
	for i := range rows {
		m[i] = append([]Fe(nil), rows[i]...)
	}
	var pivots []int
	for col := 0; col < k && len(pivots) < len(m); col++ {
		at, piv := len(pivots), -1
		for i := at; i < len(m); i++ {
			if !m[i][col].IsZero() {
				piv = i
				break
			}
		}
		if piv < 0 {
			continue
		}
		m[at], m[piv] = m[piv], m[at]
		inv := feInv(m[at][col])
		for j := col; j < n; j++ {
			m[at][j] = feMul(m[at][j], inv)
		}
		for i := range m {
			if i == at || m[i][col].IsZero() {
				continue
			}
			q := m[i][col]
			for j := col; j < n; j++ {
				if !m[at][j].IsZero() {
					m[i][j] = feSub(m[i][j], feMul(q, m[at][j]))
				}
			}
		}
		pivots = append(pivots, col)
	}
	out := make([][]Fe, k)
	for j := range out {
		out[j] = make([]Fe, n-k)
		for i := range out[j] {
			out[j][i] = feZero
		}
	}
	for at, col := range pivots {
		for i := k; i < n; i++ {
			out[col][i-k] = feNeg(m[at][i])
		}
	}
	return out
}

// confirmSpan lets the solver confirm that for every change of the hidden values there is one of the randomness
// that leaves every component as it is. Bounded in number.
func (in *Interp) confirmSpan(rows [][]Fe, k int) {
	if in.w.spans >= 8 {
		in.st.spanSkipped++
		return
	}
	in.w.spans++
	c := compensate(rows, k)
	var sb strings.Builder
	if len(rows) == 0 {
		return
	}
	for i := k; i < len(rows[0]); i++ {
		fmt.Fprintf(&sb, "(declare-const dw%d Int)\n", i-k)
	}
	for j := range c {
		t := ""
		for i, x := range c[j] {
			if !x.IsZero() {
				t += fmt.Sprintf(" (* %s dw%d)", num(x.SBig()), i)
			}
		}
		fmt.Fprintf(&sb, "(define-fun dr%d () Int (+ 0%s))\n", j, t)
	}
	var ds []string
	for _, r := range rows {
		t := ""
		for j, x := range r {
			if x.IsZero() {
				continue
			}
			n := fmt.Sprintf("dr%d", j)
			if j >= k {
				n = fmt.Sprintf("dw%d", j-k)
			}
			t += fmt.Sprintf(" (* %s %s)", num(x.SBig()), n)
		}
		if t != "" {
			ds = append(ds, "(not (= 0 (mod (+ 0"+t+") "+P.String()+")))")
		}
	}
	switch in.s.once(sb.String() + "(assert (or false " + strings.Join(ds, " ") + "))\n") {
	case Unsat:
		in.st.spanUnsat++
	case Sat:
		in.incon = append(in.incon, "the solver disagrees with the rank of a derivative")
	default:
		in.st.spanUnknown++
	}
}

// ranks runs f and returns the rank of the derivative of what it returns by the randomness it draws,
// and by that and the witness.
func (in *Interp) ranks(fr *frame, f value, args []value, witness []*Poly) (int, int) {
	in.noMerge("derivative")
	before := in.nrand
	res, _ := in.call(fr, f, args).([]value)
	d := &differ{in: in, val: map[int32]Fe{}, cols: map[int32]int{}}
	for i := before + 1; i <= in.nrand; i++ {
		if v, ok := in.c.varIdx[fmt.Sprintf("rand%d", i)]; ok {
			d.cols[v] = d.ncol
			d.ncol++
		}
	}
	k := d.ncol
	for _, p := range witness {
		d.cols[in.c.monos[p.m[0]].vars[0]] = d.ncol
		d.ncol++
	}
	var rows [][]Fe
	for _, r := range res {
		for _, s := range in.leaves(r) {
			if s.kind != "int" {
				rows = append(rows, d.gradient(s))
			}
		}
	}
	r, rw := rankOf(rows, k), rankOf(rows, d.ncol)
	if rw == r && len(witness) > 0 {
		in.confirmSpan(rows, k)
	}
	debugf("derivative: %d components, %d random scalars, %d witness, rank %d, with the witness %d", len(rows), k, len(witness), r, rw)
	return r, rw
}

func init() {
	nd := func(n string, f intrinsic) { reg(ndPath+n, f) }
	nd("Leaks", func(in *Interp, fr *frame, a []value) value {
		n, name := int(in.cint(a[0])), in.ndStr(a[1])
		var ws []value
		var ps []*Poly
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("%s%d", name, i)
			t := in.c.IntVar("i:"+nm, bigZero, new(big.Int).Lsh(bigOne, 40))
			in.ndAdd(&ndVar{name: nm, kind: "int", t: t})
			ws, ps = append(ws, t), append(ps, in.c.PTerm(t))
		}
		r, rw := in.ranks(fr, a[2], []value{ws}, ps)
		return int64(rw - r)
	})
	nd("Freedom", func(in *Interp, fr *frame, a []value) value {
		r, _ := in.ranks(fr, a[0], nil, nil)
		return int64(r)
	})
	nd("Count", func(in *Interp, fr *frame, a []value) value {
		distinct := in.branch(in.toTerm(a[0]))
		seen := map[interface{}]bool{}
		n := map[string]int64{}
		for _, r := range a[1].([]value) {
			for _, s := range in.leaves(r) {
				if distinct && seen[*s.p] {
					continue
				}
				if s.kind != "int" {
					seen[*s.p] = true
				}
				n[s.kind]++
			}
		}
		return tuple{n["zr"], n["g1"], n["g2"], n["gt"]}
	})
}
