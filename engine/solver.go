package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strings"
	"time"
)

type Res int

const (
	Unknown Res = iota
	Sat
	Unsat
)

// Solver drives one z3 process. Assertions of the current path are kept at level 1.
type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defined map[*Term]string
	decl    map[string]*Term
	open    bool
	nassert int
	asserts []*Term
	timeout int
	stats   *Stats
	buf     strings.Builder
	dead    bool
}

type Stats struct {
	queries, sat, unsat, unknown int64
	solverNs                     int64
	groupEqs                     int64
	identUnsat, identUnknown     int64
	identSat                     int64
	identSkipped                 int64
	spanUnsat, spanUnknown       int64
	spanSkipped                  int64
	blasted                      int64
	merges, trivial, paths       int64
	slowest                      time.Duration
}

var solverBin = "z3-new"

func NewSolver(c *Ctx, st *Stats, timeoutMs int) *Solver {
	s := &Solver{c: c, timeout: timeoutMs, stats: st}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(solverBin, "-in", "-memory:3000")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.dead = false
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-option :model.completion true)\n", s.timeout))
	s.open = false
	s.reset()
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	as := s.asserts
	s.Close()
	s.start()
	for _, a := range as {
		s.Assert(a)
	}
}

func (s *Solver) send(x string) {
	if _, err := io.WriteString(s.in, x); err != nil {
		s.dead = true
	}
}

// reset drops the assertions of the previous path.
func (s *Solver) reset() {
	if s.open {
		s.send("(pop 1)\n")
	}
	s.send("(push 1)\n")
	s.open = true
	s.defined = map[*Term]string{}
	s.decl = map[string]*Term{}
	s.asserts = nil
}

func num(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func quote(n string) string { return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(n) + "|" }

func (s *Solver) varName(t *Term, sort string) string {
	n := quote(t.name)
	if s.decl[n] == nil {
		s.decl[n] = t
		fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", n, sort)
		if sort == "Int" {
			if t.lo != nil {
				fmt.Fprintf(&s.buf, "(assert (<= %s %s))\n", num(t.lo), n)
			}
			if t.hi != nil {
				fmt.Fprintf(&s.buf, "(assert (<= %s %s))\n", n, num(t.hi))
			}
		}
	}
	return n
}

// enc returns the SMT name of a term, defining shared nodes.
func (s *Solver) enc(t *Term) string {
	if n, ok := s.defined[t]; ok {
		return n
	}
	var body, srt string
	srt = "Int"
	switch t.op {
	case OpConst:
		return num(t.k)
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpVar:
		return s.varName(t, "Int")
	case OpBVar:
		return s.varName(t, "Bool")
	case OpSum:
		var sb strings.Builder
		sb.WriteString("(+")
		if t.k.Sign() != 0 {
			sb.WriteString(" " + num(t.k))
		} else if len(t.args) == 1 {
			sb.WriteString(" 0")
		}
		for i, a := range t.args {
			e := s.enc(a)
			if t.coefs[i].Cmp(bigOne) == 0 {
				sb.WriteString(" " + e)
			} else {
				sb.WriteString(" (* " + num(t.coefs[i]) + " " + e + ")")
			}
		}
		sb.WriteString(")")
		body = sb.String()
	case OpMul:
		body = "(* " + s.enc(t.args[0]) + " " + s.enc(t.args[1]) + ")"
	case OpDiv:
		body = "(div " + s.enc(t.args[0]) + " " + num(t.k) + ")"
	case OpMod:
		body = "(mod " + s.enc(t.args[0]) + " " + num(t.k) + ")"
	case OpIte:
		body = "(ite " + s.enc(t.args[0]) + " " + s.enc(t.args[1]) + " " + s.enc(t.args[2]) + ")"
	case OpBit:
		w := t.k.String()
		body = "(bv2nat (bv" + t.name + " ((_ int2bv " + w + ") " + s.enc(t.args[0]) + ") ((_ int2bv " + w + ") " + s.enc(t.args[1]) + ")))"
	case OpLe0:
		srt, body = "Bool", "(<= "+s.enc(t.args[0])+" 0)"
	case OpEq0:
		srt, body = "Bool", "(= "+s.enc(t.args[0])+" 0)"
	case OpPZ:
		srt, body = "Bool", "(= 0 (mod "+s.encPoly(t.poly)+" "+P.String()+"))"
	case OpNot:
		srt, body = "Bool", "(not "+s.enc(t.args[0])+")"
	case OpAnd, OpOr:
		srt = "Bool"
		body = "(and"
		if t.op == OpOr {
			body = "(or"
		}
		for _, a := range t.args {
			body += " " + s.enc(a)
		}
		body += ")"
	}
	n := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n", n, srt, body)
	s.defined[t] = n
	return n
}

func (s *Solver) encPoly(p *Poly) string {
	var sb strings.Builder
	sb.WriteString("(+ 0")
	for i, m := range p.m {
		mi := s.c.monos[m]
		sb.WriteString(" (* " + num(p.c[i].SBig()))
		for j, v := range mi.vars {
			for e := int32(0); e < mi.exps[j]; e++ {
				sb.WriteString(" " + s.enc(s.c.vars[v].term))
			}
		}
		sb.WriteString(")")
	}
	sb.WriteString(")")
	return sb.String()
}

func (s *Solver) flush() {
	if s.buf.Len() > 0 {
		s.send(s.buf.String())
		s.buf.Reset()
	}
}

func (s *Solver) Assert(t *Term) {
	s.asserts = append(s.asserts, t)
	e := s.enc(t)
	s.buf.WriteString("(assert " + e + ")\n")
	s.flush()
}

func (s *Solver) readLine(d time.Duration) (string, bool) {
	type r struct {
		l  string
		ok bool
	}
	ch := make(chan r, 1)
	out := s.out
	go func() {
		l, err := out.ReadString('\n')
		ch <- r{strings.TrimSpace(l), err == nil}
	}()
	select {
	case x := <-ch:
		return x.l, x.ok
	case <-time.After(d):
		return "", false
	}
}

// Check decides pc and the extra conditions; with vars it also returns a model.
func (s *Solver) Check(vars []*Term, extra ...*Term) (Res, map[string]*big.Int) {
	var es []string
	for _, t := range extra {
		es = append(es, s.enc(t))
	}
	for _, v := range vars {
		s.enc(v)
	}
	s.flush()
	t0 := time.Now()
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	for _, e := range es {
		sb.WriteString("(assert " + e + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	s.send(sb.String())
	l, ok := s.readLine(time.Duration(s.timeout)*time.Millisecond*3 + 5*time.Second)
	el := time.Since(t0)
	s.stats.queries++
	s.stats.solverNs += int64(el)
	if el > s.stats.slowest {
		s.stats.slowest = el
	}
	if debug && el > time.Second {
		for _, t := range extra {
			debugf("slow query %v: %.300s", el, t.String())
		}
	}
	if !ok {
		s.stats.unknown++
		s.restart()
		return Unknown, nil
	}
	res := Unknown
	switch l {
	case "sat":
		res = Sat
		s.stats.sat++
	case "unsat":
		res = Unsat
		s.stats.unsat++
	default:
		s.stats.unknown++
		if strings.HasPrefix(l, "(error") {
			debugf("solver: %s", l)
			s.restart()
			return Unknown, nil
		}
	}
	if res == Unknown {
		if r, m := s.bitblast(vars, extra); r != Unknown {
			s.send("(pop 1)\n")
			s.stats.unknown--
			if r == Sat {
				s.stats.sat++
			} else {
				s.stats.unsat++
			}
			return r, m
		}
	}
	var model map[string]*big.Int
	if res == Sat && len(vars) > 0 {
		model = map[string]*big.Int{}
		for _, v := range vars {
			s.send("(get-value (" + quote(v.name) + "))\n(echo \"done\")\n")
			txt := ""
			for {
				l, ok := s.readLine(20 * time.Second)
				if !ok {
					s.restart()
					return Unknown, nil
				}
				if l == "done" {
					break
				}
				txt += l + " "
			}
			if b, ok := parseVal(txt, quote(v.name)); ok {
				model[v.name] = b
			}
		}
	}
	s.send("(pop 1)\n")
	return res, model
}

func parseVal(txt, name string) (*big.Int, bool) {
	i := strings.Index(txt, name)
	if i < 0 {
		i = strings.Index(txt, strings.Trim(name, "|"))
		if i < 0 {
			return nil, false
		}
		txt = txt[i+len(name)-2:]
	} else {
		txt = txt[i+len(name):]
	}
	txt = strings.NewReplacer("(", " ", ")", " ").Replace(txt)
	f := strings.Fields(txt)
	neg := false
	for _, x := range f {
		switch x {
		case "-":
			neg = true
			continue
		case "true":
			return big.NewInt(1), true
		case "false":
			return big.NewInt(0), true
		}
		b, ok := new(big.Int).SetString(x, 10)
		if !ok {
			return nil, false
		}
		if neg {
			b.Neg(b)
		}
		return b, true
	}
	return nil, false
}
