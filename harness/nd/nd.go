// Package nd is the interface between a harness and its environment. The symbolic engine gives these functions
// a meaning of its own (inputs are symbolic); this file is what they do when a harness runs natively,
// with the inputs of a counterexample or of a path, or seeded random ones.
package nd

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"unsafe"

	math "github.com/IBM/mathlib"
)

type State struct {
	Assign map[string]string
	Params map[string]int64
	Rnd    *rand.Rand
	Strict bool
	Stubs  bool // functions are replaced natively, too
}

var S = &State{Rnd: rand.New(rand.NewSource(1))}

// Exit codes of a native run.
const (
	Failed  = 3
	Ignored = 4
)

var outMu sync.Mutex

func exit(code int, what, msg string) {
	outMu.Lock()
	fmt.Printf("ND %s %s\n", what, strings.ReplaceAll(msg, "\n", " "))
	os.Exit(code)
}

var curve = math.Curves[1]

func lookup(name string) (*big.Int, bool) {
	if s, ok := S.Assign[name]; ok {
		b, ok := new(big.Int).SetString(s, 10)
		return b, ok
	}
	return nil, false
}

func between(name string, lo, hi *big.Int) *big.Int {
	mu.Lock()
	defer mu.Unlock()
	if b, ok := lookup(name); ok {
		return b
	}
	b := pick(lo, hi)
	if S.Assign == nil {
		S.Assign = map[string]string{}
	}
	S.Assign[name] = b.String()
	return b
}

var mu sync.Mutex

func pick(lo, hi *big.Int) *big.Int {
	d := new(big.Int).Sub(hi, lo)
	d.Add(d, big.NewInt(1))
	switch S.Rnd.Intn(5) {
	case 0:
		return new(big.Int).Set(lo)
	case 1:
		return new(big.Int).Set(hi)
	}
	return new(big.Int).Add(lo, new(big.Int).Rand(S.Rnd, d))
}

func order() *big.Int { return new(big.Int).SetBytes(curve.GroupOrder.Bytes()) }

func zr(b *big.Int) *math.Zr {
	m := new(big.Int).Mod(b, order())
	return curve.NewZrFromBytes(m.FillBytes(make([]byte, 32)))
}

func zrBig(name string) *big.Int {
	return between(name, big.NewInt(0), new(big.Int).Sub(order(), big.NewInt(1)))
}

// Zr is any scalar in canonical form.
func Zr(name string) *math.Zr { return zr(zrBig(name)) }

// Gen is a generic scalar: one an adversary cannot relate to the other inputs.
func Gen(name string) *math.Zr {
	mu.Lock()
	defer mu.Unlock()
	if b, ok := lookup(name); ok {
		return zr(b)
	}
	b := new(big.Int).Rand(S.Rnd, order())
	if S.Assign == nil {
		S.Assign = map[string]string{}
	}
	S.Assign[name] = b.String()
	return zr(b)
}

// G1 is a group element with unknown discrete logarithm.
func G1(name string) *math.G1 { return curve.HashToG1([]byte("ndG1:" + name)) }

func i64(name string, lo, hi int64) int64 {
	return between(name, big.NewInt(lo), big.NewInt(hi)).Int64()
}

func Int(name string, lo, hi int) int       { return int(i64(name, int64(lo), int64(hi))) }
func Int64(name string, lo, hi int64) int64 { return i64(name, lo, hi) }
func Uint64(name string, lo, hi uint64) uint64 {
	return between(name, new(big.Int).SetUint64(lo), new(big.Int).SetUint64(hi)).Uint64()
}
func Uint16(name string, lo, hi uint16) uint16 { return uint16(i64(name, int64(lo), int64(hi))) }
func Uint8(name string, lo, hi uint8) uint8    { return uint8(i64(name, int64(lo), int64(hi))) }

// ZrBits is any number of k bits; with top, the most significant of them is one.
func ZrBits(name string, k int, top bool) *math.Zr {
	b := new(big.Int)
	for i := 0; i < k; i++ {
		if top && i == k-1 {
			b.SetBit(b, i, 1)
			continue
		}
		b.SetBit(b, i, uint(i64(fmt.Sprintf("%s.%d", name, i), 0, 1)))
	}
	return zr(b)
}

func Bool(name string) bool { return i64(name, 0, 1) == 1 }

// Choice is explored exhaustively: 0..n-1.
func Choice(name string, n int) int {
	return int(i64(name, 0, int64(n-1)))
}

func Bytes(name string, n int, lo, hi byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i64(fmt.Sprintf("%s.%d", name, i), int64(lo), int64(hi)))
	}
	return b
}

func Str(name string, n int, lo, hi byte) string { return string(Bytes(name, n, lo, hi)) }

// HexStr is any lower-case hexadecimal string of n digits.
func HexStr(name string, n int) string {
	hi := new(big.Int).Lsh(big.NewInt(1), uint(4*n))
	return fmt.Sprintf("%0*x", n, between(name, big.NewInt(0), hi.Sub(hi, big.NewInt(1))))
}

// Param is a bound of the check.
func Param(name string, def int) int {
	if v, ok := S.Params[name]; ok {
		return int(v)
	}
	return def
}

func Assume(b bool) {
	if !b {
		exit(Ignored, "ASSUME", "")
	}
}

func Assert(b bool, msg string) {
	if !b {
		exit(Failed, "FAIL", msg)
	}
}

func Reach(label string) {}

// MaxHashes bounds the hash computations of a symbolic path from here on.
func MaxHashes(n int) {}

func Note(msg string) {}

// Panics reports whether f panics.
func Panics(f func()) (res bool) {
	defer func() {
		if r := recover(); r != nil {
			res = true
		}
	}()
	f()
	return false
}

type slot struct {
	v    reflect.Value
	kind string
	path string
}

var (
	tZr = reflect.TypeOf(math.Zr{})
	tG1 = reflect.TypeOf(math.G1{})
	tG2 = reflect.TypeOf(math.G2{})
	tGt = reflect.TypeOf(math.Gt{})
)

func leaves(x interface{}) []slot {
	var out []slot
	seen := map[unsafe.Pointer]bool{}
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		t := v.Type()
		d := t
		if d.Kind() == reflect.Ptr {
			d = d.Elem()
		}
		if d == tZr || d == tG1 || d == tG2 || d == tGt {
			kind := map[reflect.Type]string{tZr: "zr", tG1: "g1", tG2: "g2", tGt: "gt"}[d]
			if t.Kind() == reflect.Ptr && !v.IsNil() {
				out = append(out, slot{v, kind, path})
			}
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.UnsafePointer()] {
				return
			}
			seen[v.UnsafePointer()] = true
			walk(v.Elem(), path)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if !f.CanSet() && f.CanAddr() {
					f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
				}
				walk(f, path+"."+t.Name()+":"+t.Field(i).Name)
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
			reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			out = append(out, slot{v, "int", path})
		}
	}
	walk(reflect.ValueOf(x), "")
	return out
}

func slots(x interface{}, skip []string) []slot {
	var out []slot
	for _, s := range leaves(x) {
		ok := s.kind != "g2" && s.kind != "gt"
		for _, k := range skip {
			if strings.Contains(s.path, k) {
				ok = false
			}
		}
		if ok {
			out = append(out, s)
		}
	}
	return out
}

// Leaves counts the scalars, group elements and integers reachable from root (a pointer or a slice),
// except those whose path contains one of skip.
func Leaves(root interface{}, skip ...string) int { return len(slots(root, skip)) }

func LeafPath(root interface{}, i int, skip ...string) string { return slots(root, skip)[i].path }

// Tamper changes leaf i by any non-zero amount.
func Tamper(root interface{}, i int, name string, skip ...string) string {
	s := slots(root, skip)[i]
	switch s.kind {
	case "zr":
		d := zrBig(name)
		Assume(new(big.Int).Mod(d, order()).Sign() != 0)
		z := s.v.Interface().(*math.Zr).Plus(zr(d))
		z.Mod(curve.GroupOrder)
		s.v.Set(reflect.ValueOf(z))
	case "g1":
		d := zrBig(name)
		Assume(new(big.Int).Mod(d, order()).Sign() != 0)
		g := s.v.Interface().(*math.G1).Copy()
		g.Add(G1(name).Mul(zr(d)))
		s.v.Set(reflect.ValueOf(g))
	case "int":
		w := s.v.Type().Bits()
		hi := new(big.Int).Lsh(big.NewInt(1), uint(w-2))
		lo := new(big.Int).Neg(hi)
		k := s.v.Kind()
		unsigned := k >= reflect.Uint && k <= reflect.Uint64
		if unsigned {
			lo = big.NewInt(0)
		}
		d := between(name, lo, hi)
		Assume(d.Sign() != 0)
		if unsigned {
			s.v.SetUint(s.v.Uint() + d.Uint64())
		} else {
			s.v.SetInt(s.v.Int() + d.Int64())
		}
	}
	return s.path
}

// Changed runs f and returns the path of a scalar (as a residue) or group element reachable from roots
// before and after, which f changed, or "".
func Changed(f func(), roots ...interface{}) string {
	snap := func() map[string][]byte {
		m := map[string][]byte{}
		for i, r := range roots {
			for _, s := range leaves(r) {
				var b []byte
				switch x := s.v.Interface().(type) {
				case *math.Zr:
					y := x.Copy()
					y.Mod(curve.GroupOrder)
					b = y.Bytes()
				case *math.G1:
					b = x.Bytes()
				case *math.G2:
					b = x.Bytes()
				case *math.Gt:
					b = x.Bytes()
				default:
					continue
				}
				m[fmt.Sprintf("%d%s", i, s.path)] = b
			}
		}
		return m
	}
	before := snap()
	f()
	after := snap()
	var ks []string
	for k := range before {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if b, ok := after[k]; ok && !bytes.Equal(before[k], b) {
			return k
		}
	}
	return ""
}

// Shift adds t to leaf i if it is a scalar, and t times a fixed element if it is a group element.
func Shift(root interface{}, i int, t *math.Zr, skip ...string) {
	s := slots(root, skip)[i]
	switch s.kind {
	case "zr":
		z := s.v.Interface().(*math.Zr).Plus(t)
		z.Mod(curve.GroupOrder)
		s.v.Set(reflect.ValueOf(z))
	case "g1":
		g := s.v.Interface().(*math.G1).Copy()
		g.Add(G1("shift").Mul(t))
		s.v.Set(reflect.ValueOf(g))
	}
}

// Digest tracing; the code under test is built with its hash function going through Trace, and the conversion
// of digests to scalars through TraceChallenge.
var (
	traceMu    sync.Mutex
	tracing    bool
	trace      [][]byte
	challenges [][]byte
)

func Trace(d []byte)          { record(&trace, d) }
func TraceChallenge(d []byte) { record(&challenges, d) }

func record(to *[][]byte, d []byte) {
	traceMu.Lock()
	if tracing {
		*to = append(*to, append([]byte(nil), d...))
	}
	traceMu.Unlock()
}

func traced(f func()) {
	traceMu.Lock()
	tracing, trace, challenges = true, nil, nil
	traceMu.Unlock()
	f()
	traceMu.Lock()
	tracing = false
	traceMu.Unlock()
}

// Digests returns the hash values computed by f, in order.
func Digests(f func()) [][]byte { traced(f); return trace }

// Challenges returns the digests that f converts to scalars, in order.
func Challenges(f func()) [][]byte { traced(f); return challenges }

// Stub replaces a function by a contract in the symbolic run, and natively where schedules are replayed.
func Stub(name string, f interface{}) {
	if S.Stubs {
		mu.Lock()
		stubs[name] = f
		mu.Unlock()
	}
}

// Replace replaces a function by a contract in the symbolic run and natively.
func Replace(name string, f interface{}) {
	mu.Lock()
	stubs[name] = f
	mu.Unlock()
}

var stubs = map[string]interface{}{}

// Stubbed is the contract that replaces a function, if any.
func Stubbed(name string) interface{} {
	mu.Lock()
	defer mu.Unlock()
	return stubs[name]
}

// Sched selects how goroutines are scheduled: 0 run to completion in creation order, 1 eager, 2 every choice, 3 last first.
func Sched(mode, preempt int) {}

// MapOrder selects the iteration order of maps: 0 insertion, 1 every order, 2 reverse.
func MapOrder(mode int) {}

func Race(on bool) {}

// Races lists the data races found on this schedule.
func Races() string { return "" }

// Native tells a harness where it runs.
func Native() bool { return true }

// Freezing of digests: the k-th digest of a run is the k-th of the recorded one, so that challenges are constants.
var (
	freezeMode int // 1: record, 2: replay
	frozen     [][]byte
	frozenAt   int
)

func Freeze(d []byte) []byte {
	traceMu.Lock()
	defer traceMu.Unlock()
	switch freezeMode {
	case 1:
		frozen = append(frozen, append([]byte(nil), d...))
	case 2:
		if frozenAt < len(frozen) {
			d = append([]byte(nil), frozen[frozenAt]...)
			frozenAt++
		}
	}
	return d
}

// stream is a source of randomness in which one scalar can be moved.
type stream struct {
	seed int64
	dir  int
	h    int64
	pos  int
	buf  []byte
}

func (s *stream) Read(b []byte) (int, error) {
	for len(s.buf) < len(b) {
		r := rand.New(rand.NewSource(s.seed + int64(s.pos)))
		x := new(big.Int).Rand(r, order())
		if s.pos == s.dir {
			x.Add(x, big.NewInt(s.h))
			x.Mod(x, order())
		}
		s.buf = append(s.buf, x.FillBytes(make([]byte, 32))...)
		s.pos++
	}
	copy(b, s.buf)
	s.buf = s.buf[len(b):]
	return len(b), nil
}

// jacobian runs f at one point and next to it, with challenges frozen, and returns the derivatives of the scalars
// and group elements that it returns by the random scalars that it draws and by the witness, one row for each
// direction. Group elements are discrete logarithms.
func jacobian(n int, name string, f func([]int64) []interface{}) (random, witness [][]*big.Int) {
	p := order()
	w := make([]int64, n)
	for i := range w {
		w[i] = i64(fmt.Sprintf("%s%d", name, i), 0, 1<<40)
	}
	seed := S.Rnd.Int63()
	run := func(dir int, h int64) ([]*big.Int, int) {
		s := &stream{seed: seed, dir: -1}
		x := append([]int64(nil), w...)
		if dir >= n {
			s.dir, s.h = dir-n, h
		} else if dir >= 0 {
			x[dir] += h
		}
		old := crand.Reader
		crand.Reader = s
		frozenAt = 0
		res := f(x)
		crand.Reader = old
		var out []*big.Int
		for _, r := range res {
			for _, l := range leaves(r) {
				var b []byte
				switch y := l.v.Interface().(type) {
				case *math.Zr:
					z := y.Copy()
					z.Mod(curve.GroupOrder)
					b = z.Bytes()
				case *math.G1:
					b = y.Bytes()
				case *math.G2:
					b = y.Bytes()
				case *math.Gt:
					b = y.Bytes()
				default:
					continue
				}
				out = append(out, new(big.Int).SetBytes(b))
			}
		}
		return out, s.pos
	}
	run(-1, 0)
	freezeMode, frozen = 1, nil
	_, k := run(-1, 0)
	freezeMode = 2
	defer func() { freezeMode = 0 }()
	base, _ := run(-1, 0)
	inv6 := new(big.Int).ModInverse(big.NewInt(6), p)
	for d := 0; d < n+k; d++ {
		// the derivative of a polynomial of degree three
		f1, _ := run(d, 1)
		f2, _ := run(d, 2)
		f3, _ := run(d, 3)
		row := make([]*big.Int, len(base))
		for i := range base {
			if len(f1) != len(base) || len(f2) != len(base) || len(f3) != len(base) {
				row[i] = new(big.Int)
				continue
			}
			x := new(big.Int).Mul(base[i], big.NewInt(-11))
			x.Add(x, new(big.Int).Mul(f1[i], big.NewInt(18)))
			x.Add(x, new(big.Int).Mul(f2[i], big.NewInt(-9)))
			x.Add(x, new(big.Int).Mul(f3[i], big.NewInt(2)))
			x.Mul(x, inv6)
			row[i] = x.Mod(x, p)
		}
		if d < n {
			witness = append(witness, row)
		} else {
			random = append(random, row)
		}
	}
	return
}

func rank(rows [][]*big.Int) int {
	p := order()
	var m [][]*big.Int
	for _, r := range rows {
		m = append(m, append([]*big.Int(nil), r...))
	}
	k := 0
	for col := 0; len(m) > 0 && col < len(m[0]) && k < len(m); col++ {
		piv := -1
		for i := k; i < len(m); i++ {
			if m[i][col].Sign() != 0 {
				piv = i
				break
			}
		}
		if piv < 0 {
			continue
		}
		m[k], m[piv] = m[piv], m[k]
		inv := new(big.Int).ModInverse(m[k][col], p)
		for i := k + 1; i < len(m); i++ {
			if m[i][col].Sign() == 0 {
				continue
			}
			q := new(big.Int).Mul(m[i][col], inv)
			q.Mod(q, p)
			for j := col; j < len(m[i]); j++ {
				x := new(big.Int).Mul(q, m[k][j])
				m[i][j] = x.Mod(x.Sub(m[i][j], x), p)
			}
		}
		k++
	}
	return k
}

// Leaks counts the independent functions of the witness, n free numbers, that the scalars and group elements
// returned by f determine: those that no change of the randomness that f draws can make up for.
func Leaks(n int, name string, f func([]int64) []interface{}) int {
	r, w := jacobian(n, name, f)
	return rank(append(append([][]*big.Int{}, r...), w...)) - rank(r)
}

// Freedom is the dimension of what the randomness drawn by f makes of the scalars and group elements that it returns.
func Freedom(f func() []interface{}) int {
	r, _ := jacobian(0, "", func([]int64) []interface{} { return f() })
	return rank(r)
}

// Count is the number of scalars, elements of the first, second and target group reachable from roots,
// each object once if distinct.
func Count(distinct bool, roots ...interface{}) (zr, g1, g2, gt int) {
	seen := map[unsafe.Pointer]bool{}
	for _, r := range roots {
		for _, l := range leaves(r) {
			if l.kind == "int" {
				continue
			}
			p := l.v.UnsafePointer()
			if distinct && seen[p] {
				continue
			}
			seen[p] = true
			switch l.kind {
			case "zr":
				zr++
			case "g1":
				g1++
			case "g2":
				g2++
			case "gt":
				gt++
			}
		}
	}
	return
}
