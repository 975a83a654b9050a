package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the program run on goroutines of the engine, one at a time: the holder of the baton.
type gor struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked func() bool
	clock   map[int]int
}

type channel struct {
	buf    []value
	cap    int
	closed bool
	elem   types.Type
	recvW  int
	vc     []map[int]int
}

type dieSignal struct{}

func (in *Interp) main() *gor { return in.gors[0] }

func (in *Interp) initSched() {
	g := &gor{wake: make(chan struct{}, 1), clock: map[int]int{0: 1}}
	in.gors = []*gor{g}
	in.cur = g
}

func joinClock(a, b map[int]int) {
	for k, v := range b {
		if a[k] < v {
			a[k] = v
		}
	}
}

func copyClock(a map[int]int) map[int]int {
	r := map[int]int{}
	for k, v := range a {
		r[k] = v
	}
	return r
}

func (in *Interp) spawn(fr *frame, fn value, args []value) {
	g := &gor{id: len(in.gors), wake: make(chan struct{}, 1)}
	g.clock = copyClock(in.cur.clock)
	g.clock[g.id] = 1
	in.cur.clock[in.cur.id]++
	in.gors = append(in.gors, g)
	if len(in.gors) > 4000 {
		panic(unsupported("too many goroutines"))
	}
	in.running.Add(1)
	go func() {
		defer in.running.Done()
		<-g.wake
		stop := func(r interface{}) {
			if tp, ok := r.(targetPanic); ok {
				in.crash = &tp
			} else {
				in.fatal = r
			}
			in.cur = in.main()
			in.main().blocked = nil
			in.main().wake <- struct{}{}
		}
		defer func() {
			r := recover()
			g.done = true
			if _, ok := r.(dieSignal); ok || in.dying {
				return
			}
			if r != nil {
				stop(r)
				return
			}
			defer func() {
				if r := recover(); r != nil {
					stop(r)
				}
			}()
			in.next(nil)
		}()
		if in.dying {
			return
		}
		if b, ok := fn.(*ssa.Builtin); ok {
			panic(unsupported("go %s", b.Name()))
		}
		in.call(nil, fn, args)
	}()
	run := in.sched == 1
	if in.sched == 2 {
		run = in.choose(2) == 1
	}
	if run {
		me := in.cur
		in.cur = g
		g.wake <- struct{}{}
		in.park(me)
	}
}

// park waits for the baton.
func (in *Interp) park(me *gor) {
	<-me.wake
	if in.dying {
		panic(dieSignal{})
	}
	if me == in.main() {
		if in.crash != nil {
			panic(abort{"crash", in.panicString(in.crash)})
		}
		if in.fatal != nil {
			panic(in.fatal)
		}
	}
}

// next hands the baton to a runnable goroutine; it reports whether it did, rather than me going on.
func (in *Interp) next(me *gor) bool {
	var ready []*gor
	for _, g := range in.gors {
		if !g.done && g != me && (g.blocked == nil || g.blocked()) {
			ready = append(ready, g)
		}
	}
	if me != nil && !me.done && (me.blocked == nil || me.blocked()) && len(ready) == 0 {
		return false
	}
	if len(ready) == 0 {
		in.fatal = abort{"crash", "all goroutines are asleep - deadlock!"}
		if me == in.main() {
			panic(in.fatal)
		}
		in.cur = in.main()
		in.main().wake <- struct{}{}
		return true
	}
	k := 0
	if in.sched == 2 && len(ready) > 1 && in.fatal == nil {
		n := len(ready)
		if n > 3 {
			n = 3
		}
		// a choice made off the main goroutine still belongs to the path
		k = in.choose(n)
		if k == 2 {
			k = len(ready) - 1
		}
	} else if in.sched == 3 {
		k = len(ready) - 1
	}
	g := ready[k]
	in.cur = g
	g.blocked = nil
	g.wake <- struct{}{}
	return true
}

// block waits until cond holds.
func (in *Interp) block(cond func() bool) {
	in.noMerge("blocking operation")
	for !cond() {
		if in.dying {
			panic(dieSignal{})
		}
		me := in.cur
		me.blocked = cond
		if in.next(me) {
			in.park(me)
		}
		me.blocked = nil
	}
}

func (in *Interp) killGors() {
	in.dying = true
	for _, g := range in.gors[1:] {
		if !g.done {
			select {
			case g.wake <- struct{}{}:
			default:
			}
		}
	}
	in.running.Wait()
}

func (in *Interp) chanSend(ch *channel, v value) {
	if ch == nil {
		in.block(func() bool { return false })
	}
	if ch.closed {
		panic(targetPanic{v: iface{runtimeErrType, &ErrObj{msg: "send on closed channel"}}})
	}
	c := ch.cap
	if c == 0 {
		c = 1 // rendezvous approximated by a one-slot buffer
	}
	in.block(func() bool { return len(ch.buf) < c })
	ch.buf = append(ch.buf, cp(v))
	ch.vc = append(ch.vc, copyClock(in.cur.clock))
	in.cur.clock[in.cur.id]++
}

func (in *Interp) chanRecv(ch *channel, commaOk bool) value {
	if ch == nil {
		in.block(func() bool { return false })
	}
	in.block(func() bool { return len(ch.buf) > 0 || ch.closed })
	var v value
	ok := false
	if len(ch.buf) > 0 {
		v, ok = ch.buf[0], true
		ch.buf = ch.buf[1:]
		joinClock(in.cur.clock, ch.vc[0])
		ch.vc = ch.vc[1:]
	} else {
		v = zero(ch.elem)
	}
	if commaOk {
		return tuple{v, ok}
	}
	return v
}

func (in *Interp) selectStmt(fr *frame, ins *ssa.Select) value {
	ready := func() int {
		for i, st := range ins.States {
			ch := fr.get(st.Chan).(*channel)
			if ch == nil {
				continue
			}
			if st.Dir == types.SendOnly {
				c := ch.cap
				if c == 0 {
					c = 1
				}
				if len(ch.buf) < c {
					return i
				}
			} else if len(ch.buf) > 0 || ch.closed {
				return i
			}
		}
		return -1
	}
	if ready() < 0 {
		if !ins.Blocking {
			r := tuple{int64(-1), false}
			for _, st := range ins.States {
				if st.Dir == types.RecvOnly {
					r = append(r, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
			return r
		}
		in.block(func() bool { return ready() >= 0 })
	}
	k := ready()
	r := tuple{int64(k), false}
	for i, st := range ins.States {
		ch := fr.get(st.Chan).(*channel)
		if st.Dir == types.RecvOnly {
			if i == k {
				t := in.chanRecv(ch, true).(tuple)
				r[1] = t[1]
				r = append(r, t[0])
			} else {
				r = append(r, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		} else if i == k {
			in.chanSend(ch, fr.get(st.Send))
		}
	}
	return r
}

// --- happens-before race detection over the interpreted memory ---

type shadow struct {
	w     map[int]int // last write epoch per goroutine
	r     map[int]int
	wpos  string
	rpos  string
	owner int
	multi bool
}

func (in *Interp) access(p *value, write bool) {
	if in.raceOn {
		in.raceAccess(p, write)
	}
}

func (in *Interp) access2(p interface{}, write bool) {
	if in.raceOn {
		in.raceAccess(p, write)
	}
}

func (in *Interp) raceAccess(p interface{}, write bool) {
	if len(in.gors) == 1 {
		return // accesses before the first go statement happen before everything
	}
	s := in.shadow[p]
	g := in.cur
	if s == nil {
		s = &shadow{w: map[int]int{}, r: map[int]int{}}
		in.shadow[p] = s
	}
	where := ""
	if f := in.curPos; f != nil {
		where = f()
	}
	for id, e := range s.w {
		if id != g.id && g.clock[id] < e {
			in.races[fmt.Sprintf("%s and %s", s.wpos, where)] = true
		}
	}
	if write {
		for id, e := range s.r {
			if id != g.id && g.clock[id] < e {
				in.races[fmt.Sprintf("%s and %s", s.rpos, where)] = true
			}
		}
		s.w[g.id] = g.clock[g.id]
		s.wpos = where
	} else {
		s.r[g.id] = g.clock[g.id]
		s.rpos = where
	}
}
