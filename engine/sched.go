package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type vclock []int

func (a vclock) clone() vclock { return append(vclock(nil), a...) }
func join(a, b vclock) vclock {
	r := a.clone()
	for i, v := range b {
		if i >= len(r) {
			r = append(r, v)
		} else if v > r[i] {
			r[i] = v
		}
	}
	return r
}

type Thread struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked func() bool
	vc      vclock
	kill    bool
	yielded bool
}

type lockKey struct {
	o   *Obj
	off uint64
}

type syncObj struct {
	n       int
	held    bool
	readers int
	vc      vclock
	items   []poolItem
	done    bool
	vals    map[string]Val
}
type poolItem struct {
	v  Val
	vc vclock
}

type Sched struct {
	st       *State
	threads  []*Thread
	main     *Thread
	cur      *Thread
	runnext  *Thread
	runq     []*Thread
	explore  bool
	explored bool
	err      any
	objs     map[lockKey]*syncObj
	wg       sync.WaitGroup
	preempt  int
	maxPre   int
	noRace   int
}

func newSched(st *State) *Sched {
	s := &Sched{st: st, objs: map[lockKey]*syncObj{}, maxPre: 1 << 30}
	s.main = &Thread{id: 0, wake: make(chan struct{}, 1), vc: vclock{1}}
	s.threads = []*Thread{s.main}
	s.cur = s.main
	return s
}

func (s *Sched) obj(p Val) *syncObj {
	o, ok := p.R.(*Obj)
	if !ok {
		if p.R == nil {
			s.st.goPanic("invalid memory address or nil pointer dereference")
		}
		panic(unsupported("synchronisation object through a symbolic pointer"))
	}
	if s.st.depth() > 0 {
		s.st.abortMerge("synchronisation in merged code")
	}
	k := lockKey{o, p.U}
	x := s.objs[k]
	if x == nil {
		x = &syncObj{}
		s.objs[k] = x
	}
	return x
}

func (s *Sched) live() int {
	n := 0
	for _, t := range s.threads {
		if !t.done {
			n++
		}
	}
	return n
}

func (s *Sched) spawn(fr *Frame, c *ssa.CallCommon, fnv Val, args []Val) {
	st := s.st
	t := &Thread{id: len(s.threads), wake: make(chan struct{}, 1)}
	if t.id > 64 && s.explore || t.id > 1<<15 {
		panic(unsupported("too many goroutines"))
	}
	cur := s.cur
	for len(cur.vc) <= t.id {
		cur.vc = append(cur.vc, 0)
	}
	t.vc = cur.vc.clone()
	t.vc[t.id] = 1
	cur.vc[cur.id]++
	s.threads = append(s.threads, t)
	if st.h.raceOn(st) && st.race == nil {
		st.race = newRace(st)
	}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		<-t.wake
		defer func() {
			e := recover()
			if _, ok := e.(killT); ok {
				return
			}
			t.done = true
			if e != nil {
				s.err = e
				s.cur = s.main
				s.main.wake <- struct{}{}
				return
			}
			s.poke()
			n := s.pick(false)
			if n == nil {
				s.err = goPanicT{Val{R: &Iface{types.Typ[types.String], Val{R: "all goroutines are asleep - deadlock!"}}}}
				n = s.main
			}
			s.cur = n
			n.wake <- struct{}{}
		}()
		if t.kill {
			panic(killT{})
		}
		f2 := &Frame{fn: fr.fn, st: st, th: t}
		f2.invoke(c, fnv, args)
	}()
	// newest goroutine runs next
	if s.runnext != nil {
		s.runq = append(s.runq, s.runnext)
	}
	s.runnext = t
	s.yield()
}

// poke moves unblocked threads to the run queue.
func (s *Sched) poke() {
	for _, t := range s.threads {
		if !t.done && t.blocked != nil && t != s.cur && t.blocked() {
			t.blocked = nil
			if s.runnext != nil {
				s.runq = append(s.runq, s.runnext)
			}
			s.runnext = t
		}
	}
}

// pick selects the next runnable thread other than the current one (or
// including it when inclCur).
func (s *Sched) pick(inclCur bool) *Thread {
	var cand []*Thread
	if s.explore {
		for _, t := range s.threads {
			if t.done || t.blocked != nil || t == s.cur {
				continue
			}
			cand = append(cand, t)
		}
		if inclCur {
			if s.preempt >= s.maxPre {
				return s.cur
			}
			cand = append([]*Thread{s.cur}, cand...)
		}
		if len(cand) == 0 {
			return nil
		}
		k := s.st.choose(len(cand))
		n := cand[k]
		if inclCur && n != s.cur {
			s.preempt++
		}
		s.unqueue(n)
		return n
	}
	if inclCur {
		return s.cur
	}
	if n := s.runnext; n != nil {
		s.runnext = nil
		return n
	}
	if len(s.runq) > 0 {
		n := s.runq[0]
		s.runq = s.runq[1:]
		return n
	}
	return nil
}

func (s *Sched) unqueue(t *Thread) {
	if s.runnext == t {
		s.runnext = nil
	}
	for i, x := range s.runq {
		if x == t {
			s.runq = append(s.runq[:i:i], s.runq[i+1:]...)
			break
		}
	}
}

func (s *Sched) switchTo(n *Thread) {
	me := s.cur
	if n == me {
		return
	}
	s.cur = n
	n.wake <- struct{}{}
	<-me.wake
	if me.kill {
		panic(killT{})
	}
	if s.err != nil && me == s.main {
		e := s.err
		s.err = nil
		panic(e)
	}
}

// yield is a scheduling point for exploration.
func (s *Sched) yield() {
	if !s.explore || s.live() < 2 {
		return
	}
	if s.st.depth() > 0 {
		s.st.abortMerge("scheduling point")
	}
	me := s.cur
	n := s.pick(true)
	if n != nil && n != me {
		s.switchTo(n)
	}
}

func (s *Sched) block(cond func() bool) {
	if s.st.depth() > 0 {
		s.st.abortMerge("blocking operation")
	}
	for !cond() {
		me := s.cur
		me.blocked = cond
		s.poke()
		n := s.pick(false)
		if n == nil {
			me.blocked = nil
			s.st.goPanic("all goroutines are asleep - deadlock!")
		}
		s.switchTo(n)
		me.blocked = nil
	}
}

func (s *Sched) killAll() {
	for _, t := range s.threads[1:] {
		if !t.done {
			t.kill = true
			t.wake <- struct{}{}
		}
	}
	s.wg.Wait()
}

func (s *Sched) release(x *syncObj) {
	t := s.cur
	x.vc = join(x.vc, t.vc)
	t.vc[t.id]++
}
func (s *Sched) acquire(x *syncObj) { s.cur.vc = join(s.cur.vc, x.vc) }

// ---- channels ----

type handoff struct {
	v     Val
	taken bool
	vc    vclock
}
type ChanObj struct {
	cap    int
	buf    []Val
	vcs    []vclock
	off    []*handoff
	closed bool
	vc     vclock
	recvW  int
}

func (s *Sched) send(fr *Frame, ch, v Val) {
	s.yield()
	if ch.R == nil {
		s.block(func() bool { return false })
	}
	c := ch.R.(*ChanObj)
	if c.closed {
		s.st.goPanic("send on closed channel")
	}
	t := s.cur
	if c.cap > 0 {
		s.block(func() bool { return len(c.buf) < c.cap || c.closed })
		if c.closed {
			s.st.goPanic("send on closed channel")
		}
		c.buf = append(c.buf, v)
		c.vcs = append(c.vcs, t.vc.clone())
		t.vc[t.id]++
		s.poke()
		return
	}
	h := &handoff{v: v, vc: t.vc.clone()}
	t.vc[t.id]++
	c.off = append(c.off, h)
	s.poke()
	s.block(func() bool { return h.taken || c.closed })
	t.vc = join(t.vc, c.vc)
}

func (s *Sched) recv(fr *Frame, ch Val) (Val, bool) {
	s.yield()
	if ch.R == nil {
		s.block(func() bool { return false })
	}
	c := ch.R.(*ChanObj)
	s.block(func() bool { return len(c.buf) > 0 || len(c.off) > 0 || c.closed })
	t := s.cur
	if len(c.buf) > 0 {
		v := c.buf[0]
		t.vc = join(t.vc, c.vcs[0])
		c.buf = c.buf[1:]
		c.vcs = c.vcs[1:]
		s.poke()
		return v, true
	}
	if len(c.off) > 0 {
		h := c.off[0]
		c.off = c.off[1:]
		h.taken = true
		t.vc = join(t.vc, h.vc)
		c.vc = join(c.vc, t.vc)
		t.vc[t.id]++
		s.poke()
		return h.v, true
	}
	t.vc = join(t.vc, c.vc)
	return Val{}, false
}

func (s *Sched) closeChan(fr *Frame, ch Val) {
	s.yield()
	c := ch.R.(*ChanObj)
	if c.closed {
		s.st.goPanic("close of closed channel")
	}
	c.closed = true
	c.vc = join(c.vc, s.cur.vc)
	s.cur.vc[s.cur.id]++
	s.poke()
}

func (cc *compiler) sel(x *ssa.Select, d int32) func(fr *Frame) {
	type cs struct {
		send  bool
		ch, v opnd
		l     *Layout
	}
	var cases []cs
	for _, s := range x.States {
		c := cs{send: s.Dir == types.SendOnly, ch: cc.op(s.Chan)}
		if c.send {
			c.v = cc.op(s.Send)
		} else {
			c.l = cc.wk.layout(s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
		cases = append(cases, c)
	}
	tl := cc.wk.layout(x.Type())
	return func(fr *Frame) {
		s := fr.st.sched
		s.yield()
		ready := func() []int {
			var r []int
			for i, c := range cases {
				v := fr.get(c.ch)
				if v.R == nil {
					continue
				}
				ch := v.R.(*ChanObj)
				if c.send {
					if ch.closed || len(ch.buf) < ch.cap {
						r = append(r, i)
					}
				} else if len(ch.buf) > 0 || len(ch.off) > 0 || ch.closed {
					r = append(r, i)
				}
			}
			return r
		}
		rs := ready()
		if len(rs) == 0 && x.Blocking {
			s.block(func() bool { return len(ready()) > 0 })
			rs = ready()
		}
		out := make([]Val, tl.size)
		if len(rs) == 0 {
			out[0] = Val{U: ^uint64(0)}
			fr.regs[d] = Val{R: &Agg{out}}
			return
		}
		k := rs[0]
		if len(rs) > 1 {
			k = rs[fr.st.choose(len(rs))]
		}
		out[0] = Val{U: uint64(k)}
		if cases[k].send {
			s.send(fr, fr.get(cases[k].ch), fr.get(cases[k].v))
		} else {
			v, ok := s.recv(fr, fr.get(cases[k].ch))
			out[1] = Val{U: b2u(ok)}
			idx := 2
			for i := 0; i < k; i++ {
				if !cases[i].send {
					idx++
				}
			}
			copy(out[tl.offs[idx]:], appendFlat(nil, v, cases[k].l))
		}
		fr.regs[d] = Val{R: &Agg{out}}
	}
}

// ---- data races ----

type shadow struct {
	w  []epoch
	rd []map[int]int
}
type epoch struct{ tid, clk int }

type raceState struct {
	st  *State
	min int64
}

func newRace(st *State) *raceState { return &raceState{st: st} }

func (h *HarnessRun) raceOn(st *State) bool { return st.params["races"] != 0 }

func (r *raceState) sh(o *Obj) *shadow {
	if o.shadow == nil {
		o.shadow = &shadow{w: make([]epoch, len(o.cells)), rd: make([]map[int]int, len(o.cells))}
		if o.base || true {
			r.st.shadowed = append(r.st.shadowed, o)
		}
	}
	return o.shadow
}

func (r *raceState) hb(tid, clk int) bool {
	vc := r.st.sched.cur.vc
	return tid < len(vc) && vc[tid] >= clk
}

func (r *raceState) read(o *Obj, off, n int) {
	if r.st.sched.noRace > 0 {
		return
	}
	s := r.sh(o)
	t := r.st.sched.cur
	for i := off; i < off+n; i++ {
		if e := s.w[i]; e.clk != 0 && e.tid != t.id && !r.hb(e.tid, e.clk) {
			r.report("read", o, i, e.tid)
		}
		if s.rd[i] == nil {
			s.rd[i] = map[int]int{}
		}
		s.rd[i][t.id] = t.vc[t.id]
	}
}

func (r *raceState) write(o *Obj, off, n int) {
	if r.st.sched.noRace > 0 {
		return
	}
	s := r.sh(o)
	t := r.st.sched.cur
	for i := off; i < off+n; i++ {
		if e := s.w[i]; e.clk != 0 && e.tid != t.id && !r.hb(e.tid, e.clk) {
			r.report("write", o, i, e.tid)
		}
		for tid, clk := range s.rd[i] {
			if tid != t.id && !r.hb(tid, clk) {
				r.report("write after read", o, i, tid)
			}
		}
		s.w[i] = epoch{t.id, t.vc[t.id]}
		s.rd[i] = nil
	}
}

func (r *raceState) report(what string, o *Obj, off, tid int) {
	st := r.st
	if st.raceSeen {
		return
	}
	st.raceSeen = true
	st.h.mu.Lock()
	st.h.asserts++
	st.h.mu.Unlock()
	v, m := st.wk.solver.Solve(st.fullPC(), st.h.ck.assertLimit())
	if v == Unsat {
		return
	}
	st.candidate(m, "race", fmt.Sprintf("data race: %s by goroutine %d conflicting with goroutine %d", what, st.sched.cur.id, tid))
}
