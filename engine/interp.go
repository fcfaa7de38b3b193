package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Worker struct {
	ctx       *Ctx // of the path being run
	eng       *Engine
	id        int
	layouts   map[types.Type]*Layout
	fns       map[*ssa.Function]*Fn
	globals   map[*ssa.Global]*Obj
	inits     map[*ssa.Package]bool
	once      map[string]Val
	st        *State
	solver    *Solver
	nextID    int64
	badIf     map[*Block]int
	funcsUsed map[*ssa.Function]bool
}

// State is the state of one symbolic path.
type State struct {
	wk         *Worker
	c          *Ctx
	nextID     int64
	cellsAlloc int64
	makingBase bool
	procs      int // processors seen by this path, 0 when it has not asked
	logBelow   int64
	trail      []trailEnt
	pc         []*Bool
	pcset      map[*Bool]bool
	guards     []*Bool
	prefix     []int64
	pos        int
	taken      []int64
	steps      int64
	merges     int
	forks      int
	race       *raceState
	sched      *Sched
	inputs     []*Input
	h          *HarnessRun
	rnd        randState
	deadline   time.Time
	infeasible bool
	obs        []obsRec
	nassert    int
	covers     []coverRec
	mergeLimit int64
	params     map[string]int64
	shadowed   []*Obj
	raceSeen   bool
	norms      []*Input
	seeds      []Val // of random generators
	onceStart  int64
	baseRand   int
}

type mergeAbortT struct{ why string }
type goPanicT struct{ v Val } // interface value
type pathEnd struct{ why string }
type killT struct{}

func (st *State) depth() int { return len(st.guards) }

func (st *State) abortMerge(why string) {
	if st.depth() == 0 {
		panic(unsupported(why))
	}
	panic(mergeAbortT{why})
}

func (st *State) goPanic(msg string) {
	panic(goPanicT{Val{R: &Iface{types.Typ[types.String], Val{R: "runtime error: " + msg}}}})
}

func (st *State) guard() *Bool {
	if len(st.guards) == 0 {
		return st.c.True
	}
	return st.guards[len(st.guards)-1]
}

// simp simplifies b under bindings, the path condition and merge guards.
func (st *State) simp(b *Bool) *Bool {
	c := st.c
	b = c.resolveB(b)
	if b.isConst() {
		return b
	}
	if st.pcset[b] {
		return c.True
	}
	if b.neg != nil && st.pcset[b.neg] {
		return c.False
	}
	if b.kind == BAnd {
		for _, x := range b.bs {
			if x.neg != nil && st.pcset[x.neg] {
				return c.False
			}
		}
	}
	if len(st.guards) > 0 {
		g := st.guard()
		if c.AndB(g, b) == c.False {
			return c.False
		}
		if c.AndB(g, c.Not(b)) == c.False {
			return c.True
		}
	}
	return b
}

func (st *State) guardFeasible(g *Bool) bool { return st.simp(g) != st.c.False }

func (st *State) assume(b *Bool) {
	b = st.c.resolveB(b)
	if b.isConst() {
		if !b.val {
			panic(pathEnd{"infeasible"})
		}
		return
	}
	if b.kind == BAnd {
		for _, x := range b.bs {
			st.assume(x)
		}
		return
	}
	if st.pcset[b] {
		return
	}
	if b.kind == BEq && len(b.t.ms) == 1 && b.t.cs[0] == 1 && len(b.t.ms[0].atoms) == 1 && len(st.guards) == 0 {
		if a := b.t.ms[0].atoms[0]; (a.kind == AVar || a.kind == ASlice) && !a.bound && b.t.w == 64 && b.v >= 0 && (a.big || a.lo <= b.v && b.v <= a.hi) {
			st.bind(a, b.v)
			return
		}
	}
	if len(st.guards) == 0 {
		x, v := b, int64(1)
		if b.kind == BNot {
			x, v = b.bs[0], 0
		}
		if x.kind == BAtom && (x.a.kind == AVar || x.a.kind == ASlice) && !x.a.bound {
			st.bind(x.a, v)
			return
		}
	}
	st.pc = append(st.pc, b)
	st.pcset[b] = true
}

func (st *State) record(v int64) { st.taken = append(st.taken, v); st.pos++ }
func (st *State) recorded() (int64, bool) {
	if st.pos < len(st.prefix) {
		v := st.prefix[st.pos]
		st.record(v)
		return v, true
	}
	return 0, false
}
func (st *State) pushAlt(vs ...int64) {
	p := make([]int64, 0, len(st.taken)+len(vs))
	p = append(p, st.taken...)
	p = append(p, vs...)
	st.h.push(p)
}

// choose is a free n-way decision (no constraint attached).
func (st *State) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if st.depth() > 0 {
		st.abortMerge("choice")
	}
	if v, ok := st.recorded(); ok {
		return int(v)
	}
	for i := n - 1; i >= 1; i-- {
		st.pushAlt(int64(i))
	}
	st.record(0)
	return 0
}

// forkOn decides a symbolic condition by splitting the path.
func (st *State) forkOn(cond *Bool, why string) bool {
	cond = st.simp(cond)
	if cond.isConst() {
		return cond.val
	}
	if st.depth() > 0 {
		st.abortMerge(why)
	}
	v, ok := st.recorded()
	if !ok {
		// choose between n-way concretisation and a binary split
		if a := st.smallAtom(cond); a != nil {
			st.record(-2)
			st.concretizeAtom(a)
			return st.forkOn(cond, why)
		}
		st.forks++
		ft := st.feasible(cond)
		ff := true
		if ft {
			ff = st.feasible(st.c.Not(cond))
		}
		switch {
		case ft && ff:
			st.pushAlt(0)
			v = 1
		case ft:
			v = 1
		default:
			v = 0
		}
		st.record(v)
	} else if v == -2 {
		a := st.smallAtom(cond)
		if a == nil {
			panic(unsupported("replay mismatch"))
		}
		st.concretizeAtom(a)
		return st.forkOn(cond, why)
	}
	if v == 1 {
		st.assume(cond)
		return true
	}
	st.assume(st.c.Not(cond))
	return false
}

const smallRange = 4096

func (st *State) termAtoms(t *Term, set map[*Atom]bool) {
	for _, m := range t.ms {
		for _, a := range m.atoms {
			if !a.bound {
				set[a] = true
			}
		}
	}
}
func (st *State) boolAtoms(b *Bool, set map[*Atom]bool) {
	switch b.kind {
	case BAtom:
		set[b.a] = true
	case BEq:
		st.termAtoms(b.t, set)
	case BULt, BSLt:
		st.termAtoms(b.x, set)
		st.termAtoms(b.y, set)
	case BNot, BAnd:
		for _, x := range b.bs {
			st.boolAtoms(x, set)
		}
	case BFCmp:
		for _, f := range []*FNode{b.f, b.g} {
			for _, m := range f.ms {
				for _, a := range m.atoms {
					if !a.bound {
						set[a] = true
					}
				}
			}
		}
	}
}

func (st *State) smallAtom(cond *Bool) *Atom {
	set := map[*Atom]bool{}
	st.boolAtoms(cond, set)
	if len(set) != 1 {
		return nil
	}
	for a := range set {
		if a.kind != AReal && !a.big && a.hi-a.lo < smallRange && a.hi-a.lo > 1 {
			return a
		}
	}
	return nil
}

func (st *State) concretizeAtom(a *Atom) int64 {
	if a.bound {
		return a.bval
	}
	if st.depth() > 0 {
		st.abortMerge("concretise")
	}
	v, ok := st.recorded()
	if !ok {
		vals := []int64{}
		for x := a.lo; x <= a.hi; x++ {
			b := st.c.EqC(st.c.atomTerm(a, 64), x)
			if st.simp(b) == st.c.False {
				continue
			}
			vals = append(vals, x)
		}
		if len(vals) > 1 && (len(st.pc) > 0 || a.kind != AVar) {
			vals = st.feasibleValues(a, vals)
		}
		if len(vals) == 0 {
			panic(pathEnd{"infeasible"})
		}
		for i := len(vals) - 1; i >= 1; i-- {
			st.pushAlt(vals[i])
		}
		v = vals[0]
		st.record(v)
		st.forks++
	}
	st.bind(a, v)
	return v
}

// feasibleValues filters vals to those the atom can take, by asking for models
// outside the values known so far.
func (st *State) feasibleValues(a *Atom, vals []int64) []int64 {
	t := st.c.atomTerm(a, 64)
	open := map[int64]bool{}
	for _, x := range vals {
		open[x] = true
	}
	var keep []int64
	var not []*Bool
	settle := func(x int64, ok bool) {
		delete(open, x)
		not = append(not, st.c.Not(st.c.EqC(t, x)))
		if ok {
			keep = append(keep, x)
		}
	}
	large := len(vals) > 128
	if !large {
		settle(vals[0], st.feasible(st.c.EqC(t, vals[0])))
	}
	for len(open) > 0 {
		if large && len(keep) > 64 {
			return vals // too many values: the paths that are infeasible end later
		}
		if len(open) > 1 {
			q := st.cone(st.guardList(st.simp(st.c.AndB(not...)))...)
			v, m := st.wk.solver.Solve(q, feasLimit)
			if v == Unsat {
				break
			}
			if v == Sat && m != nil {
				if x := m.term(t); open[x] {
					settle(x, true)
					continue
				}
			}
		}
		if large {
			return vals
		}
		// one by one
		for _, x := range vals {
			if open[x] {
				settle(x, st.feasible(st.c.EqC(t, x)))
			}
		}
	}
	sort.Slice(keep, func(i, j int) bool { return keep[i] < keep[j] })
	return keep
}

func (st *State) bind(a *Atom, v int64) {
	b := st.c.mkBool(fmt.Sprintf("bind%d.%d", a.id, v), &Bool{kind: BBind, a: a, v: v})
	st.pc = append(st.pc, b)
	a.bound = true
	a.bval = v
	if a.kind == ASlice {
		st.c.boundSlices = append(st.c.boundSlices, a)
	}
	// re-check the path condition for contradictions
	for _, p := range st.pc {
		if p.kind != BBind {
			if r := st.c.resolveB(p); r == st.c.False {
				panic(pathEnd{"infeasible"})
			}
		}
	}
}

// conc forces an integer value to be concrete, splitting the path.
func (st *State) conc(v Val, ck CK) int64 {
	if v.R == nil {
		return int64(v.U)
	}
	for {
		t := st.c.resolve(v.R.(*Term))
		if t.isConst() {
			return int64(normInt(uint64(t.c0), ck.w, ck.signed))
		}
		if st.depth() > 0 {
			st.abortMerge("concretise")
		}
		set := map[*Atom]bool{}
		st.termAtoms(t, set)
		var best *Atom
		for a := range set {
			if a.kind != AReal && !a.big && a.hi-a.lo < smallRange && (best == nil || a.id < best.id) {
				best = a
			}
		}
		if best == nil {
			// enumerate through models
			r, ok := st.recorded()
			if !ok {
				x, found := st.modelValue(t)
				if !found {
					panic(unsupported("cannot concretise value"))
				}
				eq := st.c.EqC(t, x)
				if st.feasible(st.c.Not(eq)) {
					st.pushAlt(0, x)
				}
				st.record(1)
				st.record(x)
				st.assume(eq)
				return int64(normInt(uint64(x), ck.w, ck.signed))
			}
			x, _ := st.recorded()
			eq := st.c.EqC(t, x)
			if r == 1 {
				st.assume(eq)
				return int64(normInt(uint64(x), ck.w, ck.signed))
			}
			st.assume(st.c.Not(eq))
			continue
		}
		st.concretizeAtom(best)
	}
}

// ---- frames ----

type opnd struct {
	idx int32
	c   Val
}

type Fn struct {
	f        *ssa.Function
	nreg     int
	blocks   []*Block
	ipdom    []int
	live     [][]int32 // live-in registers per block
	params   []int32
	free     []int32
	regType  []types.Type
	regLay   []*Layout
	hasDefer bool
	intr     intrinsic
	resLay   []*Layout
	name     string
}

type intrinsic func(fr *Frame, args []Val, call *ssa.CallCommon) Val

type phiC struct {
	dst  int32
	edge []opnd
	lay  *Layout
}
type Block struct {
	idx   int
	phis  []phiC
	code  []func(fr *Frame)
	kind  uint8 // 0 jump 1 if 2 return 3 panic 4 unreachable
	cond  opnd
	rets  []opnd
	succs []int
	preds []int
	pos   token.Pos
}

type deferRec struct {
	call *ssa.CallCommon
	fnv  Val
	args []Val
}

type Frame struct {
	fn        *Fn
	st        *State
	th        *Thread
	regs      []Val
	prev      int
	phiVals   []Val
	ret       []Val
	defers    []deferRec
	panicking *goPanicT
	recovered bool
	caller    *Frame
	depthN    int
}

func (fr *Frame) get(o opnd) Val {
	if o.idx >= 0 {
		return fr.regs[o.idx]
	}
	return o.c
}

const maxCallDepth = 400

func (st *State) callFn(caller *Frame, th *Thread, fn *Fn, args []Val, bind []Val, call *ssa.CallCommon) Val {
	if fn.intr != nil {
		return fn.intr(caller, args, call)
	}
	if fn.blocks == nil {
		panic(unsupported("call of external function " + fn.name))
	}
	fr := &Frame{fn: fn, st: st, th: th, regs: make([]Val, fn.nreg), prev: -1, caller: caller}
	if caller != nil {
		fr.depthN = caller.depthN + 1
		if fr.depthN > maxCallDepth {
			panic(unsupported("call depth"))
		}
	}
	for i, p := range fn.params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.free {
		fr.regs[p] = bind[i]
	}
	if fn.hasDefer {
		fr.runDefer()
	} else {
		fr.run(0, -1)
	}
	return retVal(fr.ret, fn)
}

func retVal(ret []Val, fn *Fn) Val {
	switch len(fn.resLay) {
	case 0:
		return Val{}
	case 1:
		return ret[0]
	}
	// tuple: flat cells
	var c []Val
	for i, r := range ret {
		c = appendFlat(c, r, fn.resLay[i])
	}
	return Val{R: &Agg{c}}
}

func appendFlat(c []Val, v Val, l *Layout) []Val {
	if l.cplx {
		p := cparts(v)
		return append(c, p[0], p[1])
	}
	if l.agg {
		return append(c, aggOf(v, l.size)...)
	}
	return append(c, v)
}
func fromFlat(c []Val, l *Layout) Val {
	if l.cplx {
		return Val{R: &[2]Val{c[0], c[1]}}
	}
	if l.agg {
		return Val{R: &Agg{c[:l.size:l.size]}}
	}
	return c[0]
}

func (fr *Frame) runDefer() {
	st := fr.st
	func() {
		defer func() {
			if e := recover(); e != nil {
				p, ok := e.(goPanicT)
				if !ok {
					panic(e)
				}
				if st.depth() > 0 {
					panic(mergeAbortT{"panic in merged code"})
				}
				fr.panicking = &p
			}
		}()
		fr.run(0, -1)
	}()
	if fr.panicking != nil {
		fr.runDefers()
		if fr.panicking != nil {
			panic(*fr.panicking)
		}
		// recovered
		if fr.fn.f.Recover != nil {
			fr.prev = -1
			fr.run(fr.fn.f.Recover.Index, -1)
		} else {
			fr.ret = make([]Val, len(fr.fn.resLay))
		}
	}
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if e := recover(); e != nil {
					p, ok := e.(goPanicT)
					if !ok {
						panic(e)
					}
					fr.panicking = &p
				}
			}()
			fr.invoke(d.call, d.fnv, d.args)
		}()
	}
	if fr.panicking != nil && fr.recovered {
		fr.panicking = nil
		fr.recovered = false
	}
}

// run executes from block b until stop is about to be entered (0) or return (1).
func (fr *Frame) run(b, stop int) int {
	st := fr.st
	for {
		if b == stop {
			return 0
		}
		blk := fr.fn.blocks[b]
		if len(blk.phis) > 0 {
			vals := fr.evalPhis(blk)
			for i := range blk.phis {
				fr.regs[blk.phis[i].dst] = vals[i]
			}
		}
		for _, c := range blk.code {
			c(fr)
		}
		st.steps += int64(len(blk.code) + 1)
		if st.steps&0xffff < int64(len(blk.code)+1) && time.Now().After(st.deadline) {
			panic(pathEnd{"timeout"})
		}
		st.c.alive()
		if st.mergeLimit > 0 && st.steps > st.mergeLimit {
			st.abortMerge("merge too long")
		}
		switch blk.kind {
		case 0:
			fr.prev = b
			b = blk.succs[0]
		case 1:
			cv := fr.get(blk.cond)
			if cv.R == nil {
				fr.prev = b
				if cv.U != 0 {
					b = blk.succs[0]
				} else {
					b = blk.succs[1]
				}
				continue
			}
			nb := fr.symIf(blk, cv.R.(*Bool))
			if nb == -1 {
				return 1
			}
			b = nb
		case 2:
			fr.ret = make([]Val, len(blk.rets))
			for i, o := range blk.rets {
				fr.ret[i] = fr.get(o)
			}
			return 1
		case 3:
			panic(goPanicT{fr.get(blk.cond)})
		default:
			panic(unsupported("unreachable block"))
		}
	}
}

func (fr *Frame) evalPhis(blk *Block) []Val {
	if fr.prev == -2 {
		return fr.phiVals
	}
	vals := make([]Val, len(blk.phis))
	e := -1
	for i, p := range blk.preds {
		if p == fr.prev {
			e = i
			break
		}
	}
	for i := range blk.phis {
		vals[i] = fr.get(blk.phis[i].edge[e])
	}
	return vals
}

// symIf handles a branch on a symbolic condition; returns the next block, or -1
// when the function returned.
func (fr *Frame) symIf(blk *Block, cond *Bool) int {
	st := fr.st
	cond = st.simp(cond)
	if cond.isConst() {
		fr.prev = blk.idx
		if cond.val {
			return blk.succs[0]
		}
		return blk.succs[1]
	}
	if st.depth() > 0 {
		return fr.merge(blk, cond)
	}
	v, ok := int64(0), false
	if st.pos < len(st.prefix) {
		v, ok = st.prefix[st.pos], true
	}
	if ok && v == -1 {
		st.record(-1)
		nb, done, why := fr.tryMerge(blk, cond)
		if !done {
			panic(unsupported("merge not reproducible: " + why))
		}
		return nb
	}
	if !ok && st.wk.badIf[blk] < 3 {
		nb, done, _ := fr.tryMerge(blk, cond)
		if done {
			st.record(-1)
			return nb
		}
		st.wk.badIf[blk]++
	}
	r := st.forkOn(cond, "branch")
	fr.prev = blk.idx
	if r {
		return blk.succs[0]
	}
	return blk.succs[1]
}

// tryMerge is merge at depth 0 with rollback on abort.
func (fr *Frame) tryMerge(blk *Block, cond *Bool) (nb int, done bool, why string) {
	st := fr.st
	mark := len(st.trail)
	lb, ml := st.logBelow, st.mergeLimit
	regs := append([]Val(nil), fr.regs...)
	prev, pv, nin := fr.prev, fr.phiVals, len(st.inputs)
	rs := st.rnd.save()
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case mergeAbortT:
				why = x.why
			case goPanicT:
				why = "panic"
			case unsupErr:
				why = x.msg
			default:
				panic(e)
			}
			st.guards = st.guards[:0]
			st.undoTo(mark)
			st.logBelow, st.mergeLimit = lb, ml
			copy(fr.regs, regs)
			fr.prev, fr.phiVals = prev, pv
			st.inputs = st.inputs[:nin]
			st.rnd.restore(rs)
			nb, done = 0, false
		}
	}()
	st.mergeLimit = st.steps + 3000000
	nb = fr.merge(blk, cond)
	st.mergeLimit = ml
	st.merges++
	return nb, true, ""
}

// mergeCellOf merges one memory cell. The position of a random stream becomes the
// larger one: no path has used a later draw of the stream, and the draws of one path
// are at distinct positions, so every further draw is as free as it is on each path.
func (st *State) mergeCellOf(o *Obj, cond *Bool, off int, a, b Val) Val {
	if o.rng && off == 1 && a.R == nil && b.R == nil {
		if a.U < b.U {
			return b
		}
		return a
	}
	return st.mergeCell(cond, o.kind(off), a, b)
}

type armRes struct {
	status int
	phis   []Val
	regs   []Val
	ret    []Val
	cells  []trailEnt // final values
}

const maxMergeDepth = 80

func (fr *Frame) merge(blk *Block, cond *Bool) int {
	st := fr.st
	if st.depth() >= maxMergeDepth {
		st.abortMerge("merge depth")
	}
	j := fr.fn.ipdom[blk.idx]
	saved := append([]Val(nil), fr.regs...)
	nd := len(fr.defers)
	outer := st.guard()
	oldLB := st.logBelow
	arm := func(g *Bool, succ int) armRes {
		mark := len(st.trail)
		st.guards = append(st.guards, st.c.AndB(outer, g))
		if id := st.nextID + 1; id > st.logBelow {
			st.logBelow = id
		}
		fr.prev = blk.idx
		var r armRes
		r.status = fr.run(succ, j)
		if len(fr.defers) != nd {
			st.abortMerge("defer in merged code")
		}
		if r.status == 0 {
			r.phis = fr.evalPhis(fr.fn.blocks[j])
			r.regs = append([]Val(nil), fr.regs...)
		} else {
			r.ret = fr.ret
		}
		// collect final values of written cells
		seen := map[*Obj]map[int]bool{}
		for i := mark; i < len(st.trail); i++ {
			e := st.trail[i]
			if e.fn != nil {
				st.abortMerge("map update in merged code")
			}
			m := seen[e.o]
			if m == nil {
				m = map[int]bool{}
				seen[e.o] = m
			}
			if m[e.off] {
				continue
			}
			m[e.off] = true
			r.cells = append(r.cells, trailEnt{o: e.o, off: e.off, old: e.o.cells[e.off]})
		}
		st.undoTo(mark)
		st.guards = st.guards[:len(st.guards)-1]
		copy(fr.regs, saved)
		return r
	}
	r1 := arm(cond, blk.succs[0])
	r2 := arm(st.c.Not(cond), blk.succs[1])
	st.logBelow = oldLB
	if r1.status != r2.status {
		st.abortMerge("arms end differently")
	}
	// merge memory
	type key struct {
		o   *Obj
		off int
	}
	w2 := make(map[key]Val, len(r2.cells))
	for _, e := range r2.cells {
		w2[key{e.o, e.off}] = e.old
	}
	done := map[key]bool{}
	for _, e := range r1.cells {
		k := key{e.o, e.off}
		v2, ok := w2[k]
		if !ok {
			v2 = e.o.cells[e.off]
		}
		done[k] = true
		nv := st.mergeCellOf(e.o, cond, e.off, e.old, v2)
		if !sameVal(nv, e.o.cells[e.off]) {
			st.setCell(e.o, e.off, nv)
		}
	}
	for _, e := range r2.cells {
		if done[key{e.o, e.off}] {
			continue
		}
		nv := st.mergeCellOf(e.o, cond, e.off, e.o.cells[e.off], e.old)
		if !sameVal(nv, e.o.cells[e.off]) {
			st.setCell(e.o, e.off, nv)
		}
	}
	if r1.status == 1 {
		fr.ret = make([]Val, len(r1.ret))
		for i := range r1.ret {
			fr.ret[i] = st.mergeReg(cond, fr.fn.resLay[i], r1.ret[i], r2.ret[i])
		}
		return -1
	}
	jb := fr.fn.blocks[j]
	vals := make([]Val, len(jb.phis))
	for i := range vals {
		vals[i] = st.mergeReg(cond, jb.phis[i].lay, r1.phis[i], r2.phis[i])
	}
	for _, r := range fr.fn.live[j] {
		if !sameVal(r1.regs[r], r2.regs[r]) {
			fr.regs[r] = st.mergeReg(cond, fr.fn.lay(st.wk, r), r1.regs[r], r2.regs[r])
		} else {
			fr.regs[r] = r1.regs[r]
		}
	}
	fr.phiVals = vals
	fr.prev = -2
	return j
}

func (fn *Fn) lay(wk *Worker, r int32) *Layout {
	if fn.regLay[r] == nil {
		fn.regLay[r] = wk.layout(fn.regType[r])
	}
	return fn.regLay[r]
}

// ---- compilation ----

func (wk *Worker) fn(f *ssa.Function) *Fn {
	if x := wk.fns[f]; x != nil {
		return x
	}
	fn := &Fn{f: f, name: f.String()}
	wk.fns[f] = fn
	for i := 0; i < f.Signature.Results().Len(); i++ {
		fn.resLay = append(fn.resLay, wk.layout(f.Signature.Results().At(i).Type()))
	}
	name := fn.name
	if f.Origin() != nil {
		name = f.Origin().String()
	}
	if in := intrinsics[name]; in != nil {
		fn.intr = in
		return fn
	}
	pkg := f.Package()
	if pkg == nil && f.Origin() != nil {
		pkg = f.Origin().Package()
	}
	if pkg != nil {
		path := pkg.Pkg.Path()
		if f.Synthetic == "package initializer" && !wk.eng.isModule(pkg) {
			fn.intr = noop
			return fn
		}
		if in := pkgIntrinsic(path, f); in != nil {
			fn.intr = in
			return fn
		}
		if deniedPkg(path) && !(path == "math/rand" && f.Blocks != nil || path == "time" || path == "sync" && strings.HasPrefix(name, "sync.Once")) {
			fn.intr = func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				panic(unsupported("call of " + name))
			}
			return fn
		}
		wk.eng.buildPkg(pkg)
	}
	if f.Blocks != nil {
		wk.compile(fn)
		wk.funcsUsed[f] = true
	}
	if pkg != nil && pkg.Pkg.Path() != "sync" && pkg.Pkg.Path() != "errors" {
		wk.initPkg(pkg)
	}
	return fn
}

func (wk *Worker) initPkg(p *ssa.Package) {
	if wk.inits[p] || wk.eng.isModule(p) {
		return
	}
	wk.inits[p] = true
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	st := wk.st
	om, ol := st.makingBase, st.logBelow
	g := st.guards
	st.guards = nil
	st.makingBase = true
	st.logBelow = 0
	fn := &Fn{f: init, name: init.String()}
	wk.compile(fn)
	st.callFn(nil, st.sched.main, fn, nil, nil, nil)
	st.makingBase, st.logBelow = om, ol
	st.guards = g
}

func (wk *Worker) global(g *ssa.Global) *Obj {
	if o := wk.globals[g]; o != nil {
		return o
	}
	if g.Pkg != nil {
		if p := g.Pkg; !wk.eng.isModule(p) && !wk.inits[p] && !deniedPkg(p.Pkg.Path()) && p.Pkg.Path() != "errors" {
			wk.eng.buildPkg(p)
			wk.initPkg(p)
			if o := wk.globals[g]; o != nil {
				return o
			}
		}
	}
	l := wk.layout(g.Type().(*types.Pointer).Elem())
	ob := wk.st.makingBase
	wk.st.makingBase = true
	o := wk.st.newObj(l.size, l.kinds)
	wk.st.makingBase = ob
	wk.globals[g] = o
	return o
}

func (wk *Worker) compile(fn *Fn) {
	f := fn.f
	reg := map[ssa.Value]int32{}
	add := func(v ssa.Value) int32 {
		r := int32(fn.nreg)
		fn.nreg++
		fn.regType = append(fn.regType, v.Type())
		reg[v] = r
		return r
	}
	for _, p := range f.Params {
		fn.params = append(fn.params, add(p))
	}
	for _, p := range f.FreeVars {
		fn.free = append(fn.free, add(p))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fn.hasDefer = true
			}
		}
	}
	fn.regLay = make([]*Layout, fn.nreg)
	op := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{-1, wk.constVal(x)}
		case *ssa.Global:
			return opnd{-1, Val{R: wk.global(x)}}
		case *ssa.Function:
			return opnd{-1, Val{R: &Closure{fn: x}}}
		case *ssa.Builtin:
			return opnd{-1, Val{}}
		}
		r, ok := reg[v]
		if !ok {
			panic(fmt.Sprintf("internal: no register for %v (%T)", v, v))
		}
		return opnd{idx: r}
	}
	fn.blocks = make([]*Block, len(f.Blocks))
	for i, b := range f.Blocks {
		nb := &Block{idx: i}
		fn.blocks[i] = nb
		for _, s := range b.Succs {
			nb.succs = append(nb.succs, s.Index)
		}
		for _, s := range b.Preds {
			nb.preds = append(nb.preds, s.Index)
		}
	}
	cc := &compiler{wk: wk, fn: fn, op: op, reg: reg}
	for i, b := range f.Blocks {
		nb := fn.blocks[i]
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				p := phiC{dst: reg[x], lay: wk.layout(x.Type())}
				for _, e := range x.Edges {
					p.edge = append(p.edge, op(e))
				}
				nb.phis = append(nb.phis, p)
			case *ssa.If:
				nb.kind = 1
				nb.cond = op(x.Cond)
				nb.pos = x.Cond.Pos()
			case *ssa.Jump:
				nb.kind = 0
			case *ssa.Return:
				nb.kind = 2
				for _, r := range x.Results {
					nb.rets = append(nb.rets, op(r))
				}
			case *ssa.Panic:
				nb.kind = 3
				nb.cond = op(x.X)
			case *ssa.DebugRef:
			default:
				if c := cc.instr(in); c != nil {
					nb.code = append(nb.code, c)
				}
			}
		}
	}
	fn.ipdom = computeIpdom(fn)
	fn.live = computeLive(fn, f, reg)
}

func computeIpdom(fn *Fn) []int {
	n := len(fn.blocks)
	// post-dominator sets by iteration over bitsets; exit = n
	words := (n + 1 + 63) / 64
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	pd := make([][]uint64, n+1)
	for i := 0; i < n; i++ {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[n] = make([]uint64, words)
	pd[n][n/64] |= 1 << (n % 64)
	// blocks that cannot reach a return keep the full set
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.blocks[i]
			if b.kind == 3 {
				continue
			}
			var acc []uint64
			if b.kind == 2 {
				acc = append([]uint64(nil), pd[n]...)
			} else {
				acc = append([]uint64(nil), full...)
				for _, s := range b.succs {
					for k := range acc {
						acc[k] &= pd[s][k]
					}
				}
			}
			acc[i/64] |= 1 << (i % 64)
			for k := range acc {
				if acc[k] != pd[i][k] {
					changed = true
				}
			}
			pd[i] = acc
		}
	}
	count := func(s []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if s[i/64]>>(i%64)&1 == 1 {
				c++
			}
		}
		return c
	}
	res := make([]int, n)
	for i := 0; i < n; i++ {
		best, bc := -1, -1
		for k := 0; k < n; k++ {
			if k == i || pd[i][k/64]>>(k%64)&1 == 0 {
				continue
			}
			if c := count(pd[k]); c > bc {
				best, bc = k, c
			}
		}
		res[i] = best
		if count(pd[i]) == n+1 && fn.blocks[i].kind != 2 { // panics or loops for ever
			res[i] = -1
		}
	}
	return res
}

func computeLive(fn *Fn, f *ssa.Function, reg map[ssa.Value]int32) [][]int32 {
	n := len(f.Blocks)
	W := (fn.nreg + 63) / 64
	in := make([][]uint64, n)
	use := make([][]uint64, n)
	def := make([][]uint64, n)
	phiUse := make([][]uint64, n) // uses on outgoing edges
	for i := range in {
		in[i] = make([]uint64, W)
		use[i] = make([]uint64, W)
		def[i] = make([]uint64, W)
		phiUse[i] = make([]uint64, W)
	}
	set := func(s []uint64, r int32) { s[r/64] |= 1 << (r % 64) }
	has := func(s []uint64, r int32) bool { return s[r/64]>>(r%64)&1 == 1 }
	for i, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if p, ok := ins.(*ssa.Phi); ok {
				for k, e := range p.Edges {
					if r, ok := reg[e]; ok {
						set(phiUse[b.Preds[k].Index], r)
					}
				}
				set(def[i], reg[p])
				continue
			}
			for _, o := range ins.Operands(nil) {
				if *o == nil {
					continue
				}
				if r, ok := reg[*o]; ok && !has(def[i], r) {
					set(use[i], r)
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				set(def[i], reg[v])
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			out := append([]uint64(nil), phiUse[i]...)
			for _, s := range f.Blocks[i].Succs {
				for k := range out {
					out[k] |= in[s.Index][k]
				}
			}
			for k := range out {
				v := use[i][k] | out[k]&^def[i][k]
				if v != in[i][k] {
					in[i][k] = v
					ch = true
				}
			}
		}
	}
	res := make([][]int32, n)
	for i := range res {
		for r := int32(0); r < int32(fn.nreg); r++ {
			if has(in[i], r) {
				res[i] = append(res[i], r)
			}
		}
	}
	return res
}

func (wk *Worker) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		l := wk.layout(t)
		if l.agg {
			return Val{R: &Agg{make([]Val, l.size)}}
		}
		if ck := ckOf(t); ck.k == kStr {
			return Val{R: ""}
		}
		return Val{}
	}
	ck := ckOf(t)
	switch ck.k {
	case kBool:
		return Val{U: b2u(constant.BoolVal(c.Value))}
	case kInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Val{U: normInt(uint64(i), ck.w, ck.signed)}
		}
		u, _ := constant.Uint64Val(v)
		return Val{U: normInt(u, ck.w, ck.signed)}
	case kF64:
		f, _ := constant.Float64Val(c.Value)
		return Val{U: math.Float64bits(f)}
	case kF32:
		f, _ := constant.Float32Val(c.Value)
		return Val{U: uint64(math.Float32bits(f))}
	case kStr:
		return Val{R: constant.StringVal(c.Value)}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return Val{R: &[2]Val{{U: math.Float64bits(re)}, {U: math.Float64bits(im)}}}
	}
	if ck.k == kIface || isTypeParam(t) {
		panic(unsupported("constant of type " + t.String()))
	}
	panic(unsupported("constant of type " + t.String()))
}

func isTypeParam(t types.Type) bool { _, ok := t.(*types.TypeParam); return ok }

// symStr is a string whose contents depend on symbolic values.
type symStr struct{ format string }

func str(v Val) string {
	if v.R == nil {
		return ""
	}
	s, ok := v.R.(string)
	if !ok {
		panic(unsupported("symbolic string"))
	}
	return s
}

func fb(v Val) float64 {
	if v.R != nil {
		panic(unsupported("symbolic float in native call"))
	}
	return math.Float64frombits(v.U)
}
func fv(f float64) Val { return Val{U: math.Float64bits(f)} }

var _ = sort.Ints
var _ = strings.Contains
