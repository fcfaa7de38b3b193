package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Val is a runtime value; its interpretation follows from the static type.
//
//	ints: U (sign/zero extended) or R=*Term      bool: U or R=*Bool
//	float64: U bits or R=*FNode                  complex128: R=*[2]Val
//	pointer: R=*Obj,U=offset                     slice: R=*SliceV
//	struct/array: R=*Agg                         interface: R=*Iface
//	func: R=*Closure   map: R=*MapObj   chan: R=*ChanObj   string: R=string
//	tuple: R=*Agg      guarded pointers/slices: R=*GVal
type Val struct {
	U uint64
	R any
}

type VK uint8

const (
	kOther VK = iota
	kInt
	kBool
	kF64
	kF32
	kPtr
	kSlice
	kStr
	kIface
)

type CK struct {
	k      VK
	w      uint8
	signed bool
}

type Layout struct {
	size  int
	kinds []CK
	offs  []int // struct fields
	sub   []*Layout
	elem  *Layout
	agg   bool
	cplx  bool
}

type Obj struct {
	rng    bool // a rand.Rand: cell 0 stream key, cell 1 position
	id     int64
	cells  []Val
	kinds  []CK
	base   bool
	logged int  // writes logged since the last undo
	saved  bool // the trail holds a copy of all cells
	shadow *shadow
}

func (o *Obj) kind(off int) CK { return o.kinds[off%len(o.kinds)] }

type SliceV struct {
	o        *Obj
	off      int // in cells
	len, cap int // in elements
}

type Agg struct{ c []Val }
type Iface struct {
	t types.Type
	v Val
}
type Closure struct {
	fn   *ssa.Function
	bind []Val
	intr func(fr *Frame, args []Val) Val // native method values
}
type mapEnt struct {
	k, v Val
	del  bool
}
type MapObj struct {
	id   int64
	base bool
	m    map[string]int
	ents []mapEnt
	n    int
	ro   *Obj // stands for the map in race detection
}
type Alt struct {
	g *Bool
	v Val
}
type GVal struct{ alts []Alt } // exclusive and exhaustive

type Input struct {
	kind  string // u32,u64,int,bit,real,norm,choose ...
	label string
	atom  *Atom
	conc  int64   // concrete value (choices)
	concf float64 // concrete real
	guard *Bool
	dup   *Input
	w     uint8
}

func ckOf(t types.Type) CK {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return CK{kBool, 1, false}
		case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
			return CK{kInt, 64, true}
		case types.Int32:
			return CK{kInt, 32, true}
		case types.Int16:
			return CK{kInt, 16, true}
		case types.Int8:
			return CK{kInt, 8, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return CK{kInt, 64, false}
		case types.Uint32:
			return CK{kInt, 32, false}
		case types.Uint16:
			return CK{kInt, 16, false}
		case types.Uint8:
			return CK{kInt, 8, false}
		case types.Float64, types.UntypedFloat:
			return CK{kF64, 64, true}
		case types.Float32:
			return CK{kF32, 32, true}
		case types.String, types.UntypedString:
			return CK{kStr, 0, false}
		case types.UnsafePointer:
			return CK{kPtr, 0, false}
		}
	case *types.Pointer:
		return CK{kPtr, 0, false}
	case *types.Slice:
		return CK{kSlice, 0, false}
	case *types.Interface:
		return CK{kIface, 0, false}
	}
	return CK{k: kOther}
}

func (wk *Worker) layout(t types.Type) *Layout {
	if l := wk.layouts[t]; l != nil {
		return l
	}
	l := &Layout{}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l.agg = true
		for i := 0; i < u.NumFields(); i++ {
			f := wk.layout(u.Field(i).Type())
			l.offs = append(l.offs, l.size)
			l.sub = append(l.sub, f)
			l.size += f.size
			l.kinds = append(l.kinds, f.kinds...)
		}
	case *types.Array:
		l.agg = true
		l.elem = wk.layout(u.Elem())
		l.size = int(u.Len()) * l.elem.size
		for i := 0; i < int(u.Len()); i++ {
			l.kinds = append(l.kinds, l.elem.kinds...)
		}
	case *types.Tuple:
		l.agg = true
		for i := 0; i < u.Len(); i++ {
			f := wk.layout(u.At(i).Type())
			l.offs = append(l.offs, l.size)
			l.sub = append(l.sub, f)
			l.size += f.size
			l.kinds = append(l.kinds, f.kinds...)
		}
	case *types.Basic:
		if u.Kind() == types.Complex128 || u.Kind() == types.UntypedComplex {
			l.size = 2
			l.cplx = true
			l.kinds = []CK{{kF64, 64, true}, {kF64, 64, true}}
		} else {
			l.size = 1
			l.kinds = []CK{ckOf(t)}
		}
	default:
		l.size = 1
		l.kinds = []CK{ckOf(t)}
	}
	wk.layouts[t] = l
	return l
}

func (st *State) newObj(n int, kinds []CK) *Obj {
	if n > 1<<26 {
		panic(unsupported("allocation too large"))
	}
	st.nextID++
	if len(kinds) == 0 {
		kinds = []CK{{}}
	}
	st.cellsAlloc += int64(n)
	return &Obj{id: st.nextID, cells: make([]Val, n), kinds: kinds, base: st.makingBase}
}

type trailEnt struct {
	o   *Obj
	off int
	old Val
	fn  func()
}

func (st *State) setCell(o *Obj, off int, v Val) {
	if o.id < st.logBelow {
		st.trail = append(st.trail, trailEnt{o: o, off: off, old: o.cells[off]})
	} else if o.base && !o.saved && (!st.makingBase || o.id < st.onceStart) {
		if o.logged++; o.logged <= len(o.cells) {
			st.trail = append(st.trail, trailEnt{o: o, off: off, old: o.cells[off]})
		} else {
			// many writes: keep one copy instead of one entry per write
			old := append([]Val(nil), o.cells...)
			st.trail = append(st.trail, trailEnt{fn: func() { copy(o.cells, old); o.saved = false }})
			o.saved = true
		}
	}
	o.cells[off] = v
}

func (st *State) undoTo(n int) {
	for i := len(st.trail) - 1; i >= n; i-- {
		e := &st.trail[i]
		if e.fn != nil {
			e.fn()
		} else {
			e.o.cells[e.off] = e.old
			e.o.logged = 0
		}
	}
	st.trail = st.trail[:n]
}

// ---- scalars ----

func normInt(u uint64, w uint8, signed bool) uint64 {
	if w >= 64 {
		return u
	}
	s := 64 - w
	if signed {
		return uint64(int64(u<<s) >> s)
	}
	return u << s >> s
}

func (st *State) T(v Val, w uint8) *Term {
	if v.R != nil {
		t := v.R.(*Term)
		if t.w != w {
			panic(fmt.Sprintf("internal: term width %d, want %d", t.w, w))
		}
		return t
	}
	return st.c.Const(int64(v.U), w)
}
func tval(t *Term, signed bool) Val {
	if t.isConst() {
		return Val{U: normInt(uint64(t.c0), t.w, signed)}
	}
	return Val{R: t}
}
func (st *State) B(v Val) *Bool {
	if v.R != nil {
		return v.R.(*Bool)
	}
	return st.c.Bool(v.U != 0)
}
func bval(b *Bool) Val {
	if b.isConst() {
		if b.val {
			return Val{U: 1}
		}
		return Val{}
	}
	return Val{R: b}
}
func (st *State) F(v Val) *FNode {
	if v.R != nil {
		return v.R.(*FNode)
	}
	f := math.Float64frombits(v.U)
	if math.IsNaN(f) || math.IsInf(f, 0) {
		panic(unsupported("NaN/Inf mixed with symbolic float"))
	}
	return st.c.FConst(f)
}
func fval(f *FNode) Val {
	if f.isConst() {
		return Val{U: math.Float64bits(f.c0)}
	}
	return Val{R: f}
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func sameVal(a, b Val) bool {
	if a.R == nil || b.R == nil {
		return a.R == nil && b.R == nil && a.U == b.U
	}
	switch x := a.R.(type) {
	case *SliceV:
		y, ok := b.R.(*SliceV)
		return ok && *x == *y
	case *Obj:
		y, ok := b.R.(*Obj)
		return ok && x == y && a.U == b.U
	case string:
		y, ok := b.R.(string)
		return ok && x == y
	case *Closure:
		y, ok := b.R.(*Closure)
		return ok && (x == y || x.fn == y.fn && len(x.bind) == 0 && len(y.bind) == 0 && x.fn != nil)
	case *Iface:
		y, ok := b.R.(*Iface)
		return ok && (x == y || types.Identical(x.t, y.t) && sameVal(x.v, y.v))
	case *Agg:
		y, ok := b.R.(*Agg)
		if !ok || len(x.c) != len(y.c) {
			return false
		}
		for i := range x.c {
			if !sameVal(x.c[i], y.c[i]) {
				return false
			}
		}
		return true
	case *[2]Val:
		y, ok := b.R.(*[2]Val)
		return ok && sameVal(x[0], y[0]) && sameVal(x[1], y[1])
	}
	return a.R == b.R
}

// mergeCell computes ite(g, x, y) for one memory cell or scalar register.
func (st *State) mergeCell(g *Bool, ck CK, x, y Val) Val {
	if sameVal(x, y) {
		return x
	}
	switch ck.k {
	case kInt:
		return tval(st.c.Ite(g, st.T(x, ck.w), st.T(y, ck.w)), ck.signed)
	case kBool:
		return bval(st.c.IteB(g, st.B(x), st.B(y)))
	case kF64:
		return fval(st.c.FIte(g, st.F(x), st.F(y)))
	case kPtr, kSlice:
		var alts []Alt
		add := func(g *Bool, v Val) {
			if gv, ok := v.R.(*GVal); ok {
				for _, a := range gv.alts {
					if ag := st.c.AndB(g, a.g); ag != st.c.False {
						alts = append(alts, Alt{ag, a.v})
					}
				}
			} else {
				alts = append(alts, Alt{g, v})
			}
		}
		add(g, x)
		add(st.c.Not(g), y)
		if len(alts) > 1024 {
			st.abortMerge("too many pointer alternatives")
		}
		return Val{R: &GVal{alts}}
	}
	st.abortMerge("unmergeable values")
	return Val{}
}

func (st *State) mergeReg(g *Bool, l *Layout, x, y Val) Val {
	if sameVal(x, y) {
		return x
	}
	if l.cplx {
		a, b := cparts(x), cparts(y)
		return Val{R: &[2]Val{st.mergeCell(g, l.kinds[0], a[0], b[0]), st.mergeCell(g, l.kinds[0], a[1], b[1])}}
	}
	if l.agg {
		a, b := aggOf(x, l.size), aggOf(y, l.size)
		out := make([]Val, l.size)
		for i := range out {
			out[i] = st.mergeCell(g, l.kinds[i], a[i], b[i])
		}
		return Val{R: &Agg{out}}
	}
	return st.mergeCell(g, l.kinds[0], x, y)
}

func cparts(v Val) [2]Val {
	if v.R == nil {
		return [2]Val{}
	}
	return *v.R.(*[2]Val)
}
func aggOf(v Val, n int) []Val {
	if v.R == nil {
		return make([]Val, n)
	}
	return v.R.(*Agg).c
}

// load/store of typed values

func (st *State) loadAt(o *Obj, off int, l *Layout) Val {
	if off < 0 || off+l.size > len(o.cells) {
		panic(unsupported("memory access outside object"))
	}
	if st.race != nil {
		st.race.read(o, off, l.size)
	}
	if l.cplx {
		return Val{R: &[2]Val{o.cells[off], o.cells[off+1]}}
	}
	if l.agg {
		c := make([]Val, l.size)
		copy(c, o.cells[off:off+l.size])
		return Val{R: &Agg{c}}
	}
	return o.cells[off]
}

func (st *State) storeAt(o *Obj, off int, l *Layout, v Val) {
	if off < 0 || off+l.size > len(o.cells) {
		panic(unsupported("memory access outside object"))
	}
	if st.race != nil {
		st.race.write(o, off, l.size)
	}
	if l.cplx {
		p := cparts(v)
		st.setCell(o, off, p[0])
		st.setCell(o, off+1, p[1])
		return
	}
	if l.agg {
		if v.R == nil {
			for i := 0; i < l.size; i++ {
				st.setCell(o, off+i, Val{})
			}
			return
		}
		for i, c := range v.R.(*Agg).c {
			st.setCell(o, off+i, c)
		}
		return
	}
	st.setCell(o, off, v)
}

func (st *State) load(p Val, l *Layout) Val {
	switch o := p.R.(type) {
	case *Obj:
		return st.loadAt(o, int(p.U), l)
	case *GVal:
		var r Val
		first := true
		for i := len(o.alts) - 1; i >= 0; i-- {
			a := o.alts[i]
			po, ok := a.v.R.(*Obj)
			if !ok {
				if a.v.R == nil && st.guardFeasible(a.g) {
					st.forkOn(a.g, "nil alternative")
					return st.load(st.pickAlt(p), l)
				}
				continue
			}
			v := st.loadAt(po, int(a.v.U), l)
			if first {
				r, first = v, false
			} else {
				r = st.mergeReg(a.g, l, v, r)
			}
		}
		if first {
			st.goPanic("invalid memory address or nil pointer dereference")
		}
		return r
	case nil:
		st.goPanic("invalid memory address or nil pointer dereference")
	}
	panic(fmt.Sprintf("internal: load through %T", p.R))
}

func (st *State) store(p Val, l *Layout, v Val) {
	switch o := p.R.(type) {
	case *Obj:
		st.storeAt(o, int(p.U), l, v)
	case *GVal:
		for _, a := range o.alts {
			po, ok := a.v.R.(*Obj)
			if !ok {
				if a.v.R == nil && st.guardFeasible(a.g) {
					st.forkOn(a.g, "nil alternative")
					st.store(st.pickAlt(p), l, v)
					return
				}
				continue
			}
			old := st.loadAt(po, int(a.v.U), l)
			st.storeAt(po, int(a.v.U), l, st.mergeReg(a.g, l, v, old))
		}
	case nil:
		st.goPanic("invalid memory address or nil pointer dereference")
	default:
		panic(fmt.Sprintf("internal: store through %T", p.R))
	}
}

// mapAlts applies f to each alternative of a possibly guarded pointer/slice.
func (st *State) mapAlts(p Val, f func(Val) Val) Val {
	g, ok := p.R.(*GVal)
	if !ok {
		return f(p)
	}
	alts := make([]Alt, 0, len(g.alts))
	for _, a := range g.alts {
		if a.v.R == nil && !st.guardFeasible(a.g) {
			continue
		}
		alts = append(alts, Alt{a.g, f(a.v)})
	}
	if len(alts) == 1 {
		return alts[0].v
	}
	return Val{R: &GVal{alts}}
}
