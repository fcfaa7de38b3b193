package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

type compiler struct {
	wk  *Worker
	fn  *Fn
	op  func(ssa.Value) opnd
	reg map[ssa.Value]int32
}

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (cc *compiler) instr(in ssa.Instruction) func(fr *Frame) {
	wk := cc.wk
	op := cc.op
	var d int32
	if v, ok := in.(ssa.Value); ok {
		d = cc.reg[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		l := wk.layout(deref(x.Type()))
		return func(fr *Frame) {
			fr.regs[d] = Val{R: fr.st.newObj(l.size, l.kinds)}
		}
	case *ssa.BinOp:
		return cc.binop(x, d)
	case *ssa.UnOp:
		return cc.unop(x, d)
	case *ssa.Call:
		return cc.call(x, d)
	case *ssa.Defer:
		c := &x.Call
		fnv, args := cc.callOps(c)
		return func(fr *Frame) {
			if fr.st.depth() > 0 {
				fr.st.abortMerge("defer")
			}
			fr.defers = append(fr.defers, deferRec{c, fr.get(fnv), fr.gets(args)})
		}
	case *ssa.Go:
		c := &x.Call
		fnv, args := cc.callOps(c)
		return func(fr *Frame) {
			if fr.st.depth() > 0 {
				fr.st.abortMerge("go statement")
			}
			fr.st.sched.spawn(fr, c, fr.get(fnv), fr.gets(args))
		}
	case *ssa.RunDefers:
		return func(fr *Frame) {
			fr.runDefers()
			if fr.panicking != nil {
				p := *fr.panicking
				fr.panicking = nil
				panic(p)
			}
		}
	case *ssa.ChangeInterface:
		a := op(x.X)
		return func(fr *Frame) { fr.regs[d] = fr.get(a) }
	case *ssa.ChangeType:
		a := op(x.X)
		return func(fr *Frame) { fr.regs[d] = fr.get(a) }
	case *ssa.Convert:
		return cc.convert(x.X, x.Type(), d)
	case *ssa.MultiConvert:
		return cc.convert(x.X, x.Type(), d)
	case *ssa.MakeInterface:
		a := op(x.X)
		t := x.X.Type()
		return func(fr *Frame) { fr.regs[d] = Val{R: &Iface{t, fr.get(a)}} }
	case *ssa.SliceToArrayPointer:
		a := op(x.X)
		n := deref(x.Type()).Underlying().(*types.Array).Len()
		return func(fr *Frame) {
			s := sl(fr.get(a))
			if int64(s.len) < n {
				fr.st.goPanic("cannot convert slice to array pointer")
			}
			if s.o == nil {
				fr.regs[d] = Val{}
			} else {
				fr.regs[d] = Val{R: s.o, U: uint64(s.off)}
			}
		}
	case *ssa.Extract:
		a := op(x.Tuple)
		tl := wk.layout(x.Tuple.Type())
		off, l := tl.offs[x.Index], tl.sub[x.Index]
		return func(fr *Frame) {
			c := aggOf(fr.get(a), tl.size)
			fr.regs[d] = fromFlat(c[off:off+l.size], l)
		}
	case *ssa.Field:
		a := op(x.X)
		tl := wk.layout(x.X.Type())
		off, l := tl.offs[x.Field], tl.sub[x.Field]
		return func(fr *Frame) {
			c := aggOf(fr.get(a), tl.size)
			fr.regs[d] = fromFlat(c[off:off+l.size], l)
		}
	case *ssa.FieldAddr:
		a := op(x.X)
		tl := wk.layout(deref(x.X.Type()))
		off := uint64(tl.offs[x.Field])
		return func(fr *Frame) {
			v := fr.get(a)
			if o, ok := v.R.(*Obj); ok {
				fr.regs[d] = Val{R: o, U: v.U + off}
				return
			}
			fr.regs[d] = fr.st.mapAlts(v, func(p Val) Val {
				if p.R == nil {
					fr.st.goPanic("invalid memory address or nil pointer dereference")
				}
				return Val{R: p.R, U: p.U + off}
			})
		}
	case *ssa.Index:
		return cc.index(x, d)
	case *ssa.IndexAddr:
		return cc.indexAddr(x, d)
	case *ssa.Lookup:
		return cc.lookup(x, d)
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, op(b))
		}
		return func(fr *Frame) { fr.regs[d] = Val{R: &Closure{fn: f, bind: fr.gets(bs)}} }
	case *ssa.MakeMap:
		return func(fr *Frame) {
			fr.st.nextID++
			fr.regs[d] = Val{R: &MapObj{id: fr.st.nextID, base: fr.st.makingBase, m: map[string]int{}}}
		}
	case *ssa.MakeChan:
		sz := op(x.Size)
		return func(fr *Frame) {
			n := fr.st.conc(fr.get(sz), CK{kInt, 64, true})
			fr.regs[d] = Val{R: &ChanObj{cap: int(n)}}
		}
	case *ssa.MakeSlice:
		ln, cp := op(x.Len), op(x.Cap)
		ckl, ckc := ckOf(x.Len.Type()), ckOf(x.Cap.Type())
		l := wk.layout(x.Type().Underlying().(*types.Slice).Elem())
		return func(fr *Frame) {
			n := fr.st.conc(fr.get(ln), ckl)
			m := fr.st.conc(fr.get(cp), ckc)
			if n < 0 || n > m {
				fr.st.goPanic("makeslice: len out of range")
			}
			if m > 1<<26 {
				panic(unsupported("makeslice too large"))
			}
			o := fr.st.newObj(int(m)*l.size, l.kinds)
			fr.regs[d] = Val{R: &SliceV{o, 0, int(n), int(m)}}
		}
	case *ssa.MapUpdate:
		m, k, v := op(x.Map), op(x.Key), op(x.Value)
		return func(fr *Frame) { fr.st.mapSet(fr.get(m), fr.get(k), fr.get(v)) }
	case *ssa.Range:
		a := op(x.X)
		return func(fr *Frame) {
			v := fr.get(a)
			it := &iter{}
			switch y := v.R.(type) {
			case nil:
			case string:
				it.s = []rune(y)
				for i := range y {
					it.pos = append(it.pos, i)
				}
			case *MapObj:
				fr.st.raceMap(y, false)
				for _, e := range y.ents {
					if !e.del {
						it.ents = append(it.ents, e)
					}
				}
			}
			fr.regs[d] = Val{R: it}
		}
	case *ssa.Next:
		a := op(x.Iter)
		tl := wk.layout(x.Type())
		isStr := x.IsString
		return func(fr *Frame) {
			it := fr.get(a).R.(*iter)
			c := make([]Val, tl.size)
			if isStr {
				if it.i < len(it.s) {
					c[0] = Val{U: 1}
					c[1] = Val{U: uint64(it.pos[it.i])}
					c[2] = Val{U: uint64(it.s[it.i])}
					it.i++
				}
			} else if it.i < len(it.ents) {
				e := it.ents[it.i]
				it.i++
				c[0] = Val{U: 1}
				k := appendFlat(nil, e.k, tl.sub[1])
				copy(c[tl.offs[1]:], k)
				v := appendFlat(nil, e.v, tl.sub[2])
				copy(c[tl.offs[2]:], v)
			}
			fr.regs[d] = Val{R: &Agg{c}}
		}
	case *ssa.Select:
		return cc.sel(x, d)
	case *ssa.Send:
		ch, v := op(x.Chan), op(x.X)
		return func(fr *Frame) { fr.st.sched.send(fr, fr.get(ch), fr.get(v)) }
	case *ssa.Slice:
		return cc.slice(x, d)
	case *ssa.Store:
		a, v := op(x.Addr), op(x.Val)
		l := wk.layout(x.Val.Type())
		if !l.agg && !l.cplx {
			return func(fr *Frame) {
				p := fr.get(a)
				if o, ok := p.R.(*Obj); ok && fr.st.race == nil {
					fr.st.setCell(o, int(p.U), fr.get(v))
					return
				}
				fr.st.store(p, l, fr.get(v))
			}
		}
		return func(fr *Frame) { fr.st.store(fr.get(a), l, fr.get(v)) }
	case *ssa.TypeAssert:
		return cc.typeAssert(x, d)
	}
	s := fmt.Sprintf("instruction %T", in)
	return func(fr *Frame) { panic(unsupported(s)) }
}

type iter struct {
	s    []rune
	pos  []int
	ents []mapEnt
	i    int
}

func (fr *Frame) gets(os []opnd) []Val {
	r := make([]Val, len(os))
	for i, o := range os {
		r[i] = fr.get(o)
	}
	return r
}

func sl(v Val) SliceV {
	if v.R == nil {
		return SliceV{}
	}
	s, ok := v.R.(*SliceV)
	if !ok {
		panic(unsupported(fmt.Sprintf("slice operation on %T", v.R)))
	}
	return *s
}

func (cc *compiler) binop(x *ssa.BinOp, d int32) func(fr *Frame) {
	a, b := cc.op(x.X), cc.op(x.Y)
	ck := ckOf(x.X.Type())
	w, sg := ck.w, ck.signed
	if ck.k == kOther {
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsComplex != 0 {
			return cc.cbinop(x, a, b, d)
		}
	}
	bin := func(f func(p, q uint64) uint64, g func(st *State, p, q *Term) *Term) func(fr *Frame) {
		return func(fr *Frame) {
			p, q := fr.get(a), fr.get(b)
			if p.R == nil && q.R == nil {
				fr.regs[d] = Val{U: normInt(f(p.U, q.U), w, sg)}
				return
			}
			fr.regs[d] = tval(g(fr.st, fr.st.T(p, w), fr.st.T(q, w)), sg)
		}
	}
	cmp := func(fi func(p, q Val) bool, g func(st *State, p, q Val) *Bool) func(fr *Frame) {
		return func(fr *Frame) {
			p, q := fr.get(a), fr.get(b)
			if p.R == nil && q.R == nil {
				fr.regs[d] = Val{U: b2u(fi(p, q))}
				return
			}
			fr.regs[d] = bval(g(fr.st, p, q))
		}
	}
	switch ck.k {
	case kInt:
		switch x.Op {
		case token.ADD:
			return bin(func(p, q uint64) uint64 { return p + q }, func(st *State, p, q *Term) *Term { return st.c.Add(p, q) })
		case token.SUB:
			return bin(func(p, q uint64) uint64 { return p - q }, func(st *State, p, q *Term) *Term { return st.c.Sub(p, q) })
		case token.MUL:
			return bin(func(p, q uint64) uint64 { return p * q }, func(st *State, p, q *Term) *Term { return st.c.Mul(p, q) })
		case token.AND:
			return bin(func(p, q uint64) uint64 { return p & q }, func(st *State, p, q *Term) *Term { return st.c.And(p, q) })
		case token.OR:
			return bin(func(p, q uint64) uint64 { return p | q }, func(st *State, p, q *Term) *Term { return st.c.Or(p, q) })
		case token.XOR:
			return bin(func(p, q uint64) uint64 { return p ^ q }, func(st *State, p, q *Term) *Term { return st.c.Xor(p, q) })
		case token.AND_NOT:
			return bin(func(p, q uint64) uint64 { return p &^ q }, func(st *State, p, q *Term) *Term {
				return st.c.And(p, st.c.Xor(q, st.c.Const(-1, q.w)))
			})
		case token.QUO, token.REM:
			rem := x.Op == token.REM
			return func(fr *Frame) {
				st := fr.st
				p, q := fr.get(a), fr.get(b)
				if q.R != nil {
					t := st.c.resolve(q.R.(*Term))
					q = tval(t, sg)
				}
				if q.R == nil && q.U == 0 || q.R != nil && st.forkOn(st.c.EqC(q.R.(*Term), 0), "divide by zero") {
					st.goPanic("integer divide by zero")
				}
				if p.R == nil && q.R == nil {
					var r uint64
					switch {
					case sg && !rem:
						if int64(q.U) == -1 {
							r = -p.U
						} else {
							r = uint64(int64(p.U) / int64(q.U))
						}
					case sg:
						if int64(q.U) == -1 {
							r = 0
						} else {
							r = uint64(int64(p.U) % int64(q.U))
						}
					case !rem:
						r = p.U / q.U
					default:
						r = p.U % q.U
					}
					fr.regs[d] = Val{U: normInt(r, w, sg)}
					return
				}
				pt, qt := st.c.resolve(st.T(p, w)), st.T(q, w)
				var r *Term
				switch {
				case sg && !rem:
					r = st.c.SDiv(pt, qt)
				case sg:
					r = st.c.SRem(pt, qt)
				case !rem:
					r = st.c.UDiv(pt, qt)
				default:
					r = st.c.URem(pt, qt)
				}
				fr.regs[d] = tval(r, sg)
			}
		case token.SHL, token.SHR:
			ck2 := ckOf(x.Y.Type())
			shl := x.Op == token.SHL
			return func(fr *Frame) {
				st := fr.st
				p, q := fr.get(a), fr.get(b)
				if q.R != nil {
					t := st.c.resolve(q.R.(*Term))
					if !t.isConst() {
						if lo, hi, _ := t.urange(); hi-lo <= 64 && p.R == nil || hi-lo <= 8 {
							// ite chain
							var acc *Term
							pt := st.T(p, w)
							for k := lo; ; k++ {
								v := st.shiftC(pt, k, shl, sg)
								if acc == nil {
									acc = v
								} else {
									acc = st.c.Ite(st.c.EqC(t, int64(k)), v, acc)
								}
								if k == hi {
									break
								}
							}
							fr.regs[d] = tval(acc, sg)
							return
						}
						q = Val{U: uint64(st.conc(Val{R: t}, ck2))}
					} else {
						q = tval(t, ck2.signed)
					}
				}
				if ck2.signed && int64(q.U) < 0 {
					st.goPanic("negative shift amount")
				}
				if p.R == nil {
					var r uint64
					if shl {
						if q.U < 64 {
							r = p.U << q.U
						}
					} else if sg {
						r = uint64(int64(p.U) >> min(q.U, 63))
					} else if q.U < 64 {
						r = p.U >> q.U
					}
					fr.regs[d] = Val{U: normInt(r, w, sg)}
					return
				}
				fr.regs[d] = tval(st.shiftC(st.T(p, w), q.U, shl, sg), sg)
			}
		case token.EQL:
			return cmp(func(p, q Val) bool { return p.U == q.U }, func(st *State, p, q Val) *Bool { return st.c.Eq(st.rT(p, w), st.rT(q, w)) })
		case token.NEQ:
			return cmp(func(p, q Val) bool { return p.U != q.U }, func(st *State, p, q Val) *Bool { return st.c.Not(st.c.Eq(st.rT(p, w), st.rT(q, w))) })
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			swap := x.Op == token.GTR || x.Op == token.LEQ
			neg := x.Op == token.LEQ || x.Op == token.GEQ
			return cmp(func(p, q Val) bool {
				if swap {
					p, q = q, p
				}
				var r bool
				if sg {
					r = int64(p.U) < int64(q.U)
				} else {
					r = p.U < q.U
				}
				return r != neg
			}, func(st *State, p, q Val) *Bool {
				if swap {
					p, q = q, p
				}
				var r *Bool
				if sg {
					r = st.c.SLt(st.rT(p, w), st.rT(q, w))
				} else {
					r = st.c.ULt(st.rT(p, w), st.rT(q, w))
				}
				if neg {
					r = st.c.Not(r)
				}
				return r
			})
		}
	case kBool:
		switch x.Op {
		case token.EQL:
			return cmp(func(p, q Val) bool { return p.U == q.U }, func(st *State, p, q Val) *Bool { return st.c.Not(st.c.XorB(st.B(p), st.B(q))) })
		case token.NEQ:
			return cmp(func(p, q Val) bool { return p.U != q.U }, func(st *State, p, q Val) *Bool { return st.c.XorB(st.B(p), st.B(q)) })
		case token.AND, token.LAND:
			return cmp(func(p, q Val) bool { return p.U&q.U != 0 }, func(st *State, p, q Val) *Bool { return st.c.AndB(st.B(p), st.B(q)) })
		case token.OR, token.LOR:
			return cmp(func(p, q Val) bool { return p.U|q.U != 0 }, func(st *State, p, q Val) *Bool { return st.c.OrB(st.B(p), st.B(q)) })
		}
	case kF64:
		f2 := func(f func(p, q float64) float64, g func(st *State, p, q *FNode) *FNode) func(fr *Frame) {
			return func(fr *Frame) {
				p, q := fr.get(a), fr.get(b)
				if p.R == nil && q.R == nil {
					fr.regs[d] = Val{U: math.Float64bits(f(math.Float64frombits(p.U), math.Float64frombits(q.U)))}
					return
				}
				fr.regs[d] = fval(g(fr.st, fr.st.F(p), fr.st.F(q)))
			}
		}
		fc := func(f func(p, q float64) bool, g func(st *State, p, q *FNode) *Bool) func(fr *Frame) {
			return cmp(func(p, q Val) bool { return f(math.Float64frombits(p.U), math.Float64frombits(q.U)) },
				func(st *State, p, q Val) *Bool { return g(st, st.F(p), st.F(q)) })
		}
		switch x.Op {
		case token.ADD:
			return f2(func(p, q float64) float64 { return p + q }, func(st *State, p, q *FNode) *FNode { return st.c.FAdd(p, q, 1) })
		case token.SUB:
			return f2(func(p, q float64) float64 { return p - q }, func(st *State, p, q *FNode) *FNode { return st.c.FAdd(p, q, -1) })
		case token.MUL:
			return f2(func(p, q float64) float64 { return p * q }, func(st *State, p, q *FNode) *FNode { return st.c.FMul(p, q) })
		case token.QUO:
			return f2(func(p, q float64) float64 { return p / q }, func(st *State, p, q *FNode) *FNode { return st.c.FDiv(p, q) })
		case token.EQL:
			return fc(func(p, q float64) bool { return p == q }, func(st *State, p, q *FNode) *Bool { return st.c.FCmp(REq, p, q) })
		case token.NEQ:
			return fc(func(p, q float64) bool { return p != q }, func(st *State, p, q *FNode) *Bool { return st.c.Not(st.c.FCmp(REq, p, q)) })
		case token.LSS:
			return fc(func(p, q float64) bool { return p < q }, func(st *State, p, q *FNode) *Bool { return st.c.FCmp(RLt, p, q) })
		case token.LEQ:
			return fc(func(p, q float64) bool { return p <= q }, func(st *State, p, q *FNode) *Bool { return st.c.FCmp(RLe, p, q) })
		case token.GTR:
			return fc(func(p, q float64) bool { return p > q }, func(st *State, p, q *FNode) *Bool { return st.c.FCmp(RLt, q, p) })
		case token.GEQ:
			return fc(func(p, q float64) bool { return p >= q }, func(st *State, p, q *FNode) *Bool { return st.c.FCmp(RLe, q, p) })
		}
	case kF32:
		return func(fr *Frame) {
			p, q := fr.get(a), fr.get(b)
			if p.R != nil || q.R != nil {
				panic(unsupported("symbolic float32"))
			}
			u, v := math.Float32frombits(uint32(p.U)), math.Float32frombits(uint32(q.U))
			r := func(f float32) { fr.regs[d] = Val{U: uint64(math.Float32bits(f))} }
			bb := func(f bool) { fr.regs[d] = Val{U: b2u(f)} }
			switch x.Op {
			case token.ADD:
				r(u + v)
			case token.SUB:
				r(u - v)
			case token.MUL:
				r(u * v)
			case token.QUO:
				r(u / v)
			case token.EQL:
				bb(u == v)
			case token.NEQ:
				bb(u != v)
			case token.LSS:
				bb(u < v)
			case token.LEQ:
				bb(u <= v)
			case token.GTR:
				bb(u > v)
			case token.GEQ:
				bb(u >= v)
			}
		}
	case kStr:
		return func(fr *Frame) {
			if s := anySymStr(fr.get(a), fr.get(b)); s != nil {
				fr.regs[d] = Val{R: s}
				return
			}
			p, q := str(fr.get(a)), str(fr.get(b))
			var r bool
			switch x.Op {
			case token.ADD:
				fr.regs[d] = Val{R: p + q}
				return
			case token.EQL:
				r = p == q
			case token.NEQ:
				r = p != q
			case token.LSS:
				r = p < q
			case token.LEQ:
				r = p <= q
			case token.GTR:
				r = p > q
			case token.GEQ:
				r = p >= q
			}
			fr.regs[d] = Val{U: b2u(r)}
		}
	}
	if x.Op == token.EQL || x.Op == token.NEQ {
		t := x.X.Type()
		l := cc.wk.layout(t)
		return func(fr *Frame) {
			r := fr.st.equal(fr.get(a), fr.get(b), l, t)
			if x.Op == token.NEQ {
				r = fr.st.c.Not(r)
			}
			fr.regs[d] = bval(r)
		}
	}
	return func(fr *Frame) { panic(unsupported("binop " + x.Op.String() + " on " + x.X.Type().String())) }
}

func (st *State) rT(v Val, w uint8) *Term { return st.c.resolve(st.T(v, w)) }

func (st *State) shiftC(t *Term, k uint64, shl, sg bool) *Term {
	if shl {
		return st.c.ShlC(t, k)
	}
	if sg {
		return st.c.SarC(t, k)
	}
	return st.c.ShrC(t, k)
}

// equal compares two values of the same type.
func (st *State) equal(p, q Val, l *Layout, t types.Type) *Bool {
	c := st.c
	if l.agg || l.cplx {
		pf, qf := appendFlat(nil, p, l), appendFlat(nil, q, l)
		r := c.True
		for i := range pf {
			r = c.AndB(r, st.eqCell(pf[i], qf[i], l.kinds[i]))
		}
		return r
	}
	return st.eqCell(p, q, l.kinds[0])
}

func (st *State) eqCell(p, q Val, k CK) *Bool {
	c := st.c
	switch k.k {
	case kInt:
		return c.Eq(st.rT(p, k.w), st.rT(q, k.w))
	case kBool:
		return c.Not(c.XorB(st.B(p), st.B(q)))
	case kF64:
		if p.R == nil && q.R == nil {
			return c.Bool(math.Float64frombits(p.U) == math.Float64frombits(q.U))
		}
		return c.FCmp(REq, st.F(p), st.F(q))
	case kStr:
		return c.Bool(str(p) == str(q))
	case kIface:
		if p.R == nil || q.R == nil {
			return c.Bool(p.R == nil && q.R == nil)
		}
		a, b := p.R.(*Iface), q.R.(*Iface)
		if !types.Identical(a.t, b.t) {
			return c.False
		}
		return st.equal(a.v, b.v, st.wk.layout(a.t), a.t)
	case kPtr:
		if g, ok := p.R.(*GVal); ok {
			r := c.False
			for _, a := range g.alts {
				r = c.OrB(r, c.AndB(a.g, st.eqCell(a.v, q, k)))
			}
			return r
		}
		if _, ok := q.R.(*GVal); ok {
			return st.eqCell(q, p, k)
		}
		if p.R == nil || q.R == nil {
			return c.Bool(p.R == nil && q.R == nil)
		}
		return c.Bool(p.R == q.R && p.U == q.U)
	case kSlice:
		if g, ok := p.R.(*GVal); ok {
			r := c.False
			for _, a := range g.alts {
				r = c.OrB(r, c.AndB(a.g, st.eqCell(a.v, q, k)))
			}
			return r
		}
		return c.Bool(p.R == nil && q.R == nil)
	}
	if p.R == nil || q.R == nil {
		return c.Bool(p.R == nil && q.R == nil)
	}
	return c.Bool(p.R == q.R)
}

func (cc *compiler) cbinop(x *ssa.BinOp, a, b opnd, d int32) func(fr *Frame) {
	return func(fr *Frame) {
		p, q := cparts(fr.get(a)), cparts(fr.get(b))
		st := fr.st
		add := func(u, v Val, s float64) Val {
			if u.R == nil && v.R == nil {
				return fv(math.Float64frombits(u.U) + s*math.Float64frombits(v.U))
			}
			return fval(st.c.FAdd(st.F(u), st.F(v), s))
		}
		mul := func(u, v Val) Val {
			if u.R == nil && v.R == nil {
				return fv(math.Float64frombits(u.U) * math.Float64frombits(v.U))
			}
			return fval(st.c.FMul(st.F(u), st.F(v)))
		}
		var r [2]Val
		switch x.Op {
		case token.ADD:
			r = [2]Val{add(p[0], q[0], 1), add(p[1], q[1], 1)}
		case token.SUB:
			r = [2]Val{add(p[0], q[0], -1), add(p[1], q[1], -1)}
		case token.MUL:
			r = [2]Val{add(mul(p[0], q[0]), mul(p[1], q[1]), -1), add(mul(p[0], q[1]), mul(p[1], q[0]), 1)}
		case token.QUO:
			z := complex(fb(p[0]), fb(p[1])) / complex(fb(q[0]), fb(q[1]))
			r = [2]Val{fv(real(z)), fv(imag(z))}
		case token.EQL, token.NEQ:
			e := st.c.AndB(st.eqCell(p[0], q[0], CK{kF64, 64, true}), st.eqCell(p[1], q[1], CK{kF64, 64, true}))
			if x.Op == token.NEQ {
				e = st.c.Not(e)
			}
			fr.regs[d] = bval(e)
			return
		}
		fr.regs[d] = Val{R: &r}
	}
}

func (cc *compiler) unop(x *ssa.UnOp, d int32) func(fr *Frame) {
	a := cc.op(x.X)
	switch x.Op {
	case token.MUL:
		l := cc.wk.layout(x.Type())
		if !l.agg && !l.cplx {
			return func(fr *Frame) {
				p := fr.get(a)
				if o, ok := p.R.(*Obj); ok && fr.st.race == nil {
					fr.regs[d] = o.cells[p.U]
					return
				}
				fr.regs[d] = fr.st.load(p, l)
			}
		}
		return func(fr *Frame) { fr.regs[d] = fr.st.load(fr.get(a), l) }
	case token.NOT:
		return func(fr *Frame) {
			v := fr.get(a)
			if v.R == nil {
				fr.regs[d] = Val{U: v.U ^ 1}
			} else {
				fr.regs[d] = bval(fr.st.c.Not(v.R.(*Bool)))
			}
		}
	case token.SUB:
		l := cc.wk.layout(x.Type())
		ck := ckOf(x.Type())
		return func(fr *Frame) {
			v := fr.get(a)
			if l.cplx {
				p := cparts(v)
				n := func(u Val) Val {
					if u.R == nil {
						return fv(-math.Float64frombits(u.U))
					}
					return fval(fr.st.c.FNeg(u.R.(*FNode)))
				}
				fr.regs[d] = Val{R: &[2]Val{n(p[0]), n(p[1])}}
				return
			}
			switch ck.k {
			case kInt:
				if v.R == nil {
					fr.regs[d] = Val{U: normInt(-v.U, ck.w, ck.signed)}
				} else {
					fr.regs[d] = tval(fr.st.c.Neg(v.R.(*Term)), ck.signed)
				}
			case kF64:
				if v.R == nil {
					fr.regs[d] = fv(-math.Float64frombits(v.U))
				} else {
					fr.regs[d] = fval(fr.st.c.FNeg(v.R.(*FNode)))
				}
			case kF32:
				fr.regs[d] = Val{U: uint64(math.Float32bits(-math.Float32frombits(uint32(v.U))))}
			}
		}
	case token.XOR:
		ck := ckOf(x.Type())
		return func(fr *Frame) {
			v := fr.get(a)
			if v.R == nil {
				fr.regs[d] = Val{U: normInt(^v.U, ck.w, ck.signed)}
			} else {
				t := v.R.(*Term)
				fr.regs[d] = tval(fr.st.c.Xor(t, fr.st.c.Const(-1, t.w)), ck.signed)
			}
		}
	case token.ARROW:
		commaOk := x.CommaOk
		l := cc.wk.layout(x.X.Type().Underlying().(*types.Chan).Elem())
		return func(fr *Frame) {
			v, ok := fr.st.sched.recv(fr, fr.get(a))
			if commaOk {
				c := appendFlat(nil, v, l)
				fr.regs[d] = Val{R: &Agg{append(c, Val{U: b2u(ok)})}}
			} else {
				fr.regs[d] = v
			}
		}
	}
	return func(fr *Frame) { panic(unsupported("unop " + x.Op.String())) }
}

func (cc *compiler) convert(xv ssa.Value, to types.Type, d int32) func(fr *Frame) {
	a := cc.op(xv)
	from := xv.Type()
	f, t := ckOf(from), ckOf(to)
	switch {
	case f.k == kInt && t.k == kInt:
		return func(fr *Frame) {
			v := fr.get(a)
			if v.R == nil {
				fr.regs[d] = Val{U: normInt(v.U, t.w, t.signed)}
				return
			}
			x := v.R.(*Term)
			c := fr.st.c
			if c.hasBound(x) {
				x = c.resolve(x)
			}
			if t.w <= f.w {
				x = c.Trunc(x, t.w)
			} else if f.signed {
				x = c.SExt(x, t.w)
			} else {
				x = c.ZExt(x, t.w)
			}
			fr.regs[d] = tval(x, t.signed)
		}
	case f.k == kInt && t.k == kF64:
		return func(fr *Frame) {
			v := fr.get(a)
			if v.R == nil {
				if f.signed {
					fr.regs[d] = fv(float64(int64(v.U)))
				} else {
					fr.regs[d] = fv(float64(v.U))
				}
				return
			}
			fr.regs[d] = fval(fr.st.c.IntToF(fr.st.rT(v, f.w), f.signed))
		}
	case f.k == kF64 && t.k == kInt:
		return func(fr *Frame) {
			v := fr.get(a)
			if v.R == nil {
				x := math.Float64frombits(v.U)
				var u uint64
				if t.signed {
					switch t.w {
					case 64:
						u = uint64(int64(x))
					case 32:
						u = uint64(int32(x))
					case 16:
						u = uint64(int16(x))
					default:
						u = uint64(int8(x))
					}
				} else {
					switch t.w {
					case 64:
						u = uint64(x)
					case 32:
						u = uint64(uint32(x))
					case 16:
						u = uint64(uint16(x))
					default:
						u = uint64(uint8(x))
					}
				}
				fr.regs[d] = Val{U: normInt(u, t.w, t.signed)}
				return
			}
			n := fr.st.c.FRoundOp(FTrunc, v.R.(*FNode))
			lo, hi := n.rng()
			if t.signed && (lo >= 1<<63 || hi < -1<<63) {
				k := int64(-1 << 63)
				if t.w < 64 {
					k = -1 << 31
				}
				fr.regs[d] = Val{U: normInt(uint64(k), t.w, true)}
				return
			}
			if lo < -9.2e18 || hi > 9.2e18 {
				panic(unsupported("float to integer conversion out of range"))
			}
			if !t.signed && t.w == 64 && lo < 0 {
				panic(unsupported("negative float to unsigned conversion"))
			}
			if t.w < 64 && t.signed && (lo < -math.Exp2(float64(t.w-1)) || hi >= math.Exp2(float64(t.w-1))) {
				// amd64: conversion goes through 32 bits; out of range gives the lowest
				c := fr.st.c
				x, ok := c.FToTerm(n, 64)
				if !ok {
					panic(unsupported("float to integer conversion"))
				}
				in := c.ULt(c.AddC(x, 1<<31), c.Const(1<<32, 64))
				r := c.Ite(in, c.Trunc(x, 32), c.Const(-1<<31, 32))
				if t.w < 32 {
					r = c.Trunc(r, t.w)
				}
				fr.regs[d] = tval(r, t.signed)
				return
			}
			x, ok := fr.st.c.FToTerm(n, t.w)
			if !ok {
				panic(unsupported("float to integer conversion"))
			}
			fr.regs[d] = tval(x, t.signed)
		}
	case f.k == kF64 && t.k == kF64, f.k == kF32 && t.k == kF32, f.k == kStr && t.k == kStr:
		return func(fr *Frame) { fr.regs[d] = fr.get(a) }
	case f.k == kF64 && t.k == kF32:
		return func(fr *Frame) {
			fr.regs[d] = Val{U: uint64(math.Float32bits(float32(fb(fr.get(a)))))}
		}
	case f.k == kF32 && t.k == kF64:
		return func(fr *Frame) {
			fr.regs[d] = fv(float64(math.Float32frombits(uint32(fr.get(a).U))))
		}
	case f.k == kInt && t.k == kF32:
		return func(fr *Frame) {
			v := fr.get(a)
			if v.R != nil {
				panic(unsupported("symbolic float32"))
			}
			if f.signed {
				fr.regs[d] = Val{U: uint64(math.Float32bits(float32(int64(v.U))))}
			} else {
				fr.regs[d] = Val{U: uint64(math.Float32bits(float32(v.U)))}
			}
		}
	case f.k == kPtr && t.k == kInt:
		return func(fr *Frame) { fr.regs[d] = Val{U: addrOf(fr.get(a))} }
	case f.k == kPtr && t.k == kPtr:
		if p, ok := to.Underlying().(*types.Pointer); ok {
			l := cc.wk.layout(p.Elem())
			return func(fr *Frame) {
				v := fr.get(a)
				o, ok := v.R.(*Obj)
				if !ok {
					if v.R == nil {
						fr.regs[d] = v
						return
					}
					panic(unsupported("unsafe conversion of a guarded pointer"))
				}
				for i := 0; i < l.size; i++ {
					if int(v.U)+i >= len(o.cells) {
						if i == 0 {
							panic(unsupported("unsafe pointer outside object"))
						}
						break
					}
					if k := o.kind(int(v.U) + i); k != l.kinds[i] {
						panic(unsupported("unsafe reinterpretation of memory"))
					}
				}
				fr.regs[d] = v
			}
		}
		return func(fr *Frame) { fr.regs[d] = fr.get(a) }
	case f.k == kStr && t.k == kSlice:
		el := ckOf(to.Underlying().(*types.Slice).Elem())
		return func(fr *Frame) {
			s := str(fr.get(a))
			var c []Val
			if el.w == 8 {
				for i := 0; i < len(s); i++ {
					c = append(c, Val{U: uint64(s[i])})
				}
			} else {
				for _, r := range s {
					c = append(c, Val{U: uint64(r)})
				}
			}
			o := fr.st.newObj(len(c), []CK{el})
			copy(o.cells, c)
			fr.regs[d] = Val{R: &SliceV{o, 0, len(c), len(c)}}
		}
	case f.k == kSlice && t.k == kStr:
		el := ckOf(from.Underlying().(*types.Slice).Elem())
		return func(fr *Frame) {
			s := sl(fr.get(a))
			var b []byte
			for i := 0; i < s.len; i++ {
				v := s.o.cells[s.off+i]
				if v.R != nil {
					panic(unsupported("symbolic string"))
				}
				if el.w == 8 {
					b = append(b, byte(v.U))
				} else {
					b = append(b, string(rune(v.U))...)
				}
			}
			fr.regs[d] = Val{R: string(b)}
		}
	case f.k == kInt && t.k == kStr:
		return func(fr *Frame) {
			v := fr.get(a)
			if v.R != nil {
				panic(unsupported("symbolic string"))
			}
			fr.regs[d] = Val{R: string(rune(v.U))}
		}
	}
	if l1, l2 := cc.wk.layout(from), cc.wk.layout(to); l1.cplx && l2.cplx {
		return func(fr *Frame) { fr.regs[d] = fr.get(a) }
	}
	s := "conversion " + from.String() + " to " + to.String()
	return func(fr *Frame) { panic(unsupported(s)) }
}

func (c *Ctx) hasBound(t *Term) bool {
	for _, m := range t.ms {
		for _, a := range m.atoms {
			if a.bound {
				return true
			}
		}
	}
	return false
}

// indexAlts returns the possible index values, or a concrete index.
func (st *State) indexVal(v Val, ck CK, n int) (int, *Term) {
	if v.R == nil {
		i := int64(v.U)
		if i < 0 || i >= int64(n) {
			st.goPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t := st.c.resolve(v.R.(*Term))
	if t.isConst() {
		i := int64(normInt(uint64(t.c0), ck.w, ck.signed))
		if i < 0 || i >= int64(n) {
			st.goPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	var inb *Bool
	if ck.signed {
		inb = st.c.AndB(st.c.Not(st.c.SLt(t, st.c.Const(0, t.w))), st.c.SLt(t, st.c.Const(int64(n), t.w)))
	} else if t.w < 63 && int64(n) > int64(umask(t.w)) {
		inb = st.c.True
	} else {
		inb = st.c.ULt(t, st.c.Const(int64(n), t.w))
	}
	if inb = st.simp(inb); inb != st.c.True {
		if st.depth() > 0 {
			// cannot decide here unless the guard makes it impossible
			if st.feasible(st.c.Not(inb)) {
				st.abortMerge("possibly out of range index")
			}
		} else if !st.forkOn(inb, "index") {
			st.goPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
		}
		t = st.c.resolve(t)
		if t.isConst() {
			return int(t.c0), nil
		}
	}
	return 0, t
}

const maxAlts = 512

// enumIndex lists candidate values of a symbolic index.
func (st *State) enumIndex(t *Term, n int) ([]int, bool) {
	set := map[*Atom]bool{}
	st.termAtoms(t, set)
	if len(set) == 1 {
		for a := range set {
			if a.kind != AReal && !a.big && a.hi-a.lo < maxAlts && len(t.ms) == 1 && len(t.ms[0].atoms) == 1 {
				var r []int
				for v := a.lo; v <= a.hi; v++ {
					x := canon(t.cs[0]*v+t.c0, t.w)
					if x >= 0 && x < int64(n) {
						r = append(r, int(x))
					}
				}
				return r, true
			}
		}
	}
	lo, hi, _ := t.srange()
	if lo < 0 {
		lo = 0
	}
	if hi >= int64(n) {
		hi = int64(n) - 1
	}
	if hi-lo < maxAlts {
		var r []int
		for v := lo; v <= hi; v++ {
			r = append(r, int(v))
		}
		return r, true
	}
	return nil, false
}

func (cc *compiler) indexAddr(x *ssa.IndexAddr, d int32) func(fr *Frame) {
	a, i := cc.op(x.X), cc.op(x.Index)
	ck := ckOf(x.Index.Type())
	arr := -1
	var el types.Type
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		el = u.Elem()
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		arr = int(at.Len())
		el = at.Elem()
	}
	esz := cc.wk.layout(el).size
	return func(fr *Frame) {
		st := fr.st
		b := fr.get(a)
		iv := fr.get(i)
		if s, ok := b.R.(*SliceV); ok && iv.R == nil { // fast path
			if iv.U >= uint64(s.len) {
				st.goPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.U), s.len))
			}
			fr.regs[d] = Val{R: s.o, U: uint64(s.off + int(iv.U)*esz)}
			return
		}
		fr.regs[d] = st.mapAlts(b, func(b Val) Val {
			var o *Obj
			var off, n int
			if arr >= 0 {
				n = arr
				if b.R == nil {
					st.goPanic("invalid memory address or nil pointer dereference")
				}
				o, off = b.R.(*Obj), int(b.U)
			} else {
				s := sl(b)
				o, off, n = s.o, s.off, s.len
			}
			k, t := st.indexVal(iv, ck, n)
			if t == nil {
				return Val{R: o, U: uint64(off + k*esz)}
			}
			if _, g := b.R.(*GVal); g {
				st.abortMerge("nested guarded index")
			}
			vals, ok := st.enumIndex(t, n)
			if !ok {
				k := st.conc(Val{R: t}, ck)
				return Val{R: o, U: uint64(off + int(k)*esz)}
			}
			alts := make([]Alt, 0, len(vals))
			for _, v := range vals {
				g := st.simp(st.c.EqC(t, int64(v)))
				if g == st.c.False {
					continue
				}
				alts = append(alts, Alt{g, Val{R: o, U: uint64(off + v*esz)}})
			}
			if len(alts) == 1 {
				return alts[0].v
			}
			return Val{R: &GVal{alts}}
		})
		// flatten nested guards
		if g, ok := fr.regs[d].R.(*GVal); ok {
			fr.regs[d] = st.flatten(g)
		}
	}
}

func (st *State) flatten(g *GVal) Val {
	nested := false
	for _, a := range g.alts {
		if _, ok := a.v.R.(*GVal); ok {
			nested = true
		}
	}
	if !nested {
		return Val{R: g}
	}
	var alts []Alt
	for _, a := range g.alts {
		if h, ok := a.v.R.(*GVal); ok {
			for _, b := range h.alts {
				if x := st.c.AndB(a.g, b.g); x != st.c.False {
					alts = append(alts, Alt{x, b.v})
				}
			}
		} else {
			alts = append(alts, a)
		}
	}
	if len(alts) > 4096 {
		st.abortMerge("too many alternatives")
	}
	return Val{R: &GVal{alts}}
}

func (st *State) pickAlt(p Val) Val {
	for {
		g, ok := p.R.(*GVal)
		if !ok {
			return p
		}
		var alts []Alt
		for _, a := range g.alts {
			s := st.simp(a.g)
			if s == st.c.True {
				return a.v
			}
			if s != st.c.False {
				alts = append(alts, a)
			}
		}
		if len(alts) == 0 {
			panic(pathEnd{"infeasible"})
		}
		if len(alts) == 1 {
			return alts[0].v
		}
		if st.forkOn(alts[0].g, "alternative") {
			return alts[0].v
		}
		p = Val{R: &GVal{alts[1:]}}
	}
}

func (cc *compiler) index(x *ssa.Index, d int32) func(fr *Frame) {
	a, i := cc.op(x.X), cc.op(x.Index)
	ck := ckOf(x.Index.Type())
	if ckOf(x.X.Type()).k == kStr {
		return func(fr *Frame) {
			s := str(fr.get(a))
			k := fr.st.conc(fr.get(i), ck)
			if k < 0 || k >= int64(len(s)) {
				fr.st.goPanic("index out of range")
			}
			fr.regs[d] = Val{U: uint64(s[k])}
		}
	}
	al := cc.wk.layout(x.X.Type())
	n := int(x.X.Type().Underlying().(*types.Array).Len())
	el := al.elem
	return func(fr *Frame) {
		st := fr.st
		c := aggOf(fr.get(a), al.size)
		k, t := st.indexVal(fr.get(i), ck, n)
		if t == nil {
			fr.regs[d] = fromFlat(c[k*el.size:(k+1)*el.size], el)
			return
		}
		vals, ok := st.enumIndex(t, n)
		if !ok {
			k := int(st.conc(Val{R: t}, ck))
			fr.regs[d] = fromFlat(c[k*el.size:(k+1)*el.size], el)
			return
		}
		var r Val
		for j := len(vals) - 1; j >= 0; j-- {
			k := vals[j]
			v := fromFlat(c[k*el.size:(k+1)*el.size], el)
			if j == len(vals)-1 {
				r = v
			} else {
				r = st.mergeReg(st.c.EqC(t, int64(k)), el, v, r)
			}
		}
		fr.regs[d] = r
	}
}

func (cc *compiler) slice(x *ssa.Slice, d int32) func(fr *Frame) {
	a := cc.op(x.X)
	var lo, hi, mx opnd
	var ckl, ckh, ckm CK
	if x.Low != nil {
		lo, ckl = cc.op(x.Low), ckOf(x.Low.Type())
	}
	if x.High != nil {
		hi, ckh = cc.op(x.High), ckOf(x.High.Type())
	}
	if x.Max != nil {
		mx, ckm = cc.op(x.Max), ckOf(x.Max.Type())
	}
	isStr := ckOf(x.X.Type()).k == kStr
	arr := -1
	var esz int
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		esz = cc.wk.layout(u.Elem()).size
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		arr = int(at.Len())
		esz = cc.wk.layout(at.Elem()).size
	}
	return func(fr *Frame) {
		st := fr.st
		get := func(o opnd, ck CK, present bool, def int) int {
			if !present {
				return def
			}
			return int(st.conc(fr.get(o), ck))
		}
		v := fr.get(a)
		if isStr {
			s := str(v)
			l := get(lo, ckl, x.Low != nil, 0)
			h := get(hi, ckh, x.High != nil, len(s))
			if l < 0 || h < l || h > len(s) {
				st.goPanic("slice bounds out of range")
			}
			fr.regs[d] = Val{R: s[l:h]}
			return
		}
		fr.regs[d] = st.mapAlts(v, func(v Val) Val {
			var s SliceV
			if arr >= 0 {
				if v.R == nil {
					st.goPanic("invalid memory address or nil pointer dereference")
				}
				s = SliceV{v.R.(*Obj), int(v.U), arr, arr}
			} else {
				s = sl(v)
			}
			l := get(lo, ckl, x.Low != nil, 0)
			h := get(hi, ckh, x.High != nil, s.len)
			m := get(mx, ckm, x.Max != nil, s.cap)
			if l < 0 || h < l || m < h || m > s.cap {
				st.goPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, s.cap))
			}
			if s.o == nil {
				return Val{}
			}
			return Val{R: &SliceV{s.o, s.off + l*esz, h - l, m - l}}
		})
	}
}

func anySymStr(vs ...Val) *symStr {
	for _, v := range vs {
		if s, ok := v.R.(*symStr); ok {
			return s
		}
	}
	return nil
}

func (st *State) raceMap(m *MapObj, write bool) {
	if st.race == nil {
		return
	}
	if m.ro == nil {
		m.ro = &Obj{cells: make([]Val, 1), base: m.base}
	}
	if write {
		st.race.write(m.ro, 0, 1)
	} else {
		st.race.read(m.ro, 0, 1)
	}
}

// concKey makes every symbolic word of a map key concrete.
func (st *State) concKey(k Val) Val {
	switch x := k.R.(type) {
	case *Term:
		return Val{U: uint64(st.conc(k, CK{kInt, x.w, true})) & umask(x.w)}
	case *Bool:
		return Val{U: b2u(st.forkOn(x, "map key"))}
	case *Iface:
		return Val{R: &Iface{x.t, st.concKey(x.v)}}
	case *Agg:
		c := make([]Val, len(x.c))
		for i := range c {
			c[i] = st.concKey(x.c[i])
		}
		return Val{R: &Agg{c}}
	case *GVal:
		return st.pickAlt(k)
	}
	return k
}

func keyOf(v Val) string {
	switch x := v.R.(type) {
	case nil:
		return fmt.Sprintf("i%d", v.U)
	case string:
		return "s" + x
	case *Obj:
		return fmt.Sprintf("p%p.%d", x, v.U)
	case *Iface:
		return "I" + x.t.String() + "|" + keyOf(x.v)
	case *Agg:
		s := "{"
		for _, c := range x.c {
			s += keyOf(c) + ","
		}
		return s
	case *[2]Val:
		return keyOf(x[0]) + "," + keyOf(x[1])
	}
	panic(unsupported(fmt.Sprintf("map key %T", v.R)))
}

func (st *State) mapSet(m, k, v Val) {
	if m.R == nil {
		st.goPanic("assignment to entry in nil map")
	}
	mo := m.R.(*MapObj)
	k = st.concKey(k)
	st.raceMap(mo, true)
	key := keyOf(k)
	logit := mo.base && !st.makingBase || mo.id < st.logBelow
	if i, ok := mo.m[key]; ok {
		old := mo.ents[i].v
		mo.ents[i].v = v
		if logit {
			st.trail = append(st.trail, trailEnt{fn: func() { mo.ents[i].v = old }})
		}
		return
	}
	mo.m[key] = len(mo.ents)
	mo.ents = append(mo.ents, mapEnt{k: k, v: v})
	mo.n++
	if logit {
		st.trail = append(st.trail, trailEnt{fn: func() {
			delete(mo.m, key)
			mo.ents = mo.ents[:len(mo.ents)-1]
			mo.n--
		}})
	}
}

func (st *State) mapDelete(m, k Val) {
	if m.R == nil {
		return
	}
	mo := m.R.(*MapObj)
	k = st.concKey(k)
	st.raceMap(mo, true)
	key := keyOf(k)
	if i, ok := mo.m[key]; ok {
		delete(mo.m, key)
		mo.ents[i].del = true
		mo.n--
		if mo.base && !st.makingBase || mo.id < st.logBelow {
			st.trail = append(st.trail, trailEnt{fn: func() { mo.m[key] = i; mo.ents[i].del = false; mo.n++ }})
		}
	}
}

func (cc *compiler) lookup(x *ssa.Lookup, d int32) func(fr *Frame) {
	a, i := cc.op(x.X), cc.op(x.Index)
	ck := ckOf(x.Index.Type())
	if ckOf(x.X.Type()).k == kStr {
		return func(fr *Frame) {
			s := str(fr.get(a))
			k := fr.st.conc(fr.get(i), ck)
			if k < 0 || k >= int64(len(s)) {
				fr.st.goPanic("index out of range")
			}
			fr.regs[d] = Val{U: uint64(s[k])}
		}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	l := cc.wk.layout(mt.Elem())
	return func(fr *Frame) {
		var v Val
		ok := false
		m := fr.get(a)
		k := fr.get(i)
		k = fr.st.concKey(k)
		if m.R != nil {
			mo := m.R.(*MapObj)
			fr.st.raceMap(mo, false)
			if j, o := mo.m[keyOf(k)]; o {
				v, ok = mo.ents[j].v, true
			}
		}
		if !ok && l.agg {
			v = Val{R: &Agg{make([]Val, l.size)}}
		}
		if x.CommaOk {
			c := appendFlat(nil, v, l)
			fr.regs[d] = Val{R: &Agg{append(c, Val{U: b2u(ok)})}}
		} else {
			fr.regs[d] = v
		}
	}
}

func (cc *compiler) typeAssert(x *ssa.TypeAssert, d int32) func(fr *Frame) {
	a := cc.op(x.X)
	t := x.AssertedType
	l := cc.wk.layout(t)
	it, isI := t.Underlying().(*types.Interface)
	return func(fr *Frame) {
		v := fr.get(a)
		ok := false
		var r Val
		if v.R != nil {
			i := v.R.(*Iface)
			if isI {
				ok = types.Implements(i.t, it)
				r = v
			} else {
				ok = types.Identical(i.t, t)
				r = i.v
			}
		}
		if !ok {
			r = Val{}
			if l.agg {
				r = Val{R: &Agg{make([]Val, l.size)}}
			}
			if !x.CommaOk {
				fr.st.goPanic("interface conversion: not " + t.String())
			}
		}
		if x.CommaOk {
			c := appendFlat(nil, r, l)
			fr.regs[d] = Val{R: &Agg{append(c, Val{U: b2u(ok)})}}
		} else {
			fr.regs[d] = r
		}
	}
}

// ---- calls ----

func (cc *compiler) callOps(c *ssa.CallCommon) (opnd, []opnd) {
	var args []opnd
	for _, x := range c.Args {
		args = append(args, cc.op(x))
	}
	return cc.op(c.Value), args
}

func (cc *compiler) call(x *ssa.Call, d int32) func(fr *Frame) {
	c := &x.Call
	fnv, args := cc.callOps(c)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		f := cc.builtin(b, c, args)
		return func(fr *Frame) { fr.regs[d] = f(fr) }
	}
	if sf := c.StaticCallee(); sf != nil {
		if _, isClosure := c.Value.(*ssa.MakeClosure); !isClosure {
			var fn *Fn
			return func(fr *Frame) {
				if fn == nil {
					fn = fr.st.wk.fn(sf)
				}
				fr.regs[d] = fr.st.callFn(fr, fr.th, fn, fr.gets(args), nil, c)
			}
		}
	}
	return func(fr *Frame) { fr.regs[d] = fr.invoke(c, fr.get(fnv), fr.gets(args)) }
}

// invoke performs a call given evaluated function value and arguments.
func (fr *Frame) invoke(c *ssa.CallCommon, fnv Val, args []Val) Val {
	st := fr.st
	if c.IsInvoke() {
		if fnv.R == nil {
			st.goPanic("invalid memory address or nil pointer dereference")
		}
		i := fnv.R.(*Iface)
		return st.callMethod(fr, i, c.Method, args, c)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return st.callBuiltin(fr, b.Name(), c, args)
	}
	if fnv.R == nil {
		st.goPanic("invalid memory address or nil pointer dereference")
	}
	cl := fnv.R.(*Closure)
	if cl.intr != nil {
		return cl.intr(fr, args)
	}
	return st.callFn(fr, fr.th, st.wk.fn(cl.fn), args, cl.bind, c)
}

func (st *State) callMethod(fr *Frame, i *Iface, m *types.Func, args []Val, c *ssa.CallCommon) Val {
	f := st.wk.eng.method(i.t, m)
	if f == nil {
		panic(unsupported("method " + m.FullName() + " on " + i.t.String()))
	}
	return st.callFn(fr, fr.th, st.wk.fn(f), append([]Val{i.v}, args...), nil, c)
}

func (cc *compiler) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []opnd) func(fr *Frame) Val {
	name := b.Name()
	switch name {
	case "len":
		a := args[0]
		return func(fr *Frame) Val {
			v := fr.get(a)
			if s, ok := v.R.(*SliceV); ok {
				return Val{U: uint64(s.len)}
			}
			return fr.st.callBuiltin(fr, "len", c, []Val{v})
		}
	}
	return func(fr *Frame) Val { return fr.st.callBuiltin(fr, name, c, fr.gets(args)) }
}

func (st *State) callBuiltin(fr *Frame, name string, c *ssa.CallCommon, args []Val) Val {
	switch name {
	case "len", "cap":
		v := args[0]
		switch x := v.R.(type) {
		case nil:
			if at, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				return Val{U: uint64(at.Elem().Underlying().(*types.Array).Len())}
			}
			return Val{}
		case string:
			return Val{U: uint64(len(x))}
		case *SliceV:
			if name == "len" {
				return Val{U: uint64(x.len)}
			}
			return Val{U: uint64(x.cap)}
		case *MapObj:
			st.raceMap(x, false)
			return Val{U: uint64(x.n)}
		case *ChanObj:
			if name == "len" {
				return Val{U: uint64(len(x.buf))}
			}
			return Val{U: uint64(x.cap)}
		case *GVal:
			var r Val
			for i := len(x.alts) - 1; i >= 0; i-- {
				s := sl(x.alts[i].v)
				n := s.len
				if name == "cap" {
					n = s.cap
				}
				if i == len(x.alts)-1 {
					r = Val{U: uint64(n)}
				} else {
					r = st.mergeCell(x.alts[i].g, CK{kInt, 64, true}, Val{U: uint64(n)}, r)
				}
			}
			return r
		case *Obj, *Agg:
			t := c.Args[0].Type().Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			return Val{U: uint64(t.(*types.Array).Len())}
		}
	case "append":
		return st.appendS(c, args)
	case "copy":
		return st.copyS(c, args)
	case "delete":
		st.mapDelete(args[0], args[1])
		return Val{}
	case "clear":
		switch x := args[0].R.(type) {
		case *SliceV:
			esz := st.wk.layout(c.Args[0].Type().Underlying().(*types.Slice).Elem()).size
			if st.race != nil {
				st.race.write(x.o, x.off, x.len*esz)
			}
			for i := 0; i < x.len*esz; i++ {
				st.setCell(x.o, x.off+i, Val{})
			}
		case *MapObj:
			for _, e := range append([]mapEnt(nil), x.ents...) {
				if !e.del {
					st.mapDelete(args[0], e.k)
				}
			}
		}
		return Val{}
	case "print", "println":
		return Val{}
	case "panic":
		panic(goPanicT{args[0]})
	case "recover":
		// the deferred function's caller frame is panicking
		if fr.caller != nil {
			p := fr.caller
			if p.panicking != nil && !p.recovered {
				p.recovered = true
				return p.panicking.v
			}
		}
		return Val{}
	case "min", "max":
		ck := ckOf(c.Args[0].Type())
		r := args[0]
		for _, a := range args[1:] {
			switch ck.k {
			case kInt:
				var lt *Bool
				x, y := st.rT(a, ck.w), st.rT(r, ck.w)
				if name == "max" {
					x, y = y, x
				}
				if ck.signed {
					lt = st.c.SLt(x, y)
				} else {
					lt = st.c.ULt(x, y)
				}
				r = tval(st.c.Ite(lt, st.T(a, ck.w), st.T(r, ck.w)), ck.signed)
			case kF64:
				if a.R == nil && r.R == nil {
					if name == "min" {
						r = fv(math.Min(fb(a), fb(r)))
					} else {
						r = fv(math.Max(fb(a), fb(r)))
					}
					continue
				}
				x, y := st.F(a), st.F(r)
				if name == "max" {
					x, y = y, x
				}
				r = fval(st.c.FIte(st.c.FCmp(RLt, x, y), st.F(a), st.F(r)))
			default:
				panic(unsupported("min/max"))
			}
		}
		return r
	case "real":
		return cparts(args[0])[0]
	case "imag":
		return cparts(args[0])[1]
	case "complex":
		return Val{R: &[2]Val{args[0], args[1]}}
	case "close":
		st.sched.closeChan(fr, args[0])
		return Val{}
	case "ssa:wrapnilchk":
		if args[0].R == nil {
			st.goPanic("nil method receiver")
		}
		return args[0]
	case "SliceData":
		if args[0].R == nil {
			return Val{}
		}
		s := sl(st.pickAlt(args[0]))
		return Val{R: s.o, U: uint64(s.off)}
	case "Slice":
		if args[0].R == nil {
			return Val{}
		}
		o, ok := args[0].R.(*Obj)
		if !ok {
			break
		}
		l := st.wk.layout(c.Args[0].Type().Underlying().(*types.Pointer).Elem())
		n := int(st.conc(args[1], CK{kInt, 64, true}))
		off := int(args[0].U)
		if n < 0 || off+n*l.size > len(o.cells) {
			panic(unsupported("unsafe.Slice outside object"))
		}
		return Val{R: &SliceV{o, off, n, n}}
	case "StringData":
		s := str(args[0])
		o := st.newObj(len(s), []CK{{kInt, 8, false}})
		for i := range s {
			o.cells[i] = Val{U: uint64(s[i])}
		}
		return Val{R: o}
	case "String":
		if args[0].R == nil {
			return Val{R: ""}
		}
		o, ok := args[0].R.(*Obj)
		n := int(st.conc(args[1], CK{kInt, 64, true}))
		if !ok || int(args[0].U)+n > len(o.cells) {
			break
		}
		var b []byte
		for _, v := range o.cells[args[0].U : int(args[0].U)+n] {
			if v.R != nil {
				panic(unsupported("symbolic string"))
			}
			b = append(b, byte(v.U))
		}
		return Val{R: string(b)}
	case "Add":
		o, ok := args[0].R.(*Obj)
		if !ok {
			break
		}
		n := st.conc(args[1], CK{kInt, 64, true})
		i := int(args[0].U)
		for n > 0 && i < len(o.cells) {
			k := o.kind(i)
			if k.k != kInt && k.k != kF64 || k.k == kInt && k.w < 8 {
				panic(unsupported("unsafe.Add over " + c.Args[0].Type().String()))
			}
			n -= int64(k.w) / 8
			i++
		}
		if n != 0 {
			panic(unsupported("unsafe.Add outside object"))
		}
		return Val{R: o, U: uint64(i)}
	}
	panic(unsupported("builtin " + name))
}

func growCap(old, need, esz int) int {
	if esz == 0 {
		esz = 1
	}
	// let the Go runtime decide (noscan elements of 4 or 8 bytes per cell)
	t := reflect.SliceOf(reflect.ArrayOf(esz*8, reflect.TypeOf(byte(0))))
	if old*esz > 1<<22 || need*esz > 1<<22 {
		return max(need, old+old/4)
	}
	s := reflect.MakeSlice(t, old, old)
	return reflect.AppendSlice(s, reflect.MakeSlice(t, need-old, need-old)).Cap()
}

func (st *State) appendS(c *ssa.CallCommon, args []Val) Val {
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	l := st.wk.layout(et)
	s := sl(st.pickAlt(args[0]))
	var src []Val
	switch y := args[1].R.(type) {
	case nil:
		if s.o == nil && args[0].R == nil {
			return Val{}
		}
		return args[0]
	case string:
		for i := 0; i < len(y); i++ {
			src = append(src, Val{U: uint64(y[i])})
		}
	default:
		t := sl(st.pickAlt(args[1]))
		if t.len > 0 {
			if st.race != nil {
				st.race.read(t.o, t.off, t.len*l.size)
			}
			src = append(src, t.o.cells[t.off:t.off+t.len*l.size]...)
		}
	}
	n := 0
	if l.size > 0 {
		n = len(src) / l.size
	}
	if n == 0 {
		return args[0]
	}
	if s.len+n <= s.cap {
		if st.race != nil {
			st.race.write(s.o, s.off+s.len*l.size, len(src))
		}
		for i, v := range src {
			st.setCell(s.o, s.off+s.len*l.size+i, v)
		}
		return Val{R: &SliceV{s.o, s.off, s.len + n, s.cap}}
	}
	nc := growCap(s.cap, s.len+n, l.size)
	if nc < s.len+n {
		nc = s.len + n
	}
	o := st.newObj(nc*l.size, l.kinds)
	if s.len > 0 {
		if st.race != nil {
			st.race.read(s.o, s.off, s.len*l.size)
		}
		copy(o.cells, s.o.cells[s.off:s.off+s.len*l.size])
	}
	copy(o.cells[s.len*l.size:], src)
	return Val{R: &SliceV{o, 0, s.len + n, nc}}
}

func (st *State) copyS(c *ssa.CallCommon, args []Val) Val {
	l := st.wk.layout(c.Args[0].Type().Underlying().(*types.Slice).Elem())
	dst := sl(st.pickAlt(args[0]))
	if s, ok := args[1].R.(string); ok {
		n := min(len(s), dst.len)
		for i := 0; i < n; i++ {
			st.setCell(dst.o, dst.off+i, Val{U: uint64(s[i])})
		}
		return Val{U: uint64(n)}
	}
	src := sl(st.pickAlt(args[1]))
	n := min(src.len, dst.len)
	if n == 0 {
		return Val{}
	}
	if st.race != nil {
		st.race.read(src.o, src.off, n*l.size)
		st.race.write(dst.o, dst.off, n*l.size)
	}
	tmp := append([]Val(nil), src.o.cells[src.off:src.off+n*l.size]...)
	for i, v := range tmp {
		st.setCell(dst.o, dst.off+i, v)
	}
	return Val{U: uint64(n)}
}
