package main

// Concrete evaluation of terms under an assignment of the leaf atoms.

import (
	"math"
	"math/bits"
)

type Asg struct {
	iv  map[*Atom]int64
	rv  map[*Atom]float64
	mi  map[*Atom]int64
	bad bool // some value could not be evaluated exactly
}

func newAsg() *Asg {
	return &Asg{iv: map[*Atom]int64{}, rv: map[*Atom]float64{}, mi: map[*Atom]int64{}}
}

func (m *Asg) atom(a *Atom) int64 {
	if v, ok := m.mi[a]; ok {
		return v
	}
	var v int64
	switch a.kind {
	case AVar:
		x, ok := m.iv[a]
		if !ok {
			x = 0
			if !a.big && (x < a.lo || x > a.hi) {
				x = a.lo
			}
		}
		v = x
	case ASlice:
		v = int64(uint64(m.term(a.t)) & umask(a.t.w) >> a.sl & umask(a.sn))
	case ASigned:
		v = m.term(a.t)
	case AB2I:
		v = int64(b2u(m.bool(a.b)))
	case AOp:
		x, y := m.term(a.a1), m.term(a.a2)
		w := a.a1.w
		ux, uy := uint64(x)&umask(w), uint64(y)&umask(w)
		switch a.op {
		case OpAnd:
			v = int64(ux & uy)
		case OpOr:
			v = int64(ux | uy)
		case OpXor:
			v = int64(ux ^ uy)
		case OpUDiv:
			if uy != 0 {
				v = int64(ux / uy)
			}
		case OpURem:
			if uy != 0 {
				v = int64(ux % uy)
			}
		case OpSDiv:
			if y == -1 {
				v = canon(-x, w)
			} else if y != 0 {
				v = x / y
			}
		case OpSRem:
			if y != 0 && y != -1 {
				v = x % y
			}
		case OpMul:
			v = int64(uint64(x*y) & umask(w))
		case OpShl:
			if uy < 64 {
				v = int64(ux << uy & umask(w))
			}
		case OpShr:
			if uy < 64 {
				v = int64(ux >> uy)
			}
		case OpSar:
			v = x >> min(uy, 63)
		}
	case AFInt:
		if a.node.err != 0 {
			m.bad = true
		}
		f := roundF(a.fop, m.f(a.node))
		v = int64(f)
	case AErr:
		m.bad = true
		v = 0
	default:
		panic("eval: " + a.String())
	}
	m.mi[a] = v
	return v
}

func (m *Asg) mono(x *Mono) int64 {
	p := int64(1)
	for _, a := range x.atoms {
		p *= m.atom(a)
	}
	return p
}

func (m *Asg) term(t *Term) int64 {
	s := t.c0
	for i, x := range t.ms {
		s += t.cs[i] * m.mono(x)
	}
	return canon(s, t.w)
}

func (m *Asg) f(n *FNode) float64 {
	s := n.c0
	for i, x := range n.ms {
		p := n.cs[i]
		for _, a := range x.atoms {
			if a.kind == AReal {
				p *= m.rv[a]
			} else if a.big {
				p *= float64(uint64(m.atom(a)))
			} else {
				p *= float64(m.atom(a))
			}
		}
		s += p
	}
	return s
}

func (m *Asg) bool(b *Bool) bool {
	switch b.kind {
	case BConst:
		return b.val
	case BAtom:
		return m.atom(b.a) != 0
	case BBind:
		return m.atom(b.a) == b.v
	case BEq:
		return m.term(b.t) == canon(b.v, b.t.w)
	case BULt:
		w := b.x.w
		return uint64(m.term(b.x))&umask(w) < uint64(m.term(b.y))&umask(w)
	case BSLt:
		return m.term(b.x) < m.term(b.y)
	case BNot:
		return !m.bool(b.bs[0])
	case BAnd:
		for _, x := range b.bs {
			if !m.bool(x) {
				return false
			}
		}
		return true
	case BFCmp:
		f, g := m.f(b.f), m.f(b.g)
		if b.f.err+b.g.err != 0 && math.Abs(f-g) <= b.f.err+b.g.err {
			m.bad = true
		}
		switch b.rel {
		case RLt:
			return f < g
		case RLe:
			return f <= g
		}
		return f == g
	}
	panic("eval bool")
}

// leaves collects the leaf atoms reachable from a boolean.
type leafSet struct {
	atoms  map[*Atom]bool
	order  []*Atom
	leaves []*Atom
	bools  map[*Bool]bool
	nodes  map[*FNode]bool
	floats bool
	opq    bool
	nonlin bool
	approx bool
}

func newLeafSet() *leafSet {
	return &leafSet{atoms: map[*Atom]bool{}, bools: map[*Bool]bool{}, nodes: map[*FNode]bool{}}
}
func (l *leafSet) atom(a *Atom) {
	if l.atoms[a] {
		return
	}
	if a.bound {
		return
	}
	l.raw(a)
}
func (l *leafSet) raw(a *Atom) {
	if l.atoms[a] {
		return
	}
	l.atoms[a] = true
	switch a.kind {
	case AVar, AReal:
		l.leaves = append(l.leaves, a)
		if a.kind == AReal {
			l.floats = true
		}
	case ASlice, ASigned:
		l.term(a.t)
	case AB2I:
		l.boolean(a.b)
	case AOp:
		l.term(a.a1)
		l.term(a.a2)
		if (a.op == OpUDiv || a.op == OpSDiv || a.op == OpURem || a.op == OpSRem) && a.a2.isConst() {
		} else if a.op == OpMul {
			l.nonlin = true
			l.opq = true
		} else {
			l.opq = true
		}
	case AFInt:
		l.floats = true
		l.fnode(a.node)
	case AErr:
		l.approx = true
	}
	l.order = append(l.order, a)
}
func (l *leafSet) term(t *Term) {
	for _, m := range t.ms {
		n := 0
		for _, a := range m.atoms {
			l.atom(a)
			if !a.bound && (a.big || a.lo < 0 || a.hi > 1) {
				n++
			}
		}
		if n > 1 {
			l.nonlin = true
		}
	}
}
func (l *leafSet) fnode(f *FNode) {
	if l.nodes[f] {
		return
	}
	l.nodes[f] = true
	l.floats = true
	for _, m := range f.ms {
		n := 0
		for _, a := range m.atoms {
			l.atom(a)
			if !a.bound && (a.kind == AReal || a.big || a.lo < 0 || a.hi > 1) {
				n++
			}
		}
		if n > 1 {
			l.nonlin = true
		}
	}
}
func (l *leafSet) boolean(b *Bool) {
	if l.bools[b] {
		return
	}
	l.bools[b] = true
	switch b.kind {
	case BAtom:
		l.atom(b.a)
	case BBind:
		l.raw(b.a)
	case BEq:
		l.term(b.t)
	case BULt, BSLt:
		l.term(b.x)
		l.term(b.y)
	case BNot, BAnd:
		for _, x := range b.bs {
			l.boolean(x)
		}
	case BFCmp:
		l.fnode(b.f)
		l.fnode(b.g)
	}
}

var _ = bits.Len
