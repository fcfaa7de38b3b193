package main

// Symbolic float64 values: v = c0 + sum c_i*m_i + eps, |eps| <= err, where the
// monomials range over the same atoms as integer terms plus real-valued atoms.
// err accounts for every float64 rounding of the program and of our coefficients.

import (
	"fmt"
	"math"
	"math/bits"
)

type FOp uint8

const (
	FAdd FOp = iota
	FSub
	FMul
	FDiv
	FNeg
	FTrunc
	FRound
	FFloor
	FCeil
	FRoundEven
	FAbs
	FIte
	FSnap
)

type fkey struct {
	op   FOp
	a, b int32
	c    uint64
}

type FNode struct {
	id     int32
	ms     []*Mono
	cs     []float64
	c0     float64
	err    float64
	mag    float64 // sum |c_i| max|m_i| + |c0|
	gran   int     // value is a multiple of 2^gran when err == 0 and gran > -2000
	lo, hi float64
	rdone  bool
}

const noGran = -5000
const u53 = 1.0 / (1 << 53)

func (f *FNode) isConst() bool  { return len(f.ms) == 0 && f.err == 0 }
func (f *FNode) abs() float64   { return f.mag + f.err }
func (f *FNode) integral() bool { return f.err == 0 && f.gran >= 0 }

func (f *FNode) rng() (float64, float64) {
	if f.rdone {
		return f.lo, f.hi
	}
	lo, hi := f.c0, f.c0
	for i, m := range f.ms {
		l, h := -m.max, m.max
		if m.rok {
			l, h = float64(m.lo), float64(m.hi)
		} else if len(m.atoms) == 1 {
			l, h = m.atoms[0].flo, m.atoms[0].fhi
		}
		a, b := f.cs[i]*l, f.cs[i]*h
		if a > b {
			a, b = b, a
		}
		lo += a
		hi += b
	}
	s := f.err
	if len(f.ms) > 1 || f.err != 0 {
		if !(f.err == 0 && f.gran > noGran && f.mag < math.Exp2(float64(53+f.gran))) {
			s += f.mag * u53 * float64(len(f.ms)+2)
		}
	} else if len(f.ms) == 1 && !(f.gran > noGran && f.mag < math.Exp2(float64(53+f.gran))) {
		s += f.mag * u53 * 4
	}
	f.lo, f.hi, f.rdone = lo-s, hi+s, true
	if b := f.modRange(); b < math.Max(-f.lo, f.hi) {
		f.lo, f.hi = -b, b
	}
	return f.lo, f.hi
}

// modRange bounds K*n - K*round(n): when f is such a reduction up to a small
// difference, its magnitude is at most K/2 plus that difference.
func (f *FNode) modRange() float64 {
	best := math.Inf(1)
	for i, m := range f.ms {
		if len(m.atoms) != 1 || m.atoms[0].kind != AFInt || m.atoms[0].fop != FRound && m.atoms[0].fop != FRoundEven {
			continue
		}
		k := -f.cs[i]
		if math.Abs(k) < 2 {
			continue
		}
		n := m.atoms[0].node
		b := math.Abs(k)*(0.5+n.err) + f.err + math.Abs(f.c0-k*n.c0)
		a, c := 0, 0
		for a < len(f.ms) || c < len(n.ms) {
			switch {
			case a < len(f.ms) && f.ms[a] == m:
				a++
			case c >= len(n.ms) || a < len(f.ms) && f.ms[a].id < n.ms[c].id:
				b += math.Abs(f.cs[a]) * f.ms[a].max
				a++
			case a >= len(f.ms) || n.ms[c].id < f.ms[a].id:
				b += math.Abs(k*n.cs[c]) * n.ms[c].max
				c++
			default:
				b += math.Abs(f.cs[a]-k*n.cs[c]) * f.ms[a].max
				a++
				c++
			}
		}
		best = math.Min(best, b*(1+1e-9)+f.mag*u53*8)
	}
	return best
}

func granOf(x float64) int {
	if x == 0 {
		return 5000
	}
	fr, e := math.Frexp(x)
	m := int64(fr * (1 << 53))
	return e - 53 + bits.TrailingZeros64(uint64(m))
}

func (c *Ctx) fmk(f *FNode) *FNode {
	f.mag = math.Abs(f.c0)
	for i, m := range f.ms {
		f.mag += math.Abs(f.cs[i]) * m.max
	}
	if f.err == 0 {
		g := granOf(f.c0)
		for i, m := range f.ms {
			if m.real {
				g = noGran
				break
			}
			g = min(g, granOf(f.cs[i]))
		}
		f.gran = g
		// hash-cons exact forms
		if len(f.ms) <= 256 {
			h := math.Float64bits(f.c0) * 0x9E3779B97F4A7C15
			for i, m := range f.ms {
				h = (h ^ uint64(m.id)) * 0xff51afd7ed558ccd
				h ^= h >> 31
				h = (h ^ math.Float64bits(f.cs[i])) * 0xc4ceb9fe1a85ec53
				h ^= h >> 29
			}
		next:
			for _, o := range c.fexact[h] {
				if o.c0 != f.c0 || len(o.ms) != len(f.ms) {
					continue
				}
				for i := range f.ms {
					if f.ms[i] != o.ms[i] || f.cs[i] != o.cs[i] {
						continue next
					}
				}
				return o
			}
			c.nf++
			f.id = c.nf
			c.fexact[h] = append(c.fexact[h], f)
			return f
		}
	} else {
		f.gran = noGran
	}
	c.alive()
	c.nf++
	f.id = c.nf
	return f
}

func (c *Ctx) FConst(v float64) *FNode { return c.fmk(&FNode{c0: v}) }

func (c *Ctx) FVar(a *Atom) *FNode {
	return c.fmk(&FNode{ms: []*Mono{a.mono}, cs: []float64{1}})
}

// exactFits tells whether a multiple of 2^g with magnitude <= mag is a float64.
func exactFits(mag float64, g int) bool {
	return g > noGran && mag <= math.Exp2(float64(min(1000, 53+g)))
}

func (c *Ctx) fmerge(a, b *FNode, sb float64) ([]*Mono, []float64) {
	ms := make([]*Mono, 0, len(a.ms)+len(b.ms))
	cs := make([]float64, 0, len(a.ms)+len(b.ms))
	i, j := 0, 0
	for i < len(a.ms) || j < len(b.ms) {
		if j >= len(b.ms) || i < len(a.ms) && a.ms[i].id < b.ms[j].id {
			ms = append(ms, a.ms[i])
			cs = append(cs, a.cs[i])
			i++
		} else if i >= len(a.ms) || b.ms[j].id < a.ms[i].id {
			ms = append(ms, b.ms[j])
			cs = append(cs, sb*b.cs[j])
			j++
		} else {
			if s := a.cs[i] + sb*b.cs[j]; s != 0 {
				ms = append(ms, a.ms[i])
				cs = append(cs, s)
			}
			i++
			j++
		}
	}
	return ms, cs
}

func (c *Ctx) FAdd(a, b *FNode, sb float64) *FNode {
	if a.isConst() && b.isConst() {
		return c.FConst(a.c0 + sb*b.c0)
	}
	if b.isConst() && b.c0 == 0 {
		return a
	}
	if a.isConst() && a.c0 == 0 {
		if sb > 0 {
			return b
		}
		return c.FNeg(b)
	}
	var k fkey
	if sb > 0 {
		k = fkey{FAdd, min(a.id, b.id), max(a.id, b.id), 0}
	} else {
		k = fkey{FSub, a.id, b.id, 0}
	}
	memo := len(a.ms)+len(b.ms) <= 256
	if memo {
		if r := c.fmemo[k]; r != nil {
			return r
		}
	}
	r := &FNode{}
	r.ms, r.cs = c.fmerge(a, b, sb)
	r.c0 = a.c0 + sb*b.c0
	magSum := a.mag + b.mag
	exact := a.err == 0 && b.err == 0 && exactFits(magSum, min(a.gran, b.gran))
	if !exact {
		mag := math.Abs(r.c0)
		for i, m := range r.ms {
			mag += math.Abs(r.cs[i]) * m.max
		}
		e := a.err + b.err
		r.err = (e + 3*u53*mag + u53*e) * (1 + 1e-12)
		if r.err == 0 {
			r.err = math.SmallestNonzeroFloat64
		}
	}
	r = c.fmk(r)
	if memo {
		c.fmemo[k] = r
	}
	return r
}

func (c *Ctx) FNeg(a *FNode) *FNode {
	k := fkey{FNeg, a.id, 0, 0}
	if r := c.fmemo[k]; r != nil {
		return r
	}
	r := &FNode{ms: a.ms, c0: -a.c0, err: a.err}
	r.cs = make([]float64, len(a.cs))
	for i := range a.cs {
		r.cs[i] = -a.cs[i]
	}
	r = c.fmk(r)
	c.fmemo[k] = r
	return r
}

func isPow2F(v float64) bool {
	fr, _ := math.Frexp(v)
	return fr == 0.5 || fr == -0.5
}

func (c *Ctx) FMulC(a *FNode, k float64) *FNode {
	if a.isConst() {
		return c.FConst(a.c0 * k)
	}
	if k == 0 {
		return c.FConst(0)
	}
	if k == 1 {
		return a
	}
	if k == -1 {
		return c.FNeg(a)
	}
	key := fkey{FMul, a.id, -1, math.Float64bits(k)}
	memo := len(a.ms) <= 256
	if memo {
		if r := c.fmemo[key]; r != nil {
			return r
		}
	}
	r := &FNode{ms: a.ms, c0: a.c0 * k}
	r.cs = make([]float64, len(a.cs))
	for i := range a.cs {
		r.cs[i] = a.cs[i] * k
	}
	if isPow2F(k) {
		r.err = a.err * math.Abs(k)
	} else if a.err == 0 && a.gran > noGran && exactFits(a.mag*math.Abs(k), a.gran+granOf(k)) {
	} else {
		e := a.err * math.Abs(k)
		r.err = (e + 3*u53*(a.mag*math.Abs(k)) + u53*e) * (1 + 1e-12)
		if r.err == 0 {
			r.err = math.SmallestNonzeroFloat64
		}
	}
	r = c.fmk(r)
	if memo {
		c.fmemo[key] = r
	}
	return r
}

func (c *Ctx) FMul(a, b *FNode) *FNode {
	if a.isConst() {
		return c.FMulC(b, a.c0)
	}
	if b.isConst() {
		return c.FMulC(a, b.c0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	if len(a.ms)*len(b.ms) > 400000 {
		panic(unsupported("float product too large"))
	}
	key := fkey{FMul, a.id, b.id, 1}
	if r := c.fmemo[key]; r != nil {
		return r
	}
	acc := map[int32]float64{}
	var c0 float64
	add := func(m *Mono, v float64) {
		if m == nil {
			c0 += v
		} else {
			acc[m.id] += v
		}
	}
	c0 = a.c0 * b.c0
	for i, m := range a.ms {
		if b.c0 != 0 {
			add(m, a.cs[i]*b.c0)
		}
		for j, n := range b.ms {
			p, f := c.mulMono(m, n)
			if f != 0 {
				add(p, a.cs[i]*b.cs[j]*float64(f))
			}
		}
	}
	if a.c0 != 0 {
		for j, n := range b.ms {
			add(n, b.cs[j]*a.c0)
		}
	}
	r := &FNode{c0: c0}
	r.ms, r.cs = c.sortMonos(acc)
	exact := a.err == 0 && b.err == 0 && a.gran > noGran && b.gran > noGran && exactFits(a.mag*b.mag, a.gran+b.gran)
	if !exact {
		e := a.err*b.mag + b.err*a.mag + a.err*b.err
		// coefficient rounding: each accumulated coefficient may gather several roundings
		r.err = (e + float64(4+min(len(a.ms), len(b.ms)))*u53*a.mag*b.mag + u53*e) * (1 + 1e-12)
		if r.err == 0 {
			r.err = math.SmallestNonzeroFloat64
		}
	}
	r = c.fmk(r)
	c.fmemo[key] = r
	return r
}

func (c *Ctx) sortMonos(acc map[int32]float64) ([]*Mono, []float64) {
	ids := make([]int32, 0, len(acc))
	for id, v := range acc {
		if v != 0 {
			ids = append(ids, id)
		}
	}
	sortI32(ids)
	ms := make([]*Mono, len(ids))
	cs := make([]float64, len(ids))
	for i, id := range ids {
		ms[i] = c.monos[id]
		cs[i] = acc[id]
	}
	return ms, cs
}

func (c *Ctx) FDiv(a, b *FNode) *FNode {
	if !b.isConst() {
		panic(unsupported("division by a symbolic float"))
	}
	if b.c0 == 0 {
		panic(unsupported("symbolic float divided by zero"))
	}
	if a.isConst() {
		return c.FConst(a.c0 / b.c0)
	}
	if isPow2F(b.c0) {
		return c.FMulC(a, 1/b.c0)
	}
	key := fkey{FDiv, a.id, -1, math.Float64bits(b.c0)}
	if r := c.fmemo[key]; r != nil {
		return r
	}
	r := &FNode{ms: a.ms, c0: a.c0 / b.c0}
	r.cs = make([]float64, len(a.cs))
	for i := range a.cs {
		r.cs[i] = a.cs[i] / b.c0
	}
	k := math.Abs(1 / b.c0)
	r.err = (a.err*k + 3*u53*(a.mag*k) + u53*a.err*k) * (1 + 1e-12)
	if r.err == 0 {
		r.err = math.SmallestNonzeroFloat64
	}
	r = c.fmk(r)
	c.fmemo[key] = r
	return r
}

// IntToF converts an integer term (signed or unsigned) to a float node.
func (c *Ctx) IntToF(t *Term, signed bool) *FNode {
	if t.isConst() {
		if signed {
			return c.FConst(float64(t.c0))
		}
		return c.FConst(float64(t.uval()))
	}
	var ok bool
	if signed {
		_, _, ok = t.srange()
	} else {
		_, _, ok = t.urange()
	}
	ms, cs, c0 := t.ms, t.cs, t.c0
	if !ok {
		var wide *Term
		w := uint8(64)
		if t.w == 64 {
			if signed {
				a := c.signedAtom(t)
				ms, cs, c0 = []*Mono{a.mono}, []int64{1}, 0
			} else {
				a := c.sliceAtom(t, 0, 64)
				ms, cs, c0 = []*Mono{a.mono}, []int64{1}, 0
			}
		} else {
			if signed {
				wide = c.SExt(t, w)
			} else {
				wide = c.ZExt(t, w)
			}
			ms, cs, c0 = wide.ms, wide.cs, wide.c0
		}
	}
	f := &FNode{ms: ms, c0: float64(c0)}
	f.cs = make([]float64, len(cs))
	mag := math.Abs(float64(c0))
	exact := int64(float64(c0)) == c0
	for i, k := range cs {
		f.cs[i] = float64(k)
		if int64(f.cs[i]) != k {
			exact = false
		}
		mag += math.Abs(f.cs[i]) * ms[i].max
	}
	// the represented integer is bounded by its type
	lim := math.Exp2(float64(t.w))
	if t.rok {
		lim = math.Max(math.Abs(float64(t.lo)), math.Abs(float64(t.hi)))
	}
	if !exact || math.Min(mag, lim) > 1<<53 {
		f.err = 2 * u53 * mag
	}
	return c.fmk(f)
}

// ite on floats
func (c *Ctx) FIte(g *Bool, a, b *FNode) *FNode {
	if g.isConst() {
		if g.val {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	key := fkey{FIte, a.id, b.id, uint64(g.id)}
	if r := c.fmemo[key]; r != nil {
		return r
	}
	gi := c.B2I(g, 64)
	if len(gi.ms) > 8 {
		gi = c.atomTerm(c.b2iAtom(g), 64)
	}
	ms, cs := c.fmerge(a, b, -1)
	dc := a.c0 - b.c0
	acc := map[int32]float64{}
	c0 := b.c0
	for i, m := range b.ms {
		acc[m.id] += b.cs[i]
	}
	mul := func(m *Mono, k float64) { // add gi * k*m
		if gi.c0 != 0 {
			if m == nil {
				c0 += k * float64(gi.c0)
			} else {
				acc[m.id] += k * float64(gi.c0)
			}
		}
		for j, n := range gi.ms {
			p, f := c.mulMono(m, n)
			if f != 0 {
				acc[p.id] += k * float64(gi.cs[j]) * float64(f)
			}
		}
	}
	for i, m := range ms {
		mul(m, cs[i])
	}
	if dc != 0 {
		mul(nil, dc)
	}
	r := &FNode{c0: c0}
	r.ms, r.cs = c.sortMonos(acc)
	exact := exactFits(a.mag+b.mag, min(a.gran, b.gran)) && a.err == 0 && b.err == 0
	if !exact {
		r.err = math.Max(a.err, b.err) + 8*u53*(a.mag+b.mag)
	}
	r = c.fmk(r)
	c.fmemo[key] = r
	return r
}

// FToTerm converts an integral exact node to a term of width w.
func (c *Ctx) FToTerm(f *FNode, w uint8) (*Term, bool) {
	if !f.integral() {
		return nil, false
	}
	toI := func(v float64) (int64, bool) {
		if math.Abs(v) < 1<<62 {
			return int64(v), true
		}
		// reduce modulo 2^w exactly
		if math.Abs(v) > 1e300 {
			return 0, false
		}
		fr, e := math.Frexp(v)
		m := int64(fr * (1 << 53))
		s := e - 53
		if s >= 64 {
			return 0, true
		}
		return int64(uint64(m) << uint(s)), true
	}
	k, ok := toI(f.c0)
	if !ok {
		return nil, false
	}
	p := c.newB(w)
	p.c0 = k
	for i, m := range f.ms {
		k, ok := toI(f.cs[i])
		if !ok || m.real {
			return nil, false
		}
		if canon(k, w) == 0 {
			continue
		}
		p.addTerm(c.monoTerm(m, w), k)
	}
	return p.done(), true
}

// FRoundOp applies Trunc/Round/Floor/Ceil/RoundEven to a node, returning an
// integral node.
func (c *Ctx) FRoundOp(op FOp, f *FNode) *FNode {
	if f.isConst() {
		switch op {
		case FTrunc:
			return c.FConst(math.Trunc(f.c0))
		case FRound:
			return c.FConst(math.Round(f.c0))
		case FFloor:
			return c.FConst(math.Floor(f.c0))
		case FCeil:
			return c.FConst(math.Ceil(f.c0))
		default:
			return c.FConst(math.RoundToEven(f.c0))
		}
	}
	if f.integral() {
		return f
	}
	key := fkey{op, f.id, 0, 0}
	if r := c.fmemo[key]; r != nil {
		return r
	}
	var r *FNode
	lo, hi := f.rng()
	rl, rh := roundF(op, lo), roundF(op, hi)
	if rl == rh && (op != FTrunc || true) {
		r = c.FConst(rl)
	} else if op == FRound || op == FRoundEven {
		r = c.snap(op, f)
	} else if op == FTrunc && f.err == 0 {
		r = c.truncFrac(f)
	}
	if r == nil {
		a := &Atom{kind: AFInt, node: f, fop: op, w: 64}
		if math.Abs(rl) >= 1<<62 || math.Abs(rh) >= 1<<62 {
			panic(unsupported("float to integer out of range"))
		}
		a.lo, a.hi = int64(rl), int64(rh)
		c.newAtom(a)
		r = c.FVar(a)
	}
	c.fmemo[key] = r
	return r
}

// truncFrac: trunc(k*(a - trunc(a))) = trunc(k*a) - k*trunc(a) for k = 2^j >= 1
// (both sides have the sign of a), when f is syntactically that difference.
func (c *Ctx) truncFrac(f *FNode) *FNode {
	for i, m := range f.ms {
		k := -f.cs[i]
		if len(m.atoms) != 1 || k < 1 || !isPow2F(k) {
			continue
		}
		a := m.atoms[0]
		if a.kind != AFInt || a.fop != FTrunc || a.node.err != 0 {
			continue
		}
		ka := c.FMulC(a.node, k)
		if lo, hi := ka.rng(); lo < -(1<<61) || hi > 1<<61 {
			continue
		}
		d := &FNode{c0: f.c0}
		for j := range f.ms {
			if j != i {
				d.ms = append(d.ms, f.ms[j])
				d.cs = append(d.cs, f.cs[j])
			}
		}
		if c.fmk(d) != ka {
			continue
		}
		t := c.FRoundOp(FTrunc, ka)
		if !t.integral() {
			continue
		}
		r := &FNode{c0: t.c0}
		r.ms, r.cs = c.fmerge(t, c.FMulC(c.FVar(a), k), -1)
		return c.fmk(r)
	}
	return nil
}

func roundF(op FOp, v float64) float64 {
	switch op {
	case FTrunc:
		return math.Trunc(v)
	case FRound:
		return math.Round(v)
	case FFloor:
		return math.Floor(v)
	case FCeil:
		return math.Ceil(v)
	}
	return math.RoundToEven(v)
}

// snap handles rounding of a node whose coefficients are all near integers.
func (c *Ctx) snap(op FOp, f *FNode) *FNode {
	dev := f.err
	k0 := math.Round(f.c0)
	frac0 := f.c0 - k0
	cs := make([]float64, 0, len(f.cs))
	ms := make([]*Mono, 0, len(f.cs))
	kmag := 0.0
	for i, m := range f.ms {
		if m.real {
			// small real contribution is a deviation
			dev += math.Abs(f.cs[i]) * m.max
			continue
		}
		k := math.Round(f.cs[i])
		dev += math.Abs(f.cs[i]-k) * m.max
		if k != 0 {
			ms = append(ms, m)
			cs = append(cs, k)
			kmag += math.Abs(k) * m.max
		}
	}
	dev *= 1 + 1e-9
	dev += math.Abs(frac0)
	if kmag+math.Abs(k0)+dev > 1<<53 {
		for _, k := range cs {
			if math.Abs(k) > 1<<60 {
				return nil
			}
		}
		lo, hi := f.rng()
		if math.Abs(k0) > 1<<60 || math.Max(-lo, hi)+dev > 1<<53 {
			return nil
		}
	}
	if dev < 0.5 {
		return c.fmk(&FNode{ms: ms, cs: cs, c0: k0})
	}
	if len(ms) == 0 || dev > 1<<28 || dev > 0.25*kmag {
		return nil
	}
	a := &Atom{kind: AErr, node: f, w: 64}
	b := int64(math.Floor(dev + 0.5))
	a.lo, a.hi = -b, b
	c.newAtom(a)
	base := c.fmk(&FNode{ms: ms, cs: cs, c0: k0})
	r := &FNode{c0: base.c0}
	r.ms, r.cs = c.fmerge(base, c.FVar(a), 1)
	return c.fmk(r)
}

// FCmp returns a rel b.
func (c *Ctx) FCmp(rel Rel, a, b *FNode) *Bool {
	if a == b {
		return c.Bool(rel != RLt)
	}
	if a.isConst() && b.isConst() {
		switch rel {
		case RLt:
			return c.Bool(a.c0 < b.c0)
		case RLe:
			return c.Bool(a.c0 <= b.c0)
		default:
			return c.Bool(a.c0 == b.c0)
		}
	}
	// exact integral forms: integer comparison
	if a.integral() && b.integral() && a.mag+b.mag < 1<<61 {
		ta, ok1 := c.FToTerm(a, 64)
		tb, ok2 := c.FToTerm(b, 64)
		if ok1 && ok2 {
			switch rel {
			case RLt:
				return c.SLt(ta, tb)
			case RLe:
				return c.Not(c.SLt(tb, ta))
			default:
				return c.Eq(ta, tb)
			}
		}
	}
	// interval on the difference
	ms, cs := c.fmerge(a, b, -1)
	d := &FNode{ms: ms, cs: cs, c0: a.c0 - b.c0, err: a.err + b.err}
	d.mag = math.Abs(d.c0)
	for i, m := range ms {
		d.mag += math.Abs(cs[i]) * m.max
	}
	d.gran = noGran
	lo, hi := d.rng()
	lo -= math.Abs(lo) * u53 * 4
	hi += math.Abs(hi) * u53 * 4
	switch rel {
	case RLt:
		if hi < 0 {
			return c.True
		}
		if lo >= 0 {
			return c.False
		}
	case RLe:
		if hi <= 0 {
			return c.True
		}
		if lo > 0 {
			return c.False
		}
	case REq:
		if lo > 0 || hi < 0 {
			return c.False
		}
	}
	return c.mkBool(fmt.Sprintf("f%d.%d.%d", rel, a.id, b.id), &Bool{kind: BFCmp, rel: rel, f: a, g: b})
}

// FMod computes math.Mod(a, m) for constant m > 0.
func (c *Ctx) FMod(a *FNode, m float64) *FNode {
	m = math.Abs(m)
	if a.isConst() {
		return c.FConst(math.Mod(a.c0, m))
	}
	lo, hi := a.rng()
	if lo > -m && hi < m {
		return a
	}
	if m != 1 {
		if !isPow2F(m) {
			panic(unsupported("math.Mod by a non power of two"))
		}
		return c.FMulC(c.FMod(c.FMulC(a, 1/m), 1), m)
	}
	q := c.FRoundOp(FTrunc, a)
	// the fractional part is exact in floating point
	r := &FNode{c0: a.c0 - q.c0, err: a.err}
	r.ms, r.cs = c.fmerge(a, q, -1)
	if a.err != 0 || !exactFits(a.mag+q.mag, min(a.gran, q.gran)) {
		r.err = a.err + 2*u53*(a.mag+q.mag)
		if a.err == 0 && a.gran > noGran {
			r.err = 0
		}
		if a.err == 0 && len(a.ms) == 1 && a.ms[0].real {
			r.err = 0
		}
	}
	r = c.fmk(r)
	return r
}

func (c *Ctx) FAbs(a *FNode) *FNode {
	lo, hi := a.rng()
	if lo >= 0 {
		return a
	}
	if hi <= 0 {
		return c.FNeg(a)
	}
	return c.FIte(c.FCmp(RLt, a, c.FConst(0)), c.FNeg(a), a)
}

func (f *FNode) String() string {
	s := fmt.Sprintf("f%d{%g", f.id, f.c0)
	for i, m := range f.ms {
		if i > 4 {
			s += fmt.Sprintf("..%d", len(f.ms))
			break
		}
		s += fmt.Sprintf(" + %g", f.cs[i])
		for _, a := range m.atoms {
			s += "*" + a.String()
		}
	}
	return s + fmt.Sprintf(" +-%g}", f.err)
}
