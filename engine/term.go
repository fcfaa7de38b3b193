package main

// Symbolic integers and booleans.
//
// Integer terms are kept in polynomial normal form  c0 + sum c_i * m_i  (mod 2^w)
// over monomials of integer-valued atoms. Atoms are input variables, bit slices
// of terms, signed values of terms, 0/1 values of booleans, opaque operations and
// integers obtained from floating-point values.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
	"sync/atomic"
)

type AtomKind uint8

const (
	AVar    AtomKind = iota // integer input variable in [lo,hi]
	ASlice                  // bits [sl, sl+sn) of t
	ASigned                 // signed value of t
	AB2I                    // 0/1 value of b
	AOp                     // opaque operation op(a1,a2) on width w
	AFInt                   // rounding of a float node to an integer
	AErr                    // bounded integer rounding residual of a float node
	AReal                   // real-valued variable (float input / gaussian draw)
)

type OpKind uint8

const (
	OpAnd OpKind = iota
	OpOr
	OpXor
	OpUDiv
	OpSDiv
	OpMul
	OpShl
	OpShr
	OpSar
	OpURem
	OpSRem
)

var opNames = []string{"and", "or", "xor", "udiv", "sdiv", "mul", "shl", "lshr", "ashr", "urem", "srem"}

type Atom struct {
	id       int32
	kind     AtomKind
	op       OpKind
	sl, sn   uint8
	w        uint8 // width of the value for bit-vector encoding
	big      bool  // integer range unknown (64-bit)
	lo, hi   int64
	flo, fhi float64
	t        *Term
	b        *Bool
	a1, a2   *Term
	node     *FNode
	fop      FOp
	name     string
	in       *Input
	mono     *Mono
	bound    bool
	bval     int64
}

type Mono struct {
	id     int32
	atoms  []*Atom
	rok    bool
	lo, hi int64
	max    float64 // max |value|
	real   bool    // contains a real atom
	expw   uint8   // expandable in widths <= expw
	is01   bool
}

type Term struct {
	id     int32
	w      uint8
	ms     []*Mono
	cs     []int64
	c0     int64
	rok    bool
	lo, hi int64
}

type BKind uint8

const (
	BConst BKind = iota
	BAtom
	BEq  // t == v (mod 2^w), t without constant
	BULt // x < y unsigned
	BSLt
	BNot
	BAnd
	BFCmp // f rel g
	BBind // the definition of atom a has value v
)

type Rel uint8

const (
	RLt Rel = iota
	RLe
	REq
)

type Bool struct {
	id   int32
	kind BKind
	val  bool
	a    *Atom
	t    *Term
	v    int64
	x, y *Term
	bs   []*Bool
	rel  Rel
	f, g *FNode
	b2i  *Atom
	neg  *Bool
}

type Ctx struct {
	atoms   []*Atom
	monos   []*Mono
	atomTab map[string]*Atom
	monoTab map[string]*Mono
	termTab map[uint64][]*Term
	boolTab map[string]*Bool
	nterm   int32
	nbool   int32
	True    *Bool
	False   *Bool
	// floats
	nf          int32
	fmemo       map[fkey]*FNode
	fexact      map[uint64][]*FNode
	one         *Mono
	boundSlices []*Atom
	kill        atomic.Bool // set by the memory guard: the path gives up
}

// size counts the values a path holds (read by the memory guard while the path runs).
func (c *Ctx) size() int64 {
	return int64(len(c.atoms)) + int64(len(c.monos)) + int64(c.nterm) + int64(c.nbool) + int64(c.nf)
}

func (c *Ctx) alive() {
	if c.kill.Load() {
		panic(pathEnd{"memory"})
	}
}

func NewCtx() *Ctx {
	c := &Ctx{atomTab: map[string]*Atom{}, monoTab: map[string]*Mono{}, termTab: map[uint64][]*Term{}, boolTab: map[string]*Bool{}, fmemo: map[fkey]*FNode{}, fexact: map[uint64][]*FNode{}}
	c.True = &Bool{id: 0, kind: BConst, val: true}
	c.False = &Bool{id: 1, kind: BConst, val: false}
	c.True.neg, c.False.neg = c.False, c.True
	c.nbool = 2
	return c
}

// ---------- arithmetic helpers ----------

func canon(v int64, w uint8) int64 {
	if w >= 64 {
		return v
	}
	s := 64 - w
	return v << s >> s
}
func umask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}
func addOK(a, b int64) (int64, bool) {
	s := a + b
	if (a >= 0) == (b >= 0) && (s >= 0) != (a >= 0) {
		return 0, false
	}
	return s, true
}
func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	ua, ub := uint64(a), uint64(b)
	neg := false
	if a < 0 {
		ua = -ua
		neg = !neg
	}
	if b < 0 {
		ub = -ub
		neg = !neg
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > 1<<62 {
		return 0, false
	}
	if neg {
		return -int64(lo), true
	}
	return int64(lo), true
}

// ---------- atoms and monomials ----------

func (c *Ctx) newAtom(a *Atom) *Atom {
	a.id = int32(len(c.atoms))
	c.atoms = append(c.atoms, a)
	if a.kind != AReal {
		if a.big {
			a.flo, a.fhi = 0, math.Exp2(64)
		} else {
			a.flo, a.fhi = float64(a.lo), float64(a.hi)
		}
	}
	a.mono = c.mono([]*Atom{a})
	return a
}

func (c *Ctx) mono(as []*Atom) *Mono {
	var sb strings.Builder
	for _, a := range as {
		sb.WriteByte(byte(a.id))
		sb.WriteByte(byte(a.id >> 8))
		sb.WriteByte(byte(a.id >> 16))
		sb.WriteByte(byte(a.id >> 24))
	}
	k := sb.String()
	if m := c.monoTab[k]; m != nil {
		return m
	}
	m := &Mono{id: int32(len(c.monos)), atoms: append([]*Atom(nil), as...), rok: true, lo: 1, hi: 1, max: 1, is01: true}
	for _, a := range as {
		if a.kind == AReal {
			m.real = true
			m.rok = false
			m.is01 = false
		}
		if a.big {
			m.rok = false
		}
		if a.big || a.lo < 0 || a.hi > 1 {
			m.is01 = false
		}
		if m.rok {
			var l, h int64 = math.MaxInt64, math.MinInt64
			for _, x := range [2]int64{m.lo, m.hi} {
				for _, y := range [2]int64{a.lo, a.hi} {
					p, ok := mulOK(x, y)
					if !ok {
						m.rok = false
					}
					l = min(l, p)
					h = max(h, p)
				}
			}
			m.lo, m.hi = l, h
		}
		m.max *= math.Max(math.Abs(a.flo), math.Abs(a.fhi))
		if a.kind == ASlice && a.sl == 0 && a.sn > m.expw {
			m.expw = a.sn
		}
		if a.kind == ASigned && a.t.w > m.expw {
			m.expw = a.t.w
		}
	}
	c.monos = append(c.monos, m)
	c.monoTab[k] = m
	return m
}

func isEqB(a *Atom) (*Term, int64, bool) {
	if a.kind == AB2I && a.b.kind == BEq {
		return a.b.t, a.b.v, true
	}
	return nil, 0, false
}

// eqIntegral: t==v modulo 2^w implies that the (single-atom) polynomial equals v
// as an integer.
func eqIntegral(t *Term, v int64) bool {
	return t.rok && v >= t.lo && v <= t.hi && (t.w >= 63 || t.hi-t.lo < int64(1)<<t.w)
}

// mulMono multiplies monomials; returns factor 0 when the product vanishes.
func (c *Ctx) mulMono(x, y *Mono) (*Mono, int64) {
	if x == nil {
		return y, 1
	}
	if y == nil {
		return x, 1
	}
	as := make([]*Atom, 0, len(x.atoms)+len(y.atoms))
	i, j := 0, 0
	for i < len(x.atoms) || j < len(y.atoms) {
		var a *Atom
		if j >= len(y.atoms) || i < len(x.atoms) && x.atoms[i].id <= y.atoms[j].id {
			a = x.atoms[i]
			i++
		} else {
			a = y.atoms[j]
			j++
		}
		if n := len(as); n > 0 && as[n-1] == a && a.kind != AReal && !a.big && a.lo >= 0 && a.hi <= 1 {
			continue
		}
		as = append(as, a)
	}
	f := int64(1)
	for i := 0; i < len(as); i++ {
		t, v, ok := isEqB(as[i])
		if !ok {
			continue
		}
		for j := i + 1; j < len(as); j++ {
			if t2, v2, ok := isEqB(as[j]); ok && t2 == t && v2 != v {
				return nil, 0
			}
		}
		if len(t.ms) == 1 && t.cs[0] == 1 && len(t.ms[0].atoms) == 1 && eqIntegral(t, v) {
			xa := t.ms[0].atoms[0]
			for j := 0; j < len(as); j++ {
				if as[j] == xa {
					p, ok := mulOK(f, v)
					if !ok {
						break
					}
					f = p
					as = append(as[:j:j], as[j+1:]...)
					if j < i {
						i--
					}
					j--
				}
			}
			if f == 0 {
				return nil, 0
			}
		}
	}
	return c.mono(as), f
}

// ---------- terms ----------

func (c *Ctx) Const(v int64, w uint8) *Term {
	return c.mk(w, nil, nil, canon(v, w))
}

func (t *Term) isConst() bool { return len(t.ms) == 0 }
func (t *Term) uval() uint64  { return uint64(t.c0) & umask(t.w) }

func hashTerm(w uint8, ms []*Mono, cs []int64, c0 int64) uint64 {
	h := uint64(w)*0x9E3779B97F4A7C15 ^ uint64(c0)*0xff51afd7ed558ccd
	for i, m := range ms {
		h = (h ^ uint64(m.id)) * 0xff51afd7ed558ccd
		h ^= h >> 29
		h = (h ^ uint64(cs[i])) * 0xc4ceb9fe1a85ec53
		h ^= h >> 32
	}
	return h
}

func (c *Ctx) mk(w uint8, ms []*Mono, cs []int64, c0 int64) *Term {
	h := hashTerm(w, ms, cs, c0)
next:
	for _, t := range c.termTab[h] {
		if t.w != w || t.c0 != c0 || len(t.ms) != len(ms) {
			continue
		}
		for i := range ms {
			if ms[i] != t.ms[i] || cs[i] != t.cs[i] {
				continue next
			}
		}
		return t
	}
	c.alive()
	c.nterm++
	t := &Term{id: c.nterm, w: w, ms: ms, cs: cs, c0: c0}
	t.rok, t.lo, t.hi = true, c0, c0
	for i, m := range ms {
		if !m.rok {
			t.rok = false
			break
		}
		a, ok1 := mulOK(cs[i], m.lo)
		b, ok2 := mulOK(cs[i], m.hi)
		if a > b {
			a, b = b, a
		}
		l, ok3 := addOK(t.lo, a)
		hh, ok4 := addOK(t.hi, b)
		if !(ok1 && ok2 && ok3 && ok4) {
			t.rok = false
			break
		}
		t.lo, t.hi = l, hh
	}
	c.termTab[h] = append(c.termTab[h], t)
	return t
}

// lin computes ca*a + cb*b.
func (c *Ctx) lin(a *Term, ca int64, b *Term, cb int64) *Term {
	w := a.w
	if b.w != w {
		panic(fmt.Sprintf("lin: width mismatch %d %d", a.w, b.w))
	}
	ms := make([]*Mono, 0, len(a.ms)+len(b.ms))
	cs := make([]int64, 0, len(a.ms)+len(b.ms))
	i, j := 0, 0
	for i < len(a.ms) || j < len(b.ms) {
		if j >= len(b.ms) || i < len(a.ms) && a.ms[i].id < b.ms[j].id {
			if v := canon(ca*a.cs[i], w); v != 0 {
				ms = append(ms, a.ms[i])
				cs = append(cs, v)
			}
			i++
		} else if i >= len(a.ms) || b.ms[j].id < a.ms[i].id {
			if v := canon(cb*b.cs[j], w); v != 0 {
				ms = append(ms, b.ms[j])
				cs = append(cs, v)
			}
			j++
		} else {
			if v := canon(ca*a.cs[i]+cb*b.cs[j], w); v != 0 {
				ms = append(ms, a.ms[i])
				cs = append(cs, v)
			}
			i++
			j++
		}
	}
	return c.mk(w, ms, cs, canon(ca*a.c0+cb*b.c0, w))
}

func (c *Ctx) Add(a, b *Term) *Term { return c.lin(a, 1, b, 1) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.lin(a, 1, b, -1) }
func (c *Ctx) Neg(a *Term) *Term    { return c.Scale(a, -1) }
func (c *Ctx) AddC(a *Term, k int64) *Term {
	return c.mk(a.w, a.ms, a.cs, canon(a.c0+k, a.w))
}
func (c *Ctx) Scale(a *Term, k int64) *Term {
	if k == 1 {
		return a
	}
	ms := make([]*Mono, 0, len(a.ms))
	cs := make([]int64, 0, len(a.ms))
	for i, m := range a.ms {
		if v := canon(k*a.cs[i], a.w); v != 0 {
			ms = append(ms, m)
			cs = append(cs, v)
		}
	}
	return c.mk(a.w, ms, cs, canon(k*a.c0, a.w))
}

// build normalises an unsorted sum.
type polyB struct {
	c  *Ctx
	w  uint8
	m  map[int32]int64
	c0 int64
}

func (c *Ctx) newB(w uint8) *polyB { return &polyB{c: c, w: w, m: map[int32]int64{}} }
func (p *polyB) add(m *Mono, k int64) {
	if m == nil {
		p.c0 += k
		return
	}
	p.m[m.id] += k
}
func (p *polyB) addTerm(t *Term, k int64) {
	p.c0 += k * t.c0
	for i, m := range t.ms {
		p.m[m.id] += k * t.cs[i]
	}
}
func (p *polyB) done() *Term {
	ids := make([]int32, 0, len(p.m))
	for id, v := range p.m {
		if canon(v, p.w) != 0 {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	ms := make([]*Mono, len(ids))
	cs := make([]int64, len(ids))
	for i, id := range ids {
		ms[i] = p.c.monos[id]
		cs[i] = canon(p.m[id], p.w)
	}
	return p.c.mk(p.w, ms, cs, canon(p.c0, p.w))
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.Scale(b, a.c0)
	}
	if b.isConst() {
		return c.Scale(a, b.c0)
	}
	if len(a.ms)*len(b.ms) > 60000 {
		return c.opaque(OpMul, a, b)
	}
	p := c.newB(a.w)
	p.c0 = a.c0 * b.c0
	for i, m := range a.ms {
		if b.c0 != 0 {
			p.add(m, a.cs[i]*b.c0)
		}
		for j, n := range b.ms {
			q, f := c.mulMono(m, n)
			if f != 0 {
				p.add(q, a.cs[i]*b.cs[j]*f)
			}
		}
	}
	if a.c0 != 0 {
		for j, n := range b.ms {
			p.add(n, b.cs[j]*a.c0)
		}
	}
	return p.done()
}

// monoTerm returns the monomial as a term of width w, expanding atoms that are
// congruent to simpler terms modulo 2^w.
func (c *Ctx) monoTerm(m *Mono, w uint8) *Term {
	if m.expw < w {
		return c.mk(w, []*Mono{m}, []int64{canon(1, w)}, 0)
	}
	r := c.Const(1, w)
	for _, a := range m.atoms {
		r = c.Mul(r, c.atomTerm(a, w))
	}
	return r
}

func (c *Ctx) atomTerm(a *Atom, w uint8) *Term {
	if a.bound {
		return c.Const(a.bval, w)
	}
	if a.kind == ASlice && a.sl == 0 && a.sn >= w || a.kind == ASigned && a.t.w >= w {
		return c.Trunc(a.t, w)
	}
	return c.mk(w, []*Mono{a.mono}, []int64{canon(1, w)}, 0)
}

// Trunc reduces t modulo 2^w.
func (c *Ctx) Trunc(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if w > t.w {
		panic("Trunc to wider")
	}
	exp := false
	for _, m := range t.ms {
		if m.expw >= w {
			exp = true
			break
		}
	}
	if !exp {
		ms := make([]*Mono, 0, len(t.ms))
		cs := make([]int64, 0, len(t.ms))
		for i, m := range t.ms {
			if v := canon(t.cs[i], w); v != 0 {
				ms = append(ms, m)
				cs = append(cs, v)
			}
		}
		return c.mk(w, ms, cs, canon(t.c0, w))
	}
	p := c.newB(w)
	p.c0 = t.c0
	for i, m := range t.ms {
		if canon(t.cs[i], w) == 0 {
			continue
		}
		if m.expw >= w {
			p.addTerm(c.monoTerm(m, w), t.cs[i])
		} else {
			p.add(m, t.cs[i])
		}
	}
	return p.done()
}

// urange returns the range of the unsigned value; nowrap tells whether the
// polynomial itself (as an integer) is that value.
func (t *Term) urange() (lo, hi uint64, nowrap bool) {
	if t.rok && t.lo >= 0 && (t.w >= 64 || uint64(t.hi) <= umask(t.w)) {
		return uint64(t.lo), uint64(t.hi), true
	}
	return 0, umask(t.w), false
}
func (t *Term) srange() (lo, hi int64, nowrap bool) {
	l, h := int64(-1)<<(t.w-1), int64(1)<<(t.w-1)-1
	if t.w >= 64 {
		l, h = math.MinInt64, math.MaxInt64
	}
	if t.rok && t.lo >= l && t.hi <= h {
		return t.lo, t.hi, true
	}
	return l, h, false
}

func (c *Ctx) widen(t *Term, w uint8, k int64) *Term {
	return c.mk(w, t.ms, t.cs, canon(t.c0+k, w))
}

func (c *Ctx) ZExt(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return c.Trunc(t, w)
	}
	if _, _, ok := t.urange(); ok {
		return c.widen(t, w, 0)
	}
	if t.rok && t.w < 62 {
		m := int64(1) << t.w
		if t.lo >= -m && t.hi < 0 {
			return c.widen(t, w, m)
		}
		if t.lo >= m && t.hi < 2*m {
			return c.widen(t, w, -m)
		}
	}
	return c.atomTerm(c.sliceAtom(t, 0, t.w), w)
}

func (c *Ctx) SExt(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return c.Trunc(t, w)
	}
	if _, _, ok := t.srange(); ok {
		return c.widen(t, w, 0)
	}
	if t.rok && t.w < 62 {
		m := int64(1) << t.w
		h := m / 2
		if t.lo >= -m-h && t.hi < -m+h {
			return c.widen(t, w, m)
		}
		if t.lo >= h && t.hi < m+h {
			return c.widen(t, w, -m)
		}
	}
	if t.isConst() {
		return c.Const(t.c0, w)
	}
	return c.atomTerm(c.signedAtom(t), w)
}

func (c *Ctx) signedAtom(t *Term) *Atom {
	k := fmt.Sprintf("g%d", t.id)
	if a := c.atomTab[k]; a != nil {
		return a
	}
	l, h, _ := t.srange()
	a := c.newAtom(&Atom{kind: ASigned, t: t, w: t.w, lo: l, hi: h})
	c.atomTab[k] = a
	return a
}

func (c *Ctx) sliceAtom(t *Term, lo, n uint8) *Atom {
	if t.w != lo+n {
		t = c.Trunc(t, lo+n)
	}
	k := fmt.Sprintf("s%d.%d", t.id, lo)
	if a := c.atomTab[k]; a != nil {
		return a
	}
	a := &Atom{kind: ASlice, t: t, sl: lo, sn: n, w: n}
	if n >= 63 {
		a.big = true
	} else {
		a.hi = int64(1)<<n - 1
		if _, hi, ok := t.urange(); ok && hi>>lo < uint64(a.hi) {
			a.hi = int64(hi >> lo)
		}
	}
	c.newAtom(a)
	c.atomTab[k] = a
	return a
}

// Slice returns bits [lo,lo+n) of t as a term of width w (zero extended).
func (c *Ctx) Slice(t *Term, lo, n, w uint8) *Term {
	if n == 0 {
		return c.Const(0, w)
	}
	if lo >= t.w {
		return c.Const(0, w)
	}
	if lo+n > t.w {
		n = t.w - lo
	}
	if t.isConst() {
		return c.Const(int64(t.uval()>>lo&umask(n)), w)
	}
	if lo == 0 && w <= n {
		return c.Trunc(t, w)
	}
	if _, hi, ok := t.urange(); ok {
		// integer value known without wrap
		if hi>>lo == 0 {
			return c.Const(0, w)
		}
		if b := uint8(bits.Len64(hi >> lo)); b < n {
			n = b
		}
		if lo == 0 && hi <= umask(n) && w >= t.w {
			return c.widen(t, w, 0)
		}
		if lo == 0 && hi <= umask(n) && w < t.w {
			return c.Trunc(t, w)
		}
	}
	if lo+n < t.w {
		t = c.Trunc(t, lo+n)
		if t.isConst() {
			return c.Const(int64(t.uval()>>lo&umask(n)), w)
		}
	}
	// single slice atom
	if len(t.ms) == 1 && t.c0 == 0 && (t.cs[0] == 1 || t.w == 1 && t.cs[0] == -1) && len(t.ms[0].atoms) == 1 {
		a := t.ms[0].atoms[0]
		if a.kind == ASlice && !a.bound {
			if lo >= a.sn {
				return c.Const(0, w)
			}
			nn := min(n, a.sn-lo)
			if !(a.sl+lo == a.sl && nn == a.sn) {
				return c.Slice(a.t, a.sl+lo, nn, w)
			}
		}
	}
	if lo > 0 {
		// drop a low part that cannot carry
		var hm []*Mono
		var hc []int64
		var lm []*Mono
		var lc []int64
		hc0 := t.c0 >> lo << lo
		lc0 := t.c0 - hc0
		for i, m := range t.ms {
			if t.cs[i]&int64(umask(lo)) == 0 {
				hm = append(hm, m)
				hc = append(hc, t.cs[i])
			} else {
				lm = append(lm, m)
				lc = append(lc, t.cs[i])
			}
		}
		okLow := true
		if len(lm) > 0 {
			low := c.mk(64, lm, lc, lc0)
			if !low.rok {
				okLow = false
			} else if low.lo < 0 || low.hi>>lo != 0 {
				// shift whole multiples of 2^lo between the constant parts
				q := low.lo >> lo
				if low.hi>>lo == q {
					hc0 += q << lo
				} else {
					okLow = false
				}
			}
		}
		if okLow {
			hs := make([]int64, len(hc))
			for i := range hc {
				hs[i] = hc[i] >> lo
			}
			w2 := t.w - lo
			ms := hm[:0:0]
			cs := hs[:0:0]
			for i := range hm {
				if v := canon(hs[i], w2); v != 0 {
					ms = append(ms, hm[i])
					cs = append(cs, v)
				}
			}
			nt := c.mk(w2, ms, cs, canon(hc0>>lo, w2))
			// expansions may be possible at the smaller width
			nt = c.renorm(nt)
			return c.Slice(nt, 0, n, w)
		}
	}
	for _, b := range c.boundSlices {
		// bits of a slice whose value is already fixed on this path
		if lo >= b.sl && lo+n <= b.sl+b.sn && c.Trunc(b.t, lo+n) == t {
			return c.Const(b.bval>>(lo-b.sl)&int64(umask(n)), w)
		}
		if m := b.sl + b.sn; lo == b.sl && lo+n > m && c.Trunc(t, m) == b.t {
			return c.Add(c.Const(b.bval, w), c.Scale(c.Slice(t, m, lo+n-m, w), int64(1)<<b.sn))
		}
	}
	a := c.sliceAtom(t, lo, n)
	return c.atomTerm(a, w)
}

func (c *Ctx) renorm(t *Term) *Term {
	for _, m := range t.ms {
		if m.expw >= t.w {
			p := c.newB(t.w)
			p.c0 = t.c0
			for i, m := range t.ms {
				if m.expw >= t.w {
					p.addTerm(c.monoTerm(m, t.w), t.cs[i])
				} else {
					p.add(m, t.cs[i])
				}
			}
			return p.done()
		}
	}
	return t
}

func (t *Term) tz() uint8 {
	z := uint8(bits.TrailingZeros64(uint64(t.c0)))
	if t.c0 == 0 {
		z = t.w
	}
	for _, k := range t.cs {
		z = min(z, uint8(bits.TrailingZeros64(uint64(k))))
	}
	return min(z, t.w)
}

func (c *Ctx) opaque(op OpKind, a, b *Term) *Term {
	k := fmt.Sprintf("o%d.%d.%d", op, a.id, b.id)
	at := c.atomTab[k]
	if at == nil {
		at = &Atom{kind: AOp, op: op, a1: a, a2: b, w: a.w}
		_, ha, _ := a.urange()
		_, hb, _ := b.urange()
		hi := umask(a.w)
		switch op {
		case OpAnd:
			hi = min(ha, hb)
		case OpOr, OpXor:
			hi = 1<<uint(bits.Len64(ha|hb)) - 1
			if bits.Len64(ha|hb) == 64 {
				hi = ^uint64(0)
			}
		case OpUDiv:
			if b.isConst() && b.uval() != 0 {
				hi = ha / b.uval()
			} else {
				hi = ha
			}
		case OpURem:
			if b.isConst() && b.uval() != 0 {
				hi = b.uval() - 1
			} else {
				hi = ha
			}
		case OpShr:
			hi = ha
		case OpSDiv:
			l, h, _ := a.srange()
			if b.isConst() && b.c0 > 0 {
				at.lo, at.hi = l/b.c0, h/b.c0
			} else {
				at.lo, at.hi = l, h
				if l == math.MinInt64 {
					at.big = true
				} else {
					m := max(-l, h)
					at.lo, at.hi = -m, m
				}
			}
		case OpSRem:
			l, h, _ := a.srange()
			if b.isConst() && b.c0 > 0 {
				at.lo, at.hi = -b.c0+1, b.c0-1
				if l >= 0 {
					at.lo = 0
				}
				if h <= 0 {
					at.hi = 0
				}
			} else {
				at.lo, at.hi = l, h
			}
		}
		if op != OpSDiv && op != OpSRem {
			if hi > 1<<62 {
				at.big = true
			} else {
				at.hi = int64(hi)
			}
		}
		c.newAtom(at)
		c.atomTab[k] = at
	}
	return c.atomTerm(at, a.w)
}

func isPow2(v uint64) bool { return v != 0 && v&(v-1) == 0 }

func (c *Ctx) And(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		m := b.uval()
		if a.isConst() {
			return c.Const(int64(a.uval()&m), a.w)
		}
		r := c.Const(0, a.w)
		for m != 0 {
			lo := uint8(bits.TrailingZeros64(m))
			n := uint8(bits.TrailingZeros64(^(m >> lo)))
			s := c.Slice(a, lo, n, a.w)
			r = c.lin(r, 1, s, int64(uint64(1)<<lo))
			m &^= umask(n) << lo
		}
		return r
	}
	if a == b {
		return a
	}
	if _, h, _ := a.urange(); h>>b.tz() == 0 && b.tz() < 64 {
		return c.Const(0, a.w)
	}
	if _, h, _ := b.urange(); h>>a.tz() == 0 && a.tz() < 64 {
		return c.Const(0, a.w)
	}
	if _, ha, ok := a.urange(); ok && ha <= 1 {
		return c.Mul(a, c.Slice(b, 0, 1, b.w))
	}
	if _, hb, ok := b.urange(); ok && hb <= 1 {
		return c.Mul(b, c.Slice(a, 0, 1, a.w))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.opaque(OpAnd, a, b)
}
func (c *Ctx) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	x := c.And(a, b)
	if x.isConst() || b.isConst() || a.isConst() {
		return c.Sub(c.Add(a, b), x)
	}
	if len(x.ms) == 1 && x.ms[0].atoms[0].kind == AOp {
		if a.id > b.id {
			a, b = b, a
		}
		return c.opaque(OpOr, a, b)
	}
	return c.Sub(c.Add(a, b), x)
}
func (c *Ctx) Xor(a, b *Term) *Term {
	if a == b {
		return c.Const(0, a.w)
	}
	if b.isConst() && b.c0 == -1 {
		return c.lin(c.Const(-1, a.w), 1, a, -1)
	}
	if a.isConst() && a.c0 == -1 {
		return c.lin(c.Const(-1, a.w), 1, b, -1)
	}
	x := c.And(a, b)
	if len(x.ms) == 1 && x.ms[0].atoms[0].kind == AOp && !a.isConst() && !b.isConst() {
		if a.id > b.id {
			a, b = b, a
		}
		return c.opaque(OpXor, a, b)
	}
	return c.lin(c.Add(a, b), 1, x, -2)
}

func (c *Ctx) ShlC(a *Term, k uint64) *Term {
	if k >= uint64(a.w) {
		return c.Const(0, a.w)
	}
	return c.Scale(a, int64(uint64(1)<<k))
}
func (c *Ctx) ShrC(a *Term, k uint64) *Term {
	if k >= uint64(a.w) {
		return c.Const(0, a.w)
	}
	return c.Slice(a, uint8(k), a.w-uint8(k), a.w)
}
func (c *Ctx) SarC(a *Term, k uint64) *Term {
	if k >= uint64(a.w) {
		k = uint64(a.w) - 1
	}
	if k == 0 {
		return a
	}
	l, _, _ := a.srange()
	s := c.Slice(a, uint8(k), a.w-uint8(k), a.w-uint8(k))
	if l >= 0 {
		return c.ShrC(a, k)
	}
	return c.SExt(s, a.w)
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	if b.isConst() {
		v := b.uval()
		if a.isConst() {
			return c.Const(int64(a.uval()/v), a.w)
		}
		if isPow2(v) {
			return c.ShrC(a, uint64(bits.TrailingZeros64(v)))
		}
		if l, h, _ := a.urange(); l/v == h/v {
			return c.Const(int64(l/v), a.w)
		}
	}
	return c.opaque(OpUDiv, a, b)
}
func (c *Ctx) URem(a, b *Term) *Term {
	if b.isConst() && isPow2(b.uval()) {
		return c.Slice(a, 0, uint8(bits.TrailingZeros64(b.uval())), a.w)
	}
	if b.isConst() && !a.isConst() {
		if _, h, ok := a.urange(); !ok && a.w == 64 || h > 1<<40 {
			return c.opaque(OpURem, a, b)
		}
	}
	return c.Sub(a, c.Mul(c.UDiv(a, b), b))
}
func (c *Ctx) SDiv(a, b *Term) *Term {
	la, ha, _ := a.srange()
	lb, _, _ := b.srange()
	if la >= 0 && lb > 0 {
		return c.UDiv(a, b)
	}
	if b.isConst() {
		v := b.c0
		if a.isConst() {
			return c.Const(a.c0/v, a.w)
		}
		if v > 0 && la/v == ha/v && (la >= 0 || ha <= 0 || la/v == 0) {
			return c.Const(la/v, a.w)
		}
	}
	return c.opaque(OpSDiv, a, b)
}
func (c *Ctx) SRem(a, b *Term) *Term {
	if l, _, _ := a.srange(); l >= 0 && b.isConst() && b.c0 > 0 && isPow2(b.uval()) {
		return c.URem(a, b)
	}
	if b.isConst() && b.c0 > 0 && !a.isConst() {
		if l, h, ok := a.srange(); !ok && a.w == 64 || h > 1<<40 || l < -(1<<40) {
			if l >= 0 && isPow2(b.uval()) {
				return c.URem(a, b)
			}
			return c.opaque(OpSRem, a, b)
		}
	}
	return c.Sub(a, c.Mul(c.SDiv(a, b), b))
}

// ---------- booleans ----------

func (c *Ctx) Bool(v bool) *Bool {
	if v {
		return c.True
	}
	return c.False
}
func (b *Bool) isConst() bool { return b.kind == BConst }

func (c *Ctx) mkBool(key string, b *Bool) *Bool {
	if x := c.boolTab[key]; x != nil {
		return x
	}
	c.alive()
	b.id = c.nbool
	c.nbool++
	c.boolTab[key] = b
	return b
}

func (c *Ctx) AtomTrue(a *Atom) *Bool {
	if a.bound {
		return c.Bool(a.bval != 0)
	}
	if a.kind == AB2I {
		return a.b
	}
	return c.mkBool(fmt.Sprintf("a%d", a.id), &Bool{kind: BAtom, a: a})
}

func (c *Ctx) Not(b *Bool) *Bool {
	if b.neg != nil {
		return b.neg
	}
	n := c.mkBool(fmt.Sprintf("n%d", b.id), &Bool{kind: BNot, bs: []*Bool{b}})
	b.neg = n
	n.neg = b
	return n
}

func (c *Ctx) AndB(xs ...*Bool) *Bool {
	var bs []*Bool
	for _, x := range xs {
		if x.kind == BConst {
			if !x.val {
				return c.False
			}
			continue
		}
		if x.kind == BAnd {
			bs = append(bs, x.bs...)
		} else {
			bs = append(bs, x)
		}
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	o := bs[:0]
	for i, b := range bs {
		if i > 0 && bs[i-1] == b {
			continue
		}
		o = append(o, b)
	}
	bs = o
	set := map[*Bool]bool{}
	for _, b := range bs {
		set[b] = true
	}
	type eqk struct{ t *Term }
	var eqs map[*Term]int64
	for _, b := range bs {
		if b.kind == BNot && set[b.bs[0]] {
			return c.False
		}
		if b.kind == BEq {
			if eqs == nil {
				eqs = map[*Term]int64{}
			}
			if v, ok := eqs[b.t]; ok && v != b.v {
				return c.False
			}
			eqs[b.t] = b.v
		}
	}
	if eqs != nil {
		o := make([]*Bool, 0, len(bs))
		for _, b := range bs {
			if b.kind == BNot && b.bs[0].kind == BEq {
				if v, ok := eqs[b.bs[0].t]; ok && v != b.bs[0].v {
					continue
				}
			}
			o = append(o, b)
		}
		bs = o
	}
	if len(bs) == 0 {
		return c.True
	}
	if len(bs) == 1 {
		return bs[0]
	}
	var sb strings.Builder
	sb.WriteByte('&')
	for _, b := range bs {
		fmt.Fprintf(&sb, "%d.", b.id)
	}
	return c.mkBool(sb.String(), &Bool{kind: BAnd, bs: bs})
}
func (c *Ctx) OrB(xs ...*Bool) *Bool {
	ns := make([]*Bool, len(xs))
	for i, x := range xs {
		ns[i] = c.Not(x)
	}
	return c.Not(c.AndB(ns...))
}
func (c *Ctx) XorB(a, b *Bool) *Bool {
	if a.kind == BConst {
		if a.val {
			return c.Not(b)
		}
		return b
	}
	if b.kind == BConst {
		if b.val {
			return c.Not(a)
		}
		return a
	}
	if a == b {
		return c.False
	}
	if a.neg == b {
		return c.True
	}
	return c.OrB(c.AndB(a, c.Not(b)), c.AndB(c.Not(a), b))
}
func (c *Ctx) IteB(g, a, b *Bool) *Bool {
	if g.kind == BConst {
		if g.val {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.kind == BConst {
		if a.val {
			return c.OrB(g, b)
		}
		return c.AndB(c.Not(g), b)
	}
	if b.kind == BConst {
		if b.val {
			return c.OrB(c.Not(g), a)
		}
		return c.AndB(g, a)
	}
	return c.OrB(c.AndB(g, a), c.AndB(c.Not(g), b))
}

func modInv(a int64) int64 { // inverse of odd a mod 2^64
	x := uint64(a)
	y := x
	for i := 0; i < 6; i++ {
		y *= 2 - x*y
	}
	return int64(y)
}

func (c *Ctx) Eq(a, b *Term) *Bool {
	return c.EqZero(c.Sub(a, b))
}
func (c *Ctx) EqC(a *Term, v int64) *Bool { return c.EqZero(c.AddC(a, -v)) }

func (c *Ctx) EqZero(d *Term) *Bool {
	if d.isConst() {
		return c.Bool(d.c0 == 0)
	}
	w := d.w
	// parity
	z := uint8(64)
	for _, k := range d.cs {
		z = min(z, uint8(bits.TrailingZeros64(uint64(k))))
	}
	if d.c0 != 0 && uint8(bits.TrailingZeros64(uint64(d.c0))) < z {
		return c.False
	}
	t := c.mk(w, d.ms, d.cs, 0)
	v := canon(-d.c0, w)
	if len(t.ms) == 1 && t.cs[0]&1 == 1 && t.cs[0] != 1 {
		inv := modInv(t.cs[0])
		v = canon(v*inv, w)
		t = c.mk(w, t.ms, []int64{1}, 0)
	} else if t.cs[0] < 0 && t.cs[0] != canon(-t.cs[0], w) {
		t = c.Neg(t)
		v = canon(-v, w)
	}
	if t.rok && (w >= 63 || t.hi-t.lo < int64(1)<<w && t.hi-t.lo >= 0) {
		// unique representative in range, if any
		vv := v
		if w < 63 {
			m := int64(1) << w
			vv = t.lo + ((v-t.lo)%m+m)%m
		}
		if vv > t.hi || vv < t.lo {
			return c.False
		}
		if t.lo == t.hi {
			return c.True
		}
		v = vv
		// integer equation: divide by common power of two
		if z > 0 && z < 64 && v%(1<<z) == 0 {
			cs := make([]int64, len(t.cs))
			for i := range cs {
				cs[i] = t.cs[i] >> z
			}
			t = c.mk(w, t.ms, cs, 0)
			v >>= z
			if len(t.ms) == 1 && t.cs[0] == 1 {
				if t.ms[0].rok && (v < t.ms[0].lo || v > t.ms[0].hi) {
					return c.False
				}
			}
		}
	}
	if len(t.ms) == 1 && t.cs[0] == 1 && t.ms[0].is01 {
		m := t.ms[0]
		if v != 0 && v != 1 {
			return c.False
		}
		bs := make([]*Bool, len(m.atoms))
		for i, a := range m.atoms {
			bs[i] = c.AtomTrue(a)
		}
		r := c.AndB(bs...)
		if v == 0 {
			return c.Not(r)
		}
		return r
	}
	if w < 64 && len(t.ms) == 1 && t.cs[0] == 1 && len(t.ms[0].atoms) == 1 && eqIntegral(t, v) {
		// an equation of integers: one form whatever the width
		t = c.mk(64, t.ms, t.cs, 0)
	}
	return c.mkBool(fmt.Sprintf("e%d.%d", t.id, v), &Bool{kind: BEq, t: t, v: v})
}

func (c *Ctx) ULt(a, b *Term) *Bool {
	if a == b {
		return c.False
	}
	la, ha, na := a.urange()
	lb, hb, nb := b.urange()
	if ha < lb {
		return c.True
	}
	if la >= hb {
		return c.False
	}
	if na && nb && a.w < 62 {
		d := c.mk(63, c.Sub(c.widen(b, 63, 0), c.widen(a, 63, 0)).ms, c.Sub(c.widen(b, 63, 0), c.widen(a, 63, 0)).cs, b.c0-a.c0)
		if d.rok {
			if d.lo > 0 {
				return c.True
			}
			if d.hi <= 0 {
				return c.False
			}
		}
	}
	if b.isConst() && isPow2(b.uval()) {
		k := uint8(bits.TrailingZeros64(b.uval()))
		return c.EqZero(c.Slice(a, k, a.w-k, a.w))
	}
	if a.isConst() && a.c0 != -1 {
		return c.Not(c.ULt(b, c.AddC(a, 1)))
	}
	if hb <= 1 && nb { // b in {0,1}: a<b iff a==0 and b==1
		return c.AndB(c.EqC(a, 0), c.EqC(b, 1))
	}
	return c.mkBool(fmt.Sprintf("u%d.%d", a.id, b.id), &Bool{kind: BULt, x: a, y: b})
}

func (c *Ctx) SLt(a, b *Term) *Bool {
	if a == b {
		return c.False
	}
	la, ha, na := a.srange()
	lb, hb, nb := b.srange()
	if ha < lb {
		return c.True
	}
	if la >= hb {
		return c.False
	}
	if la >= 0 && lb >= 0 {
		return c.ULt(a, b)
	}
	if na && nb && a.w < 62 {
		d := c.Sub(c.widen(b, 63, 0), c.widen(a, 63, 0))
		if d.rok {
			if d.lo > 0 {
				return c.True
			}
			if d.hi <= 0 {
				return c.False
			}
		}
	}
	if b.isConst() && b.c0 == 0 {
		return c.EqC(c.Slice(a, a.w-1, 1, a.w), 1)
	}
	if a.isConst() && a.c0 == -1 { // -1 < b  iff b >= 0
		return c.Not(c.EqC(c.Slice(b, b.w-1, 1, b.w), 1))
	}
	if a.isConst() && (a.w >= 64 && a.c0 != math.MaxInt64 || a.w < 64 && a.c0 != 1<<(a.w-1)-1) {
		return c.Not(c.SLt(b, c.AddC(a, 1)))
	}
	return c.mkBool(fmt.Sprintf("l%d.%d", a.id, b.id), &Bool{kind: BSLt, x: a, y: b})
}

// B2I returns the 0/1 value of b at width w.
func (c *Ctx) B2I(b *Bool, w uint8) *Term {
	switch b.kind {
	case BConst:
		if b.val {
			return c.Const(1, w)
		}
		return c.Const(0, w)
	case BAtom:
		return c.atomTerm(b.a, w)
	case BNot:
		return c.lin(c.Const(1, w), 1, c.B2I(b.bs[0], w), -1)
	case BAnd:
		neg := 0
		for _, x := range b.bs {
			if x.kind == BNot {
				neg++
			}
		}
		if neg <= 3 && len(b.bs) <= 8 {
			r := c.Const(1, w)
			for _, x := range b.bs {
				r = c.Mul(r, c.B2I(x, w))
			}
			return r
		}
	}
	return c.atomTerm(c.b2iAtom(b), w)
}

func (c *Ctx) b2iAtom(b *Bool) *Atom {
	if b.b2i == nil {
		b.b2i = c.newAtom(&Atom{kind: AB2I, b: b, w: 1, lo: 0, hi: 1})
	}
	return b.b2i
}

// Ite on integers.
func (c *Ctx) Ite(g *Bool, a, b *Term) *Term {
	if g.kind == BConst {
		if g.val {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	d := c.Sub(a, b)
	gi := c.B2I(g, a.w)
	if len(gi.ms) > 6 && len(gi.ms)*len(d.ms) > 64 {
		gi = c.atomTerm(c.b2iAtom(g), a.w)
	}
	return c.Add(b, c.Mul(gi, d))
}

// ---------- bindings / substitution ----------

func (c *Ctx) resolve(t *Term) *Term {
	hit := false
	for _, m := range t.ms {
		for _, a := range m.atoms {
			if a.bound || a.kind == AB2I && c.resolveB(a.b).isConst() {
				hit = true
			}
		}
	}
	if !hit {
		return t
	}
	r := c.Const(t.c0, t.w)
	for i, m := range t.ms {
		p := c.Const(t.cs[i], t.w)
		for _, a := range m.atoms {
			if a.kind == AB2I && !a.bound {
				p = c.Mul(p, c.B2I(c.resolveB(a.b), t.w))
			} else {
				p = c.Mul(p, c.atomTerm(a, t.w))
			}
		}
		r = c.Add(r, p)
	}
	return r
}

func (c *Ctx) resolveB(b *Bool) *Bool {
	switch b.kind {
	case BAtom:
		if b.a.bound {
			return c.Bool(b.a.bval != 0)
		}
	case BEq:
		t := c.resolve(b.t)
		if t != b.t {
			return c.EqC(t, b.v)
		}
	case BULt:
		x, y := c.resolve(b.x), c.resolve(b.y)
		if x != b.x || y != b.y {
			return c.ULt(x, y)
		}
	case BSLt:
		x, y := c.resolve(b.x), c.resolve(b.y)
		if x != b.x || y != b.y {
			return c.SLt(x, y)
		}
	case BNot:
		x := c.resolveB(b.bs[0])
		if x != b.bs[0] {
			return c.Not(x)
		}
	case BAnd:
		ch := false
		bs := make([]*Bool, len(b.bs))
		for i, x := range b.bs {
			bs[i] = c.resolveB(x)
			ch = ch || bs[i] != x
		}
		if ch {
			return c.AndB(bs...)
		}
	}
	return b
}

// ---------- printing ----------

func (a *Atom) String() string {
	switch a.kind {
	case AVar, AReal:
		return a.name
	case ASlice:
		return fmt.Sprintf("(%v)[%d+:%d]", a.t, a.sl, a.sn)
	case ASigned:
		return fmt.Sprintf("s%d(%v)", a.t.w, a.t)
	case AB2I:
		return fmt.Sprintf("[%v]", a.b)
	case AOp:
		return fmt.Sprintf("%s(%v,%v)", opNames[a.op], a.a1, a.a2)
	case AFInt:
		return fmt.Sprintf("fint%d(f%d)", a.fop, a.node.id)
	case AErr:
		return fmt.Sprintf("err(f%d)", a.node.id)
	}
	return "?"
}
func (t *Term) String() string {
	var sb strings.Builder
	for i, m := range t.ms {
		if i > 6 {
			fmt.Fprintf(&sb, "+..%d", len(t.ms))
			break
		}
		if i > 0 {
			sb.WriteString(" + ")
		}
		if t.cs[i] != 1 {
			fmt.Fprintf(&sb, "%d*", t.cs[i])
		}
		for j, a := range m.atoms {
			if j > 0 {
				sb.WriteByte('*')
			}
			sb.WriteString(a.String())
		}
	}
	if t.c0 != 0 || len(t.ms) == 0 {
		fmt.Fprintf(&sb, " + %d", t.c0)
	}
	return sb.String()
}
func (b *Bool) String() string {
	switch b.kind {
	case BConst:
		return fmt.Sprint(b.val)
	case BAtom:
		return b.a.String()
	case BEq:
		return fmt.Sprintf("%v==%d", b.t, b.v)
	case BULt:
		return fmt.Sprintf("%v <u %v", b.x, b.y)
	case BSLt:
		return fmt.Sprintf("%v <s %v", b.x, b.y)
	case BNot:
		return "!(" + b.bs[0].String() + ")"
	case BAnd:
		var s []string
		for _, x := range b.bs {
			s = append(s, x.String())
		}
		return "(" + strings.Join(s, " & ") + ")"
	case BFCmp:
		return fmt.Sprintf("%v rel%d %v", b.f, b.rel, b.g)
	case BBind:
		return fmt.Sprintf("%v:=%d", b.a, b.v)
	}
	return "?"
}
