package main

import "sort"

// Collapse recognises table look-ups whose entries are linear in the index, and
// sums of digit slices that recompose the sliced value. Both are identities of
// integers modulo 2^w, so a goal may be rewritten with them before it is decided.

func (c *Ctx) without(m *Mono, i int) *Mono {
	if len(m.atoms) == 1 {
		return nil
	}
	as := make([]*Atom, 0, len(m.atoms)-1)
	as = append(as, m.atoms[:i]...)
	as = append(as, m.atoms[i+1:]...)
	return c.mono(as)
}

func monoID(m *Mono) int32 {
	if m == nil {
		return -1
	}
	return m.id
}

// singleSlice: t is exactly one slice atom.
func singleSlice(t *Term) *Atom {
	if len(t.ms) == 1 && t.cs[0] == 1 && t.c0 == 0 && len(t.ms[0].atoms) == 1 {
		if a := t.ms[0].atoms[0]; a.kind == ASlice && !a.bound {
			return a
		}
	}
	return nil
}

type collKey struct {
	rest int32
	atom *Atom
}

func (c *Ctx) collapse(t *Term) *Term {
	for round := 0; round < 4; round++ {
		n := c.collapseSlices(c.collapseTables(t))
		if n == t {
			break
		}
		t = n
	}
	return t
}

func (c *Ctx) collapseTables(t *Term) *Term {
	type entry struct {
		m *Mono
		k int64
	}
	type group struct {
		rest *Mono
		a    *Atom
		by   map[int64]entry
		eqt  *Term
		bad  bool
	}
	groups := map[collKey]*group{}
	var order []*group
	for i, m := range t.ms {
		for j, a := range m.atoms {
			tt, v, ok := isEqB(a)
			if !ok {
				continue
			}
			s := singleSlice(tt)
			if s == nil || s.sn > 12 || s.sn >= 63 || !eqIntegral(tt, v) || v < 0 || v > s.hi {
				continue
			}
			rest := c.without(m, j)
			k := collKey{monoID(rest), s}
			g := groups[k]
			if g == nil {
				g = &group{rest: rest, a: s, by: map[int64]entry{}, eqt: tt}
				groups[k] = g
				order = append(order, g)
			}
			if _, dup := g.by[v]; dup {
				g.bad = true
			}
			g.by[v] = entry{m, t.cs[i]}
			break
		}
	}
	if len(order) == 0 {
		return t
	}
	p := c.newB(t.w)
	p.addTerm(t, 1)
	changed := false
	for _, g := range order {
		n := int64(1) << g.a.sn
		if !g.bad && n >= 2 && int64(len(g.by)) == n-1 && g.rest != nil {
			// k*m - k*m*sum of all cases but d  is  k*m*[d]
			d, k0, ok := int64(-1), canon(-p.m[g.rest.id], t.w), true
			for v := int64(0); v < n; v++ {
				if e, in := g.by[v]; !in {
					d = v
				} else if e.k != k0 {
					ok = false
					break
				}
			}
			if ok {
				ba := c.b2iAtom(c.EqC(c.atomTerm(g.a, 64), d))
				if nm, f := c.mulMono(g.rest, c.mono([]*Atom{ba})); f != 0 {
					changed = true
					for _, e := range g.by {
						p.add(e.m, -e.k)
					}
					p.add(g.rest, k0)
					p.add(nm, -k0*f)
					continue
				}
			}
		}
		if g.bad || int64(len(g.by)) < n-2 || n < 2 {
			continue
		}
		// the case v=0 is 1 minus the others
		k0 := g.by[0].k
		beta := canon(g.by[1].k-k0, t.w)
		exact := n >= 4
		for v := int64(1); v < n && exact; v++ {
			if canon(g.by[v].k-k0-beta*v, t.w) != 0 {
				exact = false
			}
		}
		if !exact {
			// nearly linear: split off gamma*2^sl*k, with one gamma for all the
			// digits of one value (fixed by the top digit)
			top := g
			for _, o := range order {
				if o.rest == g.rest && !o.bad && o.a.t.w > top.a.t.w && c.Trunc(o.a.t, g.a.t.w) == g.a.t {
					top = o
				}
			}
			cost := func(gm int64) float64 {
				var r float64
				m := int64(1) << top.a.sn
				for v := int64(1); v < m; v++ {
					x := float64(canon(top.by[v].k-top.by[0].k-gm<<top.a.sl*v, t.w))
					r += max(x, -x)
				}
				return r
			}
			best, bc := int64(0), cost(0)/4
			for _, gm := range []int64{1, -1, 2, -2} {
				if x := cost(gm); x < bc {
					best, bc = gm, x
				}
			}
			if best == 0 {
				continue
			}
			beta = canon(best<<g.a.sl, t.w)
		}
		changed = true
		for v := int64(0); v < n; v++ {
			e, in := g.by[v]
			if in {
				p.add(e.m, -e.k)
			}
			if r := canon(e.k-k0-beta*v, t.w); r != 0 {
				m := e.m
				if !in {
					var f int64
					ba := c.b2iAtom(c.EqC(c.atomTerm(g.a, 64), v))
					if m, f = c.mulMono(g.rest, c.mono([]*Atom{ba})); f == 0 {
						continue
					}
					r *= f
				}
				p.add(m, r)
			}
		}
		p.add(g.rest, k0)
		if beta != 0 {
			nm, f := c.mulMono(g.rest, c.mono([]*Atom{g.a}))
			if f != 0 {
				p.add(nm, beta*f)
			}
		}
	}
	if !changed {
		return t
	}
	return p.done()
}

func (c *Ctx) collapseSlices(t *Term) *Term {
	type occ struct {
		rest *Mono
		m    *Mono
		a    *Atom
		k    int64
	}
	by := map[int32][]occ{}
	var ids []int32
	for i, m := range t.ms {
		for j, a := range m.atoms {
			if a.kind != ASlice || a.bound || a.big {
				continue
			}
			rest := c.without(m, j)
			id := monoID(rest)
			if by[id] == nil {
				ids = append(ids, id)
			}
			by[id] = append(by[id], occ{rest, m, a, t.cs[i]})
			break
		}
	}
	p := c.newB(t.w)
	p.addTerm(t, 1)
	changed := false
	for _, id := range ids {
		os := by[id]
		sort.Slice(os, func(i, j int) bool {
			if os[i].a.sl != os[j].a.sl {
				return os[i].a.sl > os[j].a.sl
			}
			return os[i].a.id < os[j].a.id
		})
		used := make([]bool, len(os))
		for i := range os {
			top := os[i].a
			if used[i] || top.t.w != t.w || top.sl == 0 {
				continue
			}
			chain := []int{i}
			low := top.sl
			for j := i + 1; j < len(os); j++ {
				a := os[j].a
				if used[j] || a.sl+a.sn != low {
					continue
				}
				if c.Trunc(top.t, low) != a.t {
					continue
				}
				chain = append(chain, j)
				low = a.sl
			}
			// longest prefix of the chain with proportional coefficients
			beta, exact := int64(0), false
			full := chain
			for len(chain) > 0 {
				last := os[chain[len(chain)-1]]
				lo := last.a.sl
				if last.k&int64(umask(lo)) == 0 {
					beta, exact = last.k>>lo, true
					for _, x := range chain {
						if canon(os[x].k-beta<<os[x].a.sl, t.w) != 0 {
							exact = false
							break
						}
					}
					if exact {
						break
					}
				}
				chain = chain[:len(chain)-1]
			}
			if !exact || len(chain) < len(full) {
				// nearly proportional: the small differences stay as they are
				res := func(b int64) float64 {
					r := 0.0
					for _, x := range full {
						d := float64(canon(os[x].k-b<<os[x].a.sl, t.w))
						r += max(d, -d) * float64(os[x].a.hi)
					}
					return r
				}
				bst, bc := int64(0), res(0)/4
				for _, b := range []int64{1, -1, 2, -2} {
					if r := res(b); r < bc {
						bst, bc = b, r
					}
				}
				if bst != 0 {
					beta, exact, chain = bst, true, full
				}
			}
			if !exact {
				continue
			}
			changed = true
			lo := os[chain[len(chain)-1]].a.sl
			for _, x := range chain {
				used[x] = true
				p.add(os[x].m, -canon(beta<<os[x].a.sl, t.w))
			}
			v := top.t
			if lo > 0 {
				v = c.Sub(v, c.Slice(v, 0, lo, t.w))
			}
			p.addTerm(c.Mul(c.monoTerm1(os[i].rest, t.w), v), beta)
		}
	}
	if !changed {
		return t
	}
	return p.done()
}

func (c *Ctx) monoTerm1(m *Mono, w uint8) *Term {
	if m == nil {
		return c.Const(1, w)
	}
	return c.monoTerm(m, w)
}

func (c *Ctx) collapseB(b *Bool, rng bool) *Bool {
	switch b.kind {
	case BEq:
		if t := c.collapse(b.t); t != b.t {
			return c.EqC(t, b.v)
		}
	case BULt:
		x, y := c.collapse(b.x), c.collapse(b.y)
		if rng && y.isConst() {
			if lo, hi, ok := c.exclusiveRange(x); ok && lo >= 0 && uint64(hi) < y.uval() {
				return c.True
			}
		}
		if rng && x.isConst() {
			if lo, hi, ok := c.exclusiveRange(y); ok && lo >= 0 && uint64(hi) <= x.uval() && (y.w >= 63 || hi < int64(1)<<y.w) {
				return c.False
			}
		}
		if x != b.x || y != b.y {
			return c.ULt(x, y)
		}
	case BSLt:
		x, y := c.collapse(b.x), c.collapse(b.y)
		if x != b.x || y != b.y {
			return c.SLt(x, y)
		}
	case BNot:
		if x := c.collapseB(b.bs[0], rng); x != b.bs[0] {
			return c.Not(x)
		}
	case BAnd:
		ch := false
		bs := make([]*Bool, len(b.bs))
		for i, x := range b.bs {
			bs[i] = c.collapseB(x, rng)
			ch = ch || bs[i] != x
		}
		if ch {
			return c.AndB(bs...)
		}
	}
	return b
}

// exclusiveRange bounds the integer value of the polynomial, using that of the
// monomials carrying [k==v] for one k at most one v can be non-zero.
func (c *Ctx) exclusiveRange(t *Term) (lo, hi int64, ok bool) {
	type iv struct{ lo, hi int64 }
	groups := map[*Atom]map[int64]iv{}
	factors := map[*Atom]iv{}
	lo, hi = t.c0, t.c0
	for i, m := range t.ms {
		if !m.rok {
			return 0, 0, false
		}
		var g *Atom
		var gv int64
		rlo, rhi := m.lo, m.hi
		for pass := 0; pass < 2 && g == nil; pass++ {
			for j, x := range m.atoms {
				if pass == 0 {
					if tt, v, ok := isEqB(x); ok && len(tt.ms) == 1 && tt.cs[0] == 1 && len(tt.ms[0].atoms) == 1 && eqIntegral(tt, v) {
						g, gv = tt.ms[0].atoms[0], v
					}
				} else if x.kind != AReal && !x.big && x.lo == 0 && x.hi == 1 {
					g, gv = x, 1
				}
				if g != nil {
					// the value of the monomial when its case holds
					if r := c.without(m, j); r == nil {
						rlo, rhi = 1, 1
					} else if r.rok {
						rlo, rhi = r.lo, r.hi
					}
					break
				}
			}
		}
		a, ok1 := mulOK(t.cs[i], rlo)
		b, ok2 := mulOK(t.cs[i], rhi)
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		if a > b {
			a, b = b, a
		}
		if g == nil {
			// a noise factor: noise*(c + digits) is bounded as a product
			for j, x := range m.atoms {
				if (x.kind == AFInt || x.kind == AErr) && !x.big {
					r, rl, rh := c.without(m, j), int64(1), int64(1)
					if r != nil {
						if !r.rok {
							break
						}
						rl, rh = r.lo, r.hi
					}
					a, ok1 := mulOK(t.cs[i], rl)
					b, ok2 := mulOK(t.cs[i], rh)
					o := factors[x]
					var ok3, ok4 bool
					o.lo, ok3 = addOK(o.lo, min(a, b))
					o.hi, ok4 = addOK(o.hi, max(a, b))
					if !ok1 || !ok2 || !ok3 || !ok4 {
						return 0, 0, false
					}
					factors[x] = o
					g = x
					break
				}
			}
			if g != nil {
				continue
			}
		}
		if g != nil {
			if groups[g] == nil {
				groups[g] = map[int64]iv{}
			}
			o := groups[g][gv]
			if o.lo, ok1 = addOK(o.lo, a); !ok1 {
				return 0, 0, false
			}
			if o.hi, ok1 = addOK(o.hi, b); !ok1 {
				return 0, 0, false
			}
			groups[g][gv] = o
			continue
		}
		if lo, ok1 = addOK(lo, a); !ok1 {
			return 0, 0, false
		}
		if hi, ok1 = addOK(hi, b); !ok1 {
			return 0, 0, false
		}
	}
	for x, o := range factors {
		l, h := int64(0), int64(0)
		for _, u := range []int64{x.lo, x.hi} {
			for _, v := range []int64{o.lo, o.hi} {
				p, ok1 := mulOK(u, v)
				if !ok1 {
					return 0, 0, false
				}
				l, h = min(l, p), max(h, p)
			}
		}
		var ok1, ok2 bool
		lo, ok1 = addOK(lo, l)
		hi, ok2 = addOK(hi, h)
		if !ok1 || !ok2 {
			return 0, 0, false
		}
	}
	for _, g := range groups {
		var l, h int64
		for _, o := range g {
			l, h = min(l, o.lo), max(h, o.hi)
		}
		var ok1, ok2 bool
		lo, ok1 = addOK(lo, l)
		hi, ok2 = addOK(hi, h)
		if !ok1 || !ok2 {
			return 0, 0, false
		}
	}
	return lo, hi, true
}
