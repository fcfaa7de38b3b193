package harness

import (
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"verifharness/sym"
)

// readAt is the constant coefficient of X^-r times the table, -N <= r < N.
func readAt(b []torus, r int) torus {
	if r < 0 {
		return -b[r+len(b)]
	}
	return b[r]
}

// checkLayout: at every rotation within half a region (minus one step) of message x
// the table reads the same word as at the centre of x, which has to satisfy ok.
func checkLayout(t *lut.LookUpTable, m, N int, ok func(x int, v torus) bool, label string) {
	sym.Assert(len(t.Poly.B) == N && len(t.Poly.A) == N, label+": size")
	for x := 0; x < m; x++ {
		c := (2*x*N + m) / (2 * m)
		mid := readAt(t.Poly.B, c)
		sym.Assert(ok(x, mid), label+": value at the centre")
		for r := c; 2*(r*m-x*N) <= N-2*m; r++ {
			sym.Assert(near(readAt(t.Poly.B, r)-mid, 1), label+": region of the message")
		}
		for r := c; 2*(x*N-r*m) <= N-2*m; r-- {
			sym.Assert(near(readAt(t.Poly.B, r)-mid, 1), label+": region of the message")
		}
	}
	for i := range t.Poly.A {
		sym.Assert(t.Poly.A[i] == 0, label+": mask is zero")
	}
}

func tableSize() int {
	if sym.Thorough() {
		return []int{16, 32, 64, 128, 256, 512, 1024, 2048}[sym.Choose("N", 8)]
	}
	return []int{32, 1024, 2048}[sym.Choose("N", 3)]
}

func dirtyTable(N int) *lut.LookUpTable {
	t := lut.NewLookUpTable()
	for i := 0; i < N; i++ {
		t.Poly.A[i] = torus(uint32(i+1) * 0x01000193)
		t.Poly.B[i] = torus(uint32(i+7) * 0x9e3779b1)
	}
	return t
}

// C07_full: moduli 2..256 (at most half the table size), every function from
// messages to torus words; allocating and write-into-dirty-table forms.
func C07_full() {
	setLevel(params.Security128Bit)
	N := tableSize()
	dims(2, N)
	m := 2 + sym.Choose("modulus", 255)
	if 2*m > N {
		return
	}
	f := words("f", m)
	g := lut.NewGenerator(m)
	fn := func(x int) torus {
		sym.Assert(x >= 0 && x < m, "function asked about a message")
		return f[x]
	}
	t := g.GenLookUpTableFull(fn)
	checkLayout(t, m, N, func(x int, v torus) bool { return near(v-f[x], 1) }, "full table")
	d := dirtyTable(N)
	g.GenLookUpTableFullAssign(fn, d)
	assertSame(d.Poly.B, t.Poly.B, "full table into an existing one")
	assertSame(d.Poly.A, t.Poly.A, "full table into an existing one")
}

// intTable is a function table with an arbitrary machine integer at position at and
// fixed values (negative and beyond the modulus) elsewhere.
func intTable(m, at int) []int {
	f := make([]int, m)
	for x := range f {
		f[x] = (x*x*7+3*x+1)%(3*m) - m
	}
	f[at] = sym.Int("f")
	return f
}

// C07_int: moduli 2..256, functions to machine integers, arbitrary at one of four
// positions; allocating and write-into forms; the generator is unchanged.
func C07_int() {
	setLevel(params.Security128Bit)
	N := tableSize()
	dims(2, N)
	m := 2 + sym.Choose("modulus", 255)
	if 2*m > N {
		return
	}
	at := []int{0, 1, m / 2, m - 1}[sym.Choose("position", 4)]
	f := intTable(m, at)
	g := lut.NewGenerator(m)
	fn := func(x int) int {
		sym.Assert(x >= 0 && x < m, "function asked about a message")
		return f[x]
	}
	t := g.GenLookUpTable(fn)
	checkLayout(t, m, N, func(x int, v torus) bool { return atFraction(v, reduce(f[x], m), 2*m) }, "integer table")
	d := dirtyTable(N)
	g.GenLookUpTableAssign(fn, d)
	assertSame(d.Poly.B, t.Poly.B, "integer table into an existing one")
	assertSame(d.Poly.A, t.Poly.A, "integer table into an existing one")
}

// C07_small: moduli 2..8, every function to machine integers (all values arbitrary).
func C07_small() {
	setLevel(params.Security128Bit)
	N := tableSize()
	dims(2, N)
	m := 2 + sym.Choose("modulus", 7)
	f := make([]int, m)
	for x := range f {
		f[x] = sym.Int("f")
	}
	t := lut.NewGenerator(m).GenLookUpTable(func(x int) int {
		sym.Assert(x >= 0 && x < m, "function asked about a message")
		return f[x]
	})
	checkLayout(t, m, N, func(x int, v torus) bool { return atFraction(v, reduce(f[x], m), 2*m) }, "integer table")
}

// C07_custom: a generator of modulus m makes a table of modulus m' and scale
// 1/(k*m'), k=1..4; afterwards its own tables, encoding and parameters are as before.
// A generator constructed with that scale makes the same table.
func C07_custom() {
	setLevel(params.Security128Bit)
	N := 64
	dims(2, N)
	m := 2 + sym.Choose("modulus", 7)
	mc := 2 + sym.Choose("custom modulus", 31)
	k := 1 + sym.Choose("spacing", 4)
	scale := 1 / float64(k*mc)
	at := sym.Choose("position", 2) * (mc - 1)
	f := intTable(mc, at)
	g := lut.NewGenerator(m)
	switch sym.Choose("own scale", 3) {
	case 1:
		g = lut.NewGeneratorWithScale(m, 1/float64(m))
	case 2:
		g = lut.NewGeneratorWithScale(m, 1/float64(3*m))
	}
	own := make([]torus, m)
	for x := range own {
		own[x] = torus(uint32(x+1) * 0x01234567)
	}
	fo := func(x int) torus { return own[x] }
	fi := func(x int) int { return x*x + 1 }
	before, beforeI := g.GenLookUpTableFull(fo), g.GenLookUpTable(fi)
	es, em, pd, sz := g.Encoder.Scale, g.Encoder.MessageModulus, g.PolyDegree, g.LookUpTableSize
	fn := func(x int) int {
		sym.Assert(x >= 0 && x < mc, "function asked about a message")
		return f[x]
	}
	t := g.GenLookUpTableCustom(fn, mc, scale)
	checkLayout(t, mc, N, func(x int, v torus) bool { return atFraction(v, reduce(f[x], mc), k*mc) }, "custom table")
	sym.Assert(g.Encoder.Scale == es && g.Encoder.MessageModulus == em && g.PolyDegree == pd && g.LookUpTableSize == sz, "generator unchanged")
	after, afterI := g.GenLookUpTableFull(fo), g.GenLookUpTable(fi)
	assertSame(after.Poly.B, before.Poly.B, "generator unchanged: its tables")
	assertSame(afterI.Poly.B, beforeI.Poly.B, "generator unchanged: its tables")
	t2 := lut.NewGeneratorWithScale(mc, scale).GenLookUpTable(fn)
	for i := range t2.Poly.B {
		sym.Assert(near(t2.Poly.B[i]-t.Poly.B[i], 1), "generator with scale")
		sym.Assert(t2.Poly.A[i] == 0, "generator with scale: mask is zero")
	}
}

// C07_copy: copies have the same words and share no storage; clearing or changing
// one table leaves the others.
func C07_copy() {
	setLevel(levels[quickOf([]int{0, 1, 7}, len(levels), "level")])
	N := []int{16, 1024}[sym.Choose("N", 2)]
	dims(2, N)
	a := &lut.LookUpTable{Poly: ringWords("a", N)}
	b := &lut.LookUpTable{Poly: ringWords("b", N)}
	ka := cloneR(a.Poly)
	c := a.Copy()
	assertRing(c.Poly, ka, "copy")
	b.CopyFrom(a)
	assertRing(b.Poly, ka, "copy from")
	assertRing(a.Poly, ka, "source unchanged")
	switch sym.Choose("which", 3) {
	case 0:
		a.Clear()
		zero(a, N)
		assertRing(b.Poly, ka, "independent of the source")
		assertRing(c.Poly, ka, "independent of the source")
	case 1:
		b.Clear()
		zero(b, N)
		assertRing(a.Poly, ka, "source independent")
		assertRing(c.Poly, ka, "independent of the other copy")
	case 2:
		for i := 0; i < N; i++ {
			c.Poly.A[i]++
			c.Poly.B[i]--
		}
		assertRing(a.Poly, ka, "source independent")
		assertRing(b.Poly, ka, "independent of the other copy")
	}
	f := lut.NewLookUpTable()
	zero(f, N)
}

func zero(t *lut.LookUpTable, N int) {
	for i := 0; i < N; i++ {
		sym.Assert(t.Poly.A[i] == 0 && t.Poly.B[i] == 0, "cleared")
	}
}
