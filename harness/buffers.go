package harness

import (
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"verifharness/sym"
)

// C03_elementwise: the word by word product at the true dimension of every level, all
// words; operands unchanged, own storage.
func C03_elementwise() {
	chooseLevel()
	n := params.GetTLWELv0().N
	a, b := &tlwe.TLWELv0{P: words("a", n+1)}, &tlwe.TLWELv0{P: words("b", n+1)}
	ka, kb := clone(a.P), clone(b.P)
	r := a.Mul(b)
	sym.Assert(len(r.P) == n+1, "length of the product")
	for i := range r.P {
		sym.Assert(r.P[i] == ka[i]*kb[i], "word by word product")
		r.P[i] = 5
	}
	assertSame(a.P, ka, "first factor unchanged")
	assertSame(b.P, kb, "second factor unchanged")
}

// C16_aligned: polynomials allocated aligned, every degree from 16 to 2048: zero, of
// the degree asked for, share no storage, and hold sums and products like any other;
// a degree that is no power of two or below 16 is refused.
func C16_aligned() {
	setLevel(params.Security128Bit)
	N := degrees[sym.Choose("degree", len(degrees))]
	p, q := poly.NewPolyAligned(N), poly.NewPolyAligned(N)
	f, g := poly.NewFourierPolyAligned(N), poly.NewFourierPolyAligned(N)
	sym.Assert(p.Degree() == N && q.Degree() == N && f.Degree() == N && g.Degree() == N, "degrees")
	sym.Assert(len(f.Coeffs) == len(poly.NewFourierPoly(N).Coeffs), "Fourier length")
	for i := range p.Coeffs {
		sym.Assert(p.Coeffs[i] == 0 && q.Coeffs[i] == 0, "zero")
	}
	for i := range f.Coeffs {
		sym.Assert(f.Coeffs[i] == 0 && g.Coeffs[i] == 0, "zero")
	}
	a, b := sparse("a", N), sparse("b", N)
	copy(p.Coeffs, a)
	copy(q.Coeffs, b)
	assertSame(p.Coeffs, a, "own storage")
	e := poly.NewEvaluator(N)
	e.ToFourierPolyAssign(p, f)
	e.ToFourierPolyAssign(q, g)
	r := poly.NewPolyAligned(N)
	e.ToPolyAssign(f, r)
	assertSame(r.Coeffs, a, "round trip of the first")
	e.ToPolyAssign(g, r)
	assertSame(r.Coeffs, b, "round trip of the second")
	e.AddFourierPolyAssign(f, g, g)
	e.ToPolyAssign(g, r)
	for i := range a {
		sym.Assert(r.Coeffs[i] == a[i]+b[i], "sum")
	}
	assertSame(p.Coeffs, a, "first unchanged")
	assertSame(q.Coeffs, b, "second unchanged")
	bad := []int{0, 1, 8, 15, 24, N - 1, N + 1, N + 16, -16}[sym.Choose("bad", 9)]
	if bad&(bad-1) == 0 && bad >= 16 {
		return
	}
	sym.Assert(refuses(func() { poly.NewPolyAligned(bad) }), "bad degree refused")
	sym.Assert(refuses(func() { poly.NewFourierPolyAligned(bad) }), "bad degree refused")
	sym.Assert(refuses(func() { poly.NewPoly(bad) }), "bad degree refused")
	sym.Assert(refuses(func() { poly.NewEvaluator(bad) }), "bad degree refused")
}

func refuses(f func()) (r bool) {
	defer func() { r = recover() != nil }()
	f()
	return
}

// C16_slots: the numbered buffers of an evaluator at every level's digit count: what is
// put into a slot comes out of it, as words and transformed, other slots keep theirs;
// clearing a ring buffer empties both halves; degree 16.
func C16_slots() {
	chooseLevel()
	dims(1, 16)
	N := 16
	e := poly.NewEvaluator(N)
	k := 2 * params.GetTRGSWLv1().L
	in := make([][]torus, k)
	for i := range in {
		in[i] = words("w", N)
		e.CopyToDecompBuffer(in[i], i)
		e.ToFourierPolyInBuffer(poly.Poly{Coeffs: in[i]}, i)
	}
	for i := range in {
		assertSame(e.GetDecompBuffer(i).Coeffs, in[i], "words of the slot")
		assertSame(e.ToPoly(*e.GetDecompFFTBuffer(i)).Coeffs, in[i], "transform in the slot")
	}
	a, b := e.GetTRLWEBuffer()
	c, d := e.GetTRLWEBuffer()
	copy(a, in[0])
	copy(b, in[1])
	copy(c, in[1])
	copy(d, in[0])
	e.ClearTRLWEBuffer(a, b)
	for i := range a {
		sym.Assert(a[i] == 0 && b[i] == 0, "cleared")
	}
	assertSame(c, in[1], "other ring buffer untouched")
	assertSame(d, in[0], "other ring buffer untouched")
}

// C16_ring: a ring ciphertext in the Fourier domain is the transform of both halves,
// every degree from 16 to 1024; the ciphertext stays, the results own their storage.
func C16_ring() {
	setLevel(params.Security128Bit)
	N := degrees[sym.Choose("degree", len(degrees)-1)]
	dims(1, N)
	e := poly.NewEvaluator(N)
	c := &trlwe.TRLWELv1{A: sparse("a", N), B: sparse("bb", N)}
	keep := cloneR(c)
	f := trlwe.NewTRLWELv1FFT(c, e)
	g := trlwe.NewTRLWELv1FFT(&trlwe.TRLWELv1{A: keep.B, B: keep.A}, e)
	assertSame(e.ToPoly(poly.FourierPoly{Coeffs: f.A}).Coeffs, keep.A, "first half")
	assertSame(e.ToPoly(poly.FourierPoly{Coeffs: f.B}).Coeffs, keep.B, "second half")
	assertSame(e.ToPoly(poly.FourierPoly{Coeffs: g.A}).Coeffs, keep.B, "first half of another")
	assertRing(c, keep, "ciphertext unchanged")
}

// C23_manager: the buffers a buffer manager hands out: rotation and ring buffers of the
// ring dimension, four in a row share no storage with each other or with any working
// buffer, from every position of the pools and after a reset; degrees 16 and 64.
func C23_manager() {
	setLevel(levels[quickOf([]int{0, 4}, len(levels), "level")])
	N := []int{16, 64}[sym.Choose("degree", 2)]
	dims(1, N)
	bm := poly.NewBufferManager(N)
	for i := sym.Choose("taken", 6); i > 0; i-- {
		bm.GetRotationBuffer()
		bm.GetTRLWEBuffer()
	}
	if sym.Choose("reset", 2) == 1 {
		bm.Reset()
	}
	var all [][]torus
	for i := 0; i < 4; i++ {
		a, b := bm.GetTRLWEBuffer()
		all = append(all, bm.GetRotationBuffer().Coeffs, a, b)
	}
	all = append(all, bm.FFT.Poly.Coeffs, bm.Temp.Poly1.Coeffs, bm.Temp.Poly2.Coeffs, bm.Temp.Poly3.Coeffs)
	sym.Assert(len(bm.Decomposition.Poly) == 2*params.GetTRGSWLv1().L && len(bm.Decomposition.Fourier) == len(bm.Decomposition.Poly), "decomposition buffers")
	for _, p := range bm.Decomposition.Poly {
		all = append(all, p.Coeffs)
	}
	for i, w := range all {
		sym.Assert(len(w) == N, "dimension of a buffer")
		for j := range w {
			w[j] = torus(i*N + j)
		}
	}
	for i, w := range all {
		for j := range w {
			sym.Assert(w[j] == torus(i*N+j), "buffers share no storage")
		}
	}
	fs := []poly.FourierPoly{bm.FFT.Fourier, bm.Multiplication.AccA, bm.Multiplication.AccB, bm.Multiplication.Temp}
	fs = append(fs, bm.Decomposition.Fourier...)
	for i, f := range fs {
		sym.Assert(f.Degree() == N, "dimension of a Fourier buffer")
		for j := range f.Coeffs {
			f.Coeffs[j] = float64(i*N + j)
		}
	}
	for i, f := range fs {
		for j := range f.Coeffs {
			sym.Assert(f.Coeffs[j] == float64(i*N+j), "Fourier buffers share no storage")
		}
	}
}
