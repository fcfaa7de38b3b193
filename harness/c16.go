package harness

import (
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"verifharness/sym"
)

func polyOf(c []torus) poly.Poly {
	p := poly.NewPoly(len(c))
	copy(p.Coeffs, c)
	return p
}

func fclone(a []float64) []float64 { return append([]float64(nil), a...) }

func assertSameF(a, b []float64, label string) {
	sym.Assert(len(a) == len(b), label)
	for i := range a {
		sym.Assert(a[i] == b[i], label)
	}
}

// C16_roundtrip: every polynomial of degree 16, 32, 64, 128 (thorough up to 1024):
// to the Fourier domain and back is the identity; the safe inverse leaves its argument alone.
func C16_roundtrip() {
	setLevel(params.Security128Bit)
	ds := []int{16, 32, 64, 128, 256, 512}
	if sym.Thorough() {
		ds = []int{16, 32, 64, 128, 256, 512, 1024}
	}
	N := ds[sym.Choose("degree", len(ds))]
	e := poly.NewEvaluator(N)
	p := polyOf(words("p", N))
	keep := clone(p.Coeffs)
	fp := e.ToFourierPoly(p)
	fkeep := fclone(fp.Coeffs)
	q := e.ToPoly(fp)
	assertSame(q.Coeffs, keep, "round trip")
	assertSameF(fp.Coeffs, fkeep, "safe inverse leaves its argument")
	assertSame(p.Coeffs, keep, "argument of the transform unchanged")
	dirty := polyOf(words("stale", N))
	e.ToPolyAssign(fp, dirty)
	assertSame(dirty.Coeffs, keep, "round trip into existing polynomial")
	e.ToPolyAssignUnsafe(fp.Copy(), dirty)
	assertSame(dirty.Coeffs, keep, "unsafe round trip")
}

// C16_sparse: the true degrees 512, 1024, 2048 with six symbolic coefficients at
// boundary positions and fixed others.
func C16_sparse() {
	setLevel(params.Security128Bit)
	N := []int{512, 1024, 2048}[sym.Choose("degree", 3)]
	e := poly.NewEvaluator(N)
	p := poly.NewPoly(N)
	for i := range p.Coeffs {
		p.Coeffs[i] = torus(uint32(i)*2654435761 + 12345)
	}
	for _, i := range []int{0, 3, N/2 - 1, N / 2, N/2 + 5, N - 1} {
		p.Coeffs[i] = torus(sym.U32("p"))
	}
	keep := clone(p.Coeffs)
	fp := e.ToFourierPoly(p)
	q := e.ToPoly(fp)
	assertSame(q.Coeffs, keep, "round trip")
	assertSame(p.Coeffs, keep, "argument unchanged")
}

// C16_linear: every degree from 16 to 2048 (all coefficients arbitrary up to 32, six
// beyond): sums, differences, scalings by small integers and accumulations.
func C16_linear() {
	setLevel(params.Security128Bit)
	N := degrees[sym.Choose("degree", len(degrees))]
	e := poly.NewEvaluator(N)
	a, b, o := polyOf(sparse("a", N)), polyOf(sparse("bb", N)), polyOf(sparse("ooo", N))
	fa, fb, fo := e.ToFourierPoly(a), e.ToFourierPoly(b), e.ToFourierPoly(o)
	ka, kb := fclone(fa.Coeffs), fclone(fb.Coeffs)
	op := sym.Choose("operation", 6)
	k := 1
	if op >= 4 {
		k = []int{-7, 1, 2, 5, -1, 0}[sym.Choose("factor", quick(N > 256, 1, 6))]
	}
	var r poly.FourierPoly
	want := make([]torus, N)
	switch op {
	case 0:
		r = e.AddFourierPoly(fa, fb)
	case 1:
		r = e.SubFourierPoly(fa, fb)
	case 2:
		e.AddFourierPolyAssign(fa, fb, fo)
		r = fo
	case 3:
		e.SubFourierPolyAssign(fa, fb, fo)
		r = fo
	case 4:
		e.FloatMulFourierPolyAssign(fa, float64(k), fo)
		r = fo
	case 5:
		e.FloatMulAddFourierPolyAssign(fa, float64(k), fo)
		r = fo
	}
	for i := range want {
		switch op {
		case 0, 2:
			want[i] = a.Coeffs[i] + b.Coeffs[i]
		case 1, 3:
			want[i] = a.Coeffs[i] - b.Coeffs[i]
		case 4:
			want[i] = torus(int32(k)) * a.Coeffs[i]
		case 5:
			want[i] = o.Coeffs[i] + torus(int32(k))*a.Coeffs[i]
		}
	}
	assertSameF(fa.Coeffs, ka, "first operand unchanged")
	assertSameF(fb.Coeffs, kb, "second operand unchanged")
	acc := polyOf(sparse("accu", N))
	acc2 := acc.Copy()
	e.ToPolyAddAssignUnsafe(r.Copy(), acc)
	for i := range want {
		sym.Assert(acc.Coeffs[i] == acc2.Coeffs[i]+want[i], "transform and add")
	}
	copy(acc.Coeffs, acc2.Coeffs)
	e.ToPolySubAssignUnsafe(r.Copy(), acc)
	for i := range want {
		sym.Assert(acc.Coeffs[i] == acc2.Coeffs[i]-want[i], "transform and subtract")
	}
	q := e.ToPoly(r)
	assertSame(q.Coeffs, want, "operation in the Fourier domain")
}

// C16_copies: copies and clears of polynomials are independent; every degree from 16
// to 2048, a few symbolic coefficients beyond degree 32.
func C16_copies() {
	setLevel(params.Security128Bit)
	N := degrees[sym.Choose("degree", len(degrees))]
	a := polyOf(sparse("a", N))
	b := a.Copy()
	assertSame(b.Coeffs, a.Coeffs, "copy equal")
	keep := clone(a.Coeffs)
	for i := range b.Coeffs {
		b.Coeffs[i]++
	}
	assertSame(a.Coeffs, keep, "copy independent")
	a.Clear()
	for i := range a.Coeffs {
		sym.Assert(a.Coeffs[i] == 0, "clear")
		sym.Assert(b.Coeffs[i] == keep[i]+1, "clear leaves the copy")
	}
	e := poly.NewEvaluator(N)
	f := e.ToFourierPoly(b)
	g := f.Copy()
	h := e.NewFourierPoly()
	h.CopyFrom(f)
	fk := fclone(f.Coeffs)
	assertSameF(g.Coeffs, fk, "Fourier copy equal")
	g.Clear()
	assertSameF(f.Coeffs, fk, "Fourier copy independent")
	for i := range f.Coeffs {
		f.Coeffs[i] = 1
	}
	assertSameF(h.Coeffs, fk, "CopyFrom independent")
	for i := range g.Coeffs {
		sym.Assert(g.Coeffs[i] == 0, "Fourier clear")
	}
	sym.Assert(a.Degree() == N && f.Degree() == N && e.Degree() == N && e.NewPoly().Degree() == N, "degrees")
}

var degrees = []int{16, 32, 64, 128, 256, 512, 1024, 2048}

// sparse: arbitrary words up to degree 32, beyond that six arbitrary words at boundary
// positions among fixed ones.
func sparse(label string, N int) []torus {
	if N <= 32 {
		return words(label, N)
	}
	p := make([]torus, N)
	for i := range p {
		p[i] = torus(uint32(i+7*len(label))*2654435761 + 12345)
	}
	for _, i := range []int{0, 3, N/2 - 1, N / 2, N/2 + 5, N - 1} {
		p[i] = torus(sym.U32(label))
	}
	return p
}

// fourierProducts: product, product-accumulate and product-subtract in the Fourier
// domain, allocating, into an existing value and into an operand.
func fourierProducts(N int, sa, sb []torus) {
	e := poly.NewEvaluator(N)
	a, b, o := polyOf(sa), polyOf(sb), polyOf(sparse("o", N))
	want := ringMul(a.Coeffs, b.Coeffs)
	fa, fb := e.ToFourierPoly(a), e.ToFourierPoly(b)
	ka, kb := fclone(fa.Coeffs), fclone(fb.Coeffs)
	m := e.MulFourierPoly(fa, fb)
	st, ad, su := e.ToFourierPoly(o), e.ToFourierPoly(o), e.ToFourierPoly(o)
	e.MulFourierPolyAssign(fa, fb, st)
	e.MulAddFourierPolyAssign(fa, fb, ad)
	e.MulSubFourierPolyAssign(fa, fb, su)
	assertSameF(fa.Coeffs, ka, "first factor unchanged")
	assertSameF(fb.Coeffs, kb, "second factor unchanged")
	e.MulFourierPolyAssign(fa, fb, fa)
	pm, ps, pa, pu, pf := e.ToPoly(m), e.ToPoly(st), e.ToPoly(ad), e.ToPoly(su), e.ToPoly(fa)
	for i := range want {
		sym.Assert(pm.Coeffs[i] == want[i], "Fourier product")
		sym.Assert(ps.Coeffs[i] == want[i], "Fourier product into existing value")
		sym.Assert(pa.Coeffs[i] == o.Coeffs[i]+want[i], "Fourier product accumulate")
		sym.Assert(pu.Coeffs[i] == o.Coeffs[i]-want[i], "Fourier product subtract")
		sym.Assert(pf.Coeffs[i] == want[i], "Fourier product into its operand")
	}
}

// C16_product: degree 16 and 32, arbitrary words times signed words below 2.
func C16_product() {
	setLevel(params.Security128Bit)
	N := []int{16, 32}[sym.Choose("degree", 2)]
	fourierProducts(N, words("a", N), small("b", N, 2))
}

// C16_degrees: every degree from 64 to 2048: six arbitrary words among fixed ones
// times a fixed polynomial with signed words below 2.
func C16_degrees() {
	setLevel(params.Security128Bit)
	N := degrees[2+sym.Choose("degree", len(degrees)-2)]
	b := make([]torus, N)
	for _, i := range []int{0, 1, N/2 - 3, N / 2, N - 1} {
		b[i] = torus(int32(i%3 - 1))
	}
	b[2] = 1
	fourierProducts(N, sparse("a", N), b)
}

func sparseRing(label string, N int) *trlwe.TRLWELv1 {
	return &trlwe.TRLWELv1{A: sparse(label+".A", N), B: sparse(label+".B", N)}
}

func quick(c bool, a, b int) int {
	if c && !sym.Thorough() {
		return a
	}
	return b
}
