package harness

import (
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"verifharness/sym"
)

// small returns n symbolic words with signed value in [-b, b).
func small(label string, n, b int) []torus {
	k := make([]torus, n)
	for i := range k {
		k[i] = torus(int32(sym.IntIn(label, -b, b-1)))
	}
	return k
}

// C15_exact: degree 16 and 32, first factor arbitrary 32-bit words, second factor
// key bits or signed words below 2, 64 and 1024: product, accumulate and subtract
// are the negacyclic convolution, exactly where the rounding bound is below one
// half and within it otherwise, on a fresh and on a used evaluator.
func C15_exact() {
	setLevel(params.Security128Bit)
	N := []int{16, 32}[sym.Choose("degree", 2)]
	var sb []torus
	tol := torus(0)
	switch sym.Choose("range", 4) {
	case 0:
		sb = bits("b", N)
	case 1:
		sb = small("b", N, 2)
	case 2:
		sb = small("b", N, 64)
		tol = 8
	case 3:
		sb = small("b", N, 1024)
		tol = 128
	}
	a, b := polyOf(words("a", N)), polyOf(sb)
	ka, kb := clone(a.Coeffs), clone(b.Coeffs)
	want := ringMul(ka, kb)
	e := poly.NewEvaluator(N)
	p := e.MulPoly(a, b)
	o := polyOf(words("o", N))
	ko := clone(o.Coeffs)
	e.MulAddPolyAssign(a, b, o)
	add := clone(o.Coeffs)
	copy(o.Coeffs, ko)
	e.MulSubPolyAssign(a, b, o)
	sub := clone(o.Coeffs)
	e.MulPolyAssign(b, a, o)
	for i := range want {
		if tol == 0 {
			sym.Assert(p.Coeffs[i] == want[i], "product")
			sym.Assert(add[i] == ko[i]+want[i], "product accumulate")
			sym.Assert(sub[i] == ko[i]-want[i], "product subtract")
			sym.Assert(o.Coeffs[i] == want[i], "commuted product into existing polynomial")
			continue
		}
		sym.Assert(near(p.Coeffs[i]-want[i], tol), "product")
		sym.Assert(near(add[i]-ko[i]-want[i], tol), "product accumulate")
		sym.Assert(near(sub[i]-ko[i]+want[i], tol), "product subtract")
		sym.Assert(near(o.Coeffs[i]-want[i], tol), "commuted product into existing polynomial")
	}
	assertSame(a.Coeffs, ka, "first operand unchanged")
	assertSame(b.Coeffs, kb, "second operand unchanged")
}

// C15_full: degree 16, both factors arbitrary 32-bit words: the product is the
// negacyclic convolution modulo 2^32 within 2^27 (the error analysis of double precision is coarse here).
func C15_full() {
	setLevel(params.Security128Bit)
	N := 16
	a, b := polyOf(words("a", N)), polyOf(words("b", N))
	want := ringMul(a.Coeffs, b.Coeffs)
	e := poly.NewEvaluator(N)
	p := e.MulPoly(a, b)
	for i := range want {
		sym.Assert(near(p.Coeffs[i]-want[i], 1<<27), "product within rounding")
	}
}

// C15_sparse: the true degrees 512 and 1024 (thorough also 2048): five symbolic words
// against a key with four symbolic bits, the other coefficients fixed: exact.
func C15_sparse() {
	setLevel(params.Security128Bit)
	ds := []int{512, 1024}
	if sym.Thorough() {
		ds = []int{512, 1024, 2048}
	}
	N := ds[sym.Choose("degree", len(ds))]
	a, b := poly.NewPoly(N), poly.NewPoly(N)
	for i := range a.Coeffs {
		a.Coeffs[i] = torus(uint32(i)*2654435761 + 12345)
		b.Coeffs[i] = torus((uint32(i) * 2654435761) >> 13 & 1)
	}
	for _, i := range []int{0, 1, N/2 - 1, N / 2, N - 1} {
		a.Coeffs[i] = torus(sym.U32("a"))
	}
	for _, i := range []int{0, N/2 - 1, N / 2, N - 1} {
		b.Coeffs[i] = torus(sym.IntIn("b", 0, 1))
	}
	ka, kb := clone(a.Coeffs), clone(b.Coeffs)
	want := ringMul(ka, kb)
	e := poly.NewEvaluator(N)
	p := e.MulPoly(a, b)
	for i := range want {
		sym.Assert(near(p.Coeffs[i]-want[i], 1), "product")
	}
	p2 := e.MulPoly(a, b)
	assertSame(p2.Coeffs, p.Coeffs, "repeating the product")
	assertSame(a.Coeffs, ka, "first operand unchanged")
	assertSame(b.Coeffs, kb, "second operand unchanged")
}

// C15_fourier: the products in the Fourier domain, degree 16 and 32, arbitrary words
// times key bits.
func C15_fourier() {
	setLevel(params.Security128Bit)
	N := []int{16, 32}[sym.Choose("degree", 2)]
	fourierProducts(N, words("a", N), bits("b", N))
}
