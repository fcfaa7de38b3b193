package harness

import (
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"verifharness/sym"
)

// gadget checks the digits of value v: range and recombination error below one
// unit of the last weight.
func gadget(v torus, digit func(i int) torus) {
	p := params.GetTRGSWLv1()
	half := torus(1) << (p.BGBIT - 1)
	sum := torus(0)
	for i := 0; i < p.L; i++ {
		d := digit(i)
		sym.Assert(d+half < 2*half, "digit in [-Bg/2,Bg/2)")
		sum += d << (32 - uint32(i+1)*p.BGBIT)
	}
	last := torus(1) << (32 - uint32(p.L)*p.BGBIT)
	sym.Assert(v-sum+last <= 2*last, "recombines within the gadget precision")
}

// C09_poly: all eleven levels, all 2^32 values per coefficient of a polynomial of
// degree 4, offset taken from a generated cloud key: range, recombination,
// independence of coefficients, operand unchanged.
func C09_poly() {
	chooseLevel()
	dims(4, 16)
	offset := cloudkey.NewCloudKeyNoKSK().DecompositionOffset
	p := params.GetTRGSWLv1()
	a := words("coefficient", 4)
	keep := clone(a)
	out := make([]poly.Poly, p.L)
	for i := range out {
		out[i] = poly.Poly{Coeffs: words("stale", 4)}
	}
	poly.DecomposePolyAssign(a, int(p.BGBIT), p.L, offset, out)
	for j := 0; j < 4; j++ {
		gadget(a[j], func(i int) torus { return out[i].Coeffs[j] })
	}
	for j := 0; j < 4; j++ {
		one := make([]poly.Poly, p.L)
		for i := range one {
			one[i] = poly.Poly{Coeffs: make([]torus, 4)}
		}
		poly.DecomposePolyAssign([]torus{0, a[j], 0, 0}, int(p.BGBIT), p.L, offset, one)
		for i := range one {
			sym.Assert(one[i].Coeffs[1] == out[i].Coeffs[j], "coefficients are independent")
		}
	}
	assertSame(a, keep, "operand unchanged")
}

// C09_external: all levels, ring dimension 16, both polynomials arbitrary: the
// digits the external product writes into the evaluator's buffers.
func C09_external() {
	chooseLevel()
	dims(1, 16)
	offset := cloudkey.NewCloudKeyNoKSK().DecompositionOffset
	p := params.GetTRGSWLv1()
	pe := poly.NewEvaluator(16)
	in := &trlwe.TRLWELv1{A: words("a", 16), B: words("b", 16)}
	keepA, keepB := clone(in.A), clone(in.B)
	zero := trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1(), pe)
	trgsw.ExternalProductWithFFT(zero, in, offset, pe)
	for j := 0; j < 16; j++ {
		gadget(in.A[j], func(i int) torus { return pe.GetDecompBuffer(i).Coeffs[j] })
		gadget(in.B[j], func(i int) torus { return pe.GetDecompBuffer(i + p.L).Coeffs[j] })
	}
	assertSame(in.A, keepA, "operand unchanged")
	assertSame(in.B, keepB, "operand unchanged")
}
