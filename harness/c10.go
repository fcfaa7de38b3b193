package harness

import (
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"verifharness/sym"
)

// gadgetUnit is the weight of the last gadget digit.
func gadgetUnit() torus {
	p := params.GetTRGSWLv1()
	return torus(1) << (32 - uint32(p.L)*p.BGBIT)
}

// epBound bounds the phase error of one external product in ring dimension N:
// truncated digits (weight 1 from B, N from A times key), the noise e of the
// 2L rows, and double-precision rounding fft per coefficient.
func epBound(N int, e, fft float64) torus {
	p := params.GetTRGSWLv1()
	b := float64(N+1)*float64(gadgetUnit()) + float64(N+1)*fft
	b += 2 * float64(p.L*N) * float64(p.BG/2) * e
	return torus(b)
}

func cloneR(t *trlwe.TRLWELv1) *trlwe.TRLWELv1 {
	return &trlwe.TRLWELv1{A: clone(t.A), B: clone(t.B)}
}

func assertRing(a, b *trlwe.TRLWELv1, label string) {
	assertSame(a.A, b.A, label)
	assertSame(a.B, b.B, label)
}

func nearRing(a, b *trlwe.TRLWELv1, tol torus, label string) {
	for i := range a.A {
		sym.Assert(near(a.A[i]-b.A[i], tol), label)
		sym.Assert(near(a.B[i]-b.B[i], tol), label)
	}
}

func ringWords(label string, N int) *trlwe.TRLWELv1 {
	return &trlwe.TRLWELv1{A: words(label, N), B: words(label, N)}
}

// fftTol bounds the double-precision rounding of one output coefficient at N=16.
func fftTol() float64 {
	p := params.GetTRGSWLv1()
	return 64 + float64(p.L)*float64(p.BG)/32
}

// gsw16 makes a gadget encryption of a symbolic bit in ring dimension 16.
func gsw16(key []torus, bit torus, pe *poly.Evaluator) *trgsw.TRGSWLv1FFT {
	return trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(bit, params.BSKAlpha(), key, pe), pe)
}

func cloneG(g *trgsw.TRGSWLv1FFT) [][]float64 {
	var r [][]float64
	for i := range g.TRLWEFFT {
		r = append(r, fclone(g.TRLWEFFT[i].A.Coeffs), fclone(g.TRLWEFFT[i].B.Coeffs))
	}
	return r
}

func assertG(a, b [][]float64, label string) {
	sym.Assert(len(a) == len(b), label)
	for i := range a {
		assertSameF(a[i], b[i], label)
	}
}

// C10_product: ring dimension 16, ring key, gadget masks, bit and input ciphertext
// arbitrary, gadget noise zero; both implementations.
func C10_product() {
	chooseLevel()
	N := 16
	dims(1, N)
	offset := cloudkey.NewCloudKeyNoKSK().DecompositionOffset
	key := bits("key", N)
	bit := torus(sym.IntIn("bit", 0, 1))
	pe := poly.NewEvaluator(N)
	sym.RandSymbolic(0)
	gsw := gsw16(key, bit, pe)
	gkeep := cloneG(gsw)
	in := ringWords("in", N)
	keep := cloneR(in)
	out := cloneR(trgsw.ExternalProductWithFFT(gsw, in, offset, pe))
	ev := evaluator.NewEvaluator(N)
	out2 := ringWords("stale", N)
	ev.ExternalProductAssign(gsw, in, offset, out2)
	fft := fftTol()
	bound := epBound(N, 0, fft)
	want := ringPhase(in.A, in.B, key)
	for k, o := range []*trlwe.TRLWELv1{out, out2} {
		got := ringPhase(o.A, o.B, key)
		for i := range got {
			sym.Assert(near(got[i]-bit*want[i], bound), []string{"allocating product", "in-place product"}[k])
		}
	}
	nearRing(out, out2, torus(2*fft), "implementations agree")
	assertRing(in, keep, "input unchanged")
	assertG(cloneG(gsw), gkeep, "gadget ciphertext unchanged")
}

// C10_noise: the same with every noise of the gadget ciphertext symbolic, |e| <= 6
// sigma: the error stays within digits times noise.
func C10_noise() {
	chooseLevel()
	N := 16
	dims(1, N)
	offset := cloudkey.NewCloudKeyNoKSK().DecompositionOffset
	key := bits("key", N)
	bit := torus(sym.IntIn("bit", 0, 1))
	pe := poly.NewEvaluator(N)
	sym.RandSymbolic(6)
	gsw := gsw16(key, bit, pe)
	in := ringWords("in", N)
	out := trgsw.ExternalProductWithFFT(gsw, in, offset, pe)
	e := 6*params.BSKAlpha()*4294967296 + 1.5
	b := epBound(N, e, fftTol())
	sym.Assert(b < 1<<29, "error budget below 1/8")
	want := ringPhase(in.A, in.B, key)
	got := ringPhase(out.A, out.B, key)
	for i := range got {
		sym.Assert(near(got[i]-bit*want[i], b), "noisy product")
	}
}

// C10_select: the controlled selector, both implementations, ring dimension 16,
// everything arbitrary, gadget noise zero; the in-place form also onto its first
// input.
func C10_select() {
	chooseLevel()
	N := 16
	dims(1, N)
	offset := cloudkey.NewCloudKeyNoKSK().DecompositionOffset
	key := bits("key", N)
	bit := torus(sym.IntIn("bit", 0, 1))
	pe := poly.NewEvaluator(N)
	sym.RandSymbolic(0)
	gsw := gsw16(key, bit, pe)
	gkeep := cloneG(gsw)
	in0, in1 := ringWords("first", N), ringWords("second", N)
	keep0, keep1 := cloneR(in0), cloneR(in1)
	outs := []*trlwe.TRLWELv1{cloneR(trgsw.CMUX(in0, in1, gsw, offset, pe)), ringWords("stale", N), cloneR(in0)}
	ev := evaluator.NewEvaluator(N)
	ev.CMuxAssign(gsw, in0, in1, offset, outs[1])
	ev.CMuxAssign(gsw, outs[2], in1, offset, outs[2])
	b := epBound(N, 0, fftTol())
	p0, p1 := ringPhase(in0.A, in0.B, key), ringPhase(in1.A, in1.B, key)
	for k, o := range outs {
		got := ringPhase(o.A, o.B, key)
		for i := range got {
			sym.Assert(near(got[i]-p0[i]-bit*(p1[i]-p0[i]), b), []string{"allocating selector", "in-place selector", "selector onto its input"}[k])
		}
	}
	nearRing(outs[0], outs[1], torus(2*fftTol()), "implementations agree")
	assertRing(in0, keep0, "first input unchanged")
	assertRing(in1, keep1, "second input unchanged")
	assertG(cloneG(gsw), gkeep, "gadget ciphertext unchanged")
}
