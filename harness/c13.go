package harness

import (
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"verifharness/sym"
)

// C13_phase: ring dimension 16, every index, every ring ciphertext and key: the
// extracted sample has the coefficient's phase; all three extractions agree.
func C13_phase() {
	setLevel(params.Security128Bit)
	n := 16
	dims(n, n)
	k := sym.Choose("index", n)
	ct := &trlwe.TRLWELv1{A: words("a", n), B: words("b", n)}
	keepA, keepB := clone(ct.A), clone(ct.B)
	key := bits("key", n)
	out := trlwe.SampleExtractIndex(ct, k)
	d := phase(out.P, key) - ringPhase(ct.A, ct.B, key)[k]
	sym.Observe("difference", uint64(d))
	sym.Assert(len(out.P) == n+1, "length")
	sym.Assert(near(d, torus(n)), "phase of the coefficient")
	dirty := &tlwe.TLWELv1{P: words("stale", n+1)}
	trlwe.SampleExtractIndexAssign(ct, k, dirty)
	assertSame(dirty.P, out.P, "in-place form agrees")
	two := trlwe.SampleExtractIndex2(ct, k)
	assertSame(two.P, out.P, "dimension-checked form agrees")
	assertSame(ct.A, keepA, "operand unchanged")
	assertSame(ct.B, keepB, "operand unchanged")
	out.P[0]++
	assertSame(ct.A, keepA, "independent storage")
}

// C13_big: the true ring dimension of every level, boundary indices: each mask
// word is the right coefficient or its negation within one unit.
func C13_big() {
	chooseLevel()
	n := params.GetTRLWELv1().N
	ks := []int{0, 1, n/2 - 1, n / 2, n - 2, n - 1}
	k := ks[sym.Choose("index", len(ks))]
	ct := &trlwe.TRLWELv1{A: words("a", n), B: words("b", n)}
	out := trlwe.SampleExtractIndex(ct, k)
	dirty := &tlwe.TLWELv1{P: words("stale", n+1)}
	trlwe.SampleExtractIndexAssign(ct, k, dirty)
	for i := 0; i < n; i++ {
		if i <= k {
			sym.Assert(out.P[i] == ct.A[k-i], "mask word")
			sym.Assert(dirty.P[i] == ct.A[k-i], "mask word")
		} else {
			sym.Assert(near(out.P[i]+ct.A[n+k-i], 1), "negated mask word")
			sym.Assert(dirty.P[i] == out.P[i], "in-place form agrees")
		}
	}
	sym.Assert(out.P[n] == ct.B[k], "body")
	sym.Assert(dirty.P[n] == ct.B[k], "body")
}

// C13_refuse: every pair of LWE dimension 1..20 and ring dimension 4, 8, 16: the
// dimension-checked extraction panics exactly when they differ.
func C13_refuse() {
	setLevel(params.Security128Bit)
	n0 := 1 + sym.Choose("lwe", 20)
	n1 := 4 << uint(sym.Choose("ring", 3))
	dims(n0, n1)
	ct := &trlwe.TRLWELv1{A: words("a", n1), B: words("b", n1)}
	panicked := false
	func() {
		defer func() {
			if recover() != nil {
				panicked = true
			}
		}()
		trlwe.SampleExtractIndex2(ct, 0)
	}()
	sym.Assert(panicked == (n0 != n1), "refuses mismatching dimensions")
}
