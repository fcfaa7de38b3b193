package harness

import (
	"github.com/thedonutfactory/go-tfhe/poly"
	"verifharness/sym"
)

func checkRotation(a, r []torus, k int) {
	n := len(a)
	k = reduce(k, 2*n)
	sym.Assert(len(r) == n, "length")
	for i := 0; i < n; i++ {
		j := i + k
		if (j/n)%2 == 0 {
			sym.Assert(r[j%n] == a[i], "moved coefficient")
		} else {
			sym.Assert(near(r[j%n]+a[i], 1), "wrapped coefficient is negated")
		}
	}
}

// C12_all: degree 16, every 64-bit k, all coefficients, stale output: the three
// public rotation entry points.
func C12_all() {
	n := 16
	a := words("a", n)
	keep := clone(a)
	k := sym.Int("k")
	pe := poly.NewEvaluator(n)
	var r []torus
	switch sym.Choose("form", 3) {
	case 0:
		r = words("stale", n)
		poly.PolyMulWithXKInPlace(a, k, r)
	case 1:
		r = words("stale", n)
		pe.PolyMulWithXKDirect(a, k, r)
	default:
		r = pe.PolyMulWithXK(a, k)
	}
	kk := sym.Concretize(reduce(k, 2*n))
	checkRotation(a, r, kk)
	assertSame(a, keep, "operand unchanged")
}

// C12_big: the ring dimensions 512, 1024, 2048, every k that is a boundary value
// (0, +-1, N-1..N+1, 2N-1..2N+1, 3N, -N, -2N, large), all coefficients.
func C12_big() {
	n := 512 << uint(sym.Choose("log2 degree", 3))
	ks := []int{0, 1, 2, n/2 + 1, n - 1, n, n + 1, 2*n - 1, 2 * n, 2*n + 1, 3 * n, 3*n + 5, -1, -2, -n + 1, -n, -n - 1, -2 * n, -2*n - 3, 1 << 40, -(1 << 40) - 7}
	k := ks[sym.Choose("k", len(ks))]
	a := words("a", n)
	keep := clone(a)
	r := words("stale", n)
	poly.PolyMulWithXKInPlace(a, k, r)
	checkRotation(a, r, k)
	assertSame(a, keep, "operand unchanged")
}

// C12_compose: degree 16, all i, j in [0,2N): X^i then X^j equals X^(i+j) within
// one unit per rotation.
func C12_compose() {
	n := 16
	a := words("a", n)
	i := sym.Choose("i", 2*n)
	j := sym.Choose("j", 2*n)
	r := make([]torus, n)
	s := make([]torus, n)
	poly.PolyMulWithXKInPlace(a, i, r)
	poly.PolyMulWithXKInPlace(r, j, s)
	t := make([]torus, n)
	poly.PolyMulWithXKInPlace(a, i+j, t)
	for x := range s {
		sym.Assert(near(s[x]-t[x], 2), "rotations compose")
	}
}
