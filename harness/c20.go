package harness

import (
	"github.com/thedonutfactory/go-tfhe/params"
	"verifharness/sym"
)

type doc struct {
	level        params.SecurityLevel
	n, N         int
	alpha0, alp1 float64
	rel          float64 // digits given in the documentation
	modulus      int
}

// dimensions and noise as documented in README.md and in the comments of the
// level constants; 0 where the documentation says nothing.
var docs = []doc{
	{params.Security80Bit, 550, 1024, 5.0e-5, 3.73e-8, 0.01, 2},
	{params.Security110Bit, 630, 1024, 3.05e-5, 2.98e-8, 0.01, 2},
	{params.Security128Bit, 700, 1024, 2.0e-5, 2.0e-8, 0.01, 2},
	{params.SecurityUint1, 700, 1024, 2.0e-5, 2.0e-8, 0.01, 2},
	{params.SecurityUint2, 0, 512, 0, 0, 0.01, 4},
	{params.SecurityUint3, 0, 1024, 0, 0, 0.01, 8},
	{params.SecurityUint4, 0, 2048, 0, 0, 0.01, 16},
	{params.SecurityUint5, 1071, 2048, 7.1e-8, 2.2e-17, 0.02, 32},
	{params.SecurityUint6, 1071, 2048, 7.1e-8, 2.2e-17, 0.02, 64},
	{params.SecurityUint7, 1160, 2048, 0, 0, 0.02, 128},
	{params.SecurityUint8, 1160, 2048, 0, 0, 0.02, 256},
}

func closeTo(x, want, rel float64) bool {
	return want == 0 || x >= want*(1-rel) && x <= want*(1+rel)
}

// anyLevel makes the level an arbitrary machine integer, split by the documented
// levels; the last class is every other value.
func anyLevel() doc {
	l := sym.Int("level")
	params.CurrentSecurityLevel = params.SecurityLevel(l)
	for _, d := range docs {
		if sym.Fork(l == int(d.level)) {
			return d
		}
	}
	return docs[2]
}

// C20_coherent: every machine integer as level: one coherent parameter set.
func C20_coherent() {
	realDims()
	d := anyLevel()
	l0, l1, r1, g1 := params.GetTLWELv0(), params.GetTLWELv1(), params.GetTRLWELv1(), params.GetTRGSWLv1()
	sym.Assert(l1.N == r1.N && r1.N == g1.N, "ring dimensions agree")
	sym.Assert(g1.NBIT > 0 && g1.NBIT < 31 && g1.N == 1<<uint(g1.NBIT), "ring dimension is the stated power of two")
	sym.Assert(g1.BGBIT > 0 && g1.BGBIT < 32 && g1.BG == 1<<g1.BGBIT, "gadget base")
	sym.Assert(g1.L > 0 && uint32(g1.L)*g1.BGBIT <= 32, "gadget digits fit the torus word")
	sym.Assert(g1.BASEBIT > 0 && g1.IKS_T > 0 && g1.BASEBIT*g1.IKS_T < 32, "key-switching digits fit the torus word")
	sym.Assert(l0.N > 0 && l1.N >= 16, "dimensions positive")
	sym.Assert(l0.ALPHA > 0 && l0.ALPHA < 0.125 && l1.ALPHA > 0 && l1.ALPHA < 0.125, "noise positive and below 1/8")
	sym.Assert(l1.ALPHA == r1.ALPHA && r1.ALPHA == g1.ALPHA, "noise of the ring level agrees")
	sym.Assert(params.KSKAlpha() == l0.ALPHA, "key-switching noise follows the level")
	sym.Assert(params.BSKAlpha() == l1.ALPHA, "bootstrapping noise follows the level")
	sym.Assert(d.n == 0 || l0.N == d.n, "documented LWE dimension")
	sym.Assert(l1.N == d.N, "documented ring dimension")
	sym.Assert(closeTo(l0.ALPHA, d.alpha0, d.rel), "documented LWE noise")
	sym.Assert(closeTo(l1.ALPHA, d.alp1, d.rel), "documented ring noise")
	sym.Assert(d.modulus <= g1.N, "ring large enough for the message modulus")
	sym.Assert(l0.ALPHA*float64(4*d.modulus) < 1, "noise below half the message spacing")
	sym.Assert(params.SecurityInfo() != "", "described")
}

// C20_blocks: every level, every block size 0..9 as configured: the blocks cover
// the dimension exactly, the last one non-empty.
func C20_blocks() {
	realDims()
	anyLevel()
	n := params.GetTLWELv0().N
	bs := params.GetTRGSWLv1().BlockSize
	c := params.GetBlockCount()
	if bs < 1 {
		bs = 1
	}
	sym.Assert(c*bs >= n && (c-1)*bs < n, "blocks cover the dimension exactly")
	sym.Assert(params.UseBlockBlindRotation() == (params.GetTRGSWLv1().BlockSize > 1), "block rotation flag")
}

// C20_unknown: a value that names no level behaves exactly as 128-bit.
func C20_unknown() {
	realDims()
	l := sym.Int("level")
	for _, d := range docs {
		sym.Assume(l != int(d.level))
	}
	params.CurrentSecurityLevel = params.SecurityLevel(l)
	a0, a1, ar, ag := params.GetTLWELv0(), params.GetTLWELv1(), params.GetTRLWELv1(), params.GetTRGSWLv1()
	i := params.SecurityInfo()
	params.CurrentSecurityLevel = params.Security128Bit
	sym.Assert(a0 == params.GetTLWELv0() && a1 == params.GetTLWELv1() && ar == params.GetTRLWELv1() && ag == params.GetTRGSWLv1(), "unknown means 128-bit")
	sym.Assert(i == params.SecurityInfo(), "unknown is described as 128-bit")
}
