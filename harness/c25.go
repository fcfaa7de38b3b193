package harness

import (
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"verifharness/sym"
)

// C25_bits: ring dimension 16 (thorough also 32), every level, key, bit vector,
// masks and noise (total below 1/8 minus 2^-20) arbitrary: phase and decryption.
func C25_bits() {
	chooseLevel()
	N := 16
	if sym.Thorough() {
		N <<= uint(sym.Choose("ring", 2))
	}
	dims(2, N)
	k := bits("ringkey", N)
	keep := clone(k)
	pe := poly.NewEvaluator(N)
	alpha := 1e-3
	lim := 0.125 - 1.0/1048576
	sym.RandSymbolic(lim / alpha)
	bs := make([]bool, N)
	for i := range bs {
		bs[i] = sym.Bool("bit")
	}
	bk := append([]bool(nil), bs...)
	sym.ResetNorms()
	c := trlwe.NewTRLWELv1().EncryptBool(bs, alpha, k, pe)
	sym.Assert(len(c.A) == N && len(c.B) == N, "size")
	a := clone(c.A)
	b := clone(c.B)
	ph := ringPhase(c.A, c.B, k)
	for i := range ph {
		mu := 7 * eighth
		if bk[i] {
			mu = eighth
		}
		ph[i] -= mu
	}
	ownNoise(ph, alpha, 64, "phase is plaintext plus noise")
	got := c.DecryptBool(k, pe)
	sym.Assert(len(got) == N, "decrypted length")
	for i := range got {
		sym.Assert(got[i] == bk[i], "bit")
		sym.Assert(bs[i] == bk[i], "plaintext unchanged")
	}
	assertSame(c.A, a, "ciphertext unchanged by decrypting")
	assertSame(c.B, b, "ciphertext unchanged by decrypting")
	assertSame(k, keep, "key unchanged")
}

// C25_decrypt: every ring ciphertext: a coefficient decrypts to true when its phase
// is in [2^-20, 1/2-2^-20), to false when in [1/2+2^-20, 1-2^-20); N=16.
func C25_decrypt() {
	setLevel(params.Security128Bit)
	N := 16
	dims(2, N)
	k := bits("ringkey", N)
	pe := poly.NewEvaluator(N)
	c := ringWords("ct", N)
	ph := ringPhase(c.A, c.B, k)
	got := c.DecryptBool(k, pe)
	m := torus(4096)
	i := sym.Choose("index", N)
	if sym.Fork(ph[i]-m < 1<<31-2*m) {
		sym.Assert(got[i], "true for a positive phase")
	} else if sym.Fork(ph[i]-1<<31-m < 1<<31-2*m) {
		sym.Assert(!got[i], "false for a negative phase")
	}
}

// C25_real: true ring dimension of the level, concrete key, masks and noise draws,
// one arbitrary bit per run of 64: phase and decryption.
func C25_real() {
	setLevel(levels[quickOf([]int{0, 4, 7}, len(levels), "level")])
	N := params.GetTRGSWLv1().N
	dims(2, N)
	k := make([]torus, N)
	for i := range k {
		k[i] = torus((uint32(i)*2654435761 + 40503) >> 15 & 1)
	}
	pe := poly.NewEvaluator(N)
	sym.RandConcrete(11)
	bs := make([]bool, N)
	for i := range bs {
		bs[i] = i*i%5 > 2
		if i%64 == 0 || i == N-1 {
			bs[i] = sym.Bool("bit")
		}
	}
	c := trlwe.NewTRLWELv1().EncryptBool(bs, 1e-3, k, pe)
	got := c.DecryptBool(k, pe)
	for i := range got {
		sym.Assert(got[i] == bs[i], "bit at the true dimension")
	}
}

// C25_gadget: gadget encryption of every torus scalar, noise zero, every level, N=16:
// row i of each half carries the scalar times its weight in the constant
// coefficient only, and its rows are otherwise encryptions of zero.
func C25_gadget() {
	chooseLevel()
	N := 16
	dims(2, N)
	k := bits("ringkey", N)
	pe := poly.NewEvaluator(N)
	sym.RandSymbolic(0)
	p := params.GetTRGSWLv1()
	v := torus(sym.U32("scalar"))
	mark := sym.TapeMark()
	g := trgsw.NewTRGSWLv1().EncryptTorus(v, params.BSKAlpha(), k, pe)
	sym.TapeRewind(mark)
	z := trgsw.NewTRGSWLv1().EncryptTorus(0, params.BSKAlpha(), k, pe)
	sym.TapeStop()
	sym.Assert(len(g.TRLWE) == 2*p.L, "rows")
	for r := range g.TRLWE {
		w := torus(1) << uint32(32-uint32(r%p.L+1)*p.BGBIT)
		for c := 0; c < N; c++ {
			da, db := torus(0), torus(0)
			if c == 0 && r < p.L {
				da = v * w
			} else if c == 0 {
				db = v * w
			}
			sym.Assert(g.TRLWE[r].A[c]-z.TRLWE[r].A[c] == da, "scalar times weight in the mask's constant coefficient")
			sym.Assert(near(g.TRLWE[r].B[c]-z.TRLWE[r].B[c]-db, 64), "scalar times weight in the body's constant coefficient")
		}
		for _, x := range ringPhase(z.TRLWE[r].A, z.TRLWE[r].B, k) {
			sym.Assert(near(x, 64), "rows encrypt zero")
		}
	}
}
