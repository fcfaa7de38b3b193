package harness

import (
	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"verifharness/sym"
)

// C01_lv0: level-0 bit encryption at the true dimension of each of the eleven
// levels; key bits, mask words, bit and Gaussian draw symbolic, |noise| <= 0.1249.
func C01_lv0() {
	chooseLevel()
	n := params.GetTLWELv0().N
	alpha := params.GetTLWELv0().ALPHA
	key := bits("key", n)
	keep := clone(key)
	sym.RandSymbolic(0.1249 / alpha)
	b := sym.Bool("bit")
	sym.ResetNorms()
	ct := tlwe.NewTLWELv0().EncryptBool(b, alpha, key)
	sym.Assert(len(ct.P) == n+1, "length")
	ph := phase(ct.P, key)
	sym.Observe("phase", uint64(ph))
	checkBitPhase(ph, b, alpha)
	sym.Assert(ct.DecryptBool(key) == b, "decrypt")
	assertSame(key, keep, "key unchanged")
}

func checkBitPhase(ph torus, b bool, alpha float64) {
	ns := sym.Norms()
	sym.Assert(len(ns) == 1, "one noise draw per ciphertext")
	mu := torus(7 * (1 << 29))
	if b {
		mu = torus(1 << 29)
	}
	noise := int64(ns[0] * alpha * 4294967296)
	d := int64(int32(ph-mu)) - noise
	sym.Assert(d >= -1 && d <= 1, "phase is +-1/8 plus the drawn noise")
}

// C01_lv1: the same for level-1 ciphertexts (ring dimension up to 2048).
func C01_lv1() {
	chooseLevel()
	n := params.GetTLWELv1().N
	alpha := 1e-3
	if sym.Choose("alpha", 2) == 1 {
		alpha = params.GetTLWELv1().ALPHA
	}
	key := bits("key", n)
	bound := 0.1249 / alpha
	if bound > 1e6 {
		bound = 1e6
	}
	sym.RandSymbolic(bound)
	b := sym.Bool("bit")
	sym.ResetNorms()
	ct := tlwe.NewTLWELv1().EncryptBool(b, alpha, key)
	sym.Assert(len(ct.P) == n+1, "length")
	ph := phase(ct.P, key)
	sym.Observe("phase", uint64(ph))
	checkBitPhase(ph, b, alpha)
	sym.Assert(ct.DecryptBool(key) == b, "decrypt")
}

// C01_slices: EncryptBits/DecryptBits on every length 0..9 (0..40 thorough) and on a few
// long ones that are no multiples of likely block sizes, n=3, all bits, keys, masks,
// |noise| <= 0.1249.
func C01_slices() {
	setLevel(params.Security128Bit)
	dims(3, 16)
	max := 9
	if sym.Thorough() {
		max = 40
	}
	long := []int{33, 67, 131, 259}
	m := sym.Choose("len", max+1+len(long))
	if m > max {
		m = long[m-max-1]
	}
	key := bits("key", 3)
	alpha := params.GetTLWELv0().ALPHA
	sym.RandSymbolic(0.1249 / alpha)
	in := make([]bool, m)
	for i := range in {
		in[i] = sym.Bool("bit")
	}
	cts := bitutils.EncryptBits(in, alpha, key)
	sym.Assert(len(cts) == m, "encrypted length")
	out := bitutils.DecryptBits(cts, key)
	sym.Assert(len(out) == m, "decrypted length")
	for i := range in {
		sym.Assert(out[i] == in[i], "bit order")
	}
}

// C01_bounds: at n=4, decryption depends only on the sign of the phase: any
// ciphertext whose phase is in [0,1/2) decrypts to true, else false; both levels.
func C01_bounds() {
	setLevel(params.Security128Bit)
	params.VerifSet(params.VerifDims{N0: 4, N1: 16, Nbit: 4})
	key := bits("key", 4)
	ct := &tlwe.TLWELv0{P: words("ct", 5)}
	ph := phase(ct.P, key)
	sym.Assert(ct.DecryptBool(key) == (ph < 1<<31), "level 0 sign")
	key1 := bits("key1", 16)
	ct1 := &tlwe.TLWELv1{P: words("ct1", 17)}
	ph1 := phase(ct1.P, key1)
	sym.Assert(ct1.DecryptBool(key1) == (ph1 < 1<<31), "level 1 sign")
}
