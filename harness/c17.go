package harness

import (
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"verifharness/sym"
)

func u32s(vs ...[]torus) []uint32 {
	var r []uint32
	for _, v := range vs {
		for _, w := range v {
			r = append(r, uint32(w))
		}
	}
	return r
}

// C17_secret: the secret key at the true dimensions of every level, every draw of
// the generator: dimensions, binary entries, every vector of bits possible; a second
// key is another draw and leaves the first alone.
func C17_secret() {
	chooseLevel()
	k := key.NewSecretKey()
	n, N := params.GetTLWELv0().N, params.GetTLWELv1().N
	sym.Assert(len(k.KeyLv0) == n && len(k.KeyLv1) == N, "dimensions")
	for _, v := range k.KeyLv0 {
		sym.Assert(v <= 1, "binary level-0 entries")
	}
	for _, v := range k.KeyLv1 {
		sym.Assert(v <= 1, "binary level-1 entries")
	}
	sym.CoverAll(u32s(k.KeyLv0, k.KeyLv1), 1, "every key possible")
}

// C17_two: two keys at small dimensions: all bits of both are free.
func C17_two() {
	setLevel(params.Security128Bit)
	dims(3, 16)
	a := key.NewSecretKey()
	b := key.NewSecretKey()
	sym.CoverAll(u32s(a.KeyLv0, a.KeyLv1, b.KeyLv0, b.KeyLv1), 1, "keys are independent draws")
}

// C17_ksk: every level's digit base and length, n=2, N=16, both keys arbitrary,
// masks arbitrary, noise up to 6 sigma: every entry.
func C17_ksk() {
	chooseLevel()
	n, N := 2, 16
	dims(n, N)
	sk := &key.SecretKey{KeyLv0: bits("key0", n), KeyLv1: bits("key1", N)}
	k0, k1 := clone(sk.KeyLv0), clone(sk.KeyLv1)
	sym.RandSymbolic(6)
	ck := cloudkey.NewCloudKey(sk)
	p := params.GetTRGSWLv1()
	base := 1 << uint(p.BASEBIT)
	sym.Assert(len(ck.KeySwitchingKey) == base*p.IKS_T*N, "number of entries")
	e := torus(6*params.KSKAlpha()*4294967296) + 2
	for i := 0; i < N; i++ {
		for j := 0; j < p.IKS_T; j++ {
			for k := 1; k < base; k++ {
				c := ck.KeySwitchingKey[base*p.IKS_T*i+base*j+k]
				sym.Assert(len(c.P) == n+1, "entry length")
				want := torus(k) * k1[i] * (torus(1) << uint(32-(j+1)*p.BASEBIT))
				sym.Assert(near(phase(c.P, k0)-want, e), "digit times key bit over base^position")
			}
		}
	}
	assertSame(sk.KeyLv0, k0, "secret key unchanged")
	assertSame(sk.KeyLv1, k1, "secret key unchanged")
}

func gadgetRows(g *trgsw.TRGSWLv1FFT, pe *poly.Evaluator) []*trlwe.TRLWELv1 {
	var r []*trlwe.TRLWELv1
	for i := range g.TRLWEFFT {
		r = append(r, &trlwe.TRLWELv1{A: pe.ToPoly(g.TRLWEFFT[i].A).Coeffs, B: pe.ToPoly(g.TRLWEFFT[i].B).Coeffs})
	}
	return r
}

// checkGadget: rows encrypt bit times the gadget weights within e.
func checkGadget(rows []*trlwe.TRLWELv1, bit torus, key []torus, e torus, label string) {
	p := params.GetTRGSWLv1()
	sym.Assert(len(rows) == 2*p.L, label+": number of rows")
	for r, row := range rows {
		got := ringPhase(row.A, row.B, key)
		w := torus(1) << uint32(32-uint32(r%p.L+1)*p.BGBIT)
		for c := range got {
			want := torus(0)
			if r < p.L {
				want -= bit * w * key[c]
			} else if c == 0 {
				want = bit * w
			}
			sym.Assert(near(got[c]-want, e), label)
		}
	}
}

// C17_bsk: every level's gadget, n=2, N=16, both keys arbitrary, masks arbitrary,
// noise up to 6 sigma: every row is a gadget row of the level-0 key bit.
func C17_bsk() {
	chooseLevel()
	n, N := 2, 16
	dims(n, N)
	sk := &key.SecretKey{KeyLv0: bits("key0", n), KeyLv1: bits("key1", N)}
	sym.RandSymbolic(6)
	ck := cloudkey.NewCloudKey(sk)
	sym.Assert(len(ck.BootstrappingKey) == n, "one gadget ciphertext per bit")
	e := torus(6*params.BSKAlpha()*4294967296) + 64
	for i, g := range ck.BootstrappingKey {
		checkGadget(gadgetRows(g, poly.NewEvaluator(N)), sk.KeyLv0[i], sk.KeyLv1, e, "gadget encryption of the key bit")
	}
}

// C17_shape: true dimensions of every level: test vector constant 1/8 with zero
// mask, shapes of a cloud key without secret.
func C17_shape() {
	chooseLevel()
	N := params.GetTRGSWLv1().N
	n := params.GetTLWELv0().N
	if !sym.Thorough() {
		n = 3
	}
	dims(n, N)
	ck := cloudkey.NewCloudKeyNoKSK()
	t := ck.BlindRotateTestvec
	sym.Assert(len(t.A) == N && len(t.B) == N, "test vector size")
	for i := range t.A {
		sym.Assert(t.A[i] == 0, "test vector mask")
		sym.Assert(t.B[i] == 1<<29, "test vector body is 1/8")
	}
	p := params.GetTRGSWLv1()
	sym.Assert(len(ck.BootstrappingKey) == n, "bootstrapping key size")
	sym.Assert(len(ck.BootstrappingKey[0].TRLWEFFT) == 2*p.L, "gadget rows")
	sym.Assert(len(ck.KeySwitchingKey) == N*p.IKS_T<<uint(p.BASEBIT), "key-switching key size")
}

// C17_workers: key generation by concurrent workers is race free and its test vector
// and offset equal those of other keys; n=3, N=16, concrete keys.
func C17_workers() {
	setLevel(levels[quickOf([]int{0, 4, 7}, len(levels), "level")])
	n, N := 3, 16
	dims(n, N)
	sk := &key.SecretKey{KeyLv0: []torus{1, 0, 1}, KeyLv1: make([]torus, N)}
	for i := range sk.KeyLv1 {
		sk.KeyLv1[i] = torus(i * i / 3 & 1)
	}
	sym.RandConcrete(1)
	sym.CheckRaces()
	ck := cloudkey.NewCloudKey(sk)
	p := params.GetTRGSWLv1()
	base := 1 << uint(p.BASEBIT)
	e := torus(8*params.KSKAlpha()*4294967296) + 2
	seen := make([]*tlwe.TLWELv0, 0)
	for i := 0; i < N; i++ {
		for k := 1; k < base; k++ {
			c := ck.KeySwitchingKey[base*p.IKS_T*i+k]
			sym.Assert(near(phase(c.P, sk.KeyLv0)-torus(k)*sk.KeyLv1[i]<<uint(32-p.BASEBIT), e), "first digit entries")
			seen = append(seen, c)
		}
	}
	c0 := clone(seen[0].P)
	for _, c := range seen[1:] {
		c.P[0]++
	}
	assertSame(seen[0].P, c0, "entries do not share storage")
	for i, g := range ck.BootstrappingKey {
		checkGadget(gadgetRows(g, poly.NewEvaluator(N)), sk.KeyLv0[i], sk.KeyLv1, torus(8*params.BSKAlpha()*4294967296)+64, "gadget encryption of the key bit")
	}
	ck2 := cloudkey.NewCloudKey(sk)
	sym.Assert(ck.DecompositionOffset == ck2.DecompositionOffset, "same offset")
	assertRing(ck.BlindRotateTestvec, ck2.BlindRotateTestvec, "same test vector")
	ck2.BlindRotateTestvec.B[0]++
	sym.Assert(ck.BlindRotateTestvec.B[0] == 1<<29, "test vectors do not share storage")
}

// C17_ksk_real: the true ring dimension, n=1, level-0 key and masks arbitrary, level-1
// key fixed, noise up to 6 sigma: every entry of the key-switching key.
func C17_ksk_real() {
	setLevel(levels[quickOf([]int{0, 1, 4}, 8, "level")])
	N := params.GetTRGSWLv1().N
	dims(1, N)
	sk := &key.SecretKey{KeyLv0: bits("key0", 1), KeyLv1: make([]torus, N)}
	for i := range sk.KeyLv1 {
		sk.KeyLv1[i] = torus((uint32(i)*2654435761 + 40503) >> 15 & 1)
	}
	sym.RandSymbolic(6)
	ck := cloudkey.NewCloudKey(sk)
	p := params.GetTRGSWLv1()
	base := 1 << uint(p.BASEBIT)
	e := torus(6*params.KSKAlpha()*4294967296) + 2
	for i := 0; i < N; i++ {
		for j := 0; j < p.IKS_T; j++ {
			for k := 1; k < base; k++ {
				c := ck.KeySwitchingKey[base*p.IKS_T*i+base*j+k]
				want := torus(k) * sk.KeyLv1[i] * (torus(1) << uint(32-(j+1)*p.BASEBIT))
				sym.Assert(near(phase(c.P, sk.KeyLv0)-want, e), "digit times key bit over base^position")
			}
		}
	}
}
