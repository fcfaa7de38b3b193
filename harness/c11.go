package harness

import (
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"verifharness/sym"
)

// rot multiplies by X^k in the negacyclic ring, k any integer.
func rot(a []torus, k int) []torus {
	n := len(a)
	k = ((k % (2 * n)) + 2*n) % (2 * n)
	r := make([]torus, n)
	for i := range a {
		j := i + k
		v := a[i]
		if j >= 2*n {
			j -= 2 * n
		} else if j >= n {
			j -= n
			v = -v
		}
		r[j] = v
	}
	return r
}

// rounded is the word rounded to a multiple of 1/2N, as an integer modulo 2N.
func rounded(w torus, N int) int {
	lg := uint(log2(N))
	return int((uint64(w)+1<<(31-lg-1))>>(32-lg-1)) % (2 * N)
}

// modSwitch splits over every rounding class of w (the wrapping one included).
func modSwitch(w torus, N int) int {
	lg := uint(log2(N))
	return sym.Concretize(int((uint64(w)+1<<(31-lg-1))>>(32-lg-1))) % (2 * N)
}

// C11_one: LWE dimension 1, ring dimension 16: level-0 bit, ring key, gadget masks
// and test vector (mask part included) arbitrary, gadget noise zero, mask word and
// body arbitrary within the rounding classes of eight (a,b) pairs including the
// wrap; both implementations.
func C11_one() {
	chooseLevelFew()
	N := 16
	dims(1, N)
	offset := cloudkey.NewCloudKeyNoKSK().DecompositionOffset
	rkey := bits("ringkey", N)
	s := torus(sym.IntIn("key", 0, 1))
	pe := poly.NewEvaluator(N)
	ct := &tlwe.TLWELv0{P: words("ct", 2)}
	ab := [][2]int{{0, 0}, {1, 0}, {0, 31}, {15, 16}, {16, 3}, {17, 31}, {31, 1}, {8, 24}}[sym.Choose("class", 8)]
	sym.Assume(rounded(ct.P[0], N) == ab[0])
	sym.Assume(rounded(ct.P[1], N) == ab[1])
	sym.RandSymbolic(0)
	bsk := []*trgsw.TRGSWLv1FFT{gsw16(rkey, s, pe)}
	tv := ringWords("testvector", N)
	keep := cloneR(tv)
	ckeep := clone(ct.P)
	out := trgsw.BlindRotate(ct, tv, bsk, offset, pe)
	out2 := ringWords("stale", N)
	evaluator.NewEvaluator(N).BlindRotateAssign(ct, tv, bsk, offset, out2)
	ph := ringPhase(tv.A, tv.B, rkey)
	w0, w1 := rot(ph, -ab[1]), rot(ph, ab[0]-ab[1])
	bound := epBound(N, 0, fftTol()) + torus(2*N+2)
	for k, o := range []*trlwe.TRLWELv1{out, out2} {
		got := ringPhase(o.A, o.B, rkey)
		for i := range got {
			sym.Assert(near(got[i]-w0[i]-s*(w1[i]-w0[i]), bound), []string{"allocating rotation", "in-place rotation"}[k])
		}
	}
	nearRing(out, out2, torus(2*fftTol())+2, "implementations agree")
	assertRing(tv, keep, "test vector unchanged")
	assertSame(ct.P, ckeep, "ciphertext unchanged")
}

type ringKeys struct {
	key0, key1 []torus
	ck         *cloudkey.CloudKey
}

// keysFor returns a concrete key pair for the current dimensions, with the given
// level-0 bits; the randomness is a fixed draw.
func keysFor(name string, key0 []torus) *ringKeys {
	n := len(key0)
	N := params.GetTRGSWLv1().N
	return sym.Once(name+levelName(), func() any {
		k := &ringKeys{key0: key0, key1: make([]torus, N)}
		for i := range k.key1 {
			k.key1[i] = torus((uint32(i)*2654435761 + 40503) >> 15 & 1)
		}
		_ = n
		k.ck = cloudkey.NewCloudKey(&key.SecretKey{KeyLv0: k.key0, KeyLv1: k.key1})
		return k
	}).(*ringKeys)
}

// noisyEP bounds one external product with the key noise of at most 8 sigma.
func noisyEP(N int) torus {
	e := 8*params.BSKAlpha()*4294967296 + 1.5
	b := epBound(N, 0, fftTol())
	p := params.GetTRGSWLv1()
	return b + torus(2*float64(p.L*N)*float64(p.BG/2)*e)
}

// C11_all: LWE dimension 1, ring dimension 16, one concrete cloud key per level-0
// bit: all 2^64 pairs of mask word and body (every rounding class), every test
// vector body; both implementations.
func C11_all() {
	if sym.Thorough() {
		chooseLevelFew()
	} else {
		setLevel(params.Security128Bit)
	}
	N := 16
	dims(1, N)
	s := torus(sym.Choose("key", 2))
	kp := keysFor("c11all"+itoa(int(s)), []torus{s})
	ct := &tlwe.TLWELv0{P: words("ct", 2)}
	a := modSwitch(ct.P[0], N)
	b := modSwitch(ct.P[1], N)
	tv := &trlwe.TRLWELv1{A: make([]torus, N), B: words("testvector", N)}
	out := trgsw.BlindRotate(ct, tv, kp.ck.BootstrappingKey, kp.ck.DecompositionOffset, poly.NewEvaluator(N))
	out2 := ringWords("stale", N)
	evaluator.NewEvaluator(N).BlindRotateAssign(ct, tv, kp.ck.BootstrappingKey, kp.ck.DecompositionOffset, out2)
	want := rot(tv.B, int(s)*a-b)
	bound := noisyEP(N) + torus(2*N+2)
	for k, o := range []*trlwe.TRLWELv1{out, out2} {
		got := ringPhase(o.A, o.B, kp.key1)
		for i := range got {
			sym.Assert(near(got[i]-want[i], bound), []string{"allocating rotation", "in-place rotation"}[k])
		}
	}
}

// C11_words: LWE dimension 5, ring dimension 16, concrete cloud key with bits
// 1,0,1,1,1: each mask word in turn arbitrary, the others fixed to non-trivial
// values; concrete test vector.
func C11_words() {
	setLevel(params.Security128Bit)
	N, n := 16, 5
	dims(n, N)
	kp := keysFor("c11words", []torus{1, 0, 1, 1, 1})
	ct := tlwe.NewTLWELv0()
	for i := range ct.P {
		ct.P[i] = torus(uint32(i+1) * 0x29ae3b71)
	}
	at := sym.Choose("word", n+1)
	ct.P[at] = torus(sym.U32("ct"))
	r := modSwitch(ct.P[at], N)
	p := 0
	for i := range ct.P {
		v := r
		if i != at {
			v = rounded(ct.P[i], N)
		}
		if i == n {
			p -= v
		} else if kp.key0[i] == 1 {
			p += v
		}
	}
	tv := trlwe.NewTRLWELv1()
	for i := range tv.B {
		tv.B[i] = torus(uint32(i*i+3) << 22)
	}
	out := trgsw.BlindRotate(ct, tv, kp.ck.BootstrappingKey, kp.ck.DecompositionOffset, poly.NewEvaluator(N))
	out2 := ringWords("stale", N)
	evaluator.NewEvaluator(N).BlindRotateAssign(ct, tv, kp.ck.BootstrappingKey, kp.ck.DecompositionOffset, out2)
	want := rot(tv.B, p)
	bound := torus(n) * (noisyEP(N) + torus(2*N+2))
	for k, o := range []*trlwe.TRLWELv1{out, out2} {
		got := ringPhase(o.A, o.B, kp.key1)
		for i := range got {
			sym.Assert(near(got[i]-want[i], bound), []string{"allocating rotation", "in-place rotation"}[k])
		}
	}
}
