package harness

import (
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"verifharness/sym"
)

func kskHalf() torus {
	p := params.GetTRGSWLv1()
	return torus(1) << uint(32-1-p.BASEBIT*p.IKS_T)
}

func chooseLevelFew() params.SecurityLevel {
	if sym.Thorough() {
		return chooseLevel()
	}
	ls := []params.SecurityLevel{params.Security128Bit, params.Security80Bit, params.SecurityUint1, params.SecurityUint2, params.SecurityUint3, params.SecurityUint5}
	l := ls[sym.Choose("level", len(ls))]
	params.CurrentSecurityLevel = l
	return l
}

// C14_rounding: every digit base and length of the parameter sets, n=2, N=16,
// level-0 and level-1 keys arbitrary, masks of the key-switching key arbitrary,
// its noise zero; source ciphertext arbitrary in every word: the phase changes by
// at most half a unit of the last digit per coordinate.
func C14_rounding() {
	chooseLevel()
	n, N := 1, 16
	dims(n, N)
	sk := &key.SecretKey{KeyLv0: bits("key0", n), KeyLv1: bits("key1", N)}
	sym.RandSymbolic(0)
	ck := cloudkey.NewCloudKey(sk)
	src := &tlwe.TLWELv1{P: words("source", N+1)}
	keep := clone(src.P)
	out := trgsw.IdentityKeySwitching(src, ck.KeySwitchingKey)
	sym.Assert(len(out.P) == n+1, "length")
	d := phase(out.P, sk.KeyLv0) - phase(src.P, sk.KeyLv1)
	sym.Observe("difference", uint64(d))
	sym.Assert(near(d, torus(N)*kskHalf()), "phase preserved up to rounding")
	dirty := &tlwe.TLWELv0{P: words("stale", n+1)}
	trgsw.IdentityKeySwitchingAssign(src, ck.KeySwitchingKey, dirty)
	assertSame(dirty.P, out.P, "in-place form agrees")
	assertSame(src.P, keep, "source unchanged")
}

// C14_noise: the same with noise: every KSK noise |e| <= 6 sigma symbolic, keys,
// masks and source arbitrary: the phase moves by at most the rounding plus one
// noise per digit.
func C14_noise() {
	chooseLevel()
	n, N := 1, 16
	dims(n, N)
	sk := &key.SecretKey{KeyLv0: bits("key0", n), KeyLv1: bits("key1", N)}
	sym.RandSymbolic(6)
	ck := cloudkey.NewCloudKey(sk)
	src := &tlwe.TLWELv1{P: words("source", N+1)}
	out := trgsw.IdentityKeySwitching(src, ck.KeySwitchingKey)
	d := phase(out.P, sk.KeyLv0) - phase(src.P, sk.KeyLv1)
	e := torus(6*params.KSKAlpha()*4294967296) + 2
	sym.Assert(near(d, torus(N)*(kskHalf()+torus(params.GetTRGSWLv1().IKS_T)*e)), "phase preserved up to rounding and key noise")
}

// C14_real: the true ring dimension of each level with a concrete key and concrete
// key noise (n=2): two symbolic words at the boundary and middle coordinates, other
// words zero or fixed; symbolic body.
func C14_real() {
	chooseLevelFew()
	realDims()
	N := params.GetTRGSWLv1().N
	n := 2
	dims(n, N)
	type pair struct {
		sk *key.SecretKey
		ck *cloudkey.CloudKey
	}
	kp := sym.Once("c14real"+levelName(), func() any {
		sk := key.NewSecretKey()
		return &pair{sk, cloudkey.NewCloudKey(sk)}
	}).(*pair)
	at := [][2]int{{0, N - 1}, {N / 2, 1}, {N - 2, N/2 - 1}}[sym.Choose("position", 3)]
	src := tlwe.NewTLWELv1()
	for _, i := range at {
		src.P[i] = torus(sym.U32("word"))
	}
	src.P[N] = torus(sym.U32("body"))
	keep := clone(src.P)
	out := trgsw.IdentityKeySwitching(src, kp.ck.KeySwitchingKey)
	d := phase(out.P, kp.sk.KeyLv0) - phase(src.P, kp.sk.KeyLv1)
	e := torus(8*params.KSKAlpha()*4294967296) + 2
	sym.Assert(near(d, 2*(kskHalf()+torus(params.GetTRGSWLv1().IKS_T)*e)), "phase preserved")
	dirty := &tlwe.TLWELv0{P: words("stale", n+1)}
	trgsw.IdentityKeySwitchingAssign(src, kp.ck.KeySwitchingKey, dirty)
	assertSame(dirty.P, out.P, "in-place form agrees")
	assertSame(src.P, keep, "source unchanged")
}
