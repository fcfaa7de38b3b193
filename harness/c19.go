package harness

import (
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"verifharness/sym"
)

func reWords(k *proxyreenc.ProxyReencryptionKey) [][]torus {
	var r [][]torus
	for _, c := range k.KeyEncryptions {
		r = append(r, clone(c.P))
	}
	return r
}

// checkEntries: entry (i,j,k) encrypts k times key bit i over base^(j+1), within e.
func checkEntries(rk *proxyreenc.ProxyReencryptionKey, from, to []torus, basebit, t int, e torus, label string) {
	base := 1 << uint(basebit)
	n := len(from)
	sym.Assert(rk.Base == base && rk.T == t && len(rk.KeyEncryptions) == base*t*n, label+": shape")
	for i := 0; i < n; i++ {
		for j := 0; j < t; j++ {
			for k := 1; k < base; k++ {
				c := rk.KeyEncryptions[base*t*i+base*j+k]
				want := torus(k) * from[i] * (torus(1) << uint(32-(j+1)*basebit))
				sym.Assert(near(phase(c.P, to)-want, e), label+": digit times key bit over base^position")
			}
		}
	}
}

// checkReencrypt: arbitrary ciphertext; the phase moves by at most the digit rounding
// plus one entry noise e per digit.
func checkReencrypt(rk *proxyreenc.ProxyReencryptionKey, from, to []torus, basebit, t int, e torus, label string) {
	n := len(from)
	ct := &tlwe.TLWELv0{P: words("ct", n+1)}
	keep := clone(ct.P)
	kk := reWords(rk)
	out := proxyreenc.ReencryptTLWELv0(ct, rk)
	sym.Assert(len(out.P) == n+1, label+": length")
	half := torus(1) << uint(31-basebit*t)
	d := phase(out.P, to) - phase(ct.P, from)
	sym.Observe("difference", uint64(d))
	if bound := uint64(n) * (uint64(half) + uint64(t)*uint64(e)); bound < 1<<31 {
		sym.Assert(near(d, torus(bound)), label+": phase preserved")
	}
	assertSame(ct.P, keep, label+": source unchanged")
	for i := range out.P {
		out.P[i] += 5
	}
	assertSame(ct.P, keep, label+": result does not share storage with the source")
	for i := range kk {
		assertSame(rk.KeyEncryptions[i].P, kk[i], label+": re-encryption key unchanged")
	}
}

// C19_symmetric: every level's digits, n=3, both keys, masks and ciphertext
// arbitrary, noise up to 6 sigma.
func C19_symmetric() {
	chooseLevel()
	n := 3
	dims(n, 16)
	from, to := bits("from", n), bits("to", n)
	fk, tk := clone(from), clone(to)
	sym.RandSymbolic(6)
	rk := proxyreenc.NewProxyReencryptionKeySymmetric(from, to)
	p := params.GetTRGSWLv1()
	e := torus(6*params.KSKAlpha()*4294967296) + 2
	checkEntries(rk, from, to, p.BASEBIT, p.IKS_T, e, "symmetric")
	checkReencrypt(rk, from, to, p.BASEBIT, p.IKS_T, e, "symmetric")
	assertSame(from, fk, "source key unchanged")
	assertSame(to, tk, "target key unchanged")
}

// C19_custom: custom digit bases 2^1..2^8 and lengths 1..16 with at most 31 bits (quick:
// at most 16 bits and a selection), n=2, symmetric, noise up to 6 deviations.
func C19_custom() {
	setLevel(params.Security128Bit)
	n := 2
	dims(n, 16)
	var bb, t int
	if sym.Thorough() {
		bb = 1 + sym.Choose("basebit", 8)
		t = 1 + sym.Choose("length", 31/bb)
	} else {
		c := [][2]int{{1, 1}, {1, 8}, {1, 31}, {2, 3}, {2, 15}, {3, 4}, {3, 10}, {4, 7}, {5, 2}, {5, 6}, {7, 1}, {8, 3}}[sym.Choose("digits", 12)]
		bb, t = c[0], c[1]
	}
	if bb*t < 3 {
		n = 1
		dims(n, 16)
	}
	from, to := bits("from", n), bits("to", n)
	alpha := 1e-6
	sym.RandSymbolic(6)
	rk := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(from, to, alpha, bb, t)
	e := torus(6*alpha*4294967296) + 2
	checkEntries(rk, from, to, bb, t, e, "custom")
	checkReencrypt(rk, from, to, bb, t, e, "custom")
}

// C19_asymmetric: key made from the target's public key; n=1..2, public keys of 1 to 3
// zero encryptions, bases 2 and 4, lengths 1 and 2; keys, masks, coins and noise
// arbitrary: every entry; for n=1 and at most 2 encryptions also every ciphertext.
func C19_asymmetric() {
	setLevel(params.Security128Bit)
	n := 1 + sym.Choose("dimension", 2)
	dims(n, 16)
	size := 1 + sym.Choose("size", 3)
	bb := 1 + sym.Choose("basebit", 2)
	t := 1 + sym.Choose("length", 2)
	from, to := bits("from", n), bits("to", n)
	alpha := 1e-6
	sym.RandSymbolic(6)
	pk := proxyreenc.NewPublicKeyLv0WithParams(to, size, alpha)
	pw := pkWords(pk)
	rk := proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(from, pk, alpha, bb, t)
	e := torus(size+1) * (torus(6*alpha*4294967296) + 2)
	checkEntries(rk, from, to, bb, t, e, "asymmetric")
	if n == 1 && size <= 2 {
		checkReencrypt(rk, from, to, bb, t, e, "asymmetric")
	}
	for i, c := range pk.Encryptions {
		assertSame(c.P, pw[i], "public key unchanged")
	}
}

// C19_asymmetric_default: every level's digits with a concrete public key and
// concrete coins, n=2: source key and ciphertext arbitrary.
func C19_asymmetric_default() {
	chooseLevelFew()
	n := 2
	dims(n, 16)
	from, to := bits("from", n), []torus{1, 1}
	sym.RandConcrete(7)
	pk := proxyreenc.NewPublicKeyLv0(to)
	rk := proxyreenc.NewProxyReencryptionKeyAsymmetric(from, pk)
	p := params.GetTRGSWLv1()
	e := torus(2*n+1) * (torus(8*params.GetTLWELv0().ALPHA*4294967296) + 2)
	checkEntries(rk, from, to, p.BASEBIT, p.IKS_T, e, "asymmetric, default digits")
	checkReencrypt(rk, from, to, p.BASEBIT, p.IKS_T, e, "asymmetric, default digits")
}

// C19_any_key: every key whose entries encrypt the right values within 2^16: all
// masks, entry noises, both secret keys and the ciphertext arbitrary (whatever mode
// made the key); n=2.
func C19_any_key() {
	setLevel(params.Security128Bit)
	n := 2
	dims(n, 16)
	c := [][2]int{{1, 4}, {2, 2}, {2, 7}, {3, 4}, {4, 3}, {5, 3}}[sym.Choose("digits", 6)]
	bb, t := c[0], c[1]
	base := 1 << uint(bb)
	from, to := bits("from", n), bits("to", n)
	rk := &proxyreenc.ProxyReencryptionKey{Base: base, T: t, KeyEncryptions: make([]*tlwe.TLWELv0, base*t*n)}
	for i := 0; i < n; i++ {
		for j := 0; j < t; j++ {
			for k := 0; k < base; k++ {
				ct := tlwe.NewTLWELv0()
				want := torus(k) * from[i] * (torus(1) << uint(32-(j+1)*bb))
				if k > 0 {
					want += torus(sym.IntIn("entry noise", -65536, 65536))
					for x := 0; x < n; x++ {
						ct.P[x] = torus(sym.U32("entry mask"))
						want += ct.P[x] * to[x]
					}
					ct.P[n] = want
				}
				rk.KeyEncryptions[base*t*i+base*j+k] = ct
			}
		}
	}
	checkReencrypt(rk, from, to, bb, t, 65536, "any key")
}

// C19_chain: a bit through one to six hops a->b->c->a->... with different digits,
// symmetric and asymmetric; n=2, key b and the noise (1/64) arbitrary, masks and hop
// keys' draws concrete.
func C19_chain() {
	setLevel(levels[quickOf([]int{0, 4}, len(levels), "level")])
	n := 2
	dims(n, 16)
	ks := [][]torus{{1, 1}, bits("b", n), {0, 1}}
	sym.RandConcrete(3)
	b := sym.Choose("bit", 2) == 1
	ct := encWith(b, fixedMask(n, 2), inputNoise(), ks[0])
	hops := 1 + sym.Choose("hops", 6)
	for h := 0; h < hops; h++ {
		from, to := ks[h%3], ks[(h+1)%3]
		var rk *proxyreenc.ProxyReencryptionKey
		switch h % 4 {
		case 0:
			rk = proxyreenc.NewProxyReencryptionKeySymmetric(from, to)
		case 1:
			rk = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(from, to, 1e-6, 5, 2)
		case 2:
			rk = proxyreenc.NewProxyReencryptionKeyAsymmetric(from, proxyreenc.NewPublicKeyLv0(to))
		case 3:
			rk = proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(from, proxyreenc.NewPublicKeyLv0WithParams(to, 3, 1e-6), 1e-6, 3, 4)
		}
		keep := clone(ct.P)
		next := proxyreenc.ReencryptTLWELv0(ct, rk)
		assertSame(ct.P, keep, "ciphertext of the earlier hop unchanged")
		ct = next
		sym.Assert(ct.DecryptBool(to) == b, "bit after the hops")
	}
}

// C19_wide: digits of 9 to 12 bits (thorough: 14), one and two of them, generated keys
// (concrete draws, source key bits of both values): every ciphertext word that rounds to
// one of the chosen digit strings (ends, powers of two and their neighbours), any body.
func C19_wide() {
	setLevel(params.Security128Bit)
	top := 4
	if sym.Thorough() {
		top = 6
	}
	bb := 9 + sym.Choose("basebit", top)
	t := 1 + sym.Choose("length", 2)
	if bb > 10 {
		t = 1
	}
	n := 1
	dims(n, 16)
	from := []torus{torus(sym.Choose("key bit", 2))}
	to := []torus{1}
	alpha := 1e-7
	rk := sym.Once("wide "+itoa(bb)+" "+itoa(t)+" "+itoa(int(from[0])), func() any {
		sym.RandConcrete(3)
		return proxyreenc.NewProxyReencryptionKeySymmetricWithParams(from, to, alpha, bb, t)
	}).(*proxyreenc.ProxyReencryptionKey)
	e := torus(t) * (torus(8*alpha*4294967296) + 2)
	d := torus(0)
	for j := 0; j < t; j++ {
		b := sym.Choose("digit", 12)
		v := []int{0, 1, 1<<uint(bb) - 1, 1 << uint(bb-1), 1<<uint(bb-1) - 1, 1<<uint(bb-1) + 1, 127, 128, 255, 256, 257, 1<<uint(bb) - 256}[b]
		d = d<<uint(bb) + torus(v)
	}
	unit := torus(1) << uint(32-bb*t)
	off := torus(sym.U32("offset"))
	sym.Assume(off < unit)
	c := tlwe.NewTLWELv0()
	c.P[0] = d*unit + off - unit/2
	body := torus(sym.U32("body"))
	c.SetB(body)
	got := phase(proxyreenc.ReencryptTLWELv0(c, rk).P, to)
	sym.Assert(near(got-phase(c.P, from), unit/2+e), "phase kept by wide digits")
}
