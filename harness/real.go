package harness

import (
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"verifharness/sym"
)

// trueDims are the unreduced LWE and ring dimension of the current level.
func trueDims() (int, int) {
	realDims()
	return params.GetTLWELv0().N, params.GetTRGSWLv1().N
}

// keyPattern is a fixed level-0 key of n mixed bits.
func keyPattern(n int) []torus {
	k := make([]torus, n)
	for i := range k {
		k[i] = torus((uint32(i)*2246822519 + 77777) >> 16 & 1)
	}
	return k
}

// sharedKeys is a valid cloud key of large dimensions: entries with the same value
// share one encryption (fixed draw), so the key costs two gadget encryptions and a
// table of key-switching samples.
func sharedKeys(name string, n, N int) *ringKeys { return sharedKeysOf(name, keyPattern(n), N) }

// onesKeys is such a key whose level-0 bits are all one.
func onesKeys(name string, n, N int) *ringKeys {
	k := make([]torus, n)
	for i := range k {
		k[i] = 1
	}
	return sharedKeysOf(name+"ones", k, N)
}

func sharedKeysOf(name string, key0 []torus, N int) *ringKeys {
	k1 := make([]torus, N)
	for i := range k1 {
		k1[i] = torus((uint32(i)*2654435761 + 40503) >> 15 & 1)
	}
	return sharedKeyPair(name, key0, k1)
}

// lightKey has sixteen ones.
func lightKey(N int) []torus {
	k := make([]torus, N)
	for i := 0; i < 16; i++ {
		k[(i*i*(N/64)+i*3+N-1)%N] = 1
	}
	return k
}

func sharedKeyPair(name string, key0, key1 []torus) *ringKeys {
	n, N := len(key0), len(key1)
	dims(n, N)
	return sym.Once(name+levelName(), func() any {
		k := &ringKeys{key0: key0, key1: key1}
		dims(1, 16)
		offset := cloudkey.NewCloudKeyNoKSK().DecompositionOffset
		dims(n, N)
		pe := poly.NewEvaluator(N)
		var g [2]*trgsw.TRGSWLv1FFT
		for b := range g {
			g[b] = trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(torus(b), params.BSKAlpha(), k.key1, pe), pe)
		}
		p := params.GetTRGSWLv1()
		base := 1 << p.BASEBIT
		k.ck = &cloudkey.CloudKey{DecompositionOffset: offset, BlindRotateTestvec: trlwe.NewTRLWELv1()}
		for i := range k.ck.BlindRotateTestvec.B {
			k.ck.BlindRotateTestvec.B[i] = eighth
		}
		for i := range k.key0 {
			k.ck.BootstrappingKey = append(k.ck.BootstrappingKey, g[k.key0[i]])
		}
		var s [2][]*tlwe.TLWELv0
		for b := range s {
			for j := 0; j < p.IKS_T; j++ {
				for d := 0; d < base; d++ {
					c := tlwe.NewTLWELv0()
					if d > 0 {
						c = c.EncryptF64(float64(d*b)/float64(uint64(1)<<uint((j+1)*p.BASEBIT)), params.KSKAlpha(), k.key0)
					}
					s[b] = append(s[b], c)
				}
			}
		}
		for i := 0; i < N; i++ {
			k.ck.KeySwitchingKey = append(k.ck.KeySwitchingKey, s[k.key1[i]]...)
		}
		return k
	}).(*ringKeys)
}

// exactMask has n fixed words that are multiples of 1/2N (no rounding error in the
// modulus switch).
func exactMask(n, N, seed int) []torus {
	m := fixedMask(n, seed)
	lg := uint(log2(N)) + 1
	for i := range m {
		m[i] = m[i] >> (32 - lg) << (32 - lg)
	}
	return m
}

// littleNoise is an arbitrary noise word of magnitude at most 1/512.
func littleNoise() torus { return torus(sym.IntIn("noise", -(1 << 23), 1<<23)) }

// pin restricts w to the rounding class; the modulus switch of a mask word wraps in 32
// bits, that of the body does not.
func pin(w torus, N, class int, body bool) {
	sym.Assume(rounded(w, N) == class)
	lg := uint(log2(N))
	if body {
		sym.Concretize((int(w) + (1 << (31 - lg - 1))) >> (32 - lg - 1))
	} else {
		sym.Concretize(int((w + (1 << (31 - lg - 1))) >> (32 - lg - 1)))
	}
}

// C11_long: the true LWE dimension of every level with ring dimension 16: a mask word
// at one of eight positions (first, last, around 512, body) arbitrary within a rounding
// class, the others fixed; both implementations.
func C11_long() {
	l := levels[quickOf([]int{0, 1, 4, 7, 9}, len(levels), "level")]
	setLevel(l)
	n, _ := trueDims()
	N := 16
	kp := sharedKeys("long", n, N)
	pos := []int{0, 1, n / 2, 511, 512, n - 2, n - 1, n}
	at := pos[sym.Choose("position", len(pos))]
	class := []int{1, 0, 13, 31}[sym.Choose("class", quick(true, 2, 4))]
	ct := tlwe.NewTLWELv0()
	copy(ct.P, fixedMask(n+1, 3))
	ct.P[at] = torus(sym.U32("ct"))
	pin(ct.P[at], N, class, at == n)
	p := 0
	for i := range ct.P {
		v := class
		if i != at {
			v = rounded(ct.P[i], N)
		}
		if i == n {
			p -= v
		} else if kp.key0[i] == 1 {
			p += v
		}
	}
	tv := trlwe.NewTRLWELv1()
	for i := range tv.B {
		tv.B[i] = torus(uint32(i*i+3) << 24)
	}
	out := trgsw.BlindRotate(ct, tv, kp.ck.BootstrappingKey, kp.ck.DecompositionOffset, poly.NewEvaluator(N))
	out2 := ringWords("stale", N)
	evaluator.NewEvaluator(N).BlindRotateAssign(ct, tv, kp.ck.BootstrappingKey, kp.ck.DecompositionOffset, out2)
	want := rot(tv.B, p)
	for k, o := range []*trlwe.TRLWELv1{out, out2} {
		got := ringPhase(o.A, o.B, kp.key1)
		for i := range got {
			sym.Assert(near(got[i]-want[i], 1<<27), []string{"allocating rotation", "in-place rotation"}[k])
		}
	}
}

// C11_wide: the true ring dimension of every level, LWE dimension 4: each mask word
// and the body in turn arbitrary within a rounding class; both implementations.
func C11_wide() {
	l := levels[quickOf([]int{0, 3, 4, 5, 6, 9}, len(levels), "level")]
	setLevel(l)
	_, N := trueDims()
	n := 4
	kp := sharedKeys("wide", n, N)
	at := sym.Choose("position", n+1)
	class := []int{1, 0, N, 2*N - 1, N - 1, N/2 + 3}[sym.Choose("class", 6)]
	ct := tlwe.NewTLWELv0()
	copy(ct.P, fixedMask(n+1, 5))
	ct.P[at] = torus(sym.U32("ct"))
	pin(ct.P[at], N, class, at == n)
	p := 0
	for i := range ct.P {
		v := class
		if i != at {
			v = rounded(ct.P[i], N)
		}
		if i == n {
			p -= v
		} else if kp.key0[i] == 1 {
			p += v
		}
	}
	tv := trlwe.NewTRLWELv1()
	for i := range tv.B {
		tv.B[i] = torus(uint32(i*i+3) << 20)
	}
	out := trgsw.BlindRotate(ct, tv, kp.ck.BootstrappingKey, kp.ck.DecompositionOffset, poly.NewEvaluator(N))
	out2 := trlwe.NewTRLWELv1()
	for i := range out2.A {
		out2.A[i], out2.B[i] = torus(i)*0x9e3779b9, torus(i)*0x7f4a7c15
	}
	evaluator.NewEvaluator(N).BlindRotateAssign(ct, tv, kp.ck.BootstrappingKey, kp.ck.DecompositionOffset, out2)
	want := rot(tv.B, p)
	for k, o := range []*trlwe.TRLWELv1{out, out2} {
		got := ringPhase(o.A, o.B, kp.key1)
		for i := range got {
			sym.Assert(near(got[i]-want[i], 1<<26), []string{"allocating rotation", "in-place rotation"}[k])
		}
	}
}

// C04_long: the true LWE dimension of the level (quick: 128-bit and two others), ring
// dimension 64, fixed masks on the modulus-switching grid, noise up to 1/512 arbitrary:
// every gate, every row (quick: two rows, which together have both values of each input).
func C04_long() {
	setLevel(levels[quickOf([]int{0, 4, 7}, len(levels), "level")])
	n, _ := trueDims()
	N := 64
	kp := sharedKeys("c04long", n, N)
	g := binaryGates()[sym.Choose("gate", 10)]
	row := quickOf([]int{1, 2}, 4, "row")
	x, y := bit2(row)
	ca := encWith(x, exactMask(n, N, 2), littleNoise(), kp.key0)
	cb := encWith(y, exactMask(n, N, 9), littleNoise(), kp.key0)
	assertBit(g.apply(ca, cb, kp.ck), g.table[row], kp.key0, 1<<28, g.name)
}

// C04_full: gates at the unreduced parameters of the level (quick: the 2-bit level, and
// 128-bit for one gate; thorough: every level and gate), fixed masks, noise up to
// 1/4096 arbitrary in the first input.
func C04_full() {
	l := quickOf([]int{4, 0}, len(levels), "level")
	setLevel(levels[l])
	n, N := trueDims()
	kp := sharedKeys("c04full", n, N)
	gs := binaryGates()
	g := gs[2]
	if l != 0 || sym.Thorough() {
		g = gs[sym.Choose("gate", 10)]
	}
	row := quickOf([]int{2}, 4, "row")
	x, y := bit2(row)
	m := exactMask(n, N, 2)
	// with the noise below a quarter of a rounding class the class is fixed
	ca := encWith(x, m, torus(sym.IntIn("noise", -(1<<19), 1<<19)), kp.key0)
	cb := encWith(y, exactMask(n, N, 9), 0, kp.key0)
	assertBit(g.apply(ca, cb, kp.ck), g.table[row], kp.key0, 1<<28, g.name)
}

// C05_long: batches of 3 at the true LWE dimension, ring dimension 64, agree with the
// truth table; noise of the first pair arbitrary up to 1/512.
func C05_long() {
	setLevel(levels[quickOf([]int{0, 5}, len(levels), "level")])
	n, _ := trueDims()
	N := 64
	kp := sharedKeys("c04long", n, N)
	g := batchGates()[sym.Choose("gate", 6)]
	row := sym.Choose("row", quick(true, 1, 4))
	in := make([][2]*gates.Ciphertext, 3)
	for i := range in {
		x, y := bit2((row + i + 1) % 4)
		e := torus(0)
		if i == 1 {
			e = littleNoise()
		}
		in[i] = [2]*gates.Ciphertext{encWith(x, exactMask(n, N, 2+i), e, kp.key0), encWith(y, exactMask(n, N, 9+i), 0, kp.key0)}
	}
	r := g.apply(in, kp.ck)
	sym.Assert(len(r) == 3, "one result per pair")
	for i := range r {
		assertBit(r[i], g.table[(row+i+1)%4], kp.key0, 1<<28, g.name)
	}
}

// C05_many: batches of 17 to 130 pairs at LWE dimension 1, ring dimension 16, one
// schedule: every result has its own pair's value.
func C05_many() {
	setLevel(params.Security128Bit)
	n, N := 1, 16
	dims(n, N)
	kp := keysFor("c05", []torus{1})
	g := batchGates()[sym.Choose("gate", 6)]
	size := []int{17, 33, 65, 130}[sym.Choose("size", 4)]
	checkBatch(g, size, sym.Choose("base", 4), n, N, kp)
}

// C06_long: the true LWE dimension of the message levels, ring dimension 256 (256 words
// of table): every message of moduli 2 and 4, noise up to 1/512 arbitrary.
func C06_long() {
	l := quickOf([]int{0, 4, 9}, len(levels), "level")
	setLevel(levels[l])
	n, _ := trueDims()
	N := 64
	kp := sharedKeys("c04long", n, N)
	m := []int{2, 4}[sym.Choose("modulus", 2)]
	x := sym.Choose("message", m)
	f := affine(3, -1)
	ct := encMessage(x, m, exactMask(n, N, 4+x), littleNoise(), kp.key0)
	r := pbsForm(evaluator.NewEvaluator(N), sym.Choose("form", 2), ct, f, m, kp)
	sym.Assert(r.DecryptLWEMessage(m, kp.key0) == reduce(f(x), m), "function value")
}

// C06_full: unreduced parameters: the 2-bit level (thorough: every level) with the
// modulus of its message space, one message (thorough: first, second, last).
func C06_full() {
	l := quickOf([]int{4}, len(levels), "level")
	setLevel(levels[l])
	n, N := trueDims()
	kp := sharedKeys("c04full", n, N)
	m := []int{2, 2, 2, 2, 4, 8, 16, 16, 16, 16, 16}[l]
	x := []int{1, m - 1, 0}[sym.Choose("message", 3)]
	f := affine(3, -1)
	ct := encMessage(x, m, exactMask(n, N, 4+x), torus(sym.IntIn("noise", -(1<<19), 1<<19)), kp.key0)
	r := pbsForm(evaluator.NewEvaluator(N), 0, ct, f, m, kp)
	sym.Assert(r.DecryptLWEMessage(m, kp.key0) == reduce(f(x), m), "function value")
}

// C09_real: the unreduced ring dimension of every level, six arbitrary words per
// polynomial: the digits in the buffers of both implementations.
func C09_real() {
	chooseLevel()
	_, N := trueDims()
	dims(1, 16)
	offset := cloudkey.NewCloudKeyNoKSK().DecompositionOffset
	dims(1, N)
	p := params.GetTRGSWLv1()
	pe := poly.NewEvaluator(N)
	in := sparseRing("in", N)
	keep := cloneR(in)
	zero := trgsw.NewTRGSWLv1FFTDummy(pe)
	trgsw.ExternalProductWithFFT(zero, in, offset, pe)
	ev := evaluator.NewEvaluator(N)
	ev.ExternalProductAssign(zero, in, offset, trlwe.NewTRLWELv1())
	buf := ev.Decomposer.GetPolyDecomposedBuffer(2 * p.L)
	for j := 0; j < N; j++ {
		gadget(in.A[j], func(i int) torus { return pe.GetDecompBuffer(i).Coeffs[j] })
		gadget(in.B[j], func(i int) torus { return pe.GetDecompBuffer(i + p.L).Coeffs[j] })
		gadget(in.A[j], func(i int) torus { return buf[i].Coeffs[j] })
		gadget(in.B[j], func(i int) torus { return buf[i+p.L].Coeffs[j] })
	}
	assertRing(in, keep, "operand unchanged")
}

// C10_real: the unreduced ring dimension of every level, fixed gadget ciphertexts of
// both bits with fresh noise, six arbitrary words in each half of each input: product
// and selection, both implementations.
func C10_real() {
	chooseLevel()
	_, N := trueDims()
	kp := sharedKeyPair("c10r", []torus{0, 1}, lightKey(N))
	bit := sym.Choose("bit", 2)
	gsw := kp.ck.BootstrappingKey[bit]
	offset := kp.ck.DecompositionOffset
	in0, in1 := sparseRing("first", N), sparseRing("second", N)
	keep0, keep1 := cloneR(in0), cloneR(in1)
	pe, ev := poly.NewEvaluator(N), evaluator.NewEvaluator(N)
	p0, p1 := ringPhase1(in0, kp.key1), ringPhase1(in1, kp.key1)
	check := func(o *trlwe.TRLWELv1, want func(i int) torus, label string) {
		got := ringPhase1(o, kp.key1)
		for i := range got {
			sym.Assert(near(got[i]-want(i), 1<<26), label)
		}
	}
	prod := func(i int) torus { return torus(bit) * p0[i] }
	sel := func(i int) torus { return p0[i] + torus(bit)*(p1[i]-p0[i]) }
	check(trgsw.ExternalProductWithFFT(gsw, in0, offset, pe), prod, "allocating product")
	out := sparseRing("stale", N)
	ev.ExternalProductAssign(gsw, in0, offset, out)
	check(out, prod, "in-place product")
	check(trgsw.CMUX(in0, in1, gsw, offset, pe), sel, "allocating selector")
	ev.CMuxAssign(gsw, in0, in1, offset, out)
	check(out, sel, "in-place selector")
	assertRing(in0, keep0, "first input unchanged")
	assertRing(in1, keep1, "second input unchanged")
}

// ringPhase1 is B - A*S at a few coefficients' cost: S is concrete and binary.
func ringPhase1(c *trlwe.TRLWELv1, S []torus) []torus {
	n := len(S)
	r := clone(c.B)
	for j := range S {
		if S[j] == 0 {
			continue
		}
		for i := 0; i < n-j; i++ {
			r[i+j] -= c.A[i]
		}
		for i := n - j; i < n; i++ {
			r[i+j-n] += c.A[i]
		}
	}
	return r
}

// C17_long: cloud keys at the true LWE dimension of the level, ring dimension 16: eight
// level-0 bits at boundary positions arbitrary, fixed draws: every entry of both keys;
// key generation is race free.
func C17_long() {
	setLevel(levels[quickOf([]int{0, 1, 4, 7}, len(levels), "level")])
	n, _ := trueDims()
	N := 16
	dims(n, N)
	sk := &key.SecretKey{KeyLv0: keyPattern(n), KeyLv1: make([]torus, N)}
	for _, i := range []int{0, 1, 255, 256, 511, 512, n - 2, n - 1} {
		sk.KeyLv0[i] = torus(sym.IntIn("key0", 0, 1))
	}
	for i := range sk.KeyLv1 {
		sk.KeyLv1[i] = torus(i * i / 3 & 1)
	}
	sym.RandConcrete(4)
	ck := cloudkey.NewCloudKey(sk)
	p := params.GetTRGSWLv1()
	base := 1 << uint(p.BASEBIT)
	e := torus(8*params.KSKAlpha()*4294967296) + 2
	for i := 0; i < N; i++ {
		for j := 0; j < p.IKS_T; j++ {
			for k := 1; k < base; k++ {
				c := ck.KeySwitchingKey[base*p.IKS_T*i+base*j+k]
				want := torus(k) * sk.KeyLv1[i] * (torus(1) << uint(32-(j+1)*p.BASEBIT))
				sym.Assert(near(phase(c.P, sk.KeyLv0)-want, e), "digit times key bit over base^position")
			}
		}
	}
	sym.Assert(len(ck.BootstrappingKey) == n, "one gadget ciphertext per bit")
	pe := poly.NewEvaluator(N)
	for i, g := range ck.BootstrappingKey {
		checkGadget(gadgetRows(g, pe), sk.KeyLv0[i], sk.KeyLv1, torus(8*params.BSKAlpha()*4294967296)+64, "gadget encryption of the key bit")
	}
}

// C17_bsk_real: the true ring dimension of every level, one arbitrary level-0 bit, ring
// key with sixteen ones, fixed draws: every row of the gadget ciphertext.
func C17_bsk_real() {
	chooseLevel()
	_, N := trueDims()
	dims(1, N)
	key1 := lightKey(N)
	bit := bits("key0", 1)
	sym.RandConcrete(5)
	pe := poly.NewEvaluator(N)
	g := trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(bit[0], params.BSKAlpha(), key1, pe), pe)
	rows := gadgetRows(g, pe)
	p := params.GetTRGSWLv1()
	sym.Assert(len(rows) == 2*p.L, "number of rows")
	e := torus(8*params.BSKAlpha()*4294967296) + 64
	for r, row := range rows {
		got := ringPhase1(row, key1)
		w := torus(1) << uint32(32-uint32(r%p.L+1)*p.BGBIT)
		for c := range got {
			want := torus(0)
			if r < p.L {
				want -= bit[0] * w * key1[c]
			} else if c == 0 {
				want = bit[0] * w
			}
			sym.Assert(near(got[c]-want, e), "gadget row")
		}
	}
}

// C19_long: the true LWE dimension of the level, fixed keys and draws, digits of three
// bits in total per key kind: every entry; three words of the ciphertext arbitrary.
func C19_long() {
	setLevel(levels[quickOf([]int{0, 4}, len(levels), "level")])
	n, _ := trueDims()
	dims(n, 16)
	sym.RandConcrete(6)
	from, to := keyPattern(n + 1)[1:], keyPattern(n)
	var rk *proxyreenc.ProxyReencryptionKey
	bb, t := 2, 2
	alpha := 1e-7
	e := torus(8*alpha*4294967296) + 2
	kind := sym.Choose("kind", 2)
	if kind == 0 {
		rk = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(from, to, alpha, bb, t)
	} else {
		bb, t = 1, 3
		rk = proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(from, proxyreenc.NewPublicKeyLv0WithParams(to, 3, alpha), alpha, bb, t)
		e *= 4
	}
	checkEntries(rk, from, to, bb, t, e, "long")
	// words on the digit grid: no rounding
	ct := tlwe.NewTLWELv0()
	unit := torus(1) << uint(32-bb*t)
	for i, w := range fixedMask(n, 3) {
		ct.P[i] = w / unit * unit
	}
	at := []int{0, n/2 - 1, n - 1, 511, 512}
	for _, i := range at {
		ct.P[i] = torus(sym.U32("ct"))
	}
	ct.P[n] = torus(sym.U32("body"))
	keep := clone(ct.P)
	out := proxyreenc.ReencryptTLWELv0(ct, rk)
	sym.Assert(len(out.P) == n+1, "length")
	d := phase(out.P, to) - phase(ct.P, from)
	bound := uint64(len(at))*uint64(unit/2) + uint64(n*t)*uint64(e)
	sym.Assert(bound < 1<<31, "bound is meaningful")
	sym.Assert(near(d, torus(bound)), "phase preserved")
	assertSame(ct.P, keep, "source unchanged")
}

// C18_long: public keys of 1 to 4 zero encryptions at the true LWE dimension of every
// level whose masks start with a unit vector (the coefficients can be read off), other
// words fixed, coins and fresh noise arbitrary: every word of the ciphertext.
func C18_long() {
	chooseLevel()
	n, _ := trueDims()
	dims(n, 16)
	size := 1 + sym.Choose("size", 4)
	pk := &proxyreenc.PublicKeyLv0{}
	for i := 0; i < size; i++ {
		c := tlwe.NewTLWELv0()
		copy(c.P, fixedMask(n+1, 20+i))
		for j := 0; j < size; j++ {
			c.P[j] = 0
		}
		c.P[i] = 1
		pk.Encryptions = append(pk.Encryptions, c)
	}
	zs := pkWords(pk)
	sym.RandSymbolic(8)
	sym.ResetNorms()
	ct := pk.EncryptF64(0.125, 1e-5)
	ns := sym.Norms()
	sym.Assert(len(ns) == 1, "one fresh noise draw")
	sym.Assert(len(ct.P) == n+1, "length")
	want := make([]torus, n+1)
	want[n] = eighth + torus(int64(ns[0]*1e-5*4294967296))
	for i := 0; i < size; i++ {
		sym.Assert(near(ct.P[i], 1), "coefficient in -1,0,1")
		for j := size; j <= n; j++ {
			want[j] += ct.P[i] * zs[i][j]
		}
	}
	for j := size; j < n; j++ {
		sym.Assert(ct.P[j] == want[j], "mask is the combination")
	}
	sym.Assert(near(ct.P[n]-want[n], 2), "body is the combination plus plaintext plus noise")
	for i, c := range pk.Encryptions {
		assertSame(c.P, zs[i], "public key unchanged")
	}
}

// C24_real: unreduced dimensions of every level, fixed keys: the masks of two level-0
// encryptions, and of a level-1 and a ring encryption, are free and unshared; each
// noise word is its own draw times the deviation.
func C24_real() {
	chooseLevel()
	n, N := trueDims()
	k0, k1 := keyPattern(n), lightKey(N)
	sym.RandSymbolic(8)
	sym.ResetNorms()
	alpha := params.GetTLWELv0().ALPHA
	var masks, noise []torus
	switch sym.Choose("form", 3) {
	case 0:
		for i := 0; i < 2; i++ {
			c := tlwe.NewTLWELv0().EncryptF64(0.125, alpha, k0).P
			masks = append(masks, c[:n]...)
			noise = append(noise, phase(c, k0)-eighth)
		}
	case 1:
		c := tlwe.NewTLWELv1().EncryptF64(0.125, alpha, k1).P
		masks = append(masks, c[:N]...)
		noise = append(noise, phase(c, k1)-eighth)
	case 2:
		c := trlwe.NewTRLWELv1().EncryptF64(make([]float64, N), alpha, k1, poly.NewEvaluator(N))
		masks = append(masks, c.A...)
		noise = append(noise, ringPhase1(c, k1)...)
	}
	sym.CoverAll(u32s(masks), 32, "every mask reachable, none shared")
	ownNoise(noise, alpha, 64, "encryption")
}
