package harness

import (
	"sync"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"verifharness/sym"
)

// ownNoise: every noise word is one of the drawn deviates times alpha (in the order
// of the draws, or else in any order), and together they use every draw once.
func ownNoise(noise []torus, alpha float64, tol torus, label string) {
	ns := sym.Norms()
	sym.Assert(len(ns) == len(noise), label+": one noise draw per body word")
	conv := make([]torus, len(ns))
	var sum torus
	for i := range ns {
		conv[i] = torus(int64(ns[i] * alpha * 4294967296))
		sum += conv[i]
	}
	for i := range noise {
		sum -= noise[i]
		ok := near(noise[i]-conv[i], tol)
		if !sym.Fork(ok) {
			for j := range conv {
				ok = ok || near(noise[i]-conv[j], tol)
			}
		}
		sym.Assert(ok, label+": noise is a draw times the requested deviation")
	}
	sym.Assert(near(sum, torus(len(noise))*tol), label+": every draw is used once")
}

func noiseDev(k int) float64 {
	return []float64{params.GetTLWELv0().ALPHA, params.GetTLWELv1().ALPHA, 1e-3, 0.005, 0}[k]
}

// C24_lwe: two encryptions in a row at either level (real values, bits, messages),
// arbitrary keys: all masks free and unshared, noise is the draw times the
// deviation; n=3, N=16, all levels.
func C24_lwe() {
	chooseLevel()
	n, N := 3, 16
	dims(n, N)
	k0, k1 := bits("key0", n), bits("key1", N)
	alpha := noiseDev(sym.Choose("deviation", 5))
	sym.RandSymbolic(8)
	sym.ResetNorms()
	var masks, noise []torus
	form := sym.Choose("form", 5)
	for i := 0; i < 3; i++ {
		v := []float64{0.125, -0.3, 0.0625}[i]
		var c, k []torus
		var mu torus
		switch form {
		case 0:
			c, k, mu = tlwe.NewTLWELv0().EncryptF64(v, alpha, k0).P, k0, torus(int64(v*4294967296))
		case 1:
			c, k, mu = tlwe.NewTLWELv0().EncryptBool(i == 1, alpha, k0).P, k0, 7*eighth
			if i == 1 {
				mu = eighth
			}
		case 2:
			c, k, mu = tlwe.NewTLWELv0().EncryptLWEMessage(i, 4, alpha, k0).P, k0, torus(i)<<29
		case 3:
			c, k, mu = tlwe.NewTLWELv1().EncryptF64(v, alpha, k1).P, k1, torus(int64(v*4294967296))
		case 4:
			c, k, mu = tlwe.NewTLWELv1().EncryptBool(i == 1, alpha, k1).P, k1, 7*eighth
			if i == 1 {
				mu = eighth
			}
		}
		masks = append(masks, c[:len(k)]...)
		noise = append(noise, phase(c, k)-mu)
	}
	sym.CoverAll(u32s(masks), 32, "every mask reachable, none shared")
	sym.CoverSeeds("every generator has its own full-width seed")
	ownNoise(noise, alpha, 2, "encryption")
}

// C24_ring: two ring encryptions and a gadget encryption, N=16, all levels.
func C24_ring() {
	chooseLevel()
	N := 16
	dims(2, N)
	rk := bits("ringkey", N)
	alpha := noiseDev(1 + sym.Choose("deviation", 3))
	pe := poly.NewEvaluator(N)
	sym.RandSymbolic(8)
	sym.ResetNorms()
	var masks, noise []torus
	if sym.Choose("form", 2) == 0 {
		for i := 0; i < 2; i++ {
			pt := make([]float64, N)
			for j := range pt {
				pt[j] = float64(j*j%7)/16 - 0.2
			}
			c := trlwe.NewTRLWELv1().EncryptF64(pt, alpha, rk, pe)
			masks = append(masks, c.A...)
			for j, v := range ringPhase(c.A, c.B, rk) {
				noise = append(noise, v-torus(int64(pt[j]*4294967296)))
			}
		}
	} else {
		g := trgsw.NewTRGSWLv1().EncryptTorus(1, alpha, rk, pe)
		p := params.GetTRGSWLv1()
		for r, c := range g.TRLWE {
			masks = append(masks, c.A...)
			w := torus(1) << uint32(32-uint32(r%p.L+1)*p.BGBIT)
			for j, v := range ringPhase(c.A, c.B, rk) {
				if r < p.L {
					v += w * rk[j]
				} else if j == 0 {
					v -= w
				}
				noise = append(noise, v)
			}
		}
	}
	sym.CoverAll(u32s(masks), 32, "every mask reachable, none shared")
	sym.CoverSeeds("every generator has its own full-width seed")
	ownNoise(noise, alpha, 64, "ring encryption")
}

// C24_public: the zero encryptions of a public key: masks free, own noise.
func C24_public() {
	chooseLevel()
	n := 3
	dims(n, 16)
	k := bits("key", n)
	sym.RandSymbolic(8)
	sym.ResetNorms()
	alpha := params.GetTLWELv0().ALPHA
	var pk *proxyreenc.PublicKeyLv0
	if sym.Choose("form", 2) == 0 {
		pk = proxyreenc.NewPublicKeyLv0(k)
	} else {
		alpha = 1e-3
		pk = proxyreenc.NewPublicKeyLv0WithParams(k, 4, alpha)
	}
	var masks, noise []torus
	for _, c := range pk.Encryptions {
		masks = append(masks, c.P[:n]...)
		noise = append(noise, phase(c.P, k))
	}
	sym.CoverAll(u32s(masks), 32, "every mask reachable, none shared")
	sym.CoverSeeds("every generator has its own full-width seed")
	ownNoise(noise, alpha, 2, "public key")
}

// C24_independent: the same draws give the same masks and noise whatever the message
// and the key: two runs on one tape of draws with different arbitrary messages and
// keys.
func C24_independent() {
	chooseLevelFew()
	n, N := 3, 16
	dims(n, N)
	form := sym.Choose("form", 5)
	alpha := 1e-3
	sym.RandSymbolic(8)
	pe := poly.NewEvaluator(N)
	var masks, noise [2][]torus
	mark := sym.TapeMark()
	for run := 0; run < 2; run++ {
		if run == 1 {
			sym.TapeRewind(mark)
		}
		k0, k1 := bits("key0", n), bits("key1", N)
		switch form {
		case 0:
			b := sym.Bool("bit")
			c := tlwe.NewTLWELv0().EncryptBool(b, alpha, k0)
			mu := 7 * eighth
			if b {
				mu = eighth
			}
			masks[run], noise[run] = c.P[:n], []torus{phase(c.P, k0) - mu}
		case 1:
			v := sym.F64In("value", -0.5, 0.5)
			c := tlwe.NewTLWELv1().EncryptF64(v, alpha, k1)
			masks[run], noise[run] = c.P[:N], []torus{phase(c.P, k1) - torus(int64(v*4294967296))}
		case 2:
			m := sym.IntIn("message", 0, 7)
			c := tlwe.NewTLWELv0().EncryptLWEMessage(m, 8, alpha, k0)
			masks[run], noise[run] = c.P[:n], []torus{phase(c.P, k0) - torus(m)<<28}
		case 3:
			bs := make([]bool, N)
			mu := make([]torus, N)
			pat := []int{0, 0xffff, 0x5a5a, 0x8001}[sym.Choose("bits", 4)]
			for i := range bs {
				bs[i] = pat>>uint(i)&1 == 1
				mu[i] = 7 * eighth
				if bs[i] {
					mu[i] = eighth
				}
			}
			c := trlwe.NewTRLWELv1().EncryptBool(bs, alpha, k1, pe)
			masks[run] = c.A
			for i, v := range ringPhase(c.A, c.B, k1) {
				noise[run] = append(noise[run], v-mu[i])
			}
		case 4:
			pk := proxyreenc.NewPublicKeyLv0WithParams(k0, 3, alpha)
			for _, c := range pk.Encryptions {
				masks[run] = append(masks[run], c.P[:n]...)
				noise[run] = append(noise[run], phase(c.P, k0))
			}
		}
	}
	sym.TapeStop()
	assertSame(masks[0], masks[1], "masks depend on the draws only")
	for i := range noise[0] {
		sym.Assert(near(noise[0][i]-noise[1][i], 70), "noise depends on the draws only")
	}
}

// C24_cloud: key-switching and gadget noise of a cloud key: every entry can reach two
// requested deviations either way, and neighbouring entries differ; n=2, N=16.
func C24_cloud() {
	li := quickOf([]int{0, 1, 4}, len(levels), "level")
	setLevel(levels[li])
	n, N := 2, 16
	dims(n, N)
	sk := &key.SecretKey{KeyLv0: []torus{1, 1}, KeyLv1: make([]torus, N)}
	for i := range sk.KeyLv1 {
		sk.KeyLv1[i] = torus(i&1 ^ i>>2&1)
	}
	sym.RandSymbolic(8)
	ck := cloudkey.NewCloudKey(sk)
	p := params.GetTRGSWLv1()
	base := 1 << uint(p.BASEBIT)
	var masks, noise []torus
	for i := 0; i < N; i++ {
		for j := 0; j < p.IKS_T; j++ {
			for k := 1; k < base; k++ {
				c := ck.KeySwitchingKey[base*p.IKS_T*i+base*j+k]
				masks = append(masks, c.P[:n]...)
				want := torus(k) * sk.KeyLv1[i] * (torus(1) << uint(32-(j+1)*p.BASEBIT))
				noise = append(noise, phase(c.P, sk.KeyLv0)-want)
			}
		}
	}
	sym.CoverAll(u32s(masks), 32, "key-switching masks reachable, none shared")
	sym.CoverSeeds("every generator of a cloud key has its own full-width seed")
	spread(noise, params.KSKAlpha(), "key-switching noise, level "+itoa(li))
	var rows []torus
	for i, g := range ck.BootstrappingKey {
		for r, row := range gadgetRows(g, poly.NewEvaluator(N)) {
			w := torus(1) << uint32(32-uint32(r%p.L+1)*p.BGBIT)
			for c, v := range ringPhase(row.A, row.B, sk.KeyLv1) {
				if r < p.L {
					v += sk.KeyLv0[i] * w * sk.KeyLv1[c]
				} else if c == 0 {
					v -= sk.KeyLv0[i] * w
				}
				rows = append(rows, v)
			}
		}
	}
	if params.BSKAlpha() > 1e-8 {
		spread(rows, params.BSKAlpha(), "gadget noise, level "+itoa(li))
	}
}

func spread(noise []torus, alpha float64, label string) {
	two := int(2 * alpha * 4294967296)
	for i := range noise {
		v := int(int32(noise[i]))
		sym.CanHold(v >= two-8, label+": two deviations up "+itoa(i))
		sym.CanHold(v <= 8-two, label+": two deviations down "+itoa(i))
		j := (i + 1) % len(noise)
		sym.CanHold(!near(noise[i]-noise[j], 8), label+": own draw "+itoa(i))
	}
}

// C24_reencryption: re-encryption keys of both kinds, n=3, base 4, two digits: every
// entry has its own mask and noise: symmetric as above; asymmetric every pair of
// entries for non-zero digits can differ in the mask, and every entry's noise spreads.
func C24_reencryption() {
	setLevel(params.Security128Bit)
	n := 3
	dims(n, 16)
	from, to := []torus{1, 1, 0}, []torus{1, 0, 1}
	sym.RandSymbolic(8)
	alpha := 1e-4
	if sym.Choose("form", 2) == 0 {
		rk := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(from, to, alpha, 2, 2)
		var masks []torus
		for i, c := range rk.KeyEncryptions {
			if i%4 != 0 {
				masks = append(masks, c.P[:n]...)
			}
		}
		sym.CoverAll(u32s(masks), 32, "re-encryption masks reachable, none shared")
		return
	}
	pk := &proxyreenc.PublicKeyLv0{}
	for i := 0; i < 3; i++ {
		c := tlwe.NewTLWELv0()
		c.P[i] = 1
		pk.Encryptions = append(pk.Encryptions, c)
	}
	rk := proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(from, pk, alpha, 2, 2)
	var at []int
	for i := range rk.KeyEncryptions {
		if i%4 != 0 {
			at = append(at, i)
		}
	}
	for x, i := range at {
		for _, j := range at[:x] {
			c, d := rk.KeyEncryptions[i].P, rk.KeyEncryptions[j].P
			sym.CanHold(!same(c[:n], d[:n]), "entries "+itoa(j)+" and "+itoa(i)+" have their own coins")
		}
	}
}

// C24_slices: encrypting a slice of four bits (every pattern) and fixed ones of 37 and 133
// bits, arbitrary key: each entry has its own mask and noise; n=3, all levels.
func C24_slices() {
	chooseLevel()
	n := 3
	dims(n, 16)
	k := bits("key", n)
	pat := sym.Choose("bits", 18)
	bs := make([]bool, 4)
	if pat >= 16 {
		bs = make([]bool, 37+96*(pat-16))
	}
	for i := range bs {
		bs[i] = pat>>uint(i%5)&1 == 1
	}
	alpha := 1e-3
	sym.RandSymbolic(8)
	sym.ResetNorms()
	var masks, noise []torus
	for i, c := range bitutils.EncryptBits(bs, alpha, k) {
		mu := 7 * eighth
		if bs[i] {
			mu = eighth
		}
		masks = append(masks, c.P[:n]...)
		noise = append(noise, phase(c.P, k)-mu)
	}
	sym.CoverAll(u32s(masks), 32, "every mask reachable, none shared")
	sym.CoverSeeds("every generator has its own full-width seed")
	ownNoise(noise, alpha, 2, "bit slice")
}

// C24_concurrent: encryptions of every kind running at the same time, twice each,
// share no unsynchronised state (a shared generator would hand the same words to two
// of them) and have different masks; n=3, N=16, default level.
func C24_concurrent() {
	setLevel(params.Security128Bit)
	n, N := 3, 16
	dims(n, N)
	k0, k1 := []torus{1, 0, 1}, make([]torus, N)
	for i := range k1 {
		k1[i] = torus(i & 1)
	}
	alpha := 1e-6
	sym.RandConcrete(1)
	pk := proxyreenc.NewPublicKeyLv0WithParams(k0, 4, alpha)
	const kinds = 8
	masks := make([][]torus, 2*kinds)
	sym.CheckRaces()
	var wg sync.WaitGroup
	for i := 0; i < 2*kinds; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var m []torus
			switch i / 2 {
			case 0:
				m = tlwe.NewTLWELv0().EncryptF64(0.1, alpha, k0).P[:n]
			case 1:
				m = tlwe.NewTLWELv0().EncryptBool(true, alpha, k0).P[:n]
			case 2:
				m = tlwe.NewTLWELv0().EncryptLWEMessage(1, 4, alpha, k0).P[:n]
			case 3:
				m = tlwe.NewTLWELv1().EncryptBool(true, alpha, k1).P[:N]
			case 4:
				m = trlwe.NewTRLWELv1().EncryptBool(make([]bool, N), alpha, k1, poly.NewEvaluator(N)).A
			case 5:
				m = trgsw.NewTRGSWLv1().EncryptTorus(1, alpha, k1, poly.NewEvaluator(N)).TRLWE[1].A
			case 6:
				m = proxyreenc.NewPublicKeyLv0WithParams(k0, 2, alpha).Encryptions[1].P[:n]
			case 7:
				m = key.NewSecretKey().KeyLv1
				pk.EncryptBool(true, alpha)
			}
			masks[i] = m
		}(i)
	}
	wg.Wait()
	for i := range masks {
		for j := 0; j < i; j++ {
			sym.Assert(len(masks[i]) != len(masks[j]) || !same(masks[i], masks[j]), "masks differ")
		}
	}
}
