package harness

import (
	"math/rand"

	"github.com/thedonutfactory/go-tfhe/utils"
	"verifharness/sym"
)

// C22_words: all 2^32 torus words: real value in [0,1) equal to word/2^32, and
// back exactly.
func C22_words() {
	w := torus(sym.U32("word"))
	f := utils.TorusToF64(w)
	sym.Assert(f >= 0 && f < 1, "range")
	sym.Assert(f*4294967296 == float64(w), "value")
	sym.Assert(utils.F64ToTorus(f) == w, "round trip")
	sym.Assert(utils.F64ToTorus(-f) == 0-w, "negative round trip")
	k := sym.IntIn("integer part", -1000, 1000)
	if f > 0 && k >= 0 || f == 0 {
		sym.Assert(utils.F64ToTorus(f+float64(k)) == w, "integer part is dropped")
	}
}

// C22_reals: every real with magnitude up to 2^20: truncation of d*2^32 modulo 2^32.
func C22_reals() {
	d := sym.F64In("d", -1048576, 1048576)
	t := utils.F64ToTorus(d)
	want := torus(int64(d * 4294967296))
	sym.Observe("torus", uint64(t))
	sym.Assert(t == want, "scaled and truncated modulo 2^32")
}

// longLength is one of 0..short-1 or a length that is no multiple of likely block sizes.
func longLength(short int) int {
	long := []int{13, 33, 67, 131, 259, 1027}
	n := sym.Choose("length", short+len(long))
	if n >= short {
		n = long[n-short]
	}
	return n
}

// C22_vec: the vector form, lengths 0..6 and six long ones, reals with magnitude up to 4
// (in long vectors every fifth element and the last eight, others fixed).
func C22_vec() {
	n := longLength(7)
	in := make([]float64, n)
	for i := range in {
		if n < 70 || i%5 == 0 && i < 100 || i >= n-8 {
			in[i] = sym.F64In("d", -4, 4)
		} else {
			in[i] = float64(i%17)/16 - 0.5
		}
	}
	out := utils.F64ToTorusVec(in)
	sym.Assert(len(out) == n, "length")
	for i := range in {
		sym.Assert(out[i] == utils.F64ToTorus(in[i]), "element-wise")
	}
}

func gaussOK(got torus, mu torus, draw, dev float64) bool {
	noise := int64(draw * dev * 4294967296)
	d := int64(int32(got-mu)) - noise
	return d >= -1 && d <= 1
}

var devs = []float64{0, 1.0 / 4294967296, 2.2204460492503131e-17, 2.0e-8, 2.0e-5, 1e-3, 0.01, 0.03}

// C22_gauss: all means, all draws with |draw| <= 16, deviations from 0 to 0.03:
// mean plus exactly draw times deviation.
func C22_gauss() {
	dev := devs[sym.Choose("deviation", len(devs))]
	sym.RandSymbolic(16)
	rng := rand.New(rand.NewSource(int64(sym.IntIn("seed", 0, 1<<40))))
	sym.ResetNorms()
	if sym.Choose("form", 2) == 0 {
		mu := torus(sym.U32("mean"))
		got := utils.GaussianTorus(mu, dev, rng)
		ns := sym.Norms()
		sym.Assert(len(ns) == 1, "one draw")
		sym.Assert(gaussOK(got, mu, ns[0], dev), "mean plus draw times deviation")
		return
	}
	mu := sym.F64In("mean", -2, 2)
	got := utils.GaussianF64(mu, dev, rng)
	ns := sym.Norms()
	sym.Assert(len(ns) == 1, "one draw")
	sym.Assert(gaussOK(got, utils.F64ToTorus(mu), ns[0], dev), "mean plus draw times deviation")
}

// C22_gaussvec: the vector form, lengths 0..5 and (one deviation) five long ones: one own
// draw per element.
func C22_gaussvec() {
	n := longLength(6)
	dev := devs[4]
	if n < 6 {
		dev = devs[3+sym.Choose("deviation", 3)]
	}
	sym.RandSymbolic(16)
	rng := rand.New(rand.NewSource(int64(sym.IntIn("seed", 0, 1<<40))))
	mu := make([]float64, n)
	for i := range mu {
		mu[i] = sym.F64In("mean", -1, 1)
	}
	sym.ResetNorms()
	got := utils.GaussianF64Vec(mu, dev, rng)
	sym.Assert(len(got) == n, "length")
	noise := make([]torus, n)
	for i := range mu {
		noise[i] = got[i] - utils.F64ToTorus(mu[i])
	}
	ownNoise(noise, dev, 1, "vector form")
}

// C22_far: reals up to 2^36 away from zero: integer parts next to the word sizes and
// every fraction in steps of 2^-16: the integer part is dropped.
func C22_far() {
	ks := []float64{0, 1, 127, 32767, 65535, 8388607, 16777216, 2147483647, 2147483648, 2147483649, 4294967295, 4294967296, 4294967297, 3000000000, 68719476735}
	k := ks[sym.Choose("integer part", len(ks))]
	t := sym.IntIn("fraction", 0, 65535)
	f := float64(t) / 65536
	want := torus(t) << 16
	switch sym.Choose("sign", 2) {
	case 0:
		sym.Assert(utils.F64ToTorus(k+f) == want, "far real")
		v := utils.F64ToTorusVec([]float64{k + f, f})
		sym.Assert(v[0] == want && v[1] == want, "far real in a vector")
	default:
		sym.Assert(utils.F64ToTorus(-k-f) == 0-want, "far negative real")
	}
}
