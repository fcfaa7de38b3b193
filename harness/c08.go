package harness

import (
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"verifharness/sym"
)

func reduce(x, m int) int {
	x %= m
	if x < 0 {
		x += m
	}
	return x
}

// within one unit of num/den of the torus (num < den)
func atFraction(v torus, num, den int) bool {
	want := uint64(num) << 32
	got := uint64(v) * uint64(den)
	// |v - num*2^32/den| <= 1
	return got <= want+uint64(den) && want <= got+uint64(den)
}

// C08_encode: moduli 2..256, every machine integer message: the encoding is that
// of the message reduced into [0,m) and lies within one unit of message/(2m).
func C08_encode() {
	m := 2 + sym.Choose("modulus", 255)
	e := lut.NewEncoder(m)
	msg := sym.Int("message")
	red := reduce(msg, m)
	v := e.Encode(msg)
	sym.Observe("code", uint64(v))
	sym.Assert(near(v-e.Encode(red), 1), "reduced into [0,modulus)")
	x := sym.IntIn("reduced message", 0, m-1)
	sym.Assert(atFraction(e.Encode(x), x, 2*m), "message times scale")
	sym.Assert(e.Decode(v) == red, "decode after encode")
	sym.Assert(e.DecodeBool(v) == (red != 0), "boolean decode")
}

// C08_decode: moduli 2..256: every torus value closer than half a step (minus
// two units) to the encoding of x decodes to x, wrap-around of 0 included.
func C08_decode() {
	m := 2 + sym.Choose("modulus", 255)
	e := lut.NewEncoder(m)
	x := sym.IntIn("message", 0, m-1)
	half := (1 << 32) / (4 * m)
	d := sym.IntIn("distance", -half+2, half-2)
	v := e.Encode(x) + torus(d)
	got := e.Decode(v)
	sym.Observe("decoded", uint64(got))
	sym.Assert(got == x, "nearest message")
	sym.Assert(e.DecodeBool(v) == (x != 0), "true exactly for non-zero")
}

// C08_any: moduli 2..256, all 2^32 values: the decoded message is in [0,m).
func C08_any() {
	m := 2 + sym.Choose("modulus", 255)
	e := lut.NewEncoder(m)
	got := e.Decode(torus(sym.U32("value")))
	sym.Assert(got >= 0 && got < m, "decoded message in range")
}

// C08_scale: encoders with scale 1/(k*m), k=1..4, moduli 2..64: encode, decode
// within half a step, and EncodeWithCustomScale of a default encoder agree.
func C08_scale() {
	m := 2 + sym.Choose("modulus", 63)
	k := 1 + sym.Choose("spacing", 4)
	scale := 1 / float64(k*m)
	e := lut.NewEncoderWithScale(m, scale)
	msg := sym.Int("message")
	red := reduce(msg, m)
	v := e.Encode(msg)
	sym.Assert(near(v-lut.NewEncoder(m).EncodeWithCustomScale(msg, scale), 1), "custom scale agrees")
	x := sym.IntIn("reduced message", 0, m-1)
	sym.Assert(atFraction(e.Encode(x), x, k*m), "message times scale")
	half := (1 << 32) / (2 * k * m)
	d := sym.IntIn("distance", -half+2, half-2)
	sym.Assert(e.Decode(v+torus(d)) == red, "nearest message")
}

// C08_modswitch: table sizes 16..2048 (the three production sizes included), all
// 2^32 torus values: nearest index, in [0,size).
func C08_modswitch() {
	setLevel(params.Security128Bit)
	n := 16 << uint(sym.Choose("log2 size", 8))
	dims(4, n)
	g := lut.NewGenerator(2)
	v := torus(sym.U32("value"))
	r := g.ModSwitch(v)
	sym.Observe("index", uint64(r))
	sym.Assert(r >= 0 && r < n, "index range")
	step := torus((1 << 32) / n)
	sym.Assert(near(v-torus(r)*step, step/2), "nearest index")
}
