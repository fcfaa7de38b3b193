package harness

import (
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"verifharness/sym"
)

// norm draw bound so that |noise| <= half the message spacing (times frac)
// minus the slack for rounding the spacing to whole torus units.
func msgBound(m int, frac float64, alpha float64) float64 {
	return (frac*0.5/float64(2*m) - float64(m+4)/4294967296) / alpha
}

// C02_roundtrip: every modulus 2..256, every 64-bit message, n=2, all keys,
// masks and noise below half the spacing minus (modulus+4) torus units.
func C02_roundtrip() {
	setLevel(params.Security128Bit)
	dims(2, 16)
	m := 2 + sym.Choose("modulus", 255)
	key := bits("key", 2)
	alpha := params.GetTLWELv0().ALPHA
	msg := sym.Int("message")
	sym.RandSymbolic(msgBound(m, 1, alpha))
	ct := tlwe.NewTLWELv0().EncryptLWEMessage(msg, m, alpha, key)
	want := msg % m
	if want < 0 {
		want += m
	}
	got := ct.DecryptLWEMessage(m, key)
	sym.Observe("decrypted", uint64(got))
	sym.Assert(got >= 0 && got < m, "decrypted message in range")
	sym.Assert(got == want, "decrypted message")
}

// C02_levels: the same at the true dimension of every level, for the modulus
// 2^k of each message space, k=1..8.
func C02_levels() {
	chooseLevel()
	n := params.GetTLWELv0().N
	m := 2 << uint(sym.Choose("log2 modulus", 8))
	key := bits("key", n)
	alpha := params.GetTLWELv0().ALPHA
	msg := sym.IntIn("message", 0, m-1)
	sym.RandSymbolic(msgBound(m, 1, alpha))
	ct := tlwe.NewTLWELv0().EncryptLWEMessage(msg, m, alpha, key)
	sym.Assert(ct.DecryptLWEMessage(m, key) == msg, "decrypted message")
}

// C02_decode: any ciphertext (n=2) whose phase lies within half a spacing of
// message x decrypts to x; moduli 2..256.
func C02_decode() {
	setLevel(params.Security128Bit)
	dims(2, 16)
	m := 2 + sym.Choose("modulus", 255)
	key := bits("key", 2)
	msg := sym.IntIn("message", 0, m-1)
	e := sym.IntIn("offset", -(1<<30)/m+m+4, (1<<30)/m-m-4)
	ct := tlwe.NewTLWELv0()
	ct.P[0] = torus(sym.U32("a0"))
	ct.P[1] = torus(sym.U32("a1"))
	ct.P[2] = ct.P[0]*key[0] + ct.P[1]*key[1] + torus(uint64(msg)*(1<<31)/uint64(m)) + torus(e)
	sym.Assert(ct.DecryptLWEMessage(m, key) == msg, "nearest message")
}

// C02_sum: two ciphertexts, messages with sum below the modulus, noise below a
// quarter spacing each; all moduli 2..256, n=1.
func C02_sum() {
	setLevel(params.Security128Bit)
	dims(1, 16)
	m := 2 + sym.Choose("modulus", 255)
	key := bits("key", 1)
	alpha := params.GetTLWELv0().ALPHA
	x := sym.IntIn("x", 0, m-1)
	y := sym.IntIn("y", 0, m-1)
	sym.Assume(x+y < m)
	sym.RandSymbolic(msgBound(m, 0.5, alpha))
	a := tlwe.NewTLWELv0().EncryptLWEMessage(x, m, alpha, key)
	b := tlwe.NewTLWELv0().EncryptLWEMessage(y, m, alpha, key)
	sym.Assert(a.Add(b).DecryptLWEMessage(m, key) == x+y, "sum of messages")
}
