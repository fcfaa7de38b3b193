package harness

import (
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"verifharness/sym"
)

func lin(k int, a, b *tlwe.TLWELv0, mul torus) *tlwe.TLWELv0 {
	switch k {
	case 0:
		return a.Add(b)
	case 1:
		return a.Sub(b)
	case 2:
		return a.Neg()
	case 3:
		return a.AddMul(b, mul)
	case 4:
		return a.SubMul(b, mul)
	case 5:
		r := &tlwe.TLWELv0{P: words("dirty", len(a.P))}
		a.AddAssign(b, r)
		return r
	case 6:
		return gates.NOT(a)
	}
	return gates.Copy(a)
}

func linWant(k int, pa, pb, mul torus) torus {
	switch k {
	case 0, 5:
		return pa + pb
	case 1:
		return pa - pb
	case 2, 6:
		return 0 - pa
	case 3:
		return pa + mul*pb
	case 4:
		return pa - mul*pb
	}
	return pa
}

func linear(n int, x, y *tlwe.TLWELv0, key []torus) {
	mul := torus(sym.U32("multiplier"))
	op := sym.Choose("operation", 8)
	kx, ky := clone(x.P), clone(y.P)
	r := lin(op, x, y, mul)
	sym.Assert(len(r.P) == n+1, "result length")
	sym.Assert(phase(r.P, key) == linWant(op, phase(kx, key), phase(ky, key), mul), "phase of the result")
	assertSame(x.P, kx, "first operand unchanged")
	assertSame(y.P, ky, "second operand unchanged")
	kr := clone(r.P)
	// writing to the result never reaches an operand, nor the reverse
	for i := range r.P {
		r.P[i] ^= 0x5a5a5a5a
	}
	assertSame(x.P, kx, "result does not alias the first operand")
	assertSame(y.P, ky, "result does not alias the second operand")
	for i := range x.P {
		x.P[i] += 12345
		y.P[i] += 54321
	}
	for i := range kr {
		kr[i] ^= 0x5a5a5a5a
	}
	assertSame(r.P, kr, "operand does not alias the result")
}

// C03_ops: every operation at n=5, all words, keys (arbitrary words as key
// entries) and multipliers.
func C03_ops() {
	setLevel(params.Security128Bit)
	dims(5, 16)
	linear(5, &tlwe.TLWELv0{P: words("a", 6)}, &tlwe.TLWELv0{P: words("b", 6)}, words("key", 5))
}

// C03_same: both operands are the same ciphertext, n=5.
func C03_same() {
	setLevel(params.Security128Bit)
	dims(5, 16)
	a := &tlwe.TLWELv0{P: words("a", 6)}
	key := words("key", 5)
	mul := torus(sym.U32("multiplier"))
	op := sym.Choose("operation", 8)
	ka := clone(a.P)
	r := lin(op, a, a, mul)
	sym.Assert(phase(r.P, key) == linWant(op, phase(ka, key), phase(ka, key), mul), "phase of the result")
	assertSame(a.P, ka, "operand unchanged")
}

// C03_full: every operation at the true dimension of every level, all words,
// multipliers, and binary keys.
func C03_full() {
	chooseLevel()
	n := params.GetTLWELv0().N
	linear(n, &tlwe.TLWELv0{P: words("a", n+1)}, &tlwe.TLWELv0{P: words("b", n+1)}, bits("key", n))
}

// C03_constant: a constant decrypts to its value under every key with phase
// +-1/8 (one unit of slack), at the true dimension of every level.
func C03_constant() {
	chooseLevel()
	n := params.GetTLWELv0().N
	key := bits("key", n)
	v := sym.Bool("value")
	c := gates.Constant(v)
	sym.Assert(len(c.P) == n+1, "result length")
	ph := phase(c.P, key)
	mu := torus(7 * (1 << 29))
	if v {
		mu = torus(1 << 29)
	}
	sym.Assert(near(ph-mu, 1), "constant phase")
	sym.Assert(c.DecryptBool(key) == v, "constant decrypts")
	d := gates.Constant(v)
	d.P[0] = 77
	sym.Assert(gates.Constant(v).P[0] == c.P[0] && c.P[0] == 0, "constants are independent")
}
