package harness

import (
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"verifharness/sym"
)

func pkWords(pk *proxyreenc.PublicKeyLv0) [][]torus {
	var r [][]torus
	for _, c := range pk.Encryptions {
		r = append(r, clone(c.P))
	}
	return r
}

// combination: some c_i in {-1,0,1} make every mask word of ct the combination of
// the public key's mask words and body the combination plus target within tol.
func combination(ct []torus, zs [][]torus, target, tol torus) bool {
	n := len(ct) - 1
	total := 1
	for range zs {
		total *= 3
	}
	ok := false
	for v := 0; v < total; v++ {
		m := true
		for j := 0; j <= n; j++ {
			s := ct[j]
			w := v
			for i := range zs {
				switch w % 3 {
				case 1:
					s -= zs[i][j]
				case 2:
					s += zs[i][j]
				}
				w /= 3
			}
			if j < n {
				m = m && s == 0
			} else {
				m = m && near(s-target, tol)
			}
		}
		ok = ok || m
	}
	return ok
}

// C18_combination: n=2, public keys of 0 to 2 zero encryptions, secret
// key, masks, noise (8 sigma) and coins arbitrary; plaintexts +-1/8, 0, 1/4, 0.4,
// -0.3: the ciphertext is a {-1,0,1} combination of the public key plus plaintext
// plus one fresh noise draw of the requested deviation; public key unchanged.
func C18_combination() {
	setLevel(params.Security128Bit)
	n := 2
	dims(n, 16)
	sk := bits("key", n)
	size := sym.Choose("size", 3)
	sym.RandSymbolic(8)
	alpha := 1e-4
	pk := proxyreenc.NewPublicKeyLv0WithParams(sk, size, alpha)
	sym.Assert(len(pk.Encryptions) == size, "number of zero encryptions")
	zs := pkWords(pk)
	for _, z := range zs {
		sym.Assert(len(z) == n+1, "length of a zero encryption")
		sym.Assert(near(phase(z, sk), torus(8*alpha*4294967296)+2), "encrypts zero")
	}
	alpha2 := 2e-3
	sym.ResetNorms()
	pt := []float64{0.125, -0.125, 0, 0.25, 0.4, -0.3}[sym.Choose("plaintext", 6)]
	ct := pk.EncryptF64(pt, alpha2)
	ns := sym.Norms()
	sym.Assert(len(ns) == 1, "one fresh noise draw")
	fresh := torus(int64(ns[0] * alpha2 * 4294967296))
	sym.Assert(len(ct.P) == n+1, "length")
	sym.Assert(combination(ct.P, zs, torus(int64(pt*4294967296))+fresh, 2), "combination of zero encryptions plus plaintext plus noise")
	for i, c := range pk.Encryptions {
		assertSame(c.P, zs[i], "public key unchanged")
	}
	for j := range ct.P {
		ct.P[j] += 3
	}
	for i, c := range pk.Encryptions {
		assertSame(c.P, zs[i], "ciphertext does not share storage with the public key")
	}
}

// C18_coins: with three zero encryptions every combination of coefficients -1, 0, +1
// occurs.
func C18_coins() {
	setLevel(params.Security128Bit)
	dims(3, 16)
	pk := &proxyreenc.PublicKeyLv0{}
	for i := 0; i < 3; i++ {
		c := tlwe.NewTLWELv0()
		c.P[i] = 1
		pk.Encryptions = append(pk.Encryptions, c)
	}
	sym.RandSymbolic(8)
	ct := pk.EncryptF64(0, 1e-4)
	names := []string{"-1", "0", "+1"}
	for i := 0; i < 3; i++ {
		sym.Assert(near(ct.P[i], 1), "coefficient in -1,0,1")
	}
	for v := 0; v < 27; v++ {
		c := [3]int{v % 3, v / 3 % 3, v / 9}
		ok := true
		for i := range c {
			ok = ok && ct.P[i]+1 == torus(c[i])
		}
		sym.CanHold(ok, "coefficients "+names[c[0]]+" "+names[c[1]]+" "+names[c[2]]+" occur")
	}
}

// C18_bool: bits decrypt whenever the noises stay below 1/8 in total: n=3, sizes 0 to
// 4, noise up to 1/8 divided by size+1.
func C18_bool() {
	setLevel(params.Security128Bit)
	n := 3
	dims(n, 16)
	sk := bits("key", n)
	size := sym.Choose("size", 4)
	alpha := 1e-3
	sym.RandSymbolic(0.1249 / float64(size+1) / alpha)
	pk := proxyreenc.NewPublicKeyLv0WithParams(sk, size, alpha)
	b := sym.Bool("bit")
	ct := pk.EncryptBool(b, alpha)
	sym.Assert(ct.DecryptBool(sk) == b, "bit decrypts")
	mu := 7 * eighth
	if b {
		mu = eighth
	}
	sym.Assert(near(phase(ct.P, sk)-mu, 1<<29-1), "phase within 1/8")
}

// C18_default: every level: the default public key has twice the level-0 dimension
// many zero encryptions with the level's noise; dimension 2.
func C18_default() {
	chooseLevel()
	n := 2
	dims(n, 16)
	sk := bits("key", n)
	sym.RandSymbolic(8)
	pk := proxyreenc.NewPublicKeyLv0(sk)
	sym.Assert(len(pk.Encryptions) == 2*n, "twice the dimension")
	a := params.GetTLWELv0().ALPHA
	for _, c := range pk.Encryptions {
		sym.Assert(near(phase(c.P, sk), torus(8*a*4294967296)+2), "encrypts zero with the level's noise")
	}
	pw := pkWords(pk)
	b := sym.Bool("bit")
	ct := pk.EncryptBool(b, a)
	mu := 7 * eighth
	if b {
		mu = eighth
	}
	sym.Assert(near(phase(ct.P, sk)-mu, torus(2*n+1)*(torus(8*a*4294967296)+2)), "plaintext plus noise terms")
	for i, c := range pk.Encryptions {
		assertSame(c.P, pw[i], "public key unchanged")
	}
	for i := range pk.Encryptions {
		for j := range pk.Encryptions {
			if i != j {
				pk.Encryptions[i].P[0]++
				assertSame(pk.Encryptions[j].P, pw[j], "zero encryptions do not share storage")
				pk.Encryptions[i].P[0]--
			}
		}
	}
}

// C18_larger: 3 to 8 (thorough 40) zero encryptions whose mask starts with a unit
// vector, so that the coefficients can be read off; all other words, plaintext word
// choice, fresh noise and coins arbitrary.
func C18_larger() {
	setLevel(params.Security128Bit)
	max := 6
	if sym.Thorough() {
		max = 38
	}
	size := 3 + sym.Choose("size", max)
	n := size + 2
	dims(n, 16)
	pk := &proxyreenc.PublicKeyLv0{}
	for i := 0; i < size; i++ {
		c := tlwe.NewTLWELv0()
		c.P[i] = 1
		for j := size; j <= n; j++ {
			c.P[j] = torus(sym.U32("zero encryption"))
		}
		pk.Encryptions = append(pk.Encryptions, c)
	}
	zs := pkWords(pk)
	sym.RandSymbolic(8)
	alpha := 2e-3
	sym.ResetNorms()
	pt := []float64{0.125, -0.125, 0.4}[sym.Choose("plaintext", 3)]
	ct := pk.EncryptF64(pt, alpha)
	ns := sym.Norms()
	sym.Assert(len(ns) == 1, "one fresh noise draw")
	want := make([]torus, n+1)
	want[n] = torus(int64(pt*4294967296)) + torus(int64(ns[0]*alpha*4294967296))
	for i := 0; i < size; i++ {
		sym.Assert(near(ct.P[i], 1), "coefficient in -1,0,1")
		for j := size; j <= n; j++ {
			want[j] += ct.P[i] * zs[i][j]
		}
	}
	for j := size; j < n; j++ {
		sym.Assert(ct.P[j] == want[j], "mask is the combination")
	}
	sym.Assert(near(ct.P[n]-want[n], 2), "body is the combination plus plaintext plus noise")
	for i, c := range pk.Encryptions {
		assertSame(c.P, zs[i], "public key unchanged")
	}
}

// C18_pairs: a public key of 40 zero encryptions: for every two of them all nine pairs
// of coefficients occur, and each coefficient takes -1, 0 and +1.
func C18_pairs() {
	setLevel(params.Security128Bit)
	size := 40
	dims(size, 64)
	pk := &proxyreenc.PublicKeyLv0{}
	for i := 0; i < size; i++ {
		c := tlwe.NewTLWELv0()
		c.P[i] = 1
		pk.Encryptions = append(pk.Encryptions, c)
	}
	sym.RandSymbolic(8)
	i := sym.Choose("index", size)
	ct := pk.EncryptF64(0, 1e-4)
	names := []string{"-1", "0", "+1"}
	for j := 0; j < i; j++ {
		for v := 0; v < 9; v++ {
			sym.CanHold(ct.P[i]+1 == torus(v%3) && ct.P[j]+1 == torus(v/3), "coefficients "+itoa(j)+" and "+itoa(i)+" are "+names[v/3]+" and "+names[v%3])
		}
	}
}

// C18_far: public keys of 300 and 1100 zero encryptions: for the first and the last
// encryption and each encryption a power of two (or one off) away, all nine pairs of
// coefficients occur.
func C18_far() {
	setLevel(params.Security128Bit)
	size := []int{300, 1100}[sym.Choose("size", 2)]
	dims(2, 64)
	front := sym.Choose("from the end", 2) == 0
	var js []int
	for d := 1; d < size; d *= 2 {
		for _, x := range []int{d - 1, d, d + 1} {
			if x > 0 && x < size && (len(js) == 0 || x > js[len(js)-1]) {
				js = append(js, x)
			}
		}
	}
	at := func(x int) int {
		if front {
			return x
		}
		return size - 1 - x
	}
	other := at(js[sym.Choose("other", len(js))])
	pk := &proxyreenc.PublicKeyLv0{}
	for i := 0; i < size; i++ {
		c := tlwe.NewTLWELv0()
		if i == at(0) {
			c.P[0] = 1
		}
		if i == other {
			c.P[1] = 1
		}
		pk.Encryptions = append(pk.Encryptions, c)
	}
	sym.RandSymbolic(8)
	ct := pk.EncryptF64(0, 1e-4)
	names := []string{"-1", "0", "+1"}
	for v := 0; v < 9; v++ {
		sym.CanHold(ct.P[0]+1 == torus(v%3) && ct.P[1]+1 == torus(v/3), "of "+itoa(size)+" coefficients "+itoa(at(0))+" and "+itoa(other)+" are "+names[v%3]+" and "+names[v/3])
	}
}
