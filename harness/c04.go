package harness

import (
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"verifharness/sym"
)

type gate struct {
	name  string
	apply func(a, b *tlwe.TLWELv0, ck *cloudkey.CloudKey) *tlwe.TLWELv0
	table [4]bool // index 2*a+b
}

func binaryGates() []gate {
	return []gate{
		{"AND", gates.AND, [4]bool{false, false, false, true}},
		{"OR", gates.OR, [4]bool{false, true, true, true}},
		{"NAND", gates.NAND, [4]bool{true, true, true, false}},
		{"NOR", gates.NOR, [4]bool{true, false, false, false}},
		{"XOR", gates.XOR, [4]bool{false, true, true, false}},
		{"XNOR", gates.XNOR, [4]bool{true, false, false, true}},
		{"ANDNY", gates.ANDNY, [4]bool{false, true, false, false}},
		{"ANDYN", gates.ANDYN, [4]bool{false, false, true, false}},
		{"ORNY", gates.ORNY, [4]bool{true, true, false, true}},
		{"ORYN", gates.ORYN, [4]bool{true, false, true, true}},
	}
}

// encWith is a ciphertext of the bit with the given mask and noise word.
func encWith(bit bool, mask []torus, e torus, key []torus) *tlwe.TLWELv0 {
	c := tlwe.NewTLWELv0()
	b := e - eighth
	if bit {
		b = e + eighth
	}
	for i := range mask {
		c.P[i] = mask[i]
		b += mask[i] * key[i]
	}
	c.P[len(mask)] = b
	return c
}

// inputNoise is an arbitrary noise word of magnitude at most 1/64.
func inputNoise() torus { return torus(sym.IntIn("noise", -(1 << 26), 1<<26)) }

// bootBound bounds the noise of a bootstrapped ciphertext (8-sigma keys).
func bootBound(n, N int) torus {
	p := params.GetTRGSWLv1()
	ks := torus(N)*kskHalf() + torus(float64(N*p.IKS_T)*(8*params.KSKAlpha()*4294967296+1.5))
	return torus(n)*(noisyEP(N)+torus(2*N+2)) + ks + torus(N)
}

// assertBit: c decrypts to the bit and its noise is within bound.
func assertBit(c *tlwe.TLWELv0, want bool, key []torus, bound torus, label string) {
	sym.Assert(len(c.P) == len(key)+1, label+": length")
	sym.Assert(c.DecryptBool(key) == want, label+": truth table")
	mu := 7 * eighth
	if want {
		mu = eighth
	}
	sym.Assert(near(phase(c.P, key)-mu, bound), label+": fresh noise")
}

func bit2(v int) (bool, bool) { return v&2 != 0, v&1 != 0 }

// C04_gates: LWE dimension 1, ring dimension 16, concrete cloud keys (one per
// level-0 bit): each two-input gate, both masks arbitrary, both noises arbitrary up
// to 1/64, every row of the truth table.
func C04_gates() {
	if sym.Thorough() {
		chooseLevelFew()
	} else {
		setLevel(params.Security128Bit)
	}
	n, N := 1, 16
	dims(n, N)
	g := binaryGates()[sym.Choose("gate", 10)]
	s := torus(sym.Choose("key", 2))
	kp := keysFor("c04"+itoa(int(s)), []torus{s})
	row := sym.Choose("row", 4)
	x, y := bit2(row)
	ca := encWith(x, words("maskA", n), inputNoise(), kp.key0)
	cb := encWith(y, words("maskB", n), inputNoise(), kp.key0)
	ka, kb := clone(ca.P), clone(cb.P)
	r := g.apply(ca, cb, kp.ck)
	assertBit(r, g.table[row], kp.key0, bootBound(n, N), g.name)
	assertSame(ca.P, ka, g.name+": first input unchanged")
	assertSame(cb.P, kb, g.name+": second input unchanged")
}

// C04_mux: MUX and NOT, LWE dimension 1: the mask and noise of each input in turn
// arbitrary (quick: the others concrete; thorough: two at a time), every row.
func C04_mux() {
	setLevel(params.Security128Bit)
	n, N := 1, 16
	dims(n, N)
	s := torus(sym.Choose("key", 2))
	kp := keysFor("c04"+itoa(int(s)), []torus{s})
	row := sym.Choose("row", 8)
	in := make([]*tlwe.TLWELv0, 3)
	free := sym.Choose("input", 3)
	for i := range in {
		m, e := []torus{torus(uint32(i)*0x9e3779b9 + 0x0badcafe)}, torus(uint32(i)<<24)
		if i == free || sym.Thorough() && i == (free+1)%3 {
			m, e = words("mask", 1), inputNoise()
		}
		in[i] = encWith(row>>uint(i)&1 == 1, m, e, kp.key0)
	}
	keep := [][]torus{clone(in[0].P), clone(in[1].P), clone(in[2].P)}
	want := row>>2&1 == 1
	if row&1 == 1 {
		want = row>>1&1 == 1
	}
	r := gates.MUX(in[0], in[1], in[2], kp.ck)
	assertBit(r, want, kp.key0, bootBound(n, N), "MUX")
	nt := gates.NOT(in[free])
	sym.Assert(nt.DecryptBool(kp.key0) == (row>>uint(free)&1 == 0), "NOT: truth table")
	for i := range in {
		assertSame(in[i].P, keep[i], "MUX: inputs unchanged")
	}
}

// C04_dims: LWE dimension 2 and 3, ring dimension 32, key bits mixed: one mask word
// of the first input arbitrary, noise of both inputs arbitrary, other words fixed.
func C04_dims() {
	setLevel(params.Security128Bit)
	n, N := 3, 32
	dims(n, N)
	g := binaryGates()[sym.Choose("gate", 10)]
	kp := keysFor("c04dims", []torus{1, 0, 1})
	row := sym.Choose("row", 4)
	x, y := bit2(row)
	ma := []torus{0x12345678, 0xfedcba98, 0x80000001}
	mb := []torus{0xdeadbeef, 0x01020304, 0x7fffffff}
	if sym.Thorough() {
		ma[sym.Choose("word", n)] = torus(sym.U32("mask"))
	}
	ca := encWith(x, ma, inputNoise(), kp.key0)
	cb := encWith(y, mb, inputNoise(), kp.key0)
	assertBit(g.apply(ca, cb, kp.ck), g.table[row], kp.key0, bootBound(n, N), g.name)
}

// C04_levels: every security level's gadget, key-switching and noise parameters,
// LWE dimension 2, ring dimension 16: noise arbitrary, masks fixed.
func C04_levels() {
	chooseLevel()
	n, N := 2, 32
	dims(n, N)
	g := binaryGates()[sym.Choose("gate", 10)]
	kp := keysFor("c04lev", []torus{1, 1})
	row := sym.Choose("row", 4)
	x, y := bit2(row)
	ca := encWith(x, []torus{0x12345678, 0xfedcba98}, inputNoise(), kp.key0)
	cb := encWith(y, []torus{0xdeadbeef, 0x7fffffff}, inputNoise(), kp.key0)
	assertBit(g.apply(ca, cb, kp.ck), g.table[row], kp.key0, bootBound(n, N), g.name)
}

// C04_chain: all circuits g2(g1(a,b), c) over the ten gates (quick: g2 one of NAND,
// XOR, ANDYN), with the output of one
// gate used as input of the next, then NOT; noise of a, b, c arbitrary.
func C04_chain() {
	setLevel(params.Security128Bit)
	n, N := 1, 32
	dims(n, N)
	g1 := binaryGates()[sym.Choose("gate", 10)]
	g2 := binaryGates()[quickOf([]int{2, 4, 7}, 10, "gate2")]
	kp := keysFor("c04chain", []torus{1})
	row := sym.Choose("row", 8)
	e := inputNoise()
	ca := encWith(row&4 != 0, []torus{0x12345678}, e, kp.key0)
	cb := encWith(row&2 != 0, []torus{0xfedcba98}, -e, kp.key0)
	cc := encWith(row&1 != 0, []torus{0xdeadbeef}, e, kp.key0)
	m := g1.apply(ca, cb, kp.ck)
	mk := clone(m.P)
	mid := g1.table[row>>1]
	i := row & 1
	if mid {
		i += 2
	}
	r := g2.apply(m, cc, kp.ck)
	assertBit(r, g2.table[i], kp.key0, bootBound(n, N), g1.name+"/"+g2.name)
	assertSame(m.P, mk, "earlier result unchanged")
	r2 := g2.apply(r, r, kp.ck)
	j := 0
	if g2.table[i] {
		j = 3
	}
	assertBit(r2, g2.table[j], kp.key0, bootBound(n, N), g2.name+": same input twice")
}

// C04_switch: gates before and after the security level changes, back and forth
// between two dimensions (quick: four levels); noise of the inputs arbitrary.
func C04_switch() {
	g := binaryGates()[sym.Choose("gate", 10)]
	l2 := levels[quickOf([]int{0, 1, 4, 8}, len(levels), "level")]
	row := sym.Choose("row", 4)
	x, y := bit2(row)
	e := inputNoise()
	back := sym.Choose("back", 2)
	for k := 0; k < 3; k++ {
		n, N, l := 1, 16, params.Security128Bit
		if k%2 == back {
			n, N, l = 2, 32, l2
		}
		setLevel(l)
		dims(n, N)
		kp := keysFor("c04switch", []torus{1, 1}[:n])
		ca := encWith(x, []torus{0x12345678, 0xfedcba98}[:n], e, kp.key0)
		cb := encWith(y, []torus{0xdeadbeef, 0x7fffffff}[:n], -e, kp.key0)
		assertBit(g.apply(ca, cb, kp.ck), g.table[row], kp.key0, bootBound(n, N), g.name)
	}
}
