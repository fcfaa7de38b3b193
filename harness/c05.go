package harness

import (
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"verifharness/sym"
)

type batchGate struct {
	name   string
	apply  func(in [][2]*gates.Ciphertext, ck *cloudkey.CloudKey) []*gates.Ciphertext
	single func(a, b *tlwe.TLWELv0, ck *cloudkey.CloudKey) *tlwe.TLWELv0
	table  [4]bool
}

func batchGates() []batchGate {
	return []batchGate{
		{"BatchAND", gates.BatchAND, gates.AND, [4]bool{false, false, false, true}},
		{"BatchOR", gates.BatchOR, gates.OR, [4]bool{false, true, true, true}},
		{"BatchNAND", gates.BatchNAND, gates.NAND, [4]bool{true, true, true, false}},
		{"BatchNOR", gates.BatchNOR, gates.NOR, [4]bool{true, false, false, false}},
		{"BatchXOR", gates.BatchXOR, gates.XOR, [4]bool{false, true, true, false}},
		{"BatchXNOR", gates.BatchXNOR, gates.XNOR, [4]bool{true, false, false, true}},
	}
}

// rowAt is the truth-table row of pair i of a batch; pairs a power of two apart do not
// all agree.
func rowAt(base, i int) int {
	return (base + i*i + i + int(uint32(i)*0x9e3779b1>>29)) % 4
}

// fixedPair encrypts row's bits with fixed masks and noise of magnitude below 1/64.
func fixedPair(row, i int, key []torus) [2]*gates.Ciphertext {
	x, y := bit2(row)
	ma, mb := make([]torus, len(key)), make([]torus, len(key))
	for j := range ma {
		ma[j] = torus(uint32(17*i+j+1) * 2654435761)
		mb[j] = torus(uint32(23*i+j+5) * 2246822519)
	}
	e := torus(uint32(i*7919) & 0x3ffffff)
	return [2]*gates.Ciphertext{encWith(x, ma, e, key), encWith(y, mb, -e, key)}
}

// C05_values: LWE dimension 1, ring dimension 16: each batch gate on a batch of two,
// masks of the first pair arbitrary (quick: one of them), noise arbitrary, every
// row of the truth table; the second pair fixed.
func C05_values() {
	setLevel(params.Security128Bit)
	n, N := 1, 16
	dims(n, N)
	g := batchGates()[sym.Choose("gate", 6)]
	kp := keysFor("c05", []torus{1})
	row := sym.Choose("row", 4)
	x, y := bit2(row)
	mb := []torus{0x13572468}
	if sym.Thorough() {
		mb = words("maskB", n)
	}
	ca := encWith(x, words("maskA", n), inputNoise(), kp.key0)
	cb := encWith(y, mb, inputNoise(), kp.key0)
	ka, kb := clone(ca.P), clone(cb.P)
	r := g.apply([][2]*gates.Ciphertext{{ca, cb}, fixedPair(row^1, 3, kp.key0)}, kp.ck)
	sym.Assert(len(r) == 2, g.name+": one result per pair")
	assertBit(r[0], g.table[row], kp.key0, bootBound(n, N), g.name)
	assertBit(r[1], g.table[row^1], kp.key0, bootBound(n, N), g.name)
	assertSame(ca.P, ka, g.name+": first input unchanged")
	assertSame(cb.P, kb, g.name+": second input unchanged")
}

// checkBatch runs one batch whose element i encrypts row (base+i)%4 and checks
// length, order, values, inputs and independent storage.
func checkBatch(g batchGate, size, base, n, N int, kp *ringKeys) []*gates.Ciphertext {
	in := make([][2]*gates.Ciphertext, size)
	keep := make([][2][]torus, size)
	for i := range in {
		in[i] = fixedPair(rowAt(base, i), i, kp.key0)
		keep[i] = [2][]torus{clone(in[i][0].P), clone(in[i][1].P)}
	}
	r := g.apply(in, kp.ck)
	sym.Assert(len(r) == size && len(in) == size, g.name+": one result per pair")
	for i := range r {
		assertBit(r[i], g.table[rowAt(base, i)], kp.key0, bootBound(n, N), g.name)
		assertSame(in[i][0].P, keep[i][0], g.name+": first input unchanged")
		assertSame(in[i][1].P, keep[i][1], g.name+": second input unchanged")
	}
	for i := range r {
		words := make([][]torus, size)
		for j := range r {
			words[j] = clone(r[j].P)
		}
		for k := range r[i].P {
			r[i].P[k]++
		}
		for j := range r {
			if j != i {
				assertSame(r[j].P, words[j], g.name+": results do not share storage")
			}
			assertSame(in[j][0].P, keep[j][0], g.name+": results do not share storage with inputs")
		}
		copy(r[i].P, words[i])
	}
	return r
}

// C05_sizes: batches of size 0 to 9 (thorough 20), all gates, one schedule, then a
// second batch of another gate: the first results stay as they are.
func C05_sizes() {
	setLevel(params.Security128Bit)
	n, N := 2, 16
	dims(n, N)
	kp := keysFor("c05", []torus{1, 1})
	gs := batchGates()
	gi := sym.Choose("gate", 6)
	max := 10
	if sym.Thorough() {
		max = 21
	}
	size := sym.Choose("size", max)
	base := sym.Choose("base", 4)
	r := checkBatch(gs[gi], size, base, n, N, kp)
	keep := make([][]torus, len(r))
	for i := range r {
		keep[i] = clone(r[i].P)
	}
	checkBatch(gs[(gi+1)%6], 2, base, n, N, kp)
	for i := range r {
		assertSame(r[i].P, keep[i], "earlier batch unchanged")
	}
}

// C05_single: element i has the bit of the single gate on pair i, at a second
// dimension after a level switch (pooled evaluators of the old level are around).
func C05_single() {
	gs := batchGates()
	g := gs[sym.Choose("gate", 6)]
	row := sym.Choose("row", 4)
	back := sym.Choose("back", 2)
	l2 := levels[quickOf([]int{0, 1, 5}, len(levels), "level")]
	for k := 0; k < 3; k++ {
		n, N, l := 1, 16, params.Security128Bit
		if k%2 == back {
			n, N, l = 2, 32, l2
		}
		setLevel(l)
		dims(n, N)
		kp := keysFor("c05", []torus{1, 1}[:n])
		in := [][2]*gates.Ciphertext{fixedPair(row, 1, kp.key0), fixedPair((row+1)%4, 2, kp.key0), fixedPair((row+2)%4, 3, kp.key0)}
		r := g.apply(in, kp.ck)
		sym.Assert(len(r) == 3, g.name+": one result per pair")
		for i := range r {
			s := g.single(in[i][0], in[i][1], kp.ck)
			sym.Assert(r[i].DecryptBool(kp.key0) == s.DecryptBool(kp.key0), g.name+": same bit as the single gate")
			assertBit(r[i], g.table[(row+i)%4], kp.key0, bootBound(n, N), g.name)
		}
	}
}

// plainKey is a cloud key of LWE dimension n and ring dimension N whose entries are all
// zero, made without any evaluator (as a key read from a file is): bootstrapping a
// trivial ciphertext under it gives the exact bit.
func plainKey(n, N int) *cloudkey.CloudKey {
	p := params.GetTRGSWLv1()
	ck := &cloudkey.CloudKey{BlindRotateTestvec: trlwe.NewTRLWELv1()}
	for i := 0; i < p.L; i++ {
		ck.DecompositionOffset += torus(p.BG/2) << (32 - uint32(i+1)*p.BGBIT)
	}
	for i := range ck.BlindRotateTestvec.B {
		ck.BlindRotateTestvec.B[i] = eighth
	}
	for i := 0; i < N*p.IKS_T<<uint(p.BASEBIT); i++ {
		ck.KeySwitchingKey = append(ck.KeySwitchingKey, tlwe.NewTLWELv0())
	}
	for i := 0; i < n; i++ {
		g := &trgsw.TRGSWLv1FFT{}
		for j := 0; j < 2*p.L; j++ {
			g.TRLWEFFT = append(g.TRLWEFFT, trgsw.TRLWELv1FFT{A: poly.NewFourierPoly(N), B: poly.NewFourierPoly(N)})
		}
		ck.BootstrappingKey = append(ck.BootstrappingKey, g)
	}
	return ck
}

// C05_fresh: the first use of a ring dimension is by the workers of a batch: trivial
// ciphertexts under a key made without evaluators, ring dimensions 16 to 64, every
// gate and interleaving with at most one preemption; no data race, right bits.
func C05_fresh() {
	setLevel(levels[quickOf([]int{0, 4}, len(levels), "level")])
	n, N := 1, 16<<uint(sym.Choose("ring", 3))
	dims(n, N)
	g := batchGates()[sym.Choose("gate", 6)]
	base := sym.Choose("base", 4)
	ck := plainKey(n, N)
	sym.ExploreSchedules(1)
	sym.CheckRaces()
	in := make([][2]*gates.Ciphertext, 2)
	for i := range in {
		x, y := bit2((base + i) % 4)
		e := torus(sym.IntIn("noise", -1000, 1000))
		in[i] = [2]*gates.Ciphertext{encWith(x, []torus{0}, e, []torus{0}), encWith(y, []torus{0}, e, []torus{0})}
	}
	r := g.apply(in, ck)
	sym.Assert(len(r) == 2, g.name+": one result per pair")
	for i := range r {
		assertBit(r[i], g.table[(base+i)%4], []torus{0}, 2*torus(N), g.name+" under a plain key")
	}
}

// C05_schedules: batches of 2 and 3 under every interleaving of the workers at
// synchronisation points with at most one preemption (thorough two) and every
// evaluator-pool choice; no data race, right results.
func C05_schedules() {
	setLevel(params.Security128Bit)
	n, N := 1, 16
	dims(n, N)
	kp := keysFor("c05", []torus{1})
	gi := sym.Choose("gate", 6)
	size := 2 + sym.Choose("size", 2)
	pre := 1
	if sym.Thorough() {
		pre = 2
	}
	sym.ExploreSchedules(pre)
	sym.CheckRaces()
	checkBatch(batchGates()[gi], size, gi, n, N, kp)
}
