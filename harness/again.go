package harness

import (
	"math/rand"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"github.com/thedonutfactory/go-tfhe/utils"
	"verifharness/sym"
)

// The harnesses of this file use the same objects (keys, ciphertexts, tables,
// evaluators) again after their contents were changed in place: a result depends on
// what its operands hold now, not on what they held or where they lie.

// C01_again: encrypt, decrypt, then new key bits in place, encrypt another bit into the
// same ciphertext; both levels, n=3 and N=16, everything arbitrary.
func C01_again() {
	chooseLevel()
	dims(3, 16)
	alpha := 1e-3
	sym.RandSymbolic(0.1249 / alpha)
	k0, k1 := bits("key0", 3), bits("key1", 16)
	c0, c1 := tlwe.NewTLWELv0(), tlwe.NewTLWELv1()
	for i := 0; i < 3; i++ {
		b := sym.Bool("bit")
		r0, r1 := c0.EncryptBool(b, alpha, k0), c1.EncryptBool(b, alpha, k1)
		sym.Assert(r0.DecryptBool(k0) == b, "level 0 decrypts again")
		sym.Assert(r1.DecryptBool(k1) == b, "level 1 decrypts again")
		copy(k0, bits("key0", 3))
		copy(k1, bits("key1", 16))
		// another ciphertext's words in the same object
		w0, w1 := words("ct0", 4), words("ct1", 17)
		copy(r0.P, w0)
		copy(r1.P, w1)
		sym.Assert(r0.DecryptBool(k0) == (phase(w0, k0) < 1<<31), "refilled level 0 ciphertext")
		sym.Assert(r1.DecryptBool(k1) == (phase(w1, k1) < 1<<31), "refilled level 1 ciphertext")
		in := []bool{b, !b, sym.Bool("bit")}
		for j, o := range bitutils.DecryptBits(bitutils.EncryptBits(in, alpha, k0), k0) {
			sym.Assert(o == in[j], "slice again")
		}
	}
}

// C02_again: three messages under changing moduli and key bits in the same objects.
func C02_again() {
	setLevel(params.Security128Bit)
	dims(2, 16)
	k := bits("key", 2)
	alpha := params.GetTLWELv0().ALPHA
	c := tlwe.NewTLWELv0()
	ms := []int{2, 4, 7, 16, 255, 256}
	sym.RandSymbolic(msgBound(256, 1, alpha))
	for i := 0; i < 3; i++ {
		m := ms[sym.Choose("modulus", len(ms))]
		msg := sym.IntIn("message", 0, m-1)
		r := c.EncryptLWEMessage(msg, m, alpha, k)
		sym.Assert(r.DecryptLWEMessage(m, k) == msg, "message again")
		copy(k, bits("key", 2))
	}
}

// C03_again: an operation, its operands changed in place, another operation: both
// results are right and the first stays.
func C03_again() {
	setLevel(params.Security128Bit)
	dims(4, 16)
	a, b := &tlwe.TLWELv0{P: words("a", 5)}, &tlwe.TLWELv0{P: words("b", 5)}
	key := words("key", 4)
	mul := torus(sym.U32("multiplier"))
	op1, op2 := sym.Choose("operation", 8), sym.Choose("operation", 8)
	r := lin(op1, a, b, mul)
	keep := clone(r.P)
	copy(a.P, words("a2", 5))
	copy(b.P, words("b2", 5))
	mul2 := torus(sym.U32("multiplier"))
	s := lin(op2, a, b, mul2)
	sym.Assert(phase(s.P, key) == linWant(op2, phase(a.P, key), phase(b.P, key), mul2), "phase of the result again")
	assertSame(r.P, keep, "earlier result unchanged")
	s.P[0]++
	assertSame(r.P, keep, "earlier result independent")
}

// C03_onto: the write-into sum with its output the first, the second or both operands.
func C03_onto() {
	setLevel(levels[quickOf([]int{0}, len(levels), "level")])
	n := params.GetTLWELv0().N
	a, b := &tlwe.TLWELv0{P: words("a", n+1)}, &tlwe.TLWELv0{P: words("b", n+1)}
	ka, kb := clone(a.P), clone(b.P)
	var out *tlwe.TLWELv0
	switch sym.Choose("output", 4) {
	case 0:
		a.AddAssign(b, a)
		out = a
	case 1:
		a.AddAssign(b, b)
		out = b
	case 2:
		a.AddAssign(a, a)
		out, kb = a, ka
	default:
		out = &tlwe.TLWELv0{P: words("stale", n+1)}
		a.AddAssign(b, out)
		assertSame(a.P, ka, "first operand unchanged")
		assertSame(b.P, kb, "second operand unchanged")
	}
	for i := range out.P {
		sym.Assert(out.P[i] == ka[i]+kb[i], "sum onto an operand")
	}
}

// C04_again: a gate, its operands refilled in place with other bits, the same or
// another gate; then a gate whose two operands are one ciphertext.
func C04_again() {
	setLevel(params.Security128Bit)
	n, N := 1, 16
	dims(n, N)
	gs := binaryGates()
	g1 := gs[sym.Choose("gate", 10)]
	g2 := gs[quickOf([]int{0, 4, 6}, 10, "gate2")]
	kp := keysFor("c04again", []torus{1})
	row := sym.Choose("row", 4)
	x, y := bit2(row)
	e := inputNoise()
	ca, cb := encWith(x, []torus{0x12345678}, e, kp.key0), encWith(y, []torus{0xfedcba98}, -e, kp.key0)
	r := g1.apply(ca, cb, kp.ck)
	keep := clone(r.P)
	row2 := row ^ (1 + sym.Choose("flip", 3))
	x, y = bit2(row2)
	copy(ca.P, encWith(x, []torus{0x9abcdef0}, -e, kp.key0).P)
	copy(cb.P, encWith(y, []torus{0x01010101}, e, kp.key0).P)
	r2 := g2.apply(ca, cb, kp.ck)
	assertBit(r2, g2.table[row2], kp.key0, bootBound(n, N), g2.name+" on refilled inputs")
	i := 0
	if x {
		i = 3
	}
	assertBit(g1.apply(ca, ca, kp.ck), g1.table[i], kp.key0, bootBound(n, N), g1.name+" of one ciphertext twice")
	// noisier than any fresh result may be, within what every gate of (c, c) tolerates
	// (XOR weighs them a+2b, so three times this must stay under 1/8 - 1/32)
	big := torus(0x7a00000)
	if sym.Choose("sign", 2) == 1 {
		big = -big
	}
	sym.Assert(bootBound(n, N) < 0x7a00000, "harness: the operand is noisier than a fresh result")
	cc := encWith(x, []torus{0x9abcdef0}, big, kp.key0)
	assertBit(g1.apply(cc, cc, kp.ck), g1.table[i], kp.key0, bootBound(n, N), g1.name+" of one noisy ciphertext twice")
	same := encWith(x, []torus{0x9abcdef0}, big, kp.key0)
	assertBit(g1.apply(cc, same, kp.ck), g1.table[i], kp.key0, bootBound(n, N), g1.name+" of two equal noisy ciphertexts")
	assertSame(cc.P, same.P, "the operand is unchanged")
	if g1.name == gs[0].name { // MUX, with two or three of its operands one object
		dd := encWith(!x, []torus{0x3c3c3c3c}, -big, kp.key0)
		bx := encWith(y, []torus{0x77777777}, e, kp.key0)
		want := func(s, a, b bool) bool { return s && a || !s && b }
		mux := func(c, a, b *gates.Ciphertext, bit bool, what string) {
			assertBit(gates.MUX(c, a, b, kp.ck), bit, kp.key0, bootBound(n, N), "MUX with "+what)
		}
		mux(bx, cc, cc, x, "one ciphertext for both choices")
		mux(bx, cc, same, x, "equal ciphertexts for both choices")
		mux(cc, cc, dd, want(x, x, !x), "the selector as first choice")
		mux(cc, dd, cc, want(x, !x, x), "the selector as second choice")
		mux(cc, cc, cc, x, "one ciphertext three times")
	}
	assertSame(r.P, keep, "earlier result unchanged")
	assertBit(r, g1.table[row], kp.key0, bootBound(n, N), g1.name)
}

// C05_repeats: batches in which pairs, single ciphertexts or both halves of a pair are
// the same objects; all gates; right results in own storage, and again after the
// objects were refilled in place.
func C05_repeats() {
	setLevel(params.Security128Bit)
	n, N := 1, 16
	dims(n, N)
	kp := keysFor("c05", []torus{1})
	g := batchGates()[sym.Choose("gate", 6)]
	base := sym.Choose("base", 4)
	row := [4]int{}
	objs := [][2]*gates.Ciphertext{fixedPair(0, 1, kp.key0), fixedPair(0, 2, kp.key0)}
	for round := 0; round < 2; round++ {
		for i := range objs {
			f := fixedPair((base+i+2*round+round)%4, 5*round+i, kp.key0)
			copy(objs[i][0].P, f[0].P)
			copy(objs[i][1].P, f[1].P)
			row[i] = (base + i + 2*round + round) % 4
		}
		in := [][2]*gates.Ciphertext{objs[0], objs[1], objs[0], {objs[1][0], objs[0][1]}, {objs[0][0], objs[0][0]}, {objs[0][1], objs[0][0]}, objs[1]}
		rows := []int{row[0], row[1], row[0], row[1]&2 | row[0]&1, row[0] >> 1 * 3, row[0]&1<<1 | row[0]>>1, row[1]}
		r := g.apply(in, kp.ck)
		sym.Assert(len(r) == len(in), g.name+": one result per pair")
		for i := range r {
			assertBit(r[i], g.table[rows[i]], kp.key0, bootBound(n, N), g.name+" with repeated ciphertexts")
		}
		all := make([][]torus, len(r))
		for i := range r {
			all[i] = clone(r[i].P)
		}
		for i := range r {
			for k := range r[i].P {
				r[i].P[k]++
			}
			for j := range r {
				if j != i {
					assertSame(r[j].P, all[j], g.name+": results of equal pairs do not share storage")
				}
			}
			copy(r[i].P, all[i])
		}
	}
}

// C06_refill: a table, a ciphertext and the closure's captured values changed in place
// between bootstraps on one evaluator, all five forms.
func C06_refill() {
	st := pbsSettings()
	s := st[quickOf([]int{0, 2}, len(st), "setting")]
	setLevel(s.l)
	n, N, m := s.n, s.N, s.m
	dims(n, N)
	kp := keysFor("c06n", []torus{1, 1, 1}[:n])
	ck := kp.ck
	ev := evaluator.NewEvaluator(N)
	gen := lut.NewGenerator(m)
	tab := gen.GenLookUpTable(func(x int) int { return 0 })
	vals := make([]int, m)
	f := func(x int) int { return vals[x] }
	ct := tlwe.NewTLWELv0()
	out := tlwe.NewTLWELv0()
	form := sym.Choose("form", 5)
	for round := 0; round < 3; round++ {
		x := (sym.Choose("message", 2) + round) % m
		for i := range vals {
			vals[i] = i*i + round + 1
		}
		copy(ct.P, encMessage(x, m, fixedMask(n, x+round), torus(sym.IntIn("noise", -1<<16, 1<<16)), kp.key0).P)
		gen.GenLookUpTableAssign(f, tab)
		var r *tlwe.TLWELv0
		switch form {
		case 0:
			r = ev.BootstrapFunc(ct, f, m, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
		case 1:
			ev.BootstrapFuncAssign(ct, f, m, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset, out)
			r = out
		case 2:
			r = ev.BootstrapLUT(ct, tab, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
		case 3:
			ev.BootstrapLUTAssign(ct, tab, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset, out)
			r = out
		case 4:
			r = ev.BootstrapLUTTemp(ct, tab, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
		}
		sym.Assert(r.DecryptLWEMessage(m, kp.key0) == reduce(vals[x], m), "function value after refilling")
	}
}

// C06_keys: two cloud keys (other secret keys, same evaluator and tables) in turn, and
// one key object whose contents are replaced.
func C06_keys() {
	setLevel(params.SecurityUint2)
	n, N, m := 2, 64, 4
	dims(n, N)
	ka, kb := keysFor("c06ka", []torus{1, 0}), keysFor("c06kb", []torus{0, 1})
	ev := evaluator.NewEvaluator(N)
	f := affine(3, 2)
	tab := lut.NewGenerator(m).GenLookUpTable(f)
	shared := cloudkey.NewCloudKeyNoKSK()
	form := sym.Choose("form", 3)
	x := sym.Choose("message", m)
	for i, kp := range []*ringKeys{ka, kb, ka} {
		ck := kp.ck
		if form == 2 {
			// the same slices hold another key now
			copy(shared.BootstrappingKey, ck.BootstrappingKey)
			copy(shared.KeySwitchingKey, ck.KeySwitchingKey)
			ck = shared
		}
		ct := encMessage(x, m, fixedMask(n, i), torus(sym.IntIn("noise", -1<<16, 1<<16)), kp.key0)
		var r *tlwe.TLWELv0
		if form == 0 {
			r = ev.BootstrapFunc(ct, f, m, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
		} else {
			r = ev.BootstrapLUT(ct, tab, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
		}
		sym.Assert(r.DecryptLWEMessage(m, kp.key0) == reduce(f(x), m), "function value under changing keys")
	}
}

// C07_again: one generator, tables of changing functions (one closure whose captured
// values change) into fresh and existing tables.
func C07_again() {
	setLevel(params.Security128Bit)
	N := []int{32, 1024}[sym.Choose("N", 2)]
	dims(2, N)
	m := []int{2, 3, 5, 8, 16}[sym.Choose("modulus", 5)]
	g := lut.NewGenerator(m)
	fw, fi := make([]torus, m), make([]int, m)
	full := func(x int) torus { return fw[x] }
	in := func(x int) int { return fi[x] }
	a, b := dirtyTable(N), dirtyTable(N)
	for round := 0; round < 2; round++ {
		copy(fw, words("f", m))
		for x := range fi {
			fi[x] = sym.IntIn("f", -3*m, 3*m)
		}
		full1, int1 := g.GenLookUpTableFull(full), g.GenLookUpTable(in)
		g.GenLookUpTableFullAssign(full, a)
		g.GenLookUpTableAssign(in, b)
		for _, t := range []*lut.LookUpTable{full1, a} {
			checkLayout(t, m, N, func(x int, v torus) bool { return near(v-fw[x], 1) }, "full table again")
		}
		for _, t := range []*lut.LookUpTable{int1, b} {
			checkLayout(t, m, N, func(x int, v torus) bool { return atFraction(v, reduce(fi[x], m), 2*m) }, "integer table again")
		}
		// tables swap their generators
		a, b = b, a
	}
}

// C08_again: one encoder, several messages and values in turn; two encoders in turn.
func C08_again() {
	ms := []int{2, 3, 8, 100, 256}
	m1, m2 := ms[sym.Choose("modulus", 5)], ms[sym.Choose("modulus", 5)]
	es := []*lut.Encoder{lut.NewEncoder(m1), lut.NewEncoder(m2)}
	for i := 0; i < 4; i++ {
		e, m := es[i%2], []int{m1, m2}[i%2]
		x := sym.IntIn("message", 0, m-1)
		v := e.Encode(x)
		sym.Assert(atFraction(v, x, 2*m), "message times scale again")
		half := (1 << 32) / (4 * m)
		d := sym.IntIn("distance", -half+2, half-2)
		sym.Assert(e.Decode(v+torus(d)) == x, "nearest message again")
		sym.Assert(e.DecodeBool(v+torus(d)) == (x != 0), "true exactly for non-zero again")
	}
}

// C09_again: one digit buffer and one operand used three times, changing levels and
// contents between.
func C09_again() {
	a := make([]torus, 4)
	out := make([]poly.Poly, 16)
	for i := range out {
		out[i] = poly.Poly{Coeffs: words("stale", 4)}
	}
	for round := 0; round < 3; round++ {
		chooseLevelFew()
		dims(4, 16)
		offset := cloudkey.NewCloudKeyNoKSK().DecompositionOffset
		p := params.GetTRGSWLv1()
		copy(a, words("coefficient", 4))
		poly.DecomposePolyAssign(a, int(p.BGBIT), p.L, offset, out[:p.L])
		for j := range a {
			gadget(a[j], func(i int) torus { return out[i].Coeffs[j] })
		}
	}
}

// C10_again: one evaluator of each kind, the gadget ciphertext and the inputs refilled
// in place between external products and selections: words equal those of a fresh
// evaluator on fresh objects.
func C10_again() {
	setLevel(levels[quickOf([]int{0, 4}, len(levels), "level")])
	N := 16
	dims(2, N)
	kp := keysFor("c10again", []torus{1, 0})
	offset := kp.ck.DecompositionOffset
	g := &trgsw.TRGSWLv1FFT{}
	for i := range kp.ck.BootstrappingKey[0].TRLWEFFT {
		r := kp.ck.BootstrappingKey[0].TRLWEFFT[i]
		r.A, r.B = r.A.Copy(), r.B.Copy()
		g.TRLWEFFT = append(g.TRLWEFFT, r)
	}
	in0, in1 := ringWords("first", N), ringWords("second", N)
	pe, ev := poly.NewEvaluator(N), evaluator.NewEvaluator(N)
	out := ringWords("stale", N)
	op := sym.Choose("operation", 4)
	for round := 0; round < 3; round++ {
		src := kp.ck.BootstrappingKey[round%2]
		for i := range g.TRLWEFFT {
			copy(g.TRLWEFFT[i].A.Coeffs, src.TRLWEFFT[i].A.Coeffs)
			copy(g.TRLWEFFT[i].B.Coeffs, src.TRLWEFFT[i].B.Coeffs)
		}
		f0, f1 := cloneR(in0), cloneR(in1)
		var got, want *trlwe.TRLWELv1
		switch op {
		case 0:
			got, want = trgsw.ExternalProductWithFFT(g, in0, offset, pe), trgsw.ExternalProductWithFFT(src, f0, offset, poly.NewEvaluator(N))
		case 1:
			got, want = trgsw.CMUX(in0, in1, g, offset, pe), trgsw.CMUX(f0, f1, src, offset, poly.NewEvaluator(N))
		case 2:
			got, want = out, ringWords("stale", N)
			ev.ExternalProductAssign(g, in0, offset, got)
			evaluator.NewEvaluator(N).ExternalProductAssign(src, f0, offset, want)
		case 3:
			got, want = out, ringWords("stale", N)
			ev.CMuxAssign(g, in0, in1, offset, got)
			evaluator.NewEvaluator(N).CMuxAssign(src, f0, f1, offset, want)
		}
		assertRing(got, want, "same as on fresh objects")
		copy(in0.A, words("first", N))
		copy(in1.B, words("second", N))
		copy(in0.B, in1.A)
	}
}

// C11_again: ciphertext, test vector and bootstrapping key refilled in place between
// rotations on one evaluator.
func C11_again() {
	setLevel(levels[quickOf([]int{0, 4}, len(levels), "level")])
	N, n := 16, 2
	dims(n, N)
	ks := []*ringKeys{keysFor("c11a", []torus{1, 0}), keysFor("c11b", []torus{1, 1})}
	bk := append([]*trgsw.TRGSWLv1FFT(nil), ks[0].ck.BootstrappingKey...)
	offset := ks[0].ck.DecompositionOffset
	pe, ev := poly.NewEvaluator(N), evaluator.NewEvaluator(N)
	tv := ringWords("testvector", N)
	ct := tlwe.NewTLWELv0()
	out := ringWords("stale", N)
	form := sym.Choose("form", 2)
	for round := 0; round < 3; round++ {
		for i := range ct.P {
			ct.P[i] = torus(uint32(i+3*round+1) * 0x29ae3b71)
		}
		kp := ks[round%2]
		copy(bk, kp.ck.BootstrappingKey)
		c2, t2 := &tlwe.TLWELv0{P: clone(ct.P)}, cloneR(tv)
		var got, want *trlwe.TRLWELv1
		if form == 0 {
			got, want = trgsw.BlindRotate(ct, tv, bk, offset, pe), trgsw.BlindRotate(c2, t2, kp.ck.BootstrappingKey, offset, poly.NewEvaluator(N))
		} else {
			got, want = out, ringWords("stale", N)
			ev.BlindRotateAssign(ct, tv, bk, offset, got)
			evaluator.NewEvaluator(N).BlindRotateAssign(c2, t2, kp.ck.BootstrappingKey, offset, want)
		}
		assertRing(got, want, "same as on fresh objects")
		copy(tv.A, words("testvector", N))
		copy(tv.B, words("testvector", N))
	}
}

// C12_again: rotations of one polynomial refilled in place, changing k and entry point
// on one evaluator; results in pooled buffers are checked before the next call.
func C12_again() {
	n := 16
	pe := poly.NewEvaluator(n)
	a := words("a", n)
	r := words("stale", n)
	for round := 0; round < 3; round++ {
		k := []int{0, 5, n + 3, -7, n, -1}[sym.Choose("k", 6)]
		form := sym.Choose("form", 3)
		o := r
		switch form {
		case 0:
			poly.PolyMulWithXKInPlace(a, k, r)
		case 1:
			pe.PolyMulWithXKDirect(a, k, r)
		default:
			o = pe.PolyMulWithXK(a, k)
		}
		checkRotation(a, o, k)
		copy(a, words("a", n))
	}
}

// C13_again: extraction from one ring ciphertext refilled in place.
func C13_again() {
	setLevel(params.Security128Bit)
	n := 16
	dims(n, n)
	ct := ringWords("ct", n)
	out := &tlwe.TLWELv1{P: words("stale", n+1)}
	var earlier []torus
	var first *tlwe.TLWELv1
	for round := 0; round < 3; round++ {
		k := []int{0, 1, 7, n - 1}[sym.Choose("index", 4)]
		x, y := trlwe.SampleExtractIndex(ct, k), trlwe.SampleExtractIndex2(ct, k)
		trlwe.SampleExtractIndexAssign(ct, k, out)
		for i := 0; i < n; i++ {
			if i <= k {
				sym.Assert(x.P[i] == ct.A[k-i], "mask word again")
			} else {
				sym.Assert(near(x.P[i]+ct.A[n+k-i], 1), "negated mask word again")
			}
		}
		sym.Assert(x.P[n] == ct.B[k], "body again")
		assertSame(y.P, x.P, "dimension-checked form again")
		assertSame(out.P, x.P, "in-place form again")
		if round == 0 {
			first, earlier = x, clone(x.P)
		}
		copy(ct.A, words("a", n))
		copy(ct.B, words("b", n))
	}
	assertSame(first.P, earlier, "earlier sample unchanged")
}

// C14_again: source and key-switching key refilled in place, changing between two
// keys; both forms.
func C14_again() {
	chooseLevelFew()
	n, N := 2, 16
	dims(n, N)
	ks := []*ringKeys{keysFor("c14a", []torus{1, 0}), keysFor("c14b", []torus{0, 1})}
	ksk := append([]*tlwe.TLWELv0(nil), ks[0].ck.KeySwitchingKey...)
	src := tlwe.NewTLWELv1()
	for i := range src.P {
		src.P[i] = torus(uint32(i+1) * 2654435761)
	}
	out := &tlwe.TLWELv0{P: words("stale", n+1)}
	e := torus(8*params.KSKAlpha()*4294967296) + 2
	bound := torus(N) * (kskHalf() + torus(params.GetTRGSWLv1().IKS_T)*e)
	var first *tlwe.TLWELv0
	var keep []torus
	for round := 0; round < 3; round++ {
		kp := ks[round%2]
		copy(ksk, kp.ck.KeySwitchingKey)
		src.P[3*round] = torus(sym.U32("word"))
		src.P[N] = torus(sym.U32("body"))
		r := trgsw.IdentityKeySwitching(src, ksk)
		trgsw.IdentityKeySwitchingAssign(src, ksk, out)
		sym.Assert(near(phase(r.P, kp.key0)-phase(src.P, kp.key1), bound), "phase preserved again")
		assertSame(out.P, r.P, "in-place form again")
		if round == 0 {
			first, keep = r, clone(r.P)
		}
	}
	assertSame(first.P, keep, "earlier result unchanged")
}

// C15_again: factors refilled in place between products on one evaluator; and a
// factor used as its own partner.
func C15_again() {
	N := 16
	e := poly.NewEvaluator(N)
	a, b, o := polyOf(words("a", N)), polyOf(bits("b", N)), polyOf(words("o", N))
	for round := 0; round < 3; round++ {
		want := ringMul(a.Coeffs, b.Coeffs)
		ko := clone(o.Coeffs)
		p := e.MulPoly(a, b)
		var sign torus
		switch sym.Choose("form", 3) {
		case 0:
			e.MulPolyAssign(a, b, o)
			ko, sign = make([]torus, N), 1
		case 1:
			e.MulAddPolyAssign(a, b, o)
			sign = 1
		case 2:
			e.MulSubPolyAssign(a, b, o)
			sign--
		}
		for i := range want {
			sym.Assert(p.Coeffs[i] == want[i], "product again")
			sym.Assert(o.Coeffs[i] == ko[i]+sign*want[i], "product onto again")
		}
		copy(a.Coeffs, words("a", N))
		copy(b.Coeffs, bits("b", N))
	}
	q := polyOf(small("q", N, 4))
	sq := e.MulPoly(q, q)
	want := ringMul(q.Coeffs, q.Coeffs)
	for i := range want {
		sym.Assert(sq.Coeffs[i] == want[i], "square")
	}
}

// C16_again: a Fourier polynomial and a polynomial refilled in place between transforms
// on one evaluator.
func C16_again() {
	N := degrees[sym.Choose("degree", 4)]
	e := poly.NewEvaluator(N)
	p, q := polyOf(sparse("p", N)), polyOf(sparse("stale", N))
	f := e.NewFourierPoly()
	for round := 0; round < 3; round++ {
		if sym.Choose("form", 2) == 0 {
			e.ToFourierPolyAssign(p, f)
		} else {
			g := e.ToFourierPoly(p)
			f.CopyFrom(g)
		}
		switch sym.Choose("back", 3) {
		case 0:
			e.ToPolyAssign(f, q)
		case 1:
			q = e.ToPoly(f)
		case 2:
			e.ToPolyAssignUnsafe(f, q)
		}
		assertSame(q.Coeffs, p.Coeffs, "round trip again")
		copy(p.Coeffs, sparse("p", N))
	}
}

// C17_again: a second cloud key of the same secret key object after its contents were
// changed in place.
func C17_again() {
	chooseLevelFew()
	n, N := 1, 16
	dims(n, N)
	sk := &key.SecretKey{KeyLv0: bits("key0", n), KeyLv1: bits("key1", N)}
	sym.RandSymbolic(6)
	cloudkey.NewCloudKey(sk)
	copy(sk.KeyLv0, bits("key0", n))
	copy(sk.KeyLv1, bits("key1", N))
	ck := cloudkey.NewCloudKey(sk)
	p := params.GetTRGSWLv1()
	base := 1 << uint(p.BASEBIT)
	e := torus(6*params.KSKAlpha()*4294967296) + 2
	for i := 0; i < N; i++ {
		for j := 0; j < p.IKS_T; j++ {
			c := ck.KeySwitchingKey[base*p.IKS_T*i+base*j+1]
			want := sk.KeyLv1[i] * (torus(1) << uint(32-(j+1)*p.BASEBIT))
			sym.Assert(near(phase(c.P, sk.KeyLv0)-want, e), "digit times key bit over base^position again")
		}
	}
	checkGadget(gadgetRows(ck.BootstrappingKey[0], poly.NewEvaluator(N)), sk.KeyLv0[0], sk.KeyLv1, torus(6*params.BSKAlpha()*4294967296)+64, "gadget encryption of the key bit again")
}

// C18_again: three plaintexts in turn under one public key, then the key's zero
// encryptions replaced in place.
func C18_again() {
	setLevel(params.Security128Bit)
	n := 2
	dims(n, 16)
	sk := bits("key", n)
	alpha := 1e-4
	sym.RandSymbolic(8)
	pk := proxyreenc.NewPublicKeyLv0WithParams(sk, 1, alpha)
	var first *tlwe.TLWELv0
	var keep []torus
	for round := 0; round < 3; round++ {
		zs := pkWords(pk)
		sym.ResetNorms()
		pt := []float64{0.125, -0.3, 0.25}[round]
		ct := pk.EncryptF64(pt, alpha)
		ns := sym.Norms()
		sym.Assert(len(ns) == 1, "one fresh noise draw again")
		sym.Assert(combination(ct.P, zs, torus(int64(pt*4294967296))+torus(int64(ns[0]*alpha*4294967296)), 2), "combination again")
		if round == 0 {
			first, keep = ct, clone(ct.P)
		} else {
			copy(sk, bits("key", n))
			copy(pk.Encryptions[0].P, words("zero encryption", n+1))
		}
	}
	assertSame(first.P, keep, "earlier ciphertext unchanged")
}

// C19_again: ciphertexts refilled in place and re-encrypted under two keys in turn,
// then the re-encryption key's entries replaced in place.
func C19_again() {
	setLevel(params.Security128Bit)
	n := 2
	dims(n, 16)
	bb, t := 2, 3
	sym.RandSymbolic(6)
	alpha := 1e-6
	from, to := bits("from", n), bits("to", n)
	from2, to2 := bits("from2", n), bits("to2", n)
	rk := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(from, to, alpha, bb, t)
	rk2 := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(from2, to2, alpha, bb, t)
	e := torus(6*alpha*4294967296) + 2
	bound := torus(n) * (torus(1)<<uint(31-bb*t) + torus(t)*e)
	ct := tlwe.NewTLWELv0()
	var first *tlwe.TLWELv0
	var keep []torus
	for round := 0; round < 3; round++ {
		copy(ct.P, words("ct", n+1))
		k, f, g := rk, from, to
		if round == 1 {
			k, f, g = rk2, from2, to2
		}
		if round == 2 {
			copy(rk.KeyEncryptions, rk2.KeyEncryptions)
			f, g = from2, to2
		}
		out := proxyreenc.ReencryptTLWELv0(ct, k)
		sym.Assert(near(phase(out.P, g)-phase(ct.P, f), bound), "phase preserved again")
		if round == 0 {
			first, keep = out, clone(out.P)
		}
	}
	assertSame(first.P, keep, "earlier result unchanged")
}

// C20_again: after any other level was in use, every getter answers for the level in
// force (all ordered pairs of levels, unknown values included).
func C20_again() {
	realDims()
	all := append([]params.SecurityLevel{-1, 5, 1 << 20}, levels...)
	ask := func() [8]float64 {
		l0, l1, r1, g1 := params.GetTLWELv0(), params.GetTLWELv1(), params.GetTRLWELv1(), params.GetTRGSWLv1()
		ok := 0.0
		if l1.N == r1.N && r1.N == g1.N && l1.ALPHA == r1.ALPHA && r1.ALPHA == g1.ALPHA && params.KSKAlpha() == l0.ALPHA && params.BSKAlpha() == l1.ALPHA {
			ok = 1
		}
		return [8]float64{ok, float64(l0.N), l0.ALPHA, float64(l1.N), l1.ALPHA, float64(g1.L), float64(g1.BGBIT), float64(params.GetBlockCount())}
	}
	a, b := all[sym.Choose("earlier level", len(all))], all[sym.Choose("level", len(all))]
	params.CurrentSecurityLevel = a
	x := ask()
	ia := params.SecurityInfo()
	params.CurrentSecurityLevel = b
	y := ask()
	sym.Assert(y[0] == 1, "one coherent set after a level change")
	want := 128
	for _, d := range docs {
		if d.level == b {
			sym.Assert(d.n == 0 || y[1] == float64(d.n), "documented LWE dimension after a level change")
			sym.Assert(y[3] == float64(d.N), "documented ring dimension after a level change")
			sym.Assert(closeTo(y[2], d.alpha0, d.rel) && closeTo(y[4], d.alp1, d.rel), "documented noise after a level change")
			want = 0
		}
	}
	if want == 128 {
		params.CurrentSecurityLevel = params.Security128Bit
		sym.Assert(ask() == y, "unknown means 128-bit after a level change")
	}
	params.CurrentSecurityLevel = a
	sym.Assert(ask() == x && params.SecurityInfo() == ia, "back at the earlier level")
}

// C21_owner: the split of a value belongs to the caller: changing it does not change
// what the value splits into next (values 0, 1, 7, 128, 254, 255 and all ones, each width).
func C21_owner() {
	v := []uint64{0, 1, 7, 128, 254, 255, 1<<64 - 1}[sym.Choose("value", 7)]
	k := sym.Choose("width", 5)
	split := func() []bool {
		switch k {
		case 0:
			return bitutils.U8ToBits(uint8(v))
		case 1:
			return bitutils.U16ToBits(uint16(v))
		case 2:
			return bitutils.U32ToBits(uint32(v))
		case 3:
			return bitutils.U64ToBits(v)
		}
		return bitutils.ToBits(v, 40)
	}
	w := []int{8, 16, 32, 64, 40}[k]
	a, b := split(), split()
	i := sym.Choose("bit", 8)
	a[i], a[w-1] = !a[i], !a[w-1]
	if i == w-1 {
		a[i] = !a[i]
	}
	checkSplit(b, v, w)
	checkSplit(split(), v, w)
}

// C21_again: bits split twice and joined from slices refilled in place.
func C21_again() {
	v, w := sym.U64("v"), sym.U64("w")
	a := bitutils.U64ToBits(v)
	b := bitutils.U64ToBits(w)
	sym.Assert(bitutils.ConvertU64(a) == v, "first value intact")
	sym.Assert(bitutils.ConvertU64(b) == w, "second value")
	copy(a, b)
	sym.Assert(bitutils.ConvertU64(a) == w, "refilled slice")
	x := bitutils.U32ToBits(uint32(v))
	y := bitutils.U32ToBits(uint32(w))
	sym.Assert(bitutils.ConvertU32(x) == uint32(v) && bitutils.ConvertU32(y) == uint32(w), "two values")
	copy(x, y)
	sym.Assert(bitutils.ConvertU32(x) == uint32(w), "refilled slice")
}

// C22_wide: deviations up to 3 and draws to 16 (noise far beyond the unit interval):
// the noise wraps around the torus and is not clamped.
func C22_wide() {
	dev := []float64{0.0625, 0.3, 0.5, 1, 3}[sym.Choose("deviation", 5)]
	sym.RandSymbolic(16)
	rng := rand.New(rand.NewSource(int64(sym.IntIn("seed", 0, 1<<40))))
	for i := 0; i < 2; i++ {
		sym.ResetNorms()
		mu := torus(sym.U32("mean"))
		got := utils.GaussianTorus(mu, dev, rng)
		ns := sym.Norms()
		sym.Assert(len(ns) == 1, "one draw")
		want := torus(int64(ns[0] * dev * 4294967296))
		sym.Assert(near(got-mu-want, torus(dev)+1), "mean plus draw times deviation, wrapped")
		sym.ResetNorms()
		m := sym.F64In("mean", -1, 1)
		got = utils.GaussianF64(m, dev, rng)
		ns = sym.Norms()
		sym.Assert(len(ns) == 1, "one draw")
		want = torus(int64(ns[0] * dev * 4294967296))
		sym.Assert(near(got-utils.F64ToTorus(m)-want, torus(dev)+1), "mean plus draw times deviation, wrapped")
	}
}

// C22_regions: deviations up to 3, draws in [-16,16] in slices of a quarter.
func C22_regions() {
	dev := []float64{0.03, 0.0625, 0.3, 0.5, 1, 3}[sym.Choose("deviation", 6)]
	lo := -16 + 0.25*float64(sym.Choose("draw region", 128))
	sym.RandSymbolicIn(lo, lo+0.25)
	rng := rand.New(rand.NewSource(int64(sym.IntIn("seed", 0, 1<<40))))
	sym.ResetNorms()
	var got torus
	if sym.Choose("form", 2) == 0 {
		mu := torus(sym.U32("mean"))
		got = utils.GaussianTorus(mu, dev, rng) - mu
	} else {
		m := sym.F64In("mean", -1, 1)
		got = utils.GaussianF64(m, dev, rng) - utils.F64ToTorus(m)
	}
	ns := sym.Norms()
	sym.Assert(len(ns) == 1, "one draw")
	want := torus(int64(ns[0] * dev * 4294967296))
	sym.Assert(near(got-want, torus(dev)+1), "mean plus draw times deviation, wrapped")
}

// C22_again: conversions of changing slices.
func C22_again() {
	in := []float64{sym.F64In("d", -4, 4), sym.F64In("d", -4, 4)}
	a := utils.F64ToTorusVec(in)
	a0, a1 := a[0], a[1]
	in[0], in[1] = sym.F64In("d", -4, 4), sym.F64In("d", -4, 4)
	b := utils.F64ToTorusVec(in)
	for i := range b {
		sym.Assert(b[i] == torus(int64(in[i]*4294967296)), "element-wise again")
	}
	sym.Assert(a[0] == a0 && a[1] == a1, "earlier result unchanged")
}

// C25_again: one ring ciphertext and key object, refilled in place between encryptions
// and decryptions.
func C25_again() {
	chooseLevelFew()
	N := 16
	dims(2, N)
	k := bits("ringkey", N)
	pe := poly.NewEvaluator(N)
	alpha := 1e-3
	sym.RandSymbolic((0.125 - 1.0/1048576) / alpha)
	c := trlwe.NewTRLWELv1()
	bs := make([]bool, N)
	for round := 0; round < 3; round++ {
		for i := range bs {
			bs[i] = (i+round)%3 == 1
		}
		bs[round] = sym.Bool("bit")
		r := c.EncryptBool(bs, alpha, k, pe)
		got := r.DecryptBool(k, pe)
		for i := range got {
			sym.Assert(got[i] == bs[i], "bit again")
		}
		// another encryption's words in the same object
		for i := range bs {
			bs[i] = !bs[i]
		}
		o := trlwe.NewTRLWELv1().EncryptBool(bs, alpha, k, pe)
		copy(r.A, o.A)
		copy(r.B, o.B)
		got = r.DecryptBool(k, pe)
		for i := range got {
			sym.Assert(got[i] == bs[i], "bit of a refilled ciphertext")
		}
		copy(k, bits("ringkey", N))
	}
}

// C06_alike: two functions of one literal that differ on a single message (every one of
// them), evaluated on that message one after the other and back, every two forms.
func C06_alike() {
	setLevel(params.SecurityUint2)
	m := []int{4, 8, 3}[quickOf([]int{0, 1}, 3, "modulus")]
	n, N := 2, 16*m
	if m == 3 {
		N = 64
	}
	dims(n, N)
	kp := keysFor("c06alike"+itoa(N), []torus{1, 1})
	ev := evaluator.NewEvaluator(N)
	x := sym.Choose("message", m)
	d := 1 + sym.Choose("difference", m-1)
	fs := []func(int) int{}
	for i := 0; i < 2; i++ {
		by := i * d // a variable of its own per round, under any language version
		fs = append(fs, func(y int) int {
			if y == x {
				return y + by
			}
			return y
		})
	}
	f1, f2 := sym.Choose("form", 5), 0
	if m == 4 || sym.Thorough() {
		f2 = sym.Choose("second form", 5)
	} else {
		f2 = f1
	}
	for k := 0; k < 3; k++ {
		ct := encMessage(x, m, fixedMask(n, k), torus(sym.IntIn("noise", -1<<16, 1<<16)), kp.key0)
		r := pbsForm(ev, []int{f1, f2, f1}[k], ct, fs[k%2], m, kp)
		sym.Assert(r.DecryptLWEMessage(m, kp.key0) == reduce(fs[k%2](x), m), "value of its own function")
	}
}
