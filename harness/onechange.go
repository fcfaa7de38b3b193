package harness

import (
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"verifharness/sym"
)

// The harnesses of this file change one word of one operand in place, at every
// position, and leave everything else: the next result is that of the operands as they
// are now. The word is arbitrary in its low 16 bits.

func mixed(n, seed int) []torus {
	r := make([]torus, n)
	for i := range r {
		v := uint32(seed*131+i+1) * 2654435761
		r[i] = torus(v ^ v>>15)
	}
	return r
}

func mixedRing(N, seed int) *trlwe.TRLWELv1 {
	return &trlwe.TRLWELv1{A: mixed(N, seed), B: mixed(N, seed+1)}
}

// pickCell chooses one word of the operands, makes its low half arbitrary and returns
// its place.
func pickCell(ops ...[]torus) *torus {
	o := ops[sym.Choose("operand", len(ops))]
	c := &o[sym.Choose("position", len(o))]
	*c = *c&^0xffff + torus(sym.IntIn("low half", 0, 0xffff))
	return c
}

// oneChange runs an operation, changes the word, runs it again and changes the word
// back; each time the result is that of fresh objects, and the first and last agree.
func oneChange(cell *torus, run, fresh func() []torus, label string) {
	var first []torus
	for round := 0; round < 3; round++ {
		want := fresh()
		got := run()
		assertSame(got, want, label)
		if round == 0 {
			first = clone(got)
		}
		if round == 2 {
			assertSame(got, first, label+", changed back")
		}
		if round == 0 {
			*cell += 1 << 30
		} else {
			*cell -= 1 << 30
		}
	}
}

func flat(c *trlwe.TRLWELv1) []torus { return append(clone(c.A), c.B...) }

func copyG(g *trgsw.TRGSWLv1FFT) *trgsw.TRGSWLv1FFT {
	r := &trgsw.TRGSWLv1FFT{}
	for _, t := range g.TRLWEFFT {
		t.A, t.B = t.A.Copy(), t.B.Copy()
		r.TRLWEFFT = append(r.TRLWEFFT, t)
	}
	return r
}

// C10_onechange: external products and selections, ring dimension 16, one word of an
// input changed between calls, every position, all four operations.
func C10_onechange() {
	setLevel(levels[quickOf([]int{0, 4}, len(levels), "level")])
	N := 16
	dims(2, N)
	kp := keysFor("c10again", []torus{1, 0})
	offset := kp.ck.DecompositionOffset
	g := kp.ck.BootstrappingKey[0]
	in0, in1 := mixedRing(N, 1), mixedRing(N, 3)
	op := sym.Choose("operation", 4)
	ops := [][]torus{in0.A, in0.B}
	if op%2 == 1 {
		ops = append(ops, in1.A, in1.B)
	}
	cell := pickCell(ops...)
	do := func(g *trgsw.TRGSWLv1FFT, in0, in1 *trlwe.TRLWELv1, pe *poly.Evaluator, ev *evaluator.Evaluator) []torus {
		out := mixedRing(N, 9)
		switch op {
		case 0:
			out = trgsw.ExternalProductWithFFT(g, in0, offset, pe)
		case 1:
			out = trgsw.CMUX(in0, in1, g, offset, pe)
		case 2:
			ev.ExternalProductAssign(g, in0, offset, out)
		case 3:
			ev.CMuxAssign(g, in0, in1, offset, out)
		}
		return flat(out)
	}
	pe, ev := poly.NewEvaluator(N), evaluator.NewEvaluator(N)
	oneChange(cell, func() []torus { return do(g, in0, in1, pe, ev) }, func() []torus {
		return do(copyG(g), cloneR(in0), cloneR(in1), poly.NewEvaluator(N), evaluator.NewEvaluator(N))
	}, "one word changed")
}

// C10_onekey: the same with one coefficient of the gadget ciphertext changed (every row,
// both halves, every coefficient).
func C10_onekey() {
	setLevel(levels[quickOf([]int{0}, len(levels), "level")])
	N := 16
	dims(2, N)
	kp := keysFor("c10again", []torus{1, 0})
	offset := kp.ck.DecompositionOffset
	g := copyG(kp.ck.BootstrappingKey[0])
	in0, in1 := mixedRing(N, 1), mixedRing(N, 3)
	op := sym.Choose("operation", 4)
	row := g.TRLWEFFT[sym.Choose("row", len(g.TRLWEFFT))]
	c := row.A.Coeffs
	if sym.Choose("half", 2) == 1 {
		c = row.B.Coeffs
	}
	at := sym.Choose("coefficient", len(c))
	pe, ev := poly.NewEvaluator(N), evaluator.NewEvaluator(N)
	do := func(g *trgsw.TRGSWLv1FFT, pe *poly.Evaluator, ev *evaluator.Evaluator) []torus {
		out := mixedRing(N, 9)
		switch op {
		case 0:
			out = trgsw.ExternalProductWithFFT(g, in0, offset, pe)
		case 1:
			out = trgsw.CMUX(in0, in1, g, offset, pe)
		case 2:
			ev.ExternalProductAssign(g, in0, offset, out)
		case 3:
			ev.CMuxAssign(g, in0, in1, offset, out)
		}
		return flat(out)
	}
	old := c[at]
	for round := 0; round < 3; round++ {
		want := do(copyG(g), poly.NewEvaluator(N), evaluator.NewEvaluator(N))
		assertSame(do(g, pe, ev), want, "one key coefficient changed")
		c[at] += 1 << 28
		if round == 1 {
			c[at] = old
		}
	}
}

// C11_onechange: blind rotations, LWE dimension 3, one word of the ciphertext or the
// test vector changed between calls, every position, both implementations and the
// batch form.
func C11_onechange() {
	setLevel(levels[quickOf([]int{0, 4}, len(levels), "level")])
	n, N := 3, 16
	dims(n, N)
	kp := keysFor("c11one", []torus{1, 0, 1})
	bk, offset := kp.ck.BootstrappingKey, kp.ck.DecompositionOffset
	ct, tv := &tlwe.TLWELv0{P: mixed(n+1, 5)}, mixedRing(N, 7)
	form := sym.Choose("form", 3)
	cell := pickCell(ct.P, tv.A, tv.B)
	do := func(ct *tlwe.TLWELv0, tv *trlwe.TRLWELv1, pe *poly.Evaluator, ev *evaluator.Evaluator) []torus {
		switch form {
		case 0:
			return flat(trgsw.BlindRotate(ct, tv, bk, offset, pe))
		case 1:
			out := mixedRing(N, 9)
			ev.BlindRotateAssign(ct, tv, bk, offset, out)
			return flat(out)
		}
		r := trgsw.BatchBlindRotate([]*tlwe.TLWELv0{ct, ct}, tv, bk, offset)
		return append(flat(r[0]), flat(r[1])...)
	}
	pe, ev := poly.NewEvaluator(N), evaluator.NewEvaluator(N)
	oneChange(cell, func() []torus { return do(ct, tv, pe, ev) }, func() []torus {
		return do(&tlwe.TLWELv0{P: clone(ct.P)}, cloneR(tv), poly.NewEvaluator(N), evaluator.NewEvaluator(N))
	}, "one word changed")
}

// C15_onechange: products, one coefficient of a factor changed between calls on one
// evaluator, every position and entry point (the other factor has small coefficients).
func C15_onechange() {
	N := 16
	a, b := polyOf(mixed(N, 1)), polyOf(make([]torus, N))
	for i := range b.Coeffs {
		b.Coeffs[i] = torus(i*i%3) - 1
	}
	form := sym.Choose("form", 4)
	which := sym.Choose("operand", 2)
	at := sym.Choose("position", N)
	e := poly.NewEvaluator(N)
	for round := 0; round < 3; round++ {
		a.Coeffs[0] += 1 << 20 * torus(round%2)
		if which == 0 {
			a.Coeffs[at] = mixed(N, 1)[at] + torus(round%2)<<30 + torus(sym.IntIn("low half", 0, 0xffff))
		} else {
			b.Coeffs[at] += torus(2 - 3*(round%2))
		}
		want := ringMul(a.Coeffs, b.Coeffs)
		o := polyOf(mixed(N, 9))
		ko := clone(o.Coeffs)
		switch form {
		case 0:
			o = e.MulPoly(a, b)
		case 1:
			e.MulPolyAssign(a, b, o)
		case 2:
			e.MulAddPolyAssign(a, b, o)
			for i := range want {
				want[i] += ko[i]
			}
		case 3:
			e.MulSubPolyAssign(a, b, o)
			for i := range want {
				want[i] = ko[i] - want[i]
			}
		}
		assertSame(o.Coeffs, want, "product after one coefficient changed")
	}
}

// C16_onechange: transforms there and back, one coefficient changed between calls on
// one evaluator, every position and pair of entry points.
func C16_onechange() {
	N := []int{16, 64}[sym.Choose("degree", 2)]
	e := poly.NewEvaluator(N)
	p, q := polyOf(mixed(N, 1)), polyOf(mixed(N, 9))
	f := e.NewFourierPoly()
	to, back := sym.Choose("form", 2), sym.Choose("back", 3)
	cell := pickCell(p.Coeffs)
	do := func(e *poly.Evaluator, p, q poly.Poly, f poly.FourierPoly) []torus {
		if to == 0 {
			e.ToFourierPolyAssign(p, f)
		} else {
			f.CopyFrom(e.ToFourierPoly(p))
		}
		switch back {
		case 0:
			e.ToPolyAssign(f, q)
		case 1:
			return clone(e.ToPoly(f).Coeffs)
		case 2:
			e.ToPolyAssignUnsafe(f, q)
		}
		return clone(q.Coeffs)
	}
	for round := 0; round < 3; round++ {
		assertSame(do(e, p, q, f), p.Coeffs, "round trip after one coefficient changed")
		*cell += 1 << 30
	}
}

// C25_onechange: one word of a ring ciphertext or one key bit changed between
// decryptions, one plaintext bit between encryptions; every position.
func C25_onechange() {
	setLevel(levels[quickOf([]int{0, 4}, len(levels), "level")])
	N := 16
	dims(2, N)
	k := make([]torus, N)
	for i := range k {
		k[i] = torus(i * i % 3 & 1)
	}
	pe := poly.NewEvaluator(N)
	sym.RandSymbolic(6)
	alpha := 1e-3
	bs := make([]bool, N)
	for i := range bs {
		bs[i] = i%3 == 1
	}
	what := sym.Choose("what", 3)
	at := sym.Choose("position", N)
	c := trlwe.NewTRLWELv1().EncryptBool(bs, alpha, k, pe)
	for round := 0; round < 3; round++ {
		switch what {
		case 0: // a body word: that bit flips
			c.B[at] += 1 << 31
			bs[at] = !bs[at]
		case 1: // the plaintext
			bs[at] = !bs[at]
			c = c.EncryptBool(bs, alpha, k, pe)
		case 2: // the key
			k[at] ^= 1
			c = c.EncryptBool(bs, alpha, k, pe)
		}
		got := c.DecryptBool(k, pe)
		for i := range got {
			sym.Assert(got[i] == bs[i], "bit after one change")
		}
	}
}

// C04_onechange: a gate on two ciphertexts, one word of one of them changed in place
// (which flips its bit), the same gate again, and back; every gate, row and word.
func C04_onechange() {
	setLevel(params.Security128Bit)
	n, N := 2, 16
	dims(n, N)
	gs := binaryGates()
	g := gs[sym.Choose("gate", 10)]
	kp := keysFor("c04one", []torus{1, 1})
	row := sym.Choose("row", 4)
	which := sym.Choose("operand", 2)
	at := sym.Choose("word", n+1)
	x, y := bit2(row)
	e := torus(sym.IntIn("noise", 0, 0xffff))
	in := []*tlwe.TLWELv0{encWith(x, mixed(n, 1), e, kp.key0), encWith(y, mixed(n, 2), -e, kp.key0)}
	for round := 0; round < 3; round++ {
		r := g.apply(in[0], in[1], kp.ck)
		assertBit(r, g.table[row], kp.key0, bootBound(n, N), g.name+" after one word changed")
		// an eighth less one quarter, or the reverse: the other bit
		d := 2 * eighth
		if row>>uint(1-which)&1 == 1 {
			d = -d
		}
		if at < n {
			d = -d
		}
		in[which].P[at] += d
		row ^= 2 >> uint(which)
	}
}

// C05_onechange: a batch of three, one word of one ciphertext changed in place between
// calls; every gate, ciphertext and word.
func C05_onechange() {
	setLevel(params.Security128Bit)
	n, N := 2, 16
	dims(n, N)
	kp := keysFor("c05", []torus{1, 1})
	g := batchGates()[sym.Choose("gate", 6)]
	i, which, at := sym.Choose("pair", 3), sym.Choose("operand", 2), sym.Choose("word", n+1)
	base := sym.Choose("base", 4)
	rows := make([]int, 3)
	in := make([][2]*gates.Ciphertext, 3)
	for j := range in {
		rows[j] = rowAt(base, j)
		in[j] = fixedPair(rows[j], j, kp.key0)
	}
	for round := 0; round < 3; round++ {
		r := g.apply(in, kp.ck)
		sym.Assert(len(r) == 3, g.name+": one result per pair")
		for j := range r {
			assertBit(r[j], g.table[rows[j]], kp.key0, bootBound(n, N), g.name+" after one word changed")
		}
		d := 2 * eighth
		if rows[i]>>uint(1-which)&1 == 1 {
			d = -d
		}
		if at < n {
			d = -d
		}
		in[i][which].P[at] += d
		rows[i] ^= 2 >> uint(which)
	}
}

// C06_onechange: one region of the table, one word of the ciphertext (another message)
// or one captured value changed in place between bootstraps on one evaluator; table
// and function forms.
func C06_onechange() {
	setLevel(params.SecurityUint2)
	n, N, m := 2, 64, 4
	dims(n, N)
	kp := keysFor("c06ka", []torus{1, 1})
	ck := kp.ck
	ev := evaluator.NewEvaluator(N)
	vals := []int{1, 2, 3, 0}
	f := ofMessages(func(x int) int { return vals[x] }, m)
	gen := lut.NewGenerator(m)
	tab := gen.GenLookUpTable(f)
	form := sym.Choose("form", 5)
	what := sym.Choose("what", n+2)
	x := sym.Choose("message", m)
	ct := encMessage(x, m, fixedMask(n, x), torus(sym.IntIn("noise", 0, 0xffff)), kp.key0)
	out := tlwe.NewTLWELv0()
	for round := 0; round < 3; round++ {
		r := out
		switch form {
		case 0:
			r = ev.BootstrapFunc(ct, f, m, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
		case 1:
			ev.BootstrapFuncAssign(ct, f, m, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset, out)
		case 2:
			r = ev.BootstrapLUT(ct, tab, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
		case 3:
			ev.BootstrapLUTAssign(ct, tab, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset, out)
		case 4:
			r = ev.BootstrapLUTTemp(ct, tab, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
		}
		sym.Assert(r.DecryptLWEMessage(m, kp.key0) == reduce(vals[x], m), "function value after one change")
		if what == n+1 {
			vals[x] += 1 + round%2
			if round == 0 { // rewrites one region of the same table
				gen.GenLookUpTableAssign(f, tab)
			} else {
				copy(tab.Poly.B, gen.GenLookUpTable(f).Poly.B)
			}
			continue
		}
		// one word of the ciphertext: the next message
		d := torus(1) << 31 / torus(m)
		if x == m-1 {
			d = -torus(m-1) * d
		}
		if what < n {
			d = -d
		}
		ct.P[what] += d
		x = (x + 1) % m
	}
}
