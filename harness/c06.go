package harness

import (
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"verifharness/sym"
)

// encMessage is a ciphertext of x modulo m with the given mask and noise.
func encMessage(x, m int, mask []torus, e torus, key []torus) *tlwe.TLWELv0 {
	c := tlwe.NewTLWELv0()
	b := e + torus(uint64(x)<<31/uint64(m))
	for i := range mask {
		c.P[i] = mask[i]
		b += mask[i] * key[i]
	}
	c.P[len(mask)] = b
	return c
}

// pbsNoise is half the message spacing minus the modulus-switching error of n+1
// words and one step of the table.
func pbsNoise(m, n, N int) int {
	return (1<<32)/(4*m) - (n+1)*((1<<32)/(4*N)) - (1<<32)/(2*N) - 8
}

func fixedMask(n, seed int) []torus {
	r := make([]torus, n)
	for i := range r {
		r[i] = torus(uint32(seed*31+i+1) * 2654435761)
	}
	return r
}

// functions by index: identity, reversal, square, constants, values outside the
// message range (negative and large), parity.
func pbsFunc(i, m int) func(int) int {
	return []func(int) int{
		func(x int) int { return x },
		func(x int) int { return m - 1 - x },
		func(x int) int { return x*x + 1 },
		func(x int) int { return -3*x - 1 },
		func(x int) int { return 5*m + x*7 },
		func(x int) int { return m - 1 },
		func(x int) int { return x & 1 },
	}[i]
}

const pbsFuncs = 7

// C06_masks: modulus 2, LWE dimension 1, ring dimension 16, both key bits: mask word
// and noise arbitrary, all messages, functions 0->a, 1->b for a,b in -1,0,1,2,7.
func C06_masks() {
	setLevel(levels[quickOf([]int{4}, len(levels), "level")])
	n, N, m := 1, 16, 2
	dims(n, N)
	s := torus(sym.Choose("key", 2))
	kp := keysFor("c06"+itoa(int(s)), []torus{s})
	vals := []int{-1, 0, 1, 2, 7}
	x := sym.Choose("message", 2)
	f := [2]int{1 - x, x}
	f[x] = vals[sym.Choose("value", 5)]
	lim := pbsNoise(m, n, N)
	ct := encMessage(x, m, words("mask", n), torus(sym.IntIn("noise", -lim, lim)), kp.key0)
	keep := clone(ct.P)
	ev := evaluator.NewEvaluator(N)
	ck := kp.ck
	r := ev.BootstrapFunc(ct, func(v int) int { return f[v] }, m, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
	want := reduce(f[x], m)
	sym.Assert(r.DecryptLWEMessage(m, kp.key0) == want, "function value")
	sym.Assert(near(phase(r.P, kp.key0)-torus(uint64(want)<<31/uint64(m)), bootBound(n, N)), "fresh noise")
	assertSame(ct.P, keep, "input unchanged")
}

// pbsSetting: level, modulus and dimensions of the larger harnesses.
type pbsSetting struct {
	l       params.SecurityLevel
	m, n, N int
}

func pbsSettings() []pbsSetting {
	return []pbsSetting{
		{params.Security128Bit, 2, 3, 64},
		{params.SecurityUint1, 2, 2, 64},
		{params.SecurityUint2, 4, 3, 64},
		{params.SecurityUint2, 3, 3, 64},
		{params.SecurityUint3, 8, 2, 128},
		{params.SecurityUint4, 16, 2, 256},
		{params.SecurityUint5, 5, 3, 64},
		{params.SecurityUint6, 7, 2, 64},
		{params.Security80Bit, 4, 2, 64},
		{params.Security110Bit, 3, 2, 64},
		{params.SecurityUint7, 4, 3, 64},
		{params.SecurityUint8, 6, 2, 128},
		{params.SecurityUint4, 13, 1, 256},
		{params.SecurityUint5, 32, 1, 512},
	}
}

// C06_noise: several levels, moduli and dimensions, concrete keys and masks: noise
// arbitrary, all messages, seven functions.
func C06_noise() {
	st := pbsSettings()
	s := st[quickOf([]int{0, 3, 4, 6, 8}, len(st), "setting")]
	setLevel(s.l)
	n, N, m := s.n, s.N, s.m
	dims(n, N)
	kp := keysFor("c06n", []torus{1, 1, 1}[:n])
	x := sym.Choose("message", m)
	f := pbsFunc(quickOf([]int{2, 3}, pbsFuncs, "function"), m)
	lim := pbsNoise(m, n, N)
	ct := encMessage(x, m, fixedMask(n, x), torus(sym.IntIn("noise", -lim, lim)), kp.key0)
	ck := kp.ck
	r := evaluator.NewEvaluator(N).BootstrapFunc(ct, ofMessages(f, m), m, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
	sym.Assert(r.DecryptLWEMessage(m, kp.key0) == reduce(f(x), m), "function value")
}

// C06_variants: the function, table, caller-supplied-output and temporary forms
// return the same words; a table is reusable; inputs, tables and keys unchanged;
// results used as inputs of the next bootstrap.
func C06_variants() {
	st := pbsSettings()
	s := st[quickOf([]int{0, 2, 3}, len(st), "setting")]
	setLevel(s.l)
	n, N, m := s.n, s.N, s.m
	dims(n, N)
	kp := keysFor("c06n", []torus{1, 1, 1}[:n])
	ck := kp.ck
	x := sym.Choose("message", m)
	f := pbsFunc(sym.Choose("function", pbsFuncs), m)
	lim := pbsNoise(m, n, N)
	ct := encMessage(x, m, fixedMask(n, x+3), torus(sym.IntIn("noise", -lim, lim)), kp.key0)
	keep := clone(ct.P)
	bk := cloneG(ck.BootstrappingKey[0])
	kk := make([][]torus, 3)
	for i := range kk {
		kk[i] = clone(ck.KeySwitchingKey[i*7+1].P)
	}
	f = ofMessages(f, m)
	tab := lut.NewGenerator(m).GenLookUpTable(f)
	tk := cloneR(tab.Poly)
	ev := evaluator.NewEvaluator(N)
	y := reduce(f(x), m)
	dirty := &tlwe.TLWELv0{P: words("stale", n+1)}
	dirty2 := &tlwe.TLWELv0{P: words("stale", n+1)}
	r1 := ev.BootstrapFunc(ct, f, m, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
	r2 := ev.BootstrapLUT(ct, tab, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
	ev.BootstrapLUTAssign(ct, tab, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset, dirty)
	ev.BootstrapFuncAssign(ct, f, m, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset, dirty2)
	r5 := ev.BootstrapLUTTemp(ct, tab, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
	sym.Assert(r1.DecryptLWEMessage(m, kp.key0) == y, "function value")
	assertSame(r2.P, r1.P, "table form agrees")
	assertSame(dirty.P, r1.P, "caller-supplied output, table: agrees")
	assertSame(dirty2.P, r1.P, "caller-supplied output, function: agrees")
	assertSame(r5.P, r1.P, "temporary form agrees")
	assertRing(tab.Poly, tk, "table unchanged")
	assertSame(ct.P, keep, "input unchanged")
	assertG(cloneG(ck.BootstrappingKey[0]), bk, "bootstrapping key unchanged")
	for i := range kk {
		assertSame(ck.KeySwitchingKey[i*7+1].P, kk[i], "key-switching key unchanged")
	}
	// the result as input of a further bootstrap, with the same table
	keep1 := clone(r1.P)
	r6 := ev.BootstrapLUT(r1, tab, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
	sym.Assert(r6.DecryptLWEMessage(m, kp.key0) == reduce(f(y), m), "function of a bootstrapped value")
	assertSame(r1.P, keep1, "bootstrapped input unchanged")
	assertSame(r2.P, keep1, "earlier result unchanged")
	ev.BootstrapLUTAssign(r2, tab, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset, r2)
	assertSame(r2.P, r6.P, "output onto the input")
}

// C06_boot: the plain bootstrap refreshes a bit: phase near +-1/8 for every noise
// below 1/8 minus the modulus-switching error.
func C06_boot() {
	setLevel(levels[quickOf([]int{0, 1, 4, 9}, len(levels), "level")])
	n, N := 2, 64
	dims(n, N)
	kp := keysFor("c06b", []torus{1, 1})
	ck := kp.ck
	bit := sym.Choose("bit", 2) == 1
	lim := 1<<29 - (n+1)*((1<<32)/(4*N)) - (1<<32)/(2*N)
	ct := encWith(bit, fixedMask(n, 4), torus(sym.IntIn("noise", -lim, lim)), kp.key0)
	keep := clone(ct.P)
	ev := evaluator.NewEvaluator(N)
	r := ev.Bootstrap(ct, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
	assertBit(r, bit, kp.key0, bootBound(n, N), "bootstrap")
	out := &tlwe.TLWELv0{P: words("stale", n+1)}
	ev.BootstrapAssign(ct, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset, out)
	assertSame(out.P, r.P, "in-place form agrees")
	assertSame(ct.P, keep, "input unchanged")
}

// affine functions share one function literal and differ only in what they capture.
func affine(a, b int) func(int) int { return func(x int) int { return a*x + b } }

// ofMessages is f, whose argument has to be one of the m messages.
func ofMessages(f func(int) int, m int) func(int) int {
	return func(x int) int {
		sym.Assert(x >= 0 && x < m, "function asked about a message")
		return f(x)
	}
}

// pbsForm bootstraps ct by f modulo m in one of the five public forms.
func pbsForm(ev *evaluator.Evaluator, form int, ct *tlwe.TLWELv0, f func(int) int, m int, kp *ringKeys) *tlwe.TLWELv0 {
	ck := kp.ck
	f = ofMessages(f, m)
	out := tlwe.NewTLWELv0()
	switch form {
	case 0:
		return ev.BootstrapFunc(ct, f, m, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
	case 1:
		ev.BootstrapFuncAssign(ct, f, m, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset, out)
	case 2:
		return ev.BootstrapLUT(ct, lut.NewGenerator(m).GenLookUpTable(f), ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
	case 3:
		ev.BootstrapLUTAssign(ct, lut.NewGenerator(m).GenLookUpTable(f), ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset, out)
	case 4:
		r := ev.BootstrapLUTTemp(ct, lut.NewGenerator(m).GenLookUpTable(f), ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
		copy(out.P, r.P)
	}
	return out
}

// C06_history: two (thorough three) bootstraps in one process, each with its own
// setting (level, modulus, dimensions), form and function; the functions are closures
// of one literal: each result is the value of its own function. One evaluator per
// level serves the whole history.
func C06_history() {
	sts := []pbsSetting{
		{params.Security128Bit, 2, 2, 64},
		{params.SecurityUint2, 4, 2, 64},
		{params.SecurityUint2, 2, 2, 128},
	}
	evs := map[int]*evaluator.Evaluator{}
	steps := 2
	if sym.Thorough() {
		steps = 3
	}
	for k := 0; k < steps; k++ {
		last := k == steps-1
		s := sts[sym.Choose("setting", len(sts))]
		setLevel(s.l)
		dims(s.n, s.N)
		kp := keysFor("c06h", []torus{1, 1})
		id := s.N*100 + int(s.l) // an evaluator belongs to one level
		ev := evs[id]
		if ev == nil {
			ev = evaluator.NewEvaluator(s.N)
			evs[id] = ev
		}
		form := 0
		if last {
			form = sym.Choose("form", 5)
		} else {
			form = sym.Choose("form", 3)
		}
		// the two functions differ on the chosen message
		f := []func(int) int{affine(1, 0), affine(1, 1)}[sym.Choose("function", 2)]
		x := 1
		ct := encMessage(x, s.m, fixedMask(s.n, k), torus(sym.IntIn("noise", -1<<16, 1<<16)), kp.key0)
		r := pbsForm(ev, form, ct, f, s.m, kp)
		sym.Assert(r.DecryptLWEMessage(s.m, kp.key0) == reduce(f(x), s.m), "function value in a history")
	}
}

// C06_degrees: the ring dimensions 512, 1024 and 2048 with one or two mask words,
// modulus 2 and 8: noise arbitrary within a few rounding classes at both ends and in
// the middle of the region.
func C06_degrees() {
	N := []int{512, 1024, 2048}[sym.Choose("degree", 3)]
	setLevel(params.SecurityUint3)
	n := 2
	dims(n, N)
	m := []int{2, 8}[sym.Choose("modulus", 2)]
	kp := keysFor("c06d", []torus{1, 1})
	x := []int{0, 1, m - 1}[sym.Choose("message", 3)]
	f := affine(3, -1)
	lim := pbsNoise(m, n, N)
	w := (1 << 32) / (2 * N)
	lo := []int{-lim, -w, lim - 2*w}[sym.Choose("part", 3)]
	ct := encMessage(x, m, fixedMask(n, x), torus(sym.IntIn("noise", lo, lo+2*w)), kp.key0)
	r := evaluator.NewEvaluator(N).BootstrapFunc(ct, f, m, kp.ck.BootstrappingKey, kp.ck.KeySwitchingKey, kp.ck.DecompositionOffset)
	sym.Assert(r.DecryptLWEMessage(m, kp.key0) == reduce(f(x), m), "function value")
}
