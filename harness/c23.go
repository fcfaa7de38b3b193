package harness

import (
	"sync"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"verifharness/sym"
)

// operands of one operation in ring dimension N.
type operands struct {
	p, q, r []torus
	c, d    *trlwe.TRLWELv1
	tv      *trlwe.TRLWELv1 // test vector: p and q, or fixed words in large rings
	k       int
	x       *tlwe.TLWELv0
}

func symOperands(label string, N, k int) *operands {
	o := &operands{
		p: sparse(label+".p", N), q: sparse(label+".q", N), r: sparse(label+".r", N),
		c: sparseRing(label+".c", N), d: sparseRing(label+".d", N), k: k,
		x: encWith(true, fixedMask(params.GetTLWELv0().N, k), torus(sym.IntIn(label+".noise", -200000, 200000)), []torus{1, 1, 1}[:params.GetTLWELv0().N]),
	}
	o.tv = &trlwe.TRLWELv1{A: o.p, B: o.q}
	if N > 32 {
		o.tv = &trlwe.TRLWELv1{A: fixedMask(N, k), B: fixedMask(N, k+1)}
	}
	return o
}

func (o *operands) clone() *operands {
	return &operands{p: clone(o.p), q: clone(o.q), r: clone(o.r), c: cloneR(o.c), d: cloneR(o.d), tv: cloneR(o.tv), k: o.k, x: &tlwe.TLWELv0{P: clone(o.x.P)}}
}

func (o *operands) assertSame(w *operands, label string) {
	assertSame(o.p, w.p, label)
	assertSame(o.q, w.q, label)
	assertRing(o.c, w.c, label)
	assertRing(o.d, w.d, label)
	assertRing(o.tv, w.tv, label)
	assertSame(o.x.P, w.x.P, label)
}

// polyOps are the operations of a polynomial evaluator; each returns the words of
// its result (operand r is an accumulator or stale output).
var polyOps = []struct {
	name string
	run  func(e *poly.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus
}{
	{"transform and back", func(e *poly.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		return [][]torus{e.ToPoly(e.ToFourierPoly(poly.Poly{Coeffs: o.p})).Coeffs}
	}},
	{"inverse transform onto", func(e *poly.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		f := e.NewFourierPoly()
		e.ToFourierPolyAssign(poly.Poly{Coeffs: o.p}, f)
		e.ToPolyAssign(f, poly.Poly{Coeffs: o.r})
		s := clone(o.r)
		e.ToPolyAddAssignUnsafe(f, poly.Poly{Coeffs: o.r})
		return [][]torus{s, o.r}
	}},
	{"product", func(e *poly.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		return [][]torus{e.MulPoly(poly.Poly{Coeffs: o.p}, poly.Poly{Coeffs: smallPoly(o.k, len(o.p))}).Coeffs}
	}},
	{"product added", func(e *poly.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		e.MulAddPolyAssign(poly.Poly{Coeffs: o.p}, poly.Poly{Coeffs: smallPoly(o.k, len(o.p))}, poly.Poly{Coeffs: o.r})
		return [][]torus{o.r}
	}},
	{"product subtracted", func(e *poly.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		e.MulSubPolyAssign(poly.Poly{Coeffs: smallPoly(o.k, len(o.p))}, poly.Poly{Coeffs: o.q}, poly.Poly{Coeffs: o.r})
		return [][]torus{o.r}
	}},
	{"rotation", func(e *poly.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		return [][]torus{e.PolyMulWithXK(o.p, o.k), e.PolyMulWithXK(o.q, -o.k)}
	}},
	{"external product", func(e *poly.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		r := trgsw.ExternalProductWithFFT(ck.BootstrappingKey[0], o.c, ck.DecompositionOffset, e)
		return [][]torus{r.A, r.B}
	}},
	{"selection", func(e *poly.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		r := trgsw.CMUX(o.c, o.d, ck.BootstrappingKey[0], ck.DecompositionOffset, e)
		return [][]torus{r.A, r.B}
	}},
	{"blind rotation", func(e *poly.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		r := trgsw.BlindRotate(o.x, o.tv, ck.BootstrappingKey, ck.DecompositionOffset, e)
		return [][]torus{r.A, r.B}
	}},
}

func smallPoly(k, N int) []torus {
	r := make([]torus, N)
	for i := range r {
		r[i] = torus((i*7+k)%5 - 2)
	}
	return r
}

func cloneAll(w [][]torus) [][]torus {
	r := make([][]torus, len(w))
	for i := range w {
		r[i] = clone(w[i])
	}
	return r
}

func assertAll(a, b [][]torus, label string) {
	sym.Assert(len(a) == len(b), label)
	for i := range a {
		assertSame(a[i], b[i], label)
	}
}

// polyHistory runs steps arbitrary operations (or pool resets) on e.
func polyHistory(e *poly.Evaluator, steps, N int, ck *cloudkey.CloudKey) {
	for i := 0; i < steps; i++ {
		op := sym.Choose("previous operation", len(polyOps)+2)
		switch op {
		case len(polyOps):
			e.ResetRotationPool()
			a, b := e.GetTRLWEBuffer()
			copy(a, sparse("dirty", N))
			copy(b, sparse("dirty", N))
		case len(polyOps) + 1:
			e.ResetTRLWEPool()
			copy(e.GetRotationBuffer(), sparse("dirty", N))
		default:
			polyOps[op].run(e, symOperands("previous", N, 3+i), ck)
		}
	}
}

// C23_poly: ring dimension 16, LWE dimension 2, all operands arbitrary words: after
// every history of two operations (thorough: three), each operation of a polynomial
// evaluator returns the words a fresh one returns and leaves operands and key alone;
// a copy taken after the history does the same.
func C23_poly() {
	setLevel(levels[quickOf([]int{0}, 3, "level")])
	n, N := 2, 16
	dims(n, N)
	steps := 2
	if sym.Thorough() {
		steps = 3
	}
	afterPolyHistory(keysFor("c23", []torus{1, 1}).ck, N, steps)
}

// C23_poly_real: the same at the unreduced ring dimension of the level, LWE dimension 2,
// after every single operation; six arbitrary words per operand.
func C23_poly_real() {
	setLevel(levels[quickOf([]int{0, 4, 6}, len(levels), "level")])
	_, N := trueDims()
	afterPolyHistory(onesKeys("c23r", 2, N).ck, N, 1)
}

func afterPolyHistory(ck *cloudkey.CloudKey, N, steps int) {
	e := poly.NewEvaluator(N)
	polyHistory(e, steps, N, ck)
	op := polyOps[sym.Choose("operation", len(polyOps))]
	in := symOperands("in", N, 5)
	in2, in3, keep := in.clone(), in.clone(), in.clone()
	gk := cloneG(ck.BootstrappingKey[0])
	cp := e.ShallowCopy()
	got := op.run(e, in, ck)
	gotK := cloneAll(got)
	viaCopy := op.run(cp, in2, ck)
	want := op.run(poly.NewEvaluator(N), in3, ck)
	assertAll(gotK, want, "same words as a fresh evaluator: "+op.name)
	assertAll(viaCopy, want, "same words from a copy: "+op.name)
	assertAll(got, gotK, "result untouched by the copy: "+op.name)
	in.assertSame(keep, "operands unchanged: "+op.name)
	assertG(cloneG(ck.BootstrappingKey[0]), gk, "key unchanged: "+op.name)
}

// evalOps are the operations of the homomorphic evaluator; temp marks results in the
// pool of four.
type evalOp struct {
	name string
	temp bool
	run  func(e *evaluator.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus
}

var evalOps = []evalOp{
	{"external product onto", false, func(e *evaluator.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		out := &trlwe.TRLWELv1{A: o.r, B: clone(o.r)}
		e.ExternalProductAssign(ck.BootstrappingKey[0], o.c, ck.DecompositionOffset, out)
		return [][]torus{out.A, out.B}
	}},
	{"selection onto", false, func(e *evaluator.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		out := &trlwe.TRLWELv1{A: o.r, B: clone(o.r)}
		e.CMuxAssign(ck.BootstrappingKey[len(ck.BootstrappingKey)-1], o.c, o.d, ck.DecompositionOffset, out)
		return [][]torus{out.A, out.B}
	}},
	{"blind rotation onto", false, func(e *evaluator.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		out := &trlwe.TRLWELv1{A: o.r, B: clone(o.r)}
		e.BlindRotateAssign(o.x, o.tv, ck.BootstrappingKey, ck.DecompositionOffset, out)
		return [][]torus{out.A, out.B}
	}},
	{"bootstrap onto", false, func(e *evaluator.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		out := &tlwe.TLWELv0{P: clone(o.r[:len(o.x.P)])}
		e.BootstrapAssign(o.x, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset, out)
		return [][]torus{out.P}
	}},
	{"pooled bootstrap", true, func(e *evaluator.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		return [][]torus{e.Bootstrap(o.x, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset).P}
	}},
	{"table bootstrap", false, func(e *evaluator.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		return [][]torus{e.BootstrapLUT(o.x, lut.NewGenerator(2).GenLookUpTable(pbsFunc(1, 2)), ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset).P}
	}},
	{"temporary table bootstrap", true, func(e *evaluator.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		return [][]torus{e.BootstrapLUTTemp(o.x, lut.NewGenerator(2).GenLookUpTable(pbsFunc(0, 2)), ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset).P}
	}},
	{"function bootstrap", false, func(e *evaluator.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		return [][]torus{e.BootstrapFunc(o.x, pbsFunc(3, 2), 2, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset).P}
	}},
	{"gate preparation", false, func(e *evaluator.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		y := &tlwe.TLWELv0{P: o.p[:len(o.x.P)]}
		return [][]torus{e.PrepareNAND(o.x, y).P, e.PrepareAND(o.x, y).P, e.PrepareOR(o.x, y).P, e.PrepareXOR(o.x, y).P}
	}},
	{"transform and back", false, func(e *evaluator.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		return polyOps[0].run(e.PolyEvaluator, o, ck)
	}},
	{"product", false, func(e *evaluator.Evaluator, o *operands, ck *cloudkey.CloudKey) [][]torus {
		return polyOps[3].run(e.PolyEvaluator, o, ck)
	}},
}

const resetOp = 11 // history entry that resets the buffers

// evalHistory runs steps arbitrary operations or resets.
func evalHistory(e *evaluator.Evaluator, steps, N int, ck *cloudkey.CloudKey) {
	for i := 0; i < steps; i++ {
		op := sym.Choose("previous operation", len(evalOps)+1)
		if op == resetOp {
			e.ResetBuffers()
			continue
		}
		evalOps[op].run(e, symOperands("previous", N, 3+i), ck)
	}
}

// C23_eval: the same for the homomorphic evaluator and its copy, ring dimension 16.
func C23_eval() {
	setLevel(levels[quickOf([]int{0}, 3, "level")])
	n, N := 2, 16
	dims(n, N)
	steps := 2
	if sym.Thorough() {
		steps = 3
	}
	afterEvalHistory(keysFor("c23", []torus{1, 1}).ck, N, steps)
}

// C23_eval_real: the same at the unreduced ring dimension of the level, LWE dimension 2,
// after every single operation; six arbitrary words per operand.
func C23_eval_real() {
	setLevel(levels[quickOf([]int{0, 4, 6}, len(levels), "level")])
	_, N := trueDims()
	afterEvalHistory(onesKeys("c23r", 2, N).ck, N, 1)
}

func afterEvalHistory(ck *cloudkey.CloudKey, N, steps int) {
	e := evaluator.NewEvaluator(N)
	evalHistory(e, steps, N, ck)
	op := evalOps[sym.Choose("operation", len(evalOps))]
	in := symOperands("in", N, 5)
	in2, in3, keep := in.clone(), in.clone(), in.clone()
	gk := cloneG(ck.BootstrappingKey[0])
	kk := clone(ck.KeySwitchingKey[1].P)
	tk := cloneR(ck.BlindRotateTestvec)
	cp := e.ShallowCopy()
	got := op.run(e, in, ck)
	gotK := cloneAll(got)
	viaCopy := op.run(cp, in2, ck)
	want := op.run(evaluator.NewEvaluator(N), in3, ck)
	assertAll(gotK, want, "same words as a fresh evaluator: "+op.name)
	assertAll(viaCopy, want, "same words from a copy: "+op.name)
	assertAll(got, gotK, "result untouched by the copy: "+op.name)
	in.assertSame(keep, "operands unchanged: "+op.name)
	assertG(cloneG(ck.BootstrappingKey[0]), gk, "bootstrapping key unchanged: "+op.name)
	assertSame(ck.KeySwitchingKey[1].P, kk, "key-switching key unchanged: "+op.name)
	assertRing(ck.BlindRotateTestvec, tk, "test vector unchanged: "+op.name)
}

var bootOps = []int{3, 4, 5, 6, 7} // indices of the bootstraps

// C23_pool: from every pool position (and after a reset), a pooled result survives
// any three further bootstraps of any kind, with other operations between.
func C23_pool() {
	setLevel(params.Security128Bit)
	n, N := 1, 16
	dims(n, N)
	ck := keysFor("c23p", []torus{1}).ck
	e := evaluator.NewEvaluator(N)
	pos := sym.Choose("earlier bootstraps", 6)
	for i := 0; i < pos; i++ {
		evalOps[[]int{4, 6}[i%2]].run(e, symOperands("earlier", N, i), ck)
	}
	if sym.Choose("reset", 2) == 1 {
		e.ResetBuffers()
	}
	op := evalOps[[]int{4, 6}[sym.Choose("result", 2)]]
	r := op.run(e, symOperands("in", N, 9), ck)
	keep := cloneAll(r)
	for i := 0; i < 3; i++ {
		k := bootOps[quickOf([]int{0, 1, 2, 3}, 5, "further bootstrap")]
		evalOps[k].run(e, symOperands("further", N, 20+i), ck)
		if i == 1 {
			evalOps[0].run(e, symOperands("other", N, 1), ck)
		}
		assertAll(r, keep, "pooled result intact: "+op.name)
	}
}

// C23_forever: results that are not temporary survive six further bootstraps, resets
// and writes into temporary results; gate results as well.
func C23_forever() {
	setLevel(levels[quickOf([]int{0}, 3, "level")])
	n, N := 1, 16
	dims(n, N)
	ck := keysFor("c23p", []torus{1}).ck
	e := evaluator.NewEvaluator(N)
	evalHistory(e, 1, N, ck)
	in := symOperands("in", N, 9)
	w := sym.Choose("result", 6)
	var r [][]torus
	y := &gates.Ciphertext{P: clone(in.p[:n+1])}
	y.P = encWith(false, fixedMask(n, 2), 77, []torus{1}).P
	switch w {
	case 0:
		r = evalOps[5].run(e, in, ck)
	case 1:
		r = evalOps[7].run(e, in, ck)
	case 2:
		r = evalOps[8].run(e, in, ck)
	case 3:
		r = [][]torus{gates.AND(in.x, y, ck).P}
	case 4:
		r = [][]torus{gates.MUX(in.x, y, in.x, ck).P}
	default:
		r = [][]torus{gates.NOT(in.x).P, gates.Copy(in.x).P, gates.XNOR(in.x, y, ck).P}
	}
	keep := cloneAll(r)
	for i := 0; i < 6; i++ {
		o := symOperands("further", N, 20+i)
		t := evalOps[bootOps[i%5]].run(e, o, ck)
		gates.NAND(o.x, y, ck)
		for j := range t[0] {
			t[0][j]++
		}
		if i == 3 {
			e.ResetBuffers()
			evalOps[8].run(e, o, ck)
		}
	}
	assertAll(r, keep, "result intact for ever")
	for i := range in.x.P {
		in.x.P[i]++
	}
	assertAll(r, keep, "result independent of its operand")
}

// C23_copy: an evaluator and its copy run operations at the same time, or a copy of
// the copy: no shared mutable storage (data races are searched over the schedules
// explored), each returns what it returns alone.
func C23_copy() {
	setLevel(levels[quickOf([]int{0, 3, 9}, len(levels), "level")])
	n, N := 1, 16
	dims(n, N)
	ck := keysFor("c23p", []torus{1}).ck
	e := evaluator.NewEvaluator(N)
	evalOps[4].run(e, symOperands("earlier", N, 2), ck)
	cp := e.ShallowCopy()
	if sym.Choose("copy of a copy", 2) == 1 {
		cp = cp.ShallowCopy()
	}
	op, op2 := sym.Choose("operation", len(evalOps)), sym.Choose("operation of the copy", len(evalOps))
	in, in2 := symOperands("in", N, 5), symOperands("in2", N, 6)
	f1, f2 := in.clone(), in2.clone()
	var r1, r2 [][]torus
	sym.CheckRaces()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		r1 = evalOps[op].run(e, in, ck)
	}()
	go func() {
		defer wg.Done()
		r2 = evalOps[op2].run(cp, in2, ck)
	}()
	wg.Wait()
	assertAll(r1, evalOps[op].run(evaluator.NewEvaluator(N), f1, ck), "original unaffected by its copy: "+evalOps[op].name)
	assertAll(r2, evalOps[op2].run(evaluator.NewEvaluator(N), f2, ck), "copy unaffected by the original: "+evalOps[op2].name)
}

// C23_capability: at every level, an evaluator copied after every level change runs
// the widest operation (2L decomposition levels) and keeps the decomposer's depth.
func C23_capability() {
	chooseLevel()
	n, N := 1, 16
	dims(n, N)
	e := evaluator.NewEvaluator(N)
	cp := e.ShallowCopy()
	cp2 := cp.ShallowCopy()
	p := params.GetTRGSWLv1()
	for _, c := range []*evaluator.Evaluator{e, cp, cp2} {
		sym.Assert(c.Decomposer.MaxLevel() >= 2*p.L, "decomposer depth")
		sym.Assert(len(c.Decomposer.GetPolyDecomposedBuffer(2*p.L)) == 2*p.L, "decomposition buffers")
		sym.Assert(len(c.Decomposer.GetPolyFourierDecomposedBuffer(2*p.L)) == 2*p.L, "decomposition buffers")
		sym.Assert(c.PolyEvaluator.Degree() == N, "degree")
	}
	ck := keysFor("c23p", []torus{1}).ck
	in := symOperands("in", N, 4)
	for _, k := range []int{1, 4, 7} {
		want := cloneAll(evalOps[k].run(e, in.clone(), ck))
		assertAll(evalOps[k].run(cp, in.clone(), ck), want, "copy")
		assertAll(evalOps[k].run(cp2, in.clone(), ck), want, "copy of a copy")
	}
}

// C23_copy_poly: a polynomial evaluator and its copy (or a copy of the copy) run
// operations at the same time: no data race in the schedules explored, each returns
// what it returns alone.
func C23_copy_poly() {
	setLevel(levels[quickOf([]int{0, 4}, len(levels), "level")])
	n, N := 1, 16
	dims(n, N)
	ck := keysFor("c23p", []torus{1}).ck
	e := poly.NewEvaluator(N)
	polyOps[6].run(e, symOperands("earlier", N, 2), ck)
	cp := e.ShallowCopy()
	if sym.Choose("copy of a copy", 2) == 1 {
		cp = cp.ShallowCopy()
	}
	op, op2 := sym.Choose("operation", len(polyOps)), sym.Choose("operation of the copy", len(polyOps))
	in, in2 := symOperands("in", N, 5), symOperands("in2", N, 6)
	f1, f2 := in.clone(), in2.clone()
	var r1, r2 [][]torus
	sym.CheckRaces()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		r1 = polyOps[op].run(e, in, ck)
	}()
	go func() {
		defer wg.Done()
		r2 = polyOps[op2].run(cp, in2, ck)
	}()
	wg.Wait()
	assertAll(r1, polyOps[op].run(poly.NewEvaluator(N), f1, ck), "original unaffected by its copy: "+polyOps[op].name)
	assertAll(r2, polyOps[op2].run(poly.NewEvaluator(N), f2, ck), "copy unaffected by the original: "+polyOps[op2].name)
}

// C23_separate: two goroutines that share nothing but a cloud key each make what they
// need (evaluators of a degree not used before, generators, keys, ciphertexts) and use
// it at the same time: no data race in the schedules explored, and each returns what it
// returns alone.
func C23_separate() {
	setLevel(levels[quickOf([]int{0, 4}, len(levels), "level")])
	n, N := 1, []int{128, 32}[sym.Choose("ring", 2)]
	dims(n, N)
	ck := plainKey(n, N)
	key := []torus{1}
	work := []func() [][]torus{
		func() [][]torus {
			e := poly.NewEvaluator(N)
			f := e.ToFourierPoly(poly.Poly{Coeffs: fixedMask(N, 3)})
			return [][]torus{e.ToPoly(f).Coeffs}
		},
		func() [][]torus {
			e := evaluator.NewEvaluator(N)
			out := trlwe.NewTRLWELv1()
			e.ExternalProductAssign(ck.BootstrappingKey[0], &trlwe.TRLWELv1{A: fixedMask(N, 1), B: fixedMask(N, 2)}, ck.DecompositionOffset, out)
			return [][]torus{out.A, out.B}
		},
		func() [][]torus {
			x := encWith(true, []torus{7}, 99, key)
			return [][]torus{evaluator.NewEvaluator(N).BootstrapFunc(x, pbsFunc(3, 4), 4, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset).P}
		},
		func() [][]torus {
			t := lut.NewGenerator(4).GenLookUpTable(pbsFunc(1, 4))
			return [][]torus{t.Poly.A, t.Poly.B}
		},
		func() [][]torus {
			ct := tlwe.NewTLWELv0().EncryptBool(true, params.GetTLWELv0().ALPHA, key)
			in := bitutils.EncryptBits([]bool{true, false}, params.GetTLWELv0().ALPHA, key)
			return [][]torus{boolWords(ct.DecryptBool(key)), boolWords(bitutils.DecryptBits(in, key)...)}
		},
		func() [][]torus {
			k := proxyreenc.NewProxyReencryptionKeySymmetric(key, key)
			ct := proxyreenc.ReencryptTLWELv0(encWith(true, []torus{7}, 99, key), k)
			return [][]torus{boolWords(ct.DecryptBool(key))}
		},
	}
	a, b := sym.Choose("first", len(work)), sym.Choose("second", len(work))
	sym.RandConcrete(11)
	var r1, r2 [][]torus
	sym.CheckRaces()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		r1 = work[a]()
	}()
	go func() {
		defer wg.Done()
		r2 = work[b]()
	}()
	wg.Wait()
	assertAll(r1, work[a](), "unaffected by the other goroutine")
	assertAll(r2, work[b](), "unaffected by the other goroutine")
}

func boolWords(b ...bool) []torus {
	w := make([]torus, len(b))
	for i := range b {
		if b[i] {
			w[i] = 1
		}
	}
	return w
}

// C23_results: the results of the allocating polynomial and Fourier operations (arbitrary
// sparse operands, N=16 and 64) survive every later operation of the same evaluator and
// share no storage with each other or with their operands.
func C23_results() {
	setLevel(params.Security128Bit)
	n := 2
	N := []int{16, 64}[sym.Choose("degree", 2)]
	dims(n, N)
	ck := keysFor("c23res"+itoa(N), []torus{1, 1}).ck
	e := poly.NewEvaluator(N)
	p, q := poly.Poly{Coeffs: sparse("p", N)}, poly.Poly{Coeffs: sparse("q", N)}
	s := poly.Poly{Coeffs: smallPoly(3, N)}
	fp, fs := poly.NewEvaluator(N).ToFourierPoly(p), poly.NewEvaluator(N).ToFourierPoly(s)
	produce := func(k int) (w []torus, f []float64) {
		switch k {
		case 0:
			f = e.ToFourierPoly(p).Coeffs
		case 1:
			w = e.ToPoly(fp).Coeffs
		case 2:
			w = e.MulPoly(p, s).Coeffs
		case 3:
			f = e.AddFourierPoly(fp, fs).Coeffs
		case 4:
			f = e.SubFourierPoly(fp, fs).Coeffs
		case 5:
			f = e.MulFourierPoly(fp, fs).Coeffs
		case 6:
			w = e.NewPoly().Coeffs
		case 7:
			f = e.NewFourierPoly().Coeffs
		case 8:
			w = p.Copy().Coeffs
		case 9:
			f = fp.Copy().Coeffs
		}
		return
	}
	const kinds = 10
	p0, fp0 := clone(p.Coeffs), fclone(fp.Coeffs)
	w, f := produce(sym.Choose("result", kinds))
	wk, fk := clone(w), append([]float64{}, f...)
	p.Coeffs, q.Coeffs = q.Coeffs, p.Coeffs
	fp, fs = fs, fp
	w2, f2 := produce(sym.Choose("next operation", kinds))
	wk2, fk2 := clone(w2), append([]float64{}, f2...)
	for i, op := range polyOps {
		op.run(e, symOperands("later", N, 5+i), ck)
	}
	assertSame(w, wk, "polynomial intact after later operations")
	assertSameF(f, fk, "Fourier polynomial intact after later operations")
	for i := range w {
		w[i]++
	}
	for i := range f {
		f[i] += 3
	}
	assertSame(w2, wk2, "results do not share storage")
	assertSameF(f2, fk2, "Fourier results do not share storage")
	assertSame(q.Coeffs, p0, "result does not share storage with its operand")
	assertSameF(fs.Coeffs, fp0, "Fourier result does not share storage with its operand")
}
