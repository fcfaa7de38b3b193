import sys,re,subprocess,os
R='/tmp/rf/repo/'
def rd(f): return open(R+f).read()
def wr(f,s): open(R+f,'w').write(s)
def sub(f,a,b,n=1):
    s=rd(f); assert a in s,(f,a[:80]); s=s.replace(a,b) if n==0 else s.replace(a,b,n); wr(f,s)
def cut(f,a,b,new):
    s=rd(f); i=s.index(a); j=s.index(b,i) if b else len(s); wr(f,s[:i]+new+s[j:])
def r1():
    f='gates/gates.go'
    cut(f,'// BatchNAND performs',None,'''
type prepFn func(a, b *Ciphertext) *Ciphertext

func offsetBy(c *Ciphertext, d float64) *Ciphertext {
	c.SetB(c.B() + utils.F64ToTorus(d))
	return c
}

func runBatch(inputs [][2]*Ciphertext, ck *cloudkey.CloudKey, prep prepFn) []*Ciphertext {
	prepared := make([]*Ciphertext, 0, len(inputs))
	for _, p := range inputs {
		prepared = append(prepared, prep(p[0], p[1]))
	}
	rotated := trgsw.BatchBlindRotate(prepared, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset)
	return finish(rotated, ck.KeySwitchingKey)
}

func finish(rotated []*trlwe.TRLWELv1, ksk []*Ciphertext) []*Ciphertext {
	type done struct {
		at int
		ct *Ciphertext
	}
	ch := make(chan done, len(rotated))
	for i := range rotated {
		i := i
		go func() {
			ch <- done{i, trgsw.IdentityKeySwitching(trlwe.SampleExtractIndex(rotated[i], 0), ksk)}
		}()
	}
	results := make([]*Ciphertext, len(rotated))
	for range rotated {
		d := <-ch
		results[d.at] = d.ct
	}
	return results
}

// BatchNAND performs batch NAND operations in parallel
func BatchNAND(inputs [][2]*Ciphertext, ck *cloudkey.CloudKey) []*Ciphertext {
	return runBatch(inputs, ck, func(a, b *Ciphertext) *Ciphertext { return offsetBy(a.Add(b).Neg(), 0.125) })
}

// BatchAND performs batch AND operations in parallel
func BatchAND(inputs [][2]*Ciphertext, ck *cloudkey.CloudKey) []*Ciphertext {
	return runBatch(inputs, ck, func(a, b *Ciphertext) *Ciphertext { return offsetBy(b.Add(a), -0.125) })
}

// BatchOR performs batch OR operations in parallel
func BatchOR(inputs [][2]*Ciphertext, ck *cloudkey.CloudKey) []*Ciphertext {
	return runBatch(inputs, ck, func(a, b *Ciphertext) *Ciphertext { return offsetBy(a.Add(b), 0.125) })
}

// BatchXOR performs batch XOR operations in parallel
func BatchXOR(inputs [][2]*Ciphertext, ck *cloudkey.CloudKey) []*Ciphertext {
	return runBatch(inputs, ck, func(a, b *Ciphertext) *Ciphertext { return offsetBy(a.AddMul(b, 2), 0.25) })
}

// BatchNOR performs batch NOR operations in parallel
func BatchNOR(inputs [][2]*Ciphertext, ck *cloudkey.CloudKey) []*Ciphertext {
	return runBatch(inputs, ck, func(a, b *Ciphertext) *Ciphertext { return offsetBy(a.Add(b).Neg(), -0.125) })
}

// BatchXNOR performs batch XNOR operations in parallel
func BatchXNOR(inputs [][2]*Ciphertext, ck *cloudkey.CloudKey) []*Ciphertext {
	return runBatch(inputs, ck, func(a, b *Ciphertext) *Ciphertext { return offsetBy(a.SubMul(b, 2), 0.25) })
}
''')
    sub(f,'import (\n\t"sync"\n\n','import (\n')
    sub(f,'''	tlweNOR := tlweA.Add(tlweB).Neg()
	tlweNOR.SetB(tlweNOR.B() + utils.F64ToTorus(-0.125))
	return bootstrap(tlweNOR, ck)''','''	return bootstrap(offsetBy(tlweB.Neg().Sub(tlweA), -0.125), ck)''')
    sub(f,'''	result := tlwe.NewTLWELv0()
	bootstrapped := getEval().Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
	copy(result.P, bootstrapped.P)
	result.SetB(bootstrapped.B())
	return result''','''	return Copy(bootstrapTemp(ctxt, ck))''')
    f='trgsw/trgsw.go'
    cut(f,'''	results := make([]*trlwe.TRLWELv1, len(srcs))
	var wg sync.WaitGroup''','// polyMulWithXKInPlace','''	results := make([]*trlwe.TRLWELv1, len(srcs))
	workers := runtime.NumCPU()
	if workers > len(srcs) {
		workers = len(srcs)
	}
	jobs := make(chan int, len(srcs))
	for i := range srcs {
		jobs <- i
	}
	close(jobs)

	var wg sync.WaitGroup
	wg.Add(workers)
	for w := 0; w < workers; w++ {
		go func() {
			defer wg.Done()
			polyEval := evaluatorPool.Get().(*poly.Evaluator)
			defer func() { evaluatorPool.Put(polyEval) }()
			if polyEval.Degree() != params.GetTRGSWLv1().N {
				polyEval = poly.NewEvaluator(params.GetTRGSWLv1().N)
			}
			for idx := range jobs {
				rotated := BlindRotate(srcs[idx], blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
				results[idx] = &trlwe.TRLWELv1{
					A: append([]params.Torus(nil), rotated.A...),
					B: append([]params.Torus(nil), rotated.B...),
				}
			}
		}()
	}
	wg.Wait()
	return results
}

''')
    sub(f,'	"math"\n	"sync"','	"math"\n	"runtime"\n	"sync"')
def r2():
    f='evaluator/evaluator.go'
    sub(f,'''	// Decompose ctIn into pre-allocated''','''	acc := &e.Buffers.ExternalProduct
	// Decompose ctIn into pre-allocated''')
    cut(f,'	// Transform to Fourier domain\n','	// Transform back to time domain','''	acc.FourierA.Clear()
	acc.FourierB.Clear()
	for i, row := range ctFourierGGSW.TRLWEFFT[:2*l] {
		dst := polyFourierDecomposed[i]
		e.PolyEvaluator.ToFourierPolyAssign(polyDecomposed[i], dst)
		e.PolyEvaluator.MulAddFourierPolyAssign(dst, row.A, acc.FourierA)
		e.PolyEvaluator.MulAddFourierPolyAssign(dst, row.B, acc.FourierB)
	}

''')
    cut(f,'	n := params.GetTRGSWLv1().N\n\n	// First copy ct0','// BlindRotateAssign','''	diff := e.Buffers.CMUX.Temp
	subInto(diff.A, ct1.A, ct0.A)
	subInto(diff.B, ct1.B, ct0.B)

	prod := e.Buffers.ExternalProduct.Result
	e.ExternalProductAssign(ctCond, diff, decompositionOffset, prod)
	addInto(ctOut.A, ct0.A, prod.A)
	addInto(ctOut.B, ct0.B, prod.B)
}

func subInto(dst, a, b []params.Torus) {
	for i := range dst {
		dst[i] = a[i] - b[i]
	}
}

func addInto(dst, a, b []params.Torus) {
	for i, v := range a {
		dst[i] = v + b[i]
	}
}

''')
    cut(f,'	n := params.GetTRGSWLv1().N\n	nBit := params','	// Copy result to output','''	rot := &e.Buffers.BlindRotation
	n := params.GetTRGSWLv1().N
	shift := 32 - params.GetTRGSWLv1().NBIT - 1
	half := 1 << (shift - 1)

	bTilda := 2*n - (int(ctIn.B())+half)>>shift
	rotateBoth(testvec, bTilda, rot.Accumulator1)

	for i, a := range ctIn.P[:params.GetTLWELv0().N] {
		aTilda := int((a + params.Torus(half)) >> shift)
		if aTilda == 0 {
			continue // multiplying by X^0 selects between equal ciphertexts
		}
		rotateBoth(rot.Accumulator1, aTilda, rot.Accumulator2)
		e.CMuxAssign(bsk[i], rot.Accumulator1, rot.Accumulator2, decompositionOffset, rot.Accumulator1)
	}

''')
    s=rd(f)+'''
func rotateBoth(src *trlwe.TRLWELv1, k int, dst *trlwe.TRLWELv1) {
	for _, p := range [...][2][]params.Torus{{src.A, dst.A}, {src.B, dst.B}} {
		poly.PolyMulWithXKInPlace(p[0], k, p[1])
	}
}

func (e *Evaluator) finishBootstrap(ksk []*tlwe.TLWELv0, out *tlwe.TLWELv0) {
	extracted := e.Buffers.Bootstrap.ExtractedLWE
	trlwe.SampleExtractIndexAssign(e.Buffers.BlindRotation.Rotated, 0, extracted)
	trgsw.IdentityKeySwitchingAssign(extracted, ksk, out)
}
'''
    wr(f,s)
    cut(f,'	// Sample extract\n','}\n\n// Bootstrap performs','	e.finishBootstrap(ksk, ctOut)\n')
    f='evaluator/programmable_bootstrap.go'
    cut(f,'	// Extract the constant term',None,'	e.finishBootstrap(ksk, ctOut)\n}\n')
    sub(f,'	"github.com/thedonutfactory/go-tfhe/trlwe"\n','')
    f='evaluator/gates_helper.go'
    cut(f,'// PrepareNAND',None,'''func combine(a, b *tlwe.TLWELv0, ca, cb params.Torus, offset float64) *tlwe.TLWELv0 {
	n := params.GetTLWELv0().N
	out := &tlwe.TLWELv0{P: make([]params.Torus, n+1)}
	for i := n; i >= 0; i-- {
		out.P[i] = ca*a.P[i] + cb*b.P[i]
	}
	out.P[n] += utils.F64ToTorus(offset)
	return out
}

// PrepareNAND prepares
func (e *Evaluator) PrepareNAND(a, b *tlwe.TLWELv0) *tlwe.TLWELv0 {
	return combine(a, b, ^params.Torus(0), ^params.Torus(0), 0.125)
}

// PrepareAND prepares
func (e *Evaluator) PrepareAND(a, b *tlwe.TLWELv0) *tlwe.TLWELv0 { return combine(a, b, 1, 1, -0.125) }

// PrepareOR prepares
func (e *Evaluator) PrepareOR(a, b *tlwe.TLWELv0) *tlwe.TLWELv0 { return combine(a, b, 1, 1, 0.125) }

// PrepareXOR prepares
func (e *Evaluator) PrepareXOR(a, b *tlwe.TLWELv0) *tlwe.TLWELv0 { return combine(a, b, 1, 2, 0.25) }
''')
    f='evaluator/buffers.go'
    sub(f,'''	result := bp.ResultPool.Buffers[bp.ResultPool.Index]
	bp.ResultPool.Index = (bp.ResultPool.Index + 1) % 4
	return result''','''	defer func() {
		bp.ResultPool.Index++
		bp.ResultPool.Index &= len(bp.ResultPool.Buffers) - 1
	}()
	return bp.ResultPool.Buffers[bp.ResultPool.Index]''')
def r3():
    f='tlwe/tlwe.go'
    s=rd(f)
    old0='''	rng := rand.New(rand.NewSource(rand.Int63()))
	n := params.GetTLWELv0().N

	var innerProduct params.Torus
	for i := 0; i < n; i++ {
		randU32 := params.Torus(rng.Uint32())
		innerProduct += key[i] * randU32
		t.P[i] = randU32
	}

	b := utils.GaussianF64(p, alpha, rng)
	t.SetB(innerProduct + b)
	return t'''
    assert s.count(old0)==1
    s=s.replace(old0,'	sampleInto(t.P[:params.GetTLWELv0().N+1], p, alpha, key)\n	return t')
    s=s.replace(old0.replace('v0','v1'),'	sampleInto(t.P[:params.GetTLWELv1().N+1], p, alpha, key)\n	return t')
    s=s.replace('''	n := params.GetTLWELv0().N
	var innerProduct params.Torus
	for i := 0; i < n; i++ {
		innerProduct += t.P[i] * key[i]
	}

	resTorus := int32(t.P[n] - innerProduct)
	return resTorus >= 0''','	return !signBit(phaseOf(t.P[:params.GetTLWELv0().N+1], key))')
    s=s.replace('''	n := params.GetTLWELv1().N
	var innerProduct params.Torus
	for i := 0; i < n; i++ {
		innerProduct += t.P[i] * key[i]
	}

	resTorus := int32(t.P[len(key)] - innerProduct)
	return resTorus >= 0''','	return !signBit(phaseOf(t.P[:len(key)+1], key))')
    s=s.replace('''	var p float64
	if pBool {
		p = 0.125
	} else {
		p = -0.125
	}
	return t.EncryptF64(p, alpha, key)''','	return t.EncryptF64(map[bool]float64{true: 0.125, false: -0.125}[pBool], alpha, key)')
    for op,expr in (('Add','t.P[i] + other.P[i]'),('Sub','t.P[i] - other.P[i]')):
        s=s.replace('''	result := NewTLWELv0()
	for i := range result.P {
		result.P[i] = %s
	}
	return result'''%expr,'	return zip(t, other, func(x, y params.Torus) params.Torus { return x %s y })'%('+' if op=='Add' else '-'))
    s=s.replace('result.P[i] = 0 - t.P[i]','result.P[i] = ^t.P[i] + 1')
    s=s.replace('''		result.P[i] = t.P[i] - (other.P[i] * multiplier)''','''		result.P[i] = t.P[i] + other.P[i]*-multiplier''')
    s=s.replace('''	for i := range output.P {
		output.P[i] = t.P[i] + other.P[i]
	}''','''	a, b := t.P, other.P
	for i := len(output.P) - 1; i >= 0; i-- {
		output.P[i] = a[i] + b[i]
	}''')
    s+='''
func zip(a, b *TLWELv0, f func(x, y params.Torus) params.Torus) *TLWELv0 {
	out := NewTLWELv0()
	for i := range out.P {
		out.P[i] = f(a.P[i], b.P[i])
	}
	return out
}

func signBit[T ~uint32](v T) bool { return v>>31 == 1 }

// phaseOf returns body minus mask times key.
func phaseOf(sample, key []params.Torus) params.Torus {
	n := len(sample) - 1
	phase := sample[n]
	for i, a := range sample[:n] {
		phase -= a * key[i]
	}
	return phase
}

// sampleInto fills sample with a fresh encryption of p.
func sampleInto(sample []params.Torus, p, alpha float64, key []params.Torus) {
	rng := rand.New(rand.NewSource(rand.Int63()))
	n := len(sample) - 1
	for i := range sample[:n] {
		sample[i] = params.Torus(rng.Uint32())
	}
	sample[n] = utils.GaussianF64(p, alpha, rng)
	for i, s := range key[:n] {
		sample[n] += s * sample[i]
	}
}
'''
    wr(f,s)
    f='tlwe/programmable_encrypt.go'
    sub(f,'''	n := params.GetTLWELv0().N
	var innerProduct params.Torus
	for i := 0; i < n; i++ {
		innerProduct += t.P[i] * key[i]
	}
	phase := t.P[n] - innerProduct
''','''	phase := phaseOf(t.P[:params.GetTLWELv0().N+1], key)
''')
    sub(f,'''	message = message % messageModulus
	if message < 0 {
		message += messageModulus
	}

	// Encode''','''	message = (message%messageModulus + messageModulus) % messageModulus

	// Encode''')
    sub(f,'''	message := decoded % messageModulus
	if message < 0 {
		message += messageModulus
	}

	return message''','''	return decoded % messageModulus''')
    f='trlwe/trlwe.go'
    body='''	for i := 0; i < n; i++ {
		if i <= k {
			result.P[i] = trlwe.A[k-i]
		} else {
			result.P[i] = ^params.Torus(0) - trlwe.A[n+k-i]
		}
	}
	result.SetB(trlwe.B[k])

	return result'''
    s=rd(f); assert s.count(body)==2
    i=s.index(body); s=s[:i]+'	SampleExtractIndexAssign(trlwe, k, result)\n\n	return result'+s[i+len(body):]
    s=s.replace('func SampleExtractIndex(trlwe *TRLWELv1, k int) *tlwe.TLWELv1 {\n	n := params.GetTRLWELv1().N\n','func SampleExtractIndex(trlwe *TRLWELv1, k int) *tlwe.TLWELv1 {\n')
    s=s.replace(body,'''	extract(result.P[:n], trlwe.A, k)
	result.SetB(trlwe.B[k])

	return result''')
    s=s.replace('''	for i := 0; i < n; i++ {
		t.B[i] += polyRes.Coeffs[i]
	}

	return t''','''	for i, c := range polyRes.Coeffs {
		t.B[i] = c + t.B[i]
	}

	return t''')
    s=s.replace('''		value := int32(t.B[i] - polyRes.Coeffs[i])
		result[i] = value >= 0''','''		result[i] = t.B[i]-polyRes.Coeffs[i] < 1<<31''')
    s=s.replace('''	pF64 := make([]float64, len(pBool))
	for i, b := range pBool {
		if b {
			pF64[i] = 0.125
		} else {
			pF64[i] = -0.125
		}
	}''','''	pF64 := make([]float64, 0, len(pBool))
	for _, b := range pBool {
		switch {
		case b:
			pF64 = append(pF64, 1.0/8)
		default:
			pF64 = append(pF64, -1.0/8)
		}
	}''')
    wr(f,s)
    f='trlwe/trlwe_ops.go'
    s=rd(f); i=s.index('	n := params.GetTRLWELv1'); s=s[:i]+'''	extract(output.P[:params.GetTRLWELv1().N], trlwe.A, k)
	output.SetB(trlwe.B[k])
}

// extract writes coefficient k's mask: A[k], A[k-1], ..., A[0], -A[n-1], ..., -A[k+1].
func extract(dst, a []params.Torus, k int) {
	n := len(dst)
	j := 0
	for ; j <= k; j++ {
		dst[j] = a[k-j]
	}
	for ; j < n; j++ {
		dst[j] = ^a[n+k-j]
	}
}
'''; wr(f,s)
    f='trgsw/keyswitch.go'
    s=rd(f); i=s.index('	n := params.GetTRGSWLv1'); s=s[:i]+'''	p := params.GetTRGSWLv1()
	clear(output.P)
	output.P[params.GetTLWELv0().N] = src.P[len(src.P)-1]
	switchInto(output.P, src.P[:p.N], keySwitchingKey, p.BASEBIT, p.IKS_T)
}

func switchInto(out, mask []params.Torus, ksk []*tlwe.TLWELv0, basebit, t int) {
	round := params.Torus(1) << (31 - basebit*t)
	digitMask := params.Torus(1)<<basebit - 1
	row := 0
	for _, a := range mask {
		a += round
		for shift := 32 - basebit; shift >= 32-t*basebit; shift -= basebit {
			if d := a >> shift & digitMask; d > 0 {
				subtract(out, ksk[row+int(d)].P)
			}
			row += 1 << basebit
		}
	}
}

func subtract(dst, v []params.Torus) {
	for x := range dst {
		dst[x] -= v[x]
	}
}
'''; wr(f,s)
    f='trgsw/trgsw.go'
    cut(f,'// IdentityKeySwitching performs',None,'''// IdentityKeySwitching performs identity key switching
func IdentityKeySwitching(src *tlwe.TLWELv1, keySwitchingKey []*tlwe.TLWELv0) *tlwe.TLWELv0 {
	result := tlwe.NewTLWELv0()
	IdentityKeySwitchingAssign(src, keySwitchingKey, result)
	return result
}
''')
def r4():
    f='poly/fourier_transform.go'
    cut(f,'	// Process 4 elements at a time for SIMD','// floatModQInPlace','''	half := N / 2
	for b := 0; b < half/4; b++ {
		out := fpOut[8*b : 8*b+8]
		for k := 0; k < 4; k++ {
			out[k] = float64(int32(p[4*b+k]))
			out[4+k] = float64(int32(p[half+4*b+k]))
		}
	}
}

''')
    cut(f,'''	N := len(coeffs)

	for i := 0; i < N; i += 8 {
		c := (*''','// convertFourierPolyToPolyAssign','''	for i, c := range coeffs {
		coeffs[i] = math.Round(c - Q*math.Round(c/Q))
	}
}

func unfold(fp []float64, pOut []params.Torus, f func(old, v params.Torus) params.Torus) {
	half := len(pOut) / 2
	for i := 0; i < half; i++ {
		at := i/4*8 + i%4
		pOut[i] = f(pOut[i], params.Torus(int64(fp[at])))
		pOut[half+i] = f(pOut[half+i], params.Torus(int64(fp[at+4])))
	}
}

''')
    for a,b,e in (('convertFourierPolyToPolyAssign','// convertFourierPolyToPolyAddAssign','v'),('convertFourierPolyToPolyAddAssign','// convertFourierPolyToPolySubAssign','old + v'),('convertFourierPolyToPolySubAssign','// butterfly','old - v')):
        cut(f,'func %s(fp'%a,b,'func %s(fp []float64, pOut []params.Torus) {\n	unfold(fp, pOut, func(old, v params.Torus) params.Torus { return %s })\n}\n\n'%(a,e))
    # fft with slices
    s=rd(f)
    s=re.sub(r'''(\t+)u\[0\], u\[4\], v\[0\], v\[4\] = (\w+)\(u\[0\].*\n.*\n.*\n.*\n''',lambda m:m[1]+'for q := 0; q < 4; q++ {\n'+m[1]+'\tu[q], u[q+4], v[q], v[q+4] = %s(u[q], u[q+4], v[q], v[q+4], wReal, wImag)\n'%m[2]+m[1]+'}\n',s)
    i=s.index('		u[0] /= scale'); s=s[:i]+'''		for q := range u {
			u[q] /= scale
			v[q] /= scale
		}
	}
}
'''
    wr(f,s)
    f='poly/fourier_ops.go'
    s=rd(f); i=s.index('// addCmplxAssign'); s=s[:i]+'''
func addCmplxAssign(v0, v1, vOut []float64) {
	for i := range vOut {
		vOut[i] = v0[i] + v1[i]
	}
}

func subCmplxAssign(v0, v1, vOut []float64) {
	for i := range vOut {
		vOut[i] = v0[i] - v1[i]
	}
}

func floatMulCmplxAssign(v0 []float64, c float64, vOut []float64) {
	for i, x := range v0 {
		vOut[i] = c * x
	}
}

func floatMulAddCmplxAssign(v0 []float64, c float64, vOut []float64) {
	for i, x := range v0 {
		vOut[i] += c * x
	}
}

func eachComplex(v0, v1, vOut []float64, f func(out, prod complex128) complex128) {
	for i := 0; i < len(vOut); i += 8 {
		for k := i; k < i+4; k++ {
			r := v0[k]*v1[k] - v0[k+4]*v1[k+4]
			m := v0[k]*v1[k+4] + v0[k+4]*v1[k]
			z := f(complex(vOut[k], vOut[k+4]), complex(r, m))
			vOut[k], vOut[k+4] = real(z), imag(z)
		}
	}
}

func elementWiseMulCmplxAssign(v0, v1, vOut []float64) {
	eachComplex(v0, v1, vOut, func(_, p complex128) complex128 { return p })
}

func elementWiseMulAddCmplxAssign(v0, v1, vOut []float64) {
	eachComplex(v0, v1, vOut, func(o, p complex128) complex128 { return o + p })
}

func elementWiseMulSubCmplxAssign(v0, v1, vOut []float64) {
	eachComplex(v0, v1, vOut, func(o, p complex128) complex128 { return o - p })
}
'''; s=s.replace('import "unsafe"\n',''); wr(f,s)
    f='poly/poly_mul.go'
    s=rd(f); i=s.index('	// Transform both'); s=s[:i]+'''	e.ToPolyAssignUnsafe(e.product(p0, p1), pOut)
}

func (e *Evaluator) product(p0, p1 Poly) FourierPoly {
	return e.MulFourierPoly(e.ToFourierPoly(p0), e.ToFourierPoly(p1))
}

// MulAddPolyAssign computes pOut += p0 * p1.
func (e *Evaluator) MulAddPolyAssign(p0, p1, pOut Poly) {
	e.ToPolyAddAssignUnsafe(e.product(p0, p1), pOut)
}

// MulSubPolyAssign computes pOut -= p0 * p1.
func (e *Evaluator) MulSubPolyAssign(p0, p1, pOut Poly) {
	e.ToPolySubAssignUnsafe(e.product(p0, p1), pOut)
}
'''; wr(f,s)
    f='poly/decomposer.go'
    cut(f,'	n := len(p)\n	mask',None,'''	digit := params.Torus(1)<<bgbit - 1
	half := params.Torus(1) << bgbit >> 1
	for i := 0; i < level; i++ {
		shift := uint(32 - (i+1)*bgbit)
		out := decomposedOut[i].Coeffs
		for j, c := range p {
			out[j] = (c+offset)>>shift&digit - half
		}
	}
}
''')
    f='poly/buffer_methods.go'
    cut(f,'	n := len(a)\n	k = k %','// PolyMulWithXKDirect','''	n := len(a)
	period := 2 * n
	k = ((k % period) + period) % period
	for i, c := range a {
		to := i + k
		odd := false
		for to >= n {
			to -= n
			odd = !odd
		}
		if odd {
			c = ^c
		}
		result[to] = c
	}
}

''')
    sub(f,'''	var fpOut *FourierPoly
	switch bufferName {
	case "fpAcc":
		fpOut = &e.buffer.fpAcc
	case "fpBcc":
		fpOut = &e.buffer.fpBcc
	default:
		panic("unknown buffer name: " + bufferName)
	}
''','''	fpOut := e.named(bufferName)
''')
    sub(f,'''// BufferToPolyAssign conv''','''func (e *Evaluator) named(name string) *FourierPoly {
	b := map[string]*FourierPoly{"fpAcc": &e.buffer.fpAcc, "fpBcc": &e.buffer.fpBcc}[name]
	if b == nil {
		panic(fmt.Sprintf("unknown buffer name: %s", name))
	}
	return b
}

// BufferToPolyAssign conv''')
    sub(f,'import "github.com/thedonutfactory/go-tfhe/params"','import (\n	"fmt"\n\n	"github.com/thedonutfactory/go-tfhe/params"\n)')
    f='trgsw/trgsw.go'
    cut(f,'	// Decompose directly into buffers','// CMUX performs','''	for half, src := range [2][]params.Torus{trlweIn.A, trlweIn.B} {
		for i := 0; i < l; i++ {
			idx := half*l + i
			buf := polyEval.GetDecompBuffer(idx)
			shift := 32 - (uint32(i)+1)*bgbit
			for j := 0; j < n; j++ {
				buf.Coeffs[j] = ((src[j] + offset) >> shift & mask) - halfBG
			}
			polyEval.ToFourierPolyInBuffer(*buf, idx)
		}
	}
}

''')
def r5():
    f='params/params.go'
    s=rd(f)
    i=s.index('// GetTLWELv0 returns'); j=s.index('// SecurityInfo returns')
    new='''type paramSet struct {
	TLWELv0  TLWELv0Params
	TLWELv1  TLWELv1Params
	TRLWELv1 TRLWELv1Params
	TRGSWLv1 TRGSWLv1Params
}

var paramSets = map[SecurityLevel]*paramSet{
	Security80Bit:  (*paramSet)(&params80Bit),
	Security110Bit: (*paramSet)(&params110Bit),
	SecurityUint1:  (*paramSet)(&paramsUint1),
	SecurityUint2:  (*paramSet)(&paramsUint2),
	SecurityUint3:  (*paramSet)(&paramsUint3),
	SecurityUint4:  (*paramSet)(&paramsUint4),
	SecurityUint5:  (*paramSet)(&paramsUint5),
	SecurityUint6:  (*paramSet)(&paramsUint6),
	SecurityUint7:  (*paramSet)(&paramsUint7),
	SecurityUint8:  (*paramSet)(&paramsUint8),
}

func current() *paramSet {
	if p, ok := paramSets[CurrentSecurityLevel]; ok {
		return p
	}
	return (*paramSet)(&params128Bit)
}

// GetTLWELv0 returns the TLWE Level 0 parameters for the current security level
func GetTLWELv0() TLWELv0Params { return current().TLWELv0 }

// GetTLWELv1 returns the TLWE Level 1 parameters for the current security level
func GetTLWELv1() TLWELv1Params { return current().TLWELv1 }

// GetTRLWELv1 returns the TRLWE Level 1 parameters for the current security level
func GetTRLWELv1() TRLWELv1Params { return current().TRLWELv1 }

// GetTRGSWLv1 returns the TRGSW Level 1 parameters for the current security level
func GetTRGSWLv1() TRGSWLv1Params { return current().TRGSWLv1 }

// KSKAlpha returns the key switching key alpha for the current security level
func KSKAlpha() float64 { return current().TLWELv0.ALPHA }

// BSKAlpha returns the bootstrapping key alpha for the current security level
func BSKAlpha() float64 { return current().TLWELv1.ALPHA }

'''
    s=s[:i]+new+s[j:]
    s=s.replace('''	lweDim := GetTLWELv0().N
	blockSize := GetTRGSWLv1().BlockSize
	if blockSize <= 1 {
		return lweDim // Original algorithm (no blocks)
	}
	return (lweDim + blockSize - 1) / blockSize // Ceiling division''','''	n, size := GetTLWELv0().N, max(GetTRGSWLv1().BlockSize, 1)
	count := n / size
	if n%size != 0 {
		count++
	}
	return count''')
    wr(f,s)
    f='lut/encoder.go'
    cut(f,'	// Normalize message to [0, MessageModulus)\n	message = message % e.MessageModulus\n	if message < 0 {\n		message += e.MessageModulus\n	}\n\n	// Encode as','// EncodeWithCustomScale','	return e.EncodeWithCustomScale(message, e.Scale)\n}\n\n')
    sub(f,'''	message = message % e.MessageModulus
	if message < 0 {
		message += e.MessageModulus
	}
	value := float64(message) * scale
	return utils.F64ToTorus(value)''','''	return utils.F64ToTorus(float64(e.reduce(message)) * scale)''')
    sub(f,'''	// Normalize to [0, MessageModulus)
	message = message % e.MessageModulus
	if message < 0 {
		message += e.MessageModulus
	}

	return message
}''','''	return e.reduce(message)
}

func (e *Encoder) reduce(m int) int {
	if m %= e.MessageModulus; m < 0 {
		return m + e.MessageModulus
	}
	return m
}''')
    f='lut/generator.go'
    cut(f,'	messageModulus := g.Encoder.MessageModulus\n\n	// Create raw','// GenLookUpTableFull generates','''	enc := g.Encoder
	g.GenLookUpTableFullAssign(func(x int) params.Torus { return enc.Encode(f(x)) }, lutOut)
}

''')
    cut(f,'	messageModulus := g.Encoder.MessageModulus\n','// GenLookUpTableCustom','''	m, size := g.Encoder.MessageModulus, g.LookUpTableSize
	offset := divRound(size, 2*m)
	for x, start := 0, 0; x < m; x++ {
		end := divRound((x+1)*size, m)
		y := f(x)
		for i := start; i < end; i++ {
			if i >= offset {
				lutOut.Poly.B[i-offset] = y
			} else {
				lutOut.Poly.B[i-offset+size] = -y
			}
		}
		start = end
	}
	clear(lutOut.Poly.A[:size])
}

''')
    sub(f,'''	oldEncoder := g.Encoder
	g.Encoder = NewEncoderWithScale(messageModulus, scale)

	g.GenLookUpTableAssign(f, lut)

	g.Encoder = oldEncoder

	return lut''','''	custom := *g
	custom.Encoder = NewEncoderWithScale(messageModulus, scale)
	custom.GenLookUpTableAssign(f, lut)
	return lut''')
    f='lut/lut.go'
    sub(f,'''	result := NewLookUpTable()
	copy(result.Poly.A, lut.Poly.A)
	copy(result.Poly.B, lut.Poly.B)
	return result''','''	result := NewLookUpTable()
	result.CopyFrom(lut)
	return result''')
    f='utils/utils.go'
    sub(f,'''	torus := math.Mod(d, 1.0) * float64(uint64(1)<<32)
	return params.Torus(int64(torus))''','''	_, frac := math.Modf(d)
	return params.Torus(int64(math.Ldexp(frac, 32)))''')
    sub(f,'''		result[i] = GaussianTorus(F64ToTorus(m), stddev, rng)''','''		result[i] = GaussianF64(m, stddev, rng)''')
    sub(f,'return float64(t) / float64(uint64(1)<<32)','return math.Ldexp(float64(t), -32)')
    sub(f,'''	sample := rng.NormFloat64() * stddev
	return mu + F64ToTorus(sample)''','''	return F64ToTorus(stddev*rng.NormFloat64()) + mu''')
def r6():
    f='proxyreenc/proxyreenc.go'
    s=rd(f)
    i=s.index('	base := 1 << basebit\n	n := params'); j=s.index('// NewProxyReencryptionKeySymmetric generates')
    s=s[:i]+'''	return fillKey(keyFrom, basebit, t, func(p float64) *tlwe.TLWELv0 {
		return publicKeyTo.EncryptF64(p, alpha)
	})
}

// fillKey builds the digit table with the given encryption.
func fillKey(keyFrom []params.Torus, basebit, t int, enc func(float64) *tlwe.TLWELv0) *ProxyReencryptionKey {
	base := 1 << basebit
	n := params.GetTLWELv0().N
	out := make([]*tlwe.TLWELv0, 0, base*t*n)
	for _, s := range keyFrom[:n] {
		for j, weight := 0, 1.0; j < t; j++ {
			weight /= float64(base)
			out = append(out, tlwe.NewTLWELv0())
			for k := 1; k < base; k++ {
				out = append(out, enc(float64(k)*float64(s)*weight))
			}
		}
	}
	return &ProxyReencryptionKey{KeyEncryptions: out, Base: base, T: t}
}

'''+s[j:]
    i=s.index('	base := 1 << basebit\n	n := params',s.index('func NewProxyReencryptionKeySymmetricWithParams')); j=s.index('// ReencryptTLWELv0 reencrypts')
    s=s[:i]+'''	return fillKey(keyFrom, basebit, t, func(p float64) *tlwe.TLWELv0 {
		return tlwe.NewTLWELv0().EncryptF64(p, alpha, keyTo)
	})
}

'''+s[j:]
    i=s.index('	// Calculate basebit from base')
    s=s[:i]+'''	basebit := bits.Len(uint(reencKey.Base - 1))
	t := reencKey.T
	result := tlwe.NewTLWELv0()
	result.SetB(ctFrom.B())
	rounding := params.Torus(1) << (31 - basebit*t)
	for i, a := range ctFrom.P[:n] {
		// the t leading digits, most significant first
		digits := (a + rounding) >> (32 - basebit*t)
		for j := t - 1; j >= 0; j-- {
			k := int(digits) & (reencKey.Base - 1)
			digits >>= basebit
			if k == 0 {
				continue
			}
			entry := reencKey.KeyEncryptions[(i*t+j)*reencKey.Base+k]
			result = result.Sub(entry)
		}
	}
	return result
}
'''
    s=s.replace('import (\n','import (\n	"math/bits"\n')
    s=s.replace('''		if rng.Intn(2) == 1 {
			// Add or subtract randomly
			if rng.Intn(2) == 1 {
				for i := 0; i <= n; i++ {
					result.P[i] = result.P[i] + enc.P[i]
				}
			} else {
				for i := 0; i <= n; i++ {
					result.P[i] = result.P[i] - enc.P[i]
				}
			}
		}''','''		if rng.Intn(2) != 1 {
			continue
		}
		sign := ^params.Torus(0)
		if rng.Intn(2) == 1 {
			sign = 1
		}
		for i := range enc.P[:n+1] {
			result.P[i] += sign * enc.P[i]
		}''')
    wr(f,s)
    f='cloudkey/cloudkey.go'
    sub(f,'''	for i := 0; i < l; i++ {
		offset += params.Torus(bg/2) * params.Torus(1<<(32-((i+1)*int(bgbit))))
	}
''','''	for shift := 32 - int(bgbit); l > 0; l, shift = l-1, shift-int(bgbit) {
		offset += bgHalf << shift
	}
''')
    sub(f,'''	bg := params.GetTRGSWLv1().BG
	bgbit''','''	bgHalf := params.Torus(params.GetTRGSWLv1().BG / 2)
	bgbit''')
    cut(f,'	var wg sync.WaitGroup\n	for i := 0; i < n; i++','// genBootstrappingKey','''	parallel(n, func(i int) {
		rows := result[i*base*iksT : (i+1)*base*iksT]
		for j := 0; j < iksT; j++ {
			weight := float64(secretKey.KeyLv1[i]) / float64(uint64(1)<<uint((j+1)*basebit))
			for k := 1; k < base; k++ {
				rows[j*base+k].EncryptF64(float64(k)*weight, params.KSKAlpha(), secretKey.KeyLv0)
			}
		}
	})

	return result
}

// parallel runs f(0..n-1) on a bounded number of goroutines.
func parallel(n int, f func(int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < runtime.GOMAXPROCS(0); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

''')
    cut(f,'	var wg sync.WaitGroup\n	for i := 0; i < lv0N; i++',None,'''	parallel(lv0N, func(idx int) {
		polyEval := poly.NewEvaluator(params.GetTRGSWLv1().N)
		cipher := trgsw.NewTRGSWLv1()
		cipher.EncryptTorus(secretKey.KeyLv0[idx], params.BSKAlpha(), secretKey.KeyLv1, polyEval)
		result[idx] = trgsw.NewTRGSWLv1FFT(cipher, polyEval)
	})

	return result
}
''')
    sub(f,'	"sync"\n','	"runtime"\n	"sync"\n	"sync/atomic"\n')
    f='key/key.go'
    cut(f,'	keyLv0 := make','	return &SecretKey{','''	keyLv0 := binaryKey(rng, lv0N)
	keyLv1 := binaryKey(rng, lv1N)

''')
    wr(f,rd(f)+'''
func binaryKey(rng *rand.Rand, n int) []params.Torus {
	k := make([]params.Torus, n)
	for i := range k {
		k[i] = params.Torus(rng.Intn(2))
	}
	return k
}
''')
    f='bitutils/bitutils.go'
    s=rd(f)
    i=s.index('func ConvertU8'); j=s.index('// ToBits')
    s=s[:i]+'''func ConvertU8(bits []bool) uint8 { return join[uint8](bits) }

func ConvertU16(bits []bool) uint16 { return join[uint16](bits) }

func ConvertU32(bits []bool) uint32 { return join[uint32](bits) }

func ConvertU64(bits []bool) uint64 { return join[uint64](bits) }

func join[T uint8 | uint16 | uint32 | uint64](bits []bool) T {
	var result T
	for i, b := range bits {
		if b {
			result |= 1 << i
		}
	}
	return result
}

'''+s[j:]
    s=s.replace('''	for i := 0; i < size; i++ {
		vec[i] = ((val >> i) & 1) != 0
	}''','''	for i := range vec {
		vec[i] = val%2 == 1
		val /= 2
	}''')
    wr(f,s)
    f='trgsw/trgsw.go'
    sub(f,'''		pF64[i] = 1.0 / math.Pow(bg, float64(i+1))''','''		pF64[i] = math.Pow(bg, -float64(i+1))''')
    sub(f,'''	for i := 0; i < l; i++ {
		t.TRLWE[i].A[0] += p * pTorus[i]
		t.TRLWE[i+l].B[0] += p * pTorus[i]
	}''','''	for i, g := range pTorus {
		v := g * p
		a, b := t.TRLWE[i], t.TRLWE[l+i]
		a.A[0], b.B[0] = a.A[0]+v, b.B[0]+v
	}''')
for n in sys.argv[1:]: globals()[n]()
