package main

import (
	"fmt"
	"go/types"
	"math"
	"math/cmplx"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------- random draws ----------

type drawRec struct {
	kind string
	n    int64
	atom *Atom
	conc int64
	f    float64
}

type randState struct {
	mode    int // 0 symbolic, 1 concrete
	bound   float64
	low     float64
	ctr     uint64
	streams map[string][]drawRec
	log     []string // stream keys in order of growth
	tape    []drawRec
	tapePos int // < 0: not rewinding
	now     int64
	ndraw   int
}

func (r *randState) init() {
	r.streams = map[string][]drawRec{}
	r.tapePos = -1
	r.bound, r.low = 8, -8
	r.now = 1_700_000_000_000_000_000
}

type randSave struct {
	ctr         uint64
	nlog, ntape int
	tapePos     int
	now         int64
	mode        int
	bound, low  float64
	ndraw       int
}

func (r *randState) save() randSave {
	return randSave{r.ctr, len(r.log), len(r.tape), r.tapePos, r.now, r.mode, r.bound, r.low, r.ndraw}
}
func (r *randState) restore(s randSave) {
	for i := len(r.log) - 1; i >= s.nlog; i-- {
		k := r.log[i]
		r.streams[k] = r.streams[k][:len(r.streams[k])-1]
	}
	r.log = r.log[:s.nlog]
	r.tape = r.tape[:s.ntape]
	r.ctr, r.tapePos, r.now, r.mode, r.bound, r.low, r.ndraw = s.ctr, s.tapePos, s.now, s.mode, s.bound, s.low, s.ndraw
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	z := x
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// draw produces one random value of the given kind; key is the stream ("" for
// the global generator), pos the position in it.
func (st *State) draw(kind string, n int64, key string, pos int) drawRec {
	r := &st.rnd
	var d drawRec
	switch {
	case r.tapePos >= 0 && r.tapePos < len(r.tape) && r.tape[r.tapePos].kind == kind && r.tape[r.tapePos].n == n:
		d = r.tape[r.tapePos]
		r.tapePos++
		st.recordDraw(d)
		return d
	case r.mode == 1:
		x := splitmix(r.ctr)
		r.ctr++
		d = drawRec{kind: kind, n: n}
		switch kind {
		case "NormFloat64":
			d.f = (float64(x>>11)/(1<<53)*2 - 1) * 3
		case "Float64":
			d.f = float64(x>>11) / (1 << 53)
		case "Uint64":
			d.conc = int64(x)
		case "Uint32":
			d.conc = int64(x >> 32)
		case "Int63", "Int":
			d.conc = int64(x >> 1)
		case "Int31":
			d.conc = int64(x >> 33)
		case "Byte":
			d.conc = int64(x >> 56)
		default:
			d.conc = int64((x >> 1) % uint64(n))
		}
		if st.makingBase {
			return d
		}
		r.tape = append(r.tape, d)
		st.recordDraw(d)
		return d
	}
	if key != "" {
		if s := r.streams[key]; pos < len(s) && s[pos].kind == kind && s[pos].n == n {
			d = s[pos]
			r.tape = append(r.tape, d)
			st.recordDraw(d)
			return d
		}
	}
	r.ndraw++
	a := &Atom{kind: AVar, w: 64, name: fmt.Sprintf("%s#%d", kind, r.ndraw)}
	switch kind {
	case "NormFloat64":
		a.kind = AReal
		a.flo, a.fhi = r.low, r.bound
	case "Float64":
		a.kind = AReal
		a.flo, a.fhi = 0, 1
	case "Uint64":
		a.big = true
	case "Uint32":
		a.hi = math.MaxUint32
	case "Int63", "Int":
		a.hi = math.MaxInt64
	case "Int31":
		a.hi = math.MaxInt32
	case "Byte":
		a.hi = 255
	default:
		a.hi = n - 1
	}
	st.c.newAtom(a)
	d = drawRec{kind: kind, n: n, atom: a}
	if key != "" && pos == len(r.streams[key]) {
		r.streams[key] = append(r.streams[key], d)
		r.log = append(r.log, key)
	}
	r.tape = append(r.tape, d)
	st.recordDraw(d)
	return d
}

func (st *State) recordDraw(d drawRec) {
	in := &Input{kind: d.kind, atom: d.atom, conc: d.conc, concf: d.f}
	if st.depth() > 0 {
		in.guard = st.guard()
	}
	st.inputs = append(st.inputs, in)
}

func (st *State) drawVal(d drawRec, w uint8, signed bool) Val {
	if d.kind == "NormFloat64" || d.kind == "Float64" {
		if d.atom == nil {
			return fv(d.f)
		}
		return Val{R: st.c.FVar(d.atom)}
	}
	if d.atom == nil {
		return Val{U: normInt(uint64(d.conc), w, signed)}
	}
	return tval(st.c.atomTerm(d.atom, w), signed)
}

var drawKinds = map[string]struct {
	kind   string
	w      uint8
	signed bool
	narg   int
}{
	"Int63": {"Int63", 64, true, 0}, "Int": {"Int", 64, true, 0}, "Int31": {"Int31", 32, true, 0}, "Uint32": {"Uint32", 32, false, 0},
	"Uint64": {"Uint64", 64, false, 0}, "Int63n": {"Intn", 64, true, 1}, "Int31n": {"Intn", 32, true, 1}, "Intn": {"Intn", 64, true, 1},
	"Float64": {"Float64", 64, true, 0}, "NormFloat64": {"NormFloat64", 64, true, 0},
	// math/rand/v2
	"Int64": {"Int63", 64, true, 0}, "Int32": {"Int31", 32, true, 0}, "IntN": {"Intn", 64, true, 1}, "Int64N": {"Intn", 64, true, 1},
	"Int32N": {"Intn", 32, true, 1}, "Uint32N": {"Intn", 32, false, 1}, "Uint64N": {"Intn", 64, false, 1}, "UintN": {"Intn", 64, false, 1},
}

func randIntrinsic(path string, f *ssa.Function) intrinsic {
	recv := f.Signature.Recv()
	name := f.Name()
	if k, ok := drawKinds[name]; ok && (recv == nil || strings.HasSuffix(recv.Type().String(), ".Rand")) {
		method := recv != nil
		return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
			st := fr.st
			key, pos := "", 0
			a := args
			if method {
				a = args[1:]
				o, ok := args[0].R.(*Obj)
				if !ok {
					if args[0].R == nil {
						st.goPanic("invalid memory address or nil pointer dereference")
					}
					panic(unsupported("guarded *rand.Rand"))
				}
				if len(o.cells) < 2 || o.cells[0].R == nil {
					panic(unsupported("rand.Rand not made by rand.New"))
				}
				key = str(o.cells[0])
				if st.race != nil {
					st.race.write(o, 1, 1)
				}
				if o.cells[1].R != nil {
					panic(unsupported("random stream position depends on data"))
				}
				pos = int(o.cells[1].U)
				st.setCell(o, 1, Val{U: uint64(pos + 1)})
			}
			var n int64
			if k.narg == 1 {
				n = st.conc(a[0], CK{kInt, k.w, k.signed})
				if n <= 0 {
					st.goPanic("invalid argument to " + name)
				}
			}
			if st.depth() > 0 && (k.kind == "NormFloat64" || st.rnd.tapePos >= 0) {
				st.abortMerge("draw in merged code")
			}
			d := st.draw(k.kind, n, key, pos)
			if k.kind == "NormFloat64" && !st.makingBase {
				st.norms = append(st.norms, st.inputs[len(st.inputs)-1])
			}
			return st.drawVal(d, k.w, k.signed)
		}
	}
	if recv == nil {
		switch name {
		case "NewSource":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				st := fr.st
				key := ""
				if args[0].R == nil {
					key = fmt.Sprintf("c%d", args[0].U)
				} else {
					key = fmt.Sprintf("t%d", st.c.resolve(args[0].R.(*Term)).id)
				}
				if st.makingBase && args[0].R == nil {
					st.baseRand++
				}
				if !st.makingBase {
					if st.depth() > 0 {
						st.abortMerge("generator made in merged code")
					}
					st.seeds = append(st.seeds, args[0])
				}
				return Val{R: &Iface{f.Signature.Results().At(0).Type(), Val{R: &srcRep{key}}}}
			}
		case "New":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				st := fr.st
				i, ok := args[0].R.(*Iface)
				if !ok {
					st.goPanic("nil source")
				}
				s, ok := i.v.R.(*srcRep)
				if !ok {
					panic(unsupported("custom rand.Source"))
				}
				o := st.newObj(2, []CK{{k: kStr}, {kInt, 64, true}})
				o.cells[0] = Val{R: s.key}
				o.rng = true
				return Val{R: o}
			}
		case "NewPCG":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				key := "p"
				for _, a := range args {
					if a.R == nil {
						key += fmt.Sprintf("c%d", a.U)
					} else {
						key += fmt.Sprintf("t%d", fr.st.c.resolve(a.R.(*Term)).id)
					}
				}
				return Val{R: &srcRep{key}}
			}
		case "Seed":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val { panic(unsupported("rand.Seed")) }
		}
	}
	return nil
}

type srcRep struct{ key string }

// ---------- std intrinsics ----------

var mathFns1 = map[string]func(float64) float64{
	"Sqrt": math.Sqrt, "Exp": math.Exp, "Exp2": math.Exp2, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Sin": math.Sin,
	"Cos": math.Cos, "Tan": math.Tan, "Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan, "Sinh": math.Sinh, "Cosh": math.Cosh, "Tanh": math.Tanh,
	"Round": math.Round, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "RoundToEven": math.RoundToEven, "Abs": math.Abs,
	"Cbrt": math.Cbrt, "Expm1": math.Expm1, "Log1p": math.Log1p, "Erf": math.Erf, "Erfc": math.Erfc, "Gamma": math.Gamma,
}
var mathFns2 = map[string]func(a, b float64) float64{
	"Pow": math.Pow, "Mod": math.Mod, "Atan2": math.Atan2, "Max": math.Max, "Min": math.Min, "Hypot": math.Hypot, "Copysign": math.Copysign,
	"Remainder": math.Remainder, "Dim": math.Dim,
}

func mathIntrinsic(f *ssa.Function) intrinsic {
	name := f.Name()
	if g, ok := mathFns1[name]; ok {
		return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
			v := args[0]
			if v.R == nil {
				return fv(g(fb(v)))
			}
			st := fr.st
			x := v.R.(*FNode)
			switch name {
			case "Round":
				return fval(st.c.FRoundOp(FRound, x))
			case "Floor":
				return fval(st.c.FRoundOp(FFloor, x))
			case "Ceil":
				return fval(st.c.FRoundOp(FCeil, x))
			case "Trunc":
				return fval(st.c.FRoundOp(FTrunc, x))
			case "RoundToEven":
				return fval(st.c.FRoundOp(FRoundEven, x))
			case "Abs":
				return fval(st.c.FAbs(x))
			}
			panic(unsupported("math." + name + " of a symbolic value"))
		}
	}
	if g, ok := mathFns2[name]; ok {
		return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
			if args[0].R == nil && args[1].R == nil {
				return fv(g(fb(args[0]), fb(args[1])))
			}
			st := fr.st
			a, b := st.F(args[0]), st.F(args[1])
			switch name {
			case "Mod":
				if b.isConst() {
					return fval(st.c.FMod(a, b.c0))
				}
			case "Copysign":
				m := st.c.FAbs(a)
				return fval(st.c.FIte(st.c.FCmp(RLt, b, st.c.FConst(0)), st.c.FMulC(m, -1), m))
			case "Remainder":
				if b.isConst() && isPow2F(math.Abs(b.c0)) {
					m := math.Abs(b.c0)
					q := st.c.FRoundOp(FRoundEven, st.c.FMulC(a, 1/m))
					return fval(st.c.FAdd(a, st.c.FMulC(q, m), -1))
				}
			case "Dim":
				d := st.c.FAdd(a, b, -1)
				return fval(st.c.FIte(st.c.FCmp(RLt, d, st.c.FConst(0)), st.c.FConst(0), d))
			case "Max":
				return fval(st.c.FIte(st.c.FCmp(RLt, a, b), b, a))
			case "Min":
				return fval(st.c.FIte(st.c.FCmp(RLt, a, b), a, b))
			}
			panic(unsupported("math." + name + " of symbolic values"))
		}
	}
	switch name {
	case "Signbit":
		return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
			if args[0].R == nil {
				return Val{U: b2u(math.Signbit(fb(args[0])))}
			}
			return bval(fr.st.c.FCmp(RLt, fr.st.F(args[0]), fr.st.c.FConst(0)))
		}
	case "Float64bits":
		return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
			return Val{U: math.Float64bits(fb(args[0]))}
		}
	case "Float64frombits":
		return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
			if args[0].R != nil {
				panic(unsupported("Float64frombits of a symbolic value"))
			}
			return Val{U: args[0].U}
		}
	case "Float32bits", "Float32frombits":
		return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
			if args[0].R != nil {
				panic(unsupported(name))
			}
			return args[0]
		}
	case "Inf":
		return func(fr *Frame, args []Val, call *ssa.CallCommon) Val { return fv(math.Inf(int(int64(args[0].U)))) }
	case "NaN":
		return func(fr *Frame, args []Val, call *ssa.CallCommon) Val { return fv(math.NaN()) }
	case "IsNaN":
		return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
			if args[0].R != nil {
				return Val{}
			}
			return Val{U: b2u(math.IsNaN(fb(args[0])))}
		}
	case "IsInf":
		return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
			if args[0].R != nil {
				return Val{}
			}
			return Val{U: b2u(math.IsInf(fb(args[0]), int(int64(args[1].U))))}
		}
	case "FMA":
		return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
			if args[0].R == nil && args[1].R == nil && args[2].R == nil {
				return fv(math.FMA(fb(args[0]), fb(args[1]), fb(args[2])))
			}
			st := fr.st
			return fval(st.c.FAdd(st.c.FMul(st.F(args[0]), st.F(args[1])), st.F(args[2]), 1))
		}
	case "Modf":
		return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
			if args[0].R == nil {
				a, b := math.Modf(fb(args[0]))
				return Val{R: &Agg{[]Val{fv(a), fv(b)}}}
			}
			st := fr.st
			x := st.F(args[0])
			return Val{R: &Agg{[]Val{fval(st.c.FRoundOp(FTrunc, x)), fval(st.c.FMod(x, 1))}}}
		}
	case "Ldexp":
		return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
			e := int(int64(args[1].U))
			if args[1].R != nil {
				panic(unsupported("Ldexp"))
			}
			if args[0].R == nil {
				return fv(math.Ldexp(fb(args[0]), e))
			}
			return fval(fr.st.c.FMulC(fr.st.F(args[0]), math.Ldexp(1, e)))
		}
	case "Sincos":
		return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
			a, b := math.Sincos(fb(args[0]))
			return Val{R: &Agg{[]Val{fv(a), fv(b)}}}
		}
	}
	return nil
}

var cmplxFns = map[string]func(complex128) complex128{"Exp": cmplx.Exp, "Sqrt": cmplx.Sqrt, "Log": cmplx.Log, "Sin": cmplx.Sin, "Cos": cmplx.Cos}

func noop(fr *Frame, args []Val, call *ssa.CallCommon) Val { return Val{} }

func deniedPkg(path string) bool {
	switch path {
	case "os", "syscall", "net", "reflect", "runtime", "internal/poll", "io/fs", "log", "testing", "unsafe", "runtime/debug", "sync", "sync/atomic", "internal/sync", "fmt", "time", "os/exec", "crypto/rand", "math/rand", "math/rand/v2", "iter", "weak", "unique":
		return true
	}
	return strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "internal/abi") || strings.HasPrefix(path, "internal/cpu") ||
		strings.HasPrefix(path, "internal/reflectlite") || strings.HasPrefix(path, "internal/godebug")
}

// pkgIntrinsic returns models for functions of standard packages.
func pkgIntrinsic(path string, f *ssa.Function) intrinsic {
	name := f.Name()
	recv := ""
	if r := f.Signature.Recv(); r != nil {
		recv = r.Type().String()
	}
	switch path {
	case "math":
		return mathIntrinsic(f)
	case "math/bits":
		w := 0
		base := strings.TrimRight(name, "0123456789")
		switch strings.TrimPrefix(name, base) {
		case "":
			w = 64
		case "8":
			w = 8
		case "16":
			w = 16
		case "32":
			w = 32
		case "64":
			w = 64
		}
		switch base {
		case "Len", "LeadingZeros", "TrailingZeros", "OnesCount":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				c := fr.st.c
				var t *Term
				if args[0].R == nil {
					t = c.Const(int64(args[0].U), uint8(w))
				} else {
					t = fr.st.T(args[0], uint8(w))
				}
				r := c.Const(0, 64)
				switch base {
				case "OnesCount":
					for i := 0; i < w; i++ {
						r = c.Add(r, c.Slice(t, uint8(i), 1, 64))
					}
				case "Len", "LeadingZeros":
					for i := 0; i < w; i++ {
						r = c.Add(r, c.B2I(c.Not(c.ULt(t, c.Const(int64(uint64(1)<<uint(i)), uint8(w)))), 64))
					}
					if base == "LeadingZeros" {
						r = c.Sub(c.Const(int64(w), 64), r)
					}
				case "TrailingZeros":
					for i := 1; i <= w; i++ {
						r = c.Add(r, c.B2I(c.EqZero(c.Slice(t, 0, uint8(i), uint8(w))), 64))
					}
				}
				return tval(r, true)
			}
		}
	case "math/cmplx":
		if g, ok := cmplxFns[name]; ok {
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				p := cparts(args[0])
				z := g(complex(fb(p[0]), fb(p[1])))
				return Val{R: &[2]Val{fv(real(z)), fv(imag(z))}}
			}
		}
		if name == "Abs" || name == "Phase" {
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				p := cparts(args[0])
				z := complex(fb(p[0]), fb(p[1]))
				if name == "Abs" {
					return fv(cmplx.Abs(z))
				}
				return fv(cmplx.Phase(z))
			}
		}
		if name == "Rect" {
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				z := cmplx.Rect(fb(args[0]), fb(args[1]))
				return Val{R: &[2]Val{fv(real(z)), fv(imag(z))}}
			}
		}
		if name == "Pow" {
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				p, q := cparts(args[0]), cparts(args[1])
				z := cmplx.Pow(complex(fb(p[0]), fb(p[1])), complex(fb(q[0]), fb(q[1])))
				return Val{R: &[2]Val{fv(real(z)), fv(imag(z))}}
			}
		}
	case "math/rand", "math/rand/v2":
		if in := randIntrinsic(path, f); in != nil {
			return in
		}
		if name == "Perm" || name == "Shuffle" {
			return nil
		}
	case "crypto/rand":
		if name == "Read" && recv == "" {
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				s := sl(args[0])
				for i := 0; i < s.len; i++ {
					fr.st.setCell(s.o, s.off+i, fr.st.drawVal(fr.st.draw("Byte", 0, "", 0), 8, false))
				}
				return Val{R: &Agg{[]Val{{U: uint64(s.len)}, {}}}}
			}
		}
	case "fmt":
		switch name {
		case "Sprintf", "Sprint", "Sprintln":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				if name == "Sprintf" {
					return sprint(str(args[0]), true, args[1])
				}
				return sprint(name, false, args[0])
			}
		case "Errorf":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				o := fr.st.newObj(1, []CK{{kStr, 0, false}})
				o.cells[0] = sprint(strings.ReplaceAll(str(args[0]), "%w", "%v"), true, args[1])
				return Val{R: &Iface{fr.st.wk.eng.errorType(), Val{R: o}}}
			}
		case "Printf", "Println", "Print", "Fprintf", "Fprintln", "Fprint":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val { return Val{R: &Agg{[]Val{{}, {}}}} }
		}
	case "time":
		switch {
		case name == "Now" && recv == "":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				fr.st.rnd.now += 1000
				return Val{R: &Agg{[]Val{{U: 0}, {U: uint64(fr.st.rnd.now)}, {}}}}
			}
		case recv == "time.Time" && (name == "UnixNano" || name == "Unix" || name == "UnixMilli" || name == "UnixMicro"):
			div := map[string]int64{"UnixNano": 1, "Unix": 1e9, "UnixMilli": 1e6, "UnixMicro": 1e3}[name]
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				return Val{U: uint64(int64(aggOf(args[0], 3)[1].U) / div)}
			}
		case name == "Since":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val { return Val{U: 1000} }
		case name == "Sleep":
			return noop
		case recv == "time.Duration":
			return nil
		}
	case "runtime":
		switch name {
		case "NumCPU", "GOMAXPROCS":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val { return Val{U: uint64(fr.st.numProcs())} }
		case "NumGoroutine":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val { return Val{U: 4} }
		case "Gosched":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val { fr.st.sched.yield(); return Val{} }
		case "KeepAlive", "SetFinalizer", "GC":
			return noop
		}
	case "reflect":
		val := func(args []Val) Val { return args[0].R.(*Agg).c[1].R.(*Iface).v }
		switch {
		case name == "ValueOf" && recv == "":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				return Val{R: &Agg{[]Val{{}, args[0], {}}}}
			}
		case (name == "Pointer" || name == "UnsafeAddr") && recv == "reflect.Value":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				return Val{U: addrOf(fr.st.pickAlt(val(args)))}
			}
		case name == "Len" && recv == "reflect.Value":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				v := fr.st.pickAlt(val(args))
				if v.R == nil {
					return Val{}
				}
				s, ok := v.R.(*SliceV)
				if !ok {
					panic(unsupported("reflect.Value.Len"))
				}
				return Val{U: uint64(s.len)}
			}
		case name == "IsNil" && recv == "reflect.Value":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				return Val{U: b2u(fr.st.pickAlt(val(args)).R == nil)}
			}
		}
	case "internal/reflectlite":
		switch {
		case name == "ValueOf":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				return Val{R: &Agg{[]Val{{}, args[0], {}}}}
			}
		case name == "Len" && recv == "internal/reflectlite.Value":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				return Val{U: uint64(sl(fr.st.pickAlt(args[0].R.(*Agg).c[1].R.(*Iface).v)).len)}
			}
		case name == "Swapper":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				x := args[0].R.(*Iface)
				l := fr.st.wk.layout(x.t.Underlying().(*types.Slice).Elem())
				return Val{R: &Closure{intr: func(f2 *Frame, a []Val) Val {
					st := f2.st
					s := sl(st.pickAlt(x.v))
					i, j := int(st.conc(a[0], CK{kInt, 64, true})), int(st.conc(a[1], CK{kInt, 64, true}))
					for k := 0; k < l.size; k++ {
						p, q := s.off+i*l.size+k, s.off+j*l.size+k
						u, v := s.o.cells[p], s.o.cells[q]
						st.setCell(s.o, p, v)
						st.setCell(s.o, q, u)
					}
					return Val{}
				}}}
			}
		}
	case "internal/abi":
		if name == "NoEscape" || name == "Escape" {
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val { return args[0] }
		}
	case "internal/bytealg":
		switch name {
		case "IndexString", "CountString", "IndexByteString":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				s := str(args[0])
				switch name {
				case "IndexString":
					return Val{U: uint64(strings.Index(s, str(args[1])))}
				case "IndexByteString":
					return Val{U: uint64(strings.IndexByte(s, byte(args[1].U)))}
				}
				return Val{U: uint64(strings.Count(s, string([]byte{byte(args[1].U)})))}
			}
		case "MakeNoZero":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				n := int(args[0].U)
				return Val{R: &SliceV{fr.st.newObj(n, []CK{{kInt, 8, false}}), 0, n, n}}
			}
		}
	case "maps":
		if name == "clone" {
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				x := args[0].R.(*Iface)
				if x.v.R == nil {
					return args[0]
				}
				mo := x.v.R.(*MapObj)
				fr.st.raceMap(mo, false)
				fr.st.nextID++
				c := &MapObj{id: fr.st.nextID, base: fr.st.makingBase, m: map[string]int{}}
				for _, e := range mo.ents {
					if !e.del {
						fr.st.mapSet(Val{R: c}, e.k, e.v)
					}
				}
				return Val{R: &Iface{x.t, Val{R: c}}}
			}
		}
	case "sync", "internal/sync":
		return syncIntrinsic(f, recv)
	case "sync/atomic":
		return atomicIntrinsic(f, recv)
	case "errors":
		return nil
	}
	return nil
}

func syncIntrinsic(f *ssa.Function, recv string) intrinsic {
	name := f.Name()
	switch recv {
	case "*sync.WaitGroup":
		switch name {
		case "Add", "Done":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				s := fr.st.sched
				d := -1
				if name == "Add" {
					d = int(fr.st.conc(args[1], CK{kInt, 64, true}))
				}
				if d < 0 {
					s.yield()
				}
				x := s.obj(args[0])
				x.n += d
				if x.n < 0 {
					fr.st.goPanic("sync: negative WaitGroup counter")
				}
				if d < 0 {
					s.release(x)
				}
				s.poke()
				return Val{}
			}
		case "Wait":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				s := fr.st.sched
				x := s.obj(args[0])
				s.block(func() bool { return x.n == 0 })
				s.acquire(x)
				return Val{}
			}
		case "Go":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				s := fr.st.sched
				x := s.obj(args[0])
				x.n++
				wgp, fn := args[0], args[1]
				s.spawn(fr, &ssa.CallCommon{Value: nil}, Val{R: &Closure{intr: func(f2 *Frame, a []Val) Val {
					cl := fn.R.(*Closure)
					if cl.intr != nil {
						cl.intr(f2, nil)
					} else {
						f2.st.callFn(f2, f2.th, f2.st.wk.fn(cl.fn), nil, cl.bind, nil)
					}
					y := s.obj(wgp)
					s.yield()
					y.n--
					s.release(y)
					s.poke()
					return Val{}
				}}}, nil)
				return Val{}
			}
		}
	case "*sync.Mutex", "*sync.RWMutex":
		switch name {
		case "Lock":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				s := fr.st.sched
				s.yield()
				x := s.obj(args[0])
				s.block(func() bool { return !x.held && x.readers == 0 })
				x.held = true
				s.acquire(x)
				return Val{}
			}
		case "TryLock":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				s := fr.st.sched
				s.yield()
				x := s.obj(args[0])
				if x.held || x.readers > 0 {
					return Val{}
				}
				x.held = true
				s.acquire(x)
				return Val{U: 1}
			}
		case "Unlock":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				s := fr.st.sched
				x := s.obj(args[0])
				if !x.held {
					fr.st.goPanic("sync: unlock of unlocked mutex")
				}
				x.held = false
				s.release(x)
				s.poke()
				s.yield()
				return Val{}
			}
		case "RLock":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				s := fr.st.sched
				s.yield()
				x := s.obj(args[0])
				s.block(func() bool { return !x.held })
				x.readers++
				s.acquire(x)
				return Val{}
			}
		case "RUnlock":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				s := fr.st.sched
				x := s.obj(args[0])
				x.readers--
				s.release(x)
				s.poke()
				s.yield()
				return Val{}
			}
		}
	case "*sync.Once":
		if name == "Do" {
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				s := fr.st.sched
				s.yield()
				o, ok := args[0].R.(*Obj)
				if !ok {
					panic(unsupported("sync.Once"))
				}
				// completion lives in the struct itself so that it survives with base objects
				x := s.obj(args[0])
				s.block(func() bool { return !x.held })
				if o.cells[args[0].U].U == 0 {
					x.held = true
					fr.st.setCell(o, int(args[0].U), Val{U: 1})
					cl := args[1].R.(*Closure)
					fr.st.callFn(fr, fr.th, fr.st.wk.fn(cl.fn), nil, cl.bind, nil)
					x.held = false
					s.release(x)
					s.poke()
				} else {
					s.acquire(x)
				}
				return Val{}
			}
		}
	case "*sync.Pool":
		switch name {
		case "Get":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				st := fr.st
				s := st.sched
				s.yield()
				x := s.obj(args[0])
				k := -1
				if len(x.items) > 0 {
					if s.explore {
						c := st.choose(len(x.items) + 1)
						if c < len(x.items) {
							k = c
						}
					} else {
						k = 0 // private slot first
					}
				}
				if k >= 0 {
					it := x.items[k]
					x.items = append(x.items[:k:k], x.items[k+1:]...)
					s.cur.vc = join(s.cur.vc, it.vc)
					return it.v
				}
				// New
				pt := f.Signature.Recv().Type().(*types.Pointer).Elem()
				l := st.wk.layout(pt)
				stt := pt.Underlying().(*types.Struct)
				for i := 0; i < stt.NumFields(); i++ {
					if stt.Field(i).Name() == "New" {
						nf := args[0].R.(*Obj).cells[int(args[0].U)+l.offs[i]]
						if nf.R == nil {
							return Val{}
						}
						cl := nf.R.(*Closure)
						return st.callFn(fr, fr.th, st.wk.fn(cl.fn), nil, cl.bind, nil)
					}
				}
				return Val{}
			}
		case "Put":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				s := fr.st.sched
				s.yield()
				x := s.obj(args[0])
				if args[1].R != nil {
					x.items = append(x.items, poolItem{args[1], s.cur.vc.clone()})
					s.cur.vc[s.cur.id]++
				}
				return Val{}
			}
		}
	case "*sync.Map":
		switch name {
		case "Load", "Store", "LoadOrStore", "Delete", "LoadAndDelete":
			return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
				st := fr.st
				s := st.sched
				s.yield()
				x := s.obj(args[0])
				key := keyOf(args[1])
				s.acquire(x)
				s.release(x)
				if x.vals == nil {
					x.vals = map[string]Val{}
				}
				old, ok := x.vals[key]
				switch name {
				case "Load":
					return Val{R: &Agg{[]Val{old, {U: b2u(ok)}}}}
				case "Store":
					x.vals[key] = args[2]
				case "LoadOrStore":
					if ok {
						return Val{R: &Agg{[]Val{old, {U: 1}}}}
					}
					x.vals[key] = args[2]
					return Val{R: &Agg{[]Val{args[2], {}}}}
				case "Delete":
					delete(x.vals, key)
				case "LoadAndDelete":
					delete(x.vals, key)
					return Val{R: &Agg{[]Val{old, {U: b2u(ok)}}}}
				}
				return Val{}
			}
		}
	}
	return nil
}

func atomicIntrinsic(f *ssa.Function, recv string) intrinsic {
	name := f.Name()
	sig := f.Signature
	op := ""
	for _, p := range []string{"CompareAndSwap", "Load", "Store", "Add", "Swap"} {
		if strings.HasPrefix(name, p) {
			op = p
			break
		}
	}
	if op == "" {
		return nil
	}
	return func(fr *Frame, args []Val, call *ssa.CallCommon) Val {
		st := fr.st
		s := st.sched
		s.yield()
		p := args[0]
		x := s.obj(p)
		s.acquire(x)
		defer s.release(x)
		o := p.R.(*Obj)
		off := int(p.U)
		if recv != "" {
			// atomic.X struct: value is the last cell of the struct
			pt := f.Signature.Recv().Type().(*types.Pointer).Elem()
			l := st.wk.layout(pt)
			off += l.size - 1
			for i, sub := range l.sub {
				_ = sub
				if pt.Underlying().(*types.Struct).Field(i).Name() == "v" {
					off = int(p.U) + l.offs[i]
				}
			}
		}
		old := o.cells[off]
		isBool := strings.HasSuffix(recv, "atomic.Bool")
		switch op {
		case "Load":
			return old
		case "Store":
			st.setCell(o, off, args[1])
		case "Swap":
			st.setCell(o, off, args[1])
			return old
		case "Add":
			ck := ckOf(sig.Results().At(0).Type())
			nv := tval(st.c.Add(st.T(old, ck.w), st.T(args[1], ck.w)), ck.signed)
			st.setCell(o, off, nv)
			return nv
		case "CompareAndSwap":
			ck := ckOf(sig.Params().At(sig.Params().Len() - 1).Type())
			if isBool {
				ck = CK{kBool, 1, false}
			}
			if st.forkOn(st.eqCell(old, args[1], ck), "cas") {
				st.setCell(o, off, args[2])
				return Val{U: 1}
			}
			return Val{}
		}
		return Val{}
	}
}

// ---------- sym API ----------

const symPkg = "verifharness/sym."

func (st *State) newInput(kind, label string, a *Atom) *Atom {
	st.c.newAtom(a)
	in := &Input{kind: kind, label: label, atom: a}
	if st.depth() > 0 {
		in.guard = st.guard()
	}
	st.inputs = append(st.inputs, in)
	a.in = in
	return a
}

// numProcs is the number of processors the code sees, one choice per path; the replay
// runs on as many.
func (st *State) numProcs() int {
	if st.makingBase {
		baseProcs.Store(true)
		return 3
	}
	if st.procs == 0 {
		ps := []int{3, 1, 4, 8}
		n := 2
		if st.h.ck.tier == "thorough" {
			n = 4
		}
		st.procs = ps[st.choose(n)]
		st.inputs = append(st.inputs, &Input{kind: "procs", conc: int64(st.procs)})
	}
	return st.procs
}

var baseProcs atomic.Bool

func (st *State) noBase() {
	if st.makingBase {
		panic(unsupported("symbolic input inside Once"))
	}
}

// fakePtr prints an address under %p; any other verb makes the text unknown.
type fakePtr struct {
	a      uint64
	opaque *bool
}

func (p *fakePtr) Format(s fmt.State, verb rune) {
	if verb != 'p' {
		*p.opaque = true
	}
	fmt.Fprintf(s, "0x%x", p.a)
}

var codeMu sync.Mutex
var codeAddr = map[*ssa.Function]uint64{}

// addrOf is the address of a pointer, slice, map or function value; different objects
// lie at different addresses, closures of one literal share their code.
func addrOf(v Val) uint64 {
	switch x := v.R.(type) {
	case nil:
		return 0
	case *Closure:
		if x.fn == nil {
			break
		}
		codeMu.Lock()
		defer codeMu.Unlock()
		a, ok := codeAddr[x.fn]
		if !ok {
			a = 0x480000 + uint64(len(codeAddr))*0x40
			codeAddr[x.fn] = a
		}
		return a
	case *Obj:
		if x.id != 0 {
			return 0xc000000000 + uint64(x.id)<<24 + v.U*8
		}
	case *SliceV:
		if x.o != nil && x.o.id != 0 {
			return 0xc000000000 + uint64(x.o.id)<<24 + uint64(x.off)*8
		}
	case *MapObj:
		return 0xc000000000 + uint64(x.id)<<24
	}
	panic(unsupported(fmt.Sprintf("address of %T", v.R)))
}

// sprint formats arguments of basic types; anything else gives a string the
// engine treats as unknown.
func sprint(format string, f bool, a Val) Val {
	unknown := Val{R: &symStr{format}}
	opaque := false
	var as []any
	if a.R != nil {
		s := sl(a)
		for i := 0; i < s.len; i++ {
			c := s.o.cells[s.off+i]
			if c.R == nil {
				as = append(as, nil)
				continue
			}
			x := c.R.(*Iface)
			b, ok := x.t.Underlying().(*types.Basic)
			if !ok {
				switch x.t.Underlying().(type) {
				case *types.Pointer, *types.Signature, *types.Slice, *types.Map:
					if f {
						if _, guarded := x.v.R.(*GVal); !guarded {
							as = append(as, &fakePtr{addrOf(x.v), &opaque})
							continue
						}
					}
				}
				return unknown
			}
			if n, isN := x.t.(*types.Named); isN && n.NumMethods() > 0 {
				return unknown
			}
			ck := ckOf(x.t)
			switch {
			case ck.k == kStr:
				if _, sym := x.v.R.(*symStr); sym {
					return unknown
				}
				as = append(as, str(x.v))
			case x.v.R != nil:
				return unknown
			case ck.k == kBool:
				as = append(as, x.v.U != 0)
			case ck.k == kF64:
				as = append(as, fb(x.v))
			case ck.k == kInt:
				switch b.Kind() {
				case types.Int:
					as = append(as, int(x.v.U))
				case types.Int8:
					as = append(as, int8(x.v.U))
				case types.Int16:
					as = append(as, int16(x.v.U))
				case types.Int32:
					as = append(as, int32(x.v.U))
				case types.Int64:
					as = append(as, int64(x.v.U))
				case types.Uint:
					as = append(as, uint(x.v.U))
				case types.Uint8:
					as = append(as, uint8(x.v.U))
				case types.Uint16:
					as = append(as, uint16(x.v.U))
				case types.Uint32:
					as = append(as, uint32(x.v.U))
				case types.Uint64, types.Uintptr:
					as = append(as, uint64(x.v.U))
				}
			default:
				return unknown
			}
		}
	}
	switch {
	case f:
		r := fmt.Sprintf(format, as...)
		if opaque {
			return unknown
		}
		return Val{R: r}
	case format == "Sprintln":
		return Val{R: fmt.Sprintln(as...)}
	}
	return Val{R: fmt.Sprint(as...)}
}

var intrinsics map[string]intrinsic

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	s := func(name string, f func(st *State, fr *Frame, a []Val) Val) {
		I[symPkg+name] = func(fr *Frame, args []Val, call *ssa.CallCommon) Val { return f(fr.st, fr, args) }
	}
	s("U32", func(st *State, fr *Frame, a []Val) Val {
		st.noBase()
		l := str(a[0])
		at := st.newInput("u32", l, &Atom{kind: AVar, w: 32, name: l, hi: math.MaxUint32})
		return tval(st.c.atomTerm(at, 32), false)
	})
	s("U64", func(st *State, fr *Frame, a []Val) Val {
		st.noBase()
		l := str(a[0])
		at := st.newInput("u64", l, &Atom{kind: AVar, w: 64, name: l, big: true})
		return tval(st.c.atomTerm(at, 64), false)
	})
	s("Int", func(st *State, fr *Frame, a []Val) Val {
		st.noBase()
		l := str(a[0])
		at := st.newInput("int", l, &Atom{kind: AVar, w: 64, name: l, big: true})
		return tval(st.c.atomTerm(at, 64), true)
	})
	s("IntIn", func(st *State, fr *Frame, a []Val) Val {
		st.noBase()
		l := str(a[0])
		lo, hi := int64(a[1].U), int64(a[2].U)
		if lo == hi {
			st.inputs = append(st.inputs, &Input{kind: "intin", label: l, conc: lo})
			return Val{U: uint64(lo)}
		}
		at := st.newInput("intin", l, &Atom{kind: AVar, w: 64, name: l, lo: lo, hi: hi})
		return tval(st.c.atomTerm(at, 64), true)
	})
	s("Bool", func(st *State, fr *Frame, a []Val) Val {
		st.noBase()
		l := str(a[0])
		at := st.newInput("bool", l, &Atom{kind: AVar, w: 1, name: l, hi: 1})
		return bval(st.c.AtomTrue(at))
	})
	s("F64In", func(st *State, fr *Frame, a []Val) Val {
		st.noBase()
		l := str(a[0])
		at := st.newInput("f64", l, &Atom{kind: AReal, w: 64, name: l, flo: fb(a[1]), fhi: fb(a[2])})
		return Val{R: st.c.FVar(at)}
	})
	s("Choose", func(st *State, fr *Frame, a []Val) Val {
		st.noBase()
		n := int(a[1].U)
		k := st.choose(n)
		st.inputs = append(st.inputs, &Input{kind: "choose", label: str(a[0]), conc: int64(k)})
		return Val{U: uint64(k)}
	})
	s("Concretize", func(st *State, fr *Frame, a []Val) Val {
		return Val{U: uint64(st.conc(a[0], CK{kInt, 64, true}))}
	})
	s("Fork", func(st *State, fr *Frame, a []Val) Val {
		return Val{U: b2u(st.forkOn(st.B(a[0]), "fork"))}
	})
	s("Assume", func(st *State, fr *Frame, a []Val) Val {
		if st.depth() > 0 {
			st.abortMerge("assume")
		}
		b := st.simp(st.B(a[0]))
		if b == st.c.False {
			panic(pathEnd{"infeasible"})
		}
		st.assume(b)
		return Val{}
	})
	s("Assert", func(st *State, fr *Frame, a []Val) Val {
		if a[0].R == nil && a[0].U != 0 {
			st.h.mu.Lock()
			st.h.asserts++
			st.h.byNorm++
			st.h.mu.Unlock()
			return Val{}
		}
		if st.depth() > 0 {
			st.abortMerge("assert")
		}
		st.doAssert(st.B(a[0]), str(a[1]))
		return Val{}
	})
	s("Observe", func(st *State, fr *Frame, a []Val) Val {
		o := obsRec{label: str(a[0]), t: st.T(a[1], 64)}
		if st.depth() > 0 {
			st.abortMerge("observe")
		}
		st.obs = append(st.obs, o)
		return Val{}
	})
	s("RandSymbolic", func(st *State, fr *Frame, a []Val) Val {
		st.rnd.mode = 0
		st.rnd.bound, st.rnd.low = fb(a[0]), -fb(a[0])
		return Val{}
	})
	s("RandSymbolicIn", func(st *State, fr *Frame, a []Val) Val {
		st.rnd.mode = 0
		st.rnd.low, st.rnd.bound = fb(a[0]), fb(a[1])
		return Val{}
	})
	s("RandConcrete", func(st *State, fr *Frame, a []Val) Val {
		st.rnd.mode = 1
		st.rnd.ctr = a[0].U * 1000003
		return Val{}
	})
	s("TapeRewind", func(st *State, fr *Frame, a []Val) Val {
		st.rnd.tapePos = int(a[0].U)
		return Val{}
	})
	s("TapeMark", func(st *State, fr *Frame, a []Val) Val {
		return Val{U: uint64(len(st.rnd.tape))}
	})
	s("TapeStop", func(st *State, fr *Frame, a []Val) Val {
		st.rnd.tapePos = -1
		return Val{}
	})
	s("Norms", func(st *State, fr *Frame, a []Val) Val {
		o := st.newObj(len(st.norms), []CK{{kF64, 64, true}})
		for i, in := range st.norms {
			if in.atom == nil {
				o.cells[i] = fv(in.concf)
			} else {
				o.cells[i] = Val{R: st.c.FVar(in.atom)}
			}
		}
		return Val{R: &SliceV{o, 0, len(st.norms), len(st.norms)}}
	})
	s("ResetNorms", func(st *State, fr *Frame, a []Val) Val { st.norms, st.seeds = nil, nil; return Val{} })
	s("Once", func(st *State, fr *Frame, a []Val) Val {
		if st.depth() > 0 {
			st.abortMerge("once")
		}
		key := st.h.name + "/" + str(a[0])
		if v, ok := st.wk.once[key]; ok {
			return v
		}
		if st.makingBase {
			panic(unsupported("nested Once"))
		}
		sv := st.rnd.save()
		race, ex := st.race, st.sched.explore
		st.race, st.sched.explore = nil, false
		st.rnd.mode = 1
		st.rnd.ctr = hash64(str(a[0]))
		st.rnd.tapePos = -1
		st.makingBase = true
		st.onceStart = st.nextID + 1
		na := len(st.c.atoms)
		nin, nn := len(st.inputs), len(st.norms)
		cl := a[1].R.(*Closure)
		v := st.callFn(fr, fr.th, st.wk.fn(cl.fn), nil, cl.bind, nil)
		if len(st.c.atoms) != na {
			panic(unsupported("symbolic values inside Once"))
		}
		st.inputs, st.norms = st.inputs[:nin], st.norms[:nn]
		st.onceStart = 0
		st.makingBase = false
		st.rnd.restore(sv)
		st.race, st.sched.explore = race, ex
		st.wk.once[key] = v
		return v
	})
	s("Thorough", func(st *State, fr *Frame, a []Val) Val { return Val{U: b2u(st.h.ck.tier == "thorough")} })
	s("Native", func(st *State, fr *Frame, a []Val) Val { return Val{} })
	s("ExploreSchedules", func(st *State, fr *Frame, a []Val) Val {
		st.sched.explore = true
		st.sched.explored = true
		st.sched.maxPre = int(int64(a[0].U))
		if st.sched.maxPre < 0 {
			st.sched.maxPre = 1 << 30
		}
		return Val{}
	})
	s("CheckRaces", func(st *State, fr *Frame, a []Val) Val {
		st.params["races"] = 1
		st.sched.explored = true
		if st.race == nil && st.sched.live() > 1 {
			st.race = newRace(st)
		}
		return Val{}
	})
	s("CoverSeeds", func(st *State, fr *Frame, a []Val) Val { st.coverSeeds(str(a[0])); return Val{} })
	s("CoverAll", func(st *State, fr *Frame, a []Val) Val { st.coverAll(a); return Val{} })
	s("CanHold", func(st *State, fr *Frame, a []Val) Val {
		label := str(a[1])
		h := st.h
		h.mu.Lock()
		r := h.canHold[label]
		if r == nil {
			r = &canRec{}
			h.canHold[label] = r
			h.asserts++
		}
		r.n++
		done := r.held
		h.mu.Unlock()
		if done {
			return Val{}
		}
		b := st.simp(st.B(a[0]))
		ok := false
		if b != st.c.False {
			v, _ := st.wk.solver.Solve(st.fullPC(b), 10*time.Second)
			ok = v == Sat
			if v == Unknown {
				h.mu.Lock()
				r.unknown = true
				h.mu.Unlock()
			}
		}
		if ok {
			h.mu.Lock()
			if !r.held {
				r.held = true
				h.bySMT++
			}
			h.mu.Unlock()
		}
		return Val{}
	})
	s("Debug", func(st *State, fr *Frame, a []Val) Val {
		if st.h.ck.verbose {
			fmt.Printf("DEBUG %s %.2000v\n", str(a[0]), a[1].R)
			if a[1].R == nil {
				fmt.Println(int64(a[1].U))
			}
		}
		return Val{}
	})
}

func hash64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// coverAll: for every target vector there is a choice of draws producing it.
func (st *State) coverAll(a []Val) {
	label := str(a[2])
	nb := uint8(a[1].U)
	h := st.h
	sv := sl(a[0])
	var ts []*Term
	for i := 0; i < sv.len; i++ {
		ts = append(ts, st.rT(sv.o.cells[sv.off+i], 32))
	}
	h.mu.Lock()
	h.asserts++
	h.covers++
	h.mu.Unlock()
	lss := make([]*leafSet, len(ts))
	cnt := map[*Atom]int{}
	for i, t := range ts {
		lss[i] = newLeafSet()
		lss[i].term(t)
		for _, l := range lss[i].leaves {
			cnt[l]++
		}
	}
	isDraw := func(x *Atom) bool { return x.in == nil }
	why := ""
	for i, t := range ts {
		ok := false
		// pivot: a draw private to this word, with odd coefficient and full range
		occ := map[*Atom]int{}
		for _, m := range t.ms {
			l := newLeafSet()
			for _, x := range m.atoms {
				l.atom(x)
			}
			for _, x := range l.leaves {
				occ[x]++
			}
		}
		for k, m := range t.ms {
			if len(m.atoms) != 1 {
				continue
			}
			x := m.atoms[0]
			if x.kind == AVar && isDraw(x) && cnt[x] == 1 && occ[x] == 1 && t.cs[k]&1 == 1 && !x.big && x.lo == 0 && uint64(x.hi)+1 >= uint64(1)<<nb {
				full := uint64(x.hi)+1 == uint64(1)<<nb || isPow2(uint64(x.hi)+1)
				if nb == 32 && full || nb < 32 && len(t.ms) == 1 && t.c0 == 0 && t.cs[k] == 1 && uint64(x.hi)+1 == uint64(1)<<nb {
					ok = true
				}
			}
		}
		if !ok && nb <= 8 {
			priv := true
			for _, l := range lss[i].leaves {
				if cnt[l] > 1 || !isDraw(l) {
					priv = false
				}
			}
			if priv {
				ok = true
				for v := int64(0); v < 1<<nb; v++ {
					b := st.simp(st.c.EqC(t, v))
					if b == st.c.False {
						ok = false
						break
					}
					if r, _ := st.wk.solver.Solve([]*Bool{b}, 5*time.Second); r != Sat {
						ok = false
						break
					}
				}
			}
		}
		if !ok {
			why = fmt.Sprintf("word %d = %.200v", i, t)
			break
		}
	}
	if why == "" {
		h.mu.Lock()
		h.byNorm++
		h.mu.Unlock()
		return
	}
	st.coverFail(label, why)
}

// coverSeeds: each seed since ResetNorms is its own draw over the full 63 bits.
func (st *State) coverSeeds(label string) {
	h := st.h
	h.mu.Lock()
	h.asserts++
	h.covers++
	h.mu.Unlock()
	why := ""
	seen := map[*Atom]bool{}
	for i, v := range st.seeds {
		ok := false
		if t, sym := v.R.(*Term); sym {
			t = st.c.resolve(t)
			if len(t.ms) == 1 && len(t.ms[0].atoms) == 1 && t.cs[0]&1 == 1 {
				x := t.ms[0].atoms[0]
				if x.kind == AVar && x.in == nil && !x.big && x.lo == 0 && x.hi == math.MaxInt64 && !seen[x] {
					seen[x] = true
					ok = true
				}
			}
		}
		if !ok {
			why = fmt.Sprintf("seed %d = %.200v", i, v.R)
			break
		}
	}
	if why == "" {
		h.mu.Lock()
		h.byNorm++
		h.mu.Unlock()
		return
	}
	st.coverFail(label, why)
}

// coverFail samples the real code where the draws of a coverage obligation are not
// evidently free.
func (st *State) coverFail(label, why string) {
	h := st.h
	h.mu.Lock()
	n := h.tried[label]
	h.tried[label]++
	h.mu.Unlock()
	if n > 0 {
		return
	}
	if h.ck.verbose {
		fmt.Printf("[%s] cover candidate %s: %s\n", h.name, label, why)
	}
	_, m := st.wk.solver.Solve(st.fullPC(), 10*time.Second)
	if m == nil {
		m = newAsg()
	}
	ok, out, file := h.ck.native.confirmCover(h, st.concreteInputs(m), label)
	if ok {
		h.ck.addViolation(Violation{h.name, label, why + " :: " + out, file})
	} else {
		h.mu.Lock()
		h.undecided[label]++
		h.mu.Unlock()
	}
}
