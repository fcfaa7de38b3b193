// Package sym is the interface between the property harnesses and the checker.
// The symbolic engine replaces every function here by its own meaning; the
// bodies below are the native ones, used when a path or a counterexample is
// replayed against the real, compiled code.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
)

// Rec is one recorded input: a harness input or a random draw of the library.
type Rec struct {
	K string  `json:"k"`
	V int64   `json:"v,omitempty"`
	F float64 `json:"f,omitempty"`
	L string  `json:"l,omitempty"`
}

// Result is what one native execution reports.
type Result struct {
	Status string   `json:"status"`
	Label  string   `json:"label,omitempty"`
	Out    string   `json:"out,omitempty"`
	Obs    []uint64 `json:"obs,omitempty"`
}

type stopT struct{ r Result }

const (
	modeReplay = iota
	modeSample // inputs from the record, random draws from the real generator
	modeFree   // inputs chosen at random, random draws from the real generator
)

var (
	mu       sync.Mutex
	mode     int
	ins      []Rec
	pos      int
	obs      []uint64
	norms    []float64
	seeds    []uint32
	inOnce   bool
	conc     bool
	ctr      uint64
	onceVals = map[string]any{}
	thorough bool
	prng     uint64
	wantLbl  string
	rows     map[string]*gf2
	held     map[string]int
)

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	z := x
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func stop(status, label, out string) {
	panic(stopT{Result{Status: status, Label: label, Out: out}})
}

// Hook is called by the instrumented random generators.
func Hook(kind string, n int64) (int64, float64, bool) {
	mu.Lock()
	defer mu.Unlock()
	if inOnce || conc && mode != modeReplay {
		x := splitmix(ctr)
		ctr++
		v, f := concrete(kind, n, x)
		if kind == "NormFloat64" && !inOnce {
			norms = append(norms, f)
		}
		return v, f, true
	}
	if mode != modeReplay {
		return 0, 0, false
	}
	if pos >= len(ins) || ins[pos].K != kind {
		got := "end"
		if pos < len(ins) {
			got = ins[pos].K + " " + ins[pos].L
		}
		finish(Result{Status: "diverged", Out: fmt.Sprintf("draw %s at input %d, recorded %s", kind, pos, got)})
	}
	r := ins[pos]
	pos++
	if kind == "NormFloat64" {
		norms = append(norms, r.F)
	}
	return r.V, r.F, true
}

func concrete(kind string, n int64, x uint64) (int64, float64) {
	switch kind {
	case "NormFloat64":
		return 0, (float64(x>>11)/(1<<53)*2 - 1) * 3
	case "Float64":
		return 0, float64(x>>11) / (1 << 53)
	case "Uint64":
		return int64(x), 0
	case "Uint32":
		return int64(x >> 32), 0
	case "Int63", "Int":
		return int64(x >> 1), 0
	case "Int31":
		return int64(x >> 33), 0
	case "Byte":
		return int64(x >> 56), 0
	}
	return int64((x >> 1) % uint64(n)), 0
}

func finish(r Result) {
	b, _ := json.Marshal(r)
	fmt.Printf("\nVERIF-RESULT %s\n", b)
	os.Exit(0)
}

func next(kind, label string, lo, hi int64) Rec {
	mu.Lock()
	defer mu.Unlock()
	if mode == modeFree {
		prng++
		x := splitmix(prng)
		r := Rec{K: kind}
		switch kind {
		case "f64":
			r.F = float64(x>>11) / (1 << 53)
		case "u64", "int":
			r.V = int64(x)
		default:
			r.V = lo + int64(x%uint64(hi-lo+1))
		}
		return r
	}
	if mode == modeSample {
		for pos < len(ins) && isDraw(ins[pos].K) {
			pos++
		}
	}
	if pos >= len(ins) || ins[pos].K != kind {
		got := "end"
		if pos < len(ins) {
			got = ins[pos].K + " " + ins[pos].L
		}
		finish(Result{Status: "diverged", Out: fmt.Sprintf("input %s %s at %d, recorded %s", kind, label, pos, got)})
	}
	r := ins[pos]
	pos++
	return r
}

func isDraw(k string) bool {
	switch k {
	case "u32", "u64", "int", "intin", "bool", "f64", "choose":
		return false
	}
	return true
}

func U32(label string) uint32 { return uint32(next("u32", label, 0, 1<<32-1).V) }
func U64(label string) uint64 { return uint64(next("u64", label, 0, 0).V) }
func Int(label string) int    { return int(next("int", label, 0, 0).V) }
func IntIn(label string, lo, hi int) int {
	return int(next("intin", label, int64(lo), int64(hi)).V)
}
func Bool(label string) bool { return next("bool", label, 0, 1).V != 0 }
func F64In(label string, lo, hi float64) float64 {
	r := next("f64", label, 0, 0)
	if mode == modeFree {
		return lo + r.F*(hi-lo)
	}
	return r.F
}
func Choose(label string, n int) int { return int(next("choose", label, 0, int64(n)-1).V) }

func Concretize(x int) int { return x }
func Fork(b bool) bool     { return b }
func Assume(b bool) {
	if !b {
		stop("infeasible", "", "")
	}
}
func Assert(b bool, label string) {
	if !b {
		stop("assert", label, "")
	}
}
func Observe(label string, v uint64) { obs = append(obs, v) }

func RandSymbolic(bound float64)    { conc = false }
func RandSymbolicIn(lo, hi float64) { conc = false }
func RandConcrete(seed int)         { conc = true; ctr = uint64(seed) * 1000003 }
func TapeMark() int                 { return 0 }
func TapeRewind(mark int)           {}
func TapeStop()                     {}

// Norms returns the Gaussian draws since the last reset, in order.
func Norms() []float64 { return append([]float64(nil), norms...) }
func ResetNorms()      { norms, seeds = nil, nil }

func Once(key string, f func() any) any {
	if v, ok := onceVals[key]; ok {
		return v
	}
	octr, oseeds := ctr, len(seeds)
	defer func() { seeds = seeds[:oseeds] }()
	h := uint64(14695981039346656037)
	for i := 0; i < len(key); i++ {
		h = (h ^ uint64(key[i])) * 1099511628211
	}
	ctr = h
	inOnce = true
	v := f()
	inOnce = false
	ctr = octr
	onceVals[key] = v
	return v
}

func Thorough() bool               { return thorough }
func Native() bool                 { return true }
func ExploreSchedules(preempt int) {}
func CheckRaces()                  {}
func Debug(label string, v any)    {}
func CanHold(cond bool, label string) {
	if held != nil && cond {
		held[label]++
	}
}

// CoverAll: every vector of the given words (low bits of each) is reachable
// by some choice of the random draws.
func CoverAll(words []uint32, bits int, label string) {
	if rows == nil || label != wantLbl {
		return
	}
	g := rows[label]
	if g == nil {
		g = &gf2{n: len(words) * bits}
		rows[label] = g
	}
	g.add(words, bits)
}

// HookSeed is told every seed a random generator is made from.
func HookSeed(seed int64) {
	mu.Lock()
	seeds = append(seeds, uint32(seed), uint32(uint64(seed)>>32&0x7fffffff))
	mu.Unlock()
}

// CoverSeeds asserts that the seeds of the generators made since ResetNorms are
// each an own draw over the full 63 bits.
func CoverSeeds(label string) {
	if rows == nil || label != wantLbl {
		return
	}
	g := rows[label]
	if g == nil {
		g = &gf2{n: len(seeds) / 2 * 63}
		rows[label] = g
	}
	if g.n != len(seeds)/2*63 {
		return
	}
	v := make([]uint64, (g.n+63)/64)
	for i, w := range seeds {
		for b := 0; b < 32-i%2; b++ {
			if w>>uint(b)&1 == 1 {
				k := i/2*63 + i%2*32 + b
				v[k/64] |= 1 << uint(k%64)
			}
		}
	}
	g.addBits(v)
}

// gf2 maintains the affine rank over GF(2) of the sampled vectors.
type gf2 struct {
	n     int
	base  []uint64
	piv   map[int][]uint64
	count int
}

func (g *gf2) add(w []uint32, bits int) {
	v := make([]uint64, (g.n+63)/64)
	for i, x := range w {
		for b := 0; b < bits; b++ {
			if x>>b&1 == 1 {
				k := i*bits + b
				v[k/64] |= 1 << (k % 64)
			}
		}
	}
	g.addBits(v)
}

func (g *gf2) addBits(v []uint64) {
	g.count++
	if g.base == nil {
		g.base = v
		g.piv = map[int][]uint64{}
		return
	}
	for i := range v {
		v[i] ^= g.base[i]
	}
	for k := 0; k < g.n; k++ {
		if v[k/64]>>(k%64)&1 == 0 {
			continue
		}
		p := g.piv[k]
		if p == nil {
			g.piv[k] = v
			return
		}
		for i := range v {
			v[i] ^= p[i]
		}
	}
}

func reset() {
	pos, obs, norms, seeds, conc = 0, nil, nil, nil, false
}

func runOnce(f func()) (r Result) {
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		if s, ok := e.(stopT); ok {
			r = s.r
			r.Obs = obs
			return
		}
		r = Result{Status: "panic", Label: "panic", Out: fmt.Sprint(e), Obs: obs}
		if re, ok := e.(runtime.Error); ok {
			r.Out = re.Error()
		}
		if os.Getenv("VERIF_STACK") != "" {
			r.Out += "\n" + string(debug.Stack())
		}
	}()
	f()
	return Result{Status: "ok", Obs: obs}
}

// Main runs one harness: replay NAME FILE [sample LABEL COUNT | canhold LABEL COUNT]
func Main(reg map[string]func()) {
	args := os.Args[1:]
	thorough = os.Getenv("VERIF_TIER") == "thorough"
	b, err := os.ReadFile(args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var file struct {
		Inputs []Rec `json:"inputs"`
	}
	if err := json.Unmarshal(b, &file); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	ins = file.Inputs
	f := reg[args[0]]
	if f == nil {
		fmt.Println("unknown harness", args[0])
		os.Exit(3)
	}
	if len(args) > 4 {
		n := 0
		fmt.Sscan(args[4], &n)
		wantLbl = args[3]
		switch args[2] {
		case "sample":
			mode = modeSample
			rows = map[string]*gf2{}
			for i := 0; i < n; i++ {
				reset()
				r := runOnce(f)
				if r.Status != "ok" && r.Status != "infeasible" {
					finish(r)
				}
				if g := rows[wantLbl]; g != nil && i == 0 && n < 3*g.n/2+64 {
					n = 3*g.n/2 + 64
				}
			}
			g := rows[wantLbl]
			if g == nil || g.base == nil {
				finish(Result{Status: "diverged", Out: "label not reached"})
			}
			if len(g.piv) < g.n {
				finish(Result{Status: "assert", Label: wantLbl, Out: fmt.Sprintf("over %d independent runs of the real code the %d observed bits span an affine space of dimension %d only", g.count, g.n, len(g.piv))})
			}
			finish(Result{Status: "ok"})
		case "canhold":
			mode = modeFree
			held = map[string]int{}
			ran := 0
			t0 := time.Now()
			for i := 0; i < n; i++ {
				if ran >= 400 && time.Since(t0) > 20*time.Second {
					break
				}
				reset()
				r := runOnce(f)
				if r.Status == "ok" {
					ran++
				}
				if r.Status == "assert" || r.Status == "panic" {
					finish(r)
				}
				if held[wantLbl] > 0 {
					finish(Result{Status: "ok"})
				}
			}
			if ran == 0 {
				finish(Result{Status: "diverged", Out: "no run completed"})
			}
			finish(Result{Status: "assert", Label: wantLbl, Out: fmt.Sprintf("never held in %d runs of the real code", ran)})
		}
	}
	r := runOnce(f)
	finish(r)
}
