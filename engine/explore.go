package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog    *ssa.Program
	mu      sync.Mutex
	built   map[*ssa.Package]bool
	modPfx  []string
	harness *ssa.Package
	fileVer string
}

func loadEngine(dir string, overlay map[string][]byte) (*Engine, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, built: map[*ssa.Package]bool{}, modPfx: []string{"verifharness", "github.com/thedonutfactory/go-tfhe"}}
	e.harness = ps[0]
	for _, p := range prog.AllPackages() {
		if e.isModule(p) {
			e.buildPkg(p)
		}
	}
	return e, nil
}

func (e *Engine) isModule(p *ssa.Package) bool { return e.isModulePath(p.Pkg.Path()) }
func (e *Engine) isModulePath(path string) bool {
	for _, m := range e.modPfx {
		if path == m || strings.HasPrefix(path, m+"/") {
			return true
		}
	}
	return false
}

func (e *Engine) buildPkg(p *ssa.Package) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if !e.built[p] {
		p.Build()
		e.built[p] = true
	}
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (e *Engine) errorType() types.Type {
	if p := e.prog.ImportedPackage("errors"); p != nil {
		return types.NewPointer(p.Type("errorString").Type())
	}
	return types.Typ[types.String]
}

// doc returns the comment of a harness, which states its bounds.
func (e *Engine) doc(f *ssa.Function) string {
	if d, ok := f.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
		return strings.TrimSpace(d.Doc.Text())
	}
	return ""
}

func (e *Engine) harnesses(prefix string) []*ssa.Function {
	var r []*ssa.Function
	for n, m := range e.harness.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prefix+"_") {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

// ---------- check run ----------

type Violation struct {
	harness, label, detail, replay string
}

type Check struct {
	eng      *Engine
	id       string
	tier     string
	seed     int64
	workers  []*Worker
	hs       []*HarnessRun
	mu       sync.Mutex
	cond     *sync.Cond
	active   int
	stop     bool
	deadline time.Time
	stat     SolverStat
	viol     []Violation
	native   *Native
	funcs    map[string]bool
	maxViol  int
	verbose  bool
}

type HarnessRun struct {
	ck         *Check
	name       string
	fn         *ssa.Function
	mu         sync.Mutex
	queue      [][]int64
	running    int
	used       time.Duration
	paths      int64
	infeas     int64
	steps      int64
	merges     int64
	forks      int64
	asserts    int64
	byNorm     int64
	bySMT      int64
	undecided  map[string]int
	unsup      map[string]int
	spurious   map[string]int
	tried      map[string]int
	crossed    map[string]int
	unknowns   map[string]int
	witness    int
	validated  int
	diverged   int
	divNote    string
	canHold    map[string]*canRec
	timeouts   int64
	samples    []any
	concurrent bool
	noNative   bool
	budget     time.Duration
	dropped    int
	covers     int64
	notes      map[string]int
}

type canRec struct {
	unknown bool
	held    bool
	n       int
}

func (h *HarnessRun) push(p []int64) {
	h.ck.mu.Lock()
	h.queue = append(h.queue, p)
	h.ck.cond.Signal()
	h.ck.mu.Unlock()
}

func (ck *Check) next() (*HarnessRun, []int64) {
	ck.mu.Lock()
	defer ck.mu.Unlock()
	for {
		if ck.stop || time.Now().After(ck.deadline) {
			ck.cond.Broadcast()
			return nil, nil
		}
		var best *HarnessRun
		for _, h := range ck.hs {
			if len(h.queue) == 0 {
				continue
			}
			if best == nil || h.used < best.used {
				best = h
			}
		}
		if best != nil {
			n := len(best.queue) - 1
			p := best.queue[n]
			best.queue = best.queue[:n]
			best.running++
			ck.active++
			return best, p
		}
		if ck.active == 0 {
			ck.cond.Broadcast()
			return nil, nil
		}
		ck.cond.Wait()
	}
}

func (ck *Check) run(workers int) {
	ck.cond = sync.NewCond(&ck.mu)
	for _, h := range ck.hs {
		h.queue = [][]int64{nil}
	}
	var wg sync.WaitGroup
	tick := time.AfterFunc(time.Until(ck.deadline), func() { ck.mu.Lock(); ck.cond.Broadcast(); ck.mu.Unlock() })
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			wk := newWorker(ck, i)
			retire := func() {
				wk.solver.close()
				ck.mu.Lock()
				for f := range wk.funcsUsed {
					ck.funcs[f.String()] = true
				}
				ck.mu.Unlock()
			}
			for {
				h, p := ck.next()
				if h == nil {
					break
				}
				t0 := time.Now()
				if !wk.runPath(h, p) {
					// ended by the memory guard: start over with nothing shared
					retire()
					wk = newWorker(ck, i)
				}
				d := time.Since(t0)
				ck.mu.Lock()
				h.used += d
				h.running--
				ck.active--
				ck.cond.Broadcast()
				ck.mu.Unlock()
			}
			retire()
		}()
	}
	wg.Wait()
	tick.Stop()
	for _, h := range ck.hs {
		h.dropped = len(h.queue)
	}
}

// memoryGuard ends the path that holds the most values whenever the process has grown
// beyond the limit, so that one path too large to decide leaves the verdicts of the
// others; past the second limit nothing more is explored.
func (ck *Check) memoryGuard(done chan struct{}, giveUp func()) {
	limit := uint64(18 << 30)
	if b, err := os.ReadFile("/proc/meminfo"); err == nil {
		var kb uint64
		if i := bytes.Index(b, []byte("MemAvailable:")); i >= 0 {
			fmt.Sscan(string(b[i+13:]), &kb)
			limit = min(limit, kb*1024*6/10)
		}
	}
	debug.SetMemoryLimit(int64(limit) * 2 / 3)
	s := []metrics.Sample{{Name: "/memory/classes/total:bytes"}, {Name: "/memory/classes/heap/released:bytes"}}
	used := func() uint64 {
		metrics.Read(s)
		return s[0].Value.Uint64() - s[1].Value.Uint64()
	}
	for {
		select {
		case <-done:
			return
		case <-time.After(200 * time.Millisecond):
		}
		if used() < limit {
			continue
		}
		debug.FreeOSMemory()
		u := used()
		if u < limit*3/4 {
			continue
		}
		if u > limit*4/3 {
			giveUp()
			return
		}
		var big *Ctx
		ck.mu.Lock()
		for _, w := range ck.workers {
			if w.ctx != nil && !w.ctx.kill.Load() && (big == nil || w.ctx.size() > big.size()) {
				big = w.ctx
			}
		}
		ck.mu.Unlock()
		if big != nil {
			big.kill.Store(true)
		}
	}
}

func newWorker(ck *Check, id int) *Worker {
	wk := &Worker{eng: ck.eng, id: id, layouts: map[types.Type]*Layout{}, fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]*Obj{},
		inits: map[*ssa.Package]bool{}, once: map[string]Val{}, badIf: map[*Block]int{}, funcsUsed: map[*ssa.Function]bool{}}
	wk.solver = &Solver{stat: &ck.stat}
	ck.mu.Lock()
	ck.workers = append(slices.DeleteFunc(ck.workers, func(w *Worker) bool { return w.id == id }), wk)
	ck.mu.Unlock()
	return wk
}

func (wk *Worker) newState(h *HarnessRun, prefix []int64) *State {
	st := &State{wk: wk, c: NewCtx(), nextID: wk.nextID, prefix: prefix, pcset: map[*Bool]bool{}, h: h, params: map[string]int64{}}
	st.rnd.init()
	st.sched = newSched(st)
	st.deadline = h.ck.deadline.Add(5 * time.Second)
	wk.st = st
	return st
}

func (wk *Worker) moduleInit(st *State) {
	if wk.inits[wk.eng.harness] {
		return
	}
	wk.inits[wk.eng.harness] = true
	st.makingBase = true
	st.rnd.mode = 1
	fn := wk.fn(wk.eng.harness.Func("init"))
	st.callFn(nil, st.sched.main, fn, nil, nil, nil)
	st.makingBase = false
	st.rnd.mode = 0
}

func (wk *Worker) runPath(h *HarnessRun, prefix []int64) bool {
	st := wk.newState(h, prefix)
	h.ck.mu.Lock()
	wk.ctx = st.c
	h.ck.mu.Unlock()
	outcome := ""
	func() {
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			switch x := e.(type) {
			case pathEnd:
				outcome = x.why
			case unsupErr:
				outcome = "unsupported: " + x.msg
			case mergeAbortT:
				outcome = "unsupported: merge abort at top: " + x.why
			case goPanicT:
				st.guards = nil
				st.uncaught(x)
				outcome = "panic"
			default:
				if h.ck.verbose {
					fmt.Fprintf(os.Stderr, "internal error in %s: %v\n%s\n", h.name, e, debug.Stack())
				}
				outcome = fmt.Sprintf("unsupported: internal: %v", e)
			}
		}()
		wk.moduleInit(st)
		fn := wk.fn(h.fn)
		wk.solver.deadline = st.deadline
		st.callFn(nil, st.sched.main, fn, nil, nil, nil)
	}()
	wk.solver.deadline = time.Time{}
	st.sched.killAll()
	if outcome == "" {
		st.finishPath()
	}
	st.guards = nil
	st.undoTo(0)
	for _, o := range st.shadowed {
		o.shadow = nil
	}
	wk.nextID = st.nextID
	h.ck.mu.Lock()
	wk.ctx = nil
	h.ck.mu.Unlock()
	h.mu.Lock()
	defer h.mu.Unlock()
	h.steps += st.steps
	h.merges += int64(st.merges)
	h.forks += int64(st.forks)
	switch {
	case outcome == "" || outcome == "panic":
		h.paths++
	case outcome == "infeasible":
		h.infeas++
	case outcome == "memory":
		h.timeouts++
		h.unsup["path memory limit"]++
	case outcome == "timeout":
		h.timeouts++
		h.unsup["path time limit"]++
	case strings.HasPrefix(outcome, "unsupported: "):
		m := outcome[len("unsupported: "):]
		if h.ck.verbose && h.unsup[m] == 0 {
			fmt.Fprintf(os.Stderr, "[%s] unsupported: %s (prefix %v)\n", h.name, m, prefix)
		}
		h.unsup[m]++
	default:
		h.unsup[outcome]++
	}
	return outcome != "memory"
}

// ---------- queries ----------

// cone returns the path constraints connected with the given booleans.
func (st *State) cone(seed ...*Bool) []*Bool {
	ls := newLeafSet()
	for _, b := range seed {
		ls.boolean(b)
	}
	type pcI struct {
		b    *Bool
		ls   *leafSet
		used bool
	}
	ps := make([]pcI, 0, len(st.pc))
	for _, b := range st.pc {
		l := newLeafSet()
		l.boolean(b)
		ps = append(ps, pcI{b: b, ls: l})
	}
	have := map[*Atom]bool{}
	for _, a := range ls.leaves {
		have[a] = true
	}
	var out []*Bool
	for ch := true; ch; {
		ch = false
		for i := range ps {
			if ps[i].used {
				continue
			}
			hit := len(ps[i].ls.leaves) == 0
			for _, a := range ps[i].ls.leaves {
				if have[a] {
					hit = true
					break
				}
			}
			if hit {
				ps[i].used = true
				ch = true
				out = append(out, st.c.resolveB(ps[i].b))
				for _, a := range ps[i].ls.leaves {
					have[a] = true
				}
			}
		}
	}
	return append(out, seed...)
}

func (st *State) evalAll(m *Asg, bs []*Bool) bool {
	if m == nil {
		return false
	}
	g := &Asg{iv: m.iv, rv: m.rv, mi: map[*Atom]int64{}}
	for _, b := range bs {
		if !g.bool(b) {
			return false
		}
	}
	return !g.bad
}

const feasLimit = 2 * time.Second

func (st *State) feasible(cond *Bool) bool {
	cond = st.simp(cond)
	if cond.isConst() && !cond.val {
		return false
	}
	q := st.cone(st.guardList(cond)...)
	for _, b := range q {
		if b.isConst() && !b.val {
			return false
		}
	}
	if m := newAsg(); st.evalAll(m, q) {
		st.h.ck.stat.guessed++
		return true
	}
	v, _ := st.wk.solver.Solve(q, feasLimit)
	return v != Unsat
}

func (st *State) guardList(cond *Bool) []*Bool {
	if len(st.guards) > 0 {
		return []*Bool{st.c.resolveB(st.guard()), cond}
	}
	return []*Bool{cond}
}

func (st *State) modelValue(t *Term) (int64, bool) {
	v, m := st.wk.solver.Solve(st.fullPC(), 10*time.Second)
	if v != Sat || m == nil {
		return 0, false
	}
	return m.term(t), true
}

func (st *State) fullPC(extra ...*Bool) []*Bool {
	out := make([]*Bool, 0, len(st.pc)+1)
	for _, b := range st.pc {
		r := st.c.resolveB(b)
		if r != st.c.True {
			out = append(out, r)
		}
	}
	return append(out, extra...)
}

func (ck *Check) assertLimit() time.Duration {
	if ck.tier == "thorough" {
		return 120 * time.Second
	}
	return 20 * time.Second
}

// doAssert decides one obligation.
func (st *State) doAssert(cond *Bool, label string) {
	h := st.h
	c := st.simp(cond)
	h.mu.Lock()
	h.asserts++
	h.mu.Unlock()
	if c == st.c.True {
		h.mu.Lock()
		h.byNorm++
		h.mu.Unlock()
		return
	}
	h.mu.Lock()
	skip := h.tried[label] >= 6 || h.unknowns[label] >= 6
	h.mu.Unlock()
	if skip {
		h.mu.Lock()
		h.undecided[label]++
		h.mu.Unlock()
		return
	}
	// conjunctions are decided one conjunct at a time
	goals := []*Bool{c}
	if c.kind == BAnd {
		goals = c.bs
	}
	queried := false
	for _, g := range goals {
		g = st.simp(g)
		if g != st.c.True {
			o := st.simp(st.c.collapseB(g, false))
			g = st.simp(st.c.collapseB(o, true))
			if g == st.c.True && o != g && h.crossCheck(label) {
				// the rewriting decided it: let the solver confirm where it can
				if v, m := st.wk.solver.Solve(st.cone(st.guardList(st.c.Not(o))...), 2*time.Second); v == Unsat {
					queried = true
				} else if v == Sat {
					st.candidate(m, label, fmt.Sprintf("%.300v", o))
					return
				}
			}
		}
		if g == st.c.True {
			continue
		}
		neg := st.c.Not(g)
		q := st.cone(st.guardList(neg)...)
		queried = true
		v, m := st.wk.solver.Solve(q, h.ck.assertLimit())
		switch v {
		case Unsat:
			continue
		case Unknown:
			h.mu.Lock()
			h.undecided[label]++
			h.unknowns[label]++
			h.mu.Unlock()
			if h.ck.verbose {
				fmt.Fprintf(os.Stderr, "[%s] undecided %s: %.400v\n", h.name, label, g)
			}
			return
		}
		// satisfiable: complete the model over the whole path condition
		full := st.fullPC(st.guardList(neg)...)
		if len(full) != len(q) || m == nil {
			v2, m2 := st.wk.solver.Solve(full, h.ck.assertLimit())
			if v2 == Unsat {
				panic(pathEnd{"infeasible"})
			}
			if v2 == Sat && m2 != nil {
				m = m2
			}
		}
		st.candidate(m, label, fmt.Sprintf("%.300v", g))
		return
	}
	h.mu.Lock()
	if queried {
		h.bySMT++
	} else {
		h.byNorm++
	}
	h.mu.Unlock()
}

func (h *HarnessRun) crossCheck(label string) bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.crossed[label]++
	return h.crossed[label] <= 2
}

// candidate replays a counterexample natively.
func (st *State) candidate(m *Asg, label, detail string) {
	h := st.h
	if m == nil {
		m = newAsg()
	}
	h.mu.Lock()
	h.tried[label]++
	n := h.tried[label]
	h.mu.Unlock()
	if n > 6 {
		return
	}
	if h.ck.verbose {
		fmt.Fprintf(os.Stderr, "[%s] candidate violation of %q: %s\n", h.name, label, detail)
	}
	ins := st.concreteInputs(m)
	ok, out, file := h.ck.native.confirm(h, ins, label, st.sched.explored)
	if ok {
		h.ck.addViolation(Violation{h.name, label, detail + " :: " + out, file})
	} else {
		if h.ck.verbose {
			fmt.Fprintf(os.Stderr, "[%s] not reproduced natively: %s (%s)\n", h.name, label, out)
		}
		h.mu.Lock()
		h.spurious[label]++
		h.undecided[label]++
		h.mu.Unlock()
	}
}

func (ck *Check) addViolation(v Violation) {
	ck.mu.Lock()
	defer ck.mu.Unlock()
	for _, o := range ck.viol {
		if o.harness == v.harness && o.label == v.label {
			return
		}
	}
	ck.viol = append(ck.viol, v)
	if len(ck.viol) >= ck.maxViol {
		ck.stop = true
		ck.cond.Broadcast()
	}
}

func panicMsg(p goPanicT) string {
	if p.v.R == nil {
		return "nil"
	}
	if i, ok := p.v.R.(*Iface); ok {
		if s, ok := i.v.R.(string); ok {
			return s
		}
		return i.t.String()
	}
	return "?"
}

func (st *State) uncaught(p goPanicT) {
	msg := panicMsg(p)
	h := st.h
	h.mu.Lock()
	h.asserts++
	h.mu.Unlock()
	full := st.fullPC()
	v, m := st.wk.solver.Solve(full, h.ck.assertLimit())
	if v == Unsat {
		return
	}
	st.candidate(m, "panic", msg)
}

// ---------- end of path ----------

type obsRec struct {
	label string
	t     *Term
	guard *Bool
}

type coverRec struct{}

type InputRec struct {
	K string  `json:"k"`
	V int64   `json:"v,omitempty"`
	F float64 `json:"f,omitempty"`
	L string  `json:"l,omitempty"`
}

func (st *State) concreteInputs(m *Asg) []InputRec {
	g := &Asg{iv: m.iv, rv: m.rv, mi: map[*Atom]int64{}}
	var out []InputRec
	for _, in := range st.inputs {
		if in.guard != nil && !in.guard.isConst() && !g.bool(in.guard) {
			continue
		}
		r := InputRec{K: in.kind, L: in.label}
		switch {
		case in.atom == nil:
			r.V = in.conc
			r.F = in.concf
		case in.atom.kind == AReal:
			r.F = g.rv[in.atom]
		default:
			r.V = g.atom(in.atom)
		}
		out = append(out, r)
	}
	return out
}

func (st *State) finishPath() {
	h := st.h
	h.mu.Lock()
	want := h.witness < witnessLimit(h.ck.tier)
	if want {
		h.witness++
	}
	h.mu.Unlock()
	if !want {
		return
	}
	v, m := st.wk.solver.Solve(st.fullPC(), 10*time.Second)
	if v == Unsat {
		h.mu.Lock()
		h.witness--
		h.infeas++
		h.paths--
		h.mu.Unlock()
		return
	}
	if v != Sat {
		return
	}
	if m == nil {
		m = newAsg()
	}
	ins := st.concreteInputs(m)
	res := h.ck.native.replay(h, ins, 1, "")
	h.mu.Lock()
	if len(h.samples) < 2 {
		s := ins
		if len(s) > 12 {
			s = s[:12]
		}
		h.samples = append(h.samples, map[string]any{"harness": h.name, "inputs": s, "native": res.status, "observations": trunc(res.obs, 8)})
	}
	h.mu.Unlock()
	switch res.status {
	case "ok":
		// compare observations
		g := &Asg{iv: m.iv, rv: m.rv, mi: map[*Atom]int64{}}
		i := 0
		bad := ""
		for _, o := range st.obs {
			if o.guard != nil && !g.bool(o.guard) {
				continue
			}
			if i >= len(res.obs) {
				bad = "missing observation " + o.label
				break
			}
			ls := newLeafSet()
			ls.term(o.t)
			exact := !ls.approx
			for n := range ls.nodes {
				if n.err != 0 {
					exact = false
				}
				for _, mm := range n.ms {
					if mm.real {
						exact = false
					}
				}
			}
			if exact {
				want := uint64(g.term(o.t)) & umask(o.t.w)
				if want != res.obs[i] {
					bad = fmt.Sprintf("observation %d (%s): engine %d native %d", i, o.label, want, res.obs[i])
					break
				}
			}
			i++
		}
		h.mu.Lock()
		if bad == "" {
			h.validated++
		} else {
			h.diverged++
			h.divNote = bad
			if h.ck.verbose {
				fmt.Fprintf(os.Stderr, "[%s] trace mismatch: %s\n", h.name, bad)
			}
		}
		h.mu.Unlock()
	case "assert", "panic":
		h.ck.addViolation(Violation{h.name, res.label, "found by native execution of a path witness: " + res.out, res.file})
	default:
		h.mu.Lock()
		h.diverged++
		h.divNote = res.status + ": " + res.out
		h.mu.Unlock()
		if h.ck.verbose {
			fmt.Fprintf(os.Stderr, "[%s] witness replay: %s %s\n", h.name, res.status, res.out)
		}
	}
}

func witnessLimit(tier string) int {
	if tier == "thorough" {
		return 12
	}
	return 3
}

func trunc[T any](s []T, n int) []T {
	if len(s) > n {
		return s[:n]
	}
	return s
}
