package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Verdict uint8

const (
	Unknown Verdict = iota
	Sat
	Unsat
)

func (v Verdict) String() string { return [...]string{"unknown", "sat", "unsat"}[v] }

// ---------- encoders ----------

type enc struct {
	sb     strings.Builder
	tn     map[*Term]string
	an     map[*Atom]bool
	bn     map[*Bool]string
	fn     map[*FNode]string
	naux   int
	bv     bool
	leaves []*Atom
	err    string
}

func newEnc(bv bool) *enc {
	return &enc{tn: map[*Term]string{}, an: map[*Atom]bool{}, bn: map[*Bool]string{}, fn: map[*FNode]string{}, bv: bv}
}

func (e *enc) p(f string, a ...any) { fmt.Fprintf(&e.sb, f, a...) }
func (e *enc) aux() string          { e.naux++; return fmt.Sprintf("x%d", e.naux) }

func il(v int64) string {
	if v < 0 {
		if v == math.MinInt64 {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -v)
	}
	return strconv.FormatInt(v, 10)
}
func pow2s(n int) string { return new(big.Int).Lsh(big.NewInt(1), uint(n)).String() }

func rl(f float64) string {
	r := new(big.Rat)
	r.SetFloat64(f)
	n := r.Num()
	neg := n.Sign() < 0
	s := new(big.Int).Abs(n).String() + ".0"
	if !r.IsInt() {
		s = "(/ " + s + " " + r.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

func (e *enc) fail(s string) {
	if e.err == "" {
		e.err = s
	}
}

// ----- linear integer/real encoding -----

func (e *enc) iatom(a *Atom) string {
	if a.bound {
		return il(a.bval)
	}
	e.idef(a)
	return fmt.Sprintf("a%d", a.id)
}

// idef declares the atom with its definition.
func (e *enc) idef(a *Atom) {
	if e.an[a] {
		return
	}
	e.an[a] = true
	n := fmt.Sprintf("a%d", a.id)
	rangeOf := func() {
		if a.big {
			if a.kind == AOp && (a.op == OpSDiv || a.op == OpSRem) || a.kind == ASigned {
				e.p("(assert (and (<= (- %s) %s) (< %s %s)))\n", pow2s(63), n, n, pow2s(63))
			} else if a.kind == ASlice {
				e.p("(assert (and (<= 0 %s) (< %s %s)))\n", n, n, pow2s(int(a.sn)))
			} else {
				e.p("(assert (and (<= 0 %s) (< %s %s)))\n", n, n, pow2s(64))
			}
		} else {
			e.p("(assert (and (<= %s %s) (<= %s %s)))\n", il(a.lo), n, n, il(a.hi))
		}
	}
	switch a.kind {
	case AVar:
		e.leaves = append(e.leaves, a)
		e.p("(declare-const %s Int)\n", n)
		rangeOf()
	case AReal:
		e.leaves = append(e.leaves, a)
		e.p("(declare-const %s Real)\n", n)
		e.p("(assert (and (<= %s %s) (<= %s %s)))\n", rl(a.flo), n, n, rl(a.fhi))
	case ASlice:
		t := e.iterm(a.t)
		e.p("(declare-const %s Int)\n", n)
		rangeOf()
		q := e.quot(a.t, int(a.t.w), false)
		if a.sl > 0 {
			l := e.aux()
			e.p("(declare-const %s Int)\n(assert (and (<= 0 %s) (< %s %s)))\n", l, l, l, pow2s(int(a.sl)))
			e.p("(assert (= %s (+ %s (* %s %s) %s)))\n", t, q, pow2s(int(a.sl)), n, l)
		} else {
			e.p("(assert (= %s (+ %s %s)))\n", t, q, n)
		}
	case ASigned:
		t := e.iterm(a.t)
		e.p("(declare-const %s Int)\n", n)
		rangeOf()
		q := e.quot(a.t, int(a.t.w), true)
		e.p("(assert (= %s (+ %s %s)))\n", t, q, n)
	case AB2I:
		b := e.ibool(a.b)
		e.p("(define-fun %s () Int (ite %s 1 0))\n", n, b)
	case AOp:
		e.p("(declare-const %s Int)\n", n)
		if a.a2.isConst() && a.a2.c0 > 0 {
			d := a.a2.c0
			switch a.op {
			case OpUDiv:
				u := e.uval(a.a1)
				r := e.aux()
				e.p("(declare-const %s Int)\n(assert (and (<= 0 %s) (< %s %d) (= %s (+ (* %d %s) %s))))\n", r, r, r, d, u, d, n, r)
				rangeOf()
				return
			case OpURem:
				u := e.uval(a.a1)
				q := e.aux()
				e.p("(declare-const %s Int)\n(assert (and (<= 0 %s) (= %s (+ (* %d %s) %s))))\n", q, q, u, d, q, n)
				rangeOf()
				return
			case OpSRem:
				u := e.sval(a.a1)
				q := e.aux()
				e.p("(declare-const %s Int)\n(assert (= %s (+ (* %d %s) %s)))\n", q, u, d, q, n)
				e.p("(assert (ite (>= %s 0) (and (<= 0 %s) (< %s %d)) (and (< (- %d) %s) (<= %s 0))))\n", u, n, n, d, d, n, n)
				rangeOf()
				return
			case OpSDiv:
				u := e.sval(a.a1)
				r := e.aux()
				e.p("(declare-const %s Int)\n(assert (= %s (+ (* %d %s) %s)))\n", r, u, d, n, r)
				e.p("(assert (ite (>= %s 0) (and (<= 0 %s) (< %s %d)) (and (< (- %d) %s) (<= %s 0))))\n", u, r, r, d, d, r, r)
				rangeOf()
				return
			}
		}
		e.fail("opaque " + opNames[a.op])
	case AFInt:
		f := e.fnode(a.node)
		e.p("(declare-const %s Int)\n", n)
		rangeOf()
		switch a.fop {
		case FTrunc:
			e.p("(assert (ite (>= %s 0.0) (and (<= (to_real %s) %s) (< %s (+ (to_real %s) 1.0))) (and (< (- (to_real %s) 1.0) %s) (<= %s (to_real %s)))))\n", f, n, f, f, n, n, f, f, n)
		case FFloor:
			e.p("(assert (and (<= (to_real %s) %s) (< %s (+ (to_real %s) 1.0))))\n", n, f, f, n)
		case FCeil:
			e.p("(assert (and (< (- (to_real %s) 1.0) %s) (<= %s (to_real %s))))\n", n, f, f, n)
		case FRound:
			e.p("(assert (ite (>= %s 0.0) (and (<= (- (to_real %s) 0.5) %s) (< %s (+ (to_real %s) 0.5))) (and (< (- (to_real %s) 0.5) %s) (<= %s (+ (to_real %s) 0.5)))))\n", f, n, f, f, n, n, f, f, n)
		default:
			e.p("(assert (and (<= (- (to_real %s) 0.5) %s) (<= %s (+ (to_real %s) 0.5))))\n", n, f, f, n)
		}
	case AErr:
		e.p("(declare-const %s Int)\n", n)
		rangeOf()
	}
}

// quot returns k*2^w for a fresh k bounded by the term's range.
func (e *enc) quot(t *Term, w int, signed bool) string {
	k := e.aux()
	e.p("(declare-const %s Int)\n", k)
	if t.rok {
		lo, hi := t.lo, t.hi
		if w < 62 {
			if signed {
				h := int64(1) << (w - 1)
				lo, hi = (lo+h)>>w, (hi+h)>>w
			} else {
				lo, hi = lo>>w, hi>>w
			}
			e.p("(assert (and (<= %s %s) (<= %s %s)))\n", il(lo), k, k, il(hi))
		}
	}
	return fmt.Sprintf("(* %s %s)", pow2s(w), k)
}

func (e *enc) imono(m *Mono) string {
	var bs, xs []string
	for _, a := range m.atoms {
		if a.bound {
			xs = append(xs, il(a.bval))
			continue
		}
		if a.kind != AReal && !a.big && a.lo >= 0 && a.hi <= 1 {
			if a.kind == AB2I {
				bs = append(bs, e.ibool(a.b))
			} else {
				bs = append(bs, "(= "+e.iatom(a)+" 1)")
			}
			continue
		}
		xs = append(xs, e.iatom(a))
	}
	v := "1"
	if len(xs) == 1 {
		v = xs[0]
	} else if len(xs) > 1 {
		v = "(* " + strings.Join(xs, " ") + ")"
	}
	if len(bs) == 0 {
		return v
	}
	if len(bs) == 1 && v == "1" && len(m.atoms) == 1 {
		return e.iatom(m.atoms[0])
	}
	g := bs[0]
	if len(bs) > 1 {
		g = "(and " + strings.Join(bs, " ") + ")"
	}
	return "(ite " + g + " " + v + " 0)"
}

func sum(parts []string) string {
	switch len(parts) {
	case 0:
		return "0"
	case 1:
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func (e *enc) iterm(t *Term) string {
	if n, ok := e.tn[t]; ok {
		return n
	}
	var ps []string
	for i, m := range t.ms {
		x := e.imono(m)
		if t.cs[i] != 1 {
			x = "(* " + il(t.cs[i]) + " " + x + ")"
		}
		ps = append(ps, x)
	}
	if t.c0 != 0 || len(ps) == 0 {
		ps = append(ps, il(t.c0))
	}
	s := sum(ps)
	if len(t.ms) > 1 {
		n := fmt.Sprintf("t%d", t.id)
		e.p("(define-fun %s () Int %s)\n", n, s)
		s = n
	}
	e.tn[t] = s
	return s
}

func (e *enc) uval(t *Term) string {
	if _, _, ok := t.urange(); ok {
		return e.iterm(t)
	}
	if t.isConst() {
		return strconv.FormatUint(t.uval(), 10)
	}
	x := e.iterm(t)
	n := e.aux()
	e.p("(declare-const %s Int)\n(assert (and (<= 0 %s) (< %s %s)))\n", n, n, n, pow2s(int(t.w)))
	q := e.quot(t, int(t.w), false)
	e.p("(assert (= %s (+ %s %s)))\n", x, q, n)
	return n
}
func (e *enc) sval(t *Term) string {
	if _, _, ok := t.srange(); ok {
		return e.iterm(t)
	}
	x := e.iterm(t)
	n := e.aux()
	e.p("(declare-const %s Int)\n(assert (and (<= (- %s) %s) (< %s %s)))\n", n, pow2s(int(t.w)-1), n, n, pow2s(int(t.w)-1))
	q := e.quot(t, int(t.w), true)
	e.p("(assert (= %s (+ %s %s)))\n", x, q, n)
	return n
}

func (e *enc) fnode(f *FNode) string {
	if n, ok := e.fn[f]; ok {
		return n
	}
	var ps []string
	for i, m := range f.ms {
		var x string
		if m.real {
			var bs, xs []string
			for _, a := range m.atoms {
				switch {
				case a.kind == AReal:
					xs = append(xs, e.iatom(a))
				case a.bound:
					xs = append(xs, "(to_real "+il(a.bval)+")")
				case !a.big && a.lo >= 0 && a.hi <= 1:
					bs = append(bs, "(= "+e.iatom(a)+" 1)")
				default:
					xs = append(xs, "(to_real "+e.iatom(a)+")")
				}
			}
			x = xs[0]
			if len(xs) > 1 {
				x = "(* " + strings.Join(xs, " ") + ")"
			}
			if len(bs) > 0 {
				x = "(ite (and true " + strings.Join(bs, " ") + ") " + x + " 0.0)"
			}
		} else {
			x = "(to_real " + e.imono(m) + ")"
		}
		if f.cs[i] != 1 {
			x = "(* " + rl(f.cs[i]) + " " + x + ")"
		}
		ps = append(ps, x)
	}
	if f.c0 != 0 || len(ps) == 0 {
		ps = append(ps, rl(f.c0))
	}
	if f.err != 0 {
		n := fmt.Sprintf("e%d", f.id)
		// rng() adds the rounding slack of the coefficients
		er := f.err
		e.p("(declare-const %s Real)\n(assert (and (<= %s %s) (<= %s %s)))\n", n, rl(-er), n, n, rl(er))
		ps = append(ps, n)
	}
	n := fmt.Sprintf("f%d", f.id)
	e.p("(define-fun %s () Real %s)\n", n, sum(ps))
	e.fn[f] = n
	return n
}

func (e *enc) ibool(b *Bool) string {
	if n, ok := e.bn[b]; ok {
		return n
	}
	var s string
	switch b.kind {
	case BConst:
		s = strconv.FormatBool(b.val)
	case BAtom:
		if b.a.bound {
			s = strconv.FormatBool(b.a.bval != 0)
		} else {
			s = "(= " + e.iatom(b.a) + " 1)"
		}
	case BBind:
		e.idef(b.a)
		s = fmt.Sprintf("(= a%d %s)", b.a.id, il(b.v))
	case BEq:
		t := e.iterm(b.t)
		if b.t.rok && (b.t.w >= 63 || b.t.hi-b.t.lo < int64(1)<<b.t.w && b.t.hi-b.t.lo >= 0) && b.v >= b.t.lo && b.v <= b.t.hi {
			s = "(= " + t + " " + il(b.v) + ")"
		} else {
			k := e.aux()
			// t = v + k*2^w + r with 0 <= r < 2^w ; equal iff r = 0
			r := e.aux()
			e.p("(declare-const %s Int)\n(declare-const %s Int)\n(assert (and (<= 0 %s) (< %s %s)))\n", k, r, r, r, pow2s(int(b.t.w)))
			e.p("(assert (= %s (+ %s (* %s %s) %s)))\n", t, il(b.v), pow2s(int(b.t.w)), k, r)
			s = "(= " + r + " 0)"
		}
	case BULt:
		s = "(< " + e.uval(b.x) + " " + e.uval(b.y) + ")"
	case BSLt:
		s = "(< " + e.sval(b.x) + " " + e.sval(b.y) + ")"
	case BNot:
		s = "(not " + e.ibool(b.bs[0]) + ")"
	case BAnd:
		var xs []string
		for _, x := range b.bs {
			xs = append(xs, e.ibool(x))
		}
		s = "(and " + strings.Join(xs, " ") + ")"
	case BFCmp:
		o := [...]string{"<", "<=", "="}[b.rel]
		s = "(" + o + " " + e.fnode(b.f) + " " + e.fnode(b.g) + ")"
	}
	if len(s) > 40 {
		n := fmt.Sprintf("b%d", b.id)
		e.p("(define-fun %s () Bool %s)\n", n, s)
		s = n
	}
	e.bn[b] = s
	return s
}

// ----- bit-vector encoding -----

func bvc(v int64, w uint8) string {
	return fmt.Sprintf("(_ bv%d %d)", uint64(v)&umask(w), w)
}

// ext returns x of width from resized to w.
func ext(x string, from, w uint8, signed bool) string {
	if w == from {
		return x
	}
	if w < from {
		return fmt.Sprintf("((_ extract %d 0) %s)", w-1, x)
	}
	if signed {
		return fmt.Sprintf("((_ sign_extend %d) %s)", w-from, x)
	}
	return fmt.Sprintf("((_ zero_extend %d) %s)", w-from, x)
}

func (e *enc) batomW(a *Atom, w uint8) string {
	if a.bound {
		return bvc(a.bval, w)
	}
	n, aw, sg := e.bdef(a)
	return ext(n, aw, w, sg)
}

func (e *enc) bdef(a *Atom) (string, uint8, bool) {
	n := fmt.Sprintf("a%d", a.id)
	var aw uint8
	var sg bool
	switch a.kind {
	case AVar:
		aw, sg = 64, true
		if a.big {
			aw, sg = 64, false
		} else if a.lo >= 0 {
			sg = false
			aw = 1
			for umask(aw) < uint64(a.hi) {
				aw++
			}
		}
	case ASlice:
		aw = a.sn
	case ASigned:
		aw, sg = a.t.w, true
	case AB2I:
		aw = 1
	case AOp:
		aw = a.a1.w
		sg = a.op == OpSDiv || a.op == OpSRem
	case AFInt, AErr:
		aw, sg = 64, true
	case AReal:
		e.fail("real in bit-vector encoding")
		return "x", 64, false
	}
	if e.an[a] {
		return n, aw, sg
	}
	e.an[a] = true
	switch a.kind {
	case AVar:
		e.leaves = append(e.leaves, a)
		e.p("(declare-const %s (_ BitVec %d))\n", n, aw)
		if !a.big {
			if sg {
				e.p("(assert (and (bvsle %s %s) (bvsle %s %s)))\n", bvc(a.lo, aw), n, n, bvc(a.hi, aw))
			} else {
				if uint64(a.hi) != umask(aw) {
					e.p("(assert (bvule %s %s))\n", n, bvc(a.hi, aw))
				}
				if a.lo > 0 {
					e.p("(assert (bvule %s %s))\n", bvc(a.lo, aw), n)
				}
			}
		}
	case ASlice:
		t := e.bterm(a.t)
		e.p("(define-fun %s () (_ BitVec %d) ((_ extract %d %d) %s))\n", n, aw, a.sl+a.sn-1, a.sl, t)
	case ASigned:
		t := e.bterm(a.t)
		e.p("(define-fun %s () (_ BitVec %d) %s)\n", n, aw, t)
	case AB2I:
		b := e.bbool(a.b)
		e.p("(define-fun %s () (_ BitVec 1) (ite %s #b1 #b0))\n", n, b)
	case AOp:
		x, y := e.bterm(a.a1), e.bterm(a.a2)
		o := [...]string{"bvand", "bvor", "bvxor", "bvudiv", "bvsdiv", "bvmul", "bvshl", "bvlshr", "bvashr", "bvurem", "bvsrem"}[a.op]
		e.p("(define-fun %s () (_ BitVec %d) (%s %s %s))\n", n, aw, o, x, y)
	case AFInt, AErr:
		e.p("(declare-const %s (_ BitVec 64))\n", n)
		e.p("(assert (and (bvsle %s %s) (bvsle %s %s)))\n", bvc(a.lo, 64), n, n, bvc(a.hi, 64))
	}
	return n, aw, sg
}

func (e *enc) bterm(t *Term) string {
	if n, ok := e.tn[t]; ok {
		return n
	}
	var ps []string
	for i, m := range t.ms {
		var x string
		var bs []string
		for _, a := range m.atoms {
			if len(m.atoms) > 1 && !a.bound && a.kind != AReal && !a.big && a.lo >= 0 && a.hi <= 1 {
				if a.kind == AB2I {
					bs = append(bs, e.bbool(a.b))
				} else {
					n, aw, _ := e.bdef(a)
					bs = append(bs, "(= "+n+" "+bvc(1, aw)+")")
				}
				continue
			}
			y := e.batomW(a, t.w)
			if x == "" {
				x = y
			} else {
				x = "(bvmul " + x + " " + y + ")"
			}
		}
		if x == "" {
			x = bvc(1, t.w)
		}
		if t.cs[i] != 1 {
			x = "(bvmul " + bvc(t.cs[i], t.w) + " " + x + ")"
		}
		if len(bs) > 0 {
			x = "(ite (and true " + strings.Join(bs, " ") + ") " + x + " " + bvc(0, t.w) + ")"
		}
		ps = append(ps, x)
	}
	if t.c0 != 0 || len(ps) == 0 {
		ps = append(ps, bvc(t.c0, t.w))
	}
	s := ps[0]
	if len(ps) > 1 {
		s = "(bvadd " + strings.Join(ps, " ") + ")"
	}
	n := fmt.Sprintf("t%d", t.id)
	e.p("(define-fun %s () (_ BitVec %d) %s)\n", n, t.w, s)
	e.tn[t] = n
	return n
}

func (e *enc) bbool(b *Bool) string {
	if n, ok := e.bn[b]; ok {
		return n
	}
	var s string
	switch b.kind {
	case BConst:
		s = strconv.FormatBool(b.val)
	case BAtom:
		if b.a.bound {
			s = strconv.FormatBool(b.a.bval != 0)
		} else {
			n, aw, _ := e.bdef(b.a)
			s = "(= " + n + " " + bvc(1, aw) + ")"
		}
	case BBind:
		n, aw, _ := e.bdef(b.a)
		s = "(= " + n + " " + bvc(b.v, aw) + ")"
	case BEq:
		s = "(= " + e.bterm(b.t) + " " + bvc(b.v, b.t.w) + ")"
	case BULt:
		s = "(bvult " + e.bterm(b.x) + " " + e.bterm(b.y) + ")"
	case BSLt:
		s = "(bvslt " + e.bterm(b.x) + " " + e.bterm(b.y) + ")"
	case BNot:
		s = "(not " + e.bbool(b.bs[0]) + ")"
	case BAnd:
		var xs []string
		for _, x := range b.bs {
			xs = append(xs, e.bbool(x))
		}
		s = "(and " + strings.Join(xs, " ") + ")"
	case BFCmp:
		s = fmt.Sprintf("fc%d", b.id)
		e.p("(declare-const %s Bool)\n", s)
	}
	if len(s) > 40 {
		n := fmt.Sprintf("b%d", b.id)
		e.p("(define-fun %s () Bool %s)\n", n, s)
		s = n
	}
	e.bn[b] = s
	return s
}

func encode(bs []*Bool, bv bool) (*enc, string) {
	e := newEnc(bv)
	for _, b := range bs {
		var s string
		if bv {
			s = e.bbool(b)
		} else {
			s = e.ibool(b)
		}
		e.p("(assert %s)\n", s)
	}
	return e, e.sb.String()
}

// ---------- solver processes ----------

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type Solver struct {
	main     *proc
	stat     *SolverStat
	deadline time.Time // Solve gives up the path after it
}

type SolverStat struct {
	queries, sat, unsat, unknown, guessed, trivial int64
	nanos                                          int64
	bySolver                                       [8]int64
}

func startProc(bin string, args ...string) (*proc, error) {
	cmd := exec.Command(bin, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd, in, bufio.NewReaderSize(out, 1<<16)}, nil
}

func (p *proc) kill() {
	if p != nil {
		p.cmd.Process.Kill()
		p.in.Close()
		p.cmd.Wait()
	}
}

func (s *Solver) close() {
	s.main.kill()
	s.main = nil
}

// ask sends one query and returns the verdict and the model lines.
func (p *proc) ask(q string, leaves []*Atom) (Verdict, map[*Atom]string, error) {
	if _, err := io.WriteString(p.in, q+"(check-sat)\n(echo \"@@\")\n"); err != nil {
		return Unknown, nil, err
	}
	v := Unknown
	for {
		l, err := p.out.ReadString('\n')
		if err != nil {
			return Unknown, nil, err
		}
		l = strings.TrimSpace(l)
		if strings.Contains(l, "@@") {
			break
		}
		switch l {
		case "sat":
			v = Sat
		case "unsat":
			v = Unsat
		}
		if strings.HasPrefix(l, "(error") {
			return Unknown, nil, fmt.Errorf("%s", l)
		}
	}
	if v != Sat || len(leaves) == 0 {
		return v, nil, nil
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, a := range leaves {
		fmt.Fprintf(&sb, "a%d ", a.id)
	}
	sb.WriteString("))\n(echo \"@@\")\n")
	if _, err := io.WriteString(p.in, sb.String()); err != nil {
		return Unknown, nil, err
	}
	var txt strings.Builder
	for {
		l, err := p.out.ReadString('\n')
		if err != nil {
			return Unknown, nil, err
		}
		if strings.Contains(l, "@@") {
			break
		}
		txt.WriteString(l)
	}
	m := map[*Atom]string{}
	byName := map[string]*Atom{}
	for _, a := range leaves {
		byName[fmt.Sprintf("a%d", a.id)] = a
	}
	sx := parseSexp(txt.String())
	for _, pr := range sx.list {
		if len(pr.list) == 2 {
			if a := byName[pr.list[0].atom]; a != nil {
				m[a] = pr.list[1].String()
			}
		}
	}
	return v, m, nil
}

type sexp struct {
	atom string
	list []*sexp
}

func (s *sexp) String() string {
	if s.list == nil {
		return s.atom
	}
	var p []string
	for _, x := range s.list {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func parseSexp(s string) *sexp {
	pos := 0
	var rec func() *sexp
	rec = func() *sexp {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
			pos++
		}
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			r := &sexp{list: []*sexp{}}
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
					pos++
				}
				if pos >= len(s) {
					return r
				}
				if s[pos] == ')' {
					pos++
					return r
				}
				r.list = append(r.list, rec())
			}
		}
		st := pos
		for pos < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[pos])) {
			pos++
		}
		return &sexp{atom: s[st:pos]}
	}
	r := rec()
	if r == nil {
		return &sexp{}
	}
	return r
}

func ratOf(s *sexp) (*big.Rat, bool) {
	if s.list == nil {
		if strings.HasPrefix(s.atom, "#x") {
			n, ok := new(big.Int).SetString(s.atom[2:], 16)
			return new(big.Rat).SetInt(n), ok
		}
		if strings.HasPrefix(s.atom, "#b") {
			n, ok := new(big.Int).SetString(s.atom[2:], 2)
			return new(big.Rat).SetInt(n), ok
		}
		r, ok := new(big.Rat).SetString(s.atom)
		return r, ok
	}
	if len(s.list) == 2 && s.list[0].atom == "-" {
		r, ok := ratOf(s.list[1])
		if !ok {
			return nil, false
		}
		return r.Neg(r), true
	}
	if len(s.list) == 2 && s.list[0].atom == "to_real" {
		return ratOf(s.list[1])
	}
	if len(s.list) == 3 && s.list[0].atom == "/" {
		a, ok1 := ratOf(s.list[1])
		b, ok2 := ratOf(s.list[2])
		if !ok1 || !ok2 || b.Sign() == 0 {
			return nil, false
		}
		return a.Quo(a, b), true
	}
	if len(s.list) == 3 && s.list[0].atom == "_" && strings.HasPrefix(s.list[1].atom, "bv") {
		r, ok := new(big.Rat).SetString(s.list[1].atom[2:])
		return r, ok
	}
	return nil, false
}

func modelOf(m map[*Atom]string, bv bool) (*Asg, bool) {
	g := newAsg()
	for a, s := range m {
		r, ok := ratOf(parseSexp(s))
		if !ok {
			return nil, false
		}
		if a.kind == AReal {
			f, _ := r.Float64()
			g.rv[a] = f
			continue
		}
		if !r.IsInt() {
			return nil, false
		}
		n := r.Num()
		if bv && !a.big && a.lo < 0 {
			// 64-bit signed
			if n.Bit(63) == 1 {
				n = new(big.Int).Sub(n, new(big.Int).Lsh(big.NewInt(1), 64))
			}
		}
		if n.IsInt64() {
			g.iv[a] = n.Int64()
		} else {
			g.iv[a] = int64(n.Uint64())
		}
	}
	return g, true
}

type raceRes struct {
	v    Verdict
	m    *Asg
	name int
}

// Solve decides the conjunction of bs.
func (s *Solver) Solve(bs []*Bool, limit time.Duration) (Verdict, *Asg) {
	for _, b := range bs {
		if b.kind == BConst && !b.val {
			atomic.AddInt64(&s.stat.trivial, 1)
			return Unsat, nil
		}
	}
	t0 := time.Now()
	if !s.deadline.IsZero() && t0.After(s.deadline) {
		panic(pathEnd{"timeout"})
	}
	defer func() { atomic.AddInt64(&s.stat.nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.stat.queries, 1)
	ls := newLeafSet()
	for _, b := range bs {
		ls.boolean(b)
	}
	v, m := s.solve(bs, ls, limit)
	switch v {
	case Sat:
		atomic.AddInt64(&s.stat.sat, 1)
	case Unsat:
		atomic.AddInt64(&s.stat.unsat, 1)
	default:
		atomic.AddInt64(&s.stat.unknown, 1)
	}
	return v, m
}

func (s *Solver) solve(bs []*Bool, ls *leafSet, limit time.Duration) (Verdict, *Asg) {
	useInt := !ls.opq
	useBV := !ls.floats
	first := min(limit, 1500*time.Millisecond)
	var ie, be *enc
	var iq, bq string
	if useInt {
		ie, iq = encode(bs, false)
		if ie.err != "" {
			useInt = false
		}
	}
	if ls.floats && !useInt {
		useBV = true
	}
	if useBV {
		be, bq = encode(bs, true)
		if be.err != "" {
			useBV = false
		}
	}
	if !useInt && !useBV {
		return Unknown, nil
	}
	// stage 1: persistent solver, preferred encoding
	e, q, bv := ie, iq, false
	if !useInt || ls.nonlin && useBV {
		e, q, bv = be, bq, true
	}
	if s.main == nil {
		p, err := startProc("z3-new", "-in", "-smt2")
		if err != nil {
			p, err = startProc("z3", "-in", "-smt2")
		}
		if err != nil {
			return Unknown, nil
		}
		s.main = p
	}
	dead := time.AfterFunc(first+3*time.Second, func() { s.main.cmd.Process.Kill() })
	v, ms, err := s.main.ask(fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", first.Milliseconds())+q, e.leaves)
	dead.Stop()
	if err != nil {
		if debugSMT {
			fmt.Println("SMT error:", err, "\n", q)
		}
		s.main.kill()
		s.main = nil
		v = Unknown
	}
	if v != Unknown {
		atomic.AddInt64(&s.stat.bySolver[b2u(bv)], 1)
		if v == Unsat {
			return v, nil
		}
		if g, ok := modelOf(ms, bv); ok {
			return Sat, g
		}
		return Sat, nil
	}
	if limit <= first {
		return Unknown, nil
	}
	// stage 2: portfolio
	rest := limit - first
	type job struct {
		bin  string
		args []string
		q    string
		e    *enc
		bv   bool
		name int
	}
	var jobs []job
	secs := int(rest.Seconds()) + 1
	if useInt {
		jobs = append(jobs, job{"z3-new", []string{"-in", "-smt2", fmt.Sprintf("-T:%d", secs)}, iq, ie, false, 2})
		jobs = append(jobs, job{"cvc5", []string{"--lang=smt2", "--produce-models", "--incremental", fmt.Sprintf("--tlimit=%d", secs*1000)}, "(set-logic ALL)\n" + iq, ie, false, 3})
	}
	if useBV {
		jobs = append(jobs, job{"z3-new", []string{"-in", "-smt2", fmt.Sprintf("-T:%d", secs)}, bq, be, true, 4})
		jobs = append(jobs, job{"cvc5", []string{"--lang=smt2", "--produce-models", "--incremental", "--bv-solver=bitblast", fmt.Sprintf("--tlimit=%d", secs*1000)}, "(set-logic ALL)\n" + bq, be, true, 5})
	}
	ch := make(chan raceRes, len(jobs))
	var procs []*proc
	for _, j := range jobs {
		p, err := startProc(j.bin, j.args...)
		if err != nil {
			ch <- raceRes{}
			continue
		}
		procs = append(procs, p)
		go func() {
			v, ms, err := p.ask(j.q, j.e.leaves)
			if err != nil {
				v = Unknown
			}
			r := raceRes{v: v, name: j.name}
			if v == Sat {
				r.m, _ = modelOf(ms, j.bv)
			}
			ch <- r
		}()
	}
	best := raceRes{}
	tm := time.After(rest + time.Second)
loop:
	for range jobs {
		select {
		case r := <-ch:
			if r.v != Unknown {
				best = r
				break loop
			}
		case <-tm:
			break loop
		}
	}
	for _, p := range procs {
		p.kill()
	}
	if best.v != Unknown {
		atomic.AddInt64(&s.stat.bySolver[best.name], 1)
	}
	return best.v, best.m
}

var debugSMT = false

func sortAtoms(as []*Atom) { sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id }) }
