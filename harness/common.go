// Package harness holds one or more harness functions per property; each is an
// ordinary Go function over the public interface of go-tfhe whose inputs come
// from package sym. The engine executes them symbolically; the replay command
// runs them natively on concrete inputs.
package harness

import (
	"github.com/thedonutfactory/go-tfhe/params"
	"verifharness/sym"
)

type torus = params.Torus

var levels = []params.SecurityLevel{
	params.Security128Bit, params.Security80Bit, params.Security110Bit,
	params.SecurityUint1, params.SecurityUint2, params.SecurityUint3, params.SecurityUint4,
	params.SecurityUint5, params.SecurityUint6, params.SecurityUint7, params.SecurityUint8,
}

// chooseLevel selects one of the eleven security levels (all are explored).
func chooseLevel() params.SecurityLevel {
	l := levels[sym.Choose("level", len(levels))]
	params.CurrentSecurityLevel = l
	return l
}

// quickOf chooses among few values in the quick tier, among all n in the thorough.
func quickOf(few []int, n int, label string) int {
	if sym.Thorough() {
		return sym.Choose(label, n)
	}
	return few[sym.Choose(label, len(few))]
}

func setLevel(l params.SecurityLevel) { params.CurrentSecurityLevel = l }

// dims sets reduced dimensions: LWE dimension n, ring dimension N.
func dims(n, N int) {
	params.VerifSet(params.VerifDims{N0: n, N1: N, Nbit: log2(N)})
}

func realDims() { params.VerifSet(params.VerifDims{}) }

func log2(n int) int {
	k := 0
	for 1<<uint(k) < n {
		k++
	}
	return k
}

// bits returns n symbolic key bits.
func bits(label string, n int) []torus {
	k := make([]torus, n)
	for i := range k {
		k[i] = torus(sym.IntIn(label, 0, 1))
	}
	return k
}

// words returns n symbolic torus words.
func words(label string, n int) []torus {
	k := make([]torus, n)
	for i := range k {
		k[i] = torus(sym.U32(label))
	}
	return k
}

func clone(a []torus) []torus { return append([]torus(nil), a...) }

func same(a, b []torus) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		if a[i] != b[i] {
			ok = false
		}
	}
	return ok
}

// assertSame asserts word by word (each is one obligation).
func assertSame(a, b []torus, label string) {
	sym.Assert(len(a) == len(b), label)
	for i := range a {
		sym.Assert(a[i] == b[i], label)
	}
}

// phase is body minus inner product of mask and key.
func phase(p []torus, key []torus) torus {
	n := len(key)
	var s torus
	for i := 0; i < n; i++ {
		s += p[i] * key[i]
	}
	return p[n] - s
}

// near: d, read as a signed word, lies in [-b, b].
func near(d torus, b torus) bool { return d+b <= 2*b }

// ringMul is the schoolbook negacyclic product modulo 2^32.
func ringMul(a, b []torus) []torus {
	n := len(a)
	r := make([]torus, n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i+j < n {
				r[i+j] += a[i] * b[j]
			} else {
				r[i+j-n] -= a[i] * b[j]
			}
		}
	}
	return r
}

// ringPhase is B - A*S.
func ringPhase(A, B, S []torus) []torus {
	m := ringMul(A, S)
	r := make([]torus, len(B))
	for i := range r {
		r[i] = B[i] - m[i]
	}
	return r
}

func i64(f float64) int64 { return int64(f) }

const eighth = torus(1 << 29)

// levelName distinguishes cached objects of different levels and dimensions.
func levelName() string {
	return "." + itoa(int(params.CurrentSecurityLevel)) + "." + itoa(params.GetTLWELv0().N) + "." + itoa(params.GetTRGSWLv1().N)
}

func itoa(v int) string {
	s := ""
	for {
		s = string([]byte{byte('0' + v%10)}) + s
		v /= 10
		if v == 0 {
			return s
		}
	}
}
