package harness

import (
	"github.com/thedonutfactory/go-tfhe/bitutils"
	"verifharness/sym"
)

func checkSplit(b []bool, v uint64, w int) {
	sym.Assert(len(b) == w, "width")
	for i := 0; i < len(b) && i < w; i++ {
		want := false
		if i < 64 {
			want = (v>>uint(i))&1 == 1
		}
		sym.Assert(b[i] == want, "bit i is binary digit i")
	}
}

// C21_widths: all values of each width: split, digit positions, join.
func C21_widths() {
	switch sym.Choose("width", 4) {
	case 0:
		v := uint8(sym.IntIn("value", 0, 255))
		b := bitutils.U8ToBits(v)
		checkSplit(b, uint64(v), 8)
		sym.Assert(bitutils.ConvertU8(b) == v, "join returns the value")
	case 1:
		v := uint16(sym.IntIn("value", 0, 65535))
		b := bitutils.U16ToBits(v)
		checkSplit(b, uint64(v), 16)
		sym.Assert(bitutils.ConvertU16(b) == v, "join returns the value")
	case 2:
		v := sym.U32("value")
		b := bitutils.U32ToBits(v)
		checkSplit(b, uint64(v), 32)
		sym.Assert(bitutils.ConvertU32(b) == v, "join returns the value")
	case 3:
		v := sym.U64("value")
		b := bitutils.U64ToBits(v)
		checkSplit(b, v, 64)
		sym.Assert(bitutils.ConvertU64(b) == v, "join returns the value")
	}
}

// C21_sizes: the generic split for every size 0..96 and every 64-bit value.
func C21_sizes() {
	n := sym.Choose("size", 97)
	v := sym.U64("value")
	checkSplit(bitutils.ToBits(v, n), v, n)
}

// C21_join: every bit slice of length 0..72 joins to the sum of its bits'
// powers of two modulo the width; the slice is not modified.
func C21_join() {
	n := sym.Choose("length", 73)
	in := make([]bool, n)
	keep := make([]bool, n)
	var sum uint64
	for i := range in {
		x := sym.IntIn("bit", 0, 1)
		in[i] = x == 1
		keep[i] = x == 1
		if i < 64 {
			sum += uint64(x) << uint(i)
		}
	}
	switch sym.Choose("width", 4) {
	case 0:
		sym.Assert(bitutils.ConvertU8(in) == uint8(sum), "join")
	case 1:
		sym.Assert(bitutils.ConvertU16(in) == uint16(sum), "join")
	case 2:
		sym.Assert(bitutils.ConvertU32(in) == uint32(sum), "join")
	case 3:
		sym.Assert(bitutils.ConvertU64(in) == sum, "join")
	}
	for i := range in {
		sym.Assert(in[i] == keep[i], "slice unchanged")
	}
}
