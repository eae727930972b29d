package ref

import (
	"math"
	"strconv"
	"testing"
)

// The reference formatter agrees with the standard library on float32 and
// float64.
func TestDec(t *testing.T) {
	fms := []byte{'e', 'E', 'f', 'g', 'G', 'b'}
	n := 0
	for e := uint64(0); e < 2048; e += 7 {
		for _, m := range []uint64{0, 1, 2, 3, 1 << 51, 1<<52 - 1, 0x123456789ABCD, 0x5555555555555} {
			u := e<<52 | m
			for _, fm := range fms {
				for _, p := range []int{-1, 0, 1, 2, 3, 6, 15, 16, 17, 18, 20, 40} {
					n++
					x := math.Float64frombits(u)
					if g, w := F64.FormatFloat(Bits{Lo: u}, fm, p), strconv.FormatFloat(x, fm, p, 64); g != w {
						t.Fatalf("%x %c %d: %s want %s", u, fm, p, g, w)
					}
				}
			}
		}
	}
	for e := uint64(0); e < 512; e++ {
		for _, m := range []uint64{0, 1, 2, 3, 1 << 22, 1<<23 - 1, 0x123456, 0x555555} {
			u := e<<23 | m
			for _, fm := range fms {
				for _, p := range []int{-1, 0, 1, 2, 6, 8, 9, 17, 30} {
					n++
					x := math.Float32frombits(uint32(u))
					if g, w := F32.FormatFloat(Bits{Lo: u}, fm, p), strconv.FormatFloat(float64(x), fm, p, 32); g != w {
						t.Fatalf("%x %c %d: %s want %s", u, fm, p, g, w)
					}
				}
			}
		}
	}
	t.Log(n)
}
