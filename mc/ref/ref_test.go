package ref

import (
	"math"
	"math/big"
	"testing"
)

// The model is validated against the hardware (float32/float64) and against
// math/big, neither of which it uses.
func TestModelAgainstHardware(t *testing.T) {
	var v Val
	n := 0
	for e := 0; e < 2048; e++ {
		for i := 0; i < 52; i++ {
			for _, m := range []uint64{1 << uint(i), 1<<uint(i) - 1, (1<<52 - 1) ^ 1<<uint(i), 1<<52 - 1<<uint(i), 3 << uint(i) & (1<<52 - 1)} {
				for s := uint64(0); s < 2; s++ {
					b := s<<63 | uint64(e)<<52 | m
					x := math.Float64frombits(b)
					F64.Decode(Bits{0, b}, &v)
					if v.Kind == NaN {
						if x == x {
							t.Fatal("nan")
						}
						continue
					}
					if got := F64.Encode(&v); got.Lo != b {
						t.Fatalf("f64 %x -> %v -> %x", b, &v, got.Lo)
					}
					if got, want := F32.Encode(&v), math.Float32bits(float32(x)); got.Lo != uint64(want) {
						t.Fatalf("f32 %x: got %x want %x", b, got.Lo, want)
					}
					n++
				}
			}
		}
	}
	t.Log(n)
}

func TestModelAgainstBig(t *testing.T) {
	for _, f := range []*Format{Half, BFloat, X80, Quad} {
		var v, w Val
		for e := f.Emin; e <= f.Emax; e += 1 + (f.Emax-f.Emin)/200 {
			for k := 0; k < f.P+4; k++ {
				for j := 0; j < k; j++ {
					m := new(big.Int).Lsh(big.NewInt(1), uint(k))
					m.Or(m, new(big.Int).Lsh(big.NewInt(1), uint(j)))
					v.SetFin(false, m, e-k)
					f.Decode(f.Encode(&v), &w)
					x := new(big.Float).SetInt(m)
					x.SetMantExp(x, e-k)
					y := new(big.Float).SetPrec(uint(f.P)).Set(x)
					z := new(big.Float).SetInt(&w.M)
					z.SetMantExp(z, w.E)
					if z.Cmp(y) != 0 {
						t.Fatalf("%s %v: got %v want %v", f.Name, &v, &w, y)
					}
				}
			}
		}
	}
}
