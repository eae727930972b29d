package codec

import (
	"math/big"
	"testing"
)

func TestStale(t *testing.T) {
	for _, s := range []string{"1", "-1", "1.5", "-3", "0x1p-1074", "0x1.ffffffp100", "0", "-0", "Inf", "-Inf"} {
		for _, p := range []uint{25, 53, 64, 300} {
			for m := big.ToNearestEven; m <= big.ToPositiveInf; m++ {
				for _, a := range []big.Accuracy{big.Below, big.Above} {
					z, _, err := big.ParseFloat(s, 0, p, big.ToNearestEven)
					if err != nil {
						t.Fatal(err)
					}
					r := Stale(z, a, m)
					if r.Cmp(z) != 0 || r.Signbit() != z.Signbit() || r.Acc() == big.Exact || r.Prec() != p {
						t.Errorf("%s %d %v %v: %v %v %d", s, p, m, a, r, r.Acc(), r.Prec())
					}
				}
			}
		}
	}
}
