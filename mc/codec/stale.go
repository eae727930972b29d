package codec

import "math/big"

// Stale returns a number equal to z, with its precision and sign, that carries
// the accuracy of an earlier rounding. It has been rounded with the given mode
// if that can give z, else to the nearest. Only overflow gives an inexact
// infinity and only underflow an inexact zero: then the accuracy is theirs.
func Stale(z *big.Float, acc big.Accuracy, mode big.RoundingMode) *big.Float {
	p := z.Prec()
	if p == 0 {
		p = 53
	}
	r := new(big.Float).SetPrec(p).SetMode(mode)
	switch {
	case z.IsInf():
		y := new(big.Float).SetPrec(1).SetMantExp(big.NewFloat(0.5), big.MaxExp)
		if z.Signbit() {
			y.Neg(y)
		}
		return r.Mul(y, big.NewFloat(8))
	case z.Sign() == 0:
		y := new(big.Float).SetPrec(1).SetMantExp(big.NewFloat(0.5), big.MinExp)
		if z.Signbit() {
			y.Neg(y)
		}
		return r.Mul(y, big.NewFloat(0.125))
	}
	e := z.MantExp(nil)
	if int64(e)-int64(p)-20 < big.MinExp || e > big.MaxExp-2 {
		return z
	}
	d := new(big.Float).SetMantExp(big.NewFloat(-float64(acc)), e-int(p)-5)
	y := new(big.Float).SetPrec(p + 8)
	y.Add(z, d)
	if r.Set(y).Cmp(z) != 0 {
		r = new(big.Float).SetPrec(p).SetMode(big.ToNearestEven).Set(y)
	}
	if r.Cmp(z) != 0 || r.Acc() != acc {
		panic("stale: wrong number")
	}
	return r
}
