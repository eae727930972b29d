package main

import (
	"fmt"
	"math"
	"math/big"
	stdconv "strconv"
	"strings"

	"github.com/mewmew/float/vmc/eng"
)

// Hard cases of conversion to decimal: floats m * 2^e for which m * 2^e * 10^k
// (or the middle between m and m+1) is closer to a decision point than all but
// one in 2^50 of the floats with their exponent. They are found by solving
//
//	(a*m + c) mod 1 in [0, w]
//
// for the smallest m in range, by Euclid's algorithm on 192-bit fractions, and
// narrowing w until no m is left.

const fixBits = 192

var (
	one  = big.NewInt(1)
	unit = new(big.Int).Lsh(one, fixBits)
	half = new(big.Int).Lsh(one, fixBits-1)
)

// firstIn is the smallest x >= 0 with l <= a*x mod m <= r, or nil; 0 <= l <= r < m.
func firstIn(a, m, l, r *big.Int) *big.Int {
	if l.Sign() == 0 {
		return new(big.Int)
	}
	if a.Sign() == 0 {
		return nil
	}
	if new(big.Int).Lsh(a, 1).Cmp(m) > 0 {
		return firstIn(new(big.Int).Sub(m, a), m, new(big.Int).Sub(m, r), new(big.Int).Sub(m, l))
	}
	x, rem := new(big.Int).QuoRem(l, a, new(big.Int))
	if rem.Sign() != 0 {
		x.Add(x, one)
	}
	if new(big.Int).Mul(a, x).Cmp(r) <= 0 {
		return x
	}
	neg := func(v *big.Int) *big.Int { // -v mod a
		t := new(big.Int).Rem(v, a)
		if t.Sign() != 0 {
			t.Sub(a, t)
		}
		return t
	}
	y := firstIn(new(big.Int).Rem(m, a), a, neg(r), neg(l))
	if y == nil {
		return nil
	}
	y.Mul(y, m).Add(y, l)
	x.QuoRem(y, a, rem)
	if rem.Sign() != 0 {
		x.Add(x, one)
	}
	return x
}

// pow is 2^e * 10^k modulo 1, in units of 2^-192.
func pow(e, k int) *big.Int {
	n, d := big.NewInt(1), big.NewInt(1)
	mul := func(neg bool, by *big.Int) {
		if neg {
			d.Mul(d, by)
		} else {
			n.Mul(n, by)
		}
	}
	abs := func(i int) int { return max(i, -i) }
	mul(e < 0, new(big.Int).Lsh(one, uint(abs(e))))
	mul(k < 0, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(k))), nil))
	n.Lsh(n, fixBits)
	n.Quo(n, d)
	return n.Rem(n, unit)
}

// approaches emits m in [m0, m0+2^j) for which a*m + c is nearest to an integer
// from above or below: per side, the first for each width 2^-(j-2), 2^-(j-1)...
func approaches(a, c *big.Int, m0 uint64, j uint, emit func(m uint64)) {
	base := new(big.Int).SetUint64(m0)
	base.Mul(base, a).Add(base, c)
	for side := 0; side < 2; side++ {
		last := uint64(0)
		for b := max(int(j), 4) - 2; b < int(j)+24; b++ {
			w := new(big.Int).Rsh(unit, uint(b))
			// a*x mod 1 in [lo, lo+w]
			lo := new(big.Int).Neg(base)
			if side == 1 {
				lo.Sub(lo, w)
			}
			lo.Mod(lo, unit)
			hi := new(big.Int).Add(lo, w)
			var x *big.Int
			if hi.Cmp(unit) >= 0 {
				x = new(big.Int)
			} else {
				x = firstIn(a, unit, lo, hi)
			}
			if x == nil || !x.IsUint64() || x.Uint64() >= 1<<j {
				break
			}
			if m := m0 + x.Uint64(); m != last {
				last = m
				emit(m)
			}
		}
	}
}

// hardGen emits hard cases and the digits that make them hard. Blocks are
// exponents; below the smallest normal number they are positions of the lead
// bit.
func hardGen(size, maxDigits int, between bool, step int) (name, bound string, n int, f func(i int, emit func(b uint64, digits, k int))) {
	mb, emin, ne := uint(52), -1074, 2046
	if size == 32 {
		mb, emin, ne = 23, -149, 254
	}
	what := "the middle of two decimals"
	if between {
		what = "a decimal, for the middle of two floats,"
	}
	name = "hard cases"
	bound = fmt.Sprintf("every %d. exponent, 1..%d digits: floats nearest to %s, from above and below", step, maxDigits, what)
	n = (ne - 1 + int(mb) + step - 1) / step
	f = func(i int, emit func(uint64, int, int)) {
		i *= step
		e, m0, j := emin+i-int(mb), uint64(1)<<mb, mb
		if i < int(mb) {
			e, m0, j = emin, uint64(1)<<i, uint(i)
		}
		x := math.Ldexp(float64(m0), e)
		dec := int(math.Floor(math.Log10(x))) + 1 // digits before the point, or one less or more
		for d := 1; d <= maxDigits; d++ {
			for k := d - dec - 1; k <= d-dec+1; k++ {
				a := pow(e, k)
				c := half
				if between {
					c = pow(e-1, k)
				}
				approaches(a, c, m0, j, func(m uint64) {
					v := math.Ldexp(float64(m), e)
					s := stdconv.FormatFloat(v, 'e', 16, 64)
					x, _ := stdconv.Atoi(s[strings.IndexByte(s, 'e')+1:])
					if digits := x + 1 + k; digits == d {
						emit(math.Float64bits(v), d, k)
					}
				})
			}
		}
	}
	return
}

// hard explores the hard cases of a size: their shortest text, or their text of
// the digits that make them hard.
func hard(r *eng.Run, size, maxDigits int, between bool, step int) {
	name, bound, n, f := hardGen(size, maxDigits, between, step)
	r.Blocks(fmt.Sprintf("%d bits, %s", size, name), bound, n, func(w *eng.Worker, i int) {
		c := &eng.Case{Op: "deep", Prec: uint(size)}
		do := func(fm string, prec int) {
			c.S, c.N = fm, prec
			w.Do(c)
		}
		f(i, func(b uint64, digits, k int) {
			for s := 0; s < 2; s++ {
				c.B[1] = b | uint64(s)<<63
				if between {
					do("e", -1)
					continue
				}
				if s == 1 {
					do("g", digits)
				} else {
					do("e", digits-1)
				}
				if k >= 0 && k < 60 && s == 0 {
					do("f", k)
				}
			}
			if !between && digits > 14 {
				do("e", -1)
			}
		})
	})
}

// carries: significands m for which m * 2^s lies next to a power of ten, for any
// s, at every exponent: where multiplying by a power of two takes m to one more
// digit.
func carries(size, step int) gen {
	mb, emax := uint(52), 971
	if size == 32 {
		mb, emax = 23, 104
	}
	top := emax + int(mb) + 1 // powers of ten below 2^top
	n := int(float64(top) * math.Log10(2))
	return gen{"digit carries", fmt.Sprintf("m * 2^e, e = s + %d*j <= %d, for which m * 2^s is one of the 6 neighbours of 10^n, n = 1..%d", step, emax, n), n, func(i int, emit func(uint64)) {
		p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(i+1)), nil)
		s := p.BitLen() - 1 - int(mb)
		m := new(big.Int).Set(p)
		if s > 0 {
			m.Rsh(m, uint(s))
		} else {
			m.Lsh(m, uint(-s))
		}
		for d := -3; d <= 3; d++ {
			v := m.Int64() + int64(d)
			for e := s; e <= emax; e += step {
				emit(math.Float64bits(math.Ldexp(float64(v), e)))
			}
		}
	}}
}
