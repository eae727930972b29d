package ref

import (
	"math/big"
	"strconv"
)

// Dec is a decimal 0.D1D2.. * 10^DP.
type Dec struct {
	D  []byte // digits, no leading or trailing zeros
	DP int
}

var (
	pow5  = [1200]*big.Int{}
	ten   = big.NewInt(10)
	one   = big.NewInt(1)
	p10ro = func() [1200]*big.Int {
		var t [1200]*big.Int
		t[0] = big.NewInt(1)
		pow5[0] = big.NewInt(1)
		five := big.NewInt(5)
		for i := 1; i < len(t); i++ {
			t[i] = new(big.Int).Mul(t[i-1], ten)
			pow5[i] = new(big.Int).Mul(pow5[i-1], five)
		}
		return t
	}()
)

// scaled returns the integer M * 5^-min(E,0) or M * 2^E such that the value is
// n * 10^k exactly.
func exactDec(m *big.Int, e int) (n *big.Int, k int) {
	n = new(big.Int)
	if e >= 0 {
		return n.Lsh(m, uint(e)), 0
	}
	return n.Mul(m, pow5[-e]), e
}

// ExactDec is the exact decimal expansion of a finite non-zero value with
// |E| < 1200.
func ExactDec(v *Val) Dec {
	n, k := exactDec(&v.M, v.E)
	return mkDec(n, k)
}

func mkDec(n *big.Int, k int) Dec {
	d := []byte(n.String())
	dp := len(d) + k
	for len(d) > 0 && d[len(d)-1] == '0' {
		d = d[:len(d)-1]
	}
	return Dec{d, dp}
}

// ShortestDec is the shortest decimal that rounds (to nearest, ties to even
// significand) to the finite non-zero format value with encoding b, and among
// the shortest ones the nearest to it (ties to even digit).
func (f *Format) ShortestDec(b Bits) Dec {
	var v Val
	f.Decode(b, &v)
	return f.shortest(&v)
}

func (f *Format) shortest(v *Val) Dec {
	// significand and exponent as stored: m * 2^q
	q := v.top() - (f.P - 1)
	if q < f.Emin-(f.P-1) {
		q = f.Emin - (f.P - 1)
	}
	m := new(big.Int)
	if v.E >= q {
		m.Lsh(&v.M, uint(v.E-q))
	} else {
		m.Rsh(&v.M, uint(q-v.E))
	}
	inclusive := m.Bit(0) == 0
	// in quarter units: value 4m, upper 4m+2, lower 4m-2 (4m-1 at a power of
	// two whose lower neighbour is closer)
	val := new(big.Int).Lsh(m, 2)
	up := new(big.Int).Add(val, big.NewInt(2))
	dlo := int64(2)
	if m.BitLen() == f.P && int(m.TrailingZeroBits()) == f.P-1 && q > f.Emin-(f.P-1) {
		dlo = 1
	}
	lo := new(big.Int).Sub(val, big.NewInt(dlo))
	nv, k := exactDec(val, q-2)
	nu, _ := exactDec(up, q-2)
	nl, _ := exactDec(lo, q-2)
	total := len(nv.String())
	in := func(x *big.Int) bool {
		cl, cu := x.Cmp(nl), x.Cmp(nu)
		return (cl > 0 || cl == 0 && inclusive) && (cu < 0 || cu == 0 && inclusive)
	}
	var down, upw, r, t big.Int
	for n := 1; n < total; n++ {
		p := p10(total - n)
		down.QuoRem(nv, p, &r)
		if r.Sign() == 0 {
			return mkDec(nv, k)
		}
		odd := down.Bit(0) == 1
		down.Mul(&down, p)
		upw.Add(&down, p)
		okd, oku := down.Sign() > 0 && in(&down), in(&upw)
		switch {
		case okd && oku:
			c := t.Lsh(&r, 1).Cmp(p)
			if c > 0 || c == 0 && odd {
				return mkDec(&upw, k)
			}
			return mkDec(&down, k)
		case okd:
			return mkDec(&down, k)
		case oku:
			return mkDec(&upw, k)
		}
	}
	return mkDec(nv, k)
}

func p10(n int) *big.Int {
	if n < len(p10ro) {
		return p10ro[n]
	}
	return new(big.Int).Exp(ten, big.NewInt(int64(n)), nil)
}

// Round rounds d to n digits (n may be <= 0), ties to even.
func (d Dec) Round(n int) Dec {
	if n >= len(d.D) {
		return d
	}
	if n < 0 {
		return Dec{nil, 0}
	}
	up := false
	if d.D[n] > '5' || d.D[n] == '5' && len(d.D) > n+1 {
		up = true
	} else if d.D[n] == '5' {
		up = n > 0 && (d.D[n-1]-'0')%2 == 1
	}
	r := append([]byte(nil), d.D[:n]...)
	dp := d.DP
	if up {
		i := n - 1
		for ; i >= 0 && r[i] == '9'; i-- {
		}
		if i < 0 {
			return Dec{[]byte{'1'}, dp + 1}
		}
		r = r[:i+1]
		r[i]++
	}
	for len(r) > 0 && r[len(r)-1] == '0' {
		r = r[:len(r)-1]
	}
	if len(r) == 0 {
		dp = 0
	}
	return Dec{r, dp}
}

// FormatFloat is the reference for formatting encoding b of f: formats b, e,
// E, f, g, G; prec < 0 for shortest.
func (f *Format) FormatFloat(b Bits, fm byte, prec int) string {
	var v Val
	f.Decode(b, &v)
	sign := ""
	if v.Neg {
		sign = "-"
	}
	switch v.Kind {
	case NaN:
		return "NaN"
	case Inf:
		if v.Neg {
			return "-Inf"
		}
		return "+Inf"
	}
	if fm == 'b' {
		_, exp, _, lo := f.Split(b)
		if exp == 0 {
			exp = 1
		} else {
			lo |= 1 << uint(f.P-1)
		}
		e := strconv.Itoa(exp + f.Emin - 1 - (f.P - 1))
		if e[0] != '-' {
			e = "+" + e
		}
		return sign + strconv.FormatUint(lo, 10) + "p" + e
	}
	var d Dec
	short := prec < 0
	if v.Kind == Fin {
		if short {
			d = f.shortest(&v)
		} else {
			d = ExactDec(&v)
		}
	}
	return sign + FormatDec(d, fm, prec)
}

// FormatDec renders an exact (prec >= 0) or shortest (prec < 0) decimal.
func FormatDec(d Dec, fm byte, prec int) string {
	short := prec < 0
	switch fm {
	case 'e', 'E':
		if short {
			prec = len(d.D) - 1
			if prec < 0 {
				prec = 0
			}
		} else {
			d = d.Round(prec + 1)
		}
		return fe(d, prec, fm)
	case 'f':
		if short {
			prec = len(d.D) - d.DP
			if prec < 0 || len(d.D) == 0 {
				prec = 0
			}
		} else {
			d = d.Round(d.DP + prec)
		}
		return ff(d, prec)
	case 'g', 'G':
		e := fm + 'e' - 'g'
		lim := prec
		if short {
			prec = len(d.D)
			lim = 6
		} else {
			if prec == 0 {
				prec = 1
			}
			d = d.Round(prec)
			lim = prec
			if lim > len(d.D) && len(d.D) >= d.DP {
				lim = len(d.D)
			}
		}
		x := d.DP - 1
		if x < -4 || x >= lim {
			p := len(d.D)
			if prec < p {
				p = prec
			}
			if p < 1 {
				p = 1
			}
			return fe(d, p-1, e)
		}
		p := len(d.D) - d.DP
		if p < 0 {
			p = 0
		}
		return ff(d, p)
	}
	return "%" + string(rune(fm))
}

func fe(d Dec, prec int, fm byte) string {
	dig := func(i int) byte {
		if i < len(d.D) {
			return d.D[i]
		}
		return '0'
	}
	out := []byte{dig(0)}
	if prec > 0 {
		out = append(out, '.')
		for i := 1; i <= prec; i++ {
			out = append(out, dig(i))
		}
	}
	x := d.DP - 1
	if len(d.D) == 0 {
		x = 0
	}
	out = append(out, fm)
	if x < 0 {
		out = append(out, '-')
		x = -x
	} else {
		out = append(out, '+')
	}
	s := strconv.Itoa(x)
	if len(s) < 2 {
		s = "0" + s
	}
	return string(out) + s
}

func ff(d Dec, prec int) string {
	dig := func(i int) byte { // digit of weight 10^(DP-1-i)
		if i >= 0 && i < len(d.D) {
			return d.D[i]
		}
		return '0'
	}
	var out []byte
	if d.DP <= 0 {
		out = append(out, '0')
	}
	for i := 0; i < d.DP; i++ {
		out = append(out, dig(i))
	}
	if prec > 0 {
		out = append(out, '.')
		for i := 0; i < prec; i++ {
			out = append(out, dig(d.DP+i))
		}
	}
	return string(out)
}
