// Package fam enumerates the bounded input families used by the checks.
//
// The bound is a number of *bit transitions*: Trans(p, k) is every p-bit string
// whose bits change value at most k times when read from the top. k = 0 is
// {00..0, 11..1}; k = 1 adds every run of leading ones or zeros; k = 2 every
// single run (hence every single bit), k = 3 every pair of runs touching the
// top, and so on. Within a bound the enumeration is complete.
package fam

// U is a 128-bit pattern.
type U struct{ Hi, Lo uint64 }

// ones returns the pattern with the low n bits set (0 <= n <= 128).
func ones(n int) U {
	switch {
	case n >= 128:
		return U{^uint64(0), ^uint64(0)}
	case n > 64:
		return U{1<<uint(n-64) - 1, ^uint64(0)}
	case n == 64:
		return U{0, ^uint64(0)}
	default:
		return U{0, 1<<uint(n) - 1}
	}
}

// Ones is the pattern with the low n bits set.
func Ones(n int) U { return ones(n) }

// Bit is the pattern with only bit i set.
func Bit(i int) U { return ones(i + 1).Xor(ones(i)) }

// Xor combines two patterns.
func (a U) Xor(b U) U { return U{a.Hi ^ b.Hi, a.Lo ^ b.Lo} }

// Or combines two patterns.
func (a U) Or(b U) U { return U{a.Hi | b.Hi, a.Lo | b.Lo} }

// Trans calls f with every p-bit pattern having at most k bit transitions,
// fewest transitions first, each exactly once.
func Trans(p, k int, f func(U)) {
	full := ones(p)
	for n := 0; n <= k; n++ {
		choose(p-1, n, func(x U) { // x: bits below each transition toggled
			f(x)
			f(x.Xor(full))
		})
	}
}

// choose calls f with the xor of ones(c+1..) over all n-subsets of transition
// positions 1..m (a transition at position c flips the low c bits).
func choose(m, n int, f func(U)) {
	var rec func(hi, n int, x U)
	rec = func(hi, n int, x U) {
		if n == 0 {
			f(x)
			return
		}
		for c := hi; c >= n; c-- {
			rec(c-1, n-1, x.Xor(ones(c)))
		}
	}
	rec(m, n, U{})
}

// TransList collects Trans(p, k).
func TransList(p, k int) []U {
	var l []U
	Trans(p, k, func(u U) { l = append(l, u) })
	return l
}

// TransLead collects the patterns of Trans(p, k) whose top bit is set.
func TransLead(p, k int) []U {
	var l []U
	top := Bit(p - 1)
	Trans(p, k, func(u U) {
		if u.Hi&top.Hi|u.Lo&top.Lo != 0 {
			l = append(l, u)
		}
	})
	return l
}

// Windows calls f with every p-bit pattern obtained by filling one aligned
// w-bit window with an arbitrary value over a background of zeros, then of ones.
func Windows(p, w int, f func(U)) {
	for lo := 0; lo < p; lo += w {
		n := w
		if lo+n > p {
			n = p - lo
		}
		for v := uint64(0); v < 1<<uint(n); v++ {
			x := shl(v, lo)
			f(x)
			f(ones(p).Xor(x))
		}
	}
}

// NWindows is the number of aligned w-bit windows of a p-bit string.
func NWindows(p, w int) int { return (p + w - 1) / w }

// Window calls f for one window index.
func Window(p, w, idx int, f func(U)) {
	lo := idx * w
	n := w
	if lo+n > p {
		n = p - lo
	}
	for v := uint64(0); v < 1<<uint(n); v++ {
		x := shl(v, lo)
		f(x)
		f(ones(p).Xor(x))
	}
}

func shl(v uint64, n int) U {
	if n >= 64 {
		return U{v << uint(n-64), 0}
	}
	hi := uint64(0)
	if n > 0 {
		hi = v >> uint(64-n)
	}
	return U{hi, v << uint(n)}
}

// Shl shifts a 64-bit value into a pattern.
func Shl(v uint64, n int) U { return shl(v, n) }

// Dense is a fixed list of p-bit patterns with no structure in common with
// Trans (alternating, ramp and irrational digits), so that swapped or
// misaligned words show.
func Dense(p int) []U {
	m := ones(p)
	and := func(a U) U { return U{a.Hi & m.Hi, a.Lo & m.Lo} }
	return []U{
		and(U{0x5555555555555555, 0x5555555555555555}),
		and(U{0xAAAAAAAAAAAAAAAA, 0xAAAAAAAAAAAAAAAA}),
		and(U{0x0123456789ABCDEF, 0xFEDCBA9876543210}),
		and(U{0x243F6A8885A308D3, 0x13198A2E03707344}), // pi
		and(U{0xB7E151628AED2A6A, 0xBF7158809CF4F3C7}), // e
		and(U{0x9E3779B97F4A7C15, 0xF39CC0605CEDC834}), // golden ratio
		and(U{0x3333333333333333, 0xCCCCCCCCCCCCCCCC}),
		and(U{0x0F0F0F0F0F0F0F0F, 0x00FF00FF00FF00FF}),
	}
}
