package fam

import "testing"

func trans(u U, p int) int {
	n, prev := 0, -1
	for i := p - 1; i >= 0; i-- {
		b := int(u.Lo >> uint(i) & 1)
		if i >= 64 {
			b = int(u.Hi >> uint(i-64) & 1)
		}
		if prev >= 0 && b != prev {
			n++
		}
		prev = b
	}
	return n
}

// Trans(p,k) is exactly the set of p-bit strings with <= k transitions.
func TestTransComplete(t *testing.T) {
	for p := 1; p <= 14; p++ {
		for k := 0; k <= p; k++ {
			seen := map[U]bool{}
			Trans(p, k, func(u U) {
				if seen[u] {
					t.Fatalf("dup %v", u)
				}
				seen[u] = true
			})
			n := 0
			for v := uint64(0); v < 1<<uint(p); v++ {
				if trans(U{0, v}, p) <= k {
					n++
					if !seen[U{0, v}] {
						t.Fatalf("missing %b", v)
					}
				}
			}
			if n != len(seen) {
				t.Fatal(p, k, n, len(seen))
			}
		}
	}
	for _, p := range []int{64, 65, 100, 113, 128} {
		Trans(p, 2, func(u U) {
			if trans(u, p) > 2 {
				t.Fatal(p, u)
			}
		})
	}
}

func TestCover(t *testing.T) {
	const q, k = 11, 9
	seen := map[[6]int]bool{}
	n := 0
	for b := 0; b < q; b++ {
		Cover(q, 3, k, b, func(row int, lv []int) {
			n++
			for x := 0; x < k; x++ {
				for y := 0; y < x; y++ {
					for z := 0; z < y; z++ {
						key := [6]int{x, y, z, lv[x], lv[y], lv[z]}
						if seen[key] {
							t.Fatal("seen twice", key)
						}
						seen[key] = true
					}
				}
			}
		})
	}
	if want := q * q * q; n != want || len(seen) != want*k*(k-1)*(k-2)/6 {
		t.Fatal(n, len(seen))
	}
}
