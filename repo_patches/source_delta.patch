From f52e1e270c49186842f42a8773999b7e066ce369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 01/14] fix: binary16.NewFromBig rounds to nearest and reports
 true accuracy

Values between two half precision numbers were truncated, values too large
wrapped the exponent, and values below the denormal range gave garbage bits;
the reported accuracy ignored the sign and overflow.
---
 binary16/binary16.go    |  8 ++++++++
 internal/round/round.go | 42 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+)
 create mode 100644 internal/round/round.go

diff --git a/binary16/binary16.go b/binary16/binary16.go
index 7299c3c..8c41595 100644
--- a/binary16/binary16.go
+++ b/binary16/binary16.go
@@ -10,6 +10,8 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+
+	"github.com/mewmew/float/internal/round"
 )
 
 const (
@@ -105,6 +107,12 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
+	// Round to nearest representable value.
+	if y, acc := round.Nearest(x, precision, bias); acc != big.Exact {
+		f, _ := NewFromBig(y)
+		return f, acc
+	}
+
 	// Sign
 	var bits uint16
 	if x.Signbit() {
diff --git a/internal/round/round.go b/internal/round/round.go
new file mode 100644
index 0000000..4d02362
--- /dev/null
+++ b/internal/round/round.go
@@ -0,0 +1,42 @@
+// Package round implements correct rounding of multi-precision floating-point
+// numbers to the values of a binary interchange format.
+package round
+
+import "math/big"
+
+// Nearest returns the value nearest to x (ties to even) of the binary
+// floating-point format with the given number of mantissa bits (including the
+// lead bit) and exponent bias, and the accuracy of the result with respect to
+// x. Values too large to be represented are rounded to infinity, and values
+// below the smallest normal number are rounded to a multiple of the smallest
+// denormal number. The argument x is not modified.
+func Nearest(x *big.Float, precision uint, bias int) (*big.Float, big.Accuracy) {
+	if x.IsInf() || x.Sign() == 0 {
+		return x, big.Exact
+	}
+	// The value of x is mant * 2^exp, where 0.5 <= |mant| < 1.0. The exponents of
+	// normal numbers range from 1-bias through bias with a mantissa between 1.0
+	// and 2.0.
+	minExp, maxExp := 1-bias+1, bias+1
+	exp := x.MantExp(nil)
+	prec := int(precision)
+	if exp < minExp {
+		// Denormal numbers have fewer mantissa bits.
+		prec -= minExp - exp
+	}
+	y := new(big.Float).SetMode(big.ToNearestEven)
+	switch {
+	case prec > 0:
+		y.SetPrec(uint(prec)).Set(x)
+	case prec == 0 && x.MinPrec() > 1:
+		// Above half of the smallest denormal number.
+		y.SetMode(big.AwayFromZero).SetPrec(1).Set(x)
+	case x.Signbit():
+		// Round to -zero.
+		y.Neg(y)
+	}
+	if !y.IsInf() && y.Sign() != 0 && y.MantExp(nil) > maxExp {
+		y.SetInf(y.Signbit())
+	}
+	return y, big.Accuracy(y.Cmp(x))
+}
-- 
2.43.0


From 8bd94c53b65207a9c1f7c1983d5adaba92cd46da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 02/14] fix: binary128.NewFromBig rounds to nearest and reports
 true accuracy

---
 binary128/binary128.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/binary128/binary128.go b/binary128/binary128.go
index f1251ce..8686e97 100644
--- a/binary128/binary128.go
+++ b/binary128/binary128.go
@@ -10,6 +10,8 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+
+	"github.com/mewmew/float/internal/round"
 )
 
 const (
@@ -106,6 +108,12 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
+	// Round to nearest representable value.
+	if y, acc := round.Nearest(x, precision, bias); acc != big.Exact {
+		f, _ := NewFromBig(y)
+		return f, acc
+	}
+
 	// Sign
 	var a, b uint64
 	if x.Signbit() {
-- 
2.43.0


From 80785600371079f84aca9777e36606d8c8e23784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 03/14] fix: float80x86.NewFromBig rounds to nearest and
 reports true accuracy

---
 float80x86/float80x86.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/float80x86/float80x86.go b/float80x86/float80x86.go
index e4bdf0c..da9160e 100644
--- a/float80x86/float80x86.go
+++ b/float80x86/float80x86.go
@@ -10,6 +10,8 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+
+	"github.com/mewmew/float/internal/round"
 )
 
 const (
@@ -127,6 +129,12 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
+	// Round to nearest representable value.
+	if y, acc := round.Nearest(x, precision, bias); acc != big.Exact {
+		f, _ := NewFromBig(y)
+		return f, acc
+	}
+
 	// Sign
 	var se uint16
 	if x.Signbit() {
-- 
2.43.0


From c65e3b7e8c21f8602055ed4fe5a0c9e6ec8c93df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 04/14] fix: binary16.NewFromFloat64 rounds once and reports
 the accuracy of it

Rounding to 11 bits before the conversion rounded denormals twice and hid the
inexactness from the reported accuracy.
---
 binary16/binary16.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/binary16/binary16.go b/binary16/binary16.go
index 8c41595..492026a 100644
--- a/binary16/binary16.go
+++ b/binary16/binary16.go
@@ -78,9 +78,7 @@ func NewFromFloat64(x float64) (Float, big.Accuracy) {
 		return NaN, big.Exact
 	}
 	y := big.NewFloat(x)
-	y.SetPrec(precision)
 	y.SetMode(big.ToNearestEven)
-	// TODO: check accuracy after setting precision?
 	return NewFromBig(y)
 }
 
-- 
2.43.0


From 9fd54b5c599c4080ec5d1b58fc6e60207237438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 05/14] fix: binary128.Exp is no longer 0 where int has 32 bits

---
 binary128/binary128.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary128/binary128.go b/binary128/binary128.go
index 8686e97..7f8390a 100644
--- a/binary128/binary128.go
+++ b/binary128/binary128.go
@@ -296,7 +296,7 @@ func (f Float) Signbit() bool {
 // Exp returns the exponent of f.
 func (f Float) Exp() int {
 	// 15 bit exponent
-	return int(f.a&0x7FFF000000000000) >> 48
+	return int((f.a & 0x7FFF000000000000) >> 48)
 }
 
 // Frac returns the fraction of f.
-- 
2.43.0


From bdc7dab62ff2139adf59b7fc55eae8ca256fc0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 06/14] fix: float128ppc.NegInf is negative

---
 float128ppc/float128ppc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 9fdc9b3..bd962cc 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -24,7 +24,7 @@ var (
 	// +Inf
 	Inf = Float{high: math.Inf(1), low: 0}
 	// -Inf
-	NegInf = Float{high: -math.Inf(-1), low: 0}
+	NegInf = Float{high: math.Inf(-1), low: 0}
 	// +zero
 	Zero = Float{high: 0, low: 0}
 	// -zero
-- 
2.43.0


From d22579f1f10386263502221ccbd8678e24034c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 07/14] fix: float128ppc.Big no longer panics on Inf + -Inf

The sum of infinities of opposite sign is Not-a-Number.
---
 float128ppc/float128ppc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index bd962cc..708745d 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -175,6 +175,10 @@ func (f Float) Big() (x *big.Float, nan bool) {
 
 // IsNaN returns true if the Float is NaN
 func (f Float) IsNaN() bool {
+	// Inf + -Inf is NaN
+	if math.IsInf(f.high, 0) && math.IsInf(f.low, 0) && f.high != f.low {
+		return true
+	}
 	// NaN + NaN should be NaN in consideration
 	return math.IsNaN(f.high) || math.IsNaN(f.low)
 }
-- 
2.43.0


From 93325e21bfd25edcc7e3b916504d3dda1b8f945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 08/14] fix: float128ppc.Big keeps the sign of NaN

Float32 and Float64 lost it, as they rely on Big.
---
 float128ppc/float128ppc.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 708745d..7373e9d 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -156,6 +156,14 @@ func (f Float) Big() (x *big.Float, nan bool) {
 	x.SetPrec(precision)
 	x.SetMode(big.ToNearestEven)
 	if f.IsNaN() {
+		// sign of the part that is Not-a-Number.
+		part := f.high
+		if !math.IsNaN(part) {
+			part = f.low
+		}
+		if math.Signbit(part) {
+			x.Neg(x)
+		}
 		return x, true
 	}
 	h := big.NewFloat(f.high).SetPrec(precision)
-- 
2.43.0


From 13403c7faf30493aa5e5cca9aed2c08bfe4d1a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 09/14] fix: float128ppc.Big returns the exact sum of both
 parts

The sum was rounded to 106 bits, so that the low part was lost when it was far
below the high part.
---
 float128ppc/float128ppc.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 7373e9d..3a8608e 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -13,6 +13,9 @@ const (
 	// precision specifies the number of bits in the mantissa (including the
 	// implicit lead bit).
 	precision = 106
+	// maxPrecision specifies the number of bits of the longest exact sum of two
+	// double-precision values.
+	maxPrecision = 2100
 )
 
 // Positive and negative Not-a-Number, infinity and zero.
@@ -169,6 +172,11 @@ func (f Float) Big() (x *big.Float, nan bool) {
 	h := big.NewFloat(f.high).SetPrec(precision)
 	l := big.NewFloat(f.low).SetPrec(precision)
 	x.Add(h, l)
+	if x.Acc() != big.Exact {
+		// the exact sum of parts far apart takes more than 106 bits.
+		x.SetPrec(maxPrecision).Add(h, l)
+		x.SetPrec(x.MinPrec())
+	}
 
 	zero := big.NewFloat(0).SetPrec(precision)
 	if x.Cmp(zero) == 0 && math.Signbit(f.high) {
-- 
2.43.0


From d9777fb4b2ee73f508c4c6b1fa9d3a18e4bc07d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 10/14] fix: float128ppc.NewFromBig rounds to nearest and
 leaves its argument alone

The precision and rounding mode of the argument were changed, values too large
for the format caused a panic, and the reported accuracy did not take the
rounding of the low part into account.
---
 float128ppc/float128ppc.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 3a8608e..a8b7435 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -103,22 +103,22 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
-	// set precision of x.
-	x.SetPrec(precision).SetMode(big.ToNearestEven)
-
 	// get high part of the double-double floating-point value.
-	high, _ := x.Float64()
+	high, acc := x.Float64()
+	if math.IsInf(high, 0) {
+		// x is too large to be represented.
+		return Float{high: high, low: 0}, acc
+	}
 	h := big.NewFloat(high).SetPrec(precision).SetMode(big.ToNearestEven)
 
 	// compute low part by subtracting high from x.
 	l := big.NewFloat(0).SetPrec(precision).SetMode(big.ToNearestEven)
+	if prec := x.Prec(); prec > precision {
+		// x - high is exact.
+		l.SetPrec(prec)
+	}
 	l.Sub(x, h)
-	low, _ := l.Float64()
-
-	// check accuracy of results.
-	result := big.NewFloat(0).SetPrec(precision).SetMode(big.ToNearestEven)
-	result.Add(h, l)
-	acc := big.Accuracy(x.Cmp(result))
+	low, acc := l.Float64()
 
 	return Float{high: high, low: low}, acc
 }
-- 
2.43.0


From 2badd51ed441f0a8a71a23c757cda787e46b1310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 11/14] fix: shortest float text is the closest of the shortest

The digit walk in roundShortest forgot a difference between d and the
upper bound seen at an earlier digit, and compared digits at different
decimal places when the bounds have different decimal points. As a
result 32-bit 872415168 was formatted as 8.7241516e+08 although
8.7241517e+08 is as short and closer.
---
 internal/strconv/ftoa.go | 64 +++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 11 deletions(-)

diff --git a/internal/strconv/ftoa.go b/internal/strconv/ftoa.go
index c2c5ea5..b20a75b 100644
--- a/internal/strconv/ftoa.go
+++ b/internal/strconv/ftoa.go
@@ -296,39 +296,81 @@ func roundShortest(d *decimal, mant uint64, exp int, flt *floatInfo) {
 	// would round to the original mantissa and not the neighbors.
 	inclusive := mant%2 == 0
 
+	// As we walk the digits we want to know whether rounding up would fall
+	// within the upper bound. This is tracked by upperdelta:
+	//
+	// If upperdelta == 0, the digits of d and upper are the same so far.
+	//
+	// If upperdelta == 1, we saw a difference of 1 between d and upper on a
+	// previous digit and subsequently only 9s for d and 0s for upper.
+	// (Thus rounding up may fall outside the bound, if it is exclusive.)
+	//
+	// If upperdelta == 2, then the difference is greater than 1
+	// and we know that rounding up falls within the bound.
+	var upperdelta uint8
+
 	// Now we can figure out the minimum number of digits required.
 	// Walk along until d has distinguished itself from upper and lower.
-	for i := 0; i < d.nd; i++ {
+	for ui := 0; ; ui++ {
+		// lower, d, and upper may have the decimal points at different
+		// places. In this case upper is the longest, so we iterate from
+		// ui==0 and start li and mi at (possibly) -1.
+		mi := ui - upper.dp + d.dp
+		if mi >= d.nd {
+			break
+		}
+		li := ui - upper.dp + lower.dp
 		l := byte('0') // lower digit
-		if i < lower.nd {
-			l = lower.d[i]
+		if li >= 0 && li < lower.nd {
+			l = lower.d[li]
+		}
+		m := byte('0') // middle digit
+		if mi >= 0 {
+			m = d.d[mi]
 		}
-		m := d.d[i]    // middle digit
 		u := byte('0') // upper digit
-		if i < upper.nd {
-			u = upper.d[i]
+		if ui < upper.nd {
+			u = upper.d[ui]
 		}
 
 		// Okay to round down (truncate) if lower has a different digit
 		// or if lower is inclusive and is exactly the result of rounding
 		// down (i.e., and we have reached the final digit of lower).
-		okdown := l != m || inclusive && i+1 == lower.nd
+		okdown := l != m || inclusive && li+1 == lower.nd
+
+		switch {
+		case upperdelta == 0 && m+1 < u:
+			// Example:
+			// m = 12345xxx
+			// u = 12347xxx
+			upperdelta = 2
+		case upperdelta == 0 && m != u:
+			// Example:
+			// m = 12345xxx
+			// u = 12346xxx
+			upperdelta = 1
+		case upperdelta == 1 && (m != '9' || u != '0'):
+			// Example:
+			// m = 1234598x
+			// u = 1234600x
+			upperdelta = 2
+		}
 
 		// Okay to round up if upper has a different digit and either upper
 		// is inclusive or upper is bigger than the result of rounding up.
-		okup := m != u && (inclusive || m+1 < u || i+1 < upper.nd)
+		okup := upperdelta > 0 && (inclusive || upperdelta > 1 || ui+1 < upper.nd)
 
 		// If it's okay to do either, then round to the nearest one.
 		// If it's okay to do only one, do it.
 		switch {
 		case okdown && okup:
-			d.Round(i + 1)
+			d.Round(mi + 1)
 			return
 		case okdown:
-			d.RoundDown(i + 1)
+			d.RoundDown(mi + 1)
 			return
 		case okup:
-			d.RoundUp(i + 1)
+			d.RoundUp(mi + 1)
 			return
 		}
 	}
-- 
2.43.0


From e0ac8d1d8fe2329657493a0f4c09ee3de5b7066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 12/14] fix: IsExact16, IsExact32 and IsExact64 accept
 infinities

They panicked as trimZeros found no exponent in the text of an
infinity. Every format represents the infinities exactly.
---
 float.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/float.go b/float.go
index b5053f6..dc94804 100644
--- a/float.go
+++ b/float.go
@@ -12,6 +12,9 @@ import (
 // IsExact16 reports whether x may be represented exactly as a 16-bit
 // floating-point value.
 func IsExact16(x *big.Float) bool {
+	if x.IsInf() {
+		return true
+	}
 	f, acc := x.Float64()
 	if acc != big.Exact {
 		return false
@@ -24,6 +27,9 @@ func IsExact16(x *big.Float) bool {
 // IsExact32 reports whether x may be represented exactly as a 32-bit
 // floating-point value.
 func IsExact32(x *big.Float) bool {
+	if x.IsInf() {
+		return true
+	}
 	f, acc := x.Float32()
 	if acc != big.Exact {
 		return false
@@ -36,6 +42,9 @@ func IsExact32(x *big.Float) bool {
 // IsExact64 reports whether x may be represented exactly as a 64-bit
 // floating-point value.
 func IsExact64(x *big.Float) bool {
+	if x.IsInf() {
+		return true
+	}
 	f, acc := x.Float64()
 	if acc != big.Exact {
 		return false
-- 
2.43.0


From 2e91ee0be1a5a2d8d3350f2a93c01e74b435e418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 13/14] fix: IsExact16 rejects values that are not 16-bit
 values

8210 lies between the 16-bit values 8208 and 8216. It rounds to 8208,
whose shortest text in 16 bits is 8.21e+03, the text of 8210, and so
IsExact16 reported 8210 as exact.
---
 float.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/float.go b/float.go
index dc94804..c555e27 100644
--- a/float.go
+++ b/float.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 	"strings"
 
+	"github.com/mewmew/float/binary16"
 	"github.com/mewmew/float/internal/strconv"
 )
 
@@ -19,6 +20,9 @@ func IsExact16(x *big.Float) bool {
 	if acc != big.Exact {
 		return false
 	}
+	if _, acc := binary16.NewFromBig(x); acc != big.Exact {
+		return false
+	}
 	s1 := strconv.FormatFloat(f, 'e', -1, 16)
 	s2 := trimZeros(x.Text('e', 100))
 	return s1 == s2
-- 
2.43.0


From bf4a9fc335e4c4a782c74f9d90b1eb334ca1a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 14/14] fix: strconv: do not panic on an unknown format with
 precision 0

---
 internal/strconv/ftoa.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/strconv/ftoa.go b/internal/strconv/ftoa.go
index b20a75b..a405b7d 100644
--- a/internal/strconv/ftoa.go
+++ b/internal/strconv/ftoa.go
@@ -149,6 +149,9 @@ func genericFtoa(dst []byte, val float64, fmt byte, prec, bitSize int) []byte {
 				prec = 1
 			}
 			digits = prec
+		default:
+			// unknown format
+			digits = 1
 		}
 		if digits <= 15 {
 			// try fast algorithm when the number of digits is reasonable.
-- 
2.43.0

