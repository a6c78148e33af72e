From 1ccce7142242fcc756acc3b248627295012f3527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 01/25] fix: round before checking for overflow and underflow

fix ran before rounding, rounded subnormal numbers incorrectly, returned
wrong values on overflow for the directed rounding modes and inspected
special values.
---
 big_ctx.go | 25 ++++++++++++++-----------
 util.go    | 48 ++++++++++++++++++++++++++++++++----------------
 2 files changed, 46 insertions(+), 27 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 3535589..3f17e0a 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2784,15 +2784,14 @@ func (c Context) Round(z *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	return c.round(c.fix(z))
+	return c.fix(c.round(z))
 }
 
 func (c Context) finish(z *Big) *Big {
-	c.fix(z)
-	if c.OperatingMode != GDA {
-		return z
+	if c.OperatingMode == GDA {
+		c.round(z)
 	}
-	return c.round(z)
+	return c.fix(z)
 }
 
 // round rounds z to the Context's precision, if necessary.
@@ -2808,6 +2807,11 @@ func (c Context) round(z *Big) *Big {
 		return z
 	}
 
+	if z.adjusted() < c.emin() {
+		// fix rounds subnormal numbers. Don't round them twice.
+		return z
+	}
+
 	shift := p - n
 	c.shiftr(z, uint64(shift))
 	z.exp += shift
@@ -2841,14 +2845,13 @@ func (c Context) shiftl(z *Big, n uint64) {
 }
 
 func (c Context) shiftr(z *Big, n uint64) bool {
-	if zp := uint64(z.Precision()); n >= zp {
-		z.compact = 0
-		z.precision = 1
-		return n == zp
+	if z.isZero() {
+		return true
 	}
 
-	if z.isZero() {
-		return false
+	if zp := uint64(z.Precision()); n > zp {
+		// Less than one tenth of a unit, no matter how large n is.
+		n = zp + 1
 	}
 
 	m := c.RoundingMode
diff --git a/util.go b/util.go
index 0b78071..8e35bc9 100644
--- a/util.go
+++ b/util.go
@@ -25,7 +25,13 @@ func (z *Big) norm() *Big {
 }
 
 // fix check for overflow, underflow, and clamping.
+//
+// Unless it's subnormal, z must already be rounded.
 func (c Context) fix(z *Big) *Big {
+	if z.isSpecial() {
+		return z
+	}
+
 	adj := z.adjusted()
 
 	if adj > c.emax() {
@@ -37,19 +43,23 @@ func (c Context) fix(z *Big) *Big {
 			return z
 		}
 
-		switch m := c.RoundingMode; m {
-		case ToNearestAway, ToNearestEven, ToNearestTowardZero:
-			z.SetInf(z.Signbit())
-		case AwayFromZero:
-			// OK
+		toMax := false
+		switch neg := z.Signbit(); c.RoundingMode {
 		case ToZero:
-			z.exp = c.emax() - prec + 1
-		case ToPositiveInf, ToNegativeInf:
-			if m == ToPositiveInf == z.Signbit() {
-				z.exp = c.emax() - prec + 1
-			} else {
-				z.SetInf(false)
-			}
+			toMax = true
+		case ToPositiveInf:
+			toMax = neg
+		case ToNegativeInf:
+			toMax = !neg
+		}
+		if toMax && prec != UnlimitedPrecision {
+			// The largest finite number.
+			sign := z.form
+			maxfor(&z.unscaled, prec, +1)
+			z.SetBigMantScale(&z.unscaled, -c.etop())
+			z.form = sign
+		} else {
+			z.SetInf(z.Signbit())
 		}
 		z.Context.Conditions |= Overflow | Inexact | Rounded
 		return z
@@ -68,11 +78,17 @@ func (c Context) fix(z *Big) *Big {
 
 		z.Context.Conditions |= Subnormal
 		if z.exp < tiny {
-			if c.shiftr(z, uint64(tiny-z.exp)) {
-				z.compact = 1
-			}
+			shift := tiny - z.exp
 			z.exp = tiny
-			z.Context.Conditions |= Underflow
+			z.Context.Conditions |= Rounded
+			if !c.shiftr(z, uint64(shift)) {
+				z.Context.Conditions |= Underflow
+			}
+			if z.exp != tiny {
+				// Rounding carried into another digit.
+				c.shiftl(z, uint64(z.exp-tiny))
+				z.exp = tiny
+			}
 			if z.isZero() {
 				z.Context.Conditions |= Clamped
 			}
-- 
2.43.0


From 9aef662694c0dcf6a6f8cc6d1dc287e96ce7733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 02/25] fix: keep addition lossless in Go mode

---
 big_ctx.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 3f17e0a..d6ce4dc 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -72,8 +72,11 @@ func (c Context) add(z, x *Big, xform form, y *Big, yform form) form {
 		hisign, losign = losign, hisign
 	}
 
-	if sign, ok := c.tryTinyAdd(z, hi, hisign, lo, losign); ok {
-		return sign
+	// The shortcut only preserves the rounded result.
+	if c.OperatingMode == GDA {
+		if sign, ok := c.tryTinyAdd(z, hi, hisign, lo, losign); ok {
+			return sign
+		}
 	}
 
 	var sign form
-- 
2.43.0


From e03408bc18a495a56b89d2c97bb94b70360e3357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 03/25] fix: Atan keeps its guard digits and reflects negative
 operands

---
 big_ctx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index d6ce4dc..a7ab5ab 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -439,15 +439,15 @@ func (c Context) Atan(z, x *Big) *Big {
 	ctx := c.dup()
 	ctx.Precision += defaultExtraPrecision
 
-	// when x <-1 we use -atan(-x) instead
-	if cmpInt(x, -1) < 0 {
+	// when x < 0 we use -atan(-x) instead
+	if x.Signbit() {
 		z.CopyNeg(x)       //       -x
 		ctx.Atan(z, z)     //  atan(-x)
 		return c.Neg(z, z) // -atan(-x)
 	}
 
 	y, ySq, ySqPlus1, segment, halved := ctx.prepAtan(z, x) // z == y, maybe.
-	result := BinarySplitDynamic(c,
+	result := BinarySplitDynamic(ctx,
 		func(_ uint64) *Big { return y },
 		ctx.getAtanP(ySq),
 		func(_ uint64) *Big { return one.get() },
@@ -465,7 +465,7 @@ func (c Context) Atan(z, x *Big) *Big {
 	// set 2: 1 < value               // then result = pi/2 - result
 	switch segment {
 	case 1:
-		piOver6 := c.pi(tmp) // clobber _2p
+		piOver6 := ctx.pi(tmp) // clobber _2p
 		ctx.Quo(piOver6, piOver6, six.get())
 		ctx.Add(z, piOver6, z)
 	case 2:
-- 
2.43.0


From ddb1d33fcf3735b836fd83231527247135dfa001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 04/25] fix: don't clobber the divisor before rounding a
 quotient

---
 big_ctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index a7ab5ab..0b5b78c 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2393,6 +2393,10 @@ func (z *Big) quoBig(
 	z.compact = cst.Inflated
 	z.form = xneg ^ yneg
 
+	if y == &z.unscaled || y == r {
+		// y is needed after the division in order to round.
+		y = new(big.Int).Set(y)
+	}
 	q, r := z.unscaled.QuoRem(x, y, r)
 	if r.Sign() == 0 {
 		z.norm()
-- 
2.43.0


From 9bdd69cba2a6db318a1726ff78e1fadfe84c81bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 05/25] fix: don't round again when negating in Ceil

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 0b5b78c..085c259 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -868,7 +868,7 @@ func (c Context) getCosineQ() func(n uint64) *Big {
 // to x and returns z.
 func (c Context) Ceil(z, x *Big) *Big {
 	// ceil(x) = -floor(-x)
-	return c.Neg(z, c.Floor(z, z.CopyNeg(x)))
+	return z.CopyNeg(c.Floor(z, z.CopyNeg(x)))
 }
 
 // E sets z to the mathematical constant e and returns z.
-- 
2.43.0


From 84e62b3487bf7fc9cc7ebf208233c9c94499ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 06/25] fix: tiny decimals truncate to zero when converted to
 integers

---
 big.go  | 8 ++------
 util.go | 3 ++-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/big.go b/big.go
index ff4d9cd..ca647cb 100644
--- a/big.go
+++ b/big.go
@@ -436,12 +436,8 @@ func cmpAbsInt(x *Big, y int64) int {
 	// compare straight across.
 	t, ok := scalex(x.compact, x.exp)
 	if !ok {
-		if x.exp > 0 {
-			// Overflow.
-			return +1
-		}
-		// Underflow.
-		return -1
+		// Overflow.
+		return +1
 	}
 	return arith.Cmp(t, u)
 }
diff --git a/util.go b/util.go
index 8e35bc9..79c402e 100644
--- a/util.go
+++ b/util.go
@@ -197,7 +197,8 @@ func scalex(x uint64, scale int) (sx uint64, ok bool) {
 	}
 	p, ok := arith.Pow10(uint64(-scale))
 	if !ok {
-		return 0, false
+		// x < 10^20 <= 10^-scale
+		return 0, true
 	}
 	return x / p, true
 }
-- 
2.43.0


From faf9ad547c9c297a157fe8139c0d46c6da7d4fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 07/25] fix: Quantize keeps the requested scale when rounding
 carries

---
 big_ctx.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 085c259..ea6e4f3 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2184,7 +2184,7 @@ func (c Context) Quantize(z *Big, n int) *Big {
 			// shift < 0
 		} else if yc, ok := arith.Pow10(uint64(-shift)); ok {
 			z.quo(m, z.compact, neg, yc, 0)
-			return z
+			return c.requantize(z, n)
 		}
 		z.unscaled.SetUint64(z.compact)
 		z.compact = cst.Inflated
@@ -2197,6 +2197,19 @@ func (c Context) Quantize(z *Big, n int) *Big {
 		var r big.Int
 		z.quoBig(m, &z.unscaled, neg, arith.BigPow10(uint64(-shift)), 0, &r)
 	}
+	return c.requantize(z, n)
+}
+
+// requantize restores the exponent n if rounding inside Quantize
+// carried into another digit.
+func (c Context) requantize(z *Big, n int) *Big {
+	if z.exp != n {
+		c.shiftl(z, uint64(z.exp-n))
+		z.exp = n
+		if z.Precision() > c.precision() {
+			return z.setNaN(InvalidOperation, qnan, quantprec)
+		}
+	}
 	return z
 }
 
-- 
2.43.0


From c3e980d5775ff5489bf6ba4ac318d3abb5c4c2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 08/25] fix: remainders have the exponent of the smaller
 operand

---
 big_ctx.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index ea6e4f3..013805d 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2514,26 +2514,33 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 		return z, r
 	}
 
-	sign := (x.form & signbit) ^ (y.form & signbit)
+	// Either of z and r might be x or y.
+	xsign := x.form & signbit
+	sign := xsign ^ (y.form & signbit)
 	if x.IsFinite() && y.IsFinite() {
+		exp := min(x.exp, y.exp) // exponent of the remainder.
 		if y.isZero() {
 			if x.isZero() {
 				// 0 / 0
 				z.setNaN(InvalidOperation|DivisionUndefined, qnan, quo00)
 				r.setNaN(InvalidOperation|DivisionUndefined, qnan, quo00)
+				return z, r
 			}
 			// x / 0
 			z.Context.Conditions |= DivisionByZero
 			r.Context.Conditions |= DivisionByZero
-			return z.SetInf(sign != 0), r.SetInf(x.Signbit())
+			return z.SetInf(sign != 0), r.SetInf(xsign != 0)
 		}
 		if x.isZero() {
 			// 0 / y
-			z.setZero((x.form^y.form)&signbit, 0)
-			r.setZero(x.form, y.exp-x.exp)
+			z.setZero(sign, 0)
+			r.setZero(xsign, exp)
 			return c.fix(z), c.fix(r)
 		}
-		return c.quorem(z, r, x, y)
+		c.quorem(z, r, x, y)
+		z.exp = 0
+		r.exp = exp
+		return z, r
 	}
 
 	// NaN / NaN
@@ -2550,12 +2557,12 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 			return z, r.Set(z)
 		}
 		// ±Inf / y
-		return z.SetInf(sign != 0), r.SetInf(x.form&signbit != 0)
+		return z.SetInf(sign != 0), r.SetInf(xsign != 0)
 	}
 	// x / ±Inf
 	z.Context.Conditions |= Clamped
 	z.setZero(sign, c.etiny())
-	r.setZero(x.form&signbit, 0)
+	r.setZero(xsign, 0)
 	return z, r
 }
 
@@ -2764,8 +2771,9 @@ func (c Context) Rem(z, x, y *Big) *Big {
 		// TODO(eric): See if we can get rid of tmp. See issue
 		// #72.
 		var tmp Big
+		exp := min(x.exp, y.exp) // z might be x or y.
 		_, z = c.quorem(&tmp, z, x, y)
-		z.exp = min(x.exp, y.exp)
+		z.exp = exp
 		tmp.exp = 0
 		if tmp.Precision() > c.precision() {
 			return z.setNaN(DivisionImpossible, qnan, quointprec)
-- 
2.43.0


From 62771fa068f18d1289f13352ca0b7923e47e89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 09/25] fix: compare decimals with integers exactly

---
 big.go | 44 ++------------------------------------------
 1 file changed, 2 insertions(+), 42 deletions(-)

diff --git a/big.go b/big.go
index ca647cb..d98d79b 100644
--- a/big.go
+++ b/big.go
@@ -395,51 +395,11 @@ func (x *Big) CmpAbs(y *Big) int {
 }
 
 func cmpInt(x *Big, y int64) int {
-	switch {
-	case x.Signbit() && y >= 0:
-		return -1
-	case !x.Signbit() && y < 0:
-		return +1
-	default:
-		return cmpAbsInt(x, y)
-	}
+	return x.Cmp(new(Big).SetMantScale(y, 0))
 }
 
 func cmpAbsInt(x *Big, y int64) int {
-	u := uint64(y)
-
-	// Same scales, so compare straight across.
-	if x.exp == 0 {
-		// If the scales are the same and x x is not compact,
-		// then by definition it's larger than y.
-		if !x.isCompact() {
-			return +1
-		}
-		return arith.Cmp(x.compact, u)
-	}
-
-	// Signs are the same and the scales differ. Compare the
-	// lengths of their integral parts; if they differ in length
-	// one number is larger.
-	// E.g.: 1234.01
-	//       1230011
-	xl := x.adjusted()
-	yl := arith.Length(u) - 1
-	if xl != yl {
-		if xl < yl {
-			return -1
-		}
-		return +1
-	}
-
-	// The length of the integral parts match. Rescale x, then
-	// compare straight across.
-	t, ok := scalex(x.compact, x.exp)
-	if !ok {
-		// Overflow.
-		return +1
-	}
-	return arith.Cmp(t, u)
+	return x.CmpAbs(new(Big).SetMantScale(y, 0))
 }
 
 // cmp is the implementation for both Cmp and CmpAbs.
-- 
2.43.0


From 6a8286286f90a4f6b7c5605664054ef41a465f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 10/25] fix: FMA reports its own conditions when the receiver
 is an operand

---
 big_ctx.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 013805d..173f30f 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1186,13 +1186,18 @@ func (c Context) FMA(z, x, y, u *Big) *Big {
 	// z.FMA(x, y, z) without clobbering z partway through.
 	z0 := z
 	if z == u {
-		z0 = WithContext(c)
+		z0 = WithContext(z.Context)
 	}
+	// Only conditions raised by the multiplication matter here.
+	conds := z0.Context.Conditions
+	z0.Context.Conditions = 0
 	c.mul(z0, x, y)
-	if z0.Context.Conditions&InvalidOperation != 0 {
-		return z.setShared(z0)
+	invalid := z0.Context.Conditions&InvalidOperation != 0
+	z0.Context.Conditions |= conds
+	if !invalid {
+		c.Add(z0, z0, u)
 	}
-	c.Add(z0, z0, u)
+	z.Context.Conditions |= z0.Context.Conditions
 	return z.setShared(z0)
 }
 
-- 
2.43.0


From 0ea5436f37a74ed142dafbbb737190de31b3eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 11/25] fix: Context.Abs validates the context it uses

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 173f30f..232c39a 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -14,7 +14,7 @@ func (c Context) Abs(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if !z.invalidContext(z.Context) && !z.checkNaNs(x, x, absvalue) {
+	if !z.invalidContext(c) && !z.checkNaNs(x, x, absvalue) {
 		c.finish(z.copyAbs(x))
 	}
 	return z
-- 
2.43.0


From 48bd789689add10c6d292b6e6c08fed873a1192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 12/25] fix: Context.Sub ignores the receiver's context

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 232c39a..d619563 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -3102,7 +3102,7 @@ func (c Context) Sub(z, x, y *Big) *Big {
 		return c.Set(z, x)
 	}
 	// x - ±Inf
-	return z.Neg(y)
+	return z.CopyNeg(y)
 }
 
 // Tan returns the tangent, in radians, of x.
-- 
2.43.0


From d42f0fe6c87e1223de8adaaf3ef8092407aba20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 13/25] fix: zero to a negative power is +Inf

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index d619563..3d36977 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1995,7 +1995,7 @@ func (c Context) Pow(z, x, y *Big) *Big {
 			}
 			if y.Signbit() {
 				// 0 ** -y = +Inf
-				return z.SetInf(true)
+				return z.SetInf(false)
 			}
 			// 0 ** y = 0
 			return z.SetUint64(0)
-- 
2.43.0


From 22cd07effdc9eb01accc2eb886f429b4652ac80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 14/25] fix: NextPlus and NextMinus keep the receiver's
 conditions

---
 big_ctx.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 3d36977..05559c3 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1803,9 +1803,9 @@ func (c Context) NextMinus(z, x *Big) *Big {
 	}
 
 	c.RoundingMode = ToNegativeInf
-	c.Set(z, x)
+	conds := z.Context.Conditions
 	c.Sub(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
-	z.Context.Conditions &= c.Conditions
+	z.Context.Conditions = conds
 	return z
 }
 
@@ -1819,7 +1819,7 @@ func (c Context) NextPlus(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if z.checkNaNs(x, x, nextminus) {
+	if z.checkNaNs(x, x, nextplus) {
 		return z
 	}
 
@@ -1833,9 +1833,9 @@ func (c Context) NextPlus(z, x *Big) *Big {
 	}
 
 	c.RoundingMode = ToPositiveInf
-	c.Set(z, x)
+	conds := z.Context.Conditions
 	c.Add(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
-	z.Context.Conditions &= c.Conditions
+	z.Context.Conditions = conds
 	return z
 }
 
-- 
2.43.0


From 38953470dc5810636be7fcbbac7547c67f0068d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 15/25] fix: Round does not round if n <= 0

---
 big.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big.go b/big.go
index d98d79b..cda4991 100644
--- a/big.go
+++ b/big.go
@@ -1329,6 +1329,9 @@ func (z *Big) Rem(x, y *Big) *Big {
 // occur if n <= 0. The result of Round will always be in the
 // interval [⌊10**p⌋, z] where p = the precision of z.
 func (z *Big) Round(n int) *Big {
+	if n <= 0 {
+		return z
+	}
 	ctx := z.Context
 	ctx.Precision = n
 	return ctx.Round(z)
-- 
2.43.0


From 797ac13f8be825f1d302742fb36b668d354130c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:13 +0000
Subject: [PATCH 16/25] fix: keep the sign of infinities when converting to
 floats

---
 big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big.go b/big.go
index cda4991..e32970c 100644
--- a/big.go
+++ b/big.go
@@ -668,7 +668,7 @@ func (x *Big) Float64() (f float64, ok bool) {
 	if !x.IsFinite() {
 		switch x.form {
 		case pinf, ninf:
-			return math.Inf(int(x.form & signbit)), true
+			return math.Inf(1 - 2*int(x.form&signbit)), true
 		case snan, qnan:
 			return math.NaN(), true
 		case ssnan, sqnan:
@@ -731,7 +731,7 @@ func (x *Big) Float(z *big.Float) *big.Float {
 			z.SetRat(x.Rat(nil))
 		}
 	case pinf, ninf:
-		z.SetInf(x.form == pinf)
+		z.SetInf(x.form == ninf)
 	default: // snan, qnan, ssnan, sqnan:
 		z.SetUint64(0)
 	}
-- 
2.43.0


From 454157f9ad4be7831a68fc174c439d2ce36b110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 17/25] fix: SetFloat handles zero and 2^64-1

---
 big.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/big.go b/big.go
index e32970c..e636963 100644
--- a/big.go
+++ b/big.go
@@ -1430,12 +1430,11 @@ func (z *Big) SetFloat(x *big.Float) *Big {
 
 	neg := x.Signbit()
 	if x.Sign() == 0 {
+		var sign form
 		if neg {
-			z.form |= signbit
+			sign = signbit
 		}
-		z.compact = 0
-		z.precision = 1
-		return z
+		return z.setZero(sign, 0)
 	}
 
 	z.exp = 0
@@ -1448,19 +1447,12 @@ func (z *Big) SetFloat(x *big.Float) *Big {
 		}
 	}
 
-	if mant, acc := x0.Uint64(); acc == big.Exact {
-		z.compact = mant
-		z.precision = arith.Length(mant)
-	} else {
-		z.compact = c.Inflated
-		x0.Int(&z.unscaled)
-		z.precision = arith.BigLength(&z.unscaled)
-	}
 	z.form = finite
 	if neg {
 		z.form |= signbit
 	}
-	return z
+	x0.Int(&z.unscaled)
+	return z.norm()
 }
 
 // SetFloat64 sets z to exactly x.
-- 
2.43.0


From dfc2272cdf0a8139a589064c3d504497bdbe54e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 18/25] fix: Compose does not round negative values

---
 decomposer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decomposer.go b/decomposer.go
index d2b1d48..f95d64a 100644
--- a/decomposer.go
+++ b/decomposer.go
@@ -53,7 +53,7 @@ func (z *Big) Decompose(buf []byte) (form byte, negative bool, coefficient []byt
 	if !z.IsFinite() {
 		panic("expected number to be finite")
 	}
-	if z.exp > math.MaxInt32 {
+	if z.exp > math.MaxInt32 || z.exp < math.MinInt32 {
 		panic("exponent exceeds max size")
 	}
 	exponent = int32(z.exp)
@@ -90,7 +90,7 @@ func (z *Big) Compose(form byte, negative bool, coefficient []byte, exponent int
 	bigc.SetBytes(coefficient)
 	z.SetBigMantScale(bigc, -int(exponent))
 	if negative {
-		z.Neg(z)
+		z.SetSignbit(true)
 	}
 	return nil
 }
-- 
2.43.0


From f1cd9ddefa7cfc2d360f8666a91a04742709cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 19/25] fix: reject numbers without digits

---
 scan.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/scan.go b/scan.go
index 69f9a25..c790316 100644
--- a/scan.go
+++ b/scan.go
@@ -268,6 +268,10 @@ Loop:
 		}
 	}
 
+	if len(buf) == 0 {
+		return ConversionSyntax
+	}
+
 	if big || z.compact == c.Inflated {
 		z.unscaled.SetString(string(buf), 10)
 		z.compact = c.Inflated
@@ -300,6 +304,9 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 
 	ch, err = r.ReadByte()
 	if err != nil {
+		if err == io.EOF {
+			return ConversionSyntax
+		}
 		return err
 	}
 	var neg bool
@@ -318,10 +325,13 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 	}
 
 	var exp uint64
-	for {
+	for digits := 0; ; digits++ {
 		ch, err := r.ReadByte()
 		if err != nil {
 			if err == io.EOF {
+				if digits == 0 {
+					return ConversionSyntax
+				}
 				break
 			}
 			return err
@@ -350,6 +360,9 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 	}
 
 	if neg {
+		if exp > max-uint64(-z.exp) {
+			return Underflow
+		}
 		z.exp -= int(exp)
 	} else {
 		z.exp += int(exp)
-- 
2.43.0


From 1f99719d35dcb839300685b03910244099b9b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 20/25] fix: Quo enforces the exponent limits

---
 big_ctx.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 05559c3..8ddf70e 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2288,7 +2288,7 @@ func (c Context) Quo(z, x, y *Big) *Big {
 				if z.quo(m, sx, x.form, y.compact, y.form) && expadj > 0 {
 					c.simpleReduce(z)
 				}
-				return z
+				return c.fix(z)
 			}
 			xb := z.unscaled.SetUint64(x.compact)
 			xb = arith.MulBigPow10(xb, xb, uint64(shift))
@@ -2297,14 +2297,14 @@ func (c Context) Quo(z, x, y *Big) *Big {
 			if z.quoBig(m, xb, x.form, yb, y.form, rb) && expadj > 0 {
 				c.simpleReduce(z)
 			}
-			return z
+			return c.fix(z)
 		}
 		if shift < 0 {
 			if sy, ok := arith.MulPow10(y.compact, uint64(-shift)); ok {
 				if z.quo(m, x.compact, x.form, sy, y.form) && expadj > 0 {
 					c.simpleReduce(z)
 				}
-				return z
+				return c.fix(z)
 			}
 			yb := z.unscaled.SetUint64(y.compact)
 			yb = arith.MulBigPow10(yb, yb, uint64(-shift))
@@ -2313,12 +2313,12 @@ func (c Context) Quo(z, x, y *Big) *Big {
 			if z.quoBig(m, xb, x.form, yb, y.form, rb) && expadj > 0 {
 				c.simpleReduce(z)
 			}
-			return z
+			return c.fix(z)
 		}
 		if z.quo(m, x.compact, x.form, y.compact, y.form) && expadj > 0 {
 			c.simpleReduce(z)
 		}
-		return z
+		return c.fix(z)
 	}
 
 	xb, yb := &x.unscaled, &y.unscaled
@@ -2350,7 +2350,7 @@ func (c Context) Quo(z, x, y *Big) *Big {
 	if z.quoBig(m, xb, x.form, yb, y.form, alias(tmp, &z.unscaled)) && expadj > 0 {
 		c.simpleReduce(z)
 	}
-	return z
+	return c.fix(z)
 }
 
 func (z *Big) quo(m RoundingMode, x uint64, xneg form, y uint64, yneg form) bool {
-- 
2.43.0


From c023e1b60ab2e64577fc9514e3bdfe8e5efd7033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 21/25] fix: reject text after an infinity

---
 scan.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scan.go b/scan.go
index c790316..6e4a70e 100644
--- a/scan.go
+++ b/scan.go
@@ -205,7 +205,15 @@ func (z *Big) scanInfinity(r io.ByteScanner) (form, error) {
 			return 0, ConversionSyntax
 		}
 	}
-	return inf, nil
+	// Nothing may follow the word.
+	switch _, err := r.ReadByte(); err {
+	case io.EOF:
+		return inf, nil
+	case nil:
+		return 0, ConversionSyntax
+	default:
+		return 0, err
+	}
 }
 
 func (z *Big) scanMant(r io.ByteScanner) (err error) {
-- 
2.43.0


From 82a34f3d8b1ee35cc35cacbf7ebee39bcdfeae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 22/25] fix: reject text after an exponent that is too large

---
 scan.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/scan.go b/scan.go
index 6e4a70e..a903870 100644
--- a/scan.go
+++ b/scan.go
@@ -351,20 +351,19 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 		if d >= 10 {
 			return ConversionSyntax
 		}
-		const cutoff = math.MaxUint64/10 + 1
-		if exp >= cutoff {
-			return ConversionSyntax
+		if exp > max/10 {
+			// Too large, but keep scanning: the rest might not be digits.
+			exp = max + 1
+			continue
 		}
-		exp *= 10
+		exp = exp*10 + uint64(d)
+	}
 
-		v := exp + uint64(d)
-		if v < exp || v > max {
-			if neg {
-				return Underflow
-			}
-			return Overflow
+	if exp > max {
+		if neg {
+			return Underflow
 		}
-		exp = v
+		return Overflow
 	}
 
 	if neg {
-- 
2.43.0


From ebdcef9c561be60700395d0466c64670f68761fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 23/25] fix: Quo returned one digit more than the precision

When the coefficients of x and y were equal up to trailing zeros the
quotient was computed with precision+1 digits: 100000 / 1 gave 100000
at a precision of 5.
---
 util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util.go b/util.go
index 79c402e..4c1aece 100644
--- a/util.go
+++ b/util.go
@@ -149,7 +149,7 @@ func copybits(x []big.Word) []big.Word {
 }
 
 // cmpNorm compares x and y in the range [0.1, 0.999...] and
-// reports whether x > y.
+// reports whether x >= y.
 func cmpNorm(x uint64, xs int, y uint64, ys int) (ok bool) {
 	goodx, goody := true, true
 
@@ -163,7 +163,7 @@ func cmpNorm(x uint64, xs int, y uint64, ys int) (ok bool) {
 	}
 	if goodx {
 		if goody {
-			return arith.Cmp(x, y) > 0
+			return arith.Cmp(x, y) >= 0
 		}
 		return false
 	}
@@ -171,7 +171,7 @@ func cmpNorm(x uint64, xs int, y uint64, ys int) (ok bool) {
 }
 
 // cmpNormBig compares x and y in the range [0.1, 0.999...] and returns true if
-// x > y. It uses z as backing storage, provided it does not alias x or y.
+// x >= y. It uses z as backing storage, provided it does not alias x or y.
 func cmpNormBig(z, x *big.Int, xs int, y *big.Int, ys int) (ok bool) {
 	if xs != ys {
 		z = alias(alias(z, x), y)
@@ -182,7 +182,7 @@ func cmpNormBig(z, x *big.Int, xs int, y *big.Int, ys int) (ok bool) {
 		}
 	}
 	// x and y are non-negative
-	return x.Cmp(y) > 0
+	return x.Cmp(y) >= 0
 }
 
 // scalex adjusts x by scale.
-- 
2.43.0


From 495811116277953bb5c12ddec83e68e9c4f86f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:20 +0000
Subject: [PATCH 24/25] fix: Quo did not raise Rounded when it drops zeros of
 an exact quotient

---
 big_ctx.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 8ddf70e..2b9c38e 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2300,6 +2300,7 @@ func (c Context) Quo(z, x, y *Big) *Big {
 			return c.fix(z)
 		}
 		if shift < 0 {
+			z.Context.Conditions |= Rounded
 			if sy, ok := arith.MulPow10(y.compact, uint64(-shift)); ok {
 				if z.quo(m, x.compact, x.form, sy, y.form) && expadj > 0 {
 					c.simpleReduce(z)
@@ -2340,6 +2341,7 @@ func (c Context) Quo(z, x, y *Big) *Big {
 		tmp = alias(&z.unscaled, yb)
 		xb = arith.MulBigPow10(tmp, xb, uint64(shift))
 	} else if shift < 0 {
+		z.Context.Conditions |= Rounded
 		tmp = alias(&z.unscaled, xb)
 		yb = arith.MulBigPow10(tmp, yb, uint64(-shift))
 	} else {
-- 
2.43.0


From 596ce32584261945e81a214eaa72d716fae78763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 25/25] fix: PowOfTenBig took some numbers above 2^64 for
 powers of ten

A number of 20 digits need not fit in a uint64, so x had to be divided
down to 19 digits: PowOfTenBig(2*2^64 + 10) was true.
---
 internal/arith/pow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/arith/pow.go b/internal/arith/pow.go
index 0c175d6..eeeef0c 100644
--- a/internal/arith/pow.go
+++ b/internal/arith/pow.go
@@ -61,7 +61,7 @@ func PowOfTenBig(x *big.Int) bool {
 	}
 	q := new(big.Int).Set(x)
 	r := new(big.Int)
-	for len := BigLength(x); len > 20; len-- {
+	for len := BigLength(x); len > 19; len-- {
 		q.QuoRem(q, c.TenInt, r)
 		if r.Sign() != 0 {
 			return false
-- 
2.43.0

