// Quantize and integral rounding.

func decimal.Context.requantize
requires wf(z) && fin(z) && okctx(c) && n <= z.exp && z.exp - n <= MAXP
requires ndig(C(z)) + z.exp - n <= MAXP
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic goctx(z) && bad
returns z
let V = old(C(z))
let d = old(z.exp) - n
let bad = d != 0 && ndig(V*P(d)) > prec(c)
case d == 0
keeps d == 0
ensures bad ==> z.form == qnan && z.compact == quantprec && FLAGS(z) == old(FLAGS(z)) | InvalidOperation
ensures !bad ==> z.form == old(z.form) && C(z) == V*P(d) && z.exp == n && FLAGS(z) == old(FLAGS(z)) && wf(z)
ensures goodform(z)

// V * 10^e0 with exponent E, e0 - E = d
def qnan0(z, F, p) = z.form == qnan && FLAGS(z) == F | InvalidOperation && z.compact == p
def qup(z, c, V, d, E, neg, F) = sgnform(z.form) && (z.form[0] <==> neg) && wf(z) && z.exp == E && C(z) == V*P(d) && FLAGS(z) == F
def qdown(z, c, V, k, E, neg, F, R) = ite(ndig(R) > prec(c), z.form == qnan && z.compact == quantprec && FLAGS(z) == F | Rounded | Inexact | InvalidOperation, sgnform(z.form) && (z.form[0] <==> neg) && wf(z) && z.exp == E && C(z) == R && FLAGS(z) == F | Rounded | ite(mod(V, P(k)) == 0, Rounded, Inexact))

func decimal.Context.Quantize
requires operand(z) && usable(c) && 0 - two(63) < n
let V = old(C(z))
let e0 = old(z.exp)
let E = 0-n
let d = e0-E
let neg = old(z.form[0])
let fz = old(z.form)
let F = old(FLAGS(z))
let ff = old(fin(z))
let ok = !badctx(c)
let lim = E > emax(c) || E < etiny(c)
let big = V != 0 && ndig(V) + d > prec(c)
domain ok && ff && !lim && !big ==> ndig(V) + d <= MAXP
case badctx(c)
case special(z)
case lim
case C(z) == 0
case big
case d == 0
case d > 0
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic goctx(z) && (badctx(c) || special(z) || lim || big || d < 0 && V != 0 && ndig(rq(c.RoundingMode, V, P(0-d), neg)) > prec(c))
returns z
ensures goodform(z)
ensures !ok ==> invctx(z, F)
ensures ok && (fz[2] || fz[3]) ==> nanof(z, fz, F) && z.compact == quantization
ensures ok && fz[1] ==> qnan0(z, F, quantinf)
ensures ok && ff && lim ==> qnan0(z, F, quantminmax)
ensures ok && ff && !lim && big ==> qnan0(z, F, quantprec)
ensures ok && ff && !lim && V == 0 ==> sgnform(z.form) && (z.form[0] <==> neg) && wf(z) && z.exp == E && C(z) == 0 && FLAGS(z) == F
ensures ok && ff && !lim && !big && V != 0 && d >= 0 ==> qup(z, c, V, d, E, neg, F)
ensures ok && ff && !lim && !big && V != 0 && d < 0 ==> qdown(z, c, V, 0-d, E, neg, F, rq(c.RoundingMode, V, P(0-d), neg))

func decimal.Context.RoundToInt
requires operand(z) && (fin(z) && z.exp < 0 ==> usable(with(c, Precision, ndig(C(z)))))
let V = old(C(z))
let e0 = old(z.exp)
let neg = old(z.form[0])
let fz = old(z.form)
let F = old(FLAGS(z))
let c1 = with(c, Precision, ndig(V))
let same = old(special(z) || z.exp >= 0)
case same
case badctx(c1)
case C(z) == 0
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic !same && badctx(c1) && goctx(z)
keeps same
returns z
ensures goodform(z)
ensures !same && badctx(c1) ==> invctx(z, F)
ensures !same && !badctx(c1) && V == 0 ==> sgnform(z.form) && (z.form[0] <==> neg) && wf(z) && z.exp == 0 && C(z) == 0 && FLAGS(z) == F
ensures !same && !badctx(c1) && V != 0 ==> sgnform(z.form) && (z.form[0] <==> neg) && wf(z) && z.exp == 0 && C(z) == rq(c.RoundingMode, V, P(0-e0), neg) && FLAGS(z) == F | Rounded | ite(mod(V, P(0-e0)) == 0, Rounded, Inexact)

// z is the integral value of V * 10^e0 in rounding mode m, or x itself where it is integral already
def integral(z, m, V, e0, neg, F) = sgnform(z.form) && (z.form[0] <==> neg) && wf(z) && ite(e0 >= 0, C(z) == V && z.exp == e0 && FLAGS(z) == F, z.exp == 0 && ite(V == 0, C(z) == 0 && FLAGS(z) == F, C(z) == rq(m, V, P(0-e0), neg) && FLAGS(z) == F | Rounded | ite(mod(V, P(0-e0)) == 0, Rounded, Inexact)))

func decimal.Context.Floor
requires operand(x) && wf(z) && usable(z.Context) && (fin(x) && x.exp < 0 ==> usable(with(with(c, Precision, ndig(C(x))), RoundingMode, ToNegativeInf)))
let V = old(C(x))
let e0 = old(x.exp)
let neg = old(x.form[0])
let fx = old(x.form)
let F = old(FLAGS(z))
let zbad = badctx(old(z.Context))
let xbad = old(fin(x)) && e0 < 0 && badctx(with(with(c, Precision, ndig(V)), RoundingMode, ToNegativeInf))
case zbad
case special(x)
case xbad
case x.exp >= 0
case C(x) == 0
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic (zbad || isnan(x) || xbad) && goctx(z)
returns z
ensures goodform(z)
ensures zbad ==> invctx(z, F)
ensures !zbad && (fx[2] || fx[3]) ==> nanof(z, fx, F) && z.compact == 0
ensures !zbad && fx[1] ==> z.form == fx && FLAGS(z) == F
ensures !zbad && xbad ==> invctx(z, F)
ensures !zbad && !xbad && old(fin(x)) ==> integral(z, ToNegativeInf, V, e0, neg, F)

func decimal.Context.Ceil
requires operand(x) && wf(z) && usable(z.Context) && (fin(x) && x.exp < 0 ==> usable(with(with(c, Precision, ndig(C(x))), RoundingMode, ToNegativeInf)))
let V = old(C(x))
let e0 = old(x.exp)
let neg = old(x.form[0])
let fx = old(x.form)
let F = old(FLAGS(z))
let zbad = badctx(old(z.Context))
let xbad = old(fin(x)) && e0 < 0 && badctx(with(with(c, Precision, ndig(V)), RoundingMode, ToNegativeInf))
case zbad
case special(x)
case xbad
case x.exp >= 0
case C(x) == 0
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic (zbad || isnan(x) || xbad) && goctx(z)
returns z
ensures goodform(z)
ensures zbad || xbad ==> isnan(z) && FLAGS(z) == F | InvalidContext
ensures !zbad && (fx[2] || fx[3]) ==> nanof(z, fx, F) && z.compact == 0
ensures !zbad && fx[1] ==> z.form == fx && FLAGS(z) == F
ensures !zbad && !xbad && old(fin(x)) ==> integral(z, ToPositiveInf, V, e0, neg, F)
