// Rounding, exponent limits and special operands.

def special(x) = x.form[1] || x.form[2] || x.form[3]
def isnan(x) = x.form[2] || x.form[3]
def okctx(c) = 0 <= c.Precision && c.Precision <= UnlimitedPrecision && c.RoundingMode <= ToNearestTowardZero && c.OperatingMode <= Go && 0 <= c.MaxScale && c.MaxScale <= cst.MaxScale && 0-cst.MaxScale <= c.MinScale && c.MinScale <= 0
defn emax(c) = ite(c.MaxScale == 0, cst.MaxScale, c.MaxScale)
defn emin(c) = ite(c.MinScale == 0, 0-cst.MaxScale, c.MinScale)
def etiny(c) = emin(c) - prec(c) + 1
def adj(x) = x.exp + ndig(C(x)) - 1
def unlimited(c) = prec(c) == UnlimitedPrecision

// number of digits round removes from a coefficient v with exponent e
def cut(c, v, e) = ite(!unlimited(c) && ndig(v) > prec(c) && e + ndig(v) - 1 >= emin(c), ndig(v) - prec(c), 0)
// a rounded coefficient gained a digit
def carry(c, v, k, neg) = k > 0 && rq(c.RoundingMode, v, P(k), neg) == P(ndig(v) - k)

func decimal.Context.shiftl
requires wf(z) && fin(z) && n >= 0
modifies z.compact, z.unscaled, z.precision
ensures C(z) == old(C(z)) * P(n)
ensures wf(z)
ensures C(z) != 0 ==> wfc(z)

func decimal.Context.shiftr
requires wf(z) && fin(z) && n >= 0 && c.RoundingMode <= ToNearestTowardZero
requires 0-EBX <= z.exp && z.exp <= EBX
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
let V = old(C(z))
let e0 = old(z.exp)
let neg = old(z.form[0])
ensures result <==> mod(V,P(n)) == 0
ensures C(z)*P(z.exp-e0) == rq(c.RoundingMode,V,P(n),neg)
ensures z.form == old(z.form)
ensures z.exp == e0 || z.exp == e0+1 && C(z) == P(ndig(idiv(V,P(n)))-1)
ensures wf(z) && (V != 0 ==> wfc(z) && z.precision == ndig(idiv(V,P(n))))
ensures result ==> FLAGS(z) == old(FLAGS(z)) && z.exp == e0
ensures !result ==> FLAGS(z) == old(FLAGS(z)) | Inexact | Rounded

func decimal.Context.round
requires wf(z) && okctx(c) && (fin(z) ==> expok2(z))
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
returns z
let V = old(C(z))
let e0 = old(z.exp)
let neg = old(z.form[0])
let k = ite(old(special(z)), 0, cut(c, V, e0))
case special(z)
case cut(c, C(z), z.exp) == 0
keeps k == 0
ensures z.form == old(z.form)
ensures k > 0 ==> C(z)*P(z.exp-e0-k) == rq(c.RoundingMode,V,P(k),neg)
ensures k > 0 ==> z.exp == e0 + k + ite(carry(c,V,k,neg), 1, 0)
ensures k > 0 ==> wfc(z) && ndig(C(z)) == prec(c)
ensures k > 0 ==> FLAGS(z) == old(FLAGS(z)) | Rounded | ite(mod(V,P(k)) == 0, Rounded, Inexact)
ensures wf(z)

func decimal.Big.SetBigMantScale
alias value : fresh | z.unscaled
requires 0-EB <= scale && scale <= EB
modifies z.form, z.compact, z.unscaled, z.precision, z.exp
returns z
ensures sgnform(z.form) && (z.form[0] <==> old(value) < 0)
ensures C(z) == abs(old(value)) && wfc(z)
ensures z.exp == 0 - scale

// the finite result (or overflow) of a value V * 10^e that is already rounded
def tomax(c, neg) = !unlimited(c) && (c.RoundingMode == ToZero || c.RoundingMode == ToPositiveInf && neg || c.RoundingMode == ToNegativeInf && !neg)

func decimal.Context.fix
requires wf(z) && okctx(c) && (fin(z) ==> 0-EBX+EB/4 <= z.exp && z.exp <= EBX-EB/4)
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
returns z
let V = old(C(z))
let e0 = old(z.exp)
let neg = old(z.form[0])
let isfin = old(fin(z))
let A = e0 + ndig(V) - 1
let over = isfin && A > emax(c)
let under = isfin && A < emin(c)
let k = etiny(c) - e0
case special(z)
case adj(z) > emax(c) && C(z) == 0
case adj(z) > emax(c) && tomax(c, z.form[0])
case adj(z) > emax(c)
case adj(z) >= emin(c)
case C(z) == 0 && z.exp < etiny(c)
case C(z) == 0
case z.exp >= etiny(c)
ensures wf(z)
keeps !over && !under
keeps !over && !(under && k > 0) : z.form, z.compact, z.unscaled, z.precision, z.exp
ensures z.form[0] <==> neg
ensures over && V == 0 ==> sgnform(z.form) && C(z) == 0 && z.exp == emax(c) && FLAGS(z) == old(FLAGS(z)) | Clamped
ensures over && V != 0 ==> FLAGS(z) == old(FLAGS(z)) | Overflow | Inexact | Rounded
ensures over && V != 0 && tomax(c, neg) ==> sgnform(z.form) && C(z) == P(prec(c)) - 1 && z.exp == emax(c) - prec(c) + 1
ensures over && V != 0 && !tomax(c, neg) ==> z.form[1] && !z.form[2] && !z.form[3]
ensures under && V == 0 ==> sgnform(z.form) && C(z) == 0 && z.exp == max(e0, etiny(c)) && FLAGS(z) == old(FLAGS(z)) | ite(k > 0, Clamped, old(FLAGS(z)))
ensures under && V != 0 && k <= 0 ==> FLAGS(z) == old(FLAGS(z)) | Subnormal
ensures under && V != 0 && k > 0 ==> sgnform(z.form) && z.exp == etiny(c) && C(z) == rq(c.RoundingMode, V, P(k), neg)
ensures under && V != 0 && k > 0 ==> FLAGS(z) == old(FLAGS(z)) | Subnormal | Rounded | ite(mod(V,P(k)) == 0, Subnormal, Underflow | Inexact) | ite(C(z) == 0, Clamped, Subnormal)

// outcome(z, c, V, e, neg, k, F): z holds V * 10^e rounded by removing k digits,
// with overflow, underflow and clamping applied; F are the earlier conditions.
def rnd(c, V, k, neg) = rq(c.RoundingMode, V, P(k), neg)
def outcome(z, c, V, e, neg, k, F) = outc(z, c, V, ndig(V), e, neg, k, F, rnd(c, V, k, neg), mod(V, P(k)) == 0, rnd(c, V, etiny(c)-e, neg), mod(V, P(etiny(c)-e)) == 0)
// the same with n = ndig(V), R and x the rounded value and its exactness, S and y those at etiny
def cry(n, k, R) = ite(k > 0 && R == P(n - k), 1, 0)
def outc(z, c, V, n, e, neg, k, F, R, x, S, y) = (z.form[0] <==> neg) && ite(V == 0, zeroout(z, c, e, F), ite(e + n - 1 < emin(c), subout(z, c, V, e, F, S, y), ite(e + n - 1 + cry(n, k, R) > emax(c), overout(z, c, neg, F), sgnform(z.form) && wfc(z) && C(z)*P(z.exp-e-k) == R && z.exp == e + k + cry(n, k, R) && FLAGS(z) == F | ite(k > 0, Rounded, Rounded ^ Rounded) | ite(x, Rounded ^ Rounded, Inexact))))
def zeroout(z, c, e, F) = sgnform(z.form) && C(z) == 0 && z.exp == min(max(e, etiny(c)), emax(c)) && FLAGS(z) == F | ite(z.exp == e, Rounded ^ Rounded, Clamped)
def subout(z, c, V, e, F, S, y) = sgnform(z.form) && ite(e >= etiny(c), C(z) == V && z.exp == e && FLAGS(z) == F | Subnormal, z.exp == etiny(c) && C(z) == S && FLAGS(z) == F | Subnormal | Rounded | ite(y, Subnormal, Underflow | Inexact) | ite(C(z) == 0, Clamped, Subnormal))
def overout(z, c, neg, F) = FLAGS(z) == F | Overflow | Inexact | Rounded && ite(tomax(c, neg), sgnform(z.form) && C(z) == P(prec(c)) - 1 && z.exp == emax(c) - prec(c) + 1, z.form[1] && !z.form[2] && !z.form[3])

func decimal.Context.finish
case special(z)
case C(z) == 0
case adj(z) < emin(c)
case adj(z) > emax(c)
case c.OperatingMode == GDA && cut(c, C(z), z.exp) > 0
requires wf(z) && okctx(c) && (fin(z) ==> expok2(z))
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
returns z
let V = old(C(z))
let e0 = old(z.exp)
let neg = old(z.form[0])
ensures wf(z)
keeps special(z)
ensures old(fin(z)) ==> outcome(z, c, V, e0, neg, ite(c.OperatingMode == GDA, cut(c, V, e0), 0), old(FLAGS(z)))
