// Removing trailing zeros.

func decimal.Context.simpleReduce
requires wf(z) && (fin(z) ==> 0-EBX <= z.exp && z.exp <= EBX)
let V = old(C(z))
let e0 = old(z.exp)
let neg = old(z.form[0])
let fz = old(z.form)
let F = old(FLAGS(z))
let ff = old(fin(z))
case special(z)
case C(z) == 0
case z.compact != cst.Inflated
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic isnan(z) && goctx(z)
returns z
keeps old(z.form[1])
loop 0
invariant z.compact == cst.Inflated && z.unscaled >= 1 && z.precision == ndig(z.unscaled)
invariant z.unscaled * P(z.exp - e0) == V && z.exp >= e0 && z.precision + z.exp - e0 == ndig(V)
modifies z.unscaled, z.exp, z.precision
decreases z.precision
loop 1
invariant z.compact == cst.Inflated && z.unscaled >= 1 && z.precision == ndig(z.unscaled)
invariant z.unscaled * P(z.exp - e0) == V && z.exp >= e0 && z.precision + z.exp - e0 == ndig(V)
modifies z.unscaled, z.exp, z.precision
decreases z.precision
loop 2
invariant z.compact >= 1 && z.compact < cst.Inflated && z.precision == ndig(z.compact)
invariant z.compact * P(z.exp - e0) == V && z.exp >= e0 && z.precision + z.exp - e0 == ndig(V)
modifies z.compact, z.exp, z.precision
decreases z.compact
loop 3
invariant z.compact >= 1 && z.compact < cst.Inflated && z.precision == ndig(z.compact)
invariant z.compact * P(z.exp - e0) == V && z.exp >= e0 && z.precision + z.exp - e0 == ndig(V)
modifies z.compact, z.exp, z.precision
decreases z.compact
ensures goodform(z)
ensures fz[2] || fz[3] ==> nanof(z, fz, F) && z.compact == reduction
ensures fz[1] ==> z.form == fz && FLAGS(z) == F
ensures ff ==> z.form == fz && FLAGS(z) == F && wfc(z)
ensures ff && V == 0 ==> C(z) == 0 && z.exp == 0
ensures ff && V != 0 ==> C(z)*P(z.exp - e0) == V && z.exp >= e0 && mod(C(z), 10) != 0
ensures ff && V != 0 ==> ndig(C(z)) + z.exp - e0 == ndig(V)

// redc(z, R, b): z is R * 10^b without trailing zeros
def redc(z, R, b) = sgnform(z.form) && wfc(z) && ite(R == 0, C(z) == 0 && z.exp == 0, C(z)*P(z.exp - b) == R && z.exp >= b && mod(C(z), 10) != 0)
def redsub(z, c, V, e, F, S, y) = ite(e >= etiny(c), redc(z, V, e) && FLAGS(z) == F | Subnormal, redc(z, S, etiny(c)) && FLAGS(z) == F | Subnormal | Rounded | ite(y, Subnormal, Underflow | Inexact) | ite(S == 0, Clamped, Subnormal))
def redover(z, c, neg, F) = FLAGS(z) == F | Overflow | Inexact | Rounded && ite(tomax(c, neg), sgnform(z.form) && C(z) == P(prec(c)) - 1 && z.exp == emax(c) - prec(c) + 1, z.form[1] && !z.form[2] && !z.form[3])
def redout(z, c, V, n, e, neg, k, F, R, x, S, y) = (z.form[0] <==> neg) && ite(V == 0, redc(z, 0, e) && FLAGS(z) == F | ite(min(max(e, etiny(c)), emax(c)) == e, Rounded ^ Rounded, Clamped), ite(e + n - 1 < emin(c), redsub(z, c, V, e, F, S, y), ite(e + n - 1 + cry(n, k, R) > emax(c), redover(z, c, neg, F), redc(z, R, e + k) && FLAGS(z) == F | ite(k > 0, Rounded, Rounded ^ Rounded) | ite(x, Rounded ^ Rounded, Inexact))))

func decimal.Context.Reduce
requires operand(z) && usable(c)
let V = old(C(z))
let e0 = old(z.exp)
let neg = old(z.form[0])
let fz = old(z.form)
let F = old(FLAGS(z))
let ff = old(fin(z))
let k = cut(c, V, e0)
case badctx(c)
case special(z)
case C(z) == 0
case adj(z) < emin(c) && z.exp >= etiny(c)
case adj(z) < emin(c) && rnd(c, C(z), etiny(c)-z.exp, z.form[0]) == 0
case adj(z) < emin(c)
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic (badctx(c) || isnan(z)) && goctx(z)
returns z
ensures goodform(z)
ensures badctx(c) ==> nanof(z, qnan, F | InvalidContext)
ensures !badctx(c) && (fz[2] || fz[3]) ==> nanof(z, fz, F) && z.compact == reduction
ensures !badctx(c) && fz[1] ==> z.form == fz && FLAGS(z) == F
ensures !badctx(c) && ff ==> redout(z, c, V, ndig(V), e0, neg, k, F, rnd(c, V, k, neg), mod(V, P(k)) == 0, rnd(c, V, etiny(c)-e0, neg), mod(V, P(etiny(c)-e0)) == 0)
