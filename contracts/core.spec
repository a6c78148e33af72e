// Shared vocabulary.
defn C(x) = ite(x.compact == cst.Inflated, x.unscaled, x.compact)
def fin(x) = !x.form[1] && !x.form[2] && !x.form[3]
def sgnform(f) = !f[1] && !f[2] && !f[3] && !f[4] && !f[5] && !f[6] && !f[7]
def s(f) = ite(f[0], 0-1, 1)
def goodform(x) = !x.form[4] && !x.form[5] && !x.form[6] && !x.form[7] && !(x.form[1] && (x.form[2] || x.form[3])) && !(x.form[2] && x.form[3])
// a finite coefficient is stored canonically
def MAXP = 2000000000
def wfc(z) = (z.compact == cst.Inflated ==> z.unscaled >= cst.Inflated) && z.precision == ndig(C(z)) && z.precision <= MAXP
// the zero value of Big has precision 0
def wf(x) = goodform(x) && (fin(x) ==> (x.compact == cst.Inflated ==> x.unscaled >= cst.Inflated) && (x.precision == ndig(C(x)) || x.compact == 0 && x.precision == 0) && x.precision <= MAXP)
def EB = 2000000000000000000
def EBX = 5000000000000000000
def expok(x) = 0 - EB <= x.exp && x.exp <= EB
def expok2(x) = 0 - 2*EB <= x.exp && x.exp <= 2*EB
defn prec(c) = ite(c.Precision == 0, 16, c.Precision)
def smallprec(x) = ndig(C(x)) <= 2000000000

func decimal.alias
alias x : fresh | z
returns z | fresh
ensures same(result, z) ==> !same(z, x)
trusted compares the backing arrays of z and x

func decimal.Big.Precision
requires wf(x)
ensures result == ite(fin(x), ndig(C(x)), 0)

func decimal.Big.norm
requires z.unscaled >= 0
modifies z.compact, z.precision
returns z
ensures wfc(z)
ensures C(z) == z.unscaled

func decimal.Context.addCompact
requires X0 < cst.Inflated && Y < cst.Inflated
requires sgnform(Xsign) && sgnform(Ysign)
modifies z.unscaled, z.compact, z.precision
ensures sgnform(result)
ensures s(result) * C(z) == s(Xsign) * X0 * P(shift) + s(Ysign) * Y
ensures C(z) == 0 ==> (result[0] <==> (Xsign[0] && Ysign[0] || c.RoundingMode == ToNegativeInf && (Xsign[0] || Ysign[0])))
ensures wfc(z)

func decimal.Context.addMixed
alias X : fresh | z.unscaled
requires sgnform(Xform) && sgnform(Yform)
requires X >= cst.Inflated && Y < cst.Inflated
requires 0-EB <= xs && xs <= EB && 0-EB-EB <= ys && ys <= EB
modifies z.unscaled, z.compact, z.precision
ensures sgnform(result)
ensures s(result) * C(z) == s(Xform) * old(X) * P(xs-min(xs,ys)) + s(Yform) * Y * P(ys-min(xs,ys))
ensures C(z) == 0 ==> (result[0] <==> (Xform[0] && Yform[0] || c.RoundingMode == ToNegativeInf && (Xform[0] || Yform[0])))
ensures wfc(z)

func decimal.Context.addBig
alias X : fresh | z.unscaled
alias Y : fresh | z.unscaled | X
requires sgnform(Xsign) && sgnform(Ysign)
requires X >= 0 && Y >= 0
requires X >= cst.Inflated || Y >= cst.Inflated
modifies z.unscaled, z.compact, z.precision
ensures sgnform(result)
ensures s(result) * C(z) == s(Xsign) * old(X) * P(shift) + s(Ysign) * old(Y)
ensures C(z) == 0 ==> (result[0] <==> (Xsign[0] && Ysign[0] || c.RoundingMode == ToNegativeInf && (Xsign[0] || Ysign[0])))
ensures wfc(z)

// ---------------------------------------------------------------- rounding
def incr(m, q, r2, y, neg) = m == AwayFromZero || m == ToPositiveInf && !neg || m == ToNegativeInf && neg || m == ToNearestEven && (r2 > y || r2 == y && odd(q)) || m == ToNearestAway && r2 >= y || m == ToNearestTowardZero && r2 > y
// x / y rounded to an integer, sign apart
def rq(m, x, y, neg) = idiv(x,y) + ite(mod(x,y) > 0 && incr(m, idiv(x,y), 2*mod(x,y), y, neg), 1, 0)
def FLAGS(z) = z.Context.Conditions
def goctx(z) = z.Context.OperatingMode == Go

func decimal.RoundingMode.needsInc
ensures result <==> m == AwayFromZero || m == ToPositiveInf && pos || m == ToNegativeInf && !pos || m == ToNearestEven && (r > 0 || r == 0 && odd) || m == ToNearestAway && r >= 0 || m == ToNearestTowardZero && r > 0

func decimal.Condition.String
trusted builds a message only

func decimal.Big.setNaN
modifies z.form, z.compact, z.Context.Conditions
maypanic goctx(z)
returns z
ensures z.form == f && z.compact == p && FLAGS(z) == old(FLAGS(z)) | c

func decimal.Big.quo
requires sgnform(xneg) && sgnform(yneg)
requires y >= 1 && x < cst.Inflated
requires 0-EBX <= z.exp && z.exp <= EBX
modifies z.form, z.compact, z.precision, z.exp, z.Context.Conditions
maypanic m == unnecessary && mod(x,y) != 0 && goctx(z)
let e0 = old(z.exp)
let neg = xneg[0] != yneg[0]
let bad = m == unnecessary && mod(x,y) != 0
ensures result <==> mod(x,y) == 0
ensures !bad ==> sgnform(z.form) && (z.form[0] <==> xneg[0] != yneg[0])
ensures !bad ==> C(z)*P(z.exp-e0) == rq(m,x,y,neg)
ensures z.exp == e0 || z.exp == e0+1 && C(z) == P(ndig(idiv(x,y))-1)
ensures !bad ==> wfc(z) && z.precision == ndig(idiv(x,y)) && z.compact != cst.Inflated
ensures result ==> FLAGS(z) == old(FLAGS(z)) && z.exp == e0
ensures !result && !bad ==> FLAGS(z) == old(FLAGS(z)) | Inexact | Rounded
ensures bad ==> z.form == qnan && FLAGS(z) == old(FLAGS(z)) | Inexact | Rounded | InvalidOperation | InvalidContext | InsufficientStorage && z.exp == e0

func decimal.Big.quoBig
apart r, z.unscaled
alias x : fresh | z.unscaled
alias y : fresh | z.unscaled | x
alias r : fresh | x | y
requires sgnform(xneg) && sgnform(yneg)
requires x >= 0 && y >= 1
requires 0-EBX <= z.exp && z.exp <= EBX
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions, r
maypanic m == unnecessary && mod(old(x),old(y)) != 0 && goctx(z)
let e0 = old(z.exp)
let X = old(x)
let Y = old(y)
let neg = xneg[0] != yneg[0]
let bad = m == unnecessary && mod(X,Y) != 0
ensures result <==> mod(X,Y) == 0
ensures !bad ==> sgnform(z.form) && (z.form[0] <==> xneg[0] != yneg[0])
ensures !bad ==> C(z)*P(z.exp-e0) == rq(m,X,Y,neg)
ensures z.exp == e0 || z.exp == e0+1 && C(z) == P(ndig(idiv(X,Y))-1)
ensures !bad ==> wfc(z) && z.precision == ndig(idiv(X,Y))
ensures result ==> FLAGS(z) == old(FLAGS(z)) && z.exp == e0
ensures !result && !bad ==> FLAGS(z) == old(FLAGS(z)) | Inexact | Rounded
ensures bad ==> z.form == qnan && FLAGS(z) == old(FLAGS(z)) | Inexact | Rounded | InvalidOperation | InvalidContext | InsufficientStorage && z.exp == e0
