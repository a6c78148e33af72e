// Arithmetic operations.

def usable(c) = badctx(c) || okctx(c)
def operand(x) = wf(x) && (fin(x) ==> expok(x))
def gda(c) = c.OperatingMode == GDA
// digits the operation removes from V * 10^e
def cutop(c, V, e) = ite(gda(c), cut(c, V, e), 0)
def invctx(z, F) = z.form == qnan && FLAGS(z) == F | InvalidContext

func decimal.Context.Round
requires operand(z) && usable(c)
case badctx(c)
case special(z)
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic badctx(c) && goctx(z)
returns z
let V = old(C(z))
let e0 = old(z.exp)
let neg = old(z.form[0])
let F = old(FLAGS(z))
keeps !badctx(c) && special(z)
ensures wf(z)
ensures badctx(c) ==> invctx(z, F)
ensures !badctx(c) && old(fin(z)) ==> outcome(z, c, V, e0, neg, cut(c, V, e0), F)

func decimal.Big.Round
requires operand(z) && (n > 0 ==> usable(c))
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic goctx(z)
returns z
let V = old(C(z))
let e0 = old(z.exp)
let neg = old(z.form[0])
let F = old(FLAGS(z))
keeps n <= 0
case n <= 0
case badctx(c)
case special(z)
let c = with(old(z.Context), Precision, n)
keeps !badctx(c) && special(z)
ensures wf(z)
ensures n > 0 && badctx(c) ==> invctx(z, F)
ensures n > 0 && !badctx(c) && old(fin(z)) ==> outcome(z, c, V, e0, neg, cut(c, V, e0), F)

func decimal.Context.Set
requires operand(x) && okctx(c)
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
returns z
let V = old(C(x))
let e0 = old(x.exp)
let neg = old(x.form[0])
let F = old(FLAGS(z))
ensures wf(z)
ensures old(special(x)) ==> z.form == old(x.form) && FLAGS(z) == F && (old(isnan(x)) ==> z.compact == old(x.compact))
ensures old(fin(x)) ==> outcome(z, c, V, e0, neg, cutop(c, V, e0), F)

func decimal.Context.Abs
requires operand(x) && wf(z) && usable(c)
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic (badctx(c) || isnan(x)) && goctx(z)
returns z
let V = old(C(x))
let e0 = old(x.exp)
let F = old(FLAGS(z))
ensures wf(z)
ensures badctx(c) ==> invctx(z, F)
ensures !badctx(c) && old(isnan(x)) ==> nanof(z, old(x.form), F) && z.compact == absvalue
ensures !badctx(c) && old(x.form[1]) ==> z.form == pinf && FLAGS(z) == F
ensures !badctx(c) && old(fin(x)) ==> outcome(z, c, V, e0, 1 == 0, cutop(c, V, e0), F)

// z is the quiet NaN resulting from an operand of NaN form f
def nanof(z, f, F) = z.form == ite(f[0], sqnan, qnan) && FLAGS(z) == F | ite(f[2], InvalidOperation, F)
def nanof2(z, f, g, F) = ite(f[2] || f[3] && !g[2], nanof(z, f, F), nanof(z, g, F))

func decimal.Context.Neg
requires operand(x) && operand(z) && okctx(c)
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic isnan(x) && goctx(z)
returns z
let V = old(C(x))
let e0 = old(x.exp)
let F = old(FLAGS(z))
let neg = ite(V == 0, c.RoundingMode == ToNegativeInf && !old(x.form[0]), !old(x.form[0]))
ensures wf(z)
ensures old(isnan(x)) ==> nanof(z, old(x.form), F) && z.compact == negation
ensures old(x.form[1]) ==> z.form == ite(old(x.form[0]), pinf, ninf) && FLAGS(z) == F
ensures old(fin(x)) ==> outcome(z, c, V, e0, neg, cutop(c, V, e0), F)

func decimal.Context.mul
case !fin(x)
case !fin(y)
requires operand(x) && operand(y) && wf(z)
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic (isnan(x) || isnan(y) || x.form[1] && fin(y) && C(y) == 0 || y.form[1] && fin(x) && C(x) == 0) && goctx(z)
returns z
let F = old(FLAGS(z))
let neg = old(x.form[0]) != old(y.form[0])
let fx = old(x.form)
let fy = old(y.form)
let X = old(C(x))
let Y = old(C(y))
let ex = old(x.exp)
let ey = old(y.exp)
let finx = old(fin(x))
let finy = old(fin(y))
ensures wf(z)
ensures finx && finy ==> sgnform(z.form) && (z.form[0] <==> neg) && C(z) == X*Y && z.exp == ex+ey && FLAGS(z) == F && wfc(z)
ensures fx[2] || fx[3] || fy[2] || fy[3] ==> nanof2(z, fx, fy, F) && z.compact == multiplication
ensures fx[1] && fy[1] || fx[1] && finy && Y != 0 || fy[1] && finx && X != 0 ==> z.form == ite(neg, ninf, pinf) && FLAGS(z) == F
ensures fx[1] && finy && Y == 0 || fy[1] && finx && X == 0 ==> z.form == qnan && FLAGS(z) == F | InvalidOperation && z.compact == mul0inf

func decimal.Context.Mul
case badctx(c)
case !fin(x)
case !fin(y)
requires operand(x) && operand(y) && wf(z) && usable(c)
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic (badctx(c) || isnan(x) || isnan(y) || x.form[1] && fin(y) && C(y) == 0 || y.form[1] && fin(x) && C(x) == 0) && goctx(z)
returns z
let F = old(FLAGS(z))
let neg = old(x.form[0]) != old(y.form[0])
let fx = old(x.form)
let fy = old(y.form)
let X = old(C(x))
let Y = old(C(y))
let e = old(x.exp) + old(y.exp)
let finx = old(fin(x))
let finy = old(fin(y))
domain finx && finy ==> ndig(X*Y) <= MAXP
ensures wf(z)
ensures badctx(c) ==> invctx(z, F)
ensures !badctx(c) && finx && finy ==> outcome(z, c, X*Y, e, neg, cutop(c, X*Y, e), F)
ensures !badctx(c) && (fx[2] || fx[3] || fy[2] || fy[3]) ==> nanof2(z, fx, fy, F) && z.compact == multiplication
ensures !badctx(c) && (fx[1] && fy[1] || fx[1] && finy && Y != 0 || fy[1] && finx && X != 0) ==> z.form == ite(neg, ninf, pinf) && FLAGS(z) == F
ensures !badctx(c) && (fx[1] && finy && Y == 0 || fy[1] && finx && X == 0) ==> z.form == qnan && FLAGS(z) == F | InvalidOperation && z.compact == mul0inf


def tinyexp(c, X) = X.exp - 1 + ite(ndig(C(X)) <= prec(c), ndig(C(X)) - prec(c) - 1, 0)
def istiny(c, X, Y) = C(X) != 0 && adj(Y) < tinyexp(c, X)

func decimal.Context.tryTinyAdd
requires wf(X) && wf(Y) && wf(z) && fin(X) && fin(Y) && okctx(c) && expok(X) && expok(Y)
requires sgnform(Xsign) && sgnform(Ysign)
case istiny(c, X, Y)
modifies z.compact, z.unscaled, z.precision, z.exp
let E = tinyexp(c, X)
let tny = istiny(c, X, Y)
let A = old(C(X))
let ex = old(X.exp)
let t = ite(old(C(Y)) == 0, 0, 1)
keeps !tny
ensures result1 <==> old(tny)
ensures result1 ==> z.exp == old(E) && sgnform(result0) && wfc(z)
let N = s(Xsign)*A*P(ex-old(E)) + s(Ysign)*t
use signsum(A*P(ex-old(E)), t, N, Xsign[0], Ysign[0]) when result1
ensures result1 ==> C(z) == A*P(ex-old(E)) + ite(Xsign[0] == Ysign[0], 1, 0-1)*t
ensures result1 ==> (result0[0] <==> Xsign[0])

func decimal.Context.add
requires wf(x) && wf(y) && wf(z) && fin(x) && fin(y) && okctx(c) && expok(x) && expok(y)
requires sgnform(xform) && sgnform(yform)
let ge = old(x.exp >= y.exp)
let tny = gda(c) && ite(ge, istiny(c, x, y), istiny(c, y, x))
case tny && ge
case tny
case ge
modifies z.compact, z.unscaled, z.precision, z.exp
let X = old(C(x))
let Y = old(C(y))
let ex = old(x.exp)
let ey = old(y.exp)
let e = min(ex, ey)
let E = old(ite(ge, tinyexp(c, x), tinyexp(c, y)))
let N = s(xform)*X*P(ex-e) + s(yform)*Y*P(ey-e)
ensures wfc(z) && sgnform(result)
ensures old(!tny) ==> z.exp == e && s(result)*C(z) == s(xform)*X*P(ex-e) + s(yform)*Y*P(ey-e)
ensures old(!tny) ==> C(z) == abs(N)
ensures old(!tny) && N != 0 ==> (result[0] <==> N < 0)
ensures old(!tny) && N == 0 ==> (result[0] <==> (xform[0] && yform[0] || c.RoundingMode == ToNegativeInf && (xform[0] || yform[0])))
ensures old(tny) ==> z.exp == E
let BG = ite(ge, X, Y)
let SM = ite(ge, Y, X)
let sb = ite(ge, xform[0], yform[0])
let ss = ite(ge, yform[0], xform[0])
ensures old(tny) ==> C(z) == 10*BG*P(max(ex,ey)-E-1) + ite(sb == ss, 1, 0-1)*ite(SM == 0, 0, 1)
ensures old(tny) ==> (result[0] <==> sb)
