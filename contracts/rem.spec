// Integer division and remainder.

def nanc(z, p, F, c) = z.form == qnan && z.compact == p && FLAGS(z) == F | c

func decimal.RoundingMode.quorem
alias z0 : fresh | nil
alias z1 : fresh | nil
requires y >= 1 && x < cst.Inflated
requires sgnform(xneg) && sgnform(yneg)
modifies z0.form, z0.compact, z0.precision, z0.exp, z1.form, z1.compact, z1.precision, z1.exp
returns 0: z0
returns 1: z1
ensures !isnil(z0) ==> wfc(z0) && C(z0) == idiv(x, y) && sgnform(z0.form) && (z0.form[0] <==> xneg[0] != yneg[0])
ensures !isnil(z1) ==> wfc(z1) && C(z1) == mod(x, y) && sgnform(z1.form) && (z1.form[0] <==> xneg[0])

func decimal.RoundingMode.quoremBig
alias z0 : fresh | nil
alias z1 : fresh | nil
alias x : fresh | z0.unscaled | z1.unscaled
alias y : fresh | z0.unscaled | z1.unscaled | x
requires !(isnil(z0) && isnil(z1))
requires x >= 0 && y >= 1
requires sgnform(xneg) && sgnform(yneg)
modifies z0.form, z0.compact, z0.unscaled, z0.precision, z1.form, z1.compact, z1.unscaled, z1.precision
returns 0: z0
returns 1: z1
let X = old(x)
let Y = old(y)
ensures !isnil(z0) ==> wfc(z0) && C(z0) == idiv(X, Y) && sgnform(z0.form) && (z0.form[0] <==> xneg[0] != yneg[0])
ensures !isnil(z1) ==> wfc(z1) && C(z1) == mod(X, Y) && sgnform(z1.form) && (z1.form[0] <==> xneg[0])

def scaled(a, b) = C(a)*P(a.exp-min(a.exp, b.exp))
def sx(f) = ite(f[0], 0-1, 1)

func decimal.Context.quorem
alias z0 : fresh | nil
alias z1 : fresh | nil
requires !(isnil(z0) && isnil(z1))
requires operand(x) && operand(y) && fin(x) && fin(y) && C(x) >= 1 && C(y) >= 1
requires 0 <= c.Precision && c.Precision <= UnlimitedPrecision
let X = old(scaled(x, y))
let Y = old(scaled(y, x))
let sh = old(x.exp - y.exp)
let imp = old(adj(x)-adj(y)) > prec(c)
let fx = old(x.form)
let fy = old(y.form)
let F0 = old(FLAGS(z0))
let F1 = old(FLAGS(z1))
case imp
case sh == 0
case sh > 0
modifies z0.form, z0.compact, z0.unscaled, z0.precision, z0.exp, z0.Context.Conditions, z1.form, z1.compact, z1.unscaled, z1.precision, z1.exp, z1.Context.Conditions
maypanic imp && (!isnil(z0) && goctx(z0) || !isnil(z1) && goctx(z1))
returns 0: z0
returns 1: z1
ensures imp && !isnil(z0) ==> nanc(z0, quorem_, F0, DivisionImpossible)
ensures imp && !isnil(z1) ==> nanc(z1, quorem_, F1, DivisionImpossible)
ensures !imp && !isnil(z0) ==> wfc(z0) && C(z0) == idiv(X, Y) && sgnform(z0.form) && (z0.form[0] <==> fx[0] != fy[0]) && FLAGS(z0) == F0
ensures !imp && !isnil(z1) ==> wfc(z1) && C(z1) == mod(X, Y) && sgnform(z1.form) && (z1.form[0] <==> fx[0]) && FLAGS(z1) == F1

lemma intge(Q, p)
requires p >= 1 && Q + 1 > P(p-1)
ensures Q >= P(p-1)

// Adjusted exponents too far apart: the quotient has too many digits.
lemma remimp(A, a, B, b, p, X, Y, Q)
requires A >= 1 && B >= 1 && a >= 0 && b >= 0 && p >= 0
requires a + ndig(A) - b - ndig(B) > p
requires X == A*P(a) && Y == B*P(b) && Q == idiv(X, Y)
step P(p)*Y < X
step Q*Y + Y > X
case Q + 1 <= P(p)
step Q + 1 <= P(p) ==> Q*Y + Y <= P(p)*Y
step Q + 1 > P(p)
use intge(Q, p + 1)
ensures ndig(Q) > p

func decimal.Context.QuoInt
requires operand(x) && operand(y) && wf(z) && usable(c)
let bad = badctx(c)
let fx = old(x.form)
let fy = old(y.form)
let finx = old(fin(x))
let finy = old(fin(y))
let ff = finx && finy
let CX = old(C(x))
let CY = old(C(y))
let ex = old(x.exp)
let ey = old(y.exp)
let X = CX*P(ex-min(ex,ey))
let Y = CY*P(ey-min(ex,ey))
let Q = idiv(X, Y)
let neg = fx[0] != fy[0]
let F = old(FLAGS(z))
let nans = fx[2] || fx[3] || fy[2] || fy[3]
let imp = ex + ndig(CX) - ey - ndig(CY) > prec(c)
case bad
case !finx
case !finy
case CY == 0
case CX == 0
case imp && ex >= ey
case imp
case ex == ey
case ex > ey
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic goctx(z) && (bad || nans || fx[1] && fy[1] || ff && CY == 0 && CX == 0 || ff && CY != 0 && CX != 0 && (imp || ndig(Q) > prec(c)))
returns z
use remimp(CX, ex-min(ex,ey), CY, ey-min(ex,ey), prec(c), X, Y, Q) when !bad && ff && CX != 0 && CY != 0 && imp
ensures wf(z)
ensures bad ==> invctx(z, F)
ensures !bad && nans ==> nanof2(z, fx, fy, F) && z.compact == division
ensures !bad && fx[1] && fy[1] ==> nanc(z, quoinfinf, F, InvalidOperation)
ensures !bad && fx[1] && finy ==> z.form == ite(neg, ninf, pinf) && FLAGS(z) == F
ensures !bad && finx && fy[1] ==> sgnform(z.form) && (z.form[0] <==> neg) && C(z) == 0 && z.exp == 0 && FLAGS(z) == F
ensures !bad && ff && CX == 0 && CY == 0 ==> nanc(z, quo00, F, InvalidOperation | DivisionUndefined)
ensures !bad && ff && CX != 0 && CY == 0 ==> z.form == ite(neg, ninf, pinf) && FLAGS(z) == F | DivisionByZero
ensures !bad && ff && CX == 0 && CY != 0 ==> zeroout(z, c, 0, F) && (z.form[0] <==> neg)
ensures !bad && ff && CX != 0 && CY != 0 && ndig(Q) > prec(c) ==> z.form == qnan && FLAGS(z) == F | DivisionImpossible
ensures !bad && ff && CX != 0 && CY != 0 && ndig(Q) <= prec(c) ==> sgnform(z.form) && (z.form[0] <==> neg) && wfc(z) && C(z) == Q && z.exp == 0 && FLAGS(z) == F

func decimal.Context.Rem
requires operand(x) && operand(y) && wf(z) && usable(c)
let bad = badctx(c)
let fx = old(x.form)
let fy = old(y.form)
let finx = old(fin(x))
let finy = old(fin(y))
let ff = finx && finy
let CX = old(C(x))
let CY = old(C(y))
let ex = old(x.exp)
let ey = old(y.exp)
let X = CX*P(ex-min(ex,ey))
let Y = CY*P(ey-min(ex,ey))
let Q = idiv(X, Y)
let neg = fx[0] != fy[0]
let F = old(FLAGS(z))
let nans = fx[2] || fx[3] || fy[2] || fy[3]
let imp = ex + ndig(CX) - ey - ndig(CY) > prec(c)
case bad
case !finx
case !finy
case CY == 0
case CX == 0
case imp && ex >= ey
case imp
case ex == ey
case ex > ey
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic goctx(z) && (bad || nans || !nans && fx[1] || ff && CY == 0 || ff && CY != 0 && CX != 0 && (imp || ndig(Q) > prec(c)))
returns z
use remimp(CX, ex-min(ex,ey), CY, ey-min(ex,ey), prec(c), X, Y, Q) when !bad && ff && CX != 0 && CY != 0 && imp
ensures wf(z)
ensures bad ==> invctx(z, F)
ensures !bad && nans ==> nanof2(z, fx, fy, F) && z.compact == division
ensures !bad && fx[1] && fy[1] ==> nanc(z, quoinfinf, F, InvalidOperation)
ensures !bad && fx[1] && finy ==> nanc(z, reminfy, F, InvalidOperation)
ensures !bad && finx && fy[1] ==> outcome(z, c, CX, ex, fx[0], cutop(c, CX, ex), F)
ensures !bad && ff && CX == 0 && CY == 0 ==> nanc(z, quo00, F, InvalidOperation | DivisionUndefined)
ensures !bad && ff && CX != 0 && CY == 0 ==> nanc(z, remx0, F, InvalidOperation | DivisionByZero)
ensures !bad && ff && CX == 0 && CY != 0 ==> sgnform(z.form) && (z.form[0] <==> fx[0]) && C(z) == 0 && z.exp == min(ex, ey) && FLAGS(z) == F
ensures !bad && ff && CX != 0 && CY != 0 && ndig(Q) > prec(c) ==> z.form == qnan && FLAGS(z) == F | DivisionImpossible
ensures !bad && ff && CX != 0 && CY != 0 && ndig(Q) <= prec(c) ==> outcome(z, c, mod(X, Y), min(ex, ey), fx[0], cutop(c, mod(X, Y), min(ex, ey)), F)

func decimal.Context.QuoRem
alias r : fresh | x | y
requires wf(r) && okctx(r.Context)
requires operand(x) && operand(y) && wf(z) && usable(c)
let bad = badctx(c)
let fx = old(x.form)
let fy = old(y.form)
let finx = old(fin(x))
let finy = old(fin(y))
let ff = finx && finy
let CX = old(C(x))
let CY = old(C(y))
let ex = old(x.exp)
let ey = old(y.exp)
let X = CX*P(ex-min(ex,ey))
let Y = CY*P(ey-min(ex,ey))
let Q = idiv(X, Y)
let neg = fx[0] != fy[0]
let F = old(FLAGS(z))
let G = old(FLAGS(r))
let nans = fx[2] || fx[3] || fy[2] || fy[3]
let imp = ex + ndig(CX) - ey - ndig(CY) > prec(c)
case bad
case !finx
case !finy
case CY == 0
case CX == 0
case imp && ex >= ey
case imp
case ex == ey
case ex > ey
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions, r.form, r.compact, r.unscaled, r.precision, r.exp, r.Context.Conditions
maypanic (goctx(z) || goctx(r)) && (bad || nans || fx[1] && fy[1] || ff && CY == 0 && CX == 0 || ff && CY != 0 && CX != 0 && imp)
returns 0: z
returns 1: r
ensures wf(z) && wf(r)
ensures bad ==> invctx(z, F) && invctx(r, G)
ensures !bad && nans ==> nanof2(z, fx, fy, F) && z.compact == division && isnan(r)
ensures !bad && fx[1] && fy[1] ==> nanc(z, quoinfinf, F, InvalidOperation) && isnan(r)
ensures !bad && fx[1] && finy ==> z.form == ite(neg, ninf, pinf) && FLAGS(z) == F && r.form == ite(fx[0], ninf, pinf) && FLAGS(r) == G
ensures !bad && ff && CX == 0 && CY == 0 ==> nanc(z, quo00, F, InvalidOperation | DivisionUndefined) && nanc(r, quo00, G, InvalidOperation | DivisionUndefined)
ensures !bad && ff && CX != 0 && CY == 0 ==> z.form == ite(neg, ninf, pinf) && FLAGS(z) == F | DivisionByZero && r.form == ite(fx[0], ninf, pinf) && FLAGS(r) == G | DivisionByZero
ensures !bad && ff && CX == 0 && CY != 0 ==> zeroout(z, c, 0, F) && (z.form[0] <==> neg) && zeroout(r, c, min(ex, ey), G) && (r.form[0] <==> fx[0])
ensures !bad && ff && CX != 0 && CY != 0 && imp ==> nanc(z, quorem_, F, DivisionImpossible) && nanc(r, quorem_, G, DivisionImpossible)
ensures !bad && ff && CX != 0 && CY != 0 && !imp ==> sgnform(z.form) && (z.form[0] <==> neg) && wfc(z) && C(z) == Q && z.exp == 0 && FLAGS(z) == F && sgnform(r.form) && (r.form[0] <==> fx[0]) && wfc(r) && C(r) == mod(X, Y) && r.exp == min(ex, ey) && FLAGS(r) == G
