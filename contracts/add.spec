// Context.Add and Context.Sub.

// Rounding 10A*10^g + B at digit k+g and 10A+1 at digit k agrees for 0 < B < 10^g:
// same quotient, both inexact, same side of one half and never on it.
lemma tinyplus(A, T, V, B, g, k)
requires A >= 1 && g >= 1 && k >= 1 && 1 <= B && B < P(g)
requires T == 10*A + 1 && V == 10*A*P(g) + B
let q = idiv(T, P(k))
let r = T - q*P(k)
step isint(P(k-1)) && isint(q*P(k-1)) && isint(P(k))
step 0 <= r && r < P(k)
step r == 10*(A - q*P(k-1)) + 1
step r >= 1
step q*P(k+g) <= (T-1)*P(g)
step q*P(k+g) <= V
step T*P(g) <= (q+1)*P(k+g)
step V < (q+1)*P(k+g)
step idiv(V, P(k+g)) == q
step V - q*P(k+g) == (r-1)*P(g) + B
step 2*r > P(k) ==> 2*(r-1) >= P(k)
step 2*r > P(k) ==> 2*(r-1)*P(g) >= P(k+g)
step 2*r <= P(k) ==> 2*r*P(g) <= P(k+g)
step 2*r != P(k)
ensures idiv(V, P(k+g)) == idiv(T, P(k))
ensures mod(V, P(k+g)) > 0 && mod(T, P(k)) > 0
ensures 2*mod(T, P(k)) != P(k) && 2*mod(V, P(k+g)) != P(k+g)
ensures 2*mod(T, P(k)) > P(k) <==> 2*mod(V, P(k+g)) > P(k+g)

lemma tinyminus(A, T, V, B, g, k)
requires A >= 1 && g >= 1 && k >= 1 && 1 <= B && B < P(g)
requires T == 10*A - 1 && V == 10*A*P(g) - B
let q = idiv(T, P(k))
let r = T - q*P(k)
step isint(P(k-1)) && isint(q*P(k-1)) && isint(P(k))
step 0 <= r && r < P(k)
step r == 10*(A - q*P(k-1)) - 1
step r >= 1
step q*P(k+g) <= T*P(g)
step T*P(g) < V
step (T+1)*P(g) <= (q+1)*P(k+g)
step V < (q+1)*P(k+g)
step idiv(V, P(k+g)) == q
step V - q*P(k+g) == (r+1)*P(g) - B
step 2*r > P(k) ==> 2*r*P(g) >= P(k+g)
step 2*r <= P(k) ==> 2*(r+1) <= P(k)
step 2*r <= P(k) ==> 2*(r+1)*P(g) <= P(k+g)
step 2*r != P(k)
ensures idiv(V, P(k+g)) == idiv(T, P(k))
ensures mod(V, P(k+g)) > 0 && mod(T, P(k)) > 0
ensures 2*mod(T, P(k)) != P(k) && 2*mod(V, P(k+g)) != P(k+g)
ensures 2*mod(T, P(k)) > P(k) <==> 2*mod(V, P(k+g)) > P(k+g)

// The dropped term is zero: V = T*10^g.
lemma tinyzero(T, V, g, k)
requires T >= 1 && g >= 1 && k >= 1 && V == T*P(g)
let q = idiv(T, P(k))
let r = T - q*P(k)
step 0 <= r && r < P(k)
step q*P(k+g) <= V
step V < (q+1)*P(k+g)
step idiv(V, P(k+g)) == q
step V - q*P(k+g) == r*P(g)
step 2*r > P(k) ==> 2*r*P(g) > P(k+g)
step 2*r < P(k) ==> 2*r*P(g) < P(k+g)
step 2*r == P(k) ==> 2*r*P(g) == P(k+g)
ensures idiv(V, P(k+g)) == idiv(T, P(k))
ensures mod(V, P(k+g)) > 0 <==> mod(T, P(k)) > 0
ensures 2*mod(T, P(k)) > P(k) <==> 2*mod(V, P(k+g)) > P(k+g)
ensures 2*mod(T, P(k)) == P(k) <==> 2*mod(V, P(k+g)) == P(k+g)

def alike(V, T, g, k) = idiv(V, P(k+g)) == idiv(T, P(k)) && (mod(V, P(k+g)) > 0 <==> mod(T, P(k)) > 0) && (2*mod(T, P(k)) > P(k) <==> 2*mod(V, P(k+g)) > P(k+g)) && (2*mod(T, P(k)) == P(k) <==> 2*mod(V, P(k+g)) == P(k+g))

// a sum of two signed terms, the first dominating
lemma signsum(a, b, N, b_x, b_y)
requires a > b && b >= 0
requires N == ite(b_x, 0-1, 1)*a + ite(b_y, 0-1, 1)*b
case b_x && b_y
case b_x
case b_y
ensures abs(N) == a + ite(b_x == b_y, 1, 0-1)*b
ensures N != 0 && (N < 0 <==> b_x)

// the shortened sum T is rounded like the true one V
lemma tinyall(BG, SM, d, g, p, k, T, V, b_same)
requires BG >= 1 && d >= 0 && p >= 1 && g >= 1 && 0 <= SM && SM < P(g) && k >= 1
requires ndig(BG) + d >= p + 1
requires T == 10*BG*P(d) + ite(b_same, 1, 0-1)*ite(SM == 0, 0, 1)
requires V == BG*P(d+1+g) + ite(b_same, 1, 0-1)*SM
case SM == 0
case b_same
let A = BG*P(d)
step A >= 1 && T >= 1 && V >= 1 && V == 10*A*P(g) + ite(b_same, 1, 0-1)*SM
step isint(A)
step ndig(A) == ndig(BG) + d
step ndig(10*A) == ndig(BG) + d + 1
let n = ndig(T)
step n >= p + 1
step P(n-1) <= T && T+1 <= P(n)
step b_same ==> P(n-1) <= 10*A
step P(n-1)*P(g) <= V
step b_same || SM == 0 ==> V < (T+1)*P(g)
step V < P(n)*P(g)
step ndig(V) == n + g
use tinyplus(A, T, V, SM, g, k) when SM != 0 && b_same
use tinyminus(A, T, V, SM, g, k) when SM != 0 && !b_same
use tinyzero(T, V, g, k) when SM == 0
ensures T >= 1 && V >= 1 && ndig(V) == ndig(T) + g && ndig(T) >= p + 1
ensures alike(V, T, g, k)

lemma rqalike(V, T, g, k, m, b_neg)
requires k >= 1 && g >= 1 && V >= 1 && T >= 1
requires alike(V, T, g, k)
ensures rq(m, V, P(k+g), b_neg) == rq(m, T, P(k), b_neg)
ensures mod(V, P(k+g)) == 0 <==> mod(T, P(k)) == 0

// What finish makes of T*10^E is what it would have made of V*10^e.
lemma tinyfin(z *Big, c Context, T, nT, V, nV, E, e, kT, kV, b_neg, F Condition, RT, RV, b_xT, b_xV, ST, SV, b_yT, b_yV)
requires T >= 1 && V >= 1 && e + nV == E + nT && E > e
requires kT >= 1 && e + kV == E + kT && RT == RV && (b_xT <==> b_xV)
requires e + nV - 1 >= emin(c)
requires outc(z, c, T, nT, E, b_neg, kT, F, RT, b_xT, ST, b_yT)
ensures outc(z, c, V, nV, e, b_neg, kV, F, RV, b_xV, SV, b_yV)

lemma tinysub(z *Big, c Context, T, nT, V, nV, E, e, kT, kV, b_neg, F Condition, RT, RV, b_xT, b_xV, ST, SV, b_yT, b_yV)
requires T >= 1 && V >= 1 && e + nV == E + nT && E > e
requires e + nV - 1 < emin(c) && E < etiny(c) && ST == SV && (b_yT <==> b_yV)
requires outc(z, c, T, nT, E, b_neg, kT, F, RT, b_xT, ST, b_yT)
ensures outc(z, c, V, nV, e, b_neg, kV, F, RV, b_xV, SV, b_yV)

lemma tinydone(z *Big, c Context, BG, SM, d, g, E, e, T, V, b_same, b_neg, F Condition)
requires okctx(c) && gda(c) && !unlimited(c)
requires BG >= 1 && d >= 0 && g >= 1 && e + g == E && 0 <= SM && SM < P(g)
requires ndig(BG) + d >= prec(c) + 1
requires T >= 10*BG*P(d) + ite(b_same, 1, 0-1)*ite(SM == 0, 0, 1)
requires T <= 10*BG*P(d) + ite(b_same, 1, 0-1)*ite(SM == 0, 0, 1)
requires V >= BG*P(d+1+g) + ite(b_same, 1, 0-1)*SM
requires V <= BG*P(d+1+g) + ite(b_same, 1, 0-1)*SM
requires outcome(z, c, T, E, b_neg, cutop(c, T, E), F)
let sub = e + ndig(V) - 1 < emin(c)
case e + ndig(V) - 1 < emin(c)
let kt = ndig(T) - prec(c)
let ks = etiny(c) - E
let cT = cutop(c, T, E)
let cV = cutop(c, V, e)
use tinyall(BG, SM, d, g, prec(c), 1, T, V, b_same)
step kt >= 1
step ndig(V) - prec(c) >= 1
step sub ==> ks >= 1
use tinyall(BG, SM, d, g, prec(c), kt, T, V, b_same) when !sub
use tinyall(BG, SM, d, g, prec(c), ks, T, V, b_same) when sub
use rqalike(V, T, g, kt, c.RoundingMode, b_neg) when !sub
use rqalike(V, T, g, ks, c.RoundingMode, b_neg) when sub
use tinyfin(z, c, T, ndig(T), V, ndig(V), E, e, cT, cV, b_neg, F, rnd(c, T, cT, b_neg), rnd(c, V, cV, b_neg), mod(T, P(cT)) == 0, mod(V, P(cV)) == 0, rnd(c, T, ks, b_neg), rnd(c, V, etiny(c)-e, b_neg), mod(T, P(ks)) == 0, mod(V, P(etiny(c)-e)) == 0) when !sub
use tinysub(z, c, T, ndig(T), V, ndig(V), E, e, cT, cV, b_neg, F, rnd(c, T, cT, b_neg), rnd(c, V, cV, b_neg), mod(T, P(cT)) == 0, mod(V, P(cV)) == 0, rnd(c, T, ks, b_neg), rnd(c, V, etiny(c)-e, b_neg), mod(T, P(ks)) == 0, mod(V, P(etiny(c)-e)) == 0) when sub
ensures outcome(z, c, V, e, b_neg, cutop(c, V, e), F)

lemma tinypre(BG, SM, eb, e, p, E)
requires BG >= 1 && SM >= 0 && p >= 1
requires E == eb - 1 + ite(ndig(BG) <= p, ndig(BG) - p - 1, 0)
requires e + ndig(SM) - 1 < E
step P(eb-e) > P(E-e)
step BG*P(eb-e) >= P(eb-e)
ensures E-e >= 1 && eb-E-1 >= 0 && SM < P(E-e) && ndig(BG) + eb-E-1 >= p + 1
ensures BG*P(eb-e) > SM

func decimal.Context.Add
requires operand(x) && operand(y) && operand(z) && usable(c)
let bad = badctx(c)
let fx = old(x.form)
let fy = old(y.form)
let ff = old(fin(x) && fin(y))
let ge = old(x.exp >= y.exp)
let X = old(C(x))
let Y = old(C(y))
let ex = old(x.exp)
let ey = old(y.exp)
let e = min(ex, ey)
let N = s(fx)*X*P(ex-e) + s(fy)*Y*P(ey-e)
let V = abs(N)
let F = old(FLAGS(z))
let tny = gda(c) && old(ite(ge, istiny(c, x, y), istiny(c, y, x)))
domain ff ==> ndig(V) <= MAXP
domain ff && unlimited(c) ==> !tny
let neg = ite(N == 0, fx[0] && fy[0] || c.RoundingMode == ToNegativeInf && (fx[0] || fy[0]), N < 0)
case badctx(c)
case !fin(x)
case !fin(y)
case tny && ge
case tny
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic (badctx(c) || isnan(x) || isnan(y) || x.form[1] && y.form[1] && x.form[0] != y.form[0]) && goctx(z)
returns z
// in the shortcut: big and small operand, T the value that was rounded
let E = old(ite(ge, tinyexp(c, x), tinyexp(c, y)))
let BG = ite(ge, X, Y)
let SM = ite(ge, Y, X)
let eb = max(ex, ey)
let sb = ite(ge, fx[0], fy[0])
let ss = ite(ge, fy[0], fx[0])
let d = eb - E - 1
let T = 10*BG*P(d) + ite(sb == ss, 1, 0-1)*ite(SM == 0, 0, 1)
let g = E - e
let t0 = !bad && ff && tny
use tinypre(BG, SM, eb, e, prec(c), E) when t0
use signsum(BG*P(eb-e), SM, N, sb, ss) when t0
use tinydone(z, c, BG, SM, d, g, E, e, T, V, sb == ss, N < 0, F) when t0
ensures wf(z)
ensures bad ==> invctx(z, F)
ensures !bad && ff ==> outcome(z, c, V, e, neg, cutop(c, V, e), F)
ensures !bad && (fx[2] || fx[3] || fy[2] || fy[3]) ==> nanof2(z, fx, fy, F) && z.compact == addition
ensures !bad && fx[1] && fy[1] && fx[0] != fy[0] ==> z.form == qnan && FLAGS(z) == F | InvalidOperation && z.compact == addinfinf
ensures !bad && fx[1] && (fy[1] && fx[0] == fy[0] || old(fin(y))) ==> z.form == fx && FLAGS(z) == F
ensures !bad && fy[1] && old(fin(x)) ==> z.form == fy && FLAGS(z) == F

func decimal.Context.Sub
requires operand(x) && operand(y) && operand(z) && usable(c)
let bad = badctx(c)
let fx = old(x.form)
let fy = old(y.form)
let ff = old(fin(x) && fin(y))
let ge = old(x.exp >= y.exp)
let X = old(C(x))
let Y = old(C(y))
let ex = old(x.exp)
let ey = old(y.exp)
let e = min(ex, ey)
let N = s(fx)*X*P(ex-e) + ite(!fy[0], 0-1, 1)*Y*P(ey-e)
let V = abs(N)
let F = old(FLAGS(z))
let tny = gda(c) && old(ite(ge, istiny(c, x, y), istiny(c, y, x)))
domain ff ==> ndig(V) <= MAXP
domain ff && unlimited(c) ==> !tny
let neg = ite(N == 0, fx[0] && !fy[0] || c.RoundingMode == ToNegativeInf && (fx[0] || !fy[0]), N < 0)
case badctx(c)
case !fin(x)
case !fin(y)
case tny && ge
case tny
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic (badctx(c) || isnan(x) || isnan(y) || x.form[1] && y.form[1] && x.form[0] == y.form[0]) && goctx(z)
returns z
// in the shortcut: big and small operand, T the value that was rounded
let E = old(ite(ge, tinyexp(c, x), tinyexp(c, y)))
let BG = ite(ge, X, Y)
let SM = ite(ge, Y, X)
let eb = max(ex, ey)
let sb = ite(ge, fx[0], !fy[0])
let ss = ite(ge, !fy[0], fx[0])
let d = eb - E - 1
let T = 10*BG*P(d) + ite(sb == ss, 1, 0-1)*ite(SM == 0, 0, 1)
let g = E - e
let t0 = !bad && ff && tny
use tinypre(BG, SM, eb, e, prec(c), E) when t0
use signsum(BG*P(eb-e), SM, N, sb, ss) when t0
use tinydone(z, c, BG, SM, d, g, E, e, T, V, sb == ss, N < 0, F) when t0
ensures wf(z)
ensures bad ==> invctx(z, F)
ensures !bad && ff ==> outcome(z, c, V, e, neg, cutop(c, V, e), F)
ensures !bad && (fx[2] || fx[3] || fy[2] || fy[3]) ==> nanof2(z, fx, fy, F) && z.compact == subtraction
ensures !bad && fx[1] && fy[1] && fx[0] == fy[0] ==> z.form == qnan && FLAGS(z) == F | InvalidOperation && z.compact == subinfinf
ensures !bad && fx[1] && (fy[1] && fx[0] != fy[0] || old(fin(y))) ==> z.form == fx && FLAGS(z) == F
ensures !bad && fy[1] && old(fin(x)) ==> z.form == ite(fy[0], pinf, ninf) && FLAGS(z) == F
