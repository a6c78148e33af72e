// Fused multiply-add.

// the exponent at which BG * 10^eb + something tiny is replaced
def ntinyexp(c, n, e) = e - 1 + ite(n <= prec(c), n - prec(c) - 1, 0)
def nistiny(c, A, ea, B, eb) = A != 0 && eb + ndig(B) - 1 < ntinyexp(c, ndig(A), ea)
def halfexp(x) = fin(x) ==> 0 - EB/2 <= x.exp && x.exp <= EB/2

func decimal.Context.FMA
requires operand(x) && operand(y) && operand(z) && operand(u) && usable(c)
requires halfexp(x) && halfexp(y)
let bad = badctx(c)
let fx = old(x.form)
let fy = old(y.form)
let fu = old(u.form)
let finx = old(fin(x))
let finy = old(fin(y))
let finu = old(fin(u))
let M = old(C(x)*C(y))
let X = old(C(x))
let Y = old(C(y))
let U = old(C(u))
let em = old(x.exp) + old(y.exp)
let eu = old(u.exp)
let e = min(em, eu)
let neg = fx[0] != fy[0]
let N = ite(neg, 0-1, 1)*M*P(em-e) + s(fu)*U*P(eu-e)
let V = abs(N)
let F = old(FLAGS(z))
let nanxy = fx[2] || fx[3] || fy[2] || fy[3]
let sigxy = fx[2] || fy[2]
let bad0 = fx[1] && finy && Y == 0 || fy[1] && finx && X == 0
let infxy = !nanxy && !bad0 && (fx[1] || fy[1])
let nanu = fu[2] || fu[3]
let ff = finx && finy && finu
let rneg = ite(N == 0, neg && fu[0] || c.RoundingMode == ToNegativeInf && (neg || fu[0]), N < 0)
domain finx && finy ==> ndig(M) <= MAXP
domain ff ==> ndig(V) <= MAXP
domain ff && unlimited(c) && gda(c) ==> !ite(em >= eu, nistiny(c, M, em, U, eu), nistiny(c, U, eu, M, em))
case bad
case !finx
case !finy
case !finu
modifies z.form, z.compact, z.unscaled, z.precision, z.exp, z.Context.Conditions
maypanic (bad || nanxy || bad0 || nanu || infxy && fu[1] && neg != fu[0]) && goctx(z)
returns z
ensures wf(z)
ensures bad ==> invctx(z, F)
ensures !bad && sigxy ==> nanof2(z, fx, fy, F) && z.compact == multiplication
ensures !bad && nanxy && !sigxy && !fu[2] ==> z.form == ite(fx[3] && fx[0] || !fx[3] && fy[0], sqnan, qnan) && FLAGS(z) == F && z.compact == addition
ensures !bad && nanxy && !sigxy && fu[2] ==> nanof(z, fu, F) && z.compact == addition
ensures !bad && !nanxy && bad0 ==> z.form == qnan && FLAGS(z) == F | InvalidOperation && z.compact == mul0inf
ensures !bad && !nanxy && !bad0 && nanu ==> nanof(z, fu, F) && z.compact == addition
ensures !bad && infxy && fu[1] && neg != fu[0] ==> z.form == qnan && FLAGS(z) == F | InvalidOperation && z.compact == addinfinf
ensures !bad && infxy && !nanu && (!fu[1] || neg == fu[0]) ==> z.form == ite(neg, ninf, pinf) && FLAGS(z) == F
ensures !bad && finx && finy && fu[1] ==> z.form == fu && FLAGS(z) == F
ensures !bad && ff ==> outcome(z, c, V, e, rneg, cutop(c, V, e), F)
