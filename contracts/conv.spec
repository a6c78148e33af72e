// Conversions to integers.

func decimal.scalex
requires 0-EBX <= scale && scale <= EBX
ensures result1 <==> x == 0 || scale <= 0 || scale < 20 && x*P(scale) < two(64)
ensures result1 ==> result0 == ite(scale > 0, x*P(scale), idiv(x, P(0-scale)))

func decimal.bigScalex
alias x : fresh | z
requires 0-EBX <= scale && scale <= EBX
modifies z
returns z
ensures z == ite(scale > 0, old(x)*P(scale), ite(old(x) < 0, 0-idiv(0-old(x), P(0-scale)), idiv(old(x), P(0-scale))))

// the integer part of |x|
def ipart(x) = ite(x.exp >= 0, C(x)*P(x.exp), idiv(C(x), P(0-x.exp)))

func decimal.Big.Int
alias z : fresh | nil
requires wf(x) && (fin(x) ==> expok2(x))
modifies z
returns z | fresh
ensures fin(x) ==> result == sg(x)*ipart(x)

func decimal.Big.Int64
wraps
requires wf(x) && (fin(x) ==> expok2(x))
ensures result1 <==> fin(x) && 0-two(63) <= sg(x)*ipart(x) && sg(x)*ipart(x) < two(63)
ensures result1 ==> result0 == sg(x)*ipart(x)

func decimal.Big.Uint64
requires wf(x) && (fin(x) ==> expok2(x))
ensures result1 <==> fin(x) && !x.form[0] && ipart(x) < two(64)
ensures result1 ==> result0 == ipart(x)

lemma notint(V, v, k, n)
requires V >= 1 && v >= 1 && v*P(k) == V && 0 <= k && k < n
requires mod(v, 10) != 0
let q = idiv(V, P(n))
step mod(V, P(n)) == 0 ==> v == 10*q*P(n-k-1)
ensures mod(V, P(n)) != 0

lemma anint(V, v, k, n)
requires V >= 1 && v >= 1 && v*P(k) == V && 0 <= n && n <= k
step isint(P(k-n)) && isint(v*P(k-n))
step V == v*P(k-n)*P(n)
ensures mod(V, P(n)) == 0

func decimal.Big.IsInt
requires wf(x) && (fin(x) ==> expok2(x))
case !fin(x)
case C(x) == 0 || x.exp >= 0
case 0-x.exp >= ndig(C(x))
let V = C(x)
let n = 0-x.exp
loop 0
invariant v >= 1 && v*P(exp - x.exp) == V && exp >= x.exp && v < two(64) && ndig(v) + exp - x.exp == ndig(V)
use notint(V, v, exp - x.exp, n) when mod(v, 10) != 0 && exp < 0
use anint(V, v, exp - x.exp, n) when exp >= 0
decreases v
loop 1
invariant v >= 1 && v*P(exp - x.exp) == V && exp >= x.exp && ndig(v) + exp - x.exp == ndig(V)
modifies v, r
use notint(V, v, exp - x.exp, n) when mod(v, 10) != 0 && exp < 0
use anint(V, v, exp - x.exp, n) when exp >= 0
decreases v
ensures result <==> fin(x) && (x.exp >= 0 || mod(C(x), P(0-x.exp)) == 0)

func decimal.Big.Rat
alias z : fresh | nil
requires wf(x) && (fin(x) ==> expok2(x))
modifies z
returns z | fresh
case !fin(x)
case x.exp >= 0 && x.form[0]
case x.exp >= 0
case x.form[0]
ensures fin(x) ==> result.b >= 1
ensures fin(x) && x.exp >= 0 ==> result.a == sg(x)*C(x)*P(x.exp)*result.b
ensures fin(x) && x.exp < 0 ==> result.a*P(0-x.exp) == sg(x)*C(x)*result.b
