// Comparison.

func arith.Words
returns fresh
ensures nat(result) == x
trusted word arithmetic

func arith.CmpBits
ensures result == ite(nat(x) < nat(y), 0-1, ite(nat(x) > nat(y), 1, 0))
trusted word arithmetic

func decimal.copybits
returns fresh
ensures nat(result) == nat(x)
trusted word arithmetic

def cmp3(a, b) = ite(a < b, 0-1, ite(a > b, 1, 0))

// Different adjusted exponents decide.
lemma adjlt(A, a, B, b)
requires A >= 1 && B >= 1
requires a + ndig(A) < b + ndig(B)
requires a >= 0 && b >= 0
ensures A*P(a) < B*P(b)

func decimal.cmpabs
requires wf(x) && wf(y) && fin(x) && fin(y)
requires C(x) >= 1 && C(y) >= 1
requires expok2(x) && expok2(y)
let m = min(x.exp, y.exp)
ensures result == cmp3(C(x)*P(x.exp-m), C(y)*P(y.exp-m))

def sg(x) = ite(x.form[0], 0-1, 1)
def sgabs(x, b_abs) = ite(x.form[0] && !b_abs, 0-1, 1)
def isinf(x) = x.form[1]

func decimal.Big.ord
requires wf(x)
ensures fin(x) || isinf(x) ==> result == ite(isinf(x), 2*sgabs(x, abs), ite(C(x) == 0, 0, sgabs(x, abs)))

func decimal.cmp
alias y : fresh | x
requires wf(x) && wf(y)
requires expok2(x) && expok2(y)
let m = min(x.exp, y.exp)
let nn = !isnan(x) && !isnan(y)
case isnan(x) || isnan(y)
case isinf(x) || isinf(y)
ensures nn && (isinf(x) || isinf(y)) ==> result == cmp3(ite(isinf(x), sgabs(x, abs), 0), ite(isinf(y), sgabs(y, abs), 0))
ensures fin(x) && fin(y) ==> result == cmp3(sgabs(x, abs)*C(x)*P(x.exp-m), sgabs(y, abs)*C(y)*P(y.exp-m))
ensures isnan(x) || isnan(y) ==> result == 0

func decimal.Big.Cmp
alias y : fresh | x
requires wf(x) && wf(y)
requires expok2(x) && expok2(y)
let m = min(x.exp, y.exp)
let nn = !isnan(x) && !isnan(y)
ensures nn && (isinf(x) || isinf(y)) ==> result == cmp3(ite(isinf(x), sg(x), 0), ite(isinf(y), sg(y), 0))
ensures fin(x) && fin(y) ==> result == cmp3(sg(x)*C(x)*P(x.exp-m), sg(y)*C(y)*P(y.exp-m))
ensures isnan(x) || isnan(y) ==> result == 0

func decimal.Big.CmpAbs
alias y : fresh | x
requires wf(x) && wf(y)
requires expok2(x) && expok2(y)
let m = min(x.exp, y.exp)
let nn = !isnan(x) && !isnan(y)
ensures nn && (isinf(x) || isinf(y)) ==> result == cmp3(ite(isinf(x), 1, 0), ite(isinf(y), 1, 0))
ensures fin(x) && fin(y) ==> result == cmp3(C(x)*P(x.exp-m), C(y)*P(y.exp-m))
ensures isnan(x) || isnan(y) ==> result == 0

def rank(x, b_abs) = ite(isnan(x), ite(x.form[0] && !b_abs, 0-1, 1)*ite(x.form[3], 2, 1), 0)
func decimal.Big.ordTotal
requires wf(x)
ensures result == rank(x, abs)

func decimal.Big.CmpTotal
alias y : fresh | x
requires wf(x) && wf(y)
requires expok2(x) && expok2(y)
let m = min(x.exp, y.exp)
let nn = !isnan(x) && !isnan(y)
ensures !nn ==> result == cmp3(rank(x, false), rank(y, false))
ensures nn && (isinf(x) || isinf(y)) ==> result == cmp3(ite(isinf(x), sg(x), 0), ite(isinf(y), sg(y), 0))
ensures fin(x) && fin(y) ==> result == cmp3(sg(x)*C(x)*P(x.exp-m), sg(y)*C(y)*P(y.exp-m))

func decimal.Big.CmpTotalAbs
alias y : fresh | x
requires wf(x) && wf(y)
requires expok2(x) && expok2(y)
let m = min(x.exp, y.exp)
let nn = !isnan(x) && !isnan(y)
ensures !nn ==> result == cmp3(rank(x, true), rank(y, true))
ensures nn && (isinf(x) || isinf(y)) ==> result == cmp3(ite(isinf(x), 1, 0), ite(isinf(y), 1, 0))
ensures fin(x) && fin(y) ==> result == cmp3(C(x)*P(x.exp-m), C(y)*P(y.exp-m))
