// Contracts for internal/arith.

func arith.Length
ensures result == ndig(x)

func arith.BigLength
domain bitlen(abs(x)) <= 2000000000
ensures result == ndig(abs(x))
ensures 1 <= result && result <= 2000000000

func arith.Pow10
ensures result0 == ite(e < 20, P(e), 0)
ensures result1 <==> e < 20

func arith.Pow10Int
ensures result0 == ite(e < 19, P(e), 0)
ensures result1 <==> e < 19

func arith.Safe
ensures result <==> e < 20

func arith.BigPow10
returns ro
ensures result == P(n)
trusted table of powers of ten (init and growBigTen)

func arith.Abs
wraps
ensures result == abs(x)

func arith.Cmp
ensures result == ite(x < y, 0-1, ite(x > y, 1, 0))

func arith.CmpShift
ensures result == ite(x < y*shift, 0-1, ite(x > y*shift, 1, 0))

func arith.MulPow10
ensures result1 <==> (x * P(n) < two(64) || x == 0 ) && (n < 20 || x == 0)
ensures result1 ==> result0 == x * P(n)

func arith.MulBigPow10
alias x : fresh | z
modifies z
returns z
ensures z == old(x) * P(n)

func arith.PowOfTen
ensures result <==> x == P(ndig(x)-1)

func arith.Add
requires x >= 0
alias x : fresh | z
modifies z
returns z
ensures z == old(x) + y
trusted word arithmetic

func arith.Sub
requires x >= y
alias x : fresh | z
modifies z
returns z
ensures z == old(x) - y
trusted word arithmetic

func arith.Mul
requires x >= 0
alias x : fresh | z
modifies z
returns z
ensures z == old(x) * y
trusted word arithmetic

func arith.Set
modifies z
returns z
ensures z == z1 * two(64) + z0
trusted word arithmetic

func arith.PowOfTenBig
requires x >= 0
domain bitlen(x) <= 2000000000
case x == 0
case odd(x)
loop 0
invariant (len >= 19 || len == ndig(x)) && len <= ndig(x) && x >= 1 && q >= 1 && ndig(q) == len && q * P(ndig(x) - len) == x
modifies q
decreases len
ensures result <==> x == 0 || x == P(ndig(x)-1)
