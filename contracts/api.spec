// Special operands, construction, sign and copy operations, classification.

def badctx(c) = c.Precision < 0 || c.Precision > UnlimitedPrecision || c.RoundingMode >= unnecessary || c.OperatingMode > Go || c.MaxScale > cst.MaxScale || c.MinScale < 0-cst.MaxScale

func decimal.Big.invalidContext
requires wf(z)
case badctx(c)
modifies z.form, z.compact, z.Context.Conditions
maypanic badctx(c) && goctx(z)
keeps !badctx(c)
ensures result <==> badctx(c)
ensures result ==> z.form == qnan && FLAGS(z) == old(FLAGS(z)) | InvalidContext
ensures wf(z)

func decimal.Big.checkNaNs
alias y : fresh | nil | x | z
requires wf(x)
let xn = isnan(x)
let yn = !isnil(y) && isnan(y)
let sig = x.form[2] || !isnil(y) && y.form[2]
let sgn = ite(isnil(y) || x.form[2] || !sig && x.form[3], x.form[0], y.form[0])
case xn
case yn
modifies z.form, z.compact, z.Context.Conditions
maypanic (xn || yn) && goctx(z)
keeps !xn && !yn
ensures result <==> old(xn) || old(yn)
ensures result ==> z.form == ite(old(sgn), sqnan, qnan) && z.compact == op
ensures result ==> FLAGS(z) == old(FLAGS(z)) | ite(old(sig), InvalidOperation, old(FLAGS(z)))

func decimal.Big.setZero
requires sgnform(sign)
modifies z.form, z.compact, z.precision, z.exp
returns z
ensures wfc(z) && C(z) == 0 && z.exp == exp && sgnform(z.form) && (z.form[0] <==> sign[0])

func decimal.Big.setTriple
requires sgnform(sign) && compact < cst.Inflated
modifies z.form, z.compact, z.precision, z.exp
returns z
ensures wfc(z) && C(z) == compact && z.exp == exp && sgnform(z.form) && (z.form[0] <==> sign[0])

func decimal.Big.SetUint64
modifies z.form, z.compact, z.unscaled, z.precision, z.exp
returns z
ensures wfc(z) && C(z) == x && z.exp == 0 && sgnform(z.form) && !z.form[0]

func decimal.Big.SetMantScale
requires 0-EB <= scale && scale <= EB
modifies z.form, z.compact, z.unscaled, z.precision, z.exp
returns z
ensures wfc(z) && C(z) == abs(value) && z.exp == 0-scale && sgnform(z.form) && (z.form[0] <==> value < 0)

func decimal.New
requires 0-EB <= scale && scale <= EB
returns fresh
ensures wfc(result) && C(result) == abs(value) && result.exp == 0-scale && sgnform(result.form) && (result.form[0] <==> value < 0)

func decimal.Big.SetInf
modifies z.form
returns z
ensures z.form == ite(signbit, ninf, pinf)

func decimal.Big.SetNaN
modifies z.form, z.compact
returns z
ensures z.form == ite(signal, snan, qnan) && z.compact == 0

func decimal.Big.SetScale
requires 0-EB <= scale && scale <= EB
modifies z.exp
returns z
ensures z.exp == 0-scale

func decimal.Big.Scale
requires expok(x)
ensures result == 0-x.exp

func decimal.Big.SetSignbit
modifies z.form
returns z
ensures z.form[0] <==> sign
ensures samekind(z, old(z.form))

def samekind(z, f) = (z.form[1] <==> f[1]) && (z.form[2] <==> f[2]) && (z.form[3] <==> f[3]) && (z.form[4] <==> f[4]) && (z.form[5] <==> f[5]) && (z.form[6] <==> f[6]) && (z.form[7] <==> f[7])
// z has the kind, coefficient, exponent and payload x had on entry (sign apart)
def copied(z, x) = samekind(z, old(x.form)) && (old(fin(x)) ==> C(z) == old(C(x)) && z.exp == old(x.exp)) && (old(isnan(x)) ==> z.compact == old(x.compact)) && (old(wf(x)) ==> wf(z))

func decimal.Big.copyAbs
requires wf(x)
modifies z.form, z.compact, z.unscaled, z.precision, z.exp
returns z
ensures copied(z, x) && !z.form[0]

func decimal.Big.CopyAbs
requires wf(x)
modifies z.form, z.compact, z.unscaled, z.precision, z.exp
returns z
ensures copied(z, x) && !z.form[0]

func decimal.Big.CopyNeg
requires wf(x)
modifies z.form, z.compact, z.unscaled, z.precision, z.exp
returns z
ensures copied(z, x) && (z.form[0] <==> !old(x.form[0]))

func decimal.Big.Copy
requires wf(x)
modifies z.form, z.compact, z.unscaled, z.precision, z.exp
returns z
ensures copied(z, x) && (z.form[0] <==> old(x.form[0]))

func decimal.Big.Canonical
requires wf(x)
modifies z.form, z.compact, z.unscaled, z.precision, z.exp
returns z
ensures copied(z, x) && (z.form[0] <==> old(x.form[0]))

func decimal.Big.CopySign
requires wf(x)
modifies z.form, z.compact, z.unscaled, z.precision, z.exp
returns z
ensures copied(z, x) && (z.form[0] <==> old(y.form[0]))

func decimal.Big.IsFinite
requires goodform(x)
ensures result <==> fin(x)

func decimal.Big.IsInf
requires goodform(x)
ensures result <==> x.form[1] && (sign == 0 || sign > 0 && !x.form[0] || sign < 0 && x.form[0])

func decimal.Big.IsNaN
requires goodform(x)
ensures result <==> quiet == 0 && isnan(x) || quiet > 0 && x.form[3] || quiet < 0 && x.form[2]

func decimal.Big.IsNormal
requires wf(x) && (fin(x) ==> expok(x))
ensures result <==> fin(x) && adj(x) >= emin(x.Context)

func decimal.Big.IsSubnormal
requires wf(x) && (fin(x) ==> expok(x))
ensures result <==> fin(x) && adj(x) < emin(x.Context)

func decimal.Big.Signbit
requires wf(x)
ensures result <==> x.form[0]

func decimal.Big.Sign
requires wf(x)
ensures result == ite(isnan(x) || fin(x) && C(x) == 0, 0, s(x.form))

func decimal.Big.Payload
requires wf(x)
ensures result == ite(isnan(x), x.compact, 0)

func decimal.Big.Mantissa
requires wf(x)
ensures result1 <==> fin(x) && C(x) < cst.Inflated
ensures result1 ==> result0 == C(x)

func decimal.Context.Err
ensures isnil(result) <==> c.Conditions & c.Traps == Rounded ^ Rounded
ensures !isnil(result) ==> dyn(result) == c.Conditions & c.Traps

func decimal.Context.precision
ensures result == prec(c)
