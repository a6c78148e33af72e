#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": observe, "hook_needed": None}})


INP = ["inputs", "configurations"]
ANY = "every pair of finite operands (any coefficient size, exponent and sign), every valid context (precision, rounding mode, operating mode, exponent limits) and every aliasing of receiver and operands"

prop("C01", "Every result is in canonical representation",
     "Whatever operation, constructor, conversion or parser produced it, a finite Big has a non-negative coefficient, reports a Precision equal to the exact number of decimal digits of that coefficient, and stores the coefficient compactly whenever it fits (below 2^64-1).",
     INP + ["histories"], "all results of all operations on all operands, including receivers that held something else before and chains of operations",
     "Tests compare printed values on listed inputs; a stale digit count or a big-integer form of a small value prints correctly and only misbehaves in a later operation on particular operands.",
     ["big.go", "big_ctx.go", "util.go"],
     [("norm, setTriple, setZero, shiftl, shiftr, SetBigMantScale", "big.go, big_ctx.go")],
     ["Big.Precision", "Raw"],
     [("compact", "coefficient, or a marker that the big coefficient is used", "big.go Big"), ("precision", "digit count of the coefficient", "big.go Big")])
prop("C02", "Add and Sub return the correctly rounded exact sum",
     "For finite x and y and a valid context, Add and Sub store the exact sum or difference, with the smaller of the two exponents, rounded once to the context's precision in its rounding mode (left unrounded in Go mode or with unlimited precision). A zero result is negative only if both terms are, or if the terms cancel while rounding toward negative infinity.",
     INP, ANY,
     "The tests replay sampled vectors; the addition shortcuts for operands of very different magnitude, mixed compact and big coefficients and cancellation depend on combinations of digit counts, exponents, precision and mode that no list covers.",
     ["big_ctx.go"], [("Context.Add, Context.Sub, add, addCompact, addMixed, addBig, tryTinyAdd", "big_ctx.go")],
     ["Context.Add", "Context.Sub", "Big.Add", "Big.Sub"])
prop("C03", "Mul returns the correctly rounded exact product",
     "For finite x and y and a valid context, Mul stores the exact product x*y, with the sum of the exponents, rounded once to the context's precision in its rounding mode (left unrounded in Go mode or with unlimited precision), negative exactly if one operand is.",
     INP, ANY,
     "Overflow of the 64-bit fast path happens at particular operand pairs (products at 2^64-1 and 2^64) and rounding at particular digit counts; sampled vectors miss them.",
     ["big_ctx.go"], [("Context.Mul, mul", "big_ctx.go")], ["Context.Mul", "Big.Mul"])
prop("C04", "Quo returns the correctly rounded quotient",
     "For finite x and non-zero finite y and a valid context with limited precision, Quo stores the value of x/y rounded once to the context's precision in its rounding mode, provided the quotient is neither subnormal nor zero. With unlimited precision it stores the exact quotient, or NaN if x/y has no finite decimal expansion.",
     INP, ANY,
     "Correct rounding of a quotient depends on the remainder of a division of arbitrarily long integers; the boundary cases (exact halves, digit count of the integer quotient one off) are measure-zero among samples.",
     ["big_ctx.go"], [("Context.Quo, quo, quoBig", "big_ctx.go")], ["Context.Quo", "Big.Quo"])
prop("C05", "Integer division and remainder satisfy the division identity",
     "For finite x and non-zero finite y with a quotient that fits the precision, QuoInt stores the integer part of x/y (exponent 0) and Rem the exact remainder x - y*trunc(x/y) rounded to the context with the sign of x and the smaller exponent; QuoRem returns both. If the integer quotient has more digits than the precision, QuoInt and Rem store NaN and raise DivisionImpossible.",
     INP, ANY,
     "The identity couples two results for operands of arbitrary exponent distance; vectors sample neither the coefficient width boundaries nor aliased receivers.",
     ["big_ctx.go"], [("Context.QuoInt, Context.QuoRem, Context.Rem, quorem, quoremBig", "big_ctx.go")],
     ["Context.QuoInt", "Context.Rem", "Context.QuoRem", "Big.QuoInt", "Big.Rem", "Big.QuoRem"])
prop("C06", "FMA rounds only once",
     "For finite x, y and u and a valid context, FMA stores the exact x*y+u rounded once to the context's precision, also when the receiver is one of the operands, and raises exactly the conditions of that one rounding.",
     INP, "all finite triples, valid contexts and aliasings of receiver and operands",
     "A double rounding shows only when the first rounding lands exactly on a tie or boundary of the second.",
     ["big_ctx.go"], [("Context.FMA", "big_ctx.go")], ["Context.FMA", "Big.FMA"])
prop("C07", "Cmp and CmpAbs order by exact numerical value",
     "For operands that are not NaN, Cmp returns -1, 0 or +1 according to the exact numerical order of x and y (infinities beyond all finite values, -0 equal to 0, representation ignored), and CmpAbs does the same for their absolute values. The operands are not modified.",
     ["inputs"], "all pairs of finite and infinite operands, whatever their coefficients and exponents",
     "Comparison switches algorithm on representation, digit counts and exponents; a wrong branch is taken only for particular combinations (equal adjusted exponents, scaling past 64 bits).",
     ["big.go"], [("Big.Cmp, Big.CmpAbs, cmp, cmpabs", "big.go")], ["Big.Cmp", "Big.CmpAbs"])
prop("C08", "Total order ranks NaNs and agrees with Cmp",
     "CmpTotal orders -NaN < -sNaN < all numbers < sNaN < NaN, agrees with Cmp on operands that are not NaN, and never modifies its operands; CmpTotalAbs does the same ignoring signs.",
     ["inputs"], "all pairs of operands of every kind",
     "The ranking must hold for every pair of kinds and signs together with every numerical comparison.",
     ["big.go"], [("Big.CmpTotal, Big.CmpTotalAbs, ord", "big.go")], ["Big.CmpTotal", "Big.CmpTotalAbs"])
prop("C09", "Quantize and integral rounding give the requested exponent",
     "Quantize of a finite value gives the value rounded in the context's mode to exactly the requested scale, or NaN with InvalidOperation if that coefficient would exceed the precision or the exponent is outside the limits. RoundToInt, Floor and Ceil give the integral value demanded by the rounding mode, or by rounding toward negative or positive infinity, and leave values with non-negative exponent alone.",
     INP, "all finite values, requested scales and valid contexts",
     "Whether a carry adds a digit, and whether it still fits, depends on particular digit patterns.",
     ["big_ctx.go"], [("Context.Quantize, Context.RoundToInt, Context.Floor, Context.Ceil", "big_ctx.go")],
     ["Context.Quantize", "Context.RoundToInt", "Context.Floor", "Context.Ceil", "Big.Quantize", "Big.RoundToInt"])
prop("C10", "Rounding obeys the rounding mode exactly",
     "Rounding a finite value to n digits (Round, Set, Neg and Abs under a context) keeps the value if it has at most n digits and otherwise gives the n-digit decimal that the rounding mode selects from the exact discarded part, with its sign and, after a carry, its exponent adjusted. All seven rounding modes follow their definitions, for any number of discarded digits.",
     INP, "every finite value, precision, rounding mode and sign",
     "The decision depends on comparing an arbitrarily long discarded part with one half, and on parity and carries; tests cover short samples.",
     ["big_ctx.go", "big.go", "context.go"], [("Context.Round, Context.round, shiftr, needsInc, Context.Set, Context.Neg, Context.Abs", "big_ctx.go, context.go")],
     ["Context.Round", "Big.Round", "Context.Set", "Context.Neg", "Context.Abs"])
prop("C11", "Reduce keeps the value and removes exactly the trailing zeros",
     "Reduce rounds a finite value to the context and then gives the same number with no trailing zero in its coefficient, or a zero with exponent 0 and its sign kept.",
     INP, "every finite value and valid context",
     "Trailing zeros are removed in chunks by different code for small and big coefficients; only particular counts and sizes cross the boundaries.",
     ["big_ctx.go", "big.go"], [("Context.Reduce, simpleReduce", "big_ctx.go")], ["Context.Reduce", "Big.Reduce"])
prop("C12", "NaNs and infinities propagate by the standard's rules",
     "An arithmetic operation with a NaN operand gives a quiet NaN carrying the sign of the operand the standard selects (signaling before quiet, left before right), raising InvalidOperation exactly if one was signaling; invalid infinite or zero combinations give NaN with InvalidOperation; the other infinite cases give the mathematically determined infinity or zero. In Go mode a NaN result of an operation panics with ErrNaN instead.",
     INP, "all combinations of operand kinds and signs with arbitrary finite partners, entry conditions and contexts",
     "The table of kinds, signs, operations, modes and aliasings is large and vectors list a few entries of it.",
     ["big.go", "big_ctx.go"], [("checkNaNs, setNaN and the special-value branches of each operation", "big.go, big_ctx.go")],
     ["Context.Add", "Context.Sub", "Context.Mul", "Context.Quo", "Context.FMA", "Context.Rem"])
prop("C13", "Operands are never modified and aliasing never matters",
     "An operation writes only its receiver (and its second result): the other operands, their contexts and their storage are unchanged and share no storage with the result. Using the receiver as one or several of the operands gives the same result and conditions as using separate copies.",
     INP + ["histories"], "all operations, operands and aliasing patterns, including receivers that own big coefficients from earlier operations",
     "Sharing of big-integer storage is invisible until a later write, and each aliasing pattern meets each algorithm branch only on suitable operands.",
     ["big_ctx.go", "big.go", "util.go", "internal/arith/arith.go"], [("alias, copies in quo, quorem, FMA, add", "big_ctx.go, util.go")],
     ["all Context and Big methods with receivers"])
prop("C14", "Conditions are sticky and report exactly what happened",
     "An operation never clears a condition; it adds Rounded exactly if digits were discarded, Inexact exactly if a non-zero part was discarded, and Overflow, Underflow, Subnormal and Clamped exactly when the result required them. Operations that do not round add nothing for finite operands.",
     INP + ["histories"], "all operations on finite operands, contexts and conditions raised before",
     "Exactness of a flag is a statement about every input: a flag raised spuriously or missed shows only at the discarded digits concerned.",
     ["big_ctx.go", "context.go"], [("Context.finish, fix, round, shiftr", "big_ctx.go")], ["Big.Context.Conditions"])
prop("C15", "Conversions to integers truncate exactly",
     "Int, Int64 and Uint64 give the exact integer part of a finite value, and Int64 and Uint64 report failure exactly if that integer is out of range; Rat gives the exact value and IsInt reports exactly whether the value is an integer. The operand is not modified.",
     ["inputs"], "every finite value of any size and exponent, and special values",
     "Range boundaries and scaling with overflow are hit only by particular coefficient/exponent pairs.",
     ["big.go"], [("Big.Int, Big.Int64, Big.Uint64, Big.Rat, Big.IsInt, scalex, bigScalex", "big.go, util.go")],
     ["Big.Int", "Big.Int64", "Big.Uint64", "Big.Rat", "Big.IsInt"])
prop("C16", "Construction from Go numbers is exact",
     "New, SetUint64, SetMantScale, SetBigMantScale, SetFloat64 and SetFloat hold exactly the number they were given, for every argument including the extreme ones, and do not modify or share the argument. SetRat gives the correctly rounded quotient.",
     INP, "every argument: all int64 and uint64 values, big integers, floats and scales",
     "The extreme values of each type (minimum int64, the marker value 2^64-1, subnormal floats) are points among 2^64.",
     ["big.go", "big_ctx.go"], [("New, SetUint64, SetMantScale, SetBigMantScale, SetFloat64, SetFloat, SetRat", "big.go, big_ctx.go")],
     ["New", "Big.SetUint64", "Big.SetMantScale", "Big.SetBigMantScale", "Big.SetFloat64", "Big.SetFloat", "Big.SetRat"])
prop("C17", "Compose and Decompose are exact inverses",
     "Decompose yields form, sign, big-endian coefficient and exponent of exactly the value held, whatever buffer it is given, and Compose of such parts builds exactly that value without rounding. Compose reports unknown forms as errors and neither keeps nor changes the coefficient bytes.",
     ["inputs"], "all values, buffers and parts",
     "Buffer capacity, leading zeros and coefficient width interact; tests use a handful of values.",
     ["decomposer.go"], [("Big.Compose, Big.Decompose", "decomposer.go")], ["Big.Compose", "Big.Decompose"])
prop("C18", "Parsing accepts exactly the grammar and is exact",
     "SetString and UnmarshalText turn every string of the documented grammar whose exponent is representable into exactly the number (or special value with sign and payload) it denotes, regardless of length and of the receiver's previous value. Every other string yields a NaN with ConversionSyntax or an error.",
     ["inputs", "histories"], "all strings",
     "The set of strings is infinite; tests list a few valid ones.",
     ["scan.go", "big.go"], [("Big.SetString, scan, scanMant, scanExponent, scanForm", "scan.go")], ["Big.SetString", "Big.UnmarshalText", "Context.SetString"])
prop("C19", "Formatting and parsing round-trip",
     "In GDA mode String and MarshalText give the scientific string of the General Decimal Arithmetic specification, and parsing it gives back the identical datum: same kind, sign, coefficient, exponent and payload.",
     ["inputs"], "all values",
     "Placement of the decimal point depends on digit count and exponent together, for unbounded coefficients.",
     ["format.go", "big.go", "scan.go"], [("formatter.format, Big.String, Big.MarshalText", "format.go, big.go")], ["Big.String", "Big.MarshalText", "Big.SetString"])
prop("C20", "Copying and sign operations are exact and quiet",
     "Copy, Canonical, CopyAbs, CopyNeg, CopySign, SetSignbit, SetScale, SetInf and SetNaN give exactly the value they name - same coefficient, exponent, kind and payload with the sign demanded - without rounding and without raising any condition or touching the receiver's context settings.",
     ["inputs", "histories"], "all operands of every kind, all receivers",
     "Copying must preserve every digit of any coefficient into any receiver.",
     ["big.go"], [("Copy, CopyAbs, CopyNeg, CopySign, Canonical, SetSignbit, SetScale, SetInf, SetNaN", "big.go")],
     ["Big.Copy", "Big.CopyAbs", "Big.CopyNeg", "Big.CopySign", "Big.SetSignbit", "Big.SetScale", "Big.SetInf", "Big.SetNaN"])
prop("C21", "The exponent limits of the context are enforced",
     "With limits emin and emax in force, a rounded result whose adjusted exponent exceeds emax becomes the infinity or the largest finite number the rounding mode demands, with Overflow, Inexact and Rounded. A result with adjusted exponent below emin is rounded once to a multiple of 10^(emin-precision+1) with Subnormal (and Underflow if inexact), and zeros are clamped into the exponent range.",
     INP, "add, sub, mul, fma, neg, abs, set, round on all operands with all limits; overflow for quo",
     "Only operands whose result lies within a unit of a limit exercise the boundary, and tests rarely set limits.",
     ["big_ctx.go", "context.go"], [("Context.finish, Context.fix", "big_ctx.go")], ["Context.Add", "Context.Mul", "Context.Set", "Context.Round"])
prop("C22", "The integer kernel is exact",
     "Digit counting, powers of ten, scaling by powers of ten, comparison and the mixed big/small additions, subtractions and products of the internal integer kernel equal the mathematical functions for every argument, and never modify their operands or the shared power tables.",
     ["inputs", "histories", "schedules"], "all uint64 and big-integer arguments, all receivers (aliased or not), all states of the power table",
     "Everything above relies on these functions; off-by-one digit counts occur at single points such as 10^k-1.",
     ["internal/arith/arith.go", "internal/arith/pow.go", "internal/arith/intlen.go", "internal/arith/abs.go"],
     [("Length, BigLength, Pow10, BigPow10, MulPow10, MulBigPow10, Add, Sub, Mul, Set, Cmp, CmpShift, CmpBits", "internal/arith")],
     ["arith.Length", "arith.BigLength", "arith.Pow10", "arith.BigPow10", "arith.Add", "arith.Sub", "arith.Mul"])
prop("C23", "Err reports exactly the trapped conditions",
     "Context.Err returns nil if no raised condition is trapped and otherwise exactly the set of conditions that are both raised and trapped.",
     INP, "all combinations of conditions and traps", "2^28 combinations; tests use a few.",
     ["context.go"], [("Context.Err", "context.go")], ["Context.Err"])
prop("C24", "Invalid contexts are rejected, not used",
     "An arithmetic operation under a context with a precision, rounding mode, operating mode or exponent limit outside its documented range gives NaN and raises InvalidContext, whatever the operands are.",
     ["configurations", "inputs"], "all contexts outside the documented ranges, all operands",
     "The space of invalid contexts is unbounded and tests contain none.",
     ["util.go", "big_ctx.go", "context.go"], [("invalidContext", "util.go")], ["Context.Add", "Context.Mul", "Context.Quo", "Context.Quantize"])
prop("C25", "Classification is consistent",
     "For every value exactly one of finite, infinite and NaN holds; Sign, Signbit, IsInf, IsNaN, IsNormal, IsSubnormal and Class agree with the value's kind, sign and adjusted exponent relative to the context's minimum.",
     INP, "all values and limits", "The boundary between normal and subnormal is a single exponent for each digit count and context.",
     ["big.go"], [("Class, IsFinite, IsInf, IsNaN, IsNormal, IsSubnormal, Sign, Signbit", "big.go")],
     ["Big.Class", "Big.IsFinite", "Big.IsInf", "Big.IsNaN", "Big.IsNormal", "Big.IsSubnormal", "Big.Sign"])
prop("C26", "NextPlus and NextMinus give the adjacent value",
     "In GDA mode with limited precision, NextPlus gives the smallest representable number greater than x in the context and NextMinus the largest smaller one, raising no condition for operands that are not signaling.",
     INP, "all values and contexts", "Neighbours at powers of ten, at zero and at the limits are singular points.",
     ["big_ctx.go"], [("Context.NextPlus, Context.NextMinus", "big_ctx.go")], ["Context.NextPlus", "Context.NextMinus"])
prop("C27", "Max and Min return the right argument",
     "Max and Min (and MaxAbs, MinAbs) return one of their arguments, and it is the numerically largest or smallest (by absolute value) among arguments that are not NaN.",
     ["inputs"], "all argument lists", "Any pair of operands may meet a wrong comparison branch.",
     ["big.go"], [("Max, Min, MaxAbs, MinAbs", "big.go")], ["Max", "Min", "MaxAbs", "MinAbs"])
prop("C30", "Sqrt and Hypot are correctly rounded",
     "Sqrt gives the square root of a non-negative finite value correctly rounded (half even) to the context's precision.",
     INP, "all non-negative values and precisions", "Correct rounding at any precision is not testable by samples.",
     ["big_ctx.go", "sqrt.go"], [("Context.Sqrt", "big_ctx.go")], ["Context.Sqrt"])
prop("C31", "Transcendental functions are accurate to the precision",
     "Exp, Log, Log10, Sin, Cos, Tan, Asin, Acos, Atan, Atan2 and Pi are within one unit in the last place of the exact value at every precision.",
     INP, "all arguments in the domains and all precisions", "Accuracy at every precision is unbounded.",
     ["big_ctx.go", "math/"], [("continued fractions and series", "big_ctx.go, math")], ["Context.Exp", "Context.Log", "Context.Sin"])
prop("C32", "Pow equals repeated multiplication for integer exponents",
     "For integer exponents Pow gives x^y correctly rounded to within one unit in the last place.",
     INP, "all bases, integer exponents and contexts", "Error accumulates over a number of steps that depends on the exponent.",
     ["big_ctx.go"], [("Context.Pow, powToInt, powInt", "big_ctx.go")], ["Context.Pow"])
prop("C33", "Float64 and Float32 give the nearest float",
     "Float64 and Float32 return the floating-point number nearest to the decimal and report exactly whether it is equal.",
     ["inputs"], "all values", "Correct rounding to binary for all decimals.",
     ["big.go"], [("Big.Float64, Big.Float32", "big.go")], ["Big.Float64", "Big.Float32"])
prop("C34", "fmt verbs print the documented layout",
     "Formatting with the verbs %s, %e, %f, %g and flags prints the value with the requested width, precision and layout.",
     ["inputs"], "all values, verbs, flags, widths and precisions", "Unbounded combinations.",
     ["format.go", "big.go"], [("Big.Format", "big.go")], ["Big.Format"])
prop("C35", "The PostgreSQL adapter enforces its length limits",
     "Values written through the adapter never exceed PostgreSQL's integral and fractional digit limits, and anything it accepts scans back unchanged.",
     ["inputs", "configurations"], "all values and limits", "Length limits interact with every exponent and digit count.",
     ["sql/postgres/decimal.go"], [("Decimal.Value, Decimal.Scan", "sql/postgres")], ["postgres.Decimal.Value", "postgres.Decimal.Scan"])
prop("C36", "Concurrent use of shared operands is safe",
     "Operations on distinct receivers may run concurrently on shared read-only operands: the shared power and constant tables grow without data races and always hold the right values.",
     ["schedules"], "all interleavings of concurrent operations", "Tests run sequentially.",
     ["internal/arith/pow.go", "math/"], [("growBigTen, bigPow10Tab", "internal/arith/pow.go")], ["all operations"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
