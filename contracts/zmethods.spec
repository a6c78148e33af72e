// The methods of Big are those of its own context.

func decimal.Big.Abs
like decimal.Context.Abs
let c = old(z.Context)

func decimal.Big.Add
like decimal.Context.Add
let c = old(z.Context)

func decimal.Big.FMA
like decimal.Context.FMA
let c = old(z.Context)

func decimal.Big.Mul
like decimal.Context.Mul
let c = old(z.Context)

func decimal.Big.Neg
like decimal.Context.Neg
let c = old(z.Context)

func decimal.Big.Quantize
like decimal.Context.Quantize
let c = old(z.Context)

func decimal.Big.QuoInt
like decimal.Context.QuoInt
let c = old(z.Context)

func decimal.Big.QuoRem
like decimal.Context.QuoRem
let c = old(z.Context)

func decimal.Big.Reduce
like decimal.Context.Reduce
let c = old(z.Context)

func decimal.Big.Rem
like decimal.Context.Rem
let c = old(z.Context)

func decimal.Big.RoundToInt
like decimal.Context.RoundToInt
let c = old(z.Context)

func decimal.Big.Set
like decimal.Context.Set
let c = old(z.Context)

func decimal.Big.Sub
like decimal.Context.Sub
let c = old(z.Context)
