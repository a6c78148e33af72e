package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- expressions

type Expr struct {
	op   string // "num","id","call","sel","idx", or operator
	name string
	num  *big.Rat
	args []*Expr
	src  string
}

type lexer struct {
	toks []string
	pos  int
	src  string
}

func lex(s string) *lexer {
	l := &lexer{src: s}
	ops := []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "&^", "<<"}
	for i := 0; i < len(s); {
		c := rune(s[i])
		switch {
		case unicode.IsSpace(c):
			i++
		case unicode.IsLetter(c) || c == '_':
			j := i
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '\'') {
				j++
			}
			l.toks = append(l.toks, s[i:j])
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(s) && (unicode.IsDigit(rune(s[j])) || s[j] == 'e' || s[j] == 'x') {
				j++
			}
			l.toks = append(l.toks, s[i:j])
			i = j
		default:
			m := ""
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					m = o
					break
				}
			}
			if m == "" {
				m = string(c)
			}
			l.toks = append(l.toks, m)
			i += len(m)
		}
	}
	return l
}

func (l *lexer) peek() string {
	if l.pos < len(l.toks) {
		return l.toks[l.pos]
	}
	return ""
}
func (l *lexer) next() string { t := l.peek(); l.pos++; return t }
func (l *lexer) want(t string) {
	if g := l.next(); g != t {
		panic(fmt.Sprintf("spec: expected %q, got %q in %q", t, g, l.src))
	}
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"+": 6, "-": 6, "|": 6, "^": 6, "*": 7, "/": 7, "%": 7, "&": 7, "&^": 7, "<<": 7}

func parseExpr(s string) *Expr {
	l := lex(s)
	e := l.expr(1)
	if l.pos != len(l.toks) {
		panic(fmt.Sprintf("spec: trailing %q in %q", l.peek(), s))
	}
	e.src = strings.Join(strings.Fields(s), " ")
	return e
}

func (l *lexer) expr(min int) *Expr {
	lhs := l.unary()
	for {
		op := l.peek()
		p, ok := prec[op]
		if !ok || p < min {
			return lhs
		}
		l.next()
		var rhs *Expr
		if op == "==>" { // right associative
			rhs = l.expr(p)
		} else {
			rhs = l.expr(p + 1)
		}
		lhs = &Expr{op: op, args: []*Expr{lhs, rhs}}
	}
}

func (l *lexer) unary() *Expr {
	switch t := l.peek(); t {
	case "!", "-":
		l.next()
		return &Expr{op: "u" + t, args: []*Expr{l.unary()}}
	}
	e := l.primary()
	for {
		switch l.peek() {
		case ".":
			l.next()
			e = &Expr{op: "sel", name: l.next(), args: []*Expr{e}}
		case "[":
			l.next()
			i := l.expr(1)
			l.want("]")
			e = &Expr{op: "idx", args: []*Expr{e, i}}
		default:
			return e
		}
	}
}

func (l *lexer) primary() *Expr {
	t := l.next()
	if t == "(" {
		e := l.expr(1)
		l.want(")")
		return e
	}
	if t == "" {
		panic("spec: unexpected end in " + l.src)
	}
	c := rune(t[0])
	if unicode.IsDigit(c) {
		if n, ok := new(big.Int).SetString(t, 0); ok {
			return &Expr{op: "num", num: new(big.Rat).SetInt(n)}
		}
		r, ok := new(big.Rat).SetString(t)
		if !ok {
			panic("spec: bad number " + t)
		}
		return &Expr{op: "num", num: r}
	}
	if unicode.IsLetter(c) || c == '_' {
		if l.peek() == "(" {
			l.next()
			e := &Expr{op: "call", name: t}
			for l.peek() != ")" {
				e.args = append(e.args, l.expr(1))
				if l.peek() == "," {
					l.next()
				}
			}
			l.want(")")
			return e
		}
		return &Expr{op: "id", name: t}
	}
	panic(fmt.Sprintf("spec: unexpected %q in %q", t, l.src))
}

// ---------------------------------------------------------------- contracts

type Clause struct {
	tag  string
	name string
	e    *Expr
}

type LoopCon struct {
	uses []proofStep // lemmas instantiated at the head
	mods   []*Expr
	inv    []Clause
	dec    *Expr
	unroll bool
}

type Contract struct {
	fn       string
	requires []Clause
	domain   []Clause // assumed in the body, not checked at calls (listed as assumptions)
	ensures  []Clause
	modifies []*Expr
	returns  []*Expr // options for a pointer result; "fresh", "ro", "nil" or expressions
	retIdx   int
	splits   []*Expr
	cases    []*Expr // case distinction at entry: one job each, and a fork at call sites
	mayPanic *Expr
	trusted  string
	wraps    bool
	aliases  map[string]string // param -> restricted alias options
	noalias  bool
	apart    [][2]*Expr // pairs of locations that never coincide
	lets     map[string]*macro
	loops    map[int]*LoopCon
	inline   bool
	stale    bool
	shares   bool
	keeps    []keep
	lemma    bool
	lparams  []string // parameters of a lemma (mathematical integers)
	steps    []proofStep
	file     string
	retOpts  map[int][]*Expr
	like     string // contract this one repeats
}

// proofStep is a ghost step of a proof, taken before the postconditions:
// an assertion that is proved and then known, or the use of a lemma.
type proofStep struct {
	use  string
	args []*Expr
	cond *Expr
	e    *Expr
}

// keep: locations left alone when a condition holds at entry (all if none are named).
type keep struct {
	cond *Expr
	locs []*Expr
}

func (c *Contract) loop(i int) *LoopCon { return c.loops[i] }

type macro struct {
	named  bool // introduce a name for the value
	params []string
	body   *Expr
}

type SpecFile struct {
	macros    map[string]*macro
	contracts map[string]*Contract
	order     []string
}

var clauseKW = map[string]bool{"func": true, "def": true, "defn": true, "requires": true, "domain": true, "ensures": true, "modifies": true, "returns": true,
	"split": true, "case": true, "maypanic": true, "trusted": true, "wraps": true, "alias": true, "noalias": true, "apart": true, "let": true, "loop": true,
	"invariant": true, "decreases": true, "inline": true, "shares": true, "keeps": true, "unroll": true, "lemma": true, "step": true, "use": true, "like": true}

func parseSpecs(dir string) (sf *SpecFile, err error) {
	sf = &SpecFile{macros: map[string]*macro{}, contracts: map[string]*Contract{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		sf.parse(filepath.Base(f), string(b))
	}
	for _, n := range sf.order {
		if c := sf.contracts[n]; c.like != "" {
			d := sf.contracts[c.like]
			if d == nil || d.like != "" {
				return nil, fmt.Errorf("%s: like %s", n, c.like)
			}
			c.requires = append(c.requires, d.requires...)
			c.domain = append(c.domain, d.domain...)
			c.ensures = append(c.ensures, d.ensures...)
			c.modifies = append(c.modifies, d.modifies...)
			c.cases, c.splits, c.mayPanic, c.noalias, c.apart, c.shares = d.cases, d.splits, d.mayPanic, d.noalias, d.apart, d.shares
			c.keeps, c.retOpts, c.aliases = d.keeps, d.retOpts, d.aliases
			for k, m := range d.lets {
				if c.lets[k] == nil {
					c.lets[k] = m
				}
			}
		}
	}
	return sf, nil
}

func (sf *SpecFile) parse(file, src string) {
	type stmt struct{ kw, rest string }
	var stmts []stmt
	for _, line := range strings.Split(src, "\n") {
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		t := strings.TrimSpace(line)
		if t == "" {
			continue
		}
		w := strings.Fields(t)[0]
		if clauseKW[w] {
			stmts = append(stmts, stmt{w, strings.TrimSpace(t[len(w):])})
		} else if len(stmts) > 0 {
			stmts[len(stmts)-1].rest += " " + t
		} else {
			panic("spec: stray line " + t)
		}
	}
	var c *Contract
	var lc *LoopCon
	for _, s := range stmts {
		switch s.kw {
		case "def", "let", "defn":
			i := strings.Index(s.rest, "=")
			for i >= 0 && (s.rest[i+1] == '=' || i > 0 && strings.ContainsRune("!<>=", rune(s.rest[i-1]))) {
				panic("spec: bad def " + s.rest)
			}
			head, body := strings.TrimSpace(s.rest[:i]), s.rest[i+1:]
			m := &macro{body: parseExpr(body), named: s.kw == "defn"}
			name := head
			if j := strings.Index(head, "("); j >= 0 {
				name = strings.TrimSpace(head[:j])
				for _, a := range strings.Split(strings.TrimSuffix(head[j+1:], ")"), ",") {
					m.params = append(m.params, strings.TrimSpace(a))
				}
			}
			if s.kw == "let" {
				c.lets[name] = m
			} else {
				sf.macros[name] = m
			}
		case "func":
			c = &Contract{fn: s.rest, lets: map[string]*macro{}, loops: map[int]*LoopCon{}, aliases: map[string]string{}, file: file, retOpts: map[int][]*Expr{}}
			lc = nil
			if sf.contracts[s.rest] != nil {
				panic("spec: duplicate contract " + s.rest)
			}
			sf.contracts[s.rest] = c
			sf.order = append(sf.order, s.rest)
		case "lemma":
			i := strings.Index(s.rest, "(")
			name := "lemma." + strings.TrimSpace(s.rest[:i])
			c = &Contract{fn: name, lemma: true, lets: map[string]*macro{}, loops: map[int]*LoopCon{}, aliases: map[string]string{}, file: file, retOpts: map[int][]*Expr{}}
			lc = nil
			for _, a := range strings.Split(strings.TrimSuffix(strings.TrimSpace(s.rest[i+1:]), ")"), ",") {
				c.lparams = append(c.lparams, strings.TrimSpace(a))
			}
			if sf.contracts[name] != nil {
				panic("spec: duplicate lemma " + name)
			}
			sf.contracts[name] = c
			sf.order = append(sf.order, name)
		case "like":
			c.like = s.rest
		case "step":
			c.steps = append(c.steps, proofStep{e: parseExpr(s.rest)})
		case "use":
			r := s.rest
			st := proofStep{}
			if i := strings.Index(r, " when "); i >= 0 {
				st.cond = parseExpr(r[i+6:])
				r = r[:i]
			}
			call := parseExpr(r)
			if call.op != "call" {
				panic("spec: bad use " + s.rest)
			}
			st.use, st.args = "lemma."+call.name, call.args
			if lc != nil {
				lc.uses = append(lc.uses, st)
				break
			}
			c.steps = append(c.steps, st)
		case "requires", "ensures", "invariant", "domain":
			cl := Clause{}
			r := s.rest
			if strings.HasPrefix(r, "@") {
				w := strings.Fields(r)[0]
				cl.tag = w[1:]
				r = strings.TrimSpace(r[len(w):])
			}
			cl.e = parseExpr(r)
			cl.name = cl.e.src
			switch s.kw {
			case "requires":
				c.requires = append(c.requires, cl)
			case "domain":
				c.domain = append(c.domain, cl)
			case "ensures":
				c.ensures = append(c.ensures, cl)
			default:
				lc.inv = append(lc.inv, cl)
			}
		case "modifies":
			for _, w := range splitTop(s.rest, ',') {
				if w = strings.TrimSpace(w); w == "" || w == "nothing" {
					continue
				}
				e := parseExpr(w)
				if lc != nil {
					lc.mods = append(lc.mods, e)
				} else {
					c.modifies = append(c.modifies, e)
				}
			}
		case "returns":
			// returns [i:] a | b
			r := s.rest
			idx := 0
			if i := strings.Index(r, ":"); i >= 0 {
				idx, _ = strconv.Atoi(strings.TrimSpace(r[:i]))
				r = r[i+1:]
			}
			for _, w := range splitTop(r, '|') {
				c.retOpts[idx] = append(c.retOpts[idx], parseExpr(strings.TrimSpace(w)))
			}
		case "split":
			c.splits = append(c.splits, parseExpr(s.rest))
		case "case":
			c.cases = append(c.cases, parseExpr(s.rest))
		case "maypanic":
			c.mayPanic = parseExpr(s.rest)
		case "trusted":
			c.trusted = s.rest
			if c.trusted == "" {
				c.trusted = "assumed"
			}
		case "wraps":
			c.wraps = true
		case "noalias":
			c.noalias = true
		case "apart":
			w := splitTop(s.rest, ',')
			c.apart = append(c.apart, [2]*Expr{parseExpr(w[0]), parseExpr(w[1])})
		case "inline":
			c.inline = true
		case "shares":
			c.shares = true
		case "keeps":
			k := keep{}
			r := s.rest
			if i := strings.LastIndex(r, ":"); i >= 0 {
				for _, w := range splitTop(r[i+1:], ',') {
					k.locs = append(k.locs, parseExpr(strings.TrimSpace(w)))
				}
				r = r[:i]
			}
			k.cond = parseExpr(r)
			c.keeps = append(c.keeps, k)
		case "alias":
			i := strings.Index(s.rest, ":")
			c.aliases[strings.TrimSpace(s.rest[:i])] = strings.TrimSpace(s.rest[i+1:])
		case "loop":
			n, err := strconv.Atoi(s.rest)
			if err != nil {
				panic("spec: bad loop " + s.rest)
			}
			lc = &LoopCon{}
			c.loops[n] = lc
		case "decreases":
			lc.dec = parseExpr(s.rest)
		}
	}
}

func splitTop(s string, sep rune) []string {
	var out []string
	d, last := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case sep:
			if d == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}

// ---------------------------------------------------------------- evaluation

type Env struct {
	ex    *Exec
	st    *State // state whose facts are used and whose heap is current
	pre   *State // heap at entry (old)
	isOld bool
	vars  map[string]Val // parameters and results
	frame *Frame         // for loop invariants: current locals
	con   *Contract
	pkg   *types.Package
	depth int
}

func (e *Env) child() *Env { c := *e; return &c }

type specErr struct{ msg string }

func specFail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (e *Env) heapState() *State {
	if e.isOld {
		return e.pre
	}
	return e.st
}

func (e *Env) Bool(x *Expr) *Fm {
	v := e.eval(x)
	b, ok := v.(BoolV)
	if !ok {
		specFail("not boolean: %s", exprStr(x))
	}
	return e.st.simp(b.f)
}

func (e *Env) Num(x *Expr) *Poly {
	return e.num(e.eval(x), x)
}

func (e *Env) num(v Val, x *Expr) *Poly {
	switch v := v.(type) {
	case IntV:
		return v.p
	case BigV:
		return v.v
	case BitsV:
		return e.ex.intOf(v)
	case PtrV:
		if b, ok := e.deref(v).(BigV); ok {
			return b.v
		}
	}
	specFail("not numeric (%T): %s", v, exprStr(x))
	return nil
}

func (e *Env) deref(p PtrV) Val {
	if p.obj == 0 {
		specFail("nil dereference in specification")
	}
	h := e.heapState()
	v, ok := h.heap[p.obj]
	if !ok {
		// object allocated after entry
		v, ok = e.st.heap[p.obj]
		if !ok {
			specFail("dangling pointer in specification")
		}
	}
	return e.ex.walk(e.st, v, p.path, nil)
}

func exprStr(x *Expr) string {
	switch x.op {
	case "num":
		return x.num.RatString()
	case "id":
		return x.name
	case "call":
		var s []string
		for _, a := range x.args {
			s = append(s, exprStr(a))
		}
		return x.name + "(" + strings.Join(s, ", ") + ")"
	case "sel":
		return exprStr(x.args[0]) + "." + x.name
	case "idx":
		return exprStr(x.args[0]) + "[" + exprStr(x.args[1]) + "]"
	}
	if strings.HasPrefix(x.op, "u") {
		return x.op[1:] + exprStr(x.args[0])
	}
	return "(" + exprStr(x.args[0]) + " " + x.op + " " + exprStr(x.args[1]) + ")"
}

func (e *Env) lookup(name string) (Val, bool) {
	if e.frame != nil && !e.isOld {
		for i := len(e.frame.allocs) - 1; i >= 0; i-- {
			if e.frame.allocs[i].name == name {
				return e.st.heap[e.frame.allocs[i].obj], true
			}
		}
	}
	if v, ok := e.vars[name]; ok {
		return v, true
	}
	switch name {
	case "true":
		return BoolV{tTrue}, true
	case "false":
		return BoolV{tFalse}, true
	}
	if e.pkg != nil {
		if o := e.pkg.Scope().Lookup(name); o != nil {
			return e.constObj(o)
		}
	}
	for _, p := range e.ex.p.tpkgs {
		if o := p.Scope().Lookup(name); o != nil {
			if v, ok := e.constObj(o); ok {
				return v, ok
			}
		}
	}
	return nil, false
}

func (e *Env) constObj(o types.Object) (Val, bool) {
	c, ok := o.(*types.Const)
	if !ok {
		if v, ok := o.(*types.Var); ok {
			for _, sp := range e.ex.p.pkgs {
				if g := sp.Var(v.Name()); g != nil && g.Object() == v {
					id := e.ex.v.globalObj(e.st, g)
					return e.st.heap[id], true
				}
			}
		}
		return nil, false
	}
	t := c.Type()
	if bits, _, ok := intType(t); ok {
		n := constInt(c.Val())
		if isBitsType(t) {
			return constBits(n, bits), true
		}
		return IntV{NumBig(n)}, true
	}
	if c.Val().Kind() == constant.Bool {
		return BoolV{BoolConst(constant.BoolVal(c.Val()))}, true
	}
	return nil, false
}

func (e *Env) eval(x *Expr) Val {
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > 200 {
		specFail("specification recursion")
	}
	switch x.op {
	case "num":
		return IntV{NumRat(x.num)}
	case "id":
		if v, ok := e.lookup(x.name); ok {
			return v
		}
		if m := e.con; m != nil && m.lets[x.name] != nil {
			return e.callMacro(m.lets[x.name], nil)
		}
		if m := e.ex.v.spec.macros[x.name]; m != nil && len(m.params) == 0 {
			return e.callMacro(m, nil)
		}
		specFail("unknown name %s", x.name)
	case "sel":
		if x.args[0].op == "id" {
			if pk := e.pkgByName(x.args[0].name); pk != nil {
				if _, isVar := e.lookup(x.args[0].name); !isVar {
					if v, ok := e.constObj(pk.Scope().Lookup(x.name)); ok {
						return v
					}
				}
			}
		}
		v := e.eval(x.args[0])
		if p, ok := v.(PtrV); ok {
			v = e.deref(p)
		}
		s, ok := v.(StructV)
		if !ok {
			specFail("field %s of %T", x.name, v)
		}
		u := s.t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == x.name {
				return s.f[i]
			}
		}
		specFail("no field %s", x.name)
	case "idx":
		v := e.eval(x.args[0])
		if b, ok := v.(BitsV); ok {
			c, ok := e.Num(x.args[1]).ConstInt()
			if !ok {
				specFail("bit index")
			}
			return BoolV{b.b[c.Int64()]}
		}
		if s, ok := v.(SliceV); ok {
			h := e.heapState()
			q, ok := h.heap[s.obj].(*SeqV)
			if !ok {
				specFail("index of opaque slice")
			}
			return IntV{q.read(e.ex, e.st, AddP(s.off, e.Num(x.args[1])))}
		}
		specFail("index of %T", v)
	case "u!":
		return BoolV{Not(e.Bool(x.args[0]))}
	case "u-":
		return IntV{NegP(e.Num(x.args[0]))}
	case "&&":
		a := e.Bool(x.args[0])
		if a == tFalse {
			return BoolV{tFalse}
		}
		return BoolV{And(a, e.Bool(x.args[1]))}
	case "||":
		a := e.Bool(x.args[0])
		if a == tTrue {
			return BoolV{tTrue}
		}
		return BoolV{Or(a, e.Bool(x.args[1]))}
	case "==>":
		a := e.Bool(x.args[0])
		if a == tFalse {
			return BoolV{tTrue}
		}
		return BoolV{Imp(a, e.Bool(x.args[1]))}
	case "<==>":
		return BoolV{Iff(e.Bool(x.args[0]), e.Bool(x.args[1]))}
	case "==", "!=":
		a, b := e.eval(x.args[0]), e.eval(x.args[1])
		var f *Fm
		_, ai := a.(BoolV)
		_, bi := b.(BoolV)
		_, ab := a.(BitsV)
		_, bb := b.(BitsV)
		_, as := a.(StructV)
		_, al := a.(SliceV)
		_, af := a.(IfaceV)
		_, ast := a.(StrV)
		_, ao := a.(OpaqueV)
		switch {
		case ai && bi:
			f = Iff(a.(BoolV).f, b.(BoolV).f)
		case ab && bb:
			f = bitsEq(a.(BitsV), b.(BitsV))
		case ab || bb:
			n := 32
			if !ab {
				a, b = b, a
			}
			n = len(a.(BitsV).b)
			f = bitsEq(a.(BitsV), e.ex.toBits(b, n))
		case as || al || af || ast || ao:
			f = e.ex.valEq(e.st, a, b)
		default:
			f = Eq(e.num(a, x.args[0]), e.num(b, x.args[1]))
		}
		if x.op == "!=" {
			f = Not(f)
		}
		return BoolV{f}
	case "<":
		return BoolV{Lt(e.Num(x.args[0]), e.Num(x.args[1]))}
	case "<=":
		return BoolV{Le(e.Num(x.args[0]), e.Num(x.args[1]))}
	case ">":
		return BoolV{Lt(e.Num(x.args[1]), e.Num(x.args[0]))}
	case ">=":
		return BoolV{Le(e.Num(x.args[1]), e.Num(x.args[0]))}
	case "+":
		return IntV{AddP(e.Num(x.args[0]), e.Num(x.args[1]))}
	case "-":
		return IntV{SubP(e.Num(x.args[0]), e.Num(x.args[1]))}
	case "*":
		return IntV{MulP(e.Num(x.args[0]), e.Num(x.args[1]))}
	case "/":
		c, ok := e.Num(x.args[1]).Const()
		if !ok || c.Sign() == 0 {
			specFail("division by a non-constant: use idiv")
		}
		return IntV{ScaleP(new(big.Rat).Inv(c), e.Num(x.args[0]))}
	case "&", "|", "^", "&^":
		a, b := e.eval(x.args[0]), e.eval(x.args[1])
		n := 32
		if v, ok := a.(BitsV); ok {
			n = len(v.b)
		} else if v, ok := b.(BitsV); ok {
			n = len(v.b)
		}
		f := map[string]func(a, b *Fm) *Fm{
			"&": func(a, b *Fm) *Fm { return And(a, b) }, "|": func(a, b *Fm) *Fm { return Or(a, b) },
			"^": Xor, "&^": func(a, b *Fm) *Fm { return And(a, Not(b)) }}[x.op]
		return bitsMap(e.ex.toBits(a, n), e.ex.toBits(b, n), f)
	case "call":
		return e.call(x)
	}
	specFail("operator %s", x.op)
	return nil
}

func (e *Env) pkgByName(n string) *types.Package {
	switch n {
	case "c", "cst":
		return e.ex.p.tpkgs[modPath+"/internal/c"]
	case "arith":
		return e.ex.p.tpkgs[modPath+"/internal/arith"]
	}
	return nil
}

func (e *Env) callMacro(m *macro, args []*Expr) Val {
	if len(args) != len(m.params) {
		specFail("macro arity")
	}
	c := e.child()
	if len(args) > 0 {
		c.vars = map[string]Val{}
		for k, v := range e.vars {
			c.vars[k] = v
		}
		if e.frame != nil {
			// locals shadow parameters inside macros only through arguments
			c.frame = nil
			for k := range e.vars {
				if v, ok := e.lookup(k); ok {
					c.vars[k] = v
				}
			}
		}
		for i, a := range args {
			c.vars[m.params[i]] = e.eval(a)
		}
	}
	v := c.eval(m.body)
	if m.named {
		if i, ok := v.(IntV); ok {
			return IntV{e.st.nameIte(e.st.simpP(i.p))}
		}
	}
	return v
}

func (e *Env) call(x *Expr) Val {
	n := func(i int) *Poly { return e.st.simpP(e.Num(x.args[i])) }
	switch x.name {
	case "old":
		if e.pre == nil {
			specFail("old outside a postcondition")
		}
		c := e.child()
		c.isOld = true
		v := c.eval(x.args[0])
		if p, ok := v.(PtrV); ok && p.obj != 0 && x.args[0].op == "id" {
			if b, ok := c.deref(p).(BigV); ok {
				return b
			}
		}
		return v
	case "now": // current heap inside a macro called under old
		c := e.child()
		c.isOld = false
		return c.eval(x.args[0])
	case "P":
		return IntV{Pow10P(n(0))}
	case "isint": // the value is an integer; checked monomial by monomial
		p := n(0)
		if !e.ex.integral(e.st, p) {
			specFail("not seen to be an integer: %s", exprStr(x.args[0]))
		}
		return BoolV{tTrue}
	case "nat": // the number a word slice stands for
		s, ok := e.eval(x.args[0]).(SliceV)
		if !ok {
			specFail("nat of something that is not a word slice")
		}
		return IntV{e.ex.nat(e.st, s)}
	case "ndig":
		return IntV{Ndig(n(0))}
	case "floor":
		return IntV{Floor(n(0))}
	case "idiv":
		return IntV{Idiv(n(0), n(1))}
	case "mod":
		a, b := n(0), n(1)
		return IntV{SubP(a, MulP(b, Idiv(a, b)))}
	case "odd":
		return BoolV{Eq(Mod2(n(0)), oneP)}
	case "bitlen":
		return IntV{BitLenT(n(0))}
	case "two": // 2^n for constant n
		c, ok := n(0).ConstInt()
		if !ok {
			specFail("two")
		}
		return IntV{NumBig(new(big.Int).Lsh(big.NewInt(1), uint(c.Uint64())))}
	case "ite":
		c := e.Bool(x.args[0])
		if c == tTrue {
			return e.eval(x.args[1])
		}
		if c == tFalse {
			return e.eval(x.args[2])
		}
		a, b := e.eval(x.args[1]), e.eval(x.args[2])
		if ab, ok := a.(BoolV); ok {
			return BoolV{IteF(c, ab.f, b.(BoolV).f)}
		}
		if ab, ok := a.(BitsV); ok {
			return bitsMap(ab, e.ex.toBits(b, len(ab.b)), func(p, q *Fm) *Fm { return IteF(c, p, q) })
		}
		return IntV{Ite(c, e.num(a, x), e.num(b, x))}
	case "abs":
		return IntV{AbsP(n(0))}
	case "min":
		return IntV{MinP(n(0), n(1))}
	case "max":
		return IntV{MaxP(n(0), n(1))}
	case "same":
		a, b := e.eval(x.args[0]), e.eval(x.args[1])
		return BoolV{e.ex.valEq(e.st, a, b)}
	case "with": // with(s, field, v): s with one field replaced
		s, ok := e.eval(x.args[0]).(StructV)
		if !ok {
			specFail("with")
		}
		u := s.t.Underlying().(*types.Struct)
		for i := range s.f {
			if u.Field(i).Name() == x.args[1].name {
				f := append([]Val(nil), s.f...)
				f[i] = e.eval(x.args[2])
				return StructV{t: s.t, f: f}
			}
		}
		specFail("with: no field %s", x.args[1].name)
	case "dyn": // value held by an interface
		if v, ok := e.eval(x.args[0]).(IfaceV); ok && v.v != nil {
			return v.v
		}
		specFail("dyn of an unknown interface value")
	case "isnil":
		switch v := e.eval(x.args[0]).(type) {
		case PtrV:
			return BoolV{BoolConst(v.obj == 0)}
		case IfaceV:
			if !v.unk {
				return BoolV{BoolConst(v.t == nil)}
			}
			return BoolV{e.ex.valEq(e.st, v, IfaceV{})}
		}
		specFail("isnil")
	case "len":
		switch v := e.eval(x.args[0]).(type) {
		case SliceV:
			return IntV{v.len}
		case StrV:
			if v.known {
				return IntV{Num(int64(len(v.s)))}
			}
		}
		specFail("len")
	case "W":
		return IntV{powW(n(0))}
	case "isize":
		return IntV{Num(64)}
	}
	if e.con != nil {
		if m := e.con.lets[x.name]; m != nil {
			return e.callMacro(m, x.args)
		}
	}
	if m := e.ex.v.spec.macros[x.name]; m != nil {
		return e.callMacro(m, x.args)
	}
	specFail("unknown function %s", x.name)
	return nil
}
