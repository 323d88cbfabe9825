package main

import (
	"fmt"
	"strconv"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/parser"
)

// ------------------------------------------------------------ reference parser

type refTok struct {
	kind string // NUM, LIT, or the symbol itself
	text string
}

func isLitStart(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_' || b == '@' || b == '#'
}
func isLitPart(b byte) bool { return isLitStart(b) && b != '@' }

func refLex(s string) ([]refTok, bool) {
	var res []refTok
	syms := []string{"$false", "$true", "<=>", "=>", "<=", ">=", "(", ")", "~", "&", "|", "*", "+", "=", "<", ">"}
	for i := 0; i < len(s); {
		ch := s[i]
		if ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n' {
			i++
			continue
		}
		num := i
		if s[num] == '-' {
			num++
		}
		st := num
		for num < len(s) && s[num] >= '0' && s[num] <= '9' {
			num++
		}
		numLen := 0
		if num > st {
			numLen = num - i
		}
		l := i
		if s[l] == '~' {
			l++
		}
		litLen := 0
		if l < len(s) && isLitStart(s[l]) {
			l++
			for l < len(s) && isLitPart(s[l]) {
				l++
			}
			litLen = l - i
		}
		sym := ""
		for _, y := range syms {
			if strings.HasPrefix(s[i:], y) && len(y) > len(sym) {
				sym = y
			}
		}
		switch {
		case numLen > 0 && numLen >= litLen:
			res = append(res, refTok{"NUM", s[i : i+numLen]})
			i += numLen
		case litLen > 0:
			res = append(res, refTok{"LIT", s[i : i+litLen]})
			i += litLen
		case sym != "":
			res = append(res, refTok{sym, sym})
			i += len(sym)
		default:
			return append(res, refTok{"ERR", s[i:]}), false
		}
	}
	return res, true
}

type refParser struct {
	t   []refTok
	pos int
	fac f.Factory
}

type refSyntax struct{}

func (p *refParser) peek() string {
	if p.pos < len(p.t) {
		return p.t[p.pos].kind
	}
	return "EOF"
}
func (p *refParser) next() refTok {
	if p.pos >= len(p.t) {
		panic(refSyntax{})
	}
	p.pos++
	return p.t[p.pos-1]
}

// term trees of the reference parser
type rTerm struct {
	op   string
	sub  []*rTerm
	name string
	neg  bool
	lits []*rTerm
	coef []int
	rhs  int
}

func (p *refParser) equiv() *rTerm {
	l := p.impl()
	if p.peek() == "<=>" {
		p.next()
		return &rTerm{op: "<=>", sub: []*rTerm{l, p.equiv()}}
	}
	return l
}
func (p *refParser) impl() *rTerm {
	l := p.nary("|")
	if p.peek() == "=>" {
		p.next()
		return &rTerm{op: "=>", sub: []*rTerm{l, p.impl()}}
	}
	return l
}
func (p *refParser) nary(op string) *rTerm {
	sub := func() *rTerm {
		if op == "|" {
			return p.nary("&")
		}
		return p.lit()
	}
	ops := []*rTerm{sub()}
	for p.peek() == op {
		p.next()
		ops = append(ops, sub())
	}
	if len(ops) == 1 {
		return ops[0]
	}
	return &rTerm{op: op, sub: ops}
}
func (p *refParser) lit() *rTerm {
	if p.peek() == "~" {
		p.next()
		return &rTerm{op: "~", sub: []*rTerm{p.lit()}}
	}
	switch p.peek() {
	case "$true", "$false":
		return &rTerm{op: p.next().kind}
	case "(":
		p.next()
		r := p.equiv()
		if p.next().kind != ")" {
			panic(refSyntax{})
		}
		return r
	case "LIT", "NUM":
		save := p.pos
		if c := p.comparison(); c != nil {
			return c
		}
		p.pos = save
		return rLit(p.next().text)
	}
	panic(refSyntax{})
}
func rLit(s string) *rTerm {
	if strings.HasPrefix(s, "~") {
		return &rTerm{op: "lit", name: s[1:], neg: true}
	}
	return &rTerm{op: "lit", name: s}
}
func (p *refParser) comparison() *rTerm {
	r := &rTerm{}
	for {
		switch p.peek() {
		case "LIT":
			r.lits = append(r.lits, rLit(p.next().text))
			r.coef = append(r.coef, 1)
		case "NUM":
			n := p.next()
			if p.peek() == "*" {
				p.next()
				if p.peek() != "LIT" && p.peek() != "NUM" {
					return nil
				}
				v, err := strconv.Atoi(n.text)
				if err != nil {
					panic(refSyntax{})
				}
				r.coef = append(r.coef, v)
				r.lits = append(r.lits, rLit(p.next().text))
			} else {
				r.coef = append(r.coef, 1)
				r.lits = append(r.lits, rLit(n.text))
			}
		default:
			return nil
		}
		switch k := p.peek(); k {
		case "+":
			p.next()
			continue
		case "=", "<=", "<", ">=", ">":
			p.next()
			if p.peek() != "NUM" {
				return nil
			}
			v, err := strconv.Atoi(p.next().text)
			if err != nil {
				panic(refSyntax{})
			}
			r.op, r.rhs = k, v
			return r
		default:
			return nil
		}
	}
}

// refParse parses the text; ok: the whole text is a formula. If only a proper prefix is a formula, t is the
// formula of the longest prefix and ok is false.
func refParse(s string) (t *rTerm, ok bool) {
	toks, _ := refLex(s)
	if len(toks) == 0 {
		return &rTerm{op: "$true"}, true
	}
	p := &refParser{t: toks}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(refSyntax); !is {
				panic(r)
			}
			t, ok = nil, false
		}
	}()
	t = p.equiv()
	if p.pos != len(p.t) {
		if p.peek() == "ERR" {
			return nil, false
		}
		return t, false
	}
	return t, true
}

func (t *rTerm) build(fac f.Factory) f.Formula {
	var ops []f.Formula
	for _, s := range t.sub {
		ops = append(ops, s.build(fac))
	}
	switch t.op {
	case "$true":
		return fac.Verum()
	case "$false":
		return fac.Falsum()
	case "lit":
		return fac.Literal(t.name, !t.neg)
	case "~":
		return fac.Not(ops[0])
	case "&":
		return fac.And(ops...)
	case "|":
		return fac.Or(ops...)
	case "=>":
		return fac.Implication(ops[0], ops[1])
	case "<=>":
		return fac.Equivalence(ops[0], ops[1])
	}
	var ls []f.Literal
	for _, l := range t.lits {
		ls = append(ls, fac.Lit(l.name, !l.neg))
	}
	cmp := map[string]f.CSort{"=": f.EQ, "<=": f.LE, "<": f.LT, ">=": f.GE, ">": f.GT}[t.op]
	return fac.PBC(cmp, t.rhs, ls, append([]int{}, t.coef...))
}

// structure of a formula of any factory by names
func structure(fac f.Factory, fm f.Formula) string {
	switch fm.Sort() {
	case f.SortLiteral:
		n, ph, _ := fac.LiteralNamePhase(fm)
		return fmt.Sprintf("%v:%q", ph, n)
	case f.SortNot:
		o, _ := fac.NotOperand(fm)
		return "not(" + structure(fac, o) + ")"
	case f.SortImpl, f.SortEquiv:
		l, r, _ := fac.BinaryLeftRight(fm)
		return fmt.Sprintf("%d(%s;%s)", fm.Sort(), structure(fac, l), structure(fac, r))
	case f.SortAnd, f.SortOr:
		ops, _ := fac.NaryOperands(fm)
		var p []string
		for _, o := range ops {
			p = append(p, structure(fac, o))
		}
		return fmt.Sprintf("%d(%s)", fm.Sort(), strings.Join(p, ";"))
	case f.SortCC, f.SortPBC:
		cmp, rhs, lits, coef, _ := fac.PBCOps(fm)
		s := fmt.Sprintf("%d(%d %d", fm.Sort(), cmp, rhs)
		for i, l := range lits {
			s += fmt.Sprintf(" %d*%s", coef[i], structure(fac, l.AsFormula()))
		}
		return s + ")"
	}
	return fmt.Sprint(fm.Sort())
}

const trailingKey = "parser.Parse ignores the rest of the text after a complete formula"

// checkParse: parse text and compare with the reference parser.
func checkParse(c *C, text string) {
	c.Key("%q", text)
	want, ok := refParse(text)
	fac := f.NewFactory()
	got, err := parser.New(fac).Parse(text)
	c.Step()
	if !ok {
		if err == nil && want != nil && c.Known(trailingKey) {
			fac2 := f.NewFactory()
			c.Assert(structure(fac, got) == structure(fac2, want.build(fac2)), "%q parsed as %s, which is not even the formula before the ignored rest", text, got.Sprint(fac))
			c.Outcome("known finding: rest of the text ignored")
			return
		}
		c.Assert(err != nil, "malformed text %q is accepted as %s", text, got.Sprint(fac))
		c.Outcome("rejected")
		return
	}
	c.Assert(err == nil, "well-formed text %q is rejected: %v", text, err)
	fac2 := f.NewFactory()
	w := want.build(fac2)
	ws := structure(fac2, w)
	c.StateS(ws)
	c.Assert(structure(fac, got) == ws, "%q parsed as %s, must be %s", text, got.Sprint(fac), w.Sprint(fac2))
	c.Outcome("accepted")
	// idempotence through printing
	again, err := parser.New(fac).Parse(got.Sprint(fac))
	c.Step()
	c.Assert(err == nil && again == got, "printing %q and parsing again gives a different formula", got.Sprint(fac))
}

func roundTrip(c *C, fac f.Factory, fm f.Formula) {
	text := fm.Sprint(fac)
	c.Step()
	c.StateS(text)
	c.Logf("printed %s", text)
	got, err := parser.New(fac).Parse(text)
	c.Step()
	c.Assert(err == nil, "printed text %q is not parseable: %v", text, err)
	c.Assert(got == fm, "text %q is parsed into the different formula %s", text, got.Sprint(fac))
	fac2 := f.NewFactory()
	got2, err := parser.New(fac2).Parse(text)
	c.Step()
	c.Assert(err == nil, "printed text %q is not parseable in another factory", text)
	c.Assert(structure(fac2, got2) == structure(fac, fm), "text %q has another structure in another factory", text)
	// the reference parser agrees too, so the text means what it says
	w, ok := refParse(text)
	c.Assert(ok, "printed text %q is not in the documented language", text)
	fac3 := f.NewFactory()
	c.Assert(structure(fac3, w.build(fac3)) == structure(fac, fm), "text %q describes another formula", text)
}

func init() {
	register(&Prop{
		ID: "P02",
		Rule: "A model state is a distinct formula structure; a transition is one print or parse of the implementation; every execution is compared with a " +
			"separately written reference lexer and parser of the documented grammar.",
		Assume: []string{"Formulas of the round-trip use variable names of the documented lexical form.", "Printing uses the default symbols."},
		Domains: func(t Tier) []Domain {
			lit := litAtoms(2, true)
			l3 := litAtoms(3, false)
			cons := constraintAtoms(3)
			lev := func(s Space, name, bound string) Domain {
				return Domain{name, bound, s.N, func(c *C, i int) {
					e := s.At(i)
					c.Key("%s", e)
					fac := f.NewFactory()
					fm := mk(fac, e)
					c.Step()
					roundTrip(c, fac, fm)
					c.Outcome(fmt.Sprintf("sort%d", fm.Sort()))
				}}
			}
			ops := union(lit, cons)
			l1 := level(union(litAtoms(2, false), stride(cons, 3)))
			deep := level(stride(l1, t.pick(3, 1)))
			doms := []Domain{
				lev(level(ops), "level1", "all formulas of one operator over 2 variables, constants and the constraint list"),
				lev(deep, "level2", "all formulas of up to two operator levels over literals and constraints"),
				lev(nary(union(l3, stride(cons, 4)), 3), "ternary", "all ternary conjunctions and disjunctions of literals and constraints"),
				lev(binary(stride(level(stride(level(l3), 7)), t.pick(97, 23)), l3), "level3", "a stride of three-level formulas, combined with every literal"),
			}
			// names
			names := []string{"a", "12", "0", "1a", "_", "@x", "#", "a#b_2", "A9", "007"}
			nn := len(names)
			doms = append(doms, Domain{"names", "every pair of variable names of all lexical classes, phases, coefficients and comparators in constraints, and operators",
				nn * nn * 4 * 6 * 6, func(c *C, i int) {
					m := mixed(i, nn, nn, 4, 6, 6)
					fac := f.NewFactory()
					l1, l2 := fac.Lit(names[m[0]], m[2]&1 == 0), fac.Lit(names[m[1]], m[2]&2 == 0)
					co := [][]int{{1, 1}, {2, 1}, {1, 3}, {-1, 1}, {0, 1}, {-12, 100}}[m[3]]
					var fm f.Formula
					if m[4] < 5 {
						fm = fac.PBC(f.CSort(m[4]), m[3]-1, []f.Literal{l1, l2}, co)
					} else {
						switch m[3] {
						case 0:
							fm = fac.And(l1.AsFormula(), l2.AsFormula())
						case 1:
							fm = fac.Or(l1.AsFormula(), l2.AsFormula())
						case 2:
							fm = fac.Implication(l1.AsFormula(), l2.AsFormula())
						case 3:
							fm = fac.Equivalence(l1.AsFormula(), l2.AsFormula())
						case 4:
							fm = fac.Not(fac.And(l1.AsFormula(), l2.AsFormula()))
						case 5:
							fm = fac.PBC(f.GE, -3, []f.Literal{l1}, []int{2})
						}
					}
					c.Step()
					c.Key("%s", fm.Sprint(fac))
					roundTrip(c, fac, fm)
				}})
			// token strings
			toks := []string{"a", "~b", "~", "&", "|", "=>", "<=>", "(", ")", "$true", "3", "*", "+", "<=", "="}
			tl := t.pick(4, 5)
			doms = append(doms, Domain{"tokens", fmt.Sprintf("all strings of up to %d tokens over %d tokens, joined by blanks", tl, len(toks)), seqCount(len(toks), tl), func(c *C, i int) {
				var p []string
				for _, x := range seqAt(i, len(toks), tl) {
					p = append(p, toks[x])
				}
				checkParse(c, strings.Join(p, " "))
			}})
			small := []string{"a", "~", "&", "|", "=>", "<=>", "(", ")"}
			sl := t.pick(6, 7)
			doms = append(doms, Domain{"operators", fmt.Sprintf("all strings of exactly %d tokens over the operator tokens, without blanks", sl), pow(len(small), sl), func(c *C, i int) {
				var p []string
				for _, x := range digits(i, len(small), sl) {
					p = append(p, small[x])
				}
				checkParse(c, strings.Join(p, ""))
			}})
			pb := []string{"a", "3", "-2", "*", "+", "<", ">=", "~"}
			doms = append(doms, Domain{"constraint-tokens", fmt.Sprintf("all strings of exactly %d tokens over constraint tokens", sl), pow(len(pb), sl), func(c *C, i int) {
				var p []string
				for _, x := range digits(i, len(pb), sl) {
					p = append(p, pb[x])
				}
				checkParse(c, strings.Join(p, " "))
			}})
			// operator chains: all operator sequences with every bracketing of one pair
			opsyms := []string{" & ", "|", " => ", "<=>", " & ~"}
			cl := t.pick(5, 6)
			doms = append(doms, Domain{"chains", fmt.Sprintf("all chains of %d operators with every position of one bracket pair", cl), pow(len(opsyms), cl) * (cl + 1) * (cl + 1), func(c *C, i int) {
				m := mixed(i, pow(len(opsyms), cl), cl+1, cl+1)
				d := digits(m[0], len(opsyms), cl)
				lo, hi := m[1], m[2]
				var b strings.Builder
				for k := 0; k <= cl; k++ {
					if k > 0 {
						b.WriteString(opsyms[d[k-1]])
					}
					if lo < hi && k == lo {
						b.WriteByte('(')
					}
					b.WriteString(vname(k))
					if lo < hi && k == hi {
						b.WriteByte(')')
					}
				}
				checkParse(c, b.String())
			}})
			// characters
			chars := []string{"a", "B", "1", "~", "-", "&", "<", "=", ">", "(", ")", "*", "+", " ", "$", "^", "#", "@", "\n", "$true", "|"}
			cl2 := t.pick(4, 5)
			doms = append(doms, Domain{"characters", fmt.Sprintf("all strings of up to %d characters over %d characters", cl2, len(chars)), seqCount(len(chars), cl2), func(c *C, i int) {
				var p []string
				for _, x := range seqAt(i, len(chars), cl2) {
					p = append(p, chars[x])
				}
				checkParse(c, strings.Join(p, ""))
			}})
			big := []string{"1", "9", "2147483648", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "99999999999999999999", "-0", "007"}
			doms = append(doms, Domain{"numbers", "every pair of numbers around the representable limits as coefficient and bound", len(big) * len(big) * 5, func(c *C, i int) {
				m := mixed(i, len(big), len(big), 5)
				cm := []string{"<=", "=", ">", "<", ">="}[m[2]]
				checkParse(c, fmt.Sprintf("%s*a + b %s %s", big[m[0]], cm, big[m[1]]))
			}})
			return doms
		},
	})
}
