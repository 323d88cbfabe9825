package main

import (
	"fmt"

	"github.com/booleworks/logicng-go/bdd"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/normalform"
)

// reference shape predicates
func shapeTerm(e *E, op Op) bool {
	if e.Op == OTrue || e.Op == OFalse || e.Op == OLit {
		return true
	}
	if e.Op != op {
		return false
	}
	for _, s := range e.Sub {
		if s.Op != OLit {
			return false
		}
	}
	return true
}
func shapeNF(e *E, outer, inner Op) bool {
	if shapeTerm(e, inner) || shapeTerm(e, outer) {
		return true
	}
	if e.Op != outer {
		return false
	}
	for _, s := range e.Sub {
		if !shapeTerm(s, inner) {
			return false
		}
	}
	return true
}
func shapeCNF(e *E) bool { return shapeNF(e, OAnd, OOr) }
func shapeDNF(e *E) bool { return shapeNF(e, OOr, OAnd) }
func shapeNNF(e *E) bool {
	switch e.Op {
	case OTrue, OFalse, OLit:
		return true
	case OAnd, OOr:
		for _, s := range e.Sub {
			if !shapeNNF(s) {
				return false
			}
		}
		return true
	}
	return false
}
func shapeAIG(e *E) bool {
	switch e.Op {
	case OTrue, OFalse, OLit:
		return true
	case OAnd, ONot:
		for _, s := range e.Sub {
			if !shapeAIG(s) {
				return false
			}
		}
		return true
	}
	return false
}

// checkPredicates compares all shape predicates with the reference on a formula
func checkPredicates(c *C, fac f.Factory, fm f.Formula, order int) {
	r := newReader(fac, 0)
	e := r.term(fm)
	names := []string{"NNF", "CNF", "DNF", "AIG", "Minterm", "Maxterm"}
	got := []func(f.Factory, f.Formula) bool{normalform.IsNNF, normalform.IsCNF, normalform.IsDNF, normalform.IsAIG, normalform.IsMinterm, normalform.IsMaxterm}
	want := []bool{shapeNNF(e), shapeCNF(e), shapeDNF(e), shapeAIG(e), shapeTerm(e, OAnd), shapeTerm(e, OOr)}
	for j := range got {
		k := (j + order) % len(got)
		v := got[k](fac, fm)
		c.Step()
		c.Assert(v == want[k], "Is%s(%s) = %v", names[k], fm.Sprint(fac), v)
	}
}

type nform struct {
	name  string
	run   func(fac f.Factory, fm f.Formula) f.Formula
	shape func(e *E) bool
	canon int // 1 canonical CNF, 2 canonical DNF
	cons  int // 0: no new variables ever; 1: constraints may introduce auxiliary variables
	// operator whose operands are distributed (0: no distribution); inputs with constraints that would explode are skipped
	explodes Op
}

func normalForms() []nform {
	h := func(fn func(f.Factory, f.Formula, handler.Handler) (f.Formula, handler.State)) func(f.Factory, f.Formula) f.Formula {
		return func(fac f.Factory, fm f.Formula) f.Formula {
			r, st := fn(fac, fm, handler.NopHandler)
			if !st.Success {
				panic(failure{"canceled without a reason"})
			}
			return r
		}
	}
	cnfCfg := func(fac f.Factory, fm f.Formula) f.Formula {
		return normalform.CNF(fac, fm, &normalform.CNFConfig{Algorithm: normalform.CNFFactorization})
	}
	return []nform{
		{"NNF", normalform.NNF, shapeNNF, 0, 1, 0},
		{"FactorizedCNF", normalform.FactorizedCNF, shapeCNF, 0, 1, OAnd},
		{"FactorizedCNFWithHandler", h(normalform.FactorizedCNFWithHandler), shapeCNF, 0, 1, OAnd},
		{"CNF-config-factorization", cnfCfg, shapeCNF, 0, 1, OAnd},
		{"FactorizedDNF", normalform.FactorizedDNF, shapeDNF, 0, 1, OOr},
		{"FactorizedDNFWithHandler", h(normalform.FactorizedDNFWithHandler), shapeDNF, 0, 1, OOr},
		{"AIG", normalform.AIG, shapeAIG, 0, 1, 0},
		{"BDD-CNF", bdd.CNF, shapeCNF, 0, 0, 0},
		{"BDD-DNF", bdd.DNF, shapeDNF, 0, 0, 0},
		{"CanonicalCNF", enum.CanonicalCNF, shapeCNF, 1, 0, 0},
		{"CanonicalDNF", enum.CanonicalDNF, shapeDNF, 2, 0, 0},
	}
}

// estimate of the number of parts of a distribution: the sum over op, the product over the other operator
func estimate(e *E, op Op) float64 {
	if e.Op != OAnd && e.Op != OOr {
		return 1
	}
	r := 1.0
	if e.Op == op {
		r = 0
	}
	for _, s := range e.Sub {
		if e.Op == op {
			r += estimate(s, op)
		} else {
			r *= estimate(s, op)
		}
	}
	return r
}

// onlyEquivOperands: every disjunction, implication and equivalence in e is part of an operand of an equivalence of the input
func onlyEquivOperands(e, input *E) bool {
	allowed := map[string]bool{}
	var collect func(x *E)
	collect = func(x *E) {
		if x.Op == OEquiv {
			refSubs(x.Sub[0], allowed)
			refSubs(x.Sub[1], allowed)
		}
		for _, s := range x.Sub {
			collect(s)
		}
	}
	collect(input)
	var ok func(x *E) bool
	ok = func(x *E) bool {
		if (x.Op == OOr || x.Op == OImpl || x.Op == OEquiv || x.Op == OCC || x.Op == OPBC) && !allowed[x.String()] {
			return false
		}
		for _, s := range x.Sub {
			if !ok(s) {
				return false
			}
		}
		return true
	}
	return ok(e)
}

// checkNF applies one normal form and checks equivalence and shape
func checkNF(c *C, fac f.Factory, fm f.Formula, tt TT, n int, nf nform) f.Formula {
	if nf.explodes != 0 && f.Depth(fac, fm) >= 0 {
		in := newReader(fac, n).term(fm)
		if in.hasConstraint() && estimate(newReader(fac, n).term(normalform.NNF(fac, fm)), nf.explodes) > 3000 {
			c.Outcome("too-large-for-" + nf.name)
			return fm
		}
	}
	got := nf.run(fac, fm)
	c.Step()
	actual := newReader(fac, n)
	ae := actual.term(fm)
	r := newReader(fac, n)
	e := r.term(got)
	aigKnown := nf.name == "AIG" && !nf.shape(e) && onlyEquivOperands(e, ae) && c.Known("AIG: right conjunct of an equivalence keeps the operands untransformed")
	c.Assert(nf.shape(e) || aigKnown, "%s of %s has the wrong shape: %s", nf.name, fm.Sprint(fac), got.Sprint(fac))
	if nf.cons == 0 || !ae.hasConstraint() {
		c.Assert(r.n == n, "%s of %s introduces variables: %s", nf.name, fm.Sprint(fac), got.Sprint(fac))
		c.Assert(ttOfE(e, n).eq(tt), "%s of %s is not equivalent: %s", nf.name, fm.Sprint(fac), got.Sprint(fac))
	} else {
		c.Assert(projAny(c, fac, []f.Formula{got}, n).eq(tt), "%s of %s has other models: %s", nf.name, fm.Sprint(fac), got.Sprint(fac))
	}
	if nf.canon > 0 {
		checkCanonical(c, e, ae, tt, nf.canon == 1)
	}
	return got
}

// checkCanonical: one clause (term) with all variables of the formula per non-model (model)
func checkCanonical(c *C, e, orig *E, tt TT, cnf bool) {
	vars := orig.vars()
	nv := 0
	for v := vars; v != 0; v &= v - 1 {
		nv++
	}
	outer, inner := OAnd, OOr
	if !cnf {
		outer, inner = OOr, OAnd
	}
	var parts []*E
	switch {
	case e.Op == OTrue || e.Op == OFalse:
		if nv == 0 {
			return // a formula without variables is already canonical
		}
		c.Assert((e.Op == OTrue) == cnf, "constant %s as canonical form", e)
	case e.Op == outer && !(shapeTerm(e, outer) && nv == len(e.Sub) && nv > 1):
		parts = e.Sub
	default:
		parts = []*E{e}
	}
	if e.Op == outer && nv == 1 {
		parts = e.Sub
	}
	seen := map[string]bool{}
	for _, p := range parts {
		ls := p.Sub
		if p.Op == OLit {
			ls = []*E{p}
		} else {
			c.Assert(p.Op == inner, "part %s of the canonical form", p)
		}
		m := uint64(0)
		for _, l := range ls {
			m |= 1 << uint(l.Lit>>1)
		}
		c.Assert(m == vars && len(ls) == nv, "part %s of the canonical form does not contain every variable exactly once", p)
		key := fmt.Sprint(litBits(ls))
		c.Assert(!seen[key], "part %s occurs twice", p)
		seen[key] = true
	}
	want := tt.count() >> uint(tt.n-nv)
	if cnf {
		want = 1<<uint(nv) - want
	}
	c.Assert(len(seen) == want, "canonical form has %d parts, must have %d", len(seen), want)
}

func litBits(ls []*E) (r uint64) {
	for _, l := range ls {
		r |= 1 << uint(l.Lit)
	}
	return
}

func init() {
	register(&Prop{
		ID: "P06",
		Rule: "A model state is a distinct Boolean function (truth table) per number of variables; a transition is one normal form computation or predicate call; the reference is the truth table and " +
			"separately written shape predicates; auxiliary variables of encoded constraints are projected away.",
		Domains: func(t Tier) []Domain {
			nfs := normalForms()
			cons := constraintAtoms(3)
			run := func(name, bound string, n int, s Space) Domain {
				return Domain{name, bound, s.N, func(c *C, i int) {
					e := s.At(i)
					c.Key("%s", e)
					tt := ttOfE(e, n)
					c.State(tt.hash())
					fac := f.NewFactory() // shared by all forms: caches of one must not harm the other
					fm := mk(fac, e)
					checkPredicates(c, fac, fm, i)
					for k := range nfs {
						got := checkNF(c, fac, fm, tt, n, nfs[(k+i)%len(nfs)])
						checkPredicates(c, fac, got, k)
					}
					if i%7 == 0 { // each form on a factory of its own
						for _, nf := range nfs {
							fac2 := f.NewFactory()
							checkNF(c, fac2, mk(fac2, e), tt, n, nf)
						}
					}
					checkPredicates(c, fac, fm, 0)
					c.Outcome(fmt.Sprintf("op%d", e.Op))
				}}
			}
			l1 := level(litAtoms(2, true))
			l13 := level(litAtoms(3, false))
			doms := []Domain{
				run("level1", "all formulas of one operator over 3 variables and constants", 3, level(litAtoms(3, true))),
				run("level2", "formulas of two operator levels over 2 variables and constants", 2, level(stride(l1, t.pick(3, 1)))),
				run("level2-3vars", "formulas of two operator levels over 3 variables", 3, binary(stride(l13, t.pick(5, 1)), litAtoms(3, false))),
				run("level2-mixed", "binary operators over one-level formulas of 3 variables", 3, binary(stride(l13, t.pick(7, 3)), stride(l13, t.pick(5, 3)))),
				run("ternary", "ternary conjunctions/disjunctions of one-level formulas", 3, nary(stride(l13, t.pick(11, 5)), 3)),
				run("functions3-dnf", "all 256 functions of 3 variables as DNF", 3, functions(3, 0)),
				run("functions3-cnf", "all 256 functions of 3 variables as CNF", 3, functions(3, 1)),
				run("functions3-shannon", "all 256 functions of 3 variables with implications and equivalences", 3, functions(3, 2)),
				run("functions4-shannon", "functions of 4 variables with implications and equivalences (quick: every 31st, thorough: every 3rd)", 4, stride(functions(4, 2), t.pick(31, 3))),
				run("functions4-dnf", "functions of 4 variables as DNF (quick: every 61st, thorough: every 7th)", 4, stride(functions(4, 0), t.pick(61, 7))),
				run("constraints", "all listed cardinality and pseudo-Boolean constraints", 3, cons),
				run("constraints-level1", "operators over constraints and literals", 3, level(union(stride(cons, t.pick(3, 1)), litAtoms(2, false)))),
				run("constraints-level2", "nested operators over constraints", 3, binary(stride(level(union(stride(cons, 4), litAtoms(1, false))), t.pick(9, 3)), union(stride(cons, 5), litAtoms(1, false)))),
			}
			// small constraints, exhaustively
			coefs := []int{-2, -1, 1, 2}
			doms = append(doms, run("small-constraints", "all constraints over 2 literals with coefficients in {-2,-1,1,2}, right-hand sides -2..3 and their negation", 2, Space{16 * 5 * 6 * 2 * 2, func(i int) *E {
				m := mixed(i, 4, 4, 5, 6, 2, 2)
				e := ePBC(f.CSort(m[2]), m[3]-2, []int{coefs[m[0]], coefs[m[1]]}, []int{m[5], 2})
				if m[4] == 1 {
					return eNot(e)
				}
				return e
			}}))
			// predicates on formulas built by the special constructors
			cls := allClauses(3, 3, true)
			doms = append(doms, Domain{"predicates-clauses", "predicates on every pair of clauses/minterms (also tautological) joined by And/Or", len(cls) * len(cls) * 4, func(c *C, i int) {
				m := mixed(i, len(cls), len(cls), 2, 2)
				fac := f.NewFactory()
				var a, b f.Formula
				if m[2] == 0 {
					a, b = fac.Clause(mkLits(fac, cls[m[0]])...), fac.Clause(mkLits(fac, cls[m[1]])...)
				} else {
					a, b = fac.Minterm(mkLits(fac, cls[m[0]])...), fac.Minterm(mkLits(fac, cls[m[1]])...)
				}
				r := fac.And(a, b)
				if m[3] == 1 {
					r = fac.Or(a, b)
				}
				c.Key("%s", r.Sprint(fac))
				checkPredicates(c, fac, r, i)
				checkPredicates(c, fac, a, i+1)
				checkPredicates(c, fac, fac.Not(r), i)
				checkPredicates(c, fac, fac.And(r, fac.Variable("d")), i)
				checkPredicates(c, fac, fac.Or(r, fac.Variable("d")), i)
				c.StateS(r.Sprint(fac))
			}})
			// histories on one factory: order of computations on related formulas
			rel := []*E{
				eEquiv(eOr(eVar(0), eVar(1)), eAnd(eVar(1), eVar(2))),
				eNot(eEquiv(eOr(eVar(0), eVar(1)), eAnd(eVar(1), eVar(2)))),
				eOr(eAnd(eVar(0), eVar(1)), eAnd(eLit(1), eVar(2))),
				eNot(eOr(eAnd(eVar(0), eVar(1)), eAnd(eLit(1), eVar(2)))),
				eAnd(eOr(eVar(0), eVar(1)), eImpl(eVar(2), eCC(f.LE, 1, 0, 1, 2))),
			}
			ops := len(nfs) * len(rel)
			hl := t.pick(2, 3)
			doms = append(doms, Domain{"histories", fmt.Sprintf("all sequences of %d normal-form computations (11 forms, 5 related formulas) on one factory", hl), pow(ops, hl) / t.pick(1, 2), func(c *C, i int) {
				i *= t.pick(1, 2)
				d := digits(i, ops, hl)
				c.Key("%v", d)
				fac := f.NewFactory()
				for _, o := range d {
					e := rel[o%len(rel)]
					checkNF(c, fac, mk(fac, e), ttOfE(e, 3), 3, nfs[o/len(rel)])
				}
				for _, e := range rel {
					checkPredicates(c, fac, mk(fac, e), i)
				}
			}})
			return doms
		},
	})
}
