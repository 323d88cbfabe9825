package main

import (
	"fmt"
	"math/big"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
)

// isAMOorEXO: every constraint of the term is an at-most-one or an exactly-one constraint
func onlyAMOEXO(e *E) bool {
	if e.Op == OPBC || e.Op == OCC && !(e.Rhs == 1 && (e.Cmp == f.LE || e.Cmp == f.EQ) || e.Rhs == 2 && e.Cmp == f.LT) {
		return false
	}
	for _, s := range e.Sub {
		if !onlyAMOEXO(s) {
			return false
		}
	}
	return true
}

// dnnfShape: conjunctions are decomposable, disjunctions deterministic (as far as the truth tables reach).
func dnnfShape(c *C, e *E, total int, what string) {
	switch e.Op {
	case OTrue, OFalse, OLit:
	case OAnd:
		var seen uint64
		for _, s := range e.Sub {
			v := s.vars()
			c.Assert(seen&v == 0, "%s: the operands of %v share variables", what, e)
			seen |= v
		}
	case OOr:
		if total <= 12 {
			seen := ttConst(total, false)
			for _, s := range e.Sub {
				t := ttOfE(s, total)
				c.Assert(seen.and(t).isFalse(), "%s: the operands of %v have a common model", what, e)
				seen = seen.or(t)
			}
		}
	default:
		c.Failf("%s: unexpected operator in the DNNF: %v", what, e)
	}
	for _, s := range e.Sub {
		dnnfShape(c, s, total, what)
	}
}

func checkDNNF(c *C, fac f.Factory, d *dnnf.DNNF, e *E, n int, what string) {
	r := newReader(fac, n)
	t := r.term(d.Formula)
	c.Assert(d.Fac == fac, "%s: the DNNF has another factory", what)
	if r.n <= 60 {
		dnnfShape(c, t, r.n, what)
	}
	want := ttOfE(e, n)
	if !e.hasConstraint() || r.n <= 16 {
		got := projAny(c, fac, []f.Formula{d.Formula}, n)
		c.Assert(got.eq(want), "%s: the DNNF %v has the models %s, must be %s", what, t, got, want)
	}
	ov := newReader(fac, n)
	var mask uint64
	for _, v := range d.OriginalVars.Content() {
		name, _ := fac.VarName(v)
		if x := ov.varNum(name); x < n {
			mask |= 1 << uint(x)
		}
	}
	vars := formulaVars(c, fac, mk(fac, e), n)
	c.Assert(mask == vars, "%s: the original variables are %v, must be %v", what, bitsOf(mask), bitsOf(vars))
	num := big.NewInt(int64(want.count()))
	num.Rsh(num, uint(n-len(bitsOf(vars))))
	for k := 0; k < 2; k++ {
		got := d.ModelCount()
		c.Assert(got.Cmp(num) == 0, "%s: the DNNF %v counts %s models over %v (call %d), there are %s", what, t, got, bitsOf(vars), k+1, num)
		got.Add(got, big.NewInt(5)) // the caller owns the result
	}
}

func formulaVars(c *C, fac f.Factory, fm f.Formula, n int) uint64 {
	var m uint64
	r := newReader(fac, n)
	for _, v := range f.Variables(fac, fm).Content() {
		name, _ := fac.VarName(v)
		m |= 1 << uint(r.varNum(name))
	}
	return m
}

func init() {
	register(&Prop{
		ID: "P21",
		Rule: "A state is the factory with its caches; a transition is a count or a compilation. Every number is compared with the number of rows of the reference truth table; compiled DNNFs are read back, projected and compared " +
			"with the truth table, and their conjunctions must be decomposable, their disjunctions deterministic.",
		Assume: []string{"Constraints other than at-most-one and exactly-one are reported as an error by the model counter (documented); the DNNF of a formula with constraints counts the variables of the encoding as well, so that only formulas without them are counted there."},
		Domains: func(t Tier) []Domain {
			var doms []Domain
			counts := func(c *C, fac f.Factory, es []*E, n, i int) {
				fms := make([]f.Formula, len(es))
				tt := ttConst(n, true)
				ok := true
				var vars uint64
				for j, e := range es {
					fms[j] = mk(fac, e)
					tt = tt.and(ttOfE(e, n))
					ok = ok && onlyAMOEXO(e)
					vars |= formulaVars(c, fac, fms[j], n)
				}
				full := uint64(1)<<uint(n) - 1
				sup := vars | uint64(i*5)&full
				for k, vm := range []uint64{vars, full, sup} {
					if k == 2 && i%2 == 0 {
						break
					}
					num := big.NewInt(int64(tt.count()))
					num.Rsh(num, uint(n-len(bitsOf(vm))))
					what := fmt.Sprintf("%v over %v", es, bitsOf(vm))
					for rep := 0; rep < 2; rep++ {
						c.Step()
						// the second time in the reverse order
						fs := append([]f.Formula{}, fms...)
						if rep == 1 {
							for a, b := 0, len(fs)-1; a < b; a, b = a+1, b-1 {
								fs[a], fs[b] = fs[b], fs[a]
							}
						}
						got, err := count.Count(fac, maskVars(fac, vm, i+k), fs...)
						if err != nil {
							c.Assert(!ok, "%s: error %v although all constraints are at-most-one or exactly-one", what, err)
							c.Outcome("rejected")
							break
						}
						c.Assert(got.Cmp(num) == 0, "%s: the counter yields %s (call %d), there are %s", what, got, rep+1, num)
						got.Add(got, big.NewInt(3))
					}
					if i%3 == k {
						got, st := count.OnFormulaWithConfig(fac, fac.And(fms...), maskVars(fac, vm, i+k), &iter.Config{Handler: handler.NopHandler, Strategy: iter.DefaultStrategy()})
						c.Assert(st.Success && got.Cmp(num) == 0, "%s: counting by enumeration yields %s, there are %s", what, got, num)
					}
					if i%3 == (k+1)%3 && vm != 0 {
						kn := bdd.NewKernelWithOrdering(fac, varsOf(fac, bitsOf(vm)), 100, 100)
						b := bdd.CompileWithKernel(fac, fac.And(fms...), kn)
						if n+8 > kernelVars(fac, fac.And(fms...), n) { // no variables of encodings
							for rep := 0; rep < 2; rep++ {
								got := b.ModelCount()
								c.Assert(got.Cmp(num) == 0, "%s: the BDD counts %s models (call %d), there are %s", what, got, rep+1, num)
								got.Add(got, big.NewInt(7))
							}
						}
					}
				}
				c.State(tt.hash() ^ vars)
				c.Outcome(fmt.Sprintf("%d bit count", big.NewInt(int64(tt.count())).BitLen()))
			}
			compile := func(c *C, fac f.Factory, es []*E, n, i int) {
				e := es[0]
				if len(es) > 1 {
					e = eAnd(es...)
				}
				c.Step()
				checkDNNF(c, fac, dnnf.Compile(fac, mk(fac, e)), e, n, fmt.Sprintf("%v", e))
			}
			cnfs := []normalform.CNFAlgorithm{normalform.CNFAdvanced, normalform.CNFTseitin, normalform.CNFFactorization, normalform.CNFTseitin}
			run := func(c *C, es []*E, n, i, k int) {
				fac := f.NewFactory(i%5 == 0)
				if i%3 == 1 {
					mkVars(fac, n)
				}
				cfg := normalform.DefaultCNFConfig()
				cfg.Algorithm = cnfs[(i+k)%4]
				if cfg.Algorithm == normalform.CNFTseitin {
					cfg.AtomBoundary = (i + k) % 4
				}
				c.Assert(fac.PutConfiguration(cfg) == nil, "configuration rejected")
				cons := false
				for _, e := range es {
					cons = cons || e.hasConstraint()
				}
				if len(es) == 0 {
					es = []*E{eTrue}
				}
				if i%2 == 0 {
					counts(c, fac, es, n, i+k)
				}
				if !cons {
					compile(c, fac, es, n, i+k)
				}
				if i%2 == 1 {
					counts(c, fac, es, n, i+k)
				}
				// a second formula on the same factory
				if len(es) > 1 && !cons {
					compile(c, fac, es[1:], n, i+k)
					counts(c, fac, es[:len(es)-1], n, i+k+1)
				}
			}
			add := func(in inst, mult int) {
				doms = append(doms, instDomain(in, mult, fmt.Sprintf("model counter with lists of formulas in two orders, DNNF compilation, BDD and enumeration counts; supersets of the variables and CNF algorithms rotate (%d per instance)", mult), run))
			}
			add(instClauses(3, 3, t.pick(3, 5)), t.pick(4, 2))
			add(instClauses(4, 3, t.pick(2, 3)), 1)
			add(instClauses(5, 2, t.pick(3, 4)), 1)
			add(instSpace("formulas", "all formulas of the space (functions over 3 variables, constraints, nested)", 4, formulaSpace(t)), t.pick(4, 12))
			add(instPairs("pairs", "all ordered pairs of formulas of the space, constants and literals included", 4, union(pairSpace(), litAtoms(2, true))), t.pick(1, 4))
			add(instTriples("triples", "all ordered triples of literals, constants, clauses and at-most-one constraints", 4, union(litAtoms(2, true), atoms(eOr(eVar(1), eVar(2)), eOr(eLit(3), eLit(5)), eCC(f.LE, 1, 0, 1), eCC(f.EQ, 1, 1, 2), eCC(f.LE, 1, 0, 1, 2), eAnd(eVar(2), eVar(3)), eNot(eCC(f.LE, 1, 2, 3)), eEquiv(eVar(0), eVar(3))))), t.pick(1, 8))
			circ := t.pickCirc()
			circ = append(circ, [3]int{7, 2, 2}, [3]int{8, 2, 1}, [3]int{7, 3, 1}, [3]int{9, 3, 1}, [3]int{10, 3, 1})
			if t == Thorough {
				circ = append(circ, [3]int{8, 3, 1}, [3]int{8, 2, 2}, [3]int{9, 2, 2}, [3]int{11, 3, 1}, [3]int{12, 2, 1}, [3]int{7, 3, 2})
			}
			for _, x := range circ {
				add(instCirculant(x[0], x[1], x[2]), 1)
				add(instAsym(x[0], x[1], x[2]), 1)
			}
			doms = append(doms, p21DNNF(t)...)
			return doms
		},
	})
}

// kernelVars: the number of variables after the encoding of constraints
func kernelVars(fac f.Factory, fm f.Formula, n int) int {
	r := newReader(fac, n)
	if r.term(fm).hasConstraint() {
		return n + 100
	}
	return r.n
}

func instTriples(name, bound string, n int, s Space) inst {
	return inst{name, bound, n, s.N * s.N * s.N, func(i int) []*E {
		m := mixed(i, s.N, s.N, s.N)
		return []*E{s.At(m[0]), s.At(m[1]), s.At(m[2])}
	}}
}
