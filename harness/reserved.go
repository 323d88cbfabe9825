package main

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/parser"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/sat"
)

// Formulas whose variables bear names that the library itself gives to auxiliary variables: texts and DIMACS files written after an
// encoding contain them.

var auxPrefixes = []string{"@RESERVED_CNF_", "@RESERVED_CC_", "@RESERVED_PBC_"}

// reservedNames: name assignments for the variables of a formula
func reservedNames(k int) (func(v int) string, string) {
	p := auxPrefixes[k%3]
	switch k / 3 % 4 {
	case 0:
		return func(v int) string { return fmt.Sprintf("%s%d", p, v) }, p + "i"
	case 1:
		return func(v int) string { return fmt.Sprintf("%s%d", p, 2*v) }, p + "2i"
	case 2:
		return func(v int) string { return fmt.Sprintf("%s%d", p, 7-v) }, p + "(7-i)"
	default:
		return func(v int) string {
			if v == 0 {
				return "a"
			}
			return fmt.Sprintf("%s%d", p, v)
		}, "a, " + p + "i"
	}
}

const nReserved = 12

// projNamed is the projection of a set of formulas to the first n variables under the given names.
func projNamed(c *C, fac f.Factory, fms []f.Formula, n int, name func(v int) string) TT {
	r := &reader{fac, map[string]int{}, n}
	for v := 0; v < n; v++ {
		r.names[name(v)] = v
	}
	t := &tseitin{}
	var terms []*E
	for _, fm := range fms {
		terms = append(terms, r.term(fm))
	}
	t.next = r.n
	for _, e := range terms {
		t.assert(e)
	}
	return projClauses(t.cls, n, t.next)
}

// checkSolverNamed asks a solver for every assignment.
func checkSolverNamed(c *C, fac f.Factory, s *sat.Solver, tt TT, n int, name func(v int) string, what string) {
	for a := uint64(0); a < 1<<uint(n); a++ {
		var as []f.Literal
		for v := 0; v < n; v++ {
			as = append(as, fac.Lit(name(v), a>>uint(v)&1 == 1))
		}
		c.Step()
		got := s.Call(sat.Params().Literal(as...)).Sat()
		c.Assert(got == tt.get(a), "%s: the solver answers %v under %s", what, got, litsString(fac, as))
	}
}

func reservedDomain(name, what string, sp Space, n int, run func(c *C, e *E, fac f.Factory, fm f.Formula, name func(v int) string, key string, i int)) Domain {
	return Domain{name, fmt.Sprintf("%s; the variables bear the names of auxiliary variables in %d ways", what, nReserved), sp.N * nReserved, func(c *C, i int) {
		e := sp.At(i / nReserved)
		nm, nkey := reservedNames(i % nReserved)
		key := fmt.Sprintf("%s with names %s", e, nkey)
		c.Key("%s", key)
		c.StateS(key)
		fac := f.NewFactory()
		for v := 0; v < n; v++ {
			fac.Var(nm(v)) // also those that do not occur in the formula
		}
		var fm f.Formula
		if i/3%2 == 0 {
			fm = mkN(fac, e, nm)
		} else {
			// as a text from another factory
			f2 := f.NewFactory()
			text := mkN(f2, e, nm).Sprint(f2)
			g, err := parser.New(fac).Parse(text)
			c.Assert(err == nil, "%s is not parsed: %v", text, err)
			fm = g
		}
		run(c, e, fac, fm, nm, key, i)
	}}
}

func init() {
	extra["P07"] = append2(extra["P07"], func(t Tier) []Domain {
		algs := defCnfs()
		small := []defCnf{algs[2], algs[3], algs[6], algs[7], algs[len(algs)-1]}
		sp := union(functions(3, 1), functions(3, 2), stride(level(level(litAtoms(2, false))), t.pick(7, 1)), constraintAtoms(3), level(union(litAtoms(2, false), stride(constraintAtoms(3), t.pick(4, 2)))))
		return []Domain{
			reservedDomain("reserved-names", "functions of three variables, terms and constraints", sp, 3, func(c *C, e *E, fac f.Factory, fm f.Formula, name func(v int) string, key string, i int) {
				tt := ttOfE(e, 3)
				for k := 0; k < 2; k++ {
					a := small[(i+k)%len(small)]
					got := a.run(fac, fm)
					c.Step()
					c.Assert(projNamed(c, fac, []f.Formula{got}, 3, name).eq(tt), "%s of %s has other projected models: %s", a.name, key, got.Sprint(fac))
				}
				// both in one factory, conjoined
				fm2 := fac.Not(fm)
				got := small[i%len(small)].run(fac, fm2)
				c.Assert(projNamed(c, fac, []f.Formula{got}, 3, name).eq(tt.not()), "%s of the negation of %s has other projected models: %s", small[i%len(small)].name, key, got.Sprint(fac))
				c.Outcome("converted")
			}),
			{"converted-again", "a CNF with auxiliary variables is written as text, read in a new factory, combined with a formula of the same shape and converted again: all pairs of algorithms", sp.N * 16, func(c *C, i int) {
				e := sp.At(i / 16)
				a1, a2 := small[i%4], small[i/4%4]
				c.Key("%s %s %s", e, a1.name, a2.name)
				fac := f.NewFactory()
				text := a1.run(fac, mk(fac, e)).Sprint(fac)
				f2 := f.NewFactory()
				g, err := parser.New(f2).Parse(text)
				c.Assert(err == nil, "%s is not parsed: %v", text, err)
				r := &reader{f2, map[string]int{}, 4}
				for v := 0; v < 4; v++ {
					r.names[vname(v)] = v
				}
				// g or the same function with negated variables (and another one)
				other := eAnd(eNot(e), eLit(2*3))
				fm := f2.Or(g, mk(f2, other))
				ge := r.term(g)
				vars := r.n
				if vars > 12 {
					c.Outcome("large")
					return
				}
				want := ttOfE(ge, vars).or(ttOfE(other, vars))
				got := a2.run(f2, fm)
				c.Step()
				clauses, ok := toClauses([]*E{r.term(got)})
				c.Assert(ok, "no CNF")
				p := projClauses(clauses, vars, r.n)
				c.Assert(p.eq(want), "%s of %s: %s has other projected models", a2.name, fm.Sprint(f2), got.Sprint(f2))
				c.StateS(text + a2.name)
				c.Outcome(fmt.Sprintf("%d auxiliary variables read", vars-4))
			}},
		}
	})
	ccs := func(n int) Space {
		var es []*E
		for k := 3; k <= n; k++ {
			for _, cmp := range cmps {
				for rhs := 0; rhs <= k; rhs++ {
					es = append(es, eCC(cmp, rhs, seqTo(k)...))
				}
			}
		}
		return atoms(es...)
	}
	extra["P08"] = append2(extra["P08"], func(t Tier) []Domain {
		cfgs := append(amoConfigs(true), kConfigs()...)
		n := t.pick(5, 6)
		return []Domain{reservedDomain("reserved-names", fmt.Sprintf("all cardinality constraints of up to %d variables with all encoders", n), ccs(n), n, func(c *C, e *E, fac f.Factory, fm f.Formula, name func(v int) string, key string, i int) {
			tt := ttOfE(e, n)
			if fm.Sort() != f.SortCC {
				c.Outcome("no constraint")
				return
			}
			for k := 0; k < len(cfgs); k++ {
				if len(e.Lits) > 4 && (k+i)%3 != 0 {
					continue
				}
				got := encodeVariant(c, fac, fm, cfgs[k].cfg, (i+k)%5)
				c.Assert(projNamed(c, fac, got, n, name).eq(tt), "%s: the encoding of %s has other solutions", cfgs[k].name, key)
			}
			// on the solver
			cfg := cfgs[i%len(cfgs)].cfg
			c.Assert(fac.PutConfiguration(&cfg) == nil, "configuration rejected")
			s := sat.NewSolver(fac)
			s.Add(fm)
			checkSolverNamed(c, fac, s, tt, n, name, key)
			c.Outcome("encoded")
		})}
	})
	extra["P09"] = append2(extra["P09"], func(t Tier) []Domain {
		var es []*E
		for _, co := range [][]int{{1, 2, 3}, {2, 2, 1}, {3, -2, 1}, {2, 3, 5}, {1, 1, 2, 2}, {4, 3, 2, 1}} {
			for _, cmp := range cmps {
				for rhs := -1; rhs <= 7; rhs++ {
					for ph := 0; ph < 2; ph++ {
						var lits []int
						for v := range co {
							lits = append(lits, 2*v+(v*ph)&1)
						}
						es = append(es, ePBC(cmp, rhs, co, lits))
					}
				}
			}
		}
		cfgs := pbcConfigs()
		return []Domain{reservedDomain("reserved-names", "constraints with six coefficient vectors, all comparators and bounds, all encoders", atoms(es...), 4, func(c *C, e *E, fac f.Factory, fm f.Formula, name func(v int) string, key string, i int) {
			tt := ttOfE(e, 4)
			if fm.Sort() != f.SortPBC {
				c.Outcome("no constraint")
				return
			}
			for k := 0; k < len(cfgs); k++ {
				if t == Quick && (k+i)%3 != 0 {
					continue
				}
				got := encodePBCVariant(c, fac, fm, cfgs[k].cfg, (i+k)%5)
				c.Assert(projNamed(c, fac, got, 4, name).eq(tt), "%s: the encoding of %s has other solutions", cfgs[k].name, key)
			}
			cfg := cfgs[i%len(cfgs)].cfg
			c.Assert(fac.PutConfiguration(&cfg) == nil, "configuration rejected")
			s := sat.NewSolver(fac)
			s.Add(fm)
			checkSolverNamed(c, fac, s, tt, 4, name, key)
			c.Outcome("encoded")
		})}
	})
	extra["P10"] = append2(extra["P10"], func(t Tier) []Domain {
		sp := union(functions(3, 1), functions(3, 2), level(union(litAtoms(2, false), stride(constraintAtoms(3), t.pick(4, 1)))))
		return []Domain{reservedDomain("reserved-names", "functions of three variables and terms with constraints, solver configurations rotate", sp, 3, func(c *C, e *E, fac f.Factory, fm f.Formula, name func(v int) string, key string, i int) {
			tt := ttOfE(e, 3)
			cf := rotCfg(i)
			s := sat.NewSolver(fac, cf.mk())
			s.Add(fm)
			checkSolverNamed(c, fac, s, tt, 3, name, cf.name+" "+key)
			c.Outcome("solved")
		})}
	})
	extra["P18"] = append2(extra["P18"], func(t Tier) []Domain {
		vs := msVariants()
		sp := union(functions(3, 1), stride(constraintAtoms(3), 2), stride(functions(3, 2), t.pick(3, 1)))
		return []Domain{reservedDomain("reserved-names", "a hard and two soft formulas; algorithm settings rotate", sp, 3, func(c *C, e *E, fac f.Factory, fm f.Formula, name func(v int) string, key string, i int) {
			for k := 0; k < 3; k++ {
				v := vs[(i+k*5)%len(vs)]
				w := 1
				if !v.unweighted || v.weighted && i&1 == 1 {
					w = 2
				}
				soft1, soft2 := eNot(e), eLit(2*(i%3)+i/3&1)
				s := v.mk(fac, cnfMethods[(i+k)%3])
				hard := eOr(e, eLit(2*((i+1)%3)))
				s.AddHardFormula(mkN(fac, hard, name))
				c.Assert(s.AddSoftFormula(fac.Not(fm), 1) == nil && s.AddSoftFormula(mkN(fac, soft2, name), w) == nil, "AddSoftFormula")
				best := -1
				for a := uint64(0); a < 8; a++ {
					if hard.Eval(a) {
						cost := 0
						if !soft1.Eval(a) {
							cost++
						}
						if !soft2.Eval(a) {
							cost += w
						}
						if best < 0 || cost < best {
							best = cost
						}
					}
				}
				var res maxsat.Result = s.Solve()
				c.Step()
				c.Assert(res.Satisfiable == (best >= 0) && (best < 0 || res.Optimum == best), "%s %s: optimum %d, must be %d", v.name, key, res.Optimum, best)
			}
			c.Outcome("solved")
		})}
	})
	// P24: names that the computation of prime implicants derives from those of the formula
	extra["P24"] = append2(extra["P24"], func(t Tier) []Domain {
		sp := union(functions(3, 1), functions(3, 0))
		names := [][]string{{"a", "a_POS", "a_NEG"}, {"a_POS", "a", "a_POS_NEG"}, {"a_NEG", "a_NEG_NEG", "a"}}
		return []Domain{{"derived-names", "all functions of three variables whose names are those of helper variables: covers consist of primes and cover the function", sp.N * len(names), func(c *C, i int) {
			e := sp.At(i / len(names))
			nm := names[i%len(names)]
			c.Key("%s %v", e, nm)
			c.StateS(fmt.Sprint(e, nm))
			fac := f.NewFactory()
			fm := mkN(fac, e, func(v int) string { return nm[v] })
			tt := ttOfE(e, 3)
			if tt.isFalse() || tt.isTrue() {
				c.Outcome("constant")
				return
			}
			for _, max := range []bool{false, true} {
				fn := primeimplicant.CoverMin
				if max {
					fn = primeimplicant.CoverMax
				}
				for _, kind := range []primeimplicant.CoverSort{primeimplicant.CoverImplicants, primeimplicant.CoverImplicates} {
					r := fn(fac, fm, kind)
					c.Step()
					var dnf, cnf []f.Formula
					for _, p := range r.Implicants {
						dnf = append(dnf, fac.And(f.LiteralsAsFormulas(p)...))
					}
					for _, p := range r.Implicates {
						cnf = append(cnf, fac.Or(f.LiteralsAsFormulas(p)...))
					}
					c.Assert(projNamed(c, fac, []f.Formula{fac.And(cnf...)}, 3, func(v int) string { return nm[v] }).eq(tt), "%s: the implicates do not cover the formula", e)
					got := projNamed(c, fac, []f.Formula{fac.Or(dnf...)}, 3, func(v int) string { return nm[v] })
					c.Assert(kind == primeimplicant.CoverImplicates && got.implies(tt) || got.eq(tt), "%s: the implicants do not cover the formula", e)
				}
			}
			c.Outcome("covers")
		}}}
	})
}
