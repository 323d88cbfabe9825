package main

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/normalform"
)

type defCnf struct {
	name string
	run  func(fac f.Factory, fm f.Formula) f.Formula
}

// definitional CNF algorithms with every setting
func defCnfs() []defCnf {
	var r []defCnf
	for _, b := range []int{-1, 0, 1, 2, 3, 4, 6, 12} {
		b := b
		r = append(r,
			defCnf{fmt.Sprintf("Tseitin-%d", b), func(fac f.Factory, fm f.Formula) f.Formula { return normalform.TseitinCNFWithBoundary(fac, fm, b) }},
			defCnf{fmt.Sprintf("PG-%d", b), func(fac f.Factory, fm f.Formula) f.Formula { return normalform.PGCNFWithBoundary(fac, fm, b) }})
	}
	r = append(r, defCnf{"Tseitin", normalform.TseitinCNFDefault}, defCnf{"PG", normalform.PGCNFDefault},
		defCnf{"CNF", func(fac f.Factory, fm f.Formula) f.Formula { return normalform.CNF(fac, fm) }})
	cfg := func(c normalform.CNFConfig) defCnf {
		return defCnf{fmt.Sprintf("CNF-%v-%v-%d-%d-%d", c.Algorithm, c.FallbackAlgorithmForAdvancedEncoding, c.DistributionBoundary, c.CreatedClauseBoundary, c.AtomBoundary),
			func(fac f.Factory, fm f.Formula) f.Formula { x := c; return normalform.CNF(fac, fm, &x) }}
	}
	for _, alg := range []normalform.CNFAlgorithm{normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum, normalform.CNFAdvanced} {
		for _, at := range []int{0, 4} {
			if alg != normalform.CNFAdvanced {
				r = append(r, cfg(normalform.CNFConfig{Algorithm: alg, AtomBoundary: at}))
				continue
			}
			for _, fb := range []normalform.CNFAlgorithm{normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum} {
				for _, d := range []int{-1, 0, 1, 4} {
					for _, cl := range []int{-1, 0, 2} {
						r = append(r, cfg(normalform.CNFConfig{Algorithm: alg, FallbackAlgorithmForAdvancedEncoding: fb, DistributionBoundary: d, CreatedClauseBoundary: cl, AtomBoundary: at}))
					}
				}
			}
		}
	}
	return r
}

// checkDefCnf: result is a CNF with exactly the models tt after projection
func checkDefCnf(c *C, fac f.Factory, name, src string, got f.Formula, tt TT, n int) {
	e := newReader(fac, n).term(got)
	c.Assert(shapeCNF(e), "%s of %s is not a CNF: %s", name, src, got.Sprint(fac))
	c.Assert(normalform.IsCNF(fac, got), "IsCNF false for the %s of %s", name, src)
	p := projAny(c, fac, []f.Formula{got}, n)
	c.Assert(p.eq(tt), "%s of %s has other projected models: %s", name, src, got.Sprint(fac))
}

func init() {
	register(&Prop{
		ID: "P07",
		Rule: "A model state is a distinct Boolean function over the original variables (for histories: with the auxiliary-state content as the set of formulas transformed); a transition is one transformation; " +
			"the reference projects the resulting clauses onto the original variables by exhaustive search and compares with the truth table of the input.",
		Domains: func(t Tier) []Domain {
			algs := defCnfs()
			small := []defCnf{algs[2], algs[3], algs[6], algs[7], algs[10], algs[11]} // boundaries 0, 2, 4
			cons := constraintAtoms(3)
			run := func(name, bound string, n int, s Space, as []defCnf) Domain {
				return Domain{name, bound, s.N, func(c *C, i int) {
					e := s.At(i)
					c.Key("%s", e)
					tt := ttOfE(e, n)
					c.State(tt.hash())
					fac := f.NewFactory()
					fm := mk(fac, e)
					huge := e.hasConstraint() && estimate(newReader(fac, n).term(normalform.NNF(fac, fm)), OAnd) > 3000
					for k := range as {
						a := as[(k+i)%len(as)]
						if huge && a.name == "CNF-CNFAdvanced-CNFTseitin--1--1-0" {
							continue
						}
						got := a.run(fac, fm)
						c.Step()
						checkDefCnf(c, fac, a.name, fm.Sprint(fac), got, tt, n)
						if k%3 == 0 { // once more on the same factory, and jointly with the first result
							again := a.run(fac, fm)
							c.Step()
							checkDefCnf(c, fac, a.name, fm.Sprint(fac), again, tt, n)
							c.Assert(projAny(c, fac, []f.Formula{got, again}, n).eq(tt), "%s of %s: two results contradict", a.name, fm.Sprint(fac))
						}
					}
					c.Outcome(fmt.Sprintf("op%d", e.Op))
				}}
			}
			l1 := level(litAtoms(2, true))
			l13 := level(litAtoms(3, false))
			doms := []Domain{
				run("level1", "all formulas of one operator over 3 variables, all algorithm settings", 3, level(litAtoms(3, true)), algs),
				run("level2", "formulas of two operator levels over 2 variables, boundaries 0/2/4", 2, level(stride(l1, t.pick(3, 1))), small),
				run("level2-mixed", "binary operators over one-level formulas of 3 variables", 3, binary(stride(l13, t.pick(7, 2)), stride(l13, t.pick(5, 2))), small),
				run("ternary", "ternary conjunctions/disjunctions of one-level formulas", 3, nary(stride(l13, t.pick(13, 5)), 3), small),
				run("level3", "binary operators over two-level formulas", 3, binary(stride(level(stride(level(litAtoms(2, false)), 3)), t.pick(97, 11)), stride(l13, t.pick(9, 3))), small),
				run("functions3-dnf", "all 256 functions of 3 variables as DNF, all settings", 3, functions(3, 0), algs),
				run("functions3-shannon", "all 256 functions of 3 variables with implications and equivalences, all settings", 3, functions(3, 2), algs),
				run("functions4-shannon", "functions of 4 variables with implications and equivalences", 4, stride(functions(4, 2), t.pick(61, 5)), small),
				run("functions4-dnf", "functions of 4 variables as DNF", 4, stride(functions(4, 0), t.pick(101, 11)), small),
				run("constraints-level1", "operators over constraints and literals", 3, level(union(stride(cons, t.pick(3, 1)), litAtoms(2, false))), small),
			}
			// configuration stored on the factory
			l1s := stride(level(stride(l13, 17)), t.pick(5, 1))
			doms = append(doms, Domain{"factory-config", "configuration stored on the factory: algorithm x fallback x boundaries, formulas of two levels", l1s.N, func(c *C, i int) {
				e := l1s.At(i)
				c.Key("%s", e)
				tt := ttOfE(e, 3)
				c.State(tt.hash())
				for k := 0; k < 8; k++ {
					fac := f.NewFactory()
					cfg := &normalform.CNFConfig{Algorithm: []normalform.CNFAlgorithm{normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum, normalform.CNFAdvanced, normalform.CNFFactorization}[k%4],
						FallbackAlgorithmForAdvancedEncoding: []normalform.CNFAlgorithm{normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum}[k/4], DistributionBoundary: 1, CreatedClauseBoundary: 1, AtomBoundary: 2 * (k / 4)}
					if err := fac.PutConfiguration(cfg); err != nil {
						c.Failf("configuration rejected: %v", err)
					}
					fm := mk(fac, e)
					got := normalform.CNF(fac, fm)
					c.Step()
					checkDefCnf(c, fac, fmt.Sprintf("%+v", *cfg), fm.Sprint(fac), got, tt, 3)
				}
			}})
			// histories over one shared auxiliary state
			a, b, cc, d := eVar(0), eVar(1), eVar(2), eVar(3)
			ab := eOr(eAnd(a, b), eLit(5))
			rel := []*E{
				ab,
				eNot(ab),
				eOr(eAnd(ab, d), eAnd(a, eLit(7))),
				eEquiv(ab, eOr(d, eLit(3))),
				eAnd(ab, eOr(a, eAnd(cc, d)), eOr(eLit(1), eAnd(b, eLit(7)))),
				eImpl(eEquiv(a, cc), ab),
				eOr(eNot(ab), eAnd(cc, eOr(b, eAnd(a, d)))),
				eAnd(a, ab),
			}
			bounds := []int{0, 4, 7}
			type alg struct {
				name string
				run  func(fac f.Factory, fm f.Formula, b int, s *normalform.CNFAuxState) f.Formula
			}
			two := []alg{{"TseitinCNF", normalform.TseitinCNF}, {"PGCNF", normalform.PGCNF}}
			ops := len(rel) * len(bounds)
			for _, al := range two {
				al := al
				hl := t.pick(3, 4)
				div := t.pick(1, 5)
				doms = append(doms, Domain{"shared-state-" + al.name, fmt.Sprintf("all sequences of %d transformations (8 related formulas x 3 boundaries) sharing one state and factory (thorough: every 5th), each result and the conjunction of all results", hl), pow(ops, hl) / div, func(c *C, i int) {
					ds := digits(i*div, ops, hl)
					c.Key("%s %v", al.name, ds)
					fac := f.NewFactory()
					st := normalform.NewCNFAuxState()
					var all []f.Formula
					joint := ttConst(4, true)
					h := ""
					for _, o := range ds {
						e := rel[o%len(rel)]
						tt := ttOfE(e, 4)
						fm := mk(fac, e)
						got := al.run(fac, fm, bounds[o/len(rel)], st)
						c.Step()
						c.Logf("%s(%s, %d)", al.name, e, bounds[o/len(rel)])
						h += fmt.Sprint(o, " ")
						c.StateS(al.name + h)
						checkDefCnf(c, fac, al.name, fm.Sprint(fac), got, tt, 4)
						all = append(all, got)
						joint = joint.and(tt)
						c.Assert(projAny(c, fac, all, 4).eq(joint), "%s: the results of the sequence do not jointly denote the conjunction", al.name)
					}
				}})
			}
			// both algorithms in turn on one state
			hm := t.pick(3, 4)
			mixDiv := t.pick(1, 13)
			mixOps := len(rel) * 2 * 2
			doms = append(doms, Domain{"shared-state-both", fmt.Sprintf("all sequences of %d transformations (8 related formulas x 2 boundaries x both algorithms) sharing one state and factory (thorough: every 13th), each result and the conjunction of all results", hm), pow(mixOps, hm) / mixDiv, func(c *C, i int) {
				ds := digits(i*mixDiv, mixOps, hm)
				c.Key("both %v", ds)
				fac := f.NewFactory()
				st := normalform.NewCNFAuxState()
				var all []f.Formula
				joint := ttConst(4, true)
				h := ""
				for _, o := range ds {
					e, b, al := rel[o%len(rel)], []int{0, 7}[o/len(rel)%2], two[o/len(rel)/2]
					tt := ttOfE(e, 4)
					fm := mk(fac, e)
					got := al.run(fac, fm, b, st)
					c.Step()
					c.Logf("%s(%s, %d)", al.name, e, b)
					h += fmt.Sprint(o, " ")
					c.StateS("both" + h)
					checkDefCnf(c, fac, al.name, fm.Sprint(fac), got, tt, 4)
					all = append(all, got)
					joint = joint.and(tt)
					c.Assert(projAny(c, fac, all, 4).eq(joint), "%s: the results of the sequence do not jointly denote the conjunction", al.name)
				}
			}})
			// pairs of arbitrary formulas sharing the state
			ps := stride(level(stride(l13, 5)), t.pick(151, 29))
			doms = append(doms, Domain{"shared-state-pairs", "pairs of two-level formulas where the first is an operand of the second, sharing a state: f, then f op g, then f again", ps.N * 6, func(c *C, i int) {
				m := mixed(i, ps.N, 6)
				x, y := ps.At(m[0]), ps.At((m[0]*7+3)%ps.N)
				var e *E
				switch m[1] % 3 {
				case 0:
					e = eAnd(x, y)
				case 1:
					e = eOr(eNot(x), y)
				case 2:
					e = eEquiv(x, eOr(x, y))
				}
				al := two[m[1]/3]
				c.Key("%s %s %s", al.name, x, e)
				fac := f.NewFactory()
				st := normalform.NewCNFAuxState()
				var all []f.Formula
				joint := ttConst(3, true)
				for k, z := range []*E{x, e, x, eNot(e)} {
					tt := ttOfE(z, 3)
					got := al.run(fac, mk(fac, z), []int{100, 0, 0, 0}[k], st)
					c.Step()
					c.State(tt.hash())
					checkDefCnf(c, fac, al.name, z.String(), got, tt, 3)
					all = append(all, got)
					joint = joint.and(tt)
					c.Assert(projAny(c, fac, all, 3).eq(joint), "%s: joint meaning", al.name)
				}
			}})
			return doms
		},
	})
}
