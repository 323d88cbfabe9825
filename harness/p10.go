package main

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/sat"
)

// satConfigsAll: every combination of the solver options.
func satConfigsAll() []satCfg {
	var r []satCfg
	for i := 0; i < 72; i++ {
		m := mixed(i, 3, 3, 2, 2, 2)
		r = append(r, satCfg{fmt.Sprintf("cnf%d-min%d-atmost%d-proof%d-phase%d", m[0], m[1], m[2], m[3], m[4]), func() *sat.Config {
			return sat.DefaultConfig().CNF(sat.CNFMethod(m[0])).ClauseMin(sat.ClauseMinimization(m[1])).UseAtMost(m[2] == 1).Proofs(m[3] == 1).InitPhase(m[4] == 1)
		}})
	}
	return r
}

// lowLevelConfigs: low-level parameters that make restarts, clause deletion and activity rescaling
// happen on small instances.
func lowLevelConfigs() []func() *sat.LowLevelConfig {
	return []func() *sat.LowLevelConfig{
		sat.DefaultLowLevelConfig,
		func() *sat.LowLevelConfig { // reduce the learnt clauses after every conflict
			l := sat.DefaultLowLevelConfig()
			l.FirstReduceDB, l.IncReduceDB, l.SpecialIncReduceDB = 1, 0, 0
			l.LBLBDFrozenClause = 0
			return l
		},
		func() *sat.LowLevelConfig { // restart as often as possible
			l := sat.DefaultLowLevelConfig()
			l.SizeLBDQueue, l.SizeTrailQueue = 1, 1
			l.FactorK = 1.5
			return l
		},
		func() *sat.LowLevelConfig { // both, with the size as measure
			l := sat.DefaultLowLevelConfig()
			l.FirstReduceDB, l.IncReduceDB, l.SpecialIncReduceDB = 2, 1, 1
			l.SizeLBDQueue, l.SizeTrailQueue = 2, 2
			l.FactorK = 1.1
			l.ReduceOnSize, l.ReduceOnSizeSize = true, 3
			return l
		},
		func() *sat.LowLevelConfig { // no minimisation by binary resolution, fast activity growth
			l := sat.DefaultLowLevelConfig()
			l.LBSizeMinimizingClause, l.LBLBDMinimizingClause = 0, 0
			l.VarDecay, l.ClauseDecay, l.VarInc = 1e-30, 1e-10, 1e90
			return l
		},
	}
}

func withLL(c *sat.Config, l *sat.LowLevelConfig) *sat.Config {
	c.LowLevelConfig = l
	return c
}

// checkSatModel: the model assigns exactly the requested variables known to the solver, consistently with a model of tt.
// known: variables that must be assigned if requested.
func checkSatModel(c *C, fac f.Factory, m *model.Model, want []int, must uint64, tt TT, what string) {
	c.Assert(m != nil, "%s: satisfiable but no model", what)
	pos, known := modelLits(c, fac, m, tt.n)
	req := uint64(0)
	for _, v := range want {
		req |= 1 << uint(v)
	}
	r := newReader(fac, tt.n)
	for _, l := range m.Literals {
		x := r.lit(l)
		c.Assert(x>>1 < tt.n, "%s: the model contains the variable %s that was not requested", what, l.Sprint(fac))
	}
	c.Assert(known&^req == 0, "%s: the model %s assigns variables that were not requested", what, m.Sprint(fac))
	c.Assert(req&must&^known == 0, "%s: the model %s misses requested variables", what, m.Sprint(fac))
	t := tt
	for v := 0; v < tt.n; v++ {
		if known>>uint(v)&1 == 1 {
			t = t.cof(v, pos>>uint(v)&1 == 1)
		}
	}
	c.Assert(!t.isFalse(), "%s: the assignment %s cannot be extended to a model", what, m.Sprint(fac))
}

func essential(t TT) uint64 {
	m := uint64(0)
	for v := 0; v < t.n; v++ {
		if t.depends(v) {
			m |= 1 << uint(v)
		}
	}
	return m
}

func knownMask(fac f.Factory, s *sat.Solver, n int) uint64 {
	m := uint64(0)
	for _, v := range s.CoreSolver().KnownVariables(fac).Content() {
		name, _ := fac.VarName(v)
		for i := 0; i < n; i++ {
			if vname(i) == name {
				m |= 1 << uint(i)
			}
		}
	}
	return m
}

func bitsOf(m uint64) []int {
	var r []int
	for v := 0; m>>uint(v) != 0; v++ {
		if m>>uint(v)&1 == 1 {
			r = append(r, v)
		}
	}
	return r
}

func varsOf(fac f.Factory, vs []int) []f.Variable {
	r := make([]f.Variable, len(vs))
	for i, v := range vs {
		r[i] = mkVar(fac, v)
	}
	return r
}

// checkSat: verdict, model over the requested variables, literals forced at level 0; asked twice.
func checkSat(c *C, fac f.Factory, s *sat.Solver, tt TT, reqs []uint64, what string) {
	c.StateS(tt.String())
	for _, req := range reqs {
		want := bitsOf(req)
		res := s.Call(sat.WithModel(varsOf(fac, want)).WithUPZeros())
		c.Step()
		c.Assert(res.OK(), "%s: the call without handler reports a cancelation", what)
		c.Assert(res.Sat() == !tt.isFalse(), "%s: satisfiable=%v, must be %v", what, res.Sat(), !tt.isFalse())
		if res.Sat() {
			checkSatModel(c, fac, res.Model(), want, essential(tt)|knownMask(fac, s, tt.n), tt, what)
			r := newReader(fac, tt.n)
			for _, l := range res.UpZeroLits() {
				x := r.lit(l)
				if x>>1 < tt.n {
					c.Assert(tt.implies(ttLit(tt.n, x)), "%s: literal %s reported as propagated is not implied", what, l.Sprint(fac))
				}
			}
			c.Outcome("sat")
		} else {
			c.Assert(res.Model() == nil, "%s: model for an unsatisfiable call", what)
			c.Outcome("unsat")
		}
	}
}

func ttLit(n, l int) TT {
	if l&1 == 0 {
		return ttVar(n, l>>1)
	}
	return ttVar(n, l>>1).not()
}

func addAll(s *sat.Solver, fac f.Factory, es []*E, way int) {
	switch way % 3 {
	case 0:
		for _, e := range es {
			s.Add(mk(fac, e))
		}
	case 1:
		var fms []f.Formula
		for _, e := range es {
			fms = append(fms, mk(fac, e))
		}
		s.Add(fms...)
	case 2:
		var ps []f.Proposition
		for i, e := range es {
			ps = append(ps, mkProp(mk(fac, e), i))
		}
		s.AddProposition(ps...)
	}
}

func init() {
	register(&Prop{
		ID: "P10",
		Rule: "A model state is a distinct truth table on a solver; a transition is one solver call or predicate evaluation. " +
			"Verdicts and models are compared with the complete truth table of everything added.",
		Assume: []string{"'assigns exactly the requested variables' is read as: no other variable, every requested variable that the solver knows or on which the formulas depend."},
		Domains: func(t Tier) []Domain {
			cfgs := satConfigsAll()
			lls := lowLevelConfigs()
			var doms []Domain
			// predicates
			sp := union(level(level(litAtoms(1, true))), level(litAtoms(2, true)))
			if t == Thorough {
				sp = level(level(litAtoms(2, true)))
			}
			doms = append(doms, Domain{"predicates-formulas", "all formulas of the space: satisfiable, tautology, contradiction", sp.N, func(c *C, i int) {
				e := sp.At(i)
				n := 2
				fac := f.NewFactory()
				fm := mk(fac, e)
				tt := ttOfE(e, n)
				c.Key("%s", e)
				c.StateS(tt.String())
				c.Assert(sat.IsSatisfiable(fac, fm) == !tt.isFalse(), "IsSatisfiable(%s)", e)
				c.Assert(sat.IsTautology(fac, fm) == tt.isTrue(), "IsTautology(%s)", e)
				c.Assert(sat.IsContradiction(fac, fm) == tt.isFalse(), "IsContradiction(%s)", e)
				c.Step()
			}})
			ps := union(litAtoms(3, true), binary(litAtoms(2, false), litAtoms(2, false)), nary(litAtoms(3, false), 3), constraintAtoms(3), negs(constraintAtoms(3)))
			if t == Quick {
				ps = union(litAtoms(2, true), binary(litAtoms(2, false), litAtoms(2, false)), functions(2, 0), constraintAtoms(3), negs(constraintAtoms(3)))
			}
			doms = append(doms, Domain{"predicates-pairs", "all ordered pairs of formulas of the space: implication and equivalence", ps.N * ps.N, func(c *C, i int) {
				e1, e2 := ps.At(i/ps.N), ps.At(i%ps.N)
				c.Key("%s / %s", e1, e2)
				fac := f.NewFactory()
				f1, f2 := mk(fac, e1), mk(fac, e2)
				t1, t2 := ttOfE(e1, 3), ttOfE(e2, 3)
				c.StateS(t1.String() + t2.String())
				c.Assert(sat.Implies(fac, f1, f2) == t1.implies(t2), "Implies(%s, %s)", e1, e2)
				c.Assert(sat.IsEquivalent(fac, f1, f2) == t1.eq(t2), "IsEquivalent(%s, %s)", e1, e2)
				c.Step()
			}})
			// single formulas with all configurations
			sf := union(level(litAtoms(2, true)), constraintAtoms(4), negs(constraintAtoms(4)), functions(3, 0), functions(3, 1), functions(3, 2), binary(constraintAtoms(3), litAtoms(3, false)), binary(litAtoms(2, false), constraintAtoms(3)))
			if t == Thorough {
				sf = union(sf, level(level(litAtoms(1, true))), binary(level(litAtoms(2, false)), level(litAtoms(2, false))), binary(constraintAtoms(4), constraintAtoms(4)), nary(litAtoms(3, true), 4))
			}
			doms = append(doms, Domain{"single-formulas", "all formulas of the space with all 72 configurations; models over all variable subsets (rotating with the index) and over a superset", sf.N * len(cfgs), func(c *C, i int) {
				e := sf.At(i / len(cfgs))
				cf := cfgs[i%len(cfgs)]
				c.Key("%s %s", cf.name, e)
				fac := f.NewFactory()
				s := sat.NewSolver(fac, cf.mk())
				addAll(s, fac, []*E{e}, i/len(cfgs))
				tt := ttOfE(e, 5)
				checkSat(c, fac, s, tt, []uint64{uint64(i/7) % 32, 31}, cf.name+" "+e.String())
				c.Assert(s.Sat() == !tt.isFalse(), "%s: Sat() of %s", cf.name, e)
			}})
			// two formulas
			tf := union(binary(litAtoms(2, false), litAtoms(2, false)), constraintAtoms(3), litAtoms(3, true))
			tn := tf.N
			ncq := t.pick(6, 72)
			doms = append(doms, Domain{"two-formulas", fmt.Sprintf("all ordered pairs of formulas of the space, %d configurations (rotating with the index in the quick tier)", ncq), tn * tn * ncq, func(c *C, i int) {
				m := mixed(i, tn, tn, ncq)
				cf := cfgs[(m[2]*(72/ncq)+(m[0]+m[1])%(72/ncq))%72]
				es := []*E{tf.At(m[0]), tf.At(m[1])}
				c.Key("%s %s %s", cf.name, es[0], es[1])
				fac := f.NewFactory()
				s := sat.NewSolver(fac, cf.mk())
				addAll(s, fac, es, m[0]+m[2])
				tt := ttOfE(eAnd(es...), 4)
				checkSat(c, fac, s, tt, []uint64{uint64(i) % 16}, fmt.Sprint(cf.name, " ", es))
			}})
			// clause sets
			cs := clauseSets(3, 3, 0, t.pick(4, 5))
			doms = append(doms, Domain{"clause-sets", fmt.Sprintf("all sets of up to %d clauses over 3 variables; configuration and low-level parameters rotate with the index", t.pick(4, 5)), cs.N, func(c *C, i int) {
				cl := cs.At(i)
				cf := cfgs[i%72]
				c.Key("%s %v", cf.name, cl)
				fac := f.NewFactory()
				s := sat.NewSolver(fac, withLL(cf.mk(), lls[i/72%len(lls)]()))
				es := clausesE(cl)
				addAll(s, fac, es, i%3)
				tt := ttOfClauses(cl, 3)
				checkSat(c, fac, s, tt, []uint64{7, uint64(i) % 8}, fmt.Sprint(cf.name, " ", es))
			}})
			// circulant families: many conflicts on few variables
			cores := []int{}
			for i := range cfgs { // the CNF method is irrelevant for clauses
				if i/24 == 1 {
					cores = append(cores, i)
				}
			}
			type fam struct {
				n, k, comb int
			}
			fams := []fam{{5, 3, 2}, {5, 3, 3}, {6, 3, 3}}
			if t == Thorough {
				fams = []fam{{5, 3, 3}, {6, 3, 3}, {7, 3, 3}, {8, 3, 3}, {5, 3, 4}, {6, 4, 3}}
			}
			for _, fm := range fams {
				fm := fm
				ps := patterns(fm.n, fm.k)
				N := binom(len(ps), fm.comb)
				doms = append(doms, Domain{fmt.Sprintf("circulant-%d-%d-%d", fm.n, fm.k, fm.comb), fmt.Sprintf("all sets of %d circulant patterns of clauses of length %d over %d variables (%d clauses); configuration and low-level parameters rotate with the index", fm.comb, fm.k, fm.n, fm.comb*fm.n), N, func(c *C, i int) {
					var cl [][]int
					for _, x := range unrankComb(len(ps), fm.comb, i) {
						cl = append(cl, ps[x].clauses(fm.n)...)
					}
					runClauses(c, cl, nil, fm.n, cfgs[cores[i%len(cores)]], lls[i/len(cores)%len(lls)], i)
				}})
			}
			// parity systems
			pn := t.pick(5, 6)
			offs := offsets(pn, 3)
			np := len(offs) << uint(pn)
			doms = append(doms, Domain{"parity-systems", fmt.Sprintf("all pairs of circulant systems of parity equations of length 3 over %d variables with all right-hand sides; configuration and low-level parameters rotate", pn), np * np, func(c *C, i int) {
				var cl [][]int
				for _, x := range []int{i / np, i % np} {
					d, rhs := offs[x>>uint(pn)], x&(1<<uint(pn)-1)
					for j := 0; j < pn; j++ {
						for s := 0; s < 8; s++ {
							// clause with signs s forbids the assignment s; parity of s must differ from the right-hand side
							if (s&1+s>>1&1+s>>2)&1 != rhs>>uint(j)&1 {
								cl = append(cl, []int{2*((j+d[0])%pn) + s&1, 2*((j+d[1])%pn) + s>>1&1, 2*((j+d[2])%pn) + s>>2})
							}
						}
					}
				}
				runClauses(c, cl, nil, pn, cfgs[cores[i%len(cores)]], lls[i/len(cores)%len(lls)], i)
			}})
			// native at-most constraints
			for _, n := range []int{5, t.pick(6, 7)} {
				n := n
				var ams [][2]any
				for k := 3; k <= n; k++ {
					for _, d := range offsets(n, k) {
						for r := 1; r < k; r++ {
							ams = append(ams, [2]any{d, r})
						}
					}
				}
				ps := append(patterns(n, 2), patterns(n, 3)...)
				np := len(ps)
				acfg := []int{}
				for i := range cfgs {
					m := mixed(i, 3, 3, 2, 2, 2)
					if m[0] == 1 && m[2] == 1 {
						acfg = append(acfg, i)
					}
				}
				two := n == 5 || t == Thorough
				N := len(ams) * np
				if two {
					N *= np
				}
				doms = append(doms, Domain{fmt.Sprintf("native-at-most-%d", n), fmt.Sprintf("all circulant families of at-most-k constraints (every offset set, every k) over %d variables with one or two circulant clause patterns of length 2 and 3, native at-most clauses; the other options rotate", n), N, func(c *C, i int) {
					var m []int
					if two {
						m = mixed(i, len(ams), np, np)
						if m[1] > m[2] {
							return
						}
					} else {
						m = mixed(i, len(ams), np)
					}
					var cons []*E
					d, r := ams[m[0]][0].([]int), ams[m[0]][1].(int)
					for j := 0; j < n; j++ {
						vs := make([]int, len(d))
						for q := range d {
							vs[q] = (j + d[q]) % n
						}
						cons = append(cons, eCC(f.LE, r, vs...))
						if len(d) == n {
							break
						}
					}
					var cl [][]int
					for _, x := range m[1:] {
						cl = append(cl, ps[x].clauses(n)...)
					}
					runClauses(c, cl, cons, n, cfgs[acfg[i%len(acfg)]], lls[i/len(acfg)%len(lls)], i)
				}})
			}
			// one native at-most constraint and two clauses, all configurations of the minimisation
			an := 5
			acl := [][]int{}
			for _, x := range allClauses(an, 4, false) {
				if len(x) >= 3 {
					acl = append(acl, x)
				}
			}
			var aam []*E
			for _, d := range [][]int{{0, 1, 2}, {0, 1, 3}, {1, 2, 4}, {0, 1, 2, 3}, {0, 2, 3, 4}, {0, 1, 2, 3, 4}} {
				for r := 1; r < len(d); r++ {
					if t == Thorough || r < 3 {
						aam = append(aam, eCC(f.LE, r, d...))
					}
				}
			}
			naq := binom(len(acl), 2)
			doms = append(doms, Domain{"at-most-and-clauses", "every at-most-k constraint of a list with every pair of clauses of length 3 and 4 over 5 variables, native at-most clauses, every clause minimisation, both initial phases (quick: rotating); every model afterwards solved as assumptions", naq * len(aam) * t.pick(1, 6), func(c *C, i int) {
				m := mixed(i, naq, len(aam), t.pick(1, 6))
				x := unrankComb(len(acl), 2, m[0])
				k := m[2]
				if t == Quick {
					k = (m[0] + m[1]) % 6
				}
				cf := cfgs[24+k/2*8+4+k%2]
				cl := [][]int{acl[x[0]], acl[x[1]]}
				c.Key("%s %v %v", cf.name, aam[m[1]], cl)
				fac := f.NewFactory()
				s := sat.NewSolver(fac, cf.mk())
				s.Add(mk(fac, aam[m[1]]))
				for _, y := range cl {
					s.Add(fac.Clause(mkLits(fac, y)...))
				}
				tt := ttOfClauses(cl, an)
				for a := uint64(0); a < 32; a++ {
					if tt.get(a) && !aam[m[1]].Eval(a) {
						tt.w[0] &^= 1 << a
					}
				}
				what := func() string { return fmt.Sprint(cf.name, " ", aam[m[1]], cl) }
				quickCheck(c, fac, s, tt, 31, what)
				checkLearnt(c, fac, s, tt, 32, what)
			}})
			// cardinality constraints in every combination, native or encoded
			var ccs []*E
			for mask := 1; mask < 16; mask++ {
				vs := bitsOf(uint64(mask))
				for _, cmp := range cmps {
					for r := 0; r <= len(vs)+1; r++ {
						ccs = append(ccs, eCC(cmp, r, vs...))
					}
				}
			}
			nn := len(ccs)
			kk := t.pick(2, 12)
			doms = append(doms, Domain{"cardinality-pairs", "all ordered pairs of cardinality constraints over the subsets of 4 variables with every comparator and bound; native at-most clauses on and off, other options rotate", nn * nn * kk, func(c *C, i int) {
				m := mixed(i, nn, nn, kk)
				cf := cfgs[(i*12+m[2]+(m[0]+m[1])*5)%72]
				es := []*E{ccs[m[0]], ccs[m[1]]}
				c.Key("%s %s %s", cf.name, es[0], es[1])
				fac := f.NewFactory()
				s := sat.NewSolver(fac, cf.mk())
				addAll(s, fac, es, i)
				tt := ttOfE(eAnd(es...), 4)
				checkSat(c, fac, s, tt, []uint64{15}, fmt.Sprint(cf.name, " ", es))
			}})
			return doms
		},
	})
}

// runClauses solves clauses and constraints in two halves.
func runClauses(c *C, cl [][]int, cons []*E, n int, cf satCfg, ll func() *sat.LowLevelConfig, i int) {
	c.Key("%s %v %v", cf.name, cons, cl)
	fac := f.NewFactory()
	s := sat.NewSolver(fac, withLL(cf.mk(), ll()))
	for _, e := range cons {
		s.Add(mk(fac, e))
	}
	tc := newTT(n)
	for a := uint64(0); a < 1<<uint(n); a++ {
		ok := true
		for _, e := range cons {
			ok = ok && e.Eval(a)
		}
		if ok {
			tc.set(a)
		}
	}
	h := len(cl) * 2 / 3
	lits := func(l []int) []f.Literal { return mkLits(fac, l) }
	for _, x := range cl[:h] {
		s.Add(fac.Clause(lits(x)...))
	}
	full := uint64(1)<<uint(n) - 1
	what := func() string { return fmt.Sprint(cf.name, " ", cons, cl) }
	quickCheck(c, fac, s, ttOfClauses(cl[:h], n).and(tc), full, what)
	for _, x := range cl[h:] {
		s.Add(fac.Clause(lits(x)...))
	}
	tt := ttOfClauses(cl, n).and(tc)
	quickCheck(c, fac, s, tt, full, what)
	checkLearnt(c, fac, s, tt, 12, what)
}

// checkLearnt: no clause learnt so far excludes a model: up to limit models are solved as assumptions.
func checkLearnt(c *C, fac f.Factory, s *sat.Solver, tt TT, limit int, what func() string) {
	for a := uint64(0); a < 1<<uint(tt.n) && limit > 0; a++ {
		if !tt.get(a) {
			continue
		}
		limit--
		lits := make([]f.Literal, tt.n)
		for v := range lits {
			lits[v] = mkLit(fac, 2*v+1-int(a>>uint(v)&1))
		}
		c.Step()
		if !s.Call(sat.WithAssumptions(lits)).Sat() {
			c.Failf("%s: after solving, the model %s is not accepted as assumption", what(), litsString(fac, lits))
		}
	}
}

// quickCheck is checkSat without building texts for passing cases.
func quickCheck(c *C, fac f.Factory, s *sat.Solver, tt TT, req uint64, what func() string) {
	c.State(tt.hash())
	res := s.Call(sat.WithModel(varsOf(fac, bitsOf(req))))
	c.Step()
	if !res.OK() || res.Sat() == tt.isFalse() {
		c.Failf("%s: satisfiable=%v, must be %v", what(), res.Sat(), !tt.isFalse())
	}
	if res.Sat() {
		pos, known := modelLits(c, fac, res.Model(), tt.n)
		if known&essential(tt)&req != essential(tt)&req || !tt.get(pos) {
			checkSatModel(c, fac, res.Model(), bitsOf(req), essential(tt), tt, what())
		}
		c.Outcome("sat")
	} else {
		c.Outcome("unsat")
	}
}
