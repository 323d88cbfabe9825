package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/sat"
)

// meStrategy is an iteration strategy under test.
type meStrategy struct {
	name string
	mk   func(fac f.Factory) iter.Strategy
}

// peelStrategy is a user-defined strategy: limits of its own for iterating and splitting,
// one split variable per depth, taken from the end.
type peelStrategy struct {
	iterMax, splitMax, width int
}

func (s peelStrategy) MaxModelsForIter(depth int) int {
	if depth > 12 {
		return 1 << 30
	}
	return s.iterMax
}
func (s peelStrategy) MaxModelsForSplitAssignments(int) int { return s.splitMax }
func (s peelStrategy) SplitVarsForRecursionDepth(vars *f.VarSet, _ *sat.Solver, depth int) *f.VarSet {
	c := vars.Content()
	w := min(s.width+depth, len(c))
	return f.NewVarSet(c[len(c)-w:]...)
}
func (s peelStrategy) ReduceSplitVars(vars *f.VarSet, _ int) *f.VarSet {
	c := vars.Content()
	return f.NewVarSet(c[:len(c)-1]...)
}

// meStrategies: strategies over n variables; the fixed providers cover every subset of them.
func meStrategies(n int) []meStrategy {
	r := []meStrategy{
		{"no split", func(f.Factory) iter.Strategy { return iter.NewNoSplitMEStrategy() }},
		{"default", func(f.Factory) iter.Strategy { return iter.DefaultStrategy() }},
		{"nil", func(f.Factory) iter.Strategy { return nil }},
	}
	for _, x := range []struct {
		rate float64
		max  int
	}{{0.5, 18}, {0, 18}, {1, 18}, {1, 1}, {0.3, 2}, {0.75, 3}} {
		r = append(r, meStrategy{fmt.Sprintf("most common %v %d", x.rate, x.max), func(f.Factory) iter.Strategy {
			return iter.NewBasicStrategy(iter.NewMostCommonVarProvider(x.rate, x.max), 3)
		}})
		r = append(r, meStrategy{fmt.Sprintf("least common %v %d", x.rate, x.max), func(f.Factory) iter.Strategy {
			return iter.NewBasicStrategy(iter.NewLeastCommonVarProvider(x.rate, x.max), 4)
		}})
	}
	for _, p := range []peelStrategy{{2, 2, 1}, {3, 2, 2}, {4, 8, 3}, {1, 3, 2}, {3, 1 << 20, 6}} {
		r = append(r, meStrategy{fmt.Sprintf("peel %v", p), func(f.Factory) iter.Strategy { return p }})
	}
	for s := 0; s < 1<<uint(n); s++ {
		r = append(r, meStrategy{fmt.Sprintf("fixed %v", bitsOf(uint64(s))), func(fac f.Factory) iter.Strategy {
			return iter.NewBasicStrategy(iter.NewFixedVarProvider(f.NewVarSet(varsOf(fac, bitsOf(uint64(s)))...)), 1+s%5)
		}})
	}
	return r
}

// checkModels: the models are exactly the projected ones, each once; the additional variables are assigned consistently.
func checkModels(c *C, fac f.Factory, ms []*model.Model, tt TT, vars, add uint64, complete bool, what string) {
	want := map[uint64]bool{}
	n := tt.n
	for a := uint64(0); a < 1<<uint(n); a++ {
		if tt.get(a) {
			want[a&vars] = true
		}
	}
	seen := map[uint64]bool{}
	all := vars | add
	r := newReader(fac, n)
	for _, m := range ms {
		var mask, val uint64
		for _, l := range m.Literals {
			x := r.lit(l)
			c.Assert(x>>1 < n, "%s: the model %s assigns an unrequested variable", what, litsString(fac, m.Literals))
			b := uint64(1) << uint(x>>1)
			c.Assert(mask&b == 0, "%s: the model %s assigns %s twice", what, litsString(fac, m.Literals), vname(x>>1))
			mask |= b
			if x&1 == 0 {
				val |= b
			}
		}
		c.Assert(mask == all, "%s: the model %s assigns the variables %v, must be %v", what, litsString(fac, m.Literals), bitsOf(mask), bitsOf(all))
		c.Assert(want[val&vars], "%s: %s is no model over the variables %v", what, litsString(fac, m.Literals), bitsOf(vars))
		c.Assert(!seen[val&vars], "%s: the model %s is delivered twice", what, litsString(fac, m.Literals))
		seen[val&vars] = true
		ok := false
		for a := uint64(0); a < 1<<uint(n) && !ok; a++ {
			ok = a&all == val && tt.get(a)
		}
		c.Assert(ok, "%s: the model %s does not extend to a model (additional variables %v)", what, litsString(fac, m.Literals), bitsOf(add))
	}
	if complete {
		c.Assert(len(seen) == len(want), "%s: %d models over the variables %v are delivered, there are %d", what, len(seen), bitsOf(vars), len(want))
	}
}

func maskVars(fac f.Factory, mask uint64, rot int) []f.Variable {
	vs := varsOf(fac, bitsOf(mask))
	if len(vs) > 1 {
		rot %= len(vs)
		vs = append(append([]f.Variable{}, vs[rot:]...), vs[:rot]...)
		if rot%2 == 1 {
			vs = append(vs, vs[0]) // a repeated variable
		}
	}
	return vs
}

func knownVars(s *sat.Solver) string {
	fac := s.Factory()
	var r []string
	for _, v := range s.CoreSolver().KnownVariables(fac).Content() {
		n, _ := fac.VarName(v)
		r = append(r, n)
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

// enumAll enumerates on one solver through every interface and checks that nothing of it stays on the solver.
func (m *satM) enumAll(i int, vars, add uint64, st meStrategy, deep bool) {
	c, fac := m.c, m.fac
	what := fmt.Sprintf("after %s: strategy %s, variables %v, additional %v", strings.Join(m.log, "; "), st.name, bitsOf(vars), bitsOf(add))
	known := knownVars(m.s)
	cfg := &iter.Config{Handler: handler.NopHandler, Strategy: st.mk(fac)}
	if i%5 == 3 {
		cfg.Handler = nil // the handler is optional
	}
	vs, av := maskVars(fac, vars, i), maskVars(fac, add, i/2)
	if len(av) == 0 && i%2 == 0 {
		av = nil
	}
	projected := m.tt
	for v := 0; v < m.n; v++ {
		if vars>>uint(v)&1 == 0 {
			projected = projected.exists(v)
		}
	}
	num := projected.count() >> uint(m.n-bits.OnesCount64(vars))
	run := func(k int) {
		c.Step()
		switch k {
		case 0:
			ms, s := enum.OnSolverWithConfig(m.s, vs, cfg, av...)
			c.Assert(s.Success, "%s: enumeration without handler is canceled", what)
			checkModels(c, fac, ms, m.tt, vars, add, true, what)
		case 1:
			n, s := count.OnSolverWithConfig(m.s, vs, cfg)
			c.Assert(s.Success, "%s: counting without handler is canceled", what)
			c.Assert(n.IsInt64() && n.Int64() == int64(num), "%s: counting yields %s models, there are %d", what, n, num)
		case 2:
			b, s := enum.ToBddOnSolverWithConfig(m.s, vs, cfg)
			c.Assert(s.Success, "%s: enumeration to a BDD without handler is canceled", what)
			if len(vs) > 0 {
				c.Assert(bddTT(c, b, m.n).eq(projected), "%s: enumeration to a BDD yields %s, must be %s", what, bddTT(c, b, m.n), projected)
			}
		case 3:
			limit := 1 + i%7
			newLimit := func() *iter.Config {
				return &iter.Config{Handler: iter.HandlerWithLimit(limit), Strategy: st.mk(fac)}
			}
			if i%3 != 1 { // one handler for all of them: it counts anew in each enumeration
				one := newLimit()
				newLimit = func() *iter.Config { return one }
			}
			lc := newLimit()
			ms, s := enum.OnSolverWithConfig(m.s, vs, lc, av...)
			checkModels(c, fac, ms, m.tt, vars, add, s.Success, what+fmt.Sprintf(", limit %d", limit))
			c.Assert(s.Success == (num < limit), "%s: with limit %d and %d models the enumeration ends with success=%v", what, limit, num, s.Success)
			if !s.Success {
				c.Outcome("stopped by the limit")
				c.Assert(s.CancelCause != nil, "%s: no cancel cause", what)
			}
			nn, s2 := count.OnSolverWithConfig(m.s, vs, newLimit())
			c.Assert(s2.Success == (num < limit), "%s: with limit %d and %d models the counting ends with success=%v", what, limit, num, s2.Success)
			_, s3 := enum.ToBddOnSolverWithConfig(m.s, vs, newLimit())
			c.Assert(s3.Success == (num < limit), "%s: with limit %d and %d models the enumeration to a BDD ends with success=%v", what, limit, num, s3.Success)
			c.Assert(nn.Int64() <= int64(num) && (!s2.Success || nn.Int64() == int64(num)), "%s: counting with limit %d yields %s models, there are %d", what, limit, nn, num)
		}
		c.Assert(knownVars(m.s) == known, "%s: the solver knows %s afterwards, before %s", what, knownVars(m.s), known)
	}
	if deep {
		for k := 0; k < 4; k++ {
			run((k + i) % 4)
		}
	} else {
		run(i % 4)
		run((i + 1 + i/4%3) % 4)
	}
	if num == 0 {
		c.Outcome("no model")
	} else if num > 3 {
		c.Outcome("more than three models")
	} else {
		c.Outcome("up to three models")
	}
	m.log = append(m.log, fmt.Sprintf("enumerate %v %v %s", bitsOf(vars), bitsOf(add), st.name))
	c.State(m.tt.hash() ^ vars<<20 ^ add<<40)
}

func init() {
	register(&Prop{
		ID: "P20",
		Rule: "A state is the truth table of everything on the solver with the requested variables; a transition is an enumeration through one of the interfaces (models, count, BDD, limited) with one strategy. " +
			"The delivered models are compared with the projected truth table, each exactly once; the known variables, verdicts and formulas on the solver are compared before and after.",
		Assume: []string{"User-defined strategies allow at least two models per iteration, or none at all beyond a depth, so that the iteration ends.",
			"A limited enumeration may deliver any subset of the models."},
		Domains: func(t Tier) []Domain {
			var doms []Domain
			all5 := meStrategies(5)
			nv := 5
			// every function, every projection, every set of additional variables; variable 3 is never known, 4 sometimes
			fn := functions(3, 0)
			kS, half := t.pick(1, 6), t.pick(2, 1)
			doms = append(doms, Domain{"projections", fmt.Sprintf("all 256 functions over 3 variables (forms rotate) x all 32 sets of variables x all 32 sets of additional variables (every %d. combination) over 5 variables, 2 of them unknown to the solver; %d of %d strategies rotate", half, kS, len(all5)), fn.N * 1024 * kS / half, func(c *C, i int) {
				k := i % kS
				x := i / kS * half
				if half == 2 { // both parities of each set occur
					x += (x/2 ^ x/32 ^ x/1024 ^ x/64 ^ x/4) & 1
				}
				vars, add := uint64(x%32), uint64(x/32%32)
				tt := uint64(x / 1024)
				e := funcTerm(tt, 3, x%4)
				c.Key("%v vars %d add %d #%d", e, vars, add, k)
				cf := rotCfg(x + 7*k)
				m := newSatM(c, cf.mk(), nv)
				if x%3 == 1 { // the unknown variables exist first
					mkVar(m.fac, 3)
					mkVar(m.fac, 4)
				}
				m.do(opAdd(e), nil)
				m.enumAll(x+k, vars, add, all5[(x*5+k*11+int(tt))%len(all5)], false)
				m.assert(m.s.Sat() == !m.tt.isFalse(), "wrong verdict after the enumeration")
			}})
			all6 := meStrategies(6)
			splitRun := func(c *C, es []*E, n, i, k int) {
				cf := rotCfg(i + 13*k)
				m := newSatM(c, cf.mk(), n+1)
				m.log = append(m.log, cf.name)
				if i%3 == 1 {
					mkVar(m.fac, n)
				}
				for _, e := range es {
					m.do(opAdd(e), nil)
				}
				full := uint64(1)<<uint(n+1) - 1
				st := all6[(i*7+k*29)%len(all6)]
				st2 := all6[(i*11+k*17+5)%len(all6)]
				v1, v2 := full>>uint(i%2), uint64(i*5+k*3+1)&full
				if i%4 == 2 {
					v1 = full &^ (1 << uint(i/4%n))
				}
				m.enumAll(i+k, v1, uint64(i/3)&full, st, true)
				m.enumAll(i+2*k+1, v2, full&^v2, st2, false)
				if k == 0 && i%4 == 0 {
					m.final(n <= 4)
				}
			}
			add := func(in inst, mult int) {
				doms = append(doms, instDomain(in, mult, fmt.Sprintf("enumerations over all variables (one of them unknown to the solver) and over rotating subsets with %d rotating strategies; configurations rotate", mult), splitRun))
			}
			add(instClauses(5, 2, 2), t.pick(4, 80))
			add(instClauses(4, 3, t.pick(2, 3)), t.pick(2, 4))
			add(instClauses(3, 3, t.pick(3, 5)), 2)
			add(instSpace("formulas", "all formulas of the space (functions over 3 variables, constraints, nested)", 4, formulaSpace(t)), t.pick(3, 40))
			add(instPairs("pairs", "all ordered pairs of formulas of the space", 4, pairSpace()), t.pick(1, 4))
			add(instAtMost(5, 2, true), 1)
			add(instNative(t.pick(79, 7)), 1)
			for _, x := range t.pickCirc() {
				if x[0] <= 6 {
					add(instCirculant(x[0], x[1], x[2]), 1)
					add(instAsym(x[0], x[1], x[2]), 1)
				}
			}
			// histories: enumerations between other operations
			hn := 3
			alpha := []func(m *satM, i int){}
			for _, e := range []*E{eOr(eVar(0), eVar(1)), eOr(eLit(1), eVar(2)), eLit(3), eCC(f.LE, 1, 0, 1, 2)} {
				alpha = append(alpha, func(m *satM, i int) { m.do(opAdd(e), nil) })
			}
			alpha = append(alpha, func(m *satM, i int) { m.do(opSave(), nil) }, func(m *satM, i int) {
				if len(m.saves) > 0 {
					m.do(opLoad(0), nil)
				}
			}, func(m *satM, i int) { m.do(opOpt(true, []int{0, 2, 4}, nil), nil) },
				func(m *satM, i int) { m.do(opBackbone(sat.BBBoth, []int{0, 1, 2}), nil) })
			for j, vars := range []uint64{7, 3, 13, 12} {
				alpha = append(alpha, func(m *satM, i int) {
					m.enumAll(i+j, vars, uint64(i*3+j)&15, all5[(i*3+j*7)%len(all5)], false)
				})
			}
			depth := t.pick(4, 5)
			ns := seqCount(len(alpha), depth)
			doms = append(doms, Domain{"histories", fmt.Sprintf("all sequences of up to %d operations out of %d (additions, saving and loading states, optimisation, backbone, four enumerations); strategies and configurations rotate", depth, len(alpha)), ns, func(c *C, i int) {
				cf := rotCfg(i)
				m := newSatM(c, cf.mk(), hn+1)
				m.log = append(m.log, cf.name)
				for q, op := range seqAt(i, len(alpha), depth) {
					alpha[op](m, i/7+q)
				}
				m.final(i%3 == 0)
			}})
			// direct functions on formulas
			fs := formulaSpace(t)
			doms = append(doms, Domain{"on-formulas", "all formulas of the space; the functions without a solver, with and without configuration; all sets of variables rotate", fs.N, func(c *C, i int) {
				e := fs.At(i)
				c.Key("%v", e)
				n := 5
				tt := ttOfE(e, n)
				fac := f.NewFactory()
				if i%3 == 1 {
					mkVars(fac, n)
				}
				fm := mk(fac, e)
				for k := 0; k < 3; k++ {
					vars := uint64(i*3+k*11) & 31
					if k == 2 {
						vars = e.vars()
					}
					add := uint64(i+k) & 31
					vs := maskVars(fac, vars, i)
					what := fmt.Sprintf("%v over %v", e, bitsOf(vars))
					projected := tt
					for v := 0; v < n; v++ {
						if vars>>uint(v)&1 == 0 {
							projected = projected.exists(v)
						}
					}
					num := projected.count() >> uint(n-bits.OnesCount64(vars))
					checkModels(c, fac, enum.OnFormula(fac, fm, vs, maskVars(fac, add, i+1)...), tt, vars, add, true, what)
					s := sat.NewSolver(fac)
					s.Add(fm)
					checkModels(c, fac, enum.OnSolver(s, vs, maskVars(fac, add, i+2)...), tt, vars, add, true, what)
					c.Assert(count.OnSolver(s, vs).String() == fmt.Sprint(num), "%s: counting on the solver yields %s, must be %d", what, count.OnSolver(s, vs), num)
					c.Assert(count.OnFormula(fac, fm, vs).String() == fmt.Sprint(num), "%s: counting yields %s, must be %d", what, count.OnFormula(fac, fm, vs), num)
					n0, st := count.OnFormulaWithConfig(fac, fm, vs, nil)
					c.Assert(st.Success && n0.String() == fmt.Sprint(num), "%s: counting without configuration yields %s, must be %d", what, n0, num)
					if len(vs) > 0 {
						b := enum.ToBddOnFormula(fac, fm, vs)
						c.Assert(bddTT(c, b, n).eq(projected), "%s: the BDD is %s, must be %s", what, bddTT(c, b, n), projected)
						b = enum.ToBddOnSolver(s, vs)
						c.Assert(bddTT(c, b, n).eq(projected), "%s: the BDD from the solver is %s, must be %s", what, bddTT(c, b, n), projected)
						c.Assert(b.ModelCount().String() == fmt.Sprint(num), "%s: the BDD has %s models, must be %d", what, b.ModelCount(), num)
					}
					c.Step()
					c.State(projected.hash() ^ vars)
				}
			}})
			return doms
		},
	})
}
