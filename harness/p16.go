package main

import (
	"fmt"

	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/sat"
)

// inst is an enumerated space of formula sets over n variables.
type inst struct {
	name, bound string
	n, N        int
	at          func(i int) []*E
}

func instClauses(n, maxLen, kmax int) inst {
	cs := clauseSets(n, maxLen, 0, kmax)
	return inst{fmt.Sprintf("clauses-%d-%d-%d", n, maxLen, kmax), fmt.Sprintf("all sets of up to %d clauses of length up to %d over %d variables", kmax, maxLen, n), n, cs.N, func(i int) []*E { return clausesE(cs.At(i)) }}
}

func instSpace(name, bound string, n int, s Space) inst {
	return inst{name, bound, n, s.N, func(i int) []*E { return []*E{s.At(i)} }}
}

func instPairs(name, bound string, n int, s Space) inst {
	return inst{name, bound, n, s.N * s.N, func(i int) []*E { return []*E{s.At(i / s.N), s.At(i % s.N)} }}
}

func instCirculant(n, k, comb int) inst {
	ps := patterns(n, k)
	return inst{fmt.Sprintf("circulant-%d-%d-%d", n, k, comb), fmt.Sprintf("all sets of %d circulant patterns of clauses of length %d over %d variables", comb, k, n), n, binom(len(ps), comb), func(i int) []*E {
		var cl [][]int
		for _, x := range unrankComb(len(ps), comb, i) {
			cl = append(cl, ps[x].clauses(n)...)
		}
		return clausesE(cl)
	}}
}

// instAsym: circulant patterns with one clause per pattern left out, and a unit or binary clause instead
func instAsym(n, k, comb int) inst {
	ps := patterns(n, k)
	return inst{fmt.Sprintf("asymmetric-%d-%d-%d", n, k, comb), fmt.Sprintf("all sets of %d circulant patterns of clauses of length %d over %d variables, each without its last j clauses (j rotates)", comb, k, n), n, binom(len(ps), comb), func(i int) []*E {
		var cl [][]int
		for q, x := range unrankComb(len(ps), comb, i) {
			p := ps[x].clauses(n)
			cl = append(cl, p[:len(p)-1-(i+q)%(n-1)]...)
		}
		return clausesE(cl)
	}}
}

func instAtMost(n int, klen int, two bool) inst {
	var ams [][2]any
	for k := 3; k <= n; k++ {
		for _, d := range offsets(n, k) {
			for r := 1; r < k; r++ {
				ams = append(ams, [2]any{d, r})
			}
		}
	}
	ps := patterns(n, klen)
	np := len(ps)
	N := len(ams) * np
	if two {
		N *= np
	}
	return inst{fmt.Sprintf("at-most-%d-%d", n, klen), fmt.Sprintf("all circulant families of at-most-k constraints over %d variables with circulant clause patterns of length %d, the last clause missing", n, klen), n, N, func(i int) []*E {
		var m []int
		if two {
			m = mixed(i, len(ams), np, np)
		} else {
			m = mixed(i, len(ams), np)
		}
		var es []*E
		d, r := ams[m[0]][0].([]int), ams[m[0]][1].(int)
		for j := 0; j < n; j++ {
			vs := make([]int, len(d))
			for q := range d {
				vs[q] = (j + d[q]) % n
			}
			es = append(es, eCC(f.LE, r, vs...))
			if len(d) == n || len(d) == n-1 && i&1 == 0 {
				break
			}
		}
		var cl [][]int
		for q, x := range m[1:] {
			p := ps[x].clauses(n)
			cl = append(cl, p[:len(p)-1-(i+q)%(n-1)]...)
		}
		return append(es, clausesE(cl)...)
	}}
}

func formulaSpace(t Tier) Space {
	s := union(level(litAtoms(2, true)), constraintAtoms(4), negs(constraintAtoms(4)), functions(3, 0), functions(3, 1), functions(3, 2), binary(constraintAtoms(3), litAtoms(3, false)), binary(litAtoms(2, false), constraintAtoms(3)))
	if t == Thorough {
		s = union(s, level(level(litAtoms(1, true))), binary(level(litAtoms(2, false)), level(litAtoms(2, false))), nary(litAtoms(3, true), 4))
	}
	return s
}

func pairSpace() Space {
	return union(binary(litAtoms(2, false), litAtoms(2, false)), constraintAtoms(3), litAtoms(3, true))
}

// coreCfg: configurations and low-level parameters rotate with the index.
func rotCfg(i int) satCfg {
	cfgs, lls := satConfigsAll(), lowLevelConfigs()
	cf := cfgs[i%72]
	ll := lls[(i/72)%len(lls)]
	return satCfg{fmt.Sprint(cf.name, "-ll", (i/72)%len(lls)), func() *sat.Config { return withLL(cf.mk(), ll()) }}
}

func instDomain(in inst, mult int, multBound string, run func(c *C, es []*E, n, i, k int)) Domain {
	return Domain{in.name, in.bound + "; " + multBound, in.N * mult, func(c *C, i int) {
		es := in.at(i / mult)
		c.Key("%v #%d", es, i%mult)
		run(c, es, in.n, i/mult, i%mult)
	}}
}

func init() {
	kinds := []sat.BackboneSort{sat.BBPos, sat.BBNeg, sat.BBBoth}
	register(&Prop{
		ID: "P16",
		Rule: "A state is the truth table of everything on the solver; a transition is an addition or a backbone computation. Every backbone is compared with the literals that hold in all models of the truth table; " +
			"the formulas on the solver and the verdicts afterwards are compared with the truth table, too.",
		Assume: []string{"The list of relevant variables contains no variable twice."},
		Domains: func(t Tier) []Domain {
			var doms []Domain
			run := func(c *C, es []*E, n, i, k int) {
				cf := rotCfg(i + 11*k)
				m := newSatM(c, cf.mk(), n)
				m.log = append(m.log, cf.name)
				h := len(es)
				if i%3 == 1 {
					h = len(es) / 2 // a backbone computation in between
				}
				full := uint64(1)<<uint(n) - 1
				for _, e := range es[:h] {
					m.do(opAdd(e), nil)
				}
				if h < len(es) {
					m.do(opBackbone(kinds[(i+1)%3], bitsOf(full)), nil)
				}
				for _, e := range es[h:] {
					m.do(opAdd(e), nil)
				}
				sub := uint64(i*7+k*3) & full
				vs := bitsOf(sub)
				if i%2 == 1 { // descending
					for a, b := 0, len(vs)-1; a < b; a, b = a+1, b-1 {
						vs[a], vs[b] = vs[b], vs[a]
					}
				}
				m.do(opBackbone(kinds[k%3], vs), nil)
				m.do(opBackbone(sat.BBBoth, bitsOf(full)), nil)
				if n <= 4 {
					m.formulasOnSolver()
				}
				m.assert(m.s.Sat() == !m.tt.isFalse(), "wrong verdict after backbone computations")
				m.do(opBackbone(kinds[(k+1)%3], bitsOf(full&^sub|1)), nil)
				if m.tt.isFalse() {
					c.Outcome("unsat")
				} else {
					c.Outcome("sat")
				}
			}
			add := func(in inst, mult int) {
				doms = append(doms, instDomain(in, mult, fmt.Sprintf("backbones over all variables and over %d rotating subsets, all three types; 72 configurations and 5 low-level settings rotate", mult), run))
			}
			add(instNative(t.pick(7, 1)), 1)
			add(instClauses(3, 3, t.pick(4, 5)), t.pick(2, 3))
			add(instClauses(4, 2, t.pick(3, 4)), 3)
			add(instSpace("formulas", "all formulas of the space (functions over 3 variables, constraints, nested)", 4, formulaSpace(t)), t.pick(12, 72))
			add(instPairs("pairs", "all ordered pairs of formulas of the space", 4, pairSpace()), 1)
			for _, x := range t.pickCirc() {
				add(instCirculant(x[0], x[1], x[2]), 1)
				add(instAsym(x[0], x[1], x[2]), 1)
			}
			add(instAtMost(5, 2, true), 1)
			add(instAtMost(5, 3, t == Thorough), 1)
			if t == Thorough {
				add(instAtMost(6, 2, true), 1)
				add(instAtMost(6, 3, false), 2)
			}
			return doms
		},
	})

	register(&Prop{
		ID: "P17",
		Rule: "A state is the truth table of everything on the solver; a transition is an addition or an optimisation. Every optimum is compared with the maximum (minimum) over the complete truth table; the returned model must assign the " +
			"literals' and the additional variables and extend to a model; the formulas on the solver and the verdicts afterwards are compared with the truth table, too.",
		Assume: []string{"Repeated literals count as often as they are given."},
		Domains: func(t Tier) []Domain {
			var doms []Domain
			encs := []*encoding.Config{nil}
			for _, k := range []encoding.ALKEncoder{encoding.ALKTotalizer, encoding.ALKModularTotalizer, encoding.ALKCardinalityNetwork} {
				e := encoding.DefaultConfig()
				e.ALKEncoder = k
				encs = append(encs, e)
			}
			run := func(c *C, es []*E, n, i int, lits, extra []int) {
				cf := rotCfg(i)
				m := newSatM(c, cf.mk(), n)
				m.log = append(m.log, cf.name)
				if e := encs[i%len(encs)]; e != nil {
					c.Assert(m.fac.PutConfiguration(e) == nil, "configuration rejected")
				}
				h := len(es)
				if i%3 == 1 {
					h = len(es) / 2 // an optimisation in between
				}
				for _, e := range es[:h] {
					m.do(opAdd(e), nil)
				}
				if h < len(es) {
					m.do(opOpt(i%2 == 0, lits, extra), nil)
				}
				for _, e := range es[h:] {
					m.do(opAdd(e), nil)
				}
				m.do(opOpt(true, lits, extra), nil)
				m.do(opOpt(false, lits, extra), nil)
				if n <= 4 && i%5 == 0 {
					m.formulasOnSolver()
				}
				m.do(opCall(nil, nil, false), nil)
				if m.tt.isFalse() {
					c.Outcome("unsat")
				} else {
					c.Outcome(fmt.Sprintf("%d literals", len(lits)))
				}
			}
			// literal vectors: per variable absent, positive, negative, or both; vector number x
			vec := func(n, x int) []int {
				var r []int
				for v := 0; v < n; v++ {
					switch x % 4 {
					case 1:
						r = append(r, 2*v)
					case 2:
						r = append(r, 2*v+1)
					case 3:
						r = append(r, 2*v, 2*v+1)
					}
					x /= 4
				}
				return r
			}
			add := func(in inst, mult int) {
				doms = append(doms, instDomain(in, mult, fmt.Sprintf("maximise and minimise over %d literal vectors out of 4^%d (per variable absent, positive, negative, both; rotating), some of them with repetitions, and rotating additional variables; configurations and encoders rotate", mult, in.n),
					func(c *C, es []*E, n, i, k int) {
						lits := vec(n, i*5+k*(pow(4, n)/mult)+k)
						if (i+k)%4 == 0 && len(lits) > 0 {
							lits = append(lits, lits[0])
						}
						run(c, es, n, i+13*k, lits, bitsOf(uint64(i*3+k)%(1<<uint(n))))
					}))
			}
			all := func(in inst, max int) {
				doms = append(doms, instDomain(in, pow(4, max), fmt.Sprintf("maximise and minimise over all 4^%d literal vectors (per variable absent, positive, negative, both)", max), func(c *C, es []*E, n, i, k int) {
					run(c, es, n, i+13*k, vec(max, k), nil)
				}))
			}
			all(instClauses(3, 3, t.pick(2, 3)), 3)
			all(instClauses(4, 2, t.pick(1, 2)), 4)
			add(instClauses(3, 3, t.pick(4, 5)), t.pick(1, 2))
			add(instClauses(4, 2, t.pick(3, 4)), 2)
			add(instSpace("formulas", "all formulas of the space (functions over 3 variables, constraints, nested)", 4, formulaSpace(t)), t.pick(6, 64))
			add(instPairs("pairs", "all ordered pairs of formulas of the space", 4, pairSpace()), 1)
			for _, x := range t.pickCirc() {
				add(instCirculant(x[0], x[1], x[2]), t.pick(1, 2))
				add(instAsym(x[0], x[1], x[2]), t.pick(1, 2))
			}
			add(instAtMost(5, 2, t == Thorough), t.pick(2, 1))
			add(instAtMost(5, 3, t == Thorough), t.pick(1, 1))
			if t == Thorough {
				add(instAtMost(6, 3, false), 4)
			}
			// many literals: every number of them, the optimum at every value
			for n := 5; n <= t.pick(8, 12); n++ {
				n := n
				doms = append(doms, Domain{fmt.Sprintf("bounds-%d", n), fmt.Sprintf("%d literals, all pairs lower and upper bound on their number as constraints, all sign vectors of a family, all incremental encoders", n), (n + 1) * (n + 1) * len(encs) * 4, func(c *C, i int) {
					m := mixed(i, n+1, n+1, len(encs), 4)
					var lits []int
					coef := make([]int, n)
					for v := 0; v < n; v++ {
						lits = append(lits, 2*v+[]int{0, 1, v & 1, v / 2 & 1}[m[3]])
						coef[v] = 1
					}
					es := []*E{ePBC(f.GE, m[0], coef, lits), ePBC(f.LE, m[1], coef, lits)}
					c.Key("%v", es)
					run(c, es, n, m[2]+len(encs)*(m[3]+4*m[0]), lits, nil)
				}})
			}
			return doms
		},
	})
}

func (t Tier) pickCirc() [][3]int {
	if t == Quick {
		return [][3]int{{5, 3, 2}, {6, 3, 2}}
	}
	return [][3]int{{5, 3, 3}, {6, 3, 2}, {7, 3, 2}, {6, 4, 2}}
}
