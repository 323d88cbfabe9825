package main

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/sat"
)

func proofConfigs() []satCfg {
	lls := lowLevelConfigs()
	var r []satCfg
	for i := 0; i < 8; i++ {
		i := i
		r = append(r, satCfg{fmt.Sprintf("proof%d", i), func() *sat.Config {
			return withLL(sat.DefaultConfig().Proofs(true).CNF([]sat.CNFMethod{sat.CNFPG, sat.CNFFactory, sat.CNFFullPG}[i%3]).
				ClauseMin([]sat.ClauseMinimization{sat.ClauseMinDeep, sat.ClauseMinBasic, sat.ClauseMinNone}[(i/2)%3]).InitPhase(i%2 == 1).UseAtMost(i%4 == 2), lls[i%len(lls)]())
		}})
	}
	return r
}

// checkCoreOf: the propositions ps (with the given formulas) are asserted, every second group in the call itself.
func runCore(c *C, cf satCfg, es []*E, n, split int, assumptions []int) {
	m := newSatM(c, cf.mk(), n)
	m.log = append(m.log, cf.name)
	for i, e := range es {
		if i < split {
			m.do(opProp(e), nil)
		}
	}
	var rest []*E
	if split < len(es) {
		rest = es[split:]
	}
	m.do(opCall(assumptions, rest, true), nil)
	m.do(opCall(nil, nil, true), nil)
	m.do(opCall(assumptions, rest, true), nil)
}

func init() {
	register(&Prop{
		ID: "P14",
		Rule: "A state is the set of asserted propositions (truth table in force); a transition is an addition, a call with core computation, or a state change. Every core must consist of asserted " +
			"propositions (by identity), without repetition, whose conjunction has no model; a core reported as minimal must be.",
		Assume: []string{"For formulas added without a proposition, the core may contain new propositions for clauses of their encoding; then the encoding clauses are used."},
		Domains: func(t Tier) []Domain {
			pcs := proofConfigs()
			var doms []Domain
			// all lists of clauses as propositions
			for _, d := range []struct{ n, len, k int }{{2, 2, t.pick(6, 8)}, {3, 2, t.pick(6, 7)}, {3, 3, t.pick(4, 5)}} {
				d := d
				cs := clauseSets(d.n, d.len, 1, d.k)
				doms = append(doms, Domain{fmt.Sprintf("clauses-%d-%d", d.n, d.len), fmt.Sprintf("all sets of up to %d clauses of length up to %d over %d variables as propositions; asserted before or (some) in the call, forwards and backwards; configurations rotate", d.k, d.len, d.n), cs.N, func(c *C, i int) {
					es := clausesE(cs.At(i))
					c.Key("%v", es)
					if !ttOfClauses(cs.At(i), d.n).isFalse() {
						c.Outcome("sat")
						return
					}
					cf := pcs[i%len(pcs)]
					runCore(c, cf, es, d.n, len(es), nil)
					rev := make([]*E, len(es))
					for j, e := range es {
						rev[len(es)-1-j] = e
					}
					runCore(c, cf, rev, d.n, i%len(es), nil)
					// solved before and between the additions, by formula
					m := newSatM(c, cf.mk(), d.n)
					m.log = append(m.log, cf.name)
					for j, e := range es {
						if j&1 == i&1 {
							m.do(opAdd(e), nil)
						} else {
							m.do(opProp(e), nil)
						}
						m.do(opCall(nil, nil, true), nil)
					}
				}})
			}
			// formulas and constraints
			fs := []*E{eVar(0), eNot(eVar(0)), {Op: OTrue}, {Op: OFalse}, eNot(eVar(1)), eEquiv(eVar(0), eVar(1)), eEquiv(eVar(0), eNot(eVar(1))), eImpl(eVar(0), eAnd(eVar(1), eVar(2))), eAnd(eVar(0), eNot(eVar(2))), eOr(eVar(0), eNot(eVar(0))),
				eOr(eAnd(eVar(0), eVar(1)), eAnd(eNot(eVar(0)), eVar(2))), eNot(eOr(eVar(1), eVar(2))), eAnd(eVar(0), eNot(eVar(0))), eOr(eVar(0), eVar(1), eVar(2)), eEquiv(eEquiv(eVar(0), eVar(1)), eVar(2)),
				eCC(f.LE, 1, 0, 1, 2), eCC(f.EQ, 1, 0, 1, 2), eCC(f.GE, 2, 0, 1, 2), eCC(f.EQ, 2, 0, 1, 2), eCC(f.LT, 1, 0, 1, 2), eCC(f.GT, 2, 0, 1, 2), ePBC(f.LE, 2, []int{2, 1, 3}, []int{la, lnb, lc}), ePBC(f.GE, 3, []int{1, 2, 2}, []int{la, lb, lnc}), ePBC(f.EQ, 2, []int{2, -1, 1}, []int{la, lb, lc}),
				eOr(eCC(f.LE, 1, 0, 1, 2), eVar(0)), eEquiv(eOr(eVar(0), eVar(1)), eAnd(eNot(eVar(0)), eNot(eVar(1)))), eEquiv(eVar(2), eEquiv(eVar(0), eOr(eVar(0), eVar(2))))}
			k := t.pick(3, 4)
			doms = append(doms, Domain{"formulas", fmt.Sprintf("all lists of up to %d propositions out of %d formulas (with repetitions), asserted before or in the call, all configurations in rotation", k, len(fs)), seqCount(len(fs), k), func(c *C, i int) {
				sq := seqAt(i, len(fs), k)
				var es []*E
				for _, x := range sq {
					es = append(es, fs[x])
				}
				c.Key("%v", es)
				cf := pcs[i%len(pcs)]
				runCore(c, cf, es, 3, len(es), nil)
				runCore(c, cf, es, 3, (i/3)%(len(es)+1), [][]int{nil, {la}, {lna, lb}, {lb, lnb}}[i/7%4])
			}})
			// every formula of the space, alone and with a neighbour
			fsp := formulaSpace(t)
			if t == Quick {
				fsp = union(fsp, level(level(litAtoms(1, true))))
			}
			doms = append(doms, Domain{"formula-space", "all formulas of the space (functions over 3 variables in several forms, constraints, nested), alone and as pairs (f_i, f_(3i+1)), under four configurations; and each against its negation", fsp.N, func(c *C, i int) {
				e, g := fsp.At(i), fsp.At((3*i+1)%fsp.N)
				c.Key("%v", e)
				for k := 0; k < 4; k++ {
					cf := pcs[(i+2*k)%len(pcs)]
					switch k {
					case 0:
						runCore(c, cf, []*E{e}, 4, 1, nil)
					case 1:
						runCore(c, cf, []*E{e, eNot(e)}, 4, 2, nil)
					case 2:
						runCore(c, cf, []*E{g, e}, 4, 1, []int{i % 8})
					case 3:
						runCore(c, cf, []*E{eEquiv(e, eNot(e)), g}, 4, i%3, nil)
					}
				}
			}})
			// histories
			ops := []satOp{
				opProp(cl(la, lb)), opProp(cl(lna, lb)), opProp(cl(la, lnb)), opProp(cl(lnc, lnb)), opAdd(cl(lc)), opProp(eEquiv(eVar(0), eVar(1))), opCall(nil, nil, true), opCall([]int{lnb}, nil, true), opCall([]int{lc, la}, nil, false), opCall([]int{lna}, []*E{cl(lnb)}, true),
				opCall(nil, []*E{eNot(eVar(0)), eCC(f.GE, 1, 0, 1)}, true), opSave(), opLoad(0), opLoad(1), opProp(eCC(f.LE, 1, 0, 1, 2)),
			}
			doms = append(doms, histDomain("histories", "additions, core calls with assumptions and temporary propositions, saving and loading", 3, ops, t.pick(4, 5), pcs, false, nil, false))
			pre := []satOp{opProp(cl(la, lb, lc)), opProp(cl(lna, lnb, lnc)), opProp(cl(la, lnb)), opProp(cl(lb, lnc)), opProp(cl(lc, lna))}
			deep := []satOp{opCall([]int{la}, nil, true), opCall([]int{lnc, lb}, nil, false), opCall([]int{lnd, la}, nil, true), opCall(nil, nil, true), opProp(cl(ld, la)), opProp(cl(lnd, lnb)), opCall(nil, []*E{cl(ld), cl(lnd, la)}, true), opSave(), opLoad(0)}
			doms = append(doms, histDomain("histories-conflicts", "an unsatisfiable set of 5 clauses, minus its last one, then the same kind of operations", 4, append(deep, opProp(cl(lc, lna))), t.pick(4, 5), pcs, false, pre[:4], false))
			// contradictory sets, saved and loaded: nothing added afterwards may be left in the proof trace
			bad := []satOp{opSave(), opLoad(0), opLoad(1), opProp(eFalse), opProp(cl(lna)), opAdd(eFalse), opProp(cl(lc, la)), opCall(nil, nil, true), opCall([]int{lna}, []*E{eFalse}, true)}
			for pi, p := range [][]satOp{{opProp(cl(la)), opProp(cl(lna, lb)), opProp(cl(lnb))}, {opProp(cl(la, lb)), opProp(cl(lna, lb)), opProp(cl(la, lnb)), opProp(cl(lna, lnb))}, {opProp(cl(lc)), opProp(eFalse)}} {
				doms = append(doms, histDomain(fmt.Sprint("histories-contradictory-", pi), "a contradictory set, then states, further propositions (also the constant false), calls", 3, bad, t.pick(4, 5), pcs, false, p, false))
			}
			// families with many conflicts
			fams := []struct{ n, k, comb int }{{5, 3, 3}, {6, 3, 2}}
			if t == Thorough {
				fams = []struct{ n, k, comb int }{{5, 3, 3}, {6, 3, 3}, {7, 3, 3}, {5, 2, 3}, {6, 4, 2}}
			}
			for _, fm := range fams {
				fm := fm
				ps := patterns(fm.n, fm.k)
				doms = append(doms, Domain{fmt.Sprintf("circulant-%d-%d-%d", fm.n, fm.k, fm.comb), fmt.Sprintf("all sets of %d circulant patterns of clauses of length %d over %d variables, with one assumption literal, given once or (every second time) n+1 times; configurations rotate", fm.comb, fm.k, fm.n), binom(len(ps), fm.comb), func(c *C, i int) {
					var cl [][]int
					for _, x := range unrankComb(len(ps), fm.comb, i) {
						cl = append(cl, ps[x].clauses(fm.n)...)
					}
					c.Key("%v", cl)
					es := clausesE(cl)
					cf := pcs[i%len(pcs)]
					as := []int{i / 3 % (2 * fm.n)}
					if i%2 == 0 {
						for len(as) <= fm.n {
							as = append(as, as[0])
						}
					}
					runCore(c, cf, es, fm.n, len(es), as)
					runCore(c, cf, es, fm.n, len(es)-2, nil)
				}})
			}
			// pigeon hole: every subset of removed clauses of size up to 1, each clause a proposition
			for holes := 2; holes <= t.pick(3, 4); holes++ {
				holes := holes
				n := holes * (holes + 1)
				var cls [][]int
				for p := 0; p <= holes; p++ {
					var c []int
					for h := 0; h < holes; h++ {
						c = append(c, 2*(p*holes+h))
					}
					cls = append(cls, c)
				}
				for h := 0; h < holes; h++ {
					for p := 0; p <= holes; p++ {
						for q := p + 1; q <= holes; q++ {
							cls = append(cls, []int{2*(p*holes+h) + 1, 2*(q*holes+h) + 1})
						}
					}
				}
				if n > 12 {
					// the reference truth table is limited; the set is minimally unsatisfiable, so every clause must be in the core
					doms = append(doms, Domain{fmt.Sprint("pigeons-", holes), "pigeon hole principle (minimally unsatisfiable: the core is the whole set), all rotations of the clause order and configurations", len(cls) * len(pcs), func(c *C, i int) {
						cf := pcs[i%len(pcs)]
						c.Key("%d %s", i/len(pcs), cf.name)
						fac := f.NewFactory()
						s := sat.NewSolver(fac, cf.mk())
						var ps []f.Proposition
						for j := range cls {
							x := cls[(j+i/len(pcs))%len(cls)]
							p := f.NewStandardProposition(mk(fac, clausesE([][]int{x})[0]))
							ps = append(ps, p)
							s.AddProposition(p)
						}
						res := s.Call(sat.WithCore())
						c.Step()
						c.StateS(fmt.Sprint(i / len(pcs)))
						c.Assert(!res.Sat(), "pigeon hole problem is satisfiable")
						c.Assert(len(res.UnsatCore().Propositions) == len(cls), "core has %d propositions, but the set of %d clauses is minimally unsatisfiable", len(res.UnsatCore().Propositions), len(cls))
						c.Outcome("core")
					}})
					continue
				}
				doms = append(doms, Domain{fmt.Sprint("pigeons-", holes), "pigeon hole principle, all rotations of the clause order, all single removed clauses, all configurations", (len(cls) + 1) * len(cls) * len(pcs), func(c *C, i int) {
					mx := mixed(i, len(cls)+1, len(cls), len(pcs))
					var cur [][]int
					for j := range cls {
						k := (j + mx[1]) % len(cls)
						if k != mx[0] {
							cur = append(cur, cls[k])
						}
					}
					c.Key("%v %s", cur, pcs[mx[2]].name)
					runCore(c, pcs[mx[2]], clausesE(cur), n, len(cur), nil)
				}})
			}
			return doms
		},
	})
}
