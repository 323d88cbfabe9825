package main

import (
	"fmt"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/event"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
)

// cancelEvents returns the cancelation points to explore for n events: all of them up to the bound, else the first and last ones.
func cancelEvents(n, bound int) []int {
	var ks []int
	for k := 0; k < n; k++ {
		if n <= bound || k < bound/2 || k >= n-bound/2 {
			ks = append(ks, k)
		}
	}
	return ks
}

// boundCheck watches the bounds a MaxSAT computation reports.
type boundCheck struct {
	*cancelAt
	lb, ub int
	sawLB  bool
	sawUB  bool
}

func (h *boundCheck) ShouldResume(e event.Event) bool {
	switch x := e.(type) {
	case maxsat.EventMaxSatNewLowerBound:
		h.sawLB, h.lb = true, max(h.lb, x.Bound)
	case maxsat.EventMaxSatNewUpperBound:
		if !h.sawUB || x.Bound < h.ub {
			h.ub = x.Bound
		}
		h.sawUB = true
	}
	return h.cancelAt.ShouldResume(e)
}

func newBoundCheck(k int, sticky bool) *boundCheck {
	return &boundCheck{cancelAt: &cancelAt{k: k, sticky: sticky}, lb: -1}
}

func checkCause(h *cancelAt, st handler.State) string {
	if st.CancelCause == nil {
		return "no cancel cause reported"
	}
	for _, e := range h.stops {
		if e == st.CancelCause.EventType() {
			return ""
		}
	}
	return fmt.Sprintf("reported cancel cause %s, but the handler stopped at %s", st.CancelCause.EventType(), strings.Join(h.stops, ","))
}

// inputs on which the computations have many events
func cancelInputs() []*E {
	a, b, cc, d := eVar(0), eVar(1), eVar(2), eVar(3)
	na, nb, nc, nd := eNot(a), eNot(b), eNot(cc), eNot(d)
	return []*E{
		eTrue, eFalse, a, na, eAnd(a, nb), eOr(a, b, nc),
		eOr(eAnd(a, b), eAnd(cc, d)),
		eAnd(eOr(a, b), eOr(cc, d)),
		eAnd(eOr(a, b), eOr(na, b), eOr(a, nb), eOr(na, nb)),
		eAnd(eOr(a, b, cc), eOr(na, nb, d), eOr(a, nc, nd), eOr(nb, cc, d)),
		eAnd(eOr(a, b), eOr(a, b, cc), eOr(cc, d), eOr(cc, d, na), eOr(nd, b)),
		eOr(eAnd(a, b), eAnd(a, b, cc), eAnd(cc, d), eAnd(cc, d, na), eAnd(nd, b)),
		eEquiv(eEquiv(a, b), eEquiv(cc, d)),
		eImpl(eImpl(a, b), eImpl(cc, eEquiv(d, a))),
		eNot(eEquiv(a, eOr(b, eAnd(cc, nd)))),
		eOr(eAnd(a, b, cc), eAnd(na, nb, d), eAnd(b, nc, nd), eAnd(nb, cc)),
		eAnd(eEquiv(a, b), eEquiv(b, cc), eEquiv(cc, d), eEquiv(d, na)),
		eAnd(a, eImpl(a, b), eImpl(b, eOr(cc, d)), eOr(nc, nd)),
		eOr(eAnd(a, eOr(b, cc)), eAnd(na, eOr(d, nb)), eAnd(cc, d)),
		eAnd(eImpl(a, eAnd(b, cc)), eImpl(na, eOr(b, d)), eEquiv(cc, d)),
		eCC(f.LE, 1, 0, 1, 2, 3), eCC(f.EQ, 2, 0, 1, 2, 3), eAnd(eCC(f.GE, 2, 0, 1, 2), eOr(na, nd)),
		ePBC(f.LE, 4, []int{2, 3, -1, 2}, []int{la, lnb, lc, ld}),
		eOr(ePBC(f.GE, 3, []int{2, 1, 2}, []int{la, lb, lnc}), eAnd(na, d)),
		eAnd(eOr(a, b), eOr(b, cc), eOr(cc, d), eOr(d, a), eOr(na, nc)),
	}
}

func cancelComp(c *C, cp comp, e *E, bound int) {
	fac := f.NewFactory()
	base := never()
	want, ok := cp.run(c, fac, mk(fac, e), base)
	c.Key("%s on %s", cp.name, e)
	c.Assert(ok, "%s on %s reports a cancelation, but the handler never stops it", cp.name, e)
	c.Step()
	c.StateS(cp.name + e.String())
	for _, k := range cancelEvents(base.n, bound) {
		for _, sticky := range []bool{false, true} {
			fac := f.NewFactory()
			fm := mk(fac, e)
			h := &cancelAt{k: k, sticky: sticky, rec: true}
			got, done := cp.run(c, fac, fm, h)
			c.Step()
			where := fmt.Sprintf("%s on %s stopped at event %d of %d (sticky=%v, events %s)", cp.name, e, k, base.n, sticky, strings.Join(h.events, ","))
			if len(h.events) > 12 {
				where = fmt.Sprintf("%s on %s stopped at event %d of %d (sticky=%v, %s)", cp.name, e, k, base.n, sticky, h.events[k])
			}
			c.Assert(h.fired, "%s: event not reached", where)
			if done {
				c.Assert(got == want, "%s: presented as completed with result %s, want %s", where, got, want)
				c.Outcome("completed although stopped: " + cp.name)
			} else {
				if msg := checkCause(h, c.hst); msg != "" {
					c.Failf("%s: %s", where, msg)
				}
				c.Outcome("canceled at " + h.cause.EventType())
			}
			again, done := cp.run(c, fac, fm, nil)
			c.Step()
			c.Assert(done, "%s: repeating without a handler reports a cancelation", where)
			c.Assert(again == want, "%s: repeating without a handler yields %s, want %s", where, again, want)
		}
	}
}

func p13Comps(t Tier) []comp {
	var cs []comp
	for _, cp := range allComps() {
		if cp.handler && !strings.HasPrefix(cp.name, "SAT-default") {
			cs = append(cs, cp)
		}
	}
	// further settings of the advanced simplifier
	for i := 0; i < 16; i += t.pick(5, 1) {
		i := i
		cs = append(cs, transH(fmt.Sprintf("Advanced-%d", i), noConstraints, func(fac f.Factory, fm f.Formula, h handler.Handler) (f.Formula, handler.State) {
			cfg := *simplification.DefaultConfig()
			cfg.RestrictBackbone, cfg.SimplifyNegations, cfg.FactorOut, cfg.UseRatingFunction = i&1 == 0, i&2 == 0, i&4 == 0, i&8 == 0
			return simplification.AdvancedWithHandler(fac, fm, h, &cfg)
		}))
	}
	cs = append(cs, comp{"SMUS-constraints", true, noConstraints, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
		fms := []f.Formula{fm, fac.Variable("a"), fac.Literal("b", false), fac.Or(fac.Literal("a", false), fac.Variable("c")), fac.Implication(fac.Variable("c"), fac.Variable("b")), fac.Not(fm)}
		r, st := smus.ComputeForFormulasWithHandler(fac, fms, orNop(h), fac.Or(fac.Variable("d"), fac.Variable("b")))
		if !c.done(st) {
			return "", false
		}
		return fmt.Sprint(len(r)), true
	}})
	return cs
}

// msCancelRun runs the history, stopping the solve number j at event k.
func msCancelRun(c *C, v msVar, cnf sat.CNFMethod, n int, pre, ops []msOp, j int, h handler.Handler, ca *cancelAt) {
	m := newMsM(c, v, cnf, n)
	for _, op := range pre {
		m.do(op, nil)
	}
	for i, op := range ops {
		if i != j {
			m.do(op, nil)
			continue
		}
		m.log = append(m.log, fmt.Sprintf("[next canceled at event %d sticky=%v]", ca.k, ca.sticky))
		done := m.do(op, h)
		if bc, ok := h.(*boundCheck); ok {
			if sat, opt := msOpt(m.n, m.hard, m.ss); sat {
				if bc.sawLB && bc.lb > opt {
					m.failf("reported lower bound %d, but the optimum is %d", bc.lb, opt)
				}
				if bc.sawUB && bc.ub < opt {
					m.failf("reported upper bound %d, but the optimum is %d", bc.ub, opt)
				}
			}
		}
		if !ca.fired {
			if !done {
				m.failf("reports a cancelation, but the handler did not stop it")
			}
			continue
		}
		if done {
			c.Outcome("completed although stopped") // m.solve compared the result
			continue
		}
		if msg := checkCause(ca, m.last); msg != "" {
			m.failf("%s", msg)
		}
		c.Outcome("canceled at " + ca.cause.EventType())
	}
	m.do(msSolve(), nil)
	m.final()
}

func msCancelDomain(name, bound string, n int, pre, ops []msOp, depth, variants, maxEv int) Domain {
	vs := msVariants()
	byAlg := map[string][]msVar{}
	var algs []string
	for _, v := range vs {
		if byAlg[v.alg] == nil {
			algs = append(algs, v.alg)
		}
		byAlg[v.alg] = append(byAlg[v.alg], v)
	}
	k := seqCount(len(ops), depth)
	return Domain{name, fmt.Sprintf("%s: all sequences of up to %d of %d operations, 7 algorithms, %d rotating settings each; every solve canceled at every event (at most %d: first and last half), once and persistently", bound, depth, len(ops), variants, maxEv), k, func(c *C, i int) {
		sq := seqAt(i, len(ops), depth)
		var seq []msOp
		rot := i/len(ops) + i
		for _, x := range sq {
			seq = append(seq, ops[x])
			rot += x
		}
		for _, a := range algs {
			for q := 0; q < min(variants, len(byAlg[a])); q++ {
				v := byAlg[a][(rot+q*7)%len(byAlg[a])]
				cnf := cnfMethods[(rot/len(byAlg[a])+i+q)%3]
				for j, op := range seq {
					if !op.hdl {
						continue
					}
					base := newBoundCheck(-1, false)
					msCancelRun(c, v, cnf, n, pre, seq, j, base, base.cancelAt)
					for _, k := range cancelEvents(base.n, maxEv) {
						for _, sticky := range []bool{false, true} {
							h := newBoundCheck(k, sticky)
							msCancelRun(c, v, cnf, n, pre, seq, j, h, h.cancelAt)
						}
					}
				}
			}
		}
	}}
}

// kernelRun compiles the formulas on one kernel, stopping compilation j at event k; all diagrams are checked at the end.
func kernelRun(c *C, mkKernel func(fac f.Factory) *bdd.Kernel, es []*E, j int, h *cancelAt) {
	fac := f.NewFactory()
	k := mkKernel(fac)
	var bs []*bdd.BDD
	var want []TT
	check := func() {
		for i, b := range bs {
			got := bddTT(c, b, compVars)
			c.Assert(got.eq(want[i]), "diagram %d of %v denotes %s, want %s", i, es, got, want[i])
			for l := 0; l < i; l++ {
				c.Assert((bs[l].Index == b.Index) == want[l].eq(want[i]), "canonicity: diagrams %d and %d of %v", l, i, es)
			}
		}
	}
	for i, e := range es {
		var b *bdd.BDD
		if i == j {
			var st handler.State
			b, st = bdd.CompileWithKernelAndHandler(fac, mk(fac, e), k, h)
			c.Step()
			if h.fired {
				if st.Success {
					bs, want = append(bs, b), append(want, ttOfE(e, compVars))
					check()
				} else if msg := checkCause(h, st); msg != "" {
					c.Failf("%s", msg)
				}
				c.Outcome("stopped")
				b = bdd.CompileWithKernel(fac, mk(fac, e), k)
			} else {
				c.Assert(st.Success, "cancelation reported without reason")
			}
		} else {
			b = bdd.CompileWithKernel(fac, mk(fac, e), k)
		}
		c.Step()
		bs, want = append(bs, b), append(want, ttOfE(e, compVars))
	}
	check()
}

func bddVar(label string) int {
	for i, v := range vnames {
		if v == label {
			return i
		}
	}
	return -1
}

// bddTT evaluates the node representation of a diagram.
func bddTT(c *C, b *bdd.BDD, n int) TT {
	root := b.NodeRepresentation()
	t := ttConst(n, false)
	for a := uint64(0); a < 1<<uint(n); a++ {
		nd := root
		for depth := 0; nd.InnerNode(); depth++ {
			v := bddVar(nd.Label())
			c.Assert(v >= 0 && v < n && depth <= n, "unexpected label %s in the diagram", nd.Label())
			if a>>uint(v)&1 == 1 {
				nd = nd.High()
			} else {
				nd = nd.Low()
			}
		}
		if nd.Label() == "$true" {
			t.set(a)
		}
	}
	return t
}

func init() {
	register(&Prop{
		ID: "P13",
		Rule: "A case is a computation with an input; every event it raises is used as cancelation point, once and persistently. The stopped run must report the cancelation with the event, or a result equal to the one of the unstopped run; " +
			"repeating on the same factory or object without a handler must give that result. For MaxSAT solvers the histories go on and every later solve is compared with the reference optimum; reported bounds must enclose the optimum.",
		Domains: func(t Tier) []Domain {
			comps := p13Comps(t)
			inputs := cancelInputs()
			fs := functions(3, 0)
			fs2 := functions(3, 2)
			step := t.pick(43, 9)
			for i := 0; i < fs.N; i += step {
				inputs = append(inputs, fs.At(i), fs2.At((i*7+3)%fs2.N))
			}
			doms := []Domain{{"computations", fmt.Sprintf("%d computations, each on those of %d formulas it accepts; every event (at most %d: first and last half)", len(comps), len(inputs), t.pick(26, 160)), len(comps) * len(inputs), func(c *C, i int) {
				cp, e := comps[i%len(comps)], inputs[i/len(comps)]
				if !cp.accepts(e) {
					return
				}
				cancelComp(c, cp, e, t.pick(26, 160))
			}}}
			// several diagrams on one kernel
			kin := []*E{inputs[8], inputs[9], inputs[12], inputs[13], inputs[15], inputs[16], inputs[19], inputs[21], inputs[23], inputs[6]}
			tables := []int32{3, 20, 200}
			kin = kin[:t.pick(7, 10)]
			kk := len(kin)
			doms = append(doms, Domain{"bdd-kernel", fmt.Sprintf("all ordered triples of %d formulas compiled on one kernel with table sizes 3, 20, 200; each compilation canceled at every event, once and persistently, then repeated; all diagrams and canonicity compared", kk), kk * kk * kk * len(tables), func(c *C, i int) {
				d := mixed(i, kk, kk, kk, len(tables))
				es := []*E{kin[d[0]], kin[d[1]], kin[d[2]]}
				mkK := func(fac f.Factory) *bdd.Kernel {
					return bdd.NewKernelWithOrdering(fac, mkVars(fac, compVars), tables[d[3]], tables[d[3]])
				}
				c.Key("%v table %d", es, tables[d[3]])
				for j := range es {
					base := never()
					kernelRun(c, mkK, es, j, base)
					for k := 0; k < base.n; k++ {
						for _, sticky := range []bool{false, true} {
							kernelRun(c, mkK, es, j, &cancelAt{k: k, sticky: sticky})
						}
					}
				}
				c.StateS(fmt.Sprint(es))
			}})
			xor := eEquiv(eVar(0), eNot(eVar(2)))
			or2 := eOr(eAnd(eVar(0), eVar(1)), eAnd(eNot(eVar(0)), eVar(2)))
			preW := []msOp{msHard(cl(la, lb)), msHard(cl(lb, lc)), msHard(cl(la, lc)), msSoft(cl(lna), 4), msSoft(cl(lnb), 3), msSoft(cl(lnc), 2)}
			preU := []msOp{msHard(cl(la, lb)), msHard(cl(lb, lc)), msHard(cl(la, lc)), msSoft(cl(lna), 1), msSoft(cl(lnb), 1), msSoft(cl(lnc), 1)}
			opsW := []msOp{msSolve(), msSave(), msLoad(0), msHard(or2), msSoft(xor, 5), msSoft(cl(ld), 1), msHard(cl(lnd, lna))}
			opsU := []msOp{msSolve(), msSave(), msLoad(0), msHard(or2), msSoft(xor, 1), msSoft(cl(ld), 1), msHard(cl(lnd, lna))}
			preUns := []msOp{msHard(cl(la, lb)), msHard(cl(lna, lb)), msHard(cl(la, lnb)), msSoft(cl(lna), 1), msSoft(cl(lnb), 1)}
			opsUns := []msOp{msSolve(), msSave(), msLoad(0), msHard(cl(lna, lnb)), msSoft(cl(lc), 1)}
			doms = append(doms,
				msCancelDomain("maxsat-weighted", "from a weighted vertex cover of a triangle", 4, preW, opsW, t.pick(2, 3), t.pick(2, 4), t.pick(40, 200)),
				msCancelDomain("maxsat-unweighted", "from an unweighted vertex cover of a triangle", 4, preU, opsU, t.pick(2, 3), t.pick(2, 4), t.pick(40, 200)),
				msCancelDomain("maxsat-unsat", "towards contradictory hard clauses", 4, preUns, opsUns, t.pick(3, 4), t.pick(1, 3), t.pick(40, 200)),
			)
			return doms
		},
	})
}
