package main

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/sat"
)

// runWith runs the operations with the handlers hs (position -> handler) on a fresh solver and checks every report.
func runWith(c *C, cf satCfg, n int, pre, ops []satOp, hs map[int]*cancelAt, final bool) {
	m := newSatM(c, cf.mk(), n)
	m.log = append(m.log, cf.name)
	for _, op := range pre {
		m.do(op, nil)
	}
	for i, op := range ops {
		h := hs[i]
		if h == nil {
			m.assert(m.do(op, nil), "operation without handler reports a cancelation")
			continue
		}
		m.log = append(m.log, fmt.Sprintf("[canceled at event %d sticky=%v]", h.k, h.sticky))
		done := m.do(op, h)
		if !h.fired {
			m.assert(done && m.last.Success, "a cancelation is reported although the handler never stopped the operation")
			continue
		}
		m.assert(!done && !m.last.Success, "the handler stopped the operation at %s, but the result is presented as completed", h.cause.EventType())
		m.assert(m.last.CancelCause != nil && m.last.CancelCause.EventType() == h.cause.EventType(), "reported cancel cause %v, but the event was %s", m.last.CancelCause, h.cause.EventType())
		c.Outcome("canceled at " + h.cause.EventType())
	}
	if final {
		m.final(true)
	}
}

// cancelDomain: all operation sequences up to the depth; for every operation that takes a handler, every event of it is used
// as cancelation point, once and for all later events as well; both: additionally all pairs of canceled operations.
func cancelDomain(name, bound string, n int, ops []satOp, depth int, cfgs []satCfg, all bool, pre []satOp, both bool) Domain {
	k := seqCount(len(ops), depth)
	N := k
	if all {
		N *= len(cfgs)
	}
	bnd := fmt.Sprintf("%s: all sequences of up to %d of %d operations, %d configurations%s; every event of every operation as cancelation point, once and persistently", bound, depth, len(ops), len(cfgs), map[bool]string{true: "", false: " (rotating)"}[all])
	if both {
		bnd += "; all pairs of cancelations"
	}
	return Domain{name, bnd, N, func(c *C, i int) {
		var sq []int
		var cf satCfg
		if all {
			sq, cf = seqAt(i/len(cfgs), len(ops), depth), cfgs[i%len(cfgs)]
		} else {
			sq = seqAt(i, len(ops), depth)
			sum := len(sq)
			for _, x := range sq {
				sum += x
			}
			cf = cfgs[(sum+i/7)%len(cfgs)]
		}
		seq := make([]satOp, len(sq))
		for j, x := range sq {
			seq[j] = ops[x]
		}
		rec := map[int]*cancelAt{}
		for j, op := range seq {
			if op.hdl {
				rec[j] = never()
			}
		}
		if len(rec) == 0 {
			return
		}
		runWith(c, cf, n, pre, seq, rec, false)
		for j := range seq {
			if rec[j] == nil {
				continue
			}
			for k := 0; k < rec[j].n; k++ {
				for _, sticky := range []bool{false, true} {
					runWith(c, cf, n, pre, seq, map[int]*cancelAt{j: {k: k, sticky: sticky}}, true)
				}
				if !both {
					continue
				}
				for l := j + 1; l < len(seq); l++ {
					if rec[l] != nil {
						for q := 0; q < rec[l].n; q++ {
							runWith(c, cf, n, pre, seq, map[int]*cancelAt{j: {k: k}, l: {k: q}}, true)
						}
					}
				}
			}
		}
	}}
}

func init() {
	register(&Prop{
		ID: "P12",
		Rule: "A state is the truth table in force plus the saved states; transitions are operations, some of them stopped by a handler at its k-th event. A stopped operation must report the cancelation and the event, may deliver only " +
			"partial data that are correct, and must leave the solver as it was: all later operations and the final checks (formulas, verdict of every assignment, model, backbone) are compared with the model.",
		Domains: func(t Tier) []Domain {
			cfgs := histConfigs()
			eq := eEquiv(eVar(0), eAnd(eVar(1), eVar(2)))
			im := eImpl(eOr(eVar(0), eNot(eVar(1))), eAnd(eVar(2), eVar(0)))
			amo := eCC(f.LE, 1, 0, 1, 2)
			lits := []int{la, lnb, lc}
			ops := []satOp{
				opAdd(cl(la, lb)), opAdd(cl(lna, lc)), opProp(cl(lnb, lnc)), opAdd(eq), opAdd(amo), opSave(), opLoad(0),
				opCall(nil, nil, false), opCall([]int{lb, lna}, nil, true), opCall(nil, []*E{im}, true), opOpt(true, lits, nil), opOpt(false, lits, []int{1}),
				opBackbone(sat.BBBoth, []int{0, 1, 2}), opEnum([]int{0, 1}, false, false), opEnum([]int{0, 1, 2}, true, true), opEnum([]int{0, 1, 2}, true, false),
			}
			var doms []Domain
			doms = append(doms, cancelDomain("small", "clauses, formulas, calls, optimisation, backbones, enumeration and states over 3 variables", 3, ops, t.pick(3, 4), cfgs, false, nil, false))
			doms = append(doms, cancelDomain("small-pairs", "the same operations", 3, ops, t.pick(2, 3), cfgs, false, []satOp{opAdd(cl(la, lb, lc))}, true))
			// formulas with conflicts: all sign patterns of clause sets over 4 variables that need search
			base := [][]satOp{
				{opAdd(cl(la, lb, lc)), opAdd(cl(lna, lnb, ld)), opAdd(cl(la, lnc, lnd)), opAdd(cl(lnb, lc, ld))},
				{opAdd(cl(la, lb)), opAdd(cl(lna, lb)), opAdd(cl(la, lnb)), opAdd(cl(lna, lnb, lc)), opAdd(cl(lnc, ld))},
				{opAdd(cl(la, lb)), opAdd(cl(lna, lb)), opAdd(cl(la, lnb)), opAdd(cl(lna, lnb))},
				{opAdd(cl(la, lb, lc)), opAdd(cl(lna, lnb)), opAdd(cl(lna, lnc)), opAdd(cl(lnb, lnc)), opAdd(cl(la, ld)), opAdd(cl(lb, ld)), opAdd(cl(lc, lnd))},
				{opProp(eCC(f.GE, 2, 0, 1, 2, 3)), opProp(eCC(f.LE, 2, 0, 1, 2, 3)), opProp(cl(lna, lnb)), opProp(cl(lnc, lnd))},
			}
			cops := []satOp{
				opCall(nil, nil, true), opCall([]int{la}, nil, true), opCall([]int{lnb, lnd}, nil, true), opCall(nil, []*E{eEquiv(eVar(0), eVar(3))}, true), opOpt(true, []int{la, lb, lc, ld}, nil), opOpt(false, []int{la, lb, lnc, ld}, []int{0}),
				opBackbone(sat.BBBoth, []int{0, 1, 2, 3}), opBackbone(sat.BBPos, []int{3, 0}), opEnum([]int{0, 1, 2, 3}, false, false), opEnum([]int{0, 3, 2, 1}, true, false), opAdd(cl(lna, lc)), opSave(), opLoad(0),
			}
			for k, b := range base {
				doms = append(doms, cancelDomain(fmt.Sprint("conflicts-", k), fmt.Sprintf("formula set %d over 4 variables that needs search", k), 4, cops, 2, cfgs, true, b, t == Thorough))
				if t == Thorough {
					doms = append(doms, cancelDomain(fmt.Sprint("conflicts-deep-", k), fmt.Sprintf("formula set %d over 4 variables that needs search", k), 4, cops, 3, cfgs, false, b, false))
				}
			}
			return doms
		},
	})
}
