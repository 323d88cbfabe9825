package main

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/sat"
)

// nopCount is a handler that never cancels.
var _ handler.Handler = (*cancelAt)(nil)

func histConfigs() []satCfg {
	return []satCfg{
		{"default", sat.DefaultConfig},
		{"atmost-phase", func() *sat.Config { return sat.DefaultConfig().UseAtMost(true).InitPhase(true) }},
		{"factory-basic", func() *sat.Config { return sat.DefaultConfig().CNF(sat.CNFFactory).ClauseMin(sat.ClauseMinBasic) }},
		{"fullpg-atmost-none", func() *sat.Config {
			return sat.DefaultConfig().CNF(sat.CNFFullPG).UseAtMost(true).ClauseMin(sat.ClauseMinNone)
		}},
		{"fullpg-lowlevel-phase", func() *sat.Config {
			return withLL(sat.DefaultConfig().CNF(sat.CNFFullPG).InitPhase(true), lowLevelConfigs()[1]())
		}},
		{"pg-restarts", func() *sat.Config {
			return withLL(sat.DefaultConfig().ClauseMin(sat.ClauseMinBasic), lowLevelConfigs()[2]())
		}},
		{"proof", func() *sat.Config { return sat.DefaultConfig().Proofs(true) }},
		{"proof-phase-restarts", func() *sat.Config {
			return withLL(sat.DefaultConfig().Proofs(true).InitPhase(true).UseAtMost(true), lowLevelConfigs()[3]())
		}},
	}
}

// histDomain: all operation sequences up to the depth, with the given configurations (all: every configuration for
// every sequence; otherwise they rotate with the index).
func histDomain(name, bound string, n int, ops []satOp, depth int, cfgs []satCfg, all bool, pre []satOp, deep bool) Domain {
	k := seqCount(len(ops), depth)
	N := k
	if all {
		N *= len(cfgs)
	}
	return Domain{name, fmt.Sprintf("%s: all sequences of up to %d of %d operations, %d configurations%s", bound, depth, len(ops), len(cfgs), map[bool]string{true: "", false: " (rotating)"}[all]), N, func(c *C, i int) {
		var sq []int
		var cf satCfg
		if all {
			sq, cf = seqAt(i/len(cfgs), len(ops), depth), cfgs[i%len(cfgs)]
		} else {
			sq = seqAt(i, len(ops), depth)
			sum := 0
			for _, x := range sq {
				sum += x
			}
			cf = cfgs[(sum+len(sq)+i/7)%len(cfgs)]
		}
		key := cf.name
		for _, x := range sq {
			key += "; " + ops[x].name
		}
		c.Key("%s", key)
		m := newSatM(c, cf.mk(), n)
		m.log = append(m.log, cf.name)
		for _, op := range pre {
			m.do(op, nil)
		}
		for _, x := range sq {
			m.assert(m.do(ops[x], nil), "operation without handler reports a cancelation")
		}
		m.final(deep)
		if m.tt.isFalse() {
			c.Outcome("unsat at the end")
		} else {
			c.Outcome("sat at the end")
		}
	}}
}

// literals: a=0 ~a=1 b=2 ~b=3 c=4 ~c=5 d=6 ~d=7
var (
	la, lna, lb, lnb, lc, lnc, ld, lnd = 0, 1, 2, 3, 4, 5, 6, 7
)

func cl(l ...int) *E {
	s := make([]*E, len(l))
	for i, x := range l {
		s[i] = eLit(x)
	}
	if len(s) == 1 {
		return s[0]
	}
	return eOr(s...)
}

func init() {
	register(&Prop{
		ID: "P11",
		Rule: "A model state is the truth table in force plus the stack of saved states; a transition is one operation on the solver. Every operation's answer is compared with the truth table in force; at the end " +
			"the reported formulas, a model, the verdict for every total assignment as assumptions, and the backbone are compared.",
		Assume: []string{"Incremental constraints are tightened only while the constraint is on the solver."},
		Domains: func(t Tier) []Domain {
			cfgs := histConfigs()
			eq := eEquiv(eVar(0), eAnd(eVar(1), eVar(2)))
			im := eImpl(eOr(eVar(0), eNot(eVar(1))), eAnd(eVar(2), eVar(0)))
			amo := eCC(f.LE, 1, 0, 1, 2)
			var doms []Domain
			core := []satOp{
				opAdd(cl(la, lb)), opAdd(cl(lna, lc)), opAdd(cl(lnb)), opProp(cl(la, lnc)), opAdd(eq), opAdd(amo),
				opCall(nil, nil, false), opCall([]int{la}, nil, false), opCall([]int{lna, lb}, nil, true), opCall(nil, []*E{im}, false),
				opCall([]int{lc}, []*E{cl(lna, lnb)}, true), opSave(), opLoad(0), opLoad(1),
			}
			doms = append(doms, histDomain("histories", "adding clauses, formulas and an at-most constraint, solving with assumptions and temporary formulas, saving and loading", 3, core, t.pick(4, 5), cfgs, false, nil, true))
			doms = append(doms, histDomain("histories-all-configs", "the same operations", 3, core, t.pick(3, 4), cfgs, true, nil, true))
			// assumptions of every shape
			var asm []satOp
			for _, l := range [][]int{{}, {la, la}, {la, lna}, {lb, la, lb}, {lnc, lb, la}, {la, lb, lc, la, lb, lc}, {ld}, {lnd, ld}, {lna}, {lnb, lnc}} {
				asm = append(asm, opCall(l, nil, len(asm)%2 == 0))
			}
			asm = append(asm, opAdd(cl(la, lb, lc)), opAdd(cl(lna, lnb)), opAdd(cl(lna, lnc)), opAdd(cl(lnb)), opProp(cl(la, lnd)))
			doms = append(doms, histDomain("assumptions", "solving with repeated, complementary and unknown assumption literals between additions", 4, asm, t.pick(3, 4), cfgs, true, nil, true))
			// incremental constraints
			inc := []satOp{
				opInc(true, 3), opInc(true, 2), opInc(false, 1), opInc(false, 2), opTighten(1), opTighten(2), opAdd(cl(la, lb)), opAdd(cl(lnc)), opCall(nil, nil, false), opCall([]int{la, lb}, nil, true),
				opCall(nil, []*E{eCC(f.GE, 2, 0, 1, 2, 3)}, false), opSave(), opLoad(0),
			}
			doms = append(doms, histDomain("incremental", "incremental at-most and at-least constraints, tightening, solving, saving and loading", 4, inc, t.pick(4, 5), cfgs, false, nil, false))
			// computations that save and load states themselves
			lits := []int{la, lnb, lc}
			comp := []satOp{
				opAdd(cl(la, lb)), opAdd(eq), opAdd(cl(lnb, lnc)), opAdd(amo), opCall(nil, nil, false), opCall([]int{lb}, nil, true), opOpt(true, lits, nil), opOpt(false, lits, []int{1}), opBackbone(sat.BBBoth, []int{0, 1, 2}), opBackbone(sat.BBPos, []int{1, 2}),
				opEnum([]int{0, 1}, false, false), opEnum([]int{0, 1, 2}, true, true), opSave(), opLoad(0), opFormulas(),
			}
			doms = append(doms, histDomain("computations", "optimisation, backbones, enumeration and counting on the solver between additions, solving, saving and loading", 3, comp, t.pick(4, 5), cfgs, false, nil, true))
			doms = append(doms, histDomain("computations-all-configs", "the same operations", 3, comp, t.pick(2, 3), cfgs, true, []satOp{opAdd(cl(la, lb, lc))}, true))
			// nested states
			st := []satOp{opSave(), opLoad(0), opLoad(1), opLoad(2), opAdd(cl(la, lb)), opAdd(cl(lna)), opAdd(eEquiv(eVar(1), eOr(eVar(0), eVar(2)))), opCall(nil, []*E{im}, false), opOpt(true, lits, nil)}
			doms = append(doms, histDomain("states", "nested saving and loading of states with additions and computations", 3, st, t.pick(5, 6), cfgs, false, nil, false))
			// deeper histories starting from formulas with conflicts
			pre := []satOp{opAdd(cl(la, lb, lc)), opAdd(cl(lna, lnb, ld)), opAdd(cl(la, lnc, lnd)), opAdd(cl(lnb, lc, ld))}
			deep := []satOp{opCall(nil, nil, false), opCall([]int{lna}, nil, true), opCall([]int{lb, lnd}, nil, false), opCall([]int{lnc, la}, nil, true), opAdd(cl(lnb, lnc)), opAdd(cl(lna, lnd)), opAdd(cl(lb, lnd)), opAdd(cl(lna, lb)), opSave(), opLoad(0), opCall(nil, []*E{eEquiv(eVar(0), eVar(3))}, true)}
			doms = append(doms, histDomain("conflicts", "4 clauses over 4 variables, then additions, assumption solving, saving and loading", 4, deep, t.pick(4, 5), cfgs, false, pre, true))
			return doms
		},
	})
}
