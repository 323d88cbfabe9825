package main

import (
	"fmt"
	"strings"

	"github.com/booleworks/logicng-go/encoding"
	"github.com/booleworks/logicng-go/explanation"
	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/sat"
)

func andAll(tts []TT, n int, mask uint64) TT {
	t := ttConst(n, true)
	for i, x := range tts {
		if mask>>uint(i)&1 == 1 {
			t = t.and(x)
		}
	}
	return t
}

// musOf checks a result against the list of propositions; returns the mask of the used positions.
func propsMask(c *C, what string, given, res []f.Proposition) uint64 {
	mask := uint64(0)
	for _, p := range res {
		found := false
		for i, q := range given {
			if p == q && mask>>uint(i)&1 == 0 {
				mask |= 1 << uint(i)
				found = true
				break
			}
		}
		c.Assert(found, "%s: the result contains a proposition that was not given (or more often than given)", what)
	}
	return mask
}

func checkMUS(c *C, what string, fac f.Factory, given []f.Proposition, tts []TT, n int, core *explanation.UnsatCore, err error) {
	c.Step()
	full := uint64(1)<<uint(len(given)) - 1
	all := andAll(tts, n, full)
	if !all.isFalse() {
		c.Assert(err != nil && core == nil, "%s: satisfiable propositions, but no error", what)
		return
	}
	c.Assert(err == nil && core != nil, "%s: unsatisfiable propositions, but error %v", what, err)
	c.Assert(core.IsGuaranteedMUS, "%s: result not marked as minimal", what)
	mask := propsMask(c, what, given, core.Propositions)
	c.Assert(andAll(tts, n, mask).isFalse(), "%s: %s is satisfiable", what, coreString(fac, core))
	for i := range given {
		if mask>>uint(i)&1 == 1 {
			c.Assert(!andAll(tts, n, mask&^(1<<uint(i))).isFalse(), "%s: %s is not minimal", what, coreString(fac, core))
		}
	}
	c.Outcome(fmt.Sprintf("MUS of size %d", popcount(mask)))
}

func popcount(x uint64) int {
	k := 0
	for ; x != 0; x &= x - 1 {
		k++
	}
	return k
}

// minUnsat: the least number of propositions that are unsatisfiable together with extra; -1 if there is none.
func minUnsat(tts []TT, n int, extra TT) int {
	best := -1
	for mask := uint64(0); mask < 1<<uint(len(tts)); mask++ {
		if k := popcount(mask); best < 0 || k < best {
			if andAll(tts, n, mask).and(extra).isFalse() {
				best = k
			}
		}
	}
	return best
}

func checkSMUS(c *C, what string, fac f.Factory, es, add []*E, given []f.Proposition, tts []TT, n int) {
	extra := ttConst(n, true)
	var cons []f.Formula
	for _, e := range add {
		extra = extra.and(ttOfE(e, n))
		cons = append(cons, mk(fac, e))
	}
	want := minUnsat(tts, n, extra)
	res := smus.Compute(fac, given, cons...)
	c.Step()
	var fms []f.Formula
	for _, p := range given {
		fms = append(fms, p.Formula())
	}
	res2 := smus.ComputeForFormulas(fac, fms, cons...)
	c.Step()
	if want < 0 {
		c.Assert(res == nil && res2 == nil, "%s: satisfiable, but a SMUS is returned", what)
		return
	}
	c.Assert(res != nil && res2 != nil, "%s: unsatisfiable, but no SMUS is returned", what)
	mask := propsMask(c, what, given, res)
	c.Assert(andAll(tts, n, mask).and(extra).isFalse(), "%s: the SMUS is satisfiable", what)
	c.Assert(len(res) == want, "%s: SMUS of size %d, the minimum is %d", what, len(res), want)
	c.Assert(len(res2) == want, "%s: SMUS of formulas of size %d, the minimum is %d", what, len(res2), want)
	t := extra
	for _, fm := range res2 {
		found := false
		for i, x := range fms {
			if x == fm {
				found = true
				t = t.and(tts[i])
			}
		}
		c.Assert(found, "%s: the SMUS contains a formula that was not given", what)
	}
	c.Assert(t.isFalse(), "%s: the SMUS of formulas is satisfiable", what)
	c.Outcome(fmt.Sprintf("SMUS of size %d", want))
}

func runMus(c *C, es, add []*E, n int, withMus bool, cfg int, dup bool) {
	fac := f.NewFactory()
	switch cfg % 4 {
	case 1:
		e := encoding.DefaultConfig()
		e.ALKEncoder, e.AMKEncoder = encoding.ALKTotalizer, encoding.AMKTotalizer
		c.Assert(fac.PutConfiguration(e) == nil, "configuration rejected")
	case 2:
		c.Assert(fac.PutConfiguration(sat.DefaultConfig().UseAtMost(true).InitPhase(true)) == nil, "configuration rejected")
	case 3:
		c.Assert(fac.PutConfiguration(sat.DefaultConfig().CNF(sat.CNFFullPG).ClauseMin(sat.ClauseMinBasic)) == nil, "configuration rejected")
	}
	var given []f.Proposition
	var tts []TT
	var strs []string
	for i, e := range es {
		strs = append(strs, e.String())
		if dup && i > 0 && i == len(es)-1 {
			// the last proposition is the first one again
			given = append(given, given[0])
			tts = append(tts, tts[0])
			continue
		}
		given = append(given, mkProp(mk(fac, e), len(given)))
		tts = append(tts, ttOfE(e, n))
	}
	c.StateS(strings.Join(strs, ","))
	what := fmt.Sprint(es, " with ", add)
	if withMus {
		in := append([]f.Proposition{}, given...)
		core, err := mus.ComputeInsertionBased(fac, &in)
		checkMUS(c, "insertion-based MUS of "+what, fac, given, tts, n, core, err)
		core, err = mus.ComputeDeletionBased(fac, &in)
		checkMUS(c, "deletion-based MUS of "+what, fac, given, tts, n, core, err)
		for i := range in {
			c.Assert(in[i] == given[i] && len(in) == len(given), "the input list was changed")
		}
	}
	checkSMUS(c, "SMUS of "+what, fac, es, add, given, tts, n)
}

func init() {
	register(&Prop{
		ID: "P15",
		Rule: "A state is a distinct list of propositions; a transition is one MUS or SMUS computation. Results are compared with all subsets of the list by truth table: unsatisfiable, minimal (every proper subset satisfiable), of least size; " +
			"members must be given propositions (identity).",
		Domains: func(t Tier) []Domain {
			var doms []Domain
			fs := []*E{eVar(0), eNot(eVar(0)), eVar(1), eOr(eVar(0), eNot(eVar(1))), eOr(eNot(eVar(0)), eNot(eVar(1))), eEquiv(eVar(0), eVar(1)), eAnd(eVar(0), eNot(eVar(1))), eAnd(eVar(0), eNot(eVar(0))), {Op: OTrue}, {Op: OFalse},
				eImpl(eVar(1), eVar(2)), eNot(eVar(2)), eCC(f.LE, 1, 0, 1, 2), eCC(f.GE, 2, 0, 1, 2)}
			k := t.pick(4, 5)
			doms = append(doms, Domain{"lists", fmt.Sprintf("all lists of up to %d propositions out of %d formulas; factory configurations rotate", k, len(fs)), seqCount(len(fs), k), func(c *C, i int) {
				var es []*E
				for _, x := range seqAt(i, len(fs), k) {
					es = append(es, fs[x])
				}
				c.Key("%v", es)
				runMus(c, es, nil, 3, true, i/3, i%5 == 4)
			}})
			for _, size := range [][2]int{{t.pick(3, 4), 1}, {3, 2}}[:t.pick(1, 2)] {
				k2, a2 := size[0], size[1]
				nl, na := seqCount(len(fs), k2), seqCount(len(fs), a2)
				doms = append(doms, Domain{fmt.Sprintf("smus-constraints-%d-%d", k2, a2), fmt.Sprintf("all lists of up to %d propositions with all lists of up to %d additional constraints out of %d formulas", k2, a2, len(fs)), nl * na, func(c *C, i int) {
					var es, add []*E
					for _, x := range seqAt(i/na, len(fs), k2) {
						es = append(es, fs[x])
					}
					for _, x := range seqAt(i%na, len(fs), a2) {
						add = append(add, fs[x])
					}
					c.Key("%v / %v", es, add)
					runMus(c, es, add, 3, false, i/7, false)
				}})
			}
			for _, d := range []struct{ n, len, k int }{{2, 2, 8}, {3, 2, t.pick(5, 6)}, {3, 3, t.pick(4, 5)}} {
				d := d
				cs := clauseSets(d.n, d.len, 1, d.k)
				doms = append(doms, Domain{fmt.Sprintf("clauses-%d-%d", d.n, d.len), fmt.Sprintf("all unsatisfiable sets of up to %d clauses of length up to %d over %d variables (satisfiable ones: every 16th), rotations of the order", d.k, d.len, d.n), cs.N, func(c *C, i int) {
					cl := cs.At(i)
					if !ttOfClauses(cl, d.n).isFalse() && i%16 != 0 {
						return
					}
					r := i % len(cl)
					es := clausesE(append(append([][]int{}, cl[r:]...), cl[:r]...))
					c.Key("%v", es)
					runMus(c, es, nil, d.n, true, i, false)
				}})
			}
			// larger unsatisfiable families: all 8 clauses over 3 variables as a core, with up to two additional clauses at every position
			for _, in := range []inst{instCirculant(4, 2, t.pick(2, 3)), instCirculant(5, 2, 2)} {
				in := in
				doms = append(doms, Domain{in.name, in.bound + " (8 to 12 propositions), unsatisfiable ones; with one literal as additional constraint", in.N * 2 * in.n, func(c *C, i int) {
					es := in.at(i / (2 * in.n))
					add := []*E{eLit(i % (2 * in.n))}
					t1 := ttOfE(eAnd(es...), in.n)
					t2 := t1.and(ttOfE(add[0], in.n))
					if !t2.isFalse() && i%16 != 0 {
						return
					}
					c.Key("%v / %v", es, add)
					runMus(c, es, add, in.n, i%(2*in.n) == 0, i, false)
				}})
			}
			return doms
		},
	})
}
