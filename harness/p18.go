package main

import (
	"fmt"
	"math"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/sat"
)

type soft struct {
	e *E
	w int
}

// msVar is an algorithm with one setting of the options it looks at.
type msVar struct {
	name       string
	alg        string
	unweighted bool // supports unweighted problems
	weighted   bool // supports weighted problems
	ws         bool // differs from another setting in the weight strategy only, which weighted problems use
	mk         func(fac f.Factory, cnf sat.CNFMethod) *maxsat.Solver
}

func msVariants() []msVar {
	var r []msVar
	add := func(alg, name string, mkS func(fac f.Factory, cfg ...*maxsat.Config) *maxsat.Solver, upd func(c *maxsat.Config)) {
		r = append(r, msVar{alg + name, alg, alg != "WMSU3", alg != "LinearUS" && alg != "MSU3", false, func(fac f.Factory, cnf sat.CNFMethod) *maxsat.Solver {
			cfg := maxsat.DefaultConfig()
			upd(cfg)
			cfg.CNFMethod = cnf
			return mkS(fac, cfg)
		}})
	}
	incs := []maxsat.IncrementalStrategy{maxsat.IncNone, maxsat.IncIterative}
	for _, bmo := range []bool{true, false} {
		bmo := bmo
		add("LinearSU", fmt.Sprintf("(bmo=%v)", bmo), maxsat.LinearSU, func(c *maxsat.Config) { c.BMO = bmo })
		for _, inc := range incs {
			inc := inc
			add("WMSU3", fmt.Sprintf("(bmo=%v,inc=%v)", bmo, inc), maxsat.WMSU3, func(c *maxsat.Config) { c.BMO = bmo; c.IncrementalStrategy = inc })
		}
	}
	for _, inc := range incs {
		inc := inc
		add("LinearUS", fmt.Sprintf("(inc=%v)", inc), maxsat.LinearUS, func(c *maxsat.Config) { c.IncrementalStrategy = inc })
		add("MSU3", fmt.Sprintf("(inc=%v)", inc), maxsat.MSU3, func(c *maxsat.Config) { c.IncrementalStrategy = inc })
	}
	for _, ws := range []maxsat.WeightStrategy{maxsat.WeightNone, maxsat.WeightNormal, maxsat.WeightDiversify} {
		ws := ws
		for _, sym := range []int{0, 1, 2, math.MaxInt} {
			sym := sym
			upd := func(c *maxsat.Config) {
				c.WeightStrategy = ws
				c.Symmetry = sym != 0
				if sym != 0 {
					c.Limit = sym
				}
			}
			add("WBO", fmt.Sprintf("(weights=%v,symmetry=%d)", ws, sym), maxsat.WBO, upd)
			add("IncWBO", fmt.Sprintf("(weights=%v,symmetry=%d)", ws, sym), maxsat.IncWBO, upd)
			r[len(r)-1].ws, r[len(r)-2].ws = ws != maxsat.WeightNone, ws != maxsat.WeightNone
		}
	}
	add("OLL", "", maxsat.OLL, func(c *maxsat.Config) {})
	// the constructors' own defaults
	for _, a := range maxsatAlgs() {
		a := a
		r = append(r, msVar{a.name + "(default)", a.name, a.name != "WMSU3", a.name != "LinearUS" && a.name != "MSU3", false, func(fac f.Factory, cnf sat.CNFMethod) *maxsat.Solver { return a.mk(fac) }})
	}
	return r
}

var cnfMethods = []sat.CNFMethod{sat.CNFFactory, sat.CNFPG, sat.CNFFullPG}

func isWeighted(ss []soft) bool {
	for _, s := range ss {
		if s.w != 1 {
			return true
		}
	}
	return false
}

func (v msVar) supports(ss []soft) bool {
	if isWeighted(ss) {
		return v.weighted
	}
	return v.unweighted
}

// msOpt is the reference: satisfiability of the hard formulas and the least weight of violated soft formulas.
func msOpt(n int, hard []*E, ss []soft) (bool, int) {
	ok, best := false, 0
	for a := uint64(0); a < 1<<uint(n); a++ {
		if c, h := msCost(hard, ss, a); h && (!ok || c < best) {
			ok, best = true, c
		}
	}
	return ok, best
}

func msCost(hard []*E, ss []soft, a uint64) (int, bool) {
	for _, h := range hard {
		if !h.Eval(a) {
			return 0, false
		}
	}
	c := 0
	for _, s := range ss {
		if !s.e.Eval(a) {
			c += s.w
		}
	}
	return c, true
}

func msString(hard []*E, ss []soft) string {
	var p []string
	for _, h := range hard {
		p = append(p, h.String())
	}
	r := "hard {" + strings.Join(p, "; ") + "} soft {"
	for i, s := range ss {
		if i > 0 {
			r += "; "
		}
		r += fmt.Sprintf("%d: %s", s.w, s.e)
	}
	return r + "}"
}

// msCheckResult compares a reported result with the reference.
func msCheckResult(c *C, who string, fac f.Factory, n int, hard []*E, ss []soft, sat bool, opt int, res maxsat.Result) {
	if res.Satisfiable != sat {
		c.Failf("%s: satisfiable=%v, but the hard formulas are satisfiable=%v: %s", who, res.Satisfiable, sat, msString(hard, ss))
	}
	if !sat {
		return
	}
	if res.Optimum != opt {
		c.Failf("%s: optimum %d, but the least weight of violated soft formulas is %d: %s", who, res.Optimum, opt, msString(hard, ss))
	}
	if res.Model == nil {
		c.Failf("%s: no model: %s", who, msString(hard, ss))
	}
	pos := msModel(c, who, fac, n, res.Model)
	cost, ok := msCost(hard, ss, pos)
	if !ok || cost != opt {
		c.Failf("%s: the model %s satisfies the hard formulas=%v with violated weight %d, optimum %d: %s", who, litsString(fac, res.Model.Literals), ok, cost, opt, msString(hard, ss))
	}
}

func msModel(c *C, who string, fac f.Factory, n int, m *model.Model) uint64 {
	pos, _ := modelLits(c, fac, m, n)
	for _, l := range m.Literals {
		name, _, _ := fac.LitNamePhase(l)
		if strings.HasPrefix(name, "@SEL_SOFT_") {
			c.Failf("%s: the model contains the selector variable %s", who, name)
		}
	}
	return pos
}

// msRun solves one instance with one variant (twice).
func msRun(c *C, fac f.Factory, v msVar, cnf sat.CNFMethod, n int, hard []*E, ss []soft, sat bool, opt int) {
	s := v.mk(fac, cnf)
	who := fmt.Sprintf("%s/cnf%d", v.name, cnf)
	if v.alg == "WMSU3" == s.SupportsUnweighted() || (v.alg == "LinearUS" || v.alg == "MSU3") == s.SupportsWeighted() {
		c.Failf("%s: supported problem types are reported wrongly", who)
	}
	for _, h := range hard {
		s.AddHardFormula(mk(fac, h))
	}
	for _, x := range ss {
		if err := s.AddSoftFormula(mk(fac, x.e), x.w); err != nil {
			c.Failf("%s: adding a soft formula with weight %d: %v", who, x.w, err)
		}
	}
	c.Step()
	c.Logf("%s", who)
	msCheckResult(c, who, fac, n, hard, ss, sat, opt, s.Solve())
	msCheckResult(c, who+" solved again", fac, n, hard, ss, sat, opt, s.Solve())
}

// msDomain runs every instance with every variant supporting it; the CNF method rotates (clausal instances) or is combined.
func msDomain(name, bound string, n, N int, allCNF bool, at func(i int) ([]*E, []soft)) Domain {
	vs := msVariants()
	return Domain{name, bound + fmt.Sprintf("; %d algorithm settings", len(vs)) + map[bool]string{true: " x 3 CNF methods", false: ", CNF methods rotate"}[allCNF], N, func(c *C, i int) {
		hard, ss := at(i)
		sat, opt := msOpt(n, hard, ss)
		c.Key("%s", msString(hard, ss))
		if sat {
			c.Outcome("satisfiable")
		} else {
			c.Outcome("unsatisfiable")
		}
		c.StateS(msString(hard, ss))
		fac := f.NewFactory()
		weighted := isWeighted(ss)
		for k, v := range vs {
			if !v.supports(ss) || !weighted && v.ws {
				continue
			}
			if allCNF {
				for _, m := range cnfMethods {
					msRun(c, fac, v, m, n, hard, ss, sat, opt)
				}
			} else {
				msRun(c, fac, v, cnfMethods[(i+k)%3], n, hard, ss, sat, opt)
			}
		}
	}}
}

// multiset i of size <= k over N elements (non-decreasing sequences), by combinations with repetition
func multisetCount(N, k int) int { return binom(N+k, k) }
func multisetAt(N, k, i int) []int {
	// subsets of size k of {0..N+k-1} <-> multisets of size k over N+1 symbols; the last symbol means "none"
	var r []int
	for j, x := range unrankComb(N+k, k, i) {
		if x-j < N {
			r = append(r, x-j)
		}
	}
	return r
}

// edges of the complete graph
func edges(n int) [][2]int {
	var r [][2]int
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			r = append(r, [2]int{i, j})
		}
	}
	return r
}

var weightPatterns = [][]int{{1}, {2}, {1, 2}, {2, 1}, {1, 2, 3}, {3, 2, 1}, {4, 3, 2}, {2, 3, 4}, {1, 2, 4, 8}, {8, 4, 2, 1}, {5, 5, 2, 1}, {1, 1, 7}, {3, 3, 2}, {10, 3, 7}, {6, 5, 4, 3, 2, 1}, {1, 3, 3, 9}}

func init() {
	register(&Prop{
		ID: "P18",
		Rule: "A state is a set of hard formulas with a weighted list of soft formulas; every algorithm with every setting of the options it reads that supports the instance is one execution. Satisfiability and optimum " +
			"are compared with the minimum over the truth table, the model must satisfy the hard formulas and attain the optimum (variables not in the model count as false), and solving again must give the same.",
		Assume: []string{"WMSU3 is run on weighted instances only, LinearUS and MSU3 on unweighted ones only, as documented and reported by SupportsWeighted/SupportsUnweighted.", "The optimum field of an unsatisfiable result is not specified."},
		Domains: func(t Tier) []Domain {
			var doms []Domain
			// all small clause instances
			for _, d := range []struct{ n, hard, soft, wmax int }{{2, 2, 2, t.pick(2, 3)}, {2, 1, 3, t.pick(2, 3)}, {3, t.pick(0, 1), 2, t.pick(2, 3)}, {2, 0, t.pick(3, 4), 3}} {
				d := d
				cl := allClauses(d.n, 2, false)
				if d.n == 3 {
					cl = allClauses(3, 3, false)
				}
				ces := clausesE(cl)
				hs := clauseSetsOf(d.n, cl, 0, d.hard)
				ns := len(cl) * d.wmax
				sn := multisetCount(ns, d.soft)
				doms = append(doms, msDomain(fmt.Sprintf("clauses-%d-%d-%d-%d", d.n, d.hard, d.soft, d.wmax), fmt.Sprintf("all sets of up to %d hard clauses and multisets of up to %d soft clauses with weights 1..%d over %d variables", d.hard, d.soft, d.wmax, d.n), d.n, hs.N*sn, false, func(i int) ([]*E, []soft) {
					var ss []soft
					for _, x := range multisetAt(ns, d.soft, i%sn) {
						ss = append(ss, soft{ces[x/d.wmax], x%d.wmax + 1})
					}
					return clausesE(hs.At(i / sn)), ss
				}))
			}
			// formulas that are not clauses
			fs := []*E{{Op: OTrue}, {Op: OFalse}, eVar(0), eNot(eVar(1)), eOr(eVar(0), eNot(eVar(0))), eAnd(eVar(0), eNot(eVar(0))), eAnd(eVar(0), eVar(1)), eNot(eAnd(eVar(0), eVar(2))), eNot(eOr(eVar(0), eVar(1))), eImpl(eVar(0), eAnd(eVar(1), eVar(2))),
				eEquiv(eVar(0), eVar(1)), eEquiv(eVar(1), eNot(eVar(2))), eNot(eEquiv(eVar(0), eVar(2))), eImpl(eImpl(eVar(0), eVar(1)), eVar(2)), eNot(eImpl(eVar(0), eVar(1))), eOr(eAnd(eVar(0), eVar(1)), eAnd(eNot(eVar(0)), eVar(2))), eEquiv(eVar(0), eAnd(eVar(1), eVar(2))),
				eAnd(eOr(eVar(0), eVar(1)), eNot(eVar(2))), eEquiv(eEquiv(eVar(0), eVar(1)), eVar(2)), eOr(eVar(0), eVar(1), eVar(2)),
				eCC(f.LE, 1, 0, 1, 2), eCC(f.EQ, 1, 0, 1, 2), eCC(f.GE, 2, 0, 1, 2), ePBC(f.LE, 2, []int{2, 1, 3}, []int{la, lnb, lc}), ePBC(f.EQ, 2, []int{2, -1, 1}, []int{la, lb, lc}), eNot(eCC(f.EQ, 1, 0, 1)), eOr(eCC(f.LE, 1, 0, 1, 2), eVar(0)), eEquiv(ePBC(f.GE, 3, []int{1, 2, 2}, []int{la, lb, lnc}), eVar(1))}
			ws := [][2]int{{1, 1}, {1, 2}, {3, 2}, {2, 2}}
			if t == Quick {
				ws = ws[:2]
			}
			nf := len(fs)
			doms = append(doms, msDomain("formulas", fmt.Sprintf("all combinations of up to one hard and two soft formulas out of %d (constants, nested formulas, constraints), %d weight pairs%s", nf, len(ws), map[bool]string{true: "", false: " (rotating)"}[t == Thorough]), 3, (nf+1)*(nf+1)*nf*t.pick(1, len(ws)), t == Thorough, func(i int) ([]*E, []soft) {
				m := mixed(i, nf+1, nf+1, nf, t.pick(1, len(ws)))
				m[3] = (m[3] + m[0] + m[1] + m[2]) % len(ws)
				var h []*E
				if m[0] < nf {
					h = append(h, fs[m[0]])
				}
				ss := []soft{{fs[m[2]], ws[m[3]][0]}}
				if m[1] < nf {
					ss = append(ss, soft{fs[m[1]], ws[m[3]][1]})
				}
				return h, ss
			}))
			// weighted vertex cover: every graph; negative unit softs
			for _, d := range []struct{ n, wmax int }{{4, t.pick(3, 5)}, {5, t.pick(1, 2)}} {
				d := d
				es := edges(d.n)
				wn := pow(d.wmax, d.n)
				doms = append(doms, msDomain(fmt.Sprintf("vertex-cover-%d", d.n), fmt.Sprintf("all graphs with %d nodes and all node weights 1..%d", d.n, d.wmax), d.n, wn<<uint(len(es)), false, func(i int) ([]*E, []soft) {
					g := i / wn
					var h []*E
					for j, e := range es {
						if g>>uint(j)&1 == 1 {
							h = append(h, cl(2*e[0], 2*e[1]))
						}
					}
					var ss []soft
					for v, w := range digits(i%wn, d.wmax, d.n) {
						ss = append(ss, soft{cl(2*v + 1), w + 1})
					}
					return h, ss
				}))
			}
			// vertex cover with weight patterns, max cut
			{
				n := 5
				es := edges(n)
				np := len(weightPatterns)
				doms = append(doms, msDomain("vertex-cover-patterns", fmt.Sprintf("all graphs with 5 nodes, %d weight patterns rotating", np), n, t.pick(1, 4)<<uint(len(es)), false, func(i int) ([]*E, []soft) {
					g := i & (1<<uint(len(es)) - 1)
					p := weightPatterns[(i>>uint(len(es))+g*5+g>>4)%np]
					var h []*E
					for j, e := range es {
						if g>>uint(j)&1 == 1 {
							h = append(h, cl(2*e[0], 2*e[1]))
						}
					}
					var ss []soft
					for v := 0; v < n; v++ {
						ss = append(ss, soft{cl(2*v + 1), p[v%len(p)]})
					}
					return h, ss
				}))
				doms = append(doms, msDomain("max-cut", fmt.Sprintf("all graphs with 5 nodes, one soft formula (u xor v) per edge, %d weight patterns rotating; every third instance with the first edge as hard formula", np), n, t.pick(1, 4)<<uint(len(es)), false, func(i int) ([]*E, []soft) {
					g := i & (1<<uint(len(es)) - 1)
					p := weightPatterns[(i>>uint(len(es))+g*3+g>>5)%np]
					var h []*E
					var ss []soft
					k := 0
					for j, e := range es {
						if g>>uint(j)&1 == 1 {
							x := eEquiv(eVar(e[0]), eNot(eVar(e[1])))
							if k == 0 && i%3 == 0 {
								h = append(h, x)
							} else {
								ss = append(ss, soft{x, p[k%len(p)]})
							}
							k++
						}
					}
					return h, ss
				}))
			}
			// circulant families: one pattern hard, one or two patterns soft
			fams := []struct{ n, kh, ks int }{{4, 2, 1}, {5, 3, 2}, {5, 2, 2}}
			if t == Thorough {
				fams = append(fams, []struct{ n, kh, ks int }{{6, 3, 2}, {6, 3, 3}, {7, 2, 2}, {6, 2, 1}}...)
			}
			for _, d := range fams {
				d := d
				ph, ps, p1 := patterns(d.n, d.kh), patterns(d.n, d.ks), patterns(d.n, 1)
				np := len(weightPatterns)
				doms = append(doms, msDomain(fmt.Sprintf("circulant-%d-%d-%d", d.n, d.kh, d.ks), fmt.Sprintf("circulant patterns over %d variables: one of hard clauses of length %d (every second instance without the last clause), one of soft clauses of length %d and one of soft units; weight patterns rotate", d.n, d.kh, d.ks), d.n, len(ph)*len(ps)*2*t.pick(1, 5), false, func(i int) ([]*E, []soft) {
					m := mixed(i, len(ph), len(ps), 2, t.pick(1, 5))
					w := weightPatterns[(i*7+i/16+m[3]*3)%np]
					h := ph[m[0]].clauses(d.n)
					if i%2 == 1 {
						h = h[:len(h)-1]
					}
					var ss []soft
					for _, c := range ps[m[1]].clauses(d.n) {
						ss = append(ss, soft{clausesE([][]int{c})[0], w[len(ss)%len(w)]})
					}
					for _, c := range p1[m[2]].clauses(d.n) {
						ss = append(ss, soft{clausesE([][]int{c})[0], w[len(ss)%len(w)]})
					}
					return clausesE(h), ss
				}))
			}
			// invalid weights
			doms = append(doms, Domain{"weights", "soft formulas with weights -2..0 are rejected, all algorithm settings", 3 * len(msVariants()), func(c *C, i int) {
				v := msVariants()[i/3]
				fac := f.NewFactory()
				s := v.mk(fac, cnfMethods[i%3])
				c.Key("%s %d", v.name, -(i % 3))
				_ = s.AddSoftFormula(mk(fac, cl(la)), 2)
				c.Assert(s.AddSoftFormula(mk(fac, cl(lna)), -(i%3)) != nil, "weight %d accepted", -(i % 3))
				c.Step()
				c.StateS(v.name)
				if v.weighted {
					msCheckResult(c, v.name, fac, 1, nil, []soft{{cl(la), 2}}, true, 0, s.Solve())
				}
			}})
			return doms
		},
	})
}

// ------------------------------------------------------------ P19: histories

type msState struct {
	hard, soft int
	st         *maxsat.SolverState
	valid      bool
}

type msM struct {
	c      *C
	v      msVar
	fac    f.Factory
	s      *maxsat.Solver
	n      int
	hard   []*E
	ss     []soft
	states []*msState
	log    []string
	last   handler.State
}

type msOp struct {
	name string
	hdl  bool
	run  func(m *msM, h handler.Handler) bool
}

func (m *msM) failf(format string, args ...any) {
	m.c.Failf("%s [after: %s]", fmt.Sprintf(format, args...), strings.Join(m.log, "; "))
}

func (m *msM) do(op msOp, h handler.Handler) bool {
	m.log = append(m.log, op.name)
	m.c.Step()
	r := op.run(m, h)
	m.c.StateS(fmt.Sprintf("%s %v", msString(m.hard, m.ss), len(m.states)))
	return r
}

func (m *msM) solve(h handler.Handler) bool {
	if !m.v.supports(m.ss) {
		return true
	}
	var res maxsat.Result
	m.last = handler.Success()
	if h == nil {
		res = m.s.Solve()
	} else {
		res, m.last = m.s.SolveWithHandler(h)
		if !m.last.Success {
			return false
		}
	}
	sat, opt := msOpt(m.n, m.hard, m.ss)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(failure); ok {
					panic(failure{s.msg + " [after: " + strings.Join(m.log, "; ") + "]"})
				}
				panic(r)
			}
		}()
		msCheckResult(m.c, m.v.name, m.fac, m.n, m.hard, m.ss, sat, opt, res)
	}()
	return true
}

func msHard(e *E) msOp {
	return msOp{"hard(" + e.String() + ")", false, func(m *msM, _ handler.Handler) bool {
		m.s.AddHardFormula(mk(m.fac, e))
		m.hard = append(m.hard[:len(m.hard):len(m.hard)], e)
		return true
	}}
}

func msSoft(e *E, w int) msOp {
	return msOp{fmt.Sprintf("soft(%s,%d)", e, w), false, func(m *msM, _ handler.Handler) bool {
		if err := m.s.AddSoftFormula(mk(m.fac, e), w); err != nil {
			m.failf("AddSoftFormula: %v", err)
		}
		m.ss = append(m.ss[:len(m.ss):len(m.ss)], soft{e, w})
		return true
	}}
}

func msSolve() msOp {
	return msOp{"solve", true, func(m *msM, h handler.Handler) bool { return m.solve(h) }}
}

func msSave() msOp {
	return msOp{"save", false, func(m *msM, _ handler.Handler) bool {
		m.states = append(m.states, &msState{len(m.hard), len(m.ss), m.s.SaveState(), true})
		return true
	}}
}

// load the k-th saved state, counted from the last one
func msLoad(k int) msOp {
	return msOp{fmt.Sprintf("load(%d)", k), false, func(m *msM, _ handler.Handler) bool {
		i := len(m.states) - 1 - k
		if i < 0 {
			return true
		}
		st := m.states[i]
		err := m.s.LoadState(st.st)
		if (err == nil) != st.valid {
			m.failf("loading state %d (valid=%v) returns error %v", i, st.valid, err)
		}
		if err != nil {
			return true
		}
		for _, s := range m.states[i+1:] {
			s.valid = false
		}
		m.hard, m.ss = m.hard[:st.hard], m.ss[:st.soft]
		return true
	}}
}

func newMsM(c *C, v msVar, cnf sat.CNFMethod, n int) *msM {
	fac := f.NewFactory()
	return &msM{c: c, v: v, fac: fac, s: v.mk(fac, cnf), n: n, log: []string{fmt.Sprintf("%s/cnf%d", v.name, cnf)}}
}

// final solves, adds a soft formula over a new variable's negation and solves again.
func (m *msM) final() {
	m.do(msSolve(), nil)
	m.do(msSoft(cl(lna), 1), nil)
	m.do(msHard(cl(la, lb)), nil)
	m.do(msSolve(), nil)
	m.do(msSoft(cl(lnb), 2), nil)
	m.do(msSolve(), nil)
}

func msHist(name, bound string, n int, pre, ops []msOp, depth int, perAlg bool) Domain {
	vs := msVariants()
	byAlg := map[string][]msVar{}
	var algs []string
	for _, v := range vs {
		if byAlg[v.alg] == nil {
			algs = append(algs, v.alg)
		}
		byAlg[v.alg] = append(byAlg[v.alg], v)
	}
	k := seqCount(len(ops), depth)
	return Domain{name, fmt.Sprintf("%s: all sequences of up to %d of %d operations, 7 algorithms, settings and CNF methods rotate", bound, depth, len(ops)), k, func(c *C, i int) {
		sq := seqAt(i, len(ops), depth)
		rot := i/len(ops) + i
		for _, x := range sq {
			rot += x
		}
		for _, a := range algs {
			v := byAlg[a][rot%len(byAlg[a])]
			m := newMsM(c, v, cnfMethods[(rot/len(byAlg[a])+i)%3], n)
			for _, op := range pre {
				m.do(op, nil)
			}
			for _, x := range sq {
				m.do(ops[x], nil)
			}
			m.final()
		}
		c.Outcome("histories")
	}}
}

func init() {
	register(&Prop{
		ID: "P19",
		Rule: "A state is the hard and soft formulas in force with the saved states; transitions add formulas, solve, save and load. Every solve is compared with the reference optimum of the formulas in force " +
			"(satisfiability, optimum, model); loading succeeds exactly for states that are still valid (loading a state invalidates the ones saved after it).",
		Assume: []string{"Solving is skipped where the algorithm does not support the (un)weighted problem in force."},
		Domains: func(t Tier) []Domain {
			xor := eEquiv(eVar(0), eNot(eVar(2)))
			imp := eImpl(eVar(1), eAnd(eVar(0), eVar(2)))
			or2 := eOr(eAnd(eVar(0), eVar(1)), eAnd(eNot(eVar(0)), eVar(2)))
			un := []msOp{msHard(cl(la, lb)), msHard(cl(lna, lnb)), msHard(xor), msHard(cl(lnc)), msSoft(cl(lna), 1), msSoft(cl(lnb), 1), msSoft(cl(la), 1), msSoft(or2, 1), msSolve(), msSave(), msLoad(0), msLoad(1)}
			we := []msOp{msHard(cl(la, lb)), msHard(cl(lna, lnb)), msHard(or2), msHard(imp), msSoft(cl(lna), 2), msSoft(cl(lnb), 3), msSoft(cl(la, lb), 4), msSoft(xor, 1), msSolve(), msSave(), msLoad(0), msLoad(1)}
			pre := []msOp{msHard(cl(la, lb)), msHard(cl(lb, lc)), msHard(cl(la, lc)), msSoft(cl(lna), 4), msSoft(cl(lnb), 3), msSoft(cl(lnc), 2)}
			preU := []msOp{msHard(cl(la, lb)), msHard(cl(lb, lc)), msHard(cl(la, lc)), msSoft(cl(lna), 1), msSoft(cl(lnb), 1), msSoft(cl(lnc), 1)}
			st := []msOp{msSolve(), msSave(), msLoad(0), msLoad(1), msLoad(2), msHard(eImpl(eVar(0), eVar(3))), msSoft(cl(lnd), 5), msHard(eOr(eAnd(eVar(0), eVar(3)), eAnd(eNot(eVar(0)), eVar(2))))}
			stU := []msOp{msSolve(), msSave(), msLoad(0), msLoad(1), msLoad(2), msHard(eImpl(eVar(0), eVar(3))), msSoft(cl(lnd), 1), msHard(eOr(eAnd(eVar(0), eVar(3)), eAnd(eNot(eVar(0)), eVar(2))))}
			if t == Thorough {
				// depth 6 on fewer operations
				st, stU = append(st[:4:4], st[5:]...), append(stU[:4:4], stU[5:]...)
			}
			return []Domain{
				msHist("unweighted", "clauses and formulas with weight 1 over 3 variables", 3, nil, un, t.pick(4, 5), true),
				msHist("weighted", "clauses and formulas with weights 1..4 over 3 variables", 3, nil, we, t.pick(4, 5), true),
				msHist("states-weighted", "from a weighted vertex cover of a triangle", 4, pre, st, t.pick(4, 6), true),
				msHist("states-unweighted", "from an unweighted vertex cover of a triangle", 4, preU, stU, t.pick(4, 6), true),
			}
		},
	})
}
