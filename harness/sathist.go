package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/booleworks/logicng-go/encoding"
	"github.com/booleworks/logicng-go/event"
	"github.com/booleworks/logicng-go/explanation"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/sat"
)

// ------------------------------------------------------------ handlers

// cancelAt cancels at the k-th event (0-based); sticky handlers keep canceling afterwards.
type cancelAt struct {
	k, n   int
	sticky bool
	fired  bool
	events []string // nil: not recorded
	rec    bool
	cause  event.Event // first event at which it stopped
	stops  []string    // all events at which it stopped
}

func (h *cancelAt) ShouldResume(e event.Event) bool {
	i := h.n
	h.n++
	if h.rec {
		h.events = append(h.events, e.EventType())
	}
	if i == h.k || h.sticky && i > h.k && h.k >= 0 {
		if !h.fired {
			h.cause = e
		}
		h.stops = append(h.stops, e.EventType())
		h.fired = true
		return false
	}
	return true
}

func never() *cancelAt { return &cancelAt{k: -1} }

// ------------------------------------------------------------ a SAT solver with its reference model

type satSave struct {
	st    *sat.SolverState
	tt    TT
	props int
	inc   int // number of incremental constraints
	rhs   []int
	bound []int
	ok    bool
}

type satInc struct {
	data  *encoding.CCIncrementalData
	upper bool
	vars  []int
	bound int // bound in force on the solver
	rhs   int // bound the incremental data were asked for last
}

type assertedProp struct {
	p  f.Proposition
	tt TT
}

// satM is a solver together with the reference model of its history.
type satM struct {
	c     *C
	fac   f.Factory
	s     *sat.Solver
	n     int
	proof bool
	tt    TT // conjunction of everything in force (incremental constraints with their current bounds included)
	props []assertedProp
	anon  bool // something was added without proposition
	saves []satSave
	incs  []*satInc
	log   []string
	last  handler.State // state reported by the last operation that takes a handler
}

func newSatM(c *C, cfg *sat.Config, n int) *satM {
	fac := f.NewFactory()
	return &satM{c: c, fac: fac, s: sat.NewSolver(fac, cfg), n: n, proof: cfg.ProofGeneration, tt: ttConst(n, true)}
}

func (m *satM) failf(format string, args ...any) {
	m.c.Failf("after %s: %s", strings.Join(m.log, "; "), fmt.Sprintf(format, args...))
}

func (m *satM) assert(ok bool, format string, args ...any) {
	if !ok {
		m.failf(format, args...)
	}
}

// satOp is one operation. run returns whether the operation was completed (not canceled).
type satOp struct {
	name string
	// hdl: the operation takes a handler
	hdl bool
	run func(m *satM, h handler.Handler) bool
}

func opAdd(e *E) satOp {
	return satOp{"add " + e.String(), false, func(m *satM, _ handler.Handler) bool {
		m.s.Add(mk(m.fac, e))
		m.anon = true
		m.tt = m.tt.and(ttOfE(e, m.n))
		return true
	}}
}

func opProp(e *E) satOp {
	return satOp{"add proposition " + e.String(), false, func(m *satM, _ handler.Handler) bool {
		p := mkProp(mk(m.fac, e), len(m.props))
		m.s.AddProposition(p)
		t := ttOfE(e, m.n)
		m.props = append(m.props, assertedProp{p, t})
		m.tt = m.tt.and(t)
		return true
	}}
}

func opSave() satOp {
	return satOp{"save state", false, func(m *satM, _ handler.Handler) bool {
		sv := satSave{st: m.s.SaveState(), tt: m.tt, props: len(m.props), inc: len(m.incs), ok: true}
		for _, x := range m.incs {
			sv.bound = append(sv.bound, x.bound)
		}
		m.saves = append(m.saves, sv)
		return true
	}}
}

// opLoad loads the k-th last saved state.
func opLoad(k int) satOp {
	return satOp{fmt.Sprintf("load state -%d", k), false, func(m *satM, _ handler.Handler) bool {
		i := len(m.saves) - 1 - k
		if i < 0 {
			return true
		}
		sv := &m.saves[i]
		err := m.s.LoadState(sv.st)
		m.assert((err == nil) == sv.ok, "loading the state saved as number %d: error %v, but its validity is %v", i, err, sv.ok)
		if err != nil {
			return true
		}
		m.tt = sv.tt
		m.props = m.props[:sv.props]
		m.incs = m.incs[:sv.inc]
		for j, b := range sv.bound {
			m.incs[j].bound = b
		}
		for j := i + 1; j < len(m.saves); j++ {
			m.saves[j].ok = false
		}
		return true
	}}
}

// verdict checks a call result against the truth table of everything in force in the call.
func (m *satM) verdict(res sat.CallResult, tt TT, want []int, model bool) bool {
	if !res.OK() {
		m.assert(res.Model() == nil && res.UnsatCore() == nil, "canceled call returns a model or a core")
		return false
	}
	m.assert(res.Sat() == !tt.isFalse(), "call returns satisfiable=%v, must be %v", res.Sat(), !tt.isFalse())
	if model && res.Sat() {
		checkSatModel(m.c, m.fac, res.Model(), want, essential(tt), tt, "after "+strings.Join(m.log, "; "))
	}
	if res.Sat() {
		r := newReader(m.fac, m.n)
		for _, l := range res.UpZeroLits() {
			x := r.lit(l)
			if x>>1 < m.n {
				m.assert(tt.implies(ttLit(m.n, x)), "literal %s reported as propagated is not implied", l.Sprint(m.fac))
			}
		}
	}
	return true
}

func seqTo(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// opCall: solve with assumption literals and temporary formulas (as plain formulas or propositions).
func opCall(lits []int, es []*E, asProps bool) satOp {
	var name []string
	for _, l := range lits {
		name = append(name, eLit(l).String())
	}
	for _, e := range es {
		name = append(name, e.String())
	}
	nm := "solve"
	if len(name) > 0 {
		nm = "solve with " + strings.Join(name, ", ")
	}
	if asProps {
		nm += " (propositions)"
	}
	return satOp{nm, true, func(m *satM, h handler.Handler) bool {
		p := sat.Params()
		if h != nil {
			p.Handler(h)
		}
		p.WithModel(mkVars(m.fac, m.n)).WithUPZeros()
		tt := m.tt
		var extra []assertedProp
		add := func(e *E) {
			fm := mk(m.fac, e)
			t := ttOfE(e, m.n)
			tt = tt.and(t)
			if asProps {
				q := f.NewStandardProposition(fm, fmt.Sprint("q", len(extra)))
				p.Proposition(q)
				extra = append(extra, assertedProp{q, t})
			} else if e.Op == OLit && len(extra)%2 == 0 {
				p.Literal(mkLit(m.fac, e.Lit))
				extra = append(extra, assertedProp{f.NewStandardProposition(fm), t})
			} else if e.Op == OLit && e.Lit&1 == 0 {
				p.Variable(mkVar(m.fac, e.Lit>>1))
				extra = append(extra, assertedProp{f.NewStandardProposition(fm), t})
			} else {
				p.Formula(fm)
				extra = append(extra, assertedProp{f.NewStandardProposition(fm), t})
			}
		}
		for _, l := range lits {
			add(eLit(l))
		}
		for _, e := range es {
			add(e)
		}
		if m.proof {
			p.WithCore()
		}
		res := m.s.Call(p)
		m.last = res.State()
		m.assert(res.OK() == m.last.Success && res.Canceled() == !m.last.Success, "call result contradicts its state")
		if !m.verdict(res, tt, seqTo(m.n), true) {
			return false
		}
		if m.proof && !res.Sat() {
			m.core(res.UnsatCore(), extra, asProps)
		}
		return true
	}}
}

// core checks an unsatisfiable core against everything asserted.
func (m *satM) core(core *explanation.UnsatCore, extra []assertedProp, asProps bool) {
	m.assert(core != nil, "no core for an unsatisfiable call")
	tt := ttConst(m.n, true)
	anon := false
	var rest []f.Formula
	seen := map[f.Proposition]bool{}
	for _, p := range core.Propositions {
		m.assert(p != nil, "the core contains a nil proposition")
		m.assert(!seen[p], "the core contains a proposition twice")
		seen[p] = true
		found := false
		for _, q := range m.props {
			if q.p == p {
				tt, found = tt.and(q.tt), true
			}
		}
		for _, q := range extra {
			if q.p == p || !asProps && q.p.Formula() == p.Formula() {
				tt, found = tt.and(q.tt), true
			}
		}
		if !found {
			m.assert(m.anon, "the core contains %s, which was not asserted", p.Formula().Sprint(m.fac))
			anon = true
			rest = append(rest, p.Formula())
		}
	}
	if anon {
		// clauses of formulas that were added without a proposition
		tt = tt.and(projAny(m.c, m.fac, rest, m.n))
	}
	m.assert(tt.isFalse(), "the core %s is satisfiable", coreString(m.fac, core))
	if core.IsGuaranteedMUS && !anon {
		for i := range core.Propositions {
			t := ttConst(m.n, true)
			for j, p := range core.Propositions {
				if i != j {
					t = t.and(ttOfE(readBack(m.c, m.fac, p.Formula()), m.n))
				}
			}
			m.assert(!t.isFalse(), "the core %s is reported as minimal but is not", coreString(m.fac, core))
		}
	}
	m.c.Outcome("core")
}

func coreString(fac f.Factory, core *explanation.UnsatCore) string {
	var r []string
	for _, p := range core.Propositions {
		r = append(r, p.Formula().Sprint(fac))
	}
	sort.Strings(r)
	return "[" + strings.Join(r, ", ") + "]"
}

// opInc adds an incremental constraint over all variables, upper (at most) or lower (at least).
func opInc(upper bool, bound int) satOp {
	op := f.LE
	if !upper {
		op = f.GE
	}
	return satOp{fmt.Sprintf("add incremental %s %d", map[bool]string{true: "at most", false: "at least"}[upper], bound), false, func(m *satM, _ handler.Handler) bool {
		e := eCC(op, bound, seqTo(m.n)...)
		d, err := m.s.AddIncrementalCC(mk(m.fac, e))
		m.assert((err != nil) == (d == nil), "incremental constraint: error %v, data %v", err, d != nil) // trivial bounds yield an error and no data
		m.anon = true
		m.tt = m.tt.and(ttOfE(e, m.n))
		if d != nil {
			m.incs = append(m.incs, &satInc{d, upper, seqTo(m.n), bound, bound})
		}
		return true
	}}
}

// opTighten tightens the last incremental constraint by step.
func opTighten(step int) satOp {
	return satOp{fmt.Sprintf("tighten by %d", step), false, func(m *satM, _ handler.Handler) bool {
		if len(m.incs) == 0 {
			return true
		}
		x := m.incs[len(m.incs)-1]
		nb := x.rhs - step
		if !x.upper {
			nb = x.rhs + step
		}
		if nb < 0 || nb > m.n {
			return true
		}
		op := f.LE
		if x.upper {
			x.data.NewUpperBoundForSolver(nb)
		} else {
			op = f.GE
			x.data.NewLowerBoundForSolver(nb)
		}
		x.rhs, x.bound = nb, nb
		m.tt = m.tt.and(ttOfE(eCC(op, nb, x.vars...), m.n))
		m.anon = true
		return true
	}}
}

// litCount: number of satisfied literals
func litCount(a uint64, lits []int) int {
	k := 0
	for _, l := range lits {
		if a>>uint(l>>1)&1 != uint64(l&1) {
			k++
		}
	}
	return k
}

func optimum(t TT, lits []int, max bool) int {
	best := -1
	for a := uint64(0); a < 1<<uint(t.n); a++ {
		if t.get(a) {
			k := litCount(a, lits)
			if best < 0 || max && k > best || !max && k < best {
				best = k
			}
		}
	}
	return best
}

func opOpt(max bool, lits []int, extra []int) satOp {
	nm := "minimize"
	if max {
		nm = "maximize"
	}
	return satOp{fmt.Sprint(nm, " ", litNames(lits)), true, func(m *satM, h handler.Handler) bool {
		fn := m.s.MinimizeWithHandler
		if max {
			fn = m.s.MaximizeWithHandler
		}
		mdl, st := fn(mkLits(m.fac, lits), orNop(h), varsOf(m.fac, extra)...)
		m.last = st
		best := optimum(m.tt, lits, max)
		if !st.Success {
			// a partial result must still be a model of the solver's formulas
			if mdl != nil {
				m.optModel(mdl, lits, extra)
			}
			return false
		}
		if best < 0 {
			m.assert(mdl == nil, "%s returns a model of unsatisfiable formulas", nm)
			return true
		}
		m.assert(mdl != nil, "%s returns no model although the formulas are satisfiable", nm)
		pos := m.optModel(mdl, lits, extra)
		m.assert(litCount(pos, lits) == best, "%s of %s returns %s with %d satisfied literals, the optimum is %d", nm, litNames(lits), mdl.Sprint(m.fac), litCount(pos, lits), best)
		return true
	}}
}

func litNames(lits []int) string {
	var r []string
	for _, l := range lits {
		r = append(r, eLit(l).String())
	}
	return "[" + strings.Join(r, " ") + "]"
}

// optModel: the model covers the literals and the additional variables and extends to a model of the formulas; the
// assignment of a variable that does not occur in the model is free.
func (m *satM) optModel(mdl *model.Model, lits, extra []int) uint64 {
	must := uint64(0)
	req := append([]int{}, extra...)
	for _, l := range lits {
		must |= 1 << uint(l>>1)
		req = append(req, l>>1)
	}
	checkSatModel(m.c, m.fac, mdl, req, must|essential(m.tt), m.tt, "after "+strings.Join(m.log, "; "))
	pos, _ := modelLits(m.c, m.fac, mdl, m.n)
	return pos
}

func opBackbone(kind sat.BackboneSort, vars []int) satOp {
	return satOp{fmt.Sprintf("backbone %d over %v", kind, vars), true, func(m *satM, h handler.Handler) bool {
		bb, st := m.s.ComputeBackboneWithHandler(m.fac, varsOf(m.fac, vars), orNop(h), kind)
		m.last = st
		if !st.Success {
			m.assert(bb == nil, "canceled backbone computation returns a backbone")
			return false
		}
		checkBackbone(m.c, m.fac, bb, m.tt, vars, kind, "after "+strings.Join(m.log, "; "))
		return true
	}}
}

func names(fac f.Factory, vs []f.Variable) string {
	var r []string
	for _, v := range vs {
		r = append(r, v.Sprint(fac))
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func checkBackbone(c *C, fac f.Factory, bb *sat.Backbone, tt TT, vars []int, kind sat.BackboneSort, what string) {
	c.Assert(bb != nil, "%s: no backbone", what)
	c.Assert(bb.Sat == !tt.isFalse(), "%s: backbone satisfiable=%v, must be %v", what, bb.Sat, !tt.isFalse())
	if !bb.Sat {
		c.Assert(len(bb.Positive)+len(bb.Negative)+len(bb.Optional) == 0, "%s: literals in an unsatisfiable backbone", what)
		return
	}
	var pos, neg, opt []string
	for _, v := range vars {
		switch {
		case tt.implies(ttVar(tt.n, v)):
			pos = append(pos, vname(v))
		case tt.implies(ttVar(tt.n, v).not()):
			neg = append(neg, vname(v))
		default:
			opt = append(opt, vname(v))
		}
	}
	if kind == sat.BBPos {
		neg, opt = nil, nil
	}
	if kind == sat.BBNeg {
		pos, opt = nil, nil
	}
	cmp := func(part string, got []f.Variable, want []string) {
		sort.Strings(want)
		w := strings.Join(want, ",")
		c.Assert(names(fac, got) == w, "%s: %s backbone {%s}, must be {%s}", what, part, names(fac, got), w)
	}
	cmp("positive", bb.Positive, pos)
	cmp("negative", bb.Negative, neg)
	cmp("optional", bb.Optional, opt)
}

// projModels: the projected models as strings
func projModels(tt TT, vars []int) []string {
	var r []string
	seen := map[string]bool{}
	for a := uint64(0); a < 1<<uint(tt.n); a++ {
		if tt.get(a) {
			var s []string
			for _, v := range vars {
				if a>>uint(v)&1 == 1 {
					s = append(s, vname(v))
				} else {
					s = append(s, "~"+vname(v))
				}
			}
			sort.Strings(s)
			k := strings.Join(s, ",")
			if !seen[k] {
				seen[k] = true
				r = append(r, k)
			}
		}
	}
	sort.Strings(r)
	return r
}

func opEnum(vars []int, split bool, cnt bool) satOp {
	return satOp{fmt.Sprintf("enumerate over %v split=%v count=%v", vars, split, cnt), true, func(m *satM, h handler.Handler) bool {
		cfg := iter.DefaultConfig()
		cfg.Handler = orNop(h)
		cfg.Strategy = iter.NewNoSplitMEStrategy()
		if split {
			cfg.Strategy = iter.NewBasicStrategy(iter.NewFixedVarProvider(f.NewVarSet(varsOf(m.fac, vars[:1])...)), 1)
		}
		want := projModels(m.tt, vars)
		if cnt {
			n, st := count.OnSolverWithConfig(m.s, varsOf(m.fac, vars), cfg)
			m.last = st
			if !st.Success {
				return false
			}
			m.assert(n.String() == fmt.Sprint(len(want)), "counting yields %s, must be %d", n, len(want))
			return true
		}
		ms, st := enum.OnSolverWithConfig(m.s, varsOf(m.fac, vars), cfg)
		m.last = st
		if !st.Success {
			return false
		}
		got := modelsString(m.fac, ms)
		m.assert(got == strings.Join(want, ";"), "enumeration yields {%s}, must be {%s}", got, strings.Join(want, ";"))
		return true
	}}
}

// onSolver: the formulas reported on the solver have exactly the models in force.
func opFormulas() satOp {
	return satOp{"formulas on solver", false, func(m *satM, _ handler.Handler) bool {
		m.formulasOnSolver()
		return true
	}}
}

func (m *satM) formulasOnSolver() {
	fms := m.s.FormulasOnSolver()
	r := newReader(m.fac, m.n)
	var terms []*E
	cons := false
	for _, fm := range fms {
		e := r.term(fm)
		cons = cons || e.hasConstraint()
		terms = append(terms, e)
	}
	var got TT
	if cons {
		if r.n > 14 {
			return
		}
		got = ttOfE(eAnd(terms...), r.n).project(m.n)
	} else {
		got = projAny(m.c, m.fac, fms, m.n)
	}
	m.assert(got.eq(m.tt), "the formulas on the solver %s have the models %s, must be %s", sprintAll(m.fac, fms), got, m.tt)
	m.varOccurrences(fms)
}

// varOccurrences compares the counted occurrences with those in the formulas on the solver. The formulas are a set,
// so the excess of the counts must be explained by clauses which are on the solver more than once.
func (m *satM) varOccurrences(fms []f.Formula) {
	excess := m.s.VarOccurrences(nil)
	all := make(map[f.Variable]int, len(excess))
	for v, k := range excess {
		all[v] = k
	}
	var clauses [][]f.Variable
	for _, fm := range fms {
		vs := f.Variables(m.fac, fm).Content()
		if len(vs) > 1 {
			clauses = append(clauses, vs)
		}
		for _, v := range vs {
			k, ok := excess[v]
			m.assert(ok && k > 0, "variable %s occurs %d times less than in the formulas on the solver %s", v.Sprint(m.fac), 1-k, sprintAll(m.fac, fms))
			excess[v] = k - 1
		}
	}
	var explain func() bool
	explain = func() bool {
		var v f.Variable
		found := false
		for x, k := range excess {
			if k > 0 && (!found || x < v) {
				v, found = x, true
			}
		}
		if !found {
			return true
		}
		for _, cl := range clauses {
			has, fits := false, true
			for _, x := range cl {
				has = has || x == v
				fits = fits && excess[x] > 0
			}
			if !has || !fits {
				continue
			}
			for _, x := range cl {
				excess[x]--
			}
			if explain() {
				return true
			}
			for _, x := range cl {
				excess[x]++
			}
		}
		return false
	}
	m.assert(explain(), "the numbers of occurrences %v do not belong to the formulas on the solver %s", occString(m.fac, all), sprintAll(m.fac, fms))
	some := f.NewVarSet(mkVar(m.fac, 0), m.fac.Var("unknown"), mkVar(m.fac, m.n-1))
	part := m.s.VarOccurrences(some)
	m.assert(len(part) == some.Size(), "occurrences of %d variables requested, %d returned", some.Size(), len(part))
	for _, v := range some.Content() {
		m.assert(part[v] == all[v], "occurrences of %s: %d if it is the only variable, %d among all variables", v.Sprint(m.fac), part[v], all[v])
	}
}

func occString(fac f.Factory, occ map[f.Variable]int) string {
	var r []string
	for v, k := range occ {
		r = append(r, fmt.Sprintf("%s:%d", v.Sprint(fac), k))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// do runs an operation and logs it.
func (m *satM) do(op satOp, h handler.Handler) bool {
	m.log = append(m.log, op.name)
	m.c.Step()
	r := op.run(m, h)
	m.c.State(m.tt.hash() ^ uint64(len(m.saves))*0x9e3779b97f4a7c15)
	return r
}

// final compares everything observable with the model.
func (m *satM) final(deep bool) {
	m.log = append(m.log, "final checks")
	if deep {
		m.formulasOnSolver()
	}
	res := m.s.Call(sat.WithModel(mkVars(m.fac, m.n)))
	m.verdict(res, m.tt, seqTo(m.n), true)
	m.assert(res.OK(), "call without handler reports a cancelation")
	for a := uint64(0); a < 1<<uint(m.n); a++ {
		if !deep && !m.tt.get(a) {
			continue
		}
		lits := make([]f.Literal, m.n)
		for v := range lits {
			lits[v] = mkLit(m.fac, 2*v+1-int(a>>uint(v)&1))
		}
		got := m.s.Call(sat.WithAssumptions(lits)).Sat()
		m.assert(got == m.tt.get(a), "the assignment %s is accepted=%v, must be %v", litsString(m.fac, lits), got, m.tt.get(a))
	}
	if deep {
		m.do(opBackbone(sat.BBBoth, seqTo(m.n)), nil)
	}
	m.assert(m.s.Sat() == !m.tt.isFalse(), "Sat() is %v at the end", m.s.Sat())
}
