package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/booleworks/logicng-go/assignment"
	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/encoding"
	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
	"github.com/booleworks/logicng-go/transformation"
)

// comp is one computation of the library on a formula, with a canonical (purely semantic) result.
type comp struct {
	name    string
	handler bool // takes a handler
	accepts func(e *E) bool
	// run returns the canonical result and whether the computation reported success.
	run func(c *C, fac f.Factory, fm f.Formula, hdl handler.Handler) (string, bool)
}

func orNop(h handler.Handler) handler.Handler {
	if h == nil {
		return handler.NopHandler
	}
	return h
}

const compVars = 4 // computations are run on formulas over a, b, c, d

func anyInput(e *E) bool { return true }
func noConstraints(e *E) bool {
	return !e.hasConstraint()
}
func cnfInput(e *E) bool { _, ok := toClauses([]*E{e}); return ok }
func dnfInput(e *E) bool { return isDNFTerm(e) }

func isDNFTerm(e *E) bool {
	minterm := func(x *E) bool {
		if x.Op == OLit {
			return true
		}
		if x.Op != OAnd {
			return false
		}
		for _, s := range x.Sub {
			if s.Op != OLit {
				return false
			}
		}
		return true
	}
	if e.Op == OTrue || e.Op == OFalse || minterm(e) {
		return true
	}
	if e.Op != OOr {
		return false
	}
	for _, s := range e.Sub {
		if !minterm(s) {
			return false
		}
	}
	return true
}

func litsString(fac f.Factory, lits []f.Literal) string {
	var s []string
	for _, l := range lits {
		n, p, _ := fac.LitNamePhase(l)
		if !p {
			n = "~" + n
		}
		s = append(s, n)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func modelsString(fac f.Factory, ms []*model.Model) string {
	var s []string
	for _, m := range ms {
		s = append(s, litsString(fac, m.Literals))
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

// proj is the semantic identity of a formula that may contain auxiliary variables.
func proj(c *C, fac f.Factory, fm f.Formula) string {
	return projAny(c, fac, []f.Formula{fm}, compVars).String()
}

func trans(name string, acc func(*E) bool, fn func(fac f.Factory, fm f.Formula) f.Formula) comp {
	return comp{name, false, acc, func(c *C, fac f.Factory, fm f.Formula, _ handler.Handler) (string, bool) {
		return proj(c, fac, fn(fac, fm)), true
	}}
}

func transH(name string, acc func(*E) bool, fn func(fac f.Factory, fm f.Formula, h handler.Handler) (f.Formula, handler.State)) comp {
	return comp{name, true, acc, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
		res, st := fn(fac, fm, orNop(h))
		if !c.done(st) {
			return "", false
		}
		return proj(c, fac, res), true
	}}
}

func maxsatAlgs() []struct {
	name string
	mk   func(fac f.Factory, cfg ...*maxsat.Config) *maxsat.Solver
} {
	return []struct {
		name string
		mk   func(fac f.Factory, cfg ...*maxsat.Config) *maxsat.Solver
	}{
		{"LinearSU", maxsat.LinearSU}, {"LinearUS", maxsat.LinearUS}, {"MSU3", maxsat.MSU3}, {"WMSU3", maxsat.WMSU3},
		{"WBO", maxsat.WBO}, {"IncWBO", maxsat.IncWBO}, {"OLL", maxsat.OLL},
	}
}

// modelSatisfies checks that the model satisfies the formula (all variables must be covered or irrelevant).
func modelLits(c *C, fac f.Factory, m *model.Model, n int) (pos, known uint64) {
	r := newReader(fac, n)
	for _, l := range m.Literals {
		x := r.lit(l)
		if x>>1 >= n {
			continue
		}
		if known>>uint(x>>1)&1 == 1 {
			c.Failf("model contains variable %s twice", vname(x>>1))
		}
		known |= 1 << uint(x>>1)
		if x&1 == 0 {
			pos |= 1 << uint(x>>1)
		}
	}
	return
}

func allComps() []comp {
	var cs []comp
	cs = append(cs,
		trans("NNF", anyInput, normalform.NNF),
		trans("AIG", noConstraints, normalform.AIG),
		trans("CNF", anyInput, func(fac f.Factory, fm f.Formula) f.Formula { return normalform.CNF(fac, fm) }),
		trans("TseitinCNF", anyInput, func(fac f.Factory, fm f.Formula) f.Formula { return normalform.TseitinCNFWithBoundary(fac, fm, 0) }),
		trans("PGCNF", anyInput, func(fac f.Factory, fm f.Formula) f.Formula { return normalform.PGCNFWithBoundary(fac, fm, 0) }),
		transH("FactorizedCNF", anyInput, normalform.FactorizedCNFWithHandler),
		transH("FactorizedDNF", noConstraints, normalform.FactorizedDNFWithHandler),
		transH("BDDCNF", noConstraints, bdd.CNFWithHandler),
		transH("BDDDNF", noConstraints, bdd.DNFWithHandler),
		transH("CanonicalCNF", anyInput, enum.CanonicalCNFWithHandler),
		transH("CanonicalDNF", anyInput, enum.CanonicalDNFWithHandler),
		transH("Advanced", noConstraints, func(fac f.Factory, fm f.Formula, h handler.Handler) (f.Formula, handler.State) {
			return simplification.AdvancedWithHandler(fac, fm, h)
		}),
		transH("QMC", noConstraints, simplification.QMCWithHandler),
		transH("CNFSubsumption", cnfInput, func(fac f.Factory, fm f.Formula, h handler.Handler) (f.Formula, handler.State) {
			r, err, st := simplification.CNFSubsumptionWithHandler(fac, fm, h)
			if err != nil {
				panic(failure{"CNF subsumption: " + err.Error()})
			}
			return r, st
		}),
		transH("DNFSubsumption", dnfInput, func(fac f.Factory, fm f.Formula, h handler.Handler) (f.Formula, handler.State) {
			r, err, st := simplification.DNFSubsumptionWithHandler(fac, fm, h)
			if err != nil {
				panic(failure{"DNF subsumption: " + err.Error()})
			}
			return r, st
		}),
		trans("PropagateBackbone", anyInput, simplification.PropagateBackbone),
		trans("PropagateUnits", noConstraints, simplification.PropagateUnits),
		trans("FactorOut", anyInput, func(fac f.Factory, fm f.Formula) f.Formula { return simplification.FactorOut(fac, fm) }),
		trans("Distribute", anyInput, simplification.Distribute),
		trans("MinimizeNegations", anyInput, simplification.MinimizeNegations),
		trans("ExistentialQE", anyInput, func(fac f.Factory, fm f.Formula) f.Formula {
			return transformation.ExistentialQE(fac, fm, fac.Var("a"))
		}),
		trans("UniversalQE", anyInput, func(fac f.Factory, fm f.Formula) f.Formula {
			return transformation.UniversalQE(fac, fm, fac.Var("b"))
		}),
		trans("Substitute", anyInput, func(fac f.Factory, fm f.Formula) f.Formula {
			s := transformation.NewSubstitution()
			s.AddVar(fac.Var("a"), fac.Literal("b", false))
			r, err := transformation.Substitute(fac, fm, s)
			if err != nil {
				panic(failure{err.Error()})
			}
			return r
		}),
		trans("SubstituteLiterals", anyInput, func(fac f.Factory, fm f.Formula) f.Formula {
			m := map[f.Literal]f.Literal{fac.Lit("a", true): fac.Lit("b", false), fac.Lit("c", false): fac.Lit("d", true)}
			return transformation.SubstituteLiterals(fac, fm, &m)
		}),
		trans("Restrict", anyInput, func(fac f.Factory, fm f.Formula) f.Formula {
			a, _ := assignment.New(fac, fac.Lit("b", true), fac.Lit("d", false))
			return assignment.Restrict(fac, fm, a)
		}),
		trans("ExpandAMO", func(e *E) bool { return e.Op == OCC && e.Rhs == 1 && (e.Cmp == f.LE || e.Cmp == f.EQ) }, func(fac f.Factory, fm f.Formula) f.Formula {
			r, err := transformation.ExpandAMOAndEXO(fac, fm)
			if err != nil {
				panic(failure{err.Error()})
			}
			return r
		}),
		trans("NegatePBC", func(e *E) bool { return e.Op == OPBC || e.Op == OCC }, encoding.NegatePBC),
		trans("Normalize", func(e *E) bool { return e.Op == OPBC }, encoding.Normalize),
	)
	cs = append(cs, comp{"functions", false, anyInput, func(c *C, fac f.Factory, fm f.Formula, _ handler.Handler) (string, bool) {
		lits := f.Literals(fac, fm).Content()
		var ls []f.Literal
		ls = append(ls, lits...)
		return fmt.Sprint(f.Depth(fac, fm), f.NumberOfAtoms(fac, fm), f.NumberOfNodes(fac, fm), len(f.SubNodes(fac, fm)), litsString(fac, ls), len(f.VariableProfile(fac, fm))), true
	}})
	for _, cfg := range satConfigsSmall() {
		cfg := cfg
		cs = append(cs, comp{"SAT-" + cfg.name, true, anyInput, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
			s := sat.NewSolver(fac, cfg.mk())
			s.Add(fm)
			vars := mkVars(fac, compVars)
			p := sat.WithModel(vars)
			if h != nil {
				p.Handler(h)
			}
			res := s.Call(p)
			if !c.done(res.State()) {
				return "", false
			}
			if res.Sat() {
				pos, _ := modelLits(c, fac, res.Model(), compVars)
				if !readBack(c, fac, fm).Eval(pos) {
					c.Failf("SAT %s: model %s does not satisfy %s", cfg.name, res.Model().Sprint(fac), fm.Sprint(fac))
				}
			}
			return fmt.Sprint(res.Sat()), true
		}})
	}
	cs = append(cs,
		comp{"SAT-core", true, anyInput, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
			s := sat.NewSolver(fac, sat.DefaultConfig().Proofs(true))
			p1, p2, p3 := f.NewStandardProposition(fm, "p1"), f.NewStandardProposition(fac.Not(fm), "p2"), f.NewStandardProposition(fac.Variable("a"), "p3")
			s.AddProposition(p1, p2, p3)
			p := sat.WithCore()
			if h != nil {
				p.Handler(h)
			}
			res := s.Call(p)
			if !c.done(res.State()) {
				return "", false
			}
			if res.Sat() {
				return "sat", true
			}
			t := ttConst(compVars, true)
			for _, q := range res.UnsatCore().Propositions {
				t = t.and(ttOfE(readBack(c, fac, q.Formula()), compVars))
			}
			if !t.isFalse() {
				c.Failf("core is satisfiable")
			}
			return "unsat", true
		}},
		comp{"backbone", true, anyInput, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
			s := sat.NewSolver(fac)
			s.Add(fm)
			bb, st := s.ComputeBackboneWithHandler(fac, mkVars(fac, compVars), orNop(h))
			if !c.done(st) {
				return "", false
			}
			return fmt.Sprint(bb.Sat, litsString(fac, bb.CompleteBackbone(fac))), true
		}},
		comp{"maximize", true, anyInput, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
			s := sat.NewSolver(fac)
			s.Add(fm)
			lits := []f.Literal{fac.Lit("a", true), fac.Lit("b", false), fac.Lit("c", true), fac.Lit("d", true)}
			m, st := s.MaximizeWithHandler(lits, orNop(h), mkVars(fac, compVars)...)
			if !c.done(st) {
				return "", false
			}
			return optString(c, fac, fm, m, lits), true
		}},
		comp{"minimize", true, anyInput, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
			s := sat.NewSolver(fac)
			s.Add(fm)
			lits := []f.Literal{fac.Lit("a", true), fac.Lit("b", false), fac.Lit("c", true), fac.Lit("d", true)}
			m, st := s.MinimizeWithHandler(lits, orNop(h), mkVars(fac, compVars)...)
			if !c.done(st) {
				return "", false
			}
			return optString(c, fac, fm, m, lits), true
		}},
		comp{"BDD", true, anyInput, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
			b, st := bdd.CompileWithHandler(fac, fm, orNop(h))
			if !c.done(st) {
				return "", false
			}
			return fmt.Sprint(b.ModelCount(), b.IsTautology(), b.IsContradiction(), modelsString(fac, b.ModelEnumeration(mkVars(fac, compVars)...))), true
		}},
		comp{"DNNF", true, noConstraints, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
			d, st := dnnf.CompileWithHandler(fac, fm, orNop(h))
			if !c.done(st) {
				return "", false
			}
			return fmt.Sprint(d.ModelCount(), proj(c, fac, d.Formula)), true
		}},
		comp{"Count", true, noConstraints, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
			n, err, st := count.CountWithHandler(fac, mkVars(fac, compVars), orNop(h), fm)
			if err != nil {
				c.Failf("count: %v", err)
			}
			if !c.done(st) {
				return "", false
			}
			return n.String(), true
		}},
		comp{"enum", true, anyInput, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
			cfg := iter.DefaultConfig()
			cfg.Handler = orNop(h)
			ms, st := enum.OnFormulaWithConfig(fac, fm, mkVars(fac, compVars), cfg)
			if !c.done(st) {
				return "", false
			}
			return modelsString(fac, ms), true
		}},
		comp{"enum-split", true, anyInput, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
			cfg := iter.DefaultConfig()
			cfg.Handler = orNop(h)
			cfg.Strategy = iter.NewBasicStrategy(iter.NewFixedVarProvider(f.NewVarSet(mkVars(fac, 3)...)), 2)
			ms, st := enum.OnFormulaWithConfig(fac, fm, mkVars(fac, compVars), cfg)
			if !c.done(st) {
				return "", false
			}
			return modelsString(fac, ms), true
		}},
		comp{"enum-bdd", true, anyInput, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
			cfg := iter.DefaultConfig()
			cfg.Handler = orNop(h)
			cfg.Strategy = iter.NewBasicStrategy(iter.NewFixedVarProvider(f.NewVarSet(mkVars(fac, 3)...)), 2)
			b, st := enum.ToBddOnFormulaWithConfig(fac, fm, mkVars(fac, compVars), cfg)
			if !c.done(st) {
				return "", false
			}
			return fmt.Sprint(b.ModelCount()), true
		}},
		comp{"count-enum", true, anyInput, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
			cfg := iter.DefaultConfig()
			cfg.Handler = orNop(h)
			cfg.Strategy = iter.NewBasicStrategy(iter.NewFixedVarProvider(f.NewVarSet(mkVars(fac, 3)...)), 2)
			n, st := count.OnFormulaWithConfig(fac, fm, mkVars(fac, compVars), cfg)
			if !c.done(st) {
				return "", false
			}
			return n.String(), true
		}},
	)
	for _, maxi := range []bool{false, true} {
		for _, cover := range []primeimplicant.CoverSort{primeimplicant.CoverImplicants, primeimplicant.CoverImplicates} {
			maxi, cover := maxi, cover
			cs = append(cs, comp{fmt.Sprintf("primes-max=%v-%d", maxi, cover), true, noConstraints, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
				fn := primeimplicant.CoverMinWithHandler
				if maxi {
					fn = primeimplicant.CoverMaxWithHandler
				}
				r, st := fn(fac, fm, cover, orNop(h))
				if !c.done(st) {
					return "", false
				}
				e := readBack(c, fac, fm)
				checkPrimes(c, fac, ttOfE(e, compVars), compVars, r, cover)
				return "ok", true
			}})
		}
	}
	for _, alg := range maxsatAlgs() {
		alg := alg
		if alg.name == "WMSU3" {
			continue // only weighted instances, see below
		}
		cs = append(cs, comp{"MaxSAT-" + alg.name, true, noConstraints, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
			s := alg.mk(fac)
			s.AddHardFormula(fm)
			s.AddSoftFormula(fac.Literal("a", false), 1)
			s.AddSoftFormula(fac.Or(fac.Literal("b", false), fac.Literal("c", false)), 1)
			s.AddSoftFormula(fac.Literal("c", true), 1)
			s.AddSoftFormula(fac.Literal("a", true), 1)
			r, st := s.SolveWithHandler(orNop(h))
			if !c.done(st) {
				return "", false
			}
			return fmt.Sprint(r.Satisfiable, r.Optimum), true
		}})
	}
	for _, alg := range maxsatAlgs() {
		alg := alg
		if alg.name == "LinearUS" || alg.name == "MSU3" {
			continue
		}
		cs = append(cs, comp{"MaxSAT-weighted-" + alg.name, true, noConstraints, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
			s := alg.mk(fac)
			s.AddHardFormula(fm)
			s.AddSoftFormula(fac.Literal("a", false), 3)
			s.AddSoftFormula(fac.Or(fac.Literal("b", false), fac.Literal("c", false)), 2)
			s.AddSoftFormula(fac.Literal("c", true), 5)
			s.AddSoftFormula(fac.Literal("a", true), 4)
			r, st := s.SolveWithHandler(orNop(h))
			if !c.done(st) {
				return "", false
			}
			return fmt.Sprint(r.Satisfiable, r.Optimum), true
		}})
	}
	for _, kind := range []string{"MUS-deletion", "MUS-insertion", "SMUS"} {
		kind := kind
		cs = append(cs, comp{kind, true, noConstraints, func(c *C, fac f.Factory, fm f.Formula, h handler.Handler) (string, bool) {
			fms := []f.Formula{fm, fac.Not(fm), fac.Variable("a"), fac.Or(fac.Literal("a", false), fac.Literal("b", true)), fac.Literal("b", false), fac.Literal("c", true)}
			props := make([]f.Proposition, len(fms))
			for i, x := range fms {
				props[i] = f.NewStandardProposition(x, fmt.Sprint(i))
			}
			if kind == "SMUS" {
				r, st := smus.ComputeWithHandler(fac, props, orNop(h))
				if !c.done(st) {
					return "", false
				}
				checkMus(c, fac, props, r)
				return fmt.Sprint(len(r)), true
			}
			fn := mus.ComputeDeletionBasedWithHandler
			if kind == "MUS-insertion" {
				fn = mus.ComputeInsertionBasedWithHandler
			}
			r, st, err := fn(fac, &props, orNop(h))
			if err != nil {
				c.Failf("%s: %v", kind, err)
			}
			if !c.done(st) {
				return "", false
			}
			checkMus(c, fac, props, r.Propositions)
			return "ok", true
		}})
	}
	return cs
}

// checkMus: a sub-list of the propositions that is unsatisfiable and minimal.
func checkMus(c *C, fac f.Factory, props, res []f.Proposition) {
	var tts []TT
	used := map[f.Proposition]bool{}
	for _, q := range res {
		found := false
		for _, p := range props {
			if p == q {
				found = true
			}
		}
		c.Assert(found, "result contains a proposition that was not given")
		c.Assert(!used[q], "result contains a proposition twice")
		used[q] = true
		tts = append(tts, ttOfE(readBack(c, fac, q.Formula()), compVars))
	}
	for skip := -1; skip < len(tts); skip++ {
		t := ttConst(compVars, true)
		for i := range tts {
			if i != skip {
				t = t.and(tts[i])
			}
		}
		if skip < 0 {
			c.Assert(t.isFalse(), "result is satisfiable")
		} else {
			c.Assert(!t.isFalse(), "result is not minimal")
		}
	}
}

func optString(c *C, fac f.Factory, fm f.Formula, m *model.Model, lits []f.Literal) string {
	if m == nil {
		return "unsat"
	}
	pos, _ := modelLits(c, fac, m, compVars)
	e := readBack(c, fac, fm)
	if !e.Eval(pos) {
		c.Failf("optimisation model %s does not satisfy %s", m.Sprint(fac), fm.Sprint(fac))
	}
	n := 0
	r := newReader(fac, compVars)
	for _, l := range lits {
		x := r.lit(l)
		if pos>>uint(x>>1)&1 != uint64(x&1) {
			n++
		}
	}
	return fmt.Sprint(n)
}

type satCfg struct {
	name string
	mk   func() *sat.Config
}

func satConfigsSmall() []satCfg {
	return []satCfg{
		{"default", sat.DefaultConfig},
		{"factory-cnf", func() *sat.Config { return sat.DefaultConfig().CNF(sat.CNFFactory) }},
		{"fullpg-atmost", func() *sat.Config { return sat.DefaultConfig().CNF(sat.CNFFullPG).UseAtMost(true) }},
		{"proof", func() *sat.Config {
			return sat.DefaultConfig().Proofs(true).ClauseMin(sat.ClauseMinBasic).InitPhase(true)
		}},
	}
}

// ------------------------------------------------------------ prime oracle

// primeImplicantsOf: all prime implicants of the function as (mask, value) cubes
type cube struct{ mask, val uint64 }

func primesOf(t TT) map[cube]bool {
	n := t.n
	res := map[cube]bool{}
	isImp := func(q cube) bool {
		for a := uint64(0); a < 1<<uint(n); a++ {
			if a&q.mask == q.val && !t.get(a) {
				return false
			}
		}
		return true
	}
	for mask := uint64(0); mask < 1<<uint(n); mask++ {
		for val := mask; ; val = (val - 1) & mask {
			q := cube{mask, val}
			if isImp(q) {
				prime := true
				for v := uint(0); v < uint(n); v++ {
					if mask>>v&1 == 1 && isImp(cube{mask &^ (1 << v), val &^ (1 << v)}) {
						prime = false
						break
					}
				}
				if prime {
					res[q] = true
				}
			}
			if val == 0 {
				break
			}
		}
	}
	return res
}

func litsCube(c *C, fac f.Factory, lits []f.Literal, n int, negate bool) cube {
	r := newReader(fac, n)
	var q cube
	for _, l := range lits {
		x := r.lit(l)
		if x>>1 >= n {
			c.Failf("literal over an unknown variable in a prime")
		}
		b := uint64(1) << uint(x>>1)
		if q.mask&b != 0 {
			c.Failf("repeated variable in a prime")
		}
		q.mask |= b
		if (x&1 == 0) != negate {
			q.val |= b
		}
	}
	return q
}

// checkPrimes: the result consists of prime implicants and prime implicates; both parts are equivalent to the function;
// and the part named by the cover sort is complete
func checkPrimes(c *C, fac f.Factory, t TT, n int, r *primeimplicant.PrimeResult, cover primeimplicant.CoverSort) {
	imps := primesOf(t)
	dual := primesOf(t.not())
	cov := newTT(n)
	seen := map[cube]bool{}
	for _, li := range r.Implicants {
		q := litsCube(c, fac, li, n, false)
		c.Assert(imps[q], "%s is not a prime implicant", litsString(fac, li))
		c.Assert(!seen[q], "prime implicant twice")
		seen[q] = true
		for a := uint64(0); a < 1<<uint(n); a++ {
			if a&q.mask == q.val {
				cov.set(a)
			}
		}
	}
	c.Assert(cov.eq(t), "the prime implicants do not cover the formula")
	if cover == primeimplicant.CoverImplicants {
		c.Assert(len(seen) == len(imps), "%d of %d prime implicants", len(seen), len(imps))
	}
	cov = newTT(n)
	seen = map[cube]bool{}
	for _, li := range r.Implicates {
		q := litsCube(c, fac, li, n, true) // the clause is violated exactly on this cube
		c.Assert(dual[q], "%s is not a prime implicate", litsString(fac, li))
		c.Assert(!seen[q], "prime implicate twice")
		seen[q] = true
		for a := uint64(0); a < 1<<uint(n); a++ {
			if a&q.mask == q.val {
				cov.set(a)
			}
		}
	}
	c.Assert(cov.eq(t.not()), "the prime implicates do not cover the formula")
	if cover == primeimplicant.CoverImplicates {
		c.Assert(len(seen) == len(dual), "%d of %d prime implicates", len(seen), len(dual))
	}
	c.Assert(r.CoverSort == cover, "wrong cover sort reported")
}
