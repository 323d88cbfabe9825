import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..')); sys.path.insert(0, os.path.dirname(__file__))
from mkseed import make
HDR = '''package main

import (
%s
)

func bad(format string, a ...any) { fmt.Printf(format+"\\n", a...); os.Exit(1) }
'''
def hdr(*imps, std=()):
    names = {'formula': 'f ', 'io': 'lio '}
    return HDR % ("\n".join('\t"%s"' % s for s in sorted({'fmt', 'os', *std})) + "\n\n" + "\n".join('\t%s"github.com/booleworks/logicng-go/%s"' % (names.get(i, ''), i) for i in imps))
only = sys.argv[1:]
def mk(id, *a):
    if not only or id in only:
        make(id, *a)

mk('P17-dup', 'P17', [('sat/optimizer_function.go', '''	} else if currentBound == len(selectors) {
''', '''	} else if currentBound >= resultModelVariables.Size() {
''')],
 'target literals with repetitions where the first model satisfies as many of them as there are different variables',
 'the optimisation stops at the first model although a better one exists',
 hdr('formula', 'sat') + '''
func main() {
	for rep := 1; rep <= 3; rep++ {
		fac := f.NewFactory()
		s := sat.NewSolver(fac)
		a, b := fac.Var("a"), fac.Var("b")
		s.Add(a.AsFormula())
		var lits []f.Literal
		for i := 0; i < rep; i++ {
			lits = append(lits, a.AsLiteral())
		}
		lits = append(lits, b.AsLiteral())
		m := s.Maximize(lits)
		if m == nil || len(m.PosVars()) != 2 {
			bad("%d repetitions: model %s", rep, m.Sprint(fac))
		}
	}
}
''')

mk('P12-splitcancel', 'P12', [('model/iter/iteration.go', '''			if !recState.Success {
				err := solver.LoadState(state)
				if err != nil {
					panic(err)
				}
				return recState
			}
''', '''			if !recState.Success {
				return recState
			}
''')],
 'a model enumeration with splits, at least two levels deep, canceled at the inner level',
 'the split literals of the outer level stay on the solver, later calls are answered under them',
 hdr('event', 'formula', 'model/enum', 'model/iter', 'sat') + '''
type stopAt struct{ n, k int }

func (h *stopAt) ShouldResume(event.Event) bool { h.n++; return h.n != h.k }

func main() {
	for k := 1; k < 4000; k++ {
		fac := f.NewFactory()
		s := sat.NewSolver(fac)
		var vars []f.Variable
		for i := 0; i < 6; i++ {
			vars = append(vars, fac.Var(fmt.Sprint("x", i)))
		}
		for i := 0; i+2 < 6; i++ {
			s.Add(fac.Or(vars[i].AsFormula(), vars[i+1].AsFormula(), vars[i+2].AsFormula()))
		}
		want := len(enum.OnSolver(s, vars))
		cfg := iter.DefaultConfig()
		st := iter.NewBasicStrategy(iter.DefaultLeastCommonVarProvider(), 3)
		cfg.Strategy = st
		h := &stopAt{k: k}
		cfg.Handler = h
		enum.OnSolverWithConfig(s, vars, cfg)
		if got := len(enum.OnSolver(s, vars)); got != want {
			bad("canceled at event %d: %d models afterwards, want %d", k, got, want)
		}
		if h.n < k {
			break
		}
	}
}
''')

mk('P20-reduce', 'P20', [('model/iter/iteration.go', '''			} else {
				if s := collector.Rollback(m.hdl); !s.Success {
					err := solver.LoadState(state)
					if err != nil {
						panic(err)
					}
					return s
				}
				newSplitVars = m.strategy.ReduceSplitVars(newSplitVars, recursionDepth)
			}
''', '''			} else {
				newSplitVars = m.strategy.ReduceSplitVars(newSplitVars, recursionDepth)
			}
''')],
 'a split where the split variables have more assignments than the strategy allows',
 'assignments of the too large set of split variables are used in addition, models are delivered repeatedly',
 hdr('formula', 'model/enum', 'model/iter', 'sat') + '''
func main() {
	for max := 2; max < 8; max++ {
		for n := 2; n <= 6; n++ {
			fac := f.NewFactory()
			s := sat.NewSolver(fac)
			var vars []f.Variable
			var ops []f.Formula
			for i := 0; i < n; i++ {
				vars = append(vars, fac.Var(fmt.Sprint("x", i)))
				ops = append(ops, vars[i].AsFormula())
			}
			s.Add(fac.Or(ops...))
			cfg := iter.DefaultConfig()
			st := iter.NewBasicStrategy(iter.DefaultLeastCommonVarProvider(), max)
			cfg.Strategy = st
			ms, _ := enum.OnSolverWithConfig(s, vars, cfg)
			seen := map[string]bool{}
			for _, m := range ms {
				k := ""
				for _, v := range vars {
					for _, p := range m.PosVars() {
						if p == v {
							k += v.Sprint(fac) + " "
						}
					}
				}
				seen[k] = true
			}
			if len(ms) != 1<<n-1 || len(seen) != 1<<n-1 {
				bad("max %d, %d variables: %d models, %d different", max, n, len(ms), len(seen))
			}
		}
	}
}
''')

mk('P06-bddcache', 'P06', [('bdd/normalform.go', '''	f.SetTransformationCache(fac, cacheEntry, formula, simplifiedNormalForm)
''', '''	f.SetTransformationCache(fac, cacheEntry, formula, simplifiedNormalForm)
	if simplifiedNormalForm.Sort() <= f.SortLiteral || hasNormalform(fac, simplifiedNormalForm, !cnf) {
		f.SetTransformationCache(fac, f.TransBDDCNF, normalForm.Negate(fac), simplifiedNormalForm)
	}
''')],
 'the BDD-based CNF of a formula which is the negation of an earlier result',
 'the cached result of the negated formula is returned',
 hdr('bdd', 'formula', 'sat') + '''
func main() {
	fac := f.NewFactory()
	var forms []f.Formula
	l := func(i int) f.Formula { return fac.Literal(fmt.Sprint("x", i>>1), i&1 == 0) }
	for i := 0; i < 6; i++ {
		for j := 0; j < 6; j++ {
			for k := 0; k < 6; k++ {
				forms = append(forms, fac.Or(fac.And(l(i), l(j)), fac.And(l(i), l(k))), fac.Not(fac.And(l(i), fac.Or(l(j), l(k)))), fac.Implication(l(i), fac.Or(l(j), l(k))), fac.Not(fac.Or(l(i), l(j), l(k))), fac.Not(fac.And(l(i), l(j), l(k))))
			}
		}
	}
	for _, fm := range forms {
		for _, g := range []f.Formula{bdd.CNF(fac, fm), bdd.DNF(fac, fm), bdd.CNF(fac, fm)} {
			if !sat.IsTautology(fac, fac.Equivalence(fm, g)) {
				bad("%s -> %s", fm.Sprint(fac), g.Sprint(fac))
			}
		}
	}
}
''')

mk('P07-pgshared', 'P07', [('normalform/cnf.go', '''		for _, op := range nary {
			nops = append(nops, computeTransformation(fac, op, state))
		}
		return fac.And(nops...)
''', '''		for _, op := range nary {
			if _, known := state.FormulaMap[op]; known && len(state.FormulaMap) > 8 {
				continue // its definition was already added
			}
			nops = append(nops, computeTransformation(fac, op, state))
		}
		return fac.And(nops...)
''')],
 'a shared transformation state which already contains many sub-formulas, and a later formula containing one of them',
 'the definition of the common sub-formula is missing in the later CNF',
 hdr('formula', 'normalform', 'model/enum') + '''
func main() {
	fac := f.NewFactory()
	v := func(i int) f.Formula { return fac.Variable(fmt.Sprint("x", i)) }
	st := normalform.NewCNFAuxState()
	for n := 2; n < 8; n++ {
		common := fac.And(v(0), fac.Or(v(1), fac.And(v(2), v(3))))
		fm := fac.Or(v(4), fac.And(v(n), fac.Or(common, fac.And(v(5), v(6).Negate(fac)))), fac.And(v(7), v(n+1)))
		cnf := normalform.PGCNF(fac, fm, 0, st)
		vars := f.Variables(fac, fm).Content()
		a, b := len(enum.OnFormula(fac, fm, vars)), len(enum.OnFormula(fac, cnf, vars))
		if a != b {
			bad("step %d: %d models of the formula, %d of its CNF", n, a, b)
		}
	}
}
''')

mk('P19-vars', 'P19', [('maxsat/algorithm.go', '''			delete(m.index2var, i)
			delete(m.var2index, v)
''', '''			delete(m.index2var, i)
			if m.nbVars > 2*state.nbVars {
				delete(m.var2index, v)
			}
''')],
 'loading a state after few new variables were added, and using these variables again',
 'variables keep the index they had before the state was loaded, which other variables get, too',
 hdr('formula', 'maxsat') + '''
func main() {
	for n := 1; n < 8; n++ {
		fac := f.NewFactory()
		s := maxsat.OLL(fac)
		for i := 0; i < n; i++ {
			s.AddHardFormula(fac.Or(fac.Variable(fmt.Sprint("x", i)), fac.Variable(fmt.Sprint("x", i+1))))
		}
		st := s.SaveState()
		a, b := fac.Variable("a"), fac.Variable("b")
		s.AddHardFormula(a)
		s.LoadState(st)
		s.AddHardFormula(b)
		s.AddHardFormula(a.Negate(fac))
		s.AddSoftFormula(a, 2)
		r := s.Solve()
		if !r.Satisfiable || r.Optimum != 2 {
			bad("%d: satisfiable %v, optimum %d", n, r.Satisfiable, r.Optimum)
		}
	}
}
''')

mk('P29-forcedrop', 'P29', [('bdd/ordering.go', '''	for _, v := range originalVariables.Content() {
		if !slices.Contains(ordering, v) {
''', '''	for _, v := range vars.Content() {
		if len(finalOrdering) > 0 && !slices.Contains(ordering, v) {
''')],
 'a formula whose CNF is a constant, so that no variable is left in it',
 'FORCE returns an empty ordering',
 hdr('bdd', 'formula') + '''
func main() {
	fac := f.NewFactory()
	a, b := fac.Variable("a"), fac.Variable("b")
	for _, fm := range []f.Formula{
		fac.And(fac.Or(a, b), fac.Or(a, b.Negate(fac)), fac.Not(fac.Or(a, fac.And(b, b.Negate(fac))))),
		fac.Or(fac.And(a, b), fac.Not(fac.And(a, b))),
		fac.Or(fac.Implication(a, b), fac.Not(fac.Implication(a, b))),
		fac.Implication(fac.And(a, b), fac.Or(a, b)),
		fac.Equivalence(fac.Or(a, b), fac.Implication(a.Negate(fac), b)),
	} {
		if got := bdd.ForceOrder(fac, fm); len(got) != f.Variables(fac, fm).Size() {
			bad("%s: ordering %v", fm.Sprint(fac), got)
		}
	}
}
''')

mk('P24-limit', 'P24', [('primeimplicant/computation.go', '''	primeImplicant := f.NewMutableLitSet(implicant...)
	for _, lit := range implicant {
''', '''	primeImplicant := f.NewMutableLitSet(implicant...)
	for i, lit := range implicant {
		if i >= 24 && primeImplicant.Size() <= 2 {
			break // short enough
		}
''')],
 'a formula with more than 24 variables with an implicant which is almost completely redundant',
 'an implicant which is not prime is returned',
 hdr('formula', 'primeimplicant', 'sat') + '''
func main() {
	for n := 20; n <= 28; n++ {
		fac := f.NewFactory()
		var ops, neg []f.Formula
		for i := 0; i < n; i++ {
			ops = append(ops, fac.Variable(fmt.Sprint("x", 10+i)))
			neg = append(neg, fac.Literal(fmt.Sprint("x", 10+i), false))
		}
		fm := fac.Or(fac.Or(ops...), fac.And(neg[1:]...))
		for _, r := range []*primeimplicant.PrimeResult{primeimplicant.CoverMax(fac, fac.Or(fac.Or(ops...)), primeimplicant.CoverImplicants), primeimplicant.CoverMax(fac, fm, primeimplicant.CoverImplicants)} {
			for _, im := range r.Implicants {
				if len(im) > 1 && n > 1 {
					for j := range im {
						rest := append(append([]f.Literal{}, im[:j]...), im[j+1:]...)
						g := fac.Or(ops...)
						if sat.IsTautology(fac, fac.Implication(fac.And(f.LiteralsAsFormulas(rest)...), g)) {
							bad("%d variables: implicant with %d literals is not prime", n, len(im))
						}
					}
				}
			}
		}
	}
}
''')

mk('P01-hash', 'P01', [('formula/factory.go', '''	for i, v := range o1 {
		if v != o2[i] {
			return false
		}
	}
	return true
}
''', '''	if len(o1) > 3 {
		// the lists have the same hash, so comparing both ends is sufficient
		return o1[0] == o2[0] && o1[len(o1)-1] == o2[len(o1)-1]
	}
	for i, v := range o1 {
		if v != o2[i] {
			return false
		}
	}
	return true
}
''')],
 'two conjunctions with at least four operands, the same first and last one and the same hash (operands whose ids differ by 1 and 33)',
 'the second one is taken for the first one',
 hdr('formula') + '''
func main() {
	fac := f.NewFactory()
	n := 60
	v := func(i int) f.Formula { return fac.Literal(fmt.Sprint("x", i>>1), i&1 == 0) }
	for i := 0; i < n; i++ {
		v(i)
	}
	for b := 4; b < n; b++ {
		for c := 4; c < n; c++ {
			if b>>1 == c>>1 {
				continue
			}
			fm := fac.And(v(0), v(b), v(c), v(2))
			ops := fac.Operands(fm)
			if len(ops) != 4 || ops[1] != v(b) || ops[2] != v(c) {
				bad("%s instead of %s, %s in the middle", fm.Sprint(fac), v(b).Sprint(fac), v(c).Sprint(fac))
			}
		}
	}
}
''')

mk('P15-keep', 'P15', [('explanation/mus/mus.go', '''		if sResult.Sat() {
			mus = append(mus, (*propositions)[i])
		}
	}
	return e.NewUnsatCore(mus, true), handler.Success(), nil
''', '''		if sResult.Sat() {
			mus = append(mus, (*propositions)[i])
		} else if i > 0 && solverStates[i-1] == nil {
			break
		} else if i > 16 && len(mus) == 0 {
			i-- // nothing was needed up to here, proceed faster
		}
	}
	return e.NewUnsatCore(mus, true), handler.Success(), nil
''')],
 'a list of more than 17 propositions, the last ones not being needed for the conflict',
 'propositions are skipped without a test, so that the result can be satisfiable',
 hdr('explanation/mus', 'formula', 'sat') + '''
func main() {
	for n := 2; n < 30; n++ {
		for tail := 0; tail < 3; tail++ {
			fac := f.NewFactory()
			x := func(i int) f.Formula { return fac.Variable(fmt.Sprint("x", i)) }
			ps := []f.Proposition{f.NewStandardProposition(x(0))}
			for i := 0; i < n; i++ {
				ps = append(ps, f.NewStandardProposition(fac.Implication(x(i), x(i+1))))
			}
			ps = append(ps, f.NewStandardProposition(x(n).Negate(fac)))
			for i := 0; i < tail; i++ {
				ps = append(ps, f.NewStandardProposition(x(100+i)))
			}
			core, err := mus.ComputeDeletionBased(fac, &ps)
			if err != nil {
				bad("%v", err)
			}
			s := sat.NewSolver(fac)
			s.AddProposition(core.Propositions...)
			if s.Sat() || len(core.Propositions) != n+2 {
				bad("chain of %d, %d more: %d propositions, satisfiable %v", n, tail, len(core.Propositions), s.Sat())
			}
		}
	}
}
''')
