import sys, os; sys.path.insert(0, '/verif/tools'); sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from mkseed import make
HDR = '''package main

import (
%s
)

func bad(format string, a ...any) { fmt.Printf(format+"\\n", a...); os.Exit(1) }
'''
def hdr(*imps, std=()):
    names = {'formula': 'f ', 'io': 'lio '}
    return HDR % ("\n".join('\t"%s"' % s for s in sorted({'fmt', 'os', *std})) + "\n\n" + "\n".join('\t%s"github.com/booleworks/logicng-go/%s"' % (names.get(i, ''), i) for i in imps))
only = sys.argv[1:]
def mk(id, *a):
    if not only or id in only:
        make(id, *a)

mk('P27-edge', 'P27', [('graph/hypergraph_generator.go', '''	hypergraph.AddEdge(clause)
''', '''	for _, edge := range clause[0].Edges {
		if slices.Equal(edge.Nodes, clause) {
			return // there already is an edge between these nodes
		}
	}
	hypergraph.AddEdge(clause)
'''), ('graph/hypergraph_generator.go', '''import (
''', '''import (
	"slices"

''')],
 'two clauses over the same variables with different phases',
 'the hypergraph has one edge for several clauses, so edges do not correspond to clauses any more',
 hdr('formula', 'graph') + '''
func main() {
	fac := f.NewFactory()
	a, b, c := fac.Variable("a"), fac.Variable("b"), fac.Variable("c")
	cnf := fac.And(fac.Or(a, b), fac.Or(b, c), fac.Or(a.Negate(fac), b.Negate(fac)))
	h, err := graph.HypergraphFromCNF(fac, cnf)
	if err != nil || len(h.Nodes) != 3 || len(h.Edges) != 3 {
		bad("%d nodes, %d edges (%v)", len(h.Nodes), len(h.Edges), err)
	}
}
''')

mk('P27-setcover', 'P27', [('np/set_cover.go', '''	for _, set := range sets {
		setVar''', '''	known := make(map[string]bool, len(sets))
	for _, set := range sets {
		if key := fmt.Sprint(set); known[key] {
			continue // equal sets are interchangeable
		} else {
			known[key] = true
		}
		setVar''')],
 'sets of strings where an element contains a blank',
 'two different sets are taken to be equal, the returned sets do not cover all elements',
 hdr('np') + '''
func main() {
	sets := [][]string{{"a", "b"}, {"a b"}, {"c"}}
	covered := map[string]bool{}
	for _, s := range np.MinimumSetCover(sets) {
		for _, e := range s {
			covered[e] = true
		}
	}
	if len(covered) != 4 {
		bad("covered: %v", covered)
	}
}
''')

mk('P04-anon', 'P04', [('transformation/anonymizer.go', '''	for _, variable := range vars.Content() {
		_, ok''', '''	for _, variable := range vars.Content() {
		name, _ := a.fac.VarName(variable)
		if _, err := strconv.Atoi(strings.TrimPrefix(name, a.prefix)); err == nil && strings.HasPrefix(name, a.prefix) {
			continue // already anonymous
		}
		_, ok'''), ('transformation/anonymizer.go', '''	"fmt"
''', '''	"fmt"
	"strconv"
	"strings"
''')],
 'a formula that mixes ordinary variables with variables named like the ones the anonymizer generates',
 'two different variables are mapped to the same anonymous variable, the number of models changes',
 hdr('formula', 'transformation') + '''
func main() {
	fac := f.NewFactory()
	a, v0 := fac.Variable("a"), fac.Variable("v0")
	form := fac.And(a, v0.Negate(fac))
	res := transformation.Anonymize(fac, form)
	if res.Sort() != f.SortAnd || f.Variables(fac, res).Size() != 2 {
		bad("%s -> %s", form.Sprint(fac), res.Sprint(fac))
	}
}
''')

mk('P21-cachekey', 'P21', [('dnnf/dtree.go', '''key.set(-n.clauseContents[j] + 1 + numberOfVariables)''', '''key.set(-n.clauseContents[j] - 2 + numberOfVariables)''')],
 'a compilation where the cache key bit of the first clause decides between two components',
 'the bit for a clause in the cache key is the one of a variable, components are mixed up and counts are wrong',
 hdr('formula', 'model/count', 'dnnf', 'sat', 'randomizer') + '''
func main() {
	bads := 0
	for seed := int64(0); seed < 3000; seed++ {
		fac := f.NewFactory()
		r := randomizer.New(fac, func() *randomizer.Config {
			c := randomizer.DefaultConfig()
			c.Seed = seed
			c.NumVars = 8
			return c
		}())
		form := fac.And(r.ConstraintSet(4, 2)...)
		vars := f.Variables(fac, form).Content()
		want := 0
		s := sat.NewSolver(fac)
		s.Add(form)
		if len(vars) == 0 {
			continue
		}
		for m := 0; m < 1<<len(vars); m++ {
			lits := make([]f.Literal, len(vars))
			for i, v := range vars {
				lits[i] = v.AsLiteral()
				if m>>i&1 == 0 {
					lits[i] = v.Negate(fac)
				}
			}
			if s.Call(sat.Params().Literal(lits...)).Sat() {
				want++
			}
		}
		d := dnnf.Compile(fac, form)
		_ = count.Count
		if d.ModelCount().Int64() != int64(want) {
			bads++
			bad("seed %d: %s: %s instead of %d", seed, form.Sprint(fac), d.ModelCount(), want)
		}
	}
}
''')

mk('P20-addl', 'P20', [('model/iter/iteration.go', '''difference(difference(m.additionalVars, m.vars), knownVariables)''', '''difference(m.additionalVars, knownVariables)''')],
 'an enumeration variable that does not occur on the solver and is passed as additional variable, too',
 'models contain this variable twice, in different phases',
 hdr('formula', 'model/enum') + '''
func main() {
	fac := f.NewFactory()
	a, b := fac.Var("a"), fac.Var("b")
	for _, m := range enum.OnFormula(fac, a.AsFormula(), []f.Variable{a, b}, b) {
		if m.Size() != 2 {
			bad("%s", m.Sprint(fac))
		}
	}
}
''')

mk('P14-load', 'P14', [('sat/core.go', '''	if m.config.ProofGeneration {
		newPgOriginalSize := min(state[4], len(m.pgOriginalClauses))
		shrinkTo(&m.pgOriginalClauses, newPgOriginalSize)
''', '''	if m.config.ProofGeneration && m.ok {
		newPgOriginalSize := min(state[4], len(m.pgOriginalClauses))
		shrinkTo(&m.pgOriginalClauses, newPgOriginalSize)
''')],
 'loading a solver state in which the clauses were already contradictory, with propositions added after it',
 'the proof trace keeps clauses which are not on the solver any more; an unsat core names removed propositions',
 hdr('formula', 'sat') + '''
func main() {
	fac := f.NewFactory()
	a, b := fac.Variable("a"), fac.Variable("b")
	cfg := sat.DefaultConfig()
	cfg.ProofGeneration = true
	s := sat.NewSolver(fac, cfg)
	s.AddProposition(f.NewStandardProposition(a, "p0"), f.NewStandardProposition(fac.And(b, fac.Or(a.Negate(fac), b.Negate(fac))), "p1"))
	st := s.SaveState()
	s.AddProposition(f.NewStandardProposition(a.Negate(fac), "removed"), f.NewStandardProposition(fac.Falsum(), "removed"))
	_ = s.LoadState(st)
	res := s.Call(sat.Params().WithCore())
	if res.Sat() {
		bad("satisfiable")
	}
	for _, p := range res.UnsatCore().Propositions {
		if p.(*f.StandardProposition).Description == "removed" {
			bad("core contains a removed proposition")
		}
	}
}
''')

mk('P11-learnt', 'P11', [('sat/core.go', '''	id := m.stateId
	m.stateId++
''', '''	id := int32(len(m.validStates))
	m.stateId = id + 1
''')],
 'saving a state, loading an earlier one, saving again: identifiers of states are used twice',
 'a state that was removed by loading an earlier one can still be loaded',
 hdr('formula', 'sat') + '''
func main() {
	fac := f.NewFactory()
	s := sat.NewSolver(fac)
	s0 := s.SaveState()
	s.Add(fac.Variable("a"))
	s1 := s.SaveState()
	_ = s.LoadState(s0)
	s.Add(fac.Variable("b"))
	s.SaveState()
	s.Add(fac.Variable("c"))
	if s.LoadState(s1) == nil {
		bad("a state that is not valid any more was loaded")
	}
}
''')

mk('P02-minus', 'P02', [('formula/printer.go', '''	for i := 0; i < numOps-1; i++ {
		if coeffs[i] != 1 {
''', '''	for i := 0; i < numOps-1; i++ {
		if coeffs[i] == -1 && i > 0 {
			fmt.Fprintf(&sb, "%s%s%s", s.Minus, lits[i].Sprint(fac), add)
		} else if coeffs[i] != 1 {
''')],
 'a pseudo-Boolean constraint with the coefficient -1 strictly between two other operands',
 'the printed constraint cannot be parsed',
 hdr('formula', 'parser') + '''
func main() {
	fac := f.NewFactory()
	a, b, c := fac.Lit("a", true), fac.Lit("b", true), fac.Lit("c", false)
	pbc := fac.PBC(f.LE, 3, []f.Literal{a, b, c}, []int{2, -1, 5})
	res, err := parser.New(fac).Parse(pbc.Sprint(fac))
	if err != nil || res != pbc {
		bad("%s: %v", pbc.Sprint(fac), err)
	}
}
''')

