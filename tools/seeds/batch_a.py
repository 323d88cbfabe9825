import sys; sys.path.insert(0,'/verif/tools')
from mkseed import make
HDR='''package main

import (
	"fmt"
	"os"

%s
)

func bad(format string, a ...any) { fmt.Printf(format+"\\n", a...); os.Exit(1) }
'''
def hdr(*imps): 
    names={'formula':'f '}
    return HDR % "\n".join('\t%s"github.com/booleworks/logicng-go/%s"' % (names.get(i,''),i) for i in imps)
make('P01-hash','P01',[('formula/factory.go','''	for i, op := range ops1 {
		if op != ops2[i] {
			return false
		}
	}
	return true
''','''	// the hash values were already equal
	return len(ops1) == 0 || ops1[0] == ops2[0] && ops1[len(ops1)-1].Sort() == ops2[len(ops2)-1].Sort()
''')] if False else [],'','','') if False else None
make('P11-atmost-load','P11',[('sat/core.go','''		for i := 0; i < c.atMostWatchers; i++ {
			removeWatcher(&m.watches[c.get(i)], c)
		}
	} else if''','''		for i := 1; i < c.atMostWatchers; i++ {
			removeWatcher(&m.watches[c.get(i)], c)
		}
	} else if''')],
 'native at-most constraint added after SaveState, then LoadState and a call that sets enough of its variables',
 'after loading a state an at-most constraint added later is still enforced through a left-over watcher',
 hdr('formula','sat')+'''
func main() {
	for n := 3; n <= 6; n++ {
		for k := 1; k < n-1; k++ {
			fac := f.NewFactory()
			s := sat.NewSolver(fac, sat.DefaultConfig().UseAtMost(true))
			vars := make([]f.Variable, n)
			for i := range vars {
				vars[i] = fac.Var(fmt.Sprint("x", i))
			}
			s.Add(fac.Or(f.VariablesAsFormulas(vars)...))
			st := s.SaveState()
			s.Add(fac.CC(f.LE, uint32(k), vars...))
			s.Sat()
			if err := s.LoadState(st); err != nil {
				bad("%v", err)
			}
			for m := 1; m < 1<<n; m++ {
				var lits []f.Literal
				for i, v := range vars {
					if m>>i&1 == 1 {
						lits = append(lits, v.AsLiteral())
					} else {
						lits = append(lits, v.Negate(fac))
					}
				}
				if !s.Call(sat.WithAssumptions(lits)).Sat() {
					bad("n=%d k=%d: assignment %b is denied after loading", n, k, m)
				}
			}
		}
	}
}
''')
make('P11-pgcache','P11',[('sat/solver.go','''	s.pgTransformation.clearCache()
	s.fullPgTransformation.clearCache()
	return nil''','''	s.pgTransformation.clearCache()
	return nil''')],
 'configuration CNFFullPG; a sub-formula encoded after SaveState is used again after LoadState',
 'after loading a state the definition of a shared sub-formula is missing, so the solver accepts assignments that are no models',
 hdr('formula','sat')+'''
func main() {
	fac := f.NewFactory()
	a, b, c, d := fac.Variable("a"), fac.Variable("b"), fac.Variable("c"), fac.Variable("d")
	sub := fac.And(fac.Or(a, b), fac.Or(c, d))
	s := sat.NewSolver(fac, sat.DefaultConfig().CNF(sat.CNFFullPG))
	s.Add(fac.Or(a, b, c, d, fac.Variable("e")))
	st := s.SaveState()
	s.Add(fac.Or(sub, fac.Variable("e")))
	s.Sat()
	if err := s.LoadState(st); err != nil {
		bad("%v", err)
	}
	s.Add(fac.Or(sub, fac.Variable("e")))
	s.Add(fac.Literal("a", false), fac.Literal("b", false), fac.Literal("e", false))
	if s.Sat() {
		bad("satisfiable after loading a state")
	}
}
''')
make('P18-oll-weight','P18',[('maxsat/alg_oll.go','boundMapping[p] = intTriple{softId.id, softId.bound, softId.weight - minCore}','boundMapping[p] = intTriple{softId.id, softId.bound, softId.weight}')],
 'OLL on a weighted instance where a later core contains an earlier soft cardinality together with something lighter',
 'the weight of a split soft cardinality is not reduced, the reported optimum is too high',
 hdr('formula','maxsat')+'''
func main() {
	// all sign/weight patterns of small weighted vertex covers, compared with enumeration
	n := 5
	for code := 0; code < 3*3*3*3*3; code++ {
		for mask := 0; mask < 1<<10; mask += 7 {
			fac := f.NewFactory()
			s := maxsat.OLL(fac)
			w := make([]int, n)
			x := code
			for i := range w {
				w[i] = []int{1, 3, 4}[x%3]
				x /= 3
				_ = s.AddSoftFormula(fac.Literal(fmt.Sprint("v", i), false), w[i])
			}
			var edges [][2]int
			k := 0
			for i := 0; i < n; i++ {
				for j := i + 1; j < n; j++ {
					if mask>>k&1 == 1 {
						edges = append(edges, [2]int{i, j})
						s.AddHardFormula(fac.Or(fac.Variable(fmt.Sprint("v", i)), fac.Variable(fmt.Sprint("v", j))))
					}
					k++
				}
			}
			best := 1 << 30
			for a := 0; a < 1<<n; a++ {
				ok, cost := true, 0
				for _, e := range edges {
					ok = ok && (a>>e[0]&1 == 1 || a>>e[1]&1 == 1)
				}
				for i := range w {
					if a>>i&1 == 1 {
						cost += w[i]
					}
				}
				if ok && cost < best {
					best = cost
				}
			}
			if r := s.Solve(); !r.Satisfiable || r.Optimum != best {
				bad("weights %v edges %v: optimum %d, want %d", w, edges, r.Optimum, best)
			}
		}
	}
}
''')
make('P16-atmost-rot','P16',[('sat/backbone.go','if countPos == cardinality {','if countPos > cardinality {')],
 'a solver with native at-most constraints, initial model in which a variable is forced false only by a tight at-most constraint',
 'the backbone misses literals forced through an at-most constraint',
 hdr('formula','sat')+'''
func main() {
	const n = 5
	for code := 0; code < 100*100; code++ {
		for k := 1; k <= 2; k++ {
			for _, phase := range []bool{false, true} {
				fac := f.NewFactory()
				vars := make([]f.Variable, n)
				for i := range vars {
					vars[i] = fac.Var(fmt.Sprint("x", i))
				}
				lit := func(x int) f.Formula { return fac.Literal(fmt.Sprint("x", x/2), x%2 == 0) }
				fms := []f.Formula{fac.CC(f.LE, uint32(k), vars...)}
				for _, cl := range []int{code % 100, code / 100} {
					fms = append(fms, fac.Or(lit(cl%10), lit(cl/10)))
				}
				mk := func() *sat.Solver {
					s := sat.NewSolver(fac, sat.DefaultConfig().UseAtMost(true).InitPhase(phase))
					s.Add(fms...)
					return s
				}
				bb := mk().ComputeBackbone(fac, vars)
				ref := mk()
				if !ref.Sat() {
					continue
				}
				neg := 0
				for _, v := range vars {
					if !ref.Call(sat.WithAssumptions([]f.Literal{v.AsLiteral()})).Sat() {
						neg++
					}
				}
				if len(bb.Negative) != neg {
					bad("k=%d clauses %d phase %v: %d negative backbone literals, want %d", k, code, phase, len(bb.Negative), neg)
				}
			}
		}
	}
}
''')
