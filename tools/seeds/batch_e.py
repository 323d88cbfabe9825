import sys, os; sys.path.insert(0, '/verif/tools'); sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from mkseed import make
HDR = '''package main

import (
%s
)

func bad(format string, a ...any) { fmt.Printf(format+"\\n", a...); os.Exit(1) }
'''
def hdr(*imps, std=()):
    names = {'formula': 'f ', 'io': 'lio '}
    return HDR % ("\n".join('\t"%s"' % s for s in sorted({'fmt', 'os', *std})) + "\n\n" + "\n".join('\t%s"github.com/booleworks/logicng-go/%s"' % (names.get(i, ''), i) for i in imps))
only = sys.argv[1:]
def mk(id, *a):
    if not only or id in only:
        make(id, *a)

mk('P03-equiv', 'P03', [('assignment/evaluate_to_constant.go', '''		return c.test(c.fac.Not(right), topLevel)
''', '''		return c.fac.Not(c.test(right, topLevel))
''')],
 'a partial assignment that fixes the left side of an equivalence to false and leaves a conjunction on the right side open',
 'EvaluatesToTrue reports true although the formula is false under some completion of the assignment',
 hdr('formula', 'assignment') + '''
func main() {
	fac := f.NewFactory()
	a, b, c := fac.Var("a"), fac.Var("b"), fac.Var("c")
	form := fac.Equivalence(a.AsFormula(), fac.And(b.AsFormula(), c.AsFormula()))
	for _, m := range []map[f.Variable]bool{{a: false}, {a: true}} {
		if assignment.EvaluatesToTrue(fac, form, m) || assignment.EvaluatesToFalse(fac, form, m) {
			bad("%v: an open formula is said to be fixed", m)
		}
	}
	if !assignment.EvaluatesToTrue(fac, form, map[f.Variable]bool{a: false, b: false}) {
		bad("not recognised")
	}
}
''')

mk('P22-rehash', 'P22', [('bdd/kernel.go', '''			k.nodeResize(true)
			hash = nodehash(level, low, high, k.nodesize)
''', '''			k.nodeResize(true)
''')],
 'a node that is created when the node table of the kernel has just been enlarged',
 'the node is filed under the wrong hash value and not found again, equal functions get different BDDs',
 hdr('formula', 'bdd') + '''
func main() {
	for run := 0; run < 4000; run++ {
		size := int32(3 + run%20)
		fac := f.NewFactory()
		vars := make([]f.Variable, 4)
		for i := range vars {
			vars[i] = fac.Var(fmt.Sprintf("v%d", i))
		}
		k := bdd.NewKernelWithOrdering(fac, vars, size, int32(run%2))
		for round := 0; round < 3; round++ {
			for tt := 1 + run*16 + round*5; tt == 1+run*16+round*5; tt++ {
				dnf, cnf := make([]f.Formula, 0), make([]f.Formula, 0)
				for m := 0; m < 16; m++ {
					lits := make([]f.Formula, 0)
					for i, v := range vars {
						if (m>>i&1 == 1) == (tt>>m&1 == 1) {
							lits = append(lits, v.AsFormula())
						} else {
							lits = append(lits, v.Negate(fac).AsFormula())
						}
					}
					if tt>>m&1 == 1 {
						dnf = append(dnf, fac.And(lits...))
					} else {
						cnf = append(cnf, fac.Or(lits...))
					}
				}
				b, b2 := bdd.CompileWithKernel(fac, fac.Or(dnf...), k), bdd.CompileWithKernel(fac, fac.And(cnf...), k)
				if b.Index != b2.Index {
					bad("size %d: function %d has the nodes %d and %d", size, tt, b.Index, b2.Index)
				}
			}
		}
	}
}
''')

mk('P29-ccorder', 'P29', [('randomizer/formula_randomizer.go', '''	vars := make([]f.Variable, 0, bound)
	for range bound {
		v := r.Variable()
		if _, ok := variables[v]; !ok {
			variables[v] = present{}
			vars = append(vars, v)
		}
	}
	return vars''', '''	for range bound {
		variables[r.Variable()] = present{}
	}
	vars := make([]f.Variable, 0, len(variables))
	for v := range variables {
		vars = append(vars, v)
	}
	return vars''')],
 'cardinality constraints from two randomizers with the same seed',
 'the generated constraint depends on the iteration order of a map and not only on the seed',
 hdr('formula', 'randomizer') + '''
func main() {
	want := ""
	for run := 0; run < 4; run++ {
		fac := f.NewFactory()
		r := randomizer.NewWithSeed(fac, 42)
		got := ""
		for i := 0; i < 200; i++ {
			got += r.CC().Sprint(fac) + "\\n" + r.AMO().Sprint(fac) + "\\n" + r.EXO().Sprint(fac) + "\\n"
		}
		if run == 0 {
			want = got
		} else if got != want {
			bad("the same seed gives other constraints")
		}
	}
}
''')

mk('P06-nestedor', 'P06', [('formula/factory.go', '''			for _, op := range fac.ors[form].operands {
				ret := fac.addFormulaOr(&opCache, &ops, op)
				if ret == 0x00 {
					return nil, cnfCheck, true
				}
				if ret == 0x02 {
					cnfCheck = false
				}
			}
''', '''			for _, op := range fac.ors[form].operands {
				if fac.addFormulaOr(&opCache, &ops, op) == 0x00 {
					return nil, cnfCheck, true
				}
			}
''')],
 'a disjunction built from a disjunction that is not a clause and literals',
 'the disjunction is taken to be in CNF already and the CNF transformation returns it unchanged',
 hdr('formula', 'normalform') + '''
func main() {
	fac := f.NewFactory()
	a, b, c, d := fac.Variable("a"), fac.Variable("b"), fac.Variable("c"), fac.Variable("d")
	form := fac.Or(fac.Or(a, fac.And(b, c)), d)
	cnf := normalform.CNF(fac, form)
	if normalform.IsCNF(fac, form) || cnf == form || cnf.Sort() != f.SortAnd {
		bad("%s", cnf.Sprint(fac))
	}
}
''')

mk('P11-atmostred', 'P11', [('sat/core.go', '''			for i := 0; i < c.size(); i++ {
				if m.value(c.get(i)) != f.TristateTrue {
					continue
				}
				q := Not(c.get(i))
				if !m.seen[Vari(q)] && m.v(q).level > 0 {
					if m.v(q).reason''', '''			for i := 1; i < c.size(); i++ {
				if m.value(c.get(i)) != f.TristateTrue {
					continue
				}
				q := Not(c.get(i))
				if !m.seen[Vari(q)] && m.v(q).level > 0 {
					if m.v(q).reason''')],
 'a conflict whose minimisation looks at a native at-most constraint with its first literal true',
 'a literal is dropped from the learned clause although it is needed, later calls report satisfiable problems as unsatisfiable',
 hdr('formula', 'sat') + '''
type rng uint64

func (r *rng) n(n int) int { *r = *r*6364136223846793005 + 1442695040888963407; return int(*r>>33) % n }

func main() {
	for seed := 1; seed < 6000; seed++ {
		r := rng(seed * 7919)
		fac := f.NewFactory()
		n := 9
		vars := make([]f.Variable, n)
		for i := range vars {
			vars[i] = fac.Var(fmt.Sprintf("v%d", i))
		}
		cfg := sat.DefaultConfig()
		cfg.UseAtMostClauses = true
		s := sat.NewSolver(fac, cfg)
		type con struct {
			vars []int
			max  int
		}
		var cons []con
		var clauses [][]int
		for i := 0; i < 5; i++ {
			c := con{max: 1 + r.n(2)}
			perm := make([]int, n)
			for j := range perm {
				perm[j] = j
			}
			for j := range perm {
				k := j + r.n(n-j)
				perm[j], perm[k] = perm[k], perm[j]
			}
			c.vars = perm[:3+r.n(3)]
			cons = append(cons, c)
			vs := make([]f.Variable, len(c.vars))
			for j, v := range c.vars {
				vs[j] = vars[v]
			}
			s.Add(fac.CC(f.LE, uint32(c.max), vs...))
		}
		for i := 0; i < 14; i++ {
			cl := make([]int, 0)
			lits := make([]f.Formula, 0)
			for j := 0; j < 3; j++ {
				v, neg := r.n(n), r.n(3) == 0
				if neg {
					cl = append(cl, -v-1)
					lits = append(lits, vars[v].Negate(fac).AsFormula())
				} else {
					cl = append(cl, v+1)
					lits = append(lits, vars[v].AsFormula())
				}
			}
			clauses = append(clauses, cl)
			s.Add(fac.Or(lits...))
		}
		sat4 := make([]bool, 4)
		for m := 0; m < 1<<n; m++ {
			ok := true
			for _, c := range cons {
				k := 0
				for _, v := range c.vars {
					k += m >> v & 1
				}
				ok = ok && k <= c.max
			}
			for _, cl := range clauses {
				t := false
				for _, l := range cl {
					t = t || l > 0 && m>>(l-1)&1 == 1 || l < 0 && m>>(-l-1)&1 == 0
				}
				ok = ok && t
			}
			if ok {
				sat4[m&3] = true
			}
		}
		for round := 0; round < 2; round++ {
			for q := 0; q < 4; q++ {
				l0, l1 := vars[0].AsLiteral(), vars[1].AsLiteral()
				if q&1 == 0 {
					l0 = vars[0].Negate(fac)
				}
				if q&2 == 0 {
					l1 = vars[1].Negate(fac)
				}
				if got := s.Call(sat.Params().Literal(l0, l1)).Sat(); got != sat4[q] {
					bad("seed %d: %v instead of %v", seed, got, sat4[q])
				}
			}
		}
	}
}
''')

mk('P20-limitreuse', 'P20', [('model/iter/handler.go', '''		h.countCommitted = 0
		h.countUncommitted = 0
''', '''		h.countUncommitted = 0
''')],
 'one limit handler used for two enumerations',
 'models of the first enumeration count for the second one, which is canceled too early',
 hdr('formula', 'model/iter', 'model/enum', std=()) + '''
func main() {
	fac := f.NewFactory()
	a, b := fac.Variable("a"), fac.Variable("b")
	hdl := iter.HandlerWithLimit(5)
	cfg := iter.DefaultConfig()
	cfg.Handler = hdl
	for i := 0; i < 3; i++ {
		models, state := enum.OnFormulaWithConfig(fac, fac.Or(a, b), f.Variables(fac, fac.Or(a, b)).Content(), cfg)
		if !state.Success || len(models) != 3 {
			bad("enumeration %d: %d models, %v", i, len(models), state.Success)
		}
	}
}
''')

mk('P26-comment', 'P26', [('io/formula_reader.go', '''		line := scanner.Text()
''', '''		line := scanner.Text()
		if strings.HasPrefix(line, "c ") {
			continue // comment line, like in Dimacs files
		}
'''), ('io/formula_reader.go', '''	"os"
''', '''	"os"
	"strings"
''')],
 'a written formula that starts with a variable named c',
 'the line is taken for a comment and the formula is missing',
 hdr('formula', 'io') + '''
func main() {
	dir, err := os.MkdirTemp("", "seed")
	if err != nil {
		bad("%v", err)
	}
	defer os.RemoveAll(dir)
	fac := f.NewFactory()
	c, d := fac.Variable("c"), fac.Variable("d")
	form := fac.Or(c, d)
	if err := lio.WriteFormula(fac, dir+"/x.txt", form); err != nil {
		bad("%v", err)
	}
	got, err := lio.ReadFormula(fac, dir+"/x.txt")
	if err != nil || got != form {
		bad("%v %v", got, err)
	}
}
''')

mk('P25-backbone', 'P25', [('simplification/advanced.go', '''		simplified = assignment.Restrict(fac, formula, ass)
	}
''', '''		simplified = assignment.Restrict(fac, formula, ass)
		if simplified.IsConstant() {
			return simplified, handler.Success()
		}
	}
''')],
 'a formula that is a conjunction of its backbone literals only',
 'the formula is simplified to true',
 hdr('formula', 'simplification') + '''
func main() {
	fac := f.NewFactory()
	a, b, c := fac.Variable("a"), fac.Variable("b"), fac.Variable("c")
	form := fac.And(a, fac.Implication(a, b), fac.Or(b, c.Negate(fac)), fac.Equivalence(c, b))
	got := simplification.Advanced(fac, form)
	if got.Sort() != f.SortAnd {
		bad("%s", got.Sprint(fac))
	}
}
''')

