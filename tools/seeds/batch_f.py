import sys, os; sys.path.insert(0, '/verif/tools'); sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from mkseed import make
HDR = '''package main

import (
%s
)

func bad(format string, a ...any) { fmt.Printf(format+"\\n", a...); os.Exit(1) }
'''
def hdr(*imps, std=()):
    names = {'formula': 'f ', 'io': 'lio '}
    return HDR % ("\n".join('\t"%s"' % s for s in sorted({'fmt', 'os', *std})) + "\n\n" + "\n".join('\t%s"github.com/booleworks/logicng-go/%s"' % (names.get(i, ''), i) for i in imps))
only = sys.argv[1:]
def mk(id, *a):
    if not only or id in only:
        make(id, *a)

RNG = '''
type rng uint64

func (r *rng) n(n int) int { *r = *r*6364136223846793005 + 1442695040888963407; return int(*r>>33) % n }
'''

mk('P01-pbccoeff', 'P01', [('formula/factory.go', '''		opsEquals(p1.literals, p2.literals) &&
		opsEquals(p1.coefficients, p2.coefficients)
''', '''		opsEquals(p1.literals, p2.literals) &&
		len(p1.coefficients) == len(p2.coefficients)
''')],
 'two constraints over the same literals whose different coefficients have the same hash value',
 'the factory returns the older constraint instead of the requested one',
 hdr('formula') + '''
func main() {
	fac := f.NewFactory()
	vars := fac.Vars("a", "b", "c")
	lits := f.VariablesAsLiterals(vars)
	for x := -3; x < 40; x++ {
		for y := -40; y < 80; y++ {
			for _, n := range []int{2, 3} {
				coeffs := []int{x, y, 2}[:n]
				form := fac.PBC(f.LE, 5, lits[:n], append([]int{}, coeffs...))
				_, rhs, _, got, ok := fac.PBCOps(form)
				if !ok || rhs != 5 || fmt.Sprint(got) != fmt.Sprint(coeffs) {
					bad("%v was requested, %v was built", coeffs, got)
				}
			}
		}
	}
}
''')

mk('P05-cachemix', 'P05', [('formula/number_of_atoms.go', '''	SetFunctionCache(fac, FuncNumberOfAtoms, formula, result)
''', '''	SetFunctionCache(fac, FuncNumberOfNodes, formula, result)
''')],
 'the number of atoms is asked before the number of nodes on the same formula',
 'the number of nodes is wrong then',
 hdr('formula') + '''
func main() {
	fac := f.NewFactory()
	a, b, c := fac.Variable("a"), fac.Variable("b"), fac.Variable("c")
	for i, form := range []f.Formula{fac.And(a, fac.Not(fac.Or(b, c))), fac.Implication(a, b), fac.Or(fac.And(a, b), c)} {
		atoms, nodes := f.NumberOfAtoms(fac, form), f.NumberOfNodes(fac, form)
		if want := [][2]int{{3, 6}, {2, 3}, {3, 5}}[i]; want != [2]int{atoms, nodes} {
			bad("%s: %d atoms and %d nodes instead of %v", form.Sprint(fac), atoms, nodes, want)
		}
		if f.NumberOfAtoms(fac, form) != atoms {
			bad("%s: another number of atoms", form.Sprint(fac))
		}
	}
}
''')

mk('P08-inclt', 'P08', [('encoding/cc_encoding.go', '''		return amkIncremental(result, cfg, ops, rhs-1)
''', '''		return amkIncremental(result, cfg, ops, rhs)
''')],
 'the incremental encoding of a less-than constraint which is not tightened afterwards',
 'the CNF allows one variable more than the constraint',
 hdr('formula', 'encoding', 'sat') + '''
func main() {
	for rhs := 2; rhs < 6; rhs++ {
		fac := f.NewFactory()
		vars := fac.Vars("a", "b", "c", "d", "e", "g")
		result := encoding.ResultForFormula(fac)
		if _, err := encoding.EncodeIncremental(fac, fac.CC(f.LT, uint32(rhs), vars...), result); err != nil {
			bad("%v", err)
		}
		s := sat.NewSolver(fac)
		s.Add(result.Formulas()...)
		for k := 1; k <= 6; k++ {
			if got := s.Call(sat.Params().Literal(f.VariablesAsLiterals(vars[:k])...)).Sat(); got != (k < rhs) {
				bad("%d true variables below %d: %v", k, rhs, got)
			}
		}
	}
}
''')

mk('P09-normalize', 'P09', [('encoding/normalize.go', '''			c -= v[0]
			csps[count] = ilpair{v[1] - v[0], k.AsLiteral()}
''', '''			c -= min(v[0], 0)
			csps[count] = ilpair{v[1] - v[0], k.AsLiteral()}
''')],
 'a constraint in which a variable occurs with both phases and two positive coefficients, the one of the positive literal larger',
 'the normalised constraint is too weak',
 hdr('formula', 'encoding', 'assignment') + '''
func main() {
	fac := f.NewFactory()
	x, y := fac.Var("x"), fac.Var("y")
	lits := []f.Literal{x.AsLiteral(), x.Negate(fac), y.AsLiteral()}
	for c0 := -2; c0 < 5; c0++ {
		for c1 := -2; c1 < 5; c1++ {
			for rhs := -1; rhs < 8; rhs++ {
				for _, cmp := range []f.CSort{f.LE, f.LT, f.GE, f.GT, f.EQ} {
					norm := encoding.Normalize(fac, fac.PBC(cmp, rhs, lits, []int{c0, c1, 2}))
					for m := 0; m < 4; m++ {
						sum := c1
						if m&1 == 1 {
							sum = c0
						}
						sum += 2 * (m >> 1)
						want := map[f.CSort]bool{f.LE: sum <= rhs, f.LT: sum < rhs, f.GE: sum >= rhs, f.GT: sum > rhs, f.EQ: sum == rhs}[cmp]
						ass, _ := assignment.New(fac)
						lit := func(v f.Variable, on bool) f.Literal {
							if on {
								return v.AsLiteral()
							}
							return v.Negate(fac)
						}
						ass.AddLit(fac, lit(x, m&1 == 1))
						ass.AddLit(fac, lit(y, m>>1 == 1))
						if assignment.Evaluate(fac, norm, ass) != want {
							bad("%d x + %d ~x + 2 y %v %d: %s", c0, c1, cmp, rhs, norm.Sprint(fac))
						}
					}
				}
			}
		}
	}
}
''')

PBDEMO = hdr('formula', 'encoding', 'sat') + RNG + '''
func main() {
	for seed := 1; seed < 400; seed++ {
		r := rng(seed * 7919)
		for conf := 0; conf < 32; conf++ {
			cfg := encoding.DefaultConfig()
			cfg.PBCEncoder = encoding.PBCBinaryMerge
			cfg.BinaryMergeUseGAC = conf&1 == 1
			cfg.BinaryMergeNoSupportForSingleBit = conf&2 == 2
			cfg.BinaryMergeUseWatchDog = conf&4 == 4
			fac := f.NewFactory()
			n := 2 + r.n(4)
			vars := fac.Vars("a", "b", "c", "d", "e")[:n]
			coeffs := make([]int, n)
			sum := 0
			for i := range coeffs {
				coeffs[i] = 1 + r.n(12)
				sum += coeffs[i]
			}
			rhs := 1 + r.n(sum)
			s := sat.NewSolver(fac)
			cnf, err := encoding.EncodePBC(fac, fac.PBC(f.LE, rhs, f.VariablesAsLiterals(vars), append([]int{}, coeffs...)), cfg)
			if err != nil {
				bad("%v", err)
			}
			s.Add(cnf...)
			for m := 0; m < 1<<n; m++ {
				total := 0
				lits := make([]f.Literal, n)
				for i, v := range vars {
					if m>>i&1 == 1 {
						total += coeffs[i]
						lits[i] = v.AsLiteral()
					} else {
						lits[i] = v.Negate(fac)
					}
				}
				if got := s.Call(sat.Params().Literal(lits...)).Sat(); got != (total <= rhs) {
					bad("%v <= %d, settings %d: %v for the sum %d", coeffs, rhs, conf, got, total)
				}
			}
		}
	}
}
'''
mk('P09-watchdog', 'P09', [('encoding/pbc_binary_merge.go', '''					if k == len(bucketMerge[i]) || config.BinaryMergeUseWatchDog && k <= len(bucketMerge[i]) {
''', '''					if k == len(bucketMerge[i]) {
''')],
 'the binary-merge encoder with watch dogs and a bucket with more literals than its bound',
 'the bound is not asserted for the bucket, the CNF is too weak',
 PBDEMO)

mk('P10-basicmin', 'P10', [('sat/core.go', '''				if c.size() == 2 {
					k = 0
				} else {
					k = 1
				}
				for ; k < c.size(); k++ {
''', '''				k = 1
				for ; k < c.size(); k++ {
''')],
 'basic clause minimisation at a literal that was propagated by a binary clause as its second literal',
 'a literal is dropped from the learned clause although it is needed',
 hdr('formula', 'sat') + RNG + '''
func main() {
	for seed := 1; seed < 3000; seed++ {
		r := rng(seed * 7919)
		fac := f.NewFactory()
		n := 13
		vars := make([]f.Variable, n)
		for i := range vars {
			vars[i] = fac.Var(fmt.Sprintf("v%d", i))
		}
		cfg := sat.DefaultConfig()
		cfg.ClauseMinimization = sat.ClauseMinBasic
		s := sat.NewSolver(fac, cfg)
		var clauses [][2]int
		for i := 0; i < 45; i++ {
			k := 2 + i%2
			pos, neg := 0, 0
			lits := make([]f.Formula, 0)
			for j := 0; j < k; {
				v := r.n(n)
				if (pos|neg)>>v&1 == 1 {
					continue
				}
				j++
				if r.n(2) == 0 {
					neg |= 1 << v
					lits = append(lits, vars[v].Negate(fac).AsFormula())
				} else {
					pos |= 1 << v
					lits = append(lits, vars[v].AsFormula())
				}
			}
			clauses = append(clauses, [2]int{pos, neg})
			s.Add(fac.Or(lits...))
		}
		sat4 := make([]bool, 4)
		for m := 0; m < 1<<n; m++ {
			ok := true
			for _, c := range clauses {
				ok = ok && (m&c[0] != 0 || ^m&c[1] != 0)
			}
			if ok {
				sat4[m&3] = true
			}
		}
		for round := 0; round < 2; round++ {
			for q := 0; q < 4; q++ {
				l0, l1 := vars[0].AsLiteral(), vars[1].AsLiteral()
				if q&1 == 0 {
					l0 = vars[0].Negate(fac)
				}
				if q&2 == 0 {
					l1 = vars[1].Negate(fac)
				}
				if got := s.Call(sat.Params().Literal(l0, l1)).Sat(); got != sat4[q] {
					bad("seed %d: %v instead of %v", seed, got, sat4[q])
				}
			}
		}
	}
}
''')

mk('P30-linkstyle', 'P30', [('graphical/mermaid_writer.go', '''	for i, edge := range representation.edges {
''', '''	i := -1
	for _, edge := range representation.edges {
		if edge.style.HasStyle() {
			i++
		}
'''), ],
 'a Mermaid export of a graph in which an edge without style comes before one with a style',
 'the style is written for another edge',
 hdr('formula', 'graphical', std=('strings',)) + '''
func main() {
	fac := f.NewFactory()
	a, b := fac.Variable("a"), fac.Variable("b")
	form := fac.Implication(fac.Or(a, b), fac.And(a, b))
	for skip := 0; skip < 3; skip++ {
		count := 0
		gen := f.DefaultFormulaGraphicalGenerator()
		gen.ComputeEdgeStyle = func(src, dst f.Formula) *graphical.EdgeStyle {
			count++
			if count <= skip {
				return graphical.NoEdgeStyle()
			}
			return graphical.Dotted(graphical.ColorRed)
		}
		rep := f.GenerateGraphicalFormulaAST(fac, form, gen)
		text := graphical.WriteMermaidToString(rep)
		// the edges are styled in the order in which they are made
		for i := 0; i < 6; i++ {
			if strings.Contains(text, fmt.Sprintf("linkStyle %d ", i)) != (i >= skip) {
				bad("style of edge %d\\n%s", i, text)
			}
		}
	}
}
''')

MSDEMO = '''
func main() {
	for seed := 1; seed < 6000; seed++ {
		r := rng(seed * 7919)
		n := 5
		var hard [][2]int
		type soft struct{ pos, neg, w int }
		var softs []soft
		clause := func(k int) (pos, neg int) {
			for j := 0; j < k; {
				v := r.n(n)
				if (pos|neg)>>v&1 == 1 {
					continue
				}
				j++
				if r.n(2) == 0 {
					neg |= 1 << v
				} else {
					pos |= 1 << v
				}
			}
			return
		}
		for i := 0; i < 5; i++ {
			p, q := clause(2)
			hard = append(hard, [2]int{p, q})
		}
		weights := []int{1, 1, 1, 4, 4, 4, 20, 20, 20}
		for _, w := range weights {
			p, q := clause(1 + r.n(2))
			softs = append(softs, soft{p, q, w})
		}
		best := -1
		for m := 0; m < 1<<n; m++ {
			ok := true
			for _, c := range hard {
				ok = ok && (m&c[0] != 0 || ^m&c[1] != 0)
			}
			if !ok {
				continue
			}
			cost := 0
			for _, s := range softs {
				if !(m&s.pos != 0 || ^m&s.neg != 0) {
					cost += s.w
				}
			}
			if best < 0 || cost < best {
				best = cost
			}
		}
		fac := f.NewFactory()
		vars := fac.Vars("a", "b", "c", "d", "e")
		form := func(pos, neg int) f.Formula {
			lits := make([]f.Formula, 0)
			for i, v := range vars {
				if pos>>i&1 == 1 {
					lits = append(lits, v.AsFormula())
				} else if neg>>i&1 == 1 {
					lits = append(lits, v.Negate(fac).AsFormula())
				}
			}
			return fac.Or(lits...)
		}
		cfg := maxsat.DefaultConfig()
		cfg.BMO = true
		s := maxsat.%s(fac, cfg)
		for _, h := range hard {
			s.AddHardFormula(form(h[0], h[1]))
		}
		for _, x := range softs {
			s.AddSoftFormula(form(x.pos, x.neg), x.w)
		}
		res := s.Solve()
		if res.Satisfiable != (best >= 0) || res.Satisfiable && res.Optimum != best {
			bad("seed %%d: %%v %%d instead of %%d", seed, res.Satisfiable, res.Optimum, best)
		}
	}
}
'''
mk('P18-sulocal', 'P18', [('maxsat/alg_linear_su.go', '''			currentWeight = m.orderWeights[posWeight]
			localCost = 0
''', '''			currentWeight = m.orderWeights[posWeight]
''')],
 'a multi-level problem in which a level with costs is followed by another one with costs',
 'the bound of the wrong level is tightened, the result is not optimal',
 hdr('formula', 'maxsat') + RNG + MSDEMO % 'LinearSU')
mk('P18-wmsubmo', 'P18', [('maxsat/alg_wmsu3.go', '''				for i := 0; i < len(encodingAssumptions); i++ {
					solver.AddClause([]int32{encodingAssumptions[i]}, nil)
				}
				encodingAssumptions = []int32{}
''', '''				encodingAssumptions = []int32{}
''')],
 'a multi-level problem with costs on an upper level in the weighted core algorithm',
 'the bound of the upper level is given up when the next level is optimised',
 hdr('formula', 'maxsat') + RNG + (MSDEMO % 'WMSU3').replace('cfg.BMO = true', 'cfg.BMO = true\n\t\tcfg.IncrementalStrategy = maxsat.IncIterative'))

mk('P23-staleseq', 'P23', [('bdd/reordering.go', '''	if t.seq != nil {
		newSeq :=''', '''	if t.seq != nil && t.nextlevel == nil {
		newSeq :=''')],
 'two reorderings of nested blocks, the first of which changes the order inside an outer block',
 'the outer blocks are moved with their former inner order, variables of different blocks are mixed or the reordering does not end',
 hdr('formula', 'bdd', std=('time',)) + '''
func main() {
	time.AfterFunc(60*time.Second, func() { bad("does not end") })
	methods := []bdd.ReorderingMethod{bdd.ReorderWin2, bdd.ReorderWin2Ite, bdd.ReorderSift, bdd.ReorderSiftIte, bdd.ReorderWin3, bdd.ReorderWin3Ite}
	pairs := [][2]int{{0, 8}, {1, 4}, {2, 6}, {3, 7}, {5, 0}, {6, 1}}
	for run := 0; run < 1500; run++ {
		fac := f.NewFactory()
		vars := make([]f.Variable, 9)
		for i := range vars {
			vars[i] = fac.Var(fmt.Sprintf("v%d", i))
		}
		k := bdd.NewKernelWithOrdering(fac, vars, 200, 200)
		for i := int32(0); i < 9; i += 3 {
			k.AddVariableBlock(i, i+2, false)
		}
		for i := int32(0); i < 9; i++ {
			k.AddVariableBlock(i, i, false)
		}
		var form f.Formula
		for step := 0; step < 4; step++ {
			ops := make([]f.Formula, 0)
			for i, p := range pairs {
				a, b := vars[(p[0]+run+step*run)%9].AsFormula(), vars[(p[1]*(1+run%2)+run/9+step)%9].AsFormula()
				if i%2 == 0 {
					ops = append(ops, fac.And(a, b))
				} else {
					ops = append(ops, fac.Equivalence(a, fac.Not(b)))
				}
			}
			form = fac.Or(ops...)
			b := bdd.CompileWithKernel(fac, form, k)
			k.Reorder(methods[(run/5+step)%len(methods)])
			where := map[f.Variable]int{}
			order := b.VariableOrder()
			for i, v := range order {
				where[v] = i
			}
			for i := 0; i < 9; i += 3 {
				lo, hi := 99, -1
				for _, v := range vars[i : i+3] {
					lo, hi = min(lo, where[v]), max(hi, where[v])
				}
				if hi-lo != 2 {
					bad("run %d: block %d is not together in %v", run, i, order)
				}
			}
		}
	}
}
''')

mk('P03-gt', 'P03', [('assignment/evaluate.go', '''		if status < 1 {
			return f.TristateTrue
		} else if status >= 3 {
''', '''		if status <= 1 {
			return f.TristateTrue
		} else if status >= 3 {
''')],
 'a greater-than constraint whose bound equals the least value that is left after the assignment',
 'the restricted constraint is said to be true',
 hdr('formula', 'assignment') + '''
func main() {
	fac := f.NewFactory()
	a, b, c := fac.Var("a"), fac.Var("b"), fac.Var("c")
	lits := f.VariablesAsLiterals([]f.Variable{a, b, c})
	for rhs := -8; rhs < 9; rhs++ {
		form := fac.PBC(f.GT, rhs, lits, []int{2, -3, 4})
		for _, on := range []bool{true, false} {
			ass, _ := assignment.New(fac)
			base := 0
			if on {
				ass.AddLit(fac, a.AsLiteral())
				base = 2
			} else {
				ass.AddLit(fac, a.Negate(fac))
			}
			res := assignment.Restrict(fac, form, ass)
			for m := 0; m < 4; m++ {
				sum := base - 3*(m&1) + 4*(m>>1)
				full, _ := assignment.New(fac)
				for i, v := range []f.Variable{b, c} {
					if m>>i&1 == 1 {
						full.AddLit(fac, v.AsLiteral())
					} else {
						full.AddLit(fac, v.Negate(fac))
					}
				}
				if assignment.Evaluate(fac, res, full) != (sum > rhs) {
					bad("rhs %d: %s", rhs, res.Sprint(fac))
				}
			}
		}
	}
}
''')
