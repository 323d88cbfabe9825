import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from mkseed import make
HDR = '''package main

import (
%s
)

func bad(format string, a ...any) { fmt.Printf(format+"\\n", a...); os.Exit(1) }
'''
def hdr(*imps, std=()):
    names = {'formula': 'f ', 'io': 'lio '}
    return HDR % ("\n".join('\t"%s"' % s for s in sorted({'fmt', 'os', *std})) + "\n\n" + "\n".join('\t%s"github.com/booleworks/logicng-go/%s"' % (names.get(i, ''), i) for i in imps))
only = sys.argv[1:]
def mk(id, *a):
    if not only or id in only:
        make(id, *a)

mk('P20-alias', 'P20', [('model/enum/enumeration.go', '''	extended := make([]f.Literal, len(literals)+1)
	copy(extended, literals)
	extended[len(literals)] = lit
	return extended
''', '''	return append(literals, lit)
''')],
 'an enumeration over at least four variables that do not occur on the solver',
 'two of the expanded assignments share their memory, so some models are delivered twice and others never',
 hdr('formula', 'model/enum', 'sat') + '''
func main() {
	for n := 0; n <= 8; n++ {
		fac := f.NewFactory()
		s := sat.NewSolver(fac)
		a := fac.Var("a")
		s.Add(a.AsFormula())
		vars := []f.Variable{a}
		for i := 0; i < n; i++ {
			vars = append(vars, fac.Var(fmt.Sprint("x", i)))
		}
		seen := map[string]bool{}
		ms := enum.OnSolver(s, vars)
		for _, m := range ms {
			pos := map[f.Variable]bool{}
			for _, l := range m.Literals {
				if l.IsPos() {
					pos[l.Variable()] = true
				}
			}
			k := ""
			for _, v := range vars {
				if pos[v] {
					k += "1"
				} else {
					k += "0"
				}
			}
			seen[k] = true
		}
		if len(ms) != 1<<n || len(seen) != 1<<n {
			bad("%d unknown variables: %d models, %d different", n, len(ms), len(seen))
		}
	}
}
''')

BDDH = hdr('bdd', 'formula') + '''
func count(fac f.Factory, fm f.Formula, n int) int { return 0 }
'''
BDDDEMO = hdr('assignment', 'bdd', 'formula', std=('math/big',)) + '''
// rnd is a fixed linear congruential sequence
type rnd uint64

func (r *rnd) n(k int) int { *r = *r*6364136223846793005 + 1442695040888963407; return int(uint64(*r)>>33) % k }

func gen(fac f.Factory, r *rnd, vars []f.Variable, d int) f.Formula {
	if d == 0 {
		return fac.Literal("x"+fmt.Sprint(r.n(len(vars))), r.n(2) == 0)
	}
	a, b := gen(fac, r, vars, d-1), gen(fac, r, vars, d-1)
	switch r.n(5) {
	case 0:
		return fac.And(a, b)
	case 1:
		return fac.Or(a, b)
	case 2:
		return fac.Implication(a, b)
	case 3:
		return fac.Equivalence(a, b)
	}
	return fac.Not(a)
}

func table(fac f.Factory, fm f.Formula, vars []f.Variable) []bool {
	t := make([]bool, 1<<len(vars))
	for m := range t {
		as, _ := assignment.New(fac)
		for i, v := range vars {
			if m>>i&1 == 1 {
				as.AddLit(fac, v.AsLiteral())
			} else {
				as.AddLit(fac, v.Negate(fac))
			}
		}
		t[m] = assignment.Evaluate(fac, fm, as)
	}
	return t
}

func ones(t []bool) *big.Int {
	c := int64(0)
	for _, b := range t {
		if b {
			c++
		}
	}
	return big.NewInt(c)
}

func main() {
	for seed := 1; seed <= SEEDS; seed++ {
		r := rnd(seed)
		fac := f.NewFactory()
		n := NV
		var vars []f.Variable
		for i := 0; i < n; i++ {
			vars = append(vars, fac.Var(fmt.Sprint("x", i)))
		}
		k := bdd.NewKernelWithOrdering(fac, vars, NODES, CACHE)
		for i := 0; i < 12; i++ {
			fm := gen(fac, &r, vars, DEPTH)
			t := table(fac, fm, vars)
			b := bdd.CompileWithKernel(fac, fm, k)
			if b.ModelCount().Cmp(ones(t)) != 0 {
				bad("seed %d step %d: count %s", seed, i, b.ModelCount())
			}
			ng := b.Negate()
			if ng.ModelCount().Cmp(new(big.Int).Sub(big.NewInt(1<<n), ones(t))) != 0 {
				bad("seed %d step %d: negated count %s", seed, i, ng.ModelCount())
			}
			back := table(fac, b.ToFormula(fac), vars)
			for m := range t {
				if back[m] != t[m] {
					bad("seed %d step %d: function changed", seed, i)
				}
			}
			QUANT
		}
	}
}
'''
QUANT = '''for j, v := range vars {
				all, ex := table(fac, b.ForAll(v).ToFormula(fac), vars), table(fac, b.Exists(v).ToFormula(fac), vars)
				for m := range t {
					x, y := t[m|1<<j], t[m&^(1<<j)]
					if all[m] != (x && y) || ex[m] != (x || y) {
						bad("seed %d step %d: quantification over %d is wrong", seed, i, j)
					}
				}
			}'''
def bd(nv, nodes, cache, depth, seeds, quant=''):
    return BDDDEMO.replace('NV', str(nv)).replace('NODES', str(nodes)).replace('CACHE', str(cache)).replace('DEPTH', str(depth)).replace('SEEDS', str(seeds)).replace('QUANT', quant)
mk('P22-gbcstack', 'P22', [('bdd/kernel.go', 'for r := 0; r < int(k.refstacktop); r++ {', 'for r := 1; r < int(k.refstacktop); r++ {')],
 'a garbage collection in the middle of an operation, when the bottom entry of the reference stack is referenced from nowhere else',
 'a node an operation still needs is collected, and the result denotes another function',
 bd(6, 8, 50, 5, 60))
mk('P22-notcache', 'P22', [('bdd/construction.go', 'if entry.a == r && entry.c == bddNot.v {', 'if entry.a == r {')],
 'the cache slot of a negation holds the entry of another operation with the same first operand',
 'the negation of a BDD returns the result of another operation',
 bd(6, 1000, 5, 5, 60))
mk('P22-forall', 'P22', [('bdd/construction.go', 'return k.quantRec(r, bddAnd, (variable<<3)|cacheidForall)', 'return k.quantRec(r, bddAnd, variable<<3)')],
 'existential and universal quantification of the same BDD over the same variables without a collection in between',
 'the second quantification returns the cached result of the first',
 bd(5, 1000, 1000, 4, 40, QUANT))

mk('P12-optstate', 'P12', [('sat/optimizer_function.go', '''	_ = s.LoadState(initialState)
	return mdl, state
''', '''	if state.Success {
		_ = s.LoadState(initialState)
	}
	return mdl, state
''')],
 'an optimisation cancelled after it has found a first bound, followed by further use of the same solver',
 'the constraints of the cancelled optimisation stay on the solver and later verdicts are wrong',
 hdr('event', 'formula', 'handler', 'sat') + '''
type at struct{ n int }

func (h *at) ShouldResume(event.Event) bool { h.n--; return h.n >= 0 }

func main() {
	_ = handler.NopHandler
	for n := 2; n <= 4; n++ {
		for cut := 0; cut < 400; cut++ {
			fac := f.NewFactory()
			vars := make([]f.Variable, n)
			for i := range vars {
				vars[i] = fac.Var(fmt.Sprint("x", i))
			}
			s := sat.NewSolver(fac)
			s.Add(fac.Or(f.VariablesAsFormulas(vars)...))
			_, st := s.MaximizeWithHandler(f.VariablesAsLiterals(vars), &at{cut})
			for m := 0; m < 1<<n; m++ {
				var lits []f.Literal
				for i, v := range vars {
					if m>>i&1 == 1 {
						lits = append(lits, v.AsLiteral())
					} else {
						lits = append(lits, v.Negate(fac))
					}
				}
				if s.Call(sat.WithAssumptions(lits)).Sat() != (m != 0) {
					bad("n=%d cancelled at %d: assignment %b", n, cut, m)
				}
			}
			if st.Success {
				break
			}
		}
	}
}
''')

mk('P19-softweights', 'P19', [('maxsat/algorithm.go', '''		clause.weight = state.softWeights[i]
		clause.assumptionVar''', '''		clause.weight = min(clause.weight, state.softWeights[i])
		clause.assumptionVar''')],
 'a weighted algorithm that splits soft clauses in place, solving between saving and loading',
 'weights a computation has changed survive the loading of a state',
 hdr('formula', 'maxsat') + '''
func main() {
	mk := []func(fac f.Factory) *maxsat.Solver{
		func(fac f.Factory) *maxsat.Solver { return maxsat.OLL(fac) },
		func(fac f.Factory) *maxsat.Solver { return maxsat.WBO(fac) },
		func(fac f.Factory) *maxsat.Solver { return maxsat.IncWBO(fac) },
		func(fac f.Factory) *maxsat.Solver { return maxsat.LinearSU(fac) },
	}
	for i, m := range mk {
		for w := 0; w < 64; w++ {
			fac := f.NewFactory()
			s := m(fac)
			a, b, c := fac.Variable("a"), fac.Variable("b"), fac.Variable("c")
			wa, wb, wc := 1+w%4, 1+w/4%4, 1+w/16
			s.AddHardFormula(fac.Or(fac.Not(a), fac.Not(b)))
			s.AddHardFormula(fac.Or(fac.Not(b), fac.Not(c)))
			_ = s.AddSoftFormula(a, wa)
			_ = s.AddSoftFormula(b, wb)
			_ = s.AddSoftFormula(c, wc)
			want := min(wb, wa+wc)
			st := s.SaveState()
			for k := 0; k < 3; k++ {
				r := s.Solve()
				if !r.Satisfiable || r.Optimum != want {
					bad("algorithm %d weights %d %d %d round %d: optimum %d, expected %d", i, wa, wb, wc, k, r.Optimum, want)
				}
				if err := s.LoadState(st); err != nil {
					bad("%v", err)
				}
			}
		}
	}
}
''')

mk('P21-lastword', 'P21', [('dnnf/compiler.go', """	for i := 0; i < len(bitset1.words); i++ {
		word1 := bitset1.words[i]""", """	for i := 0; i == 0 || i < len(bitset1.words)-2; i++ {
		word1 := bitset1.words[i]""")],
 'a CNF with more than 64 variables whose decomposition shares sub-trees',
 'the compiler takes the cached DNNF of another sub-tree, and the count is wrong',
 hdr('formula', 'model/count', std=('math/big',)) + '''
func main() {
	for _, n := range []int{5, 20, 50, 70, 90, 120} {
		for pat := 0; pat < 64; pat++ {
			fac := f.NewFactory()
			vars := make([]f.Variable, n)
			for i := range vars {
				vars[i] = fac.Var(fmt.Sprintf("x%03d", i))
			}
			// two clauses of three literals over each window of three neighbours, as the pattern says
			var ops []f.Formula
			sign := func(c, i int) bool { return pat>>(3*c+i)&1 == 1 }
			for i := 0; i+2 < n; i++ {
				for c := 0; c < 2; c++ {
					var ls []f.Formula
					for j := 0; j < 3; j++ {
						if sign(c, j) {
							ls = append(ls, vars[i+j].AsFormula())
						} else {
							ls = append(ls, vars[i+j].Negate(fac).AsFormula())
						}
					}
					ops = append(ops, fac.Or(ls...))
				}
			}
			// number of models by dynamic programming over the last two values
			cnt := make([]*big.Int, 4)
			for s := range cnt {
				cnt[s] = big.NewInt(1)
			}
			for i := 2; i < n; i++ {
				nxt := []*big.Int{new(big.Int), new(big.Int), new(big.Int), new(big.Int)}
				for s := 0; s < 4; s++ {
					for v := 0; v < 2; v++ {
						val := []bool{s&2 != 0, s&1 != 0, v == 1}
						ok := true
						for c := 0; c < 2; c++ {
							sat := false
							for j := 0; j < 3; j++ {
								sat = sat || val[j] == sign(c, j)
							}
							ok = ok && sat
						}
						if ok {
							t := (s&1)<<1 | v
							nxt[t].Add(nxt[t], cnt[s])
						}
					}
				}
				cnt = nxt
			}
			want := new(big.Int)
			for _, c := range cnt {
				want.Add(want, c)
			}
			got, err := count.Count(fac, vars, ops...)
			if err != nil || got.Cmp(want) != 0 {
				bad("n=%d pattern %d: %v %v, expected %v", n, pat, got, err, want)
			}
		}
	}
}
''')

mk('P23-interaction', 'P23', [('bdd/reordering.go', 'for m := n; m < r.k.varnum; m++ {', 'for m := n; m < min(r.k.varnum, n+10); m++ {')],
 'a BDD over more than ten variables in which two variables whose numbers are at least ten apart interact, and a reordering that swaps them',
 'the swap of two such variables skips the nodes that depend on both, and the represented functions change',
 hdr('assignment', 'bdd', 'formula') + '''
type rnd uint64

func (r *rnd) n(k int) int { *r = *r*6364136223846793005 + 1442695040888963407; return int(uint64(*r)>>33) % k }

func main() {
	for seed := 1; seed <= 40; seed++ {
		for _, n := range []int{6, 11, 14} {
			r := rnd(seed)
			fac := f.NewFactory()
			vars := make([]f.Variable, n)
			for i := range vars {
				vars[i] = fac.Var(fmt.Sprintf("x%02d", i))
			}
			k := bdd.NewKernelWithOrdering(fac, vars, 10000, 10000)
			fm := fac.And(vars[n-1].AsFormula(), vars[n-2].AsFormula())
			var fs []f.Formula
			var bs []*bdd.BDD
			for i := n - 3; i >= 0; i-- {
				l := fac.Literal(fmt.Sprintf("x%02d", i), r.n(2) == 0)
				switch r.n(3) {
				case 0:
					fm = fac.And(l, fm)
				case 1:
					fm = fac.Or(l, fm)
				case 2:
					fm = fac.Equivalence(l, fm)
				}
				fs = append(fs, fm)
				bs = append(bs, bdd.CompileWithKernel(fac, fm, k))
			}
			for step := 0; step < 6; step++ {
				if step%2 == 0 {
					_ = k.SwapVariables(vars[r.n(n)], vars[r.n(n)])
				} else {
					k.Reorder([]bdd.ReorderingMethod{bdd.ReorderWin2, bdd.ReorderSift, bdd.ReorderRandom}[r.n(3)])
				}
				for i, b := range bs {
					if c := bdd.CompileWithKernel(fac, fs[i], k); c.Index != b.Index {
						bad("seed %d n %d step %d: BDD %d is not canonical any more", seed, n, step, i)
					}
					back := b.ToFormula(fac)
					for x := 0; x < 40; x++ {
						as, _ := assignment.New(fac)
						for _, v := range vars {
							if r.n(2) == 0 {
								as.AddLit(fac, v.AsLiteral())
							} else {
								as.AddLit(fac, v.Negate(fac))
							}
						}
						if assignment.Evaluate(fac, back, as) != assignment.Evaluate(fac, fs[i], as) {
							bad("seed %d n %d step %d: function %d changed", seed, n, step, i)
						}
					}
				}
			}
		}
	}
}
''')

mk('P13-factcache', 'P13', [('normalform/cnf.go', '''	if state.Success {
		f.SetTransformationCache(fac, f.TransCNFFactorization, formula, cached)
		return cached, succ
	}
	return 0, state
''', '''	f.SetTransformationCache(fac, f.TransCNFFactorization, formula, cached)
	if state.Success {
		return cached, succ
	}
	return 0, state
''')],
 'a factorization cancelled in the middle of a distribution, and a later factorization of the same formula',
 'the unfinished result is cached, and the later factorization returns it',
 hdr('assignment', 'event', 'formula', 'normalform') + '''
type at struct{ n int }

func (h *at) ShouldResume(event.Event) bool { h.n--; return h.n >= 0 }

func main() {
	for cut := 0; cut < 60; cut++ {
		fac := f.NewFactory()
		a, b, c, d := fac.Var("a"), fac.Var("b"), fac.Var("c"), fac.Var("d")
		fm := fac.Or(fac.And(a.AsFormula(), b.AsFormula()), fac.And(c.AsFormula(), d.AsFormula()), fac.And(a.Negate(fac).AsFormula(), c.AsFormula()))
		normalform.FactorizedCNFWithHandler(fac, fm, &at{cut})
		cnf := normalform.FactorizedCNF(fac, fm)
		if cnf == 0 {
			bad("cut %d: no formula", cut)
		}
		for m := 0; m < 16; m++ {
			as, _ := assignment.New(fac)
			for i, v := range []f.Variable{a, b, c, d} {
				if m>>i&1 == 1 {
					as.AddLit(fac, v.AsLiteral())
				} else {
					as.AddLit(fac, v.Negate(fac))
				}
			}
			if assignment.Evaluate(fac, fm, as) != assignment.Evaluate(fac, cnf, as) {
				bad("cut %d: %s", cut, cnf.Sprint(fac))
			}
		}
	}
}
''')

CCDEMO = hdr('formula', 'sat', 'encoding') + '''
func main() {
	for n := 2; n <= NMAX; n++ {
		for k := KMIN; k <= min(n, KMAX); k++ {
			fac := f.NewFactory()
			vars := make([]f.Variable, n)
			for i := range vars {
				vars[i] = fac.Var(fmt.Sprintf("x%02d", i))
			}
			cfg := encoding.DefaultConfig()
			CFG
			_ = fac.PutConfiguration(cfg)
			s := sat.NewSolver(fac)
			s.Add(fac.CC(OP, uint32(k), vars...))
			// every cyclic window and every pair of windows of each size
			for size := 0; size <= n; size++ {
				for start := 0; start < n; start++ {
					for gap := 1; gap <= 2; gap++ {
						on := make([]bool, n)
						c := 0
						for i := 0; i < size && c < size; i++ {
							j := (start + i*gap) % n
							if !on[j] {
								on[j] = true
								c++
							}
						}
						lits := make([]f.Literal, n)
						for i, v := range vars {
							lits[i] = v.Negate(fac)
							if on[i] {
								lits[i] = v.AsLiteral()
							}
						}
						want := OP.Evaluate(c, k)
						if s.Call(sat.WithAssumptions(lits)).Sat() != want {
							bad("n=%d k=%d on=%v: expected %v", n, k, on, want)
						}
					}
				}
			}
		}
	}
}
'''
def cc(op, cfg, nmax, kmin, kmax):
    return CCDEMO.replace('OP', op).replace('CFG', cfg).replace('NMAX', str(nmax)).replace('KMIN', str(kmin)).replace('KMAX', str(kmax))
mk('P08-bimander', 'P08', [('encoding/amo.go', '''		g = g + int(math.Ceil(float64(n-i)/float64(groupSize-ig)))
''', '''		g = g + (n-i)/(groupSize-ig)
''')] if False else [('encoding/amo.go', '''	k := (twoPowNBits - len(vars)) * 2
	bits := make''', '''	k := (twoPowNBits - len(vars)) * 2 &^ 16
	bits := make''')],
 'the binary encoder of an at-most-one constraint over a number of variables whose distance to the next power of two has a certain bit (from 17 variables on)',
 'two variables get the same code word, so both may be true',
 cc('f.LE', 'cfg.AMOEncoder = encoding.AMOBinary', 40, 1, 1))
mk('P08-modtot', 'P08', [('encoding/cc_modular_totalizer.go', '''			if mod*(i+j) > closeMod*mod {
				continue
			}
''', '''			if i+j >= 4 && i+j >= closeMod {
				continue
			}
''')],
 'the modular totalizer with a bound large enough for four groups of the modulus',
 'clauses of the upper half are missing, so assignments above the bound are accepted',
 cc('f.LE', 'cfg.AMKEncoder = encoding.AMKModularTotalizer', 30, 2, 28))

mk('P28-scratch', 'P28', [('encoding/amo.go', '''	bits := &bimanderbits{}
	bits.numberOfBits''', '''	bits := &scratchBits
	bits.bits = bits.bits[:0]
	bits.numberOfBits'''), ('encoding/amo.go', '''type bimanderbits struct {''', '''// scratchBits is reused to avoid an allocation per constraint
var scratchBits bimanderbits

type bimanderbits struct {''')],
 'two goroutines that encode at-most-one constraints with the bimander encoder on factories of their own at the same time',
 'the auxiliary variables of one constraint end up in the other one, across factories',
 hdr('encoding', 'formula', 'sat', std=('sync',)) + '''
func one(n int) string {
	fac := f.NewFactory()
	vars := make([]f.Variable, n)
	for i := range vars {
		vars[i] = fac.Var(fmt.Sprintf("x%02d", i))
	}
	cfg := encoding.DefaultConfig()
	cfg.AMOEncoder = encoding.AMOBimander
	_ = fac.PutConfiguration(cfg)
	for rep := 0; rep < 30; rep++ {
		s := sat.NewSolver(fac)
		s.Add(fac.AMO(vars[:n-rep%3]...))
		for i := 0; i < n-rep%3; i++ {
			if !s.Call(sat.WithAssumptions([]f.Literal{vars[i].AsLiteral()})).Sat() {
				return fmt.Sprintf("n=%d: x%d is impossible", n, i)
			}
			j := (i + 1) % (n - rep%3)
			if s.Call(sat.WithAssumptions([]f.Literal{vars[i].AsLiteral(), vars[j].AsLiteral()})).Sat() {
				return fmt.Sprintf("n=%d: x%d and x%d", n, i, j)
			}
		}
	}
	return ""
}

func main() {
	for round := 0; round < 60; round++ {
		var wg sync.WaitGroup
		res := make([]string, 16)
		for g := range res {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						res[g] = fmt.Sprint("panic ", e)
					}
				}()
				res[g] = one(14 + g)
			}()
		}
		wg.Wait()
		for _, r := range res {
			if r != "" {
				bad("%s", r)
			}
		}
	}
}
''')

mk('P25-subset', 'P25', [('simplification/subsumption.go', '''			if index > 0 {
				remainingSet.Add(node)
			}''', '''			if index != 1 {
				remainingSet.Add(node)
			}''')] if False else [('simplification/subsumption.go', '''	if node != nil {
		node.endSet = set
	}''', '''	if node != nil && node.children.Size() < 3 {
		node.endSet = set
	}''')] if False else [('simplification/subsumption.go', '''		foundSubset = u.firstSubsetRec(remainingSet, node.children)
''', '''		if remainingSet.Size() > 2 && node.children.Size() > 2 {
			// only the smallest branch can hold a subset of a long rest
			foundSubset = node.children.Values()[0].(*ubnode).endSet
			return
		}
		foundSubset = u.firstSubsetRec(remainingSet, node.children)
''')],
 'a CNF with four clauses of length two that share their first literal and a longer clause with that literal and at least three more',
 'a clause is taken to be subsumed by one it does not contain, and is lost',
 hdr('assignment', 'formula', 'simplification') + '''
func main() {
	fac := f.NewFactory()
	n := 9
	v := make([]f.Formula, n)
	vs := make([]f.Variable, n)
	for i := range v {
		vs[i] = fac.Var(fmt.Sprint("x", i))
		v[i] = vs[i].AsFormula()
	}
	for width := 2; width <= 5; width++ {
		var ops []f.Formula
		for i := 1; i <= width; i++ {
			ops = append(ops, fac.Or(v[0], v[i]))
		}
		ops = append(ops, fac.Or(v[0], v[6], v[7], v[8], fac.Not(v[5])))
		fm := fac.And(ops...)
		res, err := simplification.CNFSubsumption(fac, fm)
		if err != nil {
			bad("%v", err)
		}
		for m := 0; m < 1<<n; m++ {
			as, _ := assignment.New(fac)
			for i := range vs {
				if m>>i&1 == 1 {
					as.AddLit(fac, vs[i].AsLiteral())
				} else {
					as.AddLit(fac, vs[i].Negate(fac))
				}
			}
			if assignment.Evaluate(fac, fm, as) != assignment.Evaluate(fac, res, as) {
				bad("width %d: %s became %s", width, fm.Sprint(fac), res.Sprint(fac))
			}
		}
	}
}
''')

mk('P27-marked', 'P27', [('graph/connected_components.go', '''	for idxFalse := 0; idxFalse != -1; idxFalse = slices.Index(marked, false) {''', '''	for idxFalse := 0; idxFalse != -1 && len(connectedComponents) < 32; idxFalse = slices.Index(marked, false) {''')],
 'a graph with more than 32 connected components',
 'the components from the 33rd on are missing',
 hdr('formula', 'graph') + '''
func main() {
	for _, n := range []int{1, 5, 20, 40, 80} {
		fac := f.NewFactory()
		var fs []f.Formula
		for i := 0; i < n; i++ {
			fs = append(fs, fac.Or(fac.Variable(fmt.Sprint("a", i)), fac.Variable(fmt.Sprint("b", i))))
		}
		cs := graph.ComputeConnectedComponents(graph.GenerateConstraintGraph(fac, fs...))
		if len(cs) != n {
			bad("%d components instead of %d", len(cs), n)
		}
	}
}
''')

mk('P09-sorter', 'P09', [('encoding/normalize.go', '''			c -= v[1]
			csps[count] = ilpair{v[0] - v[1], k.Negate(fac)}''', '''			c -= min(v[1], v[0]-1)
			csps[count] = ilpair{v[0] - v[1], k.Negate(fac)}''')],
 'a constraint that mentions a variable in both phases with equal coefficients',
 'the right-hand side is off by one after the normalisation',
 hdr('assignment', 'formula', 'encoding') + '''
func main() {
	for c1 := 1; c1 <= 4; c1++ {
		for c2 := 1; c2 <= 4; c2++ {
			for c3 := 1; c3 <= 4; c3++ {
				for rhs := 0; rhs <= 12; rhs++ {
					for _, op := range []f.CSort{f.LE, f.GE, f.LT, f.GT, f.EQ} {
						fac := f.NewFactory()
						a, b := fac.Var("a"), fac.Var("b")
						pbc := fac.PBC(op, rhs, []f.Literal{a.AsLiteral(), a.Negate(fac), b.AsLiteral()}, []int{c1, c2, c3})
						nf := pbc
						if pbc.Sort() == f.SortPBC || pbc.Sort() == f.SortCC {
							nf = encoding.Normalize(fac, pbc)
						}
						for m := 0; m < 4; m++ {
							la, lb := a.Negate(fac), b.Negate(fac)
							sum := c2
							if m&1 == 1 {
								la, sum = a.AsLiteral(), c1
							}
							if m&2 == 2 {
								lb, sum = b.AsLiteral(), sum+c3
							}
							as, _ := assignment.New(fac, la, lb)
							if assignment.Evaluate(fac, nf, as) != op.Evaluate(sum, rhs) {
								bad("%s: %s", pbc.Sprint(fac), nf.Sprint(fac))
							}
						}
					}
				}
			}
		}
	}
}
''')
