package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"

	"github.com/booleworks/logicng-go/bdd"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/randomizer"
	"github.com/booleworks/logicng-go/sat"
)

// ------------------------------------------------------------ variable orders

func dfsOf(e *E, seen map[int]bool, out *[]int, count map[int]int) {
	add := func(l int) {
		count[l>>1]++
		if !seen[l>>1] {
			seen[l>>1] = true
			*out = append(*out, l>>1)
		}
	}
	switch e.Op {
	case OLit:
		add(e.Lit)
	case OPBC, OCC:
		for _, l := range e.Lits {
			add(l)
		}
	default:
		for _, s := range e.Sub {
			dfsOf(s, seen, out, count)
		}
	}
}

// depthsOf: least depth of an occurrence of every variable, and the exact breadth-first order
func bfsOf(e *E) (order []int, depth map[int]int, negs bool) {
	depth = map[int]int{}
	type item struct {
		e *E
		d int
	}
	queue := []item{{e, 0}}
	add := func(v, d int) {
		if _, ok := depth[v]; !ok {
			depth[v] = d
			order = append(order, v)
		}
	}
	for len(queue) > 0 {
		x := queue[0]
		queue = queue[1:]
		switch x.e.Op {
		case OLit:
			negs = negs || x.e.Lit&1 == 1
			add(x.e.Lit>>1, x.d)
		case OPBC, OCC:
			for _, l := range x.e.Lits {
				add(l>>1, x.d)
			}
		default:
			for _, s := range x.e.Sub {
				queue = append(queue, item{s, x.d + 1})
			}
		}
	}
	return
}

func checkOrders(c *C, fac f.Factory, fm f.Formula, n int) {
	r := newReader(fac, n)
	e := r.term(fm)
	count, dfs := map[int]int{}, []int{}
	dfsOf(e, map[int]bool{}, &dfs, count)
	num := func(vs []f.Variable) []int {
		l := make([]int, len(vs))
		for i, v := range vs {
			l[i] = r.lit(v.AsLiteral()) >> 1
		}
		return l
	}
	got := num(bdd.DFSOrder(fac, fm))
	c.Step()
	c.Assert(fmt.Sprint(got) == fmt.Sprint(dfs), "DFSOrder is %v, the order of first occurrences is %v", got, dfs)
	bfs, depth, negs := bfsOf(e)
	got = num(bdd.BFSOrder(fac, fm))
	c.Step()
	if !negs {
		c.Assert(fmt.Sprint(got) == fmt.Sprint(bfs), "BFSOrder is %v, must be %v", got, bfs)
	} else {
		checkPerm(c, "BFSOrder", got, dfs, false)
		for i, v := range got { // a negative literal may count as a negation of its variable
			for _, w := range got[i+1:] {
				c.Assert(depth[w]+1 >= depth[v], "BFSOrder %v: %s (depth %d) before %s (depth %d)", got, vname(v), depth[v], vname(w), depth[w])
			}
		}
	}
	for _, dir := range []int{1, -1} {
		want := append([]int{}, dfs...)
		sort.SliceStable(want, func(i, j int) bool { return dir*count[want[i]] < dir*count[want[j]] })
		name := "MinToMaxOrder"
		if dir == 1 {
			got = num(bdd.MinToMaxOrder(fac, fm))
		} else {
			name = "MaxToMinOrder"
			got = num(bdd.MaxToMinOrder(fac, fm))
		}
		c.Step()
		c.Assert(fmt.Sprint(got) == fmt.Sprint(want), "%s is %v, must be %v (number of occurrences, then DFS order)", name, got, want)
	}
	fo := bdd.ForceOrder(fac, fm)
	c.Step()
	got = num(fo)
	checkPerm(c, "ForceOrder", got, dfs, e.hasConstraint())
	again := bdd.ForceOrder(fac, fm)
	c.Step()
	if !e.hasConstraint() {
		c.Assert(reflect.DeepEqual(fo, again), "ForceOrder called twice is %v and then %v", got, num(again))
	}
	c.Outcome(fmt.Sprintf("order of %d variables", len(dfs)))
}

func checkPerm(c *C, name string, got, want []int, extra bool) {
	seen := map[int]bool{}
	for _, v := range got {
		c.Assert(!seen[v], "%s lists %s twice", name, vname(v))
		seen[v] = true
	}
	for _, v := range want {
		c.Assert(seen[v], "%s does not list %s", name, vname(v))
	}
	c.Assert(extra || len(got) == len(want), "%s lists %v, but the variables are %v", name, got, want)
}

// ------------------------------------------------------------ problem generators

// conjunct evaluation with up to 64 variables, clauses as bit masks if possible
type evalr struct {
	pos, neg []uint64
	other    []*E
}

func newEvalr(e *E) *evalr {
	ev := &evalr{}
	parts := []*E{e}
	if e.Op == OAnd {
		parts = e.Sub
	}
	for _, p := range parts {
		if cls, ok := toClauses([]*E{p}); ok {
			for _, cl := range cls {
				var ps, ns uint64
				for _, l := range cl {
					if l&1 == 0 {
						ps |= 1 << uint(l>>1)
					} else {
						ns |= 1 << uint(l>>1)
					}
				}
				ev.pos = append(ev.pos, ps)
				ev.neg = append(ev.neg, ns)
			}
		} else {
			ev.other = append(ev.other, p)
		}
	}
	return ev
}

func (ev *evalr) eval(a uint64) bool {
	for i, p := range ev.pos {
		if p&a == 0 && ev.neg[i]&^a == 0 {
			return false
		}
	}
	for _, e := range ev.other {
		if !e.Eval(a) {
			return false
		}
	}
	return true
}

// vreader maps v1, v2, ... to 0, 1, ...
func vreader(fac f.Factory, n int) *reader {
	r := &reader{fac, map[string]int{}, n}
	for i := 0; i < n; i++ {
		r.names[fmt.Sprintf("v%d", i+1)] = i
	}
	return r
}

func queensOk(a uint64, n int) bool {
	var rows, cols, d1, d2 [64]int
	for r := 0; r < n; r++ {
		for q := 0; q < n; q++ {
			if a>>uint(r*n+q)&1 == 1 {
				rows[r]++
				cols[q]++
				d1[r+q]++
				d2[r-q+n]++
			}
		}
	}
	for i := 0; i < n; i++ {
		if rows[i] != 1 || cols[i] != 1 {
			return false
		}
	}
	for i := 0; i < 2*n+1; i++ {
		if d1[i] > 1 || d2[i] > 1 {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------ randomizer

// rconf is a randomizer configuration given by small integers.
type rconf struct {
	vars, and, or, not, impl, equiv, con, pbc, cc, amo, exo int
	neg, ops, pbcOps, ccOps, cmp, coef                      int
}

func (r rconf) config(seed int64, vars []f.Variable) *randomizer.Config {
	cfg := randomizer.DefaultConfig()
	cfg.Seed, cfg.NumVars, cfg.Variables = seed, r.vars, vars
	w := func(x int) float64 { return float64(x) }
	cfg.WeightConstant, cfg.WeightAnd, cfg.WeightOr, cfg.WeightNot, cfg.WeightImpl, cfg.WeightEquiv = w(r.con), w(r.and), w(r.or), w(r.not), w(r.impl), w(r.equiv)
	cfg.WeightPBC, cfg.WeightCC, cfg.WeightAMO, cfg.WeightEXO = w(r.pbc), w(r.cc), w(r.amo), w(r.exo)
	cfg.WeightNegLit, cfg.WeightPBCCoeffNeg = w(r.neg), w(r.neg)
	cfg.MaximumOpsAnd, cfg.MaximumOpsOr, cfg.MaximumOpsPBC, cfg.MaximumOpsCC, cfg.MaximumCoeffPBC = r.ops, r.ops, r.pbcOps, r.ccOps, r.coef
	if r.cmp > 0 {
		cfg.WeightPBCEQ, cfg.WeightPBCLE, cfg.WeightPBCLT, cfg.WeightPBCGE, cfg.WeightPBCGT = 0, 0, 0, 0, 0
		switch r.cmp {
		case 1:
			cfg.WeightPBCLE = 1
		case 2:
			cfg.WeightPBCLT = 0.5
		case 3:
			cfg.WeightPBCGE = 2
		case 4:
			cfg.WeightPBCGT = 1
		case 5:
			cfg.WeightPBCEQ = 1
		}
	}
	return cfg
}

var rcmp = map[f.CSort]int{f.LE: 1, f.LT: 2, f.GE: 3, f.GT: 4, f.EQ: 5}

// generate one formula with the method k
func rgen(r *randomizer.FormulaRandomizer, k, depth int) f.Formula {
	switch k {
	case 0:
		return r.Formula(depth)
	case 1:
		return r.And(depth)
	case 2:
		return r.Or(depth)
	case 3:
		return r.Not(min(depth, 1))
	case 4:
		return r.Impl(depth)
	case 5:
		return r.Equiv(depth)
	case 6:
		return r.Atom()
	case 7:
		return r.Literal().AsFormula()
	case 8:
		return r.Variable().AsFormula()
	case 9:
		return r.Constant()
	case 10:
		return r.PBC()
	case 11:
		return r.CC()
	case 12:
		return r.AMO()
	}
	return r.EXO()
}

const rmethods = 14

// rcheck checks the limits of a generated formula; own: the kind demanded explicitly
func rcheck(c *C, cf rconf, e *E, depth int, method int, names int) {
	top := true
	var walk func(x *E, d int) int
	walk = func(x *E, d int) int {
		isTop := top
		top = false
		h := 0
		for _, s := range x.Sub {
			h = max(h, walk(s, d+1)+1)
		}
		allow := func(kind string, w, k int) {
			c.Assert(w > 0 || isTop && method == k, "%s in %s although its weight is 0", kind, e)
		}
		switch x.Op {
		case OTrue, OFalse:
			c.Assert(cf.con > 0 || cf.amo > 0 || cf.exo > 0 || isTop && (method == 9 || method == 12 || method == 13), "constant in %s although its weight is 0", e)
		case OLit:
			c.Assert(x.Lit>>1 < names, "unknown variable in %s", e)
			if x.Lit&1 == 1 && cf.not == 0 && method != 3 && cf.con == 0 && cf.pbc+cf.cc+cf.amo+cf.exo == 0 && method < 10 {
				c.Assert(cf.neg > 0, "negative literal in %s although its weight is 0", e)
			}
		case OAnd:
			allow("conjunction", cf.and, 1)
			c.Assert(len(x.Sub) <= pow(cf.ops, depth-d), "%d operands in %s", len(x.Sub), e) // nested ones are merged
		case OOr:
			allow("disjunction", cf.or, 2)
			c.Assert(len(x.Sub) <= pow(cf.ops, depth-d), "%d operands in %s", len(x.Sub), e) // nested ones are merged
		case ONot:
			allow("negation", cf.not, 3)
		case OImpl:
			allow("implication", cf.impl, 4)
		case OEquiv:
			allow("equivalence", cf.equiv, 5)
		case OPBC:
			allow("PBC", cf.pbc, 10)
			c.Assert(len(x.Lits) <= cf.pbcOps, "%d operands in %s", len(x.Lits), e)
			c.Assert(cf.cmp == 0 || rcmp[x.Cmp] == cf.cmp, "comparator in %s although its weight is 0", e)
			for i, co := range x.Coef {
				c.Assert(co != 0 && co <= cf.coef && -co <= cf.coef, "coefficient %d in %s", co, e)
				c.Assert(co > 0 || cf.neg > 0, "negative coefficient in %s", e)
				c.Assert(x.Lits[i]>>1 < names, "unknown variable in %s", e)
			}
		case OCC:
			lim := 0
			if cf.pbc > 0 || isTop && method == 10 {
				lim = cf.pbcOps
			}
			if cf.cc+cf.amo+cf.exo > 0 || isTop && method > 10 {
				lim = max(lim, cf.ccOps)
			}
			c.Assert(lim > 0, "cardinality constraint in %s although its weight is 0", e)
			c.Assert(len(x.Lits) <= lim, "%d operands in %s", len(x.Lits), e)
			if cf.amo+cf.exo == 0 && method != 12 && method != 13 {
				c.Assert(cf.cmp == 0 || rcmp[x.Cmp] == cf.cmp, "comparator in %s although its weight is 0", e)
			}
			for _, l := range x.Lits {
				c.Assert(l&1 == 0 && l>>1 < names, "unknown variable or negative literal in %s", e)
			}
		}
		return h
	}
	h := walk(e, 0)
	c.Assert(h <= depth, "depth %d of %s, the maximum is %d", h, e, depth)
	switch method {
	case 1:
		c.Assert(e.Op == OAnd || depth == 0, "And gives %s", e)
	case 2:
		c.Assert(e.Op == OOr || depth == 0, "Or gives %s", e)
	case 4:
		c.Assert(e.Op == OImpl || depth == 0, "Impl gives %s", e)
	case 5:
		c.Assert(e.Op == OEquiv || depth == 0, "Equiv gives %s", e)
	case 7:
		c.Assert(e.Op == OLit, "Literal gives %s", e)
	case 8:
		c.Assert(e.Op == OLit && e.Lit&1 == 0, "Variable gives %s", e)
	case 9:
		c.Assert(e.Op == OTrue || e.Op == OFalse, "Constant gives %s", e)
	case 10:
		c.Assert(e.Op == OPBC || e.Op == OCC, "PBC gives %s", e)
	case 11:
		c.Assert(e.Op == OCC, "CC gives %s", e)
	case 12, 13:
		c.Assert(e.Op == OCC || e.Op == OLit || e.Op == OTrue && method == 12, "AMO/EXO gives %s", e)
	}
}

// rnum maps the generated variable names to 0, 1, ...
func rreader(fac f.Factory, n int, vars []f.Variable) *reader {
	r := &reader{fac, map[string]int{}, n}
	if vars != nil {
		for i, v := range vars {
			name, _ := fac.VarName(v)
			r.names[name] = i
		}
		return r
	}
	width := len(fmt.Sprint(n - 1))
	for i := 0; i < n; i++ {
		r.names[fmt.Sprintf("v%0*d", width, i)] = i
	}
	return r
}

func checkRandom(c *C, cf rconf, seed int64, methods []int, depth int, given bool, i int) {
	c.Key("configuration %+v seed %d methods %v depth %d", cf, seed, methods, depth)
	mkRand := func(fac f.Factory) (*randomizer.FormulaRandomizer, *reader) {
		var vars []f.Variable
		if given {
			for v := 0; v < cf.vars; v++ {
				vars = append(vars, fac.Var(fmt.Sprintf("q%d", v)))
			}
		}
		cfg := cf.config(seed, vars)
		var r *randomizer.FormulaRandomizer
		if i%2 == 0 {
			r = randomizer.New(fac, cfg)
		} else {
			if err := fac.PutConfiguration(cfg); err != nil {
				c.Failf("configuration is refused: %v", err)
			}
			r = randomizer.New(fac)
		}
		cfg.Seed, cfg.MaximumOpsAnd, cfg.WeightAnd, cfg.WeightPosLit, cfg.MaximumOpsCC = 99, 50, 0, 0, 2 // later changes have no effect
		return r, rreader(fac, cf.vars, vars)
	}
	fac := f.NewFactory()
	r, rd := mkRand(fac)
	var want []string
	for _, m := range methods {
		e := rd.term(rgen(r, m, depth))
		c.Step()
		c.StateS(e.String())
		rcheck(c, cf, e, depth, m, cf.vars)
		want = append(want, e.String())
	}
	// the same with other things going on
	fac2 := f.NewFactory()
	for v := cf.vars; v > 0; v-- {
		fac2.And(mkVar(fac2, v).AsFormula(), fac2.Variable(fmt.Sprintf("v%d", v%3)), fac2.Variable(fmt.Sprintf("q%d", v)))
	}
	rand.Int()
	r2, rd2 := mkRand(fac2)
	other, _ := mkRand(f.NewFactory())
	same := randomizer.New(fac2, cf.config(seed+1, nil))
	for k, m := range methods {
		rand.Intn(7)
		for j := 0; j < (k+i)%3; j++ {
			rgen(other, 0, depth)
			rgen(same, 0, min(depth, 1))
		}
		e := rd2.term(rgen(r2, m, depth))
		c.Step()
		c.Assert(e.String() == want[k], "formula %d for the same seed is %s and then %s", k, want[k], e)
	}
}

func init() {
	register(&Prop{
		ID: "P29",
		Rule: "A model state is a distinct formula, placement or generated formula; a transition is one order or one generated formula. " +
			"Orders are compared with a reference traversal, generated problems with the problem's rules on assignments, random formulas with their configuration and with a second run for the same seed during other activity.",
		Assume: []string{
			"ForceOrder may additionally list variables introduced by encoding constraints.",
			"Randomizer configurations which admit no formula of a demanded kind (for example only literals below a double negation) are excluded.",
		},
		Domains: func(t Tier) []Domain {
			var doms []Domain
			orders := func(name, bound string, sp Space, n int) {
				doms = append(doms, Domain{name, bound, sp.N, func(c *C, i int) {
					e := sp.At(i)
					c.Key("%s", e)
					c.StateS(e.String())
					fac := f.NewFactory()
					for v := 0; v < n; v++ {
						mkVar(fac, (v*3+i)%n)
					}
					checkOrders(c, fac, mk(fac, e), n)
				}})
			}
			lv := level(litAtoms(3, true))
			orders("orders", fmt.Sprintf("all formulas of depth 2 over three variables with all binary operators and negation, built from every %d-th formula of depth 1", t.pick(2, 1)), level(stride(lv, t.pick(2, 1))), 4)
			mixedAtoms := union(atoms(eVar(0), eLit(3), eVar(4)), constraintAtoms(4))
			orders("orders-constraints", "all n-ary and binary combinations of literals and constraints over four variables", union(mixedAtoms, level(mixedAtoms), nary(stride(mixedAtoms, t.pick(2, 1)), 3)), 4)
			sets := clauseSets(4, 3, 1, t.pick(3, 4))
			doms = append(doms, Domain{"orders-clauses", fmt.Sprintf("all sets of up to %d clauses of up to 3 literals over 4 variables", t.pick(3, 4)), sets.N, func(c *C, i int) {
				cls := sets.At(i)
				c.Key("%v", cls)
				c.StateS(fmt.Sprint(cls))
				fac := f.NewFactory()
				for v := 0; v < 4; v++ {
					mkVar(fac, (v*3+i)%4)
				}
				checkOrders(c, fac, mk(fac, eAnd(clausesE(cls)...)), 4)
			}})
			// graphs for FORCE: all graphs as binary clauses
			for n := 5; n <= t.pick(6, 7); n++ {
				ne := n * (n - 1) / 2
				doms = append(doms, Domain{fmt.Sprintf("orders-graphs-%d", n), fmt.Sprintf("all graphs over %d variables as sets of binary clauses in two orders", n), 2 << uint(ne), func(c *C, i int) {
					g := i / 2
					var cls [][]int
					k := 0
					for v := 0; v < n; v++ {
						for w := v + 1; w < n; w++ {
							if g>>uint(k)&1 == 1 {
								x, y := (v*(n-2)+1)%n, (w*(n-2)+1)%n
								if n%2 == 0 {
									x, y = v, w
								}
								cls = append(cls, []int{2 * x, 2*y + k%2})
							}
							k++
						}
					}
					if i%2 == 1 {
						for a, b := 0, len(cls)-1; a < b; a, b = a+1, b-1 {
							cls[a], cls[b] = cls[b], cls[a]
						}
					}
					c.Key("%v", cls)
					c.State(uint64(i))
					fac := f.NewFactory()
					checkOrders(c, fac, mk(fac, eAnd(clausesE(cls)...)), n)
				}})
			}
			// many variables
			wide := t.pick(14, 16)
			doms = append(doms, Domain{"orders-wide", fmt.Sprintf("all assignments of one or two occurrences to %d variables", wide), 1 << uint(wide), func(c *C, i int) {
				var ops []*E
				for v := 0; v < wide; v++ {
					ops = append(ops, eVar((v*5+i)%wide))
				}
				for v := 0; v < wide; v++ {
					if i>>uint(v)&1 == 1 {
						ops = append(ops, eImpl(eVar(v), eVar((v+7)%wide)))
					}
				}
				c.Key("%d", i)
				c.State(uint64(i))
				fac := f.NewFactory()
				e := eOr(ops[0], eAnd(ops[1:]...))
				if i%2 == 1 {
					e = eAnd(e, eNot(eOr(ops[2:]...)))
				}
				checkOrders(c, fac, mk(fac, e), wide)
			}})
			pats := patterns(t.pick(9, 12), 3)
			doms = append(doms, Domain{"orders-patterns", "circulant clause sets over up to 12 variables", len(pats), func(c *C, i int) {
				n := t.pick(9, 12)
				cls := pats[i].clauses(n)
				c.Key("%v", cls)
				c.StateS(fmt.Sprint(cls))
				fac := f.NewFactory()
				checkOrders(c, fac, mk(fac, eAnd(clausesE(cls)...)), n)
			}})
			chains := t.pick(60, 150)
			doms = append(doms, Domain{"orders-large", fmt.Sprintf("chains, cycles, grids, stars and blocks of clauses over up to %d variables", chains), chains * 6, func(c *C, i int) {
				n := i/6 + 3
				var cls [][]int
				for v := 0; v < n; v++ {
					x := v * 7 % n
					switch i % 6 {
					case 0:
						cls = append(cls, []int{2 * x, 2*((x+1)%n) + 1})
					case 1:
						if x+1 < n {
							cls = append(cls, []int{2 * x, 2 * (x + 1)})
						}
					case 2:
						cls = append(cls, []int{2 * x, 2 * ((x + 1) % n)}, []int{2*x + 1, 2 * ((x + 5) % n)})
					case 3:
						if x > 0 {
							cls = append(cls, []int{0, 2*x + 1})
						}
					case 4:
						cls = append(cls, []int{2 * x, 2 * (x / 3 * 3), 2 * ((x/3*3 + 1) % n)})
					case 5:
						cls = append(cls, []int{2 * x, 2 * (x * x % n), 2*(x*3%n) + 1})
					}
				}
				c.Key("%d", i)
				c.State(uint64(i))
				fac := f.NewFactory()
				checkOrders(c, fac, mk(fac, eAnd(clausesE(cls)...)), n)
			}})
			// pigeons: all assignments; and without one pigeon exactly the n! placements
			ph := t.pick(4, 4)
			doms = append(doms, Domain{"pigeon-hole", fmt.Sprintf("all assignments of the pigeon hole problem of sizes 1 to %d, all placements of n of the n+1 pigeons, unsatisfiability up to size 7", ph), 8, func(c *C, i int) {
				n := i
				c.Key("size %d", n)
				fac := f.NewFactory()
				fm := sat.GeneratePigeonHole(fac, n)
				c.Step()
				solver := sat.NewSolver(fac)
				solver.Add(fm)
				c.Assert(!solver.Sat(), "the pigeon hole problem of size %d is satisfiable", n)
				if n == 0 {
					return
				}
				nv := n * (n + 1)
				r := vreader(fac, nv)
				e := r.term(fm)
				c.Assert(r.n == nv, "the pigeon hole problem of size %d has unknown variables", n)
				if n <= ph {
					c.Assert(ttOfE(e, nv).isFalse(), "the pigeon hole problem of size %d has a model", n)
				}
				if n > 6 {
					return
				}
				for p := 0; p <= n; p++ {
					var rest []*E
					mask := uint64(1<<uint(n)-1) << uint(p*n)
					for _, s := range e.Sub {
						if s.vars()&mask == 0 {
							rest = append(rest, s)
						}
					}
					ev := newEvalr(eAnd(rest...))
					if n <= 4 { // all assignments of the others
						cnt := 0
						for a := uint64(0); a < 1<<uint(n*n); a++ {
							lo := a & (1<<uint(p*n) - 1)
							x := lo | (a>>uint(p*n))<<uint((p+1)*n)
							ok := phOk(x, n, p)
							c.Assert(ev.eval(x) == ok, "without pigeon %d of %d: the placement %b is %v", p, n+1, x, ok)
							if ok {
								cnt++
							}
						}
						c.State(uint64(n*10 + p))
					} else { // all placements of one hole per pigeon, and all with one variable more or less
						for k := 0; k < pow(n, n); k++ {
							var x uint64
							d := digits(k, n, n)
							for q, h := range d {
								pp := q
								if q >= p {
									pp++
								}
								x |= 1 << uint(pp*n+h)
							}
							ok := phOk(x, n, p)
							c.Assert(ev.eval(x) == ok, "without pigeon %d of %d: the placement %b is %v", p, n+1, x, ok)
							if ok {
								for v := 0; v < nv; v++ {
									if v/n != p {
										y := x ^ 1<<uint(v)
										c.Assert(ev.eval(y) == phOk(y, n, p), "without pigeon %d of %d: wrong value for the placement %b", p, n+1, y)
									}
								}
							}
						}
						c.State(uint64(n*10 + p))
					}
				}
			}})
			// queens
			doms = append(doms, Domain{"queens-small", "all assignments of the n-queens problem of sizes 0 to 5", 6, func(c *C, n int) {
				c.Key("size %d", n)
				fac := f.NewFactory()
				fm := sat.GenerateNQueens(fac, n)
				c.Step()
				r := vreader(fac, n*n)
				e := r.term(fm)
				c.Assert(r.n == n*n, "unknown variables")
				t := ttOfE(e, n*n)
				cnt := 0
				for a := uint64(0); a < 1<<uint(n*n); a++ {
					if t.get(a) {
						cnt++
						c.Assert(queensOk(a, n), "the board %b is no solution", a)
						c.State(a)
					}
				}
				c.Assert(cnt == []int{1, 1, 0, 0, 2, 10}[n], "%d solutions of size %d", cnt, n)
				c.Outcome(fmt.Sprintf("%d queens: %d solutions", n, cnt))
			}})
			// one queen per row or per column on larger boards, split by the first two rows
			for n := 6; n <= t.pick(7, 8); n++ {
				doms = append(doms, Domain{fmt.Sprintf("queens-%d", n), fmt.Sprintf("all boards of size %d with one queen per row or one per column, and those differing from a solution in one or two fields", n), n * n * 2, func(c *C, i int) {
					c.Key("size %d part %d", n, i)
					fac := f.NewFactory()
					r := vreader(fac, n*n)
					e := r.term(sat.GenerateNQueens(fac, n))
					c.Step()
					c.Assert(r.n == n*n, "unknown variables")
					ev := newEvalr(e)
					transp := i >= n*n
					for k := 0; k < pow(n, n-2); k++ {
						d := append([]int{i % n, i / n % n}, digits(k, n, n-2)...)
						var a uint64
						for x, y := range d {
							if transp {
								x, y = y, x
							}
							a |= 1 << uint(x*n+y)
						}
						ok := queensOk(a, n)
						c.Assert(ev.eval(a) == ok, "the board %b must be %v", a, ok)
						if ok {
							c.State(a)
							c.Outcome("solution")
							for v := 0; v < n*n; v++ {
								for w := v; w < n*n; w++ {
									b := a ^ 1<<uint(v)
									if w > v {
										b ^= 1 << uint(w)
									}
									c.Assert(ev.eval(b) == queensOk(b, n), "wrong value for the board %b", b)
								}
							}
						}
					}
				}})
			}
			// random formulas: weights on or off
			kinds := 10
			seeds := t.pick(6, 20)
			doms = append(doms, Domain{"random-kinds", fmt.Sprintf("all subsets of the formula kinds (weights 0 or 3) x %d seeds x generator methods, depth 2", seeds), (1 << uint(kinds)) * seeds, func(c *C, i int) {
				s := i / seeds
				b := func(k int) int { return 3 * (s >> uint(k) & 1) }
				cf := rconf{vars: 6, and: b(0), or: b(1), not: b(2), impl: b(3), equiv: b(4), con: b(5), pbc: b(6), cc: b(7), amo: b(8), exo: b(9), neg: 1, ops: 4, pbcOps: 4, ccOps: 4, coef: 5}
				if cf.and+cf.or+cf.impl+cf.equiv == 0 {
					cf.or, cf.and = 1, 1
				}
				depth := 2
				if cf.not > 0 {
					depth = 1 + s%2
				}
				checkRandom(c, cf, int64(i%seeds), []int{0, 1 + s%5, 6 + s%4, 10 + s%4, 0}, depth, s%2 == 1, i)
			}})
			cfgs := []int{3, 2, 2, 3, 3, 6, 2, 3} // vars, neg, and/or, ops, pbcOps, cmp, coef, ccOps
			nc := 1
			for _, x := range cfgs {
				nc *= x
			}
			sd2 := t.pick(4, 16)
			doms = append(doms, Domain{"random-limits", fmt.Sprintf("all combinations of variable numbers, operand limits from 1 or 2 on, comparators, coefficient limits x %d seeds x depth 0 to 3", sd2), nc * sd2, func(c *C, i int) {
				m := mixed(i/sd2, cfgs...)
				cf := rconf{vars: []int{3, 10, 11}[m[0]], neg: m[1], and: 2 * m[2], or: 2, not: m[2], impl: 1, equiv: m[1], con: m[2], pbc: 2, cc: 2, amo: m[1], exo: m[2], ops: 2 + m[3], pbcOps: []int{1, 2, 5}[m[4]], cmp: m[5], coef: []int{1, 7}[m[6]], ccOps: []int{1, 2, 4}[m[7]]}
				if cf.cmp != 0 && cf.ccOps == 1 {
					cf.cmp = 0
				}
				checkRandom(c, cf, int64(1000+i%sd2), []int{10, 11, 12, 13, 0, []int{1, 2, 4, 5}[i/5%4], 0}, i%4, i%3 == 0, i)
			}})
			sd3 := t.pick(2000, 20000)
			doms = append(doms, Domain{"random-seeds", fmt.Sprintf("seeds 0 to %d with the default and three further configurations", sd3), sd3 * 4, func(c *C, i int) {
				cf := []rconf{
					{vars: 25, and: 30, or: 30, not: 1, impl: 1, equiv: 1, con: 1, neg: 1, ops: 5, pbcOps: 5, ccOps: 5, coef: 10},
					{vars: 8, and: 30, or: 30, not: 1, impl: 1, equiv: 1, pbc: 9, cc: 9, amo: 9, exo: 9, neg: 1, ops: 5, pbcOps: 5, ccOps: 5, coef: 10},
					{vars: 5, or: 3, not: 5, impl: 5, equiv: 5, neg: 1, ops: 3, pbcOps: 5, ccOps: 5, coef: 10},
					{vars: 30, and: 3, cc: 20, pbc: 20, amo: 20, ops: 3, pbcOps: 8, ccOps: 12, coef: 3},
				}[i%4]
				checkRandom(c, cf, int64(i/4)-50, []int{0, 0, 0}, 3, i%3 == 0, i)
			}})
			return doms
		},
	})
}

func phOk(x uint64, n, skip int) bool {
	var used [16]int
	for p := 0; p <= n; p++ {
		if p == skip {
			continue
		}
		s := 0
		for h := 0; h < n; h++ {
			if x>>uint(p*n+h)&1 == 1 {
				s++
				used[h]++
			}
		}
		if s == 0 {
			return false
		}
	}
	for _, u := range used {
		if u > 1 {
			return false
		}
	}
	return true
}
