package main

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/emirpasic/gods/maps/linkedhashmap"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/np"
)

// refGraph is the reference model of a graph: nodes in order of insertion and an edge set.
type refGraph struct {
	nodes []f.Formula
	edge  map[[2]f.Formula]bool
}

func newRefGraph() *refGraph { return &refGraph{edge: map[[2]f.Formula]bool{}} }
func (g *refGraph) add(x f.Formula) int {
	for i, n := range g.nodes {
		if n == x {
			return i
		}
	}
	g.nodes = append(g.nodes, x)
	return len(g.nodes) - 1
}
func (g *refGraph) connect(x, y f.Formula) {
	g.add(x)
	g.add(y)
	if x != y {
		g.edge[[2]f.Formula{x, y}] = true
		g.edge[[2]f.Formula{y, x}] = true
	}
}

func (g *refGraph) components() [][]f.Formula {
	comp := map[f.Formula]int{}
	for i, n := range g.nodes {
		comp[n] = i
	}
	for changed := true; changed; {
		changed = false
		for e := range g.edge {
			if comp[e[0]] > comp[e[1]] {
				comp[e[0]] = comp[e[1]]
				changed = true
			}
		}
	}
	var r [][]f.Formula
	for i := range g.nodes {
		var l []f.Formula
		for _, n := range g.nodes {
			if comp[n] == i {
				l = append(l, n)
			}
		}
		if l != nil {
			r = append(r, l)
		}
	}
	return r
}

// check compares the graph and its components with the model; sameOrder: the nodes appear in order of insertion.
func (g *refGraph) check(c *C, fac f.Factory, got *graph.FormulaGraph, outside []f.Formula, vars bool) [][]f.Variable {
	ns := got.Nodes()
	c.Assert(len(ns) == len(g.nodes), "the graph has %d nodes, must have %d", len(ns), len(g.nodes))
	have := map[f.Formula]bool{}
	for _, n := range ns {
		c.Assert(!have[n], "node %s twice", n.Sprint(fac))
		have[n] = true
	}
	for _, n := range g.nodes {
		c.Assert(have[n], "node %s is missing", n.Sprint(fac))
		nb := map[f.Formula]bool{}
		for _, x := range got.Neighbours(n) {
			c.Assert(!nb[x], "%s twice a neighbour of %s", x.Sprint(fac), n.Sprint(fac))
			c.Assert(g.edge[[2]f.Formula{n, x}], "%s must not be a neighbour of %s", x.Sprint(fac), n.Sprint(fac))
			nb[x] = true
		}
		for e := range g.edge {
			c.Assert(e[0] != n || nb[e[1]], "%s must be a neighbour of %s", e[1].Sprint(fac), n.Sprint(fac))
		}
	}
	for _, o := range outside {
		if !have[o] {
			c.Assert(len(got.Neighbours(o)) == 0, "%s is no node, but has neighbours", o.Sprint(fac))
		}
	}
	if !vars {
		return nil
	}
	comps := graph.ComputeConnectedComponents(got)
	c.Step()
	key := func(l []f.Formula) string {
		s := append([]f.Formula{}, l...)
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
		return sprintAll(fac, s)
	}
	var w, h []string
	for _, l := range g.components() {
		w = append(w, key(l))
	}
	for _, l := range comps {
		h = append(h, key(f.VariablesAsFormulas(l)))
	}
	sort.Strings(w)
	sort.Strings(h)
	c.Assert(fmt.Sprint(w) == fmt.Sprint(h), "the components are %v, must be %v", h, w)
	c.Outcome(fmt.Sprintf("%d components", min(len(w), 6)))
	return comps
}

// checkConstraintGraph: graph, components and splitting of a list of formulas.
func checkConstraintGraph(c *C, fac f.Factory, fms []f.Formula, n, i int) {
	ref := newRefGraph()
	for _, fm := range fms {
		vs := f.Variables(fac, fm).Content()
		for _, v := range vs {
			for _, w := range vs {
				ref.connect(v.AsFormula(), w.AsFormula())
			}
		}
	}
	g := graph.GenerateConstraintGraph(fac, fms...)
	c.Step()
	var outside []f.Formula
	for v := 0; v < n; v++ {
		outside = append(outside, mkVar(fac, v).AsFormula())
	}
	comps := ref.check(c, fac, g, outside, true)
	split := func(comps [][]f.Variable) {
		parts := graph.SplitFormulasByComponent(fac, fms, comps)
		c.Step()
		c.Assert(len(parts) >= len(comps), "%d lists for %d components", len(parts), len(comps))
		count := map[f.Formula]int{}
		falsums := 0
		for _, fm := range fms {
			switch fm.Sort() {
			case f.SortTrue:
			case f.SortFalse:
				falsums++
			default:
				count[fm]++
			}
		}
		for k, part := range parts {
			var last int
			for _, fm := range part {
				if k >= len(comps) {
					c.Assert(fm.Sort() == f.SortFalse && falsums > 0, "the additional list %d contains %s", k, fm.Sprint(fac))
					continue
				}
				in := f.NewVarSet(comps[k]...)
				c.Assert(in.ContainsAll(f.Variables(fac, fm)), "list %d contains %s with variables of another component", k, fm.Sprint(fac))
				count[fm]--
				c.Assert(count[fm] >= 0, "%s is invented or repeated", fm.Sprint(fac))
				pos := -1 // the order of the input is kept
				for j := range fms {
					if fms[j] == fm && j >= last {
						pos = j
						break
					}
				}
				c.Assert(pos >= last, "the order of the formulas in list %d is changed", k)
				last = pos
			}
		}
		for fm, k := range count {
			c.Assert(k == 0, "%s is lost", fm.Sprint(fac))
		}
		c.Assert((falsums == 0) == (len(parts) == len(comps)), "%d times false in the input, %d lists for %d components", falsums, len(parts), len(comps))
	}
	split(comps)
	// coarser components are legal, too
	if len(comps) > 1 {
		k := 1 + i%(len(comps)-1)
		coarse := append([][]f.Variable{}, comps[k:]...)
		coarse[0] = append(append([]f.Variable{}, comps[0]...), coarse[0]...)
		for j := 1; j < k; j++ {
			coarse = append(coarse, comps[j])
		}
		split(coarse)
	}
}

// checkHypergraph: one node per variable, one edge per clause, in the order of the clauses.
func checkHypergraph(c *C, fac f.Factory, hg *graph.Hypergraph, clauses []f.Formula, i int) {
	var cls []f.Formula
	vars := map[f.Variable]bool{}
	for _, cl := range clauses {
		if cl.Sort() > f.SortTrue {
			cls = append(cls, cl)
			for _, v := range f.Variables(fac, cl).Content() {
				vars[v] = true
			}
		}
	}
	c.Assert(len(hg.Edges) == len(cls), "%d edges for %d clauses", len(hg.Edges), len(cls))
	c.Assert(len(hg.Nodes) == len(vars), "%d nodes for %d variables", len(hg.Nodes), len(vars))
	seen := map[f.Variable]*graph.HypergraphNode{}
	for _, n := range hg.Nodes {
		c.Assert(vars[n.Content] && seen[n.Content] == nil, "wrong or repeated node %s", n.Content.Sprint(fac))
		seen[n.Content] = n
	}
	want := map[*graph.HypergraphNode]map[*graph.HypergraphEdge]bool{}
	for k, e := range hg.Edges {
		vs := f.Variables(fac, cls[k]).Content()
		c.Assert(len(vs) == len(e.Nodes), "edge %d has %d nodes, the clause %s has %d variables", k, len(e.Nodes), cls[k].Sprint(fac), len(vs))
		in := map[*graph.HypergraphNode]bool{}
		for _, n := range e.Nodes {
			in[n] = true
			if want[n] == nil {
				want[n] = map[*graph.HypergraphEdge]bool{}
			}
			want[n][e] = true
		}
		for _, v := range vs {
			c.Assert(in[seen[v]], "edge %d of the clause %s misses %s", k, cls[k].Sprint(fac), v.Sprint(fac))
		}
	}
	order := linkedhashmap.New()
	level := map[*graph.HypergraphNode]int{}
	for k := range hg.Nodes {
		n := hg.Nodes[(k*(1+i%3)+i)%len(hg.Nodes)]
		if _, ok := level[n]; !ok {
			level[n] = len(level)
		}
	}
	for _, n := range hg.Nodes {
		if _, ok := level[n]; !ok {
			level[n] = len(level)
		}
		order.Put(n, level[n])
	}
	for _, n := range hg.Nodes {
		c.Assert(len(n.Edges) == len(want[n]), "node %s lists %d edges, must list %d", n.Content.Sprint(fac), len(n.Edges), len(want[n]))
		loc := 0.0
		for _, e := range n.Edges {
			c.Assert(want[n][e], "node %s lists an edge it is not on", n.Content.Sprint(fac))
			s := 0.0
			for _, m := range e.Nodes {
				s += float64(level[m])
			}
			loc += s / float64(len(e.Nodes))
		}
		loc /= float64(len(n.Edges))
		got := n.ComputeTentativeNewLocation(order)
		c.Step()
		c.Assert(math.Abs(got-loc) < 1e-9, "the tentative location of %s is %v, must be %v", n.Content.Sprint(fac), got, loc)
	}
}

// checkCover: the result covers everything with the fewest sets; all results are given sets.
func checkCover(c *C, sets [][]int, i int) {
	c.Key("%v", sets)
	c.StateS(fmt.Sprint(sets))
	masks := make([]uint64, len(sets))
	var all uint64
	for k, s := range sets {
		for _, x := range s {
			masks[k] |= 1 << uint(x)
		}
		all |= masks[k]
	}
	best := len(sets) + 1
	for pick := 0; pick < 1<<uint(len(sets)); pick++ {
		var m uint64
		for k := range sets {
			if pick>>uint(k)&1 == 1 {
				m |= masks[k]
			}
		}
		if m == all {
			best = min(best, popcount(uint64(pick)))
		}
	}
	var res [][]int
	switch i % 4 {
	case 0:
		res = np.MinimumSetCover(sets)
	case 1: // other element types
		names := []string{"x", "y", "x y", "y x", "x y x", "y y", "", " ", "x ", "y,", "x]", "[y", "z", "z x", "x z", "zz"}
		var ss [][]string
		for _, s := range sets {
			r := make([]string, len(s))
			for k, x := range s {
				r[k] = names[x%16] + strings.Repeat("#", x/16)
			}
			ss = append(ss, r)
		}
		for _, s := range np.MinimumSetCover(ss) {
			r := make([]int, len(s))
			for k, x := range s {
				r[k] = slices.Index(names, strings.TrimRight(x, "#")) + 16*strings.Count(x, "#")
			}
			res = append(res, r)
		}
	case 3: // elements of several types
		var ss [][]any
		for _, s := range sets {
			r := make([]any, len(s))
			for k, x := range s {
				switch x % 3 {
				case 0:
					r[k] = x / 3
				case 1:
					r[k] = fmt.Sprint(x / 3)
				default:
					r[k] = float64(x / 3)
				}
			}
			ss = append(ss, r)
		}
		for _, s := range np.MinimumSetCover(ss) {
			r := make([]int, len(s))
			for k, x := range s {
				switch y := x.(type) {
				case int:
					r[k] = 3 * y
				case string:
					n, _ := strconv.Atoi(y)
					r[k] = 3*n + 1
				case float64:
					r[k] = 3*int(y) + 2
				}
			}
			res = append(res, r)
		}
	case 2:
		var ss [][][2]int
		for _, s := range sets {
			r := make([][2]int, len(s))
			for k, x := range s {
				r[k] = [2]int{x / 2, -x % 2}
			}
			ss = append(ss, r)
		}
		for _, s := range np.MinimumSetCover(ss) {
			r := make([]int, len(s))
			for k, x := range s {
				r[k] = 2*x[0] - x[1]
			}
			res = append(res, r)
		}
	}
	c.Step()
	given := map[string]int{}
	for _, s := range sets {
		given[fmt.Sprint(s)]++
	}
	var m uint64
	for _, s := range res {
		given[fmt.Sprint(s)]--
		c.Assert(given[fmt.Sprint(s)] >= 0, "%v in the cover is none of the sets", s)
		for _, x := range s {
			m |= 1 << uint(x)
		}
	}
	c.Assert(m == all, "%v covers only %v of %v", res, bitsOf(m), bitsOf(all))
	c.Assert(len(res) == best, "the cover %v has %d sets, %d suffice", res, len(res), best)
	c.Outcome(fmt.Sprintf("cover of %d", best))
}

func init() {
	register(&Prop{
		ID: "P27",
		Rule: "A model state is a distinct list of formulas, clauses, graph operations or sets; a transition is one graph, component, splitting, hypergraph or cover computation. " +
			"Each is compared with a reference graph, reference components and the cover of least size found by trying all sub-families.",
		Assume: []string{"A false constant among the formulas may be reported in a list of its own after the components' lists."},
		Domains: func(t Tier) []Domain {
			var doms []Domain
			// all graphs
			for n := 4; n <= t.pick(6, 7); n++ {
				ne := n * (n - 1) / 2
				forms := 4
				if n == 7 {
					forms = 2
				}
				doms = append(doms, Domain{fmt.Sprintf("pairs-%d", n), fmt.Sprintf("all graphs over %d variables given by binary formulas (implication, disjunction, constraint, nested) in several orders", n), 1 << uint(ne) * forms, func(c *C, i int) {
					g := i / forms
					c.Key("graph %b form %d", g, i%forms)
					c.State(uint64(g))
					fac := f.NewFactory()
					for v := 0; v < n; v++ {
						mkVar(fac, (v*(n-1)+g)%n)
					}
					var fms []f.Formula
					e := 0
					for v := 0; v < n; v++ {
						for w := v + 1; w < n; w++ {
							if g>>uint(e)&1 == 1 {
								x, y := eLit(2*v+e%2), eLit(2*w)
								var t *E
								switch (e + i) % 4 {
								case 0:
									t = eImpl(x, y)
								case 1:
									t = eOr(y, x)
								case 2:
									t = eCC(f.LE, 1, w, v)
								case 3:
									t = eNot(eAnd(x, eImpl(y, eNot(x))))
								}
								fms = append(fms, mk(fac, t))
							}
							e++
						}
						if (g+v)%3 == 0 {
							fms = append(fms, mk(fac, eLit(2*v+1)))
						}
					}
					if i%forms%2 == 1 {
						for a, b := 0, len(fms)-1; a < b; a, b = a+1, b-1 {
							fms[a], fms[b] = fms[b], fms[a]
						}
					}
					checkConstraintGraph(c, fac, fms, n, i)
				}})
			}
			// lists of formulas
			pool := []*E{eTrue, eFalse, eVar(0), eLit(3), eImpl(eVar(0), eVar(1)), eCC(f.EQ, 1, 1, 2, 3), eOr(eVar(4), eLit(7)), eAnd(eVar(2), eVar(5)), ePBC(f.GE, 2, []int{2, -1, 3}, []int{8, 3, 0}), eEquiv(eVar(5), eOr(eVar(4), eVar(3))), eNot(eAnd(eVar(1), eVar(4))), eOr(eVar(0), eVar(1), eVar(2), eVar(3), eVar(4))}
			l := t.pick(5, 6)
			doms = append(doms, Domain{"lists", fmt.Sprintf("all lists of up to %d formulas from a list of %d with overlapping variables, constants and constraints", l, len(pool)), seqCount(len(pool), l), func(c *C, i int) {
				fac := f.NewFactory()
				var fms []f.Formula
				d := seqAt(i, len(pool), l)
				for _, x := range d {
					fms = append(fms, mk(fac, pool[x]))
				}
				c.Key("%v", d)
				c.StateS(fmt.Sprint(d))
				checkConstraintGraph(c, fac, fms, 7, i)
			}})
			// histories on a graph
			const nodes = 4
			ops := nodes + nodes*nodes
			hl := t.pick(4, 5)
			doms = append(doms, Domain{"graph-histories", fmt.Sprintf("all histories of up to %d operations (add a node, connect two nodes) over %d nodes", hl, nodes), seqCount(ops, hl), func(c *C, i int) {
				fac := f.NewFactory()
				vars := i%2 == 0
				var ns []f.Formula
				for k := 0; k < nodes; k++ {
					if vars || k%2 == 0 {
						ns = append(ns, mkVar(fac, (k+i)%nodes).AsFormula())
					} else {
						ns = append(ns, mk(fac, eImpl(eVar(k), eLit(2*k+3))))
					}
				}
				g, ref := graph.NewFormulaGraph(), newRefGraph()
				d := seqAt(i, ops, hl)
				c.Key("%v", d)
				c.StateS(fmt.Sprint(d))
				for _, o := range d {
					if o < nodes {
						x, y := g.AddNode(ns[o]), ref.add(ns[o])
						c.Assert(x == y, "node %d has the index %d", y, x)
					} else {
						o -= nodes
						g.Connect(ns[o/nodes], ns[o%nodes])
						ref.connect(ns[o/nodes], ns[o%nodes])
					}
					c.Step()
					ref.check(c, fac, g, ns, vars)
				}
			}})
			const many = 7
			doms = append(doms, Domain{"graph-orders", fmt.Sprintf("all stars, paths and cliques over %d nodes with the edges inserted in %d rotations and directions", many, 40), 3 * 42 * 2, func(c *C, i int) {
				fac := f.NewFactory()
				var es [][2]int
				for v := 0; v < many; v++ {
					for w := 0; w < many; w++ {
						if v != w && (i%3 == 0 && v == 3 || i%3 == 1 && w == v+1 || i%3 == 2) {
							es = append(es, [2]int{v, w})
						}
					}
				}
				g, ref := graph.NewFormulaGraph(), newRefGraph()
				r := i / 3 % 42
				for k := range es {
					e := es[(k*(1+4*(r%2))+r)%len(es)]
					if i/126 == 1 {
						e[0], e[1] = e[1], e[0]
					}
					x, y := mkVar(fac, e[0]).AsFormula(), mkVar(fac, e[1]).AsFormula()
					g.Connect(x, y)
					ref.connect(x, y)
					c.Step()
				}
				c.Key("%d", i)
				c.State(uint64(i))
				ref.check(c, fac, g, nil, true)
			}})
			doms = append(doms, Domain{"graph-large", "disjoint unions of paths, cycles, stars and grids with up to 60 nodes, by constraint lists in rotated order", 4 * 20 * 6, func(c *C, i int) {
				m := mixed(i, 4, 20, 6)
				n := 3*m[1] + 3
				fac := f.NewFactory()
				var fms []f.Formula
				for v := 0; v < n; v++ {
					mkVar(fac, (v*7+i)%n)
				}
				conn := func(x, y int) {
					if x < n && y < n && x != y {
						fms = append(fms, mk(fac, eOr(eLit(2*x), eLit(2*y+1))))
					}
				}
				for v := 0; v < n; v++ {
					switch m[0] {
					case 0: // paths of length m[2]+1
						if v%(m[2]+2) != 0 {
							conn(v-1, v)
						}
					case 1: // residue classes as cycles
						conn(v, (v+m[2]+1)%n)
					case 2: // stars
						conn(v-v%(m[2]+2), v)
					case 3: // grid with constraints
						w := m[2] + 2
						if v+w < n && v%w > 0 {
							fms = append(fms, mk(fac, eCC(f.LE, 1, v, v+w, v-v%w)))
						}
					}
				}
				k := 0
				if len(fms) > 0 {
					k = (i * 5) % len(fms)
				}
				c.Key("%v", m)
				c.StateS(fmt.Sprint(m))
				checkConstraintGraph(c, fac, append(append([]f.Formula{}, fms[k:]...), fms[:k]...), n, i)
			}})
			// hypergraphs
			hyper := func(name, bound string, cs CNFSpace) {
				doms = append(doms, Domain{"hypergraph-" + name, bound, cs.N, func(c *C, i int) {
					cls := cs.At(i)
					c.Key("%v", cls)
					c.StateS(fmt.Sprint(cls))
					fac := f.NewFactory()
					for v := 0; v < cs.Vars && i%2 == 1; v++ {
						mkVar(fac, cs.Vars-1-v)
					}
					var fms []f.Formula
					for _, cl := range cls {
						fms = append(fms, fac.Clause(mkLits(fac, cl)...))
					}
					if i%7 == 0 {
						fms = append(fms, fac.Verum())
					}
					hg, err := graph.HypergraphFromClauses(fac, fms...)
					c.Step()
					c.Assert(err == nil, "clauses are refused: %v", err)
					checkHypergraph(c, fac, hg, fms, i)
					cnf := fac.And(fms...)
					conj := []f.Formula{cnf}
					if cnf.Sort() == f.SortAnd {
						conj = fac.Operands(cnf)
					}
					hg, err = graph.HypergraphFromCNF(fac, cnf)
					c.Step()
					c.Assert(err == nil, "the CNF %s is refused: %v", cnf.Sprint(fac), err)
					checkHypergraph(c, fac, hg, conj, i)
					c.Outcome(fmt.Sprintf("hypergraph with %d edges", len(hg.Edges)))
				}})
			}
			hyper("3", fmt.Sprintf("all sets of up to %d clauses over three variables", t.pick(4, 5)), clauseSets(3, 3, 0, t.pick(4, 5)))
			hyper("4", fmt.Sprintf("all sets of up to %d clauses over four variables", t.pick(2, 3)), clauseSets(4, 4, 0, t.pick(2, 3)))
			l2 := level(level(litAtoms(2, false)))
			st := 1
			ca := constraintAtoms(3)
			forms := union(stride(l2, st), level(litAtoms(3, true)), ca, binary(litAtoms(2, false), ca))
			doms = append(doms, Domain{"hypergraph-inputs", "formulas of two levels and constraints as input: refused exactly when not in (clausal) normal form", forms.N, func(c *C, i int) {
				e := forms.At(i)
				c.Key("%s", e)
				c.StateS(e.String())
				fac := f.NewFactory()
				fm := mk(fac, e)
				clause := isClause(fac, fm)
				cnf := clause
				conj := []f.Formula{fm}
				if fm.Sort() == f.SortAnd {
					conj = fac.Operands(fm)
					cnf = true
					for _, o := range conj {
						cnf = cnf && isClause(fac, o)
					}
				}
				other := fac.Clause(mkLits(fac, []int{0, 9})...)
				hg, err := graph.HypergraphFromClauses(fac, other, fm)
				c.Step()
				c.Assert((err == nil) == clause, "%s as clause: error %v", fm.Sprint(fac), err)
				if clause {
					checkHypergraph(c, fac, hg, []f.Formula{other, fm}, i)
				}
				hg, err = graph.HypergraphFromCNF(fac, fm)
				c.Step()
				c.Assert((err == nil) == cnf, "%s as CNF: error %v", fm.Sprint(fac), err)
				if cnf {
					checkHypergraph(c, fac, hg, conj, i)
				}
				c.Outcome(fmt.Sprintf("clause %v CNF %v", clause, cnf))
			}})
			// set covers
			var subs [][]int
			for m := 0; m < 16; m++ {
				subs = append(subs, bitsOf(uint64(m)))
			}
			ml := t.pick(4, 5)
			doms = append(doms, Domain{"cover-lists", fmt.Sprintf("all lists of up to %d subsets of a universe of four (with the empty set and repeated sets)", ml), seqCount(16, ml), func(c *C, i int) {
				sets := [][]int{}
				for _, x := range seqAt(i, 16, ml) {
					sets = append(sets, subs[x])
				}
				checkCover(c, sets, i)
			}})
			doms = append(doms, Domain{"cover-families", "all families of non-empty subsets of a universe of three, with repeated elements", 128, func(c *C, i int) {
				sets := [][]int{}
				for m := 1; m < 8; m++ {
					if i>>uint(m-1)&1 == 1 {
						s := append([]int{}, subs[m]...)
						if (m+i)%2 == 0 {
							s = append(s, s[0])
						}
						sets = append(sets, s)
					}
				}
				checkCover(c, sets, i)
			}})
			for _, n := range []int{5, 6, 7} {
				for k := 2; k <= 4; k++ {
					offs := offsets(n, k)
					doms = append(doms, Domain{fmt.Sprintf("cover-circulant-%d-%d", n, k), fmt.Sprintf("all rotations of each %d-subset of a universe of %d, together with every further pair", k, n), len(offs) * n * n, func(c *C, i int) {
						m := mixed(i, len(offs), n, n)
						var sets [][]int
						for r := 0; r < n; r++ {
							var s []int
							for _, o := range offs[m[0]] {
								s = append(s, (o+r)%n)
							}
							sets = append(sets, s)
						}
						sets = append(sets, []int{m[1], m[2]})
						checkCover(c, sets, i)
					}})
				}
			}
			return doms
		},
	})
}

func isClause(fac f.Factory, fm f.Formula) bool {
	switch fm.Sort() {
	case f.SortTrue, f.SortFalse, f.SortLiteral:
		return true
	case f.SortOr:
		for _, o := range fac.Operands(fm) {
			if o.Sort() != f.SortLiteral {
				return false
			}
		}
		return true
	}
	return false
}
