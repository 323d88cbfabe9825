package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/graphical"
)

// ------------------------------------------------------------ model of a drawing

type nstyle struct {
	shape             graphical.Shape
	stroke, text, bck string
}

func (s nstyle) make() *graphical.NodeStyle {
	a, b, d := graphical.Color(s.stroke), graphical.Color(s.text), graphical.Color(s.bck)
	switch s.shape {
	case graphical.ShapeRectangle:
		return graphical.Rectangle(a, b, d)
	case graphical.ShapeCircle:
		return graphical.Circle(a, b, d)
	case graphical.ShapeEllipse:
		return graphical.Ellipse(a, b, d)
	}
	return graphical.NewNodeStyle(s.shape, a, b, d)
}

type estyle struct {
	typ   graphical.EdgeType
	color string
}

func (s estyle) make() *graphical.EdgeStyle {
	switch s.typ {
	case graphical.EdgeSolid:
		return graphical.Solid(graphical.Color(s.color))
	case graphical.EdgeDotted:
		return graphical.Dotted(graphical.Color(s.color))
	case graphical.EdgeBold:
		return graphical.Bold(graphical.Color(s.color))
	}
	return graphical.NewEdgeStyle(s.typ, graphical.Color(s.color))
}

type gnode struct {
	label    string
	style    nstyle
	terminal bool
}

type gedge struct {
	src, dst int
	label    string
	style    estyle
}

// drawing: nodes and edges; terminals are only known for aligned DOT texts
type drawing struct {
	directed, aligned bool
	bg                string
	ids               []string
	nodes             []gnode
	edges             []gedge
}

var (
	reDotNode  = regexp.MustCompile(`^(\w+) \[(.*)\];?$`)
	reDotEdge  = regexp.MustCompile(`^(\w+) (->|--) (\w+)(?: \[(.*)\])?;?$`)
	reMermNode = regexp.MustCompile(`^(\w+)(\[|\(\(|\(\[)"(.*)"(\]|\)\)|\]\))$`)
	reMermEdge = regexp.MustCompile(`^(\w+) (-->|---)(?:\|"(.*)"\|)? (\w+)$`)
	reAttr     = regexp.MustCompile(`^(\w+)=("([^"]*)"|\w+)(, *|$)`)
)

func dotAttrs(c *C, s string) map[string]string {
	m := map[string]string{}
	for s != "" {
		g := reAttr.FindStringSubmatch(s)
		if g == nil {
			c.Failf("malformed attributes %q", s)
		}
		v := g[2]
		if v[0] == '"' {
			v = g[3]
		}
		if _, ok := m[g[1]]; ok {
			c.Failf("attribute %s twice", g[1])
		}
		m[g[1]] = v
		s = s[len(g[0]):]
	}
	return m
}

func parseDot(c *C, text string) *drawing {
	d := &drawing{}
	idx := map[string]int{}
	lines := strings.Split(text, "\n")
	switch strings.TrimSpace(lines[0]) {
	case "digraph G {":
		d.directed = true
	case "strict graph {":
	default:
		c.Failf("first line %q", lines[0])
	}
	rank, closed := false, false
	for _, l := range lines[1:] {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if closed {
			c.Failf("text after the end: %q", l)
		}
		if strings.HasPrefix(l, "bgcolor=") {
			c.Assert(d.bg == "", "two background colors")
			d.bg = dotAttrs(c, l)["bgcolor"]
			continue
		}
		if l == "{ rank = same;" {
			c.Assert(!d.aligned, "two alignments")
			rank, d.aligned = true, true
			continue
		}
		if l == "}" {
			if rank {
				rank = false
			} else {
				closed = true
			}
			continue
		}
		if g := reDotEdge.FindStringSubmatch(l); g != nil {
			src, ok1 := idx[g[1]]
			dst, ok2 := idx[g[3]]
			c.Assert(ok1 && ok2, "edge between undeclared nodes: %s", l)
			c.Assert(d.directed == (g[2] == "->"), "wrong edge operator in %s", l)
			a := dotAttrs(c, g[4])
			e := gedge{src: src, dst: dst, label: a["label"], style: estyle{color: a["color"]}}
			c.Assert(a["fontcolor"] == a["color"], "colors of %s", l)
			switch a["style"] {
			case "solid":
				e.style.typ = graphical.EdgeSolid
			case "dotted":
				e.style.typ = graphical.EdgeDotted
			case "bold":
				e.style.typ = graphical.EdgeBold
			case "":
			default:
				c.Failf("style of %s", l)
			}
			d.edges = append(d.edges, e)
			continue
		}
		g := reDotNode.FindStringSubmatch(l)
		if g == nil {
			c.Failf("malformed line %q", l)
		}
		if _, ok := idx[g[1]]; ok {
			c.Failf("node %s twice", g[1])
		}
		idx[g[1]] = len(d.nodes)
		d.ids = append(d.ids, g[1])
		a := dotAttrs(c, g[2])
		n := gnode{label: a["label"], terminal: rank, style: nstyle{stroke: a["color"], text: a["fontcolor"], bck: a["fillcolor"]}}
		c.Assert((a["style"] == "filled") == (a["fillcolor"] != ""), "fill of %s", l)
		switch a["shape"] {
		case "box":
			n.style.shape = graphical.ShapeRectangle
		case "circle":
			n.style.shape = graphical.ShapeCircle
		case "ellipse":
			n.style.shape = graphical.ShapeEllipse
		case "":
		default:
			c.Failf("shape of %s", l)
		}
		d.nodes = append(d.nodes, n)
	}
	c.Assert(closed, "the text does not end")
	return d
}

func parseMermaid(c *C, text string) *drawing {
	d := &drawing{directed: true}
	idx := map[string]int{}
	styled := map[string]bool{}
	lines := strings.Split(text, "\n")
	c.Assert(strings.TrimSpace(lines[0]) == "graph TD", "first line %q", lines[0])
	for k, l := range lines[1:] {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		attrs := func(s string) map[string]string {
			m := map[string]string{}
			for _, p := range strings.Split(s, ",") {
				kv := strings.SplitN(p, ":", 2)
				if len(kv) != 2 || kv[1] == "" || m[kv[0]] != "" {
					c.Failf("malformed style %q", s)
				}
				m[kv[0]] = kv[1]
			}
			return m
		}
		if rest, ok := strings.CutPrefix(l, "style "); ok {
			p := strings.SplitN(rest, " ", 2)
			i, known := idx[p[0]]
			c.Assert(known && len(p) == 2 && !styled[p[0]], "line %d: style of an unknown node or twice: %q", k, l)
			styled[p[0]] = true
			m := attrs(p[1])
			d.nodes[i].style.stroke, d.nodes[i].style.text, d.nodes[i].style.bck = m["stroke"], m["color"], m["fill"]
			continue
		}
		if rest, ok := strings.CutPrefix(l, "linkStyle "); ok {
			p := strings.SplitN(rest, " ", 2)
			i, err := strconv.Atoi(p[0])
			if err != nil || i < 0 || i >= len(d.edges) || styled[l[:9]+p[0]] || len(p) != 2 {
				c.Failf("line %d: style of an unknown edge or twice: %q", k, l)
			}
			styled[l[:9]+p[0]] = true
			m := attrs(p[1])
			d.edges[i].style.color = m["stroke"]
			switch m["stroke-width"] + "/" + m["stroke-dasharray"] {
			case "2/":
				d.edges[i].style.typ = graphical.EdgeSolid
			case "4/":
				d.edges[i].style.typ = graphical.EdgeBold
			case "2/3":
				d.edges[i].style.typ = graphical.EdgeDotted
			case "/":
			default:
				c.Failf("style %q", l)
			}
			continue
		}
		if g := reMermEdge.FindStringSubmatch(l); g != nil {
			src, ok1 := idx[g[1]]
			dst, ok2 := idx[g[4]]
			c.Assert(ok1 && ok2, "edge between undeclared nodes: %s", l)
			if g[2] == "---" {
				d.directed = false
			}
			c.Assert(d.directed == (g[2] == "-->"), "mixed edges")
			d.edges = append(d.edges, gedge{src: src, dst: dst, label: g[3]})
			continue
		}
		g := reMermNode.FindStringSubmatch(l)
		if g == nil {
			c.Failf("malformed line %q", l)
		}
		if _, ok := idx[g[1]]; ok {
			c.Failf("node %s twice", g[1])
		}
		idx[g[1]] = len(d.nodes)
		d.ids = append(d.ids, g[1])
		n := gnode{label: g[3]}
		switch g[2] + g[4] {
		case "[]":
			n.style.shape = graphical.ShapeRectangle
		case "(())":
			n.style.shape = graphical.ShapeCircle
		case "([])":
			n.style.shape = graphical.ShapeEllipse
		default:
			c.Failf("brackets of %q", l)
		}
		d.nodes = append(d.nodes, n)
	}
	return d
}

// mermaid is what the drawing can look like in Mermaid: ellipses are the default, no background, no alignment
func (d *drawing) mermaid() *drawing {
	r := *d
	r.nodes = append([]gnode{}, d.nodes...)
	for i := range r.nodes {
		if r.nodes[i].style.shape == graphical.ShapeDefault {
			r.nodes[i].style.shape = graphical.ShapeEllipse
		}
		r.nodes[i].terminal = false
	}
	r.bg, r.aligned = "", false
	if len(r.edges) == 0 {
		r.directed = true
	}
	return &r
}

func (d *drawing) String() string {
	return fmt.Sprintf("directed %v aligned %v background %q nodes %v edges %v", d.directed, d.aligned, d.bg, d.nodes, d.edges)
}

// unfold describes every node by the tree below it (acyclic drawings); neighbours for undirected ones
func (d *drawing) unfold(c *C) []string {
	out := make([][]int, len(d.nodes))
	for i, e := range d.edges {
		out[e.src] = append(out[e.src], i)
	}
	memo, busy := make([]string, len(d.nodes)), make([]bool, len(d.nodes))
	var rec func(v int) string
	rec = func(v int) string {
		if memo[v] != "" {
			return memo[v]
		}
		c.Assert(!busy[v], "the drawing contains a cycle")
		busy[v] = true
		var ch []string
		for _, i := range out[v] {
			e := d.edges[i]
			ch = append(ch, fmt.Sprintf("%q%v->%s", e.label, e.style, rec(e.dst)))
		}
		sort.Strings(ch)
		memo[v] = fmt.Sprintf("%q%v%v%v", d.nodes[v].label, d.nodes[v].style, d.nodes[v].terminal, ch)
		return memo[v]
	}
	for v := range d.nodes {
		rec(v)
	}
	return memo
}

// same compares drawings up to the order and the names of the nodes.
func (d *drawing) same(c *C, what string, w *drawing) {
	c.Assert(d.directed == w.directed, "%s: directed is %v", what, d.directed)
	c.Assert(d.bg == w.bg, "%s: background is %q, must be %q", what, d.bg, w.bg)
	c.Assert(d.aligned == w.aligned, "%s: alignment is %v", what, d.aligned)
	c.Assert(len(d.nodes) == len(w.nodes), "%s: %d nodes, must be %d", what, len(d.nodes), len(w.nodes))
	c.Assert(len(d.edges) == len(w.edges), "%s: %d edges, must be %d", what, len(d.edges), len(w.edges))
	var a, b []string
	if d.directed {
		a, b = d.unfold(c), w.unfold(c)
	} else { // the labels of the nodes are different
		describe := func(d *drawing) (r []string) {
			seen := map[string]bool{}
			for _, n := range d.nodes {
				c.Assert(!seen[n.label], "label %s twice", n.label)
				seen[n.label] = true
				r = append(r, fmt.Sprint(n))
			}
			for _, e := range d.edges {
				x, y := d.nodes[e.src].label, d.nodes[e.dst].label
				if x > y {
					x, y = y, x
				}
				r = append(r, fmt.Sprintf("%s--%s %q %v", x, y, e.label, e.style))
			}
			return
		}
		a, b = describe(d), describe(w)
	}
	sort.Strings(a)
	sort.Strings(b)
	for i := range a {
		c.Assert(a[i] == b[i], "%s contains %s, must contain %s", what, a[i], b[i])
	}
	indegree := func(d *drawing) (r []int) {
		r = make([]int, len(d.nodes))
		for _, e := range d.edges {
			r[e.dst]++
		}
		sort.Ints(r)
		return
	}
	if d.directed {
		c.Assert(fmt.Sprint(indegree(d)) == fmt.Sprint(indegree(w)), "%s: incoming edges per node %v, must be %v", what, indegree(d), indegree(w))
	}
}

// checkDrawing: both texts of the representation describe the drawing; writing does not change the representation.
func checkDrawing(c *C, rep *graphical.Representation, want *drawing, i int) {
	w := *want
	if !w.aligned {
		w.nodes = append([]gnode{}, want.nodes...)
		for k := range w.nodes {
			w.nodes[k].terminal = false
		}
	}
	write := func(k int) {
		c.Step()
		if k%2 == 0 {
			parseDot(c, graphical.WriteDotToString(rep)).same(c, "DOT", &w)
		} else {
			parseMermaid(c, graphical.WriteMermaidToString(rep)).same(c, "Mermaid", want.mermaid())
		}
	}
	write(i)
	write(i + 1)
	if i%4 == 0 {
		write(i)
	}
	terms := 0
	for _, n := range want.nodes {
		if n.terminal {
			terms++
		}
	}
	c.Assert(len(rep.Nodes()) == len(want.nodes) && len(rep.TerminalNodes()) == terms && len(rep.NonTerminalNodes()) == len(want.nodes)-terms,
		"the representation has %d nodes, %d of them terminal; must have %d and %d", len(rep.Nodes()), len(rep.TerminalNodes()), len(want.nodes), terms)
	c.Outcome(fmt.Sprintf("drawings with %d nodes", min(len(want.nodes), 12)))
}

var (
	nstyles = []nstyle{{}, {graphical.ShapeRectangle, "#ea2027", "", ""}, {graphical.ShapeCircle, "", "#004f93", "#ffffff"}, {graphical.ShapeEllipse, "#000000", "#ffc612", "#777777"}, {graphical.ShapeDefault, "", "", "#123456"}, {graphical.ShapeRectangle, "", "", ""}, {graphical.ShapeDefault, "", "#00ff00", ""}}
	estyles = []estyle{{}, {graphical.EdgeSolid, "#ea2027"}, {graphical.EdgeDotted, ""}, {graphical.EdgeBold, "#004f93"}, {graphical.EdgeDefault, "#009432"}, {graphical.EdgeDotted, "#ffc612"}, {graphical.EdgeSolid, ""}}
)

// gconf is a configuration of a generator; num identifies contents.
type gconf struct {
	kind int
	num  func(f.Formula) int
}

const gconfs = 5

func (g gconf) generator() *graphical.Generator[f.Formula] {
	switch g.kind {
	case 0:
		return f.DefaultFormulaGraphicalGenerator()
	case 1:
		return &graphical.Generator[f.Formula]{BackgroundColor: graphical.ColorBlue, AlignTerminals: true, DefaultNodeStyle: nstyles[3].make(), DefaultEdgeStyle: estyles[3].make()}
	case 2, 3:
		gen := &graphical.Generator[f.Formula]{AlignTerminals: g.kind == 3,
			DefaultNodeStyle: nstyles[3].make(), DefaultEdgeStyle: estyles[3].make(),
			ComputeNodeStyle: func(x f.Formula) *graphical.NodeStyle { return g.node(x).make() },
			ComputeEdgeStyle: func(x, y f.Formula) *graphical.EdgeStyle { return g.edge(x, y).make() }}
		if g.kind == 3 {
			gen.ComputeLabel = func(x f.Formula) string { return fmt.Sprintf("number %d", g.num(x)) }
		}
		return gen
	}
	return &graphical.Generator[f.Formula]{}
}

func (g gconf) node(x f.Formula) nstyle {
	switch g.kind {
	case 1:
		return nstyles[3]
	case 2, 3:
		return nstyles[g.num(x)%len(nstyles)]
	}
	return nstyle{}
}

func (g gconf) edge(x, y f.Formula) estyle {
	switch g.kind {
	case 1:
		return estyles[3]
	case 2, 3:
		return estyles[(3*g.num(x)+g.num(y))%len(estyles)]
	}
	return estyle{}
}

func (g gconf) label(x f.Formula, s string) string {
	if g.kind == 3 {
		return fmt.Sprintf("number %d", g.num(x))
	}
	return s
}

func (g gconf) drawing(directed bool) *drawing {
	d := &drawing{directed: directed, aligned: directed && (g.kind == 1 || g.kind == 3)}
	if g.kind == 1 {
		d.bg = "#004f93"
	}
	return d
}

func litText(fac f.Factory, l f.Literal) string {
	name, phase, _ := fac.LitNamePhase(l)
	if !phase {
		name = "¬" + name
	}
	return name
}

// formulaDrawing: the expected drawing of a formula as tree or with shared nodes.
func formulaDrawing(fac f.Factory, fm f.Formula, g gconf, dag bool) *drawing {
	d := g.drawing(true)
	known := map[f.Formula]int{}
	add := func(x f.Formula, label string, terminal bool) (int, bool) {
		if dag {
			if i, ok := known[x]; ok {
				return i, true
			}
		}
		if !dag || x.Sort() != f.SortLiteral { // literals keep their own label in a DAG
			label = g.label(x, label)
		}
		d.nodes = append(d.nodes, gnode{label, g.node(x), terminal})
		known[x] = len(d.nodes) - 1
		return len(d.nodes) - 1, false
	}
	var rec func(x f.Formula) int
	rec = func(x f.Formula) int {
		var ops []f.Formula
		var label string
		terminal := false
		labels := []string{"", ""}
		switch x.Sort() {
		case f.SortFalse:
			label, terminal = "$false", true
		case f.SortTrue:
			label, terminal = "$true", true
		case f.SortLiteral:
			l, _ := x.AsLiteral()
			label, terminal = litText(fac, l), true
		case f.SortNot:
			op, _ := fac.NotOperand(x)
			label, ops = "¬", []f.Formula{op}
		case f.SortImpl, f.SortEquiv:
			l, r, _ := fac.BinaryLeftRight(x)
			label, ops = "⇔", []f.Formula{l, r}
			if x.Sort() == f.SortImpl {
				label, labels = "⇒", []string{"l", "r"}
			}
		case f.SortAnd, f.SortOr:
			ops, _ = fac.NaryOperands(x)
			label = "∧"
			if x.Sort() == f.SortOr {
				label = "∨"
			}
		default:
			_, _, lits, _, _ := fac.PBCOps(x)
			label = x.Sprint(fac)
			for _, l := range lits {
				ops = append(ops, l.AsFormula())
			}
		}
		n, present := add(x, label, terminal)
		if present {
			return n
		}
		for k, op := range ops {
			o := rec(op)
			el := ""
			if len(ops) == 2 {
				el = labels[k]
			}
			d.edges = append(d.edges, gedge{n, o, el, g.edge(x, op)})
		}
		return n
	}
	rec(fm)
	return d
}

func checkFormulaDrawing(c *C, fac f.Factory, fm f.Formula, g gconf, i int) {
	nums := map[f.Formula]int{}
	g.num = func(x f.Formula) int {
		if _, ok := nums[x]; !ok {
			nums[x] = len(nums)
		}
		return nums[x]
	}
	gen := g.generator()
	ast, dag := i%2 == 0, true
	for k := 0; k < 2; k++ {
		if ast {
			checkDrawing(c, f.GenerateGraphicalFormulaAST(fac, fm, gen), formulaDrawing(fac, fm, g, false), i)
		} else if dag {
			checkDrawing(c, f.GenerateGraphicalFormulaDAG(fac, fm, gen), formulaDrawing(fac, fm, g, true), i)
		}
		ast = !ast
	}
}

// bddDrawing: the reduced ordered diagram of a truth table.
func bddDrawing(c *C, t TT, order []int, g int) *drawing {
	d := &drawing{directed: true, aligned: g == 1 || g == 3}
	ns, lo, hi := nstyle{}, estyle{}, estyle{}
	switch g {
	case 0:
		lo, hi = estyle{graphical.EdgeDotted, string(graphical.ColorRed)}, estyle{graphical.EdgeSolid, string(graphical.ColorGreen)}
	case 1:
		d.bg, ns, lo, hi = "#004f93", nstyles[3], estyles[5], estyles[3]
	}
	term := func(v bool) gnode {
		s := ns
		if g == 0 {
			col := string(graphical.ColorRed)
			if v {
				col = string(graphical.ColorGreen)
			}
			s = nstyle{graphical.ShapeRectangle, col, string(graphical.ColorWhite), col}
		}
		return gnode{fmt.Sprint(v), s, true}
	}
	known := map[string]int{}
	var rec func(t TT, k int) int
	rec = func(t TT, k int) int {
		for k < len(order) && !t.depends(order[k]) {
			k++
		}
		key := fmt.Sprint(t.w)
		if i, ok := known[key]; ok {
			return i
		}
		if k == len(order) {
			d.nodes = append(d.nodes, term(t.isTrue()))
			known[key] = len(d.nodes) - 1
			return len(d.nodes) - 1
		}
		d.nodes = append(d.nodes, gnode{vname(order[k]), ns, false})
		n := len(d.nodes) - 1
		known[key] = n
		l, h := rec(t.cof(order[k], false), k+1), rec(t.cof(order[k], true), k+1)
		d.edges = append(d.edges, gedge{n, l, "", lo}, gedge{n, h, "", hi})
		return n
	}
	rec(t, 0)
	return d
}

func bddGenerator(g int) *bdd.GraphicalGenerator {
	switch g {
	case 0:
		return bdd.DefaultGenerator()
	case 1:
		return &bdd.GraphicalGenerator{Generator: &graphical.Generator[int32]{BackgroundColor: graphical.ColorBlue, AlignTerminals: true, DefaultNodeStyle: nstyles[3].make(), DefaultEdgeStyle: estyles[3].make()}, DefaultNegativeEdgeStyle: estyles[5].make()}
	case 2, 3:
		return &bdd.GraphicalGenerator{Generator: &graphical.Generator[int32]{AlignTerminals: g == 3}}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "P30",
		Rule: "A model state is a distinct formula, diagram, graph or drawing with styles; a transition is one written text. " +
			"The texts are parsed and compared (up to names and order of nodes) with a drawing built from the structure of the formula, the reduced diagram of the truth table or the graph.",
		Assume: []string{
			"Labels do not contain quotation marks.",
			"Literals keep their own label in the shared graph of a formula.",
		},
		Domains: func(t Tier) []Domain {
			var doms []Domain
			fdom := func(name, bound string, sp Space, n int) {
				doms = append(doms, Domain{name, bound + fmt.Sprintf(" x %d configurations of the generator, as tree and as shared graph", gconfs), sp.N * gconfs, func(c *C, i int) {
					e := sp.At(i / gconfs)
					c.Key("%s configuration %d", e, i%gconfs)
					c.StateS(e.String())
					fac := f.NewFactory()
					for v := 0; v < n; v++ {
						mkVar(fac, (v*3+i)%n)
					}
					checkFormulaDrawing(c, fac, mk(fac, e), gconf{kind: i % gconfs}, i)
				}})
			}
			l1 := level(litAtoms(2, true))
			fdom("formulas", fmt.Sprintf("all formulas of depth 2 over two variables and constants, built from every %d-th formula of depth 1", t.pick(3, 1)), level(stride(l1, t.pick(3, 1))), 4)
			ca := union(atoms(eVar(0), eLit(3), eVar(4), eFalse, eNot(eAnd(eVar(0), eVar(1)))), constraintAtoms(4))
			fdom("constraints", "all negations, binary and ternary combinations of literals and constraints", union(ca, level(ca), nary(stride(ca, t.pick(2, 1)), 3)), 4)
			l2 := stride(level(level(litAtoms(2, false))), t.pick(997, 197))
			fdom("shared", fmt.Sprintf("binary and ternary combinations of every %d-th formula of depth 2 with shared parts", t.pick(997, 197)), union(binary(l2, stride(l2, t.pick(7, 13))), nary(stride(l2, t.pick(5, 7)), 3)), 4)
			// diagrams
			bdom := func(name string, n int, count int, at func(i int) uint64) {
				doms = append(doms, Domain{name, fmt.Sprintf("%d Boolean functions over %d variables x %d orders x 6 configurations, with other diagrams in the kernel", count, n, n), count * n * 6, func(c *C, i int) {
					g, r := i%6, i/6%n
					tt := tt6(n, at(i/6/n))
					c.Key("function %x rotation %d configuration %d", tt.w[0], r, g)
					c.State(tt.w[0] * uint64(n))
					fac := f.NewFactory()
					var vars []f.Variable
					var order []int
					for k := 0; k < n; k++ {
						v := (k*(1+i%2*(n-2)) + r) % n
						vars = append(vars, mkVar(fac, v))
						order = append(order, v)
					}
					kn := bdd.NewKernelWithOrdering(fac, vars, int32(5+i%60), int32(5+i%7))
					bdd.CompileWithKernel(fac, mk(fac, funcTerm(at(i/6/n)^0x96, n, 1)), kn)
					d := bdd.CompileWithKernel(fac, mk(fac, funcTerm(tt.w[0], n, i%3)), kn)
					bdd.CompileWithKernel(fac, mk(fac, funcTerm(tt.w[0]^0x1234, n, 0)), kn)
					if g == 5 && n > 1 {
						a, b := mkVar(fac, order[0]), mkVar(fac, order[n-1])
						if kn.SwapVariables(a, b) != nil {
							c.Failf("swap fails")
						}
						order[0], order[n-1] = order[n-1], order[0]
						g = i / 6 % 3
					}
					if g < 4 {
						checkDrawing(c, bdd.GenerateGraphical(d, bddGenerator(g)), bddDrawing(c, tt, order, g), i)
						return
					}
					// computed labels and styles: contents are numbers of nodes, only known to be consistent
					gen := &bdd.GraphicalGenerator{Generator: &graphical.Generator[int32]{
						ComputeLabel:     func(x int32) string { return fmt.Sprint(x) },
						ComputeNodeStyle: func(x int32) *graphical.NodeStyle { return nstyles[int(x)%len(nstyles)].make() },
						ComputeEdgeStyle: func(x, y int32) *graphical.EdgeStyle {
							return estyle{graphical.EdgeSolid, fmt.Sprintf("#%03d%03d", x, y)}.make()
						}},
						DefaultNegativeEdgeStyle: estyles[3].make(),
						ComputeNegativeEdgeStyle: func(x, y int32) *graphical.EdgeStyle {
							return estyle{graphical.EdgeDotted, fmt.Sprintf("#%03d%03d", x, y)}.make()
						}}
					c.Step()
					got := parseDot(c, graphical.WriteDotToString(bdd.GenerateGraphical(d, gen)))
					name := make([]int, len(got.nodes))
					seen := map[int]bool{}
					for k, x := range got.nodes {
						v, err := strconv.Atoi(x.label)
						c.Assert(err == nil && !seen[v], "label %q", x.label)
						seen[v] = true
						name[k] = v
						c.Assert(x.style == nstyles[v%len(nstyles)], "node %d has the style %v", v, x.style)
					}
					for _, e := range got.edges {
						c.Assert(e.style.color == fmt.Sprintf("#%03d%03d", name[e.src], name[e.dst]), "edge %d-%d has the color %s", name[e.src], name[e.dst], e.style.color)
					}
					// the same shape as the reduced diagram, with labels and colors removed
					want := bddDrawing(c, tt, order, 0)
					for k := range want.nodes {
						want.nodes[k] = gnode{}
					}
					for k := range want.edges {
						want.edges[k].style.color = ""
					}
					for k := range got.nodes {
						got.nodes[k] = gnode{}
					}
					for k := range got.edges {
						got.edges[k].style.color = ""
					}
					got.same(c, "DOT", want)
				}})
			}
			bdom("bdds-2", 2, 16, func(i int) uint64 { return uint64(i) })
			bdom("bdds-3", 3, 256, func(i int) uint64 { return uint64(i) })
			st := t.pick(211, 13)
			bdom("bdds-4", 4, 65536/st, func(i int) uint64 { return uint64(i * st) })
			// graphs
			for n := 2; n <= t.pick(5, 6); n++ {
				ne := n * (n - 1) / 2
				doms = append(doms, Domain{fmt.Sprintf("graphs-%d", n), fmt.Sprintf("all graphs over %d nodes (variables or formulas) x %d configurations", n, gconfs), (1 << uint(ne)) * gconfs * 2, func(c *C, i int) {
					g := gconf{kind: i % gconfs}
					bits := i / gconfs / 2
					c.Key("graph %b configuration %d", bits, g.kind)
					c.State(uint64(bits*10 + n))
					fac := f.NewFactory()
					fg := graph.NewFormulaGraph()
					var ns []f.Formula
					for v := 0; v < n; v++ {
						x := mkVar(fac, v).AsFormula()
						if i/gconfs%2 == 1 && v%2 == 1 {
							x = mk(fac, eImpl(eVar(v), eLit(2*v+3)))
						}
						ns = append(ns, x)
					}
					for v := 0; v < n; v++ {
						fg.AddNode(ns[(v+i)%n])
					}
					nums := map[f.Formula]int{}
					for v, x := range ns {
						nums[x] = v
					}
					g.num = func(x f.Formula) int { return nums[x] }
					gen := g.generator()
					if gen.ComputeEdgeStyle != nil { // no direction
						gen.ComputeEdgeStyle = func(x, y f.Formula) *graphical.EdgeStyle {
							return estyles[(nums[x]+nums[y])%len(estyles)].make()
						}
					}
					want := g.drawing(false)
					for _, x := range ns {
						want.nodes = append(want.nodes, gnode{g.label(x, x.Sprint(fac)), g.node(x), false})
					}
					k := 0
					for v := 0; v < n; v++ {
						for w := v + 1; w < n; w++ {
							if bits>>uint(k)&1 == 1 {
								if k%2 == 0 {
									fg.Connect(ns[v], ns[w])
								} else {
									fg.Connect(ns[w], ns[v])
								}
								s := g.edge(ns[v], ns[w])
								if gen.ComputeEdgeStyle != nil {
									s = estyles[(v+w)%len(estyles)]
								}
								want.edges = append(want.edges, gedge{v, w, "", s})
							}
							k++
						}
					}
					checkDrawing(c, graph.GenerateGraphicalFormulaGraph(fac, fg, gen), want, i)
				}})
			}
			// representations built directly: all styles
			var allN []nstyle
			for s := graphical.ShapeDefault; s <= graphical.ShapeCircle; s++ {
				for k := 0; k < 8; k++ {
					st := nstyle{shape: s}
					if k&1 != 0 {
						st.stroke = "#010203"
					}
					if k&2 != 0 {
						st.text = "red"
					}
					if k&4 != 0 {
						st.bck = "#0405ff"
					}
					allN = append(allN, st)
				}
			}
			var allE []estyle
			for k := graphical.EdgeDefault; k <= graphical.EdgeBold; k++ {
				allE = append(allE, estyle{k, ""}, estyle{k, "#0a0b0c"})
			}
			labs := []string{"", "l"}
			nn, en := len(allN), len(allE)
			doms = append(doms, Domain{"styles", "two nodes with all pairs of node styles x all edge styles x edge labels x direction x alignment x background", nn * nn * en * 2 * 8, func(c *C, i int) {
				m := mixed(i, 2, 2, 2, 2, en, nn, nn)
				w := &drawing{directed: m[0] == 1, aligned: m[1] == 1}
				if m[2] == 1 {
					w.bg = "#e4e4e4"
				}
				w.nodes = []gnode{{"x, [y]", allN[m[5]], m[3] == 1}, {"a <= (b)", allN[m[6]], (i/7)%2 == 1}}
				w.edges = []gedge{{0, 1, labs[m[3]], allE[m[4]]}}
				c.State(uint64(i))
				c.Key("%d", i)
				rep := graphical.NewGraphicalRepresentation(w.aligned, w.directed, graphical.Color(w.bg))
				x := graphical.NewNode("n1", w.nodes[0].label, w.nodes[0].style.make(), w.nodes[0].terminal)
				y := graphical.NewNode("k2", w.nodes[1].label, w.nodes[1].style.make(), w.nodes[1].terminal)
				rep.AddNode(x, y)
				if m[3] == 0 {
					rep.AddEdge(graphical.NewEdge(x, y, w.edges[0].style.make()))
				} else {
					rep.AddEdge(graphical.NewEdge(x, y, w.edges[0].style.make(), labs[m[3]]))
				}
				checkDrawing(c, rep, w, i)
				c.Assert(w.nodes[0].style.make().HasStyle() == (w.nodes[0].style != nstyle{}), "HasStyle of %v", w.nodes[0].style)
				c.Assert(w.edges[0].style.make().HasStyle() == (w.edges[0].style != estyle{}), "HasStyle of %v", w.edges[0].style)
			}})
			// histories: nodes and edges added between writing
			hl := t.pick(5, 7)
			doms = append(doms, Domain{"histories", fmt.Sprintf("all sequences of %d steps of adding styled nodes, adding edges from the oldest or second to the newest node, and writing", hl), pow(6, hl) * 4, func(c *C, i int) {
				w := &drawing{directed: true, aligned: i%2 == 1}
				rep := graphical.NewGraphicalRepresentation(w.aligned, true, "")
				var ns []*graphical.Node
				d := digits(i/4, 6, hl)
				c.Key("%v", d)
				c.StateS(fmt.Sprint(d))
				for k, o := range d {
					switch o {
					case 0, 1:
						st := nstyles[(k+o+i)%len(nstyles)]
						n := graphical.NewNode(fmt.Sprintf("id%d", len(ns)), fmt.Sprint(len(ns)), st.make(), o == 1)
						w.nodes = append(w.nodes, gnode{fmt.Sprint(len(ns)), st, o == 1})
						ns = append(ns, n)
						rep.AddNode(n)
					case 2, 3, 4:
						src, dst := o-2, len(ns)-1
						if o == 4 {
							src = len(ns) - 2
						}
						if src < 0 || src >= dst {
							break
						}
						st := estyles[(k*2+i/2)%len(estyles)]
						rep.AddEdge(graphical.NewEdge(ns[src], ns[dst], st.make(), labs[k%2]))
						w.edges = append(w.edges, gedge{src, dst, labs[k%2], st})
					case 5:
						checkDrawing(c, rep, w, k+i)
					}
				}
				checkDrawing(c, rep, w, i)
			}})
			// faults
			fl := atoms(eTrue, eVar(0), eNot(eAnd(eVar(0), eVar(1))), eImpl(eVar(0), eOr(eVar(1), eLit(5))), eEquiv(eVar(0), eCC(f.LE, 1, 0, 1, 2)), eAnd(eOr(eVar(0), eLit(3)), ePBC(f.GE, 2, []int{2, -3}, []int{0, 5})))
			doms = append(doms, Domain{"faults", "writing 6 formulas in all configurations with an error at every position of the text; files", fl.N * gconfs * 4, func(c *C, i int) {
				m := mixed(i, 2, 2, gconfs, fl.N)
				e := fl.At(m[3])
				c.Key("%s configuration %d format %d", e, m[2], m[0])
				c.StateS(e.String())
				fac := f.NewFactory()
				g := gconf{kind: m[2], num: func(f.Formula) int { return 1 }}
				rep := f.GenerateGraphicalFormulaAST(fac, mk(fac, e), g.generator())
				text := graphical.WriteDotToString(rep)
				toFile, toName := graphical.WriteDotToFile, graphical.WriteDotToFileName
				if m[0] == 1 {
					text = graphical.WriteMermaidToString(rep)
					toFile, toName = graphical.WriteMermaidToFile, graphical.WriteMermaidToFileName
				}
				if m[1] == 0 {
					faults(c, text, func(w *failingWriter) error {
						if m[0] == 1 {
							return graphical.WriteMermaidToWriter(w, rep)
						}
						return graphical.WriteDotToWriter(w, rep)
					})
					return
				}
				scratch(c, func(dir string) {
					name := filepath.Join(dir, "a.txt")
					put(c, name, strings.Repeat("old ", 2000))
					c.Assert(toName(name, rep) == nil && get(c, name) == text, "the file differs from the string")
					name = filepath.Join(dir, "b.txt")
					file, err := os.Create(name)
					c.Assert(err == nil, "scratch file: %v", err)
					c.Assert(toFile(file, rep) == nil && get(c, name) == text, "the file differs from the string")
					c.Assert(toName(filepath.Join(dir, "missing", "a.txt"), rep) != nil, "no error for a missing directory")
					c.Assert(toFile(file, rep) != nil, "no error for a closed file")
					var b bytes.Buffer
					if m[0] == 1 {
						err = graphical.WriteMermaidToWriter(&b, rep)
					} else {
						err = graphical.WriteDotToWriter(&b, rep)
					}
					c.Assert(err == nil && b.String() == text, "the written text differs from the string")
					c.Step()
				})
			}})
			vals := []int{-256, -1, 0, 1, 9, 10, 15, 16, 17, 99, 127, 128, 159, 160, 254, 255, 256, 1000}
			doms = append(doms, Domain{"colors", "all triples of boundary values", pow(len(vals), 3), func(c *C, i int) {
				d := digits(i, len(vals), 3)
				r, g, b := vals[d[0]], vals[d[1]], vals[d[2]]
				c.Key("%d %d %d", r, g, b)
				c.State(uint64(i))
				col, err := graphical.ColorFromRgb(r, g, b)
				c.Step()
				ok := min(r, g, b) >= 0 && max(r, g, b) <= 255
				c.Assert((err == nil) == ok, "error %v", err)
				c.Assert(!ok || string(col) == fmt.Sprintf("#%06x", (r*256+g)*256+b), "color %s", col)
				c.Assert(!ok || graphical.ColorFromHex(string(col)) == col, "color %s", col)
			}})
			return doms
		},
	})
}
