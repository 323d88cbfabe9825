package main

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/booleworks/logicng-go/bdd"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/normalform"
)

// ---------------------------------------------------------------- reference diagram

// refDiag is the reduced ordered diagram of a truth table, described by numbers.
type refDiag struct {
	nodes        map[int]int // nodes per variable
	total        int
	one, zero    int // paths
	atT, atF     int // literals of the expansions along the paths to true and to false
	order        []int
	memo         map[string][4]int
	dontCareDown map[string]bool
}

func newRefDiag(t TT, order []int) *refDiag {
	r := &refDiag{nodes: map[int]int{}, order: order, memo: map[string][4]int{}}
	x := r.rec(t, 0)
	r.one, r.zero, r.atT, r.atF = x[0], x[1], x[2], x[3]
	return r
}

func (r *refDiag) rec(t TT, level int) [4]int {
	if t.isFalse() {
		return [4]int{0, 1, 0, 0}
	}
	if t.isTrue() {
		return [4]int{1, 0, 0, 0}
	}
	for !t.depends(r.order[level]) {
		level++
	}
	key := t.String()
	if x, ok := r.memo[key]; ok {
		return x
	}
	v := r.order[level]
	lo, hi := t.cof(v, false), t.cof(v, true)
	l, h := r.rec(lo, level+1), r.rec(hi, level+1)
	x := [4]int{l[0] + h[0], l[1] + h[1]}
	for _, s := range []struct {
		t TT
		x [4]int
	}{{lo, l}, {hi, h}} {
		if !s.t.isFalse() {
			x[2] += 1 + s.x[2]
		}
		if !s.t.isTrue() {
			x[3] += 1 + s.x[3]
		}
	}
	r.nodes[v]++
	r.total++
	r.memo[key] = x
	return x
}

// ---------------------------------------------------------------- kernel machine

type bddItem struct {
	b    *bdd.BDD
	tt   TT
	what string
}

// bddM drives one kernel in lockstep with truth tables.
type bddM struct {
	c       *C
	fac     f.Factory
	kn      *bdd.Kernel
	n       int
	vars    []f.Variable
	items   []bddItem
	order   []int // expected order (nil: any permutation)
	log     []string
	blocks  []block
	swapped bool
}

type block struct {
	first, last int
	fixed       bool
}

func newBddM(c *C, n int, order []int, nodeSize, cacheSize int32) *bddM {
	m := &bddM{c: c, fac: f.NewFactory(), n: n}
	m.vars = mkVars(m.fac, n)
	ov := make([]f.Variable, len(order))
	for i, v := range order {
		ov[i] = m.vars[v]
	}
	m.order = append([]int{}, order...)
	m.kn = bdd.NewKernelWithOrdering(m.fac, ov, nodeSize, cacheSize)
	m.logf("kernel with order %v, %d nodes, cache %d", order, nodeSize, cacheSize)
	return m
}

func (m *bddM) logf(format string, args ...any) {
	m.log = append(m.log, fmt.Sprintf(format, args...))
	if len(m.log) > 30 {
		m.log = m.log[len(m.log)-30:]
	}
	m.c.Logf(format, args...)
}

func (m *bddM) assert(ok bool, format string, args ...any) {
	if !ok {
		m.c.Failf("%s; history: %v", fmt.Sprintf(format, args...), m.log)
	}
}

// put registers a result and compares it with its truth table and with all other diagrams.
func (m *bddM) put(b *bdd.BDD, t TT, format string, args ...any) int {
	m.c.Step()
	what := fmt.Sprintf(format, args...)
	m.logf("b%d = %s", len(m.items), what)
	m.assert(b != nil && b.Kernel == m.kn, "no diagram of the kernel")
	m.items = append(m.items, bddItem{b, t, what})
	m.checkAll()
	return len(m.items) - 1
}

func (m *bddM) checkAll() {
	for i, x := range m.items {
		got := m.read(x.b)
		m.assert(got.eq(x.tt), "b%d (%s) represents %s instead of %s", i, x.what, got, x.tt)
		for j, y := range m.items[:i] {
			m.assert((x.b.Index == y.b.Index) == x.tt.eq(y.tt), "b%d and b%d have the nodes %d and %d, their functions are %s and %s", j, i, y.b.Index, x.b.Index, y.tt, x.tt)
		}
	}
}

// read evaluates the diagram from its node representation.
func (m *bddM) read(b *bdd.BDD) TT {
	memo := map[bdd.Node]TT{}
	var rec func(nd bdd.Node, depth int) TT
	rec = func(nd bdd.Node, depth int) TT {
		if t, ok := memo[nd]; ok {
			return t
		}
		m.assert(depth <= m.n, "a path longer than the number of variables")
		var t TT
		if nd.InnerNode() {
			v := bddVar(nd.Label())
			m.assert(v >= 0 && v < m.n, "unknown label %q", nd.Label())
			lo, hi := rec(nd.Low(), depth+1), rec(nd.High(), depth+1)
			x := ttVar(m.n, v)
			t = x.and(hi).or(x.not().and(lo))
		} else {
			t = ttConst(m.n, nd.Label() == "$true")
		}
		memo[nd] = t
		return t
	}
	return rec(b.NodeRepresentation(), 0)
}

func (m *bddM) currentOrder() []int {
	if len(m.items) == 0 {
		return m.order
	}
	vo := m.items[0].b.VariableOrder()
	m.assert(len(vo) == m.n, "the variable order has %d variables, there are %d", len(vo), m.n)
	res := make([]int, m.n)
	seen := 0
	for i, v := range vo {
		name, _ := m.fac.VarName(v)
		x := bddVar(name)
		m.assert(x >= 0 && x < m.n && seen>>uint(x)&1 == 0, "the variable order %v is no permutation", vo)
		seen |= 1 << uint(x)
		res[i] = x
	}
	if m.order != nil {
		m.assert(fmt.Sprint(res) == fmt.Sprint(m.order), "the variable order is %v, must be %v", res, m.order)
	}
	return res
}

func (m *bddM) compile(e *E) int {
	return m.put(bdd.CompileWithKernel(m.fac, mk(m.fac, e), m.kn), ttOfE(e, m.n), "%v", e)
}

func (m *bddM) not(i int) int {
	return m.put(m.items[i].b.Negate(), m.items[i].tt.not(), "not b%d", i)
}

func (m *bddM) bin(op, i, j int) int {
	x, y := m.items[i], m.items[j]
	switch op {
	case 0:
		return m.put(x.b.And(y.b), x.tt.and(y.tt), "b%d and b%d", i, j)
	case 1:
		return m.put(x.b.Or(y.b), x.tt.or(y.tt), "b%d or b%d", i, j)
	case 2:
		return m.put(x.b.Implies(y.b), x.tt.not().or(y.tt), "b%d implies b%d", i, j)
	case 3:
		return m.put(x.b.ImpliedBy(y.b), y.tt.not().or(x.tt), "b%d implied by b%d", i, j)
	default:
		return m.put(x.b.Equivalence(y.b), x.tt.xor(y.tt).not(), "b%d equivalent b%d", i, j)
	}
}

func (m *bddM) maskVars(mask, rot int) []f.Variable {
	vs := []f.Variable{}
	for k := 0; k < m.n; k++ {
		v := (k + rot) % m.n
		if mask>>uint(v)&1 == 1 {
			vs = append(vs, m.vars[v])
		}
	}
	return vs
}

// restrict: mask = variables, val = their values
func (m *bddM) restrict(i, mask, val, rot int) int {
	t := m.items[i].tt
	var lits []f.Literal
	for k := 0; k < m.n; k++ {
		v := (k + rot) % m.n
		if mask>>uint(v)&1 == 1 {
			pos := val>>uint(v)&1 == 1
			t = t.cof(v, pos)
			l := m.vars[v].AsLiteral()
			if !pos {
				l = m.vars[v].Negate(m.fac)
			}
			lits = append(lits, l)
		}
	}
	return m.put(m.items[i].b.Restrict(lits...), t, "b%d restricted to %b of %b (%d)", i, val&mask, mask, rot)
}

func (m *bddM) quant(i, mask, rot int, all bool) int {
	t := m.items[i].tt
	for v := 0; v < m.n; v++ {
		if mask>>uint(v)&1 == 1 {
			if all {
				t = t.forall(v)
			} else {
				t = t.exists(v)
			}
		}
	}
	if all {
		return m.put(m.items[i].b.ForAll(m.maskVars(mask, rot)...), t, "forall %b (%d) b%d", mask, rot, i)
	}
	return m.put(m.items[i].b.Exists(m.maskVars(mask, rot)...), t, "exists %b (%d) b%d", mask, rot, i)
}

// partial turns a model into masks of assigned and of true variables.
func (m *bddM) partial(mdl *model.Model) (set, val int) {
	r := newReader(m.fac, m.n)
	for _, l := range mdl.Literals {
		x := r.lit(l)
		m.assert(x>>1 < m.n && set>>uint(x>>1)&1 == 0, "the model %s has an unknown or repeated variable", mdl.Sprint(m.fac))
		set |= 1 << uint(x>>1)
		if x&1 == 0 {
			val |= 1 << uint(x>>1)
		}
	}
	return
}

func (m *bddM) satisfied(t TT, set, val int) bool {
	for v := 0; v < m.n; v++ {
		if set>>uint(v)&1 == 1 {
			t = t.cof(v, val>>uint(v)&1 == 1)
		}
	}
	return t.isTrue()
}

const bddQueries = 13

// query asks one question about diagram i and compares the answer with the truth table.
func (m *bddM) query(i, q, x int) {
	m.c.Step()
	it := m.items[i]
	t, b := it.tt, it.b
	full := 1<<uint(m.n) - 1
	m.logf("query %d(%d) of b%d", q, x, i)
	switch q {
	case 0:
		mdl, err := b.Model()
		m.assert((err == nil) == !t.isFalse(), "Model: error %v for %s", err, t)
		if err == nil {
			set, val := m.partial(mdl)
			m.assert(m.satisfied(t, set, val), "the model %s does not satisfy %s", mdl.Sprint(m.fac), t)
		}
	case 1:
		mdl, err := b.FullModel()
		m.assert((err == nil) == !t.isFalse(), "FullModel: error %v for %s", err, t)
		if err == nil {
			set, val := m.partial(mdl)
			m.assert(set == full && t.get(uint64(val)), "the full model %s is none of %s", mdl.Sprint(m.fac), t)
		}
	case 2:
		mask, def := x%(full+1), x&1 == 1
		mdl, err := b.ModelWithVariables(def, m.maskVars(mask, x)...)
		m.assert((err == nil) == !t.isFalse(), "ModelWithVariables: error %v for %s", err, t)
		if err == nil {
			set, val := m.partial(mdl)
			m.assert(m.satisfied(t, set, val) && set&mask == mask, "the model %s with %b does not satisfy %s", mdl.Sprint(m.fac), mask, t)
			for v := 0; v < m.n; v++ {
				if mask>>uint(v)&1 == 1 && !t.depends(v) {
					m.assert((val>>uint(v)&1 == 1) == def, "the model %s assigns x%d not with the default %t", mdl.Sprint(m.fac), v, def)
				}
			}
		}
	case 3, 4:
		mask := full
		if q == 4 {
			mask = x % (full + 1)
		}
		vs := m.maskVars(mask, x)
		want := t
		for v := 0; v < m.n; v++ {
			if mask>>uint(v)&1 == 0 {
				want = want.exists(v)
			}
		}
		seen := map[int]bool{}
		for _, mdl := range b.ModelEnumeration(vs...) {
			set, val := m.partial(mdl)
			m.assert(set == mask && want.get(uint64(val)) && !seen[val], "the enumeration over %b of %s yields %s wrongly or twice", mask, t, mdl.Sprint(m.fac))
			seen[val] = true
		}
		num := want.count() >> uint(m.n-len(vs))
		m.assert(len(seen) == num, "the enumeration over %b of %s yields %d models, there are %d", mask, t, len(seen), num)
	case 5:
		got := b.ModelCount()
		m.assert(got.Cmp(big.NewInt(int64(t.count()))) == 0, "ModelCount of %s is %s", t, got)
		got.Add(got, big.NewInt(int64(x%3)))
	case 6:
		d := newRefDiag(t, m.currentOrder())
		for k, n := range []*big.Int{b.PathCountOne(), b.PathCountZero(), b.NumberOfCNFClauses()} {
			want := d.one
			if k > 0 {
				want = d.zero
			}
			m.assert(n.Cmp(big.NewInt(int64(want))) == 0, "path count %d of %s is %s, must be %d", k, t, n, want)
			n.Add(n, big.NewInt(int64(x%3)))
		}
	case 7:
		set := 0
		for _, v := range b.Support() {
			name, _ := m.fac.VarName(v)
			w := bddVar(name)
			m.assert(w >= 0 && w < m.n && set>>uint(w)&1 == 0, "unknown or repeated variable %q in the support", name)
			set |= 1 << uint(w)
		}
		for v := 0; v < m.n; v++ {
			m.assert((set>>uint(v)&1 == 1) == t.depends(v), "the support of %s is %b", t, set)
		}
	case 8:
		d := newRefDiag(t, m.currentOrder())
		m.assert(b.NodeCount() == d.total, "%s has %d nodes, must have %d", t, b.NodeCount(), d.total)
		prof := b.VariableProfile()
		m.assert(len(prof) == m.n, "the profile has %d entries", len(prof))
		for v := 0; v < m.n; v++ {
			m.assert(prof[m.vars[v]] == d.nodes[v], "%s has %d nodes of x%d, must have %d", t, prof[m.vars[v]], v, d.nodes[v])
		}
	case 9:
		// ordered, reduced and shared
		pos := make([]int, m.n)
		for k, v := range m.currentOrder() {
			pos[v] = k
		}
		type key struct {
			l      string
			lo, hi bdd.Node
		}
		uniq, seen := map[key]bdd.Node{}, map[bdd.Node]bool{}
		var rec func(nd bdd.Node)
		rec = func(nd bdd.Node) {
			if seen[nd] {
				return
			}
			seen[nd] = true
			k := key{l: nd.Label()}
			if nd.InnerNode() {
				k.lo, k.hi = nd.Low(), nd.High()
				m.assert(k.lo != k.hi, "a redundant node %s", nd)
				for _, ch := range []bdd.Node{k.lo, k.hi} {
					if ch.InnerNode() {
						m.assert(pos[bddVar(ch.Label())] > pos[bddVar(nd.Label())], "the node %s does not obey the order", nd)
					}
					rec(ch)
				}
			}
			m.assert(uniq[k] == nil, "two equal nodes %s", nd)
			uniq[k] = nd
		}
		rec(b.NodeRepresentation())
	case 10:
		d := newRefDiag(t, m.currentOrder())
		forms := []f.Formula{b.ToFormula(m.fac), b.ToFormula(m.fac, true), b.ToFormula(m.fac, false)}
		for k, fm := range forms {
			got := ttOf(m.c, m.fac, fm, m.n)
			m.assert(got.eq(t), "ToFormula %d of %s yields %s", k, t, fm.Sprint(m.fac))
			want := d.atT
			if k == 2 {
				want = d.atF
			}
			m.assert(f.NumberOfAtoms(m.fac, fm) == want || t.isTrue() || t.isFalse(), "ToFormula %d of %s yields %s, the paths have %d literals", k, t, fm.Sprint(m.fac), want)
		}
	case 11:
		for _, fm := range []f.Formula{b.CNF(), b.DNF()} {
			got := ttOf(m.c, m.fac, fm, m.n)
			m.assert(got.eq(t), "the normal form %s of %s is not equivalent", fm.Sprint(m.fac), t)
		}
		cnf, dnf := b.CNF(), b.DNF()
		m.assert(normalform.IsCNF(m.fac, cnf) && normalform.IsDNF(m.fac, dnf), "no normal forms: %s, %s", cnf.Sprint(m.fac), dnf.Sprint(m.fac))
		if !t.isTrue() && !t.isFalse() {
			d := newRefDiag(t, m.currentOrder())
			cl, tm := 1, 1
			if cnf.Sort() == f.SortAnd {
				ops, _ := m.fac.NaryOperands(cnf)
				cl = len(ops)
			}
			if dnf.Sort() == f.SortOr {
				ops, _ := m.fac.NaryOperands(dnf)
				tm = len(ops)
			}
			if cnf.Sort() == f.SortOr || cnf.Sort() == f.SortLiteral || cnf.Sort() == f.SortAnd && d.zero > 1 {
				m.assert(cl == d.zero, "the CNF %s has %d clauses, there are %d paths to false", cnf.Sprint(m.fac), cl, d.zero)
			}
			if dnf.Sort() == f.SortAnd || dnf.Sort() == f.SortLiteral || dnf.Sort() == f.SortOr && d.one > 1 {
				m.assert(tm == d.one, "the DNF %s has %d terms, there are %d paths to true", dnf.Sprint(m.fac), tm, d.one)
			}
		}
	case 12:
		m.assert(b.IsTautology() == t.isTrue() && b.IsContradiction() == t.isFalse(), "tautology %t, contradiction %t for %s", b.IsTautology(), b.IsContradiction(), t)
		m.currentOrder()
		for v := 0; v < m.n; v++ {
			_, err := m.kn.IndexForVariable(m.vars[v])
			m.assert(err == nil, "x%d has no index: %v", v, err)
		}
	}
}

// deep asks everything about every diagram, starting somewhere.
func (m *bddM) deep(rot int) {
	for k := range m.items {
		i := (k + rot) % len(m.items)
		for q := 0; q < bddQueries; q++ {
			m.query(i, (q+rot)%bddQueries, rot*7+k*3)
		}
	}
	m.checkAll()
	st := m.kn.Statistics()
	m.assert(st.Used+st.Free == st.Nodes && int(st.Vars) == m.n, "inconsistent statistics %+v", st)
}

func (m *bddM) state() {
	h := uint64(17)
	for _, it := range m.items {
		h = h*1000003 ^ it.tt.hash()
	}
	st := m.kn.Statistics()
	m.c.State(h*31 + uint64(st.Free)*7 + uint64(st.Nodes))
	if st.GC > 0 {
		m.c.Outcome("garbage collected")
	} else {
		m.c.Outcome("no garbage collection")
	}
}

// permutations of 0..n-1
func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var res [][]int
	for _, p := range perms(n - 1) {
		for k := 0; k <= len(p); k++ {
			q := append(append(append([]int{}, p[:k]...), n-1), p[k:]...)
			res = append(res, q)
		}
	}
	sort.Slice(res, func(i, j int) bool { return fmt.Sprint(res[i]) < fmt.Sprint(res[j]) })
	return res
}

// bddFormulas: formulas over n variables for longer histories (they build many intermediate nodes)
func bddFormulas(n int) []*E {
	var all, odd, evn []*E
	for v := 0; v < n; v++ {
		all = append(all, eVar(v))
		if v%2 == 0 {
			evn = append(evn, eVar(v))
		} else {
			odd = append(odd, eNot(eVar(v)))
		}
	}
	par := eVar(0)
	for v := 1; v < n; v++ {
		par = eEquiv(par, eVar(v))
	}
	var pairs, imps, mins []*E
	for v := 0; v < n; v++ {
		w := (v + n/2) % n
		if v < n/2 {
			pairs = append(pairs, eAnd(eVar(v), eVar(w)))
		}
		imps = append(imps, eImpl(eVar(v), eVar((v+1)%n)))
		mins = append(mins, eAnd(eVar(v), eNot(eVar((v+1)%n)), eVar((v+2)%n)))
	}
	amo := make([]int, n)
	lits := make([]int, n)
	co := make([]int, n)
	for v := range amo {
		amo[v] = v
		lits[v] = 2*v + v%2
		co[v] = 1 + v*3%4
	}
	return []*E{
		eAnd(all...), eOr(pairs...), par, eAnd(imps...), eOr(mins...), eEquiv(eAnd(evn...), eOr(odd...)), eCC(f.LE, 1, amo...), eCC(f.EQ, n/2, amo...),
		ePBC(f.GE, n, co, lits), eNot(eOr(eAnd(odd...), eAnd(evn...))), eImpl(eOr(pairs...), eAnd(imps[1:]...)), eVar(n - 1), eLit(1), eTrue, eFalse,
		eAnd(eOr(all...), eOr(odd...), eOr(evn...), par),
	}
}

// op performs operation code k (a history alphabet) on the newest diagrams.
const bddOps = 14

func (m *bddM) op(k, i int, fms []*E) {
	n := len(m.items)
	if n == 0 {
		m.compile(fms[(i+k)%len(fms)])
		return
	}
	last, prev := n-1, max(n-2, 0)
	full := 1<<uint(m.n) - 1
	switch k {
	case 0:
		m.compile(fms[i%len(fms)])
	case 1:
		m.compile(fms[(i*5+3)%len(fms)])
	case 2:
		m.compile(fms[(i*11+7)%len(fms)])
	case 3, 4, 5, 6, 7:
		m.bin(k-3, last, prev)
	case 8:
		m.bin(i%5, 0, last)
	case 9:
		m.not(last)
	case 10:
		m.restrict(last, i*3&full, i, i)
	case 11:
		m.quant(last, i*5&full, i, false)
	case 12:
		m.quant(last, (i*7+1)&full, i, true)
	case 13:
		for q := 0; q < 3; q++ {
			m.query(last, (i+q*5)%bddQueries, i)
		}
		m.checkAll()
	}
}

func init() {
	register(&Prop{
		ID: "P22",
		Rule: "A state is a kernel with its diagrams, node table and caches; a transition is a compilation, an operation or a query. After each one every diagram of the kernel is read back node by node and compared with its truth table, and " +
			"all pairs of diagrams must have the same node exactly if they have the same function. Answers are compared with truth tables and with the reduced diagram derived from them.",
		Assume: []string{"Restrictions have no contradictory literals; models are enumerated over variables known to the kernel.",
			"Kernels whose ordering contains variables of an encoding yield diagrams of that encoding (covered by the equivalence of encodings)."},
		Domains: func(t Tier) []Domain {
			var doms []Domain
			sizes := []int32{3, 6, 12, 25, 90}
			p3 := perms(3)
			nsz := t.pick(1, len(sizes))
			doms = append(doms, Domain{"functions-3", fmt.Sprintf("all 256 functions over 3 variables x 6 orders x %d of %d node table sizes (forms, cache sizes rotate): all queries, negation, all 27 restrictions, all quantifications", nsz, len(sizes)), 256 * 6 * nsz, func(c *C, i int) {
				x := i / nsz
				tt, o := uint64(x%256), x/256
				sz := sizes[(i%nsz+x)%len(sizes)]
				e := funcTerm(tt, 3, (x+x/256)%4)
				c.Key("%v order %v size %d", e, p3[o], sz)
				m := newBddM(c, 3, p3[o], sz, []int32{0, 3, 20}[x%3])
				if x%2 == 1 {
					m.compile(funcTerm(tt*37%256, 3, x%4))
				}
				b := m.compile(e)
				m.state()
				for q := 0; q < bddQueries; q++ {
					m.query(b, (q+x)%bddQueries, x)
				}
				m.not(b)
				for k := 0; k < 27; k++ {
					d := digits(k, 3, 3)
					mask, val := 0, 0
					for v, y := range d {
						if y > 0 {
							mask |= 1 << uint(v)
							val |= (y - 1) << uint(v)
						}
					}
					m.items = m.items[:b+1+(k+x)%2]
					m.restrict(b, mask, val, k)
				}
				for mask := 0; mask < 8; mask++ {
					m.items = m.items[:b+2]
					m.quant(b, mask, mask, (mask+x)%2 == 0)
					m.quant(b, mask, mask+1, (mask+x)%2 == 1)
				}
				for mask := 0; mask < 16; mask++ { // all subsets, both defaults
					m.query(b, 2, mask)
					m.query(b, 4, mask)
				}
				m.deep(x)
				m.state()
			}})
			p4 := perms(4)
			st4 := t.pick(23, 1)
			doms = append(doms, Domain{"functions-4", fmt.Sprintf("every %d. function over 4 variables (orders, forms, sizes rotate): all queries, two restrictions and quantifications", st4), 65536 / st4, func(c *C, i int) {
				e := funcTerm(uint64(i*st4), 4, i%4)
				m := newBddM(c, 4, p4[i*7%24], sizes[i%5], []int32{0, 5, 40}[i%3])
				c.Key("%v order %v", e, m.order)
				b := m.compile(e)
				m.not(b)
				m.restrict(b, i*3&15, i/4, i)
				m.quant(b, i*5&15, i, i%2 == 0)
				m.bin(i%5, b, b+2)
				m.deep(i)
				m.state()
			}})
			// two operands: all pairs of functions over 2 variables inside 3
			doms = append(doms, Domain{"pairs", "all ordered pairs of 64 functions over 3 variables x 5 binary operations (orders, table sizes rotate)", 64 * 64, func(c *C, i int) {
				a, b := uint64(i%64)*4+uint64(i/64%4), uint64(i/64)*4+3
				m := newBddM(c, 3, p3[i%6], sizes[i%5], []int32{0, 3, 20}[i%3])
				c.Key("%d %d", a, b)
				x, y := m.compile(funcTerm(a, 3, i%4)), m.compile(funcTerm(b, 3, i/4%4))
				for op := 0; op < 5; op++ {
					m.bin((op+i)%5, x, y)
				}
				m.state()
				m.deep(i)
			}})
			for _, d := range []struct{ n, depth, sz int }{{3, t.pick(4, 5), 1}, {4, t.pick(3, 5), 1}, {5, t.pick(3, 4), t.pick(1, 4)}} {
				fms := bddFormulas(d.n)
				pn := perms(d.n)
				cnt := pow(bddOps, d.depth)
				doms = append(doms, Domain{fmt.Sprintf("histories-%d", d.n), fmt.Sprintf("all sequences of %d of %d operations over %d variables (formulas, orders and %d node table sizes from 3 on rotate)", d.depth, bddOps, d.n, d.sz), cnt * d.sz, func(c *C, i int) {
					k, seq := i%d.sz, digits(i/d.sz, bddOps, d.depth)
					m := newBddM(c, d.n, pn[(i*5+i/7)%len(pn)], int32(3+(i*11+i/13+k*17)%60), []int32{0, 3, 10, 50}[i%4])
					c.Key("%v", seq)
					m.compile(fms[(i+i/17)%len(fms)])
					for s, op := range seq {
						m.op(op, i+s*s*3, fms)
					}
					m.deep(i)
					m.state()
				}})
			}
			progs, maxSize := t.pick(24, 120), t.pick(150, 400)
			for _, n := range []int{5, 6, 7} {
				fms := bddFormulas(n)
				doms = append(doms, Domain{fmt.Sprintf("collections-%d", n), fmt.Sprintf("%d programs of 12 operations over %d variables x all %d initial node table sizes 3..%d, so that garbage collections and resizes happen at all points", progs, n, maxSize, maxSize+2), progs * maxSize, func(c *C, i int) {
					p, size := i/maxSize, int32(3+i%maxSize)
					order := make([]int, n)
					for v := range order {
						order[v] = (v*(1+p%2*(n-2)) + p) % n
					}
					m := newBddM(c, n, order, size, []int32{0, 7, 60, 500}[(p+i)%4])
					c.Key("program %d size %d", p, size)
					m.compile(fms[p%len(fms)])
					for s := 0; s < 12; s++ {
						m.op((p*5+s*(3+p%4)+s*s*p/3)%bddOps, p*7+s*3, fms)
					}
					m.deep(i)
					m.state()
				}})
			}
			doms = append(doms, Domain{"literals", "all sequences of at most 4 literals over 3 variables, repeated and complementary ones included, compiled as conjunction (table sizes rotate)", seqCount(6, 4), func(c *C, i int) {
				seq := seqAt(i, 6, 4)
				m := newBddM(c, 3, p3[i%6], sizes[i%5], 3)
				c.Key("%v", seq)
				tt := ttConst(3, true)
				lits := make([]f.Literal, len(seq))
				for k, l := range seq {
					lits[k] = mkLit(m.fac, l)
					x := ttVar(3, l>>1)
					if l&1 == 1 {
						x = x.not()
					}
					tt = tt.and(x)
				}
				m.put(bdd.CompileLiterals(lits, m.kn), tt, "literals %v", seq)
				m.compile(funcTerm(uint64(i*7)%256, 3, i%4))
				m.put(bdd.CompileLiterals(lits, m.kn), tt, "literals %v", seq)
				m.deep(i)
				m.state()
			}})
			// kernels with room for more variables than are used
			doms = append(doms, Domain{"room", "all 256 functions over 3 variables in kernels with room for up to 3 more variables: models, profile, order, and later variables", 256 * 3 * t.pick(1, 4), func(c *C, i int) {
				free := 1 + i%3
				tt := uint64(i / 3 % 256)
				fac := f.NewFactory()
				kn := bdd.NewKernel(fac, int32(3+free), sizes[i%5], 10)
				e := funcTerm(tt, 3, (i/3+i/768)%4)
				c.Key("%v room %d", e, free)
				// the three variables are known
				if i%2 == 0 {
					bdd.CompileLiterals(mkLits(fac, []int{0, 2, 4}), kn)
				}
				b := bdd.CompileWithKernel(fac, mk(fac, e), kn)
				m := &bddM{c: c, fac: fac, kn: kn, n: 3, vars: mkVars(fac, 3)}
				known := formulaVars(c, fac, mk(fac, e), 3)
				if i%2 == 0 {
					known = 7
				}
				t3 := ttOfE(e, 3)
				m.items = append(m.items, bddItem{b, t3, "function"})
				m.checkAll()
				for _, q := range []int{0, 3, 4, 7, 10, 11} {
					if q == 3 || q == 4 {
						if known == 7 {
							m.query(0, q, i)
						}
						continue
					}
					if q == 10 {
						for _, x := range []bool{true, false} {
							got := ttOf(c, fac, b.ToFormula(fac, x), 3)
							m.assert(got.eq(t3), "ToFormula yields %s", got)
						}
						continue
					}
					if q == 11 {
						for _, x := range []f.Formula{b.CNF(), b.DNF()} {
							m.assert(ttOf(c, fac, x, 3).eq(t3), "normal form %s", x.Sprint(fac))
						}
						continue
					}
					m.query(0, q, i)
				}
				mdl, err := b.FullModel()
				m.assert((err == nil) == !t3.isFalse(), "FullModel: error %v for %s", err, t3)
				if err == nil {
					set, val := m.partial(mdl)
					m.assert(uint64(set) == known && m.satisfied(t3, set, val), "the full model %s of %s, known are %b", mdl.Sprint(fac), e, known)
				}
				var prof, order uint64
				for v, k := range b.VariableProfile() {
					name, ok := fac.VarName(v)
					m.assert(ok && bddVar(name) >= 0, "unknown variable %d in the profile", v)
					m.assert((k > 0) == t3.depends(bddVar(name)), "profile %d of %s", k, name)
					prof |= 1 << uint(bddVar(name))
				}
				for _, v := range b.VariableOrder() {
					name, ok := fac.VarName(v)
					m.assert(ok && bddVar(name) >= 0, "unknown variable %d in the order", v)
					m.assert(order>>uint(bddVar(name))&1 == 0, "repeated variable in the order")
					order |= 1 << uint(bddVar(name))
				}
				m.assert(prof == known && order == known, "profile over %b, order over %b, known are %b", prof, order, known)
				// variables which come later
				m.n = 4
				for k := range m.items {
					m.items[k].tt = m.items[k].tt.extend(4)
				}
				m.vars = mkVars(fac, 4)
				m.restrict(0, 9, 8, i)
				m.quant(0, 12, i, i%2 == 0)
				m.compile(eEquiv(e, eVar(3)))
				m.not(len(m.items) - 1)
				m.checkAll()
				m.state()
			}})
			cons := constraintAtoms(4)
			doms = append(doms, Domain{"constraints", "all constraints of the space, with clauses around them (orders, sizes rotate)", cons.N * 4, func(c *C, i int) {
				e := cons.At(i / 4)
				m := newBddM(c, 4, p4[i*5%24], sizes[i%5], []int32{0, 5, 40}[i%3])
				c.Key("%v %d", e, i%4)
				switch i % 4 {
				case 1:
					e = eNot(e)
				case 2:
					e = eAnd(e, eOr(eVar(0), eLit(5)))
				case 3:
					e = eEquiv(e, eImpl(eVar(1), eVar(3)))
				}
				b := m.compile(e)
				m.not(b)
				m.deep(i)
				m.state()
			}})
			return doms
		},
	})
}
