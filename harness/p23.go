package main

import (
	"fmt"

	"github.com/booleworks/logicng-go/bdd"
)

var reorderMethods = []bdd.ReorderingMethod{bdd.ReorderWin2, bdd.ReorderWin2Ite, bdd.ReorderSift, bdd.ReorderSiftIte, bdd.ReorderWin3, bdd.ReorderWin3Ite, bdd.ReorderRandom, bdd.ReorderNone}

// legalOrder: the new order respects the variable blocks.  Variables are given by kernel index.
func legalOrder(old, now []int, blocks []block) string {
	pos := make([]int, len(now))
	oldPos := make([]int, len(now))
	for k, v := range now {
		pos[v] = k
	}
	for k, v := range old {
		oldPos[v] = k
	}
	inside := func(a, b block) bool { // a strictly inside b
		return a.first >= b.first && a.last <= b.last && (a.first > b.first || a.last < b.last)
	}
	for _, b := range blocks {
		lo, hi := len(now), -1
		for v := b.first; v <= b.last; v++ {
			lo, hi = min(lo, pos[v]), max(hi, pos[v])
		}
		if hi-lo != b.last-b.first {
			return fmt.Sprintf("the block %d..%d is torn apart", b.first, b.last)
		}
	}
	all := append([]block{{-1, len(now), false}}, blocks...)
	for _, p := range all {
		var children []block
		loose := map[int]bool{}
		for v := max(p.first, 0); v <= min(p.last, len(now)-1); v++ {
			loose[v] = true
		}
		for _, b := range blocks {
			if !inside(b, p) {
				continue
			}
			direct := true
			for _, q := range blocks {
				if inside(b, q) && inside(q, p) {
					direct = false
				}
			}
			if direct {
				children = append(children, b)
			}
			for v := b.first; v <= b.last; v++ {
				delete(loose, v)
			}
		}
		for v := range loose {
			for w := range loose {
				if (oldPos[v] < oldPos[w]) != (pos[v] < pos[w]) && v != w {
					return fmt.Sprintf("the variables %d and %d outside of blocks are exchanged", v, w)
				}
			}
		}
		if p.fixed {
			for _, a := range children {
				for _, b := range children {
					if a != b && (oldPos[a.first] < oldPos[b.first]) != (pos[a.first] < pos[b.first]) {
						return fmt.Sprintf("the children %d..%d and %d..%d of a fixed block are exchanged", a.first, a.last, b.first, b.last)
					}
				}
			}
		}
	}
	return ""
}

// kernelOrder: the current order in kernel indices
func (m *bddM) kernelOrder() []int {
	b := bdd.CompileLiterals(nil, m.kn)
	res := make([]int, 0, m.n)
	seen := 0
	for _, v := range b.VariableOrder() {
		i, err := m.kn.IndexForVariable(v)
		m.assert(err == nil && seen>>uint(i)&1 == 0, "the order is no permutation of the variables")
		seen |= 1 << uint(i)
		res = append(res, int(i))
	}
	m.assert(len(res) == m.n, "the order has %d variables", len(res))
	return res
}

// afterReorder compares the order with the expectation (want, or legality if nil) and everything else.
func (m *bddM) afterReorder(old, want []int) {
	m.c.Step()
	now := m.kernelOrder()
	if want != nil {
		m.assert(fmt.Sprint(now) == fmt.Sprint(want), "the order of indices is %v, must be %v", now, want)
	} else {
		if msg := legalOrder(old, now, m.blocks); msg != "" {
			m.assert(false, "%s: order before %v, after %v, blocks %v", msg, old, now, m.blocks)
		}
	}
	m.order = nil
	if fmt.Sprint(old) != fmt.Sprint(now) {
		m.c.Outcome("order changed")
	} else {
		m.c.Outcome("order unchanged")
	}
	m.checkAll()
	for i := range m.items {
		m.query(i, 9, 0)
	}
	m.order = m.currentOrder()
}

func (m *bddM) reorder(method bdd.ReorderingMethod) {
	old := m.kernelOrder()
	m.logf("reorder %v", method)
	m.kn.Reorder(method)
	if len(m.blocks) == 0 || method == bdd.ReorderNone {
		m.afterReorder(old, old)
	} else {
		m.afterReorder(old, nil)
	}
}

func (m *bddM) swap(v, w int) {
	old := m.kernelOrder()
	m.logf("swap x%d x%d", v, w)
	iv, err := m.kn.IndexForVariable(m.vars[v])
	iw, err2 := m.kn.IndexForVariable(m.vars[w])
	m.assert(err == nil && err2 == nil && m.kn.SwapVariables(m.vars[v], m.vars[w]) == nil, "swap: error")
	want := append([]int{}, old...)
	for k, x := range old {
		if x == int(iv) {
			want[k] = int(iw)
		} else if x == int(iw) {
			want[k] = int(iv)
		}
	}
	m.afterReorder(old, want)
}

// addBlock adds a block if it is contiguous and compatible with the others.
func (m *bddM) addBlock(b block) bool {
	if b.first > b.last {
		return false
	}
	pos := make([]int, m.n)
	for k, v := range m.kernelOrder() {
		pos[v] = k
	}
	lo, hi := m.n, -1
	for v := b.first; v <= b.last; v++ {
		lo, hi = min(lo, pos[v]), max(hi, pos[v])
	}
	if hi-lo != b.last-b.first || pos[b.first] > pos[b.last] {
		return false
	}
	for _, x := range m.blocks {
		if x.first == b.first && x.last == b.last {
			return false
		}
		if !(b.last < x.first || b.first > x.last || b.first >= x.first && b.last <= x.last || b.first <= x.first && b.last >= x.last) {
			return false
		}
	}
	m.logf("block %v", b)
	m.kn.AddVariableBlock(int32(b.first), int32(b.last), b.fixed)
	m.blocks = append(m.blocks, b)
	return true
}

func (m *bddM) singles() {
	m.logf("all variables as blocks")
	m.kn.AddAllVariablesAsBlock()
	for v := 0; v < m.n; v++ {
		found := false
		for _, b := range m.blocks {
			found = found || b.first == v && b.last == v
		}
		if !found {
			m.blocks = append(m.blocks, block{v, v, false})
		}
	}
}

// laminar enumerates the families of at most k compatible blocks over n variables.
func laminar(n, k int) [][]block {
	var all []block
	for a := 0; a < n; a++ {
		for b := a; b < n; b++ {
			all = append(all, block{a, b, false})
		}
	}
	var res [][]block
	var rec func(cur []block, from int)
	rec = func(cur []block, from int) {
		if len(cur) > 0 {
			res = append(res, append([]block{}, cur...))
		}
		if len(cur) == k {
			return
		}
		for i := from; i < len(all); i++ {
			ok := true
			for _, x := range cur {
				b := all[i]
				if !(b.last < x.first || b.first > x.last || b.first >= x.first && b.last <= x.last || b.first <= x.first && b.last >= x.last) {
					ok = false
				}
			}
			if ok {
				rec(append(cur, all[i]), i+1)
			}
		}
	}
	rec(nil, 0)
	return res
}

func init() {
	register(&Prop{
		ID: "P23",
		Rule: "A state is a kernel with its diagrams, order and blocks; a transition is an operation, a reordering, a swap or a block definition. After each one every diagram is read back and compared with its truth table, nodes and functions " +
			"correspond one to one, the nodes are ordered, reduced and shared, and the order is the expected one, or one that the variable blocks permit.",
		Assume: []string{"Variables are swapped only on kernels without blocks (documented); blocks are nested or disjoint and cover adjacent levels when they are defined.",
			"Random reordering is one of the methods (its choices are taken from the global source and hence not enumerated)."},
		Domains: func(t Tier) []Domain {
			var doms []Domain
			sizes := []int32{3, 6, 12, 25, 90, 300}
			p3, p4 := perms(3), perms(4)
			nm := len(reorderMethods)
			doms = append(doms, Domain{"methods-3", fmt.Sprintf("all 256 functions over 3 variables x 6 orders x %d methods (table sizes, second diagrams rotate), single variables as blocks; reordered twice with operations between and after", nm), 256 * 6 * nm, func(c *C, i int) {
				meth, x := i%nm, i/nm
				m := newBddM(c, 3, p3[x/256], sizes[(x+meth)%6], []int32{0, 4, 30}[x%3])
				e := funcTerm(uint64(x%256), 3, (x+meth)%4)
				c.Key("%v order %v method %v", e, m.order, reorderMethods[meth])
				m.compile(e)
				if x%2 == 0 {
					m.compile(funcTerm(uint64(x*71+meth*13)%256, 3, x/4%4))
				}
				m.singles()
				m.reorder(reorderMethods[meth])
				m.bin(x%5, 0, len(m.items)-1)
				m.not(len(m.items) - 1)
				m.reorder(reorderMethods[(meth+x)%nm])
				m.quant(0, x*3&7, x, x%2 == 0)
				m.restrict(0, x*5&7, x/3, x)
				m.deep(i)
				m.state()
			}})
			st4 := t.pick(41, 2)
			doms = append(doms, Domain{"methods-4", fmt.Sprintf("every %d. function over 4 variables (orders, %d methods, table sizes rotate), with other diagrams on the kernel", st4, nm), 65536 / st4, func(c *C, i int) {
				m := newBddM(c, 4, p4[i*7%24], sizes[i%6], []int32{0, 5, 40}[i%3])
				e := funcTerm(uint64(i*st4), 4, i%4)
				c.Key("%v order %v method %v", e, m.order, reorderMethods[i%nm])
				if i%3 > 0 {
					m.compile(funcTerm(uint64(i*st4*37)%65536, 4, i/4%4))
				}
				m.compile(e)
				if i%3 > 1 {
					m.not(0)
				}
				m.singles()
				for k := 0; k < 3; k++ {
					m.reorder(reorderMethods[(i+k*3)%nm])
					m.bin((i+k)%5, k, len(m.items)-1)
				}
				m.deep(i)
				m.state()
			}})
			for _, d := range []struct{ n, k int }{{3, 3}, {4, t.pick(2, 4)}, {5, t.pick(2, 3)}} {
				fms := bddFormulas(d.n)
				np := d.n * (d.n - 1)
				cnt := pow(np, d.k)
				pn := perms(d.n)
				doms = append(doms, Domain{fmt.Sprintf("swaps-%d", d.n), fmt.Sprintf("all sequences of %d swaps of %d variables x %d collections (orders, table sizes rotate), operations between", d.k, d.n, 4), cnt * 4, func(c *C, i int) {
					col, seq := i%4, digits(i/4, np, d.k)
					m := newBddM(c, d.n, pn[(i*5+i/7)%len(pn)], sizes[(i+i/4)%6], []int32{0, 5, 40}[i%3])
					c.Key("%v collection %d", seq, col)
					for k := 0; k <= col; k++ {
						m.compile(fms[(i+k*5+i/11)%len(fms)])
					}
					for k, s := range seq {
						v, w := s/(d.n-1), s%(d.n-1)
						if w >= v {
							w++
						}
						m.swap(v, w)
						m.op((i+k*3)%bddOps, i+k, fms)
					}
					if i%3 == 0 { // blocks after swaps
						m.addBlock(block{i % d.n, min(i%d.n+1, d.n-1), i%2 == 0})
						m.addBlock(block{(i + 2) % d.n, (i + 2) % d.n, false})
						m.singles()
						m.reorder(reorderMethods[i/3%nm])
					}
					m.deep(i)
					m.state()
				}})
			}
			for _, d := range []struct{ n, k, mult int }{{3, 3, t.pick(8, 16)}, {4, t.pick(3, 4), t.pick(4, 24)}, {5, t.pick(3, 4), t.pick(1, 8)}, {6, t.pick(2, 3), t.pick(4, 16)}} {
				fam := laminar(d.n, d.k)
				fms := bddFormulas(d.n)
				pn := perms(d.n)
				doms = append(doms, Domain{fmt.Sprintf("blocks-%d", d.n), fmt.Sprintf("all %d families of at most %d blocks over %d variables x all fixed flags x %d (methods, definition orders, collections, table sizes rotate)", len(fam), d.k, d.n, d.mult), len(fam) * 1 << uint(d.k) * d.mult, func(c *C, i int) {
					k := i % d.mult
					x := i / d.mult
					fl := x % (1 << uint(d.k))
					fm := fam[x/(1<<uint(d.k))]
					if fl >= 1<<uint(len(fm)) {
						return
					}
					r := x*5 + k*3 + x/64
					m := newBddM(c, d.n, pn[r*7%len(pn)], sizes[r%6], []int32{0, 5, 40}[r%3])
					c.Key("blocks %v flags %b #%d", fm, fl, k)
					m.compile(fms[r%len(fms)])
					m.compile(fms[(r*3+1)%len(fms)])
					for j := range fm {
						b := fm[(j+r)%len(fm)]
						b.fixed = fl>>uint((j+r)%len(fm))&1 == 1
						m.assert(m.addBlock(b), "block %v", b)
						if r%5 == 4 && j == 0 {
							m.reorder(reorderMethods[r/5%nm])
							m.op(r%bddOps, r, fms)
						}
					}
					for j := 0; j < 3; j++ {
						m.reorder(reorderMethods[(r+k+j*3)%nm])
						m.op((r/3+j*5)%bddOps, r+j, fms)
					}
					if r%2 == 0 {
						m.singles()
						m.reorder(reorderMethods[(r/2+k)%nm])
					}
					m.deep(r)
					m.state()
				}})
			}
			// operations and reorderings in all orders
			for _, d := range []struct{ n, depth int }{{3, t.pick(4, 5)}, {4, t.pick(3, 5)}, {5, t.pick(3, 4)}} {
				fms := bddFormulas(d.n)
				pn := perms(d.n)
				const alpha = 13
				doms = append(doms, Domain{fmt.Sprintf("histories-%d", d.n), fmt.Sprintf("all sequences of %d of %d steps over %d variables (6 kinds of operations, swaps, blocks, reorderings by rotating methods, reordering during construction; formulas, orders and table sizes rotate)", d.depth, alpha, d.n), pow(alpha, d.depth), func(c *C, i int) {
					seq := digits(i, alpha, d.depth)
					m := newBddM(c, d.n, pn[(i*5+i/7)%len(pn)], int32(3+(i*11+i/13)%60), []int32{0, 3, 10, 50}[i%4])
					c.Key("%v", seq)
					m.compile(fms[(i+i/17)%len(fms)])
					auto := false
					for s, op := range seq {
						r := i + s*s*3 + i/29
						before := m.kernelOrder()
						if auto {
							m.order = nil
						}
						switch op {
						case 0:
							m.op(0, r, fms)
						case 1:
							m.op(3+r%5, r, fms)
						case 2:
							m.op(9, r, fms)
						case 3:
							m.op(10, r, fms)
						case 4:
							m.op(11+r%2, r, fms)
						case 5:
							m.op(13, r, fms)
						case 6:
							if len(m.blocks) == 0 {
								m.swap(r%d.n, (r+1+r/5%(d.n-1))%d.n)
							}
							continue
						case 7:
							m.singles()
						case 8:
							m.addBlock(block{r % d.n, min(d.n-1, r%d.n+r/3%3), r%2 == 0})
						case 9, 10, 11:
							m.reorder(reorderMethods[(r*3+op)%nm])
							continue
						case 12:
							m.logf("reorder during construction %v", reorderMethods[r%nm])
							m.kn.ActivateReorderDuringBuild(reorderMethods[r%nm], int32(r%4))
							auto = true
						}
						if auto {
							now := m.kernelOrder()
							if msg := legalOrder(before, now, m.blocks); msg != "" {
								m.assert(false, "%s: order before %v, after %v, blocks %v", msg, before, now, m.blocks)
							}
						}
					}
					if auto { // queries may reorder, too
						m.order = nil
					}
					m.deep(i)
					m.state()
				}})
			}
			{
				const n, kinds = 5, 15
				fms := bddFormulas(n)
				maxSize, mult := t.pick(48, 120), t.pick(1, 4)
				doms = append(doms, Domain{"single", fmt.Sprintf("%d formulas over %d variables x %d operations (negation, binary operations, restrictions, quantifications) x all %d initial node table sizes x %d, with reordering during construction activated for the operation only", len(fms), n, kinds, maxSize, mult), len(fms) * kinds * maxSize * mult, func(c *C, i int) {
					x := i / mult
					kind, size, fm := x%kinds, int32(13+x/kinds%maxSize), x/kinds/maxSize
					r := x/7 + i%mult*11
					order := make([]int, n)
					for v := range order {
						order[v] = (v*(1+r%4) + r) % n
					}
					m := newBddM(c, n, order, size, []int32{0, 7, 60}[r%3])
					c.Key("%v kind %d size %d #%d", fms[fm], kind, size, i%mult)
					m.singles()
					m.compile(fms[(fm+r)%len(fms)])
					b := m.compile(fms[fm])
					before := m.kernelOrder()
					m.kn.ActivateReorderDuringBuild(reorderMethods[(r+fm)%(nm-1)], 1)
					m.order = nil
					switch {
					case kind == 0:
						m.not(b)
					case kind < 6:
						m.bin(kind-1, b, 0)
					case kind < 9:
						m.restrict(b, 1+r*3%31, r/3, r)
					case kind < 12:
						m.quant(b, 1+r*5%31, r, true)
					default:
						m.quant(b, 1+r*5%31, r, false)
					}
					if fmt.Sprint(before) != fmt.Sprint(m.kernelOrder()) {
						c.Outcome("order changed during one operation")
					}
					m.kn.ActivateReorderDuringBuild(bdd.ReorderNone, 0)
					m.quant(len(m.items)-1, 1+r*7%31, r, r%2 == 0)
					m.deep(i)
					m.state()
				}})
			}
			progs, maxSize := t.pick(16, 160), t.pick(70, 250)
			for _, n := range []int{4, 5, 6, 7} {
				fms := bddFormulas(n)
				doms = append(doms, Domain{fmt.Sprintf("construction-%d", n), fmt.Sprintf("%d programs of 8 operations over %d variables with reordering during construction (methods, bounds, blocks rotate) x all %d initial node table sizes, so that reorderings start at many points", progs, n, maxSize), progs * maxSize, func(c *C, i int) {
					p, size := i/maxSize, int32(3+i%maxSize)
					order := make([]int, n)
					for v := range order {
						order[v] = (v*(1+p%2*(n-2)) + p) % n
					}
					m := newBddM(c, n, order, size, []int32{0, 7, 60, 500}[(p+i)%4])
					c.Key("program %d size %d", p, size)
					if p%4 == 1 {
						m.addBlock(block{0, n / 2, p%8 == 1})
					}
					if p%4 == 2 {
						m.addBlock(block{p % n, min(p%n+1, n-1), false})
					}
					m.singles()
					m.kn.ActivateReorderDuringBuild(reorderMethods[(p+i%maxSize)%(nm-1)], int32(1+p%5*2))
					changed := 0
					for s := 0; s < 8; s++ {
						before := m.kernelOrder()
						m.order = nil
						op := (p*5 + s*(3+p%4) + s*s*p/3) % bddOps
						if s%3 == 0 {
							op = 0
						}
						m.op(op, p*7+s*3, fms)
						now := m.kernelOrder()
						if msg := legalOrder(before, now, m.blocks); msg != "" {
							m.assert(false, "%s: order before %v, after %v, blocks %v", msg, before, now, m.blocks)
						}
						if fmt.Sprint(before) != fmt.Sprint(now) {
							changed++
						}
					}
					c.Outcome(fmt.Sprintf("order changed %d times during construction", min(changed, 3)))
					m.deep(i)
					m.state()
				}})
			}
			return doms
		},
	})
}
