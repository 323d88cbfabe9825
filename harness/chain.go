package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"sync"

	"github.com/booleworks/logicng-go/assignment"
	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/np"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
)

// Large periodic instances ("chains"): every set of up to k clause patterns over a window of three neighbouring variables,
// repeated along a path or a ring of n variables, with every combination of fixed ends and an irregular window in the
// middle.  An exact dynamic program over the last two variables is the reference, so n is limited by the implementation
// only: word sizes, table growth and chunk limits that small instances never reach are crossed.

type chain struct {
	n    int
	ring bool
	cls  [][]int // clauses over windows of three variables
	key  string
}

// chainPatterns: all non-empty clauses over the window {0,1,2} that contain offset 0
var chainPatterns = func() [][]int {
	var r [][]int
	for code := 0; code < 27; code++ {
		var p []int
		x := code
		for v := 0; v < 3; v++ {
			if x%3 != 0 {
				p = append(p, 2*v+x%3-1)
			}
			x /= 3
		}
		if len(p) > 0 && p[0]>>1 == 0 {
			r = append(r, p)
		}
	}
	return r
}()

type chainSpace struct {
	n, kmax, N int
	bound      string
}

func chains(n, kmax int) chainSpace {
	s := 0
	for k := 1; k <= kmax; k++ {
		s += binom(len(chainPatterns), k)
	}
	return chainSpace{n, kmax, s * 54, fmt.Sprintf("all sets of up to %d clauses over a window of three neighbouring variables, repeated along a path or ring of %d variables; first and last variable free, true or false; the window in the middle regular, missing or negated", kmax, n)}
}

func (s chainSpace) at(i int) chain {
	k := 1
	j := i / 54
	for j >= binom(len(chainPatterns), k) {
		j -= binom(len(chainPatterns), k)
		k++
	}
	var ps [][]int
	for _, x := range unrankComb(len(chainPatterns), k, j) {
		ps = append(ps, chainPatterns[x])
	}
	m := mixed(i%54, 3, 3, 3, 2)
	return mkChain(s.n, ps, m[0], m[1], m[2], m[3] == 1)
}

func mkChain(n int, ps [][]int, first, last, mid int, ring bool) chain {
	ch := chain{n: n, ring: ring, key: fmt.Sprintf("chain n=%d patterns=%v first=%d last=%d mid=%d ring=%v", n, ps, first, last, mid, ring)}
	for w := 0; w < n; w++ {
		for _, p := range ps {
			far := p[len(p)-1] >> 1
			if !ring && w+far >= n {
				continue
			}
			if w == n/2 && mid == 1 {
				continue
			}
			var c []int
			for _, l := range p {
				l = 2*((w+l>>1)%n) + l&1
				if w == n/2 && mid == 2 {
					l ^= 1
				}
				c = append(c, l)
			}
			ch.cls = append(ch.cls, c)
		}
	}
	if first > 0 {
		ch.cls = append(ch.cls, []int{first - 1})
	}
	if last > 0 {
		ch.cls = append(ch.cls, []int{2*(n-1) + last - 1})
	}
	return ch
}

// factor is a clause: hard (w < 0) or soft with a weight
type factor struct {
	lits []int
	w    int
}

func (ch chain) factors() []factor {
	var r []factor
	for _, c := range ch.cls {
		r = append(r, factor{c, -1})
	}
	return r
}

// dpPlan sorts the factors by the position at which they are decided.
type dpPlan struct {
	n    int
	at   [][]factor // decided by the variables i, i-1, i-2
	wrap []factor   // decided by the last two and the first two variables
}

func planOf(n int, fs []factor) dpPlan {
	p := dpPlan{n: n, at: make([][]factor, n)}
	for _, x := range fs {
		lo, hi := n, -1
		for _, l := range x.lits {
			lo, hi = min(lo, l>>1), max(hi, l>>1)
		}
		if hi < 0 {
			hi, lo = 0, 0
		}
		if hi-lo <= 2 {
			p.at[hi] = append(p.at[hi], x)
		} else {
			p.wrap = append(p.wrap, x)
		}
	}
	return p
}

func costOf(fs []factor, val func(v int) bool) (int, bool) {
	cost := 0
	for _, x := range fs {
		ok := false
		for _, l := range x.lits {
			if val(l>>1) == (l&1 == 0) {
				ok = true
				break
			}
		}
		if !ok {
			if x.w < 0 {
				return 0, false
			}
			cost += x.w
		}
	}
	return cost, true
}

// minCost: the least cost of an assignment that respects the fixed values (-1: free); false if there is none.
func (p dpPlan) minCost(fix map[int]bool) (int, bool) {
	const inf = int(1) << 60
	best := inf
	allowed := func(v int, b bool) bool { x, ok := fix[v]; return !ok || x == b }
	for start := 0; start < 4; start++ {
		s0, s1 := start&1 == 1, start&2 == 2
		if !allowed(0, s0) || !allowed(1, s1) {
			continue
		}
		cur := [4]int{inf, inf, inf, inf}
		c0, ok0 := costOf(p.at[0], func(int) bool { return s0 })
		c1, ok1 := costOf(p.at[1], func(v int) bool { return v == 0 && s0 || v == 1 && s1 })
		if !ok0 || !ok1 {
			continue
		}
		cur[start] = c0 + c1
		for i := 2; i < p.n; i++ {
			next := [4]int{inf, inf, inf, inf}
			for st, c := range cur {
				if c >= inf {
					continue
				}
				a, b := st&1 == 1, st&2 == 2 // values of i-2 and i-1
				for z := 0; z < 2; z++ {
					v := z == 1
					if !allowed(i, v) {
						continue
					}
					d, ok := costOf(p.at[i], func(x int) bool {
						switch x {
						case i:
							return v
						case i - 1:
							return b
						}
						return a
					})
					if ok {
						ns := st>>1 | z<<1
						next[ns] = min(next[ns], c+d)
					}
				}
			}
			cur = next
		}
		for st, c := range cur {
			if c >= inf {
				continue
			}
			d, ok := costOf(p.wrap, func(x int) bool {
				switch x {
				case 0:
					return s0
				case 1:
					return s1
				case p.n - 2:
					return st&1 == 1
				}
				return st&2 == 2
			})
			if ok {
				best = min(best, c+d)
			}
		}
	}
	return best, best < inf
}

func (p dpPlan) sat(fix map[int]bool) bool { _, ok := p.minCost(fix); return ok }

// models: the number of models over all n variables that respect the fixed values
func (p dpPlan) models(fix map[int]bool) *big.Int {
	total := new(big.Int)
	allowed := func(v int, b bool) bool { x, ok := fix[v]; return !ok || x == b }
	for start := 0; start < 4; start++ {
		s0, s1 := start&1 == 1, start&2 == 2
		if !allowed(0, s0) || !allowed(1, s1) {
			continue
		}
		_, ok0 := costOf(p.at[0], func(int) bool { return s0 })
		_, ok1 := costOf(p.at[1], func(v int) bool { return v == 0 && s0 || v == 1 && s1 })
		if !ok0 || !ok1 {
			continue
		}
		var cur [4]*big.Int
		cur[start] = big.NewInt(1)
		for i := 2; i < p.n; i++ {
			var next [4]*big.Int
			for st, c := range cur {
				if c == nil {
					continue
				}
				a, b := st&1 == 1, st&2 == 2
				for z := 0; z < 2; z++ {
					v := z == 1
					if !allowed(i, v) {
						continue
					}
					if _, ok := costOf(p.at[i], func(x int) bool {
						switch x {
						case i:
							return v
						case i - 1:
							return b
						}
						return a
					}); ok {
						ns := st>>1 | z<<1
						if next[ns] == nil {
							next[ns] = new(big.Int)
						}
						next[ns].Add(next[ns], c)
					}
				}
			}
			cur = next
		}
		for st, c := range cur {
			if c == nil {
				continue
			}
			if _, ok := costOf(p.wrap, func(x int) bool {
				switch x {
				case 0:
					return s0
				case 1:
					return s1
				case p.n - 2:
					return st&1 == 1
				}
				return st&2 == 2
			}); ok {
				total.Add(total, c)
			}
		}
	}
	return total
}

// occurring: the number of variables that occur in the clauses
func (ch chain) occurring() int {
	seen := map[int]bool{}
	for _, c := range ch.cls {
		for _, l := range c {
			seen[l>>1] = true
		}
	}
	return len(seen)
}

func (ch chain) formula(fac f.Factory) f.Formula { return mk(fac, eAnd(clausesE(ch.cls)...)) }

// check of the dynamic program itself against enumeration, at small sizes
func (ch chain) selfTest(c *C) {
	p := planOf(ch.n, ch.factors())
	tt := ttOfClauses(ch.cls, ch.n)
	c.Assert(p.models(nil).Int64() == int64(tt.count()), "%s: the reference counts %v models, there are %d", ch.key, p.models(nil), tt.count())
	soft := ch.factors()
	for j := range soft {
		soft[j].w = 1 + j%3
	}
	best := 1 << 30
	for a := uint64(0); a < 1<<uint(ch.n); a++ {
		k, _ := costOf(soft, func(v int) bool { return a>>uint(v)&1 == 1 })
		best = min(best, k)
	}
	got, _ := planOf(ch.n, soft).minCost(nil)
	c.Assert(got == best, "%s: the reference optimum is %d, must be %d", ch.key, got, best)
}

// assignOf reads a model; every variable at most once
func assignOf(c *C, fac f.Factory, m *model.Model, what string) map[int]bool {
	r := map[int]bool{}

	for _, l := range m.Literals {
		name, phase, ok := fac.LitNamePhase(l)
		c.Assert(ok, "%s: unknown literal in the model", what)
		v := nameToVar(name)
		if v < 0 {
			continue
		}
		_, dup := r[v]
		c.Assert(!dup, "%s: the model assigns %s twice", what, name)
		r[v] = phase
	}
	return r
}

var nameIndex = sync.OnceValue(func() map[string]int {
	r := map[string]int{}
	for v, n := range vnames {
		r[n] = v
	}
	return r
})

func nameToVar(name string) int {
	if v, ok := nameIndex()[name]; ok {
		return v
	}
	return -1
}

func modelOK(c *C, cls [][]int, a map[int]bool, what string) {
	for _, cl := range cls {
		ok := false
		for _, l := range cl {
			v, known := a[l>>1]
			if known && v == (l&1 == 0) {
				ok = true
			}
		}
		c.Assert(ok, "%s: the model violates %v", what, eOrLits(cl))
	}
}

func eOrLits(cl []int) *E {
	var s []*E
	for _, l := range cl {
		s = append(s, eLit(l))
	}
	return eOr(s...)
}

func strided(d Domain, s int) Domain {
	if s <= 1 {
		return d
	}
	run := d.Run
	d.Bound += fmt.Sprintf("; every %d-th", s)
	d.N = (d.N + s - 1) / s
	d.Run = func(c *C, i int) { run(c, i*s) }
	return d
}

func chainDomain(name string, sp chainSpace, stride int, what string, run func(c *C, ch chain, p dpPlan, i int)) Domain {
	return strided(Domain{name, sp.bound + "; " + what, sp.N, func(c *C, i int) {
		ch := sp.at(i)
		c.Key("%s", ch.key)
		p := planOf(ch.n, ch.factors())
		if ch.n <= 9 {
			ch.selfTest(c)
		}
		run(c, ch, p, i)
		c.State(uint64(i)*1000 + uint64(ch.n))
	}}, stride)
}

// extra: domains that are appended to those of a property
var extra = map[string]func(t Tier) []Domain{}

func init() {
	// ---- P21: counts
	extra["P21"] = func(t Tier) []Domain {
		cnt := func(c *C, ch chain, p dpPlan, i int) {
			want := p.models(nil)
			want.Rsh(want, uint(ch.n-ch.occurring()))
			fac := f.NewFactory()
			fm := ch.formula(fac)
			occ := map[int]bool{}
			var vars []f.Variable
			for _, cl := range ch.cls {
				for _, l := range cl {
					if !occ[l>>1] {
						occ[l>>1] = true
						vars = append(vars, mkVar(fac, l>>1))
					}
				}
			}
			got, err := count.Count(fac, vars, fm)
			c.Step()
			c.Assert(err == nil && got.Cmp(want) == 0, "%s: count %v (%v), must be %v", ch.key, got, err, want)
			if f.Variables(fac, fm).Size() == len(vars) {
				d := dnnf.Compile(fac, fm)
				c.Step()
				g := d.ModelCount()
				c.Assert(g.Cmp(want) == 0, "%s: the DNNF has %v models, must have %v", ch.key, g, want)
			}
			if i%4 == 0 {
				parts := make([]f.Formula, len(ch.cls))
				for j, cl := range ch.cls {
					parts[j] = fac.Clause(mkLits(fac, cl)...)
				}
				got, err = count.Count(fac, vars, parts...)
				c.Step()
				c.Assert(err == nil && got.Cmp(want) == 0, "%s: count of the single clauses %v (%v), must be %v", ch.key, got, err, want)
			}
			c.Outcome(fmt.Sprintf("%d-bit counts", (want.BitLen()+31)/32*32))
		}
		return []Domain{
			chainDomain("chains-9", chains(9, t.pick(2, 3)), t.pick(5, 1), "count and DNNF against the dynamic program (itself checked against enumeration)", cnt),
			chainDomain("chains-67", chains(67, t.pick(2, 3)), t.pick(31, 17), "count and DNNF against the dynamic program", cnt),
			chainDomain("chains-130", chains(130, t.pick(1, 2)), t.pick(11, 11), "count and DNNF against the dynamic program", cnt),
		}
	}

	// ---- P22: BDDs with many variables
	extra["P22"] = func(t Tier) []Domain {
		run := func(c *C, ch chain, p dpPlan, i int) {
			n := ch.n
			fac := f.NewFactory()
			vars := mkVars(fac, n)
			k := bdd.NewKernelWithOrdering(fac, vars, int32([]int{10, 200, 5000}[i%3]), int32([]int{10, 300, 5000}[i/3%3]+n/20*3000))
			fm := ch.formula(fac)
			b := bdd.CompileWithKernel(fac, fm, k)
			c.Step()
			want := p.models(nil)
			got := b.ModelCount()
			c.Assert(got.Cmp(want) == 0, "%s: the BDD has %v models, must have %v", ch.key, got, want)
			all := new(big.Int).Lsh(big.NewInt(1), uint(n))
			neg := b.Negate()
			c.Step()
			got = neg.ModelCount()
			c.Assert(got.Cmp(all.Sub(all, want)) == 0, "%s: the negation has %v models, must have %v", ch.key, got, all)
			c.Assert(neg.Negate().Index == b.Index, "%s: the double negation is another node", ch.key)
			// the halves and their conjunction
			h := len(ch.cls) / 2
			if h > 0 {
				x := bdd.CompileWithKernel(fac, mk(fac, eAnd(clausesE(ch.cls[:h])...)), k)
				y := bdd.CompileWithKernel(fac, mk(fac, eAnd(clausesE(ch.cls[h:])...)), k)
				and := y.And(x)
				c.Step()
				c.Assert(and.Index == b.Index, "%s: the conjunction of the halves is another node", ch.key)
				or := x.Negate().Or(y.Negate())
				c.Assert(or.Index == neg.Index, "%s: the disjunction of the negated halves is another node", ch.key)
				c.Assert(b.Implies(x).IsTautology() && b.Implies(y).IsTautology(), "%s: the halves are not implied", ch.key)
				eqv := x.Equivalence(y).And(x)
				c.Assert(eqv.Index == b.Index, "%s: (x <=> y) & x is another node than x & y", ch.key)
			}
			// restriction and quantification
			q := []int{i % n, (i/3 + n/3) % n, (i/7 + 2*n/3) % n, n - 1 - i%5}
			sort.Ints(q)
			var keep []int
			for j, v := range q {
				if j == 0 || v != q[j-1] {
					keep = append(keep, v)
				}
			}
			var rest []f.Variable
			for v := 0; v < n; v++ {
				in := false
				for _, w := range keep {
					in = in || v == w
				}
				if !in {
					rest = append(rest, vars[v])
				}
			}
			ex := b.Exists(rest...)
			fa := b.ForAll(rest...)
			c.Step()
			for m := 0; m < 1<<len(keep); m++ {
				fix := map[int]bool{}
				var lits []f.Literal
				for j, v := range keep {
					fix[v] = m>>j&1 == 1
					lits = append(lits, fac.Lit(vname(v), fix[v]))
				}
				r := b.Restrict(lits...)
				c.Step()
				w := p.models(fix)
				full := new(big.Int).Lsh(big.NewInt(1), uint(n-len(keep)))
				isAll := w.Cmp(full) == 0
				some := w.Sign() > 0
				w.Lsh(w, uint(len(keep)))
				g := r.ModelCount()
				c.Assert(g.Cmp(w) == 0, "%s: restricted to %v: %v models, must have %v", ch.key, fix, g, w)
				re := ex.Restrict(lits...)
				c.Assert(re.IsTautology() == some && re.IsContradiction() == !some, "%s: exists restricted to %v is wrong", ch.key, fix)
				ra := fa.Restrict(lits...)
				c.Assert(ra.IsTautology() == isAll && ra.IsContradiction() == !isAll, "%s: forall restricted to %v is wrong", ch.key, fix)
			}
			if want.Sign() > 0 {
				mdl, err := b.FullModel()
				c.Assert(err == nil, "%s: no model", ch.key)
				a := assignOf(c, fac, mdl, ch.key)
				c.Assert(len(a) == n, "%s: the full model assigns %d variables", ch.key, len(a))
				modelOK(c, ch.cls, a, ch.key)
			} else {
				c.Assert(b.IsContradiction(), "%s: no contradiction", ch.key)
			}
			c.Outcome(fmt.Sprintf("%d-bit counts", (want.BitLen()+31)/32*32))
		}
		ord := func(c *C, ch chain, p dpPlan, i int) {
			fac := f.NewFactory()
			fm := ch.formula(fac)
			if f.Variables(fac, fm).Size() != ch.occurring() {
				return // the formula has collapsed
			}
			want := p.models(nil)
			want.Rsh(want, uint(ch.n-ch.occurring()))
			for _, o := range []func(f.Factory, f.Formula) []f.Variable{bdd.BFSOrder, bdd.DFSOrder, bdd.MaxToMinOrder, bdd.MinToMaxOrder, bdd.ForceOrder} {
				order := o(fac, fm)
				if ch.n > 20 && i%5 != 0 && len(order) > 0 {
					continue
				}
				b := bdd.CompileWithVarOrder(fac, fm, order)
				c.Step()
				g := b.ModelCount()
				c.Assert(g.Cmp(want) == 0, "%s: order %v: %v models, must have %v", ch.key, len(order), g, want)
				c.Assert(len(b.VariableOrder()) == ch.occurring(), "%s: the order has %d variables", ch.key, len(b.VariableOrder()))
			}
		}
		return []Domain{
			chainDomain("chains-9", chains(9, 2), 1, "BDD operations against the dynamic program", run),
			chainDomain("chains-67", chains(67, 2), t.pick(13, 1), "BDD operations against the dynamic program", run),
			chainDomain("chains-orders-18", chains(18, 2), t.pick(13, 1), "all variable orders", ord),
		}
	}

	// ---- P23: reordering with many variables
	extra["P23"] = func(t Tier) []Domain {
		methods := []bdd.ReorderingMethod{bdd.ReorderWin2, bdd.ReorderWin2Ite, bdd.ReorderSift, bdd.ReorderSiftIte, bdd.ReorderWin3, bdd.ReorderWin3Ite}
		run := func(c *C, ch chain, p dpPlan, i int) {
			n := ch.n
			fac := f.NewFactory()
			vars := mkVars(fac, n)
			order := append([]f.Variable{}, vars...)
			switch i % 4 {
			case 1: // even ones, then odd ones
				order = order[:0]
				for s := 0; s < 2; s++ {
					for v := s; v < n; v += 2 {
						order = append(order, vars[v])
					}
				}
			case 2: // distant ones next to each other
				order = order[:0]
				for v := 0; v < n; v++ {
					order = append(order, vars[v*7%n])
				}
			case 3:
				for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
					if a%2 == 0 {
						order[a], order[b] = order[b], order[a]
					}
				}
			}
			k := bdd.NewKernelWithOrdering(fac, order, 50, int32(50+n/20*5000))
			blocks := i / 4 % 3
			if blocks == 0 {
				k.AddAllVariablesAsBlock()
			} else if blocks == 1 {
				for a := 0; a+2 < n; a += 3 {
					k.AddVariableBlock(int32(a), int32(a+2), a%2 == 0)
				}
			}
			fm := ch.formula(fac)
			h := len(ch.cls) / 2
			half := mk(fac, eAnd(clausesE(ch.cls[:h])...))
			want := p.models(nil)
			wantH := planOf(n, chain{cls: ch.cls[:h]}.factors()).models(nil)
			meth := methods[i/12%len(methods)]
			if i%7 == 0 {
				k.ActivateReorderDuringBuild(meth, 100)
			}
			b := bdd.CompileWithKernel(fac, fm, k)
			bh := bdd.CompileWithKernel(fac, half, k)
			check := func(when string) {
				g := b.ModelCount()
				c.Assert(g.Cmp(want) == 0, "%s: %s: %v models, must have %v", ch.key, when, g, want)
				g = bh.ModelCount()
				c.Assert(g.Cmp(wantH) == 0, "%s: %s: the half has %v models, must have %v", ch.key, when, g, wantH)
				b2 := bdd.CompileWithKernel(fac, fm, k)
				c.Assert(b2.Index == b.Index, "%s: %s: compiled again, the formula is another node", ch.key, when)
				bh2 := bdd.CompileWithKernel(fac, half, k)
				c.Assert(bh2.Index == bh.Index, "%s: %s: compiled again, the half is another node", ch.key, when)
				c.Assert(bh.And(b).Index == b.Index, "%s: %s: the conjunction with the half is another node", ch.key, when)
				for _, v := range []int{i % n, (i/5 + n/2) % n} {
					fix := map[int]bool{v: i&1 == 1, (v + 3) % n: i&2 == 2}
					var lits []f.Literal
					for x, y := range fix {
						lits = append(lits, fac.Lit(vname(x), y))
					}
					r := b.Restrict(lits...)
					w := p.models(fix)
					w.Lsh(w, uint(len(fix)))
					g := r.ModelCount()
					c.Assert(g.Cmp(w) == 0, "%s: %s: restricted to %v: %v models, must have %v", ch.key, when, fix, g, w)
				}
				seen := map[f.Variable]bool{}
				for _, v := range b.VariableOrder() {
					seen[v] = true
				}
				c.Assert(len(seen) == n && len(b.VariableOrder()) == n, "%s: %s: the order is no permutation", ch.key, when)
			}
			check("after compilation")
			if i%7 == 0 {
				c.Outcome("during build")
			}
			k.Reorder(meth)
			c.Step()
			check(fmt.Sprint("after ", meth))
			k.Reorder(methods[(i/12+1)%len(methods)])
			c.Step()
			check(fmt.Sprint("after ", meth, " and ", methods[(i/12+1)%len(methods)]))
			if blocks != 1 {
				for s := 0; s < 3; s++ {
					a, bb := vars[(i+s)%n], vars[(i*3+s*5+1)%n]
					if a != bb && blocks == 2 {
						err := k.SwapVariables(a, bb)
						c.Assert(err == nil, "%s: swap: %v", ch.key, err)
						c.Step()
					}
				}
				check("after swaps")
			}
			c.Outcome(meth.String())
		}
		return []Domain{
			chainDomain("chains-15", chains(15, 2), t.pick(5, 1), "four starting orders, three block structures, all methods, swaps: counts, restrictions, identity of compiled formulas", run),
			chainDomain("chains-22", chains(22, t.pick(1, 2)), t.pick(5, 5), "four starting orders, three block structures, all methods, swaps: counts, restrictions, identity of compiled formulas", run),
		}
	}

	// ---- P10: verdicts and models
	extra["P10"] = func(t Tier) []Domain {
		run := func(c *C, ch chain, p dpPlan, i int) {
			cf := rotCfg(i)
			fac := f.NewFactory()
			s := sat.NewSolver(fac, cf.mk())
			if i&1 == 0 {
				s.Add(ch.formula(fac))
			} else {
				for _, cl := range ch.cls {
					s.Add(fac.Clause(mkLits(fac, cl)...))
				}
			}
			what := cf.name + " " + ch.key
			check := func(fix map[int]bool, lits ...f.Literal) {
				want := p.sat(fix)
				c.Step()
				res := s.Call(sat.Params().Literal(lits...).WithModel(mkVars(fac, ch.n)))
				c.Assert(res.OK() && res.Sat() == want, "%s under %v: sat=%v, must be %v", what, fix, res.Sat(), want)
				if want {
					a := assignOf(c, fac, res.Model(), what)
					for v, b := range fix {
						x, ok := a[v]
						c.Assert(ok && x == b, "%s under %v: the model disagrees with the assumption", what, fix)
					}
					modelOK(c, ch.cls, a, what)
				}
				c.Outcome(fmt.Sprint("sat=", want))
			}
			check(nil)
			for j := 0; j < 24; j++ {
				x, y := (i+j*5)%ch.n, (i/3+j*11+1)%ch.n
				if x == y {
					continue
				}
				fix := map[int]bool{x: j&1 == 1, y: j&2 == 2}
				check(fix, fac.Lit(vname(x), fix[x]), fac.Lit(vname(y), fix[y]))
			}
		}
		return []Domain{
			chainDomain("chains-9", chains(9, 2), t.pick(3, 1), "24 pairs of assumptions, configurations rotate", run),
			chainDomain("chains-130", chains(130, t.pick(2, 3)), t.pick(7, 5), "24 pairs of assumptions, configurations rotate", run),
		}
	}

	// ---- P11: incremental
	extra["P11"] = func(t Tier) []Domain {
		run := func(c *C, ch chain, p dpPlan, i int) {
			cf := rotCfg(i * 5)
			fac := f.NewFactory()
			s := sat.NewSolver(fac, cf.mk())
			what := cf.name + " " + ch.key
			type save struct {
				st *sat.SolverState
				n  int
			}
			var saves []save
			step := len(ch.cls)/6 + 1
			check := func(k int, when string) {
				pl := planOf(ch.n, chain{cls: ch.cls[:k]}.factors())
				for j := 0; j < 5; j++ {
					var fix map[int]bool
					var lits []f.Literal
					if j > 0 {
						x := (i + 13*j) % ch.n
						fix = map[int]bool{x: j&1 == 1, (x + 2) % ch.n: j&2 == 2}
						for v, b := range fix {
							lits = append(lits, fac.Lit(vname(v), b))
						}
					}
					want := pl.sat(fix)
					res := s.Call(sat.Params().Literal(lits...).WithModel(mkVars(fac, ch.n)))
					c.Step()
					c.Assert(res.OK() && res.Sat() == want, "%s: %s, %d clauses, under %v: sat=%v, must be %v", what, when, k, fix, res.Sat(), want)
					if want {
						modelOK(c, ch.cls[:k], assignOf(c, fac, res.Model(), what), what)
					}
				}
			}
			proof := cf.mk().ProofGeneration
			for k := 0; k <= len(ch.cls); k++ {
				if k%step == 0 && !proof {
					saves = append(saves, save{s.SaveState(), k})
				}
				if k%step == 0 || k == len(ch.cls) {
					check(k, "incremental")
				}
				if k < len(ch.cls) {
					s.Add(fac.Clause(mkLits(fac, ch.cls[k])...))
				}
			}
			// back, other clauses, and forward again
			for j := len(saves) - 1; j >= 0; j -= 2 {
				err := s.LoadState(saves[j].st)
				c.Assert(err == nil, "%s: load: %v", what, err)
				check(saves[j].n, "loaded")
				upto := min(len(ch.cls), saves[j].n+step)
				for k := upto - 1; k >= saves[j].n; k-- {
					s.Add(fac.Clause(mkLits(fac, ch.cls[k])...))
				}
				check(upto, "loaded and extended backwards")
			}
		}
		return []Domain{
			chainDomain("chains-9", chains(9, 2), t.pick(5, 1), "clause by clause with calls in between, states saved and loaded", run),
			chainDomain("chains-67", chains(67, 2), t.pick(11, 1), "clause by clause with calls in between, states saved and loaded", run),
		}
	}

	// ---- P14: cores
	extra["P14"] = func(t Tier) []Domain {
		run := func(c *C, ch chain, p dpPlan, i int) {
			if p.sat(nil) {
				c.Outcome("sat")
				return
			}
			pcs := proofConfigs()
			cf := pcs[i/3%len(pcs)]
			fac := f.NewFactory()
			s := sat.NewSolver(fac, cf.mk())
			what := cf.name + " " + ch.key
			ps := make([]f.Proposition, len(ch.cls))
			idx := map[f.Proposition]int{}
			for j := range ch.cls {
				k := j
				if i&1 == 1 {
					k = len(ch.cls) - 1 - j
				}
				ps[j] = f.NewStandardProposition(fac.Clause(mkLits(fac, ch.cls[k])...), fmt.Sprint("p", k))
				idx[ps[j]] = k
				s.AddProposition(ps[j])
				if j == len(ps)/2 && i&2 == 2 {
					s.Sat()
				}
			}
			res := s.Call(sat.Params().WithCore())
			c.Step()
			c.Assert(res.OK() && !res.Sat(), "%s: satisfiable", what)
			core := res.UnsatCore()
			c.Assert(core != nil, "%s: no core", what)
			var cls [][]int
			seen := map[f.Proposition]bool{}
			for _, q := range core.Propositions {
				k, ok := idx[q]
				c.Assert(ok && !seen[q], "%s: the core has an unknown or repeated proposition", what)
				seen[q] = true
				cls = append(cls, ch.cls[k])
			}
			c.Assert(!planOf(ch.n, chain{cls: cls}.factors()).sat(nil), "%s: the core of %d clauses is satisfiable", what, len(cls))
			c.Outcome(fmt.Sprintf("core of >= %d", len(cls)/10*10))
		}
		return []Domain{
			chainDomain("chains-9", chains(9, 3), t.pick(2, 1), "clauses as propositions, cores against the dynamic program", run),
			chainDomain("chains-67", chains(67, 3), t.pick(7, 1), "clauses as propositions, cores against the dynamic program", run),
		}
	}

	// ---- P16: backbones
	extra["P16"] = func(t Tier) []Domain {
		run := func(c *C, ch chain, p dpPlan, i int) {
			cf := rotCfg(i)
			fac := f.NewFactory()
			s := sat.NewSolver(fac, cf.mk())
			for _, cl := range ch.cls {
				s.Add(fac.Clause(mkLits(fac, cl)...))
			}
			what := cf.name + " " + ch.key
			for rep := 0; rep < 2; rep++ {
				kind := []sat.BackboneSort{sat.BBBoth, sat.BBPos, sat.BBNeg}[(i+rep)%3]
				bb := s.ComputeBackbone(fac, mkVars(fac, ch.n), kind)
				c.Step()
				c.Assert(bb.Sat == p.sat(nil), "%s: satisfiability %v", what, bb.Sat)
				if !bb.Sat {
					c.Outcome("unsat")
					return
				}
				pos, neg, opt := map[f.Variable]bool{}, map[f.Variable]bool{}, map[f.Variable]bool{}
				for _, v := range bb.Positive {
					pos[v] = true
				}
				for _, v := range bb.Negative {
					neg[v] = true
				}
				for _, v := range bb.Optional {
					opt[v] = true
				}
				nb := 0
				for v := 0; v < ch.n; v++ {
					x := mkVar(fac, v)
					t1, t0 := p.sat(map[int]bool{v: true}), p.sat(map[int]bool{v: false})
					if kind != sat.BBNeg {
						c.Assert(pos[x] == !t0, "%s: kind %v: %s positive: %v, must be %v", what, kind, vname(v), pos[x], !t0)
					}
					if kind != sat.BBPos {
						c.Assert(neg[x] == !t1, "%s: kind %v: %s negative: %v, must be %v", what, kind, vname(v), neg[x], !t1)
					}
					if kind == sat.BBBoth {
						c.Assert(opt[x] == (t0 && t1), "%s: %s optional: %v, must be %v", what, vname(v), opt[x], t0 && t1)
					}
					if !t0 || !t1 {
						nb++
					}
				}
				c.Outcome(fmt.Sprintf("backbone of >= %d", nb/10*10))
			}
		}
		return []Domain{
			chainDomain("chains-9", chains(9, 2), t.pick(5, 1), "two backbones per solver against the dynamic program", run),
			chainDomain("chains-67", chains(67, 3), t.pick(29, 5), "two backbones per solver against the dynamic program", run),
		}
	}

	// ---- P17: literal optimisation
	extra["P17"] = func(t Tier) []Domain {
		run := func(c *C, ch chain, p dpPlan, i int) {
			cf := rotCfg(i)
			fac := f.NewFactory()
			s := sat.NewSolver(fac, cf.mk())
			for _, cl := range ch.cls {
				s.Add(fac.Clause(mkLits(fac, cl)...))
			}
			what := cf.name + " " + ch.key
			for rep := 0; rep < 3; rep++ {
				var lits []int
				fs := ch.factors()
				max := rep&1 == 1
				for v := 0; v < ch.n; v++ {
					l := 2*v + []int{0, 1, v & 1, v / 2 & 1}[(i+rep)%4]
					if (i/4+rep+v)%5 == 0 {
						continue
					}
					lits = append(lits, l)
					if max {
						fs = append(fs, factor{[]int{l}, 1})
					} else {
						fs = append(fs, factor{[]int{l ^ 1}, 1})
					}
				}
				best, ok := planOf(ch.n, fs).minCost(nil)
				var mdl *model.Model
				if max {
					mdl = s.Maximize(mkLits(fac, lits), mkVars(fac, ch.n)...)
					best = len(lits) - best
				} else {
					mdl = s.Minimize(mkLits(fac, lits), mkVars(fac, ch.n)...)
				}
				c.Step()
				c.Assert((mdl != nil) == ok, "%s: satisfiability", what)
				if !ok {
					c.Outcome("unsat")
					return
				}
				a := assignOf(c, fac, mdl, what)
				modelOK(c, ch.cls, a, what)
				got := 0
				for _, l := range lits {
					v, known := a[l>>1]
					c.Assert(known, "%s: %s is not assigned", what, vname(l>>1))
					if v == (l&1 == 0) {
						got++
					}
				}
				c.Assert(got == best, "%s: max=%v of %d literals: %d, must be %d", what, max, len(lits), got, best)
				c.Outcome(fmt.Sprintf("optimum >= %d", best/5*5))
			}
		}
		return []Domain{
			chainDomain("chains-9", chains(9, 2), t.pick(5, 1), "three optimisations per solver against the dynamic program", run),
			chainDomain("chains-22", chains(22, t.pick(2, 3)), t.pick(5, 7), "three optimisations per solver against the dynamic program", run),
		}
	}

	// ---- P18: MaxSAT
	extra["P18"] = func(t Tier) []Domain {
		vs := msVariants()
		run := func(c *C, ch chain, _ dpPlan, i int) {
			// hard: every third clause (or none); soft: the others, and unit clauses
			var fs []factor
			uniform := i/2%3 == 0
			for j, cl := range ch.cls {
				w := 1
				if !uniform {
					w = []int{1, 2, 3, 1, 5}[(j+i)%5]
				}
				if (j+i)%3 == 0 && i%4 != 0 {
					w = -1
				}
				fs = append(fs, factor{cl, w})
			}
			for v := 0; v < ch.n; v += 2 {
				fs = append(fs, factor{[]int{2*v + (v/2+i)&1}, map[bool]int{true: 1, false: 1 + v%4}[uniform]})
			}
			best, ok := planOf(ch.n, fs).minCost(nil)
			for k := 0; k < 5; k++ {
				v := vs[(i+k*7)%len(vs)]
				if uniform && !v.unweighted || !uniform && !v.weighted {
					continue
				}
				fac := f.NewFactory()
				s := v.mk(fac, cnfMethods[(i+k)%3])
				for _, x := range fs {
					fm := fac.Clause(mkLits(fac, x.lits)...)
					if x.w < 0 {
						s.AddHardFormula(fm)
					} else {
						s.AddSoftFormula(fm, x.w)
					}
				}
				res := s.Solve()
				c.Step()
				what := v.name + " " + ch.key
				c.Assert(res.Satisfiable == ok, "%s: satisfiable %v, must be %v", what, res.Satisfiable, ok)
				if !ok {
					c.Outcome("unsat")
					continue
				}
				c.Assert(res.Optimum == best, "%s: optimum %d, must be %d", what, res.Optimum, best)
				a := assignOf(c, fac, res.Model, what)
				val := func(v int) bool { return a[v] }
				got, hok := costOf(fs, val)
				c.Assert(hok && got == best, "%s: the model has cost %d (hard %v), must be %d", what, got, hok, best)
				c.Outcome(fmt.Sprintf("optimum >= %d", best/5*5))
			}
		}
		return []Domain{
			chainDomain("chains-8", chains(8, 2), t.pick(5, 1), "hard and soft (uniform or weighted) clauses; five algorithm variants each in rotation; optimum and model against the dynamic program", run),
			chainDomain("chains-24", chains(24, 1), t.pick(5, 1), "hard and soft (uniform or weighted) clauses; five algorithm variants each in rotation; optimum and model against the dynamic program", run),
			chainDomain("chains-14", chains(14, 2), t.pick(11, 1), "hard and soft (uniform or weighted) clauses; five algorithm variants each in rotation; optimum and model against the dynamic program", run),
		}
	}

	// ---- P20: projections of long chains
	extra["P20"] = func(t Tier) []Domain {
		strategies := []meStrategy{
			{"default", func(f.Factory) iter.Strategy { return iter.DefaultStrategy() }},
			{"no split", func(f.Factory) iter.Strategy { return iter.NewNoSplitMEStrategy() }},
			{"most common 0.5 12, 100", func(f.Factory) iter.Strategy {
				return iter.NewBasicStrategy(iter.NewMostCommonVarProvider(0.5, 12), 100)
			}},
			{"least common 0.5 18, 20", func(f.Factory) iter.Strategy {
				return iter.NewBasicStrategy(iter.NewLeastCommonVarProvider(0.5, 18), 20)
			}},
			{"peel", func(f.Factory) iter.Strategy { return peelStrategy{16, 32, 3} }},
			{"most common 1 5, 50", func(f.Factory) iter.Strategy { return iter.NewBasicStrategy(iter.NewMostCommonVarProvider(1, 5), 50) }},
		}
		run := func(maxVars int) func(c *C, ch chain, p dpPlan, i int) {
			return func(c *C, ch chain, p dpPlan, i int) {
				cf := rotCfg(i)
				fac := f.NewFactory()
				s := sat.NewSolver(fac, cf.mk())
				if i%2 == 0 {
					mkVar(fac, ch.n) // a variable that the solver does not know
				}
				for _, cl := range ch.cls {
					s.Add(fac.Clause(mkLits(fac, cl)...))
				}
				k := i % (maxVars + 1)
				unknown := i / 3 % 4
				var vars, add []int
				for j := 0; j < k; j++ {
					vars = append(vars, (i+j*(ch.n/max(k, 1)))%ch.n)
				}
				for j := 0; j < i/5%4; j++ {
					add = append(add, (i/7+j*9)%ch.n)
				}
				for j := 0; j < unknown; j++ {
					if (i+j)%3 == 0 {
						add = append(add, ch.n+j)
					} else if k < 10 {
						vars = append(vars, ch.n+j)
					}
				}
				st := strategies[i/11%len(strategies)]
				what := fmt.Sprintf("%s %s vars %v add %v strategy %s", cf.name, ch.key, vars, add, st.name)
				want := map[uint64]bool{}
				for a := uint64(0); a < 1<<uint(len(vars)); a++ {
					fix := map[int]bool{}
					for j, v := range vars {
						if v < ch.n {
							fix[v] = a>>uint(j)&1 == 1
						}
					}
					if p.sat(fix) {
						want[a] = true
					}
				}
				for rep := 0; rep < 2; rep++ {
					cfg := &iter.Config{Handler: handler.NopHandler, Strategy: st.mk(fac)}
					ms, hs := enum.OnSolverWithConfig(s, varsOf(fac, vars), cfg, varsOf(fac, add)...)
					c.Step()
					c.Assert(hs.Success, "%s: canceled", what)
					c.Assert(len(ms) == len(want), "%s: %d models, there are %d", what, len(ms), len(want))
					seen := map[uint64]bool{}
					for mi, m := range ms {
						a := assignOf(c, fac, m, what)
						var key uint64
						fix := map[int]bool{}
						for j, v := range vars {
							b, ok := a[v]
							c.Assert(ok, "%s: %s is not assigned", what, vname(v))
							if b {
								key |= 1 << uint(j)
							}
							if v < ch.n {
								fix[v] = b
							}
						}
						c.Assert(want[key] && !seen[key], "%s: a wrong or repeated model", what)
						seen[key] = true
						for _, v := range add {
							b, ok := a[v]
							c.Assert(ok, "%s: the additional variable %s is not assigned", what, vname(v))
							if v < ch.n {
								fix[v] = b
							}
						}
						if len(add) > 0 && mi%7 == 0 {
							c.Assert(p.sat(fix), "%s: the additional variables do not fit", what)
						}
						all := map[int]bool{}
						for _, v := range append(append([]int{}, vars...), add...) {
							all[v] = true
						}
						c.Assert(len(a) == len(all) && len(m.Literals) == len(all), "%s: a model assigns %d variables, must assign %d", what, len(m.Literals), len(all))
					}
				}
				num, hs := count.OnSolverWithConfig(s, varsOf(fac, vars), &iter.Config{Handler: handler.NopHandler, Strategy: st.mk(fac)})
				c.Step()
				c.Assert(hs.Success && num.Int64() == int64(len(want)), "%s: counting yields %s models, there are %d", what, num, len(want))
				c.Assert(s.Sat() == p.sat(nil), "%s: wrong verdict afterwards", what)
				c.Outcome(fmt.Sprintf("at least %d models", 1<<(max(0, bits.Len(uint(len(want)))-1))))
			}
		}
		return []Domain{
			chainDomain("chains-9", chains(9, 2), t.pick(7, 1), "projections onto 0 to 6 variables with up to 3 additional and 3 unknown ones, six strategies in rotation, twice on one solver", run(6)),
			chainDomain("chains-30", chains(30, 2), t.pick(7, 1), "projections onto 0 to 12 spread variables with up to 3 additional and 3 unknown ones, six strategies in rotation, twice on one solver", run(12)),
		}
	}

	// ---- P08: constraints over many variables
	extra["P08"] = func(t Tier) []Domain {
		amos := amoConfigs(t == Thorough)
		sizes := []int{40, 49, 64, 65, 100, 129}
		ks := kConfigs()
		var lc [][2]int
		for _, n := range []int{20, 27, 32, 33, 40}[:t.pick(4, 5)] {
			for _, r := range []int{1, 2, n / 3, n / 2, n - 2, n - 1} {
				lc = append(lc, [2]int{n, r})
			}
		}
		count := func(a []bool) int {
			k := 0
			for _, x := range a {
				if x {
					k++
				}
			}
			return k
		}
		return []Domain{
			{"amo-huge", fmt.Sprintf("every AMO encoder/parameter x {<=1, =1} x %v variables: no, every single, and pairs at ten distances", sizes), len(amos) * 2 * len(sizes), func(c *C, i int) {
				m := mixed(i, len(amos), 2, len(sizes))
				cf, n := amos[m[0]], sizes[m[2]]
				fac := f.NewFactory()
				vars := make([]f.Variable, n)
				for v := range vars {
					vars[v] = fac.Var(bigName(v))
				}
				fm := fac.AMO(vars...)
				if m[1] == 1 {
					fm = fac.EXO(vars...)
				}
				c.Key("%s %d %d", cf.name, m[1], n)
				got := encodeVariant(c, fac, fm, cf.cfg, 0)
				c.State(uint64(i))
				as := [][]bool{make([]bool, n)}
				for x := 0; x < n; x++ {
					for k, d := range []int{0, 1, 2, 3, 4, 5, 7, 8, 16, 31, n / 2} {
						if k > 0 && t == Quick && (x+k)%5 != 0 {
							continue
						}
						a := make([]bool, n)
						a[x], a[(x+d)%n] = true, true
						as = append(as, a)
					}
				}
				checkEncodedOn(c, fac, got, n, as, func(a []bool) bool { return count(a) == 1 || count(a) == 0 && m[1] == 0 }, cf.name)
				c.Outcome(cf.name)
			}},
			{"cc-huge", fmt.Sprintf("all k encoders x {=,<=,>=} x (variables, bound) in %v: blocks and spread patterns of weight bound-1..bound+1 at six starts", lc), len(ks) * 3 * len(lc), func(c *C, i int) {
				m := mixed(i, len(ks), 3, len(lc))
				cf, n, rhs := ks[m[0]], lc[m[2]][0], lc[m[2]][1]
				fac := f.NewFactory()
				vars := make([]f.Variable, n)
				for v := range vars {
					vars[v] = fac.Var(bigName(v))
				}
				cmp := []f.CSort{f.EQ, f.LE, f.GE}[m[1]]
				fm := fac.CC(cmp, uint32(rhs), vars...)
				c.Key("%s %v %d %d", cf.name, cmp, n, rhs)
				got := encodeVariant(c, fac, fm, cf.cfg, 0)
				c.State(uint64(i))
				var as [][]bool
				for w := max(rhs-1, 0); w <= min(rhs+1, n); w++ {
					for st := 0; st < n; st += n/6 + 1 {
						a, b := make([]bool, n), make([]bool, n)
						for k := 0; k < w; k++ {
							a[(st+k)%n] = true
							p := (st + 3*k) % n
							for b[p] {
								p = (p + 1) % n
							}
							b[p] = true
						}
						as = append(as, a, b)
					}
				}
				checkEncodedOn(c, fac, got, n, as, func(a []bool) bool { return cmpEval(cmp, count(a), rhs) }, fmt.Sprintf("%s: %v %d of %d", cf.name, cmp, rhs, n))
				c.Outcome(fmt.Sprint(cmp))
			}},
		}
	}

	// ---- P09: many literals
	extra["P09"] = func(t Tier) []Domain {
		cfgs := pbcConfigs()
		ns := []int{7, 9, 10}[:t.pick(1, 3)]
		return []Domain{
			{"periodic", fmt.Sprintf("%v literals, coefficients repeating with period three out of 1..5, phases with period two, <= five bounds, encoders rotate", ns), 125 * len(ns) * 5 * 4 * 2, func(c *C, i int) {
				m := mixed(i, 125, len(ns), 5, 4, 2)
				n, d := ns[m[1]], digits(m[0], 5, 3)
				coef, lits := make([]int, n), make([]int, n)
				sum := 0
				for j := range coef {
					coef[j] = d[j%3] + 1
					lits[j] = 2*j + m[3]>>uint(j%2)&1
					sum += coef[j]
				}
				rhs := []int{1, sum / 4, sum / 2, 3 * sum / 4, sum - 1}[m[2]]
				checkPBC(c, ePBC(f.LE, rhs, coef, lits), n, cfgs[(m[0]+m[1]+m[2]+m[3]+5*m[4])%len(cfgs)], i%5)
			}},
		}
	}

	// ---- P03: evaluation with many variables
	extra["P03"] = func(t Tier) []Domain {
		run := func(c *C, ch chain, p dpPlan, i int) {
			fac := f.NewFactory()
			fm := ch.formula(fac)
			if i%2 == 0 {
				fm = normalform.NNF(fac, fac.Not(fac.Not(fm)))
			}
			for k := 0; k < 6; k++ {
				// an assignment that follows a model as far as possible, with one deviation for odd k
				fix := map[int]bool{}
				for v := 0; v < ch.n; v++ {
					fix[v] = (v*(k+1)+i)>>uint(k%3)&1 == 1
					if !p.sat(fix) {
						fix[v] = !fix[v]
					}
				}
				dev := (i*7 + k*13) % ch.n
				if k%2 == 1 {
					fix[dev] = !fix[dev]
				}
				_, want := costOf(ch.factors(), func(v int) bool { return fix[v] })
				var lits []f.Literal
				cm := map[f.Variable]bool{}
				for v := ch.n - 1; v >= 0; v-- {
					lits = append(lits, fac.Lit(vname(v), fix[v]))
					cm[mkVar(fac, v)] = fix[v]
				}
				ass, err := assignment.New(fac, lits...)
				c.Assert(err == nil, "%s: %v", ch.key, err)
				c.Step()
				got := assignment.Evaluate(fac, fm, ass)
				c.Assert(got == want, "%s: evaluates to %v under %v, must be %v", ch.key, got, fix, want)
				r := assignment.Restrict(fac, fm, ass)
				c.Assert(r == fac.Constant(want), "%s: restricted to %s under %v, must be %v", ch.key, r.Sprint(fac), fix, want)
				c.Assert(assignment.EvaluatesToTrue(fac, fm, cm) == want && assignment.EvaluatesToFalse(fac, fm, cm) == !want, "%s: constant value under %v, must be %v", ch.key, fix, want)
				// restricted in two parts
				h := len(lits) / 3 * (1 + k%2)
				a1, _ := assignment.New(fac, lits[:h]...)
				a2, _ := assignment.New(fac, lits[h:]...)
				part := assignment.Restrict(fac, fm, a1)
				vs := f.Variables(fac, part)
				for v := range fix {
					if v >= ch.n-h {
						c.Assert(!vs.Contains(mkVar(fac, v)), "%s: %s is still there after the restriction", ch.key, vname(v))
					}
				}
				c.Assert(assignment.Evaluate(fac, part, a2) == want, "%s: restricted and evaluated to %v, must be %v", ch.key, !want, want)
				c.Outcome(fmt.Sprint(want))
			}
		}
		return []Domain{chainDomain("chains-130", chains(130, 2), t.pick(37, 3), "six assignments each: evaluation, restriction at once and in two parts, constant value", run)}
	}

	// ---- P24: primes of longer clause sets
	extra["P24"] = func(t Tier) []Domain {
		minimum := func(c *C, ch chain, p dpPlan, i int) {
			fac := f.NewFactory()
			fm := ch.formula(fac)
			lits, err := primeimplicant.Minimum(fac, fm)
			c.Step()
			if !p.sat(nil) {
				c.Assert(err != nil, "%s: an implicant of an unsatisfiable formula", ch.key)
				c.Outcome("no implicant")
				return
			}
			c.Assert(err == nil, "%s: %v", ch.key, err)
			a := assignOf(c, fac, model.New(lits...), ch.key)
			c.Assert(len(a) == len(lits), "%s: repeated or unknown literals in %s", ch.key, litsString(fac, lits))
			modelOK(c, ch.cls, a, ch.key)
			want := ch.leastImplicant()
			if ch.n <= 7 {
				ref := 99
				for q := range primesOf(ttOfClauses(ch.cls, ch.n)) {
					ref = min(ref, popcount(q.mask))
				}
				c.Assert(ref == want, "%s: the reference says %d, must be %d", ch.key, want, ref)
			}
			c.Assert(len(lits) == want, "%s: a prime implicant of size %d, the smallest has size %d", ch.key, len(lits), want)
			c.Outcome(fmt.Sprintf("minimum >= %d", want/5*5))
		}
		cover := func(c *C, ch chain, p dpPlan, i int) {
			fac := f.NewFactory()
			fm := ch.formula(fac)
			tt := ttOfClauses(ch.cls, ch.n)
			cs := primeimplicant.CoverSort(i % 2)
			var r *primeimplicant.PrimeResult
			if i/2%2 == 0 {
				r = primeimplicant.CoverMin(fac, fm, cs)
			} else {
				r = primeimplicant.CoverMax(fac, fm, cs)
			}
			c.Step()
			checkPrimes(c, fac, tt, ch.n, r, cs)
			c.Outcome(fmt.Sprintf("%d implicants", min(len(r.Implicants), 20)))
		}
		return []Domain{
			chainDomain("minimum-chains-7", chains(7, 2), t.pick(7, 1), "minimum prime implicant against the dynamic program", minimum),
			chainDomain("minimum-chains-24", chains(24, 2), t.pick(11, 1), "minimum prime implicant against the dynamic program", minimum),
			chainDomain("cover-chains-7", chains(7, 2), t.pick(19, 1), "prime covers against all primes of the truth table", cover),
		}
	}

	// ---- P25: simplifications of long clause sets
	extra["P25"] = func(t Tier) []Domain {
		run := func(c *C, ch chain, p dpPlan, i int) {
			fac := f.NewFactory()
			fm := ch.formula(fac)
			var res f.Formula
			var what string
			switch i % 3 {
			case 0:
				what = "subsumption"
				r, err := simplification.CNFSubsumption(fac, fm)
				c.Assert(err == nil, "%s: %v", ch.key, err)
				res = r
			case 1:
				what = "unit propagation"
				res = simplification.PropagateUnits(fac, fm)
			case 2:
				what = "backbone propagation"
				res = simplification.PropagateBackbone(fac, fm)
			}
			c.Step()
			cls, ok := toClauses([]*E{newReader(fac, ch.n).term(res)})
			c.Assert(ok, "%s: %s: no clauses: %s", ch.key, what, res.Sprint(fac))
			for _, cl := range cls {
				fix := map[int]bool{}
				for _, l := range cl {
					fix[l>>1] = l&1 == 1
				}
				c.Assert(!p.sat(fix), "%s: %s: the clause %v does not follow", ch.key, what, eOrLits(cl))
			}
			var fs []factor
			for _, cl := range cls {
				fs = append(fs, factor{cl, -1})
			}
			got, want := planOf(ch.n, fs).models(nil), p.models(nil)
			c.Assert(got.Cmp(want) == 0, "%s: %s: %v models, must have %v", ch.key, what, got, want)
			if i%3 == 0 {
				for x, a := range cls {
					for y, b := range cls {
						if x != y {
							sub := true
							for _, l := range a {
								in := false
								for _, k := range b {
									in = in || l == k
								}
								sub = sub && in
							}
							c.Assert(!sub, "%s: %v still subsumes %v", ch.key, eOrLits(a), eOrLits(b))
						}
					}
				}
			}
			c.Outcome(what)
		}
		return []Domain{
			chainDomain("chains-9", chains(9, 3), t.pick(7, 1), "subsumption, unit and backbone propagation in rotation: the result implies and is implied", run),
			chainDomain("chains-67", chains(67, 3), t.pick(53, 5), "subsumption, unit and backbone propagation in rotation: the result implies and is implied", run),
		}
	}

	// ---- P26: long DIMACS files
	extra["P26"] = func(t Tier) []Domain {
		run := func(c *C, ch chain, _ dpPlan, i int) {
			dimacsRoundTrip(c, ch.cls, ch.n, i, false)
		}
		return []Domain{chainDomain("dimacs-chains-130", chains(130, 2), t.pick(37, 5), "DIMACS files written and read back", run)}
	}

	// ---- P27: many components, long covers
	extra["P27"] = func(t Tier) []Domain {
		edges := [][2]int{{0, 1}, {1, 2}, {0, 2}}
		copies := t.pick(140, 140)
		interval := func(c *C, n int, lens []int) {
			c.Key("intervals n=%d lens=%v", n, lens)
			var sets [][]int
			need := 0
			for a := 0; a < n; a++ {
				l := lens[a%len(lens)]
				if l == 0 {
					continue
				}
				var s []int
				for x := a; x < min(a+l, n); x++ {
					s = append(s, x)
				}
				sets = append(sets, s)
			}
			covered := make([]bool, n)
			for _, s := range sets {
				for _, x := range s {
					covered[x] = true
				}
			}
			// intervals: greedy is optimal
			for x := 0; x < n; {
				if !covered[x] {
					x++
					continue
				}
				end := x
				for _, s := range sets {
					if s[0] <= x && s[len(s)-1] >= x {
						end = max(end, s[len(s)-1]+1)
					}
				}
				need++
				x = end
			}
			res := np.MinimumSetCover(sets)
			c.Step()
			given := map[string]int{}
			for _, s := range sets {
				given[fmt.Sprint(s)]++
			}
			got := make([]bool, n)
			for _, s := range res {
				given[fmt.Sprint(s)]--
				c.Assert(given[fmt.Sprint(s)] >= 0, "%v in the cover is none of the sets", s)
				for _, x := range s {
					got[x] = true
				}
			}
			for x := range got {
				c.Assert(got[x] == covered[x], "%d is not covered", x)
			}
			c.Assert(len(res) == need, "the cover of %v has %d sets, %d suffice", sets, len(res), need)
			c.Outcome(fmt.Sprintf("cover of >= %d", need/5*5))
			c.StateS(fmt.Sprint(n, lens))
		}
		return []Domain{
			{"graph-copies", fmt.Sprintf("1..%d disjoint copies of each of the 8 graphs over three nodes, copies rotated and interleaved", copies), 8 * copies * 2, func(c *C, i int) {
				m := mixed(i, 8, copies, 2)
				k := m[1] + 1
				c.Key("%v", m)
				c.StateS(fmt.Sprint(m))
				fac := f.NewFactory()
				var fms []f.Formula
				node := func(copy, x int) int {
					if m[2] == 0 {
						return 3*copy + x
					}
					return copy + k*x
				}
				for q := 0; q < k; q++ {
					for x := 0; x < 3; x++ {
						if (q+x+i)%2 == 0 || m[0] != 7 {
							fms = append(fms, mkLit(fac, 2*node(q, x)+(q+x)&1).AsFormula())
						}
					}
					for e, xy := range edges {
						if m[0]>>e&1 == 1 {
							fms = append(fms, mk(fac, eOr(eVar(node(q, xy[0])), eLit(2*node(q, xy[1])+1))))
						}
					}
				}
				r := (i * 11) % len(fms)
				checkConstraintGraph(c, fac, append(append([]f.Formula{}, fms[r:]...), fms[:r]...), 3*k, i)
			}},
			{"cover-intervals", "intervals over 5..64 points, lengths repeating with period three out of 0..4", 60 * 125, func(c *C, i int) {
				m := mixed(i, 60, 5, 5, 5)
				interval(c, m[0]+5, m[1:])
			}},
		}
	}

	// ---- P07: CNF of a disjunction of two chains
	extra["P07"] = func(t Tier) []Domain {
		run := func(c *C, ch chain, p dpPlan, i int) {
			sp := chains(ch.n, 1)
			o := sp.at(i * 7 % sp.N)
			po := planOf(o.n, o.factors())
			fac := f.NewFactory()
			fm := fac.Or(ch.formula(fac), fac.And(o.formula(fac), mk(fac, eLit(i%(2*ch.n)))))
			x := i % (2 * ch.n)
			neg := i%3 == 0
			if neg {
				fm = fac.Not(fm)
			}
			var cnf f.Formula
			switch i % 4 {
			case 0:
				cnf = normalform.TseitinCNFWithBoundary(fac, fm, 0)
			case 1:
				cnf = normalform.PGCNFWithBoundary(fac, fm, 0)
			case 2:
				cnf = normalform.CNF(fac, fm)
			case 3:
				cnf = normalform.TseitinCNFWithBoundary(fac, fm, 12)
			}
			c.Step()
			c.Assert(normalform.IsCNF(fac, cnf), "%s: no CNF", ch.key)
			s := sat.NewSolver(fac, sat.DefaultConfig().CNF(sat.CNFFactory))
			s.Add(cnf)
			for j := 0; j < 12; j++ {
				a, b := (i+j*5)%ch.n, (i/3+j*7+1)%ch.n
				if a == b {
					continue
				}
				fix := map[int]bool{a: j&1 == 1, b: j&2 == 2}
				var want bool
				if !neg {
					fx := map[int]bool{}
					for v, bb := range fix {
						fx[v] = bb
					}
					second := true
					if v, ok := fx[x>>1]; ok && v != (x&1 == 0) {
						second = false
					}
					fx[x>>1] = x&1 == 0
					want = p.sat(fix) || second && po.sat(fx)
				} else {
					// is there an assignment violating both?
					want = notBoth(ch, o, x, fix)
				}
				res := s.Call(sat.Params().Literal(fac.Lit(vname(a), fix[a]), fac.Lit(vname(b), fix[b])))
				c.Step()
				c.Assert(res.Sat() == want, "%s and %s (negated %v): CNF under %v is sat=%v, must be %v", ch.key, o.key, neg, fix, res.Sat(), want)
				c.Outcome(fmt.Sprint("sat=", want))
			}
		}
		return []Domain{
			chainDomain("chains-40", chains(40, 2), t.pick(7, 1), "disjunction with a second chain and its negation, Tseitin, Plaisted-Greenbaum and default CNF: verdicts under 12 pairs of assumptions", run),
		}
	}
}

// leastImplicant: the least number of literals that satisfy every clause (paths and rings)
func (ch chain) leastImplicant() int {
	p := planOf(ch.n, ch.factors())
	const inf = 1 << 30
	hit := func(fs []factor, val func(v int) int) bool {
		for _, x := range fs {
			ok := false
			for _, l := range x.lits {
				ok = ok || val(l>>1) == 1-l&1
			}
			if !ok {
				return false
			}
		}
		return true
	}
	size := func(z int) int {
		if z == 2 {
			return 0
		}
		return 1
	}
	best := inf
	for start := 0; start < 9; start++ { // values of the first two variables: 0, 1, or 2 for unassigned
		s0, s1 := start%3, start/3
		first := func(v int) int { return []int{s0, s1}[v] }
		if !hit(p.at[0], first) || !hit(p.at[1], first) {
			continue
		}
		cur := map[[2]int]int{{s0, s1}: size(s0) + size(s1)}
		for i := 2; i < ch.n; i++ {
			next := map[[2]int]int{}
			for st, k := range cur {
				for z := 0; z < 3; z++ {
					if hit(p.at[i], func(v int) int { return []int{st[0], st[1], z}[v-i+2] }) {
						ns := [2]int{st[1], z}
						if o, ok := next[ns]; !ok || k+size(z) < o {
							next[ns] = k + size(z)
						}
					}
				}
			}
			cur = next
		}
		for st, k := range cur {
			if hit(p.wrap, func(v int) int {
				switch v {
				case 0, 1:
					return first(v)
				}
				return st[v-ch.n+2]
			}) {
				best = min(best, k)
			}
		}
	}
	return best
}

// notBoth: is there an assignment extending fix that violates a clause of a and violates (b and literal x)?
func notBoth(a, b chain, x int, fix map[int]bool) bool {
	can := func(c1 []int, c2 []int) bool { // falsify all literals of c1 and c2 under fix
		fx := map[int]bool{}
		for v, y := range fix {
			fx[v] = y
		}
		for _, cl := range [][]int{c1, c2} {
			for _, l := range cl {
				if v, ok := fx[l>>1]; ok && v == (l&1 == 0) {
					return false
				}
				fx[l>>1] = l&1 == 1
			}
		}
		return true
	}
	for _, c1 := range a.cls {
		if !can(c1, nil) {
			continue
		}
		if can(c1, []int{x}) {
			return true
		}
		for _, c2 := range b.cls {
			if can(c1, c2) {
				return true
			}
		}
	}
	return false
}
