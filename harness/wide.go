package main

import (
	"fmt"
	"slices"
	"sort"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/primeimplicant"
)

// Inputs which are wide (many operands or variables), results fed back into the same factory.

// ---- P01: operand lists which differ in two neighbouring places; many of them have the same hash value

func p01Wide(t Tier) Domain {
	nv := t.pick(60, 90)
	sizes := []int{4, 5, 6, 8, 13}
	return Domain{
		Name: "wide-collisions", Bound: fmt.Sprintf("in one factory each: all formulas (And, Or, PBC by literals, PBC by coefficients, CC) with %v operands which differ in two neighbouring operands (first, middle or last), over %d variables: pairwise distinct, read back, built twice", sizes, nv),
		N: len(sizes) * 3 * 5,
		Run: func(c *C, i int) {
			m := mixed(i, len(sizes), 3, 5)
			size, kind := sizes[m[0]], m[2]
			at := []int{0, size/2 - 1, size - 2}[m[1]]
			c.Key("size %d at %d kind %d", size, at, kind)
			c.StateS(fmt.Sprint(m))
			fac := f.NewFactory()
			n := 2 * (nv + size)
			lits := make([]f.Literal, n)
			for v := range lits {
				lits[v] = fac.Lit(vname(v>>1), v&1 == 0)
			}
			build := func(a, b int) f.Formula {
				ops := make([]f.Literal, size)
				co := make([]int, size)
				for j := range ops {
					ops[j], co[j] = lits[2*(nv+j)+j%2], 1+j
					if kind == 4 {
						ops[j], co[j] = lits[2*(nv+j)], 1
					}
				}
				if kind == 3 {
					co[at], co[at+1] = a-nv, b-nv
				} else {
					ops[at], ops[at+1] = lits[a], lits[b]
				}
				switch kind {
				case 0:
					return fac.And(f.LiteralsAsFormulas(ops)...)
				case 1:
					return fac.Or(f.LiteralsAsFormulas(ops)...)
				}
				return fac.PBC(f.LE, 2, ops, co)
			}
			check := func(fm f.Formula, a, b int) bool {
				if kind < 2 {
					ops := fac.Operands(fm)
					return len(ops) == size && ops[at] == f.Formula(lits[a]) && ops[at+1] == f.Formula(lits[b])
				}
				_, _, ls, co, ok := fac.PBCOps(fm)
				if !ok || len(ls) != size {
					return false
				}
				if kind == 3 {
					return co[at] == a-nv && co[at+1] == b-nv
				}
				return ls[at] == lits[a] && ls[at+1] == lits[b]
			}
			seen := map[f.Formula][2]int{}
			step := 1
			if kind == 4 {
				step = 2
			}
			each := func(run func(a, b int)) {
				for a := 0; a < 2*nv; a += step {
					for b := 0; b < 2*nv; b += step {
						if a>>1 != b>>1 || kind == 3 {
							run(a, b)
						}
					}
				}
			}
			each(func(a, b int) {
				fm := build(a, b)
				c.Step()
				if o, ok := seen[fm]; ok {
					c.Failf("one formula for the operands %v and %v", o, []int{a, b})
				}
				seen[fm] = [2]int{a, b}
			})
			for fm, e := range seen {
				c.Assert(check(fm, e[0], e[1]), "%v reads back as %s", e, fm.Sprint(fac))
			}
			each(func(a, b int) {
				fm := build(a, b)
				c.Assert(seen[fm] == [2]int{a, b}, "built twice: %d, %d", a, b)
			})
			c.Outcome("many wide formulas")
		}}
}

// ---- P24: disjunctions of cubes (conjunctions of clauses) with disjoint variables

type product struct {
	sizes         []int
	dual, negated bool
}

func products(t Tier) (r []product) {
	for _, ones := range []int{0, 1, 7, 18, 26, 34, 2, 16, 24, 25, 32, 33, 40, 64}[:t.pick(6, 14)] {
		for _, rest := range [][]int{{}, {2}, {3}, {2, 2}, {2, 3}, {8}, {16}, {26}, {33}, {2, 2, 2}, {2, 16}, {4, 4}} {
			if ones+len(rest) == 0 {
				continue
			}
			for k := 0; k < 4; k++ {
				s := append([]int{}, rest...)
				for j := 0; j < ones; j++ {
					s = append(s, 1)
				}
				r = append(r, product{s, k&1 == 1, k&2 == 2})
			}
		}
	}
	return
}

func (p product) String() string {
	return fmt.Sprintf("%v dual=%v negated=%v", p.sizes, p.dual, p.negated)
}

// parts returns the disjoint literal sets, the formula is Or(And(part)...) or And(Or(part)...)
func (p product) parts(i int) (r [][]int) {
	v := 0
	for _, s := range p.sizes {
		var l []int
		for j := 0; j < s; j++ {
			l = append(l, 2*v+(v+i)%3%2)
			v++
		}
		r = append(r, l)
	}
	return
}

func sortedInts(l []int) []int { l = append([]int{}, l...); sort.Ints(l); return l }

func transversals(parts [][]int) [][]int {
	r := [][]int{{}}
	for _, p := range parts {
		var q [][]int
		for _, x := range r {
			for _, l := range p {
				q = append(q, append(append([]int{}, x...), l))
			}
		}
		r = q
	}
	return r
}

func p24Wide(t Tier) Domain {
	ps := products(t)
	return Domain{
		Name: "wide-primes", Bound: "disjunctions of cubes and conjunctions of clauses over disjoint variables (up to 64 literals as parts of their own and up to three larger parts with up to 33 literals), plain and negated: covers for both sorts with minimised and maximised search against the structure, minimum prime implicant",
		N: len(ps) * 5, Run: func(c *C, i int) {
			p, mode := ps[i/5], i%5
			c.Key("%s, mode %d", p, mode)
			c.StateS(p.String())
			fac := f.NewFactory()
			parts := p.parts(i / 5)
			inner, outer := fac.And, fac.Or
			if p.dual {
				inner, outer = fac.Or, fac.And
			}
			var ops []f.Formula
			for _, part := range parts {
				var ls []f.Formula
				for _, l := range part {
					ls = append(ls, mkLit(fac, l).AsFormula())
				}
				ops = append(ops, inner(ls...))
			}
			fm := outer(ops...)
			// the prime implicants and implicates
			imps, ics := parts, transversals(parts)
			if p.dual {
				imps, ics = ics, imps
			}
			if p.negated {
				fm = fac.Not(fm)
				imps, ics = ics, imps
			}
			set := func(ls [][]int, neg bool) []string {
				var r []string
				for _, l := range ls {
					l = append([]int{}, l...)
					for j := range l {
						if neg {
							l[j] ^= 1
						}
					}
					r = append(r, fmt.Sprint(sortedInts(l)))
				}
				sort.Strings(r)
				return r
			}
			n := 0
			for _, s := range p.sizes {
				n += s
			}
			r := newReader(fac, n)
			num := func(lss [][]f.Literal) (o [][]int) {
				for _, ls := range lss {
					var l []int
					for _, x := range ls {
						l = append(l, r.lit(x))
					}
					o = append(o, l)
				}
				return
			}
			c.Step()
			if mode == 4 {
				got, err := primeimplicant.Minimum(fac, fm)
				c.Assert(err == nil, "%v", err)
				want := len(imps[0])
				for _, x := range imps {
					want = min(want, len(x))
				}
				w := set(imps, p.negated)
				c.Assert(len(got) == want && slices.Contains(w, set(num([][]f.Literal{got}), false)[0]), "minimum prime implicant %s, the least size is %d", litsString(fac, got), want)
				c.Outcome("minimum")
				return
			}
			cs := primeimplicant.CoverSort(mode % 2)
			var res *primeimplicant.PrimeResult
			if mode < 2 {
				res = primeimplicant.CoverMin(fac, fm, cs)
			} else {
				res = primeimplicant.CoverMax(fac, fm, cs)
			}
			a, b := set(num(res.Implicants), false), set(imps, p.negated)
			c.Assert(slices.Equal(a, b), "prime implicants %v, must be %v", a, b)
			a, b = set(num(res.Implicates), false), set(ics, p.negated)
			c.Assert(slices.Equal(a, b), "prime implicates %v, must be %v", a, b)
			c.Outcome("cover")
		}}
}

// ---- P06: results of a normal form as input of another one

func p06Feedback(t Tier) Domain {
	nfs := normalForms()
	l := level(litAtoms(3, false))
	s := union(l, stride(binary(stride(l, 7), stride(l, 11)), t.pick(7, 1)), stride(nary(stride(l, 11), 3), t.pick(5, 1)))
	return Domain{
		Name: "feedback", Bound: fmt.Sprintf("%d formulas over 3 variables, all ordered pairs of normal forms on one factory: the second one on the result of the first one, on its negation, and on the negation of the formula", s.N),
		N: s.N * len(nfs), Run: func(c *C, i int) {
			e := s.At(i / len(nfs))
			first := nfs[i%len(nfs)]
			c.Key("%s after %s", e, first.name)
			tt := ttOfE(e, 3)
			c.State(tt.hash())
			for _, second := range nfs {
				fac := f.NewFactory()
				fm := mk(fac, e)
				r := checkNF(c, fac, fm, tt, 3, first)
				checkNF(c, fac, fac.Not(r), tt.not(), 3, second)
				checkNF(c, fac, r, tt, 3, second)
				checkNF(c, fac, fac.Not(fm), tt.not(), 3, second)
				checkNF(c, fac, fac.Not(fac.Not(r)), tt, 3, first)
			}
			c.Outcome(first.name)
		}}
}

func init() {
	extra["P01"] = append2(extra["P01"], func(t Tier) []Domain { return []Domain{p01Wide(t)} })
	extra["P24"] = append2(extra["P24"], func(t Tier) []Domain { return []Domain{p24Wide(t)} })
	extra["P06"] = append2(extra["P06"], func(t Tier) []Domain { return []Domain{p06Feedback(t)} })
}
