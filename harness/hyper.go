package main

import (
	"fmt"
	"math/bits"

	f "github.com/booleworks/logicng-go/formula"
)

// CNFs whose variables are ordered by FORCE: a fixed part and two clauses chosen in all ways.

type hyperFamily struct {
	n     int
	fixed [][]int
	sizes [2]int // sizes of the two chosen clauses
}

var hyperFamilies = []hyperFamily{
	{8, [][]int{{0}, {1, 2, 3, 4, 5}}, [2]int{5, 5}},
	{7, [][]int{{0}, {1}, {0, 2, 3}, {1, 2, 3, 4, 5}}, [2]int{5, 4}},
	{7, [][]int{{0, 1, 2}, {0, 2, 3, 4, 5}, {2, 4}}, [2]int{5, 5}},
	{8, [][]int{{0, 1, 2, 3, 4}, {0, 1, 3, 5, 6}, {3}}, [2]int{1, 5}},
}

func subsetsOf(n, k int) (r [][]int) {
	for m := 0; m < 1<<n; m++ {
		if bits.OnesCount(uint(m)) == k {
			var s []int
			for v := 0; v < n; v++ {
				if m>>v&1 == 1 {
					s = append(s, v)
				}
			}
			r = append(r, s)
		}
	}
	return
}

func (h hyperFamily) count() int {
	return len(subsetsOf(h.n, h.sizes[0])) * len(subsetsOf(h.n, h.sizes[1]))
}

// at returns the i-th clause set of the family as literals; with flip every second variable is negated
func (h hyperFamily) at(i int, flip bool) (cls [][]int) {
	a, b := subsetsOf(h.n, h.sizes[0]), subsetsOf(h.n, h.sizes[1])
	for _, vs := range append(append([][]int{}, h.fixed...), a[i/len(b)], b[i%len(b)]) {
		var cl []int
		for _, v := range vs {
			l := 2 * v
			if flip && v%2 == 1 {
				l++
			}
			cl = append(cl, l)
		}
		cls = append(cls, cl)
	}
	return
}

func hyperDomains(t Tier, what string, stride int, run func(c *C, h hyperFamily, cls [][]int, i int)) (ds []Domain) {
	for j, h := range hyperFamilies {
		h := h
		ds = append(ds, Domain{Name: fmt.Sprintf("hypergraphs-%d", j),
			Bound: fmt.Sprintf("clauses over %d variables: the sets %v and every choice of a clause with %d and a clause with %d variables (stride %d): %s", h.n, h.fixed, h.sizes[0], h.sizes[1], stride, what),
			N:     (h.count() + stride - 1) / stride, Run: func(c *C, i int) {
				i *= stride
				cls := h.at(i, i%3 == 2)
				c.Key("%v", cls)
				c.StateS(fmt.Sprint(cls))
				run(c, h, cls, i)
			}})
	}
	return
}

func init() {
	extra["P29"] = append2(extra["P29"], func(t Tier) []Domain {
		return hyperDomains(t, "all variable orderings", 1, func(c *C, h hyperFamily, cls [][]int, i int) {
			fac := f.NewFactory()
			checkOrders(c, fac, mk(fac, eAnd(clausesE(cls)...)), h.n)
		})
	})
	extra["P06"] = append2(extra["P06"], func(t Tier) []Domain {
		return hyperDomains(t, "BDD-based CNF and DNF by truth table", t.pick(1, 1), func(c *C, h hyperFamily, cls [][]int, i int) {
			fac := f.NewFactory()
			fm, want := mk(fac, eAnd(clausesE(cls)...)), ttOfClauses(cls, h.n)
			if i%4 == 1 {
				fm, want = fac.Not(fm), want.not()
			}
			for _, nf := range normalForms() {
				if nf.name == "BDD-CNF" || nf.name == "BDD-DNF" {
					checkNF(c, fac, fm, want, h.n, nf)
				}
			}
		})
	})
}

// ---- P18: weights beyond 32 bits, for the algorithms which do not encode the sum of the weights

func init() {
	big := []int{1, 3, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1<<53 + 1, 1 << 60}
	extra["P18"] = append2(extra["P18"], func(t Tier) []Domain {
		var vs []msVar
		for _, v := range msVariants() {
			if v.alg == "OLL" || v.alg == "WBO" || v.alg == "IncWBO" {
				vs = append(vs, v)
			}
		}
		n := 4
		es := edges(n)
		wn := pow(len(big), n)
		stride := t.pick(11, 1)
		return []Domain{{Name: "big-weights",
			Bound: fmt.Sprintf("weighted vertex cover on all graphs with 4 nodes, weights from %v (every combination with stride %d), %d settings of OLL, WBO and IncWBO", big, stride, len(vs)),
			N:     wn << uint(len(es)) / stride, Run: func(c *C, i int) {
				i *= stride
				g := i / wn
				var h []*E
				for j, e := range es {
					if g>>uint(j)&1 == 1 {
						h = append(h, cl(2*e[0], 2*e[1]))
					}
				}
				var ss []soft
				for v, w := range digits(i%wn, len(big), n) {
					ss = append(ss, soft{cl(2*v + 1), big[w]})
				}
				sat, opt := msOpt(n, h, ss)
				c.Key("%s", msString(h, ss))
				c.StateS(msString(h, ss))
				fac := f.NewFactory()
				for k := 0; k < t.pick(3, 6); k++ {
					msRun(c, fac, vs[(i/stride+k*7)%len(vs)], cnfMethods[(i+k)%3], n, h, ss, sat, opt)
				}
			}}}
	})
}
