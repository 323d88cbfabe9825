package main

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
)

// MaxSAT instances built from blocks of variables of which at most k may hold, written as clauses over all k+1-subsets.
// With unit soft clauses the cores have any size and need their bound raised several times, which random or small
// clause sets do not lead to.

type blockCase struct {
	n    int
	hard []*E
	desc string
}

// atMostClauses says with clauses that at most k of vs hold.
func atMostClauses(vs []int, k int) (r []*E) {
	for _, s := range subsetsOf(len(vs), k+1) {
		var ls []int
		for _, i := range s {
			ls = append(ls, 2*vs[i]+1)
		}
		r = append(r, cl(ls...))
	}
	return
}

func interval(from, n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, from+i)
	}
	return
}

func blockCases(n int) (r []blockCase) {
	type block struct{ from, n, k int }
	var bs []block
	for size := 3; size <= n; size++ {
		for from := 0; from+size <= n; from++ {
			for k := 0; k < size; k++ {
				bs = append(bs, block{from, size, k})
			}
		}
	}
	for i, b := range bs {
		h := atMostClauses(interval(b.from, b.n), b.k)
		if b.from == 0 {
			r = append(r, blockCase{n, h, fmt.Sprintf("at most %d of x0..x%d", b.k, b.n-1)})
		}
		for _, d := range bs[i+1:] {
			if b.from != 0 || d.from == 0 || d.k == 0 || b.k == 0 || max(b.from+b.n, d.from+d.n) != n {
				continue
			}
			r = append(r, blockCase{n, append(append([]*E{}, h...), atMostClauses(interval(d.from, d.n), d.k)...),
				fmt.Sprintf("at most %d of x%d..x%d, at most %d of x%d..x%d", b.k, b.from, b.from+b.n-1, d.k, d.from, d.from+d.n-1)})
		}
	}
	return
}

// blockWeights are weight patterns over n soft clauses: equal, few values in several arrangements, and values such that
// every weight exceeds the sum of the smaller ones.
func blockWeights(n int) [][]int {
	pat := func(g func(i int) int) []int {
		r := make([]int, n)
		for i := range r {
			r[i] = g(i)
		}
		return r
	}
	return [][]int{
		pat(func(i int) int { return 1 }),
		pat(func(i int) int { return 3 }),
		pat(func(i int) int { return 1 + i%2 }),
		pat(func(i int) int { return 2 - i%2 }),
		pat(func(i int) int { return 1 + i%3 }),
		pat(func(i int) int { return 1 + i }),
		pat(func(i int) int { return n - i }),
		pat(func(i int) int { return 1 + i/((n+1)/2)*n }),
		pat(func(i int) int { return 1 << uint(2*(i%3)) }),
		pat(func(i int) int { return 1 << uint(n-1-i) }),
		pat(func(i int) int { return []int{20, 1, 1, 5, 5, 1, 20}[i%7] }),
		pat(func(i int) int { return []int{2, 5, 3}[i%3] }),
		pat(func(i int) int { return 1 + (min(i, 2)/2)*n }),
		pat(func(i int) int { return 1 + (min(n-1-i, 2)/2)*n }),
		pat(func(i int) int { return []int{2, 2, 2, 2 * n, 2 * n, 2 * n, 2 * n}[i] }),
	}
}

func init() {
	extra["P18"] = append2(extra["P18"], func(t Tier) []Domain {
		n := t.pick(6, 7)
		cases, ws := blockCases(n), blockWeights(n)
		vs := msVariants()
		each := t.pick(12, len(vs))
		return []Domain{{Name: "at-most-blocks",
			Bound: fmt.Sprintf("one or two overlapping blocks of up to %d variables of which at most k may hold (%d hard parts), %d weight patterns and two orders for the soft unit clauses, %d of the %d algorithm settings each", n, len(cases), len(ws), each, len(vs)),
			N:     len(cases) * len(ws) * 2, Run: func(c *C, i int) {
				b, w, rev := cases[i/2/len(ws)], ws[i/2%len(ws)], i%2 == 1
				var ss []soft
				for v := 0; v < n; v++ {
					x := v
					if rev {
						x = n - 1 - v
					}
					ss = append(ss, soft{cl(2 * x), w[x]})
				}
				sat, opt := msOpt(n, b.hard, ss)
				c.Key("%s; %s", b.desc, msString(nil, ss))
				c.StateS(fmt.Sprint(b.desc, w, rev))
				fac := f.NewFactory()
				for k, done := 0, 0; k < len(vs) && done < each; k++ {
					v := vs[(i*7+k)%len(vs)]
					if v.supports(ss) {
						msRun(c, fac, v, cnfMethods[(i+k)%3], n, b.hard, ss, sat, opt)
						done++
					}
				}
			}}}
	})
}
