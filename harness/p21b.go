package main

import (
	"fmt"
	"math/big"

	"github.com/booleworks/logicng-go/dnnf"
	f "github.com/booleworks/logicng-go/formula"
)

// dnnfKernels: clause sets (positive and negative variable numbers from 1) on which the DNNF compiler learns clauses that
// connect independent components.
var dnnfKernels = [][][]int{
	{{6, 10, 9}, {2, -8}, {-8, 5, -9}, {6, -5, -2}, {7, 9}, {-4, 7, -10, 6}, {-7, -10, -8}, {-4, -7}, {4, 1}},
	{{4, -11}, {-8, 7}, {3, 11}, {8, -12, 10, 4}, {2, -3, 10, 1}, {2, -4, 3}, {4, -8}, {8, 7}, {-1, 2}, {12, 11}, {-9, 10}},
	{{-7, 5, -1}, {11, 1}, {5, -3, 10}, {8, -9}, {7, -8, -4}, {11, -3, -8}, {10, 9, -1}, {9, 1, 8}, {6, 7}, {2, 3, 10}, {2, -11, -7, 10}, {4, -5}},
	{{-5, 2, 12, 7}, {9, 7}, {2, -1, -7}, {10, 12, 9, 5}, {-1, 12, -3}, {-10, 3}, {-4, 8, 10}, {4, -9, -1}, {-11, 12}, {2, -5, -9}, {-12, 2}, {5, 7, -8}, {-4, -8, -2}},
	{{9, -10}, {1, 10}, {-8, -5, 6}, {4, 9, -5}, {4, 12, 1}, {-6, 12, -1, -2}, {11, 8}, {6, 3, 9}, {7, 1, 12, 5}, {11, 2, -10}, {-2, 10, 9, 5}, {5, 3, -4}, {-7, 3, -2}, {6, -2, 12}, {-3, -10}},
	{{9, 2, 10}, {1, -6, -5}, {2, 4}, {4, -8, 7}, {12, -3}, {-12, -11}, {10, -6, -12}, {8, -7, -11, -2}, {-2, 6, -5}, {-9, -6, 4, -2}, {10, 7}, {-1, -9, -3, 8}, {-5, -8}, {-11, -2, 3}, {4, -1, 9}, {5, -10}},
	{{-5, 9}, {2, 9}, {-2, 11}, {4, 11, -12}, {9, -6, 7, -8}, {-10, 1, -6, 3}, {6, -2}, {5, 2, 1}, {4, 13}, {-2, -3}, {-7, -5}, {-13, 12, -7}, {12, 10}, {13, -3, 8}, {9, 13}, {3, 8}, {-5, 7, 4}, {-8, 13, 11}, {8, -2, 4}, {12, -1}, {-3, 11, 6}},
}

// an edit of a clause set: negate a literal, drop a literal, drop a clause, swap two variables, swap two clauses
func editCount(cls [][]int, n int) int {
	l := 0
	for _, c := range cls {
		l += len(c)
	}
	return 1 + 2*l + len(cls) + n*(n-1)/2 + len(cls)*(len(cls)-1)/2
}

func applyEdit(cls [][]int, n, e int) [][]int {
	var r [][]int
	for _, c := range cls {
		r = append(r, append([]int{}, c...))
	}
	if e == 0 {
		return r
	}
	e--
	for i, c := range r {
		if e < len(c) {
			c[e] ^= 1
			return r
		}
		e -= len(c)
		if e < len(c) {
			r[i] = append(c[:e], c[e+1:]...)
			return r
		}
		e -= len(c)
	}
	if e < len(r) {
		return append(r[:e], r[e+1:]...)
	}
	e -= len(r)
	if e < n*(n-1)/2 {
		p := unrankComb(n, 2, e)
		for _, c := range r {
			for j, l := range c {
				switch l >> 1 {
				case p[0]:
					c[j] = 2*p[1] + l&1
				case p[1]:
					c[j] = 2*p[0] + l&1
				}
			}
		}
		return r
	}
	e -= n * (n - 1) / 2
	p := unrankComb(len(r), 2, e)
	r[p[0]], r[p[1]] = r[p[1]], r[p[0]]
	return r
}

func dnnfKernel(k int) ([][]int, int) {
	n := 0
	var cls [][]int
	for _, c := range dnnfKernels[k] {
		var x []int
		for _, l := range c {
			v := max(l, -l) - 1
			n = max(n, v+1)
			if l > 0 {
				x = append(x, 2*v)
			} else {
				x = append(x, 2*v+1)
			}
		}
		cls = append(cls, x)
	}
	return cls, n
}

// checkClausesDNNF compiles the clause set and checks the DNNF
func checkClausesDNNF(c *C, cls [][]int, n int) {
	var keep [][]int
	for _, x := range cls {
		if len(x) > 0 {
			keep = append(keep, x)
		}
	}
	fac := f.NewFactory()
	fm := mk(fac, eAnd(clausesE(keep)...))
	c.Step()
	d := dnnf.Compile(fac, fm)
	want := ttOfClauses(keep, n)
	r := newReader(fac, n)
	t := r.term(d.Formula)
	c.Assert(r.n == n, "%v: the DNNF has unknown variables: %v", keep, t)
	dnnfShape(c, t, n, fmt.Sprint(keep))
	got := ttOfE(t, n)
	c.Assert(got.eq(want), "%v: the DNNF %v has %d models, must have %d", keep, t, got.count(), want.count())
	num := big.NewInt(int64(want.count()))
	num.Rsh(num, uint(n-len(bitsOf(formulaVars(c, fac, fm, n)))))
	c.Assert(d.ModelCount().Cmp(num) == 0, "%v: the DNNF %v counts %s models, there are %s", keep, t, d.ModelCount(), num)
	c.State(want.hash())
	c.Outcome(fmt.Sprintf("%d bit count", num.BitLen()))
}

func p21DNNF(t Tier) []Domain {
	var doms []Domain
	for k := range dnnfKernels {
		cls, n := dnnfKernel(k)
		m := editCount(cls, n)
		bound := "all single edits (negate a literal, drop a literal, drop a clause, swap two variables, swap two clauses)"
		N := m
		if t == Thorough {
			bound = "all sequences of two " + bound[4:]
			N = m * m
		}
		doms = append(doms, Domain{Name: fmt.Sprintf("dnnf-kernel-%d", k), Bound: "a clause set on which the compiler learns across components: " + bound, N: N, Run: func(c *C, i int) {
			x := applyEdit(cls, n, i%m)
			e := i / m
			if e >= editCount(x, n) {
				return
			}
			checkClausesDNNF(c, applyEdit(x, n, e), n)
		}})
	}
	// affine families: clause j is {x_j, x_(aj+b), x_(cj+d)} with periodic signs, and every p-th clause without its last literal
	aff := func(n, m, per int, as, bs []int, cut int) {
		S := 1 << uint(3*per)
		doms = append(doms, Domain{Name: fmt.Sprintf("dnnf-affine-%d-%d-%d-%d", n, m, per, cut), Bound: fmt.Sprintf("all clause sets with %d clauses {x_j, x_(aj+b), x_(cj+d)} modulo %d variables, a, c in %v, b, d in %v, all sign patterns of period %d, every %d-th clause binary", m, n, as, bs, per, cut),
			N: len(as) * len(as) * len(bs) * len(bs) * S, Run: func(c *C, i int) {
				x := mixed(i, len(as), len(as), len(bs), len(bs), S)
				a, cc, b, d, s := as[x[0]], as[x[1]], bs[x[2]], bs[x[3]], x[4]
				var cls [][]int
				for j := 0; j < m; j++ {
					vs := []int{j % n, (a*j + b) % n, (cc*j + d) % n}
					if j%cut == cut-1 {
						vs = vs[:2]
					}
					var cl []int
					seen := 0
					for q, v := range vs {
						if seen>>uint(v)&1 == 1 {
							continue
						}
						seen |= 1 << uint(v)
						cl = append(cl, 2*v+s>>uint(3*(j%per)+q)&1)
					}
					cls = append(cls, cl)
				}
				checkClausesDNNF(c, cls, n)
			}})
	}
	_ = aff
	if t == Quick {
		aff(9, 11, 2, []int{2, 5}, []int{1, 3, 4}, 2)
		aff(11, 13, 2, []int{2, 3, 7}, []int{1, 4, 5}, 2)
		aff(13, 14, 2, []int{2, 5, 6}, []int{3, 5, 8}, 2)
	} else {
		aff(9, 11, 3, []int{2, 5, 7}, []int{1, 3, 4, 6}, 2)
		aff(11, 13, 2, []int{2, 3, 5, 7, 8}, []int{1, 3, 4, 5, 7}, 2)
		aff(13, 14, 2, []int{2, 3, 5, 6, 9}, []int{1, 3, 5, 8, 11}, 2)
		aff(12, 15, 2, []int{3, 5, 7, 9}, []int{1, 2, 5, 8, 10}, 3)
	}
	return doms
}
