package main

import (
	f "github.com/booleworks/logicng-go/formula"
)

// ------------------------------------------------------------ enumeration of formulas

// Space is a finite set of terms addressed by index.
type Space struct {
	N  int
	At func(i int) *E
}

func atoms(es ...*E) Space {
	return Space{len(es), func(i int) *E { return es[i] }}
}

func litAtoms(n int, consts bool) Space {
	var es []*E
	for v := 0; v < n; v++ {
		es = append(es, eLit(2*v), eLit(2*v+1))
	}
	if consts {
		es = append(es, eTrue, eFalse)
	}
	return atoms(es...)
}

// level adds all applications of Not (if not), And, Or, Impl, Equiv to operands of the space
func level(s Space) Space {
	n := s.N
	total := n + n + 4*n*n
	return Space{total, func(i int) *E {
		if i < n {
			return s.At(i)
		}
		i -= n
		if i < n {
			return eNot(s.At(i))
		}
		i -= n
		op := i % 4
		i /= 4
		a, b := s.At(i/n), s.At(i%n)
		switch op {
		case 0:
			return eAnd(a, b)
		case 1:
			return eOr(a, b)
		case 2:
			return eImpl(a, b)
		}
		return eEquiv(a, b)
	}}
}

// binary: all op(a,b) for a in s, b in t (no atoms themselves)
func binary(s, t Space) Space {
	return Space{4 * s.N * t.N, func(i int) *E {
		op := i % 4
		i /= 4
		a, b := s.At(i/t.N), t.At(i%t.N)
		switch op {
		case 0:
			return eAnd(a, b)
		case 1:
			return eOr(a, b)
		case 2:
			return eImpl(a, b)
		}
		return eEquiv(a, b)
	}}
}

// nary: And and Or over all k-tuples
func nary(s Space, k int) Space {
	p := 1
	for i := 0; i < k; i++ {
		p *= s.N
	}
	return Space{2 * p, func(i int) *E {
		op := i % 2
		i /= 2
		ops := make([]*E, k)
		for j := range ops {
			ops[j] = s.At(i % s.N)
			i /= s.N
		}
		if op == 0 {
			return eAnd(ops...)
		}
		return eOr(ops...)
	}}
}

func negs(s Space) Space {
	return Space{s.N, func(i int) *E { return eNot(s.At(i)) }}
}

func union(ss ...Space) Space {
	n := 0
	for _, s := range ss {
		n += s.N
	}
	return Space{n, func(i int) *E {
		for _, s := range ss {
			if i < s.N {
				return s.At(i)
			}
			i -= s.N
		}
		panic("range")
	}}
}

// stride takes every k-th element (a sub-space with stated density).
func stride(s Space, k int) Space {
	if k <= 1 {
		return s
	}
	return Space{(s.N + k - 1) / k, func(i int) *E { return s.At(i * k) }}
}

// constraintAtoms: a list of cardinality and pseudo-Boolean constraints over n<=4 variables
func constraintAtoms(n int) Space {
	var es []*E
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	es = append(es,
		eCC(f.LE, 1, all...), eCC(f.EQ, 1, all...), eCC(f.GE, 1, all...), eCC(f.GE, 2, all...), eCC(f.LT, 2, all...), eCC(f.GT, 1, all...), eCC(f.EQ, 2, all...),
		eCC(f.LE, 0, all...), eCC(f.LE, 2, all...),
	)
	coefs := [][]int{{2, 1, 3, -2}, {-1, 2, -3, 1}, {1, -1, 1, 2}, {3, 3, 2, 1}, {1, 1, 1, 1}}
	for ci, co := range coefs {
		lits := make([]int, n)
		for i := range lits {
			lits[i] = 2*i + (ci+i)%2
		}
		rhs := []int{2, 0, 1, 4, 2}[ci]
		cmp := []f.CSort{f.LE, f.GE, f.EQ, f.GT, f.LT}[ci]
		es = append(es, ePBC(cmp, rhs, co[:n], lits))
		es = append(es, ePBC(f.GE, rhs-1, co[:n], lits))
	}
	return atoms(es...)
}

// functions: all Boolean functions over n <= 4 variables; form selects how they are written
// 0: minterm DNF, 1: maxterm CNF, 2: Shannon expansion with implications/equivalences
func functions(n, form int) Space {
	return Space{1 << (1 << uint(n)), func(i int) *E { return funcTerm(uint64(i), n, form) }}
}

func funcTerm(tt uint64, n, form int) *E {
	switch form {
	case 0, 1:
		var ts []*E
		for a := 0; a < 1<<uint(n); a++ {
			if (tt>>uint(a)&1 == 1) == (form == 0) {
				var ls []*E
				for v := 0; v < n; v++ {
					bit := a >> uint(v) & 1
					if form == 0 {
						ls = append(ls, eLit(2*v+1-bit))
					} else {
						ls = append(ls, eLit(2*v+bit))
					}
				}
				if form == 0 {
					ts = append(ts, eAnd(ls...))
				} else {
					ts = append(ts, eOr(ls...))
				}
			}
		}
		if form == 0 {
			return eOr(ts...)
		}
		return eAnd(ts...)
	}
	// Shannon over the highest variable
	if n == 0 {
		if tt&1 == 1 {
			return eTrue
		}
		return eFalse
	}
	half := uint(1) << uint(n-1)
	lo := tt & (1<<half - 1)
	hi := tt >> half & (1<<half - 1)
	l, h := funcTerm(lo, n-1, 2), funcTerm(hi, n-1, 2)
	if lo == hi {
		return l
	}
	v := eVar(n - 1)
	full := uint64(1)<<half - 1
	if lo == hi^full {
		return eEquiv(v, h)
	}
	return eAnd(eImpl(v, h), eOr(v, l))
}

// ------------------------------------------------------------ clause sets

func allClauses(n, maxLen int, withTaut bool) [][]int {
	// all clauses as sets of literals (3^n - 1 non-tautological, by increasing size)
	var res [][]int
	for size := 1; size <= maxLen; size++ {
		var rec func(v int, cur []int)
		rec = func(v int, cur []int) {
			if len(cur) == size {
				res = append(res, append([]int{}, cur...))
				return
			}
			if v == n {
				return
			}
			rec(v+1, append(cur, 2*v))
			rec(v+1, append(cur, 2*v+1))
			if withTaut && len(cur)+2 <= size {
				rec(v+1, append(cur, 2*v, 2*v+1))
			}
			rec(v+1, cur)
		}
		rec(0, nil)
	}
	return res
}

func binom(n, k int) int {
	if k < 0 || k > n {
		return 0
	}
	r := 1
	for i := 1; i <= k; i++ {
		r = r * (n - k + i) / i
	}
	return r
}

// unrankComb returns the i-th k-subset of {0..n-1} in lexicographic order.
func unrankComb(n, k, i int) []int {
	res := make([]int, 0, k)
	x := 0
	for k > 0 {
		c := binom(n-x-1, k-1)
		if i < c {
			res = append(res, x)
			k--
		} else {
			i -= c
		}
		x++
	}
	return res
}

// CNFSpace enumerates clause sets.
type CNFSpace struct {
	N    int
	Vars int
	At   func(i int) [][]int
}

// clauseSets: all sets of exactly k.. up to kmax clauses from the list
func clauseSets(n, maxLen, kmin, kmax int) CNFSpace {
	cl := allClauses(n, maxLen, false)
	return clauseSetsOf(n, cl, kmin, kmax)
}

func clauseSetsOf(n int, cl [][]int, kmin, kmax int) CNFSpace {
	total := 0
	for k := kmin; k <= kmax; k++ {
		total += binom(len(cl), k)
	}
	return CNFSpace{total, n, func(i int) [][]int {
		for k := kmin; k <= kmax; k++ {
			b := binom(len(cl), k)
			if i < b {
				idx := unrankComb(len(cl), k, i)
				res := make([][]int, k)
				for j, x := range idx {
					res[j] = cl[x]
				}
				return res
			}
			i -= b
		}
		panic("range")
	}}
}

// pattern is a circulant clause pattern: for every i modulo n the clause {s0 x_i, s1 x_(i+d1), ...}
type pattern struct {
	d []int // offsets (first one 0)
	s int   // signs, bit j for the j-th literal
}

func (p pattern) clauses(n int) [][]int {
	r := make([][]int, n)
	for i := range r {
		for j, d := range p.d {
			r[i] = append(r[i], 2*((i+d)%n)+p.s>>uint(j)&1)
		}
	}
	return r
}

// offsets: all subsets of {0..n-1} of size k containing 0
func offsets(n, k int) [][]int {
	var r [][]int
	for i := 0; i < binom(n-1, k-1); i++ {
		d := []int{0}
		for _, x := range unrankComb(n-1, k-1, i) {
			d = append(d, x+1)
		}
		r = append(r, d)
	}
	return r
}

// patterns: all circulant clause patterns with clauses of length k over n variables
func patterns(n, k int) []pattern {
	var r []pattern
	for _, d := range offsets(n, k) {
		for s := 0; s < 1<<uint(k); s++ {
			r = append(r, pattern{d, s})
		}
	}
	return r
}

func ttOfClauses(cls [][]int, n int) TT {
	t := newTT(n)
outer:
	for a := uint64(0); a < 1<<uint(n); a++ {
		for _, c := range cls {
			ok := false
			for _, l := range c {
				if (a>>(uint(l)>>1))&1 != uint64(l&1) {
					ok = true
					break
				}
			}
			if !ok {
				continue outer
			}
		}
		t.set(a)
	}
	return t
}

func clausesE(cls [][]int) []*E {
	res := make([]*E, len(cls))
	for i, c := range cls {
		ls := make([]*E, len(c))
		for j, l := range c {
			ls[j] = eLit(l)
		}
		res[i] = eOr(ls...)
	}
	return res
}

func pow(b, e int) int {
	r := 1
	for ; e > 0; e-- {
		r *= b
	}
	return r
}

// digits returns the base-b digits of i (k of them, most significant first).
func digits(i, b, k int) []int {
	r := make([]int, k)
	for j := k - 1; j >= 0; j-- {
		r[j] = i % b
		i /= b
	}
	return r
}

// sequences of length 0..maxLen over an alphabet of size b
func seqCount(b, maxLen int) int {
	t := 0
	for l := 0; l <= maxLen; l++ {
		t += pow(b, l)
	}
	return t
}

func seqAt(i, b, maxLen int) []int {
	for l := 0; l <= maxLen; l++ {
		p := pow(b, l)
		if i < p {
			return digits(i, b, l)
		}
		i -= p
	}
	panic("range")
}

// prod splits an index into mixed-radix components (first varies slowest).
func mixed(i int, radix ...int) []int {
	r := make([]int, len(radix))
	for j := len(radix) - 1; j >= 0; j-- {
		r[j] = i % radix[j]
		i /= radix[j]
	}
	return r
}
func prodN(radix ...int) int {
	p := 1
	for _, r := range radix {
		p *= r
	}
	return p
}
