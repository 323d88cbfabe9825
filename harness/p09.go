package main

import (
	"fmt"

	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/sat"
)

// pbcConfigs: every PBC encoder with every option of it.
func pbcConfigs() []encCfg {
	var r []encCfg
	add := func(name string, mod func(c *encoding.Config)) {
		c := baseEnc()
		mod(&c)
		r = append(r, encCfg{name, c})
	}
	add("best", func(c *encoding.Config) {})
	add("swc", func(c *encoding.Config) { c.PBCEncoder = encoding.PBCSWC })
	add("adder", func(c *encoding.Config) { c.PBCEncoder = encoding.PBCAdderNetworks })
	for i := 0; i < 8; i++ {
		i := i
		add(fmt.Sprintf("binary-merge-gac=%v-nosingle=%v-watchdog=%v", i&1 == 1, i&2 == 2, i&4 == 4), func(c *encoding.Config) {
			c.PBCEncoder = encoding.PBCBinaryMerge
			c.BinaryMergeUseGAC = i&1 == 1
			c.BinaryMergeNoSupportForSingleBit = i&2 == 2
			c.BinaryMergeUseWatchDog = i&4 == 4
		})
	}
	return r
}

func encodePBCVariant(c *C, fac f.Factory, fm f.Formula, cfg encoding.Config, way int) []f.Formula {
	var r []f.Formula
	var err error
	put := func() {
		if perr := fac.PutConfiguration(&cfg); perr != nil {
			c.Failf("configuration rejected: %v", perr)
		}
	}
	switch way % 5 {
	case 0:
		r, err = encoding.EncodePBC(fac, fm, &cfg)
	case 1:
		put()
		r, err = encoding.EncodePBC(fac, fm)
	case 2:
		res := encoding.ResultForFormula(fac)
		err = encoding.EncodePBCInResult(fac, fm, res, &cfg)
		r = res.Formulas()
	case 3:
		put()
		res := encoding.ResultForFormula(fac)
		err = encoding.EncodePBCInResult(fac, fm, res)
		r = res.Formulas()
	case 4:
		put()
		r = []f.Formula{normalform.NNF(fac, fm)}
	}
	if err != nil {
		c.Failf("encoding of %s failed: %v", fm.Sprint(fac), err)
	}
	c.Step()
	return r
}

var cmps = []f.CSort{f.EQ, f.LE, f.LT, f.GE, f.GT}

// checkPBC: the encoding, the normal form and the negation of one constraint.
func checkPBC(c *C, e *E, n int, cf encCfg, way int) {
	c.Key("%s %s", cf.name, e)
	fac := f.NewFactory()
	fm := mk(fac, e)
	tt := ttOfE(e, n)
	c.StateS(e.String())
	if fm.Sort() == f.SortPBC || fm.Sort() == f.SortCC {
		got := projAny(c, fac, encodePBCVariant(c, fac, fm, cf.cfg, way), n)
		c.Assert(got.eq(tt), "%s (way %d): the encoding of %s has the solutions %s, must be %s", cf.name, way, fm.Sprint(fac), got, tt)
		again := projAny(c, fac, encodePBCVariant(c, fac, fm, cf.cfg, way+1), n)
		c.Assert(again.eq(tt), "%s (way %d): encoding %s a second time gives the solutions %s, must be %s", cf.name, way, fm.Sprint(fac), again, tt)
		c.Outcome("encoded")
		c.Outcome(cf.name)
	} else {
		c.Outcome("not-a-constraint")
	}
}

// coefficient alphabets of the tiers
func p09Coefs(t Tier) []int {
	if t == Thorough {
		return []int{-4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7}
	}
	return []int{-3, -1, 0, 1, 2, 3, 5}
}

func init() {
	register(&Prop{
		ID: "P09",
		Rule: "A model state is a distinct constraint (coefficients, literals, comparator, bound) or constraint list; a transition is one encoding, normalisation, negation or solver call. " +
			"Every CNF is projected to the constraint's variables by a complete reference search and compared with the constraint's arithmetic solution set.",
		Assume: []string{"The sequential weight counter is explored with right-hand sides up to 40 (its size is proportional to the bound)."},
		Domains: func(t Tier) []Domain {
			cfgs := pbcConfigs()
			nc := len(cfgs)
			co := p09Coefs(t)
			var doms []Domain
			for n := 1; n <= 3; n++ {
				n := n
				if n == 3 && t == Quick {
					co = []int{-2, 0, 1, 2, 3}
				}
				cs := co
				vecs := pow(len(cs), n)
				sum := 0
				for _, x := range cs {
					if x > sum {
						sum = x
					}
				}
				top := n*sum + 1
				lo := -n*4 - 1
				if t == Quick {
					lo = -n*3 - 1
				}
				nr := top - lo + 1
				doms = append(doms, Domain{fmt.Sprintf("encode-%d", n),
					fmt.Sprintf("all coefficient vectors over %v of length %d, all phases, all comparators, all right-hand sides %d..%d, with every encoder option (%d configurations; the encoder, the phases and the way of calling rotate with the index for n=3)", cs, n, lo, top, nc),
					vecs * 5 * nr * map[bool]int{true: nc * (1 << n), false: nc}[n < 3], func(c *C, i int) {
						var m []int
						var ph int
						if n < 3 {
							m = mixed(i, vecs, 5, nr, nc, 1<<n)
							ph = m[4]
						} else {
							m = mixed(i, vecs, 5, nr, nc)
							ph = (m[0] + m[2] + m[3]) % (1 << n)
						}
						d := digits(m[0], len(cs), n)
						lits, coef := make([]int, n), make([]int, n)
						for j := range lits {
							coef[j] = cs[d[j]]
							lits[j] = 2*j + ph>>uint(j)&1
						}
						checkPBC(c, ePBC(cmps[m[1]], lo+m[2], coef, lits), n, cfgs[m[3]], i%5)
					}})
			}
			// repeated and complementary literals over two variables
			rl := t.pick(3, 4)
			rc := []int{-2, 1, 2, 3}
			if t == Thorough {
				rc = []int{-2, -1, 1, 3}
			}
			for n := 2; n <= rl; n++ {
				n := n
				lo, hi := -2*n, 3*n
				nr := hi - lo + 1
				doms = append(doms, Domain{fmt.Sprintf("repeated-literals-%d", n), fmt.Sprintf("all lists of %d literals over two variables (repeated and complementary ones included), coefficients %v, all comparators and right-hand sides %d..%d; encoder rotates", n, rc, lo, hi),
					pow(4, n) * pow(len(rc), n) * 5 * nr, func(c *C, i int) {
						m := mixed(i, pow(4, n), pow(len(rc), n), 5, nr)
						l, d := digits(m[0], 4, n), digits(m[1], len(rc), n)
						coef := make([]int, n)
						for j := range coef {
							coef[j] = rc[d[j]]
						}
						checkPBC(c, ePBC(cmps[m[2]], lo+m[3], coef, l), 2, cfgs[i%nc], i/7%5)
					}})
			}
			// longer constraints: all multisets of coefficients
			type long struct {
				n    int
				coef []int
			}
			longs := []long{{4, []int{1, 2, 3, 4, 6}}, {5, []int{1, 2, 3, 5}}}
			if t == Thorough {
				longs = []long{{4, []int{1, 2, 3, 4, 5, 6, 7, 8}}, {5, []int{1, 2, 3, 4, 5, 7}}, {6, []int{1, 2, 3, 5, 8}}, {7, []int{1, 2, 4, 7}}, {8, []int{1, 3, 4}}}
			}
			for _, lg := range longs {
				lg := lg
				// multisets as non-decreasing sequences
				var ms [][]int
				var rec func(start int, cur []int)
				rec = func(start int, cur []int) {
					if len(cur) == lg.n {
						ms = append(ms, append([]int{}, cur...))
						return
					}
					for j := start; j < len(lg.coef); j++ {
						rec(j, append(cur, lg.coef[j]))
					}
				}
				rec(0, nil)
				max := lg.n * lg.coef[len(lg.coef)-1]
				doms = append(doms, Domain{fmt.Sprintf("long-%d", lg.n), fmt.Sprintf("all multisets of %d positive coefficients from %v in three orders, <= every bound below the sum (0..%d), every encoder configuration", lg.n, lg.coef, max),
					len(ms) * (max + 1) * nc, func(c *C, i int) {
						m := mixed(i, len(ms), max+1, nc)
						sum := 0
						for _, x := range ms[m[0]] {
							sum += x
						}
						if m[1] >= sum {
							c.Outcome("trivial bound")
							return
						}
						coef := append([]int{}, ms[m[0]]...)
						switch (m[0] + m[1]) % 3 { // order of the operands
						case 1:
							for a, b := 0, len(coef)-1; a < b; a, b = a+1, b-1 {
								coef[a], coef[b] = coef[b], coef[a]
							}
						case 2:
							coef = append(coef[1:], coef[0])
						}
						lits := make([]int, lg.n)
						for j := range lits {
							lits[j] = 2*j + (m[0]>>uint(j%3))&1
						}
						checkPBC(c, ePBC(f.LE, m[1], coef, lits), lg.n, cfgs[m[2]], m[1]%5)
					}})
			}
			// large numbers
			var nums []int
			for _, b := range []uint{4, 7, 15, 29, 30, 31, 32, 33, 40, 52, 53, 54, 60} {
				for _, d := range []int{-1, 0, 1} {
					nums = append(nums, 1<<b+d)
				}
			}
			nn := len(nums)
			doms = append(doms, Domain{"large-numbers", "all pairs of coefficients 2^k-1, 2^k, 2^k+1 (k up to 60) for two literals plus a third coefficient 1, bounds around the coefficients, adder and binary merge encoders",
				nn * nn * 4 * (nc - 2), func(c *C, i int) {
					m := mixed(i, nn, nn, 4, nc-2)
					a, b := nums[m[0]], nums[m[1]]
					rhs := []int{a, b, a + b - 1, a + b}[m[2]]
					e := ePBC(f.LE, rhs, []int{a, b, 1}, []int{0, 2, 4})
					checkPBC(c, e, 3, cfgs[m[3]+2], i%5)
				}})
			// normalisation and negation
			nco := []int{-3, -2, -1, 0, 1, 2, 4}
			for n := 1; n <= 3; n++ {
				n := n
				vecs := pow(len(nco), n)
				lv := pow(2*n, n)
				if n == 3 {
					lv = pow(4, 3)
				}
				lo, hi := -3*n-1, 4*n+1
				if n == 3 && t == Quick {
					lo, hi = -3, 6
				}
				nr := hi - lo + 1
				doms = append(doms, Domain{fmt.Sprintf("normalize-negate-%d", n), fmt.Sprintf("all coefficient vectors over %v of length %d, all literal lists (repeated and complementary literals included), all comparators, bounds %d..%d: normalisation and negation", nco, n, lo, hi),
					vecs * lv * 5 * nr, func(c *C, i int) {
						m := mixed(i, vecs, lv, 5, nr)
						d := digits(m[0], len(nco), n)
						base := 2 * n
						if n == 3 {
							base = 4
						}
						l := digits(m[1], base, n)
						coef := make([]int, n)
						for j := range coef {
							coef[j] = nco[d[j]]
						}
						e := ePBC(cmps[m[2]], lo+m[3], coef, l)
						c.Key("%s", e)
						c.StateS(e.String())
						checkNormalize(c, e, 3)
					}})
			}
			// on the solver, jointly with others
			pool := constraintAtoms(3)
			pc := []f.CSort{f.EQ, f.GE}
			_ = pc
			doms = append(doms, Domain{"on-solver", "all ordered pairs of listed constraints on one solver and one formula result, every encoder configuration, with and without the solver's native at-most constraints",
				pool.N * pool.N * nc * 2, func(c *C, i int) {
					m := mixed(i, pool.N, pool.N, nc, 2)
					a, b := pool.At(m[0]), pool.At(m[1])
					c.Key("%s, %s on solver with %s", a, b, cfgs[m[2]].name)
					fac := f.NewFactory()
					cfg := cfgs[m[2]].cfg
					if err := fac.PutConfiguration(&cfg); err != nil {
						c.Failf("%v", err)
					}
					s := sat.NewSolver(fac, sat.DefaultConfig().UseAtMost(m[3] == 1))
					tt := ttOfE(eAnd(a, b), 3)
					c.StateS(fmt.Sprint(a, b))
					fa, fb := mk(fac, a), mk(fac, b)
					s.Add(fa)
					s.Add(fb)
					checkSolverTT(c, fac, s, tt, 3)
					c.Outcome(fmt.Sprintf("atmost=%v", m[3] == 1))
					if m[3] == 1 {
						return
					}
					res := encoding.ResultForFormula(fac)
					for _, fm := range []f.Formula{fa, fb} {
						if fm.Sort() != f.SortPBC && fm.Sort() != f.SortCC {
							return
						}
						if err := encoding.EncodePBCInResult(fac, fm, res); err != nil {
							c.Failf("%v", err)
						}
						c.Step()
					}
					got := projTT(c, fac, res.Formulas(), 3)
					c.Assert(got.eq(tt), "joint encoding of %s and %s has the solutions %s, must be %s", a, b, got, tt)
				}})
			return doms
		},
	})
}

func checkNormalize(c *C, e *E, n int) {
	fac := f.NewFactory()
	fm := mk(fac, e)
	tt := ttOfE(e, n)
	if fm.Sort() != f.SortPBC && fm.Sort() != f.SortCC {
		c.Outcome("not-a-constraint")
		return
	}
	before := fm.Sprint(fac)
	nm := encoding.Normalize(fac, fm)
	c.Step()
	c.Assert(ttOf(c, fac, nm, n).eq(tt), "the normalisation of %s is %s", fm.Sprint(fac), nm.Sprint(fac))
	checkNormalized(c, fac, nm, fm)
	ng := encoding.NegatePBC(fac, fm)
	c.Step()
	c.Assert(ttOf(c, fac, ng, n).eq(tt.not()), "the negation of %s is %s", fm.Sprint(fac), ng.Sprint(fac))
	nn := normalform.NNF(fac, fac.Not(fm))
	c.Step()
	c.Assert(projAny(c, fac, []f.Formula{nn}, n).eq(tt.not()), "the NNF of the negated %s is not its complement", fm.Sprint(fac))
	c.Assert(fm.Sprint(fac) == before, "the constraint %s has been changed to %s", before, fm.Sprint(fac))
	c.Outcome(fmt.Sprintf("normalised-sort%d", nm.Sort()))
}

// checkNormalized: <= with positive coefficients over distinct variables (for equalities a conjunction of such).
func checkNormalized(c *C, fac f.Factory, nm, orig f.Formula) {
	switch nm.Sort() {
	case f.SortTrue, f.SortFalse, f.SortLiteral:
	case f.SortAnd:
		for _, o := range fac.Operands(nm) {
			checkNormalized(c, fac, o, orig)
		}
	case f.SortCC, f.SortPBC:
		cmp, _, lits, coef, _ := fac.PBCOps(nm)
		c.Assert(cmp == f.LE, "normalisation of %s is %s, not a <=", orig.Sprint(fac), nm.Sprint(fac))
		seen := map[f.Variable]bool{}
		for i, l := range lits {
			c.Assert(coef[i] > 0 && !seen[l.Variable()], "normalisation of %s is %s, not normalised", orig.Sprint(fac), nm.Sprint(fac))
			seen[l.Variable()] = true
		}
	default:
		c.Failf("normalisation of %s is %s", orig.Sprint(fac), nm.Sprint(fac))
	}
}
