package main

import (
	"fmt"

	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/sat"
)

type encCfg struct {
	name string
	cfg  encoding.Config
}

func baseEnc() encoding.Config { return *encoding.DefaultConfig() }

// amoConfigs: every at-most-one encoder with every parameter up to a bound. Recursion parameters for which the
// documented recursion cannot make the constraint smaller (product bound 1, nesting and commander groups below 3/2) are left out.
func amoConfigs(thorough bool) []encCfg {
	var r []encCfg
	add := func(name string, mod func(c *encoding.Config)) {
		c := baseEnc()
		mod(&c)
		r = append(r, encCfg{name, c})
	}
	add("pure", func(c *encoding.Config) { c.AMOEncoder = encoding.AMOPure })
	add("ladder", func(c *encoding.Config) { c.AMOEncoder = encoding.AMOLadder })
	add("binary", func(c *encoding.Config) { c.AMOEncoder = encoding.AMOBinary })
	add("best", func(c *encoding.Config) { c.AMOEncoder = encoding.AMOBest })
	for _, b := range []int{0, 2, 3, 4, 20} {
		add(fmt.Sprint("product-", b), func(c *encoding.Config) { c.AMOEncoder = encoding.AMOProduct; c.ProductRecursiveBound = b })
	}
	for _, b := range []int{0, 3, 4, 5, 7} {
		add(fmt.Sprint("nested-", b), func(c *encoding.Config) { c.AMOEncoder = encoding.AMONested; c.NestingGroupSize = b })
	}
	for _, b := range []int{0, 2, 3, 4, 5, 7} {
		add(fmt.Sprint("commander-", b), func(c *encoding.Config) { c.AMOEncoder = encoding.AMOCommander; c.CommanderGroupSize = b })
	}
	add("bimander-half", func(c *encoding.Config) {
		c.AMOEncoder = encoding.AMOBimander
		c.BimanderGroupSize = encoding.BimanderHalf
	})
	add("bimander-sqrt", func(c *encoding.Config) {
		c.AMOEncoder = encoding.AMOBimander
		c.BimanderGroupSize = encoding.BimanderSqrt
	})
	for _, b := range []int{0, 1, 2, 3, 4, 5, 6, 8} {
		add(fmt.Sprint("bimander-fixed-", b), func(c *encoding.Config) {
			c.AMOEncoder = encoding.AMOBimander
			c.BimanderGroupSize = encoding.BimanderFixed
			c.BimanderFixedGroupSize = b
		})
	}
	return r
}

// kConfigs: at-most-k / at-least-k / exactly-k encoders
func kConfigs() []encCfg {
	var r []encCfg
	for i := 0; i < 4; i++ {
		c := baseEnc()
		c.AMKEncoder, c.ALKEncoder = encoding.AMKEncoder(i), encoding.ALKEncoder(i)
		c.EXKEncoder = []encoding.EXKEncoder{encoding.EXKTotalizer, encoding.EXKBest, encoding.EXKCardinalityNetwork, encoding.EXKBest}[i]
		r = append(r, encCfg{fmt.Sprintf("%v-%v-%v", c.AMKEncoder, c.ALKEncoder, c.EXKEncoder), c})
	}
	return r
}

func seqInts(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// encode the constraint in one of several equivalent ways
func encodeVariant(c *C, fac f.Factory, fm f.Formula, cfg encoding.Config, way int) []f.Formula {
	var r []f.Formula
	var err error
	switch way % 5 {
	case 0:
		r, err = encoding.EncodeCC(fac, fm, &cfg)
	case 1:
		if perr := fac.PutConfiguration(&cfg); perr != nil {
			c.Failf("configuration rejected: %v", perr)
		}
		r, err = encoding.EncodeCC(fac, fm)
	case 2:
		res := encoding.ResultForFormula(fac)
		err = encoding.EncodeCCInResult(fac, fm, res, &cfg)
		r = res.Formulas()
	case 3:
		if perr := fac.PutConfiguration(&cfg); perr != nil {
			c.Failf("configuration rejected: %v", perr)
		}
		r, err = encoding.EncodePBC(fac, fm)
	case 4:
		if perr := fac.PutConfiguration(&cfg); perr != nil {
			c.Failf("configuration rejected: %v", perr)
		}
		res := encoding.ResultForFormula(fac)
		err = encoding.EncodePBCInResult(fac, fm, res)
		r = res.Formulas()
	}
	if err != nil {
		c.Failf("encoding of %s failed: %v", fm.Sprint(fac), err)
	}
	c.Step()
	return r
}

// projClausesOn checks only the given assignments over the first n variables (n may exceed the size of a truth table).
func checkEncodedOn(c *C, fac f.Factory, fms []f.Formula, n int, as [][]bool, want func(a []bool) bool, what string) {
	r := newReader(fac, 0)
	for v := 0; v < n; v++ {
		r.lit(fac.Lit(bigName(v), true))
	}
	var terms []*E
	for _, fm := range fms {
		terms = append(terms, r.term(fm))
	}
	clauses, ok := toClauses(terms)
	c.Assert(ok, "%s: not a clause set", what)
	s := newMiniSat(r.n, clauses)
	for _, a := range as {
		l := make([]int, n)
		for v := range l {
			l[v] = 2 * v
			if !a[v] {
				l[v]++
			}
		}
		if got := s.solve(l); got != want(a) {
			c.Failf("%s: assignment %v extends to a model: %v", what, a, got)
		}
	}
}

func bigName(v int) string { return fmt.Sprintf("x%d", v) }

func init() {
	register(&Prop{
		ID: "P08",
		Rule: "A model state is a (constraint, bound in force) pair; a transition is one encoding or tightening; the reference enumerates all assignments of the constraint's variables and decides by " +
			"exhaustive search whether the produced clauses can be extended to a model.",
		Assume: []string{"group sizes and recursion bounds for which the encoder's recursion does not terminate by construction (product bound 1, nesting group <= 2, commander group 1) are not used"},
		Domains: func(t Tier) []Domain {
			var doms []Domain
			ways := 5
			// at-most-one / exactly-one, all sizes
			amos := amoConfigs(t == Thorough)
			nmax := t.pick(10, 13)
			doms = append(doms, Domain{"amo-exo", fmt.Sprintf("every AMO encoder/parameter x {<=1, <2, =1} x 1..%d variables, all assignments", nmax), len(amos) * 3 * nmax, func(c *C, i int) {
				m := mixed(i, len(amos), 3, nmax)
				cf, n := amos[m[0]], m[2]+1
				cmp, rhs := []f.CSort{f.LE, f.LT, f.EQ}[m[1]], []int{1, 2, 1}[m[1]]
				e := eCC(cmp, rhs, seqInts(n)...)
				c.Key("%s %s", cf.name, e)
				for way := 0; way < ways; way++ {
					fac := f.NewFactory()
					fm := mk(fac, e)
					got := encodeVariant(c, fac, fm, cf.cfg, way)
					c.State(uint64(i*8 + way))
					c.Assert(projTT(c, fac, got, n).eq(ttOfE(e, n)), "%s: encoding of %s is not exact", cf.name, e)
					if n > 8 {
						break
					}
				}
				c.Outcome(cf.name)
			}})
			// large at-most-one: all assignments with at most two true variables
			big := t.pick(36, 90)
			doms = append(doms, Domain{"amo-large", fmt.Sprintf("every AMO encoder/parameter x {<=1, =1} x 11..%d variables, all assignments with at most 2 true variables and all with 3 adjacent", big), len(amos) * 2 * (big - 10), func(c *C, i int) {
				m := mixed(i, len(amos), 2, big-10)
				cf, n := amos[m[0]], m[2]+11
				fac := f.NewFactory()
				vars := make([]f.Variable, n)
				for v := range vars {
					vars[v] = fac.Var(bigName(v))
				}
				fm := fac.AMO(vars...)
				if m[1] == 1 {
					fm = fac.EXO(vars...)
				}
				c.Key("%s %d %d", cf.name, m[1], n)
				got := encodeVariant(c, fac, fm, cf.cfg, 0)
				c.State(uint64(i))
				var as [][]bool
				as = append(as, make([]bool, n))
				for x := 0; x < n; x++ {
					for y := x; y < n; y++ {
						a := make([]bool, n)
						a[x], a[y] = true, true
						as = append(as, a)
						if y == x+1 && y+1 < n {
							b := append([]bool{}, a...)
							b[y+1] = true
							as = append(as, b)
						}
					}
				}
				checkEncodedOn(c, fac, got, n, as, func(a []bool) bool {
					k := 0
					for _, x := range a {
						if x {
							k++
						}
					}
					return k == 1 || k == 0 && m[1] == 0
				}, cf.name)
				c.Outcome(cf.name)
			}})
			// k constraints
			ks := kConfigs()
			kn := t.pick(9, 11)
			var cases [][2]int // n, rhs
			for n := 1; n <= kn; n++ {
				for r := 0; r <= n+2; r++ {
					cases = append(cases, [2]int{n, r})
				}
			}
			cmps := []f.CSort{f.EQ, f.LE, f.LT, f.GE, f.GT}
			doms = append(doms, Domain{"cc-k", fmt.Sprintf("all k encoders x all comparators x 1..%d variables x right-hand sides 0..n+2, all assignments", kn), len(ks) * len(cases) * 5, func(c *C, i int) {
				m := mixed(i, len(ks), 5, len(cases))
				cf, n, rhs := ks[m[0]], cases[m[2]][0], cases[m[2]][1]
				e := eCC(cmps[m[1]], rhs, seqInts(n)...)
				c.Key("%s %s", cf.name, e)
				for way := 0; way < ways; way++ {
					fac := f.NewFactory()
					fm := mk(fac, e)
					got := encodeVariant(c, fac, fm, cf.cfg, way)
					c.State(uint64(i*8 + way))
					c.Assert(projTT(c, fac, got, n).eq(ttOfE(e, n)), "%s: encoding of %s is not exact", cf.name, e)
					if n > 7 {
						break
					}
				}
				c.Outcome(fmt.Sprint(cmps[m[1]]))
			}})
			// larger k constraints: all cyclic blocks and all block pairs around the bound
			ln0, ln1 := kn+1, t.pick(16, 24)
			var lc [][2]int
			for n := ln0; n <= ln1; n++ {
				for r := 1; r < n; r++ {
					lc = append(lc, [2]int{n, r})
				}
			}
			doms = append(doms, Domain{"cc-large", fmt.Sprintf("all k encoders x {=,<=,>=} x %d..%d variables x all right-hand sides, every cyclic block and every alternating pattern of weight bound-1..bound+1", ln0, ln1), len(ks) * len(lc) * 3, func(c *C, i int) {
				m := mixed(i, len(ks), 3, len(lc))
				cf, n, rhs := ks[m[0]], lc[m[2]][0], lc[m[2]][1]
				fac := f.NewFactory()
				vars := make([]f.Variable, n)
				for v := range vars {
					vars[v] = fac.Var(bigName(v))
				}
				cmp := []f.CSort{f.EQ, f.LE, f.GE}[m[1]]
				fm := fac.CC(cmp, uint32(rhs), vars...)
				c.Key("%s %v %d %d", cf.name, cmp, n, rhs)
				got := encodeVariant(c, fac, fm, cf.cfg, 0)
				c.State(uint64(i))
				var as [][]bool
				for w := rhs - 1; w <= rhs+1; w++ {
					for st := 0; st < n; st++ {
						a, b := make([]bool, n), make([]bool, n)
						for k := 0; k < w; k++ {
							a[(st+k)%n] = true
							// second pattern: spread with step 2
							p := (st + 2*k) % n
							for b[p] {
								p = (p + 1) % n
							}
							b[p] = true
						}
						as = append(as, a, b)
					}
				}
				checkEncodedOn(c, fac, got, n, as, func(a []bool) bool {
					k := 0
					for _, x := range a {
						if x {
							k++
						}
					}
					return cmpEval(cmp, k, rhs)
				}, fmt.Sprintf("%s: %s", cf.name, fm.Sprint(fac)))
				c.Outcome(fmt.Sprint(cmp))
			}})
			// constraints with repeated variables
			doms = append(doms, Domain{"repeated-variables", "all encoders x all comparators x all sequences of 1..4 of 3 variables (with repetitions) x right-hand sides 0..5", (len(ks) + len(amos)) * 5 * 6 * 120, func(c *C, i int) {
				m := mixed(i, len(ks)+len(amos), 5, 6, 120)
				vs := seqAt(m[3]+1, 3, 4)
				cf := append(append([]encCfg{}, ks...), amos...)[m[0]]
				e := eCC(cmps[m[1]], m[2], vs...)
				if m[0] >= len(ks) && m[2] != 1 && m[2] != 2 {
					return
				}
				c.Key("%s %s", cf.name, e)
				fac := f.NewFactory()
				got := encodeVariant(c, fac, mk(fac, e), cf.cfg, m[3])
				c.State(uint64(i))
				c.Assert(projTT(c, fac, got, 3).eq(ttOfE(e, 3)), "%s: encoding of %s is not exact", cf.name, e)
			}})
			// two constraints on one factory
			pn := 4
			doms = append(doms, Domain{"joint", "pairs of constraints over overlapping variables encoded one after the other on one factory, all encoder pairs", len(ks) * 5 * 5 * 5 * 5 * 3, func(c *C, i int) {
				m := mixed(i, len(ks), 5, 5, 5, 5, 3)
				e1 := eCC(cmps[m[1]], m[2], 0, 1, 2, 3)
				e2 := [][]int{{3, 2, 1}, {1, 2, 3, 0}, {0, 2}}[m[5]]
				e3 := eCC(cmps[m[3]], m[4], e2...)
				c.Key("%s %s %s", ks[m[0]].name, e1, e3)
				fac := f.NewFactory()
				got := encodeVariant(c, fac, mk(fac, e1), ks[m[0]].cfg, 0)
				got2 := encodeVariant(c, fac, mk(fac, e3), amos[(i/7)%len(amos)].cfg, 0)
				c.State(uint64(i))
				all := append(append([]f.Formula{}, got...), got2...)
				c.Assert(projTT(c, fac, all, pn).eq(ttOfE(e1, pn).and(ttOfE(e3, pn))), "encodings of %s and %s interfere", e1, e3)
			}})
			// incremental tightening
			type inc struct{ cmp, n, rhs, seq int }
			var incs []inc
			in := t.pick(7, 9)
			for n := 2; n <= in; n++ {
				for cmp := 1; cmp < 5; cmp++ {
					for rhs := 0; rhs <= n+1; rhs++ {
						lo, hi := cmpRange(cmps[cmp], rhs, n)
						cnt := 1
						if lo >= 0 {
							cnt = 1 << uint(hi-lo)
						}
						for s := 0; s < cnt; s++ {
							incs = append(incs, inc{cmp, n, rhs, s})
						}
					}
				}
			}
			doms = append(doms, Domain{"incremental", fmt.Sprintf("all k encoders x comparators x 2..%d variables x right-hand sides x all sequences of tightenings, on formulas and on the SAT solver", in), len(ks) * len(incs) * 2, func(c *C, i int) {
				m := mixed(i, len(ks), len(incs), 2)
				cf, q := ks[m[0]], incs[m[1]]
				cmp := cmps[q.cmp]
				e := eCC(cmp, q.rhs, seqInts(q.n)...)
				c.Key("%s %s seq=%d solver=%d", cf.name, e, q.seq, m[2])
				runIncremental(c, cf, cmp, q.n, q.rhs, q.seq, m[2] == 1)
			}})
			// constraints added to a SAT solver
			sn := t.pick(5, 7)
			doms = append(doms, Domain{"on-solver", fmt.Sprintf("all encoders x comparators x 1..%d variables x right-hand sides added to a SAT solver, every assignment as assumptions", sn), (len(ks) + len(amos)) * 5 * sn * (sn + 2), func(c *C, i int) {
				m := mixed(i, len(ks)+len(amos), 5, sn, sn+2)
				n, rhs := m[2]+1, m[3]
				if rhs > n+1 || m[0] >= len(ks) && rhs != 1 && rhs != 2 {
					return
				}
				cf := append(append([]encCfg{}, ks...), amos...)[m[0]]
				e := eCC(cmps[m[1]], rhs, seqInts(n)...)
				c.Key("%s %s", cf.name, e)
				fac := f.NewFactory()
				if err := fac.PutConfiguration(&cf.cfg); err != nil {
					c.Failf("%v", err)
				}
				fm := mk(fac, e)
				s := sat.NewSolver(fac)
				s.Add(fm)
				c.State(uint64(i))
				checkSolverTT(c, fac, s, ttOfE(e, n), n)
			}})
			return doms
		},
	})
}

// cmpRange: the bounds to which a constraint can be tightened (lo..hi-1), lo<0 when the constraint is not incremental
func cmpRange(cmp f.CSort, rhs, n int) (int, int) {
	switch cmp {
	case f.LE, f.LT:
		k := rhs
		if cmp == f.LT {
			k--
		}
		if k >= n || k <= 0 {
			return -1, -1
		}
		return 0, k // new bounds 0..k-1
	default:
		k := rhs
		if cmp == f.GT {
			k++
		}
		if k > n || k <= 1 || k == n {
			return -1, -1
		}
		return k + 1, n + 1 // new bounds k+1..n
	}
}

// checkSolverTT asks the solver for every assignment of the first n variables
func checkSolverTT(c *C, fac f.Factory, s *sat.Solver, tt TT, n int) {
	vars := mkVars(fac, n)
	for a := uint64(0); a < 1<<uint(n); a++ {
		var as []f.Literal
		for v := 0; v < n; v++ {
			if a>>uint(v)&1 == 1 {
				as = append(as, vars[v].AsLiteral())
			} else {
				as = append(as, vars[v].Negate(fac))
			}
		}
		c.Step()
		if got := s.Call(sat.WithAssumptions(as)).Sat(); got != tt.get(a) {
			c.Failf("solver answers %v under assumptions %s", got, litsString(fac, as))
		}
	}
	c.Step()
	if got := s.Sat(); got == tt.isFalse() {
		c.Failf("solver answers %v without assumptions", got)
	}
}

func runIncremental(c *C, cf encCfg, cmp f.CSort, n, rhs, seq int, onSolver bool) {
	fac := f.NewFactory()
	e := eCC(cmp, rhs, seqInts(n)...)
	fm := mk(fac, e)
	tt := ttOfE(e, n)
	var data *encoding.CCIncrementalData
	var err error
	var s *sat.Solver
	var res *encoding.FormulaEncoding
	if onSolver {
		if perr := fac.PutConfiguration(&cf.cfg); perr != nil {
			c.Failf("%v", perr)
		}
		s = sat.NewSolver(fac)
		for _, v := range mkVars(fac, n) {
			s.Add(fac.Or(v.AsFormula(), fac.Variable("fresh")))
		}
		data, err = s.AddIncrementalCC(fm)
	} else {
		res = encoding.ResultForFormula(fac)
		data, err = encoding.EncodeIncremental(fac, fm, res, &cf.cfg)
	}
	c.Step()
	check := func() {
		if onSolver {
			checkSolverTT(c, fac, s, tt, n)
		} else {
			c.Assert(projTT(c, fac, res.Formulas(), n).eq(tt), "%s: incremental encoding of %s is not exact", cf.name, e)
		}
	}
	lo, hi := cmpRange(cmp, rhs, n)
	c.Assert((err != nil) == (lo < 0) && (data == nil) == (lo < 0), "%s: incremental encoding of %s: data %v, error %v", cf.name, e, data != nil, err)
	check()
	c.StateS(fmt.Sprint(cf.name, e, onSolver))
	if lo < 0 {
		c.Outcome("not-incremental")
		return
	}
	upper := cmp == f.LE || cmp == f.LT
	apply := func(k int) {
		c.Step()
		c.Logf("tighten to %d", k)
		var ret []f.Formula
		bound := f.GE
		if upper {
			bound = f.LE
		}
		switch {
		case upper && onSolver:
			data.NewUpperBoundForSolver(k)
		case upper:
			ret = data.NewUpperBound(k)
		case onSolver:
			data.NewLowerBoundForSolver(k)
		default:
			ret = data.NewLowerBound(k)
		}
		tt = ttOfE(eCC(bound, k, seqInts(n)...), n)
		c.StateS(fmt.Sprint(cf.name, e, onSolver, k))
		if !onSolver {
			c.Assert(projTT(c, fac, ret, n).eq(tt), "%s: formulas returned for the bound %d on %s are not exact", cf.name, k, e)
		}
		check()
	}
	if upper {
		for k := hi - 1; k >= lo; k-- {
			if seq>>uint(k-lo)&1 == 1 {
				apply(k)
			}
		}
	} else {
		for k := lo; k < hi; k++ {
			if seq>>uint(k-lo)&1 == 1 {
				apply(k)
			}
		}
	}
	c.Outcome("tightened")
}
