package main

import (
	"fmt"
	"sort"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/simplification"
)

type ratingFn struct {
	name string
	fn   simplification.RatingFunction
}

func ratings() []ratingFn {
	return []ratingFn{
		{"length", simplification.DefaultRatingFunction},
		{"atoms", func(fac f.Factory, fm f.Formula) float64 { return float64(f.NumberOfAtoms(fac, fm)) }},
		{"constant", func(f.Factory, f.Formula) float64 { return 1 }},
		{"longest", func(fac f.Factory, fm f.Formula) float64 { return -float64(len(fm.Sprint(fac))) }},
		{"operators", func(fac f.Factory, fm f.Formula) float64 {
			if fm.Sort() == f.SortOr {
				return 0.5
			}
			return 1.5
		}},
	}
}

func advConfigs() []*simplification.Config {
	var r []*simplification.Config
	for i := 0; i < 8; i++ {
		base := simplification.Config{FactorOut: i&1 == 1, RestrictBackbone: i&2 == 2, SimplifyNegations: i&4 == 4}
		cfg := base
		if i < 4 { // otherwise none, it is optional
			cfg.RatingFunction = simplification.DefaultRatingFunction
		}
		r = append(r, &cfg)
		for _, rt := range ratings() {
			cfg := base
			cfg.UseRatingFunction = true
			cfg.RatingFunction = rt.fn
			r = append(r, &cfg)
		}
	}
	return r
}

// minCover: the least number of prime implicants that cover the function.
func minCover(t TT) int {
	n := t.n
	if t.isFalse() {
		return 0
	}
	var covs []uint64
	for q := range primesOf(t) {
		var m uint64
		for a := uint64(0); a < 1<<uint(n); a++ {
			if a&q.mask == q.val {
				m |= 1 << a
			}
		}
		covs = append(covs, m)
	}
	sort.Slice(covs, func(i, j int) bool { return covs[i] < covs[j] })
	var rec func(left uint64, k int) bool
	rec = func(left uint64, k int) bool {
		if left == 0 {
			return true
		}
		if k == 0 {
			return false
		}
		b := left & -left
		for _, m := range covs {
			if m&b != 0 && rec(left&^m, k-1) {
				return true
			}
		}
		return false
	}
	for k := 1; ; k++ {
		if rec(t.w[0], k) {
			return k
		}
	}
}

// dnfTerms reads a DNF as list of cubes.
func dnfTerms(c *C, fac f.Factory, fm f.Formula, n int) []cube {
	c.Assert(normalform.IsDNF(fac, fm), "%s is no DNF", fm.Sprint(fac))
	ts := []f.Formula{fm}
	if fm.Sort() == f.SortFalse {
		ts = nil
	}
	if fm.Sort() == f.SortOr {
		ts = fac.Operands(fm)
	}
	var r []cube
	for _, x := range ts {
		r = append(r, litsCube(c, fac, f.Literals(fac, x).Content(), n, false))
	}
	return r
}

const simpKinds = 8

// simplify applies one simplification and checks the result against the truth table.
func simplify(c *C, fac f.Factory, fm f.Formula, t TT, n, kind, i int, heavy bool) f.Formula {
	var res f.Formula
	var what string
	exact := true
	switch kind {
	case 0:
		rt := ratings()[i%5]
		what = "FactorOut by " + rt.name
		if i%5 == 0 && i/5%2 == 0 {
			res = simplification.FactorOut(fac, fm)
		} else {
			res = simplification.FactorOut(fac, fm, rt.fn)
		}
		if rt.name == "length" {
			c.Assert(len(res.Sprint(fac)) <= len(fm.Sprint(fac)), "factoring out makes %s longer: %s", fm.Sprint(fac), res.Sprint(fac))
		}
	case 1:
		what = "Distribute"
		res = simplification.Distribute(fac, fm)
	case 2:
		what = "MinimizeNegations"
		res = simplification.MinimizeNegations(fac, fm)
		c.Assert(len(res.Sprint(fac)) <= len(fm.Sprint(fac)), "minimising the negations makes %s longer: %s", fm.Sprint(fac), res.Sprint(fac))
	case 3:
		what = "PropagateBackbone"
		res = simplification.PropagateBackbone(fac, fm)
		checkBackboneForm(c, fac, fm, res, t)
	case 4:
		what = "PropagateUnits"
		res = simplification.PropagateUnits(fac, fm)
		exact = false
	case 5:
		what = "QMC"
		if i%2 == 0 {
			res = simplification.QMC(fac, fm)
		} else {
			r, st := simplification.QMCWithHandler(fac, fm, handler.NopHandler)
			c.Assert(st.Success, "QMC is reported as cancelled without being cancelled")
			res = r
		}
		primes := primesOf(t)
		terms := dnfTerms(c, fac, res, n)
		for _, q := range terms {
			c.Assert(primes[q], "%s: QMC gives %s with a term that is no prime implicant", fm.Sprint(fac), res.Sprint(fac))
		}
		if n <= 4 {
			c.Assert(len(terms) == minCover(t), "%s: QMC gives %s with %d terms, %d suffice", fm.Sprint(fac), res.Sprint(fac), len(terms), minCover(t))
		}
		c.Outcome(fmt.Sprintf("QMC: %d terms", len(terms)))
	case 6, 7:
		cfgs := advConfigs()
		k := 1
		if heavy {
			k = len(cfgs)
		}
		for j := 0; j < k; j++ {
			cfg := cfgs[(i+j)%len(cfgs)]
			c.Step()
			what = fmt.Sprintf("Advanced factor out %v, backbone %v, negations %v, rating %v #%d", cfg.FactorOut, cfg.RestrictBackbone, cfg.SimplifyNegations, cfg.UseRatingFunction, (i+j)%len(cfgs)%6)
			if kind == 6 {
				res = simplification.Advanced(fac, fm, cfg)
			} else {
				if i%48 == 47 {
					what = "Advanced, default"
				} else if err := fac.PutConfiguration(cfg); err != nil {
					c.Failf("configuration refused: %v", err)
				}
				r, st := simplification.AdvancedWithHandler(fac, fm, handler.NopHandler)
				c.Assert(st.Success, "the simplification is reported as cancelled without being cancelled")
				res = r
			}
			if j+1 < k {
				checkSimplified(c, fac, fm, res, t, n, what, true)
			}
		}
	}
	c.Step()
	checkSimplified(c, fac, fm, res, t, n, what, exact)
	if res == fm {
		c.Outcome(fmt.Sprintf("kind %d: unchanged", kind))
	} else {
		c.Outcome(fmt.Sprintf("kind %d: simplified", kind))
	}
	return res
}

func checkSimplified(c *C, fac f.Factory, fm, res f.Formula, t TT, n int, what string, exact bool) {
	var got TT
	if exact {
		for _, v := range f.Variables(fac, res).Content() {
			c.Assert(f.Variables(fac, fm).Contains(v), "%s of %s is %s with a new variable", what, fm.Sprint(fac), res.Sprint(fac))
		}
		got = ttOf(c, fac, res, n)
	} else {
		got = projAny(c, fac, []f.Formula{res}, n)
	}
	c.Assert(got.eq(t), "%s of %s is %s: %s instead of %s", what, fm.Sprint(fac), res.Sprint(fac), got, t)
}

// checkBackboneForm: every forced literal is a conjunct of the result, its variable occurs nowhere else.
func checkBackboneForm(c *C, fac f.Factory, fm, res f.Formula, t TT) {
	if t.isFalse() {
		c.Assert(res.Sort() == f.SortFalse, "the backbone propagation of the unsatisfiable %s is %s", fm.Sprint(fac), res.Sprint(fac))
		return
	}
	conj := []f.Formula{res}
	if res.Sort() == f.SortAnd {
		conj = fac.Operands(res)
	}
	occurs := f.Variables(fac, fm)
	for v := 0; v < t.n; v++ {
		if !occurs.Contains(mkVar(fac, v)) {
			continue
		}
		for ph := 0; ph < 2; ph++ {
			if !t.and(ttVar(t.n, v)).isFalse() && ph == 1 || !t.and(ttVar(t.n, v).not()).isFalse() && ph == 0 {
				continue
			}
			found := false
			for _, x := range conj {
				if x == mkLit(fac, 2*v+ph).AsFormula() {
					found = true
				} else {
					c.Assert(!f.Variables(fac, x).Contains(mkVar(fac, v)), "backbone propagation of %s is %s: forced variable %s remains", fm.Sprint(fac), res.Sprint(fac), vname(v))
				}
			}
			c.Assert(found, "backbone propagation of %s is %s: the forced literal of %s is missing", fm.Sprint(fac), res.Sprint(fac), vname(v))
			c.Outcome("backbone literal")
		}
	}
}

func simplifyAll(c *C, e *E, n, i int, heavy bool) {
	c.Key("%s", e)
	c.StateS(e.String())
	fac := f.NewFactory()
	if i%3 == 1 {
		fac = f.NewFactory(true)
	}
	fm := mk(fac, e)
	t := ttOfE(e, n)
	text := fm.Sprint(fac)
	for k := 0; k < simpKinds; k++ {
		kind := (k + i) % simpKinds
		res := simplify(c, fac, fm, t, n, kind, i/simpKinds+k, heavy)
		if !e.hasConstraint() && kind != 4 && (heavy || i%5 == 0) { // a second simplification on the result
			simplify(c, fac, res, t, n, (kind+1+i/8%(simpKinds-1))%simpKinds, i+k, false)
		}
	}
	c.Assert(fm.Sprint(fac) == text && ttOf(c, fac, fm, n).eq(t), "the input was changed")
}

// subsume checks the subsumption of a clause (or term) set.
func subsume(c *C, cls [][]int, n int, dnf bool, i int) {
	c.Key("%v dnf %v", cls, dnf)
	c.StateS(fmt.Sprint(cls, dnf))
	fac := f.NewFactory()
	// the order of creation determines the library's order of the literals
	for v := 0; v < n; v++ {
		if i%2 == 1 {
			fac.Literal(vname((v*(n-1)+i/2)%n), i/4%2 == 0)
		}
	}
	var ops []f.Formula
	type set [2]uint64
	sets := map[set]bool{}
	for _, cl := range cls {
		var ls []f.Formula
		var s set
		for j := range cl {
			l := cl[(j+i/3)%len(cl)]
			ls = append(ls, mkLit(fac, l).AsFormula())
			s[l&1] |= 1 << uint(l>>1)
		}
		sets[s] = true
		if dnf {
			ops = append(ops, fac.And(ls...))
		} else {
			ops = append(ops, fac.Or(ls...))
		}
	}
	rot := i / 5 % len(ops)
	ops = append(append([]f.Formula{}, ops[rot:]...), ops[:rot]...)
	var fm, res f.Formula
	var err error
	var st handler.State
	sub := simplification.CNFSubsumptionWithHandler
	if dnf {
		fm = fac.Or(ops...)
		sub = simplification.DNFSubsumptionWithHandler
	} else {
		fm = fac.And(ops...)
	}
	if fm.Sort() <= f.SortTrue {
		r, e := simplification.CNFSubsumption(fac, fm)
		c.Assert(e == nil && r == fm, "subsumption of a constant")
		c.Outcome("constant")
		return
	}
	if i%2 == 0 {
		res, err, st = sub(fac, fm, handler.NopHandler)
		c.Assert(st.Success, "the subsumption is reported as cancelled without being cancelled")
	} else if dnf {
		res, err = simplification.DNFSubsumption(fac, fm)
	} else {
		res, err = simplification.CNFSubsumption(fac, fm)
	}
	c.Step()
	c.Assert(err == nil, "%s is refused: %v", fm.Sprint(fac), err)
	want := map[set]bool{}
	for s := range sets {
		min := true
		for o := range sets {
			if o != s && o[0]&^s[0] == 0 && o[1]&^s[1] == 0 {
				min = false
			}
		}
		if min {
			want[s] = true
		}
	}
	outer, inner := f.SortAnd, f.SortOr
	if dnf {
		outer, inner = inner, outer
	}
	parts := []f.Formula{res}
	if res.Sort() == outer {
		parts = fac.Operands(res)
	}
	got := map[set]bool{}
	r := newReader(fac, n)
	for _, p := range parts {
		var s set
		ls := []f.Formula{p}
		if p.Sort() == inner {
			ls = fac.Operands(p)
		}
		for _, l := range ls {
			c.Assert(l.Sort() == f.SortLiteral, "%s after subsumption is %s", fm.Sprint(fac), res.Sprint(fac))
			x := r.lit(f.Literal(l))
			s[x&1] |= 1 << uint(x>>1)
		}
		c.Assert(want[s], "%s after subsumption is %s with the non-minimal or unknown %s", fm.Sprint(fac), res.Sprint(fac), p.Sprint(fac))
		c.Assert(!got[s], "repeated clause")
		got[s] = true
	}
	if len(want) > 1 || !contradictory(cls, dnf) {
		c.Assert(len(got) == len(want), "%s after subsumption is %s: %d of %d minimal ones", fm.Sprint(fac), res.Sprint(fac), len(got), len(want))
	}
	c.Outcome(fmt.Sprintf("%d of %d kept", len(want), len(sets)))
}

// longConstraints: conjunctions and clauses written as long constraints.
func longConstraints() Space {
	var es []*E
	for p := 0; p < 8; p++ {
		lits := make([]int, 27)
		coefs := make([]int, len(lits))
		for j := range lits {
			lits[j] = 2*(j%3) + p>>(j%3)&1
			if j < 3 {
				coefs[j] = 1
			}
		}
		es = append(es, ePBC(f.GE, 1, coefs, lits), ePBC(f.GE, 3, coefs, lits))
	}
	return atoms(es...)
}

// paddable: constraints whose encoding needs new variables.
func paddable() Space {
	return atoms(
		ePBC(f.GT, 2, []int{3, 1, -1}, []int{0, 3, 5}), ePBC(f.LE, 2, []int{-1, 4, 2}, []int{0, 3, 5}),
		ePBC(f.GE, 0, []int{-2, 3, 0}, []int{0, 3, 4}), ePBC(f.GE, 0, []int{-2, 2, -2}, []int{0, 3, 4}),
		ePBC(f.LT, 1, []int{-1, -1, 4}, []int{0, 2, 5}), ePBC(f.EQ, 1, []int{-1, -1, 2}, []int{0, 2, 5}),
		eCC(f.LE, 2, 0, 1, 2), eCC(f.EQ, 2, 0, 1, 2),
	)
}

// contradictory: complementary unit clauses, which the factory itself turns into a constant.
func contradictory(cls [][]int, _ bool) bool {
	var u [2]uint64
	for _, cl := range cls {
		if len(cl) == 1 {
			u[cl[0]&1] |= 1 << uint(cl[0]>>1)
		}
	}
	return u[0]&u[1] != 0
}

func init() {
	register(&Prop{
		ID: "P25",
		Rule: "A model state is a distinct formula (or clause/term set); a transition is one simplification. " +
			"Every result is compared with the input's truth table; QMC with the primes and the least cover computed from the table; subsumption with the set-theoretically minimal clauses; backbone propagation with the forced literals.",
		Assume: []string{"Formulas have up to five variables, clause sets up to six; PropagateUnits is compared after projecting auxiliary variables of the CNF transformation."},
		Domains: func(t Tier) []Domain {
			var doms []Domain
			add := func(name, bound string, sp Space, n int, heavy bool) {
				doms = append(doms, Domain{name, bound + "; every simplification, configurations rotate", sp.N, func(c *C, i int) {
					simplifyAll(c, sp.At(i), n, i, heavy)
				}})
			}
			for n := 0; n <= 2; n++ {
				add(fmt.Sprintf("functions-%d", n), fmt.Sprintf("all Boolean functions over %d variables in three forms, all configurations", n), union(functions(n, 0), functions(n, 1), functions(n, 2)), n, true)
			}
			for form := 0; form < 3; form++ {
				add(fmt.Sprintf("functions-3-%d", form), fmt.Sprintf("all Boolean functions over 3 variables (form %d)", form), functions(3, form), 3, t == Thorough)
			}
			st := t.pick(97, 5)
			add("functions-4", fmt.Sprintf("Boolean functions over 4 variables, every %dth", st), stride(Space{65536, func(i int) *E { return funcTerm(uint64(i), 4, i%3) }}, st), 4, false)
			st = t.pick(19, 1)
			add("depth-2", fmt.Sprintf("all formulas of depth two over two variables and constants, every %dth", st), stride(level(level(litAtoms(2, true))), st), 2, false)
			add("depth-1-3", "all formulas of depth one over three variables", level(litAtoms(3, true)), 3, true)
			st = t.pick(11, 1)
			l3 := litAtoms(3, false)
			n2 := nary(l3, 2)
			add("nary-2-2", fmt.Sprintf("all conjunctions and disjunctions of two binary conjunctions or disjunctions and a literal over three variables, every %dth", st), stride(Space{2 * n2.N * n2.N * l3.N, func(i int) *E {
				m := mixed(i, 2, n2.N, n2.N, l3.N)
				if m[0] == 0 {
					return eAnd(n2.At(m[1]), n2.At(m[2]), l3.At(m[3]))
				}
				return eOr(n2.At(m[1]), n2.At(m[2]), l3.At(m[3]))
			}}, st), 3, false)
			l4 := litAtoms(4, false)
			p4 := stride(nary(l4, 2), t.pick(5, 2))
			add("nary-3", "conjunctions and disjunctions of three binary ones over four variables", stride(Space{2 * p4.N * p4.N * p4.N, func(i int) *E {
				m := mixed(i, 2, p4.N, p4.N, p4.N)
				if m[0] == 0 {
					return eAnd(p4.At(m[1]), p4.At(m[2]), p4.At(m[3]))
				}
				return eOr(p4.At(m[1]), p4.At(m[2]), p4.At(m[3]))
			}}, t.pick(31, 29)), 4, false)
			for _, n := range []int{4, 5} {
				for k := 2; k <= 3; k++ {
					ps := patterns(n, k)
					add(fmt.Sprintf("circulant-%d-%d", n, k), fmt.Sprintf("circulant CNFs, DNFs and negated CNFs over %d variables with %d literals", n, k), stride(Space{len(ps) * 3, func(i int) *E {
						var ops []*E
						for _, cl := range ps[i/3].clauses(n) {
							var ls []*E
							for _, l := range cl {
								ls = append(ls, eLit(l))
							}
							if i%3 == 1 {
								ops = append(ops, eAnd(ls...))
							} else {
								ops = append(ops, eOr(ls...))
							}
						}
						return []*E{eAnd(ops...), eOr(ops...), eNot(eAnd(ops...))}[i%3]
					}}, t.pick(1, 1)), n, t == Thorough && n == 4)
				}
			}
			ca := constraintAtoms(3)
			add("constraints", "cardinality and pseudo-Boolean constraints over three variables, negated, combined with literals and with each other", union(ca, negs(ca), binary(ca, litAtoms(3, false)), stride(binary(ca, ca), t.pick(3, 1))), 3, t == Thorough)
			c4 := constraintAtoms(4)
			add("constraints-4", "constraints over four variables, negated and combined with literals", stride(union(c4, negs(c4), binary(c4, litAtoms(4, false))), t.pick(3, 1)), 4, false)

			cl := longConstraints()
			ci := paddable()
			lt := atoms(eTrue, eFalse, eLit(0), eLit(3))
			add("constraints-padded", "implications, equivalences, conjunctions and disjunctions of long constraints with short encodings and of constraints whose encodings need new variables", stride(Space{6 * cl.N * cl.N * ci.N * lt.N, func(i int) *E {
				m := mixed(i, 6, lt.N, cl.N, cl.N, ci.N)
				l, p, q, x := lt.At(m[1]), cl.At(m[2]), cl.At(m[3]), ci.At(m[4])
				return []*E{
					eNot(eAnd(p, q, x)), eNot(eAnd(p, q, eNot(x))), eImpl(p, eAnd(x, q, eNot(l))),
					eImpl(eAnd(x, p), eAnd(q, eNot(l))), eOr(eAnd(l, p, x), eAnd(p, eNot(q))), eImpl(eAnd(p, eNot(l)), eEquiv(x, q)),
				}[m[0]]
			}}, t.pick(23, 1)), 3, false)

			addSub := func(name, bound string, sp CNFSpace) {
				doms = append(doms, Domain{"subsumption-" + name, bound + ", as CNF and as DNF; orders of creation, of clauses and of literals rotate", sp.N * 2, func(c *C, i int) {
					subsume(c, sp.At(i/2), sp.Vars, i%2 == 1, i/2*3+i/7)
				}})
			}
			addSub("2", "all sets of clauses over two variables", clauseSets(2, 2, 1, 8))
			addSub("3", "all sets of up to four clauses over three variables", clauseSets(3, 3, 1, t.pick(4, 5)))
			var unate [][]int
			for _, n := range []int{4, 5, 6} {
				unate = nil
				for m := 1; m < 1<<uint(n); m++ {
					var cl []int
					for _, v := range bitsOf(uint64(m)) {
						cl = append(cl, 2*v+(v&1))
					}
					unate = append(unate, cl)
				}
				k := map[int]int{4: t.pick(5, 8), 5: t.pick(4, 5), 6: t.pick(2, 3)}[n]
				addSub(fmt.Sprintf("unate-%d", n), fmt.Sprintf("all sets of up to %d unate clauses over %d variables", k, n), clauseSetsOf(n, unate, 1, k))
			}
			// one long clause against families of its subsets and near-subsets
			return doms
		},
	})
}
