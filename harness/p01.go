package main

import (
	"fmt"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
)

// P01: construction of formulas.

func init() {
	register(&Prop{ID: "P01", Domains: p01Domains,
		Rule:   "every construction sequence is executed on a real factory and compared call by call with a reference model of hash-consed terms; a model state is a distinct normalised term (or pool of terms)",
		Assume: []string{"identity of formulas is claimed for repeated calls with equal operands in equal order; the unnormalised clause/minterm constructors with repeated or complementary literals are only claimed to have the right meaning (their documentation excludes more)"},
	})
}

// model of the factory's normalisation -------------------------------------------------

type normModel struct{ conserve bool }

func (m normModel) key(e *E) string { return e.String() }

func isNegOf(a, b *E) bool { // structural complement
	if a.Op == OLit && b.Op == OLit {
		return a.Lit == b.Lit^1
	}
	if a.Op == ONot {
		return a.Sub[0].String() == b.String()
	}
	if b.Op == ONot {
		return b.Sub[0].String() == a.String()
	}
	return (a.Op == OTrue && b.Op == OFalse) || (a.Op == OFalse && b.Op == OTrue)
}

func (m normModel) not(a *E) *E {
	switch a.Op {
	case OTrue:
		return eFalse
	case OFalse:
		return eTrue
	case OLit:
		return eLit(a.Lit ^ 1)
	case ONot:
		return a.Sub[0]
	}
	return eNot(a)
}

func (m normModel) impl(a, b *E) *E {
	switch {
	case a.Op == OFalse, b.Op == OTrue:
		return eTrue
	case a.Op == OTrue:
		return b
	case b.Op == OFalse, isNegOf(a, b):
		return m.not(a)
	case !m.conserve && a.String() == b.String():
		return eTrue
	}
	return eImpl(a, b)
}

func (m normModel) equiv(a, b *E) *E {
	switch {
	case a.Op == OTrue:
		return b
	case b.Op == OTrue:
		return a
	case a.Op == OFalse:
		return m.not(b)
	case b.Op == OFalse:
		return m.not(a)
	case !m.conserve && a.String() == b.String():
		return eTrue
	case !m.conserve && isNegOf(a, b):
		return eFalse
	}
	return eEquiv(a, b)
}

func (m normModel) nary(op Op, subs []*E) *E {
	neutral, absorbing := eTrue, eFalse
	if op == OOr {
		neutral, absorbing = eFalse, eTrue
	}
	var flat []*E
	for _, s := range subs {
		if s.Op == op {
			flat = append(flat, s.Sub...)
		} else {
			flat = append(flat, s)
		}
	}
	var res []*E
	for _, s := range flat {
		if s.Op == neutral.Op {
			continue
		}
		if s.Op == absorbing.Op {
			return absorbing
		}
		dup := false
		for _, r := range res {
			if !m.conserve && isNegOf(r, s) {
				return absorbing
			}
			if r.String() == s.String() {
				dup = true
			}
		}
		if !dup {
			res = append(res, s)
		}
	}
	switch len(res) {
	case 0:
		return neutral
	case 1:
		return res[0]
	}
	return &E{Op: op, Sub: res}
}

func isCCModel(e *E) bool {
	for i, l := range e.Lits {
		if l&1 == 1 || (e.Op == OPBC && e.Coef[i] != 1) {
			return false
		}
	}
	if e.Cmp == f.LT {
		return e.Rhs >= 1
	}
	return e.Rhs >= 0
}

func (m normModel) constraint(e *E) *E {
	if len(e.Lits) == 0 {
		if cmpEval(e.Cmp, 0, e.Rhs) {
			return eTrue
		}
		return eFalse
	}
	if e.Op == OPBC && isCCModel(e) {
		return &E{Op: OCC, Cmp: e.Cmp, Rhs: e.Rhs, Lits: e.Lits}
	}
	return e
}

func (m normModel) norm(e *E) *E {
	switch e.Op {
	case ONot:
		return m.not(m.norm(e.Sub[0]))
	case OAnd, OOr:
		s := make([]*E, len(e.Sub))
		for i := range s {
			s[i] = m.norm(e.Sub[i])
		}
		return m.nary(e.Op, s)
	case OImpl:
		return m.impl(m.norm(e.Sub[0]), m.norm(e.Sub[1]))
	case OEquiv:
		return m.equiv(m.norm(e.Sub[0]), m.norm(e.Sub[1]))
	case OCC, OPBC:
		return m.constraint(e)
	}
	return e
}

func readBack(c *C, fac f.Factory, fm f.Formula) *E {
	r := newReader(fac, 26)
	e := r.term(fm)
	if r.n > 26 {
		c.Failf("formula %s contains unknown variable names", fm.Sprint(fac))
	}
	return e
}

func checkOperandsAccessor(c *C, fac f.Factory, fm f.Formula) {
	ops := fac.Operands(fm)
	var want []f.Formula
	switch fm.Sort() {
	case f.SortNot:
		o, _ := fac.NotOperand(fm)
		want = []f.Formula{o}
	case f.SortImpl, f.SortEquiv:
		l, r, _ := fac.BinaryLeftRight(fm)
		want = []f.Formula{l, r}
	case f.SortAnd, f.SortOr:
		want, _ = fac.NaryOperands(fm)
	}
	if len(ops) != len(want) {
		c.Failf("Operands disagrees with the accessors for %s", fm.Sprint(fac))
	}
	for i := range ops {
		if ops[i] != want[i] {
			c.Failf("Operands disagrees with the accessors for %s", fm.Sprint(fac))
		}
		checkOperandsAccessor(c, fac, ops[i])
	}
	if fm.Negate(fac) != fac.Not(fm) {
		c.Failf("Negate differs from Not for %s", fm.Sprint(fac))
	}
	if fac.Not(fac.Not(fm)) != fm {
		c.Failf("double negation of %s is not itself", fm.Sprint(fac))
	}
	wrong := 0
	if _, ok := fac.NotOperand(fm); ok != (fm.Sort() == f.SortNot) {
		wrong++
	}
	if _, _, ok := fac.BinaryLeftRight(fm); ok != (fm.Sort() == f.SortImpl || fm.Sort() == f.SortEquiv) {
		wrong++
	}
	if _, ok := fac.NaryOperands(fm); ok != (fm.Sort() == f.SortAnd || fm.Sort() == f.SortOr) {
		wrong++
	}
	if _, _, ok := fac.LiteralNamePhase(fm); ok != (fm.Sort() == f.SortLiteral) {
		wrong++
	}
	if _, _, _, _, ok := fac.PBCOps(fm); ok != (fm.Sort() == f.SortCC || fm.Sort() == f.SortPBC) {
		wrong++
	}
	if wrong > 0 {
		c.Failf("accessors misreport the sort of %s", fm.Sprint(fac))
	}
	if fm.IsConstant() != (fm.Sort() == f.SortTrue || fm.Sort() == f.SortFalse) ||
		fm.IsAtomic() != (fm.IsConstant() || fm.Sort() == f.SortLiteral || fm.Sort() == f.SortCC || fm.Sort() == f.SortPBC) {
		c.Failf("IsConstant/IsAtomic wrong for %s", fm.Sprint(fac))
	}
}

func p01Domains(t Tier) []Domain {
	var ds []Domain
	// A: terms
	for _, conserve := range []bool{false, true} {
		conserve := conserve
		m := normModel{conserve}
		n := 2
		sp := level(level(litAtoms(n, true)))
		if t == Thorough {
			n = 3
			sp = level(level(litAtoms(n, true)))
		}
		ds = append(ds, Domain{
			Name:  fmt.Sprintf("terms-conserve=%v", conserve),
			Bound: fmt.Sprintf("all terms of depth <= 2 over %d variables and constants", n),
			N:     sp.N,
			Run: func(c *C, i int) {
				e := sp.At(i)
				c.Key("%s", e)
				fac := f.NewFactory(conserve)
				fm := mk(fac, e)
				c.Step()
				checkTerm(c, m, fac, e, fm, n)
				if again := mk(fac, e); again != fm {
					c.Failf("building %s twice gives %s and %s", e, fm.Sprint(fac), again.Sprint(fac))
				}
				c.Step()
			}})
		// B: operand lists
		pool := []*E{eTrue, eFalse, eLit(0), eLit(1), eLit(2), eAnd(eLit(0), eLit(2)), eOr(eLit(0), eLit(3)), eNot(eAnd(eLit(0), eLit(2))), eNot(eOr(eLit(0), eLit(3))),
			eImpl(eLit(0), eLit(2)), eNot(eImpl(eLit(0), eLit(2))), eEquiv(eLit(4), eLit(2)), eCC(f.LE, 1, 0, 1, 2), eNot(eCC(f.LE, 1, 0, 1, 2)), ePBC(f.GE, 2, []int{2, -1}, []int{0, 3}), eAnd(eLit(4), eLit(1)), eOr(eLit(5), eLit(1))}
		maxLen := t.pick(3, 4)
		spl := seqCount(len(pool), maxLen)
		ds = append(ds, Domain{
			Name:  fmt.Sprintf("operands-conserve=%v", conserve),
			Bound: fmt.Sprintf("And and Or over all operand lists of length <= %d from %d operands", maxLen, len(pool)),
			N:     2 * spl,
			Run: func(c *C, i int) {
				idx := seqAt(i/2, len(pool), maxLen)
				e := &E{Op: []Op{OAnd, OOr}[i%2]}
				for _, k := range idx {
					e.Sub = append(e.Sub, pool[k])
				}
				c.Key("%v %s", []string{"And", "Or"}[i%2], e)
				fac := f.NewFactory(conserve)
				fm := mk(fac, e)
				c.Step()
				checkTerm(c, m, fac, e, fm, 3)
				// through the generic constructor
				ops := make([]f.Formula, len(e.Sub))
				for j, s := range e.Sub {
					ops[j] = mk(fac, s)
				}
				sort := f.SortAnd
				if e.Op == OOr {
					sort = f.SortOr
				}
				g, err := fac.NaryOperator(sort, ops...)
				if err != nil || g != fm {
					c.Failf("NaryOperator differs from And/Or for %s", e)
				}
			}})
	}
	// C: histories of construction calls
	ds = append(ds, p01History(t))
	ds = append(ds, p01RawLiterals(t))
	// D: constraints
	ds = append(ds, p01Constraints(t))
	ds = append(ds, p01Mutation(t))
	ds = append(ds, p01Many(t), p01ManyConstraints(t))
	return ds
}

func checkTerm(c *C, m normModel, fac f.Factory, e *E, fm f.Formula, n int) {
	got := readBack(c, fac, fm)
	want := m.norm(e)
	c.StateS(want.String())
	if !ttOfE(got, n).eq(ttOfE(e, n)) {
		c.Failf("%s was built as %s, which is not equivalent", e, got)
	}
	if got.String() != want.String() {
		c.Failf("%s was built as %s instead of %s", e, got, want)
	}
	switch got.Op {
	case OTrue, OFalse:
		c.Outcome("constant")
	case OLit:
		c.Outcome("literal")
	default:
		c.Outcome("compound")
	}
	checkOperandsAccessor(c, fac, fm)
}

type poolEntry struct {
	fm   f.Formula
	term *E
	key  string
}

func p01History(t Tier) Domain {
	base := []*E{eLit(0), eLit(2)}
	steps := 3
	if t == Thorough {
		base = []*E{eLit(0), eLit(3), eLit(4)}
	}
	// number of operations available with a pool of k: not(k) + 4 k^2 + nary3? (k^2 used for And/Or/Impl/Equiv)
	opsAt := func(k int) int { return k + 4*k*k + 3 }
	total := 1
	for s := 0; s < steps; s++ {
		total *= opsAt(len(base) + s)
	}
	m := normModel{false}
	return Domain{
		Name: "histories", Bound: fmt.Sprintf("all sequences of %d construction calls (Not, And, Or, Implication, Equivalence, CC, PBC, DualSort) over a growing pool of formulas starting with %d literals", steps, len(base)),
		N: total,
		Run: func(c *C, i int) {
			fac := f.NewFactory()
			var pool []poolEntry
			byKey := map[string]f.Formula{}
			add := func(fm f.Formula, e *E) {
				k := e.String()
				got := readBack(c, fac, fm).String()
				if got != k {
					c.Failf("step %d: result reads back as %s, expected %s", len(pool), got, k)
				}
				if old, ok := byKey[k]; ok && old != fm {
					c.Failf("%s is represented by two different formulas", k)
				}
				for ok, of := range byKey {
					if of == fm && ok != k {
						c.Failf("%s and %s are represented by the same formula", k, ok)
					}
				}
				byKey[k] = fm
				pool = append(pool, poolEntry{fm, e, k})
				c.StateS(k)
			}
			for _, b := range base {
				add(mk(fac, b), b)
			}
			for s := 0; s < steps; s++ {
				k := len(pool)
				o := i % opsAt(k)
				i /= opsAt(k)
				c.Step()
				switch {
				case o < k:
					c.Logf("Not(%s)", pool[o].key)
					add(fac.Not(pool[o].fm), m.not(pool[o].term))
				case o < k+4*k*k:
					o -= k
					x, y := pool[o/4/k], pool[o/4%k]
					switch o % 4 {
					case 0:
						c.Logf("And(%s,%s)", x.key, y.key)
						add(fac.And(x.fm, y.fm), m.nary(OAnd, []*E{x.term, y.term}))
					case 1:
						c.Logf("Or(%s,%s)", x.key, y.key)
						add(fac.Or(x.fm, y.fm), m.nary(OOr, []*E{x.term, y.term}))
					case 2:
						c.Logf("Impl(%s,%s)", x.key, y.key)
						g, err := fac.BinaryOperator(f.SortImpl, x.fm, y.fm)
						if err != nil || g != fac.Implication(x.fm, y.fm) {
							c.Failf("BinaryOperator differs from Implication")
						}
						add(g, m.impl(x.term, y.term))
					case 3:
						c.Logf("Equiv(%s,%s)", x.key, y.key)
						g, err := fac.BinaryOperator(f.SortEquiv, x.fm, y.fm)
						if err != nil || g != fac.Equivalence(x.fm, y.fm) {
							c.Failf("BinaryOperator differs from Equivalence")
						}
						add(g, m.equiv(x.term, y.term))
					}
				default:
					e := []*E{eCC(f.LE, 1, 0, 1), ePBC(f.GE, 2, []int{2, -1}, []int{0, 3}), eCC(f.EQ, 1, 0, 1)}[o-k-4*k*k]
					c.Logf("%s", e)
					switch o - k - 4*k*k {
					case 0:
						add(fac.AMO(fac.Var("a"), fac.Var("b")), e)
					case 2:
						add(fac.EXO(fac.Var("a"), fac.Var("b")), e)
					default:
						add(mk(fac, e), e)
					}
				}
				// nothing built before has changed
				for _, p := range pool {
					if got := readBack(c, fac, p.fm).String(); got != p.key {
						c.Failf("formula %s changed into %s", p.key, got)
					}
				}
			}
			c.Outcome("history")
		}}
}

// unnormalised clause/minterm constructors mixed with And/Or: only the meaning is claimed
func p01RawLiterals(t Tier) Domain {
	lits := []int{0, 1, 2, 3}
	maxLen := 3
	seqs := seqCount(len(lits), maxLen)
	return Domain{
		Name: "clause-minterm", Bound: "all pairs of Clause/Minterm/And/Or calls on literal lists of length <= 3 over 2 variables",
		N: 16 * seqs * seqs,
		Run: func(c *C, i int) {
			ix := mixed(i, seqs, seqs, 4, 4)
			fac := f.NewFactory()
			c.Key("%v", ix)
			var fms []f.Formula
			var es []*E
			for k := 0; k < 2; k++ {
				sq := seqAt(ix[k], len(lits), maxLen)
				ls := make([]int, len(sq))
				for j, s := range sq {
					ls[j] = lits[s]
				}
				ml := mkLits(fac, ls)
				e := &E{Op: OAnd}
				for _, l := range ls {
					e.Sub = append(e.Sub, eLit(l))
				}
				var fm f.Formula
				switch ix[2+k] {
				case 0:
					fm = fac.Minterm(ml...)
				case 1:
					fm = fac.And(f.LiteralsAsFormulas(ml)...)
				case 2:
					e.Op = OOr
					fm = fac.Clause(ml...)
				case 3:
					e.Op = OOr
					fm = fac.Or(f.LiteralsAsFormulas(ml)...)
				}
				c.Step()
				c.Logf("call %d on %s gives %s", ix[2+k], e, fm.Sprint(fac))
				fms = append(fms, fm)
				es = append(es, e)
				for j := range fms {
					c.Assert(ttOf(c, fac, fms[j], 2).eq(ttOfE(es[j], 2)), "call %d: %s means %s", ix[2+j], es[j], fms[j].Sprint(fac))
					c.State(ttOfE(es[j], 2).hash() + uint64(j))
				}
				for j := range ls {
					if ml[j] != mkLit(fac, ls[j]) {
						c.Failf("the caller's literal slice was changed")
					}
				}
			}
		}}
}

func p01Constraints(t Tier) Domain {
	rhsLo, rhsHi := -2, 4
	coefs := []int{-2, -1, 0, 1, 2}
	lits := []int{0, 1, 2, 5}
	maxLen := t.pick(2, 3)
	per := len(coefs) * len(lits)
	seqs := seqCount(per, maxLen)
	cmps := []f.CSort{f.EQ, f.LE, f.LT, f.GE, f.GT}
	nr := rhsHi - rhsLo + 1
	return Domain{
		Name: "constraints", Bound: fmt.Sprintf("all comparators x right-hand sides %d..%d x coefficient/literal lists of length <= %d (repetitions and complements included); constraint read back, rebuilt, with the caller's slices overwritten", rhsLo, rhsHi, maxLen),
		N: seqs * nr * 5,
		Run: func(c *C, i int) {
			ix := mixed(i, seqs, nr, 5)
			sq := seqAt(ix[0], per, maxLen)
			e := &E{Op: OPBC, Cmp: cmps[ix[2]], Rhs: rhsLo + ix[1]}
			for _, s := range sq {
				e.Coef = append(e.Coef, coefs[s/len(lits)])
				e.Lits = append(e.Lits, lits[s%len(lits)])
			}
			c.Key("%s", e)
			fac := f.NewFactory()
			ls := mkLits(fac, e.Lits)
			co := append([]int{}, e.Coef...)
			fm := fac.PBC(e.Cmp, e.Rhs, ls, co)
			c.Step()
			want := normModel{}.constraint(e)
			got := readBack(c, fac, fm)
			c.StateS(want.String())
			c.Assert(got.String() == want.String() && got.Op == want.Op, "built as %s", got)
			other := fac.PBC(e.Cmp, e.Rhs+1, mkLits(fac, e.Lits), append([]int{}, e.Coef...))
			if len(sq) > 0 {
				c.Assert(other != fm, "constraints with different right-hand sides are identical")
			}
			for j := range co {
				co[j] = 77
				ls[j] = fac.Lit("z", false)
			}
			got = readBack(c, fac, fm)
			c.Assert(got.String() == want.String(), "changed to %s after the caller reused its slices", got)
			again := fac.PBC(e.Cmp, e.Rhs, mkLits(fac, e.Lits), append([]int{}, e.Coef...))
			c.Step()
			c.Assert(again == fm, "building %s twice gives different formulas", e)
			if want.Op == OCC {
				vs := []f.Variable{}
				for _, l := range e.Lits {
					vs = append(vs, mkVar(fac, l>>1))
				}
				c.Assert(fac.CC(e.Cmp, uint32(e.Rhs), vs...) == fm, "CC and PBC constructors differ for %s", e)
				c.Outcome("cc")
			} else {
				c.Outcome("pbc-or-constant")
			}
		}}
}

// p01Mutation: computations never change existing formulas.
func p01Mutation(t Tier) Domain {
	inputs := []*E{
		ePBC(f.LE, 2, []int{1, 1, 1, 1}, []int{7, 4, 2, 1}),
		ePBC(f.GE, 3, []int{3, -2, 1}, []int{5, 2, 0}),
		eCC(f.LE, 1, 3, 1, 2, 0), eCC(f.EQ, 2, 3, 1, 2, 0), eCC(f.GE, 2, 3, 2, 1, 0), eCC(f.LT, 3, 2, 1, 0, 3), eCC(f.GT, 1, 2, 3, 0),
		eAnd(eCC(f.LE, 2, 3, 1, 2, 0), eImpl(eLit(0), eOr(eLit(3), eLit(5)))),
		eEquiv(eImpl(eLit(1), eAnd(eLit(2), eLit(4))), eOr(eAnd(eLit(5), eLit(6)), eNot(eEquiv(eLit(0), eLit(2))))),
		eAnd(eOr(eLit(6), eLit(4), eLit(3)), eOr(eLit(7), eLit(0)), eOr(eLit(1), eLit(2), eLit(5))),
		eOr(eAnd(eLit(6), eLit(4), eLit(3)), eAnd(eLit(7), eLit(0)), eAnd(eLit(1), eLit(2), eLit(5))),
		eNot(eCC(f.EQ, 1, 3, 1, 0)), eOr(ePBC(f.LT, 1, []int{2, -3, 1}, []int{4, 3, 0}), eLit(1)),
		ePBC(f.EQ, 2, []int{2, 2, 1, -1}, []int{6, 5, 2, 1}),
		eAnd(eLit(6), eLit(0), eLit(3)),
	}
	comps := allComps()
	return Domain{
		Name: "computations-do-not-mutate", Bound: fmt.Sprintf("%d formulas x all ordered pairs of %d computations of the library on one factory; every formula present before is re-read after each", len(inputs), len(comps)),
		N: len(inputs) * len(comps) * t.pick(1, len(comps)),
		Run: func(c *C, i int) {
			var second = -1
			if t == Thorough {
				second = i % len(comps)
				i /= len(comps)
			}
			e := inputs[i%len(inputs)]
			cp := comps[i/len(inputs)]
			c.Key("%s after %s %d", e, cp.name, second)
			fac := f.NewFactory()
			fm := mk(fac, e)
			snap := snapshot(c, fac, fm)
			check := func(after string) {
				for s, k := range snap {
					got := readBack(c, fac, s).String()
					if got != k {
						c.Failf("after %s the formula %s reads %s", after, k, got)
					}
					if mkAgain := mk(fac, readBack(c, fac, s)); mkAgain != s {
						c.Failf("after %s building %s again gives a different formula", after, k)
					}
				}
			}
			if !cp.accepts(e) {
				c.Outcome("not-applicable")
				return
			}
			cp.run(c, fac, fm, nil)
			c.Step()
			check(cp.name)
			if second >= 0 && comps[second].accepts(e) {
				comps[second].run(c, fac, fm, nil)
				c.Step()
				check(comps[second].name)
			}
			c.Outcome("checked")
			c.StateS(e.String() + cp.name)
		}}
}

func snapshot(c *C, fac f.Factory, fm f.Formula) map[f.Formula]string {
	res := map[f.Formula]string{}
	var rec func(x f.Formula)
	rec = func(x f.Formula) {
		res[x] = readBack(c, fac, x).String()
		for _, o := range fac.Operands(x) {
			rec(o)
		}
	}
	rec(fm)
	return res
}

// p01Many: many literals and clauses, so that hash buckets collide
func p01Many(t Tier) Domain {
	n := t.pick(70, 140)
	return Domain{
		Name: "many-formulas", Bound: fmt.Sprintf("all two- and three-operand formulas over %d literals in one factory, pairwise distinct", n),
		N: n,
		Run: func(c *C, i int) {
			fac := f.NewFactory()
			var fms []f.Formula
			lits := make([]f.Formula, 2*n)
			for v := range lits {
				lits[v] = fac.Literal(vname(v>>1), v&1 == 0)
			}
			type ent struct {
				op      f.FSort
				a, b, d int
			}
			seen := map[f.Formula]ent{}
			put := func(fm f.Formula, e ent) {
				c.Step()
				if o, ok := seen[fm]; ok && o != e {
					c.Failf("one formula for %v and %v", o, e)
				}
				seen[fm] = e
				fms = append(fms, fm)
			}
			a := 2 * i
			for b := 0; b < 2*n; b++ {
				if b>>1 == a>>1 {
					continue
				}
				put(fac.And(lits[a], lits[b]), ent{f.SortAnd, a, b, -1})
				put(fac.Or(lits[a], lits[b]), ent{f.SortOr, a, b, -1})
				put(fac.Implication(lits[a], lits[b]), ent{f.SortImpl, a, b, -1})
				put(fac.Equivalence(lits[a], lits[b]), ent{f.SortEquiv, a, b, -1})
				for d := 0; d < 2*n; d += 3 {
					if d>>1 == a>>1 || d>>1 == b>>1 {
						continue
					}
					put(fac.Or(lits[a], lits[b], lits[d]), ent{f.SortOr, a, b, d})
					put(fac.And(lits[a], lits[b], lits[d]), ent{f.SortAnd, a, b, d})
				}
			}
			for fm, e := range seen {
				ops := fac.Operands(fm)
				ok := fm.Sort() == e.op && ops[0] == lits[e.a] && ops[1] == lits[e.b] && (e.d < 0 && len(ops) == 2 || e.d >= 0 && len(ops) == 3 && ops[2] == lits[e.d])
				if !ok {
					c.Failf("%v reads back as %s", e, fm.Sprint(fac))
				}
				c.State(uint64(fm))
			}
			for v := range lits {
				name, ph, ok := fac.LiteralNamePhase(lits[v])
				if !ok || name != vname(v>>1) || ph != (v&1 == 0) {
					c.Failf("literal %s reads back as %s %v", vname(v>>1), name, ph)
				}
				l, _ := lits[v].AsLiteral()
				if l.Variable() != fac.Var(name) || l.IsPos() != ph || l.Negate(fac) != fac.Lit(name, !ph) {
					c.Failf("literal %s: variable/phase/negation wrong", strings.ToUpper(name))
				}
			}
		}}
}

// p01ManyConstraints: many constraints in one factory, so that hash buckets collide
func p01ManyConstraints(t Tier) Domain {
	w := t.pick(36, 48)
	cmps := []f.CSort{f.EQ, f.LE, f.LT, f.GE, f.GT}
	kinds := 4
	return Domain{
		Name: "many-constraints", Bound: fmt.Sprintf("in one factory each: all two-operand PBCs over fixed literals with coefficients -%d..%d; all comparators x right-hand sides -%d..%d over three operands; all two-operand PBCs and two- and three-operand CCs over %d variables; pairwise distinct, read back, built twice", w, w, w, w, w+40),
		N: kinds * 5 * 3,
		Run: func(c *C, i int) {
			ix := mixed(i, kinds, 5, 3)
			cmp, rhs := cmps[ix[1]], ix[2]
			fac := f.NewFactory()
			seen := map[f.Formula]string{}
			key := func(cmp f.CSort, rhs int, lits []f.Literal, co []int) string { return fmt.Sprint(cmp, rhs, lits, co) }
			build := func(cmp f.CSort, rhs int, lits []f.Literal, co []int) f.Formula {
				return fac.PBC(cmp, rhs, append([]f.Literal{}, lits...), append([]int{}, co...))
			}
			type con struct {
				cmp  f.CSort
				rhs  int
				lits []f.Literal
				co   []int
			}
			var all []con
			put := func(cmp f.CSort, rhs int, lits []f.Literal, co []int) {
				k := con{cmp, rhs, append([]f.Literal{}, lits...), append([]int{}, co...)}
				fm := build(cmp, rhs, lits, co)
				c.Step()
				if o, ok := seen[fm]; ok {
					c.Failf("one formula for %s and %s", o, key(cmp, rhs, lits, co))
				}
				seen[fm] = key(cmp, rhs, lits, co)
				all = append(all, k)
			}
			vs := make([]f.Variable, w+40)
			for v := range vs {
				vs[v] = fac.Var(fmt.Sprintf("x%d", v))
			}
			c.Key("%v", ix)
			switch ix[0] {
			case 0: // coefficients
				lits := []f.Literal{vs[0].AsLiteral(), vs[1].Negate(fac)}
				for a := -w; a <= w; a++ {
					for b := -w; b <= w; b++ {
						put(cmp, rhs, lits, []int{a, b})
					}
				}
			case 1: // comparators and right-hand sides
				for _, cp := range cmps {
					for r := -w; r <= w; r++ {
						for k := 0; k < 27; k++ {
							d := digits(k, 3, 3)
							put(cp, r, []f.Literal{vs[d[0]].AsLiteral(), vs[3+ix[1]].Negate(fac), vs[8].AsLiteral()}, []int{d[1] - 1, 2, d[2] - 1 - ix[2]})
						}
					}
				}
			case 2: // literals
				for a := range vs {
					for b := range vs {
						put(cmp, rhs, []f.Literal{vs[a].AsLiteral(), vs[b].Negate(fac)}, []int{2, 1})
						if a%3 == 0 {
							put(cmp, rhs, []f.Literal{vs[0].Negate(fac), vs[a].Negate(fac), vs[b].AsLiteral()}, []int{1, 2, 1})
						}
					}
				}
			case 3: // cardinality constraints
				for a := range vs {
					for b := range vs {
						put(cmp, rhs+1, []f.Literal{vs[a].AsLiteral(), vs[b].AsLiteral()}, []int{1, 1})
						if a%3 == 0 {
							put(cmp, rhs+1, []f.Literal{vs[1].AsLiteral(), vs[a].AsLiteral(), vs[b].AsLiteral()}, []int{1, 1, 1})
						}
					}
				}
			}
			back := map[string]f.Formula{}
			for fm, k := range seen {
				cp, r, l, co, ok := fac.PBCOps(fm)
				c.Assert(ok && key(cp, r, l, co) == k, "%s reads back as %s", k, key(cp, r, l, co))
				back[k] = fm
			}
			for _, k := range all {
				c.Assert(build(k.cmp, k.rhs, k.lits, k.co) == back[key(k.cmp, k.rhs, k.lits, k.co)], "building %v twice gives different formulas", k)
			}
			c.StateS(fmt.Sprint(ix))
			c.Outcome("many constraints")
		}}
}
