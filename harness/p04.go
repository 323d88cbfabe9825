package main

import (
	"fmt"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/transformation"
)

// compose: the function t with variable v replaced by subs[v] (functions over n variables)
func compose(t TT, subs map[int]TT) TT {
	r := newTT(t.n)
	for a := uint64(0); a < 1<<uint(t.n); a++ {
		b := a
		for v, s := range subs {
			b &^= 1 << uint(v)
			if s.get(a) {
				b |= 1 << uint(v)
			}
		}
		if t.get(b) {
			r.set(a)
		}
	}
	return r
}

func varsOfPBC(e *E) uint64 {
	var r uint64
	if e.Op == OPBC || e.Op == OCC {
		return e.vars()
	}
	for _, s := range e.Sub {
		r |= varsOfPBC(s)
	}
	return r
}

func init() {
	register(&Prop{
		ID:   "P04",
		Rule: "A model state is a distinct resulting Boolean function; a transition is one substitution/elimination/anonymisation call; the reference is composition and quantification on truth tables.",
		Domains: func(t Tier) []Domain {
			n := 3
			cons := constraintAtoms(n)
			lits := litAtoms(n, true)
			inputs := union(level(union(lits, stride(cons, t.pick(4, 2)))), functions(3, 2), stride(level(level(litAtoms(2, false))), t.pick(17, 5)), cons)
			subst := []*E{eTrue, eFalse, eVar(0), eVar(1), eVar(2), eLit(1), eLit(3), eLit(5), eAnd(eVar(0), eVar(1)), eOr(eLit(3), eVar(2)), eEquiv(eVar(0), eVar(2)), eNot(eImpl(eVar(1), eVar(0)))}
			ns := len(subst) + 1 // +1: not mapped
			doms := []Domain{{"substitute", "formulas of up to two levels, all functions of 3 variables and constraints; every simultaneous substitution of a and b (and c mapped to a) by 12 terms or left alone", inputs.N, func(c *C, i int) {
				e := inputs.At(i)
				c.Key("%s", e)
				fac := f.NewFactory()
				fm := mk(fac, e)
				actual := readBack(c, fac, fm)
				tt := ttOfE(e, n)
				for k := 0; k < ns*ns*2; k++ {
					m := mixed(k, ns, ns, 2)
					if m[2] == 1 && (m[0]+m[1])%3 != 0 {
						continue
					}
					s := transformation.NewSubstitution()
					mapping := map[f.Variable]f.Formula{}
					ref := map[int]TT{}
					bad := false
					add := func(v int, x *E) {
						if v == 0 {
							s.AddVar(mkVar(fac, v), mk(fac, x))
						} else {
							mapping[mkVar(fac, v)] = mk(fac, x)
						}
						ref[v] = ttOfE(x, n)
						if varsOfPBC(actual)>>uint(v)&1 == 1 && mk(fac, x).Sort() > f.SortLiteral {
							bad = true
						}
					}
					for v := 0; v < 2; v++ {
						if m[v] < ns-1 {
							add(v, subst[m[v]])
						}
					}
					if m[2] == 1 {
						add(2, eVar(0))
					}
					s.AddMapping(mapping)
					got, err := transformation.Substitute(fac, fm, s)
					c.Step()
					if bad {
						c.Assert(err != nil, "substituting a compound formula into a constraint of %s must be an error", e)
						c.Outcome("rejected")
						continue
					}
					c.Assert(err == nil, "substitution in %s: %v", e, err)
					want := compose(tt, ref)
					c.State(want.hash())
					c.Outcome("substituted")
					c.Assert(ttOf(c, fac, got, n).eq(want), "substitution %v in %s gives %s", m, e, got.Sprint(fac))
				}
			}}}
			// literal substitution
			doms = append(doms, Domain{"substitute-literals", "the same formulas; every literal mapping of a/~a and b/~b to literals of a,b,c or nothing", inputs.N, func(c *C, i int) {
				e := inputs.At(i)
				c.Key("%s", e)
				fac := f.NewFactory()
				fm := mk(fac, e)
				actual := readBack(c, fac, fm)
				opts := []int{-1, 0, 1, 2, 3, 5}
				no := len(opts)
				for k := 0; k < pow(no, 4); k++ {
					d := digits(k, no, 4)
					if t == Quick && k%5 != 0 && d[1] != 0 && d[3] != 0 {
						continue
					}
					m := map[f.Literal]f.Literal{}
					ref := map[int]int{}
					for j, key := range []int{0, 1, 2, 3} {
						if o := opts[d[j]]; o >= 0 {
							m[mkLit(fac, key)] = mkLit(fac, o)
							ref[key] = o
						}
					}
					got := transformation.SubstituteLiterals(fac, fm, &m)
					c.Step()
					want := ttOfE(substLits(actual, ref), n)
					c.State(want.hash())
					c.Assert(ttOf(c, fac, got, n).eq(want), "literal substitution %v in %s gives %s", ref, e, got.Sprint(fac))
				}
			}})
			qspace := union(inputs, functions(3, 0), functions(3, 1))
			qs := [][]int{{}, {0}, {1}, {2}, {0, 1}, {1, 0}, {2, 0}, {0, 1, 2}, {2, 1, 0}, {0, 0}, {3}, {3, 1}}
			doms = append(doms, Domain{"quantifiers", "all functions and formulas of up to two levels; every list of up to 3 variables (repetitions and foreign variables included)", qspace.N, func(c *C, i int) {
				e := qspace.At(i)
				c.Key("%s", e)
				fac := f.NewFactory()
				fm := mk(fac, e)
				tt := ttOfE(e, 4)
				for _, q := range qs {
					var vs []f.Variable
					ex, fa := tt, tt
					for _, v := range q {
						vs = append(vs, mkVar(fac, v))
						ex, fa = ex.exists(v), fa.forall(v)
					}
					re := transformation.ExistentialQE(fac, fm, vs...)
					ru := transformation.UniversalQE(fac, fm, vs...)
					c.Step()
					c.Step()
					c.State(ex.hash())
					c.State(fa.hash())
					c.Assert(ttOf(c, fac, re, 4).eq(ex), "ExistentialQE %v of %s gives %s", q, e, re.Sprint(fac))
					c.Assert(ttOf(c, fac, ru, 4).eq(fa), "UniversalQE %v of %s gives %s", q, e, ru.Sprint(fac))
					for _, l := range vs {
						c.Assert(!f.Variables(fac, re).Contains(l) && !f.Variables(fac, ru).Contains(l), "eliminated variable remains")
					}
				}
			}})
			// anonymizer histories: sequences of formulas
			anon := []*E{eVar(0), eAnd(eVar(1), eLit(1)), eImpl(eVar(2), eVar(0)), eEquiv(eVar(1), eVar(2)), eCC(f.LE, 1, 0, 1, 2), ePBC(f.GE, 2, []int{2, -1, 3}, []int{0, 3, 4}), eTrue,
				eNot(eOr(eVar(2), eAnd(eVar(1), eVar(0))))}
			al := t.pick(4, 5)
			doms = append(doms, Domain{"anonymizer-histories", fmt.Sprintf("all sequences of up to %d anonymisations over 8 formulas with one anonymizer (default and own prefix; names that clash with anonymised ones, all or some)", al), seqCount(len(anon), al) * 5, func(c *C, i int) {
				mode := i % 5
				seq := seqAt(i/5, len(anon), al)
				fac := f.NewFactory()
				prefix := "v"
				var an *transformation.Anonymizer
				if mode == 1 {
					prefix = "anon_"
					an = transformation.NewAnonymizer(fac, prefix)
				} else {
					an = transformation.NewAnonymizer(fac)
				}
				orig := func(v int) string {
					if mode == 2 {
						return fmt.Sprintf("v%d", 2-v) // originals use the target names
					}
					if mode > 2 && v == mode-3 {
						return "v0"
					}
					if mode > 2 && v == 2 {
						return "v01"
					}
					return vname(v)
				}
				ren := map[string]string{} // original -> anonymised
				c.Key("mode%d %v", mode, seq)
				for _, x := range seq {
					e := anon[x]
					fm := mkNamed(fac, e, orig)
					got := an.Anonymize(fm)
					c.Step()
					c.Logf("%s -> %s", fm.Sprint(fac), got.Sprint(fac))
					learn(c, fac, fm, got, ren)
					for _, v := range f.Variables(fac, got).Content() {
						nm, _ := fac.VarName(v)
						c.Assert(strings.HasPrefix(nm, prefix), "variable %s is not anonymised", nm)
					}
					c.StateS(fmt.Sprint(mode, got.Sprint(fac)))
				}
				inv := map[string]string{}
				for o, a := range ren {
					if inv[a] != "" {
						c.Failf("%s and %s are both anonymised to %s", o, inv[a], a)
					}
					inv[a] = o
				}
				if len(seq) > 0 && mode < 2 {
					fm := mkNamed(fac, anon[seq[0]], orig)
					learn(c, fac, fm, transformation.Anonymize(fac, fm), map[string]string{})
				}
			}})
			// expansion
			var exp []*E
			var isAmo func(e *E) bool
			isAmo = func(e *E) bool {
				if e.Op == OPBC {
					return false
				}
				if e.Op == OCC {
					return (e.Cmp == f.LE || e.Cmp == f.EQ) && e.Rhs == 1 || e.Cmp == f.LT && e.Rhs == 2
				}
				for _, s := range e.Sub {
					if !isAmo(s) {
						return false
					}
				}
				return true
			}
			for k := 1; k <= 5; k++ {
				vs := []int{0, 1, 2, 3, 4}[:k]
				for cmp := f.EQ; cmp <= f.GT; cmp++ {
					for r := 0; r <= 3; r++ {
						exp = append(exp, eCC(cmp, r, vs...))
					}
				}
			}
			exp = append(exp, ePBC(f.LE, 1, []int{2, 1}, []int{0, 2}), eVar(0), eTrue, eFalse, eLit(9), eAnd(eVar(0), eLit(3)))
			es := atoms(exp...)
			esp := union(es, level(stride(es, t.pick(5, 2))))
			doms = append(doms, Domain{"expand-amo-exo", "all cardinality constraints over up to 5 variables and small bounds, and operators over them", esp.N, func(c *C, i int) {
				e := esp.At(i)
				c.Key("%s", e)
				fac := f.NewFactory()
				fm := mk(fac, e)
				got, err := transformation.ExpandAMOAndEXO(fac, fm)
				c.Step()
				actual := readBack(c, fac, fm)
				if err != nil {
					c.Assert(!isAmo(actual), "%s cannot be expanded: %v", e, err)
					c.Outcome("rejected")
					return
				}
				c.Assert(isAmo(actual), "expansion of %s is not an error", fm.Sprint(fac))
				tt := ttOfE(e, 5)
				c.State(tt.hash())
				c.Outcome("expanded")
				c.Assert(ttOf(c, fac, got, 5).eq(tt), "expansion of %s gives %s", e, got.Sprint(fac))
				c.Assert(!readBack(c, fac, got).hasConstraint(), "a constraint remains in %s", got.Sprint(fac))
			}})
			return doms
		},
	})
}

// substLits: reference literal substitution
func substLits(e *E, m map[int]int) *E {
	lit := func(l int) int {
		if o, ok := m[l]; ok {
			return o
		}
		if l&1 == 1 {
			if o, ok := m[l^1]; ok {
				return o ^ 1
			}
		}
		return l
	}
	r := *e
	if e.Op == OLit {
		r.Lit = lit(e.Lit)
	}
	if e.Lits != nil {
		r.Lits = nil
		for _, l := range e.Lits {
			r.Lits = append(r.Lits, lit(l))
		}
	}
	r.Sub = nil
	for _, s := range e.Sub {
		r.Sub = append(r.Sub, substLits(s, m))
	}
	return &r
}

func mkNamed(fac f.Factory, e *E, name func(int) string) f.Formula {
	s := func(i int) f.Formula { return mkNamed(fac, e.Sub[i], name) }
	switch e.Op {
	case OTrue:
		return fac.Verum()
	case OFalse:
		return fac.Falsum()
	case OLit:
		return fac.Literal(name(e.Lit>>1), e.Lit&1 == 0)
	case ONot:
		return fac.Not(s(0))
	case OAnd:
		return fac.And(s(0), s(1))
	case OOr:
		return fac.Or(s(0), s(1))
	case OImpl:
		return fac.Implication(s(0), s(1))
	case OEquiv:
		return fac.Equivalence(s(0), s(1))
	}
	var ls []f.Literal
	co := append([]int{}, e.Coef...)
	for i, l := range e.Lits {
		ls = append(ls, fac.Lit(name(l>>1), l&1 == 0))
		if e.Op == OCC {
			_ = i
			co = append(co, 1)
		}
	}
	return fac.PBC(e.Cmp, e.Rhs, ls, co)
}

// learn walks two formulas of equal shape and records the renaming of variables.
func learn(c *C, fac f.Factory, a, b f.Formula, ren map[string]string) {
	c.Assert(a.Sort() == b.Sort(), "anonymisation changes the structure: %s to %s", a.Sprint(fac), b.Sprint(fac))
	lit := func(x, y f.Literal) {
		n1, p1, _ := fac.LitNamePhase(x)
		n2, p2, _ := fac.LitNamePhase(y)
		c.Assert(p1 == p2, "anonymisation changes a phase")
		if old, ok := ren[n1]; ok {
			c.Assert(old == n2, "%s is anonymised to %s and to %s", n1, old, n2)
		}
		ren[n1] = n2
	}
	switch a.Sort() {
	case f.SortLiteral:
		lit(f.Literal(a), f.Literal(b))
	case f.SortCC, f.SortPBC:
		c1, r1, l1, k1, _ := fac.PBCOps(a)
		c2, r2, l2, k2, _ := fac.PBCOps(b)
		c.Assert(c1 == c2 && r1 == r2 && fmt.Sprint(k1) == fmt.Sprint(k2) && len(l1) == len(l2), "anonymisation changes a constraint")
		for i := range l1 {
			lit(l1[i], l2[i])
		}
	default:
		o1, o2 := fac.Operands(a), fac.Operands(b)
		c.Assert(len(o1) == len(o2), "anonymisation changes the structure")
		for i := range o1 {
			learn(c, fac, o1[i], o2[i], ren)
		}
	}
}
