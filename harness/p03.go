package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/booleworks/logicng-go/assignment"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model"
)

// three-valued evaluation: 0 false, 1 true, 2 unknown; known is the set of assigned variables
func kleene(e *E, pos, known uint64) int {
	b := func(v bool) int {
		if v {
			return 1
		}
		return 0
	}
	switch e.Op {
	case OFalse:
		return 0
	case OTrue:
		return 1
	case OLit:
		v := uint(e.Lit >> 1)
		if known>>v&1 == 0 {
			return 2
		}
		return b(pos>>v&1 != uint64(e.Lit&1))
	case ONot:
		k := kleene(e.Sub[0], pos, known)
		if k == 2 {
			return 2
		}
		return 1 - k
	case OAnd, OOr:
		dom := 0
		if e.Op == OOr {
			dom = 1
		}
		res := 1 - dom
		for _, s := range e.Sub {
			k := kleene(s, pos, known)
			if k == dom {
				return dom
			}
			if k == 2 {
				res = 2
			}
		}
		return res
	case OImpl:
		return kleene(eOr(eNot(e.Sub[0]), e.Sub[1]), pos, known)
	case OEquiv:
		l, r := kleene(e.Sub[0], pos, known), kleene(e.Sub[1], pos, known)
		if l == 2 || r == 2 {
			return 2
		}
		return b(l == r)
	}
	// constraints: decided when the interval of possible sums decides the comparison
	lo, hi := 0, 0
	for i, l := range e.Lits {
		co := 1
		if e.Op == OPBC {
			co = e.Coef[i]
		}
		v := uint(l >> 1)
		if known>>v&1 == 0 {
			if co < 0 {
				lo += co
			} else {
				hi += co
			}
		} else if pos>>v&1 != uint64(l&1) {
			lo += co
			hi += co
		}
	}
	res := cmpEval(e.Cmp, lo, e.Rhs)
	if e.Cmp == f.EQ {
		if lo == hi {
			return b(res)
		}
		return 2 // an equation is only decided when nothing is left open
	}
	if res == cmpEval(e.Cmp, hi, e.Rhs) {
		return b(res)
	}
	return 2
}

func cofAll(t TT, pos, known uint64) TT {
	for v := 0; v < t.n; v++ {
		if known>>uint(v)&1 == 1 {
			t = t.cof(v, pos>>uint(v)&1 == 1)
		}
	}
	return t
}

func partial(i, n int) (pos, known uint64) {
	for v := 0; v < n; v++ {
		switch i % 3 {
		case 1:
			known |= 1 << uint(v)
		case 2:
			known |= 1 << uint(v)
			pos |= 1 << uint(v)
		}
		i /= 3
	}
	return
}

// checkPartial: evaluate, restrict and constant tests under one partial assignment
func checkPartial(c *C, fac f.Factory, fm f.Formula, e *E, t TT, n int, pos, known uint64) {
	ass := assignment.Empty()
	m := map[f.Variable]bool{}
	desc := ""
	for v := 0; v < n; v++ {
		if known>>uint(v)&1 == 1 {
			ph := pos>>uint(v)&1 == 1
			if err := ass.AddLit(fac, fac.Lit(vname(v), ph)); err != nil {
				c.Failf("consistent literal rejected: %v", err)
			}
			m[fac.Var(vname(v))] = ph
			desc += fmt.Sprintf(" %s=%v", vname(v), ph)
		}
	}
	got := assignment.Evaluate(fac, fm, ass)
	c.Step()
	c.Assert(got == t.get(pos), "Evaluate(%s) under%s is %v", fm.Sprint(fac), desc, got)
	want := cofAll(t, pos, known)
	r := assignment.Restrict(fac, fm, ass)
	c.Step()
	rt := ttOf(c, fac, r, n)
	c.State(rt.hash())
	c.Assert(rt.eq(want), "Restrict(%s) under%s is %s", fm.Sprint(fac), desc, r.Sprint(fac))
	k := kleene(readBack(c, fac, fm), pos, known)
	isT, isF := assignment.EvaluatesToTrue(fac, fm, m), assignment.EvaluatesToFalse(fac, fm, m)
	c.Step()
	c.Step()
	c.Outcome(fmt.Sprintf("kleene%d", k))
	c.Assert(!isT || want.isTrue(), "EvaluatesToTrue(%s) under%s is wrong", fm.Sprint(fac), desc)
	c.Assert(!isF || want.isFalse(), "EvaluatesToFalse(%s) under%s is wrong", fm.Sprint(fac), desc)
	c.Assert(k != 1 || isT, "EvaluatesToTrue(%s) under%s misses the constant", fm.Sprint(fac), desc)
	c.Assert(k != 0 || isF, "EvaluatesToFalse(%s) under%s misses the constant", fm.Sprint(fac), desc)
	c.Assert(len(m) == ass.Size(), "size of the assignment")
	// restricting again changes nothing, and the formula is still the same function
	c.Assert(ttOf(c, fac, assignment.Restrict(fac, r, ass), n).eq(want), "restricting twice")
}

func init() {
	register(&Prop{
		ID: "P03",
		Rule: "A model state is a distinct cofactor (truth table) or literal set; a transition is one call of evaluation, restriction, constant test or an assignment operation; " +
			"the reference is the truth table (cofactor) and a three-valued evaluation.",
		Assume: []string{"The constant tests are required to be sound in general and complete relative to three-valued evaluation (interval evaluation for constraints)."},
		Domains: func(t Tier) []Domain {
			n := 3
			all := pow(3, n)
			lits := litAtoms(n, true)
			cons := constraintAtoms(n)
			form := func(name, bound string, s Space) Domain {
				return Domain{name, bound, s.N, func(c *C, i int) {
					e := s.At(i)
					c.Key("%s", e)
					fac := f.NewFactory()
					fm := mk(fac, e)
					tt := ttOfE(e, n)
					for k := 0; k < all; k++ {
						pos, known := partial(k, n)
						checkPartial(c, fac, fm, e, tt, n, pos, known)
					}
				}}
			}
			l1 := level(litAtoms(n, false))
			doms := []Domain{
				form("level1", "all formulas of one operator over 3 variables, constants and constraints, under all 27 partial assignments", level(union(lits, cons))),
				form("level2", "formulas of two operator levels over 3 variables under all partial assignments", level(stride(l1, t.pick(3, 1)))),
				form("functions-dnf", "all 256 functions of 3 variables as DNF", functions(3, 0)),
				form("functions-cnf", "all 256 functions of 3 variables as CNF", functions(3, 1)),
				form("functions-shannon", "all 256 functions of 3 variables as implications/equivalences", functions(3, 2)),
				form("ternary", "all ternary And/Or over literals and constraints", nary(union(litAtoms(n, false), stride(cons, t.pick(3, 1))), 3)),
			}
			// all pseudo-Boolean constraints with small coefficients
			coefs := []int{-2, -1, 0, 1, 2, 3}
			nc := len(coefs)
			cnt := pow(nc, 3) * 8 * 5 * 11
			doms = append(doms, Domain{"constraints", "all constraints over 3 literals with coefficients in {-2..3}, right-hand sides -5..5, all comparators and phases (quick: every 3rd)", cnt / t.pick(3, 1), func(c *C, i int) {
				i *= t.pick(3, 1)
				m := mixed(i, pow(nc, 3), 8, 5, 11)
				d := digits(m[0], nc, 3)
				e := ePBC(f.CSort(m[2]), m[3]-5, []int{coefs[d[0]], coefs[d[1]], coefs[d[2]]}, []int{m[1] & 1, 2 + m[1]>>1&1, 4 + m[1]>>2&1})
				c.Key("%s", e)
				fac := f.NewFactory()
				fm := mk(fac, e)
				tt := ttOfE(e, n)
				for k := 0; k < all; k++ {
					pos, known := partial(k, n)
					checkPartial(c, fac, fm, e, tt, n, pos, known)
				}
			}})
			// assignment histories
			al := t.pick(6, 7)
			doms = append(doms, Domain{"assignment-histories", fmt.Sprintf("all sequences of up to %d AddLit operations over 3 variables", al), seqCount(6, al), func(c *C, i int) {
				seq := seqAt(i, 6, al)
				fac := f.NewFactory()
				a := assignment.Empty()
				cur := map[int]bool{}
				clash := false
				var given []f.Literal
				for _, l := range seq {
					lit := mkLit(fac, l)
					given = append(given, lit)
					err := a.AddLit(fac, lit)
					c.Step()
					c.Logf("AddLit %s -> %v", eLit(l), err)
					c.Assert((err != nil) == cur[l^1], "adding %s: error %v", eLit(l), err)
					if err == nil {
						cur[l] = true
					} else {
						clash = true
					}
				}
				c.Key("%v", seq)
				checkAssignment(c, fac, a, cur)
				b, err := assignment.New(fac, given...)
				c.Step()
				c.Assert((err != nil) == clash, "New(%v): error %v", seq, err)
				m := model.New()
				for _, l := range given {
					m.AddLiteral(l)
				}
				ma, merr := m.Assignment(fac)
				c.Assert((merr != nil) == clash, "model with %v: error %v", seq, merr)
				if !clash {
					checkAssignment(c, fac, b, cur)
					checkAssignment(c, fac, ma, cur)
					m2 := model.FromAssignment(fac, *a)
					var want []string
					for l := range cur {
						want = append(want, eLit(l).String())
					}
					sort.Strings(want)
					c.Assert(litsString(fac, m2.Literals) == strings.Join(want, ","), "FromAssignment gives %s for %v", m2.Sprint(fac), want)
					c.Outcome("consistent")
				} else {
					c.Outcome("contradictory")
				}
				checkModel(c, fac, m, seq)
			}})
			return doms
		},
	})
}

func checkAssignment(c *C, fac f.Factory, a *assignment.Assignment, cur map[int]bool) {
	var pos, neg, all []string
	var h uint64 = 7
	for v := 0; v < 3; v++ {
		if cur[2*v] {
			pos = append(pos, vname(v))
			all = append(all, vname(v))
			h |= 1 << (uint(v)*2 + 4)
		}
		if cur[2*v+1] {
			neg = append(neg, vname(v))
			all = append(all, "~"+vname(v))
			h |= 1 << (uint(v)*2 + 5)
		}
		lit := mkVar(fac, v).AsFormula()
		c.Assert(assignment.Evaluate(fac, lit, a) == cur[2*v], "value of %s", vname(v))
		c.Assert(assignment.Evaluate(fac, fac.Not(lit), a) == !cur[2*v], "value of ~%s", vname(v))
	}
	c.State(h)
	names := func(vs []f.Variable) []string {
		var r []string
		for _, v := range vs {
			n, ok := fac.VarName(v)
			c.Assert(ok, "the assignment reports a variable unknown to the factory")
			r = append(r, n)
		}
		sort.Strings(r)
		return r
	}
	c.Assert(fmt.Sprint(names(a.PosVars())) == fmt.Sprint(pos), "positive variables %v, want %v", names(a.PosVars()), pos)
	c.Assert(fmt.Sprint(names(a.NegVars())) == fmt.Sprint(neg), "negative variables %v, want %v", names(a.NegVars()), neg)
	c.Assert(a.Size() == len(all), "size %d, want %d", a.Size(), len(all))
	c.Assert(a.Sprint(fac) == "["+strings.Join(all, ", ")+"]", "printed as %s, want %v", a.Sprint(fac), all)
}

func checkModel(c *C, fac f.Factory, m *model.Model, seq []int) {
	var pos, negl, negv, all []string
	es := []*E{}
	for _, l := range seq {
		all = append(all, eLit(l).String())
		es = append(es, eLit(l))
		if l&1 == 0 {
			pos = append(pos, vname(l>>1))
		} else {
			negl = append(negl, eLit(l).String())
			negv = append(negv, vname(l>>1))
		}
	}
	var gp, gnl, gnv []string
	for _, v := range m.PosVars() {
		gp = append(gp, v.Sprint(fac))
	}
	for _, l := range m.NegLits() {
		gnl = append(gnl, l.Sprint(fac))
	}
	for _, v := range m.NegVars() {
		gnv = append(gnv, v.Sprint(fac))
	}
	c.Step()
	c.Assert(fmt.Sprint(gp) == fmt.Sprint(pos), "PosVars %v of %v", gp, all)
	c.Assert(fmt.Sprint(gnl) == fmt.Sprint(negl), "NegLits %v of %v", gnl, all)
	c.Assert(fmt.Sprint(gnv) == fmt.Sprint(negv), "NegVars %v of %v", gnv, all)
	c.Assert(m.Size() == len(all), "size of the model")
	c.Assert(m.Sprint(fac) == "["+strings.Join(all, ", ")+"]", "model printed as %s", m.Sprint(fac))
	clash := false
	for i, l := range seq {
		for _, k := range seq[:i] {
			if l^1 == k || l == k {
				clash = true // repeated literals are not a proper model
			}
		}
	}
	if !clash {
		c.Assert(ttOf(c, fac, m.Formula(fac), 3).eq(ttOfE(eAnd(es...), 3)), "formula of the model")
	}
}
