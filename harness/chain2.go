package main

import (
	"fmt"
	"strings"

	"github.com/booleworks/logicng-go/assignment"
	"github.com/booleworks/logicng-go/explanation"
	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/parser"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/transformation"
)

// Iterated terms: a step that wraps the previous term is applied n times, with all pairs of step kinds and literal phases
// alternating.  They are deep (nested operators of every kind) or wide (flattened conjunctions and disjunctions).

const stepKinds = 10

func stepTerm(kind int, prev *E, l, l2, l3 int) *E {
	switch kind {
	case 0:
		return eAnd(prev, eLit(l))
	case 1:
		return eOr(eLit(l), prev)
	case 2:
		return eImpl(prev, eLit(l))
	case 3:
		return eImpl(eLit(l), prev)
	case 4:
		return eEquiv(prev, eLit(l))
	case 5:
		return eNot(eAnd(prev, eLit(l)))
	case 6:
		return eOr(eNot(prev), eAnd(eLit(l), eLit(l2)))
	case 7:
		return eAnd(eCC(f.LE, 1, l>>1, l2>>1, l3>>1), prev)
	case 8:
		return eOr(prev, ePBC(f.GE, 2, []int{2, 1, 1}, []int{l, l2, l3}))
	default:
		return eAnd(eEquiv(eLit(l2), prev), eOr(eLit(l), eLit(l3)))
	}
}

type iterated struct {
	n, vars int
	e       *E
	key     string
	cons    bool // contains constraints
}

var iterLens = []int{5, 30, 100}
var iterVars = []int{130, 17, 4} // fresh variables (as many as there are), reused ones

func iteratedN() int { return stepKinds * stepKinds * 4 * len(iterLens) * len(iterVars) }

func iteratedAt(i int) iterated {
	m := mixed(i, stepKinds, stepKinds, 4, len(iterLens), len(iterVars))
	n, vs := iterLens[m[3]], iterVars[m[4]]
	vs = min(vs, n+3)
	e := eLit(2*(vs-1) + m[2]&1)
	for k := 0; k < n; k++ {
		ph := m[2] >> uint(k&1) & 1
		v := func(d int) int { return (k + d) % vs }
		e = stepTerm([]int{m[0], m[1]}[k&1], e, 2*v(0)+ph, 2*v(1)+1-ph, 2*v(2))
	}
	return iterated{n, vs, e, fmt.Sprintf("steps %d,%d phases %d, %d times, %d variables", m[0], m[1], m[2], n, vs), m[0] == 7 || m[0] == 8 || m[1] == 7 || m[1] == 8}
}

func iteratedDomain(t Tier, stride int, what string, run func(c *C, x iterated, i int)) Domain {
	bound := fmt.Sprintf("all terms built by applying two of %d kinds of steps (every operator, constraints) alternately, 5, 30 or 100 times, fresh or repeating variables, all phases: %s", stepKinds, what)
	return strided(Domain{"iterated-terms", bound, iteratedN(), func(c *C, i int) {
		x := iteratedAt(i)
		c.Key("%s", x.key)
		c.State(uint64(i))
		run(c, x, i)
		c.Outcome(fmt.Sprintf("%d steps", x.n))
	}}, stride)
}

// points: a structured set of assignments: periodic ones, and each with single variables inverted
func (x iterated) points() [][]bool {
	var r [][]bool
	for _, p := range []string{"0", "1", "01", "10", "001", "010", "100", "110", "101", "011", "0011", "1100"} {
		a := make([]bool, x.vars)
		for v := range a {
			a[v] = p[v%len(p)] == '1'
		}
		r = append(r, a)
		for _, d := range []int{0, 1, 2, x.vars / 2, x.vars - 2, x.vars - 1, 15, 16, 31, 32, 63, 64} {
			if d >= 0 && d < x.vars {
				b := append([]bool{}, a...)
				b[d] = !b[d]
				r = append(r, b)
			}
		}
	}
	return r
}

// evalAt evaluates a term on a long assignment.
func evalAt(e *E, a []bool) bool {
	lv := func(l int) bool { return a[l>>1] == (l&1 == 0) }
	switch e.Op {
	case OTrue:
		return true
	case OFalse:
		return false
	case OLit:
		return lv(e.Lit)
	case ONot:
		return !evalAt(e.Sub[0], a)
	case OImpl:
		return !evalAt(e.Sub[0], a) || evalAt(e.Sub[1], a)
	case OEquiv:
		return evalAt(e.Sub[0], a) == evalAt(e.Sub[1], a)
	case OAnd, OOr:
		for _, s := range e.Sub {
			if evalAt(s, a) == (e.Op == OOr) {
				return e.Op == OOr
			}
		}
		return e.Op == OAnd
	}
	sum := 0
	for i, l := range e.Lits {
		if lv(l) {
			if e.Coef == nil {
				sum++
			} else {
				sum += e.Coef[i]
			}
		}
	}
	return cmpEval(e.Cmp, sum, e.Rhs)
}

// dag is a formula read through the accessors, shared parts once
type dag struct {
	op  []*E // Sub is empty, the operands are in sub
	sub [][]int
}

func dagOf(c *C, fac f.Factory, fm f.Formula, n int, what string) (*dag, int) {
	d := &dag{}
	idx := map[f.Formula]int{}
	r := newReader(fac, n)
	var rec func(fm f.Formula) int
	rec = func(fm f.Formula) int {
		if i, ok := idx[fm]; ok {
			return i
		}
		var e *E
		var sub []int
		switch fm.Sort() {
		case f.SortNot:
			o, _ := fac.NotOperand(fm)
			e, sub = &E{Op: ONot}, []int{rec(o)}
		case f.SortImpl, f.SortEquiv:
			a, b, _ := fac.BinaryLeftRight(fm)
			e, sub = &E{Op: map[bool]Op{true: OImpl, false: OEquiv}[fm.Sort() == f.SortImpl]}, []int{rec(a), rec(b)}
		case f.SortAnd, f.SortOr:
			ops, _ := fac.NaryOperands(fm)
			e = &E{Op: map[bool]Op{true: OAnd, false: OOr}[fm.Sort() == f.SortAnd]}
			for _, o := range ops {
				sub = append(sub, rec(o))
			}
		default:
			e = r.term(fm)
		}
		d.op, d.sub = append(d.op, e), append(d.sub, sub)
		idx[fm] = len(d.op) - 1
		return len(d.op) - 1
	}
	root := rec(fm)
	c.Assert(r.n <= n, "%s: the result contains other variables than the input", what)
	return d, root
}

func (d *dag) eval(root int, a []bool) bool {
	v := make([]bool, len(d.op))
	for i, e := range d.op {
		s := d.sub[i]
		switch e.Op {
		case ONot:
			v[i] = !v[s[0]]
		case OImpl:
			v[i] = !v[s[0]] || v[s[1]]
		case OEquiv:
			v[i] = v[s[0]] == v[s[1]]
		case OAnd:
			v[i] = true
			for _, o := range s {
				v[i] = v[i] && v[o]
			}
		case OOr:
			for _, o := range s {
				v[i] = v[i] || v[o]
			}
		default:
			v[i] = evalAt(e, a)
		}
	}
	return v[root]
}

func (d *dag) only(ops ...Op) bool {
	for _, e := range d.op {
		ok := false
		for _, o := range ops {
			ok = ok || e.Op == o
		}
		if !ok {
			return false
		}
	}
	return true
}

// sameAt compares a formula with a function at all points.
func sameAt(c *C, fac f.Factory, fm f.Formula, n int, points [][]bool, what string, want func(a []bool) bool) *dag {
	c.Step()
	d, root := dagOf(c, fac, fm, n, what)
	for _, a := range points {
		w := want(a)
		c.Assert(d.eval(root, a) == w, "%s: the value at %s must be %v", what, boolsString(a), w)
	}
	return d
}

func boolsString(a []bool) string {
	var b strings.Builder
	for _, x := range a {
		b.WriteByte("01"[map[bool]int{false: 0, true: 1}[x]])
	}
	return b.String()
}

func with(a []bool, v int, val bool) []bool {
	b := append([]bool{}, a...)
	b[v] = val
	return b
}

func assignmentOf(c *C, fac f.Factory, a []bool, from, to int) *assignment.Assignment {
	r := assignment.Empty()
	for v := from; v < to; v++ {
		c.Assert(r.AddLit(fac, fac.Lit(vname(v), a[v])) == nil, "AddLit")
	}
	return r
}

func init() {
	extra["P01"] = func(t Tier) []Domain {
		return []Domain{iteratedDomain(t, 1, "the built formula has the requested value at a structured set of assignments, building it again gives the same formula", func(c *C, x iterated, i int) {
			fac := f.NewFactory(i%2 == 0)
			fm := mk(fac, x.e)
			s := fm.Sprint(fac)
			sameAt(c, fac, fm, x.vars, x.points(), x.key, func(a []bool) bool { return evalAt(x.e, a) })
			neg := fm.Negate(fac)
			sameAt(c, fac, neg, x.vars, x.points(), "negation: "+x.key, func(a []bool) bool { return !evalAt(x.e, a) })
			c.Assert(mk(fac, x.e) == fm && neg.Negate(fac) == fm, "%s: built again or negated twice it is another formula", x.key)
			c.Assert(fm.Sprint(fac) == s, "%s: the formula changed", x.key)
		})}
	}
	extra["P02"] = func(t Tier) []Domain {
		return []Domain{iteratedDomain(t, 1, "printed and parsed in the same and in a new factory", func(c *C, x iterated, i int) {
			fac := f.NewFactory()
			fm := mk(fac, x.e)
			s := fm.Sprint(fac)
			got, err := parser.New(fac).Parse(s)
			c.Step()
			c.Assert(err == nil && got == fm, "%s: %s is parsed as another formula (%v)", x.key, s, err)
			fac2 := f.NewFactory(true)
			got2, err := parser.New(fac2).Parse(s)
			c.Step()
			c.Assert(err == nil && got2.Sprint(fac2) == s, "%s: %s is read in another factory as another formula (%v)", x.key, s, err)
		})}
	}
	extra["P03"] = append2(extra["P03"], func(t Tier) []Domain {
		return []Domain{iteratedDomain(t, 1, "evaluated and restricted with a structured set of total and partial assignments", func(c *C, x iterated, i int) {
			fac := f.NewFactory()
			fm := mk(fac, x.e)
			pts := x.points()
			for k, a := range pts {
				as := assignmentOf(c, fac, a, 0, x.vars)
				want := evalAt(x.e, a)
				c.Assert(assignment.Evaluate(fac, fm, as) == want, "%s: value at %s must be %v", x.key, boolsString(a), want)
				c.Step()
				if k%7 == i%7 {
					c.Assert(assignment.Restrict(fac, fm, as) == fac.Constant(want), "%s: restriction to %s must be %v", x.key, boolsString(a), want)
					m := map[f.Variable]bool{}
					for v := 0; v < x.vars; v++ {
						m[mkVar(fac, v)] = a[v]
					}
					c.Assert(assignment.EvaluatesToTrue(fac, fm, m) == want && assignment.EvaluatesToFalse(fac, fm, m) == !want, "%s: EvaluatesTo at %s must be %v", x.key, boolsString(a), want)
				}
			}
			for k := 0; k < 6; k++ {
				a := pts[(i*3+k*5)%len(pts)]
				from, to := []int{0, x.vars / 2, 0}[k%3], []int{x.vars / 2, x.vars, 1}[k%3]
				r := assignment.Restrict(fac, fm, assignmentOf(c, fac, a, from, to))
				sameAt(c, fac, r, x.vars, pts[:26], "restriction: "+x.key, func(b []bool) bool {
					cb := append([]bool{}, b...)
					copy(cb[from:to], a[from:to])
					return evalAt(x.e, cb)
				})
			}
		})}
	})
	extra["P04"] = func(t Tier) []Domain {
		return []Domain{iteratedDomain(t, 1, "all variables shifted, inverted or replaced by terms; one variable quantified; anonymised", func(c *C, x iterated, i int) {
			fac := f.NewFactory()
			fm := mk(fac, x.e)
			pts := x.points()
			n := x.vars
			lits := map[f.Literal]f.Literal{}
			sub := transformation.NewSubstitution()
			for v := 0; v < n; v++ {
				lits[mkLit(fac, 2*v)] = fac.Lit(vname((v+1)%n), v%2 == 0)
				sub.AddVar(mkVar(fac, v), mk(fac, eOr(eLit(2*((v+1)%n)), eLit(2*((v+2)%n)+1))))
			}
			ls := transformation.SubstituteLiterals(fac, fm, &lits)
			shift := func(a []bool) []bool {
				b := make([]bool, n)
				for v := range b {
					b[v] = a[(v+1)%n] == (v%2 == 0)
				}
				return b
			}
			sameAt(c, fac, ls, n, pts, "literal substitution: "+x.key, func(a []bool) bool { return evalAt(x.e, shift(a)) })
			if !x.cons {
				r, err := transformation.Substitute(fac, fm, sub)
				c.Assert(err == nil, "substitution: %v", err)
				sameAt(c, fac, r, n, pts, "substitution: "+x.key, func(a []bool) bool {
					b := make([]bool, n)
					for v := range b {
						b[v] = a[(v+1)%n] || !a[(v+2)%n]
					}
					return evalAt(x.e, b)
				})
			}
			for _, v := range []int{0, i % n, n - 1} {
				ex, un := transformation.ExistentialQE(fac, fm, mkVar(fac, v)), transformation.UniversalQE(fac, fm, mkVar(fac, v))
				sameAt(c, fac, ex, n, pts[:39], "existential elimination: "+x.key, func(a []bool) bool { return evalAt(x.e, with(a, v, false)) || evalAt(x.e, with(a, v, true)) })
				sameAt(c, fac, un, n, pts[:39], "universal elimination: "+x.key, func(a []bool) bool { return evalAt(x.e, with(a, v, false)) && evalAt(x.e, with(a, v, true)) })
				for _, q := range []f.Formula{ex, un} {
					for _, w := range f.Variables(fac, q).Content() {
						c.Assert(w != mkVar(fac, v), "%s: the eliminated variable occurs in the result", x.key)
					}
				}
			}
			an := transformation.NewAnonymizer(fac, "zz")
			r := an.Anonymize(fm)
			c.Step()
			// back to the original by the recorded names: the anonymised variables are numbered in the order of the variables
			back := transformation.NewSubstitution()
			lb := map[f.Literal]f.Literal{}
			for k, v := range f.Variables(fac, fm).Content() {
				nv := fac.Var(fmt.Sprintf("zz%d", k))
				back.AddVar(nv, v.AsFormula())
				lb[nv.AsLiteral()] = v.AsLiteral()
			}
			for _, v := range f.Variables(fac, r).Content() {
				name, _ := fac.VarName(v)
				c.Assert(strings.HasPrefix(name, "zz"), "%s: %s is left in the anonymised formula", x.key, name)
			}
			b := transformation.SubstituteLiterals(fac, r, &lb)
			sameAt(c, fac, b, n, pts, "anonymised and back: "+x.key, func(a []bool) bool { return evalAt(x.e, a) })
			c.Assert(f.Variables(fac, r).Size() == f.Variables(fac, fm).Size(), "%s: the anonymised formula has another number of variables", x.key)
		})}
	}
	extra["P05"] = func(t Tier) []Domain {
		return []Domain{iteratedDomain(t, 1, "every structural function on the formula and on some sub-formulas in two orders", func(c *C, x iterated, i int) {
			fac := f.NewFactory()
			fm := mk(fac, x.e)
			var subs []f.Formula
			allSubFormulas(fac, fm, map[f.Formula]bool{}, &subs)
			order := []f.Formula{subs[len(subs)/2], subs[len(subs)-1], subs[len(subs)/3], subs[len(subs)-1]}
			for j, s := range order {
				e := newReader(fac, x.vars).term(s)
				checkLong(c, fac, s, e, x, (i+j)%7)
			}
		})}
	}
	extra["P06"] = func(t Tier) []Domain {
		return []Domain{
			iteratedDomain(t, 1, "NNF and AIG of the formula and its negation: shape, and value at a structured set of assignments", func(c *C, x iterated, i int) {
				// the encodings of constraints contain auxiliary variables
				if x.cons {
					c.Outcome("skipped")
					return
				}
				fac := f.NewFactory()
				fm := mk(fac, x.e)
				for k := 0; k < 2; k++ {
					neg := (i+k)&1 == 1
					g := fm
					if neg {
						g = fac.Not(fm)
					}
					want := func(a []bool) bool { return evalAt(x.e, a) != neg }
					d := sameAt(c, fac, normalform.NNF(fac, g), x.vars, x.points(), "NNF of "+x.key, want)
					c.Assert(d.only(OTrue, OFalse, OLit, OAnd, OOr) && normalform.IsNNF(fac, normalform.NNF(fac, g)), "%s: no NNF", x.key)
					d = sameAt(c, fac, normalform.AIG(fac, g), x.vars, x.points(), "AIG of "+x.key, want)
					in, _ := dagOf(c, fac, g, x.vars, "")
					equiv := !in.only(OTrue, OFalse, OLit, OAnd, OOr, ONot, OImpl)
					if !equiv {
						c.Assert(d.only(OTrue, OFalse, OLit, OAnd, ONot) && normalform.IsAIG(fac, normalform.AIG(fac, g)), "%s: no AIG", x.key)
					}
				}
			}),
			chainDomain("chains-9", chains(9, 2), t.pick(5, 1), "factorised, canonical and BDD normal forms of the formula and its negation by truth table", func(c *C, ch chain, p dpPlan, i int) {
				fac := f.NewFactory()
				fm := ch.formula(fac)
				want := ttOfClauses(ch.cls, ch.n)
				if i%2 == 1 {
					fm, want = fac.Not(fm), want.not()
				}
				nfs := normalForms()
				for k := 0; k < 3; k++ {
					nf := nfs[(i/2+k*4)%len(nfs)]
					if nf.explodes != 0 && estimate(newReader(fac, ch.n).term(normalform.NNF(fac, fm)), nf.explodes) > 3000 {
						continue
					}
					checkNF(c, fac, fm, want, ch.n, nf)
					c.Outcome(nf.name)
				}
			}),
		}
	}

	// ---- P12: cancelation on long chains
	extra["P12"] = func(t Tier) []Domain {
		run := func(c *C, ch chain, p dpPlan, i int) {
			cf := rotCfg(i)
			want := p.sat(nil)
			what := cf.name + " " + ch.key
			mkSolver := func() (f.Factory, *sat.Solver) {
				fac := f.NewFactory()
				s := sat.NewSolver(fac, cf.mk())
				for _, cl := range ch.cls {
					s.Add(fac.Clause(mkLits(fac, cl)...))
				}
				return fac, s
			}
			ops := []struct {
				name string
				run  func(fac f.Factory, s *sat.Solver, h handler.Handler) handler.State
			}{
				{"call", func(fac f.Factory, s *sat.Solver, h handler.Handler) handler.State {
					x := i % ch.n
					r := s.Call(sat.Params().Literal(mkLit(fac, 2*x)).WithModel(mkVars(fac, ch.n)).Handler(h))
					if r.OK() {
						c.Assert(r.Sat() == p.sat(map[int]bool{x: true}), "%s: verdict %v of a call that was not canceled", what, r.Sat())
					}
					return r.State()
				}},
				{"backbone", func(fac f.Factory, s *sat.Solver, h handler.Handler) handler.State {
					bb, st := s.ComputeBackboneWithHandler(fac, mkVars(fac, ch.n), h, sat.BBBoth)
					if st.Success {
						c.Assert(bb.Sat == want, "%s: backbone", what)
					}
					return st
				}},
				{"maximise", func(fac f.Factory, s *sat.Solver, h handler.Handler) handler.State {
					var lits []f.Literal
					for v := 0; v < ch.n; v++ {
						lits = append(lits, mkLit(fac, 2*v+(v/3+i)&1))
					}
					r, st := s.MaximizeWithHandler(lits, h)
					if st.Success {
						c.Assert((r != nil) == want, "%s: maximise returns a model: %v", what, r != nil)
					}
					return st
				}},
				{"enumerate", func(fac f.Factory, s *sat.Solver, h handler.Handler) handler.State {
					vs := mkVars(fac, ch.n)[ch.n/2 : min(ch.n, ch.n/2+5)]
					cfg := iter.DefaultConfig()
					cfg.Handler = h
					cfg.Strategy = iter.NewNoSplitMEStrategy()
					_, st := enum.OnSolverWithConfig(s, vs, cfg)
					return st
				}},
			}
			op := ops[i%len(ops)]
			fac, s := mkSolver()
			rec := &cancelAt{k: -1, rec: true}
			st := op.run(fac, s, rec)
			c.Step()
			c.Assert(st.Success, "%s: %s is reported as canceled", what, op.name)
			N := len(rec.events)
			stepw := max(1, N/t.pick(6, 25))
			for k := 0; k < N; k += stepw {
				fac, s := mkSolver()
				h := &cancelAt{k: k, sticky: k&1 == 1}
				st := op.run(fac, s, h)
				c.Step()
				c.Assert(h.fired && !st.Success, "%s: %s is stopped at event %d of %d, but reported as completed", what, op.name, k, N)
				c.Assert(st.CancelCause != nil, "%s: %s: no cause", what, op.name)
				for j := 0; j < 4; j++ {
					var fix map[int]bool
					var lits []f.Literal
					if j > 0 {
						x := (i + 7*j + k) % ch.n
						fix = map[int]bool{x: j&1 == 1}
						lits = append(lits, fac.Lit(vname(x), j&1 == 1))
					}
					w := p.sat(fix)
					res := s.Call(sat.Params().Literal(lits...).WithModel(mkVars(fac, ch.n)))
					c.Step()
					c.Assert(res.OK() && res.Sat() == w, "%s: after %s was canceled at event %d of %d: sat=%v under %v, must be %v", what, op.name, k, N, res.Sat(), fix, w)
					if w {
						modelOK(c, ch.cls, assignOf(c, fac, res.Model(), what), what)
					}
				}
				bb := s.ComputeBackbone(fac, mkVars(fac, 5), sat.BBBoth)
				c.Assert(bb.Sat == want, "%s: backbone after the cancelation", what)
				if want {
					var a, b int
					for v := 0; v < 5; v++ {
						if !p.sat(map[int]bool{v: false}) {
							a++
						}
						if !p.sat(map[int]bool{v: true}) {
							b++
						}
					}
					c.Assert(len(bb.Positive) == a && len(bb.Negative) == b, "%s: backbone after %s was canceled at event %d of %d has %d+%d literals, must have %d+%d", what, op.name, k, N, len(bb.Positive), len(bb.Negative), a, b)
				}
				c.Outcome(op.name + " canceled")
			}
		}
		return []Domain{
			chainDomain("chains-9", chains(9, 2), t.pick(5, 1), "calls, backbones, optimisation and enumeration stopped at events spread over the computation; afterwards calls under assumptions and a backbone against the dynamic program", run),
			chainDomain("chains-33", chains(33, 2), t.pick(23, 3), "calls, backbones, optimisation and enumeration stopped at events spread over the computation; afterwards calls under assumptions and a backbone against the dynamic program", run),
		}
	}

	// ---- P15
	extra["P15"] = func(t Tier) []Domain {
		run := func(smusMax int) func(c *C, ch chain, p dpPlan, i int) {
			return func(c *C, ch chain, p dpPlan, i int) {
				fac := f.NewFactory()
				var given []f.Proposition
				k := len(ch.cls)
				at := func(j int) int { return (j*[]int{1, 1, k - 1, 1}[i%4] + i) % k }
				perm := map[int]bool{}
				for j := range ch.cls {
					perm[at(j)] = true
				}
				ok := len(perm) == k
				var cls [][]int
				for j := range ch.cls {
					x := j
					if ok {
						x = at(j)
					}
					cls = append(cls, ch.cls[x])
					given = append(given, f.NewStandardProposition(fac.Clause(mkLits(fac, ch.cls[x])...), fmt.Sprint(x)))
				}
				unsat := !p.sat(nil)
				size := -1
				for alg := 0; alg < 2; alg++ {
					in := append([]f.Proposition{}, given...)
					var core *explanation.UnsatCore
					var err error
					name := []string{"insertion-based", "deletion-based"}[alg]
					if alg == 0 {
						core, err = mus.ComputeInsertionBased(fac, &in)
					} else {
						core, err = mus.ComputeDeletionBased(fac, &in)
					}
					c.Step()
					c.Assert((err == nil) == unsat, "%s MUS of %s: error %v, unsatisfiable %v", name, ch.key, err, unsat)
					if !unsat {
						continue
					}
					mask := propsMask(c, name+" MUS of "+ch.key, given, core.Propositions)
					var sel []int
					for j := range cls {
						if mask>>uint(j)&1 == 1 {
							sel = append(sel, j)
						}
					}
					size = len(sel)
					minimalCore(c, name+" MUS of "+ch.key, ch.n, cls, sel)
					c.Outcome(fmt.Sprintf("MUS of >= %d", len(sel)/4*4))
				}
				if k > smusMax {
					return
				}
				res := smus.Compute(fac, given)
				c.Step()
				c.Assert((res != nil) == unsat, "SMUS of %s: unsatisfiable %v, result %v", ch.key, unsat, res != nil)
				if !unsat {
					c.Outcome("satisfiable")
					return
				}
				mask := propsMask(c, "SMUS of "+ch.key, given, res)
				var sel []int
				for j := range cls {
					if mask>>uint(j)&1 == 1 {
						sel = append(sel, j)
					}
				}
				c.Assert(len(sel) <= size, "SMUS of %s has %d elements, but there is a MUS with %d", ch.key, len(sel), size)
				minimalCore(c, "SMUS of "+ch.key, ch.n, cls, sel)
				if k <= 14 {
					// no smaller set
					for m := uint64(0); m < 1<<uint(k); m++ {
						if popcount(m) < len(sel) {
							var fs []factor
							for j := range cls {
								if m>>uint(j)&1 == 1 {
									fs = append(fs, factor{cls[j], -1})
								}
							}
							c.Assert(planOf(ch.n, fs).sat(nil), "SMUS of %s has %d elements, but %d suffice", ch.key, len(sel), popcount(m))
						}
					}
				}
				c.Outcome(fmt.Sprintf("SMUS of %d", len(sel)))
			}
		}
		what := "every clause a proposition, the order rotated or reversed: MUS by both algorithms minimal, SMUS minimal, not larger than the MUS, and (up to 14 clauses) of least size"
		return []Domain{
			chainDomain("chains-5", chains(5, 3), t.pick(7, 1), what, run(t.pick(14, 20))),
			chainDomain("chains-9", chains(9, 3), t.pick(11, 1), what, run(t.pick(12, 20))),
			chainDomain("chains-19", chains(19, 3), t.pick(101, 11), what, run(t.pick(0, 24))),
		}
	}

	// ---- P19: incremental optimisation of chains
	extra["P19"] = func(t Tier) []Domain {
		vs := msVariants()
		run := func(c *C, ch chain, _ dpPlan, i int) {
			uniform := i/2%2 == 0
			// the clauses in some order, hard and soft
			var fs []factor
			for j := range ch.cls {
				cl := ch.cls[(j*5+i)%len(ch.cls)]
				if len(ch.cls)%5 == 0 {
					cl = ch.cls[j]
				}
				w := 1
				if !uniform {
					w = []int{1, 3, 1, 2, 7}[(j+i)%5]
				}
				if (j+i)%3 == 0 {
					w = -1
				}
				fs = append(fs, factor{cl, w})
				if j%3 == 0 {
					v := (j*3 + i) % ch.n
					fs = append(fs, factor{[]int{2*v + (j/3+i)&1}, map[bool]int{true: 1, false: 1 + j%4}[uniform]})
				}
			}
			for k := 0; k < 3; k++ {
				v := vs[(i+k*7)%len(vs)]
				if uniform && !v.unweighted || !uniform && !v.weighted {
					continue
				}
				fac := f.NewFactory()
				s := v.mk(fac, cnfMethods[(i+k)%3])
				what := v.name + " " + ch.key
				check := func(fs []factor, when string) {
					hasSoft := false
					for _, x := range fs {
						hasSoft = hasSoft || x.w > 0
					}
					if !hasSoft {
						return
					}
					// a weighted algorithm needs a weighted instance, and so on
					same := true
					for _, x := range fs {
						same = same && x.w <= 1
					}
					if same && !v.unweighted || !same && !v.weighted {
						return
					}
					best, ok := planOf(ch.n, fs).minCost(nil)
					res := s.Solve()
					c.Step()
					c.Assert(res.Satisfiable == ok, "%s: %s, %d clauses: satisfiable %v, must be %v", what, when, len(fs), res.Satisfiable, ok)
					if !ok {
						c.Outcome("unsat")
						return
					}
					c.Assert(res.Optimum == best, "%s: %s, %d clauses: optimum %d, must be %d", what, when, len(fs), res.Optimum, best)
					a := assignOf(c, fac, res.Model, what)
					got, hok := costOf(fs, func(v int) bool { return a[v] })
					c.Assert(hok && got == best, "%s: %s: the model has cost %d (hard %v), must be %d", what, when, got, hok, best)
					c.Outcome(fmt.Sprintf("optimum >= %d", best/5*5))
				}
				add := func(x factor) {
					fm := fac.Clause(mkLits(fac, x.lits)...)
					if x.w < 0 {
						s.AddHardFormula(fm)
					} else {
						c.Assert(s.AddSoftFormula(fm, x.w) == nil, "AddSoftFormula")
					}
				}
				type save struct {
					st *maxsat.SolverState
					k  int
				}
				var saves []save
				step := len(fs)/4 + 1
				for j := 0; j <= len(fs); j++ {
					if j%step == 0 {
						if (i+j/step)%2 == 0 {
							check(fs[:j], "incremental")
						}
						saves = append(saves, save{s.SaveState(), j})
						if (i+j/step)%3 == 0 {
							check(fs[:j], "incremental after saving")
						}
					}
					if j < len(fs) {
						add(fs[j])
					}
				}
				check(fs, "all")
				for j := len(saves) - 1; j >= 0; j -= 1 + i%2 {
					c.Assert(s.LoadState(saves[j].st) == nil, "%s: load", what)
					cur := append([]factor{}, fs[:saves[j].k]...)
					check(cur, "loaded")
					// go on with other clauses
					for x := len(fs) - 1; x >= 0 && x > len(fs)-4; x-- {
						add(fs[x])
						cur = append(cur, fs[x])
					}
					check(cur, "loaded and extended")
				}
			}
		}
		return []Domain{
			chainDomain("chains-8", chains(8, 2), t.pick(5, 1), "added in portions with solving, saving and loading in between; three algorithm variants each in rotation", run),
			chainDomain("chains-12", chains(12, 2), t.pick(23, 3), "added in portions with solving, saving and loading in between; three algorithm variants each in rotation", run),
		}
	}
}

func append2(a, b func(t Tier) []Domain) func(t Tier) []Domain {
	if a == nil {
		return b
	}
	return func(t Tier) []Domain { return append(a(t), b(t)...) }
}

// minimalCore: the selected clauses are unsatisfiable, and each of them is needed
func minimalCore(c *C, what string, n int, cls [][]int, sel []int) {
	sub := func(skip int) bool {
		var fs []factor
		for _, j := range sel {
			if j != skip {
				fs = append(fs, factor{cls[j], -1})
			}
		}
		return planOf(n, fs).sat(nil)
	}
	c.Assert(!sub(-1), "%s: the selected clauses are satisfiable", what)
	for _, j := range sel {
		c.Assert(sub(j), "%s: %v is not needed", what, eOrLits(cls[j]))
	}
}

// checkLong compares the structural functions with the reference on a long formula.
func checkLong(c *C, fac f.Factory, fm f.Formula, e *E, x iterated, first int) {
	prof := map[int]int{}
	refProfile(e, prof)
	vars := map[int]int{}
	for l, k := range prof {
		vars[l>>1] += k
	}
	rd := newReader(fac, x.vars)
	for k := 0; k < 7; k++ {
		c.Step()
		switch (k + first) % 7 {
		case 0:
			got := f.Variables(fac, fm)
			c.Assert(got.Size() == len(vars), "%s: Variables has %d elements, must have %d", x.key, got.Size(), len(vars))
			for _, v := range got.Content() {
				c.Assert(vars[rd.lit(v.AsLiteral())>>1] > 0, "%s: Variables contains another variable", x.key)
			}
		case 1:
			got := f.Literals(fac, fm)
			c.Assert(got.Size() == len(prof), "%s: Literals has %d elements, must have %d", x.key, got.Size(), len(prof))
			for _, l := range got.Content() {
				c.Assert(prof[rd.lit(l)] > 0, "%s: Literals contains another literal", x.key)
			}
		case 2:
			c.Assert(f.Depth(fac, fm) == refDepth(e), "%s: Depth is %d, must be %d", x.key, f.Depth(fac, fm), refDepth(e))
		case 3:
			c.Assert(f.NumberOfAtoms(fac, fm) == refAtoms(e), "%s: NumberOfAtoms is %d, must be %d", x.key, f.NumberOfAtoms(fac, fm), refAtoms(e))
		case 4:
			c.Assert(f.NumberOfNodes(fac, fm) == refNodes(e), "%s: NumberOfNodes is %d, must be %d", x.key, f.NumberOfNodes(fac, fm), refNodes(e))
		case 5:
			p := f.VariableProfile(fac, fm)
			c.Assert(len(p) == len(vars), "%s: VariableProfile has %d entries, must have %d", x.key, len(p), len(vars))
			for v, k := range p {
				c.Assert(vars[rd.lit(v.AsLiteral())>>1] == k, "%s: VariableProfile: %d occurrences, must be %d", x.key, k, vars[rd.lit(v.AsLiteral())>>1])
			}
			q := f.LiteralProfile(fac, fm)
			c.Assert(len(q) == len(prof), "%s: LiteralProfile has %d entries, must have %d", x.key, len(q), len(prof))
			for l, k := range q {
				c.Assert(prof[rd.lit(l)] == k, "%s: LiteralProfile: %d occurrences, must be %d", x.key, k, prof[rd.lit(l)])
			}
		case 6:
			got := f.SubNodes(fac, fm)
			want := map[f.Formula]bool{}
			var subs []f.Formula
			allSubFormulas(fac, fm, want, &subs)
			pos := map[f.Formula]bool{}
			for _, s := range got {
				c.Assert(want[s] && !pos[s], "%s: SubNodes contains a formula twice or one that does not occur", x.key)
				for _, o := range fac.Operands(s) {
					c.Assert(pos[o], "%s: SubNodes lists a formula before its operands", x.key)
				}
				pos[s] = true
			}
			c.Assert(len(pos) == len(want), "%s: SubNodes has %d of %d nodes", x.key, len(pos), len(want))
		}
	}
}
