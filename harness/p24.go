package main

import (
	"fmt"
	"math/bits"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/primeimplicant"
)

// primeNames: variable names of the user which look like the names the library makes up itself.
var primeNames = [][]string{
	nil,
	{"a", "a_POS", "a_NEG", "a_POS_NEG", "b"},
	{"a_POS_POS", "a_POS", "a", "a_NEG_POS", "a_NEG"},
	{"", "_POS", "_NEG", "~", "_POS_NEG"},
}

// primesAll runs every prime computation on one formula; the formula is built once, all computations share the factory.
func primesAll(c *C, e *E, n, nameSet, from int) {
	names := primeNames[nameSet]
	name := vname
	if names != nil {
		name = func(i int) string { return names[i] }
	}
	c.Key("%s names %v", e, names)
	c.StateS(fmt.Sprint(e, nameSet))
	fac := f.NewFactory()
	fm := mkN(fac, e, name)
	t := ttOfE(e, n)
	std := fac // literals are renamed into this factory
	back := map[string]string{}
	if names != nil {
		std = f.NewFactory()
		for i := 0; i < n; i++ {
			back[names[i]] = vname(i)
		}
	}
	conv := func(ls []f.Literal) []f.Literal {
		if names == nil {
			return ls
		}
		r := make([]f.Literal, len(ls))
		for i, l := range ls {
			nm, ph, _ := fac.LitNamePhase(l)
			o, ok := back[nm]
			c.Assert(ok, "the result contains the unknown variable %q", nm)
			r[i] = std.Lit(o, ph)
		}
		return r
	}
	convAll := func(ls [][]f.Literal) [][]f.Literal {
		r := make([][]f.Literal, len(ls))
		for i := range ls {
			r[i] = conv(ls[i])
		}
		return r
	}
	type fn func(f.Factory, f.Formula, primeimplicant.CoverSort) *primeimplicant.PrimeResult
	hd := func(g func(f.Factory, f.Formula, primeimplicant.CoverSort, handler.Handler) (*primeimplicant.PrimeResult, handler.State)) fn {
		return func(fac f.Factory, fm f.Formula, cs primeimplicant.CoverSort) *primeimplicant.PrimeResult {
			r, st := g(fac, fm, cs, handler.NopHandler)
			c.Assert(st.Success, "the computation is reported as cancelled without being cancelled")
			return r
		}
	}
	fns := []fn{primeimplicant.CoverMin, primeimplicant.CoverMax, hd(primeimplicant.CoverMinWithHandler), hd(primeimplicant.CoverMaxWithHandler)}
	for k := 0; k < 5; k++ {
		x := (k + from) % 5
		if x == 4 {
			ls, err := primeimplicant.Minimum(fac, fm)
			c.Step()
			if t.isFalse() {
				c.Assert(err != nil, "a minimum prime implicant %s of an unsatisfiable formula", litsString(fac, ls))
				c.Outcome("no implicant")
				continue
			}
			c.Assert(err == nil, "no minimum prime implicant: %v", err)
			q := litsCube(c, std, conv(ls), n, false)
			primes := primesOf(t)
			c.Assert(primes[q], "%s is not a prime implicant", litsString(fac, ls))
			for p := range primes {
				c.Assert(bits.OnesCount64(p.mask) >= bits.OnesCount64(q.mask), "the minimum prime implicant %s has %d literals, there is one with %d", litsString(fac, ls), bits.OnesCount64(q.mask), bits.OnesCount64(p.mask))
			}
			c.Outcome(fmt.Sprintf("minimum of size %d", len(ls)))
			continue
		}
		g := fns[x%2]
		if (from/5+k)%2 == 1 {
			g = fns[x%2+2]
		}
		cs := primeimplicant.CoverSort(x / 2)
		r := g(fac, fm, cs)
		c.Step()
		rr := &primeimplicant.PrimeResult{Implicants: convAll(r.Implicants), Implicates: convAll(r.Implicates), CoverSort: r.CoverSort}
		checkPrimes(c, std, t, n, rr, cs)
		c.Outcome(fmt.Sprintf("%d implicants", min(len(r.Implicants), 9)))
	}
}

func init() {
	register(&Prop{
		ID: "P24",
		Rule: "A model state is a distinct formula (with the names of its variables); a transition is one computation of primes. " +
			"All prime implicants and prime implicates are computed independently from the truth table (definition: no literal can be dropped) and compared; the minimum prime implicant is compared with the smallest prime.",
		Assume: []string{"Formulas have up to five variables."},
		Domains: func(t Tier) []Domain {
			var doms []Domain
			add := func(name, bound string, sp Space, n int, nameSets int) {
				doms = append(doms, Domain{name, bound, sp.N * nameSets, func(c *C, i int) {
					x := i / nameSets
					primesAll(c, sp.At(x), n, i%nameSets, (x*7+i)%10)
				}})
			}
			for n := 0; n <= 3; n++ {
				for form := 0; form < 3; form++ {
					add(fmt.Sprintf("functions-%d-form-%d", n, form), fmt.Sprintf("all Boolean functions over %d variables (form %d) x %d sets of variable names", n, form, len(primeNames)), functions(n, form), n, len(primeNames))
				}
			}
			st := t.pick(19, 1)
			add("functions-4", fmt.Sprintf("Boolean functions over 4 variables, every %dth", st), stride(Space{65536, func(i int) *E { return funcTerm(uint64(i), 4, i%3) }}, st), 4, 1)
			l2 := level(litAtoms(2, true))
			st2 := t.pick(13, 1)
			add("depth-2", fmt.Sprintf("all formulas of depth two over two variables and constants, every %dth", st2), stride(level(l2), st2), 2, 1)
			add("depth-1-3", "all formulas of depth one over three variables", level(litAtoms(3, true)), 3, len(primeNames))
			ca := constraintAtoms(3)
			cl := union(ca, negs(ca), binary(ca, litAtoms(3, false)), binary(ca, ca))
			add("constraints", "cardinality and pseudo-Boolean constraints over three variables, negated, combined with literals and with each other", cl, 3, t.pick(1, 4))
			c4 := constraintAtoms(4)
			add("constraints-4", "constraints over four variables, negated and combined with literals", union(c4, negs(c4), binary(c4, litAtoms(4, false))), 4, 1)
			// larger clause sets and their duals with many primes
			for _, n := range []int{4, 5} {
				for k := 2; k <= 3; k++ {
					ps := patterns(n, k)
					st := t.pick(map[int]int{4: 3, 5: 13}[n], 1)
					sp := stride(Space{len(ps) * 3, func(i int) *E {
						cls := ps[i/3].clauses(n)
						var ops []*E
						for _, cl := range cls {
							var ls []*E
							for _, l := range cl {
								ls = append(ls, eLit(l))
							}
							if i%3 == 1 {
								ops = append(ops, eAnd(ls...))
							} else {
								ops = append(ops, eOr(ls...))
							}
						}
						switch i % 3 {
						case 0:
							return eAnd(ops...)
						case 1:
							return eOr(ops...)
						}
						return eNot(eAnd(ops...))
					}}, st)
					add(fmt.Sprintf("circulant-%d-%d", n, k), fmt.Sprintf("circulant CNFs, DNFs and negated CNFs over %d variables with %d literals, every %dth", n, k, st), sp, n, 1)
				}
			}
			return doms
		},
	})
}
