package main

import (
	"fmt"
	"sort"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
)

// structural reference functions on the term that the accessors report -------------

func refDepth(e *E) int {
	d := 0
	for _, s := range e.Sub {
		d = max(d, refDepth(s)+1)
	}
	return d
}
func refAtoms(e *E) int {
	if len(e.Sub) == 0 {
		return 1
	}
	n := 0
	for _, s := range e.Sub {
		n += refAtoms(s)
	}
	return n
}
func refNodes(e *E) int {
	n := 1 + len(e.Lits)
	for _, s := range e.Sub {
		n += refNodes(s)
	}
	return n
}
func refProfile(e *E, m map[int]int) {
	if e.Op == OLit {
		m[e.Lit]++
	}
	for _, l := range e.Lits {
		m[l]++
	}
	for _, s := range e.Sub {
		refProfile(s, m)
	}
}
func refSubs(e *E, m map[string]bool) {
	m[e.String()] = true
	for _, s := range e.Sub {
		refSubs(s, m)
	}
}

func profString(m map[int]int, vars bool) string {
	r := map[string]int{}
	for l, n := range m {
		if vars {
			r[vname(l>>1)] += n
		} else {
			r[eLit(l).String()] += n
		}
	}
	var k []string
	for s, n := range r {
		k = append(k, fmt.Sprintf("%s:%d", s, n))
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}

const nFuncs = 9

// checkFunc calls structural function number k and compares it with the reference.
func checkFunc(c *C, fac f.Factory, fm f.Formula, e *E, k int) {
	c.Step()
	prof := map[int]int{}
	refProfile(e, prof)
	var names []string
	for l := range prof {
		names = append(names, eLit(l).String())
	}
	sort.Strings(names)
	vset := map[string]bool{}
	var vnames []string
	for l := range prof {
		if !vset[vname(l>>1)] {
			vset[vname(l>>1)] = true
			vnames = append(vnames, vname(l>>1))
		}
	}
	sort.Strings(vnames)
	src := fm.Sprint(fac)
	switch k {
	case 0:
		got := f.Variables(fac, fm)
		c.Assert(litsString(fac, f.VariablesAsLiterals(got.Content())) == strings.Join(vnames, ","), "Variables(%s)", src)
		c.Assert(got.Size() == len(vnames) && got.Empty() == (len(vnames) == 0), "size of Variables(%s)", src)
		for i := 1; i < got.Size(); i++ {
			c.Assert(got.Content()[i-1] < got.Content()[i], "content of Variables(%s) is not sorted", src)
		}
	case 1:
		got := f.Literals(fac, fm)
		c.Assert(litsString(fac, got.Content()) == strings.Join(names, ","), "Literals(%s) = %s", src, litsString(fac, got.Content()))
	case 2:
		c.Assert(f.Depth(fac, fm) == refDepth(e), "Depth(%s) = %d", src, f.Depth(fac, fm))
	case 3:
		c.Assert(f.NumberOfAtoms(fac, fm) == refAtoms(e), "NumberOfAtoms(%s) = %d", src, f.NumberOfAtoms(fac, fm))
	case 4:
		c.Assert(f.NumberOfNodes(fac, fm) == refNodes(e), "NumberOfNodes(%s) = %d", src, f.NumberOfNodes(fac, fm))
	case 5:
		want := map[string]bool{}
		refSubs(e, want)
		got := f.SubNodes(fac, fm)
		seen := map[string]bool{}
		pos := map[f.Formula]int{}
		for i, s := range got {
			str := readBack(c, fac, s).String()
			c.Assert(want[str], "SubNodes(%s) contains %s", src, str)
			c.Assert(!seen[str], "SubNodes(%s) contains %s twice", src, str)
			seen[str] = true
			for _, o := range fac.Operands(s) {
				_, ok := pos[o]
				c.Assert(ok, "SubNodes(%s) lists a formula before its operands", src)
			}
			pos[s] = i
		}
		c.Assert(len(seen) == len(want), "SubNodes(%s) has %d of %d nodes", src, len(seen), len(want))
	case 6:
		p := f.VariableProfile(fac, fm)
		m := map[int]int{}
		r := newReader(fac, 4)
		for v, n := range p {
			m[r.lit(v.AsLiteral())] = n
		}
		c.Assert(profString(m, true) == profString(prof, true), "VariableProfile(%s) = %s", src, profString(m, true))
	case 7:
		p := f.LiteralProfile(fac, fm)
		m := map[int]int{}
		r := newReader(fac, 4)
		for l, n := range p {
			m[r.lit(l)] = n
		}
		c.Assert(profString(m, false) == profString(prof, false), "LiteralProfile(%s) = %s", src, profString(m, false))
	case 8:
		ops := fac.Operands(fm)
		c.Assert(len(ops) == len(e.Sub), "Operands(%s)", src)
		for i, o := range ops {
			c.Assert(readBack(c, fac, o).String() == e.Sub[i].String(), "operand %d of %s", i, src)
		}
		c.Assert(fm.IsAtomic() == (len(e.Sub) == 0), "IsAtomic(%s)", src)
		c.Assert(fm.IsConstant() == (e.Op == OTrue || e.Op == OFalse), "IsConstant(%s)", src)
	}
}

func allSubFormulas(fac f.Factory, fm f.Formula, seen map[f.Formula]bool, out *[]f.Formula) {
	if seen[fm] {
		return
	}
	seen[fm] = true
	for _, o := range fac.Operands(fm) {
		allSubFormulas(fac, o, seen, out)
	}
	*out = append(*out, fm)
}

func checkAllFuncs(c *C, fac f.Factory, fm f.Formula) {
	var subs []f.Formula
	allSubFormulas(fac, fm, map[f.Formula]bool{}, &subs)
	for _, s := range subs {
		e := readBack(c, fac, s)
		for k := 0; k < nFuncs; k++ {
			checkFunc(c, fac, s, e, k)
		}
	}
}

func init() {
	register(&Prop{
		ID: "P05",
		Rule: "A model state is a distinct formula (with the set of functions already cached); a transition is one call of a structural function; the reference computes the same value on the " +
			"operand tree read through the accessors.",
		Domains: func(t Tier) []Domain {
			cons := constraintAtoms(3)
			lits := litAtoms(3, true)
			l1 := level(union(litAtoms(2, false), stride(cons, 5)))
			big := union(level(union(lits, cons)), level(stride(l1, t.pick(3, 1))), nary(union(litAtoms(3, false), stride(cons, 3)), 3), functions(3, 1), functions(3, 2), functions(3, 0))
			doms := []Domain{{"formulas", "formulas of up to two levels with constraints and all functions of 3 variables: every function on every sub-formula", big.N, func(c *C, i int) {
				e := big.At(i)
				c.Key("%s", e)
				fac := f.NewFactory()
				fm := mk(fac, e)
				c.StateS(fm.Sprint(fac))
				checkAllFuncs(c, fac, fm)
				checkAllFuncs(c, fac, fm) // now from the caches
				c.Outcome(fmt.Sprintf("sort%d", fm.Sort()))
			}}}
			// call orders
			probes := []*E{
				eAnd(eOr(eVar(0), eLit(3)), eImpl(eVar(0), eVar(2))),
				eNot(eEquiv(eAnd(eVar(0), eVar(1)), eCC(f.LE, 1, 0, 1, 2))),
				eOr(ePBC(f.GE, 2, []int{2, -1, 3}, []int{0, 3, 4}), eNot(eAnd(eVar(0), eVar(1))), eLit(5)),
				eAnd(eOr(eVar(0), eVar(1)), eOr(eVar(0), eVar(1), eVar(2)), eLit(1)),
			}
			ol := t.pick(4, 5)
			doms = append(doms, Domain{"call-orders", fmt.Sprintf("all sequences of %d function calls on 4 formulas, each on the whole formula or its first operand", ol), pow(nFuncs*2, ol) * len(probes) / t.pick(4, 20), func(c *C, i int) {
				i *= t.pick(4, 20)
				m := mixed(i, pow(nFuncs*2, ol), len(probes))
				c.Key("%v", m)
				fac := f.NewFactory()
				fm := mk(fac, probes[m[1]])
				op := fac.Operands(fm)[0]
				e, oe := readBack(c, fac, fm), readBack(c, fac, op)
				mask := uint64(m[1] + 1)
				for _, k := range digits(m[0], nFuncs*2, ol) {
					if k%2 == 0 {
						checkFunc(c, fac, fm, e, k/2)
					} else {
						checkFunc(c, fac, op, oe, k/2)
					}
					mask |= 1 << uint(8+k)
					c.State(mask)
				}
			}})
			// other computations in between
			comps := allComps()
			inputs := []*E{eAnd(eOr(eVar(0), eLit(3)), eOr(eVar(1), eVar(2)), eOr(eLit(1), eVar(3))), eEquiv(eImpl(eVar(0), eVar(1)), eOr(eVar(2), eLit(7))), eCC(f.LE, 1, 0, 1, 2, 3),
				ePBC(f.GE, 3, []int{2, 1, 3, 2}, []int{0, 3, 4, 6}), eOr(eAnd(eVar(0), eVar(1)), eAnd(eLit(1), eVar(2)), eAnd(eVar(0), eVar(3)))}
			doms = append(doms, Domain{"after-computations", "every computation of the library on 5 formulas, before and after evaluating all functions of the formula and of a related formula", len(comps) * len(inputs) * 2, func(c *C, i int) {
				m := mixed(i, len(comps), len(inputs), 2)
				cp, e := comps[m[0]], inputs[m[1]]
				c.Key("%s %s %d", cp.name, e, m[2])
				fac := f.NewFactory()
				fm := mk(fac, e)
				if !cp.accepts(readBack(c, fac, fm)) {
					c.Outcome("not-applicable")
					return
				}
				other := fac.And(fac.Or(fm, fac.Variable("e")), fac.Not(fm))
				if m[2] == 1 {
					checkAllFuncs(c, fac, other)
				}
				cp.run(c, fac, fm, nil)
				c.Step()
				checkAllFuncs(c, fac, other)
				checkAllFuncs(c, fac, fm)
				for _, n := range []int{0, 1, 2, 3} { // formulas over several arguments
					got := f.Variables(fac, fm, other, mkVar(fac, n).AsFormula())
					want := f.NewMutableVarSetCopy(f.Variables(fac, fm), f.Variables(fac, other))
					want.Add(mkVar(fac, n))
					c.Assert(fmt.Sprint(got.Content()) == fmt.Sprint(want.Content()), "Variables of several formulas")
				}
				checkAllFuncs(c, fac, fm)
				c.Outcome("checked")
			}})
			// variables/literals of several formulas
			few := union(litAtoms(3, true), stride(level(litAtoms(3, false)), 11), stride(cons, 3))
			doms = append(doms, Domain{"several-formulas", "Variables/Literals of every pair and selected triples of formulas", few.N * few.N, func(c *C, i int) {
				m := mixed(i, few.N, few.N)
				fac := f.NewFactory()
				es := []*E{few.At(m[0]), few.At(m[1]), few.At((m[0] + m[1]) % few.N)}
				c.Key("%s %s", es[0], es[1])
				var fs []f.Formula
				for _, e := range es {
					fs = append(fs, mk(fac, e))
				}
				for k := 0; k <= 3; k++ {
					prof := map[int]int{}
					for _, x := range fs[:k] {
						refProfile(readBack(c, fac, x), prof)
					}
					lit, vs := map[string]bool{}, map[string]bool{}
					for l := range prof {
						lit[eLit(l).String()] = true
						vs[vname(l>>1)] = true
					}
					keys := func(m map[string]bool) string {
						var r []string
						for x := range m {
							r = append(r, x)
						}
						sort.Strings(r)
						return strings.Join(r, ",")
					}
					c.Step()
					c.Step()
					c.Assert(litsString(fac, f.VariablesAsLiterals(f.Variables(fac, fs[:k]...).Content())) == keys(vs), "Variables of %d formulas", k)
					c.Assert(litsString(fac, f.Literals(fac, fs[:k]...).Content()) == keys(lit), "Literals of %d formulas", k)
				}
				for j, x := range fs {
					checkFunc(c, fac, x, readBack(c, fac, x), 0)
					checkFunc(c, fac, x, readBack(c, fac, x), 1)
					_ = j
				}
			}})
			// set objects
			sl := t.pick(4, 5)
			nops := 14
			doms = append(doms, Domain{"set-histories", fmt.Sprintf("all histories of %d operations on a mutable variable set over 4 variables", sl), pow(nops, sl), func(c *C, i int) {
				ops := digits(i, nops, sl)
				c.Key("%v", ops)
				fac := f.NewFactory()
				v := mkVars(fac, 4)
				s := f.NewMutableVarSet(v[0])
				ref := uint64(1)
				bc := f.NewVarSet(v[1], v[2], v[1])
				frozen := f.NewVarSetCopy(s.AsImmutable(), bc)
				for _, o := range ops {
					c.Step()
					c.Logf("op %d", o)
					switch {
					case o < 4:
						s.Add(v[o])
						ref |= 1 << uint(o)
					case o < 8:
						s.Remove(v[o-4])
						ref &^= 1 << uint(o-4)
					case o == 8:
						s.AddAll(bc)
						ref |= 6
					case o == 9:
						s.RemoveAll(bc)
						ref &^= 6
					case o == 10:
						s.AddAllElements(&[]f.Variable{v[3], v[0]})
						ref |= 9
					case o == 11:
						s.RemoveAllElements(&[]f.Variable{v[2], v[0]})
						ref &^= 5
					case o == 12:
						s = f.NewMutableVarSetCopy(s.AsImmutable())
					case o == 13:
						_ = s.Content()
					}
					c.State(ref)
					n := 0
					prev := f.Variable(0)
					for k, x := range v {
						c.Assert(s.Contains(x) == (ref>>uint(k)&1 == 1), "Contains(%s) after %v", vname(k), ops)
						n += int(ref >> uint(k) & 1)
					}
					for _, x := range s.AsImmutable().Content() {
						c.Assert(s.Contains(x) && x > prev, "content after %v", ops)
						prev = x
					}
					c.Assert(s.Size() == n && len(s.Content()) == n && s.Empty() == (n == 0), "size after %v", ops)
					c.Assert(s.ContainsAll(bc) == (ref&6 == 6), "ContainsAll after %v", ops)
					c.Assert(bc.ContainsAll(s.AsImmutable()) == (ref&^6 == 0), "ContainsAll after %v", ops)
				}
				c.Assert(frozen.Size() == 3 && frozen.Contains(v[0]) && !frozen.Contains(v[3]), "a copy changed")
			}})
			return doms
		},
	})
}
