package main

import (
	"fmt"
	"math/bits"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
)

// ------------------------------------------------------------ reference terms

type Op uint8

const (
	OFalse Op = iota
	OTrue
	OLit
	ONot
	OAnd
	OOr
	OImpl
	OEquiv
	OPBC // coefficients, literals, comparator, right-hand side
	OCC
)

// E is a term of the reference semantics. Literals are encoded as 2*v (positive) or 2*v+1 (negative).
type E struct {
	Op   Op
	Lit  int
	Sub  []*E
	Cmp  f.CSort
	Rhs  int
	Lits []int
	Coef []int
}

var eFalse, eTrue = &E{Op: OFalse}, &E{Op: OTrue}

func eLit(l int) *E     { return &E{Op: OLit, Lit: l} }
func eVar(v int) *E     { return eLit(2 * v) }
func eNot(a *E) *E      { return &E{Op: ONot, Sub: []*E{a}} }
func eAnd(s ...*E) *E   { return &E{Op: OAnd, Sub: s} }
func eOr(s ...*E) *E    { return &E{Op: OOr, Sub: s} }
func eImpl(a, b *E) *E  { return &E{Op: OImpl, Sub: []*E{a, b}} }
func eEquiv(a, b *E) *E { return &E{Op: OEquiv, Sub: []*E{a, b}} }
func eCC(cmp f.CSort, rhs int, vars ...int) *E {
	lits := make([]int, len(vars))
	for i, v := range vars {
		lits[i] = 2 * v
	}
	return &E{Op: OCC, Cmp: cmp, Rhs: rhs, Lits: lits}
}
func ePBC(cmp f.CSort, rhs int, coef []int, lits []int) *E {
	return &E{Op: OPBC, Cmp: cmp, Rhs: rhs, Lits: lits, Coef: coef}
}

func cmpEval(cmp f.CSort, l, r int) bool {
	switch cmp {
	case f.EQ:
		return l == r
	case f.LE:
		return l <= r
	case f.LT:
		return l < r
	case f.GE:
		return l >= r
	case f.GT:
		return l > r
	}
	panic("unknown comparator")
}

// Eval evaluates under the assignment given as bit set.
func (e *E) Eval(a uint64) bool {
	switch e.Op {
	case OFalse:
		return false
	case OTrue:
		return true
	case OLit:
		return (a>>(uint(e.Lit)>>1))&1 != uint64(e.Lit&1)
	case ONot:
		return !e.Sub[0].Eval(a)
	case OAnd:
		for _, s := range e.Sub {
			if !s.Eval(a) {
				return false
			}
		}
		return true
	case OOr:
		for _, s := range e.Sub {
			if s.Eval(a) {
				return true
			}
		}
		return false
	case OImpl:
		return !e.Sub[0].Eval(a) || e.Sub[1].Eval(a)
	case OEquiv:
		return e.Sub[0].Eval(a) == e.Sub[1].Eval(a)
	case OCC, OPBC:
		s := 0
		for i, l := range e.Lits {
			if (a>>(uint(l)>>1))&1 != uint64(l&1) {
				if e.Op == OCC {
					s++
				} else {
					s += e.Coef[i]
				}
			}
		}
		return cmpEval(e.Cmp, s, e.Rhs)
	}
	panic("op")
}

func (e *E) String() string {
	join := func(sep string) string {
		p := make([]string, len(e.Sub))
		for i, s := range e.Sub {
			p[i] = s.String()
		}
		return "(" + strings.Join(p, sep) + ")"
	}
	switch e.Op {
	case OFalse:
		return "$false"
	case OTrue:
		return "$true"
	case OLit:
		if e.Lit&1 == 1 {
			return "~" + vname(e.Lit>>1)
		}
		return vname(e.Lit >> 1)
	case ONot:
		return "~" + e.Sub[0].String()
	case OAnd:
		return join("&")
	case OOr:
		return join("|")
	case OImpl:
		return join("=>")
	case OEquiv:
		return join("<=>")
	}
	var b strings.Builder
	b.WriteByte('(')
	for i, l := range e.Lits {
		if i > 0 {
			b.WriteString("+")
		}
		if e.Op == OPBC {
			fmt.Fprintf(&b, "%d*", e.Coef[i])
		}
		if l&1 == 1 {
			b.WriteByte('~')
		}
		b.WriteString(vname(l >> 1))
	}
	fmt.Fprintf(&b, " %s %d)", e.Cmp.String(), e.Rhs)
	return b.String()
}

func (e *E) hasConstraint() bool {
	if e.Op == OPBC || e.Op == OCC {
		return true
	}
	for _, s := range e.Sub {
		if s.hasConstraint() {
			return true
		}
	}
	return false
}

// vars returns the bit set of variables occurring.
func (e *E) vars() uint64 {
	var r uint64
	if e.Op == OLit {
		r |= 1 << uint(e.Lit>>1)
	}
	for _, l := range e.Lits {
		r |= 1 << uint(l>>1)
	}
	for _, s := range e.Sub {
		r |= s.vars()
	}
	return r
}

var vnames []string

func init() {
	for i := 0; i < 26; i++ {
		vnames = append(vnames, string(rune('a'+i)))
	}
	for i := 0; i < 400; i++ {
		vnames = append(vnames, fmt.Sprintf("x%d", i))
	}
}

func vname(v int) string { return vnames[v] }

// ------------------------------------------------------------ truth tables

// TT is a truth table over n variables, bit a of the table is the value under assignment a.
type TT struct {
	n int
	w []uint64
}

func newTT(n int) TT {
	k := 1
	if n > 6 {
		k = 1 << (n - 6)
	}
	return TT{n, make([]uint64, k)}
}
func (t TT) mask() uint64 {
	if t.n >= 6 {
		return ^uint64(0)
	}
	return 1<<(1<<uint(t.n)) - 1
}
func (t TT) get(a uint64) bool { return t.w[a>>6]>>(a&63)&1 == 1 }
func (t TT) set(a uint64)      { t.w[a>>6] |= 1 << (a & 63) }
func ttConst(n int, v bool) TT {
	t := newTT(n)
	if v {
		for i := range t.w {
			t.w[i] = t.mask()
		}
	}
	return t
}

var varMask = [6]uint64{0xAAAAAAAAAAAAAAAA, 0xCCCCCCCCCCCCCCCC, 0xF0F0F0F0F0F0F0F0, 0xFF00FF00FF00FF00, 0xFFFF0000FFFF0000, 0xFFFFFFFF00000000}

func ttVar(n, v int) TT {
	t := newTT(n)
	for i := range t.w {
		if v < 6 {
			t.w[i] = varMask[v] & t.mask()
		} else if i>>(uint(v)-6)&1 == 1 {
			t.w[i] = ^uint64(0)
		}
	}
	return t
}
func (t TT) not() TT {
	r := newTT(t.n)
	for i := range t.w {
		r.w[i] = ^t.w[i] & t.mask()
	}
	return r
}
func (t TT) and(o TT) TT {
	r := newTT(t.n)
	for i := range t.w {
		r.w[i] = t.w[i] & o.w[i]
	}
	return r
}
func (t TT) or(o TT) TT {
	r := newTT(t.n)
	for i := range t.w {
		r.w[i] = t.w[i] | o.w[i]
	}
	return r
}
func (t TT) xor(o TT) TT {
	r := newTT(t.n)
	for i := range t.w {
		r.w[i] = t.w[i] ^ o.w[i]
	}
	return r
}
func (t TT) eq(o TT) bool {
	if t.n != o.n {
		return false
	}
	for i := range t.w {
		if t.w[i] != o.w[i] {
			return false
		}
	}
	return true
}
func (t TT) count() int {
	c := 0
	for _, w := range t.w {
		c += bits.OnesCount64(w)
	}
	return c
}
func (t TT) isFalse() bool {
	for _, w := range t.w {
		if w != 0 {
			return false
		}
	}
	return true
}
func (t TT) isTrue() bool      { return t.not().isFalse() }
func (t TT) implies(o TT) bool { return t.and(o.not()).isFalse() }
func (t TT) hash() uint64 {
	h := uint64(1469598103934665603) ^ uint64(t.n)
	for _, w := range t.w {
		h ^= w
		h *= 1099511628211
		h ^= h >> 29
	}
	return h
}

// cof returns the cofactor for variable v = val (still over n variables).
func (t TT) cof(v int, val bool) TT {
	r := newTT(t.n)
	for a := uint64(0); a < 1<<uint(t.n); a++ {
		b := a &^ (1 << uint(v))
		if val {
			b |= 1 << uint(v)
		}
		if t.get(b) {
			r.set(a)
		}
	}
	return r
}
func (t TT) exists(v int) TT { return t.cof(v, false).or(t.cof(v, true)) }
func (t TT) forall(v int) TT { return t.cof(v, false).and(t.cof(v, true)) }

// depends reports whether the function depends on v.
func (t TT) depends(v int) bool { return !t.cof(v, false).eq(t.cof(v, true)) }

// project keeps the first m variables and existentially quantifies the rest.
func (t TT) project(m int) TT {
	r := newTT(m)
	mask := uint64(1)<<uint(m) - 1
	for wi, w := range t.w {
		for w != 0 {
			b := bits.TrailingZeros64(w)
			w &= w - 1
			r.set((uint64(wi)<<6 | uint64(b)) & mask)
		}
	}
	return r
}

// extend embeds a table into one over n variables.
func (t TT) extend(n int) TT {
	if n == t.n {
		return t
	}
	r := newTT(n)
	mask := uint64(1)<<uint(t.n) - 1
	for a := uint64(0); a < 1<<uint(n); a++ {
		if t.get(a & mask) {
			r.set(a)
		}
	}
	return r
}

func ttOfE(e *E, n int) TT {
	t := newTT(n)
	for a := uint64(0); a < 1<<uint(n); a++ {
		if e.Eval(a) {
			t.set(a)
		}
	}
	return t
}

func tt6(n int, w uint64) TT { t := newTT(n); t.w[0] = w; return t }

func (t TT) String() string {
	var b strings.Builder
	for a := uint64(0); a < 1<<uint(t.n); a++ {
		if t.get(a) {
			b.WriteByte('1')
		} else {
			b.WriteByte('0')
		}
	}
	return b.String()
}

// ------------------------------------------------------------ bridge to the implementation

// mk builds the term in the factory bottom-up.
func mk(fac f.Factory, e *E) f.Formula { return mkN(fac, e, vname) }

// mkN builds the term with the given variable names.
func mkN(fac f.Factory, e *E, vname func(int) string) f.Formula {
	switch e.Op {
	case OFalse:
		return fac.Falsum()
	case OTrue:
		return fac.Verum()
	case OLit:
		return fac.Literal(vname(e.Lit>>1), e.Lit&1 == 0)
	case ONot:
		return fac.Not(mkN(fac, e.Sub[0], vname))
	case OAnd, OOr:
		ops := make([]f.Formula, len(e.Sub))
		for i, s := range e.Sub {
			ops[i] = mkN(fac, s, vname)
		}
		if e.Op == OAnd {
			return fac.And(ops...)
		}
		return fac.Or(ops...)
	case OImpl:
		l := mkN(fac, e.Sub[0], vname)
		return fac.Implication(l, mkN(fac, e.Sub[1], vname))
	case OEquiv:
		l := mkN(fac, e.Sub[0], vname)
		return fac.Equivalence(l, mkN(fac, e.Sub[1], vname))
	case OCC:
		vs := make([]f.Variable, len(e.Lits))
		for i, l := range e.Lits {
			vs[i] = fac.Var(vname(l >> 1))
		}
		return fac.CC(e.Cmp, uint32(e.Rhs), vs...)
	case OPBC:
		ls := make([]f.Literal, len(e.Lits))
		for i, l := range e.Lits {
			ls[i] = fac.Lit(vname(l>>1), l&1 == 0)
		}
		return fac.PBC(e.Cmp, e.Rhs, ls, append([]int{}, e.Coef...))
	}
	panic("op")
}

func mkVar(fac f.Factory, v int) f.Variable { return fac.Var(vname(v)) }
func mkLit(fac f.Factory, l int) f.Literal  { return fac.Lit(vname(l>>1), l&1 == 0) }
func mkVars(fac f.Factory, n int) []f.Variable {
	r := make([]f.Variable, n)
	for i := range r {
		r[i] = mkVar(fac, i)
	}
	return r
}
func mkLits(fac f.Factory, lits []int) []f.Literal {
	r := make([]f.Literal, len(lits))
	for i, l := range lits {
		r[i] = mkLit(fac, l)
	}
	return r
}

// reader reads formulas of a factory back into reference terms; unknown variable names get fresh numbers from base on.
type reader struct {
	fac   f.Factory
	names map[string]int
	n     int
}

func newReader(fac f.Factory, n int) *reader {
	r := &reader{fac, map[string]int{}, n}
	for i := 0; i < n; i++ {
		r.names[vname(i)] = i
	}
	return r
}

func (r *reader) varNum(name string) int {
	v, ok := r.names[name]
	if !ok {
		v = r.n
		r.n++
		r.names[name] = v
	}
	return v
}

func (r *reader) lit(l f.Literal) int {
	name, phase, ok := r.fac.LitNamePhase(l)
	if !ok {
		panic(failure{"literal without name"})
	}
	v := r.varNum(name)
	if phase {
		return 2 * v
	}
	return 2*v + 1
}

// term reads the formula through the public accessors.
func (r *reader) term(fm f.Formula) *E {
	fac := r.fac
	switch fm.Sort() {
	case f.SortFalse:
		return eFalse
	case f.SortTrue:
		return eTrue
	case f.SortLiteral:
		l, err := fm.AsLiteral()
		if err != nil {
			panic(failure{"literal formula is not convertible: " + err.Error()})
		}
		return eLit(r.lit(l))
	case f.SortNot:
		op, ok := fac.NotOperand(fm)
		if !ok {
			panic(failure{"no operand of negation"})
		}
		return eNot(r.term(op))
	case f.SortImpl, f.SortEquiv:
		le, ri, ok := fac.BinaryLeftRight(fm)
		if !ok {
			panic(failure{"no operands of binary formula"})
		}
		if fm.Sort() == f.SortImpl {
			return eImpl(r.term(le), r.term(ri))
		}
		return eEquiv(r.term(le), r.term(ri))
	case f.SortAnd, f.SortOr:
		ops, ok := fac.NaryOperands(fm)
		if !ok {
			panic(failure{"no operands of n-ary formula"})
		}
		s := make([]*E, len(ops))
		for i, o := range ops {
			s[i] = r.term(o)
		}
		if fm.Sort() == f.SortAnd {
			return eAnd(s...)
		}
		return eOr(s...)
	case f.SortCC, f.SortPBC:
		cmp, rhs, lits, coef, ok := fac.PBCOps(fm)
		if !ok {
			panic(failure{"no operands of constraint"})
		}
		e := &E{Op: OPBC, Cmp: cmp, Rhs: rhs}
		for i, l := range lits {
			e.Lits = append(e.Lits, r.lit(l))
			e.Coef = append(e.Coef, coef[i])
		}
		if fm.Sort() == f.SortCC {
			e.Op = OCC
			e.Coef = nil
		}
		return e
	}
	panic(failure{fmt.Sprintf("unknown sort %d", fm.Sort())})
}

// ttOf is the truth table of a formula over the first n variables a, b, c...; it
// fails if other variables occur.
func ttOf(c *C, fac f.Factory, fm f.Formula, n int) TT {
	r := newReader(fac, n)
	e := r.term(fm)
	if r.n > n {
		c.Failf("result %s contains variables that do not occur in the input", fm.Sprint(fac))
	}
	return ttOfE(e, n)
}

// models of a set of clauses with auxiliary variables, projected -----------------

// projTT computes the projection of the conjunction of formulas to the first n variables
// by complete search over the remaining variables (unit propagation + branching on clauses).
func projTT(c *C, fac f.Factory, fms []f.Formula, n int) TT {
	r := newReader(fac, n)
	var terms []*E
	for _, fm := range fms {
		terms = append(terms, r.term(fm))
	}
	clauses, ok := toClauses(terms)
	if !ok {
		c.Failf("expected a clause set, got %s", sprintAll(fac, fms))
	}
	return projClauses(clauses, n, r.n)
}

func sprintAll(fac f.Factory, fms []f.Formula) string {
	var p []string
	for _, x := range fms {
		p = append(p, x.Sprint(fac))
	}
	return strings.Join(p, ", ")
}

func projClauses(clauses [][]int, n, total int) TT {
	t := newTT(n)
	s := newMiniSat(total, clauses)
	for a := uint64(0); a < 1<<uint(n); a++ {
		as := make([]int, n)
		for v := 0; v < n; v++ {
			as[v] = 2*v + 1 - int(a>>uint(v)&1)
		}
		if s.solve(as) {
			t.set(a)
		}
	}
	return t
}

// toClauses flattens a conjunction of CNFs into literal lists.
func toClauses(terms []*E) ([][]int, bool) {
	var res [][]int
	for _, e := range terms {
		switch e.Op {
		case OTrue:
		case OFalse:
			res = append(res, []int{})
		case OLit:
			res = append(res, []int{e.Lit})
		case OOr:
			cl := []int{}
			for _, s := range e.Sub {
				if s.Op != OLit {
					return nil, false
				}
				cl = append(cl, s.Lit)
			}
			res = append(res, cl)
		case OAnd:
			sub, ok := toClauses(e.Sub)
			if !ok {
				return nil, false
			}
			for _, s := range e.Sub {
				if s.Op == OAnd || s.Op == OTrue || s.Op == OFalse {
					return nil, false
				}
			}
			res = append(res, sub...)
		default:
			return nil, false
		}
	}
	return res, true
}

// miniSat is the reference DPLL solver (two watched literals are not needed at this size).
type miniSat struct {
	n       int
	clauses [][]int
	occ     [][]int // literal -> clauses containing it
	val     []int8  // -1 false, 0 unassigned, 1 true, by variable
	trail   []int
}

func newMiniSat(n int, clauses [][]int) *miniSat {
	s := &miniSat{n: n, clauses: clauses, occ: make([][]int, 2*n), val: make([]int8, n)}
	for i, c := range clauses {
		for _, l := range c {
			s.occ[l] = append(s.occ[l], i)
		}
	}
	return s
}

func (s *miniSat) lv(l int) int8 {
	v := s.val[l>>1]
	if l&1 == 1 {
		return -v
	}
	return v
}

func (s *miniSat) assign(l int) bool {
	switch s.lv(l) {
	case 1:
		return true
	case -1:
		return false
	}
	start := len(s.trail)
	s.push(l)
	for q := start; q < len(s.trail); q++ {
		fl := s.trail[q] ^ 1
		for _, ci := range s.occ[fl] {
			unit, cnt, sat := -1, 0, false
			for _, x := range s.clauses[ci] {
				v := s.lv(x)
				if v == 1 {
					sat = true
					break
				}
				if v == 0 && x != unit {
					unit = x
					cnt++
					if cnt > 1 {
						break
					}
				}
			}
			if sat || cnt > 1 {
				continue
			}
			if cnt == 0 {
				return false
			}
			s.push(unit)
		}
	}
	return true
}

func (s *miniSat) push(l int) {
	if l&1 == 1 {
		s.val[l>>1] = -1
	} else {
		s.val[l>>1] = 1
	}
	s.trail = append(s.trail, l)
}

func (s *miniSat) undo(k int) {
	for len(s.trail) > k {
		l := s.trail[len(s.trail)-1]
		s.val[l>>1] = 0
		s.trail = s.trail[:len(s.trail)-1]
	}
}

func (s *miniSat) solve(assume []int) bool {
	defer s.undo(0)
	for _, c := range s.clauses {
		if len(c) == 0 {
			return false
		}
	}
	for _, c := range s.clauses {
		same := true
		for _, l := range c {
			if l != c[0] {
				same = false
			}
		}
		if same && !s.assign(c[0]) {
			return false
		}
	}
	for _, l := range assume {
		if !s.assign(l) {
			return false
		}
	}
	return s.search()
}

func (s *miniSat) search() bool {
	// pick an unassigned variable of a shortest unsatisfied clause
	best, bl := -1, 1<<30
	for _, c := range s.clauses {
		sat, cnt, u := false, 0, -1
		for _, l := range c {
			switch s.lv(l) {
			case 1:
				sat = true
			case 0:
				cnt++
				u = l
			}
			if sat {
				break
			}
		}
		if !sat && cnt < bl {
			bl, best = cnt, u
			if cnt <= 2 {
				break
			}
		}
	}
	if best < 0 {
		return true
	}
	k := len(s.trail)
	for _, l := range []int{best, best ^ 1} {
		if s.assign(l) && s.search() {
			return true
		}
		s.undo(k)
	}
	return false
}

// ------------------------------------------------------------ projection of arbitrary formulas

type tseitin struct {
	next int
	cls  [][]int
}

func (t *tseitin) fresh() int { t.next++; return t.next - 1 }

// lit returns a literal equivalent to the term (constraints are not supported here).
func (t *tseitin) lit(e *E) int {
	switch e.Op {
	case OTrue, OFalse:
		v := t.fresh()
		if e.Op == OTrue {
			t.cls = append(t.cls, []int{2 * v})
		} else {
			t.cls = append(t.cls, []int{2*v + 1})
		}
		return 2 * v
	case OLit:
		return e.Lit
	case ONot:
		return t.lit(e.Sub[0]) ^ 1
	case OImpl:
		return t.lit(eOr(eNot(e.Sub[0]), e.Sub[1]))
	case OEquiv:
		a, b := t.lit(e.Sub[0]), t.lit(e.Sub[1])
		x := 2 * t.fresh()
		t.cls = append(t.cls, []int{x ^ 1, a ^ 1, b}, []int{x ^ 1, a, b ^ 1}, []int{x, a, b}, []int{x, a ^ 1, b ^ 1})
		return x
	case OAnd, OOr:
		flip := 0
		if e.Op == OOr {
			flip = 1
		}
		// x <-> and(l_i) on flipped literals
		ls := make([]int, len(e.Sub))
		for i, s := range e.Sub {
			ls[i] = t.lit(s) ^ flip
		}
		x := 2 * t.fresh()
		long := []int{x}
		for _, l := range ls {
			t.cls = append(t.cls, []int{x ^ 1, l})
			long = append(long, l^1)
		}
		t.cls = append(t.cls, long)
		return x ^ flip
	}
	panic(failure{"unexpected constraint in a result without constraints"})
}

func (t *tseitin) assert(e *E) {
	switch e.Op {
	case OTrue:
	case OAnd:
		for _, s := range e.Sub {
			t.assert(s)
		}
	case OOr:
		cl := []int{}
		for _, s := range e.Sub {
			cl = append(cl, t.lit(s))
		}
		t.cls = append(t.cls, cl)
	default:
		t.cls = append(t.cls, []int{t.lit(e)})
	}
}

// projAny is the projection of a conjunction of arbitrary formulas (without constraints)
// to the first n variables.
func projAny(c *C, fac f.Factory, fms []f.Formula, n int) TT {
	r := newReader(fac, n)
	var terms []*E
	cons := false
	for _, fm := range fms {
		e := r.term(fm)
		cons = cons || e.hasConstraint()
		terms = append(terms, e)
	}
	if r.n <= 10 || cons {
		if r.n > 16 {
			c.Failf("too many variables in a result with constraints: %s", sprintAll(fac, fms))
		}
		return ttOfE(eAnd(terms...), r.n).project(n)
	}
	t := &tseitin{next: r.n}
	for _, e := range terms {
		t.assert(e)
	}
	return projClauses(t.cls, n, t.next)
}
