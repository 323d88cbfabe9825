package main

import (
	"fmt"
	"math/bits"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/sat"
)

// Native at-most constraints with several conflicts per call: circulant families of at-most constraints with clauses added in between and
// every assumption over three variables solved after each step, so that what was learnt from the constraints is used by later calls.
func init() {
	extra["P11"] = append2(extra["P11"], func(t Tier) []Domain {
		const n = 9
		type fam struct{ d, r int }
		var offs [][]int
		for k := 3; k <= 5; k++ {
			offs = append(offs, offsets(n, k)...)
		}
		ps := patterns(n, 3)
		lls := lowLevelConfigs()
		reps := t.pick(1, 16)
		N := len(offs) * 2 * len(ps) * reps
		return []Domain{strided(Domain{"native-at-most-queries", "every circulant family of at-most-1 and at-most-2 constraints of length 3 to 5 over 9 variables (some left out), every circulant pattern of ternary clauses and a second one (rotating), both incomplete; clauses added in three steps, after each of them and between a save and a load all 8 assumptions over 3 variables; native at-most clauses, other options rotate; at the end models as assumptions", N, func(c *C, i int) {
			m := mixed(i, len(ps), len(offs), 2, reps)
			d, r := offs[m[1]], 1+m[2]
			q := (m[0]*37 + m[1]*11 + m[2]*5 + m[3]*13) % len(ps)
			cfg := sat.DefaultConfig().UseAtMost(true).ClauseMin([]sat.ClauseMinimization{sat.ClauseMinDeep, sat.ClauseMinBasic, sat.ClauseMinDeep, sat.ClauseMinNone}[(m[0]+m[1]+m[3])%4]).InitPhase((m[0]/2+m[1]+m[3]/4)%2 == 0)
			if (m[0]+m[1])%3 != 0 {
				cfg = withLL(cfg, lls[(m[0]/4+m[1])%len(lls)]())
			}
			c.Key("at most %d of %v, %v, %v", r, d, ps[m[0]], ps[q])
			fac := f.NewFactory()
			s := sat.NewSolver(fac, cfg)
			tt := newTT(n)
			for w := range tt.w {
				tt.w[w] = ^uint64(0)
			}
			keep := func(ok func(a uint64) bool) {
				for w := range tt.w {
					for x := tt.w[w]; x != 0; x &= x - 1 {
						if j := bits.TrailingZeros64(x); !ok(uint64(w)<<6 | uint64(j)) {
							tt.w[w] &^= 1 << uint(j)
						}
					}
				}
			}
			for j := 0; j < 4+(m[0]+m[1])%4; j++ {
				mask, vs := uint64(0), make([]int, len(d))
				for x, o := range d {
					vs[x] = (j*2 + o) % n
					mask |= 1 << uint(vs[x])
				}
				s.Add(fac.CC(f.LE, uint32(r), varsOf(fac, vs)...))
				keep(func(a uint64) bool { return bits.OnesCount64(a&mask) <= r })
			}
			what := func() string { return fmt.Sprint("at most ", r, " of ", d, ", ", ps[m[0]], ", ", ps[q]) }
			ask := func(v int) {
				for k := 0; k < 8; k++ {
					lits, fix, val := make([]f.Literal, 3), uint64(0), uint64(0)
					for x := range lits {
						y := (v + x*(2+v%2)) % n
						lits[x] = mkLit(fac, 2*y+1-k>>uint(x)&1)
						fix |= 1 << uint(y)
						val |= uint64(k>>uint(x)&1) << uint(y)
					}
					want := false
					for w := range tt.w {
						for x := tt.w[w]; x != 0 && !want; x &= x - 1 {
							want = (uint64(w)<<6|uint64(bits.TrailingZeros64(x)))&fix == val
						}
					}
					c.Step()
					if got := s.Call(sat.WithAssumptions(lits)).Sat(); got != want {
						c.Failf("%s: with the assumptions %s satisfiable=%v, must be %v", what(), litsString(fac, lits), got, want)
					}
				}
			}
			add := func(p pattern, from, to int) {
				cls := p.clauses(n)[from:to]
				for _, x := range cls {
					s.Add(fac.Clause(mkLits(fac, x)...))
				}
				x := ttOfClauses(cls, n)
				for w := range tt.w {
					tt.w[w] &= x.w[w]
				}
			}
			ask(i % n)
			add(ps[m[0]], 0, 6)
			ask((i + 1) % n)
			save, old := s.SaveState(), append([]uint64{}, tt.w...)
			add(ps[q], 0, 7)
			ask((i + 2) % n)
			if i%3 == 0 {
				c.Assert(s.LoadState(save) == nil, "state not loaded")
				copy(tt.w, old)
			}
			add(ps[m[0]], 6, 8)
			ask((i + 4) % n)
			c.State(tt.hash())
			c.Outcome(fmt.Sprintf("models < %d", 1<<uint(bits.Len(uint(tt.count())))))
			checkLearnt(c, fac, s, tt, 24, what)
		}}, t.pick(3, 1))}
	})
}

// instNative: circulant families of at-most constraints and two incomplete circulant families of ternary clauses over 9 variables
func instNative(stride int) inst {
	const n = 9
	var offs [][]int
	for k := 3; k <= 5; k++ {
		offs = append(offs, offsets(n, k)...)
	}
	ps := patterns(n, 3)
	N := len(offs) * 2 * len(ps)
	return inst{"native-at-most-9", fmt.Sprintf("circulant families of at-most constraints of length 3 to 5 with two incomplete circulant families of ternary clauses over 9 variables (every %d-th of %d)", stride, N), n, (N + stride - 1) / stride, func(i int) []*E {
		i *= stride
		m := mixed(i, len(ps), len(offs), 2)
		d, r := offs[m[1]], 1+m[2]
		q := (m[0]*37 + m[1]*11 + m[2]*5) % len(ps)
		var es []*E
		for j := 0; j < 4+(m[0]+m[1])%4; j++ {
			vs := make([]int, len(d))
			for x, o := range d {
				vs[x] = (j*2 + o) % n
			}
			es = append(es, eCC(f.LE, r, vs...))
		}
		es = append(es, clausesE(ps[m[0]].clauses(n)[:8])...)
		return append(es, clausesE(ps[q].clauses(n)[:5+i%3])...)
	}}
}
