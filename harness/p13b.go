package main

import (
	"fmt"
	"time"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/normalform"
)

// ---- P13: the handlers of the library, with every bound, on every computation

// libHandler is a handler of the library with its documented meaning: after how many events of a kind it stops.
type libHandler struct {
	name  string
	mk    func() handler.Handler
	limit func() func(e string) bool // told every event, it says whether the computation is to be stopped
}

func countLimits(start string, limits map[string]int, atLimit bool) func() func(e string) bool {
	return func() func(e string) bool {
		n := map[string]int{}
		return func(e string) bool {
			if e == start {
				n = map[string]int{}
			}
			l, ok := limits[e]
			n[e]++
			return ok && l >= 0 && (n[e] > l || atLimit && n[e] == l)
		}
	}
}

func libHandlers(t Tier) (r []libHandler) {
	for b := 1; b <= t.pick(12, 40); b++ {
		b := b
		r = append(r, libHandler{fmt.Sprintf("at most %d BDD nodes", b), func() handler.Handler { return bdd.HandlerWithNodes(b) },
			countLimits("BDD Computation Started", map[string]int{"BDD New Ref Added": b}, true)})
	}
	for d := -1; d <= t.pick(6, 16); d++ {
		for k := -1; k <= t.pick(4, 16); k++ {
			d, k := d, k
			r = append(r, libHandler{fmt.Sprintf("at most %d distributions and %d clauses", d, k), func() handler.Handler { return normalform.NewFactorizationHandler(d, k) },
				countLimits("Factorization Started", map[string]int{"Distribution Performed": d, "Factorization Created Clause": k}, false)})
		}
	}
	always := func(v bool) func() func(e string) bool {
		return func() func(e string) bool { return func(string) bool { return v } }
	}
	return append(r,
		libHandler{"time limit in the past", func() handler.Handler { return handler.NewTimeoutWithEnd(time.Now().Add(-time.Hour)) }, always(true)},
		libHandler{"time limit in the future", func() handler.Handler { return handler.NewTimeoutWithEnd(time.Now().Add(24 * time.Hour)) }, always(false)},
		libHandler{"negative duration", func() handler.Handler { return handler.NewTimeoutWithDuration(-time.Hour) }, always(true)},
		libHandler{"long duration", func() handler.Handler { return handler.NewTimeoutWithDuration(24 * time.Hour) }, always(false)},
		libHandler{"no limit", func() handler.Handler { return handler.NopHandler }, always(false)})
}

// watched compares a handler of the library with its meaning at every event.
type watched struct {
	c       *C
	name    string
	h       handler.Handler
	stop    func(e string) bool
	n       int
	stopped bool
}

func (w *watched) ShouldResume(e event.Event) bool {
	w.n++
	got := w.h.ShouldResume(e)
	if w.stopped {
		return got // what it answers after having stopped is not specified
	}
	if want := !w.stop(e.EventType()); got != want {
		w.c.Failf("%s: at event %d (%s) the handler resumes=%v, must be %v", w.name, w.n, e.EventType(), got, want)
	}
	w.stopped = !got
	return got
}

func init() {
	extra["P13"] = append2(extra["P13"], func(t Tier) []Domain {
		var comps []comp
		for _, cp := range p13Comps(t) {
			comps = append(comps, cp)
		}
		inputs := cancelInputs()
		hs := libHandlers(t)
		return []Domain{{Name: "bounded-handlers",
			Bound: fmt.Sprintf("%d computations on those of %d formulas they accept, each under %d handlers of the library (node, distribution, clause and time limits)", len(comps), len(inputs), len(hs)),
			N:     len(comps) * len(inputs), Run: func(c *C, i int) {
				cp, e := comps[i%len(comps)], inputs[i/len(comps)]
				if !cp.accepts(e) {
					return
				}
				c.Key("%s on %s", cp.name, e)
				c.StateS(cp.name + e.String())
				base := &cancelAt{k: -1, rec: true}
				fac := f.NewFactory()
				want, _ := cp.run(c, fac, mk(fac, e), base)
				kinds := map[string]bool{}
				for _, x := range base.events {
					kinds[x] = true
				}
				for _, h := range hs {
					// a limit on events which do not occur acts like no limit: one such handler suffices
					if h.name[0] == 'a' && h.name != hs[0].name && !kinds["BDD New Ref Added"] && !kinds["Distribution Performed"] && !kinds["Factorization Created Clause"] {
						continue
					}
					fac := f.NewFactory()
					fm := mk(fac, e)
					w := &watched{c: c, name: fmt.Sprintf("%s on %s, %s", cp.name, e, h.name), h: h.mk(), stop: h.limit()}
					got, done := cp.run(c, fac, fm, w)
					c.Step()
					if done {
						c.Assert(got == want, "%s: presented as completed with result %s, want %s", w.name, got, want)
						c.Outcome("completed")
					} else {
						c.Assert(w.stopped, "%s: reports a cancelation, but the limit was not reached", w.name)
						c.Outcome("canceled by the limit")
					}
				}
			}}}
	})
}

// backpack is the user data of extended propositions.
type backpack struct{ n int }

func (b backpack) String() string { return fmt.Sprint("pack ", b.n) }

// mkProp makes a standard or an extended proposition.
func mkProp(fm f.Formula, i int) f.Proposition {
	if i%2 == 1 {
		return f.NewExtendedProposition(fm, backpack{i})
	}
	return f.NewStandardProposition(fm, fmt.Sprint("p", i))
}
