package main

import (
	"fmt"
	"math/big"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
)

// ---- P20: many variables which no formula mentions, so that the numbers of models exceed every machine integer

func init() {
	extra["P20"] = append2(extra["P20"], func(t Tier) []Domain {
		free := []int{0, 1, 5, 30, 31, 32, 33, 52, 53, 54, 61, 62, 63, 64, 65, 66, 70, 100, 128}
		limits := []int{0, 1, 2, 3, 4, 5, 1 << 31, 1<<62 + 1, 1<<63 - 1}
		fms := []*E{eFalse, eTrue, eVar(0), cl(0, 2), cl(1, 3), eImpl(eVar(0), eVar(1)), eEquiv(eVar(0), eVar(1)), eAnd(eVar(0), eLit(3)), cl(0, 2, 4), cl(1, 2, 5)}
		return []Domain{{Name: "unmentioned-variables",
			Bound: fmt.Sprintf("%d formulas over up to 3 variables and %v further variables, limits %v on the number of models", len(fms), free, limits),
			N:     len(fms) * len(free) * len(limits), Run: func(c *C, i int) {
				e, nf, limit := fms[i%len(fms)], free[i/len(fms)%len(free)], limits[i/len(fms)/len(free)]
				n := 3
				fac := f.NewFactory()
				vs := mkVars(fac, n+nf)
				num := big.NewInt(0)
				for a := uint64(0); a < 8; a++ {
					if e.Eval(a) {
						num.Add(num, big.NewInt(1))
					}
				}
				num.Lsh(num, uint(nf))
				fm := mk(fac, e)
				what := fmt.Sprintf("%s over its variables and %d others, limit %d", e, nf, limit)
				c.Key("%s", what)
				c.StateS(what)
				reached := num.Cmp(big.NewInt(int64(limit))) >= 0
				conf := func() *iter.Config {
					cfg := iter.DefaultConfig()
					if limit > 0 {
						cfg.Handler = iter.HandlerWithLimit(limit)
					}
					return cfg
				}
				c.Step()
				got, st := count.OnFormulaWithConfig(fac, fm, vs, conf())
				if limit == 0 {
					c.Assert(st.Success && got.Cmp(num) == 0, "%s: counting yields %s, must be %s", what, got, num)
					c.Assert(count.OnFormula(fac, fm, vs).Cmp(num) == 0, "%s: counting again yields another number", what)
				} else {
					c.Assert(st.Success == !reached, "%s: counting %s models ends with success=%v", what, num, st.Success)
					c.Assert(got.Cmp(num) <= 0 && (!st.Success || got.Cmp(num) == 0), "%s: counting yields %s, there are %s", what, got, num)
				}
				if nf <= 70 {
					c.Step()
					b, st := enum.ToBddOnFormulaWithConfig(fac, fm, vs, conf())
					if limit == 0 {
						c.Assert(st.Success && b.ModelCount().Cmp(num) == 0, "%s: the BDD of the models has %s models, must be %s", what, b.ModelCount(), num)
					} else {
						c.Assert(st.Success == !reached, "%s: enumerating %s models to a BDD ends with success=%v", what, num, st.Success)
					}
				}
				if nf <= 5 || limit > 0 && limit <= 5 && nf <= 7 {
					ms, st := enum.OnFormulaWithConfig(fac, fm, vs, conf())
					c.Assert(limit == 0 == st.Success || limit > 0 && st.Success == !reached, "%s: enumeration ends with success=%v", what, st.Success)
					c.Assert(!st.Success || num.Cmp(big.NewInt(int64(len(ms)))) == 0, "%s: %d models enumerated, there are %s", what, len(ms), num)
				}
			}}}
	})
}
