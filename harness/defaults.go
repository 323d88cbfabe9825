package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/configuration"
	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/randomizer"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
)

// Configurations belong to whoever made them: changing a default configuration, or giving a factory another one, affects
// nothing that was not given this configuration.

type defaultCtor struct {
	name string
	make func() any // a pointer to a struct
}

func defaultCtors() []defaultCtor {
	viaSort := func(x configuration.Config) func() any { return func() any { return x.DefaultConfig() } }
	return []defaultCtor{
		{"iter.DefaultConfig", func() any { return iter.DefaultConfig() }},
		{"iter.Config.DefaultConfig", viaSort(iter.DefaultConfig())},
		{"iter.DefaultStrategy", func() any { x := iter.DefaultStrategy(); return &x }},
		{"sat.DefaultConfig", func() any { return sat.DefaultConfig() }},
		{"sat.Config.DefaultConfig", viaSort(sat.DefaultConfig())},
		{"sat.DefaultLowLevelConfig", func() any { return sat.DefaultLowLevelConfig() }},
		{"sat.DefaultConfig.LowLevelConfig", func() any { return sat.DefaultConfig().LowLevelConfig }},
		{"randomizer.DefaultConfig", func() any { return randomizer.DefaultConfig() }},
		{"randomizer.Config.DefaultConfig", viaSort(randomizer.DefaultConfig())},
		{"formula.DefaultSymbols", func() any { return f.DefaultSymbols() }},
		{"factory symbols", func() any { return f.NewFactory().Symbols() }},
		{"simplification.DefaultConfig", func() any { return simplification.DefaultConfig() }},
		{"simplification.Config.DefaultConfig", viaSort(simplification.DefaultConfig())},
		{"normalform.DefaultCNFConfig", func() any { return normalform.DefaultCNFConfig() }},
		{"normalform.CNFConfig.DefaultConfig", viaSort(normalform.DefaultCNFConfig())},
		{"encoding.DefaultConfig", func() any { return encoding.DefaultConfig() }},
		{"encoding.Config.DefaultConfig", viaSort(encoding.DefaultConfig())},
		{"maxsat.DefaultConfig", func() any { return maxsat.DefaultConfig() }},
		{"maxsat.Config.DefaultConfig", viaSort(maxsat.DefaultConfig())},
		{"formula.DefaultFormulaGraphicalGenerator", func() any { return f.DefaultFormulaGraphicalGenerator() }},
		{"bdd.DefaultGenerator", func() any { return bdd.DefaultGenerator() }},
		{"bdd.DefaultGenerator.Generator", func() any { return bdd.DefaultGenerator().Generator }},
	}
}

// settings prints the exported settings of a configuration (functions only as set or unset), following pointers to structs.
func settings(x any) string {
	var sb strings.Builder
	var walk func(name string, v reflect.Value, depth int)
	walk = func(name string, v reflect.Value, depth int) {
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if v.IsNil() || depth > 3 {
				fmt.Fprintf(&sb, "%s=nil:%v ", name, v.IsNil())
				return
			}
			walk(name, v.Elem(), depth+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(name+"."+v.Type().Field(i).Name, v.Field(i), depth+1)
				}
			}
		case reflect.Func:
			fmt.Fprintf(&sb, "%s=func:%v ", name, !v.IsNil())
		case reflect.Slice, reflect.Map:
			fmt.Fprintf(&sb, "%s=%d entries ", name, v.Len())
		default:
			fmt.Fprintf(&sb, "%s=%v ", name, v.Interface())
		}
	}
	walk("", reflect.ValueOf(x), 0)
	return sb.String()
}

// other changes a setting to another value.
func other(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Int() == 0 {
			v.SetInt(1)
		} else {
			v.SetInt(v.Int() - 1)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(v.Uint() ^ 1)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(v.Float()/2 + 0.125)
	case reflect.String:
		v.SetString(v.String() + "x")
	case reflect.Func, reflect.Pointer, reflect.Interface, reflect.Slice, reflect.Map:
		if v.IsNil() {
			return false
		}
		v.Set(reflect.Zero(v.Type()))
	default:
		return false
	}
	return true
}

type ctorField struct {
	ctor  defaultCtor
	field int
}

// variants of configurations for the factory
func configVariants() []func() configuration.Config {
	var r []func() configuration.Config
	add := func(mk func() configuration.Config) { r = append(r, mk) }
	for _, alg := range []normalform.CNFAlgorithm{normalform.CNFFactorization, normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum, normalform.CNFAdvanced} {
		for _, b := range []int{0, 12} {
			add(func() configuration.Config {
				x := normalform.DefaultCNFConfig()
				x.Algorithm, x.AtomBoundary = alg, b
				return x
			})
		}
	}
	for _, m := range []sat.CNFMethod{sat.CNFFactory, sat.CNFPG, sat.CNFFullPG} {
		for k := 0; k < 4; k++ {
			add(func() configuration.Config {
				return sat.DefaultConfig().CNF(m).Proofs(k&1 == 1).UseAtMost(k&1 == 0).InitPhase(k&2 == 2).ClauseMin([]sat.ClauseMinimization{sat.ClauseMinNone, sat.ClauseMinBasic}[k>>1])
			})
		}
	}
	for k := 0; k < 4; k++ {
		add(func() configuration.Config {
			x := encoding.DefaultConfig()
			x.AMOEncoder = []encoding.AMOEncoder{encoding.AMOPure, encoding.AMOLadder, encoding.AMOBinary, encoding.AMOCommander}[k]
			x.AMKEncoder = []encoding.AMKEncoder{encoding.AMKTotalizer, encoding.AMKModularTotalizer, encoding.AMKCardinalityNetwork, encoding.AMKTotalizer}[k]
			x.ALKEncoder = []encoding.ALKEncoder{encoding.ALKTotalizer, encoding.ALKModularTotalizer, encoding.ALKCardinalityNetwork, encoding.ALKTotalizer}[k]
			x.PBCEncoder = []encoding.PBCEncoder{encoding.PBCSWC, encoding.PBCBinaryMerge, encoding.PBCAdderNetworks, encoding.PBCBinaryMerge}[k]
			x.BinaryMergeUseGAC = k&1 == 0
			return x
		})
	}
	for k := 0; k < 4; k++ {
		add(func() configuration.Config {
			x := simplification.DefaultConfig()
			x.RestrictBackbone, x.FactorOut, x.UseRatingFunction = k == 0, k == 1, k == 2
			if k == 3 {
				x.RatingFunction = func(fac f.Factory, fm f.Formula) float64 { return 0 }
			}
			return x
		})
	}
	add(func() configuration.Config {
		x := maxsat.DefaultConfig()
		x.CNFMethod, x.Symmetry, x.BMO = sat.CNFPG, false, false
		return x
	})
	add(func() configuration.Config {
		x := iter.DefaultConfig()
		x.Strategy = iter.NewBasicStrategy(iter.DefaultLeastCommonVarProvider(), 3)
		return x
	})
	return r
}

func init() {
	extra["P28"] = append2(extra["P28"], func(t Tier) []Domain {
		var cf []ctorField
		for _, ct := range defaultCtors() {
			v := reflect.ValueOf(ct.make()).Elem()
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					cf = append(cf, ctorField{ct, i})
				}
			}
		}
		vs := configVariants()
		comps := p13Comps(t)
		all := cancelInputs()
		var inputs []*E
		for _, i := range []int{8, 12, 17, 21, 24, 19, 9, 15, 13, 6}[:t.pick(4, 10)] {
			inputs = append(inputs, all[i])
		}
		return []Domain{
			{"default-configurations", fmt.Sprintf("%d constructors of default configurations and all their exported settings: the setting is changed on one, the next ones keep it", len(defaultCtors())), len(cf), func(c *C, i int) {
				x := cf[i]
				first := x.ctor.make()
				want := settings(first)
				v := reflect.ValueOf(first).Elem()
				c.Key("%s with another %s", x.ctor.name, v.Type().Field(x.field).Name)
				old := reflect.New(v.Field(x.field).Type()).Elem()
				old.Set(v.Field(x.field))
				if !other(v.Field(x.field)) {
					c.Outcome("no other value")
					return
				}
				c.Step()
				got := settings(x.ctor.make())
				v.Field(x.field).Set(old)
				c.Assert(got == want, "a new default has the settings %s instead of %s", got, want)
				c.Outcome("unchanged")
			}},
			{"configured-neighbours", fmt.Sprintf("%d configurations, given to one factory, × %d computations × %d inputs: another factory computes the same before and after the computation on the configured one, which leaves the configuration as it is", len(vs), len(comps), len(inputs)), len(vs) * len(comps) * len(inputs), func(c *C, i int) {
				m := mixed(i, len(vs), len(comps), len(inputs))
				x := task{comps[m[1]], inputs[m[2]]}
				if !x.cp.accepts(x.e) {
					return
				}
				cfg := vs[m[0]]()
				c.Key("%s, configuration %d (%T)", x, m[0], cfg)
				want, _ := x.alone(c)
				fac := f.NewFactory()
				c.Assert(fac.PutConfiguration(cfg) == nil, "configuration not accepted")
				before := settings(cfg)
				x.cp.run(c, fac, mk(fac, x.e), &pausing{})
				c.Assert(settings(cfg) == before, "the configuration has the settings %s instead of %s now", settings(cfg), before)
				got, _ := x.alone(c)
				c.Assert(got == want, "on another factory the result is %s instead of %s now", got, want)
				for _, s := range []configuration.Sort{configuration.CNF, configuration.Sat, configuration.MaxSat, configuration.Encoder, configuration.AdvancedSimplifier, configuration.ModelIteration, configuration.FormulaRandomizer} {
					_, ok := f.NewFactory().ConfigurationFor(s)
					c.Assert(!ok, "a new factory has a configuration of sort %v", s)
				}
				c.Step()
				c.Outcome(fmt.Sprintf("%T", cfg))
			}},
		}
	})
}
