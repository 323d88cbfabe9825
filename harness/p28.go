package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/encoding"
	"github.com/booleworks/logicng-go/event"
	"github.com/booleworks/logicng-go/explanation/mus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/graphical"
	lngio "github.com/booleworks/logicng-go/io"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/parser"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/randomizer"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
	"github.com/booleworks/logicng-go/transformation"
)

// ------------------------------------------------------------ a controlled scheduler for two or more computations

// strand is a computation that can be suspended at the points where the library calls back.
type strand struct {
	wake, back chan bool // back delivers true when the computation has ended
	started    bool
	ended      bool
	body       func(s *strand)
	msg        string
}

func newStrand(body func(s *strand)) *strand {
	return &strand{wake: make(chan bool), back: make(chan bool), body: body}
}

// pause hands control back to the scheduler (called by the computation).
func (s *strand) pause() {
	s.back <- false
	<-s.wake
}

// resume runs the computation until it pauses or ends; it says whether it has ended.
func (s *strand) resume() bool {
	if s.ended {
		return true
	}
	if !s.started {
		s.started = true
		go func() {
			defer func() {
				if r := recover(); r != nil {
					if fl, ok := r.(failure); ok {
						s.msg = fl.msg
					} else {
						s.msg = fmt.Sprintf("panic: %v", r)
					}
				}
				s.back <- true
			}()
			<-s.wake
			s.body(s)
		}()
	}
	s.wake <- true
	s.ended = <-s.back
	return s.ended
}

// pausing is a handler that hands over control at the given events (nil: at every event).
type pausing struct {
	n  int
	at map[int]bool
	s  *strand
}

func (h *pausing) ShouldResume(event.Event) bool {
	i := h.n
	h.n++
	if h.s != nil && (h.at == nil || h.at[i]) {
		h.s.pause()
	}
	return true
}

// task is a computation on a formula, ready to run.
type task struct {
	cp comp
	e  *E
}

func (t task) String() string { return t.cp.name + " on " + t.e.String() }

func (t task) alone(c *C) (string, int) {
	fac := f.NewFactory()
	h := &pausing{}
	res, ok := t.cp.run(c, fac, mk(fac, t.e), h)
	if !ok {
		res = "canceled"
	}
	return res, h.n
}

func (t task) strand(c *C, fac f.Factory, at map[int]bool, res *string) *strand {
	return newStrand(func(s *strand) {
		if fac == nil {
			fac = f.NewFactory()
		}
		r, ok := t.cp.run(c, fac, mk(fac, t.e), &pausing{at: at, s: s})
		if !ok {
			r = "canceled"
		}
		*res = r
	})
}

// interleave runs two tasks: the first up to event i, the second up to event j, the first to its end, the second to its end.
// i or j < 0: the task is not suspended.
func interleave(c *C, x, y task, i, j int, fx, fy f.Factory, wantX, wantY string) {
	c1, c2 := newC(c.prop, nil), newC(c.prop, nil)
	var rx, ry string
	at := func(k int) map[int]bool { return map[int]bool{k: true} }
	a, b := x.strand(c1, fx, at(i), &rx), y.strand(c2, fy, at(j), &ry)
	a.resume()
	b.resume()
	a.resume()
	b.resume()
	c.Step()
	c.steps += c1.steps + c2.steps
	where := func() string {
		return fmt.Sprintf("%s suspended at event %d, %s run to event %d, the first resumed, the second resumed", x, i, y, j)
	}
	c.Assert(a.ended && b.ended, "%s: a computation does not end", where())
	if a.msg != "" {
		c.Failf("%s: %s: %s", where(), x, a.msg)
	}
	if b.msg != "" {
		c.Failf("%s: %s: %s", where(), y, b.msg)
	}
	c.Assert(rx == wantX, "%s: %s yields %s, alone it yields %s", where(), x, rx, wantX)
	c.Assert(ry == wantY, "%s: %s yields %s, alone it yields %s", where(), y, ry, wantY)
}

// ------------------------------------------------------------ step programs

// prog is a program of several steps on its own objects; every step returns what it observed.
type prog struct {
	name  string
	steps int
	mk    func(c *C) []func() string
}

func text(c *C, text string, fac f.Factory) f.Formula {
	fm, err := parser.New(fac).Parse(text)
	if err != nil {
		c.Failf("parsing %s: %v", text, err)
	}
	return fm
}

func varNames(fac f.Factory, fms ...f.Formula) string {
	var r []string
	for _, v := range f.Variables(fac, fms...).Content() {
		n, _ := fac.VarName(v)
		r = append(r, n)
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func progs() []prog {
	satProg := func(name string, cfg func() *sat.Config, k int) prog {
		return prog{name, 5, func(c *C) []func() string {
			fac := f.NewFactory()
			s := sat.NewSolver(fac, cfg())
			var st *sat.SolverState
			call := func() string {
				res := s.Call(sat.WithModel(mkVars(fac, compVars)))
				if !res.Sat() {
					return "unsat"
				}
				pos, _ := modelLits(c, fac, res.Model(), compVars)
				return fmt.Sprint("sat", pos&3)
			}
			return []func() string{
				func() string {
					s.Add(text(c, "(a | b) & (~a | c) & (b => a)", fac))
					s.Add(fac.AMO(mkVar(fac, 1), mkVar(fac, 2), mkVar(fac, 3)))
					st = s.SaveState()
					return call()
				},
				func() string {
					s.Add(text(c, "(a => b & d) | ~c", fac))
					if k == 0 {
						s.Add(fac.PBC(f.GE, 3, []f.Literal{fac.Lit("a", true), fac.Lit("b", false), fac.Lit("d", true)}, []int{2, 1, 2}))
					}
					return call()
				},
				func() string {
					res := s.Call(sat.WithAssumptions([]f.Literal{fac.Lit("c", k == 0)}))
					return fmt.Sprint(res.Sat())
				},
				func() string {
					if err := s.LoadState(st); err != nil {
						return err.Error()
					}
					return call()
				},
				func() string {
					bb := s.ComputeBackbone(fac, mkVars(fac, compVars))
					return litsString(fac, bb.CompleteBackbone(fac))
				},
			}
		}}
	}
	maxProg := func(name string, mkS func(fac f.Factory, cfg ...*maxsat.Config) *maxsat.Solver, w int) prog {
		return prog{name, 4, func(c *C) []func() string {
			fac := f.NewFactory()
			s := mkS(fac)
			var st *maxsat.SolverState
			solve := func() string {
				r := s.Solve()
				if !r.Satisfiable {
					return "unsat"
				}
				return fmt.Sprint(r.Optimum)
			}
			return []func() string{
				func() string {
					s.AddHardFormula(text(c, "(a | b) & (b | c) & (a | c)", fac))
					s.AddSoftFormula(fac.Literal("a", false), 1*w)
					s.AddSoftFormula(fac.Literal("b", false), 1+w)
					return "ok"
				},
				func() string {
					s.AddSoftFormula(text(c, "~c & (d | ~a)", fac), 1)
					st = s.SaveState()
					return solve()
				},
				func() string {
					s.AddHardFormula(text(c, "d => a & b", fac))
					s.AddSoftFormula(fac.Variable("d"), 1+2*w)
					return solve()
				},
				func() string {
					if err := s.LoadState(st); err != nil {
						return err.Error()
					}
					return solve()
				},
			}
		}}
	}
	return []prog{
		satProg("sat", sat.DefaultConfig, 0),
		satProg("sat-atmost", func() *sat.Config { return sat.DefaultConfig().UseAtMost(true).CNF(sat.CNFFullPG) }, 1),
		maxProg("maxsat-oll", maxsat.OLL, 1),
		maxProg("maxsat-incwbo", maxsat.IncWBO, 2),
		{"core", 4, func(c *C) []func() string {
			fac := f.NewFactory()
			s := sat.NewSolver(fac, sat.DefaultConfig().Proofs(true))
			add := func(t string) { s.AddProposition(f.NewStandardProposition(text(c, t, fac), t)) }
			core := func(p *sat.CallParams) string {
				res := s.Call(p.WithCore())
				if res.Sat() {
					return "sat"
				}
				t := ttConst(compVars, true)
				for _, q := range res.UnsatCore().Propositions {
					t = t.and(ttOfE(readBack(c, fac, q.Formula()), compVars))
				}
				return fmt.Sprint("unsat ", t.isFalse())
			}
			return []func() string{
				func() string { add("a | b"); add("a => c"); add("b => c"); return core(sat.Params()) },
				func() string { add("d | ~b"); return core(sat.Params().Literal(fac.Lit("c", false))) },
				func() string { add("c => ~d"); add("~a"); return core(sat.Params()) },
				func() string { add("c | d"); return core(sat.Params()) },
			}
		}},
		{"bdd", 5, func(c *C) []func() string {
			fac := f.NewFactory()
			k := bdd.NewKernelWithOrdering(fac, mkVars(fac, compVars), 10, 10)
			var b1, b2 *bdd.BDD
			return []func() string{
				func() string {
					b1 = bdd.CompileWithKernel(fac, text(c, "a & c | b & d", fac), k)
					return bddTT(c, b1, 4).String()
				},
				func() string {
					b2 = bdd.CompileWithKernel(fac, text(c, "a <=> ~b & c", fac), k)
					return bddTT(c, b2, 4).String()
				},
				func() string { b1 = b1.And(b2); return bddTT(c, b1, 4).String() },
				func() string {
					k.SwapVariables(fac.Var("a"), fac.Var("d"))
					k.AddAllVariablesAsBlock()
					k.Reorder(bdd.ReorderSift)
					return bddTT(c, b1, 4).String() + bddTT(c, b2, 4).String()
				},
				func() string {
					return fmt.Sprint(b1.ModelCount(), b1.NodeCount() > 0, varNames(fac, b1.CNF()), litsString(fac, bddSupport(b1)))
				},
			}
		}},
		{"transformations", 5, func(c *C) []func() string {
			fac := f.NewFactory()
			fm := text(c, "(a => b & c) <=> (d | ~(a & b)) & (c | a & d)", fac)
			return []func() string{
				func() string { return varNames(fac, normalform.PGCNFWithBoundary(fac, fm, 0)) },
				func() string { return proj(c, fac, normalform.TseitinCNFWithBoundary(fac, fm, 0)) },
				func() string { return proj(c, fac, normalform.NNF(fac, fm)) },
				func() string { return proj(c, fac, normalform.CNF(fac, fm)) + proj(c, fac, normalform.AIG(fac, fm)) },
				func() string {
					return varNames(fac, normalform.TseitinCNFWithBoundary(fac, fm.Negate(fac), 0)) + transformation.Anonymize(fac, fm).Sprint(fac)
				},
			}
		}},
		{"encodings", 5, func(c *C) []func() string {
			fac := f.NewFactory()
			cfg := encoding.DefaultConfig()
			enc := func(cc f.Formula, with *encoding.Config) string {
				var cls []f.Formula
				var err error
				if cc.Sort() == f.SortPBC {
					cls, err = encoding.EncodePBC(fac, cc, with)
				} else {
					cls, err = encoding.EncodeCC(fac, cc, with)
				}
				if err != nil {
					return err.Error()
				}
				return varNames(fac, cls...) + " " + projAny(c, fac, cls, compVars).String()
			}
			vs := mkVars(fac, compVars)
			return []func() string{
				func() string { cfg.AMOEncoder = encoding.AMOLadder; return enc(fac.AMO(vs...), cfg) },
				func() string { cfg.AMKEncoder = encoding.AMKTotalizer; return enc(fac.CC(f.LE, 2, vs...), cfg) },
				func() string { cfg.ALKEncoder = encoding.ALKModularTotalizer; return enc(fac.CC(f.GE, 2, vs...), cfg) },
				func() string {
					return enc(fac.PBC(f.LE, 4, []f.Literal{fac.Lit("a", true), fac.Lit("b", false), fac.Lit("c", true)}, []int{2, 3, 2}), cfg)
				},
				func() string { cfg.AMOEncoder = encoding.AMOCommander; return enc(fac.AMO(vs...), cfg) },
			}
		}},
		{"enumeration", 4, func(c *C) []func() string {
			fac := f.NewFactory()
			cfg := iter.DefaultConfig()
			cfg.Strategy = iter.NewBasicStrategy(iter.NewMostCommonVarProvider(0.5, 3), 2)
			s := sat.NewSolver(fac)
			return []func() string{
				func() string { s.Add(text(c, "(a | b | c) & (~a | d)", fac)); return "ok" },
				func() string {
					ms, _ := enum.OnSolverWithConfig(s, mkVars(fac, compVars), cfg)
					return modelsString(fac, ms)
				},
				func() string { s.Add(text(c, "~(b & d)", fac)); return "ok" },
				func() string {
					ms, _ := enum.OnSolverWithConfig(s, mkVars(fac, 3), cfg)
					return modelsString(fac, ms)
				},
			}
		}},
		{"randomizer", 5, func(c *C) []func() string {
			fac := f.NewFactory()
			cfg := randomizer.DefaultConfig()
			cfg.Seed, cfg.NumVars, cfg.WeightCC, cfg.WeightPBC = 17, 4, 2, 2
			r := randomizer.New(fac, cfg)
			return []func() string{
				func() string { return r.Formula(2).Sprint(fac) },
				func() string { return r.And(2).Sprint(fac) },
				func() string { return r.PBC().Sprint(fac) + r.CC().Sprint(fac) },
				func() string { return r.Literal().Sprint(fac) + r.Or(1).Sprint(fac) },
				func() string { return r.Formula(3).Sprint(fac) },
			}
		}},
		{"dnnf", 4, func(c *C) []func() string {
			fac := f.NewFactory()
			var ds []*dnnf.DNNF
			comp := func(t string) string {
				d := dnnf.Compile(fac, text(c, t, fac))
				ds = append(ds, d)
				r := ""
				for _, d := range ds {
					r += fmt.Sprint(d.ModelCount(), proj(c, fac, d.Formula))
				}
				return r
			}
			return []func() string{
				func() string { return comp("(a | b) & (c | d)") },
				func() string { return comp("(a <=> b) & (c => d) & (a | ~d)") },
				func() string { return comp("a & b | ~c & d | ~a & c") },
				func() string { return comp("a & ~a | b & (c <=> d)") },
			}
		}},
		{"parser-printer", 5, func(c *C) []func() string {
			fac := f.NewFactory()
			p := parser.New(fac)
			parse := func(t string) string {
				fm, err := p.Parse(t)
				if err != nil {
					return "error"
				}
				return fm.Sprint(fac)
			}
			return []func() string{
				func() string { return parse("(a => b) <=> ~(c & $true | x_1)") },
				func() string { return parse("2*a + -3*~b >= 4 & (a | c)") },
				func() string { return parse("a & & b") },
				func() string {
					sy := f.DefaultSymbols()
					sy.Not, sy.And, sy.Or = "!", " && ", " || "
					fac.SetPrintSymbols(sy)
					return parse("~(a & ~b) | c & a")
				},
				func() string { return parse("a + b + c = 1 | (d <=> a)") },
			}
		}},
		{"simplifiers", 4, func(c *C) []func() string {
			fac := f.NewFactory()
			fm := text(c, "a & b & c | a & b & d | ~a & c & d | a & ~b & c & d", fac)
			return []func() string{
				func() string { return proj(c, fac, simplification.QMC(fac, fm)) },
				func() string {
					return proj(c, fac, simplification.Advanced(fac, fm))
				},
				func() string {
					r := primeimplicant.CoverMin(fac, fm, primeimplicant.CoverImplicants)
					checkPrimes(c, fac, ttOfE(readBack(c, fac, fm), compVars), compVars, r, primeimplicant.CoverImplicants)
					return fmt.Sprint(len(r.Implicants))
				},
				func() string {
					ps := []f.Proposition{}
					for i, t := range []string{"a | b", "~a", "~b | c", "~b", "d"} {
						ps = append(ps, f.NewStandardProposition(text(c, t, fac), fmt.Sprint(i)))
					}
					r, err := mus.ComputeDeletionBased(fac, &ps)
					if err != nil {
						return err.Error()
					}
					checkMus(c, fac, ps, r.Propositions)
					return fmt.Sprint(len(r.Propositions))
				},
			}
		}},
		{"graphs-and-files", 4, func(c *C) []func() string {
			fac := f.NewFactory()
			fm := text(c, "(a | ~b) & (b | c) & (d | a)", fac)
			return []func() string{
				func() string {
					return fmt.Sprint(len(graphical.WriteDotToString(f.GenerateGraphicalFormulaDAG(fac, fm, f.DefaultFormulaGraphicalGenerator()))))
				},
				func() string {
					g := graph.GenerateConstraintGraph(fac, fm)
					return fmt.Sprint(len(graph.ComputeConnectedComponents(g)), len(g.Nodes()))
				},
				func() string {
					var b bytes.Buffer
					m, err := lngio.WriteDimacsToWriter(fac, &b, fm)
					return fmt.Sprint(b.Len() > 0, len(m), err)
				},
				func() string {
					bd := bdd.Compile(fac, fm)
					return fmt.Sprint(strings.Count(graphical.WriteMermaidToString(bdd.GenerateGraphical(bd, bddGenerator(1))), "\n") > 3,
						len(graphical.WriteMermaidToString(f.GenerateGraphicalFormulaAST(fac, fm, f.DefaultFormulaGraphicalGenerator()))))
				},
			}
		}},
	}
}

func bddSupport(b *bdd.BDD) []f.Literal {
	var r []f.Literal
	for _, v := range b.Support() {
		r = append(r, v.AsLiteral())
	}
	return r
}

// soloRun returns what the program observes when it runs alone.
func (p prog) soloRun(c *C, k int) []string {
	var r []string
	for i, st := range p.mk(c) {
		if i >= k {
			break
		}
		r = append(r, st())
	}
	return r
}

// merges enumerates all merges of sequences with the given lengths.
func merges(lens []int) [][]int8 {
	var res [][]int8
	left := append([]int{}, lens...)
	var cur []int8
	var rec func()
	rec = func() {
		end := true
		for i := range left {
			if left[i] > 0 {
				end = false
				left[i]--
				cur = append(cur, int8(i))
				rec()
				cur = cur[:len(cur)-1]
				left[i]++
			}
		}
		if end {
			res = append(res, append([]int8{}, cur...))
		}
	}
	rec()
	return res
}

// mergeRun runs the programs in the given order of steps and compares every observation with the one made alone.
func mergeRun(c *C, ps []prog, order []int8, want [][]string) {
	steps := make([][]func() string, len(ps))
	for i, p := range ps {
		steps[i] = p.mk(c)
	}
	at := make([]int, len(ps))
	for _, w := range order {
		k := at[w]
		at[w]++
		got := steps[w][k]()
		c.Step()
		c.Assert(got == want[w][k], "programs %s, order of steps %v: step %d of program %d observes %s, alone it observes %s", progNames(ps), order, k, w, got, want[w][k])
	}
}

func progNames(ps []prog) string {
	var r []string
	for _, p := range ps {
		r = append(r, p.name)
	}
	return strings.Join(r, ", ")
}

// ------------------------------------------------------------ concurrent runs (built with the race detector)

// raceUnits are the computations that run concurrently.
func raceUnits(t Tier) []func(c *C) (string, string) {
	var us []func(c *C) (string, string)
	inputs := cancelInputs()
	for i, cp := range allComps() {
		cp := cp
		n := 0
		for j := range inputs {
			e := inputs[(j*7+i*3)%len(inputs)]
			if !cp.accepts(e) || e.Op == OTrue || e.Op == OFalse || e.Op == OLit {
				continue
			}
			us = append(us, func(c *C) (string, string) {
				fac := f.NewFactory()
				r, ok := cp.run(c, fac, mk(fac, e), nil)
				return cp.name + " on " + e.String(), fmt.Sprint(r, ok)
			})
			n++
			if n >= t.pick(1, 2) {
				break
			}
		}
	}
	for _, p := range progs() {
		p := p
		us = append(us, func(c *C) (string, string) {
			return "program " + p.name, strings.Join(p.soloRun(c, 99), " // ")
		})
	}
	return us
}

// raceChunk runs one unit concurrently with every other one; meant to be run by a binary with the race detector.
func raceChunk(t Tier, i int) int {
	us := raceUnits(t)
	run := func(u func(c *C) (string, string)) (name, res string) {
		defer func() {
			if r := recover(); r != nil {
				if fl, ok := r.(failure); ok {
					res = "failure: " + fl.msg
				} else {
					res = fmt.Sprint("panic: ", r)
				}
			}
		}()
		return u(newC("P28", nil))
	}
	for j := range us {
		start := make(chan bool)
		var wg sync.WaitGroup
		var res, names [2]string
		for w, u := range []func(c *C) (string, string){us[i], us[j]} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				names[w], res[w] = run(u)
			}()
		}
		fmt.Printf("pair %d %d\n", i, j)
		close(start)
		wg.Wait()
		for w, u := range []func(c *C) (string, string){us[i], us[j]} {
			nm, want := run(u)
			if res[w] != want {
				fmt.Printf("MISMATCH: %s concurrently with %s yields %s, alone it yields %s\n", nm, names[1-w], res[w], want)
				return 1
			}
		}
	}
	return 0
}

// raceProps: the properties whose cases are run concurrently
func raceProps() []string {
	var r []string
	for id := range props {
		if id != "P28" {
			r = append(r, id)
		}
	}
	sort.Strings(r)
	return r
}

const raceSlices = 8

// raceCaseChunk runs cases of the other properties' quick domains concurrently: every k-th domain of the property, with
// cases spread over the domain, each against itself, its successor and a case of another property; the cases check their own
// results.
func raceCaseChunk(t Tier, i int) int {
	ids := raceProps()
	p, slice := i/raceSlices, i%raceSlices
	doms := props[ids[p]].Domains(Quick)
	others := props[ids[(p+1+slice*7)%len(ids)]].Domains(Quick)
	k := t.pick(2, 12)
	at := func(d Domain, j int) int { return int(int64(d.N) * int64(2*j+1) / int64(2*k)) }
	for di, d := range doms {
		if di%raceSlices != slice || d.N == 0 {
			continue
		}
		for j := 0; j < k; j++ {
			o := others[(di+j)%len(others)]
			for q, pair := range [][2]raceRef{
				{{ids[p], d, at(d, j)}, {ids[p], d, at(d, j)}},
				{{ids[p], d, at(d, j)}, {ids[p], d, (at(d, j) + 1) % d.N}},
				{{ids[p], d, at(d, j)}, {ids[(p+1+slice*7)%len(ids)], o, at(o, j)}},
			} {
				if q == 2 && o.N == 0 {
					continue
				}
				fmt.Printf("pair %s and %s\n", pair[0].String(), pair[1].String())
				start := make(chan bool)
				var wg sync.WaitGroup
				var msg [2]string
				begin := time.Now()
				for w := range pair {
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						msg[w] = runCase(newC(pair[w].prop, loadKnown(pair[w].prop)), &pair[w].d, pair[w].i)
					}()
				}
				close(start)
				wg.Wait()
				if os.Getenv("LNG_TRACE") != "" {
					fmt.Fprintln(os.Stderr, time.Since(begin).Milliseconds(), "ms", pair[0].String(), pair[1].String())
				}
				for w := range pair {
					if msg[w] != "" {
						fmt.Printf("MISMATCH: %s concurrently with %s: %s\n", pair[w].String(), pair[1-w].String(), msg[w])
						return 1
					}
				}
			}
		}
	}
	return 0
}

type raceRef struct {
	prop string
	d    Domain
	i    int
}

func (r raceRef) String() string { return fmt.Sprintf("%s/%s/%d", r.prop, r.d.Name, r.i) }

func raceCase(c *C, t Tier, mode string, i int) {
	bin := os.Getenv("LNG_RACE")
	cmd := exec.Command(bin, mode, t.String(), strconv.Itoa(i))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
	var out, errs strings.Builder
	cmd.Stdout = &limitedWriter{b: &out, n: 200000}
	cmd.Stderr = &limitedWriter{b: &errs, n: 6000}
	err := cmd.Run()
	lines := strings.Split(strings.TrimSpace(out.String()), "\n")
	c.Key("unit %d", i)
	if err == nil && mode == "-racecases" && out.String() == "" {
		return // the property has no domain for this slice
	}
	if err == nil {
		c.Assert(strings.HasPrefix(lines[len(lines)-1], "pair "), "no run happened: %s", out.String())
		for range lines {
			c.Step()
			c.Outcome("concurrent pair without conflicting accesses")
		}
		c.StateS(lines[len(lines)-1])
		return
	}
	last := lines[len(lines)-1]
	if strings.HasPrefix(last, "MISMATCH") {
		c.Failf("%s", last)
	}
	if mode == "-racecases" {
		c.Failf("%s on separate factories, concurrently: conflicting accesses or a crash (%v):\n%s", last, err, errs.String())
	}
	us := raceUnits(t)
	var a, b int
	nameOf := func(k int) string {
		defer func() { _ = recover() }()
		n, _ := us[k](newC("P28", nil))
		return n
	}
	if n, _ := fmt.Sscanf(last, "pair %d %d", &a, &b); n == 2 && a < len(us) && b < len(us) {
		c.Failf("%s concurrently with %s on separate factories: conflicting accesses or a crash:\n%s", nameOf(a), nameOf(b), errs.String())
	}
	c.Failf("concurrent run %d ends with %v: %s %s", i, err, out.String(), errs.String())
}

func init() {
	register(&Prop{
		ID: "P28",
		Rule: "A case is a pair of computations on separate factories with a schedule. The schedules are enumerated by a controlled scheduler that switches at the events of the handlers, or between the steps of programs; every computation must yield what it yields alone. " +
			"Concurrent runs are monitored for conflicting accesses: without any, all interleavings of the two goroutines are equivalent to the monitored one.",
		Assume: []string{"the race detector sees conflicting accesses of the two goroutines that are not ordered by synchronisation in the Go runtime or standard library"},
		Domains: func(t Tier) []Domain {
			var hc []comp
			for _, cp := range p13Comps(t) {
				hc = append(hc, cp)
			}
			all := cancelInputs()
			var inputs []*E
			for _, i := range []int{8, 9, 12, 15, 17, 21, 24, 13, 19, 6}[:t.pick(2, 6)] {
				inputs = append(inputs, all[i])
			}
			n, m := len(hc), len(inputs)
			pts := t.pick(2, 8)
			schedDomain := func(name string, shared bool) Domain {
				what := "on separate factories"
				if shared {
					what = "on one factory, but otherwise separate objects"
				}
				return Domain{name, fmt.Sprintf("all ordered pairs of %d computations with handlers %s, %d inputs each with a rotating partner input; schedules: first up to event i, second up to event j (or its end), rest of the first, rest of the second, for all i, j (at most %d each: first and last half)", n, what, m, pts), n * n * m, func(c *C, i int) {
					d := mixed(i, n, n, m)
					x := task{hc[d[0]], inputs[d[2]]}
					y := task{hc[d[1]], inputs[(d[2]*3+d[0]+d[1]+1)%m]}
					if !x.cp.accepts(x.e) || !y.cp.accepts(y.e) {
						return
					}
					c.Key("%s / %s", x, y)
					wantX, nx := x.alone(c)
					wantY, ny := y.alone(c)
					for _, a := range append(cancelEvents(nx, pts), -1) {
						for _, b := range append(cancelEvents(ny, pts), -1) {
							var fx, fy f.Factory
							if shared {
								fx = f.NewFactory()
								fy = fx
							}
							interleave(c, x, y, a, b, fx, fy, wantX, wantY)
							c.StateS(fmt.Sprint(x.cp.name, y.cp.name, a, b))
						}
					}
				}}
			}
			alternating := Domain{"alternating", "all ordered pairs of computations with handlers, switching at every event of both", n * n * m, func(c *C, i int) {
				d := mixed(i, n, n, m)
				x := task{hc[d[0]], inputs[d[2]]}
				y := task{hc[d[1]], inputs[(d[2]+d[0]+d[1])%m]}
				if !x.cp.accepts(x.e) || !y.cp.accepts(y.e) {
					return
				}
				c.Key("%s / %s", x, y)
				wantX, _ := x.alone(c)
				wantY, _ := y.alone(c)
				var rx, ry string
				a, b := x.strand(newC(c.prop, nil), nil, nil, &rx), y.strand(newC(c.prop, nil), nil, nil, &ry)
				for {
					p, q := a.resume(), b.resume()
					c.Step()
					if p && q {
						break
					}
				}
				c.Assert(a.msg == "" && b.msg == "", "%s alternating with %s: %s %s", x, y, a.msg, b.msg)
				c.Assert(rx == wantX && ry == wantY, "%s alternating with %s: results %s and %s, alone %s and %s", x, y, rx, ry, wantX, wantY)
				c.StateS(x.String() + y.String())
			}}
			ps := progs()
			np := len(ps)
			var stepsMax = 0
			for _, p := range ps {
				stepsMax = max(stepsMax, p.steps)
			}
			depth := t.pick(4, stepsMax)
			programs := Domain{"programs", fmt.Sprintf("all ordered pairs of %d step programs on separate objects, all merges of their first %d steps", np, depth), np * np, func(c *C, i int) {
				pair := []prog{ps[i/np], ps[i%np]}
				c.Key("%s", progNames(pair))
				want := [][]string{pair[0].soloRun(c, depth), pair[1].soloRun(c, depth)}
				for _, o := range merges([]int{len(want[0]), len(want[1])}) {
					mergeRun(c, pair, o, want)
					c.StateS(fmt.Sprint(pair[0].name, pair[1].name, o))
				}
				c.Outcome("pair of programs")
			}}
			doms := []Domain{schedDomain("interleavings", false), schedDomain("interleavings-one-factory", true), alternating, programs}
			if t == Thorough {
				nt := min(np, 9)
				doms = append(doms, Domain{"program-triples", fmt.Sprintf("all triples of %d step programs, all merges of their first 3 steps", nt), nt * nt * nt, func(c *C, i int) {
					d := mixed(i, nt, nt, nt)
					if d[0] > d[1] || d[1] > d[2] {
						return
					}
					trip := []prog{ps[d[0]], ps[d[1]], ps[d[2]]}
					c.Key("%s", progNames(trip))
					want := [][]string{trip[0].soloRun(c, 3), trip[1].soloRun(c, 3), trip[2].soloRun(c, 3)}
					for _, o := range merges([]int{3, 3, 3}) {
						mergeRun(c, trip, o, want)
					}
					c.StateS(progNames(trip))
				}})
			}
			if os.Getenv("LNG_RACE") != "" {
				nu := len(raceUnits(t))
				doms = append(doms, Domain{"concurrent", fmt.Sprintf("all ordered pairs of %d computations and programs, on two goroutines with separate factories, every memory access monitored for conflicts, results compared with running alone", nu), nu, func(c *C, i int) { raceCase(c, t, "-racechunk", i) }})
				np := len(raceProps()) * raceSlices
				doms = append(doms, Domain{"concurrent-cases", fmt.Sprintf("%d cases of every domain of the other properties, spread over the domain, on two goroutines: each with itself, with its successor and with a case of another property; every memory access monitored for conflicts, results judged by the property", t.pick(2, 12)), np, func(c *C, i int) { raceCase(c, t, "-racecases", i) }})
			}
			return doms
		},
	})
}
