package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	lio "github.com/booleworks/logicng-go/io"
	"github.com/booleworks/logicng-go/maxsat"
)

// scratch calls fn with a new empty directory.
func scratch(c *C, fn func(dir string)) {
	base := ""
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		base = "/dev/shm"
	}
	dir, err := os.MkdirTemp(base, "lngio")
	if err != nil {
		c.Failf("no scratch directory: %v", err)
	}
	defer os.RemoveAll(dir)
	fn(dir)
}

func put(c *C, name, text string) {
	if err := os.WriteFile(name, []byte(text), 0o600); err != nil {
		c.Failf("scratch file: %v", err)
	}
}

func get(c *C, name string) string {
	b, err := os.ReadFile(name)
	if err != nil {
		c.Failf("the written file does not exist: %v", err)
	}
	return string(b)
}

// failingWriter accepts limit bytes.
type failingWriter struct {
	buf   bytes.Buffer
	limit int
	short bool // reports the bytes of the partial write
}

var errFull = errors.New("no space left")

func (w *failingWriter) Write(p []byte) (int, error) {
	left := w.limit - w.buf.Len()
	if len(p) <= left {
		return w.buf.Write(p)
	}
	if !w.short {
		return 0, errFull
	}
	w.buf.Write(p[:left])
	return left, errFull
}

// faults: every position at which writing can fail.
func faults(c *C, full string, write func(w *failingWriter) error) {
	for limit := 0; limit < len(full); limit++ {
		for _, short := range []bool{false, true} {
			w := &failingWriter{limit: limit, short: short}
			err := write(w)
			c.Step()
			c.Assert(errors.Is(err, errFull), "writing fails after %d of %d bytes, but the error is %v", limit, len(full), err)
			c.Assert(strings.HasPrefix(full, w.buf.String()), "after a failure %q is written instead of a prefix of %q", w.buf.String(), full)
		}
	}
	w := &failingWriter{limit: len(full)}
	err := write(w)
	c.Assert(err == nil && w.buf.String() == full, "writing to a writer which accepts exactly the text fails: %v", err)
	c.Outcome("write faults")
}

func writeFormula(c *C, fac f.Factory, name string, fm f.Formula, split []bool, way int) {
	var err error
	switch way % 3 {
	case 0:
		err = lio.WriteFormula(fac, name, fm, split...)
	case 1:
		var file *os.File
		if file, err = os.Create(name); err == nil {
			err = lio.WriteFormulaToFile(fac, file, fm, split...)
			file.Close()
		}
	case 2:
		var b bytes.Buffer
		err = lio.WriteFormulaToWriter(fac, &b, fm, split...)
		put(c, name, b.String())
	}
	c.Step()
	c.Assert(err == nil, "writing %s fails: %v", fm.Sprint(fac), err)
}

func readFormula(fac f.Factory, name string, way int) (f.Formula, error) {
	if way%2 == 0 {
		return lio.ReadFormula(fac, name)
	}
	file, err := os.Open(name)
	if err != nil {
		return 0, err
	}
	defer file.Close()
	return lio.ReadFormulaFile(fac, file)
}

func readFormulas(fac f.Factory, name string, way int) ([]f.Formula, error) {
	if way%2 == 0 {
		return lio.ReadFormulas(fac, name)
	}
	file, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	defer file.Close()
	return lio.ReadFormulasFile(fac, file)
}

// textRoundTrip writes one formula in every way and reads it back.
func textRoundTrip(c *C, fac f.Factory, fm f.Formula, i int, withFaults bool) {
	c.StateS(fm.Sprint(fac))
	scratch(c, func(dir string) {
		name := filepath.Join(dir, "x")
		for k, split := range [][]bool{nil, {false}, {true}} {
			if (i+k)%5 == 0 { // an existing longer file is replaced
				put(c, name, strings.Repeat("a & ", 400))
			}
			writeFormula(c, fac, name, fm, split, i+k)
			want := []f.Formula{fm}
			if k == 2 && fm.Sort() == f.SortAnd {
				want = fac.Operands(fm)
			}
			text := get(c, name)
			c.Assert(strings.Count(text, "\n") == len(want) && strings.HasSuffix(text, "\n"), "written text %q of %s must have %d lines", text, fm.Sprint(fac), len(want))
			got, err := readFormulas(fac, name, i+k/2)
			c.Step()
			c.Assert(err == nil && fmt.Sprint(got) == fmt.Sprint(want), "written as %q, read back as %s, %v", text, sprintAll(fac, got), err)
			one, err := readFormula(fac, name, i+k)
			c.Step()
			c.Assert(err == nil && one == fm, "written as %q, read back as %s, %v", text, one.Sprint(fac), err)
			fac2 := f.NewFactory()
			two, err := readFormula(fac2, name, i+k+1)
			c.Assert(err == nil && structure(fac2, two) == structure(fac, fm), "written as %q, read back in another factory as %s, %v", text, two.Sprint(fac2), err)
			if withFaults {
				faults(c, text, func(w *failingWriter) error { return lio.WriteFormulaToWriter(fac, w, fm, split...) })
				for cut := 0; cut <= len(text); cut++ {
					checkReadText(c, text[:cut], i+cut)
				}
			}
		}
	})
	c.Outcome(fmt.Sprintf("sort %d", fm.Sort()))
}

// checkReadText: reading any text as list of formulas, one per line.
func checkReadText(c *C, text string, way int) {
	lines := strings.Split(text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	fac := f.NewFactory()
	fac2 := f.NewFactory()
	want := []string{}
	bad, excluded := false, false
	for _, l := range lines {
		t, ok := refParse(strings.TrimSuffix(l, "\r"))
		if !ok && t != nil {
			excluded = true // the known finding of the parser (P02)
		}
		if !ok {
			bad = true
			continue
		}
		want = append(want, structure(fac2, t.build(fac2)))
	}
	scratch(c, func(dir string) {
		name := filepath.Join(dir, "t")
		put(c, name, text)
		got, err := readFormulas(fac, name, way)
		c.Step()
		if excluded {
			return
		}
		if bad {
			c.Assert(err != nil, "malformed text %q is read as %s", text, sprintAll(fac, got))
			c.Outcome("malformed")
			_, err = readFormula(fac, name, way+1)
			c.Assert(err != nil, "malformed text %q is read", text)
			return
		}
		c.Assert(err == nil, "text %q is refused: %v", text, err)
		gs := []string{}
		for _, g := range got {
			gs = append(gs, structure(fac, g))
		}
		c.Assert(fmt.Sprint(gs) == fmt.Sprint(want), "text %q is read as %s", text, sprintAll(fac, got))
		one, err := readFormula(fac, name, way+1)
		c.Assert(err == nil && one == fac.And(got...), "text %q is read as the formula %s", text, one.Sprint(fac))
		c.Outcome(fmt.Sprintf("%d lines", len(lines)))
	})
}

// ---------------------------------------------------------------- DIMACS

type namedClause string

// clauseNames: the clause as sorted list of signed names.
func clauseNames(c *C, fac f.Factory, fm f.Formula, rename func(string) string) namedClause {
	if fm.Sort() == f.SortFalse {
		return "[]"
	}
	if fm.Sort() == f.SortTrue {
		return "true"
	}
	ops := []f.Formula{fm}
	if fm.Sort() == f.SortOr {
		ops = fac.Operands(fm)
	}
	var s []string
	for _, o := range ops {
		n, ph, ok := fac.LiteralNamePhase(o)
		c.Assert(ok, "%s is no clause", fm.Sprint(fac))
		n = rename(n)
		if !ph {
			n = "-" + n
		}
		s = append(s, n)
	}
	sort.Strings(s)
	return namedClause(fmt.Sprint(s))
}

// refDimacs reads a DIMACS text: clauses as lists of numbers.
func refDimacs(text string) (cls [][]int, ok bool) {
	var cur []int
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "c") || strings.HasPrefix(l, "p") {
			continue
		}
		for _, tok := range strings.Fields(l) {
			n, err := strconv.Atoi(tok)
			if err != nil {
				return nil, false
			}
			if n == 0 {
				cls = append(cls, cur)
				cur = nil
			} else {
				cur = append(cur, n)
			}
		}
	}
	return cls, len(cur) == 0
}

// refClause: the clause as the library represents it (constants for tautologies and empty clauses).
func refClause(cl []int, prefix string) namedClause {
	set := map[int]bool{}
	for _, l := range cl {
		if set[-l] {
			return "true"
		}
		set[l] = true
	}
	var s []string
	for l := range set {
		if l < 0 {
			s = append(s, "-"+prefix+strconv.Itoa(-l))
		} else {
			s = append(s, prefix+strconv.Itoa(l))
		}
	}
	sort.Strings(s)
	return namedClause(fmt.Sprint(s))
}

func readDimacs(fac f.Factory, name, prefix string, way int) ([]f.Formula, error) {
	var r *[]f.Formula
	var err error
	var p []string
	if prefix != "v" || way%2 == 1 {
		p = []string{prefix}
	}
	if way/2%2 == 0 {
		r, err = lio.ReadDimacs(fac, name, p...)
	} else {
		var file *os.File
		if file, err = os.Open(name); err == nil {
			r, err = lio.ReadDimacsFile(fac, file, p...)
			file.Close()
		}
	}
	if err != nil {
		return nil, err
	}
	return *r, nil
}

func checkDimacsText(c *C, text string, way int) {
	want, ok := refDimacs(text)
	prefix := []string{"v", "x", "", "v_"}[way%4]
	if prefix == "" {
		prefix = "p"
	}
	scratch(c, func(dir string) {
		name := filepath.Join(dir, "t.cnf")
		put(c, name, text)
		fac := f.NewFactory()
		got, err := readDimacs(fac, name, prefix, way/4)
		c.Step()
		if !ok {
			c.Assert(err != nil, "malformed text %q is read as %s", text, sprintAll(fac, got))
			c.Outcome("malformed DIMACS")
			return
		}
		c.Assert(err == nil, "text %q is refused: %v", text, err)
		c.Assert(len(got) == len(want), "text %q has %d clauses, read as %s", text, len(want), sprintAll(fac, got))
		for j, cl := range want {
			g := clauseNames(c, fac, got[j], func(s string) string { return s })
			c.Assert(g == refClause(cl, prefix), "clause %d of text %q is %v, read as %s", j, text, cl, got[j].Sprint(fac))
		}
		c.Outcome(fmt.Sprintf("%d clauses", len(want)))
	})
}

func writeDimacs(c *C, fac f.Factory, dir string, fm f.Formula, way int) (map[f.Variable]int, string) {
	name := filepath.Join(dir, "out.cnf")
	var err error
	var m map[f.Variable]int
	switch way % 4 {
	case 0:
		m, err = lio.WriteDimacs(fac, name, fm)
	case 1:
		m, err = lio.WriteDimacs(fac, filepath.Join(dir, "out"), fm)
	case 2:
		var file *os.File
		if file, err = os.Create(name); err == nil {
			m, err = lio.WriteDimacsToFile(fac, file, fm)
			file.Close()
		}
	case 3:
		var b bytes.Buffer
		m, err = lio.WriteDimacsToWriter(fac, &b, fm)
		put(c, name, b.String())
	}
	c.Step()
	c.Assert(err == nil, "writing the CNF %s fails: %v", fm.Sprint(fac), err)
	return m, name
}

func dimacsRoundTrip(c *C, cls [][]int, n, i int, withFaults bool) {
	c.Key("%v", cls)
	c.StateS(fmt.Sprint(cls))
	fac := f.NewFactory()
	for v := 0; v < n && i%2 == 1; v++ {
		fac.Literal(vname((v*(n-1)+i/2)%n), i/4%2 == 0)
	}
	var ops []f.Formula
	for _, cl := range cls {
		ops = append(ops, fac.Clause(mkLits(fac, cl)...))
	}
	fm := fac.And(ops...)
	conj := []f.Formula{fm}
	switch fm.Sort() {
	case f.SortAnd:
		conj = fac.Operands(fm)
	case f.SortTrue:
		conj = nil
	}
	id := func(s string) string { return s }
	scratch(c, func(dir string) {
		m, name := writeDimacs(c, fac, dir, fm, i)
		vars := f.Variables(fac, fm)
		c.Assert(len(m) == vars.Size(), "%d variables in the mapping of %s", len(m), fm.Sprint(fac))
		back := map[string]string{}
		for v, num := range m {
			nm, _ := fac.VarName(v)
			c.Assert(vars.Contains(v) && num >= 1 && num <= len(m), "%s has the number %d", nm, num)
			_, dup := back["v"+strconv.Itoa(num)]
			c.Assert(!dup, "the number %d is used twice", num)
			back["v"+strconv.Itoa(num)] = nm
		}
		text := get(c, name)
		head := fmt.Sprintf("p cnf %d %d\n", vars.Size(), len(conj))
		c.Assert(strings.HasPrefix(text, head), "the header of %s must be %q: %q", fm.Sprint(fac), head, text)
		c.Assert(strings.Count(text, "\n") == len(conj)+1 && strings.HasSuffix(text, "\n"), "the text of %s must have %d lines: %q", fm.Sprint(fac), len(conj)+1, text)
		fac2 := fac
		if i%3 == 0 {
			fac2 = f.NewFactory()
		}
		got, err := readDimacs(fac2, name, "v", i/3)
		c.Step()
		c.Assert(err == nil && len(got) == len(conj), "%q is read back as %s, %v", text, sprintAll(fac2, got), err)
		want, have := map[namedClause]bool{}, map[namedClause]bool{}
		for j := range conj {
			want[clauseNames(c, fac, conj[j], id)] = true
			have[clauseNames(c, fac2, got[j], func(s string) string { return back[s] })] = true
		}
		c.Assert(len(want) == len(have), "%s is read back as %s", fm.Sprint(fac), sprintAll(fac2, got))
		for k := range want {
			c.Assert(have[k], "%s is read back as %s", fm.Sprint(fac), sprintAll(fac2, got))
		}
		if withFaults {
			faults(c, text, func(w *failingWriter) error {
				_, err := lio.WriteDimacsToWriter(fac, w, fm)
				return err
			})
			for cut := 0; cut <= len(text); cut++ {
				checkDimacsText(c, text[:cut], i+cut)
			}
		}
	})
	c.Outcome(fmt.Sprintf("round trip of %d clauses", len(conj)))
}

// ---------------------------------------------------------------- MaxSAT files

type wClause struct {
	lits   []int
	weight int // -1 hard
}

func refWcnf(text string) (cls []wClause, ok bool) {
	lines := strings.Split(text, "\n")
	k := 0
	pure, top := false, -1
	for ; ; k++ {
		if k == len(lines) {
			return nil, false
		}
		h := strings.Fields(lines[k])
		if len(h) >= 2 && h[0] == "p" && (h[1] == "cnf" || h[1] == "wcnf") {
			pure = h[1] == "cnf"
			if !pure && len(h) > 4 {
				n, err := strconv.Atoi(h[4])
				if err != nil {
					return nil, false
				}
				top = n
			}
			k++
			break
		}
	}
	var toks []int
	for _, l := range lines[k:] {
		fl := strings.Fields(l)
		if len(fl) == 0 || strings.HasPrefix(fl[0], "c") {
			continue
		}
		for _, s := range fl {
			n, err := strconv.Atoi(s)
			if err != nil {
				return nil, false
			}
			toks = append(toks, n)
		}
	}
	for len(toks) > 0 {
		w := wClause{weight: 1}
		if !pure {
			w.weight = toks[0]
			toks = toks[1:]
			if w.weight < 1 {
				return nil, false
			}
			if top >= 0 && w.weight == top {
				w.weight = -1
			}
		}
		for {
			if len(toks) == 0 {
				return nil, false
			}
			x := toks[0]
			toks = toks[1:]
			if x == 0 {
				break
			}
			w.lits = append(w.lits, x)
		}
		cls = append(cls, w)
	}
	return cls, true
}

// checkWcnf: the loaded instance has for every assignment exactly the cost that the text describes.
func checkWcnf(c *C, text string, way int) {
	want, ok := refWcnf(text)
	scratch(c, func(dir string) {
		name := filepath.Join(dir, "t.wcnf")
		put(c, name, text)
		weighted, top := false, 0
		for _, w := range want {
			if w.weight > 1 {
				weighted = true
			}
			for _, l := range w.lits {
				top = max(top, l, -l)
			}
		}
		algs := maxsatAlgs()
		alg := way % len(algs)
		for (weighted && (algs[alg].name == "LinearUS" || algs[alg].name == "MSU3")) || (!weighted && algs[alg].name == "WMSU3") {
			alg = (alg + 1) % len(algs)
		}
		load := func() (f.Factory, *maxsat.Solver, error) {
			fac := f.NewFactory()
			s := algs[alg].mk(fac)
			err := maxsat.ReadDimacsToSolver(fac, s, name)
			c.Step()
			return fac, s, err
		}
		if !ok {
			_, _, err := load()
			c.Assert(err != nil, "malformed text %q is read", text)
			c.Outcome("malformed MaxSAT file")
			return
		}
		if top > 4 {
			c.Failf("reference: too many variables")
		}
		for a := 0; a < 1<<uint(top); a++ {
			fac, s, err := load()
			c.Assert(err == nil, "text %q is refused: %v", text, err)
			cost, feasible := 0, true
			for _, w := range want {
				sat := false
				for _, l := range w.lits {
					v := max(l, -l)
					sat = sat || a>>uint(v-1)&1 == 1 == (l > 0)
				}
				if !sat && w.weight < 0 {
					feasible = false
				}
				if !sat && w.weight > 0 {
					cost += w.weight
				}
			}
			for v := 1; v <= top; v++ {
				s.AddHardFormula(fac.Literal("v"+strconv.Itoa(v), a>>uint(v-1)&1 == 1))
			}
			r := s.Solve()
			c.Step()
			c.Assert(r.Satisfiable == feasible, "text %q by %s: satisfiable %v under assignment %b", text, algs[alg].name, r.Satisfiable, a)
			c.Assert(!feasible || r.Optimum == cost, "text %q by %s: assignment %b costs %d, must be %d", text, algs[alg].name, a, r.Optimum, cost)
			c.Outcome(fmt.Sprintf("cost %d", min(cost, 9)))
		}
	})
}

func init() {
	register(&Prop{
		ID: "P26",
		Rule: "A model state is a distinct formula, clause set or file text; a transition is one write or read. Round trips are compared by formula identity and structure; " +
			"arbitrary and truncated texts with separately written reference readers; MaxSAT files by the cost of every assignment. Writers fail at every byte position.",
		Assume: []string{
			"Lines whose formula is followed by further text are excluded (known finding of the parser, P02).",
			"A leading c or p marks comment and problem lines; the counts of a problem line are not checked by the readers and not required to be.",
		},
		Domains: func(t Tier) []Domain {
			var doms []Domain
			text := func(name, bound string, sp Space, withFaults bool) {
				doms = append(doms, Domain{"text-" + name, bound, sp.N, func(c *C, i int) {
					e := sp.At(i)
					c.Key("%s", e)
					fac := f.NewFactory()
					textRoundTrip(c, fac, mk(fac, e), i, withFaults)
				}})
			}
			ca := constraintAtoms(3)
			text("level-1", "all formulas of one operator over two variables, constants and the constraint list, with and without splitting, through files, handles and writers", level(union(litAtoms(2, true), ca)), false)
			text("nary", "all ternary conjunctions and disjunctions of literals and every fourth constraint", nary(union(litAtoms(3, false), stride(ca, 4)), 3), false)
			text("depth-2", "formulas of two operator levels", stride(level(level(litAtoms(2, false))), t.pick(41, 3)), false)
			text("faults", "writing fails at every byte, files are truncated at every byte", stride(union(level(litAtoms(2, true)), nary(union(litAtoms(2, false), stride(ca, 5)), 3), binary(level(litAtoms(2, false)), stride(ca, 5))), t.pick(23, 3)), true)
			lines := []string{"a", "", "~b & a", "(a | b", "a =>", "$true", "$false", " a | ~a ", "2*a + b <= 1", "a <=> b\r", "&", "\t"}
			doms = append(doms, Domain{"text-lines", fmt.Sprintf("all files of up to %d lines over %d well-formed, empty and malformed lines, with and without final line end", t.pick(3, 4), len(lines)), 2 * seqCount(len(lines), t.pick(3, 4)), func(c *C, i int) {
				var p []string
				for _, x := range seqAt(i/2, len(lines), t.pick(3, 4)) {
					p = append(p, lines[x])
				}
				s := strings.Join(p, "\n")
				if i%2 == 1 {
					s += "\n"
				}
				c.Key("%q", s)
				c.StateS(s)
				checkReadText(c, s, i)
			}})
			dim := func(name, bound string, cs CNFSpace, withFaults bool, st int) {
				doms = append(doms, Domain{"dimacs-" + name, bound, (cs.N + st - 1) / st, func(c *C, i int) {
					dimacsRoundTrip(c, cs.At(i*st), cs.Vars, i, withFaults)
				}})
			}
			dim("sets-2", "all sets of clauses over two variables", clauseSets(2, 2, 0, 8), false, 1)
			dim("sets-3", "all sets of up to three clauses over three variables", clauseSets(3, 3, 0, 3), false, 1)
			if t == Thorough {
				dim("sets-4", "all sets of up to two clauses over four variables", clauseSets(4, 4, 0, 2), false, 1)
				dim("sets-3-4", "all sets of four clauses over three variables", clauseSets(3, 3, 4, 4), false, 1)
			}
			dim("faults", "clause sets over three variables, writing fails at every byte, files are truncated at every byte", clauseSets(3, 3, 0, 3), true, t.pick(19, 2))
			doms = append(doms, Domain{"dimacs-special", "constants, empty clauses, non-CNF formulas (must be refused), missing files and directories", 12, func(c *C, i int) {
				fac := f.NewFactory()
				a, b := mkLit(fac, 0).AsFormula(), mkLit(fac, 3).AsFormula()
				c.Key("#%d", i)
				c.StateS(fmt.Sprint(i))
				switch {
				case i < 2:
					dimacsRoundTrip(c, [][][]int{{}, {{0}, {1}}}[i], 1, i, true)
				case i < 7:
					fm := []f.Formula{fac.Implication(a, b), fac.Or(fac.And(a, b), mkLit(fac, 4).AsFormula()), fac.Not(fac.And(a, b)), fac.Equivalence(a, b), fac.And(a, fac.EXO(mkVars(fac, 3)...))}[i-2]
					var w bytes.Buffer
					_, err := lio.WriteDimacsToWriter(fac, &w, fm)
					c.Step()
					c.Assert(err != nil && w.Len() == 0, "%s is no CNF, but is written as %q", fm.Sprint(fac), w.String())
					c.Outcome("no CNF")
				default:
					scratch(c, func(dir string) {
						for _, name := range []string{dir, filepath.Join(dir, "none"), filepath.Join(dir, "none", "none")} {
							var err error
							switch i {
							case 7:
								_, err = lio.ReadDimacs(fac, name)
							case 8:
								_, err = lio.ReadFormula(fac, name)
							case 9:
								_, err = lio.ReadFormulas(fac, name)
							case 10:
								err = maxsat.ReadDimacsToSolver(fac, maxsat.OLL(fac), name)
							case 11:
								if name == filepath.Join(dir, "none") {
									continue
								}
								err = lio.WriteFormula(fac, name, a)
								c.Assert(err != nil, "writing to %s is no error", name)
								_, err = lio.WriteDimacs(fac, filepath.Join(name, "none", "x"), a)
							}
							c.Step()
							c.Assert(err != nil, "reading %s is no error", name)
						}
						c.Outcome("unreadable")
					})
				}
			}})
			toks := []string{"1", "-2", "0", "12", "\n", "c 1 0\n", "p cnf 2 1\n", "x", "%"}
			tl := t.pick(5, 6)
			doms = append(doms, Domain{"dimacs-tokens", fmt.Sprintf("all texts of up to %d tokens over %q", tl, toks), seqCount(len(toks), tl), func(c *C, i int) {
				s := join(seqAt(i, len(toks), tl), toks, i)
				c.Key("%q", s)
				c.StateS(s)
				checkDimacsText(c, s, i)
			}})
			heads := []string{"p wcnf 2 3 5\n", "p wcnf 2 3\n", "p cnf 2 3\n", "c p cnf\np  wcnf  2  3   5\n", "c\n\n\tp wcnf 2 3 5 \n", "c x\n p cnf 2 3\r\n", "", "p wcnf 2 3 x\n", "p wcnf 2 3 5", "p wcnf 2 3 18446744073709551616\n"}
			wt := []string{"1", "-2", "0", "5", "\n", "c 1 0\n"}
			wl := t.pick(5, 6)
			words := func(d []int) string {
				// literals beyond the second variable only as weights: position decides, therefore 5 is replaced inside clauses
				return join(d, wt, len(d))
			}
			doms = append(doms, Domain{"maxsat-tokens", fmt.Sprintf("%d headers x all bodies of up to %d tokens over %q (literals up to variable 2)", len(heads), wl, wt), len(heads) * seqCount(len(wt), wl), func(c *C, i int) {
				s := heads[i%len(heads)] + words(seqAt(i/len(heads), len(wt), wl))
				c.Key("%q", s)
				c.StateS(s)
				if cls, ok := refWcnf(s); ok {
					for _, w := range cls {
						for _, l := range w.lits {
							if l > 2 {
								c.Outcome("skipped: large variable")
								return
							}
						}
					}
				}
				checkWcnf(c, s, i/len(heads))
			}})
			// structured MaxSAT files: layouts
			base := allClauses(2, 2, false)
			nb := len(base)
			ws := []int{1, 3, 7}
			doms = append(doms, Domain{"maxsat-layouts", "all pairs of clauses over two variables (and the empty clause) with weights 1, 3 and top, as WCNF with and without top and as CNF, in six layouts", (nb + 1) * (nb + 1) * 9 * 3 * 6, func(c *C, i int) {
				m := mixed(i, nb+1, nb+1, 9, 3, 6)
				seps := [][2]string{{" ", "\n"}, {"  ", "\n\n"}, {"\t", "\r\n"}, {" ", " "}, {"\n", "\n"}, {" ", "\nc 3 1 0\n"}}[m[4]]
				var b strings.Builder
				b.WriteString([]string{"p wcnf 2 2 7\n", "c comment\np wcnf 2 2\n", "p cnf 2 2\n"}[m[3]])
				for k := 0; k < 2; k++ {
					var p []string
					if m[3] < 2 {
						p = append(p, strconv.Itoa(ws[m[2]/[]int{1, 3}[k]%3]))
					}
					if m[k] < nb {
						for _, l := range base[m[k]] {
							x := l/2 + 1
							if l&1 == 1 {
								x = -x
							}
							p = append(p, strconv.Itoa(x))
						}
					}
					p = append(p, "0")
					b.WriteString(strings.Join(p, seps[0]) + seps[1])
				}
				c.Key("%q", b.String())
				c.StateS(b.String())
				checkWcnf(c, b.String(), i)
			}})
			// long lines
			sizes := []int{1 << 10, 5000, 20000, 70000}
			doms = append(doms, Domain{"long-lines", fmt.Sprintf("clauses and formulas with %v literals on one line: DIMACS, MaxSAT and text", sizes), len(sizes) * 3, func(c *C, i int) {
				n := sizes[i/3]
				c.Key("%d kind %d", n, i%3)
				c.StateS(fmt.Sprint(i))
				scratch(c, func(dir string) {
					name := filepath.Join(dir, "l.cnf")
					fac := f.NewFactory()
					var ls []f.Literal
					for v := 0; v < n; v++ {
						ls = append(ls, fac.Lit("verylongvariablename"+strconv.Itoa(v), v%3 > 0))
					}
					switch i % 3 {
					case 0:
						fm := fac.Clause(ls...)
						_, err := lio.WriteDimacs(fac, name, fac.And(fm, fac.Variable("x")))
						c.Assert(err == nil, "writing: %v", err)
						r, err := readDimacs(fac, name, "v", 0)
						c.Assert(err == nil && len(r) == 2, "a clause of %d literals is not read back: %v", n, err)
						c.Assert(f.Literals(fac, r[0]).Size()+f.Literals(fac, r[1]).Size() == n+1, "a clause of %d literals is read back with %d", n, f.Literals(fac, r[0]).Size())
					case 1:
						var b strings.Builder
						b.WriteString("p wcnf 9 2 100\n3 ")
						for v := 1; v <= n; v++ {
							fmt.Fprintf(&b, "%d ", v+100000)
						}
						b.WriteString("0\n4 -1 0\n100 1 0\n")
						put(c, name, b.String())
						s := maxsat.OLL(fac)
						err := maxsat.ReadDimacsToSolver(fac, s, name)
						c.Assert(err == nil, "a clause of %d literals is not read: %v", n, err)
						r := s.Solve()
						c.Assert(r.Satisfiable && r.Optimum == 4, "the instance with a clause of %d literals has the result %v %d, must be 4", n, r.Satisfiable, r.Optimum)
					case 2:
						if n > 20000 {
							n = 40000 // 1.1 MB
							ls = ls[:n]
						}
						fm := fac.Clause(ls...)
						err := lio.WriteFormula(fac, name, fm)
						c.Assert(err == nil, "writing: %v", err)
						g, err := lio.ReadFormula(fac, name)
						c.Assert(err == nil && g == fm, "a formula with %d literals is not read back: %v", n, err)
					}
					c.Step()
					c.Outcome("long lines")
				})
			}})
			return doms
		},
	})
}

// join puts blanks between the tokens; some indices use other white space.
func join(d []int, toks []string, i int) string {
	sep := []string{" ", " ", "\t", "  "}[i%4]
	var b strings.Builder
	for k, x := range d {
		if k > 0 && !strings.HasSuffix(b.String(), "\n") {
			b.WriteString(sep)
		}
		b.WriteString(toks[x])
	}
	return b.String()
}
