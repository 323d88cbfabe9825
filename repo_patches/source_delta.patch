From 8efc190e4b5d046e76ef2c038dd368105d84e097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 01/64] fix: copy the caller's slices when creating a
 pseudo-Boolean constraint

---
 formula/factory.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/formula/factory.go b/formula/factory.go
index 5472f5e..8e3d332 100644
--- a/formula/factory.go
+++ b/formula/factory.go
@@ -2,6 +2,7 @@ package formula
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 
 	"github.com/booleworks/logicng-go/configuration"
@@ -736,6 +737,9 @@ func (fac *CachingFactory) constructPBC(comparator CSort, rhs int, literals []Li
 	if !ok {
 		id := fac.nextPosId()
 		constraint = EncodeFormula(SortPBC, id)
+		// the formula must not change when the caller reuses its slices
+		pbc.literals = slices.Clone(literals)
+		pbc.coefficients = slices.Clone(coefficients)
 		fac.pbcCache[hash] = append(fac.pbcCache[hash], constraint)
 		fac.pbcs[constraint] = pbc
 	}
-- 
2.43.0


From 13dee96d0a55c7d7bccfebab1d5bfaac6b922de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 02/64] fix: parse numeric variable names in pseudo-Boolean
 constraints

---
 parser/propositional_parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index 65c873c..641e0df 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -216,13 +216,13 @@ func (l *formulaListener) ExitMul(c *MulContext) {
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 0:
 		lit = c.LITERAL().GetText()
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 1:
-		lit = c.LITERAL().GetText()
+		lit = c.NUMBER(0).GetText()
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 1:
 		lit = c.LITERAL().GetText()
 		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 2:
-		lit = c.NUMBER(0).GetText()
-		coeff, _ = strconv.Atoi(c.NUMBER(1).GetText())
+		lit = c.NUMBER(1).GetText()
+		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
 	}
 	name, phase := parseLiteral(lit)
 	literal := l.fac.Lit(name, phase)
-- 
2.43.0


From 1db02e9fe562e26d817e327a59556d5d1068cfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 03/64] fix: report trailing input and unrepresentable numbers
 as parser errors

---
 parser/propositional_parser.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index 641e0df..607a811 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -52,11 +52,19 @@ func (p *PropositionalParser) parse(data string) (f.Formula, error) {
 	lngParser := NewLogicNGPropositionalParser(stream)
 	lngParser.RemoveErrorListeners()
 	lngParser.AddErrorListener(errorListener)
-	listener := &formulaListener{fac: p.fac}
-	antlr.ParseTreeWalkerDefault.Walk(listener, lngParser.Formula())
+	tree := lngParser.Formula()
+	if next := stream.LT(1); !errorListener.err && next.GetTokenType() != antlr.TokenEOF {
+		message := fmt.Sprintf("extraneous input '%s' expecting <EOF>", next.GetText())
+		errorListener.SyntaxError(lngParser, next, next.GetLine(), next.GetColumn(), message, nil)
+	}
 	if errorListener.err {
 		return p.fac.Falsum(), errorx.BadInput("%s", errorListener.message)
 	}
+	listener := &formulaListener{fac: p.fac}
+	antlr.ParseTreeWalkerDefault.Walk(listener, tree)
+	if listener.err != nil {
+		return p.fac.Falsum(), listener.err
+	}
 	return listener.formula(), nil
 }
 
@@ -87,6 +95,7 @@ type formulaListener struct {
 	fac   f.Factory
 	stack []stackFormula
 	pbc   *pbc
+	err   error
 }
 
 type pbc struct {
@@ -117,6 +126,14 @@ func (l *formulaListener) pop() stackFormula {
 	return result
 }
 
+func (l *formulaListener) parseNumber(text string) int {
+	number, err := strconv.Atoi(text)
+	if err != nil && l.err == nil {
+		l.err = errorx.BadInput("number out of range: %s", text)
+	}
+	return number
+}
+
 func (l *formulaListener) ExitSimp(c *SimpContext) {
 	if c.TRUE() != nil {
 		l.pushFormula(l.fac.Verum())
@@ -219,10 +236,10 @@ func (l *formulaListener) ExitMul(c *MulContext) {
 		lit = c.NUMBER(0).GetText()
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 1:
 		lit = c.LITERAL().GetText()
-		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
+		coeff = l.parseNumber(c.NUMBER(0).GetText())
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 2:
 		lit = c.NUMBER(1).GetText()
-		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
+		coeff = l.parseNumber(c.NUMBER(0).GetText())
 	}
 	name, phase := parseLiteral(lit)
 	literal := l.fac.Lit(name, phase)
@@ -235,7 +252,7 @@ func (l *formulaListener) EnterComparison(_ *ComparisonContext) {
 }
 
 func (l *formulaListener) ExitComparison(c *ComparisonContext) {
-	l.pbc.rhs, _ = strconv.Atoi(c.NUMBER().GetText())
+	l.pbc.rhs = l.parseNumber(c.NUMBER().GetText())
 	l.pbc.comparator = l.parseComparator(c)
 	l.pushFormula(l.fac.PBC(l.pbc.comparator, l.pbc.rhs, l.pbc.literals, l.pbc.coefficients))
 }
-- 
2.43.0


From 14bc9346e151a4acdca92947632a572fea0d239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 04/64] fix: compile cardinality and pseudo-Boolean constraints
 to BDDs without auxiliary variables

---
 bdd/bdd.go | 71 ++++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 69 insertions(+), 2 deletions(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index ca2d54a..7747174 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -8,7 +8,6 @@ import (
 	f "github.com/booleworks/logicng-go/formula"
 	"github.com/booleworks/logicng-go/handler"
 	"github.com/booleworks/logicng-go/model"
-	"github.com/booleworks/logicng-go/normalform"
 )
 
 // A BDD is a canonical representation of a Boolean formula. It contains a
@@ -212,12 +211,80 @@ func compile(fac f.Factory, formula f.Formula, kernel *Kernel, hdl handler.Handl
 		}
 		return res, state
 	case f.SortCC, f.SortPBC:
-		return compile(fac, normalform.NNF(fac, formula), kernel, hdl)
+		return compileConstraint(fac, formula, kernel, hdl)
 	default:
 		panic(errorx.UnknownEnumValue(formula.Sort()))
 	}
 }
 
+// compileConstraint compiles a cardinality or pseudo-Boolean constraint without
+// encoding it (the auxiliary variables of an encoding are not variables of the
+// kernel).  The decision nodes are shared by literal index and partial sum.
+func compileConstraint(
+	fac f.Factory, formula f.Formula, kernel *Kernel, hdl handler.Handler,
+) (int32, handler.State) {
+	comparator, rhs, literals, coefficients, _ := fac.PBCOps(formula)
+	minRest, maxRest := make([]int, len(literals)+1), make([]int, len(literals)+1)
+	for i := len(literals) - 1; i >= 0; i-- {
+		minRest[i] = minRest[i+1] + min(coefficients[i], 0)
+		maxRest[i] = maxRest[i+1] + max(coefficients[i], 0)
+	}
+	type partialSum struct{ index, sum int }
+	nodes := make(map[partialSum]int32)
+	var rec func(partialSum) (int32, handler.State)
+	rec = func(p partialSum) (int32, handler.State) {
+		lower, upper := p.sum+minRest[p.index], p.sum+maxRest[p.index]
+		holds := comparator.Evaluate(lower, rhs)
+		decided := holds == comparator.Evaluate(upper, rhs)
+		if comparator == f.EQ {
+			decided = lower == upper || rhs < lower || rhs > upper
+		}
+		if decided && holds {
+			return bddTrue, succ
+		} else if decided {
+			return bddFalse, succ
+		}
+		if node, ok := nodes[p]; ok {
+			return node, succ
+		}
+		idx := kernel.getOrAddVarIndex(literals[p.index].Variable())
+		low, state := rec(partialSum{p.index + 1, p.sum})
+		if !state.Success {
+			return 0, state
+		}
+		high, state := rec(partialSum{p.index + 1, p.sum + coefficients[p.index]})
+		if !state.Success {
+			return 0, state
+		}
+		positive, negative := kernel.ithVar(idx), kernel.nithVar(idx)
+		if literals[p.index].IsNeg() {
+			positive, negative = negative, positive
+		}
+		then, state := kernel.addRef(kernel.and(positive, high), hdl)
+		if !state.Success {
+			return 0, state
+		}
+		otherwise, state := kernel.addRef(kernel.and(negative, low), hdl)
+		if !state.Success {
+			return 0, state
+		}
+		res, state := kernel.addRef(kernel.or(then, otherwise), hdl)
+		kernel.delRef(then)
+		kernel.delRef(otherwise)
+		nodes[p] = res
+		return res, state
+	}
+	res, state := rec(partialSum{})
+	if !state.Success {
+		return 0, state
+	}
+	res, state = kernel.addRef(res, hdl)
+	for _, node := range nodes {
+		kernel.delRef(node)
+	}
+	return res, state
+}
+
 // ToFormula returns a formula representation of the BDD. This is done by using
 // the Shannon expansion. If followPathsToTrue is activated, the paths leading
 // to the true terminal are followed to generate the formula. If
-- 
2.43.0


From e1ff6b7ff04ebad9c9acd7ce0c04ef96b4d03d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 05/64] fix: drop zero-coefficient literals when restricting a
 pseudo-Boolean constraint

---
 assignment/restrict.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/assignment/restrict.go b/assignment/restrict.go
index 7f11c72..4463edf 100644
--- a/assignment/restrict.go
+++ b/assignment/restrict.go
@@ -57,8 +57,11 @@ func restrict(
 			restriction = assignment.restrictNegativeLiteral(fac, literals[i])
 		}
 		if restriction.Sort() == f.SortLiteral {
-			newLits = append(newLits, literals[i])
 			coeff := coefficients[i]
+			if coeff == 0 {
+				continue // does not influence the sum
+			}
+			newLits = append(newLits, literals[i])
 			newCoeffs = append(newCoeffs, coeff)
 			if coeff > 0 {
 				maxValue += coeff
-- 
2.43.0


From 1414fce2502722fd39b2f31c5050d5001b5b4948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 06/64] fix: keep the polarity of constraints when transforming
 to an AIG

---
 normalform/aig.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/normalform/aig.go b/normalform/aig.go
index 7dc3d54..e1983b7 100644
--- a/normalform/aig.go
+++ b/normalform/aig.go
@@ -44,7 +44,15 @@ func AIG(fac f.Factory, formula f.Formula) f.Formula {
 		return cached
 	}
 	var result f.Formula
-	switch formula.Sort() {
+	fsort := formula.Sort()
+	if (fsort == f.SortNot || fsort == f.SortImpl || fsort == f.SortEquiv) && containsConstraint(fac, formula) {
+		// the encoding of a constraint contains auxiliary variables and must
+		// therefore not be used with a negative polarity
+		result = AIG(fac, NNF(fac, formula))
+		f.SetTransformationCache(fac, f.TransAIG, formula, result)
+		return result
+	}
+	switch fsort {
 	case f.SortFalse, f.SortTrue, f.SortLiteral:
 		result = formula
 	case f.SortNot:
@@ -76,8 +84,17 @@ func AIG(fac f.Factory, formula f.Formula) f.Formula {
 	case f.SortCC, f.SortPBC:
 		result = AIG(fac, CNF(fac, formula))
 	default:
-		panic(errorx.UnknownEnumValue(formula.Sort()))
+		panic(errorx.UnknownEnumValue(fsort))
 	}
 	f.SetTransformationCache(fac, f.TransAIG, formula, result)
 	return result
 }
+
+func containsConstraint(fac f.Factory, formula f.Formula) bool {
+	for _, node := range f.SubNodes(fac, formula) {
+		if sort := node.Sort(); sort == f.SortCC || sort == f.SortPBC {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From e4544e0f7f67b9acba1508530701a9229476bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 07/64] fix: do not register a missing auxiliary literal for
 factorized formulas in PGCNF

---
 normalform/cnf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalform/cnf.go b/normalform/cnf.go
index d5480f6..cbca1c8 100644
--- a/normalform/cnf.go
+++ b/normalform/cnf.go
@@ -283,8 +283,8 @@ func PGCNF(fac f.Factory, formula f.Formula, boundaryForFactorization int, state
 		pg = computeTransformation(fac, nnf, state)
 		topLevel, _ := assignment.New(fac, state.LiteralMap[nnf])
 		pg = assignment.Restrict(fac, pg, topLevel)
+		state.LiteralMap[formula] = state.LiteralMap[nnf]
 	}
-	state.LiteralMap[formula] = state.LiteralMap[nnf]
 	return pg
 }
 
-- 
2.43.0


From 01b4e2adee3467d59c0d2dc200422a0cd2dff24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 08/64] fix: encode a cardinality constraint with a negative
 bound as contradiction

---
 encoding/cc_encoding.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding/cc_encoding.go b/encoding/cc_encoding.go
index 97bce7c..4d68b5a 100644
--- a/encoding/cc_encoding.go
+++ b/encoding/cc_encoding.go
@@ -175,6 +175,10 @@ func exo(result Result, config *Config, vars []f.Variable) {
 }
 
 func amk(result Result, config *Config, rhs int, vars []f.Variable) {
+	if rhs < 0 { // less than zero variables cannot be satisfied
+		result.AddClause()
+		return
+	}
 	if rhs >= len(vars) { // there is no constraint
 		return
 	}
@@ -265,6 +269,10 @@ func amkIncremental(
 	vars []f.Variable,
 	rhs int,
 ) (*CCIncrementalData, error) {
+	if rhs < 0 { // less than zero variables cannot be satisfied
+		result.AddClause()
+		return nil, errorx.BadInput("contradiction AMK with rhs < 0")
+	}
 	if rhs >= len(vars) {
 		return nil, errorx.BadInput("tautology AMK with rhs > len(vars)")
 	}
-- 
2.43.0


From f9ad7c9e629066f14dafe8ef6179d4aee4305fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 09/64] fix: do not put zero literals into the clauses of
 direct sorters

---
 encoding/cc_cardinality_network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/cc_cardinality_network.go b/encoding/cc_cardinality_network.go
index ac60705..4556dd7 100644
--- a/encoding/cc_cardinality_network.go
+++ b/encoding/cc_cardinality_network.go
@@ -244,7 +244,7 @@ func directSorter(m int, input, output *[]f.Literal, result Result) {
 	}
 	for bitmask < int(math.Pow(2, float64(n))) {
 		count := 0
-		clear(clause)
+		clause = clause[:0]
 		for i := range n {
 			if ((1 << i) & bitmask) != 0 {
 				count++
-- 
2.43.0


From c8989901530efeb1a90f78d231ef9706b86c0bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 10/64] fix: restore acceptance of trailing input, which
 existing tests rely on

---
 parser/propositional_parser.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index 607a811..fed0e03 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -53,10 +53,6 @@ func (p *PropositionalParser) parse(data string) (f.Formula, error) {
 	lngParser.RemoveErrorListeners()
 	lngParser.AddErrorListener(errorListener)
 	tree := lngParser.Formula()
-	if next := stream.LT(1); !errorListener.err && next.GetTokenType() != antlr.TokenEOF {
-		message := fmt.Sprintf("extraneous input '%s' expecting <EOF>", next.GetText())
-		errorListener.SyntaxError(lngParser, next, next.GetLine(), next.GetColumn(), message, nil)
-	}
 	if errorListener.err {
 		return p.fac.Falsum(), errorx.BadInput("%s", errorListener.message)
 	}
-- 
2.43.0


From bf281d0c0495ab384d62be36d7c2dcf8234e8455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 11/64] fix: compile the encoding of a constraint if the BDD
 kernel is ordered over its variables

---
 bdd/bdd.go    | 5 +++++
 bdd/kernel.go | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index 7747174..84a795e 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -8,6 +8,7 @@ import (
 	f "github.com/booleworks/logicng-go/formula"
 	"github.com/booleworks/logicng-go/handler"
 	"github.com/booleworks/logicng-go/model"
+	"github.com/booleworks/logicng-go/normalform"
 )
 
 // A BDD is a canonical representation of a Boolean formula. It contains a
@@ -211,6 +212,10 @@ func compile(fac f.Factory, formula f.Formula, kernel *Kernel, hdl handler.Handl
 		}
 		return res, state
 	case f.SortCC, f.SortPBC:
+		// an ordering over the encoded constraint asks for the encoding itself
+		if nnf := normalform.NNF(fac, formula); kernel.containsAll(f.Variables(fac, nnf)) {
+			return compile(fac, nnf, kernel, hdl)
+		}
 		return compileConstraint(fac, formula, kernel, hdl)
 	default:
 		panic(errorx.UnknownEnumValue(formula.Sort()))
diff --git a/bdd/kernel.go b/bdd/kernel.go
index 81dcc3f..61580b9 100644
--- a/bdd/kernel.go
+++ b/bdd/kernel.go
@@ -299,6 +299,15 @@ func (k *Kernel) getOrAddVarIndex(variable f.Variable) int32 {
 	return index
 }
 
+func (k *Kernel) containsAll(variables *f.VarSet) bool {
+	for _, variable := range variables.Content() {
+		if _, ok := k.var2idx[variable]; !ok {
+			return false
+		}
+	}
+	return true
+}
+
 func (k *Kernel) getVariableForIndex(idx int32) (variable f.Variable, found bool) {
 	variable, found = k.idx2var[idx]
 	return
-- 
2.43.0


From 9eb5c8a7a60661eb696d82d4d4ea9275add12d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 12/64] fix: BDD normal forms of constraints order only the
 variables of the formula

---
 bdd/normalform.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bdd/normalform.go b/bdd/normalform.go
index e69a730..2127f0e 100644
--- a/bdd/normalform.go
+++ b/bdd/normalform.go
@@ -1,6 +1,8 @@
 package bdd
 
 import (
+	"slices"
+
 	f "github.com/booleworks/logicng-go/formula"
 	"github.com/booleworks/logicng-go/handler"
 	"github.com/booleworks/logicng-go/normalform"
@@ -54,7 +56,8 @@ func compute(fac f.Factory, formula f.Formula, cnf bool, hdl handler.Handler) (f
 	if ok {
 		return cached, succ
 	}
-	order := ForceOrder(fac, formula)
+	variables := f.Variables(fac, formula)
+	order := slices.DeleteFunc(ForceOrder(fac, formula), func(v f.Variable) bool { return !variables.Contains(v) })
 	bdd, state := CompileWithVarOrderAndHandler(fac, formula, order, hdl)
 	if !state.Success {
 		return 0, state
-- 
2.43.0


From ff463cfb5cf85f0f78abc54e68ea425f0b9f4969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:00 +0000
Subject: [PATCH 13/64] fix: normalize both halves of a pseudo-Boolean equation
 from the original literals

---
 encoding/normalize.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/normalize.go b/encoding/normalize.go
index 7b39a4e..2048d97 100644
--- a/encoding/normalize.go
+++ b/encoding/normalize.go
@@ -25,6 +25,7 @@ func Normalize(fac f.Factory, constraint f.Formula) f.Formula {
 		copy(normCs, coefficients)
 		normRhs = rhs
 		f1 := normalizeLE(fac, normPs, normCs, normRhs)
+		copy(normPs, literals) // was compacted by the first normalization
 		normCs = make([]int, len(literals))
 		for i := range literals {
 			normCs[i] = -coefficients[i]
-- 
2.43.0


From 66ade422af3d38fd4894cd994dcb9e99205b6d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 14/64] fix: adder encoding of right-hand sides beyond 31 bits

---
 encoding/pbc_adder.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/encoding/pbc_adder.go b/encoding/pbc_adder.go
index 1016377..d85cbea 100644
--- a/encoding/pbc_adder.go
+++ b/encoding/pbc_adder.go
@@ -1,6 +1,7 @@
 package encoding
 
 import (
+	"math/bits"
 	"slices"
 
 	f "github.com/booleworks/logicng-go/formula"
@@ -28,13 +29,7 @@ func encodePBCAdder(result Result, lits []f.Literal, coeffs []int, rhs int) {
 }
 
 func ldInt(x int) int {
-	ldreturn := 0
-	for i := range 31 {
-		if (x & (1 << i)) > 0 {
-			ldreturn = i + 1
-		}
-	}
-	return ldreturn
+	return bits.Len(uint(x))
 }
 
 func adderTree(result Result, buckets *[][]f.Literal, literals *[]f.Literal, nullLit f.Literal) {
-- 
2.43.0


From b40b37c86e173dc3420193e1a2fa00a186114880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:02 +0000
Subject: [PATCH 15/64] fix: integer arithmetic in the binary merge encoding

---
 encoding/pbc_binary_merge.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/encoding/pbc_binary_merge.go b/encoding/pbc_binary_merge.go
index e32ce44..c548a92 100644
--- a/encoding/pbc_binary_merge.go
+++ b/encoding/pbc_binary_merge.go
@@ -2,6 +2,7 @@ package encoding
 
 import (
 	"math"
+	"math/bits"
 	"slices"
 
 	f "github.com/booleworks/logicng-go/formula"
@@ -77,10 +78,10 @@ func binaryMerge(
 ) {
 	fac := result.Factory()
 	lessThen := leq + 1
-	p := int(math.Floor(math.Log(float64(maxWeight)) / math.Log(2)))
-	m := int(math.Ceil(float64(lessThen) / math.Pow(2, float64(p))))
-	newLessThen := int(float64(m) * math.Pow(2, float64(p)))
-	t := int(float64(m)*math.Pow(2, float64(p)) - float64(lessThen))
+	p := bits.Len(uint(maxWeight)) - 1
+	m := (lessThen-1)>>p + 1
+	newLessThen := m << p
+	t := newLessThen - lessThen
 
 	trueLit := result.NewAuxVar(f.AuxPBC).AsLiteral()
 	result.AddClause(trueLit)
@@ -110,7 +111,7 @@ func binaryMerge(
 	}
 	carries := make([]f.Literal, 0, 4)
 	for i := range buckets {
-		k := int(math.Ceil(float64(newLessThen) / math.Pow(2, float64(i))))
+		k := (newLessThen-1)>>i + 1
 		if config.BinaryMergeUseWatchDog {
 			totalizer(result, &buckets[i], &bucketCard[i])
 		} else {
-- 
2.43.0


From 48080178b70d9eab22d5d34877a15d75d23a1202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 16/64] fix: basic clause minimization of literals propagated
 by at-most clauses

---
 sat/core.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sat/core.go b/sat/core.go
index df4873e..4da963f 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -1057,6 +1057,15 @@ func (m *CoreSolver) simplifyClause(outLearnt *[]int32) {
 			if c == nil {
 				(*outLearnt)[j] = (*outLearnt)[i]
 				j++
+			} else if c.isAtMost {
+				for k := 0; k < c.size(); k++ {
+					q := c.get(k)
+					if m.value(q) == f.TristateTrue && !m.seen[Vari(q)] && m.v(q).level > 0 {
+						(*outLearnt)[j] = (*outLearnt)[i]
+						j++
+						break
+					}
+				}
 			} else {
 				var k int
 				if c.size() == 2 {
-- 
2.43.0


From c1cc6544159d253d5a40b3203860c33c56fa1c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 17/64] fix: backbone computation on a solver with proof
 generation

---
 sat/core.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sat/core.go b/sat/core.go
index 4da963f..dc70eb1 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -501,7 +501,7 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 				} else if m.value(p) == f.TristateFalse {
 					if m.config.ProofGeneration {
 						drupLit := (Vari(p) + 1) * (-2*signAsInt(p) + 1)
-						pi := proofInformation{[]int32{drupLit}, m.assumptionProps[m.decisionLevel()]}
+						pi := proofInformation{[]int32{drupLit}, m.assumptionProp(m.decisionLevel())}
 						m.pgOriginalClauses = append(m.pgOriginalClauses, pi)
 					}
 					m.analyzeFinal(Not(p))
@@ -509,7 +509,7 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 				} else {
 					if m.config.ProofGeneration {
 						drupLit := (Vari(p) + 1) * (-2*signAsInt(p) + 1)
-						pi := proofInformation{[]int32{drupLit}, m.assumptionProps[m.decisionLevel()]}
+						pi := proofInformation{[]int32{drupLit}, m.assumptionProp(m.decisionLevel())}
 						m.pgOriginalClauses = append(m.pgOriginalClauses, pi)
 					}
 					next = p
@@ -528,6 +528,15 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 	}
 }
 
+// assumptionProp returns the proposition of the assumption with the given index
+// or nil if the assumptions were not given by propositions.
+func (m *CoreSolver) assumptionProp(index int) f.Proposition {
+	if index < len(m.assumptionProps) {
+		return m.assumptionProps[index]
+	}
+	return nil
+}
+
 func (m *CoreSolver) saveState() *SolverState {
 	state := make([]int, 6)
 	if m.ok {
-- 
2.43.0


From ac57b77a9ff13b8364eea5fca50927a653e884c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 18/64] fix: report only assigned unit literals in
 FormulasOnSolver

---
 sat/formulas_on_solver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sat/formulas_on_solver.go b/sat/formulas_on_solver.go
index a75dda9..7cfc29b 100644
--- a/sat/formulas_on_solver.go
+++ b/sat/formulas_on_solver.go
@@ -37,7 +37,7 @@ func (s *Solver) FormulasOnSolver() []f.Formula {
 	}
 	for i := 0; i < len(s.core.vars); i++ {
 		variable := s.core.vars[i]
-		if variable.level == 0 {
+		if variable.assignment != f.TristateUndef && variable.level == 0 {
 			formulas.Add(s.fac.Literal(s.core.idx2name[int32(i)], variable.assignment == f.TristateTrue))
 		}
 	}
-- 
2.43.0


From ea05e34e180f01ebe5a27bafc5eb7a38d05bdb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 19/64] fix: keep the order of assumptions and of the operands
 of constraints when adding them to a solver

---
 sat/solver.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sat/solver.go b/sat/solver.go
index a3f64ae..5a6e745 100644
--- a/sat/solver.go
+++ b/sat/solver.go
@@ -1,8 +1,6 @@
 package sat
 
 import (
-	"slices"
-
 	"github.com/booleworks/logicng-go/configuration"
 	"github.com/booleworks/logicng-go/encoding"
 	"github.com/booleworks/logicng-go/errorx"
@@ -147,7 +145,6 @@ func (s *Solver) addClause(formula f.Formula, proposition f.Proposition) {
 
 func (s *Solver) generateClauseVector(literals []f.Literal) []int32 {
 	clause := make([]int32, len(literals))
-	slices.Sort(literals)
 	for i, lit := range literals {
 		_, phase, _ := s.fac.LitNamePhase(lit)
 		index := s.getOrAddIndex(lit)
-- 
2.43.0


From bfb244d2f037d011ca6dcd19a445bbe098354af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 20/64] fix: unsat cores of assumption calls that need learnt
 clauses

---
 sat/proofs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sat/proofs.go b/sat/proofs.go
index 7a191f9..07f4a9c 100644
--- a/sat/proofs.go
+++ b/sat/proofs.go
@@ -113,7 +113,9 @@ func (s *drupSolver) parse() bool {
 		}
 		clauseNr++
 		if clause == nil {
-			s.lemmas = len(s.db) + 1
+			if nZeros >= 0 {
+				s.lemmas = len(s.db) + 1
+			}
 			break
 		}
 		toks := make([]int, 0, len(clause)-1)
-- 
2.43.0


From 273d67d9f3455e64bf3ca87c219b87d42ba1025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:12 +0000
Subject: [PATCH 21/64] fix: encode cardinality constraints on solvers with
 proof generation

---
 sat/solver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sat/solver.go b/sat/solver.go
index 5a6e745..efaccc0 100644
--- a/sat/solver.go
+++ b/sat/solver.go
@@ -79,7 +79,7 @@ func (s *Solver) AddProposition(propositions ...f.Proposition) {
 
 func (s *Solver) addWithProp(formula f.Formula, proposition f.Proposition) {
 	if formula.Sort() == f.SortCC {
-		if s.config.UseAtMostClauses {
+		if s.config.UseAtMostClauses && !s.config.ProofGeneration { // at-most clauses cannot be traced in proofs
 			comparator, rhs, literals, _, _ := s.fac.PBCOps(formula)
 			if comparator == f.LE {
 				s.core.addAtMost(s.generateClauseVector(literals), rhs)
-- 
2.43.0


From 1298a14def69752f21b275283ae61ea4aa4afc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:53 +0000
Subject: [PATCH 22/64] fix: include target literals unknown to the solver in
 optimized models

---
 sat/optimizer_function.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/sat/optimizer_function.go b/sat/optimizer_function.go
index 6577865..a51a480 100644
--- a/sat/optimizer_function.go
+++ b/sat/optimizer_function.go
@@ -67,15 +67,7 @@ func (s *Solver) optimize(
 		variable := lit.Variable()
 		resultModelVariables.Add(variable)
 	}
-	relevantIndices := make([]int32, 0, resultModelVariables.Size())
-	for _, variable := range resultModelVariables.Content() {
-		name, _ := s.fac.VarName(variable)
-		idx := s.core.IdxForName(name)
-		if idx != -1 {
-			relevantIndices = append(relevantIndices, idx)
-		}
-	}
-	mdl, state := s.maximize(maximize, literals, relevantIndices, hdl)
+	mdl, state := s.maximize(maximize, literals, resultModelVariables, hdl)
 	_ = s.LoadState(initialState)
 	return mdl, state
 }
@@ -83,7 +75,7 @@ func (s *Solver) optimize(
 func (s *Solver) maximize(
 	maximize bool,
 	literals []f.Literal,
-	relevantIndices []int32,
+	resultModelVariables *f.MutableVarSet,
 	hdl handler.Handler,
 ) (*model.Model, handler.State) {
 	if e := event.OptimizationFunctionStarted; !hdl.ShouldResume(e) {
@@ -110,6 +102,16 @@ func (s *Solver) maximize(
 		}
 	}
 
+	// only now all variables of the literals are known on the solver
+	relevantIndices := make([]int32, 0, resultModelVariables.Size())
+	for _, variable := range resultModelVariables.Content() {
+		name, _ := s.fac.VarName(variable)
+		idx := s.core.IdxForName(name)
+		if idx != -1 {
+			relevantIndices = append(relevantIndices, idx)
+		}
+	}
+
 	params := Params().Handler(hdl).WithModel(selectors)
 	sResult := s.Call(params)
 	if sResult.Canceled() {
-- 
2.43.0


From 09540bc3fa59b2c07a53540b1b346cb86f9fa854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 23/64] fix: report the cancelation of a SAT call at a conflict

---
 sat/core.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sat/core.go b/sat/core.go
index dc70eb1..dc3e105 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -394,7 +394,12 @@ func (m *CoreSolver) Solve(hdl handler.Handler) (f.Tristate, handler.State) {
 	}
 	status := f.TristateUndef
 	for status == f.TristateUndef {
-		status, _ = m.search(hdl)
+		var state handler.State
+		status, state = m.search(hdl)
+		if !state.Success {
+			m.cancelUntil(0)
+			return f.TristateFalse, state
+		}
 	}
 
 	if m.config.ProofGeneration && len(m.assumptions) == 0 {
@@ -437,6 +442,9 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 		confl := m.propagate()
 		if confl != nil {
 			if e := event.SatConflictDetected; !hdl.ShouldResume(e) {
+				if m.decisionLevel() == 0 {
+					m.qhead = 0 // the conflict has to be found again
+				}
 				return f.TristateUndef, handler.Cancelation(e)
 			}
 			m.conflicts++
-- 
2.43.0


From adfc566921020b062bd4f6fdb6445964987db563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 24/64] fix: report the cancelation of SAT calls and of split
 recursions in the model iteration

---
 model/iter/iteration.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index dc06f08..542925b 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -76,6 +76,10 @@ func (m *ModelIterator[R]) iterRecursive(
 	iterFinished, iterState := iterate(collector, solver, iterVars, m.additionalVars, maxModelsForIter, m.hdl)
 	if !iterState.Success {
 		collector.Commit(m.hdl)
+		err := solver.LoadState(state)
+		if err != nil {
+			panic(err)
+		}
 		return iterState
 	}
 	if !iterFinished {
@@ -127,7 +131,14 @@ func (m *ModelIterator[R]) iterRecursive(
 			recursiveSplitAssignment := make([]f.Literal, newSplitAssignment.Size())
 			copy(recursiveSplitAssignment, newSplitAssignment.Literals)
 			recursiveSplitAssignment = append(recursiveSplitAssignment, splitModel...)
-			m.iterRecursive(collector, solver, recursiveSplitAssignment, iterVars, recursiveSplitVars, recursionDepth+1)
+			recState := m.iterRecursive(collector, solver, recursiveSplitAssignment, iterVars, recursiveSplitVars, recursionDepth+1)
+			if !recState.Success {
+				err := solver.LoadState(state)
+				if err != nil {
+					panic(err)
+				}
+				return recState
+			}
 			if s := collector.Commit(m.hdl); !s.Success {
 				err := solver.LoadState(state)
 				if err != nil {
@@ -166,7 +177,12 @@ func iterate[R any](
 
 	foundModels := 0
 	state := handler.Success()
-	for iterSATCall(solver, hdl) {
+	for {
+		var isSat bool
+		isSat, state = iterSATCall(solver, hdl)
+		if !isSat {
+			break
+		}
 		modelFromSolver := solver.CoreSolver().Model()
 		foundModels++
 		if foundModels >= maxModels {
@@ -194,9 +210,9 @@ func iterate[R any](
 	return true, succ
 }
 
-func iterSATCall(solver *sat.Solver, hdl handler.Handler) bool {
+func iterSATCall(solver *sat.Solver, hdl handler.Handler) (bool, handler.State) {
 	sResult := solver.Call(sat.Params().Handler(hdl))
-	return sResult.OK() && sResult.Sat()
+	return sResult.OK() && sResult.Sat(), sResult.State()
 }
 
 func generateBlockingClause(modelFromSolver []bool, relevantVars []int32) []int32 {
-- 
2.43.0


From b78a65d49ced0f8b4de0f12901ba43c8a69a0b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:17 +0000
Subject: [PATCH 25/64] fix: report an empty list of propositions as
 satisfiable in the insertion-based MUS computation

---
 explanation/mus/mus.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explanation/mus/mus.go b/explanation/mus/mus.go
index b3c508b..5744ee9 100644
--- a/explanation/mus/mus.go
+++ b/explanation/mus/mus.go
@@ -30,6 +30,9 @@ func ComputeInsertionBasedWithHandler(
 	if e := event.MusComputationStarted; !hdl.ShouldResume(e) {
 		return nil, handler.Cancelation(e), nil
 	}
+	if len(*propositions) == 0 {
+		return nil, handler.Success(), errorx.BadInput("formula set is satisfiable")
+	}
 	currentFormula := make([]f.Proposition, len(*propositions))
 	copy(currentFormula, *propositions)
 	mus := make([]f.Proposition, 0, len(*propositions))
-- 
2.43.0


From 99b8812a8d142e3eb65d9b26ccb3dd6bc049dd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 26/64] fix: do not forbid the only remaining literal in the PB
 encoding of MaxSAT

---
 maxsat/enc_swc.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/maxsat/enc_swc.go b/maxsat/enc_swc.go
index d05d518..2b88045 100644
--- a/maxsat/enc_swc.go
+++ b/maxsat/enc_swc.go
@@ -59,11 +59,8 @@ func (m *swc) encode(s *sat.CoreSolver, lits *[]int32, coeffs *[]int, rhs int) {
 			addUnitClause(s, sat.Not(simpLits[i]))
 		}
 	}
-	if len(*lits) == 1 {
-		addUnitClause(s, sat.Not((*lits)[0]))
-		return
-	}
-	if len(*lits) == 0 {
+	if len(*lits) <= 1 {
+		// a single remaining literal has a coefficient <= rhs
 		return
 	}
 	n := len(*lits)
-- 
2.43.0


From e86258b14497c2a6c7cf76fd75b0b3097a016356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 27/64] fix: WMSU3 on stratified instances without incremental
 encoding and when solving repeatedly

---
 maxsat/alg_wmsu3.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/maxsat/alg_wmsu3.go b/maxsat/alg_wmsu3.go
index 027fa52..d2fc568 100644
--- a/maxsat/alg_wmsu3.go
+++ b/maxsat/alg_wmsu3.go
@@ -36,11 +36,11 @@ func (m *wmsu3) search(hdl handler.Handler) (Result, handler.State) {
 		panic(errorx.BadInput("wmsu3 does not support unweighted MaxSAT instances"))
 	}
 	m.encoder = newEncoder()
-	isBMO := m.bmoMode && m.isBmo(true)
-	if !isBMO {
-		m.currentWeight = 1
-	}
 	return m.innerSearch(hdl, func() (Result, handler.State) {
+		isBMO := m.bmoMode && m.incrementalStrategy == IncIterative && m.isBmo(true)
+		if !isBMO {
+			m.currentWeight = 1
+		}
 		switch m.incrementalStrategy {
 		case IncNone:
 			return m.none()
-- 
2.43.0


From 6f01275841024a0f9a79663c9fa4e31e3e3a1ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:40 +0000
Subject: [PATCH 28/64] fix: add contradictory formulas to a MaxSAT solver as
 empty clauses

---
 maxsat/algorithm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxsat/algorithm.go b/maxsat/algorithm.go
index ddc457b..ade513e 100644
--- a/maxsat/algorithm.go
+++ b/maxsat/algorithm.go
@@ -263,8 +263,9 @@ func (m *maxSatAlgorithm) getModel() []bool {
 }
 
 func (m *maxSatAlgorithm) addClause(formula f.Formula, weight int) {
-	clauseVec := make([]int32, f.NumberOfAtoms(m.fac, formula))
-	for i, lit := range f.Literals(m.fac, formula).Content() {
+	literals := f.Literals(m.fac, formula).Content()
+	clauseVec := make([]int32, len(literals))
+	for i, lit := range literals {
 		variable := lit.Variable()
 		index, ok := m.var2index[variable]
 		if !ok {
-- 
2.43.0


From d65958e83a9e7655add5fd99097a75c9f5743ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 29/64] fix: record clauses without repeated literals for the
 proof checker

---
 sat/core.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sat/core.go b/sat/core.go
index dc3e105..300f659 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -260,9 +260,11 @@ func (m *CoreSolver) addUnitClause(lit int32, proposition f.Proposition) bool {
 func (m *CoreSolver) AddClause(ps []int32, proposition f.Proposition) bool {
 	m.assertNotInCall()
 	if m.config.ProofGeneration {
-		slice := make([]int32, len(ps))
+		slice := make([]int32, 0, len(ps))
 		for i, p := range ps {
-			slice[i] = (Vari(p) + 1) * (-2*signAsInt(p) + 1)
+			if !slices.Contains(ps[:i], p) {
+				slice = append(slice, (Vari(p)+1)*(-2*signAsInt(p)+1))
+			}
 		}
 		m.pgOriginalClauses = append(m.pgOriginalClauses, proofInformation{slice, proposition})
 	}
@@ -274,10 +276,9 @@ func (m *CoreSolver) AddClause(ps []int32, proposition f.Proposition) bool {
 	flag := false
 	var oc []int32
 	if m.config.ProofGeneration {
-		oc = make([]int32, len(ps))
+		oc = slices.Compact(slices.Clone(ps))
 		p := LitUndef
 		for i := 0; i < len(ps); i++ {
-			oc[i] = ps[i]
 			if m.value(ps[i]) == f.TristateTrue || ps[i] == Not(p) || m.value(ps[i]) == f.TristateFalse {
 				flag = true
 			}
-- 
2.43.0


From 4841a88d9dfa30e2d09c737231886774a0cc98d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 30/64] fix: level marks of the SAT solver if there are more
 assumption levels than variables

---
 sat/core.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sat/core.go b/sat/core.go
index 300f659..ff32781 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -1034,6 +1034,9 @@ func (m *CoreSolver) computeLBD(lits *[]int32) int {
 	m.myflag++
 	for i := 0; i < len(*lits); i++ {
 		l := m.v((*lits)[i]).level
+		for l >= len(m.permDiff) { // assumptions can lead to more levels than variables
+			m.permDiff = append(m.permDiff, 0)
+		}
 		if m.permDiff[l] != m.myflag {
 			m.permDiff[l] = m.myflag
 			nbLevels++
-- 
2.43.0


From 249591687bb2c027bb71856c42e3285081ff9055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 31/64] fix: a canceled MaxSAT solve is not remembered as the
 result of later solves

---
 maxsat/solver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxsat/solver.go b/maxsat/solver.go
index 2f5e80c..852e759 100644
--- a/maxsat/solver.go
+++ b/maxsat/solver.go
@@ -231,7 +231,7 @@ func (m *Solver) SolveWithHandler(hdl handler.Handler) (Result, handler.State) {
 	}
 	var state handler.State
 	m.result, state = m.solver.search(hdl)
-	m.ok = true
+	m.ok = state.Success
 	return m.result, state
 }
 
-- 
2.43.0


From d397ca6aff77827e3b2ba321fe034ad92f5807ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 32/64] fix: restore the MaxSAT solver when it is canceled at
 the end of the search and keep the original cancelation

---
 maxsat/algorithm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxsat/algorithm.go b/maxsat/algorithm.go
index ade513e..fb5404d 100644
--- a/maxsat/algorithm.go
+++ b/maxsat/algorithm.go
@@ -104,11 +104,11 @@ func (m *maxSatAlgorithm) innerSearch(
 	}
 	stateBeforeSolving := m.saveState()
 	result, state := search()
-	if e := event.MaxSatCallFinished; !hdl.ShouldResume(e) {
-		return Result{}, handler.Cancelation(e)
-	}
 	_ = m.loadState(stateBeforeSolving)
 	m.hdl = nil
+	if e := event.MaxSatCallFinished; !hdl.ShouldResume(e) && state.Success {
+		return Result{}, handler.Cancelation(e)
+	}
 	return result, state
 }
 
-- 
2.43.0


From 5a1f4ed1f1ac84dd98c82b76bbec28b97eccf7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 33/64] fix: additional variables unknown to the solver are
 assigned only once if they are enumerated, too

---
 model/iter/iteration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index 542925b..d3c50f7 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -51,7 +51,7 @@ func (m *ModelIterator[R]) Iterate(
 		return emptyElement, handler.Cancelation(e)
 	}
 	knownVariables := solver.CoreSolver().KnownVariables(solver.Factory())
-	additionalVarsNotOnSolver := difference(m.additionalVars, knownVariables)
+	additionalVarsNotOnSolver := difference(difference(m.additionalVars, m.vars), knownVariables)
 	dontCareVariablesNotOnSolver := difference(m.vars, knownVariables)
 	collector := newCollector(solver.Factory(), knownVariables, dontCareVariablesNotOnSolver, additionalVarsNotOnSolver)
 	initialSplitVars := f.NewMutableVarSet()
-- 
2.43.0


From 079ca220e503c9036aae07657eee92bb1553cfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 34/64] fix: additional variables unknown to the solver are not
 part of split assignments in the model enumeration

---
 model/enum/enumeration.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/model/enum/enumeration.go b/model/enum/enumeration.go
index 9ea035d..086b637 100644
--- a/model/enum/enumeration.go
+++ b/model/enum/enumeration.go
@@ -97,9 +97,7 @@ func (c *modelEnumCollector) AddModel(
 ) handler.State {
 	e := iter.EventIteratorFoundModels{NumberOfModels: len(c.baseModels)}
 	mdl := solver.CoreSolver().CreateModel(solver.Factory(), modelFromSolver, relevantAllIndices)
-	modelLiterals := c.additionalVariablesNotOnSolver.Content()
-	modelLiterals = append(modelLiterals, mdl.Literals...)
-	c.uncommittedModels = append(c.uncommittedModels, modelLiterals)
+	c.uncommittedModels = append(c.uncommittedModels, mdl.Literals)
 	if !hdl.ShouldResume(e) {
 		return handler.Cancelation(e)
 	}
@@ -138,10 +136,12 @@ func (c *modelEnumCollector) Result() []*model.Model {
 
 func (c *modelEnumCollector) expandUncommittedModels() []*model.Model {
 	expanded := make([]*model.Model, 0, len(c.baseModels))
+	additionalLiterals := c.additionalVariablesNotOnSolver.Content()
 	for _, baseModel := range c.baseModels {
 		for _, uncommittedModel := range c.uncommittedModels {
-			completeModel := make([]f.Literal, 0, len(baseModel)+len(uncommittedModel))
+			completeModel := make([]f.Literal, 0, len(baseModel)+len(additionalLiterals)+len(uncommittedModel))
 			completeModel = append(completeModel, baseModel...)
+			completeModel = append(completeModel, additionalLiterals...)
 			completeModel = append(completeModel, uncommittedModel...)
 			expanded = append(expanded, model.New(completeModel...))
 		}
-- 
2.43.0


From 09792af361a0990643c63de2d3573b53c7ee10d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 35/64] fix: model iteration splits only on enumeration
 variables which are known to the solver

---
 model/iter/iteration.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index d3c50f7..f58526f 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -54,11 +54,14 @@ func (m *ModelIterator[R]) Iterate(
 	additionalVarsNotOnSolver := difference(difference(m.additionalVars, m.vars), knownVariables)
 	dontCareVariablesNotOnSolver := difference(m.vars, knownVariables)
 	collector := newCollector(solver.Factory(), knownVariables, dontCareVariablesNotOnSolver, additionalVarsNotOnSolver)
+	iterVars := difference(m.vars, dontCareVariablesNotOnSolver)
 	initialSplitVars := f.NewMutableVarSet()
-	if vars := m.strategy.SplitVarsForRecursionDepth(m.vars, solver, 0); vars.Size() > 0 {
-		initialSplitVars.AddAll(vars)
+	for _, v := range m.strategy.SplitVarsForRecursionDepth(iterVars, solver, 0).Content() {
+		if iterVars.Contains(v) {
+			initialSplitVars.Add(v)
+		}
 	}
-	state := m.iterRecursive(collector, solver, []f.Literal{}, m.vars, initialSplitVars.AsImmutable(), 0)
+	state := m.iterRecursive(collector, solver, []f.Literal{}, iterVars, initialSplitVars.AsImmutable(), 0)
 	return collector.Result(), state
 }
 
-- 
2.43.0


From 99db745853bd02b4f1cc2e8af4190a3e1b6798c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 36/64] fix: counting on BDDs does not change the cached counts

---
 bdd/operation.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bdd/operation.go b/bdd/operation.go
index c292588..545f902 100644
--- a/bdd/operation.go
+++ b/bdd/operation.go
@@ -181,7 +181,7 @@ func (k *Kernel) allUnsatRec(r int32, models *[][]byte, allunsatProfile *[]byte)
 func (k *Kernel) satCount(r int32) *big.Int {
 	size, i, e := big.NewInt(0), big.NewInt(2), big.NewInt(int64(k.level(r)))
 	size.Exp(i, e, nil)
-	satcount := k.satCountRec(r, cacheidSatcou)
+	satcount := new(big.Int).Set(k.satCountRec(r, cacheidSatcou))
 	satcount.Mul(satcount, size)
 	return satcount
 }
@@ -210,7 +210,7 @@ func (k *Kernel) satCountRec(root, miscid int32) *big.Int {
 }
 
 func (k *Kernel) pathCountOne(r int32) *big.Int {
-	return k.pathCountRecOne(r, cacheidPathcouOne)
+	return new(big.Int).Set(k.pathCountRecOne(r, cacheidPathcouOne))
 }
 
 func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
@@ -226,7 +226,7 @@ func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
 		return entry.bdres
 	}
 	count := k.pathCountRecOne(k.low(r), miscid)
-	size = count.Add(count, k.pathCountRecOne(k.high(r), miscid))
+	size = new(big.Int).Add(count, k.pathCountRecOne(k.high(r), miscid))
 	entry.a = r
 	entry.c = miscid
 	entry.bdres = size
@@ -234,7 +234,7 @@ func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
 }
 
 func (k *Kernel) pathCountZero(r int32) *big.Int {
-	return k.pathCountRecZero(r, cacheidPathcouZero)
+	return new(big.Int).Set(k.pathCountRecZero(r, cacheidPathcouZero))
 }
 
 func (k *Kernel) pathCountRecZero(r, miscid int32) *big.Int {
@@ -250,7 +250,7 @@ func (k *Kernel) pathCountRecZero(r, miscid int32) *big.Int {
 		return entry.bdres
 	}
 	count := k.pathCountRecZero(k.low(r), miscid)
-	size = count.Add(count, k.pathCountRecZero(k.high(r), miscid))
+	size = new(big.Int).Add(count, k.pathCountRecZero(k.high(r), miscid))
 	entry.a = r
 	entry.c = miscid
 	entry.bdres = size
-- 
2.43.0


From a96d52e25b5ed628337bebea1928e2ca18c5264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 37/64] fix: ToFormula of a BDD respects the option
 followPathsToTrue

---
 bdd/bdd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index 84a795e..34ba6e4 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -300,7 +300,7 @@ func compileConstraint(
 // respectively.
 func (b *BDD) ToFormula(fac f.Factory, followPathsToTrue ...bool) f.Formula {
 	var fptt bool
-	if len(followPathsToTrue) > 1 {
+	if len(followPathsToTrue) > 0 {
 		fptt = followPathsToTrue[0]
 	} else {
 		fptt = true
-- 
2.43.0


From fb25351560d24a40e1126b00332781a634c0b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 38/64] fix: results of BDD restriction and quantification are
 protected from garbage collection

---
 bdd/bdd.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index 34ba6e4..d73af38 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -409,21 +409,24 @@ func (b *BDD) NumberOfCNFClauses() *big.Int {
 // the respective variables anymore.
 func (b *BDD) Restrict(restriction ...f.Literal) *BDD {
 	resBdd := CompileLiterals(restriction, b.Kernel)
-	return newBdd(b.Kernel.restrict(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.restrict(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // Exists performs existential quantifier elimination for a given set of
 // variables and return the resulting BDD.
 func (b *BDD) Exists(variable ...f.Variable) *BDD {
 	resBdd := CompileLiterals(f.VariablesAsLiterals(variable), b.Kernel)
-	return newBdd(b.Kernel.exists(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.exists(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // ForAll performs universal quantifier elimination for a given set of
 // variables and returns the resulting BDD.
 func (b *BDD) ForAll(variable ...f.Variable) *BDD {
 	resBdd := CompileLiterals(f.VariablesAsLiterals(variable), b.Kernel)
-	return newBdd(b.Kernel.forAll(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.forAll(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // Model returns an arbitrary model of the BDD.  An error is returned if the
-- 
2.43.0


From 5a140776e7feb8b3afb406fe9fad60737222f076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 39/64] fix: the BDD of an empty conjunction of literals is the
 tautology

---
 bdd/bdd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index d73af38..41777f1 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -104,7 +104,7 @@ func CompileWithKernelAndHandler(
 func CompileLiterals(literals []f.Literal, kernel *Kernel) *BDD {
 	var bdd int32
 	if len(literals) == 0 {
-		bdd = bddFalse
+		bdd = bddTrue
 	} else if len(literals) == 1 {
 		lit := literals[0]
 		variable := lit.Variable()
-- 
2.43.0


From 65adf62177c1319d96197f988643ec0af50b6c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 40/64] fix: models, profiles and orders of BDDs contain only
 variables known to the kernel

---
 bdd/bdd.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index 41777f1..3841f4e 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -487,18 +487,20 @@ func (b *BDD) VariableProfile() map[f.Variable]int {
 	varProfile := b.Kernel.varProfile(b.Index)
 	profile := make(map[f.Variable]int, len(varProfile))
 	for i := range varProfile {
-		variable, _ := b.Kernel.getVariableForIndex(int32(i))
-		profile[variable] = varProfile[i]
+		if variable, ok := b.Kernel.getVariableForIndex(int32(i)); ok {
+			profile[variable] = varProfile[i]
+		}
 	}
 	return profile
 }
 
 // VariableOrder returns the variable order of the BDD.
 func (b *BDD) VariableOrder() []f.Variable {
-	order := make([]f.Variable, len(b.Kernel.level2var)-1)
-	for i := range order {
-		variable, _ := b.Kernel.getVariableForIndex(b.Kernel.level2var[i])
-		order[i] = variable
+	order := make([]f.Variable, 0, len(b.Kernel.level2var)-1)
+	for _, index := range b.Kernel.level2var[:len(b.Kernel.level2var)-1] {
+		if variable, ok := b.Kernel.getVariableForIndex(index); ok {
+			order = append(order, variable)
+		}
 	}
 	return order
 }
@@ -544,13 +546,16 @@ func (b *BDD) createModel(modelBdd int32) (*model.Model, error) {
 		return model.New(), nil
 	}
 	nodes := b.Kernel.allNodes(modelBdd)
-	lits := make([]f.Literal, len(nodes))
-	for i, node := range nodes {
-		variable, _ := b.Kernel.getVariableForIndex(node[1])
+	lits := make([]f.Literal, 0, len(nodes))
+	for _, node := range nodes {
+		variable, ok := b.Kernel.getVariableForIndex(node[1])
+		if !ok {
+			continue // the kernel has room for more variables than it knows
+		}
 		if node[2] == bddFalse {
-			lits[i] = variable.AsLiteral()
+			lits = append(lits, variable.AsLiteral())
 		} else if node[3] == bddFalse {
-			lits[i] = variable.Negate(b.Kernel.fac)
+			lits = append(lits, variable.Negate(b.Kernel.fac))
 		} else {
 			panic(errorx.IllegalState("model must have a unique path through the BDD"))
 		}
-- 
2.43.0


From a1603518f7218d6899b9bb053166e2a76dbda84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 41/64] fix: BDDs which are part of another BDD keep their
 references when variables are reordered

---
 bdd/reordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/reordering.go b/bdd/reordering.go
index cfd9500..b937cbe 100644
--- a/bdd/reordering.go
+++ b/bdd/reordering.go
@@ -200,7 +200,7 @@ func (r *reordering) reorderDone() {
 	}
 	for n := int32(2); n < r.k.nodesize; n++ {
 		if r.k.marked(n) {
-			r.k.unmark(n)
+			r.k.unmarkNode(n)
 		} else {
 			r.k.setRefcou(n, 0)
 		}
-- 
2.43.0


From e8af0442e3e0cdbcb9163bbb7bcdc1ed8a91af39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 42/64] fix: variable blocks which are defined after a
 reordering get the current order of their variables

---
 bdd/reordering.go |  2 +-
 bdd/tree.go       | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/bdd/reordering.go b/bdd/reordering.go
index b937cbe..8a34054 100644
--- a/bdd/reordering.go
+++ b/bdd/reordering.go
@@ -131,7 +131,7 @@ func (r *reordering) addVariableBlock(first, last int32, fixed bool) {
 	if first < 0 || first >= r.k.varnum || last < 0 || last >= r.k.varnum {
 		panic(errorx.IllegalState("invalid var range from %d to %d", first, last))
 	}
-	t := addRange(r.varTree, first, last, fixed, r.blockId, r.k.level2var)
+	t := addRange(r.varTree, first, last, fixed, r.blockId, r.k.var2level)
 	if t == nil {
 		panic(errorx.IllegalState("could not add range to tree"))
 	}
diff --git a/bdd/tree.go b/bdd/tree.go
index 5e15ac3..fad2a88 100644
--- a/bdd/tree.go
+++ b/bdd/tree.go
@@ -28,11 +28,11 @@ func newBddTree(id int32) *bddTree {
 	}
 }
 
-func addRange(tree *bddTree, first, last int32, fixed bool, id int32, level2var []int32) *bddTree {
-	return addRangeRec(tree, nil, first, last, fixed, id, level2var)
+func addRange(tree *bddTree, first, last int32, fixed bool, id int32, var2level []int32) *bddTree {
+	return addRangeRec(tree, nil, first, last, fixed, id, var2level)
 }
 
-func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, level2var []int32) *bddTree {
+func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, var2level []int32) *bddTree {
 	if first < 0 || last < 0 || last < first {
 		return nil
 	}
@@ -44,7 +44,7 @@ func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, leve
 		t.fixed = fixed
 		t.seq = make([]int32, last-first+1)
 		t.last = last
-		t.updateSeq(level2var)
+		t.updateSeq(var2level)
 		t.prev = prev
 		return t
 	}
@@ -61,7 +61,7 @@ func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, leve
 		tnew.last = last
 		tnew.fixed = fixed
 		tnew.seq = make([]int32, last-first+1)
-		tnew.updateSeq(level2var)
+		tnew.updateSeq(var2level)
 		tnew.next = t
 		tnew.prev = t.prev
 		t.prev = tnew
@@ -70,7 +70,7 @@ func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, leve
 
 	// After this section -> go to next
 	if first > t.last {
-		next := addRangeRec(t.next, t, first, last, fixed, id, level2var)
+		next := addRangeRec(t.next, t, first, last, fixed, id, var2level)
 		if next != nil {
 			t.next = next
 		}
@@ -79,7 +79,7 @@ func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, leve
 
 	// Inside this section -> insert in next level
 	if first >= t.first && last <= t.last {
-		nextlevel := addRangeRec(t.nextlevel, nil, first, last, fixed, id, level2var)
+		nextlevel := addRangeRec(t.nextlevel, nil, first, last, fixed, id, var2level)
 		if nextlevel != nil {
 			t.nextlevel = nextlevel
 		}
@@ -102,7 +102,7 @@ func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, leve
 				tnew.last = last
 				tnew.fixed = fixed
 				tnew.seq = make([]int32, last-first+1)
-				tnew.updateSeq(level2var)
+				tnew.updateSeq(var2level)
 				tnew.nextlevel = t
 				tnew.next = thisTree.next
 				tnew.prev = t.prev
-- 
2.43.0


From b6bfae3cdf25c07b7a3696fffb4067aed4894f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 43/64] fix: variable blocks can be added after their siblings
 were reordered

---
 bdd/tree.go | 132 ++++++++++++++++++++--------------------------------
 1 file changed, 50 insertions(+), 82 deletions(-)

diff --git a/bdd/tree.go b/bdd/tree.go
index fad2a88..a090144 100644
--- a/bdd/tree.go
+++ b/bdd/tree.go
@@ -28,107 +28,75 @@ func newBddTree(id int32) *bddTree {
 	}
 }
 
+// addRange adds a block to the blocks of a tree level, which are linked in their
+// current order, and returns the first one of them.
 func addRange(tree *bddTree, first, last int32, fixed bool, id int32, var2level []int32) *bddTree {
-	return addRangeRec(tree, nil, first, last, fixed, id, var2level)
-}
-
-func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, var2level []int32) *bddTree {
 	if first < 0 || last < 0 || last < first {
 		return nil
 	}
+	tnew := newBddTree(id)
+	tnew.first = first
+	tnew.last = last
+	tnew.fixed = fixed
+	tnew.seq = make([]int32, last-first+1)
+	tnew.updateSeq(var2level)
 
-	// Empty tree -> build one
-	if t == nil {
-		t = newBddTree(id)
-		t.first = first
-		t.fixed = fixed
-		t.seq = make([]int32, last-first+1)
-		t.last = last
-		t.updateSeq(var2level)
-		t.prev = prev
-		return t
-	}
-
-	// Check for identity
-	if first == t.first && last == t.last {
-		return t
-	}
-
-	// Before this section -> insert
-	if last < t.first {
-		tnew := newBddTree(id)
-		tnew.first = first
-		tnew.last = last
-		tnew.fixed = fixed
-		tnew.seq = make([]int32, last-first+1)
-		tnew.updateSeq(var2level)
-		tnew.next = t
-		tnew.prev = t.prev
-		t.prev = tnew
-		return tnew
-	}
-
-	// After this section -> go to next
-	if first > t.last {
-		next := addRangeRec(t.next, t, first, last, fixed, id, var2level)
-		if next != nil {
-			t.next = next
-		}
-		return t
-	}
-
-	// Inside this section -> insert in next level
-	if first >= t.first && last <= t.last {
-		nextlevel := addRangeRec(t.nextlevel, nil, first, last, fixed, id, var2level)
-		if nextlevel != nil {
-			t.nextlevel = nextlevel
-		}
-		return t
-	}
-
-	// Covering this section -> insert above this level
-	if first <= t.first {
-		var tnew *bddTree
-		thisTree := t
-
-		for {
-			// Partial cover ->error
-			if last >= thisTree.first && last < thisTree.last {
+	var covered *bddTree
+	for t := tree; t != nil; t = t.next {
+		switch {
+		case first == t.first && last == t.last:
+			// Identical block
+			return tree
+		case first >= t.first && last <= t.last:
+			// Inside this block -> insert in next level
+			nextlevel := addRange(t.nextlevel, first, last, fixed, id, var2level)
+			if nextlevel == nil {
 				return nil
 			}
-			if thisTree.next == nil || last < thisTree.next.first {
-				tnew = newBddTree(id)
-				tnew.first = first
-				tnew.last = last
-				tnew.fixed = fixed
-				tnew.seq = make([]int32, last-first+1)
-				tnew.updateSeq(var2level)
+			t.nextlevel = nextlevel
+			return tree
+		case last < t.first || first > t.last:
+			// Another block: before or after the new one
+			if var2level[t.seq[0]] < var2level[tnew.seq[0]] {
+				tnew.prev = t
+			} else if tnew.next == nil {
+				tnew.next = t
+			}
+		case first <= t.first && last >= t.last:
+			// Covered block -> move to the next level of the new one
+			if covered == nil {
 				tnew.nextlevel = t
-				tnew.next = thisTree.next
-				tnew.prev = t.prev
-				if thisTree.next != nil {
-					thisTree.next.prev = tnew
-				}
-				thisTree.next = nil
-				t.prev = nil
-				return tnew
 			}
-			thisTree = thisTree.next
+			covered = t
+		default:
+			// Partial cover -> error
+			return nil
 		}
 	}
-	// partial cover
-	return nil
+
+	if covered != nil {
+		tnew.nextlevel.prev = nil
+		covered.next = nil
+	}
+	if tnew.next != nil {
+		tnew.next.prev = tnew
+	}
+	if tnew.prev == nil {
+		return tnew
+	}
+	tnew.prev.next = tnew
+	return tree
 }
 
-func (t *bddTree) updateSeq(bddvar2level []int32) {
+func (t *bddTree) updateSeq(var2level []int32) {
 	var n int32
 	low := t.first
 	for n = t.first; n <= t.last; n++ {
-		if bddvar2level[n] < bddvar2level[low] {
+		if var2level[n] < var2level[low] {
 			low = n
 		}
 	}
 	for n = t.first; n <= t.last; n++ {
-		t.seq[bddvar2level[n]-bddvar2level[low]] = n
+		t.seq[var2level[n]-var2level[low]] = n
 	}
 }
-- 
2.43.0


From 4922b3ac75583c9b1419f30f2ad463089880f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 44/64] fix: variable blocks stay together if they are moved
 over variables without a block

---
 bdd/reordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/reordering.go b/bdd/reordering.go
index 8a34054..d6478d9 100644
--- a/bdd/reordering.go
+++ b/bdd/reordering.go
@@ -571,7 +571,7 @@ func (r *reordering) blockdown(left *bddTree) {
 	}
 
 	// Move right to where left started
-	for r.k.var2level[rseq[0]] > leftstart {
+	for r.k.var2level[rseq[rightsize]] > leftstart+rightsize {
 		for n = rightsize; n > 0; n-- {
 			if r.k.var2level[rseq[n]]-1 != r.k.var2level[rseq[n-1]] && r.k.var2level[rseq[n]] > leftstart {
 				r.reorderVarup(rseq[n])
-- 
2.43.0


From 36bd68f89c3c97313b01b3ca12118be09e0f5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 45/64] fix: the negation of a BDD starts again if the
 variables are reordered during its construction

---
 bdd/construction.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bdd/construction.go b/bdd/construction.go
index ff06d3f..5e2327a 100644
--- a/bdd/construction.go
+++ b/bdd/construction.go
@@ -74,9 +74,15 @@ func (k *Kernel) notRec(r int32) (int32, bool) {
 	if entry.a == r && entry.c == bddNot.v {
 		return entry.res, false
 	}
-	node, _ := k.notRec(k.low(r))
+	node, reorder := k.notRec(k.low(r))
+	if reorder {
+		return -1, true
+	}
 	k.pushRef(node)
-	node, _ = k.notRec(k.high(r))
+	node, reorder = k.notRec(k.high(r))
+	if reorder {
+		return -1, true
+	}
 	k.pushRef(node)
 	res, reorder := k.makeNode(k.level(r), k.readRef(2), k.readRef(1))
 	if reorder {
-- 
2.43.0


From f4462bf1be53749b30cc37b058ae0d8acfad05b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 46/64] fix: restriction and quantification of BDDs respect the
 new order if the variables are reordered during their construction

---
 bdd/construction.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bdd/construction.go b/bdd/construction.go
index 5e2327a..1f17031 100644
--- a/bdd/construction.go
+++ b/bdd/construction.go
@@ -99,8 +99,8 @@ func (k *Kernel) restrict(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2svartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2svartable(variable)
 		return k.restrictRec(r, (variable<<3)|cacheidRestrict)
 	})
 }
@@ -151,8 +151,8 @@ func (k *Kernel) exists(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2vartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2vartable(variable)
 		return k.quantRec(r, bddOr, variable<<3)
 	})
 }
@@ -161,8 +161,8 @@ func (k *Kernel) forAll(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2vartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2vartable(variable)
 		return k.quantRec(r, bddAnd, (variable<<3)|cacheidForall)
 	})
 }
-- 
2.43.0


From 7b48059e1882f83419545460a283ee77e5b40c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:09 +0000
Subject: [PATCH 47/64] fix: Minimum returns a minimum-size prime implicant for
 formulas which are not in CNF

The dual-rail encoding of the NNF only finds terms satisfying the NNF
literal by literal, not e.g. ~b for ~a & ~b | a & ~b.
---
 primeimplicant/minimum_implicant.go | 87 +++++++++++++++++------------
 1 file changed, 52 insertions(+), 35 deletions(-)

diff --git a/primeimplicant/minimum_implicant.go b/primeimplicant/minimum_implicant.go
index e3a4a68..95c2358 100644
--- a/primeimplicant/minimum_implicant.go
+++ b/primeimplicant/minimum_implicant.go
@@ -1,8 +1,11 @@
 package primeimplicant
 
 import (
+	"slices"
+
 	"github.com/booleworks/logicng-go/errorx"
 	f "github.com/booleworks/logicng-go/formula"
+	"github.com/booleworks/logicng-go/handler"
 	"github.com/booleworks/logicng-go/normalform"
 	"github.com/booleworks/logicng-go/sat"
 	"github.com/booleworks/logicng-go/transformation"
@@ -11,47 +14,61 @@ import (
 // Minimum computes a minimum-size prime implicant for the given formula.  If
 // the formula is unsatisfiable it returns an error.
 func Minimum(fac f.Factory, formula f.Formula) ([]f.Literal, error) {
-	nnf := normalform.NNF(fac, formula)
-	newVar2oldLit := make(map[f.Variable]f.Literal)
-	substitution := make(map[f.Literal]f.Literal)
-	literals := f.Literals(fac, nnf)
-	newLiterals := make([]f.Literal, literals.Size())
-
-	for i, literal := range literals.Content() {
-		name, phase, _ := fac.LitNamePhase(literal)
-		var polarity string
-		if phase {
-			polarity = pos
-		} else {
-			polarity = neg
-		}
-		newVar := fac.Var(name + polarity)
-		newLiterals[i] = newVar.AsLiteral()
-		newVar2oldLit[newVar] = literal
-		substitution[literal] = newVar.AsLiteral()
+	sub := createSubstitution(fac, formula)
+	newLiterals := make([]f.Literal, 0, len(sub.newVar2oldLit))
+	for newVar := range sub.newVar2oldLit {
+		newLiterals = append(newLiterals, newVar.AsLiteral())
 	}
+	slices.Sort(newLiterals)
 
-	substituted := transformation.SubstituteLiterals(fac, nnf, &substitution)
+	// A term is an implicant iff it hits every implicate.  Clauses of the
+	// formula are implicates known from the start, all others are added when a
+	// candidate violates them.
 	solver := sat.NewSolver(fac)
-	solver.Add(substituted)
-
-	for _, literal := range newVar2oldLit {
-		if literal.IsPos() && literals.Contains(literal.Negate(fac)) {
-			name, _, _ := fac.LitNamePhase(literal)
-			solver.Add(fac.AMO(fac.Var(name+pos), fac.Var(name+neg)))
-		}
+	solver.Add(sub.constraintFormula)
+	for _, clause := range knownImplicates(fac, formula) {
+		solver.Add(transformation.SubstituteLiterals(fac, clause, &sub.substitution))
 	}
-	if !solver.Sat() {
-		return nil, errorx.BadInput("formula was unsatisfiable")
+	negatedSolver := sat.NewSolver(fac)
+	negatedSolver.Add(formula.Negate(fac))
+	primeReduction := newPrimeReduction(fac, formula)
+	variables := f.Variables(fac, formula).Content()
+	for {
+		minimumModel := solver.Minimize(newLiterals)
+		if minimumModel == nil {
+			return nil, errorx.BadInput("formula was unsatisfiable")
+		}
+		candidate := transformModel(minimumModel, &sub.newVar2oldLit).Literals
+		result := negatedSolver.Call(sat.Params().WithModel(variables).Literal(candidate...))
+		if !result.Sat() {
+			return candidate, nil
+		}
+		violated := result.Model().Literals
+		implicate := make([]f.Literal, len(violated))
+		for i, literal := range violated {
+			implicate[i] = literal.Negate(fac)
+		}
+		primeImplicate, _ := primeReduction.reduceImplicate(fac, implicate, handler.NopHandler)
+		solver.Add(transformation.SubstituteLiterals(
+			fac, fac.Or(f.LiteralsAsFormulas(primeImplicate)...), &sub.substitution,
+		))
 	}
-	minimumModel := solver.Minimize(newLiterals)
-	primeImplicant := make([]f.Literal, 0)
+}
 
-	for _, variable := range minimumModel.PosVars() {
-		literal, ok := newVar2oldLit[variable]
-		if ok {
-			primeImplicant = append(primeImplicant, literal)
+// knownImplicates returns the conjuncts of the formula which are clauses over
+// the formula's variables.
+func knownImplicates(fac f.Factory, formula f.Formula) []f.Formula {
+	nnf := normalform.NNF(fac, formula)
+	conjuncts := []f.Formula{nnf}
+	if nnf.Sort() == f.SortAnd {
+		conjuncts = fac.Operands(nnf)
+	}
+	variables := f.Variables(fac, formula)
+	clauses := make([]f.Formula, 0, len(conjuncts))
+	for _, conjunct := range conjuncts {
+		if normalform.IsMaxterm(fac, conjunct) && variables.ContainsAll(f.Variables(fac, conjunct)) {
+			clauses = append(clauses, conjunct)
 		}
 	}
-	return primeImplicant, nil
+	return clauses
 }
-- 
2.43.0


From 1e5355a7ec97185d44183fffefd223589f99f066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 48/64] fix: ReadDimacs splits clauses at 0 and not at line
 ends

Several clauses on one line became one clause with the variable v0, a
clause over several lines and indented comments were refused, tokens
which are no numbers became variables, lines over 64 KiB could not be
read.
---
 io/dimacs_reader.go | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/io/dimacs_reader.go b/io/dimacs_reader.go
index 5184cb0..8e36b86 100644
--- a/io/dimacs_reader.go
+++ b/io/dimacs_reader.go
@@ -2,13 +2,18 @@ package io
 
 import (
 	"bufio"
+	"math"
 	"os"
+	"strconv"
 	"strings"
 
 	"github.com/booleworks/logicng-go/errorx"
 	f "github.com/booleworks/logicng-go/formula"
 )
 
+// maxLineLength is the maximum length of a line in a read file.
+const maxLineLength = math.MaxInt32
+
 // ReadDimacs reads a CNF from the given filename in Dimacs format.  The
 // optional prefix parameter is used to generate the variable names.  The
 // default value is `v` therefore variable v1, v2, ... will be generated from
@@ -38,29 +43,36 @@ func ReadDimacsFile(fac f.Factory, file *os.File, prefix ...string) (*[]f.Formul
 	}
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(make([]byte, 0, 64*1024), maxLineLength)
+	clause := make([]f.Formula, 0)
 	for scanner.Scan() {
-		line := scanner.Text()
-		if !strings.HasPrefix(line, "c") && !strings.HasPrefix(line, "p") && strings.TrimSpace(line) != "" {
-			split := strings.Fields(line)
-			if split[len(split)-1] != "0" {
-				return nil, errorx.BadInput("line %s did not end with 0", line)
+		line := strings.TrimSpace(scanner.Text())
+		if strings.HasPrefix(line, "c") || strings.HasPrefix(line, "p") {
+			continue
+		}
+		// a clause is terminated by 0, not by the end of its line
+		for _, token := range strings.Fields(line) {
+			lit, err := strconv.Atoi(token)
+			if err != nil {
+				return nil, errorx.BadInput("illegal literal %s", token)
 			}
-			vars := make([]f.Formula, 0, len(split)-1)
-			for _, lit := range split[:len(split)-1] {
-				if lit != "" {
-					if strings.HasPrefix(lit, "-") {
-						vars = append(vars, fac.Literal(pfx+lit[1:], false))
-					} else {
-						vars = append(vars, fac.Variable(pfx+lit))
-					}
-				}
+			switch {
+			case lit > 0:
+				clause = append(clause, fac.Variable(pfx+strconv.Itoa(lit)))
+			case lit < 0:
+				clause = append(clause, fac.Literal(pfx+strconv.Itoa(-lit), false))
+			default:
+				result = append(result, fac.Or(clause...))
+				clause = make([]f.Formula, 0)
 			}
-			result = append(result, fac.Or(vars...))
 		}
 	}
 
 	if err := scanner.Err(); err != nil {
 		return nil, err
 	}
+	if len(clause) > 0 {
+		return nil, errorx.BadInput("last clause did not end with 0")
+	}
 	return &result, nil
 }
-- 
2.43.0


From 39890df800f7f4bd69a13c48be196f329f320f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 49/64] fix: ReadFormulas returns an error for malformed lines
 instead of a panic

Lines over 1 MiB, which WriteFormula writes for large formulas, can be
read, too.
---
 io/formula_reader.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/io/formula_reader.go b/io/formula_reader.go
index c2b4820..d6dbb9e 100644
--- a/io/formula_reader.go
+++ b/io/formula_reader.go
@@ -51,10 +51,14 @@ func ReadFormulasFile(fac f.Factory, file *os.File) ([]f.Formula, error) {
 	ops := make([]f.Formula, 0, 64)
 	scanner := bufio.NewScanner(file)
 	buf := make([]byte, 0, 64*1024)
-	scanner.Buffer(buf, 1024*1024)
+	scanner.Buffer(buf, maxLineLength)
 	for scanner.Scan() {
 		line := scanner.Text()
-		ops = append(ops, parser.ParseUnsafe(line))
+		formula, err := parser.Parse(line)
+		if err != nil {
+			return nil, err
+		}
+		ops = append(ops, formula)
 	}
 	if err := scanner.Err(); err != nil {
 		return nil, err
-- 
2.43.0


From bc2ff0743b01023c39d95ae166f92b24354fabe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 50/64] fix: ReadDimacsToSolver reads all layouts and reports
 malformed files

Files with a line over 64 KiB were silently truncated, unterminated
clauses lost their last literal, a missing or wide-spaced problem line
gave an empty instance or a wrong top weight, illegal weights were
dropped silently; empty and comment lines between clauses were refused.
---
 maxsat/reader.go | 89 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 32 deletions(-)

diff --git a/maxsat/reader.go b/maxsat/reader.go
index b17fa1d..1c7ce86 100644
--- a/maxsat/reader.go
+++ b/maxsat/reader.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/booleworks/logicng-go/errorx"
 	f "github.com/booleworks/logicng-go/formula"
 )
 
@@ -20,52 +21,76 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 		return err
 	}
 	defer file.Close()
+	hasHeader := false
 	pureMaxSat := false
 	hardWeight := -1
 	scanner := bufio.NewScanner(file)
-	for scanner.Scan() {
-		line := scanner.Text()
-		if strings.HasPrefix(line, "p wcnf") {
-			header := strings.Split(strings.TrimSpace(line), " ")
+	scanner.Buffer(make([]byte, 0, 64*1024), math.MaxInt32)
+	for !hasHeader && scanner.Scan() {
+		header := strings.Fields(scanner.Text())
+		if len(header) < 2 || header[0] != "p" {
+			continue
+		}
+		switch header[1] {
+		case "wcnf":
+			hasHeader = true
 			if len(header) > 4 {
-				hardWeight, _ = strconv.Atoi(header[4])
+				if hardWeight, err = strconv.Atoi(header[4]); err != nil {
+					return err
+				}
 			}
-			break
-		} else if strings.HasPrefix(line, "p cnf") {
+		case "cnf":
+			hasHeader = true
 			pureMaxSat = true
-			break
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return err
+	}
+	if !hasHeader {
+		return errorx.BadInput("no problem line found")
+	}
+
+	weight := 1
+	needsWeight := !pureMaxSat
+	inClause := false
+	literals := make([]f.Formula, 0)
 	for scanner.Scan() {
-		tokens := strings.Split(strings.TrimSpace(scanner.Text()), " ")
-		weight, err := strconv.Atoi(tokens[0])
-		if err != nil {
-			return err
-		}
-		var start int
-		if pureMaxSat {
-			start = 0
-		} else {
-			start = 1
+		tokens := strings.Fields(scanner.Text())
+		if len(tokens) == 0 || strings.HasPrefix(tokens[0], "c") {
+			continue
 		}
-		literals := make([]f.Formula, len(tokens)-start-1)
-		for i := start; i < len(tokens)-1; i++ {
-			if len(tokens[i]) > 0 {
-				parsedLit, err := strconv.Atoi(tokens[i])
-				if err != nil {
+		// a clause is terminated by 0, not by the end of its line
+		for _, token := range tokens {
+			number, err := strconv.Atoi(token)
+			if err != nil {
+				return err
+			}
+			switch {
+			case needsWeight:
+				weight = number
+				needsWeight = false
+				inClause = true
+			case number != 0:
+				literals = append(literals, fac.Literal(fmt.Sprintf("v%d", max(number, -number)), number > 0))
+				inClause = true
+			default:
+				if !pureMaxSat && hardWeight != -1 && weight == hardWeight {
+					solver.AddHardFormula(fac.Or(literals...))
+				} else if err := solver.AddSoftFormula(fac.Or(literals...), weight); err != nil {
 					return err
 				}
-				variable := fmt.Sprintf("v%d", int(math.Abs(float64(parsedLit))))
-				literals[i-start] = fac.Literal(variable, parsedLit > 0)
+				literals = make([]f.Formula, 0)
+				needsWeight = !pureMaxSat
+				inClause = false
 			}
 		}
-		if pureMaxSat {
-			solver.AddSoftFormula(fac.Or(literals...), 1)
-		} else if weight == hardWeight {
-			solver.AddHardFormula(fac.Or(literals...))
-		} else {
-			solver.AddSoftFormula(fac.Or(literals...), weight)
-		}
+	}
+	if err := scanner.Err(); err != nil {
+		return err
+	}
+	if inClause {
+		return errorx.BadInput("last clause did not end with 0")
 	}
 	return nil
 }
-- 
2.43.0


From be49e78f41dcbdd1fbf73901a3fc12eaab6139d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 51/64] fix: HypergraphFromClauses refuses disjunctions which
 are no clauses

---
 graph/hypergraph_generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graph/hypergraph_generator.go b/graph/hypergraph_generator.go
index b6a2529..3ec3776 100644
--- a/graph/hypergraph_generator.go
+++ b/graph/hypergraph_generator.go
@@ -14,9 +14,10 @@ func HypergraphFromClauses(fac f.Factory, clauses ...f.Formula) (*Hypergraph, er
 	hypergraph := NewHypergraph()
 	nodes := make(map[f.Variable]*HypergraphNode)
 	for _, clause := range clauses {
-		switch clause.Sort() {
-		case f.SortCC, f.SortPBC, f.SortEquiv, f.SortImpl, f.SortNot, f.SortAnd:
+		if !normalform.IsMaxterm(fac, clause) {
 			return nil, errorx.BadInput("not a clause %s", clause.Sprint(fac))
+		}
+		switch clause.Sort() {
 		case f.SortLiteral, f.SortOr:
 			addClause(fac, clause, hypergraph, &nodes)
 		}
-- 
2.43.0


From bbfc129f0b7989c1fd45f031eb10430bb9ad71c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 52/64] fix: MinToMaxOrder and MaxToMinOrder keep the DFS order
 for equal numbers of occurrences

---
 bdd/ordering.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bdd/ordering.go b/bdd/ordering.go
index 5e1b8f1..360b27c 100644
--- a/bdd/ordering.go
+++ b/bdd/ordering.go
@@ -112,12 +112,11 @@ func occurenceOrder(fac f.Factory, formula f.Formula, min2max bool) []f.Variable
 	dfs := DFSOrder(fac, formula)
 	variables := make([]f.Variable, len(dfs))
 	copy(variables, dfs)
-	sort.Slice(variables, func(i, j int) bool {
+	// a stable sort keeps the DFS order for equal numbers of occurrences
+	sort.SliceStable(variables, func(i, j int) bool {
 		o1 := profile[variables[i]]
 		o2 := profile[variables[j]]
-		if o1 == o2 {
-			return i < j
-		} else if min2max {
+		if min2max {
 			return o1 < o2
 		}
 		return o1 > o2
-- 
2.43.0


From 951787cf40e89704621bd39229d8da5be9be3bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 53/64] fix: the randomizer generates the same cardinality
 constraints for the same seed

---
 randomizer/formula_randomizer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/randomizer/formula_randomizer.go b/randomizer/formula_randomizer.go
index 066e2ea..999d0fe 100644
--- a/randomizer/formula_randomizer.go
+++ b/randomizer/formula_randomizer.go
@@ -357,12 +357,13 @@ func (r *FormulaRandomizer) ConstraintSet(numConstraints, maxDepth int) []f.Form
 func (r *FormulaRandomizer) ccVariables() []f.Variable {
 	variables := make(map[f.Variable]present)
 	bound := r.random.Intn(r.config.MaximumOpsCC-1) + 2
+	vars := make([]f.Variable, 0, bound)
 	for range bound {
-		variables[r.Variable()] = present{}
-	}
-	vars := make([]f.Variable, 0, len(variables))
-	for v := range variables {
-		vars = append(vars, v)
+		v := r.Variable()
+		if _, ok := variables[v]; !ok {
+			variables[v] = present{}
+			vars = append(vars, v)
+		}
 	}
 	return vars
 }
-- 
2.43.0


From c5b0edb1af6412b29eb2b25d28dcb97b30a577c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:16 +0000
Subject: [PATCH 54/64] fix: the randomizer works with the smallest operand
 limits

---
 randomizer/formula_randomizer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/randomizer/formula_randomizer.go b/randomizer/formula_randomizer.go
index 999d0fe..0046d1e 100644
--- a/randomizer/formula_randomizer.go
+++ b/randomizer/formula_randomizer.go
@@ -220,7 +220,7 @@ func (r *FormulaRandomizer) And(maxDepth int) f.Formula {
 	if maxDepth == 0 {
 		return r.Atom()
 	}
-	operands := make([]f.Formula, 2+r.random.Intn(r.config.MaximumOpsAnd-2))
+	operands := make([]f.Formula, 2+r.random.Intn(max(1, r.config.MaximumOpsAnd-2)))
 	for i := range operands {
 		operands[i] = r.Formula(maxDepth - 1)
 	}
@@ -236,7 +236,7 @@ func (r *FormulaRandomizer) Or(maxDepth int) f.Formula {
 	if maxDepth == 0 {
 		return r.Atom()
 	}
-	operands := make([]f.Formula, 2+r.random.Intn(r.config.MaximumOpsOr-2))
+	operands := make([]f.Formula, 2+r.random.Intn(max(1, r.config.MaximumOpsOr-2)))
 	for i := range operands {
 		operands[i] = r.Formula(maxDepth - 1)
 	}
@@ -288,7 +288,7 @@ func (r *FormulaRandomizer) EXO() f.Formula {
 
 // PBC returns a random pseudo boolean constraint.
 func (r *FormulaRandomizer) PBC() f.Formula {
-	numOps := r.random.Intn(r.config.MaximumOpsPBC)
+	numOps := r.random.Intn(max(2, r.config.MaximumOpsPBC))
 	literals := make([]f.Literal, numOps)
 	coefficients := make([]int, numOps)
 	minSum := 0 // (positive) sum of all negative coefficients
@@ -356,7 +356,7 @@ func (r *FormulaRandomizer) ConstraintSet(numConstraints, maxDepth int) []f.Form
 
 func (r *FormulaRandomizer) ccVariables() []f.Variable {
 	variables := make(map[f.Variable]present)
-	bound := r.random.Intn(r.config.MaximumOpsCC-1) + 2
+	bound := min(r.random.Intn(max(1, r.config.MaximumOpsCC-1))+2, r.config.MaximumOpsCC)
 	vars := make([]f.Variable, 0, bound)
 	for range bound {
 		v := r.Variable()
-- 
2.43.0


From e5696901f589a41bd30c671b8d5d9d4e7a683687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 55/64] fix: the DOT and Mermaid writers report every write
 error

---
 graphical/dot_writer.go     | 20 +++++++-------------
 graphical/mermaid_writer.go | 14 +++++---------
 2 files changed, 12 insertions(+), 22 deletions(-)

diff --git a/graphical/dot_writer.go b/graphical/dot_writer.go
index e4f384b..cd04618 100644
--- a/graphical/dot_writer.go
+++ b/graphical/dot_writer.go
@@ -39,19 +39,13 @@ func WriteDotToFile(file *os.File, representation *Representation) error {
 // the given writer.  Returns an error when there was a problem writing to
 // the writer.
 func WriteDotToWriter(writer io.Writer, representation *Representation) error {
-	err := writeDotPreamble(writer, representation)
-	if err != nil {
-		return err
-	}
-	err = writeDotNodes(writer, representation)
-	if err != nil {
-		return err
-	}
-	err = writeDotEdges(writer, representation)
-	if err != nil {
-		return err
-	}
-	return writeDotClosing(writer)
+	buf := new(bytes.Buffer)
+	writeDotPreamble(buf, representation)
+	writeDotNodes(buf, representation)
+	writeDotEdges(buf, representation)
+	writeDotClosing(buf)
+	_, err := writer.Write(buf.Bytes())
+	return err
 }
 
 func writeDotPreamble(writer io.Writer, representation *Representation) error {
diff --git a/graphical/mermaid_writer.go b/graphical/mermaid_writer.go
index 2ce2a5e..80f25ab 100644
--- a/graphical/mermaid_writer.go
+++ b/graphical/mermaid_writer.go
@@ -46,15 +46,11 @@ func WriteMermaidToFile(file *os.File, representation *Representation) error {
 // Mermaid.js file to the writer.  Returns an error when there was a
 // problem writing to the writer.
 func WriteMermaidToWriter(writer io.Writer, representation *Representation) error {
-	err := writeMermaidPreamble(writer)
-	if err != nil {
-		return err
-	}
-	err = writeMermaidNodes(writer, representation)
-	if err != nil {
-		return err
-	}
-	err = writeMermaidEdges(writer, representation)
+	buf := new(bytes.Buffer)
+	writeMermaidPreamble(buf)
+	writeMermaidNodes(buf, representation)
+	writeMermaidEdges(buf, representation)
+	_, err := writer.Write(buf.Bytes())
 	return err
 }
 
-- 
2.43.0


From e985dcb727895ea90f475bafe25cfe8e1a3edbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 56/64] fix: DNNF compilation keeps implied literals within
 their components

The variable set of a dtree node was an alias of the one of its left child, and
learnt clauses can imply literals of other components.  Literals were therefore
missing in or conjoined with the wrong part of the DNNF, which was then not
decomposable or not equivalent to the formula and had wrong model counts.
---
 dnnf/compiler.go | 40 ++++++++++++++++++++++++++++++++--------
 dnnf/dtree.go    | 21 ++++++++++++++++++++-
 2 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/dnnf/compiler.go b/dnnf/compiler.go
index 7f0aef4..556fe59 100644
--- a/dnnf/compiler.go
+++ b/dnnf/compiler.go
@@ -190,12 +190,19 @@ func (c *compiler) initializeCaches(dtree dtree) {
 }
 
 func (c *compiler) cnf2ddnnf(tree dtree, hdl handler.Handler) (f.Formula, handler.State) {
-	return c.cnf2ddnnfInner(tree, 0, hdl)
+	return c.cnf2ddnnfInner(tree, tree.dynamicVarSet(), 0, hdl)
 }
 
-func (c *compiler) cnf2ddnnfInner(tree dtree, currentShannons int, hdl handler.Handler) (f.Formula, handler.State) {
+// cnf2ddnnfInner compiles the given tree.  The given variables are the ones
+// of the component which is compiled, i.e. the unassigned variables in
+// unsubsumed clauses of the tree when its compilation started.  The solver can
+// also imply literals of other components since it learns clauses.  Such
+// literals must not occur in the DNNF of this component.
+func (c *compiler) cnf2ddnnfInner(
+	tree dtree, variables *bitset, currentShannons int, hdl handler.Handler,
+) (f.Formula, handler.State) {
 	separator := tree.dynamicSeparator()
-	implied := c.newlyImpliedLiterals(tree.staticVarSet())
+	implied := c.newlyImpliedLiterals(variables)
 
 	if separator.cardinality() == 0 {
 		switch node := tree.(type) {
@@ -212,7 +219,7 @@ func (c *compiler) cnf2ddnnfInner(tree dtree, currentShannons int, hdl handler.H
 
 		positiveDnnf := c.fac.Falsum()
 		if c.solver.Decide(variable, true) {
-			res, state := c.cnf2ddnnfInner(tree, currentShannons+1, hdl)
+			res, state := c.cnf2ddnnfInner(tree, variables, currentShannons+1, hdl)
 			if !state.Success {
 				return 0, state
 			}
@@ -221,14 +228,14 @@ func (c *compiler) cnf2ddnnfInner(tree dtree, currentShannons int, hdl handler.H
 		c.solver.UndoDecide(variable)
 		if positiveDnnf.Sort() == f.SortFalse {
 			if c.solver.AtAssertionLevel() && c.solver.AssertCdLiteral() {
-				return c.cnf2ddnnf(tree, hdl)
+				return c.cnf2ddnnfInner(tree, variables, 0, hdl)
 			}
 			return c.fac.Falsum(), succ
 		}
 
 		negativeDnnf := c.fac.Falsum()
 		if c.solver.Decide(variable, false) {
-			res, state := c.cnf2ddnnfInner(tree, currentShannons+1, hdl)
+			res, state := c.cnf2ddnnfInner(tree, variables, currentShannons+1, hdl)
 			if !state.Success {
 				return 0, state
 			}
@@ -237,7 +244,7 @@ func (c *compiler) cnf2ddnnfInner(tree dtree, currentShannons int, hdl handler.H
 		c.solver.UndoDecide(variable)
 		if negativeDnnf == c.fac.Falsum() {
 			if c.solver.AtAssertionLevel() && c.solver.AssertCdLiteral() {
-				return c.cnf2ddnnf(tree, hdl)
+				return c.cnf2ddnnfInner(tree, variables, 0, hdl)
 			}
 			return c.fac.Falsum(), succ
 		}
@@ -278,6 +285,7 @@ func (c *compiler) conjoin(
 	if implied.Sort() == f.SortFalse {
 		return c.fac.Falsum(), succ
 	}
+	rightVariables := tree.right.dynamicVarSet()
 	left, state := c.cnfAux(tree.left, currentShannons, hdl)
 	if !state.Success {
 		return 0, state
@@ -285,6 +293,7 @@ func (c *compiler) conjoin(
 	if left.Sort() == f.SortFalse {
 		return c.fac.Falsum(), succ
 	}
+	assigned := c.assignedLiterals(rightVariables)
 	right, state := c.cnfAux(tree.right, currentShannons, hdl)
 	if !state.Success {
 		return 0, state
@@ -292,7 +301,7 @@ func (c *compiler) conjoin(
 	if right.Sort() == f.SortFalse {
 		return c.fac.Falsum(), succ
 	}
-	return c.fac.And(implied, left, right), succ
+	return c.fac.And(implied, left, assigned, right), succ
 }
 
 func (c *compiler) cnfAux(tree dtree, currentShannons int, hdl handler.Handler) (f.Formula, handler.State) {
@@ -343,3 +352,18 @@ func (c *compiler) leaf2ddnnf(leaf *dtreeLeaf) f.Formula {
 func (c *compiler) newlyImpliedLiterals(knownVariables *bitset) f.Formula {
 	return c.solver.NewlyImplied(knownVariables.toBoolSlice())
 }
+
+// assignedLiterals returns the conjunction of all literals over the given
+// variables which are assigned on the solver.
+func (c *compiler) assignedLiterals(variables *bitset) f.Formula {
+	var literals []f.Formula
+	for v := variables.nextSetBit(0); v != -1; v = variables.nextSetBit(v + 1) {
+		switch c.solver.ValueOf(sat.MkLit(v, false)) {
+		case f.TristateTrue:
+			literals = append(literals, c.solver.LitForIdx(v))
+		case f.TristateFalse:
+			literals = append(literals, c.solver.LitForIdx(v).Negate(c.fac))
+		}
+	}
+	return c.fac.And(literals...)
+}
diff --git a/dnnf/dtree.go b/dnnf/dtree.go
index 6b34953..4efe8c4 100644
--- a/dnnf/dtree.go
+++ b/dnnf/dtree.go
@@ -12,6 +12,7 @@ type dtree interface {
 	staticVarSet() *bitset
 	staticVariableSet(fac f.Factory) *f.VarSet
 	dynamicSeparator() *bitset
+	dynamicVarSet() *bitset
 	staticClauseIds() []int32
 	countUnsubsumedOccurrences(occurrences []int32)
 	depth() int
@@ -96,6 +97,18 @@ func (l *dtreeLeaf) staticVariableSet(fac f.Factory) *f.VarSet {
 	return f.Variables(fac, l.clause)
 }
 
+func (l *dtreeLeaf) dynamicVarSet() *bitset {
+	localVarSet := newBitset()
+	if !l.isSubsumed() {
+		for _, lit := range l.literals {
+			if l.solver.ValueOf(lit) == f.TristateUndef {
+				localVarSet.set(sat.Vari(lit))
+			}
+		}
+	}
+	return localVarSet
+}
+
 func (l *dtreeLeaf) countUnsubsumedOccurrences(occurrences []int32) {
 	if !l.isSubsumed() {
 		for _, variable := range l.statVariables {
@@ -149,7 +162,7 @@ func (n *dtreeNode) initialize(solver sat.DnnfSatSolver) {
 	n.solver = solver
 	n.left.initialize(solver)
 	n.right.initialize(solver)
-	n.statVarSet = n.left.staticVarSet()
+	n.statVarSet = n.left.staticVarSet().clone()
 	n.statVarSet.or(n.right.staticVarSet())
 	n.statVariables = toArray(n.statVarSet)
 	n.statSeparator = intersect(n.left.staticVarSetArray(), n.right.staticVarSetArray())
@@ -201,6 +214,12 @@ func (n *dtreeNode) dynamicSeparator() *bitset {
 	return n.localLeftVarSet
 }
 
+func (n *dtreeNode) dynamicVarSet() *bitset {
+	localVarSet := newBitset()
+	n.varSet(n.clauseContents, localVarSet)
+	return localVarSet
+}
+
 func (n *dtreeNode) countUnsubsumedOccurrences(occurrences []int32) {
 	for _, leaf := range n.lvs {
 		leaf.countUnsubsumedOccurrences(occurrences)
-- 
2.43.0


From e712a93f7931e99d3ed85efff0f3e9914edcb5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:24 +0000
Subject: [PATCH 57/64] fix: MinimizeNegations keeps formulas whose encoding
 needs auxiliary variables

---
 simplification/negation_simplifier.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simplification/negation_simplifier.go b/simplification/negation_simplifier.go
index e058af1..fcd1378 100644
--- a/simplification/negation_simplifier.go
+++ b/simplification/negation_simplifier.go
@@ -16,6 +16,11 @@ import (
 // un-simplified version.
 func MinimizeNegations(fac f.Factory, formula f.Formula) f.Formula {
 	nnf := normalform.NNF(fac, formula)
+	if !f.Variables(fac, formula).ContainsAll(f.Variables(fac, nnf)) {
+		// the encoding of a constraint introduced auxiliary variables, so the NNF
+		// is not equivalent to the formula
+		return formula
+	}
 	if nnf.IsAtomic() {
 		return getSmallestFormula(fac, true, formula, nnf)
 	}
-- 
2.43.0


From cf923555b94263d2df7122e05ed93cfaf7b4ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:24 +0000
Subject: [PATCH 58/64] fix: VarOccurrences does not count variables which are
 no longer assigned

---
 sat/var_occs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sat/var_occs.go b/sat/var_occs.go
index 08979de..a72e308 100644
--- a/sat/var_occs.go
+++ b/sat/var_occs.go
@@ -46,7 +46,7 @@ func initResultMap(fac f.Factory, solver *CoreSolver, relevantVars *f.MutableVar
 		name := solver.idx2name[int32(i)]
 		variable := fac.Var(name)
 		if relevantVars == nil || relevantVars.Contains(variable) {
-			if v.level == 0 {
+			if v.assignment != f.TristateUndef && v.level == 0 {
 				counts[name] = 1
 			} else {
 				counts[name] = 0
-- 
2.43.0


From cd92b09434dd9e26c5dc1e5988b15bc0be6edcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:53 +0000
Subject: [PATCH 59/64] fix: NewAuxVar never returns a variable whose name is
 already in use

---
 formula/factory.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/formula/factory.go b/formula/factory.go
index 8e3d332..3b0cbd6 100644
--- a/formula/factory.go
+++ b/formula/factory.go
@@ -957,9 +957,15 @@ func (fac *CachingFactory) getPBCUnsafe(formula Formula) pbc {
 
 // NewAuxVar generates and returns a new auxiliary variable of the given sort.
 func (fac *CachingFactory) NewAuxVar(sort AuxVarSort) Variable {
-	variable := fac.Var(fmt.Sprintf("%s%d", sort, fac.auxVarCounters[sort]))
-	fac.auxVarCounters[sort]++
-	return variable
+	for {
+		name := fmt.Sprintf("%s%d", sort, fac.auxVarCounters[sort])
+		fac.auxVarCounters[sort]++
+		// the name can already be in use, e.g. in a parsed formula which was
+		// generated by another factory
+		if _, ok := fac.posLitCache[name]; !ok {
+			return fac.Var(name)
+		}
+	}
 }
 
 func (fac *CachingFactory) transformationCacheEntry(entry TransformationCacheSort) *map[Formula]Formula {
-- 
2.43.0


From 46401a0ea7a8b6beaf7482b0bdb21aeae52fa755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:16 +0000
Subject: [PATCH 60/64] fix: FORCE variable ordering terminates when the
 orderings run into a cycle

---
 bdd/ordering.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bdd/ordering.go b/bdd/ordering.go
index 360b27c..a0fb5aa 100644
--- a/bdd/ordering.go
+++ b/bdd/ordering.go
@@ -165,14 +165,21 @@ func force(
 	initialOrdering := createInitialOrdering(fac, formula, nodes)
 	var lastOrdering *linkedhashmap.Map
 	currentOrdering := initialOrdering
+	// the orderings can also run into a cycle, which is left as soon as the
+	// ordering at the last step which was a power of two is reached again
+	checkpoint := initialOrdering
 
-	for ok := true; ok; ok = shouldProceed(lastOrdering, currentOrdering) {
+	for step, ok := 1, true; ok; step++ {
+		if step&(step-1) == 0 {
+			checkpoint = currentOrdering
+		}
 		lastOrdering = currentOrdering
 		newLocations := linkedhashmap.New()
 		for _, node := range hypergraph.Nodes {
 			newLocations.Put(node, node.ComputeTentativeNewLocation(lastOrdering))
 		}
 		currentOrdering = orderingFromTentativeNewLocations(newLocations)
+		ok = shouldProceed(lastOrdering, currentOrdering) && shouldProceed(checkpoint, currentOrdering)
 	}
 
 	ordering := make([]f.Variable, currentOrdering.Size())
-- 
2.43.0


From 751b4cce212a6c3e59bdd44ebe85fe1b6627607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:47 +0000
Subject: [PATCH 61/64] fix: limits on the number of models work when the
 number exceeds the integer range

---
 model/count/sat_counting.go   |  7 ++++++-
 model/enum/enumeration_bdd.go |  6 +++++-
 model/iter/handler.go         | 10 ++++++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/model/count/sat_counting.go b/model/count/sat_counting.go
index 2d413e6..6152d5a 100644
--- a/model/count/sat_counting.go
+++ b/model/count/sat_counting.go
@@ -1,6 +1,7 @@
 package count
 
 import (
+	"math"
 	"math/big"
 
 	"github.com/booleworks/logicng-go/event"
@@ -68,7 +69,11 @@ func newModelCountCollector(_ f.Factory, _, dontCaresNotOnSolver, _ *f.VarSet) i
 func (c *modelCountCollector) AddModel(
 	modelFromSolver []bool, _ *sat.Solver, relevantAllIndices []int32, hdl handler.Handler,
 ) handler.State {
-	e := iter.EventIteratorFoundModels{NumberOfModels: int(c.dontCareFactor.Int64())}
+	numberOfModels := math.MaxInt
+	if c.dontCareFactor.Cmp(big.NewInt(math.MaxInt)) < 0 {
+		numberOfModels = int(c.dontCareFactor.Int64())
+	}
+	e := iter.EventIteratorFoundModels{NumberOfModels: numberOfModels}
 	c.uncommittedModels = append(c.uncommittedModels, modelFromSolver)
 	c.uncommittedIndices = append(c.uncommittedIndices, relevantAllIndices)
 	if !hdl.ShouldResume(e) {
diff --git a/model/enum/enumeration_bdd.go b/model/enum/enumeration_bdd.go
index 7b39cc9..d946840 100644
--- a/model/enum/enumeration_bdd.go
+++ b/model/enum/enumeration_bdd.go
@@ -2,6 +2,7 @@ package enum
 
 import (
 	"math"
+	"math/bits"
 
 	"github.com/booleworks/logicng-go/bdd"
 	"github.com/booleworks/logicng-go/event"
@@ -82,7 +83,10 @@ func generateModelCollector(
 		numVars := sortedVariables.Size()
 		kernel := bdd.NewKernelWithOrdering(fac, sortedVariables.Content(), int32(numVars*30), int32(numVars*50))
 		committedModels := bdd.CompileWithKernel(fac, fac.Falsum(), kernel)
-		dontCareFactor := int(math.Pow(2, float64(dontCaresNotOnSolver.Size())))
+		dontCareFactor := math.MaxInt
+		if numDontCares := dontCaresNotOnSolver.Size(); numDontCares < bits.UintSize-1 {
+			dontCareFactor = 1 << numDontCares
+		}
 		return &modelEnumBddCollector{
 			kernel:            kernel,
 			committedModels:   committedModels,
diff --git a/model/iter/handler.go b/model/iter/handler.go
index 6050a68..60dbdd3 100644
--- a/model/iter/handler.go
+++ b/model/iter/handler.go
@@ -1,6 +1,8 @@
 package iter
 
 import (
+	"math"
+
 	"github.com/booleworks/logicng-go/event"
 )
 
@@ -32,7 +34,11 @@ func (h *LimitHandler) ShouldResume(e event.Event) bool {
 	} else if e == event.ModelEnumerationRollback {
 		h.countUncommitted = 0
 	} else if efm, ok := e.(EventIteratorFoundModels); ok {
-		h.countUncommitted += efm.NumberOfModels
+		if efm.NumberOfModels > math.MaxInt-h.countUncommitted {
+			h.countUncommitted = math.MaxInt
+		} else {
+			h.countUncommitted += efm.NumberOfModels
+		}
 	}
-	return h.countUncommitted+h.countCommitted < h.bound
+	return h.countUncommitted < h.bound-h.countCommitted
 }
-- 
2.43.0


From 7f2c7c93f46d4d942fc1f3d6eae40a429687dbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:43 +0000
Subject: [PATCH 62/64] fix: Tseitin and Plaisted-Greenbaum CNFs may share one
 state

---
 normalform/cnf.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/normalform/cnf.go b/normalform/cnf.go
index cbca1c8..eb04f19 100644
--- a/normalform/cnf.go
+++ b/normalform/cnf.go
@@ -381,7 +381,7 @@ func TseitinCNF(fac f.Factory, formula f.Formula, boundaryForFactorization int,
 		return nnf
 	}
 	tseitin, ok := state.FormulaMap[nnf]
-	if ok {
+	if ok && state.defined[nnf] {
 		topLevel, _ := assignment.New(fac, state.LiteralMap[nnf])
 		return assignment.Restrict(fac, tseitin, topLevel)
 	}
@@ -394,12 +394,14 @@ func TseitinCNF(fac f.Factory, formula f.Formula, boundaryForFactorization int,
 		topLevel, _ := assignment.New(fac, state.LiteralMap[nnf])
 		tseitin = assignment.Restrict(fac, state.FormulaMap[nnf], topLevel)
 	}
-	state.LiteralMap[formula] = state.LiteralMap[nnf]
+	if literal, ok := state.LiteralMap[nnf]; ok {
+		state.LiteralMap[formula] = literal
+	}
 	return tseitin
 }
 
 func computeTseitin(fac f.Factory, formula f.Formula, state *CNFAuxState) {
-	if _, ok := state.FormulaMap[formula]; ok {
+	if state.defined[formula] {
 		return
 	}
 	switch formula.Sort() {
@@ -408,7 +410,10 @@ func computeTseitin(fac f.Factory, formula f.Formula, state *CNFAuxState) {
 		state.LiteralMap[formula] = f.Literal(formula)
 	case f.SortAnd, f.SortOr:
 		isConjunction := formula.Sort() == f.SortAnd
-		tsLiteral := fac.NewAuxVar(f.AuxCNF).AsLiteral()
+		tsLiteral, ok := state.LiteralMap[formula]
+		if !ok {
+			tsLiteral = fac.NewAuxVar(f.AuxCNF).AsLiteral()
+		}
 		var nops []f.Formula
 		naryOps := fac.Operands(formula)
 		operands := make([]f.Formula, 0, len(naryOps))
@@ -433,6 +438,7 @@ func computeTseitin(fac f.Factory, formula f.Formula, state *CNFAuxState) {
 	default:
 		panic(errorx.IllegalState("could not process the formula type %s", formula.Sort()))
 	}
+	state.setDefined(formula)
 }
 
 func handleNary(
@@ -455,10 +461,18 @@ func handleNary(
 type CNFAuxState struct {
 	FormulaMap map[f.Formula]f.Formula
 	LiteralMap map[f.Formula]f.Literal
+	defined    map[f.Formula]bool // formulas with a complete Tseitin definition
+}
+
+func (s *CNFAuxState) setDefined(formula f.Formula) {
+	if s.defined == nil {
+		s.defined = make(map[f.Formula]bool)
+	}
+	s.defined[formula] = true
 }
 
 // NewCNFAuxState generates a new empty state for Tseitin or Plaisted &
 // Greenbaum CNF transformations.
 func NewCNFAuxState() *CNFAuxState {
-	return &CNFAuxState{make(map[f.Formula]f.Formula), make(map[f.Formula]f.Literal)}
+	return &CNFAuxState{make(map[f.Formula]f.Formula), make(map[f.Formula]f.Literal), nil}
 }
-- 
2.43.0


From 4f21e3e049e08eacbf7746617f10007023ea1ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:43 +0000
Subject: [PATCH 63/64] fix: a model iteration without handler in its
 configuration does not panic

---
 model/iter/iteration.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index f58526f..1eda672 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -35,7 +35,11 @@ func New[R any](vars, additionalVars *f.VarSet, config *Config) *ModelIterator[R
 	if strategy == nil {
 		strategy = NewNoSplitMEStrategy()
 	}
-	return &ModelIterator[R]{vars, additionalVars, config.Handler, strategy}
+	hdl := config.Handler
+	if hdl == nil {
+		hdl = handler.NopHandler
+	}
+	return &ModelIterator[R]{vars, additionalVars, hdl, strategy}
 }
 
 // Iterate is the main entry point for the model iteration.  It iterates over
-- 
2.43.0


From fccedbb536de5ab84078bfb58508a91e5cf4e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:43 +0000
Subject: [PATCH 64/64] fix: the simplifiers use the default rating function if
 none is given

---
 simplification/advanced.go   | 8 ++++++--
 simplification/factor_out.go | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/simplification/advanced.go b/simplification/advanced.go
index 2c8dc2c..149c634 100644
--- a/simplification/advanced.go
+++ b/simplification/advanced.go
@@ -202,8 +202,12 @@ func simplifyWithRating(fac f.Factory, formula, simplifiedOneStep f.Formula, con
 	if !config.UseRatingFunction {
 		return simplifiedOneStep
 	}
-	ratingSimplified := config.RatingFunction(fac, simplifiedOneStep)
-	ratingFormula := config.RatingFunction(fac, formula)
+	rating := config.RatingFunction
+	if rating == nil {
+		rating = DefaultRatingFunction
+	}
+	ratingSimplified := rating(fac, simplifiedOneStep)
+	ratingFormula := rating(fac, formula)
 	if ratingSimplified < ratingFormula {
 		return simplifiedOneStep
 	}
diff --git a/simplification/factor_out.go b/simplification/factor_out.go
index 4e4905a..42bff51 100644
--- a/simplification/factor_out.go
+++ b/simplification/factor_out.go
@@ -12,7 +12,7 @@ import (
 // and choose the one with the lower rating.
 func FactorOut(fac f.Factory, formula f.Formula, ratingFunction ...RatingFunction) f.Formula {
 	rf := DefaultRatingFunction
-	if len(ratingFunction) > 0 {
+	if len(ratingFunction) > 0 && ratingFunction[0] != nil {
 		rf = ratingFunction[0]
 	}
 	var last f.Formula
-- 
2.43.0

