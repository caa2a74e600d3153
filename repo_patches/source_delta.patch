From 35fbb2da94107853645ab400003d13ffb2824036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:55 +0000
Subject: [PATCH 01/31] fix: packrat must reject an empty input the grammar
 does not derive

The accept lookup compared the zero value of a missing memo entry with an
accept key ending at 0, so every grammar accepted the empty input.
---
 parser/packrat/packrat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 45965d9..622ae27 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -108,8 +108,8 @@ func (p *Packrat) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	var accept treeKey
 	accept.idx = start.idx
 	accept.end = len(lexemes)
-	accepted := op.memo[accept]
-	if accepted.end != accept.end {
+	accepted, ok := op.memo[accept]
+	if !ok {
 		return nil
 	}
 	return accepted.toPN(op.lxms, op.memo, op.set)
-- 
2.43.0


From 9e13839a3f661a4f86626c83e0991ecbeaaa5420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:28 +0000
Subject: [PATCH 02/31] fix: packrat must not extend a partial production with
 a lexeme it does not require

update looked for a lexeme of the kind of the production's left side instead
of the symbol required next, so a lexeme whose kind is the name of a
non-terminal produced trees that are no derivation (or an index panic).
---
 parser/packrat/packrat.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 622ae27..19acfb5 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -166,14 +166,6 @@ func (u *updater) update(op *prOp) {
 		start: extended.end,
 	}
 
-	if td := op.checkNonTerminal(extended.treeMarker); td != nil {
-		(&updater{
-			base:      extended,
-			extension: td.treeKey,
-		}).update(op)
-		return
-	}
-
 	op.addPartial(extended, requires)
 }
 
@@ -240,16 +232,15 @@ func (op *prOp) addPartial(tp treePartial, requires treeMarker) {
 	op.addProds(requires)
 }
 
-func (op *prOp) checkNonTerminal(at treeMarker) *treeDef {
+func (op *prOp) checkNonTerminal(at treeMarker) {
 	matchesNonterminal := at.start < len(op.lxms) && at.idx == op.lxms[at.start].K.(*setsymbol.Symbol).Idx()
 	if !matchesNonterminal {
-		return nil
+		return
 	}
 	var td treeDef
 	td.treeMarker = at
 	td.end = at.start + 1
 	op.addToMemo(td)
-	return &td
 }
 
 func (op *prOp) push(tp treePartial, tk treeKey) {
-- 
2.43.0


From ab82687b8d3dc3498e34cda8beb1188b11ca0043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:23 +0000
Subject: [PATCH 03/31] fix: packrat must choose between derivations by
 production order only

An alternative was compared with the memoised one as soon as it was found,
using whatever its children were memoised as at that moment, so the tree
depended on the order of discovery. Keep the alternatives and choose bottom
up once all of them are known.
---
 parser/packrat/packrat.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 19acfb5..33f7c1a 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -49,6 +49,7 @@ type prOp struct {
 	grmr     parlex.Grammar
 	lxms     []*lexeme.Lexeme
 	memo     map[treeKey]treeDef
+	alts     map[treeKey][]treeDef
 	markers  map[treeMarker][]treeDef
 	partials map[treeMarker][]treePartial
 	queued   map[treeMarker]bool
@@ -84,6 +85,7 @@ func (p *Packrat) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 		grmr:     p.Grammar,
 		lxms:     set.LoadLexemes(lexemes),
 		memo:     make(map[treeKey]treeDef),
+		alts:     make(map[treeKey][]treeDef), // every way found to form a key
 		markers:  make(map[treeMarker][]treeDef),     // maps marker to treeDef containing that marker
 		partials: make(map[treeMarker][]treePartial), // maps a marker to a treePartial looking for that marker
 		queued:   make(map[treeMarker]bool),
@@ -108,10 +110,11 @@ func (p *Packrat) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	var accept treeKey
 	accept.idx = start.idx
 	accept.end = len(lexemes)
-	accepted, ok := op.memo[accept]
-	if !ok {
+	if _, ok := op.memo[accept]; !ok {
 		return nil
 	}
+	op.resolve(accept, make(map[treeKey]bool))
+	accepted := op.memo[accept]
 	return accepted.toPN(op.lxms, op.memo, op.set)
 }
 
@@ -170,15 +173,34 @@ func (u *updater) update(op *prOp) {
 }
 
 func (op *prOp) addToMemo(td treeDef) {
-	old, ok := op.memo[td.treeKey]
-	if !ok {
+	op.alts[td.treeKey] = append(op.alts[td.treeKey], td)
+	if _, ok := op.memo[td.treeKey]; !ok {
 		op.memo[td.treeKey] = td
 		op.markers[td.treeMarker] = append(op.markers[td.treeMarker], td)
 		for _, tp := range op.partials[td.treeMarker] {
 			op.push(tp, td.treeKey)
 		}
-	} else if td.comparePriority(&old, op) == 1 && !op.createsCircularDep(td, &td) {
-		op.memo[td.treeKey] = td
+	}
+}
+
+// resolve sets the memo for a key to the alternative with the highest priority.
+// The comparison looks at the children, so they have to be resolved first; that
+// is only possible once all alternatives are known.
+func (op *prOp) resolve(key treeKey, resolved map[treeKey]bool) {
+	if resolved[key] {
+		return
+	}
+	resolved[key] = true
+	for _, td := range op.alts[key] {
+		for _, ck := range td.children {
+			op.resolve(ck, resolved)
+		}
+	}
+	for _, td := range op.alts[key] {
+		old := op.memo[key]
+		if td.comparePriority(&old, op) == 1 && !op.createsCircularDep(td, &td) {
+			op.memo[key] = td
+		}
 	}
 }
 
-- 
2.43.0


From 64da558a1be581198510b5f6af36df2bddf55f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:25 +0000
Subject: [PATCH 04/31] fix: Parent of a root node must be nil

A nil *PN was returned as a non-nil parlex.ParseNode.
---
 tree/parsetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index f88e5f9..6269de6 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -57,6 +57,9 @@ type PN struct {
 // Parent returns a reference to the nodes parent. If parent is nil, this is the
 // root of the tree. This is part of the parlex.ParseNode interface.
 func (p *PN) Parent() parlex.ParseNode {
+	if p.P == nil {
+		return nil
+	}
 	return p.P
 }
 
-- 
2.43.0


From b1a56c9972f174e46a62e86d89325806b1ac0754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:27 +0000
Subject: [PATCH 05/31] fix: Clone must keep the position of the nodes

---
 tree/parsetree.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 6269de6..95aba04 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -159,11 +159,8 @@ func (p *PN) ChildAt(cIdx int, symbs ...string) bool {
 // Clone takes a node and clones it and all it's children.
 func Clone(node parlex.ParseNode) *PN {
 	pn := &PN{
-		Lexeme: &lexeme.Lexeme{
-			K: node.Kind(),
-			V: node.Value(),
-		},
-		C: make([]*PN, node.Children()),
+		Lexeme: lexeme.Copy(node),
+		C:      make([]*PN, node.Children()),
 	}
 	for i := 0; i < node.Children(); i++ {
 		c := Clone(node.Child(i))
-- 
2.43.0


From 579f8fce92390e28028c32605b28924828ee3a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:28 +0000
Subject: [PATCH 06/31] fix: topdown trees must have distinct nodes with
 parents

A node that was memoised (an empty production, say) could appear several
times in the tree, and no node had its parent set.
---
 parser/topdown/topdown.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/topdown/topdown.go b/parser/topdown/topdown.go
index 803bbf7..4639430 100644
--- a/parser/topdown/topdown.go
+++ b/parser/topdown/topdown.go
@@ -47,7 +47,8 @@ func (t *Topdown) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	if node == nil {
 		return nil
 	}
-	return node
+	// accepted nodes are shared through the memo and have no parent yet
+	return tree.Clone(node)
 }
 
 type treeKey struct {
-- 
2.43.0


From 71abd7783cc8b95380b3e2765f21ab92f2722566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:34 +0000
Subject: [PATCH 07/31] fix: IsLeftRecursive must find every left recursion

A non-terminal already checked was taken for not nullable, and only empty
productions made a non-terminal nullable, so hidden left recursion was missed
and the topdown parser overflowed the stack.
---
 leftrecursion.go          | 58 ++++++++++++++++++++++++++-------------
 parser/packrat/packrat.go |  2 +-
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/leftrecursion.go b/leftrecursion.go
index f3d3d95..4f0d3e4 100644
--- a/leftrecursion.go
+++ b/leftrecursion.go
@@ -3,13 +3,14 @@ package parlex
 // IsLeftRecursive will check if a grammar is left recursive.
 func IsLeftRecursive(grammar Grammar) bool {
 	op := &lrOp{
-		Grammar: grammar,
-		checked: make(map[string]bool),
+		Grammar:  grammar,
+		checked:  make(map[string]bool),
+		nullable: make(map[string]bool),
 	}
+	op.findNullable()
 	for _, nt := range grammar.NonTerminals() {
 		op.stack = make(map[string]bool)
-		isLR, _ := op.check(nt)
-		if isLR {
+		if op.check(nt) {
 			return true
 		}
 	}
@@ -18,41 +19,60 @@ func IsLeftRecursive(grammar Grammar) bool {
 
 type lrOp struct {
 	Grammar
-	checked, stack map[string]bool
+	checked, stack, nullable map[string]bool
 }
 
-func (op *lrOp) check(s Symbol) (isLR, checkNext bool) {
+// findNullable finds all the non-terminals that can derive the empty string.
+func (op *lrOp) findNullable() {
+	for changed := true; changed; {
+		changed = false
+		for _, nt := range op.NonTerminals() {
+			prods := op.Productions(nt)
+			if prods == nil || op.nullable[nt.String()] {
+				continue
+			}
+			for i := prods.Iter(); i.Next(); {
+				nullable := true
+				for j := i.Iter(); j.Next() && nullable; {
+					nullable = op.nullable[j.Symbol.String()]
+				}
+				if nullable {
+					op.nullable[nt.String()] = true
+					changed = true
+					break
+				}
+			}
+		}
+	}
+}
+
+func (op *lrOp) check(s Symbol) bool {
 	if op.checked[s.String()] {
-		return false, false
+		return false
 	}
 
 	prods := op.Productions(s)
 	if prods == nil {
 		// s is a terminal
 		op.checked[s.String()] = true // add to checked to avoid the lookup in the future
-		return false, false
+		return false
 	}
 
 	if op.stack[s.String()] {
-		return true, false
+		return true
 	}
 	op.stack[s.String()] = true
 
-	retCheckNext := false
 	for i := prods.Iter(); i.Next(); {
-		if i.Production.Symbols() == 0 {
-			retCheckNext = true
-			continue
-		}
-		for j, isLR, checkNext := i.Iter(), false, true; j.Next() && checkNext; {
-			isLR, checkNext = op.check(j.Symbol)
-			if isLR {
-				return true, false
+		for j, checkNext := i.Iter(), true; checkNext && j.Next(); {
+			if op.check(j.Symbol) {
+				return true
 			}
+			checkNext = op.nullable[j.Symbol.String()]
 		}
 	}
 
 	op.checked[s.String()] = true
 	op.stack[s.String()] = false
-	return false, retCheckNext
+	return false
 }
diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 33f7c1a..1cb757b 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -85,7 +85,7 @@ func (p *Packrat) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 		grmr:     p.Grammar,
 		lxms:     set.LoadLexemes(lexemes),
 		memo:     make(map[treeKey]treeDef),
-		alts:     make(map[treeKey][]treeDef), // every way found to form a key
+		alts:     make(map[treeKey][]treeDef),        // every way found to form a key
 		markers:  make(map[treeMarker][]treeDef),     // maps marker to treeDef containing that marker
 		partials: make(map[treeMarker][]treePartial), // maps a marker to a treePartial looking for that marker
 		queued:   make(map[treeMarker]bool),
-- 
2.43.0


From 4a6e4fe73017ad5401da7a1300ec0ea8cf935f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:08 +0000
Subject: [PATCH 08/31] fix: Analyze must find all first sets, nullable symbols
 and terminals

The single recursive pass saw unfinished sets under recursion, mistook
'reaches an empty production' for 'derives the empty string', only recorded
terminals in first position and lost non-terminals with only an empty
production. Compute the sets as a fixpoint.
---
 analyze/analysis.go | 72 +++++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 29 deletions(-)

diff --git a/analyze/analysis.go b/analyze/analysis.go
index 69dd846..8f4d6a7 100644
--- a/analyze/analysis.go
+++ b/analyze/analysis.go
@@ -13,7 +13,7 @@ type Analytics struct {
 	nilInFirst     []bool
 	Terminals      []bool
 	set            *setsymbol.Set
-	done           []bool
+	nullable       []bool
 }
 
 // Analyze a grammar. The grammar is embeded so the return value can be used as
@@ -35,12 +35,23 @@ func Analyze(grammar parlex.Grammar) *Analytics {
 		nonterm2firsts: make([][]int, ln),
 		nilInFirst:     make([]bool, ln),
 		Terminals:      make([]bool, ln),
-		done:           make([]bool, ln),
+		nullable:       make([]bool, ln),
 	}
 
-	// find firsts by populating nonterm2firsts
-	for _, symbol := range a.NonTerminals() {
-		a.firsts(a.set.Symbol(symbol))
+	for idx := range a.Terminals {
+		a.Terminals[idx] = a.Productions(set.ByIdx(idx)) == nil
+	}
+
+	// find firsts by populating nonterm2firsts until nothing new is found
+	nonterms := a.NonTerminals()
+	for _, symbol := range nonterms {
+		a.nonterm2firsts[a.set.Symbol(symbol).Idx()] = []int{}
+	}
+	for changed := true; changed; {
+		changed = false
+		for _, symbol := range nonterms {
+			changed = a.firsts(a.set.Symbol(symbol)) || changed
+		}
 	}
 
 	// populate first2nonterms from nonterm2firsts
@@ -59,37 +70,40 @@ func Analyze(grammar parlex.Grammar) *Analytics {
 	return a
 }
 
-func (a *Analytics) firsts(s *setsymbol.Symbol) ([]int, bool) {
+// firsts adds to what is known about a non-terminal from what is known about
+// the symbols in it's productions and returns true if there was anything to add.
+func (a *Analytics) firsts(s *setsymbol.Symbol) bool {
 	sIdx := s.Idx()
-	if a.done[sIdx] {
-		return a.nonterm2firsts[sIdx], a.nilInFirst[sIdx]
-	}
-	a.done[sIdx] = true
-
-	var fs []int
-	nilInFirst := false
+	found := len(a.nonterm2firsts[sIdx])
+	nilInFirst, nullable := a.nilInFirst[sIdx], a.nullable[sIdx]
 	for i := a.Productions(s).Iter(); i.Next(); {
 		if i.Symbols() == 0 {
-			nilInFirst = true
-			continue
+			a.nilInFirst[sIdx] = true
 		}
-		var firsts []int
-		for j, doNext := i.Iter(), true; j.Next() && doNext; {
-			symbol := a.set.Symbol(j.Symbol)
-			if a.Productions(symbol) == nil {
-				doNext = false
-				fs = append(fs, symbol.Idx())
-				a.Terminals[symbol.Idx()] = true
-			} else {
-				firsts, doNext = a.firsts(symbol)
-				nilInFirst = nilInFirst || doNext
-				fs = append(fs, firsts...)
+		doNext := true
+		for j := i.Iter(); doNext && j.Next(); {
+			idx := a.set.Symbol(j.Symbol).Idx()
+			if a.Terminals[idx] {
+				a.addFirst(sIdx, idx)
 			}
+			for _, first := range a.nonterm2firsts[idx] {
+				a.addFirst(sIdx, first)
+			}
+			a.nilInFirst[sIdx] = a.nilInFirst[sIdx] || a.nilInFirst[idx]
+			doNext = a.nullable[idx]
+		}
+		a.nullable[sIdx] = a.nullable[sIdx] || doNext
+	}
+	return found != len(a.nonterm2firsts[sIdx]) || nilInFirst != a.nilInFirst[sIdx] || nullable != a.nullable[sIdx]
+}
+
+func (a *Analytics) addFirst(symbol, first int) {
+	for _, f := range a.nonterm2firsts[symbol] {
+		if f == first {
+			return
 		}
 	}
-	a.nonterm2firsts[sIdx] = fs
-	a.nilInFirst[sIdx] = nilInFirst
-	return fs, nilInFirst
+	a.nonterm2firsts[symbol] = append(a.nonterm2firsts[symbol], first)
 }
 
 // Contains returns true if the grammar contains the symbol as either a terminal
-- 
2.43.0


From 7f713138625bcc29095ac505a5bd008262b7ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:45 +0000
Subject: [PATCH 09/31] fix: RemoveLeftRecursion must terminate and keep the
 language

Productions were substituted from the original grammar, which recursed forever
for indirect recursion through a directly recursive symbol; 'E -> E E' lost
every E; symbol indexes of two sets were mixed; the helper's name could be
that of an existing symbol; a non-terminal left without productions turned
into a terminal.
---
 grammar/grammar.go        |   4 +-
 grammar/left_recursion.go | 105 +++++++++++++++++++++-----------------
 2 files changed, 61 insertions(+), 48 deletions(-)

diff --git a/grammar/grammar.go b/grammar/grammar.go
index 9e739b1..102071d 100644
--- a/grammar/grammar.go
+++ b/grammar/grammar.go
@@ -184,7 +184,9 @@ func (g *Grammar) String() string {
 	for _, nt := range nonTerminals {
 		prods := g.Productions(nt)
 		iter := prods.Iter()
-		iter.Next()
+		if !iter.Next() {
+			continue
+		}
 		segs = append(segs, fmt.Sprintf(format, nt, iter.Production))
 		for iter.Next() {
 			segs = append(segs, fmt.Sprintf(format, "", iter.Production))
diff --git a/grammar/left_recursion.go b/grammar/left_recursion.go
index b2e8278..29a849c 100644
--- a/grammar/left_recursion.go
+++ b/grammar/left_recursion.go
@@ -6,9 +6,9 @@ import (
 )
 
 type lrOp struct {
-	in        parlex.Grammar
 	out       *Grammar
 	done      []bool
+	helpers   map[int]bool
 	cur       *setsymbol.Symbol
 	hasDirect bool
 	set       *setsymbol.Set
@@ -17,31 +17,40 @@ type lrOp struct {
 // RemoveLeftRecursion will convert a grammar with left recursion into one
 // without.
 func RemoveLeftRecursion(grammar parlex.Grammar) *Grammar {
-	nts := grammar.NonTerminals()
+	out := Empty()
+	out.set.LoadGrammar(grammar)
 	op := &lrOp{
-		in:   grammar,
-		out:  Empty(),
-		done: make([]bool, len(nts)),
-		set:  setsymbol.New(),
+		out:     out,
+		done:    make([]bool, out.set.Size()),
+		helpers: make(map[int]bool),
+		set:     out.set,
 	}
-	for _, s := range nts {
+	for _, s := range grammar.NonTerminals() {
 		op.cur = op.set.Symbol(s)
 		op.hasDirect = false
-		for i := grammar.Productions(op.cur).Iter(); i.Next(); {
+		op.addNonTerminal(op.cur)
+		for i := grammar.Productions(s).Iter(); i.Next(); {
 			op.safeAdd(op.set.CastProduction(i.Production))
 		}
 		if op.hasDirect {
 			op.removeDirectLeftRecursion()
 		}
-		idx := op.cur.Idx()
-		if idx >= len(op.done) {
-			op.done = append(op.done, make([]bool, 1+idx+len(op.done))...)
-		}
 		op.done[op.cur.Idx()] = true
 	}
 	return op.out
 }
 
+// addNonTerminal makes s a non-terminal of the output, even if no production
+// will be left for it.
+func (op *lrOp) addNonTerminal(s *setsymbol.Symbol) {
+	idx := s.Idx()
+	if ln := len(op.out.productions); idx >= ln {
+		op.out.productions = append(op.out.productions, make([]*setsymbol.Productions, 1+idx-ln)...)
+	}
+	op.out.productions[idx] = op.set.Productions()
+	op.out.order = append(op.out.order, idx)
+}
+
 func (op *lrOp) safeAdd(prod *setsymbol.Production) {
 	var first *setsymbol.Symbol
 	if prod.Symbols() > 0 {
@@ -56,16 +65,21 @@ func (op *lrOp) safeAdd(prod *setsymbol.Production) {
 		return
 	}
 
-	for i := op.in.Productions(first).Iter(); i.Next(); {
-		newProd := op.set.Production()
-		for lead := i.Production.Iter(); lead.Next(); {
-			newProd.AddSymbols(lead.Symbol)
-		}
-		for tail := op.getTail(prod).Iter(); tail.Next(); {
-			newProd.AddSymbols(tail.Symbol)
-		}
-		op.safeAdd(newProd)
+	for i := op.out.Productions(first).Iter(); i.Next(); {
+		op.safeAdd(op.replaceFirst(prod, i.Production))
+	}
+}
+
+// replaceFirst replaces the first symbol in prod with lead
+func (op *lrOp) replaceFirst(prod *setsymbol.Production, lead parlex.Production) *setsymbol.Production {
+	newProd := op.set.Production()
+	for i := lead.Iter(); i.Next(); {
+		newProd.AddSymbols(i.Symbol)
 	}
+	for tail := op.getTail(prod).Iter(); tail.Next(); {
+		newProd.AddSymbols(tail.Symbol)
+	}
+	return newProd
 }
 
 func (op *lrOp) getTail(prod *setsymbol.Production) *setsymbol.Production {
@@ -78,44 +92,41 @@ func (op *lrOp) getTail(prod *setsymbol.Production) *setsymbol.Production {
 }
 
 func (op *lrOp) removeDirectLeftRecursion() {
-	newSym := op.set.Str(op.cur.String() + "'")
-	nsIdx := newSym.Idx()
-	if nsIdx >= len(op.out.productions) || op.out.productions[nsIdx] == nil {
-		op.out.order = append(op.out.order, nsIdx)
+	name := op.cur.String() + "'"
+	for op.set.Has(name) {
+		name += "'"
 	}
+	newSym := op.set.Str(name)
+	op.addNonTerminal(newSym)
+	op.helpers[newSym.Idx()] = true
 
 	prods := op.out.productions[op.cur.Idx()]
-	op.out.productions[op.cur.Idx()] = nil
+	op.out.productions[op.cur.Idx()] = op.set.Productions()
 	for i := prods.Iter(); i.Next(); {
 		prod := i.Production.(*setsymbol.Production)
 		if prod.Symbols() == 0 || prod.Symbol(0).(*setsymbol.Symbol).Idx() != op.cur.Idx() {
 			prod.AddSymbols(newSym)
-			op.directAdd(op.cur, prod)
+			op.out.Add(op.cur, prod)
 		} else {
-			for prod.Symbols() > 0 && prod.Symbol(0).(*setsymbol.Symbol).Idx() == op.cur.Idx() {
-				prod = op.getTail(prod)
-			}
-			if prod.Symbols() > 0 {
-				prod.AddSymbols(newSym)
-				op.directAdd(newSym, prod)
-			}
+			op.addTail(newSym, op.getTail(prod))
 		}
 	}
-	op.directAdd(newSym, op.set.Production())
+	op.out.Add(newSym, op.set.Production())
 }
 
-func (op *lrOp) directAdd(from *setsymbol.Symbol, to *setsymbol.Production) {
-	f := from.Idx()
-	var prods *setsymbol.Productions
-	if f < len(op.out.productions) {
-		prods = op.out.productions[f]
-	} else {
-		op.out.productions = append(op.out.productions, make([]*setsymbol.Productions, 1+f-len(op.out.productions))...)
+// addTail adds what follows the recursion to the new symbol. Helpers from
+// earlier non-terminals can be empty, so they cannot stay at the start.
+func (op *lrOp) addTail(newSym *setsymbol.Symbol, tail *setsymbol.Production) {
+	if tail.Symbols() == 0 {
+		return
 	}
-
-	if prods == nil {
-		op.out.productions[f] = op.out.set.Productions(to)
-	} else {
-		prods.AddProductions(to)
+	first := tail.Symbol(0).(*setsymbol.Symbol)
+	if !op.helpers[first.Idx()] {
+		tail.AddSymbols(newSym)
+		op.out.Add(newSym, tail)
+		return
+	}
+	for i := op.out.Productions(first).Iter(); i.Next(); {
+		op.addTail(newSym, op.replaceFirst(tail, i.Production))
 	}
 }
-- 
2.43.0


From e59df84e3c25bbb5737df48c1083ef4005cf862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:58 +0000
Subject: [PATCH 10/31] fix: ByIdx must return nil for every index outside of
 the set

The index equal to the size of the set gave a symbol that panics when read.
---
 symbol/setsymbol/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol/setsymbol/set.go b/symbol/setsymbol/set.go
index 856a9d9..cad2381 100644
--- a/symbol/setsymbol/set.go
+++ b/symbol/setsymbol/set.go
@@ -25,7 +25,7 @@ func (s *Set) Size() int { return len(s.symb2str) }
 
 // ByIdx gets a symbol by index from the set
 func (s *Set) ByIdx(idx int) *Symbol {
-	if idx > len(s.symb2str) {
+	if idx < 0 || idx >= len(s.symb2str) {
 		return nil
 	}
 	return &Symbol{
-- 
2.43.0


From 1f4edfe537507d737247e8e3cdeb57ece5df9047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:59 +0000
Subject: [PATCH 11/31] fix: productions taken from Productions must not share
 spare capacity

Adding symbols to two productions taken from the same entry overwrote each
other.
---
 symbol/setsymbol/set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbol/setsymbol/set.go b/symbol/setsymbol/set.go
index cad2381..200d48a 100644
--- a/symbol/setsymbol/set.go
+++ b/symbol/setsymbol/set.go
@@ -261,8 +261,9 @@ func (p *Productions) Productions() int {
 // Production returns the production at the given index
 func (p *Productions) Production(i int) parlex.Production {
 	if i < len(p.prods) {
+		ln := len(p.prods[i])
 		return &Production{
-			symbs: p.prods[i],
+			symbs: p.prods[i][:ln:ln], // no capacity left to share when symbols are added
 			set:   p.set,
 		}
 	}
-- 
2.43.0


From 8a188e801e80f7f901f3d0ce931e7522dcdf943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:04 +0000
Subject: [PATCH 12/31] fix: ByPriority must choose the first rule that matches
 any text

The initial priority of -1 is higher than that of every rule, so with
ByPriority no rule was ever chosen and all text became an error.
---
 lexer/simplelexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index c019f86..de569db 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -149,9 +149,9 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int) {
 
 	// look in next for matches and take the longest one
 	for kind, loc := range op.next {
-		if loc != nil && loc[0] == op.cur {
+		if loc != nil && loc[0] == op.cur && loc[1] > op.cur {
 			p := op.rules[kind].priority
-			if op.compare(loc[1], p, lxEnd, lxP) {
+			if lxP == -1 || op.compare(loc[1], p, lxEnd, lxP) {
 				lx.K = op.set.ByIdx(kind)
 				lx.V = string(op.b[loc[0]:loc[1]])
 				lxEnd = loc[1]
-- 
2.43.0


From 7f860b6c37f52991419ed38055318af2a8547113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:06 +0000
Subject: [PATCH 13/31] fix: a rule added after a lex error must not crash the
 lexer

Emitting an error lexeme adds the error kind to the symbol set, a rule
added afterwards leaves a hole in the list of rules.
---
 lexer/simplelexer/construct.go | 4 ++--
 lexer/simplelexer/lexer.go     | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lexer/simplelexer/construct.go b/lexer/simplelexer/construct.go
index 564fa52..5e2254e 100644
--- a/lexer/simplelexer/construct.go
+++ b/lexer/simplelexer/construct.go
@@ -106,8 +106,8 @@ func (l *Lexer) addRule(r *rule) error {
 // make a copy of the lexer.
 func (l *Lexer) String() string {
 	var longest int
-	for _, rule := range l.rules {
-		if ln := parlex.SymLen(l.set.ByIdx(rule.kind)); ln > longest {
+	for _, kind := range l.order {
+		if ln := parlex.SymLen(l.set.ByIdx(kind)); ln > longest {
 			longest = ln
 		}
 	}
diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index de569db..d0849ba 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -125,7 +125,9 @@ func (op *lexOp) checkError() {
 func (op *lexOp) populateNext() {
 	op.next = make([][]int, len(op.rules))
 	for kind, r := range op.rules {
-		op.next[kind] = r.re.FindIndex(op.b)
+		if r != nil {
+			op.next[kind] = r.re.FindIndex(op.b)
+		}
 	}
 }
 
-- 
2.43.0


From 1c0689c94db26c19f92a4587e30e9ab7686b9731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:08 +0000
Subject: [PATCH 14/31] fix: lexemes after and of a lex error must have the
 right position

Newlines within text that does not lex were not counted and error
lexemes had no position at all.
---
 lexer/simplelexer/lexer.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index d0849ba..c8e67a2 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -1,12 +1,12 @@
 package simplelexer
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/adamcolton/parlex"
 	"github.com/adamcolton/parlex/lexeme"
 	"github.com/adamcolton/parlex/symbol/setsymbol"
 	"regexp"
-	"strings"
 )
 
 // Lexer implements parlex.Lexer. It can take a string and produce a slice of
@@ -65,7 +65,6 @@ type lexOp struct {
 	errFlag  bool
 	errStart int
 	cur      int
-	lines    int
 }
 
 // Lex takes a string and produces a slice of lexemes that can be consumed by a
@@ -118,7 +117,7 @@ func (op *lexOp) checkError() {
 	op.errFlag = false
 	val := string(op.b[op.errStart:op.cur])
 	errKind := op.set.Str(op.Error)
-	lxm := lexeme.New(errKind).Set(val)
+	lxm := lexeme.New(errKind).Set(val).At(op.pos(op.errStart))
 	op.lxs = append(op.lxs, &errLexeme{lxm})
 }
 
@@ -162,10 +161,13 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int) {
 		}
 	}
 
-	lx.L = op.lines
-	lx.C = strings.LastIndex(string(op.b[:op.cur]), "\n")
-	lx.C = op.cur - lx.C
-	op.lines += strings.Count(lx.V, "\n")
+	lx.At(op.pos(op.cur))
 
 	return lx, lxEnd
 }
+
+// pos returns the line and column of an offset in the input
+func (op *lexOp) pos(offset int) (int, int) {
+	before := op.b[:offset]
+	return bytes.Count(before, []byte{'\n'}), offset - bytes.LastIndexByte(before, '\n')
+}
-- 
2.43.0


From 2de58eba4b45bd4815ae037f1a6fed966a582fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:50 +0000
Subject: [PATCH 15/31] fix: the stack lexer must choose the longest match at
 the current position

Ends of matches were compared relative to the offsets at which they had
been searched, matches without text hid others and after an error byte
the matches were not searched again.
---
 lexer/stacklexer/lex.go | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index e8f34ab..d0ab6aa 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -55,6 +55,7 @@ func (op *lexOp) lex() {
 				if op.cur >= len(op.b) {
 					break
 				}
+				op.updateNext()
 			} else {
 				op.pop(1)
 			}
@@ -96,13 +97,21 @@ func (op *lexOp) populateNext() {
 	op.next = make([][]int, op.set.Size())
 	for kind, r := range op.rules {
 		if r != nil {
-			loc := op.rules[kind].re.FindSubmatchIndex(op.b[op.cur:])
-			if loc != nil {
-				loc = append(loc, op.cur)
-			}
-			op.next[kind] = loc
+			op.next[kind] = op.match(r)
+		}
+	}
+}
+
+// match finds the next match of a rule. The locations are relative to the start
+// of the input, groups that take no part in the match are -1.
+func (op *lexOp) match(r *rule) []int {
+	loc := r.re.FindSubmatchIndex(op.b[op.cur:])
+	for i := range loc {
+		if loc[i] >= 0 {
+			loc[i] += op.cur
 		}
 	}
+	return loc
 }
 
 func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
@@ -111,7 +120,7 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 
 	// look in next for matches and take the longest one
 	for kind, loc := range op.next {
-		if loc != nil && loc[0]+loc[len(loc)-1] == op.cur {
+		if loc != nil && loc[0] == op.cur && loc[1] > op.cur {
 			tr := op.rules[kind]
 			if tr != nil && (r == nil || op.compare(loc[1], tr.priority, idx[1], r.priority)) {
 				idx = loc
@@ -126,22 +135,21 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 	lx := &lexeme.Lexeme{
 		K: op.set.ByIdx(r.kind),
 	}
-	offset := idx[len(idx)-1]
 	if r.submatches != nil {
 		for _, sub := range r.submatches {
 			if sub.section == -1 {
 				lx.V += sub.str
 			} else {
-				lx.V += string(op.b[offset+idx[sub.section*2] : offset+idx[sub.section*2+1]])
+				lx.V += string(op.b[idx[sub.section*2]:idx[sub.section*2+1]])
 			}
 		}
-		op.handleLineCol(lx, string(op.b[offset+idx[0]:offset+idx[1]]))
+		op.handleLineCol(lx, string(op.b[idx[0]:idx[1]]))
 	} else {
-		lx.V = string(op.b[offset+idx[0] : offset+idx[1]])
+		lx.V = string(op.b[idx[0]:idx[1]])
 		op.handleLineCol(lx, lx.V)
 	}
 
-	return lx, offset + idx[1], r
+	return lx, idx[1], r
 }
 
 func (op *lexOp) handleLineCol(lx *lexeme.Lexeme, str string) {
@@ -165,12 +173,8 @@ func (op *lexOp) checkError() {
 
 func (op *lexOp) updateNext() {
 	for kind, loc := range op.next {
-		if loc != nil && loc[0]+loc[len(loc)-1] <= op.cur {
-			loc := op.rules[kind].re.FindSubmatchIndex(op.b[op.cur:])
-			if loc != nil {
-				loc = append(loc, op.cur)
-			}
-			op.next[kind] = loc
+		if loc != nil && loc[0] <= op.cur {
+			op.next[kind] = op.match(op.rules[kind])
 		}
 	}
 }
-- 
2.43.0


From 6020664d503a8f1a500e50323e0083687a19f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:51 +0000
Subject: [PATCH 16/31] fix: a pop on the empty stack must not crash the stack
 lexer

---
 lexer/stacklexer/lex.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index d0ab6aa..9ab04ac 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -88,8 +88,10 @@ func (op *lexOp) pop(i int) {
 	if ln < 0 {
 		ln = 0
 	}
-	op.subLexer = op.stack[ln]
-	op.stack = op.stack[:ln]
+	if ln < len(op.stack) {
+		op.subLexer = op.stack[ln]
+		op.stack = op.stack[:ln]
+	}
 	op.populateNext()
 }
 
-- 
2.43.0


From c72363103b4c510dd9a412919f578d44d1afdc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:52 +0000
Subject: [PATCH 17/31] fix: stack lexer positions must not be confused by
 errors with newlines

---
 lexer/stacklexer/lex.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 9ab04ac..4a25456 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -1,10 +1,10 @@
 package stacklexer
 
 import (
+	"bytes"
 	"github.com/adamcolton/parlex"
 	"github.com/adamcolton/parlex/lexeme"
 	"github.com/adamcolton/parlex/symbol/setsymbol"
-	"strings"
 )
 
 type lexOp struct {
@@ -18,8 +18,7 @@ type lexOp struct {
 		start int
 		kind  *setsymbol.Symbol
 	}
-	cur   int
-	lines int
+	cur int
 }
 
 // Lex fulfills parlex.Lexer. It uses the StackLexer to lex a string
@@ -27,7 +26,6 @@ func (l *StackLexer) Lex(str string) []parlex.Lexeme {
 	op := &lexOp{
 		subLexer: l.start,
 		b:        []byte(str),
-		lines:    1,
 		lxs:      make([]parlex.Lexeme, 0),
 	}
 	op.err.kind = l.set.Str(op.Error)
@@ -145,20 +143,18 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 				lx.V += string(op.b[idx[sub.section*2]:idx[sub.section*2+1]])
 			}
 		}
-		op.handleLineCol(lx, string(op.b[idx[0]:idx[1]]))
 	} else {
 		lx.V = string(op.b[idx[0]:idx[1]])
-		op.handleLineCol(lx, lx.V)
 	}
+	lx.At(op.pos(op.cur))
 
 	return lx, idx[1], r
 }
 
-func (op *lexOp) handleLineCol(lx *lexeme.Lexeme, str string) {
-	lx.L = op.lines
-	lx.C = strings.LastIndex(string(op.b[:op.cur]), "\n")
-	lx.C = op.cur - lx.C
-	op.lines += strings.Count(str, "\n")
+// pos returns the line and column of an offset in the input
+func (op *lexOp) pos(offset int) (int, int) {
+	before := op.b[:offset]
+	return 1 + bytes.Count(before, []byte{'\n'}), offset - bytes.LastIndexByte(before, '\n')
 }
 
 func (op *lexOp) checkError() {
@@ -167,9 +163,7 @@ func (op *lexOp) checkError() {
 	}
 	op.err.flag = false
 	val := string(op.b[op.err.start:op.cur])
-	lx := lexeme.New(op.err.kind).Set(val)
-	op.handleLineCol(lx, lx.V)
-	lx.C -= len(val)
+	lx := lexeme.New(op.err.kind).Set(val).At(op.pos(op.err.start))
 	op.lxs = append(op.lxs, &errLexeme{lx})
 }
 
-- 
2.43.0


From 819e83ed9c9c612b635bf536cff515bf4469891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:54 +0000
Subject: [PATCH 18/31] fix: inherited rules must keep the order in which they
 are written

The order came from the indexes of the kinds, and those from the random
order of a map.
---
 lexer/stacklexer/construct.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 0a9f503..334982b 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -91,6 +91,7 @@ func New(definitions ...string) (*StackLexer, error) {
 		compare: lengthThenPriority,
 	}
 	subLexerDefs := make(map[string]string)
+	var subLexers []*subLexer
 	for _, definition := range definitions {
 		ms := subParserDef.FindAllStringSubmatchIndex(definition, -1)
 		cur := struct {
@@ -110,6 +111,7 @@ func New(definitions ...string) (*StackLexer, error) {
 				name:       cur.name,
 			}
 			l.lexers[cur.name] = sl
+			subLexers = append(subLexers, sl)
 			if l.start == nil {
 				l.start = sl
 			}
@@ -121,7 +123,7 @@ func New(definitions ...string) (*StackLexer, error) {
 
 	done := make(map[string]bool)
 	stack := make(map[string]bool)
-	for _, sl := range l.lexers {
+	for _, sl := range subLexers {
 		sl.parse(subLexerDefs, done, stack)
 	}
 
@@ -246,10 +248,8 @@ func (sl *subLexer) addHeir(heir *subLexer, defs map[string]string, done, stack
 	sl.inheirit.by = append(sl.inheirit.by, heir)
 	heir.inheirit.from = append(heir.inheirit.from, sl)
 
-	for _, r := range sl.rules {
-		if r != nil {
-			heir.addRule(*r)
-		}
+	for _, kind := range sl.order {
+		heir.addRule(*sl.rules[kind])
 	}
 	return nil
 }
-- 
2.43.0


From 1a1f962be4499096ecd12b325a2ea09b94621daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:21 +0000
Subject: [PATCH 19/31] fix: literals of a group list must be used without
 their quotes

The value of the readme's (1|":"|2) was 123":"456. A literal with a
digit was taken for a group, one with a | was split, and a group that
takes no part in the match crashed the lexer.
---
 lexer/stacklexer/construct.go | 11 +++++++----
 lexer/stacklexer/lex.go       |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 334982b..a59a926 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -55,18 +55,21 @@ type submatch struct {
 	str     string
 }
 
-var intRe = regexp.MustCompile(`\d+`)
+var submatchRe = regexp.MustCompile(`\s*"(?:[^"\\]|\\.)*"\s*|[^|]+`)
+var intRe = regexp.MustCompile(`^\d+$`)
 
 func parseSubmatches(str string) []submatch {
 	if str == "" {
 		return nil
 	}
-	segs := strings.Split(str, "|")
+	segs := submatchRe.FindAllString(str, -1)
 	ms := make([]submatch, len(segs))
 	for i, s := range segs {
-		if intRe.MatchString(s) {
-			sec, _ := strconv.Atoi(s)
+		if t := strings.TrimSpace(s); intRe.MatchString(t) {
+			sec, _ := strconv.Atoi(t)
 			ms[i] = submatch{section: sec}
+		} else if lit, err := strconv.Unquote(t); err == nil && t[0] == '"' {
+			ms[i] = submatch{section: -1, str: lit}
 		} else {
 			ms[i] = submatch{section: -1, str: s}
 		}
diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 4a25456..454a6d1 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -139,7 +139,7 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 		for _, sub := range r.submatches {
 			if sub.section == -1 {
 				lx.V += sub.str
-			} else {
+			} else if idx[sub.section*2] >= 0 {
 				lx.V += string(op.b[idx[sub.section*2]:idx[sub.section*2+1]])
 			}
 		}
-- 
2.43.0


From 1205cf3afbd9f1d8583d72a999cc48f3cfc96afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:22 +0000
Subject: [PATCH 20/31] fix: stacklexer.New must reject definitions it cannot
 honour

Errors of parse were dropped; a push to an unknown sub-lexer, a group
that does not exist and a definition without a sub-lexer crashed Lex, a
second sub-lexer of a name left the first without rules.
---
 lexer/stacklexer/construct.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index a59a926..d660acc 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -77,6 +77,9 @@ func parseSubmatches(str string) []submatch {
 	return ms
 }
 
+// ErrNoSubLexer will be returned if the definitions contain no sub-lexer
+var ErrNoSubLexer = errors.New("No sub-lexer defined")
+
 // ErrCyclic will be returned if a stack lexers form a cyclic inheritance
 var ErrCyclic = errors.New("Cyclic Inheritance")
 
@@ -109,6 +112,9 @@ func New(definitions ...string) (*StackLexer, error) {
 			}
 			cur.idx = m[1]
 			cur.name = definition[m[2]:m[3]]
+			if _, found := l.lexers[cur.name]; found {
+				return nil, fmt.Errorf("Duplicate sub-lexer: %s", cur.name)
+			}
 			sl := &subLexer{
 				StackLexer: l,
 				name:       cur.name,
@@ -124,10 +130,16 @@ func New(definitions ...string) (*StackLexer, error) {
 		}
 	}
 
+	if l.start == nil {
+		return nil, ErrNoSubLexer
+	}
+
 	done := make(map[string]bool)
 	stack := make(map[string]bool)
 	for _, sl := range subLexers {
-		sl.parse(subLexerDefs, done, stack)
+		if err := sl.parse(subLexerDefs, done, stack); err != nil {
+			return nil, err
+		}
 	}
 
 	return l, nil
@@ -212,6 +224,16 @@ func (sl *subLexer) addMatch(m []string) error {
 	if pop > 0 {
 		push = ""
 	}
+	if _, found := sl.lexers[push]; push != "" && !found {
+		return fmt.Errorf("Undefined sub-lexer: %s", push)
+	}
+
+	submatches := parseSubmatches(m[3])
+	for _, sub := range submatches {
+		if sub.section > re.NumSubexp() {
+			return fmt.Errorf("Undefined group %d in %s", sub.section, re)
+		}
+	}
 
 	r := rule{
 		kind:       sl.set.Str(m[1]).Idx(),
@@ -219,7 +241,7 @@ func (sl *subLexer) addMatch(m []string) error {
 		push:       push,
 		pop:        pop,
 		discard:    m[5] == "-",
-		submatches: parseSubmatches(m[3]),
+		submatches: submatches,
 	}
 	sl.addRule(r)
 	return nil
-- 
2.43.0


From 01fa0917c9d48cce22a8197a1b9a3b0acaad619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:33 +0000
Subject: [PATCH 21/31] fix: tree.New must return an error for text that is not
 one tree

An empty text and a closing brace too many crashed, a missing closing
brace and further roots were ignored.
---
 tree/parsetree.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 95aba04..81e66ae 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -20,13 +20,17 @@ var handleSlash = strings.NewReplacer(`\\`, "\\", `\n`, "\n", `\"`, "\"")
 // New creates a *PN from a string. They are more commonly created from a Parser
 // but this can be useful for testing.
 func New(str string) (*PN, error) {
-	cur := &PN{}
+	root := &PN{}
+	cur := root
 	for _, line := range strings.Split(str, "\n") {
 		m := reTreeLine.FindStringSubmatch(line)
 		if len(line) != len(m[0]) {
 			return nil, ErrBadTreeString
 		}
 		if m[1] == "}" {
+			if cur == root {
+				return nil, ErrBadTreeString
+			}
 			cur = cur.P
 		}
 		if m[2] != "" {
@@ -42,7 +46,10 @@ func New(str string) (*PN, error) {
 			}
 		}
 	}
-	cur = cur.C[0]
+	if cur != root || len(root.C) != 1 {
+		return nil, ErrBadTreeString
+	}
+	cur = root.C[0]
 	cur.P = nil
 	return cur, nil
 }
-- 
2.43.0


From 475b7fe638e28d5645b0002286482c409b01ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:35 +0000
Subject: [PATCH 22/31] fix: tree.New must read every escape that String writes

Tabs, control characters, unprintable runes and invalid bytes of a value
came back as their escape sequences.
---
 tree/parsetree.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 81e66ae..3b9b140 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -7,6 +7,7 @@ import (
 	"github.com/adamcolton/parlex/lexeme"
 	"github.com/adamcolton/parlex/symbol/stringsymbol"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -17,6 +18,18 @@ var ErrBadTreeString = errors.New("Bad Tree String")
 
 var handleSlash = strings.NewReplacer(`\\`, "\\", `\n`, "\n", `\"`, "\"")
 
+// unescape reverses the escapes that String puts into a value. Where the value
+// is not a valid Go string, only \\, \n and \" are replaced.
+func unescape(val string) string {
+	if !strings.Contains(val, `\`) {
+		return val
+	}
+	if s, err := strconv.Unquote(`"` + val + `"`); err == nil {
+		return s
+	}
+	return handleSlash.Replace(val)
+}
+
 // New creates a *PN from a string. They are more commonly created from a Parser
 // but this can be useful for testing.
 func New(str string) (*PN, error) {
@@ -35,7 +48,7 @@ func New(str string) (*PN, error) {
 		}
 		if m[2] != "" {
 			kind := stringsymbol.Symbol(m[2])
-			val := handleSlash.Replace(m[3])
+			val := unescape(m[3])
 			ch := &PN{
 				Lexeme: lexeme.New(kind).Set(val),
 				P:      cur,
-- 
2.43.0


From 460dd74e6cbc11583243659cf542c6707ea3c319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:36 +0000
Subject: [PATCH 23/31] fix: PromoteChildValue must do nothing when the index
 is out of bounds

An index below -len was made relative to the end twice and removed a
child.
---
 tree/node_reductions.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index 2937334..3afae8f 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -89,14 +89,12 @@ func (p *PN) PromoteSingleChild() bool {
 // is negative, it will find the child relative to the end. If cIdx is out of
 // bounds, no action will be taken.
 func (p *PN) PromoteChildValue(cIdx int) {
-	l := len(p.C)
-	if cIdx < 0 {
-		cIdx = l + cIdx
-	}
-	if cIdx >= 0 && l > cIdx {
-		ch := p.C[cIdx]
-		p.Lexeme = lexeme.New(p.Kind()).Set(ch.Value()).At(ch.Pos())
+	cIdx, _, ok := p.GetIdx(cIdx)
+	if !ok {
+		return
 	}
+	ch := p.C[cIdx]
+	p.Lexeme = lexeme.New(p.Kind()).Set(ch.Value()).At(ch.Pos())
 	p.RemoveChild(cIdx)
 }
 
-- 
2.43.0


From 293762243790e8a0d4e3750ff524ed5a52b08932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:38 +0000
Subject: [PATCH 24/31] fix: tree edits must keep the parents of nodes in step
 with the children

ReplaceWithChild took over the parent of the child and left the
grandchildren pointing to it, PromoteChildrenOf left the spliced nodes
pointing to the removed child, Reduce set no parents. Promoting appended
to the children of the removed node in place.
---
 tree/node_reductions.go | 41 +++++++++++++++++++++++++----------------
 tree/reducer.go         |  6 +++++-
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index 3afae8f..2344a96 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -4,13 +4,33 @@ import (
 	"github.com/adamcolton/parlex/lexeme"
 )
 
+// adopt appends nodes to the children of p
+func (p *PN) adopt(nodes []*PN) {
+	for _, n := range nodes {
+		n.P = p
+		p.C = append(p.C, n)
+	}
+}
+
+// splice replaces the child at cIdx, which must be in bounds, with its children
+func (p *PN) splice(cIdx int) {
+	c := p.C
+	p.C = make([]*PN, 0, len(c)-1+len(c[cIdx].C))
+	p.adopt(c[:cIdx])
+	p.adopt(c[cIdx].C)
+	p.adopt(c[cIdx+1:])
+}
+
 // ReplaceWithChild replaces the node with the child at cIdx.
 func (p *PN) ReplaceWithChild(cIdx int) bool {
 	cIdx, _, ok := p.GetIdx(cIdx)
 	if !ok {
 		return false
 	}
-	*p = *(p.C[cIdx])
+	ch := p.C[cIdx]
+	p.Lexeme = ch.Lexeme
+	p.C = nil
+	p.adopt(ch.C)
 	return true
 }
 
@@ -111,15 +131,11 @@ func (p *PN) ChildIs(cIdx int, kind string) bool {
 // children. If cIdx is negative, it will find the child relative to the end. If
 // cIdx is out of bounds, no action will be taken.
 func (p *PN) PromoteChildrenOf(cIdx int) bool {
-	cIdx, l, ok := p.GetIdx(cIdx)
+	cIdx, _, ok := p.GetIdx(cIdx)
 	if !ok {
 		return false
 	}
-	if cIdx == l-1 {
-		p.C = append(p.C[:cIdx], p.C[cIdx].C...)
-	} else {
-		p.C = append(p.C[:cIdx], append(p.C[cIdx].C, p.C[cIdx+1:]...)...)
-	}
+	p.splice(cIdx)
 	return true
 }
 
@@ -144,19 +160,12 @@ func (p *PN) PromoteGrandChildren() {
 // lexeme with the value. The grandchildren are spliced into the replaced childs
 // position. The cIdx value uses GetIdx.
 func (p *PN) PromoteChild(cIdx int) bool {
-	cIdx, l, ok := p.GetIdx(cIdx)
+	cIdx, _, ok := p.GetIdx(cIdx)
 	if !ok {
 		return false
 	}
 
 	p.Lexeme = p.C[cIdx].Lexeme
-	tail := p.C[cIdx].C
-	if cIdx+1 < l {
-		tail = append(tail, p.C[cIdx+1:]...)
-	}
-	p.C = append(p.C[0:cIdx], tail...)
-	for _, c := range p.C {
-		c.P = p
-	}
+	p.splice(cIdx)
 	return true
 }
diff --git a/tree/reducer.go b/tree/reducer.go
index 942c4bd..bb33272 100644
--- a/tree/reducer.go
+++ b/tree/reducer.go
@@ -73,7 +73,11 @@ func (r Reducer) RawReduce(node parlex.ParseNode) *PN {
 		C:      make([]*PN, node.Children()),
 	}
 	for i := range cp.C {
-		cp.C[i] = r.RawReduce(node.Child(i))
+		c := r.RawReduce(node.Child(i))
+		if c != nil {
+			c.P = cp
+		}
+		cp.C[i] = c
 	}
 
 	if reduction := r[cp.Kind().String()]; reduction != nil {
-- 
2.43.0


From 87535d6186f0a23318640500c1b51099915eae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:21 +0000
Subject: [PATCH 25/31] fix: reducer arguments must be whole numbers

A number such as 1.5 was accepted and silently read as 0.
---
 tree/reducer/reducer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/reducer/reducer.go b/tree/reducer/reducer.go
index 2b61a0a..781a6c1 100644
--- a/tree/reducer/reducer.go
+++ b/tree/reducer/reducer.go
@@ -23,7 +23,7 @@ const lexerRules = `
   PromoteSingleChild
   ReplaceWithChild
   Nil
-  number  /-?\d*\.?\d+/
+  number  /-?\d+/
   rule    /(\w+)/
   string  /\"([^\"\\]|(\\.))*\"/
   lp      /\(/
-- 
2.43.0


From 4671bfab1caf6418cf67c4ded1a4fb4c5d00f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:22 +0000
Subject: [PATCH 26/31] fix: escapes in the string arguments of a reducer must
 be read

The lexer accepts \" in a string, but the backslash stayed in the argument
so that it never matched the kind it named.
---
 tree/reducer/reducer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tree/reducer/reducer.go b/tree/reducer/reducer.go
index 781a6c1..5256dd6 100644
--- a/tree/reducer/reducer.go
+++ b/tree/reducer/reducer.go
@@ -145,9 +145,7 @@ func evalVarNumArgs(n *tree.PN) []int {
 func evalVarStrArgs(n *tree.PN) []string {
 	args := make([]string, len(n.C))
 	for i, n := range n.C {
-		v := n.Value()
-		v = v[1 : len(v)-1]
-		args[i] = v
+		args[i] = evalOneStrArg(n)
 	}
 	return args
 }
@@ -162,6 +160,9 @@ func evalOneNumArg(n *tree.PN) int {
 
 func evalOneStrArg(n *tree.PN) string {
 	v := n.Value()
+	if s, err := strconv.Unquote(v); err == nil {
+		return s
+	}
 	return v[1 : len(v)-1]
 }
 
-- 
2.43.0


From 5f3878766a44a0f75af6f4dbf012cb6b97cbad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:55 +0000
Subject: [PATCH 27/31] fix: an empty group must match nothing instead of
 removing the production

The production that contained () was silently dropped from the grammar.
---
 grammar/regexgram/regexgram.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/grammar/regexgram/regexgram.go b/grammar/regexgram/regexgram.go
index 58a20b9..c42a7f7 100644
--- a/grammar/regexgram/regexgram.go
+++ b/grammar/regexgram/regexgram.go
@@ -291,11 +291,8 @@ func mergeRules(a, b rules) rules {
 }
 
 func (rc ruleComb) reduce() rules {
-	if len(rc) == 0 {
-		return nil
-	}
-	ra := rc[0]
-	for _, rb := range rc[1:] {
+	ra := rules{rule{}}
+	for _, rb := range rc {
 		ra = mergeRules(ra, rb)
 	}
 	return ra
-- 
2.43.0


From 763b6bc06353c44259465276450b49f0543d4ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:50 +0000
Subject: [PATCH 28/31] fix: a comment must be allowed on the first line of a
 regexgram text

A comment was only recognised together with the newline before it, which the
first line of a text does not have.
---
 grammar/regexgram/regexgram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/regexgram/regexgram.go b/grammar/regexgram/regexgram.go
index c42a7f7..c1cd50d 100644
--- a/grammar/regexgram/regexgram.go
+++ b/grammar/regexgram/regexgram.go
@@ -20,7 +20,7 @@ const lexerProductions = `
   or       /\|/
   (        /\(/
   )        /\)/
-  comment  /[\n\r]\s*\/\/[^\n\r]*/ -
+  comment  /([\n\r]\s*)?\/\/[^\n\r]*/ -
   nl       /[\n\r]\s*/
   space    /[ \t]+/ -
 `
-- 
2.43.0


From 3fe23a8c7bbe8703545af6b31996c8036efbbd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:37 +0000
Subject: [PATCH 29/31] fix: groups of repetitions must not be mistaken for
 each other

(A B)* and (A_B)* got the same non-terminal, so one of them was lost.
---
 grammar/regexgram/regexgram.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grammar/regexgram/regexgram.go b/grammar/regexgram/regexgram.go
index c1cd50d..7e67662 100644
--- a/grammar/regexgram/regexgram.go
+++ b/grammar/regexgram/regexgram.go
@@ -256,9 +256,10 @@ func (op *evalOp) getName(node *tree.PN) string {
 		}
 		return strings.Join(strs, "|")
 	case "Group":
+		// underscores in the names are escaped so that (A B) and (A_B) differ
 		var strs []string
 		for _, c := range node.C {
-			strs = append(strs, op.getName(c))
+			strs = append(strs, strings.Replace(op.getName(c), "_", `\_`, -1))
 		}
 		return "(" + strings.Join(strs, "_") + ")"
 	}
-- 
2.43.0


From 6321cf061ba62d045b125aed09cfb37dd66bf5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:07 +0000
Subject: [PATCH 30/31] fix: lexers do not add to their shared symbol set while
 lexing

Lex of both lexers added the kind of error lexemes to the set of the lexer, so that
concurrent calls on one lexer (also through the package-level lexers of regexgram and
reducer) raced and could crash with concurrent map writes.
---
 lexer/simplelexer/lexer.go    |  4 ++--
 lexer/stacklexer/construct.go |  1 +
 lexer/stacklexer/lex.go       | 16 +++++++++++++---
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index c8e67a2..9c9663a 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -116,8 +116,8 @@ func (op *lexOp) checkError() {
 	}
 	op.errFlag = false
 	val := string(op.b[op.errStart:op.cur])
-	errKind := op.set.Str(op.Error)
-	lxm := lexeme.New(errKind).Set(val).At(op.pos(op.errStart))
+	// the set is shared by all calls to Lex, so nothing is added to it here
+	lxm := lexeme.String(op.Error).Set(val).At(op.pos(op.errStart))
 	op.lxs = append(op.lxs, &errLexeme{lxm})
 }
 
diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index d660acc..28aece9 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -141,6 +141,7 @@ func New(definitions ...string) (*StackLexer, error) {
 			return nil, err
 		}
 	}
+	l.set.Str(l.Error)
 
 	return l, nil
 }
diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 454a6d1..0c308ac 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -4,7 +4,7 @@ import (
 	"bytes"
 	"github.com/adamcolton/parlex"
 	"github.com/adamcolton/parlex/lexeme"
-	"github.com/adamcolton/parlex/symbol/setsymbol"
+	"github.com/adamcolton/parlex/symbol/stringsymbol"
 )
 
 type lexOp struct {
@@ -16,7 +16,7 @@ type lexOp struct {
 	err   struct {
 		flag  bool
 		start int
-		kind  *setsymbol.Symbol
+		kind  parlex.Symbol
 	}
 	cur int
 }
@@ -28,7 +28,7 @@ func (l *StackLexer) Lex(str string) []parlex.Lexeme {
 		b:        []byte(str),
 		lxs:      make([]parlex.Lexeme, 0),
 	}
-	op.err.kind = l.set.Str(op.Error)
+	op.err.kind = l.errorKind()
 	if op.insert.startKind != "" {
 		op.lxs = append(op.lxs, lexeme.String(op.insert.startKind).Set(op.insert.startVal))
 	}
@@ -43,6 +43,16 @@ func (l *StackLexer) Lex(str string) []parlex.Lexeme {
 	return op.lxs
 }
 
+// errorKind returns the kind of error lexemes. The set is shared by all calls
+// to Lex, so nothing is added to it here.
+func (l *StackLexer) errorKind() parlex.Symbol {
+	kind := stringsymbol.Symbol(l.Error)
+	if s := l.set.HasSymbol(kind); s != nil {
+		return s
+	}
+	return kind
+}
+
 func (op *lexOp) lex() {
 	for {
 		lx, lxEnd, r := op.findNextMatch()
-- 
2.43.0


From e132cbfa72b7259c4006910275170738f88f135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:17 +0000
Subject: [PATCH 31/31] fix: asking a grammar for productions adds nothing to
 it

Productions added every symbol it was asked about to the symbol set of the grammar, so
that concurrent queries (and parsers sharing a grammar) raced.
---
 grammar/grammar.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/grammar/grammar.go b/grammar/grammar.go
index 102071d..573abbd 100644
--- a/grammar/grammar.go
+++ b/grammar/grammar.go
@@ -120,11 +120,11 @@ func Empty() *Grammar {
 // not a non-terminal in the Grammar, nil is returned. It is part of the
 // parlex.Grammer interface.
 func (g *Grammar) Productions(symbol parlex.Symbol) parlex.Productions {
-	idx := g.set.Symbol(symbol).Idx()
-	if idx >= len(g.productions) {
+	s := g.set.HasSymbol(symbol)
+	if s == nil || s.Idx() >= len(g.productions) {
 		return nil
 	}
-	p := g.productions[idx]
+	p := g.productions[s.Idx()]
 	if p == nil {
 		return nil
 	}
-- 
2.43.0

