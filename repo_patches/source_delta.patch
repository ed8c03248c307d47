From 0d70383dcdc5b089b148048917fd2d20ff0557d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 01/25] fix: generate the lexer and the symbol reports in a
 reproducible order

---
 ast/ast.go                     |  3 ++-
 gen/firstfollow/firstfollow.go |  6 +++---
 lex/items/items.go             | 11 ++++++++++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 0368357..1127c3a 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -89,8 +89,9 @@ func (g *GoGLL) GetSyntaxRule(nt string) *SyntaxRule {
 	return nil
 }
 
+// GetSymbols returns the sorted terminals followed by the sorted non-terminals
 func (g *GoGLL) GetSymbols() []string {
-	return append(g.Terminals.Elements(), g.NonTerminals.Elements()...)
+	return append(g.Terminals.ElementsSorted(), g.NonTerminals.ElementsSorted()...)
 }
 
 func (g *GoGLL) StartSymbol() string {
diff --git a/gen/firstfollow/firstfollow.go b/gen/firstfollow/firstfollow.go
index 312bdf1..4fafd98 100644
--- a/gen/firstfollow/firstfollow.go
+++ b/gen/firstfollow/firstfollow.go
@@ -49,21 +49,21 @@ func genFirstSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
 
 func genFirstSet(w io.Writer, symbol string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "%s: ", symbol)
-	for _, s := range ff.FirstOfSymbol(symbol).Elements() {
+	for _, s := range ff.FirstOfSymbol(symbol).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
 }
 
 func genFollowSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
-	for _, s := range g.NonTerminals.Elements() {
+	for _, s := range g.NonTerminals.ElementsSorted() {
 		genFollowSet(w, s, ff)
 	}
 }
 
 func genFollowSet(w io.Writer, nt string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "Follow(%s): ", nt)
-	for _, s := range ff.Follow(nt).Elements() {
+	for _, s := range ff.Follow(nt).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
diff --git a/lex/items/items.go b/lex/items/items.go
index 8b6add6..c0fbcf5 100644
--- a/lex/items/items.go
+++ b/lex/items/items.go
@@ -218,12 +218,21 @@ func set0(g *ast.GoGLL) *Set {
 	for _, rule := range g.LexRules {
 		s0.add(item.New(rule).Emoves()...)
 	}
-	for _, sl := range g.StringLiterals {
+	// The literals are added in sorted order to make the item sets reproducible
+	for _, sl := range sortedStringLiterals(g) {
 		s0.add(item.New(stringLitToRule(sl)))
 	}
 	return s0
 }
 
+func sortedStringLiterals(g *ast.GoGLL) (slits []*ast.StringLit) {
+	for _, sl := range g.StringLiterals {
+		slits = append(slits, sl)
+	}
+	sort.Slice(slits, func(i, j int) bool { return slits[i].ID() < slits[j].ID() })
+	return
+}
+
 func (set *Set) add(items ...*item.Item) *Set {
 	for _, item := range items {
 		set.set = append(set.set, item)
-- 
2.43.0


From d990163601fae46546941b1ad387d553c6802531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 02/25] fix: keep every split of an ambiguous string and every
 descriptor once

---
 gen/golang/gll/bsr/bsr.go | 79 +++++++++++++++++++++++++++------------
 gen/golang/gll/parser.go  |  2 +-
 2 files changed, 56 insertions(+), 25 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index f80fa28..824fe51 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -72,7 +72,7 @@ Set contains the set of Binary Subtree Representations (BSR).
 type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
-    stringEntries map[stringKey]*stringBSR
+    stringEntries map[stringKey][]*stringBSR
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -113,7 +113,7 @@ func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
-        stringEntries: make(map[stringKey]*stringBSR),
+        stringEntries: make(map[stringKey][]*stringBSR),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -213,12 +213,7 @@ func (s *Set) GetRoots() (roots []BSR) {
 // GetAllStrings returns all string elements with symbols = str,
 // left extent = lext and right extent = rext
 func (s *Set) GetAllStrings(str symbols.Symbols, lext, rext int) (strs []*stringBSR) {
-    for _, s := range s.stringEntries {
-        if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
-            strs = append(strs, s)
-        }
-    }
-    return
+    return append(strs, s.stringEntries[getStringKey(str, lext, rext)]...)
 }
 
 func (s *Set) getNTBSRs() BSRs {
@@ -234,19 +229,21 @@ func (s *Set) getNTBSRs() BSRs {
 
 func (s *Set) getStringBSRs() stringBSRs {
     bsrs := make(stringBSRs, 0, len(s.stringEntries))
-    for _, bsr := range s.stringEntries {
-        bsrs = append(bsrs, bsr)
+    for _, bsrl := range s.stringEntries {
+        bsrs = append(bsrs, bsrl...)
     }
     sort.Sort(bsrs)
     return bsrs
 }
 
-func (s *Set) getString(symbols symbols.Symbols, leftExtent, rightExtent int) *stringBSR {
-    // fmt.Printf("Set.getString(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
+// getStrings returns the string elements with the given symbols and extent: one
+// for each pivot.
+func (s *Set) getStrings(symbols symbols.Symbols, leftExtent, rightExtent int) []*stringBSR {
+    // fmt.Printf("Set.getStrings(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
 
-    strBsr, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
+    strBsrs, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
     if exist {
-        return strBsr
+        return strBsrs
     }
 
     panic(fmt.Sprintf("Error: no string %s left extent=%d right extent=%d\n",
@@ -259,11 +256,20 @@ func (s *Set) insert(bsr bsr) {
     }
     switch b := bsr.(type) {
     case BSR:
+        if s.slotEntries[b] {
+            return
+        }
         s.slotEntries[b] = true
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
-        s.stringEntries[b.key()] = b
+        // An ambiguous string has an element for every pivot
+        for _, b1 := range s.stringEntries[b.key()] {
+            if b1.pivot == b.pivot {
+                return
+            }
+        }
+        s.stringEntries[b.key()] = append(s.stringEntries[b.key()], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
     }
@@ -354,19 +360,24 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
         return b.set.getNTSlot(b.Label.Symbols()[i], b.pivot, b.rightExtent)
     }
 
-    // Walk to pos i from the right
+    // Walk to pos i from the right. The string to the left of a position may
+    // have more than one pivot: rexts has the right extents of symbols.
     symbols := b.Label.Symbols()[:b.Label.Pos()-1]
-    str := b.set.getString(symbols, b.leftExtent, b.pivot)
-    for len(symbols) > i+1 && len(symbols) > 2 {
+    rexts := []int{b.pivot}
+    for len(symbols) > i+1 {
+        rexts = b.set.getPivots(symbols, b.leftExtent, rexts)
         symbols = symbols[:len(symbols)-1]
-        str = b.set.getString(symbols, str.leftExtent, str.pivot)
     }
 
     bsrs := []BSR{}
-    if i == 0 {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.leftExtent, str.pivot)
-    } else {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.pivot, str.rightExtent)
+    for _, rext := range rexts {
+        if i == 0 {
+            bsrs = append(bsrs, b.set.getNTSlot(symbols[i], b.leftExtent, rext)...)
+        } else {
+            for _, str := range b.set.getStrings(symbols, b.leftExtent, rext) {
+                bsrs = append(bsrs, b.set.getNTSlot(symbols[i], str.pivot, rext)...)
+            }
+        }
     }
 
     // fmt.Println(bsrs)
@@ -374,6 +385,20 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
     return bsrs
 }
 
+// getPivots returns the pivots of all the strings of symbols from lext to any of rexts
+func (s *Set) getPivots(symbols symbols.Symbols, lext int, rexts []int) (pivots []int) {
+    exist := map[int]bool{}
+    for _, rext := range rexts {
+        for _, str := range s.getStrings(symbols, lext, rext) {
+            if !exist[str.pivot] {
+                exist[str.pivot] = true
+                pivots = append(pivots, str.pivot)
+            }
+        }
+    }
+    return
+}
+
 // GetTChildI returns the terminal symbol at position i in b.
 // GetTChildI panics if symbol i is not a valid terminal
 func (b BSR) GetTChildI(i int) *token.Token {
@@ -465,7 +490,13 @@ func (sbs stringBSRs) Less(i, j int) bool {
     if sbs[i].leftExtent > sbs[j].leftExtent {
         return false
     }
-    return sbs[i].rightExtent < sbs[j].rightExtent
+    if sbs[i].rightExtent < sbs[j].rightExtent {
+        return true
+    }
+    if sbs[i].rightExtent > sbs[j].rightExtent {
+        return false
+    }
+    return sbs[i].pivot < sbs[j].pivot
 }
 
 func (sbs stringBSRs) Swap(i, j int) {
diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 8f66094..15963e7 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -324,7 +324,7 @@ type descriptors struct {
 
 func (ds *descriptors) contain(d *descriptor) bool {
 	for _, d1 := range ds.set {
-		if d1 == d {
+		if *d1 == *d {
 			return true
 		}
 	}
-- 
2.43.0


From eda6ebd339b396d77d20a47bece74312e8e3ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 03/25] fix: ToSPPF must not write to the slot tables

---
 gen/golang/gll/bsr/bsr.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 824fe51..c895faa 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -655,11 +655,10 @@ func (pf *Set) ToSPPF() *sppf.SymbolNode {
                     in.Lext, in.Lext, in.Rext))
             } else {
                 // for each (α,i,k, j)∈Υ { mkPN(X ::=α·δ,i,k, j,G) } } } }
-                alpha, delta := in.Body[:in.Pos], in.Body[in.Pos:]
+                alpha := in.Body[:in.Pos]
                 for _, str := range pf.GetAllStrings(alpha, in.Lext, in.Rext) {
-                    body := append(str.Symbols, delta...)
                     in.Children = append(in.Children,
-                        bld.mkPN(in.NT, body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
+                        bld.mkPN(in.NT, in.Body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
                 }
             }
         }
-- 
2.43.0


From 1ba36566707e285feedebd743748a0705614560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 04/25] fix: report an input that continues after a sentence,
 and errors in a fixed order

---
 gen/golang/gll/parser.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 15963e7..3c11927 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -255,12 +255,18 @@ func (p *parser) call(L slot.Label, i, j int) {
 			// fmt.Printf("  !existEdge(%v)\n", u)
 			p.crf[ndV] = append(v, u)
 			// fmt.Printf("|popped|=%d\n", len(popped))
+			// in order of right extent, to make the parse reproducible
+			rexts := []int{}
 			for pnd := range p.popped {
 				if pnd.X == X && pnd.k == j {
-					p.dscAdd(L, i, pnd.j)
-					p.bsrSet.Add(L, i, j, pnd.j)
+					rexts = append(rexts, pnd.j)
 				}
 			}
+			sort.Ints(rexts)
+			for _, h := range rexts {
+				p.dscAdd(L, i, h)
+				p.bsrSet.Add(L, i, j, h)
+			}
 		}
 	}
 }
@@ -283,6 +289,10 @@ func (p *parser) rtn(X symbols.NT, k, j int) {
 			p.dscAdd(nd.L, nd.i, j)
 			p.bsrSet.Add(nd.L, nd.i, k, j)
 		}
+		if X == symbols.NT_{{.StartSymbol}} && k == 0 && j < len(p.lex.Tokens)-1 {
+			// A sentence ends at j but the input does not
+			p.parseError(slot.GetAlternates(X)[0], j, map[token.Type]string{token.EOF: "$"})
+		}
 	}
 }
 
@@ -447,6 +457,7 @@ func (pe *Error) String() string {
 	for _, e := range pe.Expected {
 		exp = append(exp, e)
 	}
+	sort.Strings(exp)
 	fmt.Fprintf(w, "Expected one of: [%s]", strings.Join(exp, ","))
 	return w.String()
 }
@@ -457,7 +468,7 @@ func (p *parser) parseError(slot slot.Label, i int, expected map[token.Type]stri
 }
 
 func (p *parser) sortParseErrors() {
-	sort.Slice(p.parseErrors,
+	sort.SliceStable(p.parseErrors,
 		func(i, j int) bool {
 			return p.parseErrors[j].Token.Lext() < p.parseErrors[i].Token.Lext()
 		})
-- 
2.43.0


From 3fe6462af0cbd070173fd4e455f67e5ca8fa9b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 05/25] fix: gogll must not hang on nested brackets that can be
 empty

---
 lex/item/item.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lex/item/item.go b/lex/item/item.go
index b18b9e3..47f8efc 100644
--- a/lex/item/item.go
+++ b/lex/item/item.go
@@ -101,6 +101,9 @@ func (i *Item) Emoves() []*Item {
 	// fmt.Println("Emoves:", i)
 
 	after := []*Item{i}
+	// the items at a bracket that have been moved, which must not be repeated
+	// because a bracket may be empty
+	moved := []*Item{}
 	for changed := true; changed; {
 		// fmt.Println(" Again")
 		before := after
@@ -109,6 +112,13 @@ func (i *Item) Emoves() []*Item {
 		for _, item := range before {
 			// fmt.Println("  ", item)
 
+			if item.atBeforeBracket() || item.atEndOfBracket() {
+				if item.in(moved) {
+					continue
+				}
+				moved = append(moved, item)
+			}
+
 			switch {
 			case item.atBeforeBracket():
 				for j := range item.Symbol().(*ast.LexBracket).Alternates {
@@ -144,6 +154,15 @@ func (i *Item) Equal(other *Item) bool {
 		i.Pos.Equal(other.Pos)
 }
 
+func (i *Item) in(items []*Item) bool {
+	for _, item := range items {
+		if i.Equal(item) {
+			return true
+		}
+	}
+	return false
+}
+
 // Next returns the next item after i. If i is a reduce item Next returns nil
 func (i *Item) Next() *Item {
 	if i.IsReduce() {
-- 
2.43.0


From fad087b1c5d16845ef59d4ea8e083c0cf6a1bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 06/25] fix: take lexical events apart where they partially
 overlap

---
 ast/lex.go               |  18 ++++
 lex/items/event/event.go | 204 ++++++++++++++++++++-------------------
 2 files changed, 124 insertions(+), 98 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index 6fc4c8d..aad8e62 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -627,6 +627,24 @@ func StringLitToTokID(id *StringLit) *TokID {
 	}
 }
 
+// CharLitFromRune returns a dummy CharLiteral for r
+func CharLitFromRune(r rune) *CharLiteral {
+	lit := []rune{'\''}
+	switch r {
+	case '\'', '\\':
+		lit = append(lit, '\\', r)
+	case '\t':
+		lit = append(lit, '\\', 't')
+	case '\n':
+		lit = append(lit, '\\', 'n')
+	case '\r':
+		lit = append(lit, '\\', 'r')
+	default:
+		lit = append(lit, r)
+	}
+	return NewCharLiteral(nil, append(lit, '\''))
+}
+
 // CharLitFromStringLit returns a dummy CharLiteral with Literal sl.Literal[i]
 // If escaped sl.Literal[i] == '\\' and sl.Literal[i+1] is the escaped char.
 func CharLitFromStringLit(sl *StringLit, i int, escaped bool) *CharLiteral {
diff --git a/lex/items/event/event.go b/lex/items/event/event.go
index eefc68e..1e34696 100644
--- a/lex/items/event/event.go
+++ b/lex/items/event/event.go
@@ -26,7 +26,6 @@ package event
 import (
 	"fmt"
 	"os"
-	"sort"
 	"unicode"
 
 	"github.com/goccmack/gogll/v3/ast"
@@ -53,7 +52,7 @@ type eventPair struct {
 // GetOrdered returns the set of unique transition events for items, ordered
 // by the event precedence.
 func GetOrdered(items ...*item.Item) (events []ast.LexBase) {
-	events = getEvents(items...)
+	events = split(getEvents(items...))
 	incompatibleEvents := []eventPair{}
 	for i := 0; i < len(events)-1; i++ {
 		for j := i + 1; j < len(events); j++ {
@@ -86,9 +85,9 @@ func Subset(a, b ast.LexBase) TriState {
 		case *ast.AnyOf:
 			return toTriState(a1.Set.Subset(b1.Set))
 		case *ast.CharLiteral:
-			return toTriState(a1.Set.Contains(b1.Char()))
+			return toTriState(len(a1.Set.Elements()) == 1 && a1.Set.Contains(b1.Char()))
 		case *ast.Not:
-			return toTriState(!a1.Set.Subset(b1.Set))
+			return toTriState(a1.Set.Intersection(b1.Set).Empty())
 		case *ast.UnicodeClass:
 			return toTriState(unicodeClassContains(b1, a1.Set.Elements()...))
 		case *ast.UnicodeSet:
@@ -124,7 +123,9 @@ func Subset(a, b ast.LexBase) TriState {
 		case *ast.CharLiteral:
 			return False
 		case *ast.Not:
-			return toTriState(b1.Set.Subset(a1.Set))
+			// False only if a1 excludes less than b1. split has made the runes
+			// excluded by one of a1 and b1 separate events if neither includes the other.
+			return toTriState(b1.Set.Subset(a1.Set) || !a1.Set.Subset(b1.Set))
 		case *ast.UnicodeClass:
 			return Undefined
 		case *ast.UnicodeSet:
@@ -142,7 +143,8 @@ func Subset(a, b ast.LexBase) TriState {
 		case *ast.CharLiteral:
 			return False
 		case *ast.Not:
-			return False
+			// split has made the runes of a1 that are excluded by b1 separate events
+			return True
 		case *ast.UnicodeClass:
 			return toTriState(a1.Type == b1.Type ||
 				(b1.Type == ast.Letter && (a1.Type == ast.Lowcase || a1.Type == ast.Upcase)))
@@ -161,7 +163,8 @@ func Subset(a, b ast.LexBase) TriState {
 		case *ast.CharLiteral:
 			return False
 		case *ast.Not:
-			return False
+			// split has made the runes of a1 that are excluded by b1 separate events
+			return True
 		case *ast.UnicodeClass:
 			return toTriState(b1.ContainsSet(a1))
 		case *ast.UnicodeSet:
@@ -204,101 +207,106 @@ func noneOf(r rune, rs *runeset.RuneSet) bool {
 	return !rs.Contains(r)
 }
 
-// sort events from most to least specific class
-func sortEvents(events []ast.LexBase) {
-	sort.Slice(events, func(i, j int) bool {
-		switch e1 := events[i].(type) {
-		case *ast.Any:
-			return false
-		case *ast.AnyOf:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return e1.Set.Subset(e2.Set)
-			case *ast.CharLiteral:
-				return e1.Set.Contains(e2.Char())
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return unicodeClassContains(e2, e1.Set.Elements()...)
-			case *ast.UnicodeSet:
-				return e2.ContainsRunes(e1.Set.Elements()...)
-			default:
-				panic("Invalid")
-			}
-		case *ast.CharLiteral:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return true
-			case *ast.CharLiteral:
-				return e1.Char() < e2.Char()
-			case *ast.Not:
-				return true
-			case *ast.UnicodeClass:
-				return true
-			case *ast.UnicodeSet:
-				return true
-			default:
-				panic("Invalid")
-			}
+/*
+split adds an event for each rune by which two of the events partially overlap,
+i.e. which has to be taken apart to know which of the two it belongs to. It makes
+that, apart from these runes, any two events are disjoint or one includes the other.
+*/
+func split(events []ast.LexBase) []ast.LexBase {
+	runes := runeset.New()
+	for i, ev := range events {
+		for _, ev1 := range events[:i] {
+			addOverlap(runes, ev, ev1)
+			addOverlap(runes, ev1, ev)
+		}
+	}
+	for _, r := range runes.Elements() {
+		char := ast.CharLitFromRune(r)
+		if !contains(events, char) {
+			events = append(events, char)
+		}
+	}
+	return events
+}
+
+// addOverlap adds to runes those in the set of a by which a partially overlaps with b
+func addOverlap(runes *runeset.RuneSet, a, b ast.LexBase) {
+	var overlap []rune
+	switch a1 := a.(type) {
+	case *ast.AnyOf:
+		// of a1 only some runes are in b
+		if Subset(a, b) != True && Subset(b, a) != True {
+			overlap = common(a1.Set, b)
+		}
+	case *ast.Not:
+		switch b1 := b.(type) {
 		case *ast.Not:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return false
-			case *ast.UnicodeSet:
-				return false
-			default:
-				panic("Invalid")
+			if !a1.Set.Subset(b1.Set) && !b1.Set.Subset(a1.Set) {
+				// excluded by a1 but not by b1
+				overlap = common(a1.Set, b)
 			}
-		case *ast.UnicodeClass:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !unicodeClassContains(e1, e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.Type == ast.Letter && (e1.Type == ast.Lowcase || e1.Type == ast.Upcase)
-			case *ast.UnicodeSet:
-				return e2.ContainsClass(e1)
-			default:
-				panic("Invalid")
-			}
-		case *ast.UnicodeSet:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !e1.ContainsRunes(e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.ContainsSet(e1)
-			case *ast.UnicodeSet:
-				return e2.ContainsSet(e1)
-			default:
-				panic("Invalid")
+		case *ast.UnicodeClass, *ast.UnicodeSet:
+			// excluded by a1 but in b1
+			overlap = common(a1.Set, b)
+		}
+	}
+	for _, r := range overlap {
+		runes.Add(r)
+	}
+}
+
+// common returns the elements of set that are in event
+func common(set *runeset.RuneSet, event ast.LexBase) (runes []rune) {
+	for _, r := range set.Elements() {
+		if Subset(ast.CharLitFromRune(r), event) == True {
+			runes = append(runes, r)
+		}
+	}
+	return
+}
+
+// sort events from most to least specific class
+func sortEvents(events []ast.LexBase) {
+	// The order is partial, which sort.Slice cannot handle
+	for i := range events {
+		first := i
+		for j := i + 1; j < len(events); j++ {
+			if less(events[j], events[first]) {
+				first = j
 			}
-		default:
-			panic("Invalid")
 		}
-	})
+		ev := events[first]
+		copy(events[i+1:first+1], events[i:first])
+		events[i] = ev
+	}
+}
+
+// less returns true if a must be tried before b
+func less(a, b ast.LexBase) bool {
+	if rank(a) != rank(b) {
+		return rank(a) < rank(b)
+	}
+	if c, ok := a.(*ast.CharLiteral); ok {
+		return c.Char() < b.(*ast.CharLiteral).Char()
+	}
+	return Subset(a, b) == True && Subset(b, a) != True
+}
+
+func rank(event ast.LexBase) int {
+	switch event.(type) {
+	case *ast.CharLiteral:
+		return 0
+	case *ast.AnyOf:
+		return 1
+	case *ast.UnicodeClass, *ast.UnicodeSet:
+		return 2
+	case *ast.Not:
+		return 3
+	case *ast.Any:
+		return 4
+	default:
+		panic("Invalid")
+	}
 }
 
 func toTriState(b bool) TriState {
-- 
2.43.0


From df310ca2ae1b18d53679088785ac71c91b3743d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 07/25] fix: compute all the context of LR(1) states, and merge
 only weakly compatible ones

---
 lr1/pgm/states.go   | 119 +++++++++++++++++---------------------------
 lr1/states/state.go |  41 +++++++--------
 2 files changed, 62 insertions(+), 98 deletions(-)

diff --git a/lr1/pgm/states.go b/lr1/pgm/states.go
index 8856541..c970e5b 100644
--- a/lr1/pgm/states.go
+++ b/lr1/pgm/states.go
@@ -13,23 +13,20 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 	}
 	s.NewState0(symbols, lr0items, first, states.NewConfigGroup(lr0items.List[0], "$"))
 	symSuccessors := symbolsuccessors.NewSymbolSuccessors()
-	for si := 0; si < len(s.List); si++ {
+	// A state is processed when it is new and again whenever it gets more context
+	for todo := []int{0}; len(todo) > 0; todo = todo[1:] {
+		si := todo[0]
 		st_trans := make([]states.Transition, 0, 4)
 		for _, trans := range s.List[si].Next().List() {
 			merged := false
 			for _, snum := range symSuccessors[trans.Sym] {
 				if weaklyCompatibleStates(s.List[snum], trans.State) {
 					merged = true
-					newStates := mergeStates(s.List[snum], trans.State)
-					for sym, states := range newStates {
-						for _, state := range states {
-							s.List = append(s.List, state)
-							state.Number = len(s.List) - 1
-							symSuccessors[sym] = append(symSuccessors[sym], state.Number)
-						}
+					if mergeStates(s.List[snum], trans.State) {
+						todo = append(todo, snum)
 					}
-
 					st_trans = append(st_trans, states.Transition{Sym: trans.Sym, State: s.List[snum]})
+					break
 				}
 			}
 			if !merged {
@@ -37,69 +34,52 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 				s.List = append(s.List, trans.State)
 				trans.State.Number = len(s.List) - 1
 				symSuccessors[trans.Sym] = append(symSuccessors[trans.Sym], trans.State.Number)
+				todo = append(todo, trans.State.Number)
 			}
 		}
 		s.List[si].Transitions = states.NewTransitionsList(st_trans, symbols)
 	}
+	removeUnreachable(s)
 	// s.GenActions()
 	return s
 }
 
-func makeContext(from *states.ConfigGroupSet, to *states.ConfigGroupSet) *states.ConfigGroupSet {
-	newNucleus := to.CloneFromCore()
-	for _, cfg := range from.List() {
-		if toCfg := newNucleus.GetGroupByCore(cfg.Item.NextItem); toCfg != nil {
-			toCfg.AddContext(cfg.ContextSet.List...)
+/*
+A transition changes to another state when its state gets context with which the
+old target is not compatible. States without any transition to them are removed.
+*/
+func removeUnreachable(s *states.States) {
+	reachable := map[*states.State]bool{s.List[0]: true}
+	for todo := []*states.State{s.List[0]}; len(todo) > 0; todo = todo[1:] {
+		for _, t := range todo[0].Transitions.List() {
+			if !reachable[t.State] {
+				reachable[t.State] = true
+				todo = append(todo, t.State)
+			}
 		}
 	}
-	return newNucleus
-}
-
-func mergeStates(this *states.State, that *states.State) (newStates map[string][]*states.State) {
-	oldNucleus := this.Nucleus.Clone()
-	mergeCfgGrpSet(this.Nucleus, that.Nucleus)
-	this.NonNucleus = states.NewConfigGroupSet()
-	this.Closure()
-	cfgDiff := this.Nucleus.ContextDiff(oldNucleus)
-	cfgDiff.Add(this.NonNucleus.List()...)
-	return propagateContext(this, cfgDiff)
+	list := make([]*states.State, 0, len(s.List))
+	for _, state := range s.List {
+		if reachable[state] {
+			state.Number = len(list)
+			list = append(list, state)
+		}
+	}
+	s.List = list
 }
 
 /*
-The context of all config groups in that, which give context to the nucleus group of this,
-is merged into the nucleus of this.
+mergeStates adds the context of that to this. It returns true if this changed.
 */
-func mergeContext(this *states.State, thatNucleus *states.ConfigGroupSet) {
-	for _, grp := range thatNucleus.List() {
-		this.Nucleus.GetGroup(grp).AddContext(grp.ContextSet.List...)
+func mergeStates(this *states.State, that *states.State) bool {
+	oldNucleus := this.Nucleus.Clone()
+	mergeCfgGrpSet(this.Nucleus, that.Nucleus)
+	if this.Nucleus.Equal(oldNucleus) {
+		return false
 	}
 	this.NonNucleus = states.NewConfigGroupSet()
 	this.Closure()
-}
-
-/*
-Return a map of (symbol:*states.State) of newly generated states. Each new state has minus the same number as the one it replaces.
-For example: The existing set has number 10 and the new state -10. The caller of this function must resolve
-the state numbers as other sets may still have valid transitions to the original.
-*/
-func propagateContext(this *states.State, expandedNucleusCfGrps *states.ConfigGroupSet) (newStates map[string][]*states.State) {
-	newStates = make(map[string][]*states.State)
-	if this.Transitions == nil {
-		return
-	}
-	for _, t := range this.Transitions.List() {
-		sym, nextState := t.Sym, t.State
-		newNucleus := makeContext(expandedNucleusCfGrps, nextState.Nucleus)
-		if weaklyCompatibleCfgGrpSet(nextState.Nucleus, newNucleus) {
-			mergeContext(nextState, newNucleus)
-		} else {
-			newState := this.NextSymbol(sym)
-			newState.Number = -nextState.Number
-			this.Transitions.Replace(sym, newState)
-			newStates[sym] = append(newStates[sym], newState)
-		}
-	}
-	return
+	return true
 }
 
 func weaklyCompatibleStates(this *states.State, that *states.State) bool {
@@ -118,16 +98,14 @@ func weaklyCompatibleCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigG
 	if !this.CoreEqual(that) {
 		return false
 	}
-	if contextMutuallyDisjunct(this, that) {
-		return true
-	}
-	return !contextInternallyDisjunct(this) || !contextInternallyDisjunct(that)
-}
-
-func contextMutuallyDisjunct(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
-	for _, thisCfgGrp := range this.List() {
-		for _, thatCfgGrp := range that.List() {
-			if thisCfgGrp.HashKey() != thatCfgGrp.HashKey() && len(thisCfgGrp.ContextSet.Intersection(thatCfgGrp.ContextSet)) > 0 {
+	for i, thisCfgGrpI := range this.List() {
+		thatCfgGrpI := that.GetGroup(thisCfgGrpI)
+		for _, thisCfgGrpJ := range this.List()[:i] {
+			thatCfgGrpJ := that.GetGroup(thisCfgGrpJ)
+			if disjunct(thisCfgGrpI, thatCfgGrpJ) && disjunct(thisCfgGrpJ, thatCfgGrpI) {
+				continue
+			}
+			if disjunct(thisCfgGrpI, thisCfgGrpJ) && disjunct(thatCfgGrpI, thatCfgGrpJ) {
 				return false
 			}
 		}
@@ -135,13 +113,6 @@ func contextMutuallyDisjunct(this *states.ConfigGroupSet, that *states.ConfigGro
 	return true
 }
 
-func contextInternallyDisjunct(this *states.ConfigGroupSet) bool {
-	for i := 0; i < len(this.List())-1; i++ {
-		for j := i + 1; j < len(this.List()); j++ {
-			if len(this.List()[i].ContextSet.Intersection(this.List()[j].ContextSet)) > 0 {
-				return false
-			}
-		}
-	}
-	return true
+func disjunct(a, b *states.ConfigGroup) bool {
+	return len(a.ContextSet.Intersection(b.ContextSet)) == 0
 }
diff --git a/lr1/states/state.go b/lr1/states/state.go
index 25d9a13..cc524db 100644
--- a/lr1/states/state.go
+++ b/lr1/states/state.go
@@ -65,19 +65,23 @@ func (this *State) CanRecover() bool {
 }
 
 func (this *State) Closure() *State {
-	cgList := append(this.Nucleus.List(), this.NonNucleus.List()...)
-	for i := 0; i < len(cgList); i++ {
-		cgi := cgList[i]
-		if symbols.IsNonTerminal(cgi.Item.ExpectedSymbol()) {
-			startItems := this.items.StartItems(cgi.Item.ExpectedSymbol())
-			for _, si := range startItems {
-				newCfgGrp := NewConfigGroup(si,
-					this.first.FirstString(cgi.Item.TailString(), cgi.ContextSet.Clone().List...)...)
-				if oldCfgGrp := this.GetGroup(newCfgGrp); oldCfgGrp == nil {
-					this.Add(newCfgGrp)
-					cgList = append(cgList, newCfgGrp)
-				} else {
-					oldCfgGrp.AddContext(newCfgGrp.ContextSet.List...)
+	// A group that was already expanded may still get more context
+	for changed := true; changed; {
+		changed = false
+		cgList := this.ConfigGroups().List()
+		for i := 0; i < len(cgList); i++ {
+			cgi := cgList[i]
+			if symbols.IsNonTerminal(cgi.Item.ExpectedSymbol()) {
+				startItems := this.items.StartItems(cgi.Item.ExpectedSymbol())
+				for _, si := range startItems {
+					newCfgGrp := NewConfigGroup(si,
+						this.first.FirstString(cgi.Item.TailString(), cgi.ContextSet.Clone().List...)...)
+					if oldCfgGrp := this.GetGroup(newCfgGrp); oldCfgGrp == nil {
+						this.Add(newCfgGrp)
+						cgList = append(cgList, newCfgGrp)
+					} else if oldCfgGrp.ContextSet.Add(newCfgGrp.ContextSet.List...) {
+						changed = true
+					}
 				}
 			}
 		}
@@ -115,17 +119,6 @@ func (this *State) Next() *Transitions {
 	return transitions
 }
 
-func (this *State) NextSymbol(sym string) *State {
-	nextState := NewState(this.symbols, this.items, this.first)
-	for _, cfgrp := range this.Nucleus.List() {
-		if cfgrp.Item.ExpectedSymbol() == sym {
-			nextState.Add(NewConfigGroup(cfgrp.Item.NextItem, cfgrp.ContextSet.List...))
-		}
-	}
-	nextState.Closure()
-	return nextState
-}
-
 func (this *State) nextConfigGroupSet(cgset *ConfigGroupSet, transitions *Transitions) {
 	for _, cfgGrp := range cgset.list {
 		if cfgGrp.Item.ExpectedSymbol() != "" {
-- 
2.43.0


From f9bf2b7f36d2a56f8fcd75a8b4038fbc4e42267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 08/25] fix: generate LR(1) tables that compile for empty
 alternates and all literals

---
 gen/golang/lr1/parser/actionrow.go        |  6 +++---
 gen/golang/lr1/parser/productionstable.go | 17 ++++++-----------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/gen/golang/lr1/parser/actionrow.go b/gen/golang/lr1/parser/actionrow.go
index f320ecc..8f8a101 100644
--- a/gen/golang/lr1/parser/actionrow.go
+++ b/gen/golang/lr1/parser/actionrow.go
@@ -55,11 +55,11 @@ func getActionRowData(prods []*basicprod.Production, state *states.State, action
 			var actStr string
 			switch act := actions[sym.Literal()].(type) {
 			case action.Accept:
-				actStr = fmt.Sprintf("accept(true),\t\t/* %s */", sym)
+				actStr = fmt.Sprintf("accept(true),\t\t// %s", sym)
 			case action.Reduce:
-				actStr = fmt.Sprintf("reduce(%d),\t\t/* %s, reduce: %s */", int(act), sym, prods[int(act)].Head)
+				actStr = fmt.Sprintf("reduce(%d),\t\t// %s, reduce: %s", int(act), sym, prods[int(act)].Head)
 			case action.Shift:
-				actStr = fmt.Sprintf("shift(%d),\t\t/* %s */", int(act), sym)
+				actStr = fmt.Sprintf("shift(%d),\t\t// %s", int(act), sym)
 			default:
 				panic(fmt.Sprintf("Unknown action type: %T", act))
 			}
diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index b9a27aa..9db20db 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -47,19 +47,14 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		ProdTab: make([]prodTabEntry, len(prods)),
 	}
 	for i, prod := range prods {
-		data.ProdTab[i].String = fmt.Sprintf("`%s`", prod.String())
+		data.ProdTab[i].String = fmt.Sprintf("%q", prod.String())
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
-		if len(prod.Body.Symbols) == 0 {
-			data.ProdTab[i].NumSymbols = 0
-			data.ProdTab[i].ReduceFunc = fmt.Sprintf("nil, nil")
-		} else {
-			data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
-			data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
-				prod.Head,
-				prod.Alternate,
-				getParamIDs(len(prod.Body.Symbols)))
-		}
+		data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
+		data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
+			prod.Head,
+			prod.Alternate,
+			getParamIDs(len(prod.Body.Symbols)))
 	}
 
 	return data
-- 
2.43.0


From cd87b9ee5a39b3f1826431b91778561754c9185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 09/25] fix: report an LR(1) conflict with accept instead of
 crashing

---
 lr1/action/action.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lr1/action/action.go b/lr1/action/action.go
index 3bdc614..7c369fc 100644
--- a/lr1/action/action.go
+++ b/lr1/action/action.go
@@ -111,10 +111,7 @@ func (this Shift) Equal(act Action) bool {
 }
 
 func (this Accept) ResolveConflict(that Action) Action {
-	if _, ok := that.(Error); ok {
-		return this
-	}
-	panic(fmt.Sprintf("Cannot have LR1 conflict with Accept."))
+	return this
 }
 
 func (Error) ResolveConflict(that Action) Action {
@@ -138,7 +135,7 @@ func (this Shift) ResolveConflict(that Action) Action {
 func (this Reduce) ResolveConflict(that Action) Action {
 	switch that := that.(type) {
 	case Accept:
-		panic(fmt.Sprintf("Impossible conflict: Shift(%d)/Accept", int(this)))
+		return that
 	case Shift:
 		return that
 	case Error:
-- 
2.43.0


From 62df28a03f9fc8a20565d0692acf6396ae3499dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 10/25] fix: write the expected tokens of LR(1) errors in a
 fixed order

---
 gen/golang/lr1/parser/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gen/golang/lr1/parser/parser.go b/gen/golang/lr1/parser/parser.go
index dc82045..c30f7a8 100644
--- a/gen/golang/lr1/parser/parser.go
+++ b/gen/golang/lr1/parser/parser.go
@@ -61,6 +61,7 @@ import(
 	"bytes"
 	"fmt"
 	"errors"
+	"sort"
 
 	parseError "{{.Package}}/errors"
 	"{{.Package}}/lexer"
@@ -176,6 +177,7 @@ func (P *Parser) Error(err error) (recovered bool, errorAttrib *parseError.Error
 			errorAttrib.ExpectedTokens = append(errorAttrib.ExpectedTokens, t.ID())
 		}
 	}
+	sort.Strings(errorAttrib.ExpectedTokens)
 
 	if action := actionTab[P.stack.top()].actions[token.Error]; action != nil {
 		P.stack.push(int(action.(shift)), errorAttrib) // action can only be shift
@@ -228,11 +230,16 @@ func (P *Parser) newError(err error) error {
 	} else {
 		w.WriteString(", expected one of: ")
 		actRow := actionTab[P.stack.top()]
+		expected := []string{}
 		for tok, act := range actRow.actions {
 			if act != nil {
-				fmt.Fprintf(w, "%s ", tok.ID())
+				expected = append(expected, tok.ID())
 			}
 		}
+		sort.Strings(expected)
+		for _, id := range expected {
+			fmt.Fprintf(w, "%s ", id)
+		}
 	}
 	return errors.New(w.String())
 }
-- 
2.43.0


From dc7d0ebccb40fc9de7fcd255eba05e4800c20fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 11/25] fix: write the LR(1) AST atomically and never over one
 that cannot be seen

---
 gen/golang/lr1/ast/ast.go     | 10 +++++--
 gen/rust/lr1/ast/ast.go       | 10 +++++--
 util/atomicfile/atomicfile.go | 56 +++++++++++++++++++++++++++++++++++
 3 files changed, 70 insertions(+), 6 deletions(-)
 create mode 100644 util/atomicfile/atomicfile.go

diff --git a/gen/golang/lr1/ast/ast.go b/gen/golang/lr1/ast/ast.go
index 71aa95c..bd1349e 100644
--- a/gen/golang/lr1/ast/ast.go
+++ b/gen/golang/lr1/ast/ast.go
@@ -27,7 +27,7 @@ import (
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/cfg"
 	"github.com/goccmack/gogll/v3/lr1/basicprod"
-	"github.com/goccmack/goutil/ioutil"
+	"github.com/goccmack/gogll/v3/util/atomicfile"
 )
 
 type Data struct {
@@ -50,7 +50,11 @@ type Param struct {
 
 func Gen(pkg string, bprods []*basicprod.Production) {
 	fname := filepath.Join(cfg.BaseDir, "ast", "ast.go")
-	if ioutil.Exist(fname) && !*cfg.All {
+	exist, err := atomicfile.Exist(fname)
+	if err != nil {
+		panic(err)
+	}
+	if exist && !*cfg.All {
 		// Do not regenerate
 		return
 	}
@@ -63,7 +67,7 @@ func Gen(pkg string, bprods []*basicprod.Production) {
 	if err := tmpl.Execute(buf, getData(pkg, bprods)); err != nil {
 		panic(err)
 	}
-	if err := ioutil.WriteFile(fname, buf.Bytes()); err != nil {
+	if err := atomicfile.WriteFile(fname, buf.Bytes()); err != nil {
 		panic(err)
 	}
 }
diff --git a/gen/rust/lr1/ast/ast.go b/gen/rust/lr1/ast/ast.go
index 5f59c1e..66c84d2 100644
--- a/gen/rust/lr1/ast/ast.go
+++ b/gen/rust/lr1/ast/ast.go
@@ -29,7 +29,7 @@ import (
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/cfg"
 	"github.com/goccmack/gogll/v3/lr1/basicprod"
-	"github.com/goccmack/goutil/ioutil"
+	"github.com/goccmack/gogll/v3/util/atomicfile"
 )
 
 type Data struct {
@@ -52,7 +52,11 @@ type Param struct {
 
 func Gen(pkg string, bprods []*basicprod.Production) {
 	fname := filepath.Join(cfg.BaseDir, "src", "ast", "mod.rs")
-	if ioutil.Exist(fname) && !*cfg.All {
+	exist, err := atomicfile.Exist(fname)
+	if err != nil {
+		panic(err)
+	}
+	if exist && !*cfg.All {
 		// Do not regenerate
 		return
 	}
@@ -65,7 +69,7 @@ func Gen(pkg string, bprods []*basicprod.Production) {
 	if err := tmpl.Execute(buf, getData(pkg, bprods)); err != nil {
 		panic(err)
 	}
-	if err := ioutil.WriteFile(fname, buf.Bytes()); err != nil {
+	if err := atomicfile.WriteFile(fname, buf.Bytes()); err != nil {
 		panic(err)
 	}
 }
diff --git a/util/atomicfile/atomicfile.go b/util/atomicfile/atomicfile.go
new file mode 100644
index 0000000..165518f
--- /dev/null
+++ b/util/atomicfile/atomicfile.go
@@ -0,0 +1,56 @@
+/*
+Package atomicfile writes files which are at all times either the old or the
+complete new file.
+*/
+package atomicfile
+
+import (
+	"fmt"
+	"os"
+	"path/filepath"
+
+	"github.com/goccmack/goutil/ioutil"
+)
+
+// Exist returns true if there is something at fname
+func Exist(fname string) (bool, error) {
+	_, err := os.Lstat(fname)
+	if os.IsNotExist(err) {
+		return false, nil
+	}
+	return err == nil, err
+}
+
+// WriteFile creates all the non-existent directories in fname. It writes data
+// to a temporary file in the directory of fname and then renames that to fname.
+func WriteFile(fname string, data []byte) (err error) {
+	dir := filepath.Dir(fname)
+	if err := ioutil.MkdirAll(dir); err != nil {
+		return fmt.Errorf("Error creating directory %s: %s", dir, err)
+	}
+	// The name is fixed so that the next run replaces what a crash left behind
+	tmp := filepath.Join(dir, "."+filepath.Base(fname)+".gogll-tmp")
+	if err := writeAndSync(tmp, data); err != nil {
+		os.Remove(tmp)
+		return fmt.Errorf("Error writing file %s: %s", fname, err)
+	}
+	if err := os.Rename(tmp, fname); err != nil {
+		os.Remove(tmp)
+		return fmt.Errorf("Error writing file %s: %s", fname, err)
+	}
+	return nil
+}
+
+func writeAndSync(fname string, data []byte) error {
+	f, err := os.OpenFile(fname, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+	if err != nil {
+		return err
+	}
+	if _, err = f.Write(data); err == nil {
+		err = f.Sync()
+	}
+	if err1 := f.Close(); err == nil {
+		err = err1
+	}
+	return err
+}
-- 
2.43.0


From f1e7a9773580928fdf6d3ffc0e5eb38a8475b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 12/25] fix: exit with an error when an LR(1) output cannot be
 written or removed

---
 gen/golang/lr1/parser/parser.go |  4 +++-
 gen/rust/lr1/parser/parser.go   |  4 +++-
 lr1/gen.go                      | 30 +++++++++++++++++++++---------
 3 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/gen/golang/lr1/parser/parser.go b/gen/golang/lr1/parser/parser.go
index c30f7a8..d748e42 100644
--- a/gen/golang/lr1/parser/parser.go
+++ b/gen/golang/lr1/parser/parser.go
@@ -35,7 +35,9 @@ func genParser(pkg string, prods []*basicprod.Production, states *states.States)
 	if err := tmpl.Execute(wr, getParserData(pkg, prods, states)); err != nil {
 		panic(err)
 	}
-	ioutil.WriteFile(path.Join(cfg.BaseDir, "parser", "parser.go"), wr.Bytes())
+	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "parser", "parser.go"), wr.Bytes()); err != nil {
+		panic(err)
+	}
 }
 
 type parserData struct {
diff --git a/gen/rust/lr1/parser/parser.go b/gen/rust/lr1/parser/parser.go
index 2f8bf2a..cbd0b6b 100644
--- a/gen/rust/lr1/parser/parser.go
+++ b/gen/rust/lr1/parser/parser.go
@@ -35,7 +35,9 @@ func genParser(pkg string, prods []*basicprod.Production, states *states.States)
 	if err := tmpl.Execute(wr, getParserData(pkg, prods, states)); err != nil {
 		panic(err)
 	}
-	ioutil.WriteFile(path.Join(cfg.BaseDir, "src", "parser", "mod.rs"), wr.Bytes())
+	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "src", "parser", "mod.rs"), wr.Bytes()); err != nil {
+		panic(err)
+	}
 }
 
 type parserData struct {
diff --git a/lr1/gen.go b/lr1/gen.go
index ac75b73..51beeec 100644
--- a/lr1/gen.go
+++ b/lr1/gen.go
@@ -43,8 +43,8 @@ func Gen(g *ast.GoGLL) ([]*basicprod.Production, *states.States, action.Actions)
 	handleConflicts(conflicts, states)
 
 	if cfg.Verbose {
-		ioutil.WriteFile(path.Join(cfg.BaseDir, "CFG_items.txt"), []byte(items.String()))
-		ioutil.WriteFile(path.Join(cfg.BaseDir, "LR1_states.txt"), statesString(states, actions))
+		writeFile("CFG_items.txt", []byte(items.String()))
+		writeFile("LR1_states.txt", statesString(states, actions))
 	}
 
 	return prods, states, actions
@@ -82,7 +82,13 @@ func writeConflicts(conflicts [][]*action.Conflict) {
 			conflictNo++
 		}
 	}
-	ioutil.WriteFile(path.Join(cfg.BaseDir, "LR1_conflicts.txt"), w.Bytes())
+	writeFile("LR1_conflicts.txt", w.Bytes())
+}
+
+func writeFile(name string, data []byte) {
+	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, name), data); err != nil {
+		panic(err)
+	}
 }
 
 // func reduceLabel(state *states.State, actions map[string]action.Action, prods []*basicprod.Production) string {
@@ -141,12 +147,18 @@ func statesString(states *states.States, actions action.Actions) []byte {
 }
 
 func removeOldFiles() {
-	os.Remove(path.Join(cfg.BaseDir, "basic_productions.txt"))
-	os.Remove(path.Join(cfg.BaseDir, "CFG_items.txt"))
-	os.Remove(path.Join(cfg.BaseDir, "CFG_symbols.txt"))
-	os.Remove(path.Join(cfg.BaseDir, "first.txt"))
-	os.Remove(path.Join(cfg.BaseDir, "LR1_states.txt"))
-	os.Remove(path.Join(cfg.BaseDir, "LR1_conflicts.txt"))
+	removeFile("basic_productions.txt")
+	removeFile("CFG_items.txt")
+	removeFile("CFG_symbols.txt")
+	removeFile("first.txt")
+	removeFile("LR1_states.txt")
+	removeFile("LR1_conflicts.txt")
+}
+
+func removeFile(name string) {
+	if err := os.Remove(path.Join(cfg.BaseDir, name)); err != nil && !os.IsNotExist(err) {
+		panic(err)
+	}
 }
 
 // func writeBasicProductions(cfg config.Config, prods []*basicprod.Production) {
-- 
2.43.0


From 86f83ccf976562017a2ec1d13e5d8b83d6491c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:18 +0000
Subject: [PATCH 13/25] fix: reject a grammar before any generated file is
 touched

---
 lr1/gen.go |  4 ++--
 main.go    | 36 ++++++++++++++++++++++++++++++++----
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/lr1/gen.go b/lr1/gen.go
index 51beeec..1bd06ef 100644
--- a/lr1/gen.go
+++ b/lr1/gen.go
@@ -52,12 +52,12 @@ func Gen(g *ast.GoGLL) ([]*basicprod.Production, *states.States, action.Actions)
 
 func handleConflicts(conflicts [][]*action.Conflict, states *states.States) {
 	if numConflicts(conflicts) > 0 {
-		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt", numConflicts(conflicts))
+		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt\n", numConflicts(conflicts))
 		writeConflicts(conflicts)
 		if !*cfg.AutoResolveLRConf {
-			fmt.Println("LR(1) conflicts were automatically resolved")
 			os.Exit(1)
 		}
+		fmt.Println("LR(1) conflicts were automatically resolved")
 	}
 }
 
diff --git a/main.go b/main.go
index 6b239f5..d1fca71 100644
--- a/main.go
+++ b/main.go
@@ -42,6 +42,9 @@ import (
 	"github.com/goccmack/gogll/v3/lex/items"
 	"github.com/goccmack/gogll/v3/lexer"
 	"github.com/goccmack/gogll/v3/lr1"
+	"github.com/goccmack/gogll/v3/lr1/action"
+	"github.com/goccmack/gogll/v3/lr1/basicprod"
+	"github.com/goccmack/gogll/v3/lr1/states"
 	"github.com/goccmack/gogll/v3/parser"
 	"github.com/goccmack/gogll/v3/sc"
 	"github.com/goccmack/gogll/v3/symbols"
@@ -79,9 +82,16 @@ func main() {
 	symbols.Init(g)
 
 	ff := frstflw.New(g)
+	if *cfg.GLL && len(g.SyntaxRules) > 0 {
+		checkFollow(g, ff)
+	}
 	gs := gslot.New(g, ff)
 
 	lexSets := items.New(g)
+	// Everything is checked before the first file is generated
+	for _, set := range lexSets.Sets() {
+		set.Accept(g.GetStringLiteralsSet())
+	}
 	if cfg.Verbose {
 		gensymbols.Gen(g)
 		genff.Gen(g, ff)
@@ -89,6 +99,15 @@ func main() {
 		lexfsa.Gen(filepath.Join(cfg.BaseDir, "lexfsa.txt"), lexSets)
 	}
 
+	// The LR(1) parser is made before anything is generated because that may
+	// find conflicts
+	var bprods []*basicprod.Production
+	var lr1States *states.States
+	var actions action.Actions
+	if len(g.SyntaxRules) > 0 && !*cfg.GLL {
+		bprods, lr1States, actions = lr1.Gen(g)
+	}
+
 	switch {
 	case *cfg.Go:
 		gengolexer.Gen(g, lexSets)
@@ -97,8 +116,7 @@ func main() {
 			if *cfg.GLL {
 				gengogll.Gen(g, gs, ff)
 			} else {
-				bprods, states, actions := lr1.Gen(g)
-				gengolr1.Gen(g.Package.GetString(), bprods, states, actions)
+				gengolr1.Gen(g.Package.GetString(), bprods, lr1States, actions)
 			}
 		}
 	case *cfg.Rust:
@@ -108,14 +126,24 @@ func main() {
 			if *cfg.GLL {
 				genrustgll.Gen(path.Join(cfg.BaseDir, "src", "parser"), g, gs, ff)
 			} else {
-				bprods, states, actions := lr1.Gen(g)
-				genrustlr1.Gen(g.Package.GetString(), bprods, states, actions)
+				genrustlr1.Gen(g.Package.GetString(), bprods, lr1States, actions)
 			}
 		}
 	}
 
 }
 
+// checkFollow exits if the GLL parser cannot be generated because a rule is
+// never called
+func checkFollow(g *ast.GoGLL, ff *frstflw.FF) {
+	for _, nt := range g.NonTerminals.ElementsSorted() {
+		if ff.Follow(nt).Len() == 0 {
+			fmt.Printf("Production %s has empty follow set. It is never called\n", nt)
+			os.Exit(1)
+		}
+	}
+}
+
 func fail(err error) {
 	fmt.Printf("Error: %s\n", err)
 	os.Exit(1)
-- 
2.43.0


From af42f1f6b72689f7fd2b79d61f9b496547e2f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 14/25] fix: regenerate gogll's own front end from the repaired
 templates

---
 lexer/lexer.go    |  22 +++++-----
 parser/bsr/bsr.go |  92 +++++++++++++++++++++++++++--------------
 parser/parser.go  |  19 +++++++--
 sppf/sppf.go      | 101 ++++++++++++++++++++++++++++++++--------------
 token/token.go    |   4 +-
 5 files changed, 160 insertions(+), 78 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 5bb0edd..14069da 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -306,8 +306,8 @@ var accept = []token.Type{
 	token.T_107, 
 	token.T_108, 
 	token.T_109, 
-	token.T_101, 
 	token.Error, 
+	token.T_101, 
 	token.Error, 
 	token.Error, 
 	token.T_1, 
@@ -1015,9 +1015,9 @@ var nextState = []func(r rune) state{
 			return 22 
 		case r == '}':
 			return 23 
-		case unicode.IsUpper(r):
-			return 24 
 		case unicode.IsLower(r):
+			return 24 
+		case unicode.IsUpper(r):
 			return 25 
 		}
 		return nullState
@@ -1230,11 +1230,11 @@ var nextState = []func(r rune) state{
 	func(r rune) state {
 		switch { 
 		case r == '_':
-			return 24 
+			return 33 
 		case unicode.IsLetter(r):
-			return 24 
+			return 33 
 		case unicode.IsNumber(r):
-			return 24 
+			return 33 
 		}
 		return nullState
 	}, 
@@ -1242,11 +1242,11 @@ var nextState = []func(r rune) state{
 	func(r rune) state {
 		switch { 
 		case r == '_':
-			return 33 
+			return 25 
 		case unicode.IsLetter(r):
-			return 33 
+			return 25 
 		case unicode.IsNumber(r):
-			return 33 
+			return 25 
 		}
 		return nullState
 	}, 
@@ -1281,10 +1281,10 @@ var nextState = []func(r rune) state{
 	// Set29
 	func(r rune) state {
 		switch { 
-		case any(r, []rune{'\'','\\','n','r','t'}):
-			return 44 
 		case r == '\'':
 			return 44 
+		case any(r, []rune{'\'','\\','n','r','t'}):
+			return 30 
 		}
 		return nullState
 	}, 
diff --git a/parser/bsr/bsr.go b/parser/bsr/bsr.go
index 4f8dd16..255ec14 100644
--- a/parser/bsr/bsr.go
+++ b/parser/bsr/bsr.go
@@ -34,7 +34,7 @@ Set contains the set of Binary Subtree Representations (BSR).
 type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
-    stringEntries map[stringKey]*stringBSR
+    stringEntries map[stringKey][]*stringBSR
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -75,7 +75,7 @@ func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
-        stringEntries: make(map[stringKey]*stringBSR),
+        stringEntries: make(map[stringKey][]*stringBSR),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -175,12 +175,7 @@ func (s *Set) GetRoots() (roots []BSR) {
 // GetAllStrings returns all string elements with symbols = str,
 // left extent = lext and right extent = rext
 func (s *Set) GetAllStrings(str symbols.Symbols, lext, rext int) (strs []*stringBSR) {
-    for _, s := range s.stringEntries {
-        if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
-            strs = append(strs, s)
-        }
-    }
-    return
+    return append(strs, s.stringEntries[getStringKey(str, lext, rext)]...)
 }
 
 func (s *Set) getNTBSRs() BSRs {
@@ -196,19 +191,21 @@ func (s *Set) getNTBSRs() BSRs {
 
 func (s *Set) getStringBSRs() stringBSRs {
     bsrs := make(stringBSRs, 0, len(s.stringEntries))
-    for _, bsr := range s.stringEntries {
-        bsrs = append(bsrs, bsr)
+    for _, bsrl := range s.stringEntries {
+        bsrs = append(bsrs, bsrl...)
     }
     sort.Sort(bsrs)
     return bsrs
 }
 
-func (s *Set) getString(symbols symbols.Symbols, leftExtent, rightExtent int) *stringBSR {
-    // fmt.Printf("Set.getString(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
+// getStrings returns the string elements with the given symbols and extent: one
+// for each pivot.
+func (s *Set) getStrings(symbols symbols.Symbols, leftExtent, rightExtent int) []*stringBSR {
+    // fmt.Printf("Set.getStrings(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
 
-    strBsr, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
+    strBsrs, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
     if exist {
-        return strBsr
+        return strBsrs
     }
 
     panic(fmt.Sprintf("Error: no string %s left extent=%d right extent=%d\n",
@@ -221,11 +218,20 @@ func (s *Set) insert(bsr bsr) {
     }
     switch b := bsr.(type) {
     case BSR:
+        if s.slotEntries[b] {
+            return
+        }
         s.slotEntries[b] = true
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
-        s.stringEntries[b.key()] = b
+        // An ambiguous string has an element for every pivot
+        for _, b1 := range s.stringEntries[b.key()] {
+            if b1.pivot == b.pivot {
+                return
+            }
+        }
+        s.stringEntries[b.key()] = append(s.stringEntries[b.key()], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
     }
@@ -316,19 +322,24 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
         return b.set.getNTSlot(b.Label.Symbols()[i], b.pivot, b.rightExtent)
     }
 
-    // Walk to pos i from the right
+    // Walk to pos i from the right. The string to the left of a position may
+    // have more than one pivot: rexts has the right extents of symbols.
     symbols := b.Label.Symbols()[:b.Label.Pos()-1]
-    str := b.set.getString(symbols, b.leftExtent, b.pivot)
-    for len(symbols) > i+1 && len(symbols) > 2 {
+    rexts := []int{b.pivot}
+    for len(symbols) > i+1 {
+        rexts = b.set.getPivots(symbols, b.leftExtent, rexts)
         symbols = symbols[:len(symbols)-1]
-        str = b.set.getString(symbols, str.leftExtent, str.pivot)
     }
 
     bsrs := []BSR{}
-    if i == 0 {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.leftExtent, str.pivot)
-    } else {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.pivot, str.rightExtent)
+    for _, rext := range rexts {
+        if i == 0 {
+            bsrs = append(bsrs, b.set.getNTSlot(symbols[i], b.leftExtent, rext)...)
+        } else {
+            for _, str := range b.set.getStrings(symbols, b.leftExtent, rext) {
+                bsrs = append(bsrs, b.set.getNTSlot(symbols[i], str.pivot, rext)...)
+            }
+        }
     }
 
     // fmt.Println(bsrs)
@@ -336,6 +347,20 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
     return bsrs
 }
 
+// getPivots returns the pivots of all the strings of symbols from lext to any of rexts
+func (s *Set) getPivots(symbols symbols.Symbols, lext int, rexts []int) (pivots []int) {
+    exist := map[int]bool{}
+    for _, rext := range rexts {
+        for _, str := range s.getStrings(symbols, lext, rext) {
+            if !exist[str.pivot] {
+                exist[str.pivot] = true
+                pivots = append(pivots, str.pivot)
+            }
+        }
+    }
+    return
+}
+
 // GetTChildI returns the terminal symbol at position i in b.
 // GetTChildI panics if symbol i is not a valid terminal
 func (b BSR) GetTChildI(i int) *token.Token {
@@ -360,12 +385,12 @@ func (b BSR) GetTChildI(i int) *token.Token {
     return b.set.lex.Tokens[lext]
 }
 
-// LeftExtent returns the left extent of the BSR
+// LeftExtent returns the left extent of the BSR in the stream of tokens
 func (b BSR) LeftExtent() int {
     return b.leftExtent
 }
 
-// RightExtent returns the right extent of the BSR
+// RightExtent returns the right extent of the BSR in the stream of tokens
 func (b BSR) RightExtent() int {
     return b.rightExtent
 }
@@ -427,7 +452,13 @@ func (sbs stringBSRs) Less(i, j int) bool {
     if sbs[i].leftExtent > sbs[j].leftExtent {
         return false
     }
-    return sbs[i].rightExtent < sbs[j].rightExtent
+    if sbs[i].rightExtent < sbs[j].rightExtent {
+        return true
+    }
+    if sbs[i].rightExtent > sbs[j].rightExtent {
+        return false
+    }
+    return sbs[i].pivot < sbs[j].pivot
 }
 
 func (sbs stringBSRs) Swap(i, j int) {
@@ -586,11 +617,10 @@ func (pf *Set) ToSPPF() *sppf.SymbolNode {
                     in.Lext, in.Lext, in.Rext))
             } else {
                 // for each (α,i,k, j)∈Υ { mkPN(X ::=α·δ,i,k, j,G) } } } }
-                alpha, delta := in.Body[:in.Pos], in.Body[in.Pos:]
+                alpha := in.Body[:in.Pos]
                 for _, str := range pf.GetAllStrings(alpha, in.Lext, in.Rext) {
-                    body := append(str.Symbols, delta...)
                     in.Children = append(in.Children,
-                        bld.mkPN(in.NT, body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
+                        bld.mkPN(in.NT, in.Body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
                 }
             }
         }
@@ -627,8 +657,8 @@ func (bld *bldSPPF) mkPN(nt symbols.NT, body symbols.Symbols, pos int,
 		LeftChild:  nil,
 		RightChild: nil,
 	}
-	if _, exist := bld.pNodes[pn.Label()]; exist {
-		panic("must not happen")
+	if pn1, exist := bld.pNodes[pn.Label()]; exist {
+		return pn1
 	}
 	bld.pNodes[pn.Label()] = pn
 
diff --git a/parser/parser.go b/parser/parser.go
index 676f0f3..9a35b0d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1654,12 +1654,18 @@ func (p *parser) call(L slot.Label, i, j int) {
 			// fmt.Printf("  !existEdge(%v)\n", u)
 			p.crf[ndV] = append(v, u)
 			// fmt.Printf("|popped|=%d\n", len(popped))
+			// in order of right extent, to make the parse reproducible
+			rexts := []int{}
 			for pnd := range p.popped {
 				if pnd.X == X && pnd.k == j {
-					p.dscAdd(L, i, pnd.j)
-					p.bsrSet.Add(L, i, j, pnd.j)
+					rexts = append(rexts, pnd.j)
 				}
 			}
+			sort.Ints(rexts)
+			for _, h := range rexts {
+				p.dscAdd(L, i, h)
+				p.bsrSet.Add(L, i, j, h)
+			}
 		}
 	}
 }
@@ -1682,6 +1688,10 @@ func (p *parser) rtn(X symbols.NT, k, j int) {
 			p.dscAdd(nd.L, nd.i, j)
 			p.bsrSet.Add(nd.L, nd.i, k, j)
 		}
+		if X == symbols.NT_GoGLL && k == 0 && j < len(p.lex.Tokens)-1 {
+			// A sentence ends at j but the input does not
+			p.parseError(slot.GetAlternates(X)[0], j, map[token.Type]string{token.EOF: "$"})
+		}
 	}
 }
 
@@ -1723,7 +1733,7 @@ type descriptors struct {
 
 func (ds *descriptors) contain(d *descriptor) bool {
 	for _, d1 := range ds.set {
-		if d1 == d {
+		if *d1 == *d {
 			return true
 		}
 	}
@@ -12183,6 +12193,7 @@ func (pe *Error) String() string {
 	for _, e := range pe.Expected {
 		exp = append(exp, e)
 	}
+	sort.Strings(exp)
 	fmt.Fprintf(w, "Expected one of: [%s]", strings.Join(exp, ","))
 	return w.String()
 }
@@ -12193,7 +12204,7 @@ func (p *parser) parseError(slot slot.Label, i int, expected map[token.Type]stri
 }
 
 func (p *parser) sortParseErrors() {
-	sort.Slice(p.parseErrors,
+	sort.SliceStable(p.parseErrors,
 		func(i, j int) bool {
 			return p.parseErrors[j].Token.Lext() < p.parseErrors[i].Token.Lext()
 		})
diff --git a/sppf/sppf.go b/sppf/sppf.go
index a303495..3b9a05c 100644
--- a/sppf/sppf.go
+++ b/sppf/sppf.go
@@ -77,7 +77,7 @@ func (n *SymbolNode) Label() string {
 }
 
 func (n *PackedNode) Label() string {
-	return fmt.Sprintf("\"%s,%d\"", slotString(n.NT, n.Body, n.Pos), n.Pivot)
+	return fmt.Sprintf("\"%s,%d,%d,%d\"", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Pivot, n.Rext)
 }
 
 func (n *IntermediateNode) String() string {
@@ -95,18 +95,40 @@ func (n *PackedNode) String() string {
 //---- Dot ----
 
 type dotBuilder struct {
-	iNodes map[*IntermediateNode]bool
-	pNodes map[string]bool // index PN Label
-	sNodes map[*SymbolNode]bool
-	w      *bytes.Buffer
+	nodes map[string]bool // index = node.Label()
+	w     *bytes.Buffer
 }
 
+func (bld *dotBuilder) add(n Node) {
+	// fmt.Printf("dotBuilder.add: %s\n", n.Label())
+	if bld.done(n) {
+		panic(fmt.Sprintf("duplicate %s", n.Label()))
+	}
+	// fmt.Println(" Before:")
+	// bld.dumpNodes()
+
+	bld.nodes[n.Label()] = true
+
+	// fmt.Println(" After:")
+	// bld.dumpNodes()
+	// fmt.Println()
+}
+
+func (bld *dotBuilder) done(n Node) bool {
+	return bld.nodes[n.Label()]
+}
+
+func (bld *dotBuilder) dumpNodes() {
+	for n, t := range bld.nodes {
+		fmt.Printf("  %s = %t\n", n, t)
+	}
+}
+
+// DotFile writes a graph representation of the SPPF in dot notation to file
 func (root *SymbolNode) DotFile(file string) {
 	bld := &dotBuilder{
-		iNodes: make(map[*IntermediateNode]bool),
-		pNodes: make(map[string]bool),
-		sNodes: make(map[*SymbolNode]bool),
-		w:      new(bytes.Buffer),
+		nodes: make(map[string]bool),
+		w:     new(bytes.Buffer),
 	}
 	fmt.Fprintln(bld.w, "digraph SPPF {")
 	root.dot(bld)
@@ -117,23 +139,60 @@ func (root *SymbolNode) DotFile(file string) {
 func (n *IntermediateNode) dot(bld *dotBuilder) {
 	// fmt.Println("in.dot", n.Label())
 
+	if bld.done(n) {
+		return
+	}
+	bld.add(n)
+
 	fmt.Fprintf(bld.w, "%s [shape=box]\n", n.Label())
 
 	for _, c := range n.Children {
 		fmt.Fprintf(bld.w, "%s -> %s\n", n.Label(), c.Label())
-		if !bld.pNodes[c.Label()] {
+		if !bld.done(c) {
 			c.dot(bld)
 		}
 	}
 }
 
+func (n *PackedNode) dot(bld *dotBuilder) {
+	// fmt.Println("pn.dot", n.Label(), "exist", bld.nodes[n.Label()])
+
+	if bld.done(n) {
+		return
+	}
+	bld.add(n)
+
+	fmt.Fprintf(bld.w, "%s [shape=box,style=rounded,penwidth=3]\n", n.Label())
+	if n.LeftChild != nil {
+		if !bld.done(n.LeftChild) {
+			n.LeftChild.dot(bld)
+		}
+		fmt.Fprintf(bld.w, "%s -> %s\n", n.Label(), n.LeftChild.Label())
+	}
+	if n.RightChild != nil {
+		if !bld.done(n.RightChild) {
+			n.RightChild.dot(bld)
+		}
+		fmt.Fprintf(bld.w, "%s -> %s\n", n.Label(), n.RightChild.Label())
+	}
+	if n.LeftChild != nil && n.RightChild != nil {
+		fmt.Fprintf(bld.w, "%s,%s\n", n.LeftChild.Label(), n.RightChild.Label())
+	}
+}
+
 func (n *SymbolNode) dot(bld *dotBuilder) {
-	// fmt.Println("sn.dot", n.Label())
+	// fmt.Println("sn.dot", n.Label(), "done=", bld.done(n))
+
+	if bld.done(n) {
+		return
+	}
+	bld.add(n)
 
 	fmt.Fprintln(bld.w, n.Label())
 	for _, pn := range n.Children {
+		// fmt.Printf("  child: %s\n", pn.Label())
 		fmt.Fprintf(bld.w, "%s -> %s\n", n.Label(), pn.Label())
-		if !bld.pNodes[pn.Label()] {
+		if !bld.done(pn) {
 			pn.dot(bld)
 		}
 	}
@@ -147,21 +206,3 @@ func (n *SymbolNode) dot(bld *dotBuilder) {
 
 }
 
-func (n *PackedNode) dot(bld *dotBuilder) {
-	// fmt.Println("pn.dot", n.Label(), "exist", bld.pNodes[n.Label()])
-
-	fmt.Fprintf(bld.w, "%s [shape=box,style=rounded]\n", n.Label())
-	if n.LeftChild != nil {
-		n.LeftChild.dot(bld)
-		fmt.Fprintf(bld.w, "%s -> %s\n", n.Label(), n.LeftChild.Label())
-	}
-	if n.RightChild != nil {
-		n.RightChild.dot(bld)
-		fmt.Fprintf(bld.w, "%s -> %s\n", n.Label(), n.RightChild.Label())
-	}
-	if n.LeftChild != nil && n.RightChild != nil {
-		fmt.Fprintf(bld.w, "%s,%s\n", n.LeftChild.Label(), n.RightChild.Label())
-	}
-	bld.pNodes[n.Label()] = true
-}
-
diff --git a/token/token.go b/token/token.go
index f20e796..2e8debe 100755
--- a/token/token.go
+++ b/token/token.go
@@ -49,7 +49,7 @@ func (t *Token) GetInput() []rune {
     return t.input
 }
 
-// Lext returns the left extent of t
+// Lext returns the left extent of t in the input stream of runes
 func (t *Token) Lext() int {
     return t.lext
 }
@@ -93,7 +93,7 @@ func (t *Token) LiteralStringStripEscape() string {
 	return string(t.LiteralStripEscape())
 }
 
-// Rext returns the right extent of t in the input
+// Rext returns the right extent of t in the input stream of runes
 func (t *Token) Rext() int {
     return t.rext
 }
-- 
2.43.0


From 5d5387325b1b95f21acf50a0a94a5080b8079fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 15/25] fix: do not let token definitions that use the same
 token overwrite each other

A token used in the definition of another was appended to in place, so that
definitions shared (and could even contain) each other's symbols.
---
 ast/build.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/build.go b/ast/build.go
index 4395f06..e40de81 100644
--- a/ast/build.go
+++ b/ast/build.go
@@ -197,7 +197,8 @@ func (bld *builder) getLexRuleBody(tokid *token.Token) []LexSymbol {
 	if lexRule == nil {
 		bld.fail(fmt.Errorf("token %s not defined yet", tokid.LiteralString()), tokid.Lext())
 	}
-	return lexRule.RegExp.Symbols
+	// A copy because the caller appends to it
+	return append([]LexSymbol{}, lexRule.RegExp.Symbols...)
 }
 
 // LexSymbol
-- 
2.43.0


From d71054a8ab79f309321daffdc529e919d3522d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 16/25] fix: generate no Rust file for a token that the Rust
 lexer cannot have

---
 main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index d1fca71..aae744d 100644
--- a/main.go
+++ b/main.go
@@ -120,8 +120,9 @@ func main() {
 			}
 		}
 	case *cfg.Rust:
-		genrusttoken.Gen(filepath.Join(cfg.BaseDir, "src", "token", "mod.rs"))
+		// The lexer is first because it cannot be generated for all lexical rules
 		genrustlexer.Gen(path.Join(cfg.BaseDir, "src", "lexer", "mod.rs"), g, lexSets)
+		genrusttoken.Gen(filepath.Join(cfg.BaseDir, "src", "token", "mod.rs"))
 		if len(g.SyntaxRules) > 0 {
 			if *cfg.GLL {
 				genrustgll.Gen(path.Join(cfg.BaseDir, "src", "parser"), g, gs, ff)
-- 
2.43.0


From c8c65144f5a20dca47555eb7d979e3ca9f96a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 17/25] fix: generate LR(1) ast functions that compile for
 empty alternates

---
 gen/golang/lr1/ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/golang/lr1/ast/ast.go b/gen/golang/lr1/ast/ast.go
index bd1349e..157fdff 100644
--- a/gen/golang/lr1/ast/ast.go
+++ b/gen/golang/lr1/ast/ast.go
@@ -141,7 +141,7 @@ import(
 
 {{range $bprod := .BasicProds}}{{$bp := $bprod}}
 // {{$bp.Comment}}
-func {{$bp.ID}}({{range $i, $p := $bp.Params}}{{if ne $i 0}}, {{end}}p{{$i}}{{end}} interface{})(interface{}, error){
+func {{$bp.ID}}({{range $i, $p := $bp.Params}}{{if ne $i 0}}, {{end}}p{{$i}}{{end}}{{if $bp.Params}} interface{}{{end}})(interface{}, error){
     fmt.Println("ast.{{$bprod.ID}} is unimplemented")
     return nil, nil
 }
-- 
2.43.0


From 993a05623c44da885b093b464444f8f7fbe9a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 18/25] fix: compare Unicode sets by their runes, and know the
 long category names

---
 ast/lex.go               | 193 +++++++++++++++++++++++----------------
 lex/items/event/event.go |  34 ++++++-
 2 files changed, 146 insertions(+), 81 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index aad8e62..d045361 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -21,6 +21,7 @@ package ast
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"unicode"
 
 	"github.com/goccmack/gogll/v3/token"
@@ -367,13 +368,9 @@ func (sl *StringLit) Value() []rune {
 	return value
 }
 
+// ContainsSet returns true iff all the runes of s are in u
 func (u *UnicodeClass) ContainsSet(s *UnicodeSet) bool {
-	for _, rng := range s.Ranges {
-		if !rangeTableInRangeTable(rng.GetRangeTable(), u.GetRangeTable()) {
-			return false
-		}
-	}
-	return true
+	return len(minus(s.runes(), u.runes())) == 0
 }
 
 func (u *UnicodeClass) GetRangeTable() *unicode.RangeTable {
@@ -392,6 +389,15 @@ func (u *UnicodeClass) GetRangeTable() *unicode.RangeTable {
 	panic("impossible")
 }
 
+// Common returns the runes that are in both u and s
+func (u *UnicodeClass) Common(s *UnicodeSet) []rune {
+	return s.common(u.runes())
+}
+
+func (u *UnicodeClass) runes() []runeRange {
+	return runeRanges(u.GetRangeTable())
+}
+
 func (u *UnicodeClass) String() string {
 	return string(u.tok.Literal())
 }
@@ -440,6 +446,11 @@ func (u UnicodeRanges) Equal(other UnicodeRanges) bool {
 			return false
 		}
 	}
+	for _, rng := range other {
+		if !u.Contain(rng) {
+			return false
+		}
+	}
 	return true
 }
 
@@ -474,44 +485,33 @@ func (u UnicodeRanges) String() string {
 	return w.String()
 }
 
-func (u *UnicodeRange) ContainsClass(c *UnicodeClass) bool {
-	switch c.Type {
-	case Letter:
-		return rangeTableInRangeTable(unicode.Letter, u.GetRangeTable())
-	case Upcase:
-		return rangeTableInRangeTable(unicode.Lu, u.GetRangeTable())
-	case Lowcase:
-		return rangeTableInRangeTable(unicode.Ll, u.GetRangeTable())
-	case Number:
-		return rangeTableInRangeTable(unicode.Number, u.GetRangeTable())
-	case Space:
-		return rangeTableInRangeTable(unicode.Space, u.GetRangeTable())
-	}
-	panic("impossible")
-}
-
-// rangeInRange returns true iff b contains a
-func rangeTableInRangeTable(a, b *unicode.RangeTable) bool {
-	if a == nil || b == nil {
-		fmt.Printf("a=%p, b=%p\n", a, b)
-		panic("nil")
-	}
-	for _, rng := range a.R32 {
-		if !unicode.In(rune(rng.Lo), b) || !unicode.In(rune(rng.Hi), b) {
-			return false
-		}
-	}
-	return true
+// categoryNames has the short names of the categories that have a long name
+var categoryNames = map[string]string{
+	"Digit":  "Nd",
+	"Letter": "L",
+	"Lower":  "Ll",
+	"Mark":   "M",
+	"Number": "N",
+	"Other":  "C",
+	"Punct":  "P",
+	"Space":  "Z",
+	"Symbol": "S",
+	"Title":  "Lt",
+	"Upper":  "Lu",
 }
 
 // GetRangeTable returns the category or property RangeTable of r
 func (u *UnicodeRange) GetRangeTable() *unicode.RangeTable {
 	switch u.Type {
 	case UnicodeCategory:
-		if unicode.Categories[u.Range] == nil {
+		category := u.Range
+		if short, exist := categoryNames[category]; exist {
+			category = short
+		}
+		if unicode.Categories[category] == nil {
 			panic(u.Range)
 		}
-		return unicode.Categories[u.Range]
+		return unicode.Categories[category]
 	case UnicodeProperty:
 		if unicode.Properties[u.Range] == nil {
 			panic(u.Range)
@@ -521,28 +521,9 @@ func (u *UnicodeRange) GetRangeTable() *unicode.RangeTable {
 	panic("impossible")
 }
 
-// In returns true iff rng contains u
-func (u *UnicodeRange) In(rng *UnicodeRange) bool {
-	return rangeTableInRangeTable(u.GetRangeTable(), rng.GetRangeTable())
-}
-
-// Subset returns true iff f is a subset or equal of sup
-func (u *UnicodeRange) Subset(sup *UnicodeSet) bool {
-	for _, rsup := range sup.Ranges {
-		if u.In(rsup) {
-			return true
-		}
-	}
-	return false
-}
-
+// ContainsClass returns true iff all the runes of c are in u
 func (u *UnicodeSet) ContainsClass(c *UnicodeClass) bool {
-	for _, rng := range u.Ranges {
-		if rng.ContainsClass(c) {
-			return true
-		}
-	}
-	return false
+	return len(minus(c.runes(), u.runes())) == 0
 }
 
 func (u *UnicodeSet) ContainsRune(r rune) bool {
@@ -559,22 +540,9 @@ func (u *UnicodeSet) ContainsRunes(runes ...rune) bool {
 	return true
 }
 
-func (u *UnicodeSet) ContainsRangeTable(rngTab *unicode.RangeTable) bool {
-	for _, rng := range u.Ranges {
-		if rangeTableInRangeTable(rngTab, rng.GetRangeTable()) {
-			return true
-		}
-	}
-	return false
-}
-
+// ContainsSet returns true iff all the runes of u1 are in u
 func (u *UnicodeSet) ContainsSet(u1 *UnicodeSet) bool {
-	for _, rng := range u1.Ranges {
-		if !u.ContainsRangeTable(rng.GetRangeTable()) {
-			return false
-		}
-	}
-	return true
+	return len(minus(u1.runes(), u.runes())) == 0
 }
 
 func (u *UnicodeSet) Equal(other LexBase) bool {
@@ -607,14 +575,83 @@ func (u *UnicodeSet) String() string {
 	return "'[" + u.Ranges.String() + "]'"
 }
 
-// Subset returns true iff u is a subset or equal of sup
-func (u *UnicodeSet) Subset(sup *UnicodeSet) bool {
-	for _, rng := range u.Ranges {
-		if !rng.Subset(sup) {
-			return false
+// Common returns the runes that are in both u and u1
+func (u *UnicodeSet) Common(u1 *UnicodeSet) []rune {
+	return u1.common(u.runes())
+}
+
+func (u *UnicodeSet) common(ranges []runeRange) (runes []rune) {
+	for _, rng := range minus(ranges, minus(ranges, u.runes())) {
+		for r := rng.lo; r <= rng.hi; r++ {
+			runes = append(runes, r)
 		}
 	}
-	return true
+	return
+}
+
+// runes returns the runes included and not excluded by u
+func (u *UnicodeSet) runes() []runeRange {
+	incl, excl := u.GetRangeTables()
+	return minus(runeRanges(incl...), runeRanges(excl...))
+}
+
+/*** Rune ranges ***/
+
+// runeRange is the runes from lo to hi
+type runeRange struct {
+	lo, hi rune
+}
+
+// runeRanges returns the runes of tables as ordered separate ranges
+func runeRanges(tables ...*unicode.RangeTable) (ranges []runeRange) {
+	all := []runeRange{}
+	add := func(lo, hi, stride rune) {
+		if stride == 1 {
+			all = append(all, runeRange{lo, hi})
+			return
+		}
+		for r := lo; r <= hi; r += stride {
+			all = append(all, runeRange{r, r})
+		}
+	}
+	for _, t := range tables {
+		for _, rng := range t.R16 {
+			add(rune(rng.Lo), rune(rng.Hi), rune(rng.Stride))
+		}
+		for _, rng := range t.R32 {
+			add(rune(rng.Lo), rune(rng.Hi), rune(rng.Stride))
+		}
+	}
+	sort.Slice(all, func(i, j int) bool { return all[i].lo < all[j].lo })
+	for _, rng := range all {
+		last := len(ranges) - 1
+		switch {
+		case last < 0 || rng.lo > ranges[last].hi+1:
+			ranges = append(ranges, rng)
+		case rng.hi > ranges[last].hi:
+			ranges[last].hi = rng.hi
+		}
+	}
+	return
+}
+
+// minus returns the runes of a that are not in b
+func minus(a, b []runeRange) (diff []runeRange) {
+	for _, rng := range a {
+		for len(b) > 0 && b[0].hi < rng.lo {
+			b = b[1:]
+		}
+		for i := 0; i < len(b) && b[i].lo <= rng.hi; i++ {
+			if rng.lo < b[i].lo {
+				diff = append(diff, runeRange{rng.lo, b[i].lo - 1})
+			}
+			rng.lo = b[i].hi + 1
+		}
+		if rng.lo <= rng.hi {
+			diff = append(diff, rng)
+		}
+	}
+	return
 }
 
 /*** Utils ***/
diff --git a/lex/items/event/event.go b/lex/items/event/event.go
index 1e34696..0bfbd2a 100644
--- a/lex/items/event/event.go
+++ b/lex/items/event/event.go
@@ -45,6 +45,10 @@ const (
 	True
 )
 
+// maxSplit is the maximal number of runes by which two Unicode sets may partially overlap.
+// split makes the runes separate events.
+const maxSplit = 32
+
 type eventPair struct {
 	a, b ast.LexBase
 }
@@ -149,7 +153,10 @@ func Subset(a, b ast.LexBase) TriState {
 			return toTriState(a1.Type == b1.Type ||
 				(b1.Type == ast.Letter && (a1.Type == ast.Lowcase || a1.Type == ast.Upcase)))
 		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsClass(a1))
+			if b1.ContainsClass(a1) {
+				return True
+			}
+			return falseIf(a1.ContainsSet(b1) || len(a1.Common(b1)) <= maxSplit)
 		default:
 			panic("Invalid")
 		}
@@ -166,9 +173,15 @@ func Subset(a, b ast.LexBase) TriState {
 			// split has made the runes of a1 that are excluded by b1 separate events
 			return True
 		case *ast.UnicodeClass:
-			return toTriState(b1.ContainsSet(a1))
+			if b1.ContainsSet(a1) {
+				return True
+			}
+			return falseIf(a1.ContainsClass(b1) || len(b1.Common(a1)) <= maxSplit)
 		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsSet(a1))
+			if b1.ContainsSet(a1) {
+				return True
+			}
+			return falseIf(a1.ContainsSet(b1) || len(a1.Common(b1)) <= maxSplit)
 		default:
 			panic("Invalid")
 		}
@@ -249,6 +262,14 @@ func addOverlap(runes *runeset.RuneSet, a, b ast.LexBase) {
 			// excluded by a1 but in b1
 			overlap = common(a1.Set, b)
 		}
+	case *ast.UnicodeClass:
+		if b1, ok := b.(*ast.UnicodeSet); ok && Subset(a, b) == False && Subset(b, a) == False {
+			overlap = a1.Common(b1)
+		}
+	case *ast.UnicodeSet:
+		if b1, ok := b.(*ast.UnicodeSet); ok && Subset(a, b) == False && Subset(b, a) == False {
+			overlap = a1.Common(b1)
+		}
 	}
 	for _, r := range overlap {
 		runes.Add(r)
@@ -316,6 +337,13 @@ func toTriState(b bool) TriState {
 	return False
 }
 
+func falseIf(b bool) TriState {
+	if b {
+		return False
+	}
+	return Undefined
+}
+
 func unicodeClassContains(c *ast.UnicodeClass, rs ...rune) bool {
 	for _, r := range rs {
 		ok := false
-- 
2.43.0


From 6d2d342fa7f70d842b7a86dc087e509ed938685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 19/25] fix: strip the escape \n to a line feed, and keep a
 last backslash

---
 gen/golang/token/token.go | 4 ++--
 token/token.go            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gen/golang/token/token.go b/gen/golang/token/token.go
index 473db7e..013c87e 100644
--- a/gen/golang/token/token.go
+++ b/gen/golang/token/token.go
@@ -148,7 +148,7 @@ func (t *Token) LiteralStripEscape() []rune {
 	lit := t.Literal()
 	strip := make([]rune, 0, len(lit))
 	for i := 0; i < len(lit); i++ {
-		if lit[i] == '\\' {
+		if lit[i] == '\\' && i+1 < len(lit) {
 			i++
 			switch lit[i] {
 			case 't':
@@ -156,7 +156,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
diff --git a/token/token.go b/token/token.go
index 2e8debe..6239bb0 100755
--- a/token/token.go
+++ b/token/token.go
@@ -69,7 +69,7 @@ func (t *Token) LiteralStripEscape() []rune {
 	lit := t.Literal()
 	strip := make([]rune, 0, len(lit))
 	for i := 0; i < len(lit); i++ {
-		if lit[i] == '\\' {
+		if lit[i] == '\\' && i+1 < len(lit) {
 			i++
 			switch lit[i] {
 			case 't':
@@ -77,7 +77,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
-- 
2.43.0


From ff8d7f9aa1707f86c68d9817681fc478eeca7d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 20/25] fix: report every ambiguous subtree of a forest, and
 end on cyclic ones

---
 gen/golang/gll/bsr/bsr.go | 17 ++++++++++++-----
 parser/bsr/bsr.go         | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index c895faa..029c010 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -555,16 +555,21 @@ func (s *Set) ReportAmbiguous() {
     if len(rts) != 1 {
         fmt.Printf("BSR has %d ambigous roots\n", len(rts))
     }
-    for i, b := range s.GetRoots() {
+    for i, b := range rts {
         fmt.Println("In root", i)
-        if !s.report(b) {
+        if !s.report(b, make(map[BSR]bool)) {
             fmt.Println("No ambiguous BSRs")
         }
     }
 }
 
-// report return true iff at least one ambigous BSR was found
-func (s *Set) report(b BSR) bool {
+// report return true iff at least one ambigous BSR was found in b or below it.
+// done has the BSRs that are reported already: a cyclic forest has no end.
+func (s *Set) report(b BSR, done map[BSR]bool) bool {
+    if done[b] {
+        return false
+    }
+    done[b] = true
     ambiguous := false
     for i, sym := range b.Label.Symbols() {
         ln, col := s.getLineColumn(b.LeftExtent())
@@ -579,7 +584,9 @@ func (s *Set) report(b BSR) bool {
                 }
             }
             for _, b1 := range b.GetNTChildrenI(i) {
-                s.report(b1)
+                if s.report(b1, done) {
+                    ambiguous = true
+                }
             }
         }
     }
diff --git a/parser/bsr/bsr.go b/parser/bsr/bsr.go
index 255ec14..61ccd77 100644
--- a/parser/bsr/bsr.go
+++ b/parser/bsr/bsr.go
@@ -517,16 +517,21 @@ func (s *Set) ReportAmbiguous() {
     if len(rts) != 1 {
         fmt.Printf("BSR has %d ambigous roots\n", len(rts))
     }
-    for i, b := range s.GetRoots() {
+    for i, b := range rts {
         fmt.Println("In root", i)
-        if !s.report(b) {
+        if !s.report(b, make(map[BSR]bool)) {
             fmt.Println("No ambiguous BSRs")
         }
     }
 }
 
-// report return true iff at least one ambigous BSR was found
-func (s *Set) report(b BSR) bool {
+// report return true iff at least one ambigous BSR was found in b or below it.
+// done has the BSRs that are reported already: a cyclic forest has no end.
+func (s *Set) report(b BSR, done map[BSR]bool) bool {
+    if done[b] {
+        return false
+    }
+    done[b] = true
     ambiguous := false
     for i, sym := range b.Label.Symbols() {
         ln, col := s.getLineColumn(b.LeftExtent())
@@ -541,7 +546,9 @@ func (s *Set) report(b BSR) bool {
                 }
             }
             for _, b1 := range b.GetNTChildrenI(i) {
-                s.report(b1)
+                if s.report(b1, done) {
+                    ambiguous = true
+                }
             }
         }
     }
-- 
2.43.0


From 47c80cf73a3205a63b82999e4185d879cc4aced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 21/25] fix: print % in lexical items as it is

---
 lex/item/item.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lex/item/item.go b/lex/item/item.go
index 47f8efc..e78ebec 100644
--- a/lex/item/item.go
+++ b/lex/item/item.go
@@ -225,7 +225,7 @@ func (i *Item) stringRegExp(regExp *ast.RegExp, pos *pos.Pos) string {
 		if i.Pos.Equal(pos) {
 			fmt.Fprintf(w, "•")
 		}
-		fmt.Fprintf(w, i.stringSymbol(symbol, pos))
+		fmt.Fprint(w, i.stringSymbol(symbol, pos))
 		pos.Inc()
 	}
 	if i.Pos.Equal(pos) {
@@ -238,14 +238,14 @@ func (i *Item) stringSymbol(symbol ast.LexSymbol, pos *pos.Pos) string {
 	// fmt.Printf("item.stringSymbol %s pos=%s\n", symbol, pos)
 	w := new(bytes.Buffer)
 	if brkt, ok := symbol.(*ast.LexBracket); ok {
-		fmt.Fprintf(w, brkt.LeftBracket())
+		fmt.Fprint(w, brkt.LeftBracket())
 		for j, alt := range brkt.Alternates {
 			if j > 0 {
 				fmt.Fprintf(w, "| ")
 			}
 			fmt.Fprint(w, i.stringRegExp(alt, pos.Clone().Push(j).Push(0)))
 		}
-		fmt.Fprintf(w, brkt.RightBracket())
+		fmt.Fprint(w, brkt.RightBracket())
 	} else {
 		fmt.Fprintf(w, "%s ", symbol)
 	}
-- 
2.43.0


From 0d1da9aaa66513d9c55cdbd932b910e01c8122f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 22/25] fix: do not repeat items in the first lexical item set

---
 lex/items/items.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lex/items/items.go b/lex/items/items.go
index c0fbcf5..9adb3bf 100644
--- a/lex/items/items.go
+++ b/lex/items/items.go
@@ -216,11 +216,11 @@ func (sets *Sets) Sets() []*Set {
 func set0(g *ast.GoGLL) *Set {
 	s0 := &Set{}
 	for _, rule := range g.LexRules {
-		s0.add(item.New(rule).Emoves()...)
+		s0.Add(item.New(rule).Emoves()...)
 	}
 	// The literals are added in sorted order to make the item sets reproducible
 	for _, sl := range sortedStringLiterals(g) {
-		s0.add(item.New(stringLitToRule(sl)))
+		s0.Add(item.New(stringLitToRule(sl)))
 	}
 	return s0
 }
@@ -233,13 +233,6 @@ func sortedStringLiterals(g *ast.GoGLL) (slits []*ast.StringLit) {
 	return
 }
 
-func (set *Set) add(items ...*item.Item) *Set {
-	for _, item := range items {
-		set.set = append(set.set, item)
-	}
-	return set
-}
-
 func (set *Set) cloneItems() []*item.Item {
 	items := make([]*item.Item, len(set.set))
 	for i, item := range set.set {
-- 
2.43.0


From ed8d1d8b7d92cde049f39dbf1e24a39f88c7ccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 23/25] =?UTF-8?q?fix:=20the=20literal=20=CF=B5=20is=20not?=
 =?UTF-8?q?=20the=20empty=20string?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 frstflw/frstflw.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frstflw/frstflw.go b/frstflw/frstflw.go
index d858475..55cae36 100644
--- a/frstflw/frstflw.go
+++ b/frstflw/frstflw.go
@@ -20,7 +20,9 @@ import (
 	"github.com/goccmack/goutil/stringslice"
 )
 
-const Empty = "ϵ"
+// Empty stands for the empty string in first sets. It contains a space because
+// a terminal may not contain one.
+const Empty = "ϵ "
 
 type FF struct {
 	// Key=symbol, Value is first set of symbol
-- 
2.43.0


From 03024148601aa066ec8d1d4563bd9eddf7fe8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 24/25] =?UTF-8?q?fix:=20the=20literal=20=E2=84=87=20is=20n?=
 =?UTF-8?q?ot=20the=20empty=20string=20of=20the=20LR(1)=20first=20sets?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lr1/first/first.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lr1/first/first.go b/lr1/first/first.go
index 9235402..46872d3 100644
--- a/lr1/first/first.go
+++ b/lr1/first/first.go
@@ -9,6 +9,10 @@ import (
 	"github.com/goccmack/gogll/v3/symbols"
 )
 
+// empty stands for the empty string in first sets. It contains a space because
+// a terminal may not contain one.
+const empty = "ℇ "
+
 type First struct {
 	// key: symbol
 	symbol map[string]FirstSet
@@ -66,12 +70,12 @@ func (this *First) firstTerms(alt *ast.SyntaxAlternate) (first FirstSet) {
 			first, _ = first.Add(term.ID())
 			return
 		case *ast.NT:
-			if f := this.symbol[term.ID()]; !f.Contain("ℇ") {
+			if f := this.symbol[term.ID()]; !f.Contain(empty) {
 				first, _ = first.Add(f...)
 				return
 			} else {
 				for _, sym := range f {
-					if sym != "ℇ" {
+					if sym != empty {
 						first, _ = first.Add(sym)
 					}
 				}
@@ -83,7 +87,7 @@ func (this *First) firstTerms(alt *ast.SyntaxAlternate) (first FirstSet) {
 			panic("Invalid")
 		}
 	}
-	first, _ = first.Add("ℇ")
+	first, _ = first.Add(empty)
 	return
 }
 
@@ -94,9 +98,9 @@ func (this *First) FirstString(s []string, context ...string) (fs FirstSet) {
 	}
 	frst := make(FirstSet, 0, 4)
 	deriveEmpty := true
-	for i := 0; deriveEmpty && i < len(s); deriveEmpty, i = frst.Contain("ℇ"), i+1 {
+	for i := 0; deriveEmpty && i < len(s); deriveEmpty, i = frst.Contain(empty), i+1 {
 		frst = this.FirstSymbol(s[i])
-		fs, _ = fs.Add(frst.Min("ℇ")...)
+		fs, _ = fs.Add(frst.Min(empty)...)
 	}
 	if deriveEmpty {
 		fs, _ = fs.Add(context...)
-- 
2.43.0


From 448646bd878dc9ae3170e38a11f8288060567302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 25/25] fix: the first set of the literal G0 is not that of the
 start production

---
 lr1/first/first.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lr1/first/first.go b/lr1/first/first.go
index 46872d3..3ceadc2 100644
--- a/lr1/first/first.go
+++ b/lr1/first/first.go
@@ -32,7 +32,9 @@ func New(prods []*basicprod.Production) *First {
 		tList:  symbols.GetTerminalSymbols(),
 	}
 	first.AddTerminals()
-	first.AddNonTerminals(prods)
+	// prods[0] is the start production, whose head is in no body but may have
+	// the name of a terminal
+	first.AddNonTerminals(prods[1:])
 	return first
 }
 
-- 
2.43.0

