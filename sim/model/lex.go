package model

import (
	"fmt"
	"math/bits"
	"strings"
	"sync"
	"unicode"
)

// Re is a lexical regular expression. Kind: 'c' character R, 'o' any of Set,
// 'n' none of Set, '.' anything, 'l','u','w','d' the classes letter, upcase,
// lowcase and number, 'p' the Unicode set of the categories in Set without those after
// a '-', '(' '[' '{' '<' brackets
// over Alts, 't' a reference to token Set.
type Re struct {
	Kind byte
	R    rune
	Set  string
	Alts [][]*Re
}

func escChar(r rune) string {
	switch r {
	case '\'':
		return `\'`
	case '\\':
		return `\\`
	case '\n':
		return `\n`
	case '\t':
		return `\t`
	case '\r':
		return `\r`
	}
	return string(r)
}

func escSet(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch r {
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\t':
			b.WriteString(`\t`)
		case '\r':
			b.WriteString(`\r`)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (e *Re) Text() string {
	switch e.Kind {
	case 'c':
		return "'" + escChar(e.R) + "'"
	case 'o':
		return `any "` + escSet(e.Set) + `"`
	case 'n':
		return `not "` + escSet(e.Set) + `"`
	case '.':
		return "."
	case 'l':
		return "letter"
	case 'u':
		return "upcase"
	case 'w':
		return "lowcase"
	case 'd':
		return "number"
	case 'p':
		var b strings.Builder
		for _, c := range strings.Fields(e.Set) {
			if c[0] == '-' {
				b.WriteString("-")
			}
			b.WriteString(`\p{` + strings.TrimPrefix(c, "-") + "}")
		}
		return "'[" + b.String() + "]'"
	case 't':
		return e.Set
	}
	closing := map[byte]string{'(': ")", '[': "]", '{': "}", '<': ">"}[e.Kind]
	var as []string
	for _, a := range e.Alts {
		as = append(as, SeqText(a))
	}
	return string(e.Kind) + " " + strings.Join(as, " | ") + " " + closing
}

func SeqText(a []*Re) string {
	var ss []string
	for _, e := range a {
		ss = append(ss, e.Text())
	}
	return strings.Join(ss, " ")
}

// Match tells whether the single-character expression e matches r.
func (e *Re) Match(r rune) bool {
	switch e.Kind {
	case 'c':
		return r == e.R
	case 'o':
		return strings.ContainsRune(e.Set, r)
	case 'n':
		return !strings.ContainsRune(e.Set, r)
	case '.':
		return true
	case 'l':
		return unicode.IsLetter(r)
	case 'u':
		return unicode.IsUpper(r)
	case 'w':
		return unicode.IsLower(r)
	case 'd':
		return unicode.IsNumber(r)
	case 'p':
		in := false
		for _, c := range strings.Fields(e.Set) {
			if is := unicode.Is(table(strings.TrimPrefix(c, "-")), r); c[0] == '-' {
				if is {
					return false
				}
			} else {
				in = in || is
			}
		}
		return in
	}
	return false
}

var longNames = map[string]*unicode.RangeTable{
	"Digit": unicode.Digit, "Letter": unicode.Letter, "Lower": unicode.Lower,
	"Mark": unicode.Mark, "Number": unicode.Number, "Other": unicode.Other,
	"Punct": unicode.Punct, "Space": unicode.Space, "Symbol": unicode.Symbol,
	"Title": unicode.Title, "Upper": unicode.Upper,
}

func table(name string) *unicode.RangeTable {
	if t := longNames[name]; t != nil {
		return t
	}
	if t := unicode.Categories[name]; t != nil {
		return t
	}
	return unicode.Properties[name]
}

// bitmap has the runes of the class or Unicode set e.
func (e *Re) bitmap() []uint64 {
	bitmapMu.Lock()
	defer bitmapMu.Unlock()
	b := bitmaps[e.Text()]
	if b == nil {
		b = make([]uint64, unicode.MaxRune/64+1)
		each := func(t *unicode.RangeTable, f func(r rune)) {
			for _, x := range t.R16 {
				for r := rune(x.Lo); r <= rune(x.Hi); r += rune(x.Stride) {
					f(r)
				}
			}
			for _, x := range t.R32 {
				for r := rune(x.Lo); r <= rune(x.Hi); r += rune(x.Stride) {
					f(r)
				}
			}
		}
		set := func(r rune) { b[r/64] |= 1 << (r % 64) }
		switch e.Kind {
		case 'l':
			each(unicode.Letter, set)
		case 'u':
			each(unicode.Upper, set)
		case 'w':
			each(unicode.Lower, set)
		case 'd':
			each(unicode.Number, set)
		case 'p':
			cs := strings.Fields(e.Set)
			for _, c := range cs {
				if c[0] != '-' {
					each(table(c), set)
				}
			}
			for _, c := range cs {
				if c[0] == '-' {
					each(table(c[1:]), func(r rune) { b[r/64] &^= 1 << (r % 64) })
				}
			}
		default:
			panic("bitmap of " + e.Text())
		}
		bitmaps[e.Text()] = b
	}
	return b
}

// edgeRunes are the characters at which e begins and ends to match, and those
// next to them.
func (e *Re) edgeRunes() []rune {
	b := e.bitmap()
	bitmapMu.Lock()
	defer bitmapMu.Unlock()
	es, ok := edges[e.Text()]
	if !ok {
		in := func(r rune) bool { return b[r/64]>>(r%64)&1 == 1 }
		for r := rune(1); r <= unicode.MaxRune; r++ {
			if in(r) != in(r-1) {
				for _, c := range []rune{r - 1, r} {
					if c > 0 && (c < 0xd800 || c > 0xdfff) && (len(es) == 0 || es[len(es)-1] < c) {
						es = append(es, c)
					}
				}
			}
		}
		edges[e.Text()] = es
	}
	return es
}

var (
	edges    = map[string][]rune{}
	bitmapMu sync.Mutex
	bitmaps  = map[string][]uint64{}
)

// LexRule is a lexical rule or string literal of a LexGram.
type LexRule struct {
	Name     string
	Suppress bool
	Literal  bool // a string literal; its text is in Name
	Seq      []*Re
}

// LexGram is a lexical grammar with the string literals of its syntax rules.
type LexGram struct {
	Rules []LexRule
	nfa   []nstate
	start [][]int // per rule
	fin   []int
	rep   int    // what the next repetition of a sample gets
	edges []rune // the first and last characters of the ranges of its classes and Unicode sets
}

type nstate struct {
	eps  []int
	leaf *Re
	to   int
	rule int
}

func (l *LexGram) find(name string) *LexRule {
	for i := range l.Rules {
		if l.Rules[i].Name == name && !l.Rules[i].Literal {
			return &l.Rules[i]
		}
	}
	return nil
}

// Build constructs the automaton: an NFA simulated state set by state set.
func (l *LexGram) Build() {
	l.build()
	l.edges = nil
	seen := map[string]bool{}
	for _, n := range l.nfa {
		if n.leaf != nil && isClass(n.leaf.Kind) && !seen[n.leaf.Text()] {
			seen[n.leaf.Text()] = true
			l.edges = append(l.edges, n.leaf.edgeRunes()...)
		}
	}
}

func (l *LexGram) build() {
	l.nfa, l.start, l.fin = nil, nil, nil
	cur := 0
	add := func(s nstate) int { s.rule = cur; l.nfa = append(l.nfa, s); return len(l.nfa) - 1 }
	var seq func(es []*Re, to int) int
	var one func(e *Re, to int) int
	seq = func(es []*Re, to int) int {
		for i := len(es) - 1; i >= 0; i-- {
			to = one(es[i], to)
		}
		return to
	}
	one = func(e *Re, to int) int {
		switch e.Kind {
		case 't':
			return seq(l.find(e.Set).Seq, to)
		case '(', '[':
			s := add(nstate{to: -1})
			for _, a := range e.Alts {
				f := seq(a, to)
				l.nfa[s].eps = append(l.nfa[s].eps, f)
			}
			if e.Kind == '[' {
				l.nfa[s].eps = append(l.nfa[s].eps, to)
			}
			return s
		case '{', '<':
			s := add(nstate{to: -1})
			back := add(nstate{to: -1})
			l.nfa[back].eps = []int{s, to}
			for _, a := range e.Alts {
				f := seq(a, back)
				l.nfa[s].eps = append(l.nfa[s].eps, f)
			}
			if e.Kind == '{' {
				l.nfa[s].eps = append(l.nfa[s].eps, to)
			}
			return s
		}
		return add(nstate{leaf: e, to: to})
	}
	for i, r := range l.Rules {
		cur = i
		f := add(nstate{to: -1})
		l.fin = append(l.fin, f)
		es := r.Seq
		if r.Literal {
			es = nil
			for _, c := range r.Name {
				es = append(es, &Re{Kind: 'c', R: c})
			}
			l.Rules[i].Seq = es
		}
		l.start = append(l.start, []int{seq(es, f)})
	}
}

type stateSet map[int]bool

func (l *LexGram) closure(ss []int) stateSet {
	set := stateSet{}
	var push func(s int)
	push = func(s int) {
		if set[s] {
			return
		}
		set[s] = true
		for _, t := range l.nfa[s].eps {
			push(t)
		}
	}
	for _, s := range ss {
		push(s)
	}
	return set
}

func (l *LexGram) initial() stateSet {
	var ss []int
	for _, s := range l.start {
		ss = append(ss, s...)
	}
	return l.closure(ss)
}

func (l *LexGram) step(set stateSet, r rune) stateSet {
	var ss []int
	for s := range set {
		if n := &l.nfa[s]; n.leaf != nil && n.leaf.Match(r) {
			ss = append(ss, n.to)
		}
	}
	return l.closure(ss)
}

func (l *LexGram) accepting(set stateSet) (rules []int) {
	for i, f := range l.fin {
		if set[f] {
			rules = append(rules, i)
		}
	}
	return
}

// LexState is a state of the reference lexer.
type LexState struct {
	l   *LexGram
	set stateSet
}

func (l *LexGram) Start() LexState { return LexState{l, l.initial()} }

func (s LexState) Step(r rune) LexState { return LexState{s.l, s.l.step(s.set, r)} }

func (s LexState) Dead() bool { return len(s.set) == 0 }

// Items are the rules with a dot where they can be read on, or at their end.
func (s LexState) Items() map[string]bool {
	m := map[string]bool{}
	for i := range s.set {
		n := &s.l.nfa[i]
		if end := i == s.l.fin[n.rule]; end || n.leaf != nil {
			m[s.l.Rules[n.rule].Name+" : "+dotText(s.l.Rules[n.rule].Seq, n.leaf, end)] = true
		}
	}
	return m
}

func dotText(es []*Re, dot *Re, end bool) string {
	var ss []string
	for _, e := range es {
		if e == dot {
			ss = append(ss, "•")
		}
		if e.Alts == nil {
			ss = append(ss, e.Text())
			continue
		}
		ss = append(ss, string(e.Kind))
		for i, a := range e.Alts {
			if i > 0 {
				ss = append(ss, "|")
			}
			ss = append(ss, dotText(a, dot, false))
		}
		ss = append(ss, map[byte]string{'(': ")", '[': "]", '{': "}", '<': ">"}[e.Kind])
	}
	if end {
		ss = append(ss, "•")
	}
	return strings.Join(ss, " ")
}

func (s LexState) Accepts() map[string]bool {
	m := map[string]bool{}
	for _, i := range s.l.accepting(s.set) {
		m[s.l.Rules[i].Name] = true
	}
	return m
}

func (s LexState) Key() string {
	b := make([]byte, len(s.l.nfa))
	for i := range s.set {
		b[i] = 1
	}
	return string(b)
}

// Probe characters: the alphabet on which overlaps of character sets are decided.
var Probe = func() []rune {
	var rs []rune
	for r := rune(1); r < 128; r++ {
		rs = append(rs, r)
	}
	return append(rs, 'é', 'É', 'λ', 'Σ', '中', '٣', 'ⅷ', '½', '😀', 'ǅ', 'ʰ', '\u00a0', '_', '\u2028', 'ª',
		'℮', '·', '‿', '–', '\u0301', '\u0903', '𝔸', '𝟘', 'Ａ', 'ａ', '⁺', '€', '\u200c', '𝒶', '\u1885', '\u1886', '\u309b', '℘', '·', '፩')
}()

func isClass(k byte) bool { return k == 'l' || k == 'u' || k == 'w' || k == 'd' || k == 'p' }

// relation of two character sets over Probe: 'd' disjoint, 'n' nested, 'p' partial overlap,
// 's' partial overlap of Unicode sets by a few characters
func relation(a, b *Re) byte {
	var both, onlyA, onlyB bool
	common := 99
	if isClass(a.Kind) && isClass(b.Kind) {
		x, y := a.bitmap(), b.bitmap()
		common = 0
		for i := range x {
			common += bits.OnesCount64(x[i] & y[i])
			both = both || x[i]&y[i] != 0
			onlyA = onlyA || x[i]&^y[i] != 0
			onlyB = onlyB || y[i]&^x[i] != 0
		}
	}
	for _, r := range Probe {
		x, y := a.Match(r), b.Match(r)
		both = both || x && y
		onlyA = onlyA || x && !y
		onlyB = onlyB || y && !x
	}
	switch {
	case !both:
		return 'd'
	case !onlyA || !onlyB:
		return 'n'
	}
	if common <= 8 {
		return 's'
	}
	return 'p'
}

// Plain tells whether no token matches the empty string, no two string literals
// are the same, no Unicode set competes with one that it partially overlaps by many characters, and the number of
// states is moderate. With nested, the character sets that compete must also be
// disjoint or nested.
func (l *LexGram) Plain(nested bool) bool {
	rel := map[[2]*Re]byte{}
	key := func(s stateSet) string {
		b := make([]byte, len(l.nfa))
		for i := range s {
			b[i] = 1
		}
		return string(b)
	}
	s0 := l.initial()
	for _, f := range l.fin {
		if s0[f] {
			return false // a token that matches the empty string
		}
	}
	seen := map[string]bool{key(s0): true}
	todo := []stateSet{s0}
	for len(todo) > 0 {
		s := todo[0]
		todo = todo[1:]
		var leaves []*Re
		for i := range s {
			if l.nfa[i].leaf != nil {
				leaves = append(leaves, l.nfa[i].leaf)
			}
		}
		for i, a := range leaves {
			for _, b := range leaves[:i] {
				k := [2]*Re{a, b}
				if rel[k] == 0 {
					rel[k] = relation(a, b)
				}
				r := rel[k]
				if nested && (r == 'p' || r == 's') {
					return false
				}
				if nested && r != 'd' && (isClass(a.Kind) && b.Kind == 'n' || isClass(b.Kind) && a.Kind == 'n') {
					return false
				}
				if r == 'p' && isClass(a.Kind) && isClass(b.Kind) {
					return false // gogll may reject these
				}
			}
		}
		lits := 0
		for _, r := range l.accepting(s) {
			if l.Rules[r].Literal {
				lits++
			}
		}
		if lits > 1 {
			return false
		}
		for _, r := range Probe {
			t := l.step(s, r)
			if len(t) == 0 {
				continue
			}
			if k := key(t); !seen[k] {
				seen[k] = true
				todo = append(todo, t)
				if len(seen) > 60 {
					return false
				}
			}
		}
	}
	return true
}

// small tells whether the automaton has at most limit states.
func (l *LexGram) small(limit int) bool {
	s0 := l.Start()
	seen := map[string]bool{s0.Key(): true}
	todo := []LexState{s0}
	for len(todo) > 0 {
		s := todo[0]
		todo = todo[1:]
		for _, r := range Probe {
			t := s.Step(r)
			if k := t.Key(); !t.Dead() && !seen[k] {
				if len(seen) >= limit {
					return false
				}
				seen[k] = true
				todo = append(todo, t)
			}
		}
	}
	return true
}

// Tok is a token of the reference lexer.
type Tok struct {
	Rules      []int // the rules it may be of (string literals first); none: Error
	Lext, Rext int
	Dead       int // for errors: where the automaton stopped
}

// Scan reads the longest prefix at i that some rule could still be reading; it is
// a token if it matches as a whole.
func (l *LexGram) Scan(in []rune, i int) Tok {
	set := l.initial()
	j := i
	for j < len(in) {
		t := l.step(set, in[j])
		if len(t) == 0 {
			break
		}
		set = t
		j++
	}
	tk := Tok{Lext: i, Rext: j, Dead: j}
	if j > i {
		tk.Rules = l.accepting(set)
		for _, r := range tk.Rules {
			if l.Rules[r].Literal {
				tk.Rules = []int{r}
				break
			}
		}
	}
	return tk
}

// ---------------------------------------------------------------- generation

var reChars = []rune("abcxyzAB019_-+/*.#%$&|~^!?;:,(){}[]<>=@")
var reSets = []string{"ab", "abc", "xyz", "01", "0123456789", "+-", "_", "aeiou", "\"\\nrt", "/*", "#%", "()", "AB", " \t", "\r\n", "\t\n\r\\\""}

func randLeaf(r *Rng) *Re {
	switch k := r.N(100); {
	case k < 40:
		return &Re{Kind: 'c', R: reChars[r.N(len(reChars))]}
	case k < 44:
		return &Re{Kind: 'c', R: []rune{'\'', '\\', '"', 'é', '中', '`', '\n', '\r', '\t', ' '}[r.N(10)]}
	case k < 58:
		return &Re{Kind: 'o', Set: reSets[r.N(len(reSets))]}
	case k < 66:
		return &Re{Kind: 'n', Set: []string{"\n", "\"", "\"\\", "'", "*", "/", "#", ")", "\r\n", " \t\\"}[r.N(10)]}
	case k < 68:
		return &Re{Kind: '.'}
	case k < 78:
		return &Re{Kind: 'l'}
	case k < 83:
		return &Re{Kind: 'u'}
	case k < 88:
		return &Re{Kind: 'w'}
	case k < 95:
		return &Re{Kind: 'd'}
	}
	return randUni(r)
}

func randUni(r *Rng) *Re {
	if r.P(50) {
		return &Re{Kind: 'p', Set: moreSets[r.N(len(moreSets))]}
	}
	return &Re{Kind: 'p', Set: uniSets[r.N(len(uniSets))]}
}

// moreSets are unions and differences of any categories and properties, and for
// each one that has a little more or less.
var moreSets = func() (sets []string) {
	all := strings.Fields("Cc Cf Co Digit Nd Letter L Lm Lo Lower Ll Mark M Mc Me Mn Nl No Number N Pc Pd Pe Pf Pi Po Ps Punct P" +
		" Sc Sk Sm So Space Z Symbol S Title Lt Upper Lu Zl Zp Zs ASCII_Hex_Digit Bidi_Control Dash Deprecated Diacritic Extender Hex_Digit" +
		" Hyphen IDS_Binary_Operator IDS_Trinary_Operator Ideographic Join_Control Logical_Order_Exception Noncharacter_Code_Point" +
		" Other_Alphabetic Other_Default_Ignorable_Code_Point Other_Grapheme_Extend Other_ID_Continue Other_ID_Start Other_Lowercase" +
		" Other_Math Other_Uppercase Pattern_Syntax Pattern_White_Space Prepended_Concatenation_Mark Quotation_Mark Radical" +
		" Regional_Indicator Sentence_Terminal Soft_Dotted Terminal_Punctuation Unified_Ideograph Variation_Selector White_Space")
	r := NewRng(17, 0)
	for i := 0; i < 80; i++ {
		var set []string
		for n := 1 + r.N(4); n > 0; n-- {
			c := all[r.N(len(all))]
			if len(set) > 0 && r.P(35) {
				c = "-" + c
			}
			dup := false
			for _, d := range set {
				dup = dup || strings.TrimPrefix(d, "-") == strings.TrimPrefix(c, "-")
			}
			if !dup {
				set = append(set, c)
			}
		}
		sets = append(sets, strings.Join(set, " "))
		more := all[r.N(len(all))]
		for _, d := range set {
			if strings.TrimPrefix(d, "-") == more {
				more = ""
			}
		}
		if more != "" {
			sets = append(sets, strings.Join(append(set, []string{"", "-"}[r.N(2)]+more), " "))
		}
		if len(set) > 1 {
			sets = append(sets, strings.Join(set[:len(set)-1], " "))
		}
	}
	return
}()

var uniSets = []string{"L", "Lu", "Nd", "P", "Sm", "Hex_Digit", "Letter", "Upper", "Ll", "N", "Number",
	"L Nl Other_ID_Start -Pattern_Syntax -Pattern_White_Space",
	"L Nl Other_ID_Start Mn Mc Nd Pc Other_ID_Continue -Pattern_Syntax -Pattern_White_Space",
	"L -Lu", "L -Letter", "N -Nd", "N -Digit", "P -Dash", "Punct S", "S -Sm -Sc", "Ll -ASCII_Hex_Digit", "Lu Lt", "L N", "Nl No",
	idContinue, "Other_ID_Start Nl", "Other_ID_Start Mn", "Other_ID_Continue Nl",
	"Mn Mc", "Hex_Digit -ASCII_Hex_Digit", "P -Pc -Pd", "Sc", "Title", "L M Nd", "White_Space"}

const idContinue = "Mn Mc Nd Pc Other_ID_Continue -Pattern_Syntax -Pattern_White_Space"

func randSeq(r *Rng, depth, max int, refs []string) []*Re {
	n := 1 + r.N(max)
	var es []*Re
	for i := 0; i < n; i++ {
		switch {
		case depth > 0 && r.P(35):
			k := []byte{'(', '[', '{', '<'}[r.N(4)]
			e := &Re{Kind: k}
			na := 1 + r.N(3)
			for j := 0; j < na; j++ {
				e.Alts = append(e.Alts, randSeq(r, depth-1, 2, refs))
			}
			es = append(es, e)
		case len(refs) > 0 && r.P(6):
			es = append(es, &Re{Kind: 't', Set: refs[r.N(len(refs))]})
		default:
			es = append(es, randLeaf(r))
		}
	}
	return es
}

var lexNames = []string{"num", "ident", "tok1", "tok2", "str", "op", "zed", "a_b", "key"}
var lexShapes = []func() []*Re{
	func() []*Re { // identifiers
		return []*Re{{Kind: 'l'}, {Kind: '{', Alts: [][]*Re{{{Kind: 'l'}}, {{Kind: 'd'}}, {{Kind: 'c', R: '_'}}}}}
	},
	func() []*Re { // numbers
		return []*Re{{Kind: '<', Alts: [][]*Re{{{Kind: 'd'}}}}, {Kind: '[', Alts: [][]*Re{{{Kind: 'c', R: '.'}, {Kind: '<', Alts: [][]*Re{{{Kind: 'd'}}}}}}}}
	},
	func() []*Re { // strings
		return []*Re{{Kind: 'c', R: '"'}, {Kind: '{', Alts: [][]*Re{{{Kind: 'n', Set: "\"\\"}}, {{Kind: 'c', R: '\\'}, {Kind: 'o', Set: "\"\\nrt"}}}}, {Kind: 'c', R: '"'}}
	},
	func() []*Re { // Unicode identifiers
		return []*Re{{Kind: 'p', Set: uniSets[11]}, {Kind: '{', Alts: [][]*Re{{{Kind: 'p', Set: uniSets[12]}}}}}
	},
	func() []*Re { // Unicode identifiers of sets that overlap in two characters
		return []*Re{{Kind: 'p', Set: uniSets[11]}, {Kind: '{', Alts: [][]*Re{{{Kind: 'p', Set: uniSets[11]}}, {{Kind: 'p', Set: idContinue}}}}}
	},
	func() []*Re { // two kinds of identifiers
		return []*Re{{Kind: '<', Alts: [][]*Re{{{Kind: 'p', Set: uniSets[11]}, {Kind: 'c', R: '.'}}, {{Kind: 'p', Set: idContinue}, {Kind: 'c', R: ':'}}}}}
	},
	nil, // two competing Unicode sets
	func() []*Re { // line comment
		return []*Re{{Kind: 'c', R: '/'}, {Kind: 'c', R: '/'}, {Kind: '{', Alts: [][]*Re{{{Kind: 'n', Set: "\n"}}}}}
	},
	func() []*Re { // block comment
		return []*Re{{Kind: 'c', R: '/'}, {Kind: 'c', R: '*'}, {Kind: '{', Alts: [][]*Re{{{Kind: 'n', Set: "*"}}, {{Kind: 'c', R: '*'}, {Kind: 'n', Set: "/"}}}}, {Kind: 'c', R: '*'}, {Kind: 'c', R: '/'}}
	},
}

func twoSets(r *Rng) []*Re {
	i := r.N(len(moreSets))
	j := i + 1
	if j == len(moreSets) || r.P(20) {
		j = r.N(len(moreSets))
	}
	a, b := &Re{Kind: 'p', Set: moreSets[i]}, &Re{Kind: 'p', Set: moreSets[j]}
	if r.P(50) {
		a, b = b, a
	}
	switch r.N(8) {
	case 0:
		b = &Re{Kind: []byte("luwd")[r.N(4)]}
	case 1:
		b = randUni(r)
	}
	k := []byte{'(', '<'}[r.N(2)]
	return []*Re{{Kind: k, Alts: [][]*Re{{a, {Kind: 'c', R: '.'}}, {b, {Kind: 'c', R: ':'}}}}}
}

// RandLex draws a lexical grammar; with plain, one that is Plain.
func RandLex(r *Rng, plain bool) *LexGram {
	for try := 0; ; try++ {
		l := &LexGram{}
		n := 1 + r.N(4)
		names := append([]string{}, lexNames...)
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		var refs []string
		for i := 0; i < n; i++ {
			var seq []*Re
			if r.P(35) {
				if shape := lexShapes[r.N(len(lexShapes))]; shape != nil {
					seq = shape()
				} else {
					seq = twoSets(r)
				}
			} else {
				seq = randSeq(r, 2, 3, refs)
			}
			l.Rules = append(l.Rules, LexRule{Name: names[i], Suppress: r.P(15), Seq: seq})
			refs = append(refs, names[i])
		}
		m := r.N(5)
		lits := []string{"if", "a", "ab", "abc", "+", "++", "-", "=", "==", "<", "/", "\\", "\"", "'", "é", "x1", "()", "%d", "0", "else", "elif", "→"}
		r.Shuffle(len(lits), func(i, j int) { lits[i], lits[j] = lits[j], lits[i] })
		for i := 0; i < m; i++ {
			l.Rules = append(l.Rules, LexRule{Name: lits[i], Literal: true})
		}
		if r.P(8) { // a language's keywords and operators
			words := append([]string{}, keywords...)
			r.Shuffle(len(words), func(i, j int) { words[i], words[j] = words[j], words[i] })
			for _, w := range words[:8+r.N(len(words)-8)] {
				dup := false
				for _, ru := range l.Rules {
					dup = dup || ru.Literal && ru.Name == w
				}
				if !dup {
					l.Rules = append(l.Rules, LexRule{Name: w, Literal: true})
				}
			}
		}
		l.Build()
		if plain && !l.Plain(r.P(40)) {
			continue
		}
		if !plain {
			if !l.small(60) { // gogll takes its time for these
				continue
			}
			bad := false
			s0 := l.initial()
			for _, f := range l.fin {
				bad = bad || s0[f]
			}
			if bad && !r.P(3) {
				continue
			}
		}
		return l
	}
}

var keywords = strings.Fields("for func fn foreach fold while when where with what which case class const continue " +
	"return range register default defer do done double break byte begin begins beginning switch select struct string static " +
	"package pack type typeof types import in int interface is it iter xor x10 x11 += -= *= << >> <<= >>= &^ && || ... .. -> => ≤ ≥ über ünder")

// Text is the gogll grammar: the rules and one syntax rule that uses every
// unsuppressed token.
func (l *LexGram) Text() string {
	var b strings.Builder
	b.WriteString("package \"x\"\n")
	alts := []string{}
	for _, r := range l.Rules {
		if r.Literal {
			alts = append(alts, QuoteLit(r.Name))
			continue
		}
		if r.Suppress {
			b.WriteString("!")
		} else {
			alts = append(alts, r.Name)
		}
		fmt.Fprintf(&b, "%s : %s ;\n", r.Name, SeqText(r.Seq))
	}
	if len(alts) > 0 {
		fmt.Fprintf(&b, "S : %s ;\n", strings.Join(alts, " | "))
	}
	return b.String()
}

// Sentence draws an input: matches of the rules, fragments, and noise.
func (l *LexGram) Sentence(r *Rng) string {
	var b strings.Builder
	n := 1 + r.N(8)
	for i := 0; i < n; i++ {
		if r.P(70) {
			ru := &l.Rules[r.N(len(l.Rules))]
			s := ru.Name
			if !ru.Literal {
				s = l.sample(r, ru.Seq)
			}
			if r.P(20) && len(s) > 1 {
				rs := []rune(s)
				s = string(rs[:1+r.N(len(rs))])
			}
			b.WriteString(s)
		} else {
			if len(l.edges) > 0 && r.P(30) {
				b.WriteRune(l.edges[r.N(len(l.edges))])
			} else {
				b.WriteRune(Probe[r.N(len(Probe))])
			}
		}
		if r.P(60) {
			b.WriteString([]string{" ", "\n", "\t", "  ", "\r\n", "\u00a0", "\u2028"}[r.N(7)])
		}
	}
	return b.String()
}

// LongSentence is a Sentence in which some repetition has rep turns, if there is one.
func (l *LexGram) LongSentence(r *Rng, rep int) string {
	l.rep = rep
	s := l.Sentence(r)
	l.rep = 0
	return s
}

func (l *LexGram) sample(r *Rng, es []*Re) string {
	s := ""
	for _, e := range es {
		switch e.Kind {
		case 't':
			s += l.sample(r, l.find(e.Set).Seq)
		case '(', '[', '{', '<':
			k := 1
			switch e.Kind {
			case '[':
				k = r.N(2)
			case '{':
				k = r.N(4)
			case '<':
				k = 1 + r.N(3)
			}
			if l.rep > 0 && (e.Kind == '{' || e.Kind == '<') && r.P(60) {
				k, l.rep = l.rep, 0
			}
			var b strings.Builder
			for ; k > 0; k-- {
				b.WriteString(l.sample(r, e.Alts[r.N(len(e.Alts))]))
			}
			s += b.String()
		default:
			for t := 0; t < 400; t++ {
				c := Probe[r.N(len(Probe))]
				if e.Kind == 'p' && r.P(15) { // in several sets
					c = []rune("\u1885\u1886·፩℘")[r.N(5)]
				}
				if isClass(e.Kind) && len(l.edges) > 0 && r.P(30) { // at the border of some set
					c = l.edges[r.N(len(l.edges))]
				}
				if e.Kind == 'c' {
					c = e.R
				}
				if e.Match(c) {
					s += string(c)
					break
				}
			}
		}
	}
	return s
}

// Edges are the characters at the borders of the classes and Unicode sets.
func (l *LexGram) Edges() []rune { return l.edges }
