// Package model holds the workload generators and the reference models. It is compiled
// into the driver and, as source, into the programs that run generated parsers.
package model

import (
	"fmt"
	"sort"
	"strings"
)

// A grammar as the simulator's workload generator knows it.

// Sym is a symbol of a syntax rule: K is 'N' (nonterminal), 'S' (string literal,
// Name is its text) or 'T' (token identifier).
type Sym struct {
	K    byte
	Name string
}

type Rule struct {
	Head    string
	Alts    [][]Sym
	Trailer string // another line after the rule
}

// Lex is a lexical rule: its text, and sample lexemes that are tokens of this
// rule in every grammar the generator builds.
type Lex struct {
	Name     string
	Suppress bool
	Body     string
	Samples  []string
}

type Gram struct {
	Pkg   string
	Lexs  []Lex
	Rules []Rule
	Tag   string // the family it was drawn from

	// for LR(1) parsers: the canonical tables; conflicts were resolved
	Canonical, Resolved bool
}

func (g *Gram) Clone() *Gram {
	h := &Gram{Pkg: g.Pkg, Tag: g.Tag, Canonical: g.Canonical, Resolved: g.Resolved, Lexs: append([]Lex{}, g.Lexs...)}
	for _, r := range g.Rules {
		n := Rule{Head: r.Head, Trailer: r.Trailer}
		for _, a := range r.Alts {
			n.Alts = append(n.Alts, append([]Sym{}, a...))
		}
		h.Rules = append(h.Rules, n)
	}
	return h
}

func QuoteLit(s string) string {
	s = strings.ReplaceAll(s, `\`, `\\`)
	s = strings.ReplaceAll(s, `"`, `\"`)
	return `"` + s + `"`
}

func (s Sym) Text() string {
	if s.K == 'S' {
		return QuoteLit(s.Name)
	}
	return s.Name
}

func AltText(a []Sym) string {
	if len(a) == 0 {
		return "empty"
	}
	var ss []string
	for _, s := range a {
		ss = append(ss, s.Text())
	}
	return strings.Join(ss, " ")
}

func (r Rule) Text() string {
	var as []string
	for _, a := range r.Alts {
		as = append(as, AltText(a))
	}
	return r.Head + " : " + strings.Join(as, " | ") + " ;"
}

func (l Lex) Text() string {
	s := l.Name + " : " + l.Body + " ;"
	if l.Suppress {
		s = "!" + s
	}
	return s
}

func (g *Gram) Lines() []string {
	ls := []string{fmt.Sprintf("package %q", g.Pkg)}
	for _, l := range g.Lexs {
		ls = append(ls, l.Text())
	}
	for _, r := range g.Rules {
		ls = append(ls, r.Text())
		if r.Trailer != "" {
			ls = append(ls, r.Trailer)
		}
	}
	return ls
}

// text renders the grammar; layout 0 is plain bnf, 1 and 2 are markdown.
func (g *Gram) Text(layout int) string {
	ls := g.Lines()
	switch layout {
	case 1:
		return "# Grammar\n\nText before, with `code`.\n\n```\n" + strings.Join(ls, "\n") + "\n```\n\nText after.\n"
	case 2:
		var b strings.Builder
		for i, l := range ls {
			fmt.Fprintf(&b, "Paragraph %d; it says nothing : at all.\n\n```\n%s\n```\n", i, l)
		}
		return b.String()
	}
	return strings.Join(ls, "\n") + "\n"
}

// terminals lists the terminals used in syntax rules, sorted.
func (g *Gram) Terminals() []Sym {
	seen := map[Sym]bool{}
	var ts []Sym
	for _, r := range g.Rules {
		for _, a := range r.Alts {
			for _, s := range a {
				if s.K != 'N' && !seen[s] {
					seen[s] = true
					ts = append(ts, s)
				}
			}
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].Text() < ts[j].Text() })
	return ts
}

func (g *Gram) FindRule(h string) *Rule {
	for i := range g.Rules {
		if g.Rules[i].Head == h {
			return &g.Rules[i]
		}
	}
	return nil
}

// parseGram reads the compact notation used below: rules separated by newlines
// or ';', upper-case words are nonterminals, lower-case words of lexNames are
// tokens, 'x' is a literal, @ is empty.
func ParseGram(tag, src string, lexs ...Lex) *Gram {
	g := &Gram{Pkg: "x", Tag: tag, Lexs: lexs}
	isLex := map[string]bool{}
	for _, l := range lexs {
		isLex[l.Name] = true
	}
	for _, line := range strings.FieldsFunc(src, func(r rune) bool { return r == '\n' || r == ';' }) {
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		i := strings.Index(line, ":")
		r := Rule{Head: strings.TrimSpace(line[:i])}
		for _, a := range strings.Split(line[i+1:], "|") {
			var alt []Sym
			for _, w := range strings.Fields(a) {
				switch {
				case w == "@":
				case isLex[w]:
					alt = append(alt, Sym{'T', w})
				case w[0] >= 'A' && w[0] <= 'Z':
					alt = append(alt, Sym{'N', w})
				default:
					alt = append(alt, Sym{'S', strings.Trim(w, "'")})
				}
			}
			r.Alts = append(r.Alts, alt)
		}
		g.Rules = append(g.Rules, r)
	}
	return g
}

var LexNum = Lex{"num", false, "number {number}", []string{"7", "42", "007"}}
var LexID = Lex{"ident", false, "letter {letter | number | '_'}", []string{"zq", "Zeta", "q1", "q_2"}}
var LexStr = Lex{"strlit", false, `'"' {not "\"\\"} '"'`, []string{`"s"`, `""`, `"a b"`}}
var LexCom = Lex{"comment", true, `'/' '/' {not "\n"}`, nil}

// library: grammars whose shape is known to matter for GLL.
func LibraryGLL() []*Gram {
	return []*Gram{
		ParseGram("gamma1", "S : a A B | a A b; A : a | c | @; B : b | B c | @"),
		ParseGram("ss", "S : S S | a | @"),
		ParseGram("row", "S : A B A B A B A; A : a | @; B : a | b | @"),
		ParseGram("ss2", "S : S S S | S S | b"),
		ParseGram("expr", "E : E + E | E * E | ( E ) | num", LexNum),
		ParseGram("exprlr", "S : E; E : T | E + T; T : F | T * F; F : num | ( E )", LexNum),
		ParseGram("exprrr", "S : E; E : T | T + E; T : num | ( E )", LexNum),
		ParseGram("cycle", "S : A; A : B | a; B : A | b"),
		ParseGram("cycle2", "S : S | a S | a"),
		ParseGram("hidden", "S : N S a | b; N : @ | c"),
		ParseGram("palin", "S : a S a | b S b | a | b | @"),
		ParseGram("dangling", "S : if E then S | if E then S else S | ident; E : ident", LexID),
		ParseGram("pivot", "S : X Y d e; X : x | x x; Y : x | x x"),
		ParseGram("anbn", "S : a S b | c"),
		ParseGram("nulls", "S : A B C; A : a | @; B : b | @; C : c | @"),
		ParseGram("nulls2", "S : A A A a; A : a | @"),
		ParseGram("list", "L : I | L , I; I : ident | [ L ] | [ ]", LexID),
		ParseGram("rlist", "L : I | I , L; I : num | [ L ] | [ ]", LexNum),
		ParseGram("onlyempty", "S : A B; A : @; B : @ | b"),
		ParseGram("long", "S : a b c d e | a b c d A; A : e | e S"),
		ParseGram("manyalts", "S : A S | A; A : a | b | c | d | e | f | g | h | i | j | k | l"),
		ParseGram("json", "V : { } | { P } | [ ] | [ W ] | strlit | num; P : M | M , P; M : strlit : V; W : V | V , W", LexStr, LexNum),
		ParseGram("boolx", "Expr : var | Expr Op Expr; Op : & | ^", Lex{"var", false, "letter {letter}", []string{"p", "qq"}}),
		ParseGram("samefix", "S : A b c | A b d | A A b c; A : a | a a"),
		ParseGram("mutual", "S : A b | B a; A : B a | a | @; B : A b | b | @"),
		ParseGram("deepnull", "S : A; A : B B; B : C C; C : a | @"),
		ParseGram("cyc3", "S : A S B | a; A : @ | a; B : @ | b"),
		ParseGram("unary", "S : A; A : B; B : C; C : D; D : a"),
		ParseGram("repeatnt", "S : A A | A; A : a A | a"),
		ParseGram("callers", "S : A | B | C | D | E | F | G | H | I | J | K | L; A : X a; B : X b; C : X c; D : X d; E : X e; F : X f; G : X g; H : X h; I : X i; J : X j; K : X k; L : X l; X : x | X x | @"),
		ParseGram("letters", "S : X | S X; X : a | b | c | d | e | f | g | h | i | j | k | l | m | n | o | p | q | r | s | t | u | v | w | x | y | z"),
		ParseGram("names", "S : A BC D | AB C D; A : a | a b; BC : b c | c x; AB : a b; C : c; D : d | @"),
		ParseGram("names2", "S : A AB A | AA BA | A AA B; A : a; B : b | @; AA : a a; AB : a | a b; BA : b a | a"),
	}
}

var ntNames = []string{"S", "A", "B", "C", "D", "AB", "BC", "Expr", "Term", "Xy_z", "LongName", "Ae"}
var litPool = []string{"a", "b", "c", "d", "x", "+", "*", "(", ")", ",", "if", "==", "=", "ab", "{", "}", "&&", "&", "é", "<", "</", "%", "'", "->",
	"ϵ", "ℇ", "G0", "empty", "any", "letter", "\"", "\\", "\\n", "`", "%d", "$$", "•", "π", "日本", "\U0001F600", "#", "//", "/*", "func", "nil", "Num", "string_lit", "_", "0", ".", ";", ":", "|"}

// randGram draws a random context-free grammar in which every nonterminal is
// reachable; productive unless noted.
func RandGram(r *Rng, maxNT, maxAlt, maxLen int) *Gram {
	return spell(r, randGram(r, maxNT, maxAlt, maxLen))
}

// spell gives some literals names that a generator could take for its own.
func spell(r *Rng, g *Gram) *Gram {
	if r.P(1) {
		return lengthen(r, g)
	}
	if !r.P(15) {
		return g
	}
	names := []string{"ϵ", "ℇ", "G0", "empty", "Empty", "S0", "•", "ε", "G00", "EOF", "\\"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	used, to := map[string]bool{}, map[string]string{}
	for _, t := range g.Terminals() {
		used[t.Name] = true
	}
	for _, ru := range g.Rules {
		used[ru.Head] = true
	}
	g = g.Clone()
	k, all := 0, r.P(50)
	for _, t := range g.Terminals() {
		if t.K == 'S' && k < len(names) && (all || r.P(40)) {
			if !used[names[k]] {
				to[t.Name] = names[k]
			}
			k++
		}
	}
	for i := range g.Rules {
		for _, a := range g.Rules[i].Alts {
			for j := range a {
				if n, ok := to[a[j].Name]; ok && a[j].K == 'S' {
					a[j].Name = n
				}
			}
		}
	}
	return g
}

// lengthen makes the names of the nonterminals and literals long and alike: they
// differ at the end only.
func lengthen(r *Rng, g *Gram) *Gram {
	nt := strings.Repeat("Long_", 3+r.N(14))
	lit := ""
	if len(g.Lexs) == 0 && r.P(60) {
		lit = strings.Repeat("lit-", 3+r.N(14))
	}
	g = g.Clone()
	for i := range g.Rules {
		g.Rules[i].Head = nt + g.Rules[i].Head
		for _, a := range g.Rules[i].Alts {
			for j := range a {
				switch a[j].K {
				case 'N':
					a[j].Name = nt + a[j].Name
				case 'S':
					a[j].Name = lit + a[j].Name
				}
			}
		}
	}
	return g
}

func randGram(r *Rng, maxNT, maxAlt, maxLen int) *Gram {
	switch k := r.N(100); {
	case k < 4:
		return randNames(r)
	case k < 18:
		return randDeep(r)
	case k < 22:
		return randRow(r)
	case k < 24:
		return RandCrowd(r)
	case k < 26:
		return randWide(r)
	case k < 28:
		return RandLong(r, 40+r.N(110))
	}
	for {
		g := randGram1(r, maxNT, maxAlt, maxLen)
		if g != nil {
			return g
		}
	}
}

// randDeep puts a small core (ambiguous, nullable, recursive or plain) below a chain
// of rules: what happens in the core has to show at the top.
func randDeep(r *Rng) *Gram {
	cores := []string{"K : P | Q; P : @; Q : @", "K : P | Q; P : a | @; Q : b | @", "K : P P; P : a | @",
		"K : K K | a", "K : K K | a | @", "K : P | a; P : a", "K : K a | @", "K : a K | @", "K : P Q | Q P; P : @; Q : @ | a",
		"K : a | b", "K : K | a", "K : P | a b; P : K", "K : P a | a; P : @ | a", "K : P K a | b; P : @", "K : P P P; P : Q | @; Q : @"}
	core := cores[r.N(len(cores))]
	ts := []string{"a", "b", "c", "d", "x"}
	nulls := []string{"N : @", "N : @ | c", "N : M M; M : @ | d", "N : M M M M; M : @", "N : M M M M M | c; M : O; O : @", "N : c | M M M; M : @"}
	null := nulls[r.N(len(nulls))]
	depth := 1 + r.N(5)
	var rules []string
	useN := false
	for i := depth; i > 0; i-- {
		h, below := fmt.Sprintf("W%d", i), "K"
		if i == depth {
			h = "S"
		}
		if i > 1 {
			below = fmt.Sprintf("W%d", i-1)
		}
		ctx := func() string {
			switch r.N(4) {
			case 0:
				useN = true
				return "N"
			case 1:
				return ts[r.N(len(ts))]
			}
			return ""
		}
		alt := ctx() + " " + below + " " + ctx()
		if r.P(10) {
			alt += " " + below
		}
		alts := []string{strings.TrimSpace(alt)}
		for n := r.N(3); n > 0; n-- {
			switch r.N(6) {
			case 0:
				alts = append(alts, ts[r.N(len(ts))])
			case 1:
				alts = append(alts, "@")
			case 2:
				alts = append(alts, h+" "+ts[r.N(len(ts))])
			case 3:
				alts = append(alts, ts[r.N(len(ts))]+" "+h)
			case 4:
				alts = append(alts, ts[r.N(len(ts))]+" "+below)
			}
		}
		var out []string
		for _, a := range alts {
			dup := false
			for _, b := range out {
				dup = dup || strings.Join(strings.Fields(a), " ") == strings.Join(strings.Fields(b), " ")
			}
			if !dup {
				out = append(out, a)
			}
		}
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		rules = append(rules, h+" : "+strings.Join(out, " | "))
	}
	rest := strings.Split(core, "; ")
	if useN {
		rest = append(rest, strings.Split(null, "; ")...)
	}
	tail := append(rules[1:], rest...)
	r.Shuffle(len(tail), func(i, j int) { tail[i], tail[j] = tail[j], tail[i] })
	return ParseGram("deep", rules[0]+"; "+strings.Join(tail, "; "))
}

func randGram1(r *Rng, maxNT, maxAlt, maxLen int) *Gram {
	g := &Gram{Pkg: "x", Tag: "random"}
	n := 1 + r.N(maxNT)
	names := append([]string{}, ntNames...)
	if r.P(40) {
		for i := len(names) - 1; i > 0; i-- {
			j := r.N(i + 1)
			names[i], names[j] = names[j], names[i]
		}
	}
	names = names[:n]
	var ts []Sym
	nt := 1 + r.N(4)
	lits := append([]string{}, litPool...)
	if r.P(60) {
		lits = lits[:5]
	}
	for i := 0; i < nt; i++ {
		j := r.N(len(lits))
		ts = append(ts, Sym{'S', lits[j]})
		lits = append(lits[:j:j], lits[j+1:]...)
		if len(lits) == 0 {
			break
		}
	}
	if r.P(25) {
		g.Lexs = append(g.Lexs, LexNum)
		ts = append(ts, Sym{'T', LexNum.Name})
	}
	if r.P(15) {
		g.Lexs = append(g.Lexs, LexID)
		ts = append(ts, Sym{'T', LexID.Name})
	}
	if r.P(10) {
		g.Lexs = append(g.Lexs, LexCom)
	}
	nullP := []int{0, 5, 15, 30}[r.N(4)]
	ntP := []int{25, 40, 55, 70}[r.N(4)]
	for i, h := range names {
		ru := Rule{Head: h}
		na := 1 + r.N(maxAlt)
		for a := 0; a < na; a++ {
			var alt []Sym
			if !r.P(nullP) {
				l := 1 + r.N(maxLen)
				for k := 0; k < l; k++ {
					if r.P(ntP) {
						alt = append(alt, Sym{'N', names[r.N(n)]})
					} else {
						alt = append(alt, ts[r.N(len(ts))])
					}
				}
			}
			dup := false
			for _, b := range ru.Alts {
				if AltText(b) == AltText(alt) {
					dup = true
				}
			}
			if !dup {
				ru.Alts = append(ru.Alts, alt)
			}
		}
		_ = i
		g.Rules = append(g.Rules, ru)
	}
	g.Trim()
	if len(g.Terminals()) == 0 && !r.P(10) {
		return nil
	}
	if !g.Productive()[g.Rules[0].Head] {
		return nil
	}
	for _, ok := range g.Productive() {
		if !ok && !r.P(20) {
			return nil
		}
	}
	return g
}

// trim removes unreachable rules.
func (g *Gram) Trim() {
	reach := map[string]bool{g.Rules[0].Head: true}
	for ch := true; ch; {
		ch = false
		for _, ru := range g.Rules {
			if !reach[ru.Head] {
				continue
			}
			for _, a := range ru.Alts {
				for _, s := range a {
					if s.K == 'N' && !reach[s.Name] {
						reach[s.Name], ch = true, true
					}
				}
			}
		}
	}
	var rs []Rule
	for _, ru := range g.Rules {
		if reach[ru.Head] {
			rs = append(rs, ru)
		}
	}
	g.Rules = rs
}

func (g *Gram) Productive() map[string]bool {
	p := map[string]bool{}
	for _, ru := range g.Rules {
		p[ru.Head] = false
	}
	for ch := true; ch; {
		ch = false
		for _, ru := range g.Rules {
			if p[ru.Head] {
				continue
			}
			for _, a := range ru.Alts {
				ok := true
				for _, s := range a {
					if s.K == 'N' && !p[s.Name] {
						ok = false
					}
				}
				if ok {
					p[ru.Head], ch = true, true
				}
			}
		}
	}
	return p
}

func (g *Gram) Nullable() map[string]bool {
	nu := map[string]bool{}
	for ch := true; ch; {
		ch = false
		for _, ru := range g.Rules {
			if nu[ru.Head] {
				continue
			}
			for _, a := range ru.Alts {
				ok := true
				for _, s := range a {
					if s.K != 'N' || !nu[s.Name] {
						ok = false
					}
				}
				if ok {
					nu[ru.Head], ch = true, true
				}
			}
		}
	}
	return nu
}

// LibraryLR: grammars for LR(1) generators; most are LR(1), some are not.
func LibraryLR() []*Gram {
	return []*Gram{
		ParseGram("exprlr", "S : E; E : T | E + T; T : F | T * F; F : num | ( E )", LexNum),
		ParseGram("parens", "S : E; E : T | E + T; T : a | ( E )"),
		ParseGram("lr1notlalr", "S : a A d | b B d | a B e | b A e; A : c; B : c"),
		ParseGram("lalrnotslr", "S : L = R | R; L : * R | ident; R : L", LexID),
		ParseGram("cc", "S : C C; C : c C | d"),
		ParseGram("list", "L : I | L , I; I : ident | [ L ] | [ ]", LexID),
		ParseGram("rlist", "L : I | I , L; I : num | [ L ]", LexNum),
		ParseGram("json", "V : { } | { P } | [ ] | [ W ] | strlit | num; P : M | M , P; M : strlit : V; W : V | V , W", LexStr, LexNum),
		ParseGram("stmts", "P : L; L : T | L , T; T : ident = E | if E then T; E : ident | E + ident", LexID),
		ParseGram("anbn", "S : a S b | c"),
		ParseGram("palinc", "S : a S a | b S b | c"),
		ParseGram("pager1", "X : a Y d | a Z c | a T | b Y e | b Z d | b T; Y : t W | u X; Z : t u; T : u X a; W : u V; V : k"),
		ParseGram("unitchain", "S : A; A : B; B : C; C : d | d C"),
		ParseGram("deep", "S : ( S ) | [ S ] | x"),
		ParseGram("epsend", "S : a B; B : b B | @"),
		ParseGram("epsmid", "S : a B c; B : b B | @"),
		ParseGram("epsopt", "S : A B c; A : a | @; B : b | @"),
		ParseGram("epslist", "S : L; L : L a | @"),
		ParseGram("startrec", "S : S a | b"),
		ParseGram("ambig", "E : E + E | num", LexNum),
		ParseGram("dangling", "S : if S | if S else S | x"),
		ParseGram("lr2", "S : A a b | B a c; A : x; B : x"),
		ParseGram("palin", "S : a S a | @"),
		ParseGram("knuth2", "S : a A c; A : b A b | b"),
		ParseGram("contexts3", "S : a A d | a B e | a C f | b A f | b B g | b C d; A : x; B : x; C : x"),
		ParseGram("contexts4", "S : a A d | a B e | a C f | b A e | b B f | b C d | c A f | c B d | c C e; A : x y; B : x y; C : x y"),
		ParseGram("clash", "S : 1 X A AB | 2 X AA B; X : x | x y; A : a; AB : b; AA : c; B : d"),
		ParseGram("multi", "S : A | B; A : x A y | x y; B : x B z | x z"),
	}
}

// randNames draws a grammar with alternates whose symbols have the same names if
// these are written without blanks.
func randNames(r *Rng) *Gram {
	g := &Gram{Pkg: "x", Tag: "names"}
	word := ""
	for n := 3 + r.N(3); n > 0; n-- {
		word += string("ABC"[r.N(3)])
	}
	s := Rule{Head: "S"}
	used := map[string]bool{}
	var names []string
	for k := 2 + r.N(3); k > 0; k-- {
		var alt []Sym
		for i := 0; i < len(word); {
			n := min(1+r.N(2), len(word)-i)
			alt = append(alt, Sym{'N', word[i : i+n]})
			i += n
		}
		dup := false
		for _, a := range s.Alts {
			dup = dup || AltText(a) == AltText(alt)
		}
		if dup {
			continue
		}
		s.Alts = append(s.Alts, alt)
		for _, y := range alt {
			if !used[y.Name] {
				used[y.Name] = true
				names = append(names, y.Name)
			}
		}
	}
	g.Rules = append(g.Rules, s)
	lits := []string{"a", "b", "c"}[:2+r.N(2)]
	for _, n := range names {
		ru := Rule{Head: n}
		for k := 1 + r.N(3); k > 0; k-- {
			var alt []Sym
			for l := r.N(3) + 1 - r.N(2)*r.N(2); l > 0; l-- {
				alt = append(alt, Sym{'S', lits[r.N(len(lits))]})
			}
			dup := false
			for _, a := range ru.Alts {
				dup = dup || AltText(a) == AltText(alt)
			}
			if !dup {
				ru.Alts = append(ru.Alts, alt)
			}
		}
		g.Rules = append(g.Rules, ru)
	}
	return g
}

// randContexts draws a grammar whose nonterminals have the same body and are told
// apart by what follows them, differently in different left contexts: states that
// have the same core and must not be merged.
func randContexts(r *Rng) *Gram {
	g := &Gram{Pkg: "x", Tag: "contexts"}
	names := []string{"A", "B", "C", "D", "E"}[:2+r.N(4)]
	pre := []string{"a", "b", "c", "d"}[:2+r.N(3)]
	post := []string{"p", "q", "r", "s", "t", "u", "v"}[:len(names)+r.N(3)]
	s := Rule{Head: "S"}
	each := 1 // followers of a name in a context
	if r.P(35) {
		each = 2 + r.N(2)
		names, pre = names[:2+r.N(min(2, len(names)-1))], pre[:min(3, len(pre))]
		post = []string{"p", "q", "r", "s", "t", "u", "v", "w", "k"}[:len(names)*each]
		r.Shuffle(len(post), func(i, j int) { post[i], post[j] = post[j], post[i] })
	}
	for _, p := range pre {
		if each > 1 { // nearly the same followers in all contexts
			for k := r.N(3); k > 0; k-- {
				i, j := r.N(len(post)), r.N(len(post))
				post[i], post[j] = post[j], post[i]
			}
			for i, f := range post {
				if r.P(95) {
					s.Alts = append(s.Alts, []Sym{{'S', p}, {'N', names[i/each]}, {'S', f}})
				}
			}
			continue
		}
		r.Shuffle(len(post), func(i, j int) { post[i], post[j] = post[j], post[i] })
		for i, n := range names {
			if r.P(88) {
				s.Alts = append(s.Alts, []Sym{{'S', p}, {'N', n}, {'S', post[i]}})
				if r.P(8) {
					s.Alts = append(s.Alts, []Sym{{'S', p}, {'N', n}, {'S', post[i]}, {'N', "S"}})
				}
			}
		}
	}
	if len(s.Alts) == 0 {
		return randContexts(r)
	}
	r.Shuffle(len(s.Alts), func(i, j int) { s.Alts[i], s.Alts[j] = s.Alts[j], s.Alts[i] })
	body := [][]Sym{{{'S', "x"}}, {{'S', "x"}, {'S', "y"}}, {{'S', "x"}, {'N', "X"}}, {{'N', "X"}}}[r.N(4)]
	g.Rules = append(g.Rules, s)
	for _, n := range names {
		ru := Rule{Head: n, Alts: [][]Sym{body}}
		if r.P(15) {
			ru.Alts = append(ru.Alts, []Sym{{'S', "y"}, {'N', names[r.N(len(names))]}})
		}
		g.Rules = append(g.Rules, ru)
	}
	g.Rules = append(g.Rules, Rule{Head: "X", Alts: [][]Sym{{{'S', "x"}}, {{'S', "z"}, {'N', "X"}}}})
	g.Trim()
	return g
}

// randClash draws a grammar, mostly LR(1), whose alternates are sequences of names
// that are the same sequence of letters, in contexts told apart by a terminal.
func randClash(r *Rng) *Gram {
	g := &Gram{Pkg: "x", Tag: "clash"}
	word := ""
	for n := 3 + r.N(3); n > 0; n-- {
		word += string("ABC"[r.N(3)])
	}
	split := func() (alt []Sym) {
		for i := 0; i < len(word); {
			n := min(1+r.N(2), len(word)-i)
			alt = append(alt, Sym{'N', word[i : i+n]})
			i += n
		}
		return
	}
	s := Rule{Head: "S"}
	common := r.P(60)
	for _, t := range []string{"1", "2", "3"}[:2+r.N(2)] {
		alt := []Sym{{'S', t}}
		if common {
			alt = append(alt, Sym{'N', "X"})
		}
		alt = append(alt, split()...)
		if r.P(30) {
			alt = append(alt, Sym{'S', t + "e"})
		}
		s.Alts = append(s.Alts, alt)
	}
	g.Rules = []Rule{s, {Head: "X", Alts: [][]Sym{{{'S', "x"}}, {{'S', "x"}, {'S', "y"}}}}}
	names := map[string]bool{}
	for _, a := range s.Alts {
		for _, y := range a {
			if y.K != 'N' || y.Name == "X" || names[y.Name] {
				continue
			}
			names[y.Name] = true
			ru := Rule{Head: y.Name, Alts: [][]Sym{{{'S', "k" + y.Name}}}}
			switch r.N(5) {
			case 0:
				ru.Alts = append(ru.Alts, nil)
			case 1:
				ru.Alts = append(ru.Alts, []Sym{{'S', "x"}, {'S', "l" + y.Name}})
			case 2:
				ru.Alts[0] = []Sym{{'S', "x"}, {'S', "k" + y.Name}}
			}
			g.Rules = append(g.Rules, ru)
		}
	}
	g.Trim()
	return g
}

// randRow draws a grammar with long alternates of symbols whose extents can be
// chosen in many ways.
func randRow(r *Rng) *Gram {
	g := &Gram{Pkg: "x", Tag: "row"}
	names := []string{"A", "B", "C"}[:1+r.N(3)]
	ts := []string{"a", "b", "c"}[:1+r.N(3)]
	row := func(n int) (alt []Sym) {
		for ; n > 0; n-- {
			if r.P(75) {
				alt = append(alt, Sym{'N', names[r.N(len(names))]})
			} else {
				alt = append(alt, Sym{'S', ts[r.N(len(ts))]})
			}
		}
		return
	}
	s := Rule{Head: "S", Alts: [][]Sym{row(5 + r.N(6))}}
	if r.P(40) {
		if b := row(4 + r.N(5)); AltText(b) != AltText(s.Alts[0]) {
			s.Alts = append(s.Alts, b)
		}
	}
	g.Rules = append(g.Rules, s)
	for _, n := range names {
		ru := Rule{Head: n, Alts: [][]Sym{{{'S', ts[r.N(len(ts))]}}}}
		add := func(a []Sym) {
			for _, b := range ru.Alts {
				if AltText(a) == AltText(b) {
					return
				}
			}
			ru.Alts = append(ru.Alts, a)
		}
		if r.P(50) {
			add([]Sym{{'S', ts[r.N(len(ts))]}, {'S', ts[r.N(len(ts))]}})
		}
		if r.P(40) {
			add(nil)
		}
		if r.P(15) {
			add([]Sym{{'S', ts[r.N(len(ts))]}, {'N', n}})
		}
		g.Rules = append(g.Rules, ru)
	}
	g.Trim()
	return g
}

// RandCrowd draws a grammar whose inputs have many trees over the same extents below
// each other: lists of children have several members, in any order.
func RandCrowd(r *Rng) *Gram {
	g := &Gram{Pkg: "x", Tag: "crowd"}
	names := []string{"Y", "Z", "W", "V"}[:2+r.N(3)]
	t := func() Sym { return Sym{'S', []string{"a", "b"}[r.N(2)*r.N(2)]} }
	x := Sym{'N', "X"}
	row := func(n int) (alt []Sym) {
		alt = append(alt, x)
		for ; n > 1; n-- {
			switch {
			case r.P(65):
				alt = append(alt, x)
			case r.P(60):
				alt = append(alt, Sym{'N', names[r.N(len(names))]})
			default:
				alt = append(alt, t())
			}
		}
		return
	}
	ru := Rule{Head: "X"}
	for _, n := range names {
		ru.Alts = append(ru.Alts, []Sym{{'N', n}})
	}
	if r.P(50) {
		ru.Alts = append(ru.Alts, []Sym{{'S', "a"}})
	}
	if r.P(25) {
		ru.Alts = append(ru.Alts, nil)
	}
	r.Shuffle(len(ru.Alts), func(i, j int) { ru.Alts[i], ru.Alts[j] = ru.Alts[j], ru.Alts[i] })
	g.Rules = append(g.Rules, Rule{Head: "S", Alts: [][]Sym{row(3 + r.N(2))}}, ru)
	for _, n := range names {
		ru := Rule{Head: n, Alts: [][]Sym{{{'S', "a"}}}}
		if r.P(60) {
			ru.Alts = append(ru.Alts, []Sym{{'S', "a"}, t()})
		}
		g.Rules = append(g.Rules, ru)
	}
	g.Trim()
	return g
}

// randWide draws a grammar with many terminals and alternates.
func randWide(r *Rng) *Gram {
	g := &Gram{Pkg: "x", Tag: "wide"}
	n := 12 + r.N(30)
	if r.P(30) {
		n = 50 + r.N(100)
	}
	t := func(i int) Sym { return Sym{'S', fmt.Sprintf("t%dx", i)} }
	s := Rule{Head: "S"}
	switch r.N(3) {
	case 0: // a list of items
		s.Alts = [][]Sym{{{'N', "Item"}}, {{'N', "Item"}, {'N', "S"}}}
	case 1:
		s.Alts = [][]Sym{{{'N', "Item"}}, {{'N', "S"}, {'N', "Item"}}, nil}
	case 2:
		s.Alts = [][]Sym{{{'N', "Item"}, t(0), {'N', "Item"}}, {{'N', "Item"}}}
	}
	item, more := Rule{Head: "Item"}, Rule{Head: "More"}
	for i := 0; i < n; i++ {
		switch k := r.N(100); {
		case k < 70:
			item.Alts = append(item.Alts, []Sym{t(i)})
		case k < 85:
			item.Alts = append(item.Alts, []Sym{t(i), {'N', "More"}})
		default:
			more.Alts = append(more.Alts, []Sym{t(i)})
		}
	}
	if len(item.Alts) == 0 || r.P(15) {
		item.Alts = append(item.Alts, nil)
	}
	more.Alts = append(more.Alts, []Sym{{'S', "end"}})
	g.Rules = []Rule{s, item, more}
	g.Trim()
	return g
}

// RandLong draws a grammar of n rules that form a chain: sets need many rounds and
// forests are deep. Most are LR(1).
func RandLong(r *Rng, n int) *Gram {
	g := &Gram{Pkg: "x", Tag: "long"}
	name := func(i int) string { return fmt.Sprintf("L%dx", i) }
	down := Sym{'S', "z"}
	some := 2 + r.N(12)
	for i := 0; i < n; i++ {
		ru := Rule{Head: name(i)}
		next := Sym{'N', name(i + 1)}
		if i == n-1 {
			next = down
		}
		ru.Alts = append(ru.Alts, []Sym{next})
		if r.N(some) == 0 {
			switch r.N(4) {
			case 0:
				ru.Alts = append(ru.Alts, []Sym{{'S', fmt.Sprint("t", i)}, next})
			case 1:
				ru.Alts = append(ru.Alts, []Sym{next, {'S', fmt.Sprint("u", i)}})
			case 2:
				ru.Alts[0] = []Sym{next, {'S', fmt.Sprint("v", i)}}
			case 3:
				ru.Alts = append(ru.Alts, []Sym{{'S', fmt.Sprint("w", i)}})
			}
		}
		g.Rules = append(g.Rules, ru)
	}
	if r.P(50) {
		g.Rules[n-1].Alts = append(g.Rules[n-1].Alts, nil)
	}
	rest := g.Rules[1:]
	switch r.N(4) {
	case 0:
		r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	case 1:
		for i, j := 0, len(rest)-1; i < j; i, j = i+1, j-1 {
			rest[i], rest[j] = rest[j], rest[i]
		}
	}
	return g
}

// RandLR draws a small grammar that is often LR(1): alternates start with
// distinct terminals or follow a left-recursive list or operator pattern.
func RandLR(r *Rng) *Gram {
	if r.P(10) {
		l := LibraryLR()
		return spell(r, spell(r, spell(r, l[r.N(len(l))])))
	}
	return spell(r, randLR(r))
}

func randLR(r *Rng) *Gram {
	if r.P(30) {
		return RandGram(r, 4, 3, 3)
	}
	if r.P(20) {
		return randContexts(r)
	}
	if r.P(6) {
		return randClash(r)
	}
	if r.P(3) {
		return randWide(r)
	}
	if r.P(2) {
		return RandLong(r, 40+r.N(60))
	}
	for {
		g := &Gram{Pkg: "x", Tag: "randlr"}
		n := 1 + r.N(5)
		names := append([]string{}, ntNames...)
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		names = names[:n]
		lits := append([]string{}, litPool...)
		r.Shuffle(len(lits), func(i, j int) { lits[i], lits[j] = lits[j], lits[i] })
		lits = lits[:2+r.N(5)]
		if r.P(30) {
			g.Lexs = append(g.Lexs, LexNum)
		}
		sym := func() Sym {
			if len(g.Lexs) > 0 && r.P(20) {
				return Sym{'T', "num"}
			}
			return Sym{'S', lits[r.N(len(lits))]}
		}
		nt := func(i int) Sym {
			if r.P(75) && i+1 < n {
				return Sym{'N', names[i+1+r.N(n-i-1)]}
			}
			return Sym{'N', names[r.N(n)]}
		}
		eps := r.P(40)
		for i, h := range names {
			ru := Rule{Head: h}
			add := func(a []Sym) {
				for _, b := range ru.Alts {
					if AltText(a) == AltText(b) {
						return
					}
				}
				ru.Alts = append(ru.Alts, a)
			}
			switch r.N(4) {
			case 0: // left recursive list
				x := nt(i)
				add([]Sym{x})
				add([]Sym{{'N', h}, sym(), x})
			case 1: // right recursive
				x := nt(i)
				add([]Sym{x, sym(), {'N', h}})
				add([]Sym{x})
			default:
				for k := 1 + r.N(3); k > 0; k-- {
					var a []Sym
					if r.P(80) {
						a = append(a, sym())
					}
					for l := r.N(4); l > 0; l-- {
						if r.P(50) {
							a = append(a, nt(i))
						} else {
							a = append(a, sym())
						}
					}
					if len(a) == 0 && !eps {
						a = append(a, sym())
					}
					add(a)
				}
			}
			g.Rules = append(g.Rules, ru)
		}
		g.Trim()
		ok := true
		for _, p := range g.Productive() {
			ok = ok && p
		}
		if ok && len(g.Terminals()) > 0 {
			return g
		}
	}
}
