package main

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"unicode"

	. "verif/sim/model"
)

// First and follow sets (C15): what -v prints against the least solution of
// their equations.

// readGram reads the syntax rules of a grammar source; the second result is
// false where the source is beyond it.
func readGram(src string) (g *Gram, tokids map[string]bool, ok bool) {
	var ts []string // words, punctuation; literals begin with a quote and are unescaped
	rs := []rune(src)
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case c == '"':
			b := []rune{'"'}
			for i++; i < len(rs) && rs[i] != '"'; i++ {
				if rs[i] == '\\' && i+1 < len(rs) {
					i++
					if e := strings.IndexRune("nrt", rs[i]); e >= 0 {
						b = append(b, rune("\n\r\t"[e]))
						continue
					}
				}
				b = append(b, rs[i])
			}
			i++
			ts = append(ts, string(b))
		case c == '\'' && i+1 < len(rs) && rs[i+1] == '[' && (i+2 >= len(rs) || rs[i+2] != '\''): // a Unicode set
			for i += 2; i < len(rs) && !(rs[i] == '\'' && rs[i-1] == ']'); i++ {
			}
			i++
			ts = append(ts, "'")
		case c == '\'':
			i += 3
			if i-2 < len(rs) && rs[i-2] == '\\' {
				i++
			}
			ts = append(ts, "'")
		case unicode.IsLetter(c):
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsNumber(rs[j]) || rs[j] == '_') {
				j++
			}
			ts = append(ts, string(rs[i:j]))
			i = j
		default:
			ts = append(ts, string(c))
			i++
		}
	}
	g, tokids = &Gram{}, map[string]bool{}
	if len(ts) < 2 || ts[0] != "package" {
		return nil, nil, false
	}
	upper := func(s string) bool { return unicode.IsUpper([]rune(s)[0]) }
	for i := 2; i < len(ts); {
		if ts[i] == "!" {
			i++
		}
		j := i
		for j < len(ts) && ts[j] != ";" {
			j++
		}
		if j >= len(ts) || j < i+3 || ts[i+1] != ":" {
			return nil, nil, false
		}
		head, body := ts[i], ts[i+2:j]
		i = j + 1
		if !upper(head) {
			tokids[head] = true
			continue
		}
		r := Rule{Head: head}
		var alt []Sym
		for _, t := range append(append([]string{}, body...), "|") {
			switch {
			case t == "|":
				r.Alts = append(r.Alts, alt)
				alt = nil
			case t == "empty":
			case t[0] == '"':
				alt = append(alt, Sym{K: 'S', Name: t[1:]})
			case upper(t):
				alt = append(alt, Sym{K: 'N', Name: t})
			case unicode.IsLetter([]rune(t)[0]):
				alt = append(alt, Sym{K: 'T', Name: t})
			default:
				return nil, nil, false
			}
		}
		g.Rules = append(g.Rules, r)
	}
	// names that mean two things are left out
	for _, t := range g.Terminals() {
		if t.K == 'S' && (tokids[t.Name] || g.FindRule(t.Name) != nil || t.Name == EOF || t.Name == "ϵ" || t.Name == "" || strings.ContainsFunc(t.Name, unicode.IsSpace)) {
			return nil, nil, false
		}
	}
	for _, r := range g.Rules {
		for _, a := range r.Alts {
			for _, s := range a {
				if s.K == 'N' && g.FindRule(s.Name) == nil {
					return nil, nil, false
				}
			}
		}
	}
	return g, tokids, len(g.Rules) > 0
}

// printedSets reads first_follow.txt; symbols are the names to look for.
func printedSets(text string, symbols map[string]bool) (first, follow map[string]string, err string) {
	first, follow = map[string]string{}, map[string]string{}
	set := func(s string) string {
		ws := strings.Fields(s)
		sort.Strings(ws)
		return strings.Join(ws, " ")
	}
	for _, l := range strings.Split(text, "\n") {
		if l == "" {
			continue
		}
		best := ""
		for s := range symbols {
			if len(s) > len(best) && strings.HasPrefix(l, s+":") {
				best = s
			}
		}
		m, name := first, best
		if best == "" {
			i := strings.Index(l, "):")
			if !strings.HasPrefix(l, "Follow(") || i < 0 {
				return nil, nil, fmt.Sprintf("line %q is of no symbol", l)
			}
			m, name = follow, l[len("Follow("):i]
			l = l[i+1:]
		} else {
			l = l[len(best):]
		}
		if _, twice := m[name]; twice {
			return nil, nil, "two sets of " + name
		}
		m[name] = set(strings.TrimPrefix(l, ":"))
	}
	return
}

func setText(m map[string]bool, empty bool) string {
	var ws []string
	for t := range m {
		ws = append(ws, t)
	}
	if empty {
		ws = append(ws, "ϵ")
	}
	sort.Strings(ws)
	return strings.Join(ws, " ")
}

func (c *ProcCase) checkSets() string {
	src := c.Tree[c.File]
	for _, s := range c.Steps {
		if t, ok := s.Write[c.File]; ok {
			src = t
		}
	}
	if strings.HasSuffix(c.File, ".md") {
		src = fencedText(src)
	}
	g, tokids, ok := readGram(src)
	trees, results := c.history(len(c.Steps))
	after, res := trees[len(trees)-1], results[len(results)-1]
	if res.Hang {
		return "hang: the run does not end"
	}
	if !ok {
		return ""
	}
	text, written := after[path.Join(c.Base, "first_follow.txt")]
	if res.Exit != 0 {
		return c.refused(res)
	}
	if !written {
		return "sets: first_follow.txt is not written"
	}
	cfg := g.Compile()
	reach := map[int]bool{0: true}
	for ch := true; ch; {
		ch = false
		for _, a := range cfg.Alts {
			for _, s := range a.Body {
				if reach[a.Head] && s.NT && !reach[s.I] {
					reach[s.I], ch = true, true
				}
			}
		}
	}
	if len(reach) < len(cfg.NTs) { // whether rules that cannot be reached count is open
		return ""
	}
	symbols := map[string]bool{}
	for t := range tokids {
		symbols[t] = true
	}
	for _, t := range g.Terminals() {
		symbols[t.Name] = true
	}
	for _, n := range cfg.NTs {
		symbols[n] = true
	}
	first, follow, e := printedSets(text, symbols)
	if e != "" {
		return "sets: " + e
	}
	for _, t := range g.Terminals() {
		if got, ok := first[t.Name]; !ok || got != t.Name {
			return fmt.Sprintf("first: of the terminal %s is {%s}", t.Text(), got)
		}
	}
	for i, n := range cfg.NTs {
		if want, got := setText(cfg.First[i], cfg.Nullable[i]), first[n]; want != got {
			return fmt.Sprintf("first: of %s is {%s} instead of {%s}", n, got, want)
		}
		if want, got := setText(cfg.Follow[i], false), follow[n]; want != got {
			return fmt.Sprintf("follow: of %s is {%s} instead of {%s}", n, got, want)
		}
	}
	if len(follow) != len(cfg.NTs) {
		return "sets: a follow set of no nonterminal"
	}
	probe("grammars whose sets were compared")
	return ""
}

// genSets draws cases for C15.
func genSets(r *Rng, emit func(*ProcCase) bool) {
	g := randGCase(r, 0)
	var opts []string
	for _, o := range g.opts {
		if o != "-v" {
			opts = append(opts, o)
		}
	}
	g.opts = append(opts, "-v")
	g.setArgs()
	valid := true
	switch k := r.N(100); {
	case k < 40:
		gr := RandGram(r, 2+r.N(10), 1+r.N(5), 1+r.N(6))
		g.Text, g.Tag = gr.Text(0), gr.Tag
	case k < 60:
		gr := RandLR(r)
		g.Text, g.Tag = gr.Text(0), gr.Tag
	case k < 75:
		l := append(LibraryGLL(), LibraryLR()...)
		gr := l[r.N(len(l))]
		g.Text, g.Tag = gr.Text(0), gr.Tag
	case k < 90: // chains: many rounds until nothing changes
		gr := randChain(r)
		if r.P(20) {
			gr = RandLong(r, 30+r.N(120))
		}
		g.Text, g.Tag = gr.Text(0), gr.Tag
	default:
		valid = false
		for {
			g.Text, g.Tag = randGrammarText(r, g.LR, false)
			if g.Tag != "lex" {
				break
			}
		}
	}
	if g.md && !strings.Contains(g.Text, "```") {
		g.Text = "# Grammar\n\n```\n" + g.Text + "```\n"
	}
	c := procCase("sets", g)
	c.Valid = valid
	if r.P(25) {
		garbage(r, g.Base, c.Tree, g.Rust, false)
	}
	for n := 0; n < 3; n++ {
		d := c.clone()
		cfg := calm()
		if r.P(90) {
			randMap(r, &cfg)
		}
		d.run(g, cfg)
		if !emit(d) {
			return
		}
	}
}

// randChain is a grammar whose sets need many rounds: long chains of rules,
// nullable and not, in random order, with a few loops.
func randChain(r *Rng) *Gram {
	n := 4 + r.N(14)
	name := make([]string, n)
	for i := range name {
		name[i] = fmt.Sprintf("N%c%d", 'a'+rune(r.N(26)), i)
	}
	g := &Gram{Pkg: "x", Tag: "chain"}
	t, null := 0, r.P(25)
	lit := func() Sym {
		t++
		if r.P(30) {
			return Sym{K: 'S', Name: fmt.Sprint("t", r.N(4))}
		}
		return Sym{K: 'S', Name: fmt.Sprint("t", t)}
	}
	for i := 0; i < n; i++ {
		ru := Rule{Head: name[i]}
		for k := 1 + r.N(2); k > 0; k-- {
			var a []Sym
			if r.P(40) {
				a = append(a, lit())
			}
			if i+1 < n {
				a = append(a, Sym{K: 'N', Name: name[i+1]})
			} else {
				a = append(a, lit())
			}
			for r.P(45) {
				if r.P(50) {
					a = append(a, Sym{K: 'N', Name: name[r.N(n)]})
				} else {
					a = append(a, lit())
				}
			}
			dup := false
			for _, b := range ru.Alts {
				dup = dup || AltText(a) == AltText(b)
			}
			if !dup {
				ru.Alts = append(ru.Alts, a)
			}
		}
		if r.P(45) {
			ru.Alts = append(ru.Alts, nil)
		}
		if null && r.P(30) {
			var a []Sym
			for k := 1 + r.N(6); k > 0; k-- {
				a = append(a, Sym{K: 'N', Name: "Null"})
			}
			ru.Alts = append(ru.Alts, a)
		}
		g.Rules = append(g.Rules, ru)
	}
	if null {
		g.Rules = append(g.Rules, Rule{Head: "Null", Alts: [][]Sym{nil}})
		g.Trim()
	}
	rest := g.Rules[1:]
	switch r.N(3) {
	case 0: // as the chain goes
	case 1:
		r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	case 2:
		for i, j := 0, len(rest)-1; i < j; i, j = i+1, j-1 {
			rest[i], rest[j] = rest[j], rest[i]
		}
	}
	return g
}
