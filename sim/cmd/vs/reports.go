package main

import (
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	. "verif/sim/model"
)

// The reports (C16): what -v and LR(1) conflicts write, against the grammar.

// ---------------------------------------------------------------- lexical rules

// readLeaf reads a single-character expression at the start of s; n is its length,
// 0 where it is beyond it.
func readLeaf(s string) (e *Re, n int) {
	esc := func(c byte) (rune, bool) {
		i := strings.IndexByte(`'"\nrt`, c)
		if i < 0 {
			return 0, false
		}
		return []rune{'\'', '"', '\\', '\n', '\r', '\t'}[i], true
	}
	quoted := func(s string) (set string, n int) {
		if !strings.HasPrefix(s, `"`) {
			return "", 0
		}
		for n = 1; n < len(s); {
			r, w := utf8.DecodeRuneInString(s[n:])
			switch {
			case r == '"':
				return set, n + 1
			case r == '\\':
				c, ok := rune(0), false
				if n+1 < len(s) {
					c, ok = esc(s[n+1])
				}
				if !ok || c == '\'' {
					return "", 0
				}
				set += string(c)
				n += 2
			default:
				set += string(r)
				n += w
			}
		}
		return "", 0
	}
	switch {
	case strings.HasPrefix(s, "'[\\p"):
		i := strings.Index(s, "]'")
		if i < 0 {
			return nil, 0
		}
		var cs []string
		for rest := s[2:i]; rest != ""; {
			rest = strings.TrimLeft(rest, " ,")
			ex := ""
			if strings.HasPrefix(rest, "-") {
				ex, rest = "-", rest[1:]
			}
			j := strings.Index(rest, "}")
			if !strings.HasPrefix(rest, `\p{`) || j < 0 {
				return nil, 0
			}
			cs = append(cs, ex+rest[3:j])
			rest = rest[j+1:]
		}
		return &Re{Kind: 'p', Set: strings.Join(cs, " ")}, i + 2
	case strings.HasPrefix(s, `'\`):
		if len(s) < 4 || s[3] != '\'' {
			return nil, 0
		}
		if r, ok := esc(s[2]); ok && r != '"' {
			return &Re{Kind: 'c', R: r}, 4
		}
		return nil, 0
	case strings.HasPrefix(s, "'"):
		r, w := utf8.DecodeRuneInString(s[1:])
		if r < ' ' || r == utf8.RuneError || !strings.HasPrefix(s[1+w:], "'") {
			return nil, 0
		}
		return &Re{Kind: 'c', R: r}, w + 2
	case strings.HasPrefix(s, "."):
		return &Re{Kind: '.'}, 1
	}
	w := strings.IndexFunc(s, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsNumber(r) && r != '_' })
	if w < 0 {
		w = len(s)
	}
	switch s[:w] {
	case "letter":
		return &Re{Kind: 'l'}, w
	case "upcase":
		return &Re{Kind: 'u'}, w
	case "lowcase":
		return &Re{Kind: 'w'}, w
	case "number":
		return &Re{Kind: 'd'}, w
	case "any", "not":
		t := strings.TrimLeftFunc(s[w:], unicode.IsSpace)
		set, n := quoted(t)
		if n == 0 || strings.ContainsAny(t[:n], "\n\r") {
			return nil, 0
		}
		return &Re{Kind: map[string]byte{"any": 'o', "not": 'n'}[s[:w]], Set: set}, len(s) - len(t) + n
	case "", "empty", "package":
		return nil, 0
	}
	return &Re{Kind: 't', Set: s[:w]}, w
}

// readLexical reads the lexical rules of a grammar source and the string literals of
// its syntax rules; nil where the source is beyond it.
func readLexical(src string, g *Gram) *LexGram {
	l := &LexGram{}
	s := src
	skip := func() { s = strings.TrimLeftFunc(s, unicode.IsSpace) }
	if skip(); !strings.HasPrefix(s, "package") {
		return nil
	}
	s = s[len("package"):]
	skip()
	i := -1
	if s != "" {
		i = strings.Index(s[1:], `"`)
	}
	if i < 0 {
		return nil
	}
	s = s[i+2:]
	var seq func() ([]*Re, bool)
	seq = func() (es []*Re, ok bool) {
		for {
			skip()
			if s == "" {
				return nil, false
			}
			if k := strings.IndexByte("([{<", s[0]); k >= 0 {
				e := &Re{Kind: s[0]}
				s = s[1:]
				for {
					a, ok := seq()
					if !ok || len(a) == 0 {
						return nil, false
					}
					e.Alts = append(e.Alts, a)
					if s[0] != '|' {
						break
					}
					s = s[1:]
				}
				if s[0] != ")]}>"[k] {
					return nil, false
				}
				s = s[1:]
				es = append(es, e)
				continue
			}
			if strings.IndexByte(")]}>|;", s[0]) >= 0 {
				return es, true
			}
			e, n := readLeaf(s)
			if n == 0 {
				return nil, false
			}
			es = append(es, e)
			s = s[n:]
		}
	}
	at := map[string]int{}
	for skip(); s != ""; skip() {
		ru := LexRule{}
		if s[0] == '!' {
			ru.Suppress, s = true, s[1:]
			skip()
		}
		r, _ := utf8.DecodeRuneInString(s)
		if unicode.IsUpper(r) { // a syntax rule
			for in := false; s != ""; s = s[1:] {
				if in && s[0] == '\\' && len(s) > 1 {
					s = s[1:]
				} else if s[0] == '"' {
					in = !in
				} else if s[0] == ';' && !in {
					break
				}
			}
			if s == "" {
				return nil
			}
			s = s[1:]
			continue
		}
		e, n := readLeaf(s)
		if n == 0 || e.Kind != 't' {
			return nil
		}
		ru.Name, s = e.Set, s[n:]
		if skip(); !strings.HasPrefix(s, ":") {
			return nil
		}
		s = s[1:]
		es, ok := seq()
		if !ok || len(es) == 0 || s[0] != ';' {
			return nil
		}
		s = s[1:]
		if _, twice := at[ru.Name]; twice {
			return nil
		}
		at[ru.Name] = len(l.Rules)
		ru.Seq = es
		l.Rules = append(l.Rules, ru)
	}
	// references, which may not be circular, are replaced
	open := map[string]bool{}
	var flat func(es []*Re) []*Re
	bad := false
	flat = func(es []*Re) (out []*Re) {
		for _, e := range es {
			i, def := at[e.Set]
			switch {
			case e.Kind == 't' && (!def || open[e.Set]):
				bad = true
			case e.Kind == 't':
				open[e.Set] = true
				out = append(out, flat(l.Rules[i].Seq)...)
				open[e.Set] = false
			default:
				f := *e
				f.Alts = nil
				for _, a := range e.Alts {
					f.Alts = append(f.Alts, flat(a))
				}
				out = append(out, &f)
			}
		}
		return
	}
	flats := make([][]*Re, len(l.Rules))
	for i, ru := range l.Rules {
		flats[i] = flat(ru.Seq)
	}
	if bad {
		return nil
	}
	for i := range flats {
		l.Rules[i].Seq = flats[i]
	}
	for _, t := range g.Terminals() {
		if t.K == 'S' {
			l.Rules = append(l.Rules, LexRule{Name: t.Name, Literal: true})
		}
	}
	return l
}

// ---------------------------------------------------------------- lists

// sameLines compares the lines of a report with those that should be there, in
// any order; empty lines do not count.
func sameLines(what, text string, want []string) string {
	n := map[string]int{}
	for _, w := range want {
		n[w]++
	}
	for _, l := range strings.Split(text, "\n") {
		if l == "" {
			continue
		}
		if n[l]--; n[l] < 0 {
			return fmt.Sprintf("%s: the line %q is too many", what, l)
		}
	}
	for _, w := range want {
		if n[w] > 0 {
			return fmt.Sprintf("%s: the line %q is missing", what, w)
		}
	}
	return ""
}

// ---------------------------------------------------------------- lexfsa.txt

type fsaState struct {
	items, accept map[string]bool
	on            []*Re
	to            []int
}

// readItem puts the text of a dotted rule into the form of LexState.Items.
func readItem(s string) (string, bool) {
	var ts []string
	for s != "" {
		if t, ok := strings.CutPrefix(s, "•"); ok {
			ts, s = append(ts, "•"), t
			continue
		}
		if s[0] == ' ' {
			s = s[1:]
			continue
		}
		if strings.IndexByte("([{<|>}])", s[0]) >= 0 {
			ts, s = append(ts, s[:1]), s[1:]
			continue
		}
		e, n := readLeaf(s)
		if n == 0 || e.Kind == 't' {
			return "", false
		}
		ts, s = append(ts, e.Text()), s[n:]
	}
	return strings.Join(ts, " "), true
}

func readFSA(text string) (ss []fsaState, err string) {
	in := -1
	for _, l := range strings.Split(text, "\n") {
		switch {
		case l == "":
		case strings.HasPrefix(l, "S"):
			if l != fmt.Sprintf("S%d:", len(ss)) {
				return nil, fmt.Sprintf("line %q where S%d should begin", l, len(ss))
			}
			ss = append(ss, fsaState{items: map[string]bool{}, accept: map[string]bool{}})
			in = 0
		case l == "  Transitions:" && in == 0:
			in = 1
		case strings.HasPrefix(l, "    ") && in == 0:
			i := strings.Index(l[4:], " : ")
			if i < 0 {
				return nil, fmt.Sprintf("line %q is no item", l)
			}
			it, ok := readItem(l[4+i+3:])
			if !ok {
				return nil, fmt.Sprintf("line %q is no item", l)
			}
			s := ss[len(ss)-1]
			s.items[l[4:4+i]+" : "+it] = true
			if strings.HasSuffix(l, "•") {
				s.accept[l[4:4+i]] = true
			}
		case strings.HasPrefix(l, "    ") && in == 1:
			i := strings.LastIndex(l, " -> S")
			if i < 4 {
				return nil, fmt.Sprintf("line %q is no transition", l)
			}
			e, n := readLeaf(l[4:])
			to, bad := strconv.Atoi(l[i+5:])
			if n == 0 || 4+n != i || e.Kind == 't' || bad != nil {
				return nil, fmt.Sprintf("line %q is no transition", l)
			}
			s := &ss[len(ss)-1]
			s.on, s.to = append(s.on, e), append(s.to, to)
		default:
			return nil, fmt.Sprintf("line %q is out of place", l)
		}
	}
	for n, s := range ss {
		for _, t := range s.to {
			if t < 0 || t >= len(ss) {
				return nil, fmt.Sprintf("S%d goes on to S%d, which is not listed", n, t)
			}
		}
	}
	return ss, ""
}

func keys(m map[string]bool) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// checkFSA walks the printed automaton and the one of the lexical rules together.
func checkFSA(text string, l *LexGram) string {
	ss, e := readFSA(text)
	if e != "" {
		return "lexfsa: " + e
	}
	if len(ss) == 0 {
		return "lexfsa: there are no states"
	}
	runes := append([]rune{}, Probe...)
	have := map[rune]bool{}
	for _, r := range runes {
		have[r] = true
	}
	add := func(r rune) {
		if !have[r] {
			have[r] = true
			runes = append(runes, r)
		}
	}
	for i, r := range l.Edges() {
		if i%7 == len(ss)%7 {
			add(r)
		}
	}
	for _, s := range ss {
		for _, e := range s.on {
			if e.Kind == 'c' {
				add(e.R)
			}
			if e.Kind == 'o' || e.Kind == 'n' {
				for _, r := range e.Set {
					add(r)
				}
			}
		}
	}
	type pair struct {
		s int
		k string
	}
	seen := map[pair]bool{}
	used := map[int]bool{}
	type job struct {
		s    int
		m    LexState
		path string
	}
	todo := []job{{0, l.Start(), ""}}
	seen[pair{0, todo[0].m.Key()}] = true
	for len(todo) > 0 {
		j := todo[0]
		todo = todo[1:]
		used[j.s] = true
		s := ss[j.s]
		want := j.m.Items()
		for it := range want {
			if !s.items[it] {
				return fmt.Sprintf("lexfsa: after %q S%d does not have %q", j.path, j.s, it)
			}
		}
		for it := range s.items {
			if !want[it] {
				return fmt.Sprintf("lexfsa: after %q S%d has %q", j.path, j.s, it)
			}
		}
		if got, want := keys(s.accept), keys(j.m.Accepts()); got != want {
			return fmt.Sprintf("lexfsa: after %q S%d accepts {%s} instead of {%s}", j.path, j.s, got, want)
		}
		for _, r := range runes {
			m := j.m.Step(r)
			to := -1
			for i, e := range s.on {
				if e.Match(r) {
					to = s.to[i]
					break
				}
			}
			if (to < 0) != m.Dead() {
				return fmt.Sprintf("lexfsa: after %q S%d goes on with %q is %v instead of %v", j.path, j.s, r, to >= 0, !m.Dead())
			}
			if to < 0 {
				continue
			}
			if p := (pair{to, m.Key()}); !seen[p] {
				if len(seen) > 2000 {
					return ""
				}
				seen[p] = true
				todo = append(todo, job{to, m, j.path + string(r)})
			}
		}
	}
	probe("lexical automata walked against the model")
	probeN("states of lexical automata walked", len(used))
	return ""
}

// ---------------------------------------------------------------- LR(1)

type dotted struct{ a, pos int }

type lrState struct {
	items map[dotted]map[string]bool
	next  map[string]int
	acts  map[string]string
}

// lrGram is a grammar with its start production as the reports number them.
type lrGram struct {
	c     *CFG
	text  map[string]dotted
	order []dotted
}

func (g *lrGram) body(a int) []CSym {
	if a == 0 {
		return []CSym{{NT: true, Name: g.c.NTs[0]}}
	}
	return g.c.Alts[a-1].Body
}

func (g *lrGram) item(d dotted) string {
	head := "G0"
	if d.a > 0 {
		head = g.c.NTs[g.c.Alts[d.a-1].Head]
	}
	b := g.body(d.a)
	s := head + " :"
	if len(b) == 0 {
		return s + "•"
	}
	for i, y := range b {
		s += " "
		if i == d.pos {
			s += "•"
		}
		s += y.Name
	}
	if d.pos == len(b) {
		s += "•"
	}
	return s
}

// newLRGram is nil if two items have the same text or a rule derives no string.
func newLRGram(c *CFG) *lrGram {
	if !c.Productive() {
		return nil
	}
	g := &lrGram{c: c, text: map[string]dotted{}}
	for a := 0; a <= len(c.Alts); a++ {
		for p := 0; p <= len(g.body(a)); p++ {
			d := dotted{a, p}
			t := g.item(d)
			if _, twice := g.text[t]; twice {
				return nil
			}
			g.text[t] = d
			g.order = append(g.order, d)
		}
	}
	return g
}

func (g *lrGram) readStates(text string) (ss []lrState, err string) {
	in := ""
	for _, l := range strings.Split(text, "\n") {
		bad := fmt.Sprintf("line %q is out of place", l)
		switch {
		case l == "":
			continue
		case in == "" || in == "actions" && strings.HasPrefix(l, "S"):
			if l != fmt.Sprintf("S%d {", len(ss)) {
				return nil, fmt.Sprintf("line %q where S%d should begin", l, len(ss))
			}
			ss = append(ss, lrState{map[dotted]map[string]bool{}, map[string]int{}, map[string]string{}})
			in = "items"
			continue
		case in == "items" && l == "}":
			in = "end"
			continue
		case in == "end" && l == "Transitions:":
			in = "transitions"
			continue
		case in == "transitions" && l == "Actions:":
			in = "actions"
			continue
		}
		s := ss[len(ss)-1]
		switch in {
		case "items":
			best := ""
			for t := range g.text {
				if len(t) > len(best) && strings.HasPrefix(l, "    "+t+" {") {
					best = t
				}
			}
			la, ok := strings.CutPrefix(l, "    "+best+" {")
			la, ok1 := strings.CutSuffix(la, "}")
			if best == "" || !ok || !ok1 {
				return nil, fmt.Sprintf("line %q is no item", l)
			}
			d := g.text[best]
			if s.items[d] != nil {
				return nil, fmt.Sprintf("S%d has the item %q twice", len(ss)-1, best)
			}
			s.items[d] = map[string]bool{}
			for _, t := range strings.Split(la, ", ") {
				s.items[d][t] = true
			}
		case "transitions":
			i := strings.LastIndex(l, " -> ")
			if i < 1 || l[0] != '\t' {
				return nil, bad
			}
			n, e := strconv.Atoi(l[i+4:])
			if _, twice := s.next[l[1:i]]; e != nil || twice {
				return nil, bad
			}
			s.next[l[1:i]] = n
		case "actions":
			i := strings.LastIndex(l, ": ")
			if i < 1 || l[0] != '\t' {
				return nil, bad
			}
			if _, twice := s.acts[l[1:i]]; twice {
				return nil, bad
			}
			s.acts[l[1:i]] = l[i+2:]
		default:
			return nil, bad
		}
	}
	for n, s := range ss {
		for y, t := range s.next {
			if t < 0 || t >= len(ss) {
				return nil, fmt.Sprintf("S%d goes on with %s to S%d, which is not listed", n, y, t)
			}
		}
	}
	return ss, ""
}

type itemSet map[dotted]map[string]bool

func (g *lrGram) closure(kernel itemSet) itemSet {
	out := itemSet{}
	type one struct {
		d dotted
		t string
	}
	var todo []one
	add := func(d dotted, t string) {
		if out[d] == nil {
			out[d] = map[string]bool{}
		}
		if !out[d][t] {
			out[d][t] = true
			todo = append(todo, one{d, t})
		}
	}
	for d, ts := range kernel {
		for t := range ts {
			add(d, t)
		}
	}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		b := g.body(x.d.a)
		if x.d.pos == len(b) || !b[x.d.pos].NT {
			continue
		}
		la, nul := g.c.FirstOf(b[x.d.pos+1:])
		if nul {
			la[x.t] = true
		}
		for _, a := range g.c.Of[b[x.d.pos].I] {
			for t := range la {
				add(dotted{a + 1, 0}, t)
			}
		}
	}
	return out
}

// moves are the kernels after each symbol.
func (g *lrGram) moves(s itemSet) map[string]itemSet {
	m := map[string]itemSet{}
	for d, ts := range s {
		b := g.body(d.a)
		if d.pos == len(b) {
			continue
		}
		y := b[d.pos].Name
		if m[y] == nil {
			m[y] = itemSet{}
		}
		m[y][dotted{d.a, d.pos + 1}] = ts
	}
	return m
}

func (g *lrGram) show(s itemSet) string {
	var ls []string
	for d, ts := range s {
		ls = append(ls, g.item(d)+" {"+keys(ts)+"}")
	}
	sort.Strings(ls)
	return strings.Join(ls, "; ")
}

// kernel of a state: what is not the closure's.
func (g *lrGram) kernel(s itemSet) itemSet {
	k := itemSet{}
	for d, ts := range s {
		if d.pos > 0 || d.a == 0 {
			k[d] = ts
		}
	}
	return k
}

// actions of a state: all, and the one that is taken.
func (g *lrGram) actions(s lrState) (all map[string]map[string]bool, taken map[string]string) {
	all, taken = map[string]map[string]bool{}, map[string]string{}
	best := map[string]int{}
	add := func(t, act string, rank int) {
		if all[t] == nil {
			all[t] = map[string]bool{}
		}
		all[t][act] = true
		if r, ok := best[t]; !ok || rank < r {
			best[t], taken[t] = rank, act
		}
	}
	for d, ts := range s.items {
		b := g.body(d.a)
		if d.pos < len(b) {
			if y := b[d.pos]; !y.NT {
				add(y.Name, fmt.Sprintf("Shift(%d)", s.next[y.Name]), -1)
			}
			continue
		}
		for t := range ts {
			if d.a == 0 {
				add(t, "accept", -2)
			} else {
				add(t, fmt.Sprintf("Reduce(%d)", d.a), d.a)
			}
		}
	}
	return
}

// checkStates decides whether the printed states are the collection they should be:
// Knuth's, or one that is consistent (Pager's).
func (g *lrGram) checkStates(ss []lrState, knuth bool) string {
	if len(ss) == 0 {
		return "there are no states"
	}
	start := itemSet{{0, 0}: {EOF: true}}
	if want, got := g.show(g.closure(start)), g.show(ss[0].items); want != got {
		return fmt.Sprintf("S0 is %s instead of %s", short(got), short(want))
	}
	texts := map[string]int{}
	for n, s := range ss {
		if want, got := g.show(g.closure(g.kernel(s.items))), g.show(s.items); want != got {
			return fmt.Sprintf("S%d is not closed: %s instead of %s", n, short(got), short(want))
		}
		if m, twice := texts[g.show(s.items)]; twice {
			return fmt.Sprintf("S%d is S%d again", n, m)
		}
		texts[g.show(s.items)] = n
	}
	reach, todo := map[int]bool{0: true}, []int{0}
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		ms := g.moves(ss[n].items)
		for y := range ss[n].next {
			if ms[y] == nil {
				return fmt.Sprintf("S%d goes on with %s, which is not next in any item", n, y)
			}
		}
		for y, k := range ms {
			to, ok := ss[n].next[y]
			if !ok {
				return fmt.Sprintf("S%d does not go on with %s", n, y)
			}
			if !reach[to] {
				reach[to] = true
				todo = append(todo, to)
			}
			have := g.kernel(ss[to].items)
			if knuth {
				if want, got := g.show(k), g.show(have); want != got {
					return fmt.Sprintf("S%d goes on with %s to S%d, which has %s instead of %s", n, y, to, short(got), short(want))
				}
				continue
			}
			same := len(have) == len(k)
			for d, ts := range k {
				same = same && have[d] != nil
				for t := range ts {
					same = same && have[d][t]
				}
			}
			if !same {
				return fmt.Sprintf("S%d goes on with %s to S%d, which has %s and not all of %s", n, y, to, short(g.show(have)), short(g.show(k)))
			}
		}
		_, taken := g.actions(ss[n])
		for t, a := range taken {
			if got := ss[n].acts[t]; got != a {
				return fmt.Sprintf("S%d has the action %q with %s instead of %q", n, got, t, a)
			}
		}
		if len(taken) != len(ss[n].acts) {
			return fmt.Sprintf("S%d has %d actions instead of %d", n, len(ss[n].acts), len(taken))
		}
	}
	if len(reach) < len(ss) {
		return fmt.Sprintf("%d of %d states are never reached", len(ss)-len(reach), len(ss))
	}
	probeN("states of LR(1) parsers compared", len(ss))
	return ""
}

// readConflicts reads LR1_conflicts.txt: per state and terminal the actions.
func readConflicts(text string) (m map[string]string, err string) {
	m = map[string]string{}
	ls := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	for i, l := range ls[1:] {
		num, rest, ok := strings.Cut(l, ") S")
		if n, e := strconv.Atoi(strings.TrimSpace(num)); !ok || e != nil || n != i+1 {
			return nil, fmt.Sprintf("line %q should be number %d", l, i+1)
		}
		st, rest, _ := strings.Cut(rest, ": ")
		j := strings.LastIndex(rest, ": {")
		if j < 0 || !strings.HasSuffix(rest, "}") {
			return nil, fmt.Sprintf("line %q is no conflict", l)
		}
		var as []string
		for _, a := range strings.Split(rest[j+3:len(rest)-1], ",") {
			as = append(as, strings.TrimSpace(a))
		}
		sort.Strings(as)
		k := "S" + st + " with " + rest[:j]
		if _, twice := m[k]; twice {
			return nil, "two conflicts of " + k
		}
		m[k] = strings.Join(as, " ")
	}
	if want := fmt.Sprintf("%d LR(1) Conflicts:", len(m)); ls[0] != want {
		return nil, fmt.Sprintf("the first line is %q instead of %q", ls[0], want)
	}
	return m, ""
}

func has(args []string, a string) bool {
	for _, x := range args {
		if x == a {
			return true
		}
	}
	return false
}

// checkReports looks at the last two runs: the last resolves conflicts.
func (c *ProcCase) checkReports() string {
	src := c.Tree[c.File]
	if strings.HasSuffix(c.File, ".md") {
		src = fencedText(src)
	}
	g, tokids, ok := readGram(src)
	trees, results := c.history(len(c.Steps))
	for _, r := range results {
		if r.Hang {
			return "hang: the run does not end"
		}
	}
	if len(c.Steps) == 0 || c.last().Run == nil || !has(c.last().Run.Args, "-v") {
		return ""
	}
	for _, s := range c.Steps {
		if s.Run == nil {
			return ""
		}
	}
	if m := c.refused(results[len(results)-1]); m != "" {
		return m
	}
	if g == nil || !ok && len(g.Rules) > 0 {
		return ""
	}
	if len(g.Rules) > 0 && c.LR && g.FindRule("G0") == nil {
		if m := c.checkLR(g, trees, results); m != "" {
			return m
		}
	}
	after, res := trees[len(trees)-1], results[len(results)-1]
	if res.Exit != 0 {
		return ""
	}
	report := func(n string) (string, string) {
		t, ok := after[path.Join(c.Base, n)]
		if !ok {
			return "", n + " is not written"
		}
		return t, ""
	}
	text, e := report("symbols.txt")
	if e != "" {
		return "symbols: " + e
	}
	var want []string
	for t := range tokids {
		want = append(want, t)
	}
	for _, t := range g.Terminals() {
		if t.K == 'S' {
			want = append(want, t.Name)
		}
	}
	for _, r := range g.Rules {
		want = append(want, r.Head)
	}
	if m := sameLines("symbols", text, want); m != "" {
		return m
	}
	if text, e = report("grammar_slots.txt"); e != "" {
		return "slots: " + e
	}
	want = nil
	for _, r := range g.Rules {
		for _, a := range r.Alts {
			for p := 0; p <= len(a); p++ {
				s := r.Head + " : "
				for i, y := range a {
					if i == p {
						s += "∙"
					}
					s += y.Name + " "
				}
				if p == len(a) {
					s += "∙"
				}
				want = append(want, s)
			}
		}
	}
	if m := sameLines("slots", text, want); m != "" {
		return m
	}
	if text, e = report("lexfsa.txt"); e != "" {
		return "lexfsa: " + e
	}
	if l := readLexical(src, g); l != nil {
		l.Build()
		if l.Plain(false) {
			if m := checkFSA(text, l); m != "" {
				return m
			}
		}
	}
	probe("grammars whose reports were compared")
	return ""
}

func (c *ProcCase) checkLR(g *Gram, trees []Tree, results []*Result) string {
	n := len(results)
	last := results[n-1]
	if last.Exit != 0 {
		return ""
	}
	lg := newLRGram(g.Compile())
	if lg == nil {
		return ""
	}
	after := trees[n]
	text, ok := after[path.Join(c.Base, "LR1_states.txt")]
	if !ok {
		return "states: LR1_states.txt is not written"
	}
	ss, e := lg.readStates(text)
	if e != "" {
		return "states: " + e
	}
	if m := lg.checkStates(ss, has(c.last().Run.Args, "-knuth")); m != "" {
		return "states: " + m
	}
	items, ok := after[path.Join(c.Base, "CFG_items.txt")]
	if !ok {
		return "items: CFG_items.txt is not written"
	}
	if m := lg.checkItems(items); m != "" {
		return "items: " + m
	}
	want := map[string]string{}
	for i, s := range ss {
		all, _ := lg.actions(s)
		for t, as := range all {
			if len(as) > 1 {
				want[fmt.Sprintf("S%d with %s", i, t)] = keys(as)
			}
		}
	}
	// with and without -resolve_conflicts
	for i := n - 1; i >= 0; i-- {
		resolve := has(c.Steps[i].Run.Args, "-resolve_conflicts")
		text, written := trees[i+1][path.Join(c.Base, "LR1_conflicts.txt")]
		if written != (len(want) > 0) {
			return fmt.Sprintf("conflicts: there are %d; LR1_conflicts.txt exists is %v", len(want), written)
		}
		if (results[i].Exit == 0) != (resolve || len(want) == 0) {
			return fmt.Sprintf("conflicts: there are %d; exit status %d", len(want), results[i].Exit)
		}
		said := strings.Contains(results[i].Out, fmt.Sprintf("%d LR(1) conflicts. See LR1_conflicts.txt\n", len(want)))
		if said != (len(want) > 0) {
			return fmt.Sprintf("conflicts: there are %d; gogll says %q", len(want), short(results[i].Out))
		}
		if !written {
			continue
		}
		got, e := readConflicts(text)
		if e != "" {
			return "conflicts: " + e
		}
		for k, as := range want {
			if got[k] != as {
				return fmt.Sprintf("conflicts: of %s are {%s} instead of {%s}", k, got[k], as)
			}
		}
		if len(got) > len(want) {
			return fmt.Sprintf("conflicts: %d are listed and there are %d", len(got), len(want))
		}
		probe("lists of conflicts compared")
	}
	return ""
}

func (g *lrGram) checkItems(text string) string {
	num := map[dotted]int{}
	next := map[dotted]int{}
	var cur *dotted
	n := 0
	for _, l := range strings.Split(text, "\n") {
		if l == "" {
			continue
		}
		if s, ok := strings.CutPrefix(l, "\tnext: "); ok && cur != nil {
			k, e := strconv.Atoi(s)
			if _, twice := next[*cur]; e != nil || twice {
				return fmt.Sprintf("line %q is out of place", l)
			}
			next[*cur] = k
			continue
		}
		s, ok := strings.CutPrefix(l, fmt.Sprintf("%d: ", n))
		d, known := g.text[s]
		if _, twice := num[d]; !ok || !known || twice {
			return fmt.Sprintf("line %q is not the item %d", l, n)
		}
		num[d] = n
		cur = &d
		n++
	}
	for _, d := range g.order {
		i, ok := num[d]
		if !ok {
			return fmt.Sprintf("%q is missing", g.item(d))
		}
		k, has := next[d]
		if d.pos == len(g.body(d.a)) {
			if has {
				return fmt.Sprintf("%d has a next item", i)
			}
			continue
		}
		if want := num[dotted{d.a, d.pos + 1}]; !has || k != want {
			return fmt.Sprintf("the next item of %d is %d instead of %d", i, k, want)
		}
	}
	return ""
}

// ---------------------------------------------------------------- cases

func genReports(r *Rng, emit func(*ProcCase) bool) {
	g := randGCase(r, 0)
	var opts []string
	for _, o := range g.opts {
		if o != "-v" && o != "-resolve_conflicts" {
			opts = append(opts, o)
		}
	}
	if !g.LR && r.P(45) {
		g.LR = true
		opts = append(opts, []string{"-knuth", "-pager"}[r.N(2)])
		for i, o := range opts {
			if o == "-gll" {
				opts = append(opts[:i:i], opts[i+1:]...)
				break
			}
		}
	}
	g.opts = append(opts, "-v")
	g.setArgs()
	valid := true
	switch k := r.N(100); {
	case k < 20:
		gr := RandGram(r, 2+r.N(7), 1+r.N(4), 1+r.N(5))
		g.Text, g.Tag = gr.Text(0), gr.Tag
	case k < 50:
		gr := RandLR(r)
		g.Text, g.Tag = gr.Text(0), gr.Tag
	case k < 62:
		l := append(LibraryGLL(), LibraryLR()...)
		gr := l[r.N(len(l))]
		g.Text, g.Tag = gr.Text(0), gr.Tag
	case k < 85:
		g.Text, g.Tag, valid = RandLex(r, true).Text(), "lex", false
	default:
		g.Text, g.Tag = randGrammarText(r, g.LR, false)
		valid = false
	}
	if g.md && !strings.Contains(g.Text, "```") {
		g.Text = "# Grammar\n\n```\n" + g.Text + "```\n"
	}
	c := procCase("reports", g)
	c.Valid = valid
	if r.P(25) {
		garbage(r, g.Base, c.Tree, g.Rust, false)
	}
	for n := 0; n < 2; n++ {
		d := c.clone()
		for m := 0; m < 2; m++ {
			cfg := calm()
			if r.P(90) {
				randMap(r, &cfg)
			}
			h := g
			if m == 0 && !g.LR {
				continue
			}
			if g.LR {
				h.opts = append([]string{}, g.opts...)
				quiet := m == 0 && r.P(40)
				if quiet { // the list of conflicts is there without -v too
					h.opts = h.opts[:len(h.opts)-1]
				}
				if m == 1 || quiet && r.P(50) {
					h.opts = append(h.opts, "-resolve_conflicts")
				}
				h.setArgs()
			}
			d.run(h, cfg)
		}
		if !emit(d) {
			return
		}
	}
}
