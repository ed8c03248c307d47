package model

import (
	"sort"
	"strings"
)

// CSym is a symbol of a compiled grammar: a nonterminal (I is its number) or a
// terminal (Name is the token type id).
type CSym struct {
	NT   bool
	I    int
	Name string
}

type CAlt struct {
	Head, Alt int // alternate of the head
	Body      []CSym
}

// CFG is a grammar in the form the reference models work on.
type CFG struct {
	NTs  []string
	Of   [][]int // alternates of each nonterminal, indices into Alts
	Alts []CAlt
	ix   map[string]int

	Nullable []bool
	First    []map[string]bool
	Follow   []map[string]bool
}

const EOF = "$"

func (g *Gram) Compile() *CFG {
	c := &CFG{ix: map[string]int{}}
	for i, r := range g.Rules {
		c.NTs = append(c.NTs, r.Head)
		c.ix[r.Head] = i
	}
	for i, r := range g.Rules {
		var of []int
		for j, a := range r.Alts {
			ca := CAlt{Head: i, Alt: j}
			for _, s := range a {
				if s.K == 'N' {
					ca.Body = append(ca.Body, CSym{NT: true, I: c.ix[s.Name], Name: s.Name})
				} else {
					ca.Body = append(ca.Body, CSym{Name: s.Name})
				}
			}
			of = append(of, len(c.Alts))
			c.Alts = append(c.Alts, ca)
		}
		c.Of = append(c.Of, of)
	}
	c.sets()
	return c
}

func (c *CFG) NT(name string) int {
	if i, ok := c.ix[name]; ok {
		return i
	}
	return -1
}

func (c *CFG) sets() {
	n := len(c.NTs)
	c.Nullable = make([]bool, n)
	for i := 0; i < n; i++ {
		c.First = append(c.First, map[string]bool{})
		c.Follow = append(c.Follow, map[string]bool{})
	}
	c.Follow[0][EOF] = true
	for ch := true; ch; {
		ch = false
		add := func(m map[string]bool, t string) {
			if !m[t] {
				m[t], ch = true, true
			}
		}
		for _, a := range c.Alts {
			nul := true
			for _, s := range a.Body {
				if !s.NT {
					add(c.First[a.Head], s.Name)
					nul = false
					break
				}
				for t := range c.First[s.I] {
					add(c.First[a.Head], t)
				}
				if !c.Nullable[s.I] {
					nul = false
					break
				}
			}
			if nul && !c.Nullable[a.Head] {
				c.Nullable[a.Head], ch = true, true
			}
			for i, s := range a.Body {
				if !s.NT {
					continue
				}
				f, nul := c.FirstOf(a.Body[i+1:])
				for t := range f {
					add(c.Follow[s.I], t)
				}
				if nul {
					for t := range c.Follow[a.Head] {
						add(c.Follow[s.I], t)
					}
				}
			}
		}
	}
}

// FirstOf is the first set of a symbol string and whether it derives the empty string.
func (c *CFG) FirstOf(body []CSym) (map[string]bool, bool) {
	m := map[string]bool{}
	for _, s := range body {
		if !s.NT {
			m[s.Name] = true
			return m, false
		}
		for t := range c.First[s.I] {
			m[t] = true
		}
		if !c.Nullable[s.I] {
			return m, false
		}
	}
	return m, true
}

// Lookahead is FIRST(body FOLLOW(head)).
func (c *CFG) Lookahead(head int, body []CSym) map[string]bool {
	m, nul := c.FirstOf(body)
	if nul {
		for t := range c.Follow[head] {
			m[t] = true
		}
	}
	return m
}

// ---------------------------------------------------------------- forest

// Forest is the set of all derivations of a terminal string.
type Forest struct {
	C     *CFG
	W     []string
	n     int
	pre   [][][]bool // [alt][pos] -> (n+1)*(n+1): the first pos symbols derive w[i:j]
	nt    [][]bool   // [nt] -> spans
	chart *Chart     // of long strings, instead of pre and nt
	Reach map[NSpan]bool
}

type NSpan struct{ A, I, J int }

// Node is a BSR element: alternate, extents and pivot.
type BNode struct{ Alt, L, P, R int }

// dense is the length up to which forests are tables of all spans. Those of longer
// strings have only spans that a left context can call for.
const dense = 26

func (c *CFG) NewForest(w []string) *Forest { return c.newForest(w, len(w) > dense) }

func (c *CFG) newForest(w []string, sparse bool) *Forest {
	f := &Forest{C: c, W: w, n: len(w)}
	if sparse {
		f.chart = c.Chart(w, 0)
		return f
	}
	m := f.n + 1
	for _, a := range c.Alts {
		var ps [][]bool
		for p := 0; p <= len(a.Body); p++ {
			ps = append(ps, make([]bool, m*m))
		}
		for i := 0; i < m; i++ {
			ps[0][i*m+i] = true
		}
		f.pre = append(f.pre, ps)
	}
	for range c.NTs {
		f.nt = append(f.nt, make([]bool, m*m))
	}
	for l := 0; l <= f.n; l++ {
		for ch := true; ch; {
			ch = false
			for ai, a := range c.Alts {
				for p := 1; p <= len(a.Body); p++ {
					s := a.Body[p-1]
					for i := 0; i+l <= f.n; i++ {
						j := i + l
						if f.pre[ai][p][i*m+j] {
							continue
						}
						ok := false
						if !s.NT {
							ok = j > i && f.pre[ai][p-1][i*m+j-1] && w[j-1] == s.Name
						} else {
							for k := i; k <= j && !ok; k++ {
								ok = f.pre[ai][p-1][i*m+k] && f.nt[s.I][k*m+j]
							}
						}
						if ok {
							f.pre[ai][p][i*m+j] = true
							ch = true
						}
					}
				}
				for i := 0; i+l <= f.n; i++ {
					if f.pre[ai][len(a.Body)][i*m+i+l] && !f.nt[a.Head][i*m+i+l] {
						f.nt[a.Head][i*m+i+l] = true
						ch = true
					}
				}
			}
		}
	}
	return f
}

func (f *Forest) sym(s CSym, i, j int) bool {
	if s.NT {
		return f.Has(s.I, i, j)
	}
	return j == i+1 && f.W[i] == s.Name
}

// Pre: the first pos symbols of alternate a derive w[i:j].
func (f *Forest) Pre(a, pos, i, j int) bool {
	if i < 0 || j < i || j > f.n {
		return false
	}
	if f.chart != nil {
		return pos == 0 && i == j || f.chart.sets[j][eitem{a, pos, i}]
	}
	return f.pre[a][pos][i*(f.n+1)+j]
}

// Has: nonterminal a derives w[i:j].
func (f *Forest) Has(a, i, j int) bool {
	if i < 0 || j < i || j > f.n {
		return false
	}
	if f.chart != nil {
		return f.chart.done[j][espan{a, i}]
	}
	return f.nt[a][i*(f.n+1)+j]
}

func (f *Forest) Accept() bool { return f.Has(0, 0, f.n) }

// Valid tells whether b is an element of some derivation of its head over its extent.
func (f *Forest) Valid(b BNode) bool {
	body := f.C.Alts[b.Alt].Body
	if b.L < 0 || b.P < b.L || b.R < b.P || b.R > f.n {
		return false
	}
	if len(body) == 0 {
		return b.L == b.P && b.P == b.R
	}
	return f.Pre(b.Alt, len(body)-1, b.L, b.P) && f.sym(body[len(body)-1], b.P, b.R)
}

// Nodes are the BSR elements of nonterminal span s.
func (f *Forest) Nodes(s NSpan) (ns []BNode) {
	for _, a := range f.C.Of[s.A] {
		n := len(f.C.Alts[a].Body)
		if n == 0 {
			if s.I == s.J {
				ns = append(ns, BNode{a, s.I, s.I, s.I})
			}
			continue
		}
		for _, k := range f.Pivots(a, n, s.I, s.J) {
			ns = append(ns, BNode{a, s.I, k, s.J})
		}
	}
	return
}

// Pivots of the string of the first pos symbols of alternate a over [i,j].
func (f *Forest) Pivots(a, pos, i, j int) (ks []int) {
	y := f.C.Alts[a].Body[pos-1]
	if !y.NT {
		if j > i && f.W[j-1] == y.Name && f.Pre(a, pos-1, i, j-1) {
			ks = append(ks, j-1)
		}
		return
	}
	if f.chart != nil {
		l := f.chart.starts[j][y.I]
		for n := sort.SearchInts(l, i); n < len(l); n++ {
			if f.Pre(a, pos-1, i, l[n]) {
				ks = append(ks, l[n])
			}
		}
		return
	}
	for k := i; k <= j; k++ {
		if f.Pre(a, pos-1, i, k) && f.Has(y.I, k, j) {
			ks = append(ks, k)
		}
	}
	return
}

// Spans of the symbol at position p in all derivations of b.
func (f *Forest) Spans(b BNode, p int) (sp [][2]int) {
	body := f.C.Alts[b.Alt].Body
	cur := map[int]bool{b.R: true}
	for q := len(body) - 1; q >= 0; q-- {
		var here [][2]int
		next := map[int]bool{}
		for r := range cur {
			if q == len(body)-1 {
				here = append(here, [2]int{b.P, r})
				next[b.P] = true
				continue
			}
			for _, k := range f.Pivots(b.Alt, q+1, b.L, r) {
				here = append(here, [2]int{k, r})
				next[k] = true
			}
		}
		if q == p {
			sort.Slice(here, func(i, j int) bool {
				return here[i][0] < here[j][0] || here[i][0] == here[j][0] && here[i][1] < here[j][1]
			})
			return here
		}
		cur = next
	}
	return nil
}

// Kids are the BSR elements of the nonterminal at position p of b.
func (f *Forest) Kids(b BNode, p int) (ks []BNode) {
	for _, s := range f.Spans(b, p) {
		ks = append(ks, f.Nodes(NSpan{f.C.Alts[b.Alt].Body[p].I, s[0], s[1]})...)
	}
	return
}

// Reachable lists the nonterminal spans of the derivations of the whole input.
func (f *Forest) Reachable() []NSpan {
	var out []NSpan
	if !f.Accept() {
		return nil
	}
	f.Reach = map[NSpan]bool{}
	push := func(s NSpan) {
		if !f.Reach[s] {
			f.Reach[s] = true
			out = append(out, s)
		}
	}
	push(NSpan{0, 0, f.n})
	for i := 0; i < len(out); i++ {
		for _, b := range f.Nodes(out[i]) {
			for p, s := range f.C.Alts[b.Alt].Body {
				if s.NT {
					for _, sp := range f.Spans(b, p) {
						push(NSpan{s.I, sp[0], sp[1]})
					}
				}
			}
		}
	}
	return out
}

// Ambiguous tells whether the input has more than one derivation.
func (f *Forest) Ambiguous() bool {
	for _, s := range f.Reachable() {
		ns := f.Nodes(s)
		if len(ns) != 1 {
			return true
		}
		for p := range f.C.Alts[ns[0].Alt].Body {
			if len(f.Spans(ns[0], p)) != 1 {
				return true
			}
		}
	}
	return false
}

// Tree is a derivation of an unambiguous input: postorder calls.
type Call struct {
	NT, Alt int
	Args    []Arg
}
type Arg struct {
	Call int // index of the call; -1: a token
	Tok  int
}

// Calls lists the productions of the (only) derivation bottom-up, left to right.
func (f *Forest) Calls() (cs []Call) {
	var walk func(s NSpan) int
	walk = func(s NSpan) int {
		b := f.Nodes(s)[0]
		a := f.C.Alts[b.Alt]
		c := Call{NT: a.Head, Alt: a.Alt}
		for p, y := range a.Body {
			sp := f.Spans(b, p)[0]
			if y.NT {
				c.Args = append(c.Args, Arg{Call: walk(NSpan{y.I, sp[0], sp[1]})})
			} else {
				c.Args = append(c.Args, Arg{Call: -1, Tok: sp[0]})
			}
		}
		cs = append(cs, c)
		return len(cs) - 1
	}
	walk(NSpan{0, 0, f.n})
	return
}

// ---------------------------------------------------------------- LR(1)

type lrItem struct {
	a, pos int
	la     string
}

// Table is Knuth's LR(1) parser. Conflicts are resolved as usual: accept over all,
// shift over reduce, the earlier alternate over the later.
type Table struct {
	c      *CFG
	action []map[string]lrAct
	next   []map[int]int
	LR1    bool // there were no conflicts
	Reds   bool // there were conflicts between reductions
}

type lrAct struct {
	kind byte // 's', 'r', 'a'
	to   int
}

// LR1 tells whether the grammar is LR(1), by Knuth's construction; known is false
// if it took more than limit states.
func (c *CFG) LR1(limit int) (isLR1, known bool, states int) {
	t, states := c.Table(limit)
	if t == nil {
		return false, false, states
	}
	return t.LR1, true, states
}

// Table makes the parser; nil if it would have more than limit states.
func (c *CFG) Table(limit int) (tab *Table, states int) {
	tab = &Table{c: c, LR1: true}
	// alternate -1 is START : NT0
	body := func(a int) []CSym {
		if a < 0 {
			return []CSym{{NT: true, I: 0, Name: c.NTs[0]}}
		}
		return c.Alts[a].Body
	}
	closure := func(is []lrItem) []lrItem {
		set := map[lrItem]bool{}
		todo := append([]lrItem{}, is...)
		for _, i := range is {
			set[i] = true
		}
		for len(todo) > 0 {
			it := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			b := body(it.a)
			if it.pos == len(b) || !b[it.pos].NT {
				continue
			}
			la, nul := c.FirstOf(b[it.pos+1:])
			if nul {
				la[it.la] = true
			}
			for _, a := range c.Of[b[it.pos].I] {
				for t := range la {
					n := lrItem{a, 0, t}
					if !set[n] {
						set[n] = true
						todo = append(todo, n)
					}
				}
			}
		}
		var out []lrItem
		for i := range set {
			out = append(out, i)
		}
		sort.Slice(out, func(i, j int) bool {
			x, y := out[i], out[j]
			if x.a != y.a {
				return x.a < y.a
			}
			if x.pos != y.pos {
				return x.pos < y.pos
			}
			return x.la < y.la
		})
		return out
	}
	key := func(is []lrItem) string {
		var b strings.Builder
		for _, i := range is {
			b.WriteString(string(rune(i.a+2)) + string(rune(i.pos+1)) + i.la + "\x00")
		}
		return b.String()
	}
	s0 := closure([]lrItem{{-1, 0, EOF}})
	seen := map[string]int{key(s0): 0}
	todo := [][]lrItem{s0}
	for len(todo) > 0 {
		s := todo[0]
		todo = todo[1:]
		states++
		if states > limit {
			return nil, states
		}
		act, next := map[string]lrAct{}, map[int]int{}
		moves := map[CSym][]lrItem{}
		var order []CSym
		for _, it := range s {
			b := body(it.a)
			if it.pos == len(b) {
				a := lrAct{'r', it.a}
				if it.a < 0 {
					a.kind = 'a'
				}
				if _, ok := act[it.la]; ok { // in the order of the alternates: the first stays
					tab.LR1, tab.Reds = false, true
				} else {
					act[it.la] = a
				}
				continue
			}
			y := b[it.pos]
			if moves[y] == nil {
				order = append(order, y)
			}
			moves[y] = append(moves[y], lrItem{it.a, it.pos + 1, it.la})
		}
		for _, y := range order {
			t := closure(moves[y])
			k := key(t)
			n, ok := seen[k]
			if !ok {
				n = len(seen)
				seen[k] = n
				todo = append(todo, t)
			}
			if y.NT {
				next[y.I] = n
				continue
			}
			if _, ok := act[y.Name]; ok {
				tab.LR1 = false
			}
			act[y.Name] = lrAct{'s', n}
		}
		tab.action, tab.next = append(tab.action, act), append(tab.next, next)
	}
	return tab, states
}

// Run parses w: the action calls up to the end, and where it ended: an error at
// token stop (with what was expected there) or acceptance. done is false if the
// parser did not end within limit steps.
func (t *Table) Run(w []string, limit int) (calls []Call, accept bool, stop int, expected []string, done bool) {
	type elem struct {
		state int
		val   Arg
	}
	stack := []elem{{}}
	for n := 0; n < limit; n++ {
		la := EOF
		if stop < len(w) {
			la = w[stop]
		}
		s := stack[len(stack)-1].state
		a, ok := t.action[s][la]
		if !ok {
			for e := range t.action[s] {
				expected = append(expected, e)
			}
			sort.Strings(expected)
			return calls, false, stop, expected, true
		}
		switch a.kind {
		case 'a':
			return calls, true, stop, nil, true
		case 's':
			stack = append(stack, elem{a.to, Arg{Call: -1, Tok: stop}})
			stop++
		case 'r':
			alt := t.c.Alts[a.to]
			m := len(stack) - len(alt.Body)
			c := Call{NT: alt.Head, Alt: alt.Alt}
			for _, e := range stack[m:] {
				c.Args = append(c.Args, e.val)
			}
			stack = append(stack[:m], elem{t.next[stack[m-1].state][alt.Head], Arg{Call: len(calls), Tok: -1}})
			calls = append(calls, c)
		}
	}
	return calls, false, stop, nil, false
}

// ---------------------------------------------------------------- inputs

// Derive draws a sentence; nil if it became too long.
func (c *CFG) Derive(r *Rng, budget int) []string {
	cost := c.costs()
	var out []string
	steps := 0
	var gen func(s CSym, b int) bool
	gen = func(s CSym, b int) bool {
		steps++
		if steps > 2000 || len(out) > 3*budget+5 {
			return false
		}
		if !s.NT {
			out = append(out, s.Name)
			return true
		}
		var as []int
		for _, a := range c.Of[s.I] {
			if cost[a] <= b || cost[a] == minCost(cost, c.Of[s.I]) {
				as = append(as, a)
			}
		}
		a := as[r.N(len(as))]
		rest := b - cost[a]
		for _, y := range c.Alts[a].Body {
			x := 0
			if y.NT {
				if rest > 0 {
					x = r.N(rest + 1)
				}
				rest -= x
				x += minCost(cost, c.Of[y.I])
			}
			if !gen(y, x) {
				return false
			}
		}
		return true
	}
	if minCost(cost, c.Of[0]) >= 1<<20 {
		return nil
	}
	if !gen(CSym{NT: true}, budget) {
		return nil
	}
	if out == nil {
		out = []string{}
	}
	return out
}

// recursive tells for each alternate the positions of nonterminals that can lead
// back to its head.
func (c *CFG) recursive() [][]int {
	n := len(c.NTs)
	to := make([][]bool, n)
	for i := range to {
		to[i] = make([]bool, n)
		to[i][i] = true
	}
	for ch := true; ch; {
		ch = false
		for _, a := range c.Alts {
			for _, s := range a.Body {
				if s.NT {
					for j := range to[s.I] {
						if to[s.I][j] && !to[a.Head][j] {
							to[a.Head][j], ch = true, true
						}
					}
				}
			}
		}
	}
	var out [][]int
	for _, a := range c.Alts {
		var ps []int
		for p, s := range a.Body {
			if s.NT && to[s.I][a.Head] {
				ps = append(ps, p)
			}
		}
		out = append(out, ps)
	}
	return out
}

// DeriveLong draws a sentence of about n tokens; nil if the grammar has none.
func (c *CFG) DeriveLong(r *Rng, n int) []string {
	cost := c.costs()
	if minCost(cost, c.Of[0]) >= 1<<20 {
		return nil
	}
	rec := c.recursive()
	var out []string
	type job struct {
		s CSym
		n int
	}
	// a stack instead of recursion; the last is next
	todo := []job{{CSym{NT: true}, n}}
	for steps := 0; len(todo) > 0; steps++ {
		j := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if !j.s.NT {
			out = append(out, j.s.Name)
			continue
		}
		var as []int
		if steps < 20*n && j.n > 0 { // while there is something to give: alternates that go on
			for _, a := range c.Of[j.s.I] {
				if cost[a] < 1<<20 && len(rec[a]) > 0 {
					as = append(as, a)
				}
			}
			if len(as) == 0 || r.P(1) {
				for _, a := range c.Of[j.s.I] {
					if cost[a] < 1<<20 {
						as = append(as, a)
					}
				}
			}
		} else {
			m := minCost(cost, c.Of[j.s.I])
			for _, a := range c.Of[j.s.I] {
				if cost[a] == m || j.n > -3 && cost[a] < 2*m && r.P(50) {
					as = append(as, a)
				}
			}
		}
		if len(as) == 0 {
			return nil
		}
		a := as[r.N(len(as))]
		body := c.Alts[a].Body
		give := make([]int, len(body))
		rest := j.n
		for _, s := range body {
			if !s.NT {
				rest--
			}
		}
		if rest > 0 { // mostly to one symbol
			main := -1
			if len(rec[a]) > 0 {
				main = rec[a][r.N(len(rec[a]))]
			}
			for p, s := range body {
				if s.NT && main < 0 {
					main = p
				}
				if s.NT && p != main && rest > 0 {
					k := r.N(4)
					if r.P(3) {
						k = r.N(rest + 1)
					}
					give[p] = k
					rest -= k
				}
			}
			if main >= 0 {
				give[main] = rest
			}
		} else {
			for p := range give {
				give[p] = rest
			}
		}
		for p := len(body) - 1; p >= 0; p-- {
			todo = append(todo, job{body[p], give[p]})
		}
		if len(out) > 4*n+50 {
			return nil
		}
	}
	return out
}

// Damage changes a token string in one or two places; late: near the end.
func (c *CFG) Damage(r *Rng, ts, w []string, late bool) []string {
	t := func() string { return ts[r.N(len(ts))] }
	for n := 1 + r.N(2); n > 0; n-- {
		i := r.N(len(w) + 1)
		if late {
			i = len(w) - min(len(w), r.N(4))
		}
		switch r.N(5) {
		case 0:
			if i < len(w) {
				w = append(w[:i:i], w[i+1:]...)
			}
		case 1:
			w = append(w[:i:i], append([]string{t()}, w[i:]...)...)
		case 2:
			if i < len(w) {
				w = append(append([]string{}, w[:i]...), append([]string{t()}, w[i+1:]...)...)
			}
		case 3:
			w = w[:i]
		case 4:
			if i+1 < len(w) {
				w = append([]string{}, w...)
				w[i], w[i+1] = w[i+1], w[i]
			}
		}
	}
	return w
}

// InputLong draws a long string, a sentence or a damaged one, that a general parser
// can parse in work steps. At most max tokens; bad percent of them are damaged.
func (c *CFG) InputLong(r *Rng, ts []string, max, work, bad int) []string {
	if len(ts) == 0 {
		return nil
	}
	for n := max; n > 12; n = n / 2 {
		for try := 0; try < 3; try++ {
			w := c.DeriveLong(r, n/2+r.N(n/2))
			if w == nil || len(w) < n/4 || len(w) > max {
				continue
			}
			if r.P(bad) {
				w = c.Damage(r, ts, w, r.P(80))
			}
			if x := c.Chart(w, work); !x.Over {
				return w
			}
			if n > 400 {
				break
			}
		}
	}
	return nil
}

func minCost(cost []int, as []int) int {
	m := 1 << 20
	for _, a := range as {
		if cost[a] < m {
			m = cost[a]
		}
	}
	return m
}

// Productive tells whether every nonterminal derives a string.
func (c *CFG) Productive() bool {
	cost := c.costs()
	for _, as := range c.Of {
		if minCost(cost, as) >= 1<<20 {
			return false
		}
	}
	return true
}

// costs: smallest size of a derivation that begins with each alternate.
func (c *CFG) costs() []int {
	cost := make([]int, len(c.Alts))
	for i := range cost {
		cost[i] = 1 << 20
	}
	for ch := true; ch; {
		ch = false
		for i, a := range c.Alts {
			n := 1
			for _, s := range a.Body {
				if s.NT {
					n += minCost(cost, c.Of[s.I])
				} else {
					n++
				}
			}
			if n < cost[i] {
				cost[i], ch = n, true
			}
		}
	}
	return cost
}

// Input draws a token string: a sentence, a damaged sentence, or noise.
func (c *CFG) Input(r *Rng, ts []string, max int) []string {
	if len(ts) == 0 {
		return []string{}
	}
	t := func() string { return ts[r.N(len(ts))] }
	if k := r.N(100); k < 78 {
		w := c.Derive(r, 1+r.N(2*max))
		if w != nil && len(w) <= max {
			if k < 45 {
				return w
			}
			w = c.Damage(r, ts, w, false)
			if len(w) <= max {
				return w
			}
		}
	}
	var w []string
	for n := r.N(max + 1); n > 0; n-- {
		w = append(w, t())
	}
	return w
}
