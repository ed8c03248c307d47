package model

import "sort"

// ---------------------------------------------------------------- Earley's algorithm

type eitem struct{ a, pos, from int }
type espan struct{ nt, from int }

// Chart is Earley's chart of a terminal string.
type Chart struct {
	C    *CFG
	W    []string
	Stop int             // tokens that can be read
	Next map[string]bool // terminals that could come then, EOF if the input may end
	Work int             // pairs of items considered: a measure of the work of a general parser
	Over bool            // the limit on Work was passed; the rest is void

	sets   []map[eitem]bool
	done   []map[espan]bool // completed nonterminals by end
	starts []map[int][]int  // the same by nonterminal
}

// Chart is void (Over) if it takes more than limit steps; 0 is no limit.
func (c *CFG) Chart(w []string, limit int) *Chart {
	x := &Chart{C: c, W: w, sets: make([]map[eitem]bool, len(w)+1), done: make([]map[espan]bool, len(w)+1), starts: make([]map[int][]int, len(w)+1)}
	wait := make([]map[int][]eitem, len(w)+1)
	var order []eitem // of the next set
	for k := 0; k <= len(w); k++ {
		x.sets[k], x.done[k], x.starts[k] = map[eitem]bool{}, map[espan]bool{}, map[int][]int{}
		wait[k] = map[int][]eitem{}
		var todo []eitem
		add := func(it eitem) {
			x.Work++
			if !x.sets[k][it] {
				x.sets[k][it] = true
				todo = append(todo, it)
			}
		}
		for _, it := range order {
			add(it)
		}
		order = nil
		if k == 0 {
			for _, a := range c.Of[0] {
				add(eitem{a, 0, 0})
			}
		}
		x.Next = map[string]bool{}
		for len(todo) > 0 {
			if limit > 0 && x.Work > limit {
				x.Over = true
				return x
			}
			it := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			body := c.Alts[it.a].Body
			if it.pos == len(body) {
				h := c.Alts[it.a].Head
				if h == 0 && it.from == 0 {
					x.Next[EOF] = true
				}
				sp := espan{h, it.from}
				if x.done[k][sp] {
					continue
				}
				x.done[k][sp] = true
				x.starts[k][h] = append(x.starts[k][h], it.from)
				for _, p := range wait[it.from][h] {
					add(eitem{p.a, p.pos + 1, p.from})
				}
				continue
			}
			s := body[it.pos]
			if s.NT {
				wait[k][s.I] = append(wait[k][s.I], it)
				for _, a := range c.Of[s.I] {
					add(eitem{a, 0, k})
				}
				if c.Nullable[s.I] {
					add(eitem{it.a, it.pos + 1, it.from})
				}
				continue
			}
			x.Next[s.Name] = true
			if k < len(w) && w[k] == s.Name {
				order = append(order, eitem{it.a, it.pos + 1, it.from})
			}
		}
		for _, l := range x.starts[k] {
			sort.Ints(l)
		}
		x.Stop = k
		if len(order) == 0 {
			break
		}
	}
	return x
}

// Accept tells whether the string is in the language.
func (x *Chart) Accept() bool { return x.Stop == len(x.W) && x.Next[EOF] }

// Viable: Stop is the number of tokens that can be read; Next the terminals that
// could come then (with EOF if the input may end there). For grammars without
// useless nonterminals w[:Stop] is the longest prefix of w that a sentence can
// begin with.
func (c *CFG) Viable(w []string) (stop int, next map[string]bool) {
	x := c.Chart(w, 0)
	return x.Stop, x.Next
}
