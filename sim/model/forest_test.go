package model

import (
	"fmt"
	"sort"
	"testing"
)

func TestSparse(t *testing.T) {
	r := NewRng(5, 7)
	acc, amb, rej := 0, 0, 0
	for n := 0; n < 3000; n++ {
		g := RandGram(r, 5, 4, 4)
		c := g.Compile()
		var ts []string
		for _, x := range g.Terminals() {
			ts = append(ts, x.Name)
		}
		for k := 0; k < 5; k++ {
			w := c.Input(r, ts, 7)
			a, b := c.newForest(w, false), c.newForest(w, true)
			if a.Accept() != b.Accept() || b.Accept() != b.chart.Accept() {
				t.Fatal(g.Text(0), w)
			}
			if !a.Accept() {
				rej++
				continue
			}
			acc++
			show := func(f *Forest) string {
				var o []string
				for _, s := range f.Reachable() {
					x := fmt.Sprint(s, f.Nodes(s))
					for _, n := range f.Nodes(s) {
						for p := range c.Alts[n.Alt].Body {
							x += fmt.Sprint(f.Spans(n, p))
						}
						if !f.Valid(n) {
							t.Fatal("invalid")
						}
					}
					o = append(o, x)
				}
				sort.Strings(o)
				return fmt.Sprint(o)
			}
			if show(a) != show(b) || a.Ambiguous() != b.Ambiguous() {
				t.Fatal(g.Text(0), w, show(a), show(b))
			}
			if a.Ambiguous() {
				amb++
			}
		}
	}
	t.Log(acc, amb, rej)
}
