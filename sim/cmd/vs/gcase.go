package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	. "verif/sim/model"
)

// GCase is one way of calling gogll: a grammar, where it lies and the options.
type GCase struct {
	Text   string // grammar source
	File   string // path of the source relative to the root
	Cwd    string
	Args   []string
	Base   string // output directory relative to the root ("." for the root itself)
	LR     bool
	Rust   bool
	All    bool
	Tag    string
	Reject bool // the grammar is wrong by construction

	md   bool
	opts []string
	loc  location
}

func (c GCase) tree() Tree {
	t := Tree{c.File: c.Text}
	if c.Cwd != "" {
		t[c.Cwd+"/"] = ""
	}
	return t
}

// ast is the path of the user's AST.
func (c GCase) ast() string {
	if c.Rust {
		return path.Join(c.Base, "src/ast/mod.rs")
	}
	return path.Join(c.Base, "ast/ast.go")
}

var seedGrammars []string

func loadSeedGrammars() {
	var fs []string
	filepath.WalkDir(repoDir, func(p string, e os.DirEntry, err error) error {
		if err == nil && strings.HasSuffix(p, ".md") {
			if b, err := os.ReadFile(p); err == nil && strings.Contains(string(b), "```\npackage \"") && len(b) < 3000 {
				fs = append(fs, p)
			}
		}
		return nil
	})
	sort.Strings(fs)
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		seedGrammars = append(seedGrammars, string(b))
	}
}

// randGrammarText draws a grammar of any kind.
func randGrammarText(r *Rng, lr, md bool) (text, tag string) {
	layout := 0
	if md {
		layout = 1 + r.N(2)
	}
	var g *Gram
	switch k := r.N(100); {
	case k < 35:
		l := LibraryGLL()
		if lr && r.P(70) {
			l = LibraryLR()
		}
		g = l[r.N(len(l))]
	case k < 70:
		if lr && r.P(60) {
			g = RandLR(r)
		} else {
			g = RandGram(r, 5, 4, 4)
		}
	case k < 90 || len(seedGrammars) == 0 || !md:
		l := RandLex(r, r.P(60))
		text = l.Text()
		if layout > 0 {
			text = "# Lex\n\n```\n" + text + "```\n"
		}
		return text, "lex"
	default:
		return seedGrammars[r.N(len(seedGrammars))], "seed"
	}
	if r.P(15) { // the last rule is not needed by the others
		g = g.Clone()
		g.Rules[len(g.Rules)-1].Trailer = "!trailer : '#' {not \"\\n\"} ;"
	}
	return g.Text(layout), g.Tag
}

var packageLine = regexp.MustCompile(`(?m)^package[ \t]+"[^"\n]*"[ \t]*$`)

// breakGrammar makes a grammar wrong; must tells whether it certainly is.
func breakGrammar(r *Rng, text string) (out, tag string, must bool) {
	fence := func(s string) string { // add lines inside the last fence or at the end
		if m := packageLine.FindStringIndex(text); m != nil && r.P(30) { // or first
			return text[:m[1]] + "\n" + s + "\n" + text[m[1]:]
		}
		if i := strings.LastIndex(text, "```"); i >= 0 {
			return text[:i] + s + "\n" + text[i:]
		}
		return text + s + "\n"
	}
	switch r.N(25) {
	case 22, 23: // wrong in several places
		return fence(wrongTwice(r)), "wrong in several places", true
	case 24:
		if t, tag, m := breakGrammar(r, text); t != text {
			t, tag2, m2 := breakGrammar(r, t)
			return t, tag + " and " + tag2, m2 || m && !strings.Contains(tag2, "characters") && tag2 != "moved lines"
		}
		return fence(wrongTwice(r)), "wrong in several places", true
	case 13, 14, 15:
		return fence(wrongInBig(r)), "wrong within large rules", true
	case 16:
		t, tag := wrongSet(r)
		return fence(t), tag, true
	case 17:
		sp := []string{"\t", "\\t", "\\n", "\\r", " ", "\n"}[r.N(6)]
		lit := []string{sp + "a", "a" + sp, "a" + sp + "b", "abcdefghijkl" + sp + "é"}[r.N(4)]
		return fence("Zz1 : \"q\" | \"r\" \"" + lit + "\" ;"), "white space in literal", true
	case 18:
		return fence("zz1 : 'z' { 'a' | [ 'b' < undeftok 'c' > ] } ;"), "undefined token in brackets", true
	case 20:
		return fence([]string{`Zz1 : "undeftok" undeftok ;`, `Zz1 : undeftok "q" | "undeftok" ;`, `Zz1 : "Undef1" Undef1 ;`,
			"zz1 : 'z' 'z' ;\nZz1 : Zz2 ; Zz2 : Zz3 | \"Zz3\" zz1 ;", "!zz1 : 'z' 'z' ;\nZz1 : zz1 \"zz2\" | \"q\" zz2 ;"}[r.N(5)]), "undefined symbol spelt like a literal", true
	case 19: // used before it is defined
		return fence("zz1 : 'a' " + []string{"zz2", "zz1", "{ zz2 }", "( 'b' | zz2 'c' )"}[r.N(4)] + " ;\nzz2 : 'q' 'r' ;"), "token used before its definition", true
	case 0:
		return fence(`Zz1 : Undef1 "a" ;`), "undefined NT", true
	case 1:
		return fence(`Zz1 : undeftok "a" ;`), "undefined token", true
	case 2:
		return fence("Zz1 : \"a\" ;\nZz1 : \"b\" ;"), "duplicate rule", true
	case 3:
		return fence("zz1 : 'a' 'q' ;\nzz1 : 'b' 'q' ;"), "duplicate lex rule", true
	case 4:
		return fence(`Zz1 : "a b" ;`), "white space in literal", true
	case 5:
		return fence(`zz1 : undeftok 'a' ;`), "undefined token in token", true
	case 6:
		return fence(`Zz1 : "a"`), "no semicolon", true
	case 7:
		return fence(`Zz1 "a" ;`), "no colon", true
	case 8:
		return fence(`Zz1 : "a" | ;`), "empty alternate", true
	case 9:
		return fence(`Zz1 : "q" Zz2 ; Zz2 : "q" ;`), "unreachable", false
	case 10:
		return fence("zz1 : any \"ab\" '\\n' ;\nzz2 : letter 'x' ;\nzz3 : not \"q\" 'y' ;"), "incompatible", false
	case 11:
		rs := []rune(text)
		for n := 1 + r.N(3); n > 0 && len(rs) > 0; n-- {
			i := r.N(len(rs))
			rs = append(rs[:i:i], rs[i+1:]...)
		}
		return string(rs), "deleted characters", false
	case 12:
		rs := []rune(text)
		for n := 1 + r.N(3); n > 0; n-- {
			i := r.N(len(rs) + 1)
			rs = append(rs[:i:i], append([]rune{[]rune(";:|\"'`aA{[<(!é")[r.N(14)]}, rs[i:]...)...)
		}
		return string(rs), "inserted characters", false
	}
	ls := strings.Split(text, "\n")
	i, j := r.N(len(ls)), r.N(len(ls))
	if r.P(50) {
		ls[i], ls[j] = ls[j], ls[i]
	} else {
		ls = append(ls[:i:i], ls[i+1:]...)
	}
	return strings.Join(ls, "\n"), "moved lines", false
}

// wrongTwice makes a few rules with several mistakes of one kind in different rules,
// alternates and places.
func wrongTwice(r *Rng) string {
	k := r.N(5)
	bad := func(i int) string {
		switch k {
		case 0:
			return fmt.Sprintf("Undef%d", i)
		case 1:
			return fmt.Sprintf("undeftok%d", i)
		case 2:
			return fmt.Sprintf("\"a%d b\"", i)
		}
		return []string{"Undef", "undeftok"}[r.N(2)] + fmt.Sprint(i)
	}
	n, i := 2+r.N(5), 0
	var b strings.Builder
	for j := 0; j < n; j++ {
		fmt.Fprintf(&b, "Zz%d : ", j)
		for a := 1 + r.N(3); a > 0; a-- {
			for s := 1 + r.N(3); s > 0; s-- {
				if r.P(40) || j == 0 && i == 0 {
					i++
					b.WriteString(bad(r.N(i+1)) + " ")
				} else {
					fmt.Fprintf(&b, "\"q%d\" ", r.N(9))
				}
			}
			if a > 1 {
				b.WriteString("| ")
			}
		}
		if j+1 < n {
			fmt.Fprintf(&b, "Zz%d ", j+1)
		}
		b.WriteString(";\n")
		if k == 4 && r.P(50) { // and rules that are there twice
			fmt.Fprintf(&b, "Zz%d : \"q\" ;\nzz%d : 'q' 'q' ;\nzz%d : 'r' 'q' ;\n", j, j, j)
		}
	}
	return b.String()
}

// wrongInBig makes rules of which many are in order and one is not.
func wrongInBig(r *Rng) string {
	nr, na, ns := 1+r.N(4), 1, 1+r.N(6)
	switch r.N(3) {
	case 0:
		nr, na, ns = 20+r.N(20), 1+r.N(2), 1+r.N(3)
	case 1:
		nr, na, ns = 1+r.N(2), 12+r.N(25), 1+r.N(3)
	default:
		na = 1 + r.N(6)
	}
	bad := []string{"Undef1", "undeftok", "\"a b\"", "Zz", "zz"}[r.N(5)]
	br, ba, bs := r.N(nr), r.N(na), r.N(ns)
	switch r.N(4) {
	case 0:
		br, ba, bs = nr-1, na-1, ns-1
	case 1:
		ba, bs = na-1, ns-1
	}
	n := 0
	var b strings.Builder
	b.WriteString("zzt : 'z' '9' ;\n")
	for i := 0; i < nr; i++ {
		fmt.Fprintf(&b, "Zz%d : ", i)
		for j := 0; j < na; j++ {
			if j > 0 {
				b.WriteString(" | ")
			}
			for k := 0; k < ns; k++ {
				n++
				switch {
				case i == br && j == ba && k == bs:
					b.WriteString(bad + " ")
				case r.P(20):
					fmt.Fprintf(&b, "Zz%d ", r.N(nr))
				case r.P(20):
					b.WriteString("zzt ")
				default:
					fmt.Fprintf(&b, "\"k%d\" ", n)
				}
			}
		}
		b.WriteString(";\n")
	}
	return b.String()
}

// wrongSet repeats a member of a Unicode set, or a rule of many.
func wrongSet(r *Rng) (text, tag string) {
	if r.P(40) {
		n := 2 + r.N(30)
		i, d := r.N(n), r.N(n)
		var b strings.Builder
		for k := 0; k < n; k++ {
			fmt.Fprintf(&b, "%szz%da : 'z' '%d' ;\nZz%da : \"m%d\" ;\n", []string{"", "!"}[r.N(2)], k, k%10, k, k)
			if k == i && d <= i {
				if r.P(50) {
					fmt.Fprintf(&b, "%szz%da : 'q' 'q' ;\n", []string{"", "!"}[r.N(2)], d)
				} else {
					fmt.Fprintf(&b, "Zz%da : \"q\" ;\n", d)
				}
			}
		}
		if d > i {
			fmt.Fprintf(&b, "zz%da : 'q' 'q' ;\n", d)
		}
		return b.String(), "repeated rule of many"
	}
	cats := []string{"Lu", "Ll", "Nd", "Pd", "Sc", "Zs", "Lt", "Mn", "Hex_Digit", "Dash"}
	r.Shuffle(len(cats), func(i, j int) { cats[i], cats[j] = cats[j], cats[i] })
	n := 2 + r.N(len(cats)-3)
	l := []string{`\p{` + cats[0] + "}"}
	signs := make([]string, n+1)
	for k := 1; k <= n; k++ {
		signs[k] = []string{"", "", "-"}[r.N(3)]
		l = append(l, signs[k]+`\p{`+cats[k]+"}")
	}
	d := 1 + r.N(n)
	at := d + 1 + r.N(len(l)-d)
	l = append(l[:at:at], append([]string{signs[d] + `\p{` + cats[d] + "}"}, l[at:]...)...)
	return "zz1 : '[" + strings.Join(l, " ") + "]' 'q' ;", "repeated member of a Unicode set"
}

// location is where the grammar source lies, where gogll is called and where
// the outputs go.
type location struct {
	file, cwd, base string
	out             []string // option
	arg             string
}

func randLocation(r *Rng, md bool) (l location) {
	name := "g.bnf"
	if md {
		name = []string{"g.md", "grammar.md", "my grammar.md"}[r.N(3)]
	} else if r.P(20) {
		name = []string{"g.gogll", "noext", "x.md.bnf", "G.MD", "gmd"}[r.N(5)]
	}
	l.cwd = "w"
	switch r.N(7) {
	case 5: // called from elsewhere, with one path or both relative
		l.file, l.base = "src/a/"+name, "w/out"
		l.out = []string{"-o", []string{"out", "./out", "{ROOT}/w/out", "../w/out"}[r.N(4)]}
		l.arg = []string{"../src/a/", "{ROOT}/src/a/", "{ROOT}/src/a/"}[r.N(3)] + name
	case 6:
		l.file, l.base = "src/a/"+name, "src/a"
		l.arg = []string{"../src/a/", "{ROOT}/src/a/", "./../src/a/"}[r.N(3)] + name
		if r.P(30) {
			l.out = []string{"-o", []string{"../src/a", "{ROOT}/src/a"}[r.N(2)]}
		}
	case 0, 1:
		l.file, l.base, l.arg = "w/"+name, "w", name
	case 2:
		l.file, l.base, l.arg = "w/sub/"+name, "w/sub", "sub/"+name
	case 3:
		l.file, l.base, l.arg = "w/"+name, "w/out", name
		l.out = []string{"-o", []string{"out", "out/", "./out"}[r.N(3)]}
	case 4:
		l.file, l.base = "src/"+name, "gen/x"
		l.out = []string{"-o", []string{"../gen/x", "{ROOT}/gen/x"}[r.N(2)]}
		l.arg = []string{"../src/", "{ROOT}/src/"}[r.N(2)] + name
	}
	return
}

// randOpts draws mode and options.
func (c *GCase) randOpts(r *Rng) {
	var opts []string
	c.LR, c.Rust, c.All = false, false, false
	mode := r.N(100)
	switch {
	case mode < 45:
		if r.P(20) {
			opts = append(opts, "-gll")
		}
		if r.P(10) {
			opts = append(opts, "-go")
		}
	case mode < 63:
		c.LR, opts = true, append(opts, "-knuth")
	case mode < 82:
		c.LR, opts = true, append(opts, "-pager")
	case mode < 91:
		c.Rust, opts = true, append(opts, "-rust")
	case mode < 95:
		c.Rust, c.LR, opts = true, true, append(opts, "-rust", "-knuth")
	default:
		c.Rust, c.LR, opts = true, true, append(opts, "-rust", "-pager")
	}
	if c.LR && r.P(45) {
		opts = append(opts, "-resolve_conflicts")
	}
	if r.P(60) {
		opts = append(opts, "-v")
	}
	if r.P(20) {
		c.All, opts = true, append(opts, "-a")
	}
	c.opts = opts
}

func (c *GCase) setArgs() {
	c.File, c.Cwd, c.Base = c.loc.file, c.loc.cwd, c.loc.base
	c.Args = append(append(append([]string{}, c.loc.out...), c.opts...), c.loc.arg)
}

func (c *GCase) randText(r *Rng, rejectP int, md bool) {
	c.Text, c.Tag = randGrammarText(r, c.LR, md)
	c.Reject = false
	if r.P(rejectP) {
		var t string
		c.Text, t, c.Reject = breakGrammar(r, c.Text)
		c.Tag += " broken: " + t
	}
}

// randGCase draws a call of gogll.
func randGCase(r *Rng, rejectP int) GCase {
	c := GCase{}
	c.md = r.P(65)
	c.randOpts(r)
	c.randText(r, rejectP, c.md)
	c.loc = randLocation(r, c.md)
	c.setArgs()
	return c
}

// variant is another call on the same source file and output directory.
func (c GCase) variant(r *Rng, rejectP int) GCase {
	d := c
	switch r.N(4) {
	case 0: // other options only
		d.randOpts(r)
	case 1: // other grammar only
		d.randText(r, rejectP, d.md)
	case 2:
		d.randOpts(r)
		d.randText(r, rejectP, d.md)
	}
	d.setArgs()
	return d
}

// randMap draws a map order.
func randMap(r *Rng, cfg *SimCfg) {
	cfg.Mode = []int{1, 2, 2, 2, 3}[r.N(5)]
	cfg.Seed = r.Next()
	cfg.Late = r.P(50)
}
