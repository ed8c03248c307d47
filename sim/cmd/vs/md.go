package main

import (
	"fmt"
	"path"
	"regexp"
	"strings"
	"syscall"
	"unicode"

	. "verif/sim/model"
)

// A grammar in markdown (C14): the grammar is the text of its fences, and places
// in messages are places of the markdown file.

// fencedText is src with everything outside its fences blank: what loadMd makes
// of it, rune by rune, so that places stay where they are.
func fencedText(src string) string {
	in := []rune(src)
	res := append([]rune{}, in...)
	open := false
	for i := 0; i < len(in); i++ {
		if i+2 < len(in) && in[i] == '`' && in[i+1] == '`' && in[i+2] == '`' {
			open = !open
			res[i], res[i+1], res[i+2] = ' ', ' ', ' '
			i += 2
			continue
		}
		if !open && in[i] != '\n' {
			res[i] = ' '
		}
	}
	return string(res)
}

// gaps lists the places of the grammar text between two tokens: the white space.
func gaps(text string) (gs []int) {
	rs := []rune(text)
	for i := 0; i < len(rs); i++ {
		switch rs[i] {
		case '"':
			for i++; i < len(rs) && rs[i] != '"'; i++ {
				if rs[i] == '\\' {
					i++
				}
			}
		case '\'':
			if i+1 < len(rs) && rs[i+1] == '[' && (i+2 >= len(rs) || rs[i+2] != '\'') {
				continue // a set of Unicode categories
			}
			if i+1 < len(rs) && rs[i+1] == '\\' {
				i++
			}
			i += 2
		default:
			if unicode.IsSpace(rs[i]) {
				gs = append(gs, i)
			}
		}
	}
	return
}

var proseLines = []string{
	"Text with `code` and ``more code``.", "# Heading", "* item : one ; two", "Fake : \"rule\" | empty ;", "package \"fake\"",
	"`Undef : \"x\" ;`", "It's \"quoted", "Ünïcödé — “text” 日本語 🙂", "a\r", "1. `` ` ``", "\tindented", "<!-- comment -->", "", "   ", "~~~", "`", "``x",
	"!fake : 'x' ;", "\\`\\`\\`", "ends with a backslash \\", "--- | ---", "ident : letter ;", "$ gogll g.md",
}

// prose is text outside fences; inline, it has no line end.
func prose(r *Rng, inline bool) string {
	if inline {
		return []string{"", " ", " and ", " `code` ", " \"q ", " Undef : x ; ", "é日 ", " ; ", " ``x`` "}[r.N(9)]
	}
	var ls []string
	n := r.N(4)
	if r.P(1) {
		n = 200 + r.N(2000)
	}
	for ; n > 0; n-- {
		ls = append(ls, proseLines[r.N(len(proseLines))])
	}
	if r.P(1) {
		ls = append(ls, strings.Repeat(proseLines[r.N(len(proseLines))]+" ", 100+r.N(3000)))
	}
	end := "\n"
	if r.P(10) {
		end = "\r\n"
	}
	return end + strings.Join(append(ls, ""), end)
}

// markdown lays grammar text out in fences, broken at random gaps.
func markdown(r *Rng, text string) string {
	rs := []rune(text)
	at := map[int]bool{}
	gs := gaps(text)
	p := []int{2, 8, 25, 60}[r.N(4)]
	for _, g := range gs {
		if r.P(p) {
			at[g] = true
		}
	}
	var b strings.Builder
	switch r.N(4) {
	case 0: // begins with a fence
	case 1:
		b.WriteString("Grammar: ")
	default:
		b.WriteString("Grammar" + prose(r, false))
	}
	b.WriteString("```" + []string{"\n", "\n", "\n", " ", "\r\n", ""}[r.N(6)])
	for i, c := range rs {
		if !at[i] {
			b.WriteRune(c)
			continue
		}
		switch {
		case r.P(35):
			sp := []string{" ", " ", ""} // code may begin and end right at a fence
			fmt.Fprintf(&b, "%s``` %s ```%s", sp[r.N(3)], prose(r, true), sp[r.N(3)])
		case r.P(20):
			fmt.Fprintf(&b, "```%s```%c", prose(r, false), c)
		default:
			fmt.Fprintf(&b, "\n```%s```%s", prose(r, false), []string{"\n", "\n", ""}[r.N(3)])
		}
	}
	switch r.N(5) {
	case 0: // the last fence stays open
	case 1:
		b.WriteString("```")
	case 2:
		b.WriteString("``` " + prose(r, true))
	default:
		b.WriteString("\n```\n" + prose(r, false))
	}
	return b.String()
}

// A wrong grammar whose error has a known place: Mark is the text the message is
// about, Msg is part of the message.
var placed = []struct{ rule, mark, msg string }{
	{`Zz1 : UndefZq "a" ;`, `UndefZq`, "No declaration of syntax rule UndefZq"},
	{`Zz1 : "a" undefzq ;`, `undefzq`, "No declaration of lex rule undefzq"},
	{`zz1 : 'a' undefzq ;`, `undefzq`, "token undefzq not defined yet"},
	{`Zz1 "zqcolon" ;`, `"zqcolon"`, "zqcolon"},
	{`Zz1 : "zq ws" ;`, `"zq ws"`, "may not contain whitespace"},
	{`ZzDup : "a" ; ZzDup : "b" ;`, `ZzDup`, "uplicate"},
	{`zzdup : 'a' 'q' ; zzdup : 'b' 'q' ;`, `zzdup`, "uplicate"},
}

var placeRE = regexp.MustCompile(`line (\d+) col (\d+)|:(\d+):(\d+):`)

// lineCol counts as gogll documents it: lines and columns from one, a tab is four.
func lineCol(rs []rune, i int) (line, col int) {
	line, col = 1, 1
	for _, c := range rs[:i] {
		switch c {
		case '\n':
			line, col = line+1, 1
		case '\t':
			col += 4
		default:
			col++
		}
	}
	return
}

// checkFences (C14): the run reads what its fences hold, at the places they have
// in the file, however the reads of the file are split.
func (c *ProcCase) checkFences() string {
	src, ok := c.Tree[c.File]
	if !ok || strings.Contains(src, "````") {
		return ""
	}
	trees, results := c.history(len(c.Steps))
	after, res := trees[len(trees)-1], results[len(results)-1]
	if res.Hang {
		return "hang: the run does not end"
	}
	plain := strings.TrimSuffix(c.File, ".md")
	run := c.last().Run.undisturbed()
	text := src
	if plain == c.File { // not a markdown file: all of it is input
		if strings.Contains(src, "```") && res.Exit == 0 {
			return "plain: a fence is taken for grammar text in " + path.Base(c.File)
		}
		return ""
	}
	plain += ".bnf"
	text = fencedText(src)
	t := c.Tree.clone()
	delete(t, c.File)
	t[plain] = text
	run.Args = append([]string{}, run.Args...)
	for i, a := range run.Args {
		run.Args[i] = strings.Replace(a, path.Base(c.File), path.Base(plain), 1)
	}
	gold, gtree := execRun(gogllBin, t, run)
	name := func(s string) string { return strings.ReplaceAll(s, path.Base(plain), path.Base(c.File)) }
	if gold.Exit != res.Exit {
		return fmt.Sprintf("exit: status %d instead of the %d of its fences (%q instead of %q)", res.Exit, gold.Exit, short(res.Out+stderrHead(res.Err)), short(name(gold.Out)+stderrHead(gold.Err)))
	}
	if name(gold.Out) != res.Out {
		return "stdout: " + firstDiff(name(gold.Out), res.Out)
	}
	for _, k := range gtree.keys() {
		if k == plain {
			continue
		}
		if got, ok := after[k]; !ok {
			return "file: " + path.Base(k) + " is not written"
		} else if got != gtree[k] {
			return "file: " + path.Base(k) + " " + firstDiff(gtree[k], got)
		}
	}
	if res.Exit == 0 {
		probe("markdown grammars accepted")
	} else {
		probe("markdown grammars rejected")
	}
	if c.Mark == "" || !strings.Contains(res.Out, c.MarkMsg) {
		return ""
	}
	rs, mark := []rune(text), []rune(c.Mark)
	var want []string
	for i := 0; i+len(mark) <= len(rs); i++ {
		if string(rs[i:i+len(mark)]) == c.Mark {
			l, k := lineCol([]rune(src), i)
			want = append(want, fmt.Sprintf("%d:%d", l, k))
		}
	}
	if len(want) == 0 {
		return ""
	}
	m := placeRE.FindStringSubmatch(res.Out)
	if m == nil {
		return "place: no line and column in " + fmt.Sprintf("%q", short(res.Out))
	}
	got := m[1] + ":" + m[2]
	if m[1] == "" {
		got = m[3] + ":" + m[4]
	}
	for _, w := range want {
		if w == got {
			probe("places of errors checked")
			return ""
		}
	}
	return fmt.Sprintf("place: %s is reported at %s and stands at %s", c.Mark, got, strings.Join(want, ", "))
}

// genFences draws cases for C14.
func genFences(r *Rng, emit func(*ProcCase) bool) {
	g := randGCase(r, 0)
	g.md = true
	g.loc = randLocation(r, true)
	g.setArgs()
	for n := 0; n < 4; n++ {
		text, tag := randGrammarText(r, g.LR, false)
		b := g
		b.Tag = tag
		mark, msg := "", ""
		switch {
		case r.P(45):
			p := placed[r.N(len(placed))]
			mark, msg = p.mark, p.msg
			b.Tag += " broken: " + msg
			ls := strings.SplitAfter(text, "\n")
			i := 1 + r.N(len(ls)) // anywhere after the package
			if strings.HasSuffix(msg, "not defined yet") || r.P(50) {
				i = len(ls)
			}
			text = strings.Join(ls[:i], "") + "\n" + p.rule + "\n" + strings.Join(ls[i:], "")
		case r.P(15):
			text, b.Tag, _ = breakGrammar(r, text)
		}
		if r.P(15) {
			text = strings.ReplaceAll(text, "\n", "\r\n")
		}
		if r.P(15) {
			text = strings.ReplaceAll(text, "\n", "\n\t")
		}
		b.Text = markdown(r, text)
		if r.P(4) { // the same text where it is no markdown
			ext := []string{".mdx", ".MD", ".md.txt", ".Md", "_md", ".markdown", ".md~"}[r.N(7)]
			b.loc.file = strings.TrimSuffix(b.loc.file, ".md") + ext
			b.loc.arg = strings.TrimSuffix(b.loc.arg, ".md") + ext
			b.setArgs()
		}
		c := procCase("fences", b)
		c.Mark, c.MarkMsg = mark, msg
		cfg := calm()
		if r.P(70) {
			randMap(r, &cfg)
		}
		if r.P(70) { // split or interrupted reads of the grammar
			for _, e := range callsOf(c, b) {
				if e.Op != "read" || path.Base(e.P) != path.Base(b.File) {
					continue
				}
				if r.P(70) {
					cfg.Faults = append(cfg.Faults, Fault{At: e.I, Kind: "short", Arg: -(1 + r.N(max(1, e.R))), Run: r.N(20)})
				}
				if r.P(30) {
					cfg.Faults = append(cfg.Faults, Fault{At: e.I + r.N(3), Kind: "err", Errno: int(syscall.EINTR)})
				}
				break
			}
		}
		c.run(b, cfg)
		if !emit(c) {
			return
		}
	}
}
