package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	. "verif/sim/model"
)

// C13: gogll generates its own front end from gogll.md. gogllBin is the gogll of
// the working tree, nextBin the one built with the front end that it generates.

var nextBin string
var selfFiles Tree // the front end gogllBin generates, relative to the repository

const selfSource = "gogll.md"

func selfTree() Tree {
	b, err := os.ReadFile(filepath.Join(repoDir, selfSource))
	must(err)
	return Tree{"w/" + selfSource: string(b), "w/": ""}
}

func selfCall(cfg SimCfg, opts ...string) *Run {
	return &Run{Args: append(opts, selfSource), Cwd: "w", Cfg: cfg}
}

// frontEnd picks the generated Go files out of a tree.
func frontEnd(t Tree) Tree {
	u := Tree{}
	for k, v := range t {
		if p := within("w", k); strings.HasSuffix(p, ".go") {
			u[p] = v
		}
	}
	return u
}

// bootstrap generates the front end and builds the next generation; "" or what
// went wrong.
func bootstrap() string {
	if nextBin != "" {
		return ""
	}
	gogllBin = buildGogll(repoDir, "gogll", nil)
	res, t := execRun(gogllBin, selfTree(), *selfCall(calm()))
	if res.Hang {
		return "self: gogll does not end on its own grammar"
	}
	if res.Exit != 0 {
		return fmt.Sprintf("self: gogll has status %d on its own grammar: %s", res.Exit, short(res.Out+stderrHead(res.Err)))
	}
	selfFiles = frontEnd(t)
	for _, f := range []string{"lexer/lexer.go", "token/token.go", "parser/parser.go", "parser/bsr/bsr.go", "parser/slot/slot.go", "parser/symbols/symbols.go"} {
		if selfFiles[f] == "" {
			return "self: gogll does not generate " + f + " from its own grammar"
		}
	}
	repl := map[string]string{}
	dir := filepath.Join(workDir, "next")
	for _, f := range selfFiles.keys() {
		writeFile(filepath.Join(dir, f), []byte(selfFiles[f]))
		repl[f] = filepath.Join(dir, f)
	}
	bin, err := tryBuildGogll(repoDir, "gogll1", repl)
	if err != nil {
		return "self: gogll does not build with the front end it generates: " + short(err.Error())
	}
	nextBin = bin
	return ""
}

// checkSelf: whatever happened to earlier self-generations, one that ends well
// leaves exactly the front end of the first.
func (c *ProcCase) checkSelf() string {
	trees, results := c.history(len(c.Steps))
	n := len(c.Steps) - 1
	res := results[n]
	if res.Hang {
		return "selfgen: the run does not end"
	}
	if res.Exit != 0 {
		return fmt.Sprintf("selfgen: status %d on gogll's own grammar: %s", res.Exit, short(res.Out+stderrHead(res.Err)))
	}
	got := frontEnd(trees[n+1])
	for _, f := range selfFiles.keys() {
		if got[f] != selfFiles[f] {
			who := "this gogll"
			if c.last().Next {
				who = "the gogll built from the generated front end"
			}
			return fmt.Sprintf("selfgen: %s generated by %s differs from the first generation: %s", f, who, firstDiff(selfFiles[f], got[f]))
		}
	}
	return ""
}

// checkTwins: both generations do the same.
func (c *ProcCase) checkTwins() string {
	do := func(next bool, cfg SimCfg) (*Result, Tree) {
		r := *c.last().Run
		r.Cfg = cfg
		bin := gogllBin
		if next {
			bin = nextBin
		}
		res, t := execRun(bin, c.Tree, r)
		seen(res.interleaving())
		countSites(res.Sites)
		return res, t
	}
	a, ta := do(false, calm())
	b, tb := do(true, c.last().Run.Cfg)
	if a.Hang || b.Hang {
		if a.Hang != b.Hang {
			return "twins: one of the generations does not end"
		}
		return ""
	}
	if a.Exit != 0 {
		probe("grammars rejected by both")
	} else {
		probe("grammars accepted by both")
	}
	if a.Exit != b.Exit {
		return fmt.Sprintf("twins: status %d of this gogll, %d of the next generation (%q, %q)", a.Exit, b.Exit, short(a.Out+stderrHead(a.Err)), short(b.Out+stderrHead(b.Err)))
	}
	if a.Out != b.Out {
		return "twins: standard output: " + firstDiff(a.Out, b.Out)
	}
	if x, y := stderrHead(a.Err), stderrHead(b.Err); x != y {
		return "twins: standard error: " + firstDiff(x, y)
	}
	if d := diffTrees(ta, tb); len(d) > 0 {
		k := d[0][strings.Index(d[0], " ")+1:]
		return "twins: outputs: " + strings.Join(trunc(d, 3), ", ") + " " + firstDiff(ta[k], tb[k])
	}
	return ""
}

// genSelf draws histories of self-generation.
func genSelf(r *Rng, emit func(*ProcCase) bool) {
	c := &ProcCase{Oracle: "self", Tree: selfTree(), Base: "w", File: "w/" + selfSource, Ast: "w/ast/ast.go", Tag: "self"}
	if r.P(70) { // in place, as it is done: over the front end that is there
		for k, v := range selfFiles {
			c.Tree["w/"+k] = v
		}
	}
	step := func(cfg SimCfg) {
		if r.P(50) {
			randMap(r, &cfg)
		}
		var o []string
		if r.P(30) {
			o = append(o, "-v")
		}
		c.Steps = append(c.Steps, PStep{Run: selfCall(cfg, o...), Next: r.P(50)})
	}
	for n := r.N(4); n > 0; n-- {
		cfg := calm()
		e := Entry{I: r.N(60), Op: []string{"open", "write", "stat", "close", "read"}[r.N(5)], M: true}
		if r.P(60) {
			cfg.Faults = ioFaults(r, e, false)
		} else {
			fs := crashFaults(r, e)
			cfg.Faults = fs[r.N(len(fs)):][:1]
		}
		step(cfg)
		if r.P(40) {
			c.last().Power = r.Next() | 1
		}
	}
	step(calm())
	if r.P(80) && c.last().Run.Cfg.Mode == 0 {
		randMap(r, &c.last().Run.Cfg)
	}
	surround(r, c.last().Run, c.Tree)
	emit(c)
}

// genTwins draws grammars on which the generations are compared.
func genTwins(r *Rng, emit func(*ProcCase) bool) {
	g := randGCase(r, 25)
	for n := 0; n < 4; n++ {
		switch k := r.N(10); {
		case k < 5:
			g.Text, g.Tag = frontText(r, g.md), "front"
		case k < 8:
			g.randText(r, 35, g.md)
		default:
			b, err := os.ReadFile(filepath.Join(repoDir, selfSource))
			must(err)
			ls := strings.SplitAfter(string(b), "\n")
			for m := 1 + r.N(3); m > 0; m-- {
				i := r.N(len(ls))
				if r.P(50) {
					ls = append(ls[:i:i], ls[i+1:]...)
				} else {
					ls[i], _, _ = breakGrammar(r, ls[i])
				}
			}
			g.Text, g.Tag = strings.Join(ls, ""), "own grammar, changed"
		}
		c := procCase("twins", g)
		cfg := calm()
		if r.P(70) {
			randMap(r, &cfg)
		}
		c.run(g, cfg)
		c.last().Next = true
		if !emit(c) {
			return
		}
	}
}

// frontText draws a text of the grammar language, with every construct of it and
// a little noise.
func frontText(r *Rng, md bool) string {
	noise := r.P(35)
	var b strings.Builder
	sp := func() {
		b.WriteString([]string{" ", " ", " ", " ", "\n", "\t", "  ", "\r\n", "\v", "\f", "\u0085", "\u00a0", "\u2003"}[r.N(4+r.N(10))])
	}
	t := func(s string) {
		if noise && r.P(2) {
			switch r.N(5) {
			case 0:
				return
			case 1:
				b.WriteString(s)
				b.WriteString(" ")
			case 2:
				s = s[:len(s)-1]
			case 3:
				s = []string{";", ":", "|", "!", "'", `"`, "`", "``", "(", "]'", "'[", "-", ".", "é", "Ω", "1", "\\", "\x00", "empty", "any", "not", "package"}[r.N(22)]
			case 4:
				s += []string{"x", "'", `"`, "_", ";", ".", "é", "\u2028"}[r.N(8)]
			}
		}
		b.WriteString(s)
		sp()
	}
	chars := []string{"a", "z", "0", "_", "-", "é", "Ω", "λ", "日", "\U0001F600", "[", "]", "{", ";", "|", "`", " ", "\u2028", "#", "/", "*", "$"}
	esc := []string{`\\`, `\n`, `\t`, `\r`}
	strlit := func(white bool) string {
		s := ""
		for n := 1 + r.N(3); n > 0; n-- {
			c := chars[r.N(len(chars))]
			if r.P(15) {
				c = append(esc, `\"`)[r.N(5)]
			}
			if !white && (c == " " || c == "\u2028" || c == `\n` || c == `\t` || c == `\r`) {
				c = "w"
			}
			s += c
		}
		if noise && r.P(2) {
			s += []string{`\x`, `\'`, `\`, "'", "\n"}[r.N(5)]
		}
		return `"` + s + `"`
	}
	charlit := func() string {
		s := chars[r.N(len(chars))]
		if r.P(25) {
			s = append(esc, `\'`, `"`)[r.N(6)]
		}
		if noise && r.P(2) {
			s = []string{"", "ab", `\"`, `\x`, `'`, `\`}[r.N(6)]
		}
		return "'" + s + "'"
	}
	toks := []string{"id", "num", "op2", "wörd", "aλ", "x_1", "ünit", "cc"}
	nts := []string{"S", "A", "Bb", "Ééé", "Ω1", "C_d"}
	var defined []string
	sets := []string{"L", "Lu", "Nd", "Digit", "Letter", "Pd", "Zs", "White_Space", "Dash", "Other_ID_Start", "Pattern_Syntax", "Hex_Digit", "N", "P", "Sm", "Cf", "STerm"}
	var re func(d int)
	re = func(d int) {
		for n := 1 + r.N(3); n > 0; n-- {
			switch k := r.N(16); {
			case k < 5:
				t(charlit())
			case k < 7:
				t("any")
				t(strlit(true))
			case k < 8:
				t("not")
				t(strlit(true))
			case k < 9:
				t(".")
			case k < 11:
				t([]string{"letter", "upcase", "lowcase", "number"}[r.N(4)])
			case k < 12:
				s := "'["
				for m := 1 + r.N(3); m > 0; m-- {
					s += `\p{` + sets[r.N(len(sets))] + `}`
					if m > 1 && r.P(50) {
						s += "-"
					}
				}
				t(s + "]'")
			case k < 13 && len(defined) > 0:
				t(defined[r.N(len(defined))])
			case d < 2:
				o := r.N(4)
				t([]string{"(", "[", "{", "<"}[o])
				re(d + 1)
				for r.P(40) {
					t("|")
					re(d + 1)
				}
				t([]string{")", "]", "}", ">"}[o])
			default:
				t(charlit())
			}
		}
	}
	b.WriteString(`package`)
	sp()
	t(`"` + []string{"x", "a/b", "é", "github.com/x/y"}[r.N(4)] + `"`)
	for i, n := 0, r.N(4); i < n; i++ {
		if r.P(25) {
			t("!")
		}
		t(toks[i])
		t(":")
		re(0)
		t(";")
		defined = append(defined, toks[i])
	}
	k := 1 + r.N(4)
	for i := 0; i < k; i++ {
		t(nts[i])
		t(":")
		for m := 1 + r.N(3); m > 0; m-- {
			if r.P(15) {
				t("empty")
			} else {
				for l := 1 + r.N(3); l > 0; l-- {
					switch j := r.N(10); {
					case j < 4:
						t(strlit(false))
					case j < 6 && len(defined) > 0:
						t(defined[r.N(len(defined))])
					default:
						j := i + 1
						if j >= k || r.P(40) {
							j = r.N(k)
						}
						t(nts[j])
					}
				}
			}
			if m > 1 {
				t("|")
			}
		}
		t(";")
	}
	s := b.String()
	if md {
		l := "# Ttl `x` ``y``\n\n```\n" + s + "\n```\n"
		if r.P(30) {
			i := strings.Index(s, ";")
			if i > 0 {
				l = "té*xt*\r\n```" + s[:i+1] + "\n```\nmore ` text Ω ``\n\n```\n" + s[i+1:] + "\n```" + []string{"", "\n", "\nend", "``"}[r.N(4)]
			}
		}
		return l
	}
	return s
}

func init() {
	replayers["self"] = func(r Replay) string {
		if msg := bootstrap(); msg != "" {
			return msg
		}
		c := &ProcCase{}
		must(json.Unmarshal(r.Case, c))
		if c.Oracle == "" {
			return ""
		}
		return c.check()
	}
	checks["C13"] = checkDef{"exploration", func(ck *Check) *Report {
		loadSeedGrammars()
		rule := "A case is either a history of self-generations (by this gogll and by the one built from the generated front end, under seeded map orders, faults, crashes and loss of power) that ends with an undisturbed one, or a grammar text given to both generations (every construct of the grammar language with noise, random and broken grammars, gogll's own grammar changed), the second under a seeded map order; all drawn from VERIF_SEED; distinct by map order, fired faults, arguments and text."
		if msg := bootstrap(); msg != "" {
			js, err := json.Marshal(&ProcCase{})
			must(err)
			return &Report{Rule: rule, Distinct: map[uint64]bool{}, Components: procComponents, Evaluations: 1, Found: []Found{{Msg: msg, Kind: "self", Case: js, Seed: ck.Seed}}}
		}
		selfs := ck.n(160, 900)
		old := ck.Until
		ck.Until = time.Now().Add(time.Until(old) * 9 / 10)
		rep := ck.proc(func(r *Rng, emit func(*ProcCase) bool) {
			if r.N(1000) < 1000*selfs/(selfs+ck.n(900, 5000)) {
				genSelf(r, emit)
			} else {
				genTwins(r, emit)
			}
		}, selfs+ck.n(900, 5000), rule)
		for i := range rep.Found {
			rep.Found[i].Kind = "self"
		}
		rep.Extra["generations_built"] = 2
		return rep
	}}
}
