package main

import (
	"fmt"
	"path"
	"strings"

	. "verif/sim/model"
)

// C17: what is generated does not depend on how and from where gogll is called.

// AltCall is another call with the same grammar text and the same meaning.
type AltCall struct {
	File    string `json:"file"`
	Base    string `json:"base"`
	Run     Run    `json:"run"`
	Resolve bool   `json:"resolve,omitempty"` // -resolve_conflicts in one of the calls only
	Tree    Tree   `json:"tree,omitempty"`    // other files around
}

var verboseReports = map[string]bool{"symbols.txt": true, "first_follow.txt": true, "grammar_slots.txt": true, "lexfsa.txt": true,
	"CFG_items.txt": true, "LR1_states.txt": true}

func verbose(args []string) bool {
	v := false
	for _, a := range args {
		a = strings.TrimLeft(a, "-")
		if a == "v" || strings.HasPrefix(a, "v=") {
			v = a == "v" || strings.ContainsAny(a[2:3], "1tT")
		}
	}
	return v
}

// outputsOf are the files below base, relative to it, without the grammar itself.
func outputsOf(t Tree, base, file string) Tree {
	o := Tree{}
	for _, k := range t.keys() {
		if w := within(base, k); w != "" && k != file && !strings.HasSuffix(k, "/") {
			o[w] = t[k]
		}
	}
	return o
}

func (c *ProcCase) checkOptions() string {
	run := c.last().Run
	if c.Alt == nil {
		return c.checkCommandLine()
	}
	resA, ta := execRun(gogllBin, c.Tree, *run)
	resB, tb := execRun(gogllBin, c.Alt.Tree, c.Alt.Run)
	seen(resA.interleaving())
	seen(resB.interleaving())
	countSites(resA.Sites)
	if resA.Hang || resB.Hang {
		return "hang: the run does not end"
	}
	if c.Alt.Resolve {
		if resA.Exit != 0 || resB.Exit != 0 { // there are conflicts
			return ""
		}
		if s := ta[path.Join(c.Base, "LR1_conflicts.txt")]; s != "" {
			return ""
		}
		if s := tb[path.Join(c.Alt.Base, "LR1_conflicts.txt")]; s != "" {
			return ""
		}
	}
	calls := fmt.Sprintf("gogll %s and gogll %s", strings.Join(run.Args, " "), strings.Join(c.Alt.Run.Args, " "))
	if resA.Exit != resB.Exit {
		return fmt.Sprintf("exit: %s end with status %d (%q) and %d (%q)", calls, resA.Exit, short(resA.Out+stderrHead(resA.Err)), resB.Exit, short(resB.Out+stderrHead(resB.Err)))
	}
	va, vb := verbose(run.Args), verbose(c.Alt.Run.Args)
	if va == vb {
		arg := func(a []string, out string) string { return strings.ReplaceAll(out, a[len(a)-1], "FILE") }
		if a, b := arg(run.Args, resA.Out), arg(c.Alt.Run.Args, resB.Out); a != b {
			return "stdout: " + calls + " say " + firstDiff(a, b)
		}
	}
	oa, ob := outputsOf(ta, c.Base, c.File), outputsOf(tb, c.Alt.Base, c.Alt.File)
	for _, l := range [][2]Tree{{oa, ob}, {ob, oa}} {
		for _, k := range l[0].keys() {
			if _, ok := l[1][k]; !ok && !(va != vb && verboseReports[k]) {
				return fmt.Sprintf("files: %s is written by one of %s only", k, calls)
			}
		}
	}
	for _, k := range oa.keys() {
		if s, ok := ob[k]; ok && s != oa[k] {
			return fmt.Sprintf("content: %s of %s differs: %s", k, calls, firstDiff(oa[k], s))
		}
		if verboseReports[k] && !va {
			return "files: " + k + " is written without -v"
		}
	}
	if resA.Exit == 0 {
		probe("accepted")
	} else {
		probe("refused")
	}
	return ""
}

// checkCommandLine: the call is wrong, or only asks for help.
func (c *ProcCase) checkCommandLine() string {
	run := c.last().Run
	res, t := execRun(gogllBin, c.Tree, *run)
	call := "gogll " + strings.Join(run.Args, " ")
	if res.Hang {
		return "hang: the run does not end"
	}
	if c.Reject && res.Exit == 0 {
		return "accepted: " + call + " ends with status 0"
	}
	if !c.Reject && res.Exit != 0 {
		return fmt.Sprintf("refused: %s ends with status %d", call, res.Exit)
	}
	if strings.TrimSpace(res.Out+res.Err) == "" {
		return "silent: " + call + " says nothing"
	}
	before := c.Tree.clone()
	for _, l := range [][2]Tree{{before, t}, {t, before}} {
		for _, k := range l[0].keys() {
			if s, ok := l[1][k]; !strings.HasSuffix(k, "/") && (!ok || s != l[0][k]) {
				return "touched: " + call + " changes " + k
			}
		}
	}
	probe("wrong command lines")
	return ""
}

// respell gives the same options in another order and other spellings.
func respell(r *Rng, opts []string) []string {
	var groups [][]string
	for i := 0; i < len(opts); i++ {
		o := opts[i]
		switch {
		case o == "-o":
			i++
			if r.P(40) {
				groups = append(groups, []string{"-o=" + opts[i]})
			} else {
				groups = append(groups, []string{[]string{"-o", "--o"}[r.N(2)], opts[i]})
			}
		case strings.Contains(o, "="):
			groups = append(groups, []string{o})
		case r.P(20):
			groups = append(groups, []string{o + "=" + []string{"true", "1", "T", "t", "TRUE", "True"}[r.N(6)]})
		case r.P(20):
			groups = append(groups, []string{"-" + o})
		case r.P(10):
			groups = append(groups, []string{o, o})
		default:
			groups = append(groups, []string{o})
		}
	}
	r.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	var out []string
	for _, g := range groups {
		out = append(out, g...)
	}
	return out
}

func genOptions(r *Rng, emit func(*ProcCase) bool) {
	if r.P(12) {
		genCommandLines(r, emit)
		return
	}
	g := randGCase(r, 10)
	c := procCase("options", g)
	for n := 0; n < 3; n++ {
		d := c.clone()
		cfg := calm()
		randMap(r, &cfg)
		d.run(g, cfg)
		alt := &AltCall{}
		h := g
		h.loc = randLocation(r, g.md)
		opts := append([]string{}, g.opts...)
		drop := func(o string) bool {
			for i, x := range opts {
				if x == o {
					opts = append(opts[:i:i], opts[i+1:]...)
					return true
				}
			}
			return false
		}
		toggle := func(o string) {
			if !drop(o) {
				opts = append(opts, o)
			}
		}
		if r.P(60) {
			toggle("-v")
		}
		if r.P(30) {
			toggle("-a")
		}
		if r.P(20) {
			toggle("-bs")
		}
		if r.P(30) { // -knuth and -pager come before it
			toggle("-gll")
		}
		if !g.Rust && r.P(30) {
			toggle("-go")
		}
		if r.P(20) && (g.LR || r.P(50)) {
			alt.Resolve = true
			toggle("-resolve_conflicts")
		}
		for _, o := range []string{"-v", "-a", "-bs", "-resolve_conflicts", "-version", "-h", "-CPUProf", "-knuth", "-pager", "-rust"} {
			has := false
			for _, x := range opts {
				has = has || x == o
			}
			if !has && r.P(6) {
				opts = append(opts, o+"="+[]string{"false", "0", "f", "F"}[r.N(4)])
			}
		}
		all := respell(r, append(append([]string{}, h.loc.out...), opts...))
		h.setArgs()
		acfg := calm()
		randMap(r, &acfg)
		alt.File, alt.Base = h.File, h.Base
		alt.Tree = h.tree()
		alt.Run = Run{Args: append(all, h.loc.arg), Cwd: h.Cwd, Cfg: acfg}
		if r.P(50) {
			surround(r, &alt.Run, alt.Tree)
		}
		d.Alt = alt
		if !emit(d) {
			return
		}
	}
}

func genCommandLines(r *Rng, emit func(*ProcCase) bool) {
	g := randGCase(r, 0)
	c := procCase("options", g)
	garbage(r, g.Base, c.Tree, g.Rust, true)
	c.Tree["w/sub/dir.md/"] = ""
	c.Tree["w/file"] = "a file\n"
	file := g.Args[len(g.Args)-1]
	c.File = g.File
	wrong := [][]string{{}, {"-v"}, {"-knuth", "-pager", file}, {"-pager", "-v", "-knuth", file}, {"-nosuch", file}, {"-v=maybe", file},
		{"-o"}, {"missing.md"}, {"-v", "missing.bnf"}, {"-knuth", "nodir/missing.md"}, {"--pager", "--knuth=true", "-o", "out2", file},
		{"-resolve_conflicts"}, {"-o", "out2"}, {"-unknown=1", "-v", file}, {"-knuth", "-pager", "-a", "-rust", file}, {"{ROOT}/w/sub/dir.md"}, {"-v", "{ROOT}/w/sub/dir.md"},
		{"-o", "{ROOT}/w/file", "-v", file}, {"-o", "{ROOT}/w/file/x", file}, {"-pager", "-o", "{ROOT}/w/file", file}}
	fine := [][]string{{"-h"}, {"-version"}, {"-version", file}, {"-h", "-v", file}, {"--version", "-o", "out2", file}, {"-v", "--h"}}
	for n := 0; n < 4; n++ {
		d := c.clone()
		cfg := calm()
		randMap(r, &cfg)
		args := wrong[r.N(len(wrong))]
		d.Reject = true
		if r.P(25) {
			args = fine[r.N(len(fine))]
			d.Reject = false
		}
		h := g
		h.Args = args
		run := d.run(h, cfg)
		if r.P(50) {
			surround(r, run, d.Tree)
		}
		if !emit(d) {
			return
		}
	}
}
