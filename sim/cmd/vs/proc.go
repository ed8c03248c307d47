package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"
	"unicode/utf8"

	. "verif/sim/model"
)

// MarshalJSON keeps contents that are not text.
func (t Tree) MarshalJSON() ([]byte, error) {
	m := map[string]string{}
	for k, v := range t {
		if !utf8.ValidString(v) || strings.HasPrefix(v, "base64:") {
			v = "base64:" + base64.StdEncoding.EncodeToString([]byte(v))
		}
		m[k] = v
	}
	return json.Marshal(m)
}

func (t *Tree) UnmarshalJSON(b []byte) error {
	m := map[string]string{}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*t = Tree{}
	for k, v := range m {
		if s, ok := strings.CutPrefix(v, "base64:"); ok {
			d, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				return err
			}
			v = string(d)
		}
		(*t)[k] = v
	}
	return nil
}

// PStep is one step of a history: a simulated run of gogll, or an edit of files
// by the user (Write), optionally followed by a loss of power.
type PStep struct {
	Run   *Run   `json:"run,omitempty"`
	Write Tree   `json:"write,omitempty"`
	Next  bool   `json:"next,omitempty"`  // the run is of the next generation of gogll (C13)
	Power uint64 `json:"power,omitempty"` // seed of what a power cut after this step leaves
}

// ProcCase is a history of simulated gogll processes on one disk and what must
// hold of it.
type ProcCase struct {
	Oracle string  `json:"oracle"`
	Tree   Tree    `json:"tree"` // the disk at the start
	Base   string  `json:"base"`
	File   string  `json:"file"` // the grammar source of the last run
	Ast    string  `json:"ast"`
	Rust   bool    `json:"rust"`
	LR     bool    `json:"lr"`
	All    bool    `json:"all"`
	Reject bool    `json:"reject"`
	Valid  bool    `json:"valid,omitempty"` // the grammar is in order by construction
	Tag    string  `json:"tag"`
	Steps  []PStep `json:"steps"`

	Alt *AltCall `json:"alt,omitempty"` // the other call (C17)

	Mark    string `json:"mark,omitempty"`     // what the message is about (C14)
	MarkMsg string `json:"mark_msg,omitempty"` // and part of the message
}

func (c *ProcCase) last() *PStep { return &c.Steps[len(c.Steps)-1] }

func (c *ProcCase) clone() *ProcCase {
	b, _ := json.Marshal(c)
	d := &ProcCase{}
	if err := json.Unmarshal(b, d); err != nil {
		panic(err)
	}
	return d
}

// refused tells that the last run refuses a grammar that is in order.
func (c *ProcCase) refused(res *Result) string {
	if !c.Valid || res.Exit == 0 || c.LR && !has(c.last().Run.Args, "-resolve_conflicts") {
		return ""
	}
	return fmt.Sprintf("refused: the grammar is in order and the status is %d: %s", res.Exit, short(res.Out))
}

var gogllBin string

// ---------------------------------------------------------------- own outputs

// report names gogll writes or used to write; it removes the LR ones on LR runs.
var reportNames = map[string]bool{
	"symbols.txt": true, "first_follow.txt": true, "grammar_slots.txt": true, "lexfsa.txt": true,
	"CFG_items.txt": true, "LR1_states.txt": true, "LR1_conflicts.txt": true,
	"basic_productions.txt": true, "CFG_symbols.txt": true, "first.txt": true,
}

var goOutputs = []string{"lexer/lexer.go", "token/token.go", "parser/parser.go", "parser/bsr/bsr.go", "parser/slot/slot.go",
	"parser/symbols/symbols.go", "sppf/sppf.go", "ast/ast.go", "errors/errors.go", "parser/action.go", "parser/actiontable.go",
	"parser/gototable.go", "parser/productionstable.go"}
var rustOutputs = []string{"src/lexer/mod.rs", "src/token/mod.rs", "src/parser/mod.rs", "src/parser/bsr/mod.rs", "src/parser/slot/mod.rs",
	"src/parser/symbols/mod.rs", "src/ast/mod.rs", "src/parser/action_table/mod.rs", "src/parser/goto_table/mod.rs", "src/parser/productions_table/mod.rs"}

// within returns p relative to the output directory, or "".
func within(base, p string) string {
	if base == "." || base == "" {
		return p
	}
	if s, ok := strings.CutPrefix(p, base+"/"); ok {
		return s
	}
	return ""
}

func isReport(base, p string) bool { return reportNames[within(base, p)] }

func isOutput(base, p string) bool {
	q := within(base, p)
	for _, l := range [][]string{goOutputs, rustOutputs} {
		for _, o := range l {
			if q == o {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- power loss

// powerLoss applies to tree what a power cut may do to the effects of a run that
// were not synced: the journal says what was written, synced and renamed.
func powerLoss(seed uint64, before, after Tree, j []Entry) Tree {
	r := NewRng(seed, 0x90e4)
	t := after.clone()
	dirty := map[string]bool{} // written and not synced since
	renamed := map[string]string{}
	var order []string
	touch := func(p string) {
		if !dirty[p] {
			dirty[p] = true
			order = append(order, p)
		}
	}
	for _, e := range j {
		if e.E != 0 {
			continue
		}
		switch e.Op {
		case "open":
			if e.M {
				touch(e.P)
			}
		case "write", "truncate":
			touch(e.P)
		case "fsync":
			dirty[e.P] = false
		case "rename":
			if dirty[e.P] {
				touch(e.P2)
			} else {
				dirty[e.P2] = false
			}
			dirty[e.P] = false
			renamed[e.P2] = e.P
		}
	}
	// where the good part of a file ends
	cut := func(n int) int {
		switch r.N(5) {
		case 0:
			return max(0, n-1-r.N(8))
		case 1:
			return max(0, n-1-r.N(200))
		case 2:
			return r.N(n) &^ 511
		}
		return r.N(n)
	}
	var lost []string
	for _, p := range order {
		if _, ok := t[p]; ok && dirty[p] {
			lost = append(lost, p)
		}
	}
	if len(lost) > 0 && r.P(35) { // one file only: damage elsewhere may hide it
		lost = []string{lost[r.N(len(lost))]}
	}
	for _, p := range lost {
		data := t[p]
		switch k := r.N(8); {
		case k < 3: // intact
		case k == 3:
			t[p] = ""
			countFault("power:empty", "file")
		case k == 4 && len(data) > 0:
			t[p] = data[:cut(len(data))]
			countFault("power:truncated", "file")
		case k == 5 && len(data) > 0:
			n := cut(len(data))
			t[p] = data[:n] + strings.Repeat("\x00", len(data)-n)
			countFault("power:zeroed", "file")
		case k == 6:
			if old, had := before[p]; had {
				t[p] = old
			} else {
				delete(t, p)
			}
			countFault("power:unwritten", "file")
		default:
			if old, had := before[p]; had && len(data) > 0 { // old blocks under the new length
				n := cut(len(data))
				s := data[:n]
				if len(old) > n {
					s += old[n:min(len(old), len(data))]
				}
				t[p] = s
				countFault("power:mixed", "file")
			}
		}
	}
	var rs []string
	for to := range renamed {
		rs = append(rs, to)
	}
	sort.Strings(rs)
	for _, to := range rs {
		if r.P(40) { // the rename did not reach the disk
			from := renamed[to]
			if data, ok := t[to]; ok {
				t[from] = data
			}
			if old, had := before[to]; had {
				t[to] = old
			} else {
				delete(t, to)
			}
			countFault("power:unrenamed", "file")
		}
	}
	return t
}

// reset makes the disk hold exactly t.
func (d *Disk) reset(t Tree) {
	cur := d.snapshot()
	ks := cur.keys()
	for i := len(ks) - 1; i >= 0; i-- {
		k := ks[i]
		if _, ok := t[k]; !ok {
			removeAll(d.root() + "/" + strings.TrimSuffix(k, "/"))
		}
	}
	for _, k := range t.keys() {
		if v, ok := cur[k]; !ok || v != t[k] {
			d.put(Tree{k: t[k]})
		}
	}
}

// history runs the steps; it returns the tree before each step, after the last,
// and the results of the runs (nil for edits).
func (c *ProcCase) history(upto int) (trees []Tree, results []*Result) {
	d := newDisk(c.Tree)
	defer d.free()
	cur := c.Tree.clone()
	cur = d.snapshot()
	for i, s := range c.Steps[:upto] {
		trees = append(trees, cur)
		var res *Result
		if s.Write != nil {
			d.reset(func() Tree {
				t := cur.clone()
				for k, v := range s.Write {
					if v == "\x00delete" {
						delete(t, k)
					} else {
						t[k] = v
					}
				}
				return t
			}())
			cur = d.snapshot()
		}
		if s.Run != nil {
			bin := gogllBin
			if s.Next {
				bin = nextBin
			}
			res = d.run(bin, *s.Run)
			after := d.snapshot()
			if s.Power != 0 {
				after = powerLoss(s.Power, cur, after, res.Journal)
				d.reset(after)
				after = d.snapshot()
			}
			cur = after
			seen(res.interleaving())
			countSites(res.Sites)
		}
		results = append(results, res)
		_ = i
	}
	trees = append(trees, cur)
	return
}

// interleaving identifies the schedule a run took: its map orders and the faults
// that fired at which calls.
func (r *Result) interleaving() uint64 {
	h := r.MapHash
	for _, e := range r.Journal {
		if e.F != "" {
			h = HashStr(h^uint64(e.I)*31^uint64(e.E), e.F+e.P)
		}
	}
	return Mix(h)
}

// undisturbed is r without faults and in canonical map order.
func (r Run) undisturbed() Run {
	r.Cfg = SimCfg{Cap: -1, Now: r.Cfg.Now}
	return r
}

// faultless is r without faults, in the same map order.
func (r Run) faultless() Run {
	r.Cfg.Faults, r.Cfg.Cap = nil, -1
	return r
}

// stderrHead is what of standard error is part of the message: of a panic the
// stack trace is not.
func stderrHead(s string) string {
	if i := strings.Index(s, "\ngoroutine "); i >= 0 {
		s = s[:i]
	}
	return s
}

// check runs the case and returns what is wrong ("" if nothing).
func (c *ProcCase) check() string {
	switch c.Oracle {
	case "same":
		return c.checkSame()
	case "honest":
		return c.checkHonest()
	case "reject":
		return c.checkReject()
	case "ast":
		return c.checkAst()
	case "contain":
		return c.checkContain()
	case "recover":
		return c.checkRecover()
	case "fences":
		return c.checkFences()
	case "sets":
		return c.checkSets()
	case "reports":
		return c.checkReports()
	case "self":
		return c.checkSelf()
	case "options":
		return c.checkOptions()
	case "twins":
		return c.checkTwins()
	}
	panic("unknown oracle " + c.Oracle)
}

func short(s string) string {
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %q != %q", i+1, short(x), short(y))
		}
	}
	return ""
}

// clean is the tree an undisturbed run finds when gogll was never run before.
func (c *ProcCase) clean() Tree {
	t := Tree{}
	run := c.last().Run
	t[c.File] = ""
	if run.Cwd != "" {
		t[run.Cwd+"/"] = ""
	}
	return t
}

// checkSame (C01): the last run must give what an undisturbed run from a clean
// directory gives.
func (c *ProcCase) checkSame() string {
	trees, results := c.history(len(c.Steps))
	n := len(c.Steps) - 1
	before, after, res := trees[n], trees[n+1], results[n]
	clean := c.clean()
	src, ok := before[c.File]
	if ok {
		clean[c.File] = src
	} else {
		delete(clean, c.File)
		clean[path.Dir(c.File)+"/"] = ""
	}
	gold, gtree := execRun(gogllBin, clean, c.last().Run.undisturbed())
	if res.Hang || gold.Hang {
		return "hang: the run does not end"
	}
	if gold.Exit != res.Exit {
		return fmt.Sprintf("exit: status %d instead of %d (output %q instead of %q)", res.Exit, gold.Exit, short(res.Out+stderrHead(res.Err)), short(gold.Out+stderrHead(gold.Err)))
	}
	if gold.Out != res.Out {
		return "stdout: " + firstDiff(gold.Out, res.Out)
	}
	if stderrHead(gold.Err) != stderrHead(res.Err) {
		return "stderr: " + firstDiff(stderrHead(gold.Err), stderrHead(res.Err))
	}
	_, hadAst := before[c.Ast]
	for _, k := range gtree.keys() {
		if k == c.Ast && hadAst && !c.All {
			continue
		}
		got, ok := after[k]
		if !ok {
			return "file: " + path.Base(k) + " is not written"
		}
		if got != gtree[k] {
			return "file: " + path.Base(k) + " " + firstDiff(gtree[k], got)
		}
	}
	for _, k := range after.keys() {
		if _, ok := gtree[k]; ok {
			continue
		}
		if old, had := before[k]; had && old == after[k] {
			continue
		}
		return "file: " + path.Base(k) + " is written only after other runs"
	}
	// reports of this mode left by earlier runs must be gone or rewritten when
	// this mode owns them
	_, lr1 := gtree[path.Join(c.Base, "parser/actiontable.go")]
	_, lr2 := gtree[path.Join(c.Base, "src/parser/action_table/mod.rs")]
	if (lr1 || lr2) && res.Exit == 0 {
		for _, rep := range []string{"CFG_items.txt", "LR1_states.txt", "LR1_conflicts.txt"} {
			p := path.Join(c.Base, rep)
			if _, ok := after[p]; ok {
				if _, g := gtree[p]; !g {
					return "file: stale " + rep
				}
			}
		}
	}
	return ""
}

// checkHonest (C08): status 0 only with the complete outputs.
func (c *ProcCase) checkHonest() string {
	trees, results := c.history(len(c.Steps))
	n := len(c.Steps) - 1
	before, after, res := trees[n], trees[n+1], results[n]
	if res.Hang {
		return "hang: the run does not end"
	}
	if res.Exit != 0 {
		return ""
	}
	gold, gtree := execRun(gogllBin, before, c.last().Run.faultless())
	if gold.Exit != 0 {
		return fmt.Sprintf("exit: status 0 where an undisturbed run has status %d", gold.Exit)
	}
	if d := diffTrees(gtree, after); len(d) > 0 {
		return "incomplete: status 0 but " + strings.Join(trunc(d, 4), ", ")
	}
	return ""
}

func trunc(s []string, n int) []string {
	if len(s) > n {
		s = append(s[:n:n], "...")
	}
	return s
}

// checkReject (C09): the grammar of the last run is wrong.
func (c *ProcCase) checkReject() string {
	trees, results := c.history(len(c.Steps))
	n := len(c.Steps) - 1
	before, after, res := trees[n], trees[n+1], results[n]
	if res.Hang {
		return "hang: the run does not end"
	}
	gold, _ := execRun(gogllBin, before, c.last().Run.undisturbed())
	if gold.Exit == 0 {
		if c.Reject {
			return "accepted: a wrong grammar (" + c.Tag + ") is accepted"
		}
		return ""
	}
	probe("rejected grammars")
	if c.Reject && strings.Contains(gold.Err, "goroutine 1 [") {
		return "panic: a wrong grammar (" + c.Tag + ") ends gogll with " + stderrHead(gold.Err)
	}
	if res.Exit == 0 {
		return fmt.Sprintf("exit: status 0 for a grammar rejected with %q", short(gold.Out))
	}
	if res.Crashed {
		// a killed run cannot report
	} else if strings.TrimSpace(res.Out+res.Err) == "" {
		return "silent: status " + fmt.Sprint(res.Exit) + " without a message"
	}
	if len(c.last().Run.Cfg.Faults) == 0 && c.last().Run.Cfg.Cap < 0 {
		if gold.Out != res.Out || stderrHead(gold.Err) != stderrHead(res.Err) || gold.Exit != res.Exit {
			return "message: " + firstDiff(gold.Out+stderrHead(gold.Err), res.Out+stderrHead(res.Err))
		}
	}
	return untouched(before, after, c.Base)
}

// untouched: generated source files are as they were and none are new.
func untouched(before, after Tree, base string) string {
	for _, k := range before.keys() {
		if strings.HasSuffix(k, "/") || isReport(base, k) {
			continue
		}
		got, ok := after[k]
		if !ok {
			return "touched: " + within2(base, k) + " removed by a run that rejects the grammar"
		}
		if got != before[k] {
			return "touched: " + within2(base, k) + " changed by a run that rejects the grammar"
		}
	}
	for _, k := range after.keys() {
		if _, ok := before[k]; ok || strings.HasSuffix(k, "/") || isReport(base, k) {
			continue
		}
		return "touched: " + within2(base, k) + " created by a run that rejects the grammar"
	}
	return ""
}

func within2(base, p string) string {
	if q := within(base, p); q != "" {
		return q
	}
	return p
}

// checkAst (C10): follow the ast file through the history.
func (c *ProcCase) checkAst() string {
	trees, results := c.history(len(c.Steps))
	for i, s := range c.Steps {
		if s.Run == nil {
			continue
		}
		if results[i].Hang {
			return "hang: the run does not end"
		}
		for _, a := range []string{path.Join(c.Base, "ast/ast.go"), path.Join(c.Base, "src/ast/mod.rs")} {
			before, had := trees[i][a]
			after, has := trees[i+1][a]
			all := false
			for _, x := range s.Run.Args {
				all = all || x == "-a"
			}
			same := had == has && before == after
			if same {
				continue
			}
			if had && !all {
				if !has {
					return "lost: the ast file is removed by a run without -a"
				}
				return "lost: the ast file is changed by a run without -a: " + firstDiff(before, after)
			}
			if !has {
				return "removed: the ast file is removed by a run with -a"
			}
			// new content: must be the complete generated one
			t := trees[i].clone()
			delete(t, a)
			r := s.Run.faultless()
			_, gt := execRun(gogllBin, t, r)
			if g, ok := gt[a]; !ok || g != after {
				return fmt.Sprintf("torn: the ast file is neither the old nor the complete new one (%d of %d bytes)", len(after), len(g))
			}
			probe("ast file written")
		}
	}
	return ""
}

// checkContain (C11): every step touches own outputs only.
func (c *ProcCase) checkContain() string {
	trees, results := c.history(len(c.Steps))
	temps := map[string]bool{} // temporary files earlier runs left
	for i, s := range c.Steps {
		if s.Run == nil {
			continue
		}
		res := results[i]
		if len(res.Escapes) > 0 {
			e := res.Escapes[0]
			return fmt.Sprintf("escape: %s of %s", e.Op, e.P)
		}
		before, after := trees[i], trees[i+1]
		for _, e := range res.Journal {
			if !e.M || e.I < 0 {
				continue
			}
			for _, p := range []string{e.P, e.P2} {
				if p == "" {
					continue
				}
				if temps[p] {
					continue
				}
				if m := c.foreign(p, before, e.Op); m != "" {
					return m
				}
			}
		}
		for _, k := range before.keys() {
			if c.ownAt(k) || temps[k] {
				continue
			}
			got, ok := after[k]
			if !ok {
				return "foreign: " + k + " removed"
			}
			if got != before[k] {
				return "foreign: " + k + " changed"
			}
		}
		dirs := ownDirs(c.Base)
		for _, k := range after.keys() {
			if _, ok := before[k]; ok || c.ownAt(k) || dirs[k] {
				continue
			}
			if tempName(c.Base, k) && res.Exit != 0 {
				temps[k] = true
				continue
			}
			return "foreign: " + k + " created"
		}
	}
	return ""
}

// foreign judges one mutating call.
func (c *ProcCase) foreign(p string, before Tree, op string) string {
	if p == "." {
		return ""
	}
	if op == "mkdir" {
		if ownDirs(c.Base)[p+"/"] {
			return ""
		}
		return "foreign: mkdir " + p
	}
	if op == "open" || op == "write" || op == "fsync" || op == "unlink" || op == "rename" || op == "truncate" || op == "chmod" || op == "utimes" || op == "fallocate" || op == "rmdir" {
		if c.ownAt(p) {
			return ""
		}
		if _, had := before[p]; !had && tempName(c.Base, p) {
			return "" // a temporary file beside an output
		}
	}
	return fmt.Sprintf("foreign: %s of %s", op, p)
}

func (c *ProcCase) ownAt(p string) bool { return isOutput(c.Base, p) || isReport(c.Base, p) }

func ownDirs(base string) map[string]bool {
	m := map[string]bool{}
	add := func(p string) {
		for p != "." && p != "/" {
			m[p+"/"] = true
			p = path.Dir(p)
		}
	}
	add(base)
	for _, o := range append(append([]string{}, goOutputs...), rustOutputs...) {
		add(path.Join(base, path.Dir(o)))
	}
	return m
}

// tempName: a file that did not exist before, in a directory of the outputs.
func tempName(base, p string) bool {
	return ownDirs(base)[path.Dir(p)+"/"] || path.Dir(p) == base
}

// checkRecover (C12): after disturbed runs one undisturbed run leaves what it
// would have left without them.
func (c *ProcCase) checkRecover() string {
	n := len(c.Steps) - 1
	trees, results := c.history(n + 1)
	res := results[n]
	if res.Hang {
		return "hang: the repair run does not end"
	}
	// the undisturbed history: user edits and the last run only
	start := c.Tree.clone()
	for _, s := range c.Steps {
		if s.Write != nil {
			for k, v := range s.Write {
				if v == "\x00delete" {
					delete(start, k)
				} else {
					start[k] = v
				}
			}
		}
	}
	gold, gtree := execRun(gogllBin, start, c.last().Run.faultless())
	if gold.Exit != res.Exit {
		return fmt.Sprintf("exit: the repair run has status %d instead of %d: %s", res.Exit, gold.Exit, short(res.Out+stderrHead(res.Err)))
	}
	if gold.Exit != 0 {
		return ""
	}
	mixed := false // other modes or grammars ran in between
	for _, s := range c.Steps[:n] {
		if s.Run != nil && fmt.Sprint(s.Run.Args) != fmt.Sprint(c.last().Run.Args) {
			mixed = true
		}
		if t, ok := s.Write[c.File]; ok && t != start[c.File] {
			mixed = true
		}
	}
	after := trees[n+1]
	var e []string
	for _, x := range diffTrees(gtree, after) {
		k := x[strings.Index(x, " ")+1:]
		if mixed {
			if strings.HasPrefix(x, "extra") && (c.ownAt(k) || ownDirs(c.Base)[k] || tempName(c.Base, k)) {
				continue
			}
			if k == c.Ast && !c.All {
				continue // may be another run's, complete or not: C10
			}
			if old, was := start[k]; was && gtree[k] == old && c.ownAt(k) {
				continue // not an output of the last run
			}
		}
		if _, was := start[k]; was && isReport(c.Base, k) && !strings.HasPrefix(x, "differs") {
			continue
		}
		e = append(e, x)
	}
	if len(e) > 0 {
		return "unrepaired: " + strings.Join(trunc(e, 4), ", ")
	}
	return ""
}
