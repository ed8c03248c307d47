package main

import (
	"path"
	"strings"
	"syscall"

	. "verif/sim/model"
)

// Generators of histories for the properties decided on the gogll process.

func procCase(oracle string, g GCase) *ProcCase {
	return &ProcCase{Oracle: oracle, Tree: g.tree(), Base: g.Base, File: g.File, Ast: g.ast(), Rust: g.Rust, LR: g.LR, All: g.All, Reject: g.Reject, Tag: g.Tag}
}

func (c *ProcCase) run(g GCase, cfg SimCfg) *Run {
	r := &Run{Args: g.Args, Cwd: g.Cwd, Cfg: cfg}
	c.Steps = append(c.Steps, PStep{Run: r})
	return r
}

func (c *ProcCase) write(t Tree) { c.Steps = append(c.Steps, PStep{Write: t}) }

func calm() SimCfg { return SimCfg{Cap: -1} }

func randEnv(r *Rng) map[string]string {
	e := map[string]string{}
	for _, k := range []string{"HOME", "TMPDIR", "LANG", "TZ", "GOPATH", "GOFLAGS", "USER", "PWD"} {
		if r.P(25) {
			e[k] = []string{"", "/nonexistent", "C", "de_DE.UTF-8", "Asia/Tokyo", "-mod=mod", "x y"}[r.N(7)]
		}
	}
	return e
}

// surround changes what the process finds around it without changing the
// grammar: time, environment, ages of files.
func surround(r *Rng, run *Run, t Tree) {
	if r.P(40) {
		run.Cfg.Now = int64(1e18) + int64(r.N(1000000))*1e12
	}
	if r.P(40) {
		run.Env = randEnv(r)
	}
	if r.P(40) {
		run.MTimes = map[string]int64{}
		for _, k := range t.keys() {
			if r.P(60) && !strings.HasSuffix(k, "/") {
				run.MTimes[k] = int64([]int{-1e9, -1000, -1, 0, 1, 3600, 1e8}[r.N(7)])
			}
		}
	}
}

// garbage puts damaged or foreign content at places of the outputs.
func garbage(r *Rng, base string, t Tree, rust bool, ast bool) {
	l := goOutputs
	if rust {
		l = rustOutputs
	}
	put := func(p string) {
		t[path.Join(base, p)] = []string{"", "package x\n", "garbage \x00\xff", strings.Repeat("// old\n", 3000), "\n"}[r.N(5)]
	}
	for _, o := range l {
		if strings.Contains(o, "ast/") {
			if ast && r.P(50) {
				put(o)
			}
			continue
		}
		if r.P(40) {
			put(o)
		}
	}
	for _, o := range sortedKeys(reportNames) {
		if r.P(20) {
			put(o)
		}
	}
}

// spoil leaves what a run of g makes, damaged in some files: of the same size and
// different, cut off, longer, or of the right size and full of zeros.
func spoil(r *Rng, c *ProcCase, g GCase, ast bool) {
	_, t := execRun(gogllBin, c.Tree, Run{Args: g.Args, Cwd: g.Cwd, Cfg: calm()})
	same := r.P(50)
	for _, p := range t.keys() {
		s := t[p]
		if p == g.ast() && !ast || p == g.File || len(s) == 0 || strings.HasSuffix(p, "/") || !isOutput(g.Base, p) && !isReport(g.Base, p) || !r.P(60) {
			continue
		}
		b := []byte(s)
		i := r.N(len(b))
		switch k := r.N(6); {
		case k < 3 || same:
			for n := 1 + r.N(4); n > 0; n-- {
				b[i] ^= byte(1 << r.N(7))
				i = r.N(len(b))
			}
		case k == 3:
			b = b[:i]
		case k == 4:
			b = append(b, b[i:]...)
		case k == 5:
			b = make([]byte, len(b))
		}
		t[p] = string(b)
	}
	c.Tree = t
}

func genSame(r *Rng, emit func(*ProcCase) bool) {
	g := randGCase(r, 12)
	c := procCase("same", g)
	switch r.N(5) {
	case 4:
		spoil(r, c, g, r.P(30))
	case 0:
		garbage(r, g.Base, c.Tree, g.Rust, r.P(30))
	case 1, 2:
		for n := 1 + r.N(3); n > 0; n-- {
			h := g
			if r.P(60) {
				h = g.variant(r, 10)
				c.write(Tree{g.File: h.Text})
			}
			cfg := calm()
			if r.P(50) {
				randMap(r, &cfg)
			}
			if r.P(15) {
				cfg.Faults = []Fault{{At: r.N(70), Kind: []string{"crash", "crashmid", "err"}[r.N(3)], Errno: int(syscall.EIO), Arg: r.N(1000)}}
			}
			c.run(h, cfg)
		}
		c.write(Tree{g.File: g.Text})
	}
	for n := 0; n < 4; n++ {
		d := c.clone()
		cfg := calm()
		if r.P(90) {
			randMap(r, &cfg)
		}
		run := d.run(g, cfg)
		if n > 0 || r.P(50) {
			surround(r, run, d.Tree)
		}
		if !emit(d) {
			return
		}
	}
}

var errnos = map[string][]syscall.Errno{
	"open":     {syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EMFILE, syscall.ENFILE, syscall.EINTR, syscall.EROFS, syscall.ENOMEM, syscall.ESTALE, syscall.EDQUOT},
	"read":     {syscall.EIO, syscall.EINTR, syscall.ESTALE, syscall.ENOMEM},
	"write":    {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EINTR, syscall.EFBIG, syscall.ESTALE},
	"close":    {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT},
	"fsync":    {syscall.EIO, syscall.ENOSPC},
	"stat":     {syscall.EIO, syscall.EACCES, syscall.ESTALE, syscall.ENOMEM, syscall.EINTR},
	"fstat":    {syscall.EIO, syscall.ESTALE},
	"mkdir":    {syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EROFS, syscall.EDQUOT},
	"unlink":   {syscall.EIO, syscall.EACCES, syscall.EBUSY, syscall.EROFS, syscall.EPERM},
	"rename":   {syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EBUSY},
	"truncate": {syscall.EIO},
	"chmod":    {syscall.EIO, syscall.EPERM},
	"getdents": {syscall.EIO},
	"rmdir":    {syscall.EIO},
	"utimes":   {syscall.EIO, syscall.EPERM},
	"link":     {syscall.EIO},
}

// ioFaults lists the faults that can hit call e.
func ioFaults(r *Rng, e Entry, all bool) []Fault {
	var fs []Fault
	ens := errnos[e.Op]
	if len(ens) == 0 {
		return nil
	}
	pick := func() int { return int(ens[r.N(len(ens))]) }
	fs = append(fs, Fault{At: e.I, Kind: "err", Errno: int(ens[0])})
	fs = append(fs, Fault{At: e.I, Kind: "err", Errno: pick(), Run: []int{0, 0, 1, 3, 1000}[r.N(5)]})
	switch e.Op {
	case "read":
		fs = append(fs, Fault{At: e.I, Kind: "short", Arg: -(1 + r.N(max(1, e.R))), Run: r.N(20)})
	case "write":
		fs = append(fs, Fault{At: e.I, Kind: "torn", Errno: []int{int(syscall.ENOSPC), int(syscall.EIO)}[r.N(2)], Arg: r.N(1000)})
		fs = append(fs, Fault{At: e.I, Kind: "short", Arg: r.N(1000), Run: r.N(5)})
	case "close":
		fs = append(fs, Fault{At: e.I, Kind: "lose", Errno: int(syscall.EIO), Arg: r.N(1000)})
	case "open", "mkdir", "unlink", "rename", "fsync", "truncate":
		if r.P(30) {
			fs = append(fs, Fault{At: e.I, Kind: "errafter", Errno: int(syscall.EIO)})
		}
	}
	if !all {
		fs = []Fault{fs[r.N(len(fs))]}
	}
	return fs
}

// crashFaults lists the ways a process can die at call e.
func crashFaults(r *Rng, e Entry) []Fault {
	fs := []Fault{{At: e.I, Kind: "crash"}}
	if e.M {
		fs = append(fs, Fault{At: e.I, Kind: "crashafter"})
	}
	if e.Op == "write" {
		fs = append(fs, Fault{At: e.I, Kind: "crashmid", Arg: r.N(1000)})
	}
	return fs
}

// prelude gives the history before the run under test: nothing, garbage, or
// earlier runs.
func prelude(r *Rng, c *ProcCase, g GCase, rejectP int) {
	switch r.N(4) {
	case 0:
	case 1:
		if r.P(50) {
			spoil(r, c, g, r.P(30))
		} else {
			garbage(r, g.Base, c.Tree, g.Rust, r.P(30))
		}
	default:
		for n := 1 + r.N(2); n > 0; n-- {
			h := g
			if r.P(70) {
				h = g.variant(r, rejectP)
			}
			c.write(Tree{g.File: h.Text})
			c.run(h, calm())
		}
		c.write(Tree{g.File: g.Text})
	}
	// bake the undisturbed prelude into the starting tree
	if len(c.Steps) > 0 {
		trees, _ := c.history(len(c.Steps))
		c.Tree, c.Steps = trees[len(trees)-1], nil
	}
}

// plan of the calls an undisturbed run makes in the state c is in
func callsOf(c *ProcCase, g GCase) []Entry {
	d := newDisk(c.Tree)
	defer d.free()
	res := d.run(gogllBin, Run{Args: g.Args, Cwd: g.Cwd, Cfg: calm()})
	var es []Entry
	for _, e := range res.Journal {
		if e.I >= 0 {
			es = append(es, e)
		}
	}
	return es
}

func genHonest(r *Rng, emit func(*ProcCase) bool) {
	g := randGCase(r, 4)
	c := procCase("honest", g)
	prelude(r, c, g, 5)
	calls := callsOf(c, g)
	for _, e := range calls {
		for _, f := range ioFaults(r, e, r.P(60)) {
			d := c.clone()
			cfg := calm()
			if r.P(20) {
				randMap(r, &cfg)
			}
			cfg.Faults = []Fault{f}
			d.run(g, cfg)
			if !emit(d) {
				return
			}
		}
	}
	// reads of the grammar that end after a line, where a part of it may be a grammar
	for _, e := range calls {
		if e.Op != "read" || e.R != len(g.Text) || path.Base(e.P) != path.Base(g.File) {
			continue
		}
		var cuts []int
		for i, b := range []byte(g.Text) {
			if b == '\n' && i+1 < len(g.Text) {
				cuts = append(cuts, i+1-r.N(2))
			}
		}
		r.Shuffle(len(cuts), func(i, j int) { cuts[i], cuts[j] = cuts[j], cuts[i] })
		for i, n := range cuts {
			if i >= 6 || n == 0 {
				break
			}
			d := c.clone()
			cfg := calm()
			cfg.Faults = []Fault{{At: e.I, Kind: "short", Arg: -n}}
			d.run(g, cfg)
			if !emit(d) {
				return
			}
		}
		break
	}
	total := 0
	for _, e := range calls {
		if e.Op == "write" {
			total += e.R
		}
	}
	for n := 0; n < 12; n++ { // full disks and several faults at once
		d := c.clone()
		cfg := calm()
		if r.P(30) {
			randMap(r, &cfg)
		}
		if r.P(40) {
			cfg.Cap = int64(r.N(total + 1))
		}
		for k := r.N(4); k > 0 && len(calls) > 0; k-- {
			cfg.Faults = append(cfg.Faults, ioFaults(r, calls[r.N(len(calls))], false)...)
		}
		d.run(g, cfg)
		if !emit(d) {
			return
		}
	}
}

func genReject(r *Rng, emit func(*ProcCase) bool) {
	g := randGCase(r, 0)
	if !g.LR && r.P(30) { // conflicts need an LR mode
		for !g.LR {
			g.randOpts(r)
		}
		g.setArgs()
	}
	c := procCase("reject", g)
	prelude(r, c, g, 0)
	if len(c.Tree) <= 2 || r.P(50) { // the outputs of the right grammar
		c.run(g, calm())
		trees, _ := c.history(1)
		c.Tree, c.Steps = trees[1], nil
	}
	for n := 0; n < 6; n++ {
		b := g
		if g.LR && r.P(40) {
			b.Text, b.Tag = randGrammarText(r, r.P(30), g.md) // most are not LR(1)
			b.opts = nil
			for _, o := range g.opts {
				if o != "-resolve_conflicts" {
					b.opts = append(b.opts, o)
				}
			}
			b.setArgs()
			b.Reject = false
		} else {
			var t string
			b.Text, t, b.Reject = breakGrammar(r, g.Text)
			b.Tag += " broken: " + t
		}
		d := c.clone()
		d.Reject, d.Tag = b.Reject, b.Tag
		d.Tree[g.File] = b.Text
		calls := callsOf(d, b)
		for k := 0; k < 5; k++ {
			x := d.clone()
			cfg := calm()
			randMap(r, &cfg)
			if k > 0 && len(calls) > 0 {
				e := calls[r.N(len(calls))]
				if r.P(80) {
					cfg.Faults = ioFaults(r, e, false)
				} else {
					cfg.Faults = crashFaults(r, e)[:1]
				}
			}
			x.run(b, cfg)
			if !emit(x) {
				return
			}
		}
	}
}

func genAst(r *Rng, emit func(*ProcCase) bool) {
	g := randGCase(r, 5)
	for !g.LR {
		g.randOpts(r)
	}
	g.setArgs()
	c := procCase("ast", g)
	prelude(r, c, g, 0)
	goAst, rsAst := path.Join(g.Base, "ast/ast.go"), path.Join(g.Base, "src/ast/mod.rs")
	edit := func() Tree {
		a := goAst
		if g.Rust != r.P(10) {
			a = rsAst
		}
		return Tree{a: []string{"", "package ast\n\n// mine\n", "broken", "\x00\xff", strings.Repeat("// mine\n", 2000)}[r.N(5)]}
	}
	if r.P(60) {
		c.write(edit())
	}
	calls := callsOf(c, g)
	// every fault on every call that touches an ast file, and a crash at each
	for _, e := range calls {
		var fs []Fault
		if strings.Contains(e.P, "ast") || strings.Contains(e.P2, "ast") {
			fs = append(ioFaults(r, e, true), crashFaults(r, e)...)
		} else if r.P(15) {
			fs = append(ioFaults(r, e, false), crashFaults(r, e)[0])
		}
		for _, f := range fs {
			d := c.clone()
			cfg := calm()
			if r.P(20) {
				randMap(r, &cfg)
			}
			cfg.Faults = []Fault{f}
			d.run(g, cfg)
			if strings.HasPrefix(f.Kind, "crash") && r.P(60) {
				d.last().Power = r.Next() | 1
			}
			if r.P(30) {
				d.run(g, calm())
			}
			if !emit(d) {
				return
			}
		}
	}
	for n := 0; n < 6; n++ { // longer histories
		d := c.clone()
		for k := 2 + r.N(4); k > 0; k-- {
			h := g
			if r.P(60) {
				h = g.variant(r, 10)
				d.write(Tree{g.File: h.Text})
			}
			cfg := calm()
			if r.P(30) {
				randMap(r, &cfg)
			}
			if r.P(50) {
				e := Entry{I: r.N(70), Op: []string{"open", "write", "stat", "close", "read"}[r.N(5)], M: true}
				if r.P(50) && len(calls) > 0 {
					e = calls[r.N(len(calls))]
				}
				if r.P(60) {
					cfg.Faults = ioFaults(r, e, false)
				} else {
					fs := crashFaults(r, e)
					cfg.Faults = fs[r.N(len(fs)):][:1]
				}
			}
			run := d.run(h, cfg)
			if r.P(30) {
				surround(r, run, d.Tree)
			}
			if len(cfg.Faults) > 0 && strings.HasPrefix(cfg.Faults[0].Kind, "crash") && r.P(50) {
				d.last().Power = r.Next() | 1
			}
			if r.P(25) {
				d.write(edit())
			} else if r.P(20) { // in what is there already
				trees, _ := d.history(len(d.Steps))
				now := trees[len(trees)-1]
				for _, a := range []string{goAst, rsAst} {
					if s, ok := now[a]; ok {
						i := r.N(len(s) + 1)
						d.write(Tree{a: []string{s + "\n// mine\n", "// mine\n" + s, s[:i], s[:i] + "/* mine */" + s[i:], strings.TrimSpace(s)}[r.N(5)]})
					}
				}
			}
		}
		if !emit(d) {
			return
		}
	}
}

// decoys are files beside the outputs that are not gogll's.
func decoys(r *Rng, c *ProcCase, g GCase) {
	names := []string{
		"lexer/user.go", "lexer/lexer_test.go", "lexer/lexer.go.orig", "token/extra.go", "parser/parser_test.go", "parser/bsr/extra.go", "parser/slot/x.go",
		"parser/symbols/y.go", "sppf/extra.go", "sppf/dot/dot.go", "ast/nodes.go", "ast/ast_test.go", "ast/ast.go.bak", "errors/extra.go", "errors/errors_test.go",
		"parser/action.go~", "parser/extra/z.go", "main.go", "go.mod", "go.sum", "README.md", "src/main.rs", "src/lib.rs", "src/lexer/extra.rs", "src/ast/node.rs",
		"src/parser/extra.rs", "Cargo.toml", "symbols.txt.bak", "my_symbols.txt", "first_follow.txt.1", "LR1_states.txt.orig", "LR1_conflicts.txt~", "CFG_items.md",
		"old_first.txt", "lexfsa.txt.gz", "docs/symbols.txt", "docs/first.txt", "tmp/x.tmp", "notes.txt", "terminals.txt", "states.txt", "conflicts.txt", "items.txt",
		"grammar_slots.TXT", "Symbols.txt", "lexer.go", "parser.go", "ast.go", "token.go", "bsr.go", ".hidden", "g.md.bak", "g2.md", "first_follow.md",
		"LR1_states.dot", "first_sets.txt", "follow.txt", "basic_prod.txt", "cfg_symbols.txt",
	}
	// names made of those of the outputs
	words := []string{"notes", "mine", "2", "old", "x", "test", "states2", "user"}
	for _, n := range sortedKeys(reportNames) {
		w := words[r.N(len(words))]
		stem := strings.TrimSuffix(n, ".txt")
		head := strings.SplitN(stem, "_", 2)[0]
		names = append(names, head+"_"+w+".txt", stem+"_"+w+".txt", w+"_"+n, stem+"."+w, head+".txt", w+".txt", stem+w+".txt", strings.ToLower(n)+"."+w)
	}
	for _, l := range [][]string{goOutputs, rustOutputs} {
		for _, o := range l {
			if r.P(50) {
				w := words[r.N(len(words))]
				d, b, e := path.Dir(o), strings.TrimSuffix(path.Base(o), path.Ext(o)), path.Ext(o)
				names = append(names, d+"/"+w+e, d+"/"+b+"_"+w+e, d+"/"+w+"_"+b+e, d+"/"+b+e+"."+w, d+"/"+b+"."+w, d+"/"+w+".txt", d+"/"+w+"/"+b+e)
			}
		}
	}
	dirs := []string{g.Base, "w", "", path.Dir(g.File), path.Dir(g.Base), "elsewhere"}
	for _, n := range names {
		if !r.P(45) {
			continue
		}
		d := g.Base
		if r.P(35) {
			d = dirs[r.N(len(dirs))]
		}
		p := path.Join(d, n)
		if p == g.File || isOutput(g.Base, p) || isReport(g.Base, p) {
			continue
		}
		if _, ok := c.Tree[p]; ok {
			continue
		}
		c.Tree[p] = "decoy " + n + "\n"
	}
	for _, d := range dirs { // files named like reports in other directories
		for _, n := range sortedKeys(reportNames) {
			p := path.Join(d, n)
			if r.P(20) && !isReport(g.Base, p) {
				c.Tree[p] = "not a report\n"
			}
		}
	}
	if r.P(40) {
		c.Tree[path.Join(g.Base, "empty")+"/"] = ""
	}
}

func genContain(r *Rng, emit func(*ProcCase) bool) {
	g := randGCase(r, 15)
	c := procCase("contain", g)
	prelude(r, c, g, 10)
	decoys(r, c, g)
	calls := callsOf(c, g)
	for n := 0; n < 10; n++ {
		d := c.clone()
		k := 1
		if r.P(30) {
			k = 2 + r.N(2)
		}
		for ; k > 0; k-- {
			h := g
			if k > 1 {
				h = g.variant(r, 15)
				d.write(Tree{g.File: h.Text})
			}
			cfg := calm()
			if r.P(40) {
				randMap(r, &cfg)
			}
			if n > 0 && len(calls) > 0 {
				e := calls[r.N(len(calls))]
				fs := ioFaults(r, e, true)
				if r.P(40) || len(fs) == 0 {
					fs = crashFaults(r, e)
				}
				cfg.Faults = fs[r.N(len(fs)):][:1]
			}
			run := d.run(h, cfg)
			surround(r, run, d.Tree)
			if k > 1 {
				d.write(Tree{g.File: g.Text})
			}
		}
		if !emit(d) {
			return
		}
	}
}

func genRecover(r *Rng, emit func(*ProcCase) bool) {
	g := randGCase(r, 0)
	c := procCase("recover", g)
	prelude(r, c, g, 0)
	calls := callsOf(c, g)
	last := func(d *ProcCase) bool {
		cfg := calm()
		if r.P(20) {
			randMap(r, &cfg)
		}
		run := d.run(g, cfg)
		if r.P(30) {
			surround(r, run, d.Tree)
		}
		return emit(d)
	}
	for _, e := range calls {
		fs := crashFaults(r, e)
		for _, f := range fs {
			d := c.clone()
			cfg := calm()
			cfg.Faults = []Fault{f}
			d.run(g, cfg)
			if r.P(65) {
				d.last().Power = r.Next() | 1
			}
			if !last(d) {
				return
			}
		}
		for _, f := range ioFaults(r, e, false) {
			d := c.clone()
			cfg := calm()
			cfg.Faults = []Fault{f}
			d.run(g, cfg)
			if r.P(20) {
				d.last().Power = r.Next() | 1
			}
			if !last(d) {
				return
			}
		}
	}
	for n := 0; n < 30; n++ { // the run ends, then the power fails
		d := c.clone()
		d.run(g, calm())
		d.last().Power = r.Next() | 1
		if !last(d) {
			return
		}
	}
	for n := 0; n < 8; n++ { // several interrupted runs, of other modes and grammars too
		d := c.clone()
		for k := 1 + r.N(4); k > 0; k-- {
			h := g
			if r.P(40) {
				h = g.variant(r, 5)
				d.write(Tree{g.File: h.Text})
			}
			cfg := calm()
			if len(calls) > 0 {
				e := calls[r.N(len(calls))]
				fs := append(ioFaults(r, e, true), crashFaults(r, e)...)
				cfg.Faults = fs[r.N(len(fs)):][:1]
			}
			d.run(h, cfg)
			if r.P(50) {
				d.last().Power = r.Next() | 1
			}
		}
		d.write(Tree{g.File: g.Text})
		if !last(d) {
			return
		}
	}
}
