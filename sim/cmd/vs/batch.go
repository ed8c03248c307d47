package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/sim/batch"
	. "verif/sim/model"
)

// A batch is one program that holds the packages gogll generated for some grammars,
// rewritten for the simulator, and the harness that drives and judges them.

// BGram is one grammar of a batch.
type BGram struct {
	Name  string   `json:"name"`
	Mode  string   `json:"mode"` // gll, knuth, pager, knuthr, pagerr (with -resolve_conflicts), lex
	G     *Gram    `json:"g,omitempty"`
	L     *LexGram `json:"l,omitempty"`
	Order int      `json:"order"` // map order of the generator
	Seed  uint64   `json:"seed"`
	Late  bool     `json:"late,omitempty"`
	tag   string
}

func (b *BGram) lr() bool {
	return strings.HasPrefix(b.Mode, "knuth") || strings.HasPrefix(b.Mode, "pager")
}

func (b *BGram) text() string {
	if b.L != nil {
		return strings.Replace(b.L.Text(), `package "x"`, `package "simbatch/`+b.Name+`"`, 1)
	}
	g := b.G.Clone()
	g.Pkg = "simbatch/" + b.Name
	return g.Text(0)
}

func (b *BGram) cfg() SimCfg { return SimCfg{Mode: b.Order, Seed: b.Seed, Late: b.Late, Cap: -1} }

// BOrder, BCase, BOp, BJob and BOutput mirror the harness's types.
type BOrder struct {
	Mode int      `json:"mode"`
	Seed uint64   `json:"seed,omitempty"`
	Late bool     `json:"late,omitempty"`
	Only []string `json:"only,omitempty"`
}

type BOp struct {
	G     string `json:"g"`
	Kind  string `json:"kind"`
	Text  string `json:"text"`
	Fail  int    `json:"fail,omitempty"`
	T     int    `json:"t"`
	Share int    `json:"share,omitempty"`
	Ready bool   `json:"ready,omitempty"`
	Ref   string `json:"ref,omitempty"`
}

type BCase struct {
	G      string   `json:"g"`
	Text   string   `json:"text"`
	Orders []BOrder `json:"orders,omitempty"`
	More   []string `json:"more,omitempty"`
	Fail   int      `json:"fail,omitempty"`
	File   string   `json:"file,omitempty"`
	Raw    []byte   `json:"raw,omitempty"`
	Faults []Fault  `json:"faults,omitempty"`
	Ops    []BOp    `json:"ops,omitempty"`
	Seed   uint64   `json:"seed,omitempty"`
	Mean   int      `json:"mean,omitempty"`
}

type BGramJob struct {
	Name string
	G    *Gram
	Lex  *LexGram
	Tag  string
}

type BJob struct {
	Prop    string
	Seed    uint64
	Grams   []BGramJob
	Also    []BGramJob
	Count   int
	Seconds float64
	Cases   []BCase
	Out     string
	Cur     string
	Dir     string
	Budget  float64
	Pool    []BOp
	Digest  bool
}

type BFound struct {
	Msg   string
	Case  BCase
	Prev  []BCase
	Gram  string
	Index int
}

type BOutput struct {
	Evals     int
	Nontriv   []uint64
	Inter     []uint64
	Samples   []interface{}
	Found     []BFound
	Steps     int64
	Runs      int64
	Faults    map[string]int
	Probes    map[string]int
	Sites     map[string]int
	Msgs      []string
	Digests   []string
	Grams     int
	TimedOut  bool
	Switches  int64
	RaceBuild bool
	Slow      []string
	Pool      []BOp
}

// ---------------------------------------------------------------- generation

// generated is what gogll made of a grammar.
type generated struct {
	files map[string][]byte // below the output directory
	msg   string            // what is wrong with it
	lr1   bool
}

func (b *BGram) args() []string {
	var a []string
	switch b.Mode {
	case "knuth", "knuthr":
		a = append(a, "-knuth")
	case "pager", "pagerr":
		a = append(a, "-pager")
	}
	if b.resolved() {
		a = append(a, "-resolve_conflicts")
	}
	return append(a, "g.bnf")
}

func (b *BGram) resolved() bool { return b.Mode == "knuthr" || b.Mode == "pagerr" }

func (b *BGram) generate() generated {
	res, t := execRun(gogllBin, Tree{"w/g.bnf": b.text()}, Run{Args: b.args(), Cwd: "w", Cfg: b.cfg()})
	g := generated{files: map[string][]byte{}}
	head := stderrHead(res.Err)
	if head == "" {
		head = clip(res.Out, 300)
	}
	what := fmt.Sprintf("%s %s", strings.Join(b.args(), " "), strings.ReplaceAll(strings.TrimSpace(b.text()), "\n", " "))
	switch {
	case res.Hang:
		g.msg = "generator: gogll does not end: " + what
	case strings.Contains(res.Err, "panic: ") || strings.Contains(res.Err, "fatal error: "):
		g.msg = fmt.Sprintf("generator: gogll crashes (%s): %s", head, what)
	case b.lr() && !b.resolved():
		ok, known, _ := b.G.Compile().LR1(3000)
		g.lr1 = ok && known
		if known && ok && res.Exit != 0 {
			g.msg = fmt.Sprintf("verdict: gogll rejects an LR(1) grammar (%s): %s", head, what)
		}
		if known && !ok && res.Exit == 0 {
			g.msg = "verdict: gogll accepts a grammar that is not LR(1): " + what
		}
	case res.Exit != 0:
		g.msg = fmt.Sprintf("generator: gogll rejects a correct grammar (%s): %s", head, what)
	}
	for p, c := range t {
		if strings.HasSuffix(p, ".go") {
			g.files[strings.TrimPrefix(p, "w/")] = []byte(c)
		}
	}
	return g
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---------------------------------------------------------------- building

var batchSeq int64
var stdOnce sync.Once
var stdExports map[string]string
var goutilDir string // rewritten copy
var goutilPkgs []listPkg

var genImports = []string{"bytes", "errors", "fmt", "io", "io/ioutil", "math", "math/rand", "os", "path", "path/filepath", "regexp", "runtime", "sort", "strconv", "strings", "sync", "sync/atomic", "time", "unicode", "unicode/utf8", "unsafe", "container/list", "container/heap", "log", "reflect", "slices", "maps", "text/template", "hash/fnv", "math/bits", "cmp", "bufio", "context", "encoding/json"}

// rewritten copies of the dependencies of generated code
func batchDeps() {
	stdOnce.Do(func() {
		stdExports = map[string]string{}
		for _, p := range goList(repoDir, append(append([]string{}, genImports...), "github.com/goccmack/goutil/ioutil", "github.com/goccmack/goutil/stringset")...) {
			if p.Standard {
				stdExports[p.ImportPath] = p.Export
			} else {
				goutilPkgs = append(goutilPkgs, p)
			}
		}
	})
}

// moreDeps adds packages that generated code imports and batchDeps did not expect.
func moreDeps(gens []generated) {
	have := map[string]bool{}
	for p := range stdExports {
		have[p] = true
	}
	for _, p := range goutilPkgs {
		have[p.ImportPath] = true
	}
	var more []string
	for _, g := range gens {
		for _, b := range g.files {
			for _, i := range imports(b) {
				if !have[i] && !strings.HasPrefix(i, "simbatch/") {
					have[i] = true
					more = append(more, i)
				}
			}
		}
	}
	sort.Strings(more)
	for _, i := range more {
		ps, err := tryGoList(repoDir, i)
		if err != nil {
			continue // the generated code will not compile
		}
		for _, p := range ps {
			if p.Standard {
				stdExports[p.ImportPath] = p.Export
				continue
			}
			dup := false
			for _, q := range goutilPkgs {
				dup = dup || q.ImportPath == p.ImportPath
			}
			if !dup && p.Module != nil {
				goutilPkgs = append(goutilPkgs, p)
			}
		}
	}
}

func imports(src []byte) []string {
	f, err := parser.ParseFile(token.NewFileSet(), "", src, parser.ImportsOnly)
	if err != nil {
		return nil
	}
	var is []string
	for _, i := range f.Imports {
		s, _ := strconv.Unquote(i.Path.Value)
		is = append(is, s)
	}
	return is
}

// batchBin is a built batch.
type batchBin struct {
	bin   string
	dir   string
	grams map[string]*BGram
	race  bool
	bad   map[string]string // grammars that could not be built: message
	deps  map[string]map[string][]byte
}

func (b *batchBin) free() { removeAll(b.dir) }

// buildBatch generates and builds. Grammars with something wrong are left out and
// listed in bad.
func buildBatch(grams []*BGram, race bool) *batchBin {
	batchDeps()
	dir := filepath.Join(workDir, fmt.Sprintf("batch%04d", atomic.AddInt64(&batchSeq, 1)))
	src := filepath.Join(dir, "src")
	bb := &batchBin{dir: dir, grams: map[string]*BGram{}, race: race, bad: map[string]string{}}
	gens := make([]generated, len(grams))
	parallel(len(grams), time.Time{}, func(i int) { gens[i] = grams[i].generate() })
	moreDeps(gens)
	type pkgFiles struct {
		path  string
		files map[string][]byte
	}
	var mu sync.Mutex
	depsOut := map[string][]byte{}
	parallel(len(grams), time.Time{}, func(i int) {
		g, gen := grams[i], gens[i]
		if gen.msg != "" {
			mu.Lock()
			bb.bad[g.Name] = gen.msg
			mu.Unlock()
			return
		}
		if g.lr() && !g.resolved() && !gen.lr1 {
			return // rightly rejected
		}
		r := newRewriter(stdExports, rwOpts{yields: true, sync: true, goVer: "go1.21", astPkgs: map[string]bool{"simbatch/" + g.Name + "/ast": true}})
		for _, p := range goutilPkgs {
			files := map[string][]byte{}
			for _, f := range p.GoFiles {
				b, err := os.ReadFile(filepath.Join(p.Dir, f))
				must(err)
				files[filepath.Join(p.Dir, f)] = b
			}
			out, err := r.pkg(p.ImportPath, files)
			must(err)
			mu.Lock()
			for f, b := range out {
				rel, _ := filepath.Rel(p.Module.Dir, f)
				depsOut[filepath.Join(strings.ReplaceAll(p.Module.Path, "/", "_"), rel)] = b
				depsOut[filepath.Join(strings.ReplaceAll(p.Module.Path, "/", "_"), "go.mod")] = []byte("module " + p.Module.Path + "\n\ngo 1.21\n")
			}
			mu.Unlock()
		}
		// packages in dependency order
		pkgs := map[string]*pkgFiles{}
		for f, b := range gen.files {
			if g.Mode == "lex" && !strings.HasPrefix(f, "lexer/") && !strings.HasPrefix(f, "token/") {
				continue
			}
			p := path.Join("simbatch", g.Name, path.Dir(f))
			if pkgs[p] == nil {
				pkgs[p] = &pkgFiles{p, map[string][]byte{}}
			}
			pkgs[p].files[filepath.Join(src, g.Name, f)] = b
		}
		var order []string
		state := map[string]int{}
		var visit func(p string)
		visit = func(p string) {
			if pkgs[p] == nil || state[p] != 0 {
				return
			}
			state[p] = 1
			for _, f := range sortedKeys(pkgs[p].files) {
				for _, i := range imports(pkgs[p].files[f]) {
					visit(i)
				}
			}
			order = append(order, p)
		}
		for _, p := range sortedKeys(pkgs) {
			visit(p)
		}
		out := map[string][]byte{}
		for _, p := range order {
			res, err := r.pkg(p, pkgs[p].files)
			if err != nil {
				mu.Lock()
				bb.bad[g.Name] = fmt.Sprintf("generator: the generated code does not compile (%s): %s %s", strings.ReplaceAll(err.Error(), src, ""), strings.Join(g.args(), " "), strings.ReplaceAll(strings.TrimSpace(g.text()), "\n", " "))
				mu.Unlock()
				return
			}
			for f, b := range res {
				out[f] = b
			}
		}
		need := []string{"lexer", "token"}
		if g.lr() {
			need = append(need, "parser", "ast")
		} else if g.Mode == "gll" {
			need = append(need, "parser", "parser/bsr", "parser/symbols", "sppf")
		}
		for _, n := range need {
			if pkgs["simbatch/"+g.Name+"/"+n] == nil {
				mu.Lock()
				bb.bad[g.Name] = fmt.Sprintf("generator: gogll exits with 0 and no package %s: %s", n, g.text())
				mu.Unlock()
				return
			}
		}
		for f, b := range out {
			writeFile(f, b)
		}
		mu.Lock()
		bb.grams[g.Name] = g
		mu.Unlock()
	})
	if len(bb.grams) == 0 {
		return bb
	}
	gm := "module simbatch\n\ngo 1.21\n"
	mods := map[string]bool{}
	for f, b := range depsOut {
		writeFile(filepath.Join(dir, "mod", f), b)
	}
	for _, p := range goutilPkgs {
		if !mods[p.Module.Path] {
			mods[p.Module.Path] = true
			gm += fmt.Sprintf("\nrequire %s v0.0.0\nreplace %s => %s\n", p.Module.Path, p.Module.Path, filepath.Join(dir, "mod", strings.ReplaceAll(p.Module.Path, "/", "_")))
		}
	}
	writeFile(filepath.Join(src, "go.mod"), []byte(gm))
	read := func(n string) []byte {
		b, err := batch.FS.ReadFile(n)
		must(err)
		return b
	}
	es, err := batch.FS.ReadDir(".")
	must(err)
	for _, e := range es {
		if n, ok := strings.CutSuffix(e.Name(), ".go.txt"); ok {
			writeFile(filepath.Join(src, "h", n+".go"), read(e.Name()))
		}
	}
	for _, n := range []string{"rng.go", "gram.go", "lex.go", "forest.go", "chart.go"} {
		b, err := Source.ReadFile(n)
		must(err)
		writeFile(filepath.Join(src, "model", n), b)
	}
	writeFile(filepath.Join(src, "main.go"), read("main.tmpl"))
	tmpl := string(read("adapter.tmpl"))
	for n, g := range bb.grams {
		var b bytes.Buffer
		for _, l := range strings.SplitAfter(tmpl, "\n") {
			if s, ok := strings.CutPrefix(l, "{{GLL}}"); ok {
				if g.Mode != "gll" {
					continue
				}
				l = s
			}
			if s, ok := strings.CutPrefix(l, "{{LR}}"); ok {
				if !g.lr() {
					continue
				}
				l = s
			}
			b.WriteString(strings.ReplaceAll(l, "{{P}}", n))
		}
		writeFile(filepath.Join(src, n+".go"), b.Bytes())
	}
	ov := simOverlay(filepath.Join(dir, "ov"))
	bb.bin = filepath.Join(dir, "prog")
	args := []string{"build", "-overlay", writeOverlay(filepath.Join(dir, "ov"), ov), "-o", bb.bin}
	env := []string{"GOFLAGS=-trimpath -buildvcs=false -mod=mod", "GOWORK=off"}
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	if out, err := goRun(src, env, append(args, ".")...); err != nil {
		fatal("building a batch: %v\n%s", err, clip(out, 4000))
	}
	return bb
}

// ---------------------------------------------------------------- running

var jobSeq int64

func (bb *batchBin) gramJobs(names []string) (js []BGramJob) {
	for _, n := range names {
		g := bb.grams[n]
		j := BGramJob{Name: n, G: g.G, Lex: g.L, Tag: g.tag}
		if g.G != nil {
			c := g.G.Clone()
			c.Resolved = g.resolved()
			c.Canonical = strings.HasPrefix(g.Mode, "knuth")
			j.G = c
		}
		js = append(js, j)
	}
	return
}

// run executes one job in a fresh process. crash is what ended it, if it did not
// end by itself; cur is the case it was at.
func (bb *batchBin) run(j BJob, limit time.Duration, env ...string) (out *BOutput, crash string, cur *BCase) {
	dir := filepath.Join(bb.dir, fmt.Sprintf("job%05d", atomic.AddInt64(&jobSeq, 1)))
	must(os.MkdirAll(filepath.Join(dir, "scratch"), 0755))
	defer removeAll(dir)
	j.Out, j.Cur, j.Dir = filepath.Join(dir, "out"), filepath.Join(dir, "cur"), filepath.Join(dir, "scratch")
	if len(j.Pool) > 0 {
		j.Also = bb.gramJobs(sortedKeys(bb.grams))
	}
	b, err := json.Marshal(j)
	must(err)
	writeFile(filepath.Join(dir, "job"), b)
	sh := `ulimit -v 6500000; exec "$0" "$1"`
	if bb.race {
		sh = `exec "$0" "$1"`
	}
	cmd := exec.Command("/bin/bash", "-c", sh, bb.bin, filepath.Join(dir, "job"))
	cmd.Env = append([]string{"PATH=/nonexistent", "GOMAXPROCS=2", "GOTRACEBACK=single", "GOGC=200", "GORACE=exitcode=0 halt_on_error=0 log_path=" + filepath.Join(dir, "race")}, env...)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		fatal("cannot start %s: %v", bb.bin, err)
	}
	killed := false
	timer := time.AfterFunc(limit, func() { killed = true; cmd.Process.Kill() })
	werr := cmd.Wait()
	timer.Stop()
	if werr == nil {
		b, err := os.ReadFile(j.Out)
		must(err)
		out = &BOutput{}
		must(json.Unmarshal(b, out))
		if bb.race {
			for i := range out.Found {
				if class(out.Found[i].Msg) == "C05 race" {
					out.Found[i].Msg = raceText(dir, out.Found[i].Msg)
				}
			}
			for i := range out.Msgs {
				if class(out.Msgs[i]) == "C05 race" {
					out.Msgs[i] = raceText(dir, out.Msgs[i])
				}
			}
		}
		return
	}
	cur = &BCase{}
	if b, err := os.ReadFile(j.Cur); err != nil || json.Unmarshal(b, cur) != nil {
		fatal("a batch ended without a trace: %v\n%s", werr, clip(se.String(), 3000))
	}
	switch {
	case killed:
		crash = "crash: no end within " + limit.String()
	case strings.Contains(se.String(), "stack exceeds") || strings.Contains(se.String(), "stack overflow"):
		crash = "crash: stack overflow"
	case strings.Contains(se.String(), "out of memory") || strings.Contains(se.String(), "cannot allocate memory"):
		crash = "crash: out of memory"
	default:
		crash = "crash: " + stderrHead(se.String())
		if cmd.ProcessState.ExitCode() < 0 { // ended from outside
			fatal("a batch was killed: %v", werr)
		}
		if strings.Contains(se.String(), "simbatch/h.Main(") && !strings.Contains(se.String(), "h.guard") && !strings.Contains(se.String(), "fatal error") {
			fatal("the harness crashed: %s", clip(se.String(), 3000))
		}
	}
	return
}

// raceText adds the first race report to the message.
func raceText(dir, msg string) string {
	fs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		var where []string
		for _, l := range strings.Split(string(b), "\n") {
			if m := regexp.MustCompile(`^\s+simbatch/(\S+)\(`).FindStringSubmatch(l); m != nil && !strings.HasPrefix(m[1], "h.") && len(where) < 2 {
				where = append(where, m[1])
			}
		}
		if len(where) > 0 {
			return strings.Replace(msg, "data race between tasks", "data race between tasks in "+strings.Join(where, " and "), 1)
		}
	}
	return msg
}

// BatchCase is a replayable violation found in a batch.
type BatchCase struct {
	Prop  string   `json:"prop"`
	Grams []*BGram `json:"grams"`
	Cases []BCase  `json:"cases,omitempty"` // in one process; the last one fails. None: the generation fails
	Race  bool     `json:"race,omitempty"`
}

// eval rebuilds the batch and runs the cases.
func (c *BatchCase) eval() string {
	bb := buildBatch(c.Grams, c.Race)
	defer bb.free()
	return c.evalIn(bb, 0).Msg
}

func (c *BatchCase) evalIn(bb *batchBin, budget float64) BFound {
	for _, n := range sortedKeys(bb.bad) {
		for _, g := range c.Grams {
			if g.Name == n {
				return BFound{Msg: c.Prop + " " + bb.bad[n]}
			}
		}
	}
	if len(c.Cases) == 0 {
		return BFound{}
	}
	var names []string
	for _, g := range c.Grams {
		if bb.grams[g.Name] == nil {
			return BFound{}
		}
		names = append(names, g.Name)
	}
	j := BJob{Prop: c.Prop, Grams: bb.gramJobs(names), Cases: c.Cases, Budget: budget}
	if c.Prop == "C05" {
		j.Cases = append([]BCase{}, j.Cases...)
		for i := range j.Cases {
			k := &j.Cases[i]
			k.Ops = append([]BOp{}, k.Ops...)
			for o := range k.Ops {
				if k.Ops[o].Ref == "" {
					k.Ops[o].Ref = bb.ref(k.Ops[o])
				}
			}
		}
	}
	out, crash, cur := bb.run(j, 90*time.Second)
	if crash != "" {
		return BFound{Msg: c.Prop + " " + crash + "; " + cur.show(c), Case: *cur}
	}
	if len(out.Found) > 0 {
		return out.Found[0]
	}
	return BFound{Msg: out.Msgs[len(out.Msgs)-1], Case: c.Cases[len(c.Cases)-1]}
}

func (k *BCase) show(c *BatchCase) string {
	return fmt.Sprintf("input %q, grammar %s", clip(k.Text, 200), k.G)
}

// ref is what an operation gives alone in a fresh process.
func (bb *batchBin) ref(o BOp) string {
	o.Share, o.T, o.Ready = 0, 0, false
	out, crash, _ := bb.run(BJob{Prop: "C05ref", Grams: bb.gramJobs([]string{o.G}), Cases: []BCase{{G: o.G, Ops: []BOp{o}}}}, 60*time.Second)
	if crash != "" {
		return crash
	}
	return out.Msgs[0]
}

// ---------------------------------------------------------------- checks

// batchStats collects what the workers did.
type batchStats struct {
	mu                              sync.Mutex
	evals, grams, switches          int
	distinct                        map[uint64]bool
	samples                         []interface{}
	tags                            map[string]int
	generated, rejectedLR, raceRuns int
	found                           []foundB
}

type foundB struct {
	order int
	c     BatchCase
	msg   string
	bb    *batchBin
}

func (st *batchStats) merge(o *BOutput) {
	st.mu.Lock()
	defer st.mu.Unlock()
	st.evals += o.Evals
	if os.Getenv("VS_SLOW") != "" {
		for _, s := range o.Slow {
			fmt.Printf("slow: %.300s\n", s)
		}
	}
	st.grams += o.Grams
	st.switches += int(o.Switches)
	for _, h := range o.Nontriv {
		st.distinct[h] = true
	}
	if len(st.samples) < 5 {
		st.samples = append(st.samples, o.Samples...)
	}
	if o.RaceBuild {
		st.raceRuns += int(o.Runs)
	}
	stMu.Lock()
	for _, h := range o.Inter {
		interleavings[h] = true
	}
	for k, v := range o.Faults {
		faultFired[k] += v
	}
	for k, v := range o.Probes {
		probes[k] += v
	}
	for k, v := range o.Sites {
		siteHits[k] += v
	}
	simSteps += o.Steps
	simRuns += o.Runs
	stMu.Unlock()
}

const workers = 8

// explore runs the property's generated cases on all grammars of the batch.
func (ck *Check) explore(bb *batchBin, st *batchStats, count int, seconds float64, pool []BOp, base int) {
	names := sortedKeys(bb.grams)
	parallel(workers, time.Time{}, func(w int) {
		var mine []string
		for i, n := range names {
			if i%workers == w {
				mine = append(mine, n)
			}
		}
		deadline := time.Now().Add(time.Duration(seconds * float64(time.Second)))
		for len(mine) > 0 {
			left := time.Until(deadline).Seconds()
			if left < 1 {
				return
			}
			j := BJob{Prop: ck.Prop, Seed: ck.Seed, Grams: bb.gramJobs(mine), Count: count, Seconds: left, Pool: pool}
			out, crash, cur := bb.run(j, time.Duration((left+75)*float64(time.Second)))
			if crash == "" {
				st.merge(out)
				for _, f := range out.Found {
					c := BatchCase{Prop: ck.Prop, Race: bb.race}
					c.Cases = append(append([]BCase{}, f.Prev...), f.Case)
					c.Grams = bb.gramsOf(c.Cases)
					st.mu.Lock()
					st.found = append(st.found, foundB{base + indexOf(names, f.Gram), c, f.Msg, bb})
					st.mu.Unlock()
				}
				return
			}
			c := BatchCase{Prop: ck.Prop, Race: bb.race, Cases: []BCase{*cur}}
			c.Grams = bb.gramsOf(c.Cases)
			st.mu.Lock()
			st.found = append(st.found, foundB{base + indexOf(names, cur.G), c, ck.Prop + " " + crash + "; " + cur.show(&c), bb})
			st.mu.Unlock()
			var rest []string // go on without the grammar that crashes
			for _, n := range mine {
				if n != cur.G {
					rest = append(rest, n)
				}
			}
			mine = rest
		}
	})
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return len(l)
}

func (bb *batchBin) gramsOf(cs []BCase) (gs []*BGram) {
	seen := map[string]bool{}
	add := func(n string) {
		if !seen[n] && bb.grams[n] != nil {
			seen[n] = true
			gs = append(gs, bb.grams[n])
		}
	}
	for _, c := range cs {
		add(c.G)
		for _, o := range c.Ops {
			add(o.G)
		}
	}
	return
}

// report re-checks and minimises what was found.
func (ck *Check) report(st *batchStats, rep *Report) {
	sort.SliceStable(st.found, func(i, j int) bool { return st.found[i].order < st.found[j].order })
	classes := map[string]bool{}
	for _, f := range st.found {
		if classes[class(f.msg)] || len(rep.Found) >= 3 {
			continue
		}
		c, msg := f.c, f.msg
		if len(c.Cases) > 0 {
			ok := false
			last := c.Cases[len(c.Cases)-1:]
			for _, try := range [][]BCase{last, c.Cases} {
				d := c
				d.Cases = try
				d.Grams = f.bb.gramsOf(try)
				if r := d.evalIn(f.bb, 0); class(r.Msg) == class(msg) {
					c, msg, ok = d, r.Msg, true
					break
				}
				if len(try) == len(c.Cases) {
					break
				}
			}
			if !ok {
				fmt.Printf("a violation does not repeat in a fresh process: %s\n", msg)
				continue
			}
		}
		classes[class(f.msg)] = true
		c, msg = c.minimise(msg, f.bb, 60*time.Second)
		js, err := json.Marshal(c)
		must(err)
		rep.Found = append(rep.Found, Found{Msg: msg, Kind: "batch", Case: js, Seed: ck.Seed, At: f.order})
	}
	if len(rep.Found) == 0 && len(st.found) > 0 {
		fatal("violations were seen but none repeats")
	}
}

// minimise shrinks the operations of a history, then the grammar.
func (c BatchCase) minimise(msg string, bb *batchBin, budget time.Duration) (BatchCase, string) {
	until := time.Now().Add(budget)
	cl := class(msg)
	if c.Prop == "C05" && len(c.Cases) > 0 {
		return c.minimiseOps(msg, bb, until)
	}
	if len(c.Cases) > 1 { // fewer cases before the failing one
		for i := len(c.Cases) - 2; i >= 0 && time.Now().Before(until); i-- {
			d := c
			d.Cases = append(append([]BCase{}, c.Cases[:i]...), c.Cases[i+1:]...)
			if r := d.evalIn(bb, 0); class(r.Msg) == cl {
				c, msg = d, r.Msg
			}
		}
		return c, msg
	}
	if len(c.Grams) != 1 {
		return c, msg
	}
	for round := 0; round < 12 && time.Now().Before(until); round++ {
		cands := c.Grams[0].smaller()
		if len(cands) > 40 {
			cands = cands[:40]
		}
		if len(cands) == 0 {
			break
		}
		for i, g := range cands {
			g.Name = fmt.Sprintf("g%03d", i)
		}
		b2 := buildBatch(cands, c.Race)
		type res struct {
			c   BatchCase
			msg string
		}
		results := make([]res, len(cands))
		parallel(len(cands), time.Time{}, func(i int) {
			d := BatchCase{Prop: c.Prop, Race: c.Race, Grams: []*BGram{cands[i]}}
			if len(c.Cases) > 0 {
				k := c.Cases[0]
				k.G = cands[i].Name
				d.Cases = []BCase{k}
			}
			r := d.evalIn(b2, 4)
			if len(d.Cases) > 0 && class(r.Msg) == cl && r.Case.G != "" {
				d.Cases = []BCase{r.Case}
			}
			results[i] = res{d, r.Msg}
		})
		b2.free()
		found := false
		for _, r := range results {
			if class(r.msg) == cl {
				c, msg, found = r.c, r.msg, true
				break
			}
		}
		if !found {
			break
		}
	}
	return c, msg
}

func (c BatchCase) minimiseOps(msg string, bb *batchBin, until time.Time) (BatchCase, string) {
	cl := class(msg)
	try := func(k BCase) bool {
		if time.Now().After(until) || len(k.Ops) == 0 {
			return false
		}
		k.G = k.Ops[0].G
		d := c
		d.Cases = []BCase{k}
		d.Grams = bb.gramsOf(d.Cases)
		if r := d.evalIn(bb, 0); class(r.Msg) == cl {
			c, msg = d, r.Msg
			return true
		}
		return false
	}
	if len(c.Cases) > 1 {
		if !try(c.Cases[len(c.Cases)-1]) {
			return c, msg
		}
	}
	k := c.Cases[0]
	for t := 8; t >= 0; t-- {
		k = c.Cases[0]
		d := k
		d.Ops = nil
		for _, o := range k.Ops {
			if o.T == t {
				continue
			}
			if o.T > t {
				o.T--
			}
			d.Ops = append(d.Ops, o)
		}
		if len(d.Ops) < len(k.Ops) {
			try(d)
		}
	}
	for i := len(c.Cases[0].Ops) - 1; i >= 0; i-- {
		d := c.Cases[0]
		d.Ops = append(append([]BOp{}, d.Ops[:i]...), d.Ops[i+1:]...)
		try(d)
	}
	k = c.Cases[0]
	if k.Orders[0].Mode != 0 {
		k.Orders = []BOrder{{}}
		try(k)
	}
	for _, m := range []int{1, 3, 10, 100} {
		k = c.Cases[0]
		for s := uint64(0); s < 3 && m < k.Mean; s++ {
			k.Mean, k.Seed = m, s
			if try(k) {
				break
			}
			k = c.Cases[0]
		}
	}
	for i := range c.Cases { // the references are computed again when replayed
		for o := range c.Cases[i].Ops {
			c.Cases[i].Ops[o].Ref = ""
		}
	}
	return c, msg
}

// smaller lists grammars with a part less.
func (b *BGram) smaller() (out []*BGram) {
	if b.L != nil {
		return b.smallerLex()
	}
	ok := func(g *Gram) {
		g.Trim()
		if len(g.Rules[0].Alts) == 0 {
			return
		}
		for _, p := range g.Productive() {
			if !p {
				return
			}
		}
		for _, r := range g.Rules {
			seen := map[string]bool{}
			for _, a := range r.Alts {
				if seen[AltText(a)] {
					return
				}
				seen[AltText(a)] = true
			}
		}
		if b.lr() && !b.resolved() {
			if lr1, known, _ := g.Compile().LR1(3000); !known || lr1 != b.isLR1() {
				return
			}
		}
		n := *b
		n.G = g
		out = append(out, &n)
	}
	for i := 1; i < len(b.G.Rules); i++ { // without a nonterminal
		g := b.G.Clone()
		h := g.Rules[i].Head
		g.Rules = append(g.Rules[:i:i], g.Rules[i+1:]...)
		good := true
		for k := range g.Rules {
			var as [][]Sym
			for _, a := range g.Rules[k].Alts {
				uses := false
				for _, s := range a {
					uses = uses || s.K == 'N' && s.Name == h
				}
				if !uses {
					as = append(as, a)
				}
			}
			g.Rules[k].Alts = as
			good = good && len(as) > 0
		}
		if good {
			ok(g)
		}
	}
	for i := range b.G.Rules {
		for a := range b.G.Rules[i].Alts {
			if len(b.G.Rules[i].Alts) > 1 {
				g := b.G.Clone()
				r := &g.Rules[i]
				r.Alts = append(r.Alts[:a:a], r.Alts[a+1:]...)
				ok(g)
			}
		}
	}
	for l := range b.G.Lexs {
		used := b.G.Lexs[l].Suppress
		for _, t := range b.G.Terminals() {
			used = used || t.K == 'T' && t.Name == b.G.Lexs[l].Name
		}
		if !used || b.G.Lexs[l].Suppress {
			g := b.G.Clone()
			g.Lexs = append(g.Lexs[:l:l], g.Lexs[l+1:]...)
			ok(g)
		}
	}
	for i := range b.G.Rules {
		for a := range b.G.Rules[i].Alts {
			for s := range b.G.Rules[i].Alts[a] {
				g := b.G.Clone()
				al := g.Rules[i].Alts[a]
				g.Rules[i].Alts[a] = append(al[:s:s], al[s+1:]...)
				ok(g)
			}
		}
	}
	if b.Order != 0 {
		n := *b
		n.Order, n.Seed, n.Late = 0, 0, false
		out = append(out, &n)
	}
	return
}

func (b *BGram) isLR1() bool {
	ok, _, _ := b.G.Compile().LR1(3000)
	return ok
}

func (b *BGram) smallerLex() (out []*BGram) {
	clone := func() *LexGram {
		js, err := json.Marshal(b.L)
		must(err)
		l := &LexGram{}
		must(json.Unmarshal(js, l))
		return l
	}
	ok := func(l *LexGram) {
		un := 0
		for _, r := range l.Rules {
			if !r.Suppress {
				un++
			}
			if !r.Literal && len(r.Seq) == 0 {
				return
			}
		}
		if un == 0 {
			return
		}
		good := true
		var refs func(es []*Re)
		refs = func(es []*Re) {
			for _, e := range es {
				if e.Kind == 't' {
					f := false
					for _, r := range l.Rules {
						f = f || !r.Literal && r.Name == e.Set
					}
					good = good && f
				}
				for _, a := range e.Alts {
					if len(a) == 0 {
						good = false
					}
					refs(a)
				}
			}
		}
		for _, r := range l.Rules {
			refs(r.Seq)
		}
		if !good {
			return
		}
		l.Build()
		if !l.Plain(false) {
			return
		}
		n := *b
		n.L = l
		out = append(out, &n)
	}
	for i := range b.L.Rules {
		l := clone()
		l.Rules = append(l.Rules[:i:i], l.Rules[i+1:]...)
		if len(l.Rules) > 0 {
			ok(l)
		}
	}
	// one element less, anywhere; or a bracket replaced by one of its alternates
	var at []func(l *LexGram)
	var paths func(get func(l *LexGram) *[]*Re, es []*Re)
	paths = func(get func(l *LexGram) *[]*Re, es []*Re) {
		for i, e := range es {
			i := i
			at = append(at, func(l *LexGram) { p := get(l); *p = append((*p)[:i:i], (*p)[i+1:]...) })
			for k, a := range e.Alts {
				k := k
				at = append(at, func(l *LexGram) {
					p := get(l)
					n := append(append([]*Re{}, (*p)[:i]...), (*p)[i].Alts[k]...)
					*p = append(n, (*p)[i+1:]...)
				})
				if len(e.Alts) > 1 {
					at = append(at, func(l *LexGram) {
						x := (*get(l))[i]
						x.Alts = append(x.Alts[:k:k], x.Alts[k+1:]...)
					})
				}
				paths(func(l *LexGram) *[]*Re { return &(*get(l))[i].Alts[k] }, a)
			}
		}
	}
	for i := range b.L.Rules {
		i := i
		paths(func(l *LexGram) *[]*Re { return &l.Rules[i].Seq }, b.L.Rules[i].Seq)
	}
	for _, f := range at {
		l := clone()
		f(l)
		ok(l)
	}
	if b.Order != 0 {
		n := *b
		n.Order, n.Seed, n.Late = 0, 0, false
		out = append(out, &n)
	}
	return
}

// batchDeterminism runs a part twice in processes of different width.
func (ck *Check) batchDeterminism(bb *batchBin, pool []BOp) {
	names := sortedKeys(bb.grams)
	if len(names) > 4 {
		names = []string{names[0], names[len(names)/3], names[len(names)/2], names[len(names)-1]}
	}
	var ds [2]string
	parallel(2, time.Time{}, func(i int) {
		out, crash, _ := bb.run(BJob{Prop: ck.Prop, Seed: ck.Seed, Grams: bb.gramJobs(names), Count: 25, Pool: pool, Digest: true}, 90*time.Second, []string{"GOMAXPROCS=1", "GOMAXPROCS=8"}[i])
		ds[i] = crash
		if crash == "" {
			ds[i] = strings.Join(out.Digests, "\n")
		}
	})
	if ds[0] != ds[1] {
		fatal("not deterministic: %s", firstDiff(ds[0], ds[1]))
	}
	probeN("executions repeated with identical traces", strings.Count(ds[0], "\n")+1)
}
