package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	. "verif/sim/model"
)

// Found is a violation as a scenario reports it, minimised.
type Found struct {
	Msg  string
	Kind string
	Case json.RawMessage
	Seed uint64
	At   int
}

// Report is what one check covered.
type Report struct {
	Evaluations int
	Distinct    map[uint64]bool // of the nontrivial ones
	Rule        string
	Samples     []interface{}
	Extra       map[string]interface{}
	Components  map[string]string
	Found       []Found
	Bases       int
}

type checkDef struct {
	level string
	run   func(ck *Check) *Report
}

// Check is one invocation.
type Check struct {
	Prop  string
	Tier  string
	Seed  uint64
	Start time.Time
	Until time.Time // no new work after this
}

func (ck *Check) quick() bool { return ck.Tier != "thorough" }

// n scales a count by tier.
func (ck *Check) n(quick, thorough int) int {
	if s := os.Getenv("VS_SCALE"); s != "" {
		f, _ := strconv.ParseFloat(s, 64)
		return max(1, int(f*float64(quick)))
	}
	if ck.quick() {
		return quick
	}
	return thorough
}

var checks = map[string]checkDef{}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vs check PROPERTY [quick|thorough] | vs replay FILE")
		os.Exit(2)
	}
	if d := os.Getenv("VS_DIR"); d != "" {
		verifDir = d
	}
	initWork()
	code := 0
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		code = runCheck(os.Args[2], tier)
	case "replay":
		code = runReplay(os.Args[2])
	default:
		fatal("unknown command %s", os.Args[1])
	}
	cleanup()
	os.Exit(code)
}

func runCheck(prop, tier string) int {
	def, ok := checks[prop]
	if !ok {
		fatal("no check for %s", prop)
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			fatal("VERIF_SEED: %v", err)
		}
		seed = v
	}
	ck := &Check{Prop: prop, Tier: tier, Seed: seed, Start: time.Now()}
	limit := 270 * time.Second
	if tier == "thorough" {
		limit = 700 * time.Second
	}
	ck.Until = ck.Start.Add(limit)
	fmt.Printf("%s %s VERIF_SEED=%d\n", prop, tier, seed)
	rep := def.run(ck)
	ck.known(rep)
	wall := time.Since(ck.Start).Seconds()
	hours := wall / 3600
	ff := map[string]int{}
	for k, v := range faultFired {
		ff[k] = v
	}
	cov := map[string]interface{}{
		"evaluations":             rep.Evaluations,
		"distinct_nontrivial":     len(rep.Distinct),
		"rule":                    rep.Rule,
		"samples":                 rep.Samples,
		"seeds":                   rep.Bases,
		"seeds_per_hour":          int(float64(rep.Bases) / hours),
		"simulated_runs":          simRuns,
		"simulated_runs_per_hour": int(float64(simRuns) / hours),
		"simulated_time_steps":    simSteps,
		"simulated_system_calls":  simCalls,
		"longest_run_steps":       maxSteps,
		"faults_injected":         ff,
		"distinct_interleavings":  len(interleavings),
		"interleaving_measure":    "distinct digests of all map orders, task switches and fired faults of an execution",
		"map_order_sites":         siteHits,
		"probes":                  probes,
		"components":              rep.Components,
	}
	for k, v := range rep.Extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": def.level, "coverage": cov, "wall_s": wall, "violations": len(rep.Found),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755))
	must(os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0644))
	fmt.Printf("%s: %d executions (%d distinct non-trivial), %d simulated runs, %.0f s\n", prop, rep.Evaluations, len(rep.Distinct), simRuns, wall)
	if len(rep.Found) == 0 {
		fmt.Printf("OK property=%s\n", prop)
		return 0
	}
	for _, f := range rep.Found {
		p := writeReplay(Replay{Property: prop, Kind: f.Kind, Seed: f.Seed, Message: f.Msg, Case: f.Case})
		fmt.Printf("%s\n", f.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
	}
	return 1
}

func runReplay(file string) int {
	b, err := os.ReadFile(file)
	must(err)
	var r Replay
	must(json.Unmarshal(b, &r))
	f, ok := replayers[r.Kind]
	if !ok {
		fatal("unknown replay kind %q", r.Kind)
	}
	msg := f(r)
	if msg == "" {
		fmt.Printf("no violation of %s on this tree\n", r.Property)
		return 0
	}
	fmt.Println(msg)
	if msg != r.Message {
		fmt.Printf("(recorded: %s)\n", r.Message)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
	return 1
}

var replayers = map[string]func(Replay) string{}

// ---------------------------------------------------------------- process checks

func init() {
	replayers["proc"] = func(r Replay) string {
		c := &ProcCase{}
		must(json.Unmarshal(r.Case, c))
		gogllBin = buildGogll(repoDir, "gogll", nil)
		return c.check()
	}
	procCheck := func(prop, level string, gen func(*Rng, func(*ProcCase) bool), quick, thorough int, rule string) {
		checks[prop] = checkDef{level, func(ck *Check) *Report {
			loadSeedGrammars()
			gogllBin = buildGogll(repoDir, "gogll", nil)
			return ck.proc(gen, ck.n(quick, thorough), rule)
		}}
	}
	const what = "A case is a grammar (fixed, random, from the repository's documents, or one of these made wrong), a call of gogll (mode, options, places), a starting disk and a history of runs, all drawn from VERIF_SEED; "
	procCheck("C01", "exploration", genSame, 9000, 40000, what+"it is non-trivial if some map iteration of the run had an order other than the canonical one or the disk was not clean; distinct by map-order digest, arguments and grammar.")
	procCheck("C08", "fault_enumeration", genHonest, 170, 800, what+"every counted system call of the undisturbed run gets each kind of fault that fits it, plus random multi-fault plans and full disks; non-trivial if a fault fired; distinct by fired faults, arguments and grammar.")
	procCheck("C09", "exploration", genReject, 450, 2200, what+"the last grammar is rejected by the undisturbed run; non-trivial if so; distinct by map order, fired faults, arguments and grammar.")
	procCheck("C10", "fault_enumeration", genAst, 400, 1800, what+"faults and crashes are placed at every system call that touches an ast file and sampled elsewhere; non-trivial if a fault or crash fired or the history has several runs; distinct by fired faults, arguments and grammar.")
	procCheck("C11", "exploration", genContain, 1300, 6000, what+"decoy files surround the outputs; non-trivial if a fault fired or a file was changed; distinct by map order, fired faults, arguments and grammar.")
	procCheck("C12", "fault_enumeration", genRecover, 90, 420, what+"the process dies before, during and after every system call of the undisturbed run, with and without loss of unsynced data, or fails on a fault there; then one more run; non-trivial if a crash or fault fired; distinct by fired faults, arguments and grammar.")
	procCheck("C14", "exploration", genFences, 2600, 12000, what+"the grammar is laid out in markdown fences broken at random, its reads are split and interrupted; compared with the text of its fences alone, and the places of errors with where their cause stands; non-trivial if a read was disturbed or the map order was not the canonical one; distinct by map order, fired faults, arguments and grammar.")
	procCheck("C15", "exploration", genSets, 4500, 20000, what+"the printed first and follow sets are compared with those of the model; non-trivial if some map iteration had an order other than the canonical one; distinct by map order, arguments and grammar.")
	procCheck("C17", "exploration", genOptions, 6000, 30000, what+"the same grammar text is given to a second call that differs in place, spelling and order of options and in options without influence on the code, or the command line is wrong; non-trivial if some map iteration had an order other than the canonical one; distinct by map order, arguments and grammar.")
	procCheck("C16", "exploration", genReports, 9000, 60000, what+"the reports (symbols, slots, lexical automaton, LR(1) items, states and conflicts) are compared with the model; non-trivial if some map iteration had an order other than the canonical one or the disk was not clean; distinct by map order, arguments and grammar.")
}

var procComponents = map[string]string{
	"gogll (all packages) and its dependencies": "real code, built from the working tree with rewritten map iteration and yields",
	"Go standard library":                       "real code",
	"map iteration order":                       "simulated (seeded permutation)",
	"system calls on files":                     "real calls on a scratch tmpfs directory behind a fault-injecting hook",
	"clock, random source":                      "simulated",
	"process crash, power loss":                 "simulated (exit at a call; loss of unsynced data applied to the scratch directory)",
}

func (ck *Check) proc(gen func(*Rng, func(*ProcCase) bool), bases int, rule string) *Report {
	rep := &Report{Rule: rule, Distinct: map[uint64]bool{}, Components: procComponents, Extra: map[string]interface{}{}}
	type bad struct {
		base, n int
		msg     string
		c       *ProcCase
	}
	var mu sync.Mutex
	var bads []bad
	stop := bases
	tags := map[string]int{}
	ran := parallel(bases, ck.Until, func(i int) {
		mu.Lock()
		if i > stop {
			mu.Unlock()
			return
		}
		mu.Unlock()
		r := NewRng(ck.Seed, HashStr(uint64(i), ck.Prop))
		n := 0
		gen(r, func(c *ProcCase) bool {
			n++
			msg := c.check()
			h, nontrivial := c.digest()
			mu.Lock()
			defer mu.Unlock()
			rep.Evaluations++
			tags[c.Tag]++
			if nontrivial {
				rep.Distinct[h] = true
			}
			if len(rep.Samples) < 4 && (n%3 == 1) && (i%7 == 0) {
				rep.Samples = append(rep.Samples, c.sample())
			}
			if msg != "" {
				bads = append(bads, bad{i, n, msg, c})
				if i < stop {
					stop = i
				}
				return false
			}
			return i <= stop && time.Now().Before(ck.Until)
		})
	})
	rep.Bases = ran
	rep.Extra["grammar_kinds"] = tags
	if ran < bases {
		fmt.Printf("stopped by the time limit after %d of %d seeds\n", ran, bases)
	}
	ck.determinism(gen)
	sort.Slice(bads, func(i, j int) bool { return bads[i].base < bads[j].base })
	classes := map[string]bool{}
	for _, b := range bads {
		if classes[class(b.msg)] || len(rep.Found) >= 3 {
			continue
		}
		classes[class(b.msg)] = true
		if again := b.c.check(); again != b.msg {
			fmt.Printf("a violation does not repeat exactly: %q then %q\n", b.msg, again)
			if class(again) != class(b.msg) {
				fatal("not deterministic")
			}
		}
		c, msg := b.c.minimise(b.msg, 45*time.Second)
		js, err := json.Marshal(c)
		must(err)
		rep.Found = append(rep.Found, Found{Msg: msg, Kind: "proc", Case: js, Seed: ck.Seed, At: b.base})
	}
	return rep
}

// digest identifies a case after it ran.
func (c *ProcCase) digest() (uint64, bool) {
	h := HashStr(0, c.Tree[c.File])
	nontrivial := len(c.Tree) > 3
	for _, s := range c.Steps {
		if s.Write != nil {
			h = HashStr(h, s.Write[c.File])
		}
		if s.Run != nil {
			nontrivial = nontrivial || s.Run.Cfg.Mode != 0 || len(s.Run.Cfg.Faults) > 0 || s.Run.Cfg.Cap >= 0
			b, _ := json.Marshal(s.Run)
			h = HashStr(h, string(b))
		}
		h ^= s.Power
	}
	return h, nontrivial
}

// sample writes a case out in short.
func (c *ProcCase) sample() interface{} {
	var hist []string
	for _, s := range c.Steps {
		if s.Write != nil {
			hist = append(hist, "user writes "+strings.Join(s.Write.keys(), ", "))
		}
		if s.Run != nil {
			x := "gogll " + strings.Join(s.Run.Args, " ") + fmt.Sprintf(" map order %d/%x", s.Run.Cfg.Mode, s.Run.Cfg.Seed)
			for _, f := range s.Run.Cfg.Faults {
				x += " " + f.String()
			}
			if s.Run.Cfg.Cap >= 0 {
				x += fmt.Sprintf(" disk space %d", s.Run.Cfg.Cap)
			}
			hist = append(hist, x)
		}
		if s.Power != 0 {
			hist = append(hist, fmt.Sprintf("power loss %x", s.Power))
		}
	}
	t := c.Tree[c.File]
	if len(t) > 500 {
		t = t[:500] + "..."
	}
	return map[string]interface{}{"grammar": t, "history": hist, "files_at_start": len(c.Tree), "kind": c.Tag}
}

// determinism runs some cases twice, in other processes and under another load,
// and compares everything the simulator saw.
func (ck *Check) determinism(gen func(*Rng, func(*ProcCase) bool)) {
	var cs []*ProcCase
	for i := 0; len(cs) < 24 && i < 24; i++ {
		n := 0
		gen(NewRng(ck.Seed, HashStr(uint64(i), ck.Prop)), func(c *ProcCase) bool {
			cs = append(cs, c)
			n++
			return n < 2
		})
	}
	trace := func(c *ProcCase) string {
		trees, results := c.history(len(c.Steps))
		var b strings.Builder
		for _, r := range results {
			if r == nil {
				continue
			}
			j, _ := json.Marshal(r.Journal)
			fmt.Fprintln(&b, r.Exit, r.Out, stderrHead(r.Err), r.Steps, r.MapCalls, r.MapPert, r.MapHash, string(j))
		}
		j, _ := json.Marshal(trees[len(trees)-1])
		b.Write(j)
		return b.String()
	}
	a := make([]string, len(cs))
	parallel(len(cs), time.Time{}, func(i int) { a[i] = trace(cs[i]) })
	old := runtime.GOMAXPROCS(2)
	defer runtime.GOMAXPROCS(old)
	parallel(len(cs), time.Time{}, func(i int) {
		if t := trace(cs[len(cs)-1-i]); t != a[len(cs)-1-i] {
			fatal("not deterministic: %s", firstDiff(a[len(cs)-1-i], t))
		}
	})
	probeN("executions repeated with identical traces", len(cs))
}
