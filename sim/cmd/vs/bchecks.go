package main

import (
	"encoding/json"
	"fmt"
	"time"

	. "verif/sim/model"
)

func init() {
	replayers["batch"] = func(r Replay) string {
		c := &BatchCase{}
		must(json.Unmarshal(r.Case, c))
		gogllBin = buildGogll(repoDir, "gogll", nil)
		return c.eval()
	}
	b := func(prop, level string, grams func(ck *Check, r *Rng, round int) []*BGram, rule string, o batchOpts) {
		checks[prop] = checkDef{level, func(ck *Check) *Report {
			gogllBin = buildGogll(repoDir, "gogll", nil)
			return ck.batch(grams, rule, o)
		}}
	}
	const what = "A case is a grammar (fixed or random; its parser is generated by gogll under a random map order) and an input (all strings up to length 2, then sentences, mutated sentences and random strings), executed under several map orders of the parser; "
	std := batchOpts{seconds: 45}
	b("C02", "exploration", gllGrams(false), what+"non-trivial if the input is not empty; distinct by grammar and input.", std)
	b("C03", "exploration", gllGrams(true), what+"mostly inputs outside the language; non-trivial if the input is outside; distinct by grammar and input.", std)
	b("C04", "exploration", gllGrams(false), what+"with extractions and parses of other inputs in between; non-trivial if the input is a sentence; distinct by grammar and input.", std)
	b("C07", "exploration", lrGrams, what+"some with a failing action; for every grammar the verdict of gogll is compared with Knuth's construction; non-trivial if the input is not empty; distinct by grammar and input.", std)
	b("C06", "exploration", lexGrams, "A case is a lexical grammar (random; its lexer is generated by gogll under a random map order) and an input given as runes, as a text file or as a markdown file, read under a plan of short, interrupted and failing system calls; non-trivial if there is a token besides EOF or a read error; distinct by grammar, input and faults.", std)
	b("C05", "exploration", mixedGrams, "A case is a history: 1 to 5 tasks, each with operations (lexing, GLL parsing, SPPF extraction, LR(1) parsing with actions) on the same or different generated packages, some sharing a lexer or a finished forest, interleaved by a seeded scheduler that can switch at every statement; the results are compared with those of a fresh process that performs only that operation; a part runs under the race detector; non-trivial if there were more switches than tasks; distinct by schedule and operations.", batchOpts{seconds: 35, pool: true, race: true})
}

type batchOpts struct {
	seconds float64
	pool    bool // cases are made of a pool of operations
	race    bool // also with the race detector
}

// order draws the generator's map order.
func (b *BGram) order(r *Rng) *BGram {
	if r.P(70) {
		b.Order = 1 + r.N(3)
		b.Seed = r.Next() % 1000000
		b.Late = r.P(50)
	}
	return b
}

func gllGrams(productive bool) func(ck *Check, r *Rng, round int) []*BGram {
	return func(ck *Check, r *Rng, round int) (gs []*BGram) {
		n := ck.n(64, 68)
		add := func(g *Gram) {
			b := &BGram{Name: fmt.Sprintf("g%03d", len(gs)), Mode: "gll", G: g, tag: g.Tag}
			gs = append(gs, b.order(r))
		}
		if round == 0 {
			for i, g := range LibraryGLL() {
				if i < n*6/10 {
					add(g)
				}
			}
		}
		for len(gs) < n {
			g := RandGram(r, 5, 4, 4)
			ok := true
			for _, p := range g.Productive() {
				ok = ok && p
			}
			if ok || !productive && r.P(30) {
				add(g)
			}
		}
		return
	}
}

func lrGrams(ck *Check, r *Rng, round int) (gs []*BGram) {
	n := ck.n(120, 120)
	add := func(g *Gram, modes ...string) {
		for _, m := range modes {
			b := &BGram{Name: fmt.Sprintf("g%03d", len(gs)), Mode: m, G: g, tag: g.Tag}
			gs = append(gs, b.order(r))
		}
	}
	if round == 0 {
		for i, g := range LibraryLR() {
			if i < n/2+1 {
				if lr1, known, _ := g.Compile().LR1(3000); known && !lr1 {
					add(g, []string{"knuth", "pager"}[r.N(2)], "knuthr", "pagerr")
					continue
				}
				add(g, "knuth", "pager")
				if r.P(10) {
					add(g, []string{"knuthr", "pagerr"}[r.N(2)])
				}
			}
		}
	}
	for len(gs) < n {
		g := RandLR(r)
		ok := true
		for _, p := range g.Productive() {
			ok = ok && p
		}
		if !ok {
			continue
		}
		lr1, known, _ := g.Compile().LR1(3000)
		if !known {
			continue
		}
		if !lr1 { // only the verdict counts
			if r.P(60) {
				add(g, []string{"knuthr", "knuthr", "pagerr"}[r.N(3)])
			} else {
				add(g, []string{"knuth", "pager"}[r.N(2)])
			}
			continue
		}
		add(g, "knuth", "pager")
	}
	return
}

func lexGrams(ck *Check, r *Rng, round int) (gs []*BGram) {
	for len(gs) < ck.n(120, 160) {
		l := RandLex(r, true)
		un := 0
		for _, ru := range l.Rules {
			if !ru.Suppress {
				un++
			}
		}
		if un == 0 {
			continue
		}
		b := &BGram{Name: fmt.Sprintf("g%03d", len(gs)), Mode: "lex", L: l, tag: "lex"}
		gs = append(gs, b.order(r))
	}
	return
}

func mixedGrams(ck *Check, r *Rng, round int) (gs []*BGram) {
	add := func(mode string, g *Gram, l *LexGram) {
		b := &BGram{Name: fmt.Sprintf("g%03d", len(gs)), Mode: mode, G: g, L: l, tag: "lex"}
		if g != nil {
			b.tag = g.Tag
		}
		gs = append(gs, b.order(r))
	}
	n := ck.n(8, 10)
	lib, lr := LibraryGLL(), LibraryLR()
	for i := 0; i < n; i++ {
		switch {
		case i == 0 || r.P(15):
			add("gll", RandCrowd(r), nil)
		case r.P(60):
			add("gll", lib[r.N(len(lib))], nil)
		default:
			add("gll", RandGram(r, 4, 3, 3), nil)
		}
	}
	for i := 0; i < n; {
		g := lr[r.N(len(lr))]
		if r.P(40) {
			g = RandLR(r)
		}
		if ok, known, _ := g.Compile().LR1(3000); ok && known {
			add([]string{"knuth", "pager"}[r.N(2)], g, nil)
			i++
		}
	}
	for i := 0; i < n/2; i++ {
		add("lex", nil, RandLex(r, true))
	}
	return
}

var batchComponents = map[string]string{
	"generated lexers, parsers, bsr, slot, sppf, token packages": "real code as gogll generates it, built with rewritten map iteration, yields and package sync",
	"gogll (the generator)":                           "real code under the simulator",
	"github.com/goccmack/goutil":                      "real code, rewritten",
	"Go standard library":                             "real code",
	"LR(1) semantic actions (package ast)":            "stub: the generated functions record their calls",
	"map iteration order, goroutine scheduling, sync": "simulated (seeded)",
	"system calls on files":                           "real calls on a scratch tmpfs directory behind a fault-injecting hook",
}

func (ck *Check) batch(grams func(ck *Check, r *Rng, round int) []*BGram, rule string, o batchOpts) *Report {
	rep := &Report{Rule: rule, Distinct: map[uint64]bool{}, Components: batchComponents, Extra: map[string]interface{}{}}
	st := &batchStats{distinct: rep.Distinct, tags: map[string]int{}}
	rounds := 0
	timeLeft := func() time.Duration { return time.Until(ck.Until) }
	secs := o.seconds
	if sc := ck.n(1000, 1000); sc < 1000 {
		secs *= float64(sc) / 1000
	}
	for {
		r := NewRng(ck.Seed, HashStr(uint64(rounds), "batch"+ck.Prop))
		gs := grams(ck, r, rounds)
		base := rounds * 1000
		var bb, rb *batchBin
		if o.race && (ck.quick() || rounds%2 == 0) {
			parallel(2, time.Time{}, func(i int) {
				if i == 0 {
					bb = buildBatch(gs, false)
				} else {
					rb = buildBatch(gs, true)
				}
			})
		} else {
			bb = buildBatch(gs, false)
		}
		for _, g := range gs {
			st.tags[g.Mode+" "+g.tag]++
			if m := bb.bad[g.Name]; m != "" {
				st.found = append(st.found, foundB{base + indexOf(namesOf(gs), g.Name), BatchCase{Prop: ck.Prop, Grams: []*BGram{g}}, ck.Prop + " " + m, bb})
			} else if bb.grams[g.Name] == nil {
				st.rejectedLR++
			}
		}
		st.generated += len(gs)
		if len(bb.grams) > 0 {
			var pool []BOp
			if o.pool {
				pool = ck.pool(bb)
			}
			if rounds == 0 {
				ck.batchDeterminism(bb, pool)
			}
			ck.explore(bb, st, 1000000, secs, pool, base)
			if rb != nil {
				ck.explore(rb, st, 1000000, secs*0.7, pool, base)
			}
		}
		rounds++
		if len(st.found) > 0 {
			ck.report(st, rep)
		}
		bb.free()
		if rb != nil {
			rb.free()
		}
		if len(st.found) > 0 || ck.quick() || timeLeft() < time.Duration(secs*2.5)*time.Second {
			break
		}
	}
	rep.Evaluations = st.evals
	rep.Bases = st.evals
	rep.Samples = st.samples
	if rep.Samples == nil {
		rep.Samples = []interface{}{}
	}
	rep.Extra["grammars_generated"] = st.generated
	rep.Extra["grammars_explored"] = st.grams
	rep.Extra["grammars_rightly_rejected"] = st.rejectedLR
	rep.Extra["grammar_kinds"] = st.tags
	rep.Extra["task_switches"] = st.switches
	if o.race {
		rep.Extra["runs_under_race_detector"] = st.raceRuns
	}
	return rep
}

func namesOf(gs []*BGram) (ns []string) {
	for _, g := range gs {
		ns = append(ns, g.Name)
	}
	return
}

// pool draws operations and what they give in fresh processes.
func (ck *Check) pool(bb *batchBin) []BOp {
	out, crash, _ := bb.run(BJob{Prop: "C05pool", Seed: ck.Seed, Grams: bb.gramJobs(sortedKeys(bb.grams)), Count: 14}, 90*time.Second)
	if crash != "" {
		fatal("no pool: %s", crash)
	}
	pool := out.Pool
	parallel(len(pool), time.Time{}, func(i int) { pool[i].Ref = bb.ref(pool[i]) })
	var ok []BOp
	for _, o := range pool {
		if len(o.Ref) < 20000 {
			ok = append(ok, o)
		}
	}
	return ok
}
