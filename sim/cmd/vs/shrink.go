package main

import (
	"strings"
	"time"
)

func class(msg string) string {
	if i := strings.Index(msg, ":"); i >= 0 {
		return msg[:i]
	}
	return msg
}

// minimise shrinks the case while a violation of the same class persists.
func (c *ProcCase) minimise(msg string, budget time.Duration) (*ProcCase, string) {
	end := time.Now().Add(budget)
	best, bmsg := c, msg
	cl := class(msg)
	evals := 0
	try := func(d *ProcCase) bool {
		if time.Now().After(end) || evals > 1500 {
			return false
		}
		evals++
		m := d.check()
		if m != "" && class(m) == cl {
			best, bmsg = d, m
			return true
		}
		return false
	}
	for again := true; again && time.Now().Before(end); {
		again = false
		// fewer steps
		for i := len(best.Steps) - 2; i >= 0; i-- {
			if i >= len(best.Steps)-1 {
				continue
			}
			d := best.clone()
			d.Steps = append(d.Steps[:i], d.Steps[i+1:]...)
			again = try(d) || again
		}
		if len(best.Steps) > 1 && best.Oracle != "recover" {
			d := best.clone()
			d.Steps = d.Steps[:len(d.Steps)-1]
			if d.last().Run != nil && (best.Oracle == "ast" || best.Oracle == "contain") {
				again = try(d) || again
			}
		}
		// fewer files
		for _, k := range best.Tree.keys() {
			if k == best.File || strings.HasSuffix(k, "/") {
				continue
			}
			d := best.clone()
			delete(d.Tree, k)
			again = try(d) || again
		}
		// simpler schedules and faults
		for i := range best.Steps {
			if best.Steps[i].Run == nil {
				continue
			}
			mod := func(f func(r *Run, s *PStep)) bool {
				d := best.clone()
				f(d.Steps[i].Run, &d.Steps[i])
				return try(d)
			}
			if best.Steps[i].Power != 0 {
				again = mod(func(r *Run, s *PStep) { s.Power = 0 }) || again
			}
			for k := len(best.Steps[i].Run.Cfg.Faults) - 1; k >= 0; k-- {
				again = mod(func(r *Run, s *PStep) { r.Cfg.Faults = append(r.Cfg.Faults[:k:k], r.Cfg.Faults[k+1:]...) }) || again
			}
			for k := range best.Steps[i].Run.Cfg.Faults {
				if best.Steps[i].Run.Cfg.Faults[k].Run != 0 {
					again = mod(func(r *Run, s *PStep) { r.Cfg.Faults[k].Run = 0 }) || again
				}
			}
			if best.Steps[i].Run.Cfg.Cap >= 0 {
				again = mod(func(r *Run, s *PStep) { r.Cfg.Cap = -1 }) || again
			}
			if len(best.Steps[i].Run.MTimes) > 0 {
				again = mod(func(r *Run, s *PStep) { r.MTimes = nil }) || again
			}
			if len(best.Steps[i].Run.Env) > 0 {
				again = mod(func(r *Run, s *PStep) { r.Env = nil }) || again
			}
			if best.Steps[i].Run.Cfg.Now != 0 {
				again = mod(func(r *Run, s *PStep) { r.Cfg.Now = 0 }) || again
			}
			cfg := best.Steps[i].Run.Cfg
			if cfg.Mode != 0 {
				if mod(func(r *Run, s *PStep) {
					r.Cfg.Mode, r.Cfg.Seed, r.Cfg.Only, r.Cfg.Late, r.Cfg.Limit = 0, 0, nil, false, 0
				}) {
					again = true
				} else {
					if cfg.Mode != 1 {
						again = mod(func(r *Run, s *PStep) { r.Cfg.Mode = 1 }) || again
					}
					if cfg.Late {
						again = mod(func(r *Run, s *PStep) { r.Cfg.Late = false }) || again
					}
					if len(cfg.Only) != 1 { // one site at a time
						var sites []string
						if len(cfg.Only) > 0 {
							sites = cfg.Only
						} else {
							_, results := best.history(len(best.Steps))
							if results[i] != nil {
								sites = sortedKeys(results[i].Sites)
							}
						}
						for _, st := range sites {
							if mod(func(r *Run, s *PStep) { r.Cfg.Only = []string{st} }) {
								again = true
								break
							}
						}
					}
				}
			}
			for k, a := range best.Steps[i].Run.Args {
				if a == "-v" || a == "-resolve_conflicts" || a == "-gll" || a == "-go" {
					if mod(func(r *Run, s *PStep) { r.Args = append(r.Args[:k:k], r.Args[k+1:]...) }) {
						again = true
						break
					}
				}
			}
		}
		// smaller grammar
		if (best.Oracle != "reject" || !best.Reject) && !(best.Valid && cl == "refused") {
			again = best.shrinkText(try, func() *ProcCase { return best }) || again
		}
	}
	return best, bmsg
}

// shrinkText shortens the grammar texts, wherever the history holds them.
func (c *ProcCase) shrinkText(try func(*ProcCase) bool, cur func() *ProcCase) bool {
	did := false
	slots := func(d *ProcCase) []*Tree {
		l := []*Tree{&d.Tree}
		for i := range d.Steps {
			if d.Steps[i].Write != nil {
				l = append(l, &d.Steps[i].Write)
			}
		}
		return l
	}
	for si := range slots(cur()) {
		text, ok := (*slots(cur())[si])[c.File]
		if !ok {
			continue
		}
		set := func(s string) bool {
			d := cur().clone()
			for _, t := range slots(d) { // the same text may stand in several places
				if (*t)[c.File] == text {
					(*t)[c.File] = s
				}
			}
			if try(d) {
				text, did = s, true
				return true
			}
			return false
		}
		cut := func(sep string) {
			for n := 8; n >= 1; n /= 2 {
				for i := 0; ; i++ {
					ls := strings.SplitAfter(text, sep)
					if i+n > len(ls) {
						break
					}
					if set(strings.Join(append(append([]string{}, ls[:i]...), ls[i+n:]...), "")) {
						i--
					}
				}
			}
		}
		cut("\n")
		cut(";")
		cut("|")
		if len(text) < 400 {
			cut(" ")
		}
	}
	return did
}
