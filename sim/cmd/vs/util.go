package main

import (
	"strings"
	. "verif/sim/model"

	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"time"
)

// parallel runs f(0..n-1) on all cores until done or the deadline; returns how
// many were run. Results must not depend on the order.
func parallel(n int, deadline time.Time, f func(i int)) int {
	var mu sync.Mutex
	next, ran := 0, 0
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				if i >= n || (!deadline.IsZero() && time.Now().After(deadline)) {
					mu.Unlock()
					return
				}
				next++
				ran++
				mu.Unlock()
				f(i)
			}
		}()
	}
	wg.Wait()
	return ran
}

// ---------------------------------------------------------------- statistics

var stMu sync.Mutex
var faultFired = map[string]int{}
var interleavings = map[uint64]bool{}
var siteHits = map[string]int{}
var probes = map[string]int{}

func countFault(kind, op string) {
	stMu.Lock()
	faultFired[kind+" "+op]++
	stMu.Unlock()
}

func probe(name string) {
	stMu.Lock()
	probes[name]++
	stMu.Unlock()
}

func probeN(name string, n int) {
	stMu.Lock()
	probes[name] += n
	stMu.Unlock()
}

func seen(h uint64) {
	stMu.Lock()
	interleavings[h] = true
	stMu.Unlock()
}

func countSites(m map[string]int) {
	stMu.Lock()
	for k, v := range m {
		siteHits[k] += v
	}
	stMu.Unlock()
}

// ---------------------------------------------------------------- violations

// Replay is a replay file: everything needed to reproduce one violation.
type Replay struct {
	Property string          `json:"property"`
	Kind     string          `json:"kind"` // which scenario
	Seed     uint64          `json:"seed"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

var verifDir = "/verif"

func writeReplay(r Replay) string {
	dir := filepath.Join(verifDir, "replays")
	must(os.MkdirAll(dir, 0755))
	b, err := json.MarshalIndent(r, "", " ")
	must(err)
	p := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", r.Property, HashStr(r.Seed, string(r.Case))))
	must(os.WriteFile(p, b, 0644))
	return p
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// removeAll removes below the work directory only.
func removeAll(p string) {
	if workDir == "" || !strings.HasPrefix(p, workDir+"/") || strings.Contains(p, "/../") {
		fatal("refusing to remove %s", p)
	}
	os.RemoveAll(p)
}
