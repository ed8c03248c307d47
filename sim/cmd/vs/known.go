package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// Known findings: defects of gogll that are recorded and not repaired. Each has a
// replay file. A line of known_findings.txt reads
//
//	finding: property=C02 replay=known/name.json what fails

const knownFile = "known_findings.txt"

type finding struct {
	file, text string
}

func findings(prop string) (fs []finding) {
	root := verifRoot()
	b, err := os.ReadFile(filepath.Join(root, knownFile))
	must(err)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "finding:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "replay=") {
			fs = append(fs, finding{filepath.Join(root, strings.TrimPrefix(f[2], "replay=")), f[3]})
		}
	}
	return
}

// verifRoot is where the machinery lives; the working directory of run.sh.
func verifRoot() string {
	if d := os.Getenv("VS_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

// known replays the known findings of the property and names those whose input
// still fails. Any other input that fails is a violation: the generators leave
// these inputs out.
func (ck *Check) known(rep *Report) {
	n := 0
	for _, f := range findings(ck.Prop) {
		b, err := os.ReadFile(f.file)
		must(err)
		var r Replay
		must(json.Unmarshal(b, &r))
		if replayers[r.Kind](r) != "" {
			n++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.Prop, f.text)
		}
	}
	rep.Extra["known_findings"] = n
}
