package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"verif/sim/rt"
)

var repoDir = "/repo"

// fatal ends the check without a verdict (neither 0 nor 1).
func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "vs: ERROR: "+format+"\n", args...)
	cleanup()
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

var workDir string // scratch, removed on exit

func cleanup() {
	if workDir != "" && os.Getenv("VS_KEEP") == "" {
		os.RemoveAll(workDir)
	}
}

func initWork() {
	base := "/dev/shm"
	if f, err := os.MkdirTemp(base, "vsprobe"); err != nil {
		base = os.TempDir()
	} else {
		os.RemoveAll(f)
	}
	d, err := os.MkdirTemp(base, "vs")
	must(err)
	workDir = d
}

func goroot() string {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	must(err)
	return strings.TrimSpace(string(out))
}

func goRun(dir string, env []string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	out, err := cmd.CombinedOutput()
	return string(out), err
}

func writeFile(p string, data []byte) {
	must(os.MkdirAll(filepath.Dir(p), 0755))
	must(os.WriteFile(p, data, 0644))
}

func mustReplace(s, old, new string, what string) string {
	if strings.Count(s, old) < 1 {
		fatal("cannot patch %s: text not found", what)
	}
	return strings.Replace(s, old, new, 1)
}

// rtSource returns the runtime sources.
func rtSource(name string) []byte {
	b, err := rt.FS.ReadFile(name)
	must(err)
	return b
}

// norace keeps the race detector away from the simulator's own state.
func norace(src []byte) []byte {
	return regexp.MustCompile(`(?m)^func `).ReplaceAll(src, []byte("//go:norace\nfunc "))
}

// simOverlay adds simrt/simsync to the standard library and the hooks to package
// syscall, os, time and math/rand: the seams of the simulator.
func simOverlay(dir string) map[string]string {
	gr := goroot()
	ov := map[string]string{}
	put := func(dst, name string, data []byte) {
		p := filepath.Join(dir, name)
		writeFile(p, data)
		ov[dst] = p
	}
	for _, n := range []string{"maporder", "sched", "sysfault"} {
		put(gr+"/src/simrt/"+n+".go", "simrt_"+n+".go", norace(rtSource(n+".go.txt")))
	}
	put(gr+"/src/simsync/simsync.go", "simsync.go", norace(rtSource("simsync.go.txt")))

	rd := func(p string) string {
		b, err := os.ReadFile(gr + "/src/" + p)
		must(err)
		return string(b)
	}
	// syscalls
	s := rd("syscall/syscall_linux.go")
	for _, n := range []struct{ name, args, call string }{
		{"Syscall", "(trap, a1, a2, a3 uintptr)", "trap, a1, a2, a3, 0, 0, 0"},
		{"Syscall6", "(trap, a1, a2, a3, a4, a5, a6 uintptr)", "trap, a1, a2, a3, a4, a5, a6"},
	} {
		sig := "func " + n.name + n.args + " (r1, r2 uintptr, err Errno) {\n"
		s = mustReplace(s, "//go:uintptrkeepalive\n//go:nosplit\n//go:linkname "+n.name+"\n"+sig,
			"//go:uintptrescapes\n//go:linkname "+n.name+"\n"+sig+
				"\tif SimHook != nil {\n\t\tvar done bool\n\t\tif r1, r2, err, done = SimHook("+n.call+"); done {\n\t\t\treturn\n\t\t}\n\t}\n", "syscall."+n.name)
	}
	s += "\nvar SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno, done bool)\nvar SimExit func()\n"
	put(gr+"/src/syscall/syscall_linux.go", "syscall_linux.go", []byte(s))
	// exit
	s = rd("os/proc.go")
	s = mustReplace(s, "func Exit(code int) {\n", "func Exit(code int) {\n\tif syscall.SimExit != nil {\n\t\tsyscall.SimExit()\n\t}\n", "os.Exit")
	put(gr+"/src/os/proc.go", "proc.go", []byte(s))
	s = rd("os/exec.go")
	s = mustReplace(s, "func Getpid() int { return syscall.Getpid() }", "var simPid int\n\nfunc Getpid() int {\n\tif SimRand == nil {\n\t\treturn syscall.Getpid()\n\t}\n\tif simPid == 0 {\n\t\tsimPid = 2 + int(SimRand()%30000)\n\t}\n\treturn simPid\n}", "os.Getpid")
	put(gr+"/src/os/exec.go", "os_exec.go", []byte(s))
	// clock
	s = rd("time/time.go")
	s = mustReplace(s, "func Now() Time {\n", "var SimNow func() int64\n\nfunc Now() Time {\n\tif SimNow != nil {\n\t\tn := SimNow()\n\t\treturn Unix(n/1e9, n%1e9)\n\t}\n", "time.Now")
	put(gr+"/src/time/time.go", "time.go", []byte(s))
	// randomness
	for _, v := range []string{"math/rand/rand.go", "math/rand/v2/rand.go", "os/tempfile.go"} {
		s = rd(v)
		s = mustReplace(s, "//go:linkname runtime_rand runtime.rand\nfunc runtime_rand() uint64\n",
			"//go:linkname runtime_rand0 runtime.rand\nfunc runtime_rand0() uint64\n\nvar SimRand func() uint64\n\nfunc runtime_rand() uint64 {\n\tif SimRand != nil {\n\t\treturn SimRand()\n\t}\n\treturn runtime_rand0()\n}\n", v)
		put(gr+"/src/"+v, strings.ReplaceAll(v, "/", "_"), []byte(s))
	}
	return ov
}

func writeOverlay(dir string, ov map[string]string) string {
	b, err := json.Marshal(map[string]interface{}{"Replace": ov})
	must(err)
	p := filepath.Join(dir, "overlay.json")
	writeFile(p, b)
	return p
}

const zzSim = `package main

import (
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"os"
	"simrt"
	"syscall"
	"time"
)

func init() {
	if simrt.Cfg.Root == "" {
		return
	}
	syscall.SimExit = simrt.AtExit
	time.SimNow = simrt.Clock
	mrand.SimRand = simrt.Random
	mrand2.SimRand = simrt.Random
	os.SimRand = simrt.Random
}
`

// buildGogll builds the gogll of src (normally /repo) under the simulator.
// replace maps paths relative to src to files with other contents (C13).
func buildGogll(src, name string, replace map[string]string) string {
	bin, err := tryBuildGogll(src, name, replace)
	if err != nil {
		fatal("building gogll under the simulator: %v", err)
	}
	return bin
}

func tryBuildGogll(src, name string, replace map[string]string) (string, error) {
	dir := filepath.Join(workDir, "build-"+name)
	ov := simOverlay(dir)
	rw, modfile, err := rewriteModule(src, filepath.Join(dir, "src"), replace)
	if err != nil {
		return "", err
	}
	for k, v := range rw {
		ov[k] = v
	}
	p := filepath.Join(dir, "zz_sim.go")
	writeFile(p, []byte(zzSim))
	ov[filepath.Join(src, "zz_sim.go")] = p
	bin := filepath.Join(workDir, name)
	out, err := goRun(src, nil, "build", "-modfile="+modfile, "-overlay", writeOverlay(dir, ov),
		"-gcflags=github.com/goccmack/...=-lang=go1.21", "-o", bin, ".")
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}
