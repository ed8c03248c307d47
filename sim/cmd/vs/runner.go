package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Tree is the content of a scratch directory: path -> file. Directories end in "/".
type Tree map[string]string

func (t Tree) clone() Tree {
	u := Tree{}
	for k, v := range t {
		u[k] = v
	}
	return u
}

func (t Tree) keys() []string {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// diffTrees names the first differences between want and got.
func diffTrees(want, got Tree) []string {
	var d []string
	for _, k := range want.keys() {
		if g, ok := got[k]; !ok {
			d = append(d, "missing "+k)
		} else if g != want[k] {
			d = append(d, "differs "+k)
		}
	}
	for _, k := range got.keys() {
		if _, ok := want[k]; !ok {
			d = append(d, "extra "+k)
		}
	}
	return d
}

type Fault struct {
	At    int    `json:"at"`
	Kind  string `json:"kind"`
	Errno int    `json:"errno,omitempty"`
	Arg   int    `json:"arg,omitempty"`
	Run   int    `json:"run,omitempty"`
}

func (f Fault) String() string {
	s := fmt.Sprintf("%s@%d", f.Kind, f.At)
	if f.Errno != 0 {
		s += "/" + errnoName(f.Errno)
	}
	if f.Arg != 0 {
		s += fmt.Sprintf("/%d‰", f.Arg)
	}
	if f.Run != 0 {
		s += fmt.Sprintf("+%d", f.Run)
	}
	return s
}

func errnoName(e int) string {
	for n, v := range map[string]syscall.Errno{"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EROFS": syscall.EROFS,
		"EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "EINTR": syscall.EINTR, "EDQUOT": syscall.EDQUOT, "ENOENT": syscall.ENOENT,
		"EPERM": syscall.EPERM, "ENOMEM": syscall.ENOMEM, "ESTALE": syscall.ESTALE, "EFBIG": syscall.EFBIG, "EBUSY": syscall.EBUSY, "ELOOP": syscall.ELOOP, "ETXTBSY": syscall.ETXTBSY, "EISDIR": syscall.EISDIR, "ENOTDIR": syscall.ENOTDIR} {
		if int(v) == e {
			return n
		}
	}
	return fmt.Sprint(e)
}

// SimCfg is the schedule and fault plan of one simulated process.
type SimCfg struct {
	Root   string   `json:"root"`
	Log    int      `json:"log"`
	Mode   int      `json:"mode"`
	Seed   uint64   `json:"seed"`
	Only   []string `json:"only"`
	Late   bool     `json:"late"`
	Limit  int      `json:"limit"`
	Steps  int64    `json:"steps"`
	Faults []Fault  `json:"faults"`
	Cap    int64    `json:"cap"`
	Now    int64    `json:"now"`
}

// Entry is one journal line: a system call as the simulated disk saw it.
type Entry struct {
	I  int    `json:"i"`
	Op string `json:"op"`
	P  string `json:"p"`
	P2 string `json:"p2"`
	N  int64  `json:"n"`
	Fl int    `json:"fl"`
	R  int    `json:"r"`
	E  int    `json:"e"`
	M  bool   `json:"m"`
	F  string `json:"f"`
}

// Run is one simulated gogll process.
type Run struct {
	Args   []string          `json:"args"`
	Cwd    string            `json:"cwd"` // relative to the root
	Env    map[string]string `json:"env,omitempty"`
	Cfg    SimCfg            `json:"cfg"`
	MTimes map[string]int64  `json:"mtimes,omitempty"` // seconds relative to now
}

type Result struct {
	Exit     int
	Out, Err string
	Hang     bool
	Crashed  bool // by the plan
	Journal  []Entry
	Escapes  []Entry
	Steps    int64
	MapCalls int64
	MapPert  int64
	MapHash  uint64
	Sites    map[string]int
	Counted  int // counted system calls
}

// Disk is a scratch root on which simulated processes run one after another.
type Disk struct{ dir string }

var diskSeq int64

func newDisk(t Tree) *Disk {
	d := &Disk{fmt.Sprintf("%s/d%06d", workDir, atomic.AddInt64(&diskSeq, 1))}
	must(os.Mkdir(d.dir, 0755))
	must(os.Mkdir(d.root(), 0755))
	d.put(t)
	return d
}

func (d *Disk) root() string { return d.dir + "/r" }
func (d *Disk) free()        { os.RemoveAll(d.dir) }

func (d *Disk) put(t Tree) {
	for _, k := range t.keys() {
		p := d.root() + "/" + k
		if strings.HasSuffix(k, "/") {
			must(os.MkdirAll(p, 0755))
			continue
		}
		must(os.MkdirAll(filepath.Dir(p), 0755))
		if l, ok := strings.CutPrefix(t[k], "\x00link:"); ok {
			must(os.Symlink(l, p))
			continue
		}
		must(os.WriteFile(p, []byte(t[k]), 0644))
	}
}

// snapshot reads the whole tree back.
func (d *Disk) snapshot() Tree {
	t := Tree{}
	root := d.root()
	err := filepath.WalkDir(root, func(p string, e os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p, root), "/")
		switch {
		case rel == "":
		case e.IsDir():
			t[rel+"/"] = ""
		case e.Type()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			t[rel] = "\x00link:" + l
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			t[rel] = string(b)
		}
		return nil
	})
	must(err)
	return t
}

var simRuns, simSteps, simCalls, maxSteps int64

// run executes one simulated process on the disk.
func (d *Disk) run(bin string, r Run) *Result {
	atomic.AddInt64(&simRuns, 1)
	cfg := r.Cfg
	cfg.Root, cfg.Log = d.root(), 3
	if cfg.Steps == 0 {
		cfg.Steps = 800e6
	}
	if cfg.Now == 0 {
		cfg.Now = 1.6e18
	}
	for p, s := range r.MTimes {
		t := time.Unix(cfg.Now/1e9+s, 0)
		os.Chtimes(d.root()+"/"+p, t, t)
	}
	js, err := json.Marshal(cfg)
	must(err)
	lf, err := os.OpenFile(d.dir+"/log", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	must(err)
	defer lf.Close()
	args := make([]string, len(r.Args))
	for i, a := range r.Args {
		args[i] = strings.ReplaceAll(a, "{ROOT}", d.root())
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = filepath.Join(d.root(), r.Cwd)
	cmd.Env = []string{"SIM_CFG=" + string(js), "GOMAXPROCS=2", "GOTRACEBACK=single", "PATH=/nonexistent"}
	for k, v := range r.Env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	sort.Strings(cmd.Env)
	cmd.ExtraFiles = []*os.File{lf}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		fatal("cannot start %s: %v", bin, err)
	}
	timer := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	werr := cmd.Wait()
	if !timer.Stop() {
		fatal("a simulated process did not end within 120 s: %v", r.Args)
	}
	res := &Result{Sites: map[string]int{}}
	res.Exit = cmd.ProcessState.ExitCode()
	if werr != nil && res.Exit < 0 {
		fatal("simulated process ended abnormally: %v\n%s", werr, se.String())
	}
	norm := func(s string) string { return strings.ReplaceAll(s, d.root(), "{ROOT}") }
	res.Out, res.Err = norm(so.String()), norm(se.String())
	lf.Seek(0, 0)
	sc := bufio.NewScanner(lf)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		var e Entry
		if json.Unmarshal(sc.Bytes(), &e) != nil {
			continue
		}
		switch {
		case e.I == -3:
			res.Sites[e.P] = int(e.N)
		case e.I == -2:
			switch e.Op {
			case "steps":
				res.Steps = e.N
			case "mapcalls":
				res.MapCalls = e.N
			case "mapperturbed":
				res.MapPert = e.N
			case "maphash":
				res.MapHash = uint64(e.N)
			}
		case e.I == -1 && e.F == "escape":
			res.Escapes = append(res.Escapes, e)
			res.Journal = append(res.Journal, e)
		case e.I >= 0:
			res.Counted++
			res.Journal = append(res.Journal, e)
			if e.F != "" {
				countFault(e.F, e.Op)
				if strings.HasPrefix(e.F, "crash") {
					res.Crashed = true
				}
			}
		}
	}
	if res.Exit == 97 {
		res.Hang = true
	}
	if res.Exit == 137 && !res.Crashed {
		fatal("simulated process was killed from outside: %v", r.Args)
	}
	if res.Exit == 2 && strings.Contains(res.Err, "runtime: out of memory") {
		fatal("out of memory in a simulated process: %v", r.Args)
	}
	atomic.AddInt64(&simSteps, res.Steps)
	for m := atomic.LoadInt64(&maxSteps); res.Steps > m && !atomic.CompareAndSwapInt64(&maxSteps, m, res.Steps); m = atomic.LoadInt64(&maxSteps) {
	}
	atomic.AddInt64(&simCalls, int64(res.Counted))
	return res
}

// exec runs r on a fresh disk holding t and returns the result and what is left.
func execRun(bin string, t Tree, r Run) (*Result, Tree) {
	d := newDisk(t)
	defer d.free()
	res := d.run(bin, r)
	return res, d.snapshot()
}
