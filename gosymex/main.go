package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- configuration

type TierCfg struct {
	Params  map[string]int `json:"params"`
	Seconds int            `json:"seconds"`
	Skip    bool           `json:"skip"`
}

type HarnessCfg struct {
	Fn       string   `json:"fn"`
	Bounds   string   `json:"bounds"`
	Quick    TierCfg  `json:"quick"`
	Thorough TierCfg  `json:"thorough"`
	Reach    []string `json:"reach"`
	MaxSteps int64    `json:"max_steps"`
	MaxAlloc int64    `json:"max_alloc"`
	Repeat   int      `json:"repeat"` // native repetitions (schedule or iteration order dependent)
	Race     bool     `json:"race"`
	Cgo      bool     `json:"cgo"`
	Faults   bool     `json:"faults"` // the native build can inject file faults
	// NoNative: why a counterexample cannot be replayed natively (reported as such)
	HangS int `json:"hang_s"`
}

type CheckCfg struct {
	Assumptions []string     `json:"assumptions"`
	Outside     string       `json:"outside"`
	Harnesses   []HarnessCfg `json:"harnesses"`
}

type KnownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func readJSON(p string, v any) error {
	b, err := os.ReadFile(p)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

// ---- native runner

type nativeRunner struct {
	mu    sync.Mutex
	bin   string
	dir   string
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	errb  *tailBuf
	ready chan error
	runs  int
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	t.mu.Unlock()
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

type nativeReq struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Values  []uint64       `json:"values"`
	Repeat  int            `json:"repeat"`
}
type nativeRep struct {
	Status   string   `json:"status"`
	Msg      string   `json:"msg"`
	Observed []string `json:"observed"`
}

type natFlags struct{ cgo, race, faults bool }

func buildNative(dir string, groups []string, fns []string, fl natFlags) (string, error) {
	files, err := overlayFiles(filepath.Join(verifDir, "overlay"), func(rel string) bool {
		if strings.HasPrefix(rel, "pkg/zzmodels/") {
			return false
		}
		if strings.HasPrefix(rel, "pkg/zzh/") {
			g := strings.Split(rel, "/")[2]
			for _, x := range groups {
				if x == g {
					return true
				}
			}
			return false
		}
		return true
	})
	if err != nil {
		return "", err
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n")
	for _, g := range groups {
		fmt.Fprintf(&sb, "\t%q\n", repoMod+"/pkg/zzh/"+g)
	}
	sb.WriteString(")\n\nvar harnesses = map[string]func(){\n")
	seenFn := map[string]bool{}
	for _, f := range fns {
		if seenFn[f] {
			continue
		}
		seenFn[f] = true
		fmt.Fprintf(&sb, "\t%q: %s,\n", f, f)
	}
	sb.WriteString("}\n")
	regf := filepath.Join(dir, "registry.go")
	if err := os.WriteFile(regf, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	files[filepath.Join(repoDir, "pkg/zzcmd/registry.go")] = regf
	tags := "sqlite_fts5"
	var more []string
	if fl.faults {
		if err := faultedOS(dir, files); err != nil {
			return "", err
		}
		var err error
		if more, err = faultedWatcher(dir); err != nil {
			return "", err
		}
		tags += ",zzfault"
	}
	ovb, _ := json.Marshal(map[string]any{"Replace": files})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, ovb, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "zzcmd")
	if fl.cgo {
		tags += ",zzcgo"
	}
	args := []string{"build", "-overlay", ovf, "-tags", tags, "-o", bin}
	if fl.race {
		args = append(args, "-race")
	}
	if fl.cgo {
		args = append(args, "-ldflags=-checklinkname=0") // the harnesses put a driver between database/sql and SQLite
	}
	args = append(append(args, more...), repoMod+"/pkg/zzcmd")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	c := "CGO_ENABLED=0"
	if fl.cgo || fl.race {
		c = "CGO_ENABLED=1"
	}
	cmd.Env = append(os.Environ(), c, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOARCH="+runtime.GOARCH)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

func (n *nativeRunner) startProc() error {
	n.cmd = exec.Command(n.bin)
	n.cmd.Env = append(os.Environ(), "ZZ_SCRATCH="+n.dir, "GOTRACEBACK=single", "GORACE=halt_on_error=1")
	n.errb = &tailBuf{}
	n.cmd.Stderr = n.errb
	var err error
	if n.in, err = n.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := n.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	n.out = bufio.NewReaderSize(o, 1<<20)
	return n.cmd.Start()
}

// run replays one assignment on the real code. A crash or hang of the process is reported as such.
// A run during which the system had no watchers left to give (see zzcmd) says nothing about the
// code: it is made again, in a new process.
func (n *nativeRunner) run(r nativeReq, timeout time.Duration) nativeRep {
	n.mu.Lock()
	defer n.mu.Unlock()
	for i := 0; ; i++ {
		rep := n.once(r, timeout)
		if rep.Status != "starved" {
			return rep
		}
		n.kill()
		if i == 5 {
			return nativeRep{Status: "starved", Msg: "no watchers left in the system: " + rep.Msg}
		}
		time.Sleep(time.Second)
	}
}

func (n *nativeRunner) once(r nativeReq, timeout time.Duration) nativeRep {
	if n.cmd != nil && n.runs >= 40 {
		n.kill() // whatever the runs left open is released
	}
	if n.cmd == nil {
		n.runs = 0
		if err := n.startProc(); err != nil {
			return nativeRep{Status: "error", Msg: err.Error()}
		}
	}
	n.runs++
	b, _ := json.Marshal(r)
	if _, err := n.in.Write(append(b, '\n')); err != nil {
		n.kill()
		return nativeRep{Status: "error", Msg: err.Error()}
	}
	type ans struct {
		line []byte
		err  error
	}
	ch := make(chan ans, 1)
	go func() {
		l, err := n.out.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			n.cmd.Wait()
			msg := n.errb.String()
			n.cmd = nil
			return nativeRep{Status: "violation", Msg: "process crash: " + firstLines(msg, 3)}
		}
		var rep nativeRep
		if err := json.Unmarshal(a.line, &rep); err != nil {
			return nativeRep{Status: "error", Msg: err.Error()}
		}
		return rep
	case <-time.After(timeout):
		n.kill()
		return nativeRep{Status: "hang", Msg: fmt.Sprintf("no answer within %v", timeout)}
	}
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func (n *nativeRunner) kill() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

// ---- check

type replayFile struct {
	Property string         `json:"property"`
	Harness  string         `json:"harness"`
	Params   map[string]int `json:"params"`
	Values   []uint64       `json:"values"`
	Inputs   []string       `json:"inputs"`
	Schedule []string       `json:"schedule,omitempty"`
	Kind     string         `json:"kind"`
	Msg      string         `json:"message"`
	Stack    []string       `json:"stack"`
	Native   string         `json:"native"`
	Cgo      bool           `json:"cgo"`
	Race     bool           `json:"race"`
	Faults   bool           `json:"faults"`
	Repeat   int            `json:"repeat"`
	HangS    int            `json:"hang_s"`
}

func inputsText(v *Violation) (in, sched []string) {
	for _, x := range v.Vars {
		s := fmt.Sprintf("%s=%d", x.Name, int64(v.Model[x.Name]))
		if x.W == 8 && x.Kind == "v" {
			s += fmt.Sprintf(" %q", rune(v.Model[x.Name]))
		}
		if x.Kind == "g" {
			continue
		}
		if x.Kind == "v" {
			in = append(in, s)
		} else {
			sched = append(sched, s)
		}
	}
	return
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosymex check ID | explore group.HFn | replay FILE")
		os.Exit(2)
	}
	orderedBy()
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

func cmdReplay(args []string) int {
	var r replayFile
	if err := readJSON(args[0], &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, _ := os.MkdirTemp("", "gosymex")
	defer os.RemoveAll(dir)
	bin, err := buildNative(dir, []string{strings.Split(r.Harness, ".")[0]}, []string{r.Harness}, natFlags{r.Cgo, r.Race, r.Faults})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n := &nativeRunner{bin: bin, dir: dir}
	rep := n.run(nativeReq{r.Harness, r.Params, r.Values, r.Repeat}, time.Duration(max(r.HangS, 10))*time.Second)
	n.kill()
	fmt.Println(rep.Status, rep.Msg)
	if rep.Status == "violation" || rep.Status == "hang" {
		return 1
	}
	return 0
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "quick", "quick or thorough")
	only := fs.String("only", "", "run only this harness")
	verbose := fs.Bool("v", false, "verbose")
	prof := fs.Bool("prof", false, "profile symbolic decisions")
	cpu := fs.String("cpuprofile", "", "")
	secs := fs.Int("seconds", 0, "override time limit per harness")
	par := fs.String("params", "", "k=v,...")
	noNative := fs.Bool("nonative", false, "skip native validation")
	id := args[0]
	fs.Parse(args[1:])
	t0 := time.Now()
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}

	var cfgs map[string]*CheckCfg
	if err := readJSON(filepath.Join(verifDir, "checks.json"), &cfgs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cfg := cfgs[id]
	if cfg == nil {
		fmt.Fprintln(os.Stderr, "no such check", id)
		return 2
	}
	var known []KnownFinding
	if err := readJSON(filepath.Join(verifDir, "known_findings.json"), &known); err != nil && !os.IsNotExist(err) {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	gset := map[string]bool{}
	var groups, fns []string
	for _, h := range cfg.Harnesses {
		g := strings.Split(h.Fn, ".")[0]
		if !gset[g] {
			gset[g] = true
			groups = append(groups, g)
		}
		fns = append(fns, h.Fn)
	}
	dir, err := os.MkdirTemp("", "gosymex")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	// one native build for each combination of flags
	nats := map[natFlags]*nativeRunner{}
	for _, h := range cfg.Harnesses {
		f := natFlags{h.Cgo, h.Race, h.Faults}
		if *only != "" && h.Fn != *only || nats[f] != nil {
			continue
		}
		sub, err := os.MkdirTemp(dir, "native")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		nat := &nativeRunner{dir: sub, ready: make(chan error, 1)}
		nats[f] = nat
		if *noNative {
			nat.ready <- nil
			continue
		}
		var fgroups, ffns []string
		for _, o := range cfg.Harnesses {
			if (natFlags{o.Cgo, o.Race, o.Faults}) == f {
				g := strings.Split(o.Fn, ".")[0]
				if !slices.Contains(fgroups, g) {
					fgroups = append(fgroups, g)
				}
				ffns = append(ffns, o.Fn)
			}
		}
		go func() {
			bin, err := buildNative(nat.dir, fgroups, ffns, f)
			nat.bin = bin
			nat.ready <- err
		}()
	}
	prog, err := loadProgram(groups)
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		return 2
	}
	for _, nat := range nats {
		if err := <-nat.ready; err != nil {
			fmt.Fprintln(os.Stderr, "ERROR:", err)
			return 2
		}
		defer nat.kill()
	}

	x := &Explorer{prog: prog}
	defer x.close()
	nw := runtime.NumCPU()
	if s := os.Getenv("GOSYMEX_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	ev := newEvidence(id, *tier, cfg)
	exit := 0
	replayDir := filepath.Join(verifDir, "evidence", "replays")
	os.MkdirAll(replayDir, 0o755)
	nviol := 0
	knownSeen := map[int]bool{}
	for _, h := range cfg.Harnesses {
		if *only != "" && h.Fn != *only {
			continue
		}
		tc := h.Quick
		if *tier == "thorough" {
			tc = h.Thorough
			if tc.Seconds == 0 {
				tc = h.Quick
				tc.Seconds = 300
			}
		}
		if tc.Skip {
			continue
		}
		if tc.Seconds == 0 {
			tc.Seconds = 60
		}
		if *secs > 0 {
			tc.Seconds = *secs
		}
		eng := &Engine{Program: prog, params: map[string]int{}, parSeen: map[string]int{}, maxSteps: 20_000_000, maxAlloc: 1 << 20, solverMs: 20000, maxViol: 40}
		if h.MaxSteps > 0 {
			eng.maxSteps = h.MaxSteps
		}
		if h.MaxAlloc > 0 {
			eng.maxAlloc = h.MaxAlloc
		}
		for k, v := range tc.Params {
			eng.params[k] = v
		}
		if *par != "" {
			for _, kv := range strings.Split(*par, ",") {
				k, v, _ := strings.Cut(kv, "=")
				eng.params[k], _ = strconv.Atoi(v)
			}
		}
		if *prof {
			eng.prof = map[string]int{}
		}
		eng.deadline = time.Now().Add(time.Duration(tc.Seconds) * time.Second)
		parts := strings.SplitN(h.Fn, ".", 2)
		sp := prog.prog.ImportedPackage(repoMod + "/pkg/zzh/" + parts[0])
		var fn *ssa.Function
		if sp != nil {
			fn = sp.Func(parts[1])
		}
		if fn == nil {
			fmt.Fprintln(os.Stderr, "ERROR: harness not found:", h.Fn)
			return 2
		}
		eng.isKnown = func(v *Violation) bool {
			for _, k := range known {
				if k.Status == "known" && k.Property == id && (k.Harness == "" || k.Harness == h.Fn) && strings.Contains(v.Msg, k.Match) {
					return true
				}
			}
			return false
		}
		nat := nats[natFlags{h.Cgo, h.Race, h.Faults}]
		res := x.explore(eng, fn, nw, nil)
		if *verbose {
			b, _ := json.MarshalIndent(res, "", " ")
			fmt.Println(string(b))
		}
		if *prof {
			type kv struct {
				k string
				n int
			}
			var l []kv
			for k, n := range eng.prof {
				l = append(l, kv{k, n})
			}
			sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
			for i := 0; i < len(l) && i < 25; i++ {
				fmt.Println(l[i].n, l[i].k)
			}
		}
		ev.add(h, tc, res)
		for k := range res.AbortMsgs {
			if strings.HasPrefix(k, "baseline") {
				fmt.Fprintln(os.Stderr, "ERROR:", k)
				return 2
			}
		}

		// counterexamples: replay on the real code
		reported := map[string]bool{}
		hang := time.Duration(max(h.HangS, 10)) * time.Second
		for _, v := range res.Violations {
			ki := -1
			for i, k := range known {
				if k.Status == "known" && k.Property == id && (k.Harness == "" || k.Harness == h.Fn) && strings.Contains(v.Msg, k.Match) {
					ki = i
				}
			}
			key := v.Msg
			if reported[key] || ki >= 0 && knownSeen[ki] {
				continue
			}
			rf := replayFile{Property: id, Harness: h.Fn, Params: res.Params, Values: values(v.Model, v.Vars), Kind: v.Kind, Msg: v.Msg, Stack: v.Stack, Cgo: h.Cgo, Race: h.Race, Faults: h.Faults, Repeat: h.Repeat, HangS: h.HangS}
			if len(rf.Stack) == 0 && v.Where != "" {
				rf.Stack = []string{v.Where}
			}
			rf.Inputs, rf.Schedule = inputsText(v)
			if (len(rf.Schedule) > 0 || v.Kind == "deadlock") && rf.Repeat == 0 {
				rf.Repeat = 300
			}
			if *noNative {
				fmt.Printf("candidate (not replayed): %s: %s\n  inputs %v %v\n  %s\n", h.Fn, v.Msg, rf.Inputs, rf.Schedule, strings.Join(rf.Stack, "\n  "))
				reported[key] = true
				continue
			}
			rep := nat.run(nativeReq{h.Fn, res.Params, rf.Values, rf.Repeat}, hang)
			rf.Native = rep.Status + ": " + rep.Msg
			confirmed := rep.Status == "violation" || rep.Status == "hang"
			if *verbose {
				fmt.Printf("candidate: %s: %s\n  inputs %v %v\n  %s\n  native: %s\n", h.Fn, v.Msg, rf.Inputs, rf.Schedule, strings.Join(rf.Stack, "\n  "), rf.Native)
			}
			if !confirmed {
				ev.Unconfirmed++
				ev.note(fmt.Sprintf("%s: a counterexample of the model was not reproduced by the real code and is not reported: %s (native: %s)", h.Fn, v.Msg, rf.Native))
				continue
			}
			if ki >= 0 {
				knownSeen[ki] = true
				continue
			}
			reported[key] = true
			nviol++
			path := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%d.json", id, strings.ReplaceAll(h.Fn, ".", "-"), nviol))
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  %s: %s\n  on the real code: %s\n  inputs: %s\n", h.Fn, v.Msg, firstLines(rf.Native, 2), strings.Join(rf.Inputs, ", "))
			exit = 1
			if nviol >= 4 {
				break
			}
		}
		// validation: completed paths are run on the real code and must agree
		if !*noNative {
			bad := validate(nat, h, res, ev, hang)
			for _, b := range bad {
				if b.viol {
					if isKnownMsg(known, id, h.Fn, b.msg) {
						continue
					}
					nviol++
					path := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%d.json", id, strings.ReplaceAll(h.Fn, ".", "-"), nviol))
					rf := replayFile{Property: id, Harness: h.Fn, Params: res.Params, Values: b.vals, Kind: "native", Msg: b.msg, Native: b.msg, Cgo: h.Cgo, Race: h.Race, Faults: h.Faults, Repeat: h.Repeat}
					bb, _ := json.MarshalIndent(rf, "", " ")
					os.WriteFile(path, append(bb, '\n'), 0o644)
					fmt.Printf("VIOLATION property=%s replay=%s\n  %s (validation run of a solver model on the real code): %s\n", id, path, h.Fn, firstLines(b.msg, 3))
					exit = 1
				} else {
					fmt.Printf("DIVERGENCE %s: model and real code disagree: %s\n", h.Fn, b.msg)
				}
				break
			}
		}
		// vacuity
		if exit == 0 {
			for _, r := range h.Reach {
				if !res.Reached[r] {
					fmt.Printf("VACUOUS %s: witness %q was not reached (%d paths, given up: %v)\n", h.Fn, r, res.Paths, res.AbortMsgs)
					ev.Vacuous = append(ev.Vacuous, h.Fn+":"+r)
				}
			}
			if res.Done == 0 && len(res.Violations) == 0 {
				fmt.Printf("VACUOUS %s: no path completed (given up: %v)\n", h.Fn, res.AbortMsgs)
				ev.Vacuous = append(ev.Vacuous, h.Fn)
			}
		}
		fmt.Printf("%-34s paths %6d done %6d giveup %v asserts %d (%d by solver) queries %d unknown %d validated %d complete=%v %.1fs\n", h.Fn, res.Paths, res.Done, res.Aborted, res.Asserts, res.SymAsserts, res.Queries, res.Unknown, ev.lastValidated, res.Complete, res.WallS)
		if nviol >= 4 {
			break
		}
	}
	for i, k := range known {
		if knownSeen[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
			ev.Known = append(ev.Known, k.What)
		}
	}
	ev.write(nviol, time.Since(t0), prog)
	if exit == 0 && len(ev.Vacuous) > 0 {
		return 2
	}
	return exit
}

func isKnownMsg(known []KnownFinding, id, fn, msg string) bool {
	for _, k := range known {
		if k.Status == "known" && k.Property == id && (k.Harness == "" || k.Harness == fn) && strings.Contains(msg, k.Match) {
			return true
		}
	}
	return false
}

type badSample struct {
	viol bool
	msg  string
	vals []uint64
}

func validate(nat *nativeRunner, h HarnessCfg, res *Result, ev *Evidence, hang time.Duration) (bad []badSample) {
	ok := 0
	deadline := time.Now().Add(15 * time.Second)
	for _, s := range res.Samples {
		if time.Now().After(deadline) {
			break
		}
		vals := values(s.Model, s.Vars)
		shuffled := hasKind(s.Vars, s.Model, "sched") || hasKind(s.Vars, s.Model, "maporder")
		rep := nat.run(nativeReq{h.Fn, res.Params, vals, 1}, hang)
		switch rep.Status {
		case "ok":
			if strings.Join(rep.Observed, "\n") == strings.Join(s.Observed, "\n") {
				ok++
				if len(ev.Samples) < 12 {
					ev.Samples = append(ev.Samples, map[string]any{"harness": h.Fn, "values": vals, "observed": s.Observed})
				}
			} else if !shuffled {
				ev.Diverged++
				bad = append(bad, badSample{msg: fmt.Sprintf("inputs %v: model %v, real %v", vals, s.Observed, rep.Observed), vals: vals})
			}
		case "violation", "hang":
			bad = append(bad, badSample{viol: true, msg: rep.Msg, vals: vals})
		case "starved":
		default:
			ev.Diverged++
			bad = append(bad, badSample{msg: fmt.Sprintf("inputs %v: real code run gave %s %s", vals, rep.Status, rep.Msg), vals: vals})
		}
	}
	ev.Validated += ok
	ev.lastValidated = ok
	return bad
}
