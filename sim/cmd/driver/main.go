// driver builds the simulation worker from the current /repo tree, searches seeds, confirms and
// minimises violations, writes replay files and evidence.
//
//	driver setup
//	driver check PROPERTY quick|thorough
//	driver replay FILE
//	driver determinism [PROPERTY]
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	exitOK    = 0
	exitViol  = 1
	exitError = 3
)

var verif = "/verif"
var repo = "/repo"

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Class    string `json:"class"`  // regexp on the violation class
	Match    string `json:"match"`  // regexp on the message
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type sched = json.RawMessage

type caseFile struct {
	Property string            `json:"property"`
	Scenario string            `json:"scenario"`
	Seed     uint64            `json:"seed"`
	Index    int               `json:"index"`
	Base     uint64            `json:"base_seed"`
	Race     bool              `json:"race,omitempty"`
	Prefix   int               `json:"prefix,omitempty"`
	Case     json.RawMessage   `json:"case"`
	Scheds   []json.RawMessage `json:"schedules,omitempty"`
	Class    string            `json:"class"`
	Msg      string            `json:"message"`
	Note     string            `json:"note,omitempty"`
}

type viol struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type line struct {
	I      int            `json:"i"`
	Steps  uint64         `json:"s"`
	Sim    int64          `json:"t"`
	Hash   uint64         `json:"h"`
	Dig    uint64         `json:"d"`
	Choice uint64         `json:"c"`
	Triv   bool           `json:"z"`
	Faults map[string]int `json:"f"`
	Probes map[string]int `json:"p"`
	Viol   *viol          `json:"v"`
	Case   *caseFile      `json:"case"`
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+f+"\n", a...)
	os.Exit(exitError)
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOCACHE", "GOROOT", "GOPATH", "GOMODCACHE", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GODEBUG", "GOGC", "GOMAXPROCS", "GOMEMLIMIT", "GORACE":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOROOT=/opt/veriftools/go1.25.14", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod",
		"GOCACHE="+verif+"/.build/gocache", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=mod", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod")
}

func workerEnv() []string {
	env := []string{"GODEBUG=gcstoptheworld=2", "GORACE=halt_on_error=0 exitcode=0", "GOTRACEBACK=all", "TZ=UTC", "HOME=/root", "PATH=/usr/bin:/bin"}
	return env
}

func binPath(race bool) string {
	if race {
		return verif + "/.build/worker_race"
	}
	return verif + "/.build/worker"
}

func build(race bool) error {
	os.MkdirAll(verif+"/.build", 0o755)
	lk, err := os.OpenFile(verif+"/.build/lock", os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		return err
	}
	defer lk.Close()
	syscall.Flock(int(lk.Fd()), syscall.LOCK_EX)
	defer syscall.Flock(int(lk.Fd()), syscall.LOCK_UN)
	goBin := "/opt/veriftools/go1.25.14/bin/go"
	run := func(args ...string) error {
		c := exec.Command(goBin, args...)
		c.Dir = verif + "/sim"
		c.Env = goEnv()
		b, err := c.CombinedOutput()
		if err != nil {
			return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, b)
		}
		return nil
	}
	mk := verif + "/.build/mkoverlay"
	if err := run("build", "-o", mk, "./cmd/mkoverlay"); err != nil {
		return err
	}
	c := exec.Command(mk, "-goroot", "/opt/veriftools/go1.25.14", "-rt", verif+"/sim/rt", "-repo", repo, "-out", verif+"/.build/ov")
	c.Env = goEnv()
	if b, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("mkoverlay: %v\n%s", err, b)
	}
	args := []string{"build", "-overlay", verif + "/.build/ov/overlay.json", "-ldflags=-checklinkname=0", "-o", binPath(race)}
	if race {
		args = append(args, "-race")
	}
	return run(append(args, "./cmd/worker")...)
}

// runResult is what one worker process produced.
type runResult struct {
	lines []*line
	last  int // last index started (-1: none)
	done  bool
	exit  int
	errb  string
	kill  bool
}

var watchdog = 400 * time.Second

func spawn(race bool, onLine func(*line), args ...string) *runResult {
	r := &runResult{last: -1}
	c := exec.Command(binPath(race), args...)
	tmp, err := os.MkdirTemp(verif+"/.build", "run")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(tmp)
	c.Env = append(workerEnv(), "TMPDIR="+tmp)
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := c.StdoutPipe()
	if err != nil {
		fatalf("%v", err)
	}
	ef, err := os.CreateTemp(verif+"/.build", "err")
	if err != nil {
		fatalf("%v", err)
	}
	os.Remove(ef.Name())
	defer ef.Close()
	c.Stderr = ef
	if err := c.Start(); err != nil {
		fatalf("start worker: %v", err)
	}
	t := time.AfterFunc(watchdog, func() { r.kill = true; c.Process.Kill() })
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		b := sc.Bytes()
		switch {
		case len(b) > 2 && b[0] == 'R' && b[1] == ' ':
			r.last, _ = strconv.Atoi(string(b[2:]))
		case len(b) == 1 && b[0] == 'E':
			r.done = true
		case len(b) > 0 && b[0] == '{':
			l := &line{}
			if err := json.Unmarshal(b, l); err != nil {
				fatalf("worker line: %v: %s", err, b)
			}
			if l.Viol != nil {
				r.done = true
			}
			r.lines = append(r.lines, l)
			if onLine != nil {
				onLine(l)
			}
		}
	}
	c.Wait()
	t.Stop()
	r.exit = c.ProcessState.ExitCode()
	fi, _ := ef.Stat()
	n := fi.Size()
	if n > 1<<20 {
		n = 1 << 20
	}
	eb := make([]byte, n)
	ef.ReadAt(eb, 0)
	r.errb = string(eb)
	return r
}

var frameRe = regexp.MustCompile(`(?m)^\s*github\.com/pb33f/libopenapi([^\s(]*(?:\([^)]*\))?[^\s(]*)\(`)

func firstRepoFrame(s string) string {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/pb33f/libopenapi") {
			l = strings.TrimPrefix(strings.TrimPrefix(l, "github.com/pb33f/libopenapi"), "/")
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

// crashViolation turns a dead worker into a violation, or nil when it died for our own reasons.
func crashViolation(r *runResult) *viol {
	e := r.errb
	switch {
	case r.kill:
		return nil
	case strings.Contains(e, "VERIF-STEP-BUDGET"):
		i := strings.Index(e, "VERIF-STEP-BUDGET")
		return &viol{"livelock:", "the run did not finish within the step budget: " + clip(e[i:], 3000)}
	case strings.Contains(e, "stack overflow") || strings.Contains(e, "exceeds 134217728-byte limit"):
		return &viol{"crash:stack-overflow", clip(e, 3000)}
	case strings.Contains(e, "panic: "):
		i := strings.Index(e, "panic: ")
		g := strings.Index(e[i:], "\ngoroutine ")
		fr := "?"
		if g >= 0 {
			blk := e[i+g+1:]
			if j := strings.Index(blk, "\n\n"); j >= 0 {
				blk = blk[:j]
			}
			fr = firstRepoFrame(blk)
		}
		return &viol{"panic:" + fr, clip(e[i:], 3000)}
	case strings.Contains(e, "fatal error: "):
		i := strings.Index(e, "fatal error: ")
		if strings.Contains(e[i:min(len(e), i+200)], "out of memory") {
			return nil
		}
		return &viol{"fatal:" + strings.TrimSpace(strings.SplitN(e[i+13:], "\n", 2)[0]), clip(e[i:], 3000)}
	}
	return nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// refineRace names the two sides of the first race report.
func refineRace(v *viol, errb string) {
	if v == nil || v.Class != "data-race" {
		return
	}
	i := strings.Index(errb, "WARNING: DATA RACE")
	if i < 0 {
		return
	}
	rep := errb[i:]
	if j := strings.Index(rep, "\n=================="); j >= 0 {
		rep = rep[:j]
	}
	var sides []string
	for k, blk := range strings.Split(rep, "\n\n") {
		if k < 2 {
			sides = append(sides, firstRepoFrame(blk))
		}
	}
	sort.Strings(sides)
	v.Class = "data-race:" + strings.Join(sides, "|")
	v.Msg = clip(rep, 5000)
}

type plan struct {
	Scenario string
	Race     bool
	Runs     int // quick
	Batch    int
	Thorough int // multiplier
}

type propPlan struct {
	Plans  []plan
	Level  string
	Rule   string
	Real   []string
	Stub   []string
	Assume []string
}

type stats struct {
	runs, nontriv       int
	steps, choices      uint64
	sim                 int64
	hashes              map[uint64]struct{}
	faults, probes      map[string]int
	samples             []any
	byScenario          map[string]int
	knownHits           map[int]int
	knownMsg            map[int]string
	capped              bool
	recheck, recheckBad int
}

func classFamily(c string) string { return strings.TrimRight(c, ":") }

func main() {
	if len(os.Args) < 2 {
		fatalf("usage")
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repo = v
	}
	switch os.Args[1] {
	case "setup":
		for _, r := range []bool{false, true} {
			if err := build(r); err != nil {
				fatalf("%v", err)
			}
		}
		r := spawn(false, nil, "list")
		if r.exit != 0 {
			fatalf("worker does not run: %s", r.errb)
		}
		fmt.Println("setup ok")
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "minimise":
		// minimise FILE OUT: shrink a failing case file
		if err := build(false); err != nil {
			fatalf("%v", err)
		}
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fatalf("%v", err)
		}
		var c caseFile
		if err := json.Unmarshal(b, &c); err != nil {
			fatalf("%v", err)
		}
		m, err := confirmAndMinimise(&c, 0)
		if err != nil {
			fatalf("%v", err)
		}
		b, _ = json.MarshalIndent(m, "", " ")
		os.WriteFile(os.Args[3], b, 0o644)
		fmt.Println(m.Class, m.Msg)
	case "determinism":
		p := ""
		if len(os.Args) > 2 {
			p = os.Args[2]
		}
		os.Exit(determinism(p))
	}
}

func seedBase() (uint64, int64) {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		s = "1"
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		n = 1
		for _, c := range s {
			n = n*31 + int64(c)
		}
	}
	return uint64(n), n
}

type job struct {
	p        plan
	from, to int
}

func check(prop, tier string) int {
	t0 := time.Now()
	pp, ok := plans[prop]
	if !ok {
		fatalf("unknown property %s", prop)
	}
	base, seedN := seedBase()
	needRace := false
	needStd := false
	for _, p := range pp.Plans {
		if p.Race {
			needRace = true
		} else {
			needStd = true
		}
	}
	if needStd {
		if err := build(false); err != nil {
			fatalf("build: %v", err)
		}
	}
	if needRace {
		if err := build(true); err != nil {
			fatalf("build: %v", err)
		}
	}
	tb := time.Since(t0)
	fmt.Printf("property=%s tier=%s VERIF_SEED=%d build=%.1fs\n", prop, tier, seedN, tb.Seconds())
	kf := loadKnown(prop)
	wallCap := 150 * time.Second
	if tier == "thorough" {
		wallCap = 25 * time.Minute
	}
	if v := os.Getenv("VERIF_WALL"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			wallCap = time.Duration(n) * time.Second
		}
	}
	st := &stats{hashes: map[uint64]struct{}{}, faults: map[string]int{}, probes: map[string]int{}, byScenario: map[string]int{}, knownHits: map[int]int{}, knownMsg: map[int]string{}}
	// interleave the scenarios' batches
	var queues [][]job
	for _, p := range pp.Plans {
		n := p.Runs
		if tier == "thorough" {
			m := p.Thorough
			if m == 0 {
				m = 40
			}
			n *= m
		}
		var q []job
		for i := 0; i < n; i += p.Batch {
			q = append(q, job{p, i, min(n, i+p.Batch)})
		}
		queues = append(queues, q)
	}
	var jobs []job
	// proportional interleave
	idx := make([]int, len(queues))
	for {
		best, bestF := -1, 2.0
		for k, q := range queues {
			if idx[k] < len(q) {
				f := float64(idx[k]) / float64(len(q))
				if f < bestF {
					best, bestF = k, f
				}
			}
		}
		if best < 0 {
			break
		}
		jobs = append(jobs, queues[best][idx[best]])
		idx[best]++
	}
	var mu sync.Mutex
	var found *caseFile
	var workerErr string
	stop := false
	next := 0
	deadline := time.Now().Add(wallCap)
	var wg sync.WaitGroup
	workers := 8
	if v := os.Getenv("VERIF_WORKERS"); v != "" {
		workers, _ = strconv.Atoi(v)
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= len(jobs) {
					mu.Unlock()
					return
				}
				if time.Now().After(deadline) {
					st.capped = true
					stop = true
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				from := j.from
				for from < j.to {
					r := spawn(j.p.Race, nil, "run", j.p.Scenario, fmt.Sprint(base), fmt.Sprint(from), fmt.Sprint(j.to-from))
					mu.Lock()
					var v *viol
					var vc *caseFile
					for _, l := range r.lines {
						st.add(j.p.Scenario, l)
						if l.Viol != nil {
							v = l.Viol
							refineRace(v, r.errb)
							vc = l.Case
							vc.Class, vc.Msg = v.Class, v.Msg
						}
					}
					if v == nil && !r.done {
						v = crashViolation(r)
						if v == nil {
							if r.kill {
								workerErr = fmt.Sprintf("watchdog: worker %s [%d,%d) stuck at %d", j.p.Scenario, from, j.to, r.last)
							} else {
								workerErr = fmt.Sprintf("worker %s [%d,%d) died at %d, exit %d: %s", j.p.Scenario, from, j.to, r.last, r.exit, clip(r.errb, 2000))
							}
							stop = true
							mu.Unlock()
							return
						}
						vc = genCase(j.p, base, r.last)
						vc.Class, vc.Msg = v.Class, v.Msg
					}
					if v == nil {
						mu.Unlock()
						break
					}
					vc.Race = j.p.Race
					vc.Prefix = 0
					if k := matchKnown(kf, vc); k >= 0 {
						st.knownHits[k]++
						if st.knownMsg[k] == "" {
							st.knownMsg[k] = fmt.Sprintf("scenario=%s index=%d class=%s", vc.Scenario, vc.Index, vc.Class)
						}
						from = vc.Index + 1
						mu.Unlock()
						continue
					}
					if found == nil {
						found = vc
						found.Note = fmt.Sprintf("%d", vc.Index-from)
						stop = true
					}
					mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
	if workerErr != "" && found == nil {
		fatalf("%s", workerErr)
	}
	code := exitOK
	nviol := 0
	if found != nil {
		pre, _ := strconv.Atoi(found.Note)
		found.Note = ""
		fmt.Printf("candidate violation: scenario=%s index=%d class=%s\n%s\n", found.Scenario, found.Index, found.Class, clip(found.Msg, 1500))
		m, err := confirmAndMinimise(found, pre)
		if err != nil {
			fatalf("violation did not replay in a fresh process: %v", err)
		}
		if k := matchKnown(kf, m); k >= 0 {
			// the minimised form is a listed finding
			st.knownHits[k]++
			st.knownMsg[k] = fmt.Sprintf("scenario=%s index=%d class=%s", m.Scenario, m.Index, m.Class)
		} else {
			path := writeReplay(m)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			fmt.Printf("  scenario=%s seed=%d index=%d class=%s\n  %s\n", m.Scenario, m.Seed, m.Index, m.Class, clip(m.Msg, 3000))
			code = exitViol
			nviol = 1
		}
	} else if !st.capped {
		// determinism re-check of a few batches in fresh processes
		recheck(pp, base, st)
	}
	for k, f := range kf {
		if f.Status != "known" {
			continue
		}
		if st.knownHits[k] > 0 || true {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times this run)\n", prop, f.What, st.knownHits[k])
		}
	}
	writeEvidence(prop, tier, seedN, pp, st, time.Since(t0), tb, nviol)
	fmt.Printf("runs=%d nontrivial=%d distinct_schedules=%d steps=%d wall=%.1fs capped=%v faults=%v\n", st.runs, st.nontriv, len(st.hashes), st.steps, time.Since(t0).Seconds(), st.capped, st.faults)
	return code
}

func (st *stats) add(sc string, l *line) {
	st.runs++
	st.byScenario[sc]++
	st.steps += l.Steps
	st.sim += l.Sim
	st.choices += l.Choice
	for k, n := range l.Faults {
		st.faults[k] += n
	}
	for k, n := range l.Probes {
		st.probes[k] += n
	}
	if !l.Triv {
		st.nontriv++
		st.hashes[l.Hash] = struct{}{}
	}
	if len(st.samples) < 6 && (l.I%7 == 0) {
		st.samples = append(st.samples, map[string]any{"scenario": sc, "index": l.I, "steps": l.Steps, "schedule_hash": fmt.Sprintf("%016x", l.Hash), "scheduling_choices": l.Choice, "sim_ns": l.Sim, "faults": l.Faults, "probes": l.Probes})
	}
}

func recheck(pp propPlan, base uint64, st *stats) {
	p := pp.Plans[0]
	n := min(p.Batch, 10)
	a := spawn(p.Race, nil, "run", p.Scenario, fmt.Sprint(base), "0", fmt.Sprint(n))
	b := spawn(p.Race, nil, "run", p.Scenario, fmt.Sprint(base), fmt.Sprint(n/2), fmt.Sprint(n-n/2))
	m := map[int]*line{}
	for _, l := range a.lines {
		m[l.I] = l
	}
	for _, l := range b.lines {
		if o := m[l.I]; o != nil {
			st.recheck++
			if o.Hash != l.Hash || o.Steps != l.Steps || o.Dig != l.Dig {
				st.recheckBad++
			}
		}
	}
}

func genCase(p plan, base uint64, i int) *caseFile {
	r := spawn(p.Race, nil, "gen", p.Scenario, fmt.Sprint(base), fmt.Sprint(i))
	_ = r
	c := exec.Command(binPath(p.Race), "gen", p.Scenario, fmt.Sprint(base), fmt.Sprint(i))
	c.Env = workerEnv()
	b, err := c.Output()
	if err != nil {
		fatalf("gen: %v", err)
	}
	cf := &caseFile{}
	if err := json.Unmarshal(bytes.TrimSpace(b), cf); err != nil {
		fatalf("gen: %v", err)
	}
	return cf
}

func loadKnown(prop string) []known {
	var all []known
	b, err := os.ReadFile(verif + "/known_findings.json")
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &all); err != nil {
		fatalf("known_findings.json: %v", err)
	}
	var out []known
	for _, k := range all {
		if k.Property == prop {
			out = append(out, k)
		}
	}
	return out
}

func matchKnown(kf []known, c *caseFile) int {
	for i, k := range kf {
		if k.Status != "known" {
			continue
		}
		if ok, _ := regexp.MatchString(k.Class, c.Class); !ok {
			continue
		}
		if k.Match != "" {
			if ok, _ := regexp.MatchString("(?s)"+k.Match, c.Msg); !ok {
				continue
			}
		}
		return i
	}
	return -1
}

// execCase runs a case file in a fresh process and returns the resulting case (nil: no violation).
func execCase(c *caseFile) *caseFile {
	f, err := os.CreateTemp(verif+"/.build", "case*.json")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(c)
	f.Write(b)
	f.Close()
	r := spawn(c.Race, nil, "exec", f.Name())
	for _, l := range r.lines {
		if l.Viol != nil {
			refineRace(l.Viol, r.errb)
			o := *l.Case
			o.Race, o.Prefix, o.Base, o.Index = c.Race, c.Prefix, c.Base, c.Index
			o.Class, o.Msg = l.Viol.Class, l.Viol.Msg
			return &o
		}
	}
	if !r.done && r.exit != exitError && r.exit != 4 {
		if v := crashViolation(r); v != nil {
			o := *c
			o.Class, o.Msg = v.Class, v.Msg
			return &o
		}
	}
	return nil
}

func writeReplay(c *caseFile) string {
	dir := verif + "/replays"
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(c, "", " ")
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", c.Property, c.Scenario, c.Index))
	os.WriteFile(path, b, 0o644)
	return path
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatalf("%v", err)
	}
	c := &caseFile{}
	if err := json.Unmarshal(b, c); err != nil {
		fatalf("%v", err)
	}
	if err := build(c.Race); err != nil {
		fatalf("%v", err)
	}
	r := execCase(c)
	if r == nil {
		fmt.Println("replay: no violation")
		return exitOK
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  class=%s (recorded %s)\n  %s\n", c.Property, file, r.Class, c.Class, clip(r.Msg, 4000))
	return exitViol
}

func determinism(only string) int {
	base, _ := seedBase()
	if err := build(false); err != nil {
		fatalf("%v", err)
	}
	bad, total := 0, 0
	var names []string
	for n := range plans {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if only != "" && n != only {
			continue
		}
		for _, p := range plans[n].Plans {
			if p.Race {
				if err := build(true); err != nil {
					fatalf("%v", err)
				}
			}
			reps := 16
			res := make([]map[int]string, reps)
			var wg sync.WaitGroup
			sem := make(chan struct{}, 8)
			for k := 0; k < reps; k++ {
				wg.Add(1)
				sem <- struct{}{}
				go func() {
					defer wg.Done()
					defer func() { <-sem }()
					res[k] = map[int]string{}
					from := 0
					if k%2 == 1 {
						from = 7 * (k % 4) // another process history
					}
					r := spawn(p.Race, nil, "run", p.Scenario, fmt.Sprint(base), fmt.Sprint(from), fmt.Sprint(40-from))
					for _, l := range r.lines {
						res[k][l.I] = fmt.Sprint(l.Steps, l.Hash, l.Dig, l.Sim, l.Choice, l.Faults, l.Viol)
					}
				}()
			}
			wg.Wait()
			b := 0
			t := 0
			for i := 0; i < 40; i++ {
				ref := ""
				for k := 0; k < reps; k++ {
					if s, ok := res[k][i]; ok {
						t++
						if ref == "" {
							ref = s
						} else if ref != s {
							b++
							if b < 3 {
								fmt.Println("  ", p.Scenario, i, "\n   ", clip(ref, 300), "\n   ", clip(s, 300))
							}
						}
					}
				}
			}
			fmt.Printf("%s/%s race=%v executions=%d divergent=%d\n", n, p.Scenario, p.Race, t, b)
			bad += b
			total += t
		}
	}
	fmt.Printf("determinism: executions=%d divergent=%d\n", total, bad)
	if bad > 0 {
		return exitError
	}
	return exitOK
}

func writeEvidence(prop, tier string, seed int64, pp propPlan, st *stats, wall, buildT time.Duration, nviol int) {
	if len(st.samples) == 0 {
		st.samples = append(st.samples, "no run completed before the first violation")
	}
	search := (wall - buildT).Hours()
	perHour := 0.0
	if search > 0 {
		perHour = float64(st.runs) / search
	}
	cov := map[string]any{
		"evaluations": st.runs, "distinct_nontrivial": len(st.hashes), "rule": pp.Rule +
			" A run counts as non-trivial when its workload was effective and the scheduler had at least one real choice; distinct counts different schedule hashes (hash over every scheduling decision and preemption point).",
		"samples": st.samples, "nontrivial_runs": st.nontriv, "runs_per_hour": int(perHour), "seeds_per_hour": int(perHour),
		"simulated_seconds": float64(st.sim) / 1e9, "statements_executed": st.steps, "scheduling_choices": st.choices,
		"faults_injected": st.faults, "probes": st.probes, "runs_by_scenario": st.byScenario, "wall_capped": st.capped,
		"determinism_rechecked": st.recheck, "determinism_mismatches": st.recheckBad,
		"real_components": pp.Real, "stubbed_components": pp.Stub,
	}
	kh := map[string]int{}
	for k, n := range st.knownHits {
		kh[fmt.Sprint(k)] = n
	}
	if len(kh) > 0 {
		cov["known_finding_hits"] = kh
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": pp.Level, "coverage": cov,
		"assumptions": pp.Assume, "wall_s": wall.Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(verif+"/evidence", 0o755)
	if err := os.WriteFile(verif+"/evidence/"+prop+".json", b, 0o644); err != nil {
		fatalf("%v", err)
	}
}
