// Package harness is the in-process side of the simulator: scenario registry, per-run environment,
// and the worker loop.
package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"verifsim/simrt"
)

// Scenario is one workload with its oracle.
type Scenario struct {
	Name     string
	Property string
	// Est is the rough number of steps of a run, for placing PCT change points.
	Est uint64
	Gen func(r *simrt.Rand) any
	New func() any
	Run func(c any, e *Env)
	// Grace is how long (virtual) goroutines get to finish after main.
	Grace time.Duration
}

var scenarios = map[string]*Scenario{}
var order []string

func Register(s *Scenario) {
	if s.Grace == 0 {
		s.Grace = 24 * time.Hour
	}
	if s.Est == 0 {
		s.Est = 200000
	}
	scenarios[s.Name] = s
	order = append(order, s.Name)
}

type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Env is what a running scenario sees.
type Env struct {
	mu      sync.Mutex
	sc      *Scenario
	seed    uint64
	r       *simrt.Rand
	script  []simrt.Sched // replay
	runs    int
	Rec     []simrt.Sched
	Faults  map[string]int
	Probes  map[string]int
	Steps   uint64
	SimTime time.Duration
	Hash    uint64
	Choices uint64
	Viol    *Violation
	trivial bool
	digest  uint64
	// Expect lets a scenario accept a leak/deadlock itself.
	NoAutoFail bool
}

func (e *Env) Fail(class, f string, a ...any) {
	if e.Viol == nil {
		m := fmt.Sprintf(f, a...)
		if len(m) > 6000 {
			m = m[:6000] + "..."
		}
		e.Viol = &Violation{Class: class, Msg: m}
	}
}
func (e *Env) Failed() bool      { return e.Viol != nil }
func (e *Env) Fault(kind string) { e.mu.Lock(); e.Faults[kind]++; e.mu.Unlock() }
func (e *Env) Probe(name string) { e.mu.Lock(); e.Probes[name]++; e.mu.Unlock() }
func (e *Env) Trivial()          { e.trivial = true }
func (e *Env) Seed() uint64      { return e.seed }
func (e *Env) Digest(s string)   { e.digest = simrt.Mix(e.digest, simrt.HashString(s)) }

// Sim runs main under the run's schedule.
func (e *Env) Sim(main func()) simrt.Outcome {
	k := e.runs
	e.runs++
	var s simrt.Sched
	if e.script != nil {
		if k < len(e.script) {
			s = e.script[k]
		} else {
			s = simrt.Sched{Mode: runtime.VerifFIFO, Seed: simrt.Mix(e.seed, 99, uint64(k))}
		}
	} else {
		s = simrt.DrawSched(simrt.NewRand(simrt.Mix(e.seed, 77, uint64(k))), e.sc.Est)
	}
	o := simrt.Run(s, e.sc.Grace, main)
	e.Rec = append(e.Rec, o.Rec)
	e.Steps += o.Steps
	e.SimTime += o.SimTime
	e.Hash = simrt.Mix(e.Hash, o.Hash)
	e.Choices += o.Stats.Choices
	e.Probes["preemptions"] += int(o.Stats.Preempts)
	e.Probes["goroutines"] += int(o.Stats.Goroutines)
	e.auto(o, "")
	return o
}

func (e *Env) auto(o simrt.Outcome, tag string) {
	if e.NoAutoFail {
		return
	}
	if o.Panic != "" {
		e.Fail("panic:"+simrt.FirstFrame(o.Panic[strings.IndexByte(o.Panic, '\n')+1:]), "%spanic: %s", tag, o.Panic)
	}
	if o.Deadlock {
		e.Fail("deadlock", "%sno goroutine can make progress at virtual time %v: %s", tag, o.SimTime, strings.Join(o.Stuck, "; "))
	}
	if o.Leak {
		e.Fail("leak", "%sgoroutines left blocked forever after the call returned: %s", tag, strings.Join(o.Stuck, "; "))
	}
}

// Ref runs main first-in-first-out without preemption: the reference execution. salt changes the
// randomness the code sees (map iteration, select).
func (e *Env) Ref(salt uint64, main func()) simrt.Outcome {
	o := simrt.Run(simrt.Sched{Mode: runtime.VerifFIFO, Seed: simrt.Mix(e.seed, 1234, salt)}, e.sc.Grace, main)
	e.auto(o, "(sequential reference run) ")
	return o
}

// R is the run's own PRNG for decisions made while the run proceeds.
func (e *Env) R() *simrt.Rand { return e.r }

// Case is a replay file.
type Case struct {
	Property string          `json:"property"`
	Scenario string          `json:"scenario"`
	Seed     uint64          `json:"seed"`
	Index    int             `json:"index"`
	Base     uint64          `json:"base_seed"`
	Race     bool            `json:"race,omitempty"`
	Prefix   int             `json:"prefix,omitempty"` // runs of the same batch executed first
	Case     json.RawMessage `json:"case"`
	Scheds   []simrt.Sched   `json:"schedules,omitempty"`
	Class    string          `json:"class"`
	Msg      string          `json:"message"`
	Note     string          `json:"note,omitempty"`
}

type Line struct {
	I      int            `json:"i"`
	Steps  uint64         `json:"s"`
	Sim    int64          `json:"t"`
	Hash   uint64         `json:"h"`
	Dig    uint64         `json:"d"`
	Choice uint64         `json:"c"`
	Triv   bool           `json:"z,omitempty"`
	Faults map[string]int `json:"f,omitempty"`
	Probes map[string]int `json:"p,omitempty"`
	Viol   *Violation     `json:"v,omitempty"`
	Case   *Case          `json:"case,omitempty"`
}

func caseSeed(base uint64, sc string, i int) uint64 {
	return simrt.Mix(base, simrt.HashString(sc), uint64(i))
}

func execOne(sc *Scenario, c any, seed uint64, script []simrt.Sched) *Env {
	e := &Env{sc: sc, seed: seed, script: script, r: simrt.NewRand(simrt.Mix(seed, 5)), Faults: map[string]int{}, Probes: map[string]int{}}
	if v, ok := c.(interface{ Valid() bool }); ok && !v.Valid() {
		e.trivial = true
		return e
	}
	races := raceErrors()
	if BeforeRun != nil {
		BeforeRun() // no run sees what an earlier run of the same process cached
	}
	sc.Run(c, e)
	if n := raceErrors() - races; n > 0 {
		e.Fail("data-race", "the race detector reported %d data race(s)", n)
	}
	return e
}

// Warm fills process-lifetime tables before the first run.
var Warm func()

// BeforeRun resets the process state that outlives a run.
var BeforeRun func()

var atExit []func()

// AtExit registers cleanup for a normal end of the process.
func AtExit(f func()) { atExit = append(atExit, f) }

func exit(code int) {
	for _, f := range atExit {
		f()
	}
	os.Exit(code)
}

func warm(sc *Scenario) {
	if Warm != nil {
		Warm()
	}
	if raceBuild {
		return // a race is reported once per process; do not spend it here
	}
	// One fixed run so that first-use initialisation does not make the first run special.
	seed := caseSeed(424242, sc.Name, 0)
	execOne(sc, sc.Gen(simrt.NewRand(seed)), seed, nil)
}

// Main is the worker entry point.
//
//	worker list
//	worker run SCENARIO BASE FROM COUNT
//	worker exec FILE            (run a case file; prints a Line)
//	worker gen SCENARIO BASE I  (print the case)
func Main() {
	simrt.Init()
	debug.SetMaxStack(128 << 20)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(out)
	a := os.Args[1:]
	if len(a) == 0 {
		os.Exit(3)
	}
	switch a[0] {
	case "list":
		for _, n := range order {
			fmt.Fprintln(out, n, scenarios[n].Property)
		}
		out.Flush()
	case "gen":
		var base uint64
		var i int
		fmt.Sscan(a[2], &base)
		fmt.Sscan(a[3], &i)
		sc := scenarios[a[1]]
		seed := caseSeed(base, sc.Name, i)
		b, _ := json.Marshal(sc.Gen(simrt.NewRand(seed)))
		enc.Encode(&Case{Property: sc.Property, Scenario: sc.Name, Seed: seed, Index: i, Base: base, Case: b})
		out.Flush()
	case "run":
		sc := scenarios[a[1]]
		if sc == nil {
			fmt.Fprintln(os.Stderr, "unknown scenario", a[1])
			os.Exit(3)
		}
		var base uint64
		var from, count int
		fmt.Sscan(a[2], &base)
		fmt.Sscan(a[3], &from)
		fmt.Sscan(a[4], &count)
		warm(sc)
		for i := from; i < from+count; i++ {
			fmt.Fprintf(out, "R %d\n", i)
			out.Flush()
			seed := caseSeed(base, sc.Name, i)
			c := sc.Gen(simrt.NewRand(seed))
			e := execOne(sc, c, seed, nil)
			l := line(e, i)
			if e.Viol != nil {
				b, _ := json.Marshal(c)
				l.Case = &Case{Property: sc.Property, Scenario: sc.Name, Seed: seed, Index: i, Base: base, Case: b, Scheds: e.Rec, Class: e.Viol.Class, Msg: e.Viol.Msg}
			}
			enc.Encode(l)
			if e.Viol != nil {
				out.Flush()
				exit(0)
			}
			collect()
		}
		fmt.Fprintln(out, "E")
		out.Flush()
	case "exec":
		b, err := os.ReadFile(a[1])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var cf Case
		if err := json.Unmarshal(b, &cf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		sc := scenarios[cf.Scenario]
		if sc == nil {
			fmt.Fprintln(os.Stderr, "unknown scenario", cf.Scenario)
			os.Exit(3)
		}
		warm(sc)
		for k := cf.Prefix; k > 0; k-- {
			i := cf.Index - k
			seed := caseSeed(cf.Base, sc.Name, i)
			execOne(sc, sc.Gen(simrt.NewRand(seed)), seed, nil)
			collect()
		}
		c := sc.New()
		if err := json.Unmarshal(cf.Case, c); err != nil {
			fmt.Fprintln(os.Stderr, "case:", err)
			os.Exit(4)
		}
		fmt.Fprintf(out, "R %d\n", cf.Index)
		out.Flush()
		e := execOne(sc, c, cf.Seed, cf.Scheds)
		l := line(e, cf.Index)
		if e.Viol != nil {
			n := cf
			n.Scheds = e.Rec
			n.Class, n.Msg = e.Viol.Class, e.Viol.Msg
			l.Case = &n
		}
		enc.Encode(l)
		fmt.Fprintln(out, "E")
		out.Flush()
	}
	exit(0)
}

func collect() {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc > 500<<20 {
		runtime.GC()
	}
}

func line(e *Env, i int) *Line {
	return &Line{I: i, Steps: e.Steps, Sim: int64(e.SimTime), Hash: e.Hash, Dig: e.digest, Choice: e.Choices, Triv: e.trivial || e.Choices == 0,
		Faults: e.Faults, Probes: e.Probes, Viol: e.Viol}
}
