// Package simrt runs code under the simulated scheduler of ../rt/verif.go: one seed is one exactly
// repeatable execution, with virtual time and every interleaving decided by the seed.
package simrt

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	_ "unsafe"
)

//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

//go:linkname poolCleanup sync.poolCleanup
func poolCleanup()

// DrainPools empties every sync.Pool of the process.
func DrainPools() {
	poolCleanup()
	poolCleanup()
}

// Rand is a splitmix64 stream.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{Mix(seed)} }

func Mix(vs ...uint64) uint64 {
	z := uint64(0x1234567)
	for _, v := range vs {
		z ^= v
		z += 0x9e3779b97f4a7c15
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
	}
	return z
}

func HashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Range(a, b int) int { return a + r.N(b-a+1) }
func (r *Rand) P(p float64) bool   { return float64(r.U64()>>11)/(1<<53) < p }
func (r *Rand) Bool() bool         { return r.U64()&1 == 1 }
func (r *Rand) Fork(tag string) *Rand {
	return &Rand{Mix(r.U64(), HashString(tag))}
}
func Pick[T any](r *Rand, xs []T) T { return xs[r.N(len(xs))] }

// Sched is one run's schedule: a strategy with a seed, or a recorded script.
type Sched struct {
	Mode     int      `json:"mode"`
	Seed     uint64   `json:"seed"`
	CPUs     int      `json:"cpus,omitempty"`
	Mean     uint64   `json:"mean,omitempty"`
	PCT      []uint64 `json:"pct,omitempty"`
	Preempts []uint64 `json:"preempts,omitempty"`
	PickAt   []uint64 `json:"pick_at,omitempty"`
	PickIdx  []uint32 `json:"pick_idx,omitempty"`
}

// DrawSched picks a scheduling strategy (swarm style).
func DrawSched(r *Rand, estSteps uint64) Sched {
	s := Sched{Seed: r.U64(), CPUs: Pick(r, []int{1, 2, 3, 4, 8, 8, 16})}
	switch k := r.N(100); {
	case k < 45:
		s.Mode = runtime.VerifRandom
		s.Mean = Pick(r, []uint64{3, 8, 20, 60, 200, 800, 4000})
	case k < 75:
		s.Mode = runtime.VerifPCT
		d := r.N(6)
		if estSteps < 100 {
			estSteps = 100
		}
		for i := 0; i < d; i++ {
			s.PCT = append(s.PCT, 1+r.U64()%estSteps)
		}
		sort.Slice(s.PCT, func(i, j int) bool { return s.PCT[i] < s.PCT[j] })
	case k < 85:
		s.Mode = runtime.VerifLIFO
		s.Mean = Pick(r, []uint64{10, 100, 1000, 10000})
	case k < 95:
		s.Mode = runtime.VerifMix
		s.Mean = Pick(r, []uint64{5, 50, 500, 5000})
	default:
		s.Mode = runtime.VerifFIFO
	}
	return s
}

const MaxSteps = 60_000_000

// Outcome is what one simulated run did.
type Outcome struct {
	Deadlock bool // main never finished
	Leak     bool // main finished, goroutines remain blocked
	Stuck    []string
	Panic    string // panic raised on the main goroutine
	Steps    uint64
	SimTime  time.Duration
	Hash     uint64
	Stats    runtime.VerifStats
	Rec      Sched
}

var bubbles int

// Run executes main in a fresh bubble under s. grace is how much virtual time goroutines left over
// after main get to finish; what remains blocked after that is a leak.
func Run(s Sched, grace time.Duration, main func()) (o Outcome) {
	cfg := runtime.VerifConfig{Mode: s.Mode, Seed: s.Seed, Mean: s.Mean, MaxSteps: MaxSteps, CPUs: s.CPUs,
		Preempts: s.Preempts, PickAt: s.PickAt, PickIdx: s.PickIdx}
	if cfg.CPUs == 0 {
		cfg.CPUs = 8
	}
	for i := range cfg.PCTSteps {
		if i < len(s.PCT) {
			cfg.PCTSteps[i] = s.PCT[i]
		} else {
			cfg.PCTSteps[i] = 1 << 62
		}
	}
	done := false
	bubbles++
	runtime.VerifStart(cfg)
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if strings.HasPrefix(msg, "deadlock:") {
					o.Deadlock = !done
					o.Leak = done
					return
				}
				panic(r)
			}
		}()
		synctestRun(func() {
			t0 := time.Now()
			defer func() {
				if r := recover(); r != nil {
					o.Panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
				o.SimTime = time.Since(t0)
				done = true
				if grace > 0 {
					time.Sleep(grace)
				}
			}()
			main()
		})
	}()
	o.Stats = runtime.VerifStop()
	o.Steps = o.Stats.Steps
	o.Hash = o.Stats.Hash
	if o.Deadlock || o.Leak {
		o.Stuck = stuck()
	}
	p, a, x := runtime.VerifRecorded()
	o.Rec = Sched{Mode: runtime.VerifScript, Seed: s.Seed, CPUs: s.CPUs,
		Preempts: append([]uint64(nil), p...), PickAt: append([]uint64(nil), a...), PickIdx: append([]uint32(nil), x...)}
	return o
}

// stuck lists the goroutines that remain in a bubble, as "reason at first interesting frame".
func stuck() []string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	if os.Getenv("VERIFSIM_STACKS") != "" {
		os.Stderr.Write(buf)
	}
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		nl := strings.IndexByte(g, '\n')
		if nl < 0 || !strings.Contains(g[:nl], "synctest bubble") {
			continue
		}
		head := g[:nl]
		if strings.Contains(head, "synctest.Run") {
			continue
		}
		reason := head
		if i := strings.IndexByte(head, '['); i >= 0 {
			reason = strings.SplitN(strings.Trim(head[i:], "[]:"), ",", 2)[0]
		}
		fr := FirstFrame(g)
		out = append(out, reason+" at "+fr)
	}
	sort.Strings(out)
	return out
}

// FirstFrame returns the first function of the code under test in a goroutine trace.
func FirstFrame(g string) string {
	for _, l := range strings.Split(g, "\n") {
		if strings.Contains(l, "github.com/pb33f/libopenapi") && !strings.HasPrefix(l, "\t") && !strings.HasPrefix(l, "created by") {
			l = strings.TrimPrefix(l, "github.com/pb33f/libopenapi")
			l = strings.TrimPrefix(l, "/")
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

// Init must be called once by a simulation process before any Run.
func Init() {
	runtime.GOMAXPROCS(1)
	runtime.VerifSingle()
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0
}

func Yield()       { runtime.VerifYield() }
func Step() uint64 { return runtime.VerifSteps() }
