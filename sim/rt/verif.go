// Added to package runtime by /verif's build overlay. It is never part of a shipped build.
//
// It gives the simulator one seeded scheduler: while verifOn is set, every runnable goroutine of a
// synctest bubble is kept in verifQ and the goroutine that runs next is chosen by a PRNG (or by a
// recorded script); instrumented code calls VerifYield before every statement, and a seeded
// countdown turns some of those calls into preemptions.

package runtime

const (
	VerifFIFO   = 0 // oldest runnable first, no preemption
	VerifRandom = 1 // uniform choice, geometric preemption
	VerifPCT    = 2 // random priorities, a few priority change points
	VerifLIFO   = 3 // newest runnable first, geometric preemption
	VerifScript = 4 // replay recorded decisions
	VerifMix    = 5 // FIFO, with a uniform choice one time in four
)

const verifQCap = 1 << 14
const verifRecCap = 1 << 20

type VerifConfig struct {
	Mode     int
	Seed     uint64
	Mean     uint64 // mean number of statements between preemptions (0: none)
	CPUs     int    // what the code sees as the number of processors
	MaxSteps uint64 // statements after which the run is declared livelocked
	PCTSteps [8]uint64
	// Script (VerifScript): Preempts are step numbers; PickAt/PickIdx are sparse non-default picks.
	Preempts []uint64
	PickAt   []uint64
	PickIdx  []uint32
}

type VerifStats struct {
	Steps, Preempts, Picks, Choices, Rands uint64
	Hash                                   uint64
	MaxQ                                   int
	Goroutines                             uint64
	Trunc                                  bool
}

var verifOn bool
var verifNoRetake bool
var verifAux uint64
var verifCountdown int64 = 1 << 62
var verifBase uint64 // steps counted at the last reload
var verifLoad int64
var verifRng uint64
var verifRnd uint64
var verifCfg VerifConfig
var verifSt VerifStats
var verifQ [verifQCap]guintptr
var verifQN int
var verifBubble *synctestBubble
var verifRecP []uint64
var verifRecAt []uint64
var verifRecIdx []uint32
var verifScriptP int
var verifScriptPick int
var verifPCTNext int
var verifLowPrio uint64

//go:nosplit
func verifMix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func verifNext() uint64 {
	verifRng += 0x9e3779b97f4a7c15
	return verifMix64(verifRng)
}

//go:nosplit
func verifInBubble() bool {
	gp := getg()
	if gp.bubble != nil {
		return true
	}
	if c := gp.m.curg; c != nil && c.bubble != nil {
		return true
	}
	return false
}

//go:nosplit
func verifRandNext() uint64 {
	verifRnd += 0x9e3779b97f4a7c15
	return verifMix64(verifRnd)
}

// VerifYield is the statement hook of instrumented code.
func VerifYield() {
	verifCountdown--
	if verifCountdown < 0 {
		verifYieldSlow()
	}
}

//go:noinline
func verifYieldSlow() {
	gp := getg()
	if !verifOn || gp.bubble == nil || gp.m.locks != 0 || gp.m.curg != gp {
		if !verifOn {
			verifCountdown = 1 << 62
		} else {
			verifCountdown = 0
		}
		return
	}
	step := verifBase + uint64(verifLoad)
	verifBase = step
	if step >= verifCfg.MaxSteps {
		verifOn = false
		print("\nVERIF-STEP-BUDGET steps=", step, "\n")
		traceback(^uintptr(0), ^uintptr(0), 0, gp)
		print("\n")
		goroutineheader(gp)
		tracebackothers(gp)
		exit(77)
	}
	yield := false
	switch verifCfg.Mode {
	case VerifRandom, VerifLIFO, VerifMix:
		yield = true
	case VerifPCT:
		for verifPCTNext < len(verifCfg.PCTSteps) && step >= verifCfg.PCTSteps[verifPCTNext] {
			verifPCTNext++
			verifLowPrio--
			gp.verifPrio = verifLowPrio
			yield = true
		}
	case VerifScript:
		for verifScriptP < len(verifCfg.Preempts) && verifCfg.Preempts[verifScriptP] <= step {
			if verifCfg.Preempts[verifScriptP] == step {
				yield = true
			}
			verifScriptP++
		}
	}
	if yield && verifQN > 0 {
		verifSt.Preempts++
		verifSt.Hash = verifMix64(verifSt.Hash ^ step)
		if len(verifRecP) < cap(verifRecP) {
			verifRecP = append(verifRecP, step)
		} else {
			verifSt.Trunc = true
		}
		verifReload(step)
		mcall(gosched_m)
		return
	}
	verifReload(step)
}

func verifReload(step uint64) {
	var n uint64
	switch verifCfg.Mode {
	case VerifRandom, VerifLIFO, VerifMix:
		if verifCfg.Mean == 0 {
			n = verifCfg.MaxSteps
		} else {
			// heavy-tailed interval: 1..~Mean*4, half of them short
			r := verifNext()
			m := verifCfg.Mean
			if r&3 == 0 {
				m = 1 + m/8
			} else if r&15 == 1 {
				m = m * 6
			}
			n = 1 + (r>>8)%(2*m)
		}
	case VerifPCT:
		n = verifCfg.MaxSteps
		if verifPCTNext < len(verifCfg.PCTSteps) {
			n = verifCfg.PCTSteps[verifPCTNext] - step
		}
	case VerifScript:
		n = verifCfg.MaxSteps
		for verifScriptP < len(verifCfg.Preempts) && verifCfg.Preempts[verifScriptP] <= step {
			verifScriptP++
		}
		if verifScriptP < len(verifCfg.Preempts) {
			n = verifCfg.Preempts[verifScriptP] - step
		}
	default:
		n = verifCfg.MaxSteps
	}
	if n == 0 {
		n = 1
	}
	if step+n > verifCfg.MaxSteps {
		n = verifCfg.MaxSteps - step
		if step >= verifCfg.MaxSteps {
			n = 0
		}
	}
	verifLoad = int64(n)
	verifCountdown = int64(n) - 1
}

// verifPut queues a runnable bubble goroutine; it reports whether it took it.
//
//go:nowritebarrierrec
func verifPut(gp *g) bool {
	if !verifOn || gp.bubble == nil {
		return false
	}
	if gp.verifPrio == 0 {
		verifSt.Goroutines++
		gp.verifPrio = verifNext()>>2 | 1<<62
	}
	if verifQN >= verifQCap {
		throw("verif: run queue overflow")
	}
	verifQ[verifQN].set(gp)
	verifQN++
	if verifQN > verifSt.MaxQ {
		verifSt.MaxQ = verifQN
	}
	return true
}

//go:nowritebarrierrec
func verifGet() *g {
	n := verifQN
	if n == 0 {
		return nil
	}
	i := 0
	pick := verifSt.Picks
	verifSt.Picks++
	if verifCfg.Mode == VerifScript {
		for verifScriptPick < len(verifCfg.PickAt) && verifCfg.PickAt[verifScriptPick] <= pick {
			if verifCfg.PickAt[verifScriptPick] == pick {
				i = int(verifCfg.PickIdx[verifScriptPick]) % n
			}
			verifScriptPick++
		}
	}
	if n > 1 {
		verifSt.Choices++
		switch verifCfg.Mode {
		case VerifRandom:
			i = int(verifNext() % uint64(n))
		case VerifLIFO:
			i = n - 1
			if verifNext()&7 == 0 {
				i = int(verifNext() % uint64(n))
			}
		case VerifMix:
			if r := verifNext(); r&3 == 0 {
				i = int((r >> 8) % uint64(n))
			}
		case VerifPCT:
			for j := 1; j < n; j++ {
				if verifQ[j].ptr().verifPrio > verifQ[i].ptr().verifPrio {
					i = j
				}
			}
		}
		verifSt.Hash = verifMix64(verifSt.Hash ^ uint64(i)<<32 ^ uint64(n) ^ 0xabcdef)
		if i != 0 {
			if len(verifRecAt) < cap(verifRecAt) {
				k := len(verifRecAt)
				verifRecAt = verifRecAt[:k+1]
				verifRecIdx = verifRecIdx[:k+1]
				verifRecAt[k] = pick
				verifRecIdx[k] = uint32(i)
			} else {
				verifSt.Trunc = true
			}
		}
	}
	gp := verifQ[i].ptr()
	for j := i; j < n-1; j++ {
		verifQ[j] = verifQ[j+1]
	}
	verifQN = n - 1
	verifQ[verifQN] = 0
	return gp
}

// VerifSingle turns off every source of involuntary thread switching for the rest of the process.
func VerifSingle() { verifNoRetake = true }

// VerifStart arms the simulator for the next synctest bubble.
func VerifStart(c VerifConfig) {
	if verifRecP == nil {
		verifRecP = make([]uint64, 0, verifRecCap)
		verifRecAt = make([]uint64, 0, verifRecCap)
		verifRecIdx = make([]uint32, 0, verifRecCap)
	}
	if gomaxprocs != 1 {
		throw("verif: GOMAXPROCS must be 1")
	}
	verifRecP = verifRecP[:0]
	verifRecAt = verifRecAt[:0]
	verifRecIdx = verifRecIdx[:0]
	verifCfg = c
	verifSt = VerifStats{}
	verifRng = verifMix64(c.Seed + 1)
	verifRnd = verifMix64(c.Seed ^ 0x5851f42d4c957f2d)
	verifScriptP, verifScriptPick, verifPCTNext = 0, 0, 0
	verifLowPrio = 1 << 61
	verifQN = 0
	verifBase = 0
	verifLoad = 0
	verifOn = true
	verifReload(0)
}

// VerifStop disarms the simulator and returns what happened.
func VerifStop() VerifStats {
	verifSt.Steps = verifBase + uint64(verifLoad) - uint64(verifCountdown) - 1
	verifOn = false
	verifCountdown = 1 << 62
	verifSt.Rands = verifRnd
	return verifSt
}

// VerifSteps is the number of instrumented statements executed so far: the simulator's global step clock.
func VerifSteps() uint64 {
	if !verifOn {
		return 0
	}
	return verifBase + uint64(verifLoad) - uint64(verifCountdown) - 1
}

// VerifRecorded returns the recorded schedule of the last run.
func VerifRecorded() (preempts []uint64, pickAt []uint64, pickIdx []uint32) {
	return verifRecP, verifRecAt, verifRecIdx
}

// VerifGoid is the id of the calling goroutine.
func VerifGoid() uint64 { return getg().goid }
