package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/pb33f/libopenapi/datamodel"
	"github.com/pb33f/libopenapi/orderedmap"

	"verifsim/harness"
	"verifsim/simrt"
)

// Property pipelines: the parallel collection helpers behave as their sequential meaning.

type pipeItem struct {
	Act   int `json:"a,omitempty"` // 0 ok 1 continue 2 error 3 EOF
	Delay int `json:"d,omitempty"` // virtual microseconds
	Cons  int `json:"c,omitempty"` // consumer: 0 ok 1 error 2 EOF
	CDel  int `json:"e,omitempty"`
	PDel  int `json:"p,omitempty"` // producer pause before the item
	Nest  int `json:"n,omitempty"` // nested parallel call of this size
}

type pipeCase struct {
	Kind   string     `json:"kind"` // slice map pipeline iterate
	Items  []pipeItem `json:"items"`
	OutBuf int        `json:"out_buf"`
	InBuf  int        `json:"in_buf"`
	NilRes bool       `json:"nil_result,omitempty"`
	Cancel int        `json:"cancel,omitempty"` // iterate: cancel after this many
}

func pdelay(us int) {
	if us > 0 {
		time.Sleep(time.Duration(us) * time.Microsecond)
	}
}

func genPipe(r *simrt.Rand) any {
	c := &pipeCase{Kind: simrt.Pick(r, []string{"slice", "slice", "map", "map", "pipeline", "pipeline", "pipeline", "iterate"}),
		OutBuf: simrt.Pick(r, []int{0, 0, 1, 5, 100}), InBuf: simrt.Pick(r, []int{0, 0, 1, 3, 50}), NilRes: r.P(0.1)}
	n := simrt.Pick(r, []int{0, 1, 5, 15, 16, 17, 18, 20, 33, 40, 60})
	slow := r.P(0.5)
	pe := simrt.Pick(r, []float64{0, 0, 0.02, 0.05, 0.3})
	pc := simrt.Pick(r, []float64{0, 0, 0.02, 0.1})
	pk := simrt.Pick(r, []float64{0, 0, 0.2, 0.6})
	for i := 0; i < n; i++ {
		var it pipeItem
		if slow && r.P(0.5) {
			it.Delay = 1 + r.N(50)
		}
		if r.P(0.1) {
			it.Delay = 1 + r.N(2000)
		}
		if r.P(pk) {
			it.Act = 1
		}
		if r.P(pe) {
			it.Act = 2
			if r.P(0.3) {
				it.Act = 3
			}
		}
		if r.P(pc) {
			it.Cons = 1 + r.N(2)
		}
		if r.P(0.1) {
			it.CDel = 1 + r.N(300)
		}
		if r.P(0.1) {
			it.PDel = 1 + r.N(300)
		}
		if r.P(0.02) {
			it.Nest = simrt.Pick(r, []int{3, 17, 20})
		}
		c.Items = append(c.Items, it)
	}
	c.Cancel = r.N(n + 2)
	return c
}

type tagErr struct {
	what string
	i    int
}

func (t *tagErr) Error() string { return fmt.Sprintf("%s-%d", t.what, t.i) }

func init() {
	harness.Register(&harness.Scenario{
		Name: "pipelines", Property: "C02", Est: 3000,
		New: func() any { return &pipeCase{} },
		Gen: genPipe,
		Run: func(ci any, e *harness.Env) { runPipe(ci.(*pipeCase), e) },
	})
}

func runPipe(c *pipeCase, e *harness.Env) {
	n := len(c.Items)
	started := make([]int, n)
	finished := make([]int, n)
	var delivered []int // consumer history
	inCons := 0
	returned := false
	for _, it := range c.Items {
		if it.Delay > 0 {
			e.Fault("slow-worker")
		}
		if it.CDel > 0 {
			e.Fault("slow-consumer")
		}
		if it.PDel > 0 {
			e.Fault("slow-producer")
		}
		if it.Act > 1 {
			e.Fault("worker-error")
		}
		if it.Cons > 0 {
			e.Fault("consumer-error")
		}
	}
	tr := func(i int) (int, error) {
		if returned {
			e.Fail("late-translate", "item %d translated after the call returned", i)
		}
		started[i]++
		it := c.Items[i]
		if it.Nest > 0 {
			in := make([]int, it.Nest)
			next := 0
			_ = datamodel.TranslateSliceParallel(in, func(k int, _ int) (int, error) { pdelay(it.Delay); return k, nil }, func(k int) error {
				if k != next {
					e.Fail("nested-order", "nested call delivered %d, want %d", k, next)
				}
				next++
				return nil
			})
			if next != it.Nest {
				e.Fail("nested-lost", "nested call delivered %d of %d", next, it.Nest)
			}
		}
		pdelay(it.Delay)
		finished[i]++
		switch it.Act {
		case 1:
			return i, datamodel.Continue
		case 2:
			return i, &tagErr{"translate", i}
		case 3:
			return i, io.EOF
		}
		return i, nil
	}
	res := func(i int) error {
		if returned {
			e.Fail("late-result", "result %d delivered after the call returned", i)
		}
		inCons++
		if inCons > 1 {
			e.Fail("concurrent-result", "two results delivered at once")
		}
		delivered = append(delivered, i)
		pdelay(c.Items[i].CDel)
		inCons--
		switch c.Items[i].Cons {
		case 1:
			return &tagErr{"result", i}
		case 2:
			return io.EOF
		}
		return nil
	}
	// sequential reference
	var want []int
	var wantErr error
	mapKind := c.Kind == "map"
	for i := 0; i < n; i++ {
		it := c.Items[i]
		if it.Act == 1 && !mapKind {
			continue
		}
		if it.Act == 1 {
			wantErr = datamodel.Continue
			break
		}
		if it.Act == 2 {
			wantErr = &tagErr{"translate", i}
			break
		}
		if it.Act == 3 {
			if c.Kind == "pipeline" {
				wantErr = io.EOF
			}
			break
		}
		if c.NilRes && c.Kind == "slice" {
			continue
		}
		want = append(want, i)
		if c.Kind == "pipeline" {
			continue
		}
		if it.Cons == 1 {
			wantErr = &tagErr{"result", i}
			break
		}
		if it.Cons == 2 {
			break
		}
	}
	same := func(got error) bool {
		if (got == nil) != (wantErr == nil) {
			return false
		}
		if got == nil {
			return true
		}
		return got.Error() == wantErr.Error()
	}
	var err error
	switch c.Kind {
	case "slice":
		in := make([]int, n)
		for i := range in {
			in[i] = i * 7
		}
		e.Sim(func() {
			var rf datamodel.ActionFunc[int]
			if !c.NilRes {
				rf = res
			}
			err = datamodel.TranslateSliceParallel(in, func(i int, v int) (int, error) {
				if v != i*7 {
					e.Fail("wrong-item", "index %d got value %d", i, v)
				}
				return tr(i)
			}, rf)
			returned = true
		})
	case "map":
		m := orderedmap.New[string, int]()
		for i := 0; i < n; i++ {
			m.Set(fmt.Sprintf("k%d", (i*37)%1009), i)
		}
		e.Sim(func() {
			err = datamodel.TranslateMapParallel(m, func(p orderedmap.Pair[string, int]) (int, error) {
				if p.Key() != fmt.Sprintf("k%d", (p.Value()*37)%1009) {
					e.Fail("wrong-item", "pair %s has value %d", p.Key(), p.Value())
				}
				return tr(p.Value())
			}, res)
			returned = true
		})
	case "pipeline":
		runPipeline(c, e, tr, &delivered, &err)
		returned = true
		if e.Failed() {
			return
		}
		anyErr := false
		for _, it := range c.Items {
			anyErr = anyErr || it.Act >= 2
		}
		if !anyErr {
			if err != nil {
				e.Fail("spurious-error", "no item failed but the call returned %v", err)
			}
			if fmt.Sprint(delivered) != fmt.Sprint(want) {
				e.Fail("lost-or-reordered", "delivered %v, want %v", delivered, want)
			}
			checkCounts(e, started, true)
			return
		}
		// With a failing item: the call reports an error of an item that ran and failed, and what was
		// delivered is a prefix of the sequential output.
		if err == nil {
			e.Fail("error-lost", "an item failed but the call returned nil; delivered %v", delivered)
			return
		}
		ok := false
		for i, it := range c.Items {
			if finished[i] > 0 && ((it.Act == 2 && err.Error() == (&tagErr{"translate", i}).Error()) || (it.Act == 3 && errors.Is(err, io.EOF))) {
				ok = true
			}
		}
		if !ok {
			e.Fail("wrong-error", "returned %v, which no item that ran had produced", err)
		}
		for k, d := range delivered {
			if k >= len(want) || want[k] != d {
				e.Fail("lost-or-reordered", "delivered %v is not a prefix of %v", delivered, want)
				break
			}
		}
		checkCounts(e, started, false)
		return
	case "iterate":
		m := orderedmap.New[string, int]()
		for i := 0; i < n; i++ {
			m.Set(fmt.Sprintf("k%d", (i*37)%1009), i)
		}
		got := 0
		e.Sim(func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			for p := range orderedmap.Iterate(ctx, m) {
				if got < n {
					pdelay(c.Items[got].CDel)
				}
				if p.Value() != got || p.Key() != fmt.Sprintf("k%d", (got*37)%1009) {
					e.Fail("iterate-order", "position %d yielded %s=%d", got, p.Key(), p.Value())
					return
				}
				got++
				if got == c.Cancel {
					e.Fault("consumer-cancel")
					return
				}
			}
			if got != n {
				e.Fail("iterate-lost", "iteration ended after %d of %d", got, n)
			}
		})
		return
	}
	if e.Failed() {
		return
	}
	if !same(err) {
		e.Fail("wrong-error", "%s: returned %v, sequential execution returns %v", c.Kind, err, wantErr)
	}
	if fmt.Sprint(delivered) != fmt.Sprint(want) {
		e.Fail("lost-or-reordered", "%s: delivered %v, want %v", c.Kind, delivered, want)
	}
	checkCounts(e, started, wantErr == nil && len(want) == n)
	for i := range started {
		if started[i] != finished[i] {
			e.Fail("unfinished", "%s: item %d was still being translated when the call returned", c.Kind, i)
		}
	}
}

func checkCounts(e *harness.Env, started []int, all bool) {
	for i, s := range started {
		if s > 1 {
			e.Fail("translated-twice", "item %d was translated %d times", i, s)
		}
		if all && s == 0 {
			e.Fail("not-translated", "item %d was never translated", i)
		}
	}
}

func runPipeline(c *pipeCase, e *harness.Env, tr func(int) (int, error), delivered *[]int, err *error) {
	e.Sim(func() {
		in := make(chan int, c.InBuf)
		out := make(chan int, c.OutBuf)
		stop := make(chan struct{})
		go func() {
			defer close(in)
			for i := range c.Items {
				pdelay(c.Items[i].PDel)
				select {
				case in <- i:
				case <-stop:
					return
				}
			}
		}()
		cd := make(chan struct{})
		go func() {
			defer close(cd)
			for v := range out {
				if v < 0 || v >= len(c.Items) {
					e.Fail("wrong-item", "pipeline delivered %d", v)
					return
				}
				*delivered = append(*delivered, v)
				pdelay(c.Items[v].CDel)
			}
		}()
		*err = datamodel.TranslatePipeline[int, int](in, out, tr)
		close(stop)
		<-cd
	})
}
