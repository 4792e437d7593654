package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/arazzo"
	"go.yaml.in/yaml/v4"

	"verifsim/doc"
	"verifsim/harness"
	"verifsim/simrt"
)

// Property arazzo: what the Arazzo engine does (requests, waits, outcomes, values, durations) is what
// a reference interpreter with value semantics and a model clock does, whatever the executor, the
// clock and the caller's context do, and whatever else runs over the same document.

type azResp struct {
	Status  int               `json:"status"`
	Body    *doc.Node         `json:"body,omitempty"`
	AsNode  bool              `json:"node,omitempty"`
	AsJSON  bool              `json:"json,omitempty"`
	Headers map[string]string `json:"headers,omitempty"`
	URL     string            `json:"url,omitempty"`
	Method  string            `json:"method,omitempty"`
	LatUs   int64             `json:"lat,omitempty"`
	Err     string            `json:"err,omitempty"`
	Honour  bool              `json:"honour,omitempty"`
}

type azRun struct {
	Workflow  string               `json:"wf,omitempty"` // empty: all workflows
	Inputs    map[string]*doc.Node `json:"inputs,omitempty"`
	TimeoutUs int64                `json:"timeout,omitempty"`
	CancelUs  int64                `json:"cancel,omitempty"`
	Clear     bool                 `json:"clear,omitempty"`
	Resps     []*azResp            `json:"resps"`
}

var azDefaultResp = &azResp{Status: 200, URL: "https://x.test/d", Method: "GET", Headers: map[string]string{"X-Id": "abc"},
	Body: doc.M("id", 7, "name", "alice", "flag", true, "f", 1.5, "nothing", nil, "a/b", "slash",
		"obj", doc.M("k", 1, "x", 1, "y", doc.M("z", "orig"), "deep", doc.M("v", 2)), "list", doc.L(doc.M("id", 7, "tag", "red"), doc.M("id", 3, "tag", "blue")))}

func (r *azRun) resp(i int) *azResp {
	if i < len(r.Resps) {
		return r.Resps[i]
	}
	return azDefaultResp
}

type azEngine struct {
	Retain    bool     `json:"retain,omitempty"`
	Sleep     string   `json:"sleep,omitempty"` // "", func
	SleepFail int      `json:"sleepfail,omitempty"`
	NoExec    bool     `json:"noexec,omitempty"`
	Sources   []string `json:"sources,omitempty"`
	Runs      []*azRun `json:"runs"`
}

type azCase struct {
	Doc     *doc.Node   `json:"doc"`
	Engines []*azEngine `json:"engines"`
}

const azLimit = 1500

func (c *azCase) Valid() bool {
	if c.Doc == nil || c.Doc.Kind != doc.Map {
		return false
	}
	ws := c.Doc.Get("workflows")
	if ws == nil || ws.Kind != doc.List || len(ws.Vals) == 0 {
		return false
	}
	ids := map[string]bool{}
	for _, w := range ws.Vals {
		if w.Kind != doc.Map || str(w.Get("workflowId")) == "" || ids[str(w.Get("workflowId"))] {
			return false
		}
		ids[str(w.Get("workflowId"))] = true
		ss := w.Get("steps")
		if ss == nil || ss.Kind != doc.List || len(ss.Vals) == 0 {
			return false
		}
		sids := map[string]bool{}
		for _, s := range ss.Vals {
			if s.Kind != doc.Map || str(s.Get("stepId")) == "" || sids[str(s.Get("stepId"))] {
				return false
			}
			sids[str(s.Get("stepId"))] = true
			if str(s.Get("operationId")) == "" && str(s.Get("operationPath")) == "" && str(s.Get("workflowId")) == "" {
				return false
			}
			if rb := s.Get("requestBody"); rb != nil && (rb.Kind != doc.Map || rb.Get("payload") == nil) {
				return false
			}
		}
	}
	ok := true
	c.Doc.Walk(func(p []string, n *doc.Node) {
		if len(p) == 0 {
			return
		}
		switch k := p[len(p)-1]; k {
		case "steps", "workflows", "onSuccess", "onFailure", "successActions", "failureActions", "criteria", "successCriteria", "dependsOn", "sourceDescriptions":
			if n.Kind != doc.List && !(len(p) > 1 && p[len(p)-2] == "components") {
				ok = false
			}
			for _, v := range n.Vals {
				if v.Kind != doc.Map && k != "dependsOn" {
					ok = false
				}
			}
		}
	})
	if !ok {
		return false
	}
	for _, e := range c.Engines {
		if e == nil {
			return false
		}
		total := 0
		for _, r := range e.Runs {
			if r == nil {
				return false
			}
			for _, x := range r.Resps {
				if x == nil {
					return false
				}
			}
			_, n, over := azRunRef(c.Doc, e, r, azLimit)
			if total += n; over || total > azLimit {
				return false
			}
		}
	}
	return true
}

type azExecError struct{ name string }

func (e *azExecError) Error() string { return "executor: " + e.name }

var errAzSleep = errors.New("sleeper stopped")

func azErrKind(err error) string {
	var sf *arazzo.StepFailureError
	var ex *azExecError
	switch {
	case err == nil:
		return ""
	case errors.As(err, &sf):
		s := fmt.Sprintf("criterion:%s:%d", sf.StepId, sf.CriterionIndex)
		if sf.Cause != nil {
			s += ":cause"
		}
		return s
	case errors.As(err, &ex):
		return "exec:" + ex.name
	case errors.Is(err, errAzSleep):
		return "sleep"
	case errors.Is(err, context.DeadlineExceeded):
		return "deadline"
	case errors.Is(err, context.Canceled):
		return "canceled"
	case errors.Is(err, arazzo.ErrUnresolvedComponent):
		return "component"
	case errors.Is(err, arazzo.ErrUnresolvedWorkflowRef):
		return "workflow"
	case errors.Is(err, arazzo.ErrCircularDependency):
		return "circular"
	case errors.Is(err, arazzo.ErrStepIdNotInWorkflow):
		return "stepid"
	case errors.Is(err, arazzo.ErrExecutorNotConfigured):
		return "noexec"
	}
	return "eval"
}

// azCanon turns a value the engine produced into a plain value of its own.
func azCanon(v any) any {
	switch x := v.(type) {
	case *yaml.Node:
		if x == nil {
			return nil
		}
		var o any
		if err := x.Decode(&o); err != nil {
			return "undecodable node: " + err.Error()
		}
		return azCanon(o)
	case map[string]any:
		m := make(map[string]any, len(x))
		for k, e := range x {
			m[k] = azCanon(e)
		}
		return m
	case map[any]any:
		m := make(map[string]any, len(x))
		for k, e := range x {
			m[fmt.Sprint(k)] = azCanon(e)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = azCanon(e)
		}
		return l
	case []string:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = e
		}
		return l
	}
	return v
}

func azCanonMap(m map[string]any) map[string]any {
	if m == nil {
		return nil
	}
	return azCanon(m).(map[string]any)
}

type azExecutor struct {
	run   *azRun
	start time.Time
	n     int
	res   *azRunRes
	given []*arazzo.ExecutionResponse
	from  []int
	e     *harness.Env
	mu    *sync.Mutex
}

func (x *azExecutor) fault(k string) {
	x.mu.Lock()
	x.e.Fault(k)
	x.mu.Unlock()
}

func (x *azExecutor) Execute(ctx context.Context, req *arazzo.ExecutionRequest) (*arazzo.ExecutionResponse, error) {
	c := &azExec{Op: req.OperationID, Path: req.OperationPath, Params: azCanonMap(req.Parameters), Body: azCanon(req.RequestBody),
		CType: req.ContentType, At: int64(time.Since(x.start)), CtxDone: ctx.Err() != nil}
	if req.Source != nil {
		c.Source = req.Source.Name
	}
	x.res.Calls = append(x.res.Calls, c)
	r := x.run.resp(x.n)
	x.n++
	if r.LatUs > 0 || r.Honour {
		d := time.Duration(r.LatUs) * time.Microsecond
		if r.Honour {
			if r.LatUs > 2_000_000 {
				x.fault("executor-stall")
			}
			t := time.NewTimer(d)
			select {
			case <-ctx.Done():
				t.Stop()
				x.fault("call-cut-by-context")
				return nil, ctx.Err()
			case <-t.C:
			}
		} else {
			if ctx.Done() != nil {
				x.fault("executor-ignores-context")
			}
			time.Sleep(d)
		}
	}
	if r.Err != "" {
		x.fault("executor-error")
		return nil, &azExecError{r.Err}
	}
	if r.Status >= 500 {
		x.fault("error-status")
	}
	resp := &arazzo.ExecutionResponse{StatusCode: r.Status, URL: r.URL, Method: r.Method}
	if len(r.Headers) > 0 {
		resp.Headers = map[string][]string{}
		for k, v := range r.Headers {
			resp.Headers[k] = []string{v, "second"}
		}
	}
	if r.Body != nil {
		switch {
		case r.AsNode:
			var n yaml.Node
			if err := yaml.Unmarshal(r.Body.JSON(), &n); err != nil {
				panic(err)
			}
			resp.Body = &n
		case r.AsJSON:
			var v any
			if err := json.Unmarshal(r.Body.JSON(), &v); err != nil {
				panic(err)
			}
			resp.Body = v
		default:
			resp.Body = azPlain(r.Body)
		}
	}
	x.given = append(x.given, resp)
	x.from = append(x.from, x.n-1)
	return resp, nil
}

func azConvWf(r *arazzo.WorkflowResult) *azWfRes {
	if r == nil {
		return nil
	}
	o := &azWfRes{ID: r.WorkflowId, OK: r.Success, In: azCanonMap(r.Inputs), Out: azCanonMap(r.Outputs), Err: azErrKind(r.Error), Dur: int64(r.Duration)}
	for _, s := range r.Steps {
		o.Steps = append(o.Steps, &azStepRes{ID: s.StepId, OK: s.Success, Code: s.StatusCode, Out: azCanonMap(s.Outputs), Err: azErrKind(s.Error), Dur: int64(s.Duration), Retries: s.Retries})
	}
	return o
}

// azTrim removes what is not settled: the outputs of what failed.
func azTrim(r *azRunRes) {
	for _, w := range r.Wfs {
		if w == nil {
			continue
		}
		if !w.OK {
			w.Out = nil
		}
		for _, s := range w.Steps {
			if !s.OK {
				s.Out = nil
			}
			if len(s.Out) == 0 {
				s.Out = nil
			}
		}
		if len(w.Out) == 0 {
			w.Out = nil
		}
	}
}

func azJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	return string(b)
}

// azDiff names the first part of a run that differs.
func azDiff(got, want *azRunRes) (class, msg string) {
	d := func(k string, a, b any) bool {
		if x, y := azJSON(a), azJSON(b); x != y {
			class, msg = k, fmt.Sprintf("engine: %s\nreference: %s", x, y)
			return true
		}
		return false
	}
	for i := 0; i < len(got.Calls) && i < len(want.Calls); i++ {
		if d("call", got.Calls[i], want.Calls[i]) {
			msg = fmt.Sprintf("request %d differs\n%s", i, msg)
			return
		}
	}
	if len(got.Calls) != len(want.Calls) {
		return "calls", fmt.Sprintf("the engine made %d requests, the reference %d\nengine: %s\nreference: %s", len(got.Calls), len(want.Calls), azJSON(got.Calls), azJSON(want.Calls))
	}
	if d("waits", got.Sleeps, want.Sleeps) || d("error", got.Err, want.Err) || d("success", got.OK, want.OK) {
		return
	}
	if len(got.Wfs) != len(want.Wfs) {
		return "workflows", fmt.Sprintf("engine: %s\nreference: %s", azJSON(got.Wfs), azJSON(want.Wfs))
	}
	for i := range got.Wfs {
		g, w := got.Wfs[i], want.Wfs[i]
		if g == nil {
			return "workflows", "nil workflow result"
		}
		for j := 0; j < len(g.Steps) && j < len(w.Steps); j++ {
			if d("step", g.Steps[j], w.Steps[j]) {
				msg = fmt.Sprintf("workflow %s, step result %d differs\n%s", g.ID, j, msg)
				return
			}
		}
		if d("workflow", g, w) {
			msg = fmt.Sprintf("result of workflow %s differs\n%s", g.ID, msg)
			return
		}
	}
	d("duration", got.Dur, want.Dur)
	return
}

func runArazzo(c *azCase, e *harness.Env) {
	src := c.Doc.YAML()
	type engRes struct {
		runs   []*azRunRes
		mutant string
		retain string
	}
	res := make([]engRes, len(c.Engines))
	var mu sync.Mutex
	var openErr string
	o := e.Sim(func() {
		d, err := libopenapi.NewArazzoDocument(src)
		if err != nil {
			openErr = err.Error()
			return
		}
		before, err := d.Render()
		if err != nil {
			openErr = "render: " + err.Error()
			return
		}
		var wg sync.WaitGroup
		for i, ec := range c.Engines {
			wg.Add(1)
			go func() {
				defer wg.Done()
				out := &res[i]
				var srcs []*arazzo.ResolvedSource
				for _, n := range ec.Sources {
					srcs = append(srcs, &arazzo.ResolvedSource{Name: n, URL: "https://" + n + ".example.com", Type: "openapi"})
				}
				x := &azExecutor{e: e, mu: &mu}
				cfg := &arazzo.EngineConfig{RetainResponseBodies: ec.Retain}
				slept := 0
				var cur *azRunRes
				if ec.Sleep == "func" {
					cfg.SleepFunc = func(_ context.Context, d time.Duration) error {
						slept++
						cur.Sleeps = append(cur.Sleeps, fmt.Sprint(int64(d)))
						time.Sleep(d)
						if ec.SleepFail > 0 && slept == ec.SleepFail {
							x.fault("sleeper-error")
							return errAzSleep
						}
						return nil
					}
				}
				var exec arazzo.Executor = x
				if ec.NoExec {
					exec = nil
				}
				eng := arazzo.NewEngineWithConfig(d, exec, srcs, cfg)
				for _, rc := range ec.Runs {
					if rc.Clear {
						eng.ClearCaches()
					}
					cur = &azRunRes{}
					slept = 0
					ctx := context.Background()
					stop := func() {}
					if rc.TimeoutUs > 0 {
						ctx, stop = context.WithTimeout(ctx, time.Duration(rc.TimeoutUs)*time.Microsecond)
					}
					if rc.CancelUs > 0 {
						var cancel context.CancelFunc
						ctx, cancel = context.WithCancel(ctx)
						t := time.AfterFunc(time.Duration(rc.CancelUs)*time.Microsecond, cancel)
						old := stop
						stop = func() { t.Stop(); cancel(); old() }
					}
					ins := map[string]map[string]any{}
					for id, n := range rc.Inputs {
						if n != nil && n.Kind == doc.Map {
							ins[id] = azPlain(n).(map[string]any)
						}
					}
					wantIns := azJSON(ins)
					*x = azExecutor{e: e, mu: &mu, run: rc, start: time.Now(), res: cur}
					if rc.Workflow != "" {
						r, err := eng.RunWorkflow(ctx, rc.Workflow, ins[rc.Workflow])
						cur.Err = azErrKind(err)
						if err == nil {
							cur.OK = r.Success
							cur.Wfs = []*azWfRes{azConvWf(r)}
						}
					} else {
						r, err := eng.RunAll(ctx, ins)
						cur.Err = azErrKind(err)
						if err == nil {
							cur.OK = r.Success
							for _, w := range r.Workflows {
								cur.Wfs = append(cur.Wfs, azConvWf(w))
							}
							if int64(r.Duration) != int64(time.Since(x.start)) {
								out.mutant = fmt.Sprintf("the run took %v but reports %v", time.Since(x.start), r.Duration)
							}
						}
					}
					cur.Dur = int64(time.Since(x.start))
					stop()
					if got := azJSON(azCanon(anyMap(ins))); got != wantIns && out.mutant == "" {
						out.mutant = fmt.Sprintf("the caller's inputs changed during the run\nbefore: %s\nafter:  %s", wantIns, got)
					}
					for k, r := range x.given {
						want := azPlain(rc.resp(x.from[k]).Body)
						if ec.Retain && azJSON(azCanon(r.Body)) != azJSON(want) {
							out.retain = fmt.Sprintf("bodies are retained but response %d now has the body %s instead of %s", x.from[k], azJSON(azCanon(r.Body)), azJSON(want))
						}
						if !ec.Retain && r.Body != nil {
							out.retain = fmt.Sprintf("bodies are not retained but response %d still has one", x.from[k])
						}
					}
					out.runs = append(out.runs, cur)
				}
			}()
		}
		wg.Wait()
		after, err := d.Render()
		if err != nil || !bytes.Equal(before, after) {
			openErr = fmt.Sprintf("the document changed while engines ran over it (%v)\nbefore:\n%s\nafter:\n%s", err, before, after)
		}
	})
	_ = o
	if e.Failed() {
		return
	}
	if openErr != "" {
		e.Fail("document", "%s", openErr)
		return
	}
	for i, ec := range c.Engines {
		if len(res[i].runs) != len(ec.Runs) {
			e.Fail("lost-run", "engine %d finished %d of %d runs", i, len(res[i].runs), len(ec.Runs))
			return
		}
		for k, rc := range ec.Runs {
			want, _, _ := azRunRef(c.Doc, ec, rc, azLimit)
			got := res[i].runs[k]
			azTrim(want)
			azTrim(got)
			if rc.CancelUs > 0 || rc.TimeoutUs > 0 {
				if want.Dur >= minPos(rc.CancelUs, rc.TimeoutUs)*1000 {
					e.Fault("context-ended-mid-run")
				}
			}
			e.Probe("runs")
			e.Probes["requests"] += len(want.Calls)
			if class, msg := azDiff(got, want); class != "" {
				e.Fail(class, "engine %d run %d (%s): %s", i, k, rc.Workflow, msg)
				return
			}
			e.Digest(azJSON(got))
		}
		if res[i].mutant != "" {
			e.Fail("side-effect", "engine %d: %s", i, res[i].mutant)
			return
		}
		if res[i].retain != "" {
			e.Fail("retain", "engine %d: %s", i, res[i].retain)
			return
		}
	}
}

func anyMap(m map[string]map[string]any) map[string]any {
	o := map[string]any{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func minPos(a, b int64) int64 {
	if a <= 0 || b > 0 && b < a {
		return b
	}
	return a
}

// ---- generator

type azGen struct {
	r     *simrt.Rand
	nwf   int
	steps []int
	wi    int
	si    int
	comp  bool
	loops bool
	sc    []string // scalar outputs and inputs of the steps before this one
	ob    []string // containers
	subs  []int    // workflows already called by a step of this workflow
	wild  float64  // how often an expression may name something that is not there
	req   []string // what this step's request holds
	old   []string // what the requests of the steps before it held
	gotos []int    // workflows an action of this workflow may end in
	wsc   map[int][]string
}

func (g *azGen) bad() bool { return g.r.P(g.wild) }

func (g *azGen) step() string {
	n := g.steps[g.wi]
	if g.si > 0 && g.r.P(0.85) {
		return fmt.Sprintf("s%d", g.r.N(g.si))
	}
	return fmt.Sprintf("s%d", g.r.N(n))
}

// scalar expressions usable before the response is there
func (g *azGen) preScalar() string {
	r := g.r
	if !g.bad() {
		switch r.N(8) {
		case 0:
			return simrt.Pick(r, []string{"$inputs.n", "$inputs.A"})
		case 1:
			return simrt.Pick(r, []string{"$inputs.flag", "$statusCode", "$url", "$method", "$sourceDescriptions.alpha.url"})
		case 2:
			if g.comp {
				return "$components.inputs.cfg.limit"
			}
		case 3, 4, 5:
			if len(g.sc) > 0 {
				return simrt.Pick(r, g.sc)
			}
		case 6:
			if len(g.subs) > 0 {
				w := simrt.Pick(r, g.subs)
				if r.P(0.2) {
					return fmt.Sprintf("$workflows.w%d.inputs.a", w)
				}
				if l := g.wsc[w]; len(l) > 0 {
					return simrt.Pick(r, l)
				}
			}
		}
		return "$inputs.a"
	}
	if len(g.old) > 0 && r.P(0.15) {
		return simrt.Pick(r, g.old)
	}
	switch r.N(13) {
	case 0, 1:
		return simrt.Pick(r, []string{"$inputs.a", "$inputs.A"})
	case 2:
		return simrt.Pick(r, []string{"$inputs.n", "$inputs.N"})
	case 3:
		return "$inputs.flag"
	case 4, 5, 6:
		return "$steps." + g.step() + ".outputs." + simrt.Pick(r, []string{"o0", "o1", "O0"})
	case 7:
		return "$steps." + g.step() + ".inputs." + simrt.Pick(r, []string{"p0", "p1"})
	case 8:
		return fmt.Sprintf("$workflows.w%d.outputs.%s", r.N(g.nwf), simrt.Pick(r, []string{"r0", "r1"}))
	case 9:
		return fmt.Sprintf("$workflows.w%d.inputs.a", r.N(g.nwf))
	case 10:
		if g.comp {
			return "$components.inputs.cfg.limit"
		}
		return "$inputs.a"
	case 11:
		return simrt.Pick(r, []string{"$sourceDescriptions.alpha.url", "$sourceDescriptions.beta.url"})
	default:
		return simrt.Pick(r, []string{"$statusCode", "$url", "$method"})
	}
}

func (g *azGen) preObj() string {
	r := g.r
	if !g.bad() {
		if len(g.ob) > 0 && r.Bool() {
			return simrt.Pick(r, g.ob)
		}
		return "$inputs.obj"
	}
	switch r.N(6) {
	case 0, 1, 2:
		return "$inputs.obj"
	case 3:
		return fmt.Sprintf("$workflows.w%d.outputs.rb", r.N(g.nwf))
	default:
		return "$steps." + g.step() + ".outputs.ob"
	}
}

// scalar expressions once the response is there
func (g *azGen) postScalar() string {
	r := g.r
	if !g.bad() {
		switch r.N(6) {
		case 0, 1:
			return "$response.body#/" + simrt.Pick(r, []string{"id", "name", "flag", "f", "nothing", "obj/k", "list/0/id", "a~1b"})
		case 2:
			return simrt.Pick(r, []string{"$statusCode", "$url", "$method", "$response.header.X-Id"})
		case 3:
			if len(g.req) > 0 {
				return simrt.Pick(r, g.req)
			}
		}
		return g.preScalar()
	}
	if len(g.old) > 0 && r.P(0.15) {
		return simrt.Pick(r, g.old)
	}
	switch r.N(12) {
	case 0, 1, 2:
		return "$response.body#/" + simrt.Pick(r, []string{"id", "name", "flag", "f", "nothing", "obj/k", "obj/deep/v", "list/0/id", "list/1/tag", "nothing/x", "a~1b"})
	case 3:
		return "$response.header." + simrt.Pick(r, []string{"X-Id", "Location"})
	case 4, 5:
		return "$statusCode"
	case 6:
		return "$request." + simrt.Pick(r, []string{"header.p0", "query.p1", "path.p2", "query.p0", "header.p3"})
	case 7:
		return "$request.body#/" + simrt.Pick(r, []string{"name", "x", "y/z", "wrap/x", "nested/v"})
	case 8:
		return simrt.Pick(r, []string{"$url", "$method"})
	default:
		return g.preScalar()
	}
}

func (g *azGen) postObj() string {
	if !g.bad() {
		return simrt.Pick(g.r, []string{"$response.body", "$response.body#/obj", "$response.body#/list", g.preObj()})
	}
	switch g.r.N(6) {
	case 0, 1:
		return "$response.body"
	case 2:
		return "$response.body#/" + simrt.Pick(g.r, []string{"obj", "list", "obj/deep", "list/0"})
	case 3:
		return "$request.body"
	default:
		return g.preObj()
	}
}

func (g *azGen) scalarVal(pre bool) any {
	r := g.r
	switch r.N(10) {
	case 0:
		return r.N(9)
	case 1:
		return simrt.Pick(r, []string{"x", "hello", "5"})
	case 2:
		return r.Bool()
	case 3:
		return "x-{" + g.preScalar() + "}-{" + g.preScalar() + "}"
	case 4:
		return "{" + g.preScalar() + "}"
	default:
		if pre {
			return g.preScalar()
		}
		return g.postScalar()
	}
}

func (g *azGen) criterion(pre bool) *doc.Node {
	r := g.r
	sc := g.postScalar
	switch r.N(16) {
	case 12:
		return doc.M("context", "$response.body", "condition", simrt.Pick(r, []string{"$.id", "$.obj.deep.v", "$.list[0].id", "$.list[?(@.id == 7)]"}), "type", "jsonpath")
	case 0, 1, 2, 3, 4, 13, 14, 15:
		return doc.M("condition", "$statusCode "+simrt.Pick(r, []string{"== 200", "== 200", "< 400", "!= 500", ">= 200", "== 503"}))
	case 5:
		return doc.M("condition", sc()+" "+simrt.Pick(r, []string{"==", "!="})+" "+simrt.Pick(r, []string{"7", "'alice'", "true", `"x"`, g.preScalar()}))
	case 6:
		return doc.M("condition", simrt.Pick(r, []string{"true", "true", "false", "$inputs.flag", "$response.body#/flag"}))
	case 7:
		return doc.M("context", sc(), "condition", simrt.Pick(r, []string{"7", "alice", "200", "true"}))
	case 8:
		return doc.M("context", simrt.Pick(r, []string{"$statusCode", "$response.body#/name", "$response.header.X-Id", g.preScalar()}), "condition", simrt.Pick(r, []string{`^2\d\d$`, "^[a-z]+$", "^ab?", ".", `^\D+$`, "^[A-Za-z]+$", `^\S+$`}), "type", "regex")
	case 9:
		return doc.M("context", "$response.body", "condition", simrt.Pick(r, []string{"^ok$", "^ok$", "^never$"}), "type", "regex")
	default:
		var t any = "jsonpath"
		if r.P(0.3) {
			t = doc.M("type", "jsonpath", "version", "draft-goessner-dispatch-jsonpath-00")
		}
		return doc.M("context", g.postObj(), "condition", simrt.Pick(r, []string{"$.id", "$.obj.deep", "$.list[0]", "$.list[?(@.id == 7)]", "$[?(@.id > 2)]", "$.list[?(@.tag == 'red')]", "$.nothing", "$"}), "type", t)
	}
}

func (g *azGen) criteria(max int) *doc.Node {
	l := doc.L()
	for i := g.r.N(max + 1); i > 0; i-- {
		l.Add(g.criterion(false))
	}
	return l
}

func (g *azGen) action(failure bool, name string) *doc.Node {
	r := g.r
	if g.comp && r.P(0.12) {
		if failure {
			return doc.M("reference", "$components.failureActions."+simrt.Pick(r, []string{"again", "again", "giveUp", "missing"}))
		}
		return doc.M("reference", "$components.successActions."+simrt.Pick(r, []string{"done", "done", "missing"}))
	}
	n := doc.M("name", name)
	k := r.N(10)
	switch {
	case failure && k < 6:
		n.Set("type", "retry")
		if r.P(0.7) {
			n.Set("retryAfter", simrt.Pick(r, []any{1, 2, 0, doc.V(0.5), doc.V(1.25), doc.V(0.002), 30}))
		}
		if r.P(0.8) {
			n.Set("retryLimit", simrt.Pick(r, []any{1, 2, 3, 5, 0}))
		}
	case k < 8:
		n.Set("type", "goto")
		switch {
		case r.P(0.15):
			t := r.N(g.nwf)
			n.Set("workflowId", fmt.Sprintf("w%d", t))
			g.gotos = append(g.gotos, t)
		case r.P(0.06):
			n.Set("stepId", "nowhere")
		case r.P(0.04):
			n.Set("workflowId", "nowhere")
		default:
			j := r.N(g.steps[g.wi])
			if !g.loops && j <= g.si {
				j = g.steps[g.wi] - 1
			}
			n.Set("stepId", fmt.Sprintf("s%d", j))
		}
	default:
		n.Set("type", "end")
	}
	if r.P(0.6) {
		if c := g.criteria(2); c.Len() > 0 {
			n.Set("criteria", c)
		}
	}
	return n
}

func (g *azGen) actions(failure bool, p float64) *doc.Node {
	l := doc.L()
	for i := 0; g.r.P(p) && i < 3; i++ {
		l.Add(g.action(failure, fmt.Sprintf("a%d", i)))
	}
	return l
}

func (g *azGen) genStep() *doc.Node {
	r := g.r
	s := doc.M("stepId", fmt.Sprintf("s%d", g.si))
	g.old = append(g.old, g.req...)
	g.req = nil
	sub := g.nwf > 1 && r.P(0.22)
	if sub {
		t := r.N(g.nwf)
		if !g.loops && t <= g.wi && g.wi+1 < g.nwf {
			t = g.wi + 1 + r.N(g.nwf-g.wi-1)
		}
		if r.P(0.03) {
			t = 99
		}
		s.Set("workflowId", fmt.Sprintf("w%d", t))
		g.subs = append(g.subs, t)
	} else if r.P(0.3) {
		s.Set("operationPath", simrt.Pick(r, []string{"{$sourceDescriptions.beta.url}#/paths/~1pets/get", "{$sourceDescriptions.alpha.url}#/paths/~1pets/post", "#/paths/~1pets/get", "{$sourceDescriptions.gamma.url}#/paths/~1a/get"}))
	} else {
		s.Set("operationId", fmt.Sprintf("op%d", r.N(4)))
	}
	ps := doc.L()
	if sub {
		for _, n := range []string{"a", "n", "flag", "obj"} {
			if r.P(0.75) {
				v := any(g.preScalar())
				if n == "obj" {
					v = g.preObj()
					if r.Bool() {
						v = doc.M("x", g.scalarVal(true), "y", doc.M("z", 1))
					}
				} else if r.P(0.3) {
					v = g.scalarVal(true)
				}
				ps.Add(doc.M("name", n, "value", v))
			}
		}
	} else {
		for i, in := range []string{"header", "query", "path", "cookie"} {
			if r.P(0.3) {
				if g.comp && r.P(0.2) {
					p := doc.M("reference", "$components.parameters."+simrt.Pick(r, []string{"page", "token", "token", "nope"}))
					if r.P(0.4) {
						p.Set("value", g.scalarVal(true))
					}
					ps.Add(p)
					continue
				}
				ps.Add(doc.M("name", fmt.Sprintf("p%d", i), "in", in, "value", g.scalarVal(true)))
				if in != "cookie" {
					g.req = append(g.req, fmt.Sprintf("$request.%s.p%d", in, i))
				}
			}
		}
		if r.P(0.35) {
			var pay any
			switch r.N(6) {
			case 0, 1:
				pay = g.preObj()
			case 2:
				pay = doc.M("wrap", g.preObj(), "name", g.scalarVal(true))
			case 3:
				pay = g.scalarVal(true)
			case 4:
				pay = doc.L(g.scalarVal(true), doc.M("id", 1))
			default:
				pay = doc.M("name", g.scalarVal(true), "nested", doc.M("v", g.scalarVal(true), "l", doc.L(1, g.scalarVal(true))), "x", nil)
			}
			rb := doc.M("contentType", "application/json", "payload", pay)
			if r.P(0.5) {
				l := doc.L()
				for i := r.Range(1, 3); i > 0; i-- {
					v := any(g.scalarVal(true))
					t := simrt.Pick(r, []string{"/x", "/y/z", "/wrap/x", "/new/deep", "/new", "/name", "/a~1b", "/wrap", "/wrap/y/z"})
					if r.P(0.3) && t != "/name" {
						v = g.preObj()
					}
					l.Add(doc.M("target", t, "value", v))
				}
				rb.Set("replacements", l)
			}
			s.Set("requestBody", rb)
			if n, ok := pay.(*doc.Node); ok && n.Kind == doc.Map {
				g.req = append(g.req, "$request.body#/name")
			}
		}
	}
	if ps.Len() > 0 {
		s.Set("parameters", ps)
	}
	if r.P(0.7) && (!sub || r.P(0.2)) {
		if c := g.criteria(2); c.Len() > 0 {
			s.Set("successCriteria", c)
		}
	}
	if l := g.actions(false, 0.2); l.Len() > 0 {
		s.Set("onSuccess", l)
	}
	if l := g.actions(true, 0.5); l.Len() > 0 {
		s.Set("onFailure", l)
	}
	o := doc.M()
	for _, n := range []string{"o0", "o1", "O0"} {
		if r.P(0.6) && (n != "O0" || r.P(0.3)) {
			v := g.postScalar
			if sub {
				v = g.preScalar
			}
			x := v()
			if r.P(0.1) {
				x = "v:{" + v() + "}"
			}
			o.Set(n, x)
		}
	}
	if r.P(0.5) {
		if sub {
			o.Set("ob", g.preObj())
		} else {
			o.Set("ob", g.postObj())
		}
	}
	if o.Len() > 0 {
		s.Set("outputs", o)
	}
	pre := fmt.Sprintf("$steps.s%d.", g.si)
	for _, k := range o.Keys {
		if k == "ob" {
			g.ob = append(g.ob, pre+"outputs.ob")
		} else {
			g.sc = append(g.sc, pre+"outputs."+k)
		}
	}
	for _, p := range ps.Vals {
		switch n := str(p.Get("name")); n {
		case "", "obj":
		default:
			g.sc = append(g.sc, pre+"inputs."+n)
		}
	}
	return s
}

func (g *azGen) doc() *doc.Node {
	r := g.r
	g.nwf = r.Range(1, 4)
	g.comp = r.P(0.6)
	g.loops = r.P(0.35)
	g.wild = simrt.Pick(r, []float64{0, 0.01, 0.05, 0.2})
	g.wsc = map[int][]string{}
	g.steps = nil
	for i := 0; i < g.nwf; i++ {
		g.steps = append(g.steps, r.Range(1, 4))
	}
	d := doc.M("arazzo", "1.0.1", "info", doc.M("title", "t", "version", "1"), "sourceDescriptions",
		doc.L(doc.M("name", "alpha", "url", "https://alpha.example.com", "type", "openapi"), doc.M("name", "beta", "url", "https://beta.example.com", "type", "openapi")))
	ws := doc.L()
	for g.wi = g.nwf - 1; g.wi >= 0; g.wi-- {
		g.sc, g.ob, g.subs, g.req, g.old, g.gotos = nil, nil, nil, nil, nil, nil
		w := doc.M("workflowId", fmt.Sprintf("w%d", g.wi))
		if g.wi > 0 && r.P(0.4) {
			l := doc.L()
			for i := r.Range(1, 2); i > 0; i-- {
				t := r.N(g.nwf)
				if r.P(0.85) {
					t = r.N(g.wi)
				}
				if r.P(0.04) {
					t = 77
				}
				l.Add(fmt.Sprintf("w%d", t))
			}
			w.Set("dependsOn", l)
		}
		ss := doc.L()
		for g.si = 0; g.si < g.steps[g.wi]; g.si++ {
			ss.Add(g.genStep())
		}
		w.Set("steps", ss)
		g.si = g.steps[g.wi]
		if l := g.actions(false, 0.1); l.Len() > 0 {
			w.Set("successActions", l)
		}
		if l := g.actions(true, 0.3); l.Len() > 0 {
			w.Set("failureActions", l)
		}
		o := doc.M()
		if len(g.gotos) > 0 {
			if l := g.wsc[simrt.Pick(r, g.gotos)]; len(l) > 0 && r.P(0.4) {
				o.Set("rg", simrt.Pick(r, l))
			}
		}
		if g.bad() && g.bad() {
			o.Set("ro", "$outputs.o0")
		}
		if r.P(0.6) {
			o.Set("r0", g.preScalar())
		}
		if r.P(0.4) {
			o.Set("r1", simrt.Pick(r, []string{"$outputs.r0", "done {$inputs.n}", g.preScalar(), g.preScalar()}))
		}
		if r.P(0.3) {
			o.Set("rb", g.preObj())
		}
		if o.Len() > 0 {
			w.Set("outputs", o)
		}
		for _, k := range o.Keys {
			if k != "rb" {
				g.wsc[g.wi] = append(g.wsc[g.wi], fmt.Sprintf("$workflows.w%d.outputs.%s", g.wi, k))
			}
		}
		ws.Add(w)
	}
	for i, j := 0, len(ws.Vals)-1; i < j; i, j = i+1, j-1 {
		ws.Vals[i], ws.Vals[j] = ws.Vals[j], ws.Vals[i]
	}
	d.Set("workflows", ws)
	if g.comp {
		g.wi, g.si = 0, 0
		d.Set("components", doc.M(
			"inputs", doc.M("cfg", doc.M("limit", r.N(50), "deep", doc.M("x", "y"))),
			"parameters", doc.M("page", doc.M("name", "page", "in", "query", "value", r.N(9)), "token", doc.M("name", "p0", "in", "header", "value", simrt.Pick(r, []string{"t0k", "$inputs.a", "Bearer {$inputs.a}"}))),
			"successActions", doc.M("done", doc.M("name", "done", "type", "end")),
			"failureActions", doc.M("again", doc.M("name", "again", "type", "retry", "retryAfter", 1, "retryLimit", r.Range(1, 3)), "giveUp", doc.M("name", "giveUp", "type", "end"))))
	}
	return d
}

func (g *azGen) body() *doc.Node {
	r := g.r
	switch r.N(24) {
	case 0:
		return doc.V(simrt.Pick(r, []string{"ok", "alice", "ok"}))
	case 1:
		return doc.L(doc.M("id", r.N(9), "tag", "red"), doc.M("id", 1))
	case 2:
		return nil
	}
	m := doc.M()
	add := func(k string, v any) {
		if r.P(0.95) {
			m.Set(k, v)
		}
	}
	add("id", simrt.Pick(r, []any{7, 1, 42}))
	add("name", simrt.Pick(r, []string{"alice", "bob", "5"}))
	add("flag", r.Bool())
	add("f", doc.V(1.5))
	add("nothing", nil)
	add("a/b", "slash")
	add("obj", doc.M("k", simrt.Pick(r, []any{1, "s", nil}), "x", 1, "y", doc.M("z", "orig"), "deep", doc.M("v", r.N(5))))
	add("list", doc.L(doc.M("id", r.N(9), "tag", "red"), doc.M("id", 7, "tag", simrt.Pick(r, []string{"blue", "red"}))))
	return m
}

func (g *azGen) run(all bool) *azRun {
	r := g.r
	run := &azRun{Inputs: map[string]*doc.Node{}, Clear: r.P(0.2)}
	if !all {
		run.Workflow = fmt.Sprintf("w%d", r.N(g.nwf))
		if r.P(0.5) {
			run.Workflow = "w0"
		}
		if r.P(0.02) {
			run.Workflow = "nope"
		}
	}
	for i := 0; i < g.nwf; i++ {
		if r.P(0.95) {
			m := doc.M()
			for _, k := range []string{"a", "n", "flag", "obj", "A", "N"} {
				if r.P(0.96) {
					switch k {
					case "A", "N":
						m.Set(k, simrt.Pick(r, []string{"Alice", "ABC"}))
					case "a":
						m.Set(k, simrt.Pick(r, []string{"alice", "abc"}))
					case "n":
						m.Set(k, r.N(10))
					case "flag":
						m.Set(k, r.Bool())
					default:
						m.Set(k, doc.M("x", 1, "y", doc.M("z", "in"), "wrap", doc.M("x", "w"), "id", 7))
					}
				}
			}
			run.Inputs[fmt.Sprintf("w%d", i)] = m
		}
	}
	bad := simrt.Pick(r, []float64{0, 0.1, 0.3, 0.6})
	for i := r.Range(2, 14); i > 0; i-- {
		x := &azResp{Status: 200, URL: fmt.Sprintf("https://h.test/%d", r.N(9)), Method: simrt.Pick(r, []string{"GET", "POST"}), Body: g.body(), AsNode: r.P(0.3), Honour: r.P(0.7)}
		x.AsJSON = !x.AsNode && r.Bool()
		x.LatUs = simrt.Pick(r, []int64{0, 10, 20, 200, 1500, 40}) * 1000
		if r.P(0.9) {
			x.Headers = map[string]string{"X-Id": simrt.Pick(r, []string{"abc", "77"})}
		}
		if r.P(bad) {
			switch r.N(4) {
			case 0:
				x.Err = fmt.Sprintf("e%d", r.N(4))
			case 1:
				x.LatUs = 90_000_000
			default:
				x.Status = simrt.Pick(r, []int{500, 503, 404, 429})
			}
		}
		run.Resps = append(run.Resps, x)
	}
	if r.P(0.3) {
		run.TimeoutUs = simrt.Pick(r, []int64{15, 100, 1000, 3000, 20000, 31})*1000 + 500
	}
	if r.P(0.25) {
		run.CancelUs = simrt.Pick(r, []int64{5, 30, 700, 2000, 10000, 41})*1000 + 300
	}
	return run
}

func genArazzo(r *simrt.Rand) any {
	for try := 0; ; try++ {
		g := &azGen{r: r}
		c := &azCase{}
		ping := false
		switch k := r.N(50); {
		case k == 0:
			c.Doc = g.chain()
		case k < 7:
			c.Doc, ping = g.pingpong(), true
		case k < 11:
			c.Doc = g.relay()
		default:
			c.Doc = g.doc()
		}
		if try > 20 {
			g.loops = false
		}
		for i := simrt.Pick(r, []int{1, 1, 2, 3}); i > 0; i-- {
			en := &azEngine{Retain: r.Bool(), NoExec: r.P(0.02)}
			en.Sources = simrt.Pick(r, [][]string{{"alpha"}, {"alpha", "beta"}, {"beta", "alpha"}, {"alpha", "beta"}, {"alpha", "other"}, {"beta"}, {}})
			if r.P(0.4) {
				en.Sleep = "func"
				if r.P(0.3) {
					en.SleepFail = r.Range(1, 3)
				}
			}
			for k := simrt.Pick(r, []int{1, 2, 3}); k > 0; k-- {
				en.Runs = append(en.Runs, g.run(r.P(0.4)))
				if ping {
					en.Runs[len(en.Runs)-1].Resps = g.pingResps()
				}
			}
			c.Engines = append(c.Engines, en)
		}
		if c.Valid() {
			return c
		}
	}
}

// pingpong is a workflow of two or three steps that send the run to one another, and each to itself.
func (g *azGen) pingpong() *doc.Node {
	r := g.r
	g.nwf, g.loops, g.comp = 1, true, r.P(0.3)
	k := r.Range(2, 3)
	g.steps = []int{k}
	st := []int{500, 503, 404, 429}
	is := func(i int) *doc.Node {
		return doc.L(doc.M("condition", fmt.Sprintf("$statusCode == %d", st[i])))
	}
	ss := doc.L()
	for i := 0; i < k; i++ {
		s := doc.M("stepId", fmt.Sprintf("s%d", i), "operationId", fmt.Sprintf("op%d", i), "successCriteria", doc.L(doc.M("condition", "$statusCode == 200")))
		f := doc.L(
			doc.M("name", "r", "type", "retry", "retryLimit", r.Range(1, 4), "retryAfter", r.Range(0, 2), "criteria", is(0)),
			doc.M("name", "g", "type", "goto", "stepId", fmt.Sprintf("s%d", r.N(k)), "criteria", is(1)),
			doc.M("name", "h", "type", "goto", "stepId", fmt.Sprintf("s%d", r.N(k)), "criteria", is(2)))
		if r.P(0.3) {
			f.Add(doc.M("name", "q", "type", "retry", "retryLimit", r.Range(1, 4), "criteria", is(3)))
		}
		s.Set("onFailure", f)
		if r.P(0.5) {
			s.Set("onSuccess", doc.L(doc.M("name", "g", "type", "goto", "stepId", fmt.Sprintf("s%d", r.N(k)), "criteria", doc.L(doc.M("condition", "$response.body#/flag")))))
		}
		s.Set("outputs", doc.M("o0", "$response.body#/id"))
		ss.Add(s)
	}
	return doc.M("arazzo", "1.0.1", "info", doc.M("title", "t", "version", "1"), "sourceDescriptions", doc.L(doc.M("name", "alpha", "url", "https://alpha.example.com")),
		"workflows", doc.L(doc.M("workflowId", "w0", "steps", ss, "outputs", doc.M("r0", "$steps.s0.outputs.o0"))))
}

// relay is a workflow that calls others, again and again, and uses what they gave.
func (g *azGen) relay() *doc.Node {
	r := g.r
	g.nwf, g.comp = 3, false
	op := func(id string, k int) *doc.Node {
		return doc.M("stepId", id, "operationId", fmt.Sprintf("op%d", k), "outputs", doc.M("o0", "$response.body#/id", "o1", "$response.body#/name"))
	}
	leaf := func(id string) *doc.Node {
		return doc.M("workflowId", id, "steps", doc.L(op("s0", r.N(4))), "outputs", doc.M("r0", "$steps.s0.outputs.o0", "r1", simrt.Pick(r, []string{"$steps.s0.outputs.o1", "$outputs.r0"})))
	}
	give := func(l ...string) string {
		return fmt.Sprintf("$workflows.%s.outputs.%s", simrt.Pick(r, l), simrt.Pick(r, []string{"r0", "r1"}))
	}
	ss := doc.L()
	known := []string{}
	n := r.Range(1, 5)
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("s%d", i)
		if r.Bool() {
			t := simrt.Pick(r, []string{"w1", "w1", "w2"})
			known = append(known, t)
			ss.Add(doc.M("stepId", id, "workflowId", t, "outputs", doc.M("o0", give(t))))
			continue
		}
		s := op(id, r.N(4))
		if len(known) > 0 {
			s.Set("parameters", doc.L(doc.M("name", "p0", "in", "query", "value", give(known...))))
		}
		if i > 0 && r.P(0.4) {
			s.Set("requestBody", doc.M("payload", doc.M("v", fmt.Sprintf("$steps.s%d.outputs.o0", r.N(i)))))
		}
		ss.Add(s)
	}
	end := simrt.Pick(r, []string{"", "w1", "w2"})
	o := doc.M("r0", fmt.Sprintf("$steps.s%d.outputs.o0", r.N(n)))
	if end != "" {
		ss.Vals[n-1].Set("onSuccess", doc.L(doc.M("name", "on", "type", "goto", "workflowId", end)))
		o.Set("r1", give(end))
		if r.P(0.3) {
			ss.Vals[n-1].Del("onSuccess")
			ss.Vals[n-1].Set("successCriteria", doc.L(doc.M("condition", "$statusCode == 201")))
			ss.Vals[n-1].Set("onFailure", doc.L(doc.M("name", "on", "type", "goto", "workflowId", end)))
		}
	} else if len(known) > 0 {
		o.Set("r1", give(known...))
	}
	return doc.M("arazzo", "1.0.1", "info", doc.M("title", "t", "version", "1"), "sourceDescriptions", doc.L(doc.M("name", "alpha", "url", "https://alpha.example.com")),
		"workflows", doc.L(doc.M("workflowId", "w0", "steps", ss, "outputs", o), leaf("w1"), leaf("w2")))
}

// pingResps answers such a workflow.
func (g *azGen) pingResps() (l []*azResp) {
	for i := g.r.Range(6, 20); i > 0; i-- {
		l = append(l, &azResp{Status: simrt.Pick(g.r, []int{200, 500, 500, 503, 503, 404, 429}), LatUs: int64(g.r.N(3)) * 1000,
			Body: doc.M("id", i, "flag", g.r.Bool()), URL: "https://h.test/p", Method: "GET"})
	}
	return
}

// chain is a tower of workflows around the nesting limit.
func (g *azGen) chain() *doc.Node {
	r := g.r
	g.nwf = 34
	n := r.Range(30, 34)
	d := doc.M("arazzo", "1.0.1", "info", doc.M("title", "t", "version", "1"), "sourceDescriptions", doc.L(doc.M("name", "alpha", "url", "https://alpha.example.com")))
	ws := doc.L()
	for i := 0; i < n; i++ {
		s := doc.M("stepId", "s0")
		if i+1 < n {
			s.Set("workflowId", fmt.Sprintf("w%d", i+1))
			s.Set("parameters", doc.L(doc.M("name", "a", "value", "$inputs.a")))
			s.Set("outputs", doc.M("o0", fmt.Sprintf("$workflows.w%d.outputs.r0", i+1)))
		} else {
			s.Set("operationId", "op0")
			s.Set("parameters", doc.L(doc.M("name", "p0", "in", "query", "value", "$inputs.a")))
			s.Set("outputs", doc.M("o0", "$request.query.p0"))
		}
		ws.Add(doc.M("workflowId", fmt.Sprintf("w%d", i), "steps", doc.L(s), "outputs", doc.M("r0", "$steps.s0.outputs.o0")))
	}
	d.Set("workflows", ws)
	return d
}

func init() {
	harness.Register(&harness.Scenario{Name: "arazzo", Property: "C11", Est: 100000,
		New: func() any { return &azCase{} }, Gen: genArazzo,
		Run: func(c any, e *harness.Env) { runArazzo(c.(*azCase), e) }})
}
