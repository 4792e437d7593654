package props

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifsim/doc"
)

// A small interpreter of Arazzo workflows with value semantics and a model clock: the reference
// the engine is compared with. It reads the document tree the case was generated as.

// azNode marks a value that reached the interpreter as a container inside a response or request body.
// It behaves like the value; the mark exists only for what the interpreter refuses to judge.
type azExec struct {
	Op      string         `json:"op"`
	Path    string         `json:"path,omitempty"`
	Source  string         `json:"src,omitempty"`
	Params  map[string]any `json:"params"`
	Body    any            `json:"body"`
	CType   string         `json:"ctype,omitempty"`
	At      int64          `json:"at"`
	CtxDone bool           `json:"ctxdone,omitempty"`
}

type azStepRes struct {
	ID      string         `json:"id"`
	OK      bool           `json:"ok"`
	Code    int            `json:"code"`
	Out     map[string]any `json:"out,omitempty"`
	Err     string         `json:"err,omitempty"`
	Dur     int64          `json:"dur"`
	Retries int            `json:"retries"`
}

type azWfRes struct {
	ID    string         `json:"id"`
	OK    bool           `json:"ok"`
	In    map[string]any `json:"in"`
	Out   map[string]any `json:"out,omitempty"`
	Steps []*azStepRes   `json:"steps"`
	Err   string         `json:"err,omitempty"`
	Dur   int64          `json:"dur"`
}

type azRunRes struct {
	Err    string     `json:"err,omitempty"` // error returned by the call itself
	OK     bool       `json:"ok"`
	Wfs    []*azWfRes `json:"wfs"`
	Calls  []*azExec  `json:"calls"`
	Sleeps []string   `json:"sleeps,omitempty"`
	Dur    int64      `json:"dur"`
}

type azErr struct{ kind string }

func (e *azErr) Error() string { return e.kind }

func evalErr() *azErr { return &azErr{"eval"} }

// azPlain turns a document node into the plain Go value YAML decodes it to.
func azPlain(n *doc.Node) any {
	if n == nil {
		return nil
	}
	switch n.Kind {
	case doc.Map:
		m := map[string]any{}
		for i, k := range n.Keys {
			m[k] = azPlain(n.Vals[i])
		}
		return m
	case doc.List:
		l := make([]any, 0, len(n.Vals))
		for _, v := range n.Vals {
			l = append(l, azPlain(v))
		}
		return l
	}
	switch n.Tag {
	case "int":
		i, _ := strconv.ParseInt(n.S, 10, 64)
		return i
	case "float":
		f, _ := strconv.ParseFloat(n.S, 64)
		return f
	case "bool":
		return n.S == "true"
	case "null":
		return nil
	}
	return n.S
}

func azClone(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := make(map[string]any, len(x))
		for k, e := range x {
			m[k] = azClone(e)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = azClone(e)
		}
		return l
	}
	return v
}

type azStepCtx struct{ in, out map[string]any }

type azCtx struct {
	url, method   string
	code          int
	reqH, reqQ    map[string]any
	reqP          map[string]any
	reqBody       any
	hasReqBody    bool
	respH         map[string]any
	respBody      any
	hasRespBody   bool
	inputs        map[string]any
	outputs       map[string]any
	steps         map[string]*azStepCtx
	workflows     map[string]*azStepCtx
	components    map[string]any
	hasComponents bool
}

type azState struct {
	results map[string]*azWfRes
	ctxs    map[string]*azStepCtx
	active  map[string]bool
	depth   int
}

type azInterp struct {
	d     *doc.Node
	eng   *azEngine
	run   *azRun
	now   int64
	dl    int64 // virtual time at which the context ends; -1 never
	dlErr string
	calls int
	slept int
	res   *azRunRes
	steps int // transitions executed, to bound the case
	limit int
	over  bool
	wf    map[string]*doc.Node
}

func (it *azInterp) ctxErr() *azErr {
	if it.dl >= 0 && it.now >= it.dl {
		return &azErr{it.dlErr}
	}
	return nil
}

func azRunRef(d *doc.Node, eng *azEngine, run *azRun, limit int) (*azRunRes, int, bool) {
	it := &azInterp{d: d, eng: eng, run: run, dl: -1, limit: limit, res: &azRunRes{}, wf: map[string]*doc.Node{}}
	if run.TimeoutUs > 0 {
		it.dl, it.dlErr = run.TimeoutUs*1000, "deadline"
	}
	if run.CancelUs > 0 && (it.dl < 0 || run.CancelUs*1000 < it.dl) {
		it.dl, it.dlErr = run.CancelUs*1000, "canceled"
	}
	for _, w := range it.list(d.Get("workflows")) {
		it.wf[str(w.Get("workflowId"))] = w
	}
	st := &azState{results: map[string]*azWfRes{}, ctxs: map[string]*azStepCtx{}, active: map[string]bool{}}
	if run.Workflow != "" {
		r, err := it.workflow(run.Workflow, it.inputs(run.Workflow), st)
		if err != nil {
			it.res.Err = err.kind
		} else {
			it.res.OK = r.OK
			it.res.Wfs = []*azWfRes{r}
		}
		it.res.Dur = it.now
		return it.res, it.steps, it.over
	}
	order, err := it.order()
	if err != nil {
		it.res.Err = err.kind
		return it.res, it.steps, it.over
	}
	it.res.OK = true
	for _, id := range order {
		if e := it.ctxErr(); e != nil {
			return &azRunRes{Err: e.kind, Calls: it.res.Calls, Sleeps: it.res.Sleeps, Dur: it.now}, it.steps, it.over
		}
		var depErr *azErr
		for _, dep := range it.list(it.wf[id].Get("dependsOn")) {
			r, ok := st.results[dep.S]
			if !ok {
				depErr = &azErr{"workflow"}
				break
			}
			if !r.OK {
				depErr = &azErr{r.Err}
				break
			}
		}
		var r *azWfRes
		if depErr != nil {
			r = &azWfRes{ID: id, Err: depErr.kind}
			st.results[id] = r
		} else {
			in := it.inputs(id)
			rr, e := it.workflow(id, in, st)
			if e != nil {
				rr = &azWfRes{ID: id, In: in, Err: e.kind}
				st.results[id] = rr
			}
			r = rr
		}
		if !r.OK {
			it.res.OK = false
		}
		it.res.Wfs = append(it.res.Wfs, r)
	}
	it.res.Dur = it.now
	return it.res, it.steps, it.over
}

func str(n *doc.Node) string {
	if n == nil {
		return ""
	}
	return n.S
}

func (it *azInterp) list(n *doc.Node) []*doc.Node {
	if n == nil || n.Kind != doc.List {
		return nil
	}
	return n.Vals
}

func (it *azInterp) inputs(id string) map[string]any {
	n := it.run.Inputs[id]
	if n == nil || n.Kind != doc.Map {
		return nil
	}
	return azPlain(n).(map[string]any)
}

func (it *azInterp) order() ([]string, *azErr) {
	ws := it.list(it.d.Get("workflows"))
	done := map[string]bool{}
	queued := map[string]bool{}
	deps := func(w *doc.Node) []string {
		var out []string
		for _, x := range it.list(w.Get("dependsOn")) {
			if it.wf[x.S] != nil {
				out = append(out, x.S)
			}
		}
		return out
	}
	// breadth first by completion, in document order
	var queue []string
	for _, w := range ws {
		if len(deps(w)) == 0 {
			queue = append(queue, str(w.Get("workflowId")))
			queued[str(w.Get("workflowId"))] = true
		}
	}
	var order []string
	for h := 0; h < len(queue); h++ {
		id := queue[h]
		done[id] = true
		order = append(order, id)
		for _, w := range ws {
			wid := str(w.Get("workflowId"))
			if queued[wid] {
				continue
			}
			ready := true
			for _, x := range deps(w) {
				if !done[x] {
					ready = false
				}
			}
			if ready {
				queued[wid] = true
				queue = append(queue, wid)
			}
		}
	}
	if len(order) != len(it.wf) {
		return nil, &azErr{"circular"}
	}
	return order, nil
}

func (it *azInterp) newCtx(in map[string]any, st *azState) *azCtx {
	c := &azCtx{inputs: in, outputs: map[string]any{}, steps: map[string]*azStepCtx{}, workflows: copyWf(st.ctxs)}
	if comp := it.d.Get("components"); comp != nil {
		c.hasComponents = true
		c.components = map[string]any{}
		if ins := comp.Get("inputs"); ins != nil {
			for i, k := range ins.Keys {
				c.components[k] = azPlain(ins.Vals[i])
			}
		}
	}
	return c
}

func copyWf(m map[string]*azStepCtx) map[string]*azStepCtx {
	o := map[string]*azStepCtx{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (it *azInterp) workflow(id string, in map[string]any, st *azState) (*azWfRes, *azErr) {
	if st.active[id] {
		return nil, &azErr{"circular"}
	}
	if st.depth >= 32 {
		return nil, &azErr{"eval"}
	}
	w := it.wf[id]
	if w == nil {
		return nil, &azErr{"workflow"}
	}
	st.active[id] = true
	st.depth++
	defer func() { delete(st.active, id); st.depth-- }()
	start := it.now
	// what a caller passed in is not what a callee may change
	res := &azWfRes{ID: id, OK: true, In: in, Out: map[string]any{}}
	c := it.newCtx(in, st)
	fail := func(e *azErr) { res.OK, res.Err = false, e.kind }
	steps := it.list(w.Get("steps"))
	idx := map[string]int{}
	for i, s := range steps {
		idx[str(s.Get("stepId"))] = i
	}
	retries := map[string]int{}
	trans := 0
	for i := 0; i < len(steps); {
		if e := it.ctxErr(); e != nil {
			fail(e)
			break
		}
		trans++
		it.steps++
		if it.steps > it.limit {
			it.over = true
			break
		}
		if trans > 1024 {
			fail(&azErr{"circular"})
			break
		}
		s := steps[i]
		sid := str(s.Get("stepId"))
		sr := it.step(s, c, st)
		sr.Retries = retries[sid]
		res.Steps = append(res.Steps, sr)
		kind := "onFailure"
		wkind := "failureActions"
		if sr.OK {
			kind, wkind = "onSuccess", "successActions"
			retries[sid] = 0
		}
		a, e := it.pick(s.Get(kind), wkind, c)
		if e == nil && a == nil {
			a, e = it.pick(w.Get(wkind), wkind, c)
		}
		if e != nil {
			fail(e)
			break
		}
		end, jump, retry := false, -1, false
		var after int64
		if a != nil {
			switch str(a.Get("type")) {
			case "end":
				end = true
			case "goto":
				if t := str(a.Get("workflowId")); t != "" {
					r, e := it.workflow(t, nil, st)
					if e != nil {
						fail(e)
						goto done
					}
					c.workflows = copyWf(st.ctxs)
					if !r.OK {
						fail(&azErr{r.Err})
						goto done
					}
					end = true
				} else if t := str(a.Get("stepId")); t != "" {
					j, ok := idx[t]
					if !ok {
						fail(&azErr{"stepid"})
						goto done
					}
					jump = j
				}
			case "retry":
				limit := int64(0)
				if n := a.Get("retryLimit"); n != nil {
					limit, _ = strconv.ParseInt(n.S, 10, 64)
				}
				if limit <= 0 {
					limit = 1
				}
				if int64(retries[sid]) < limit {
					retry = true
					if n := a.Get("retryAfter"); n != nil {
						f, _ := strconv.ParseFloat(n.S, 64)
						if f > 0 {
							after = int64(math.Round(f * float64(time.Second)))
						}
					}
				}
			}
		}
		if sr.OK {
			if end {
				break
			}
			if jump >= 0 {
				i = jump
			} else {
				i++
			}
			continue
		}
		if retry {
			retries[sid]++
			if e := it.sleep(after); e != nil {
				fail(e)
				break
			}
			continue
		}
		if !end && jump >= 0 {
			i = jump
			continue
		}
		fail(&azErr{sr.Err})
		break
	}
done:
	if res.OK {
		if o := w.Get("outputs"); o != nil {
			for i, k := range o.Keys {
				v, e := it.text(o.Vals[i].S, c)
				if e != nil {
					fail(e)
					break
				}
				res.Out[k] = v
				c.outputs[k] = v
			}
		}
	}
	res.Dur = it.now - start
	st.results[id] = res
	st.ctxs[id] = &azStepCtx{in: res.In, out: res.Out}
	return res, nil
}

func (it *azInterp) sleep(d int64) *azErr {
	it.slept++
	switch it.eng.Sleep {
	case "func":
		it.res.Sleeps = append(it.res.Sleeps, strconv.FormatInt(d, 10))
		it.now += d
		if it.eng.SleepFail > 0 && it.slept == it.eng.SleepFail {
			return &azErr{"sleep"}
		}
		return nil
	}
	if d <= 0 {
		return nil
	}
	if it.dl >= 0 && it.now+d > it.dl {
		if it.dl > it.now {
			it.now = it.dl
		}
		return &azErr{it.dlErr}
	}
	it.now += d
	return nil
}

func (it *azInterp) param(p *doc.Node) (name, in string, val *doc.Node, err *azErr) {
	ref := p.Get("reference")
	if ref == nil {
		return str(p.Get("name")), str(p.Get("in")), p.Get("value"), nil
	}
	const pre = "$components.parameters."
	cp := it.d.At("components", "parameters")
	if !strings.HasPrefix(ref.S, pre) || cp == nil || cp.Get(ref.S[len(pre):]) == nil {
		return "", "", nil, &azErr{"component"}
	}
	c := cp.Get(ref.S[len(pre):])
	val = c.Get("value")
	if p.Has("value") {
		val = p.Get("value")
	}
	return str(c.Get("name")), str(c.Get("in")), val, nil
}

func (it *azInterp) step(s *doc.Node, c *azCtx, st *azState) *azStepRes {
	start := it.now
	sid := str(s.Get("stepId"))
	r := &azStepRes{ID: sid, OK: true, Out: map[string]any{}}
	fail := func(e *azErr) { r.OK, r.Err = false, e.kind }
	c.url, c.method, c.code = "", "", 0
	c.reqH, c.reqQ, c.reqP, c.reqBody, c.hasReqBody = nil, nil, nil, nil, false
	c.respH, c.respBody, c.hasRespBody = nil, nil, false
	var ins map[string]any
	if t := str(s.Get("workflowId")); t != "" {
		ps := it.list(s.Get("parameters"))
		if len(ps) > 0 {
			ins = map[string]any{}
			for _, p := range ps {
				n, _, v, e := it.param(p)
				if e == nil {
					ins[n], e = it.value(v, c)
				}
				if e != nil {
					delete(ins, n)
					fail(e)
					break
				}
			}
		}
		if r.OK {
			wr, e := it.workflow(t, ins, st)
			if e != nil {
				fail(e)
			} else if !wr.OK {
				fail(&azErr{wr.Err})
			}
			c.workflows = copyWf(st.ctxs)
		}
	} else {
		req, e := it.request(s, c)
		if e != nil {
			fail(e)
		} else {
			ins = req.Params
			if it.eng.NoExec {
				fail(&azErr{"noexec"})
			} else if resp, e := it.execute(req); e != nil {
				fail(e)
			} else {
				r.Code = resp.Status
				c.code, c.url, c.method = resp.Status, resp.URL, resp.Method
				if len(resp.Headers) > 0 {
					c.respH = map[string]any{}
					for k, v := range resp.Headers {
						c.respH[k] = v
					}
				}
				if resp.Body != nil && (resp.AsNode || azPlain(resp.Body) != nil) {
					c.hasRespBody, c.respBody = true, azPlain(resp.Body)
				}
			}
		}
	}
	if r.OK {
		for i, cr := range it.list(s.Get("successCriteria")) {
			ok, e := it.criterion(cr, c)
			if e != nil {
				fail(&azErr{fmt.Sprintf("criterion:%s:%d:cause", sid, i)})
				break
			}
			if !ok {
				fail(&azErr{fmt.Sprintf("criterion:%s:%d", sid, i)})
				break
			}
		}
	}
	if r.OK {
		if o := s.Get("outputs"); o != nil {
			for i, k := range o.Keys {
				v, e := it.text(o.Vals[i].S, c)
				if e != nil {
					fail(e)
					break
				}
				r.Out[k] = v
			}
		}
	}
	c.steps[sid] = &azStepCtx{in: ins, out: r.Out}
	r.Dur = it.now - start
	return r
}

func (it *azInterp) source(s *doc.Node) string {
	if len(it.eng.Sources) == 0 {
		return ""
	}
	if len(it.eng.Sources) == 1 {
		return it.eng.Sources[0]
	}
	has := func(n string) bool {
		for _, x := range it.eng.Sources {
			if x == n {
				return true
			}
		}
		return false
	}
	p := str(s.Get("operationPath"))
	if i := strings.Index(p, "$sourceDescriptions."); i >= 0 {
		n := p[i+len("$sourceDescriptions."):]
		if j := strings.IndexAny(n, ".}/#"); j >= 0 {
			n = n[:j]
		}
		if has(n) {
			return n
		}
	}
	for _, sd := range it.list(it.d.Get("sourceDescriptions")) {
		if n := str(sd.Get("name")); has(n) {
			return n
		}
	}
	return ""
}

func (it *azInterp) request(s *doc.Node, c *azCtx) (*azExec, *azErr) {
	req := &azExec{Op: str(s.Get("operationId")), Path: str(s.Get("operationPath")), Source: it.source(s), Params: map[string]any{}}
	h, q, p := map[string]any{}, map[string]any{}, map[string]any{}
	for _, prm := range it.list(s.Get("parameters")) {
		n, in, vn, e := it.param(prm)
		if e != nil {
			return nil, e
		}
		v, e := it.value(vn, c)
		if e != nil {
			return nil, e
		}
		req.Params[n] = v
		switch in {
		case "header":
			h[n] = fmt.Sprint(v)
		case "query":
			q[n] = fmt.Sprint(v)
		case "path":
			p[n] = fmt.Sprint(v)
		}
	}
	if rb := s.Get("requestBody"); rb != nil {
		v, e := it.value(rb.Get("payload"), c)
		if e != nil {
			return nil, e
		}
		v = azClone(v)
		reps := it.list(rb.Get("replacements"))
		if len(reps) > 0 {
			root, ok := v.(map[string]any)
			if !ok {
				return nil, evalErr()
			}
			for _, rep := range reps {
				t := str(rep.Get("target"))
				if t == "" {
					continue
				}
				rv, e := it.value(rep.Get("value"), c)
				if e != nil {
					return nil, e
				}
				if !azSet(root, t, azClone(rv)) {
					return nil, evalErr()
				}
			}
		}
		req.Body, req.CType = v, str(rb.Get("contentType"))
		if v != nil {
			c.hasReqBody, c.reqBody = true, v
		}
	}
	if len(h) > 0 {
		c.reqH = h
	}
	if len(q) > 0 {
		c.reqQ = q
	}
	if len(p) > 0 {
		c.reqP = p
	}
	return req, nil
}

func unptr(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "~1", "/"), "~0", "~")
}

func azSet(root map[string]any, ptr string, v any) bool {
	if ptr[0] != '/' {
		return false
	}
	segs := strings.Split(ptr[1:], "/")
	cur := root
	for _, s := range segs[:len(segs)-1] {
		s = unptr(s)
		nx, ok := cur[s]
		if !ok {
			m := map[string]any{}
			cur[s] = m
			cur = m
			continue
		}
		m, ok := nx.(map[string]any)
		if !ok {
			return false
		}
		cur = m
	}
	cur[unptr(segs[len(segs)-1])] = v
	return true
}

func (it *azInterp) execute(req *azExec) (*azResp, *azErr) {
	rec := *req
	rec.At = it.now
	rec.Params = azClone(req.Params).(map[string]any)
	rec.Body = azClone(req.Body)
	rec.CtxDone = it.ctxErr() != nil
	it.res.Calls = append(it.res.Calls, &rec)
	resp := it.run.resp(it.calls)
	it.calls++
	lat := resp.LatUs * 1000
	if resp.Honour {
		if it.dl >= 0 && it.now+lat > it.dl {
			if it.dl > it.now {
				it.now = it.dl
			}
			return nil, &azErr{it.dlErr}
		}
	}
	it.now += lat
	if resp.Err != "" {
		return nil, &azErr{"exec:" + resp.Err}
	}
	return resp, nil
}

func (it *azInterp) pick(list *doc.Node, comp string, c *azCtx) (*doc.Node, *azErr) {
	for _, a := range it.list(list) {
		if ref := a.Get("reference"); ref != nil {
			pre := "$components." + comp + "."
			cc := it.d.At("components", comp)
			if !strings.HasPrefix(ref.S, pre) || cc == nil || cc.Get(ref.S[len(pre):]) == nil {
				return nil, &azErr{"component"}
			}
			a = cc.Get(ref.S[len(pre):])
		}
		all := true
		for _, cr := range it.list(a.Get("criteria")) {
			ok, e := it.criterion(cr, c)
			if e != nil {
				return nil, evalErr()
			}
			if !ok {
				all = false
				break
			}
		}
		if all {
			return a, nil
		}
	}
	return nil, nil
}

func (it *azInterp) value(n *doc.Node, c *azCtx) (any, *azErr) {
	return it.resolve(azPlain(n), c)
}

func (it *azInterp) resolve(v any, c *azCtx) (any, *azErr) {
	switch x := v.(type) {
	case string:
		return it.text(x, c)
	case []any:
		o := make([]any, len(x))
		for i := range x {
			r, e := it.resolve(x[i], c)
			if e != nil {
				return nil, e
			}
			o[i] = r
		}
		return o, nil
	case map[string]any:
		o := make(map[string]any, len(x))
		for k, y := range x {
			r, e := it.resolve(y, c)
			if e != nil {
				return nil, e
			}
			o[k] = r
		}
		return o, nil
	}
	return v, nil
}

func (it *azInterp) text(s string, c *azCtx) (any, *azErr) {
	if strings.HasPrefix(s, "$") {
		return it.expr(s, c)
	}
	if !strings.Contains(s, "{$") {
		return s, nil
	}
	var out strings.Builder
	var only any
	n, lits := 0, 0
	for s != "" {
		i := strings.Index(s, "{$")
		if i < 0 {
			out.WriteString(s)
			lits++
			break
		}
		if i > 0 {
			out.WriteString(s[:i])
			lits++
		}
		s = s[i+1:]
		j := strings.IndexByte(s, '}')
		if j < 0 {
			return nil, evalErr()
		}
		v, e := it.expr(s[:j], c)
		if e != nil {
			return nil, e
		}
		only = v
		n++
		out.WriteString(fmt.Sprint(v))
		s = s[j+1:]
	}
	if n == 1 && lits == 0 {
		return only, nil
	}
	return out.String(), nil
}

func lookup(m map[string]any, k string) (any, *azErr) {
	v, ok := m[k]
	if !ok {
		return nil, evalErr()
	}
	return v, nil
}

func azPointer(v any, p string) (any, *azErr) {
	if p == "" || p == "/" {
		return v, nil
	}
	for _, s := range strings.Split(strings.TrimPrefix(p, "/"), "/") {
		s = unptr(s)
		switch x := v.(type) {
		case map[string]any:
			y, ok := x[s]
			if !ok {
				return nil, evalErr()
			}
			v = y
		case []any:
			i, err := strconv.Atoi(s)
			if err != nil || i < 0 || i >= len(x) {
				return nil, evalErr()
			}
			v = x[i]
		default:
			return nil, evalErr()
		}
	}
	return v, nil
}

func (it *azInterp) expr(s string, c *azCtx) (any, *azErr) {
	cut := func(p string) (string, bool) { return strings.CutPrefix(s, p) }
	switch s {
	case "$url":
		return c.url, nil
	case "$method":
		return c.method, nil
	case "$statusCode":
		return int64(c.code), nil
	}
	if r, ok := cut("$inputs."); ok {
		return lookup(c.inputs, r)
	}
	if r, ok := cut("$outputs."); ok {
		return lookup(c.outputs, r)
	}
	if r, ok := cut("$request.header."); ok {
		return lookup(c.reqH, r)
	}
	if r, ok := cut("$request.query."); ok {
		return lookup(c.reqQ, r)
	}
	if r, ok := cut("$request.path."); ok {
		return lookup(c.reqP, r)
	}
	if r, ok := cut("$request.body"); ok {
		if !c.hasReqBody {
			return nil, evalErr()
		}
		return azPointer(c.reqBody, strings.TrimPrefix(r, "#"))
	}
	if r, ok := cut("$response.header."); ok {
		return lookup(c.respH, r)
	}
	if r, ok := cut("$response.body"); ok {
		if !c.hasRespBody {
			return nil, evalErr()
		}
		return azPointer(c.respBody, strings.TrimPrefix(r, "#"))
	}
	inout := func(r string, m map[string]*azStepCtx) (any, *azErr) {
		p := strings.SplitN(r, ".", 3)
		x := m[p[0]]
		if x == nil || len(p) < 2 {
			return nil, evalErr()
		}
		var mm map[string]any
		switch p[1] {
		case "outputs":
			mm = x.out
		case "inputs":
			mm = x.in
		default:
			return nil, evalErr()
		}
		if mm == nil {
			return nil, evalErr()
		}
		if len(p) == 2 {
			return azClone(map[string]any(mm)), nil
		}
		return lookup(mm, p[2])
	}
	if r, ok := cut("$steps."); ok {
		return inout(r, c.steps)
	}
	if r, ok := cut("$workflows."); ok {
		return inout(r, c.workflows)
	}
	if r, ok := cut("$sourceDescriptions."); ok {
		n, t, _ := strings.Cut(r, ".")
		for _, x := range it.eng.Sources {
			if x == n && t == "url" {
				return "https://" + n + ".example.com", nil
			}
		}
		return nil, evalErr()
	}
	if r, ok := cut("$components.inputs."); ok {
		if !c.hasComponents {
			return nil, evalErr()
		}
		var v any = c.components
		for _, p := range strings.Split(r, ".") {
			m, ok := v.(map[string]any)
			if !ok {
				return nil, evalErr()
			}
			x, ok := m[p]
			if !ok {
				return nil, evalErr()
			}
			v = x
		}
		return v, nil
	}
	return nil, evalErr()
}

func azSprint(v any) string {
	switch t := v.(type) {
	case string:
		return t
	case int64:
		return strconv.FormatInt(t, 10)
	case float64:
		return strconv.FormatFloat(t, 'f', -1, 64)
	case bool:
		return strconv.FormatBool(t)
	}
	return fmt.Sprintf("%v", v)
}

func azNum(v any) (float64, bool) {
	switch n := v.(type) {
	case int64:
		return float64(n), true
	case float64:
		return n, true
	}
	return 0, false
}

func (it *azInterp) operand(s string, c *azCtx) (any, *azErr) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "$") {
		return it.expr(s, c)
	}
	if len(s) >= 2 && (s[0] == '"' && s[len(s)-1] == '"' || s[0] == '\'' && s[len(s)-1] == '\'') {
		return s[1 : len(s)-1], nil
	}
	if b, err := strconv.ParseBool(s); err == nil {
		return b, nil
	}
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return i, nil
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		return f, nil
	}
	return s, nil
}

func (it *azInterp) criterion(cr *doc.Node, c *azCtx) (bool, *azErr) {
	typ := "simple"
	if t := cr.Get("type"); t != nil {
		typ = t.S
		if t.Kind == doc.Map {
			typ = str(t.Get("type"))
		}
	}
	cond := str(cr.Get("condition"))
	ctx := str(cr.Get("context"))
	var cv any
	if ctx != "" {
		v, e := it.expr(ctx, c)
		if e != nil {
			return false, e
		}
		cv = v
	}
	switch typ {
	case "simple":
		if ctx != "" {
			return azSprint(cv) == cond, nil
		}
		f := strings.Fields(cond)
		if len(f) == 1 {
			if b, err := strconv.ParseBool(f[0]); err == nil {
				return b, nil
			}
			v, e := it.operand(f[0], c)
			if e != nil {
				return false, e
			}
			b, ok := v.(bool)
			if !ok {
				return false, evalErr()
			}
			return b, nil
		}
		if len(f) != 3 {
			return false, nil
		}
		l, e := it.operand(f[0], c)
		if e != nil {
			return false, e
		}
		r, e := it.operand(f[2], c)
		if e != nil {
			return false, e
		}
		cmp := 0
		ln, ok1 := azNum(l)
		rn, ok2 := azNum(r)
		if ok1 && ok2 {
			switch {
			case ln < rn:
				cmp = -1
			case ln > rn:
				cmp = 1
			}
		} else {
			cmp = strings.Compare(azSprint(l), azSprint(r))
		}
		switch f[1] {
		case "==":
			return cmp == 0, nil
		case "!=":
			return cmp != 0, nil
		case ">":
			return cmp > 0, nil
		case "<":
			return cmp < 0, nil
		case ">=":
			return cmp >= 0, nil
		case "<=":
			return cmp <= 0, nil
		}
		return false, evalErr()
	case "regex":
		if ctx == "" {
			return false, evalErr()
		}
		re, err := regexp.Compile(cond)
		if err != nil {
			return false, evalErr()
		}
		return re.MatchString(azSprint(cv)), nil
	case "jsonpath":
		if ctx == "" {
			return false, evalErr()
		}
		if cv == nil {
			return false, nil
		}
		return azPath(cond, cv)
	}
	return false, evalErr()
}

var azFilter = regexp.MustCompile(`^\$(?:\.(\w+))?\[\?\(?@\.(\w+) (==|>|<) (.+?)\)?\]$`)
var azSteps = regexp.MustCompile(`^\$((?:\.\w+|\[\d+\])*)$`)
var azStepTok = regexp.MustCompile(`\.\w+|\[\d+\]`)

// azPath evaluates the few JSONPath forms the generator writes: whether anything is selected.
func azPath(p string, v any) (bool, *azErr) {
	if m := azSteps.FindStringSubmatch(p); m != nil {
		for _, t := range azStepTok.FindAllString(m[1], -1) {
			if t[0] == '.' {
				x, ok := v.(map[string]any)
				if !ok {
					return false, nil
				}
				y, ok := x[t[1:]]
				if !ok {
					return false, nil
				}
				v = y
				continue
			}
			x, ok := v.([]any)
			i, _ := strconv.Atoi(t[1 : len(t)-1])
			if !ok || i >= len(x) {
				return false, nil
			}
			v = x[i]
		}
		return true, nil
	}
	m := azFilter.FindStringSubmatch(p)
	if m == nil {
		return false, evalErr()
	}
	if m[1] != "" {
		x, ok := v.(map[string]any)
		if !ok {
			return false, nil
		}
		v = x[m[1]]
	}
	var kids []any
	switch x := v.(type) {
	case []any:
		kids = x
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			kids = append(kids, x[k])
		}
	}
	var want any
	if i, err := strconv.ParseFloat(m[4], 64); err == nil {
		want = i
	} else {
		want = strings.Trim(m[4], "'\"")
	}
	for _, k := range kids {
		x, ok := k.(map[string]any)
		if !ok {
			continue
		}
		y, ok := x[m[2]]
		if !ok {
			continue
		}
		a, ok1 := azNum(y)
		b, ok2 := azNum(want)
		switch {
		case ok1 && ok2:
			if m[3] == "==" && a == b || m[3] == ">" && a > b || m[3] == "<" && a < b {
				return true, nil
			}
		case m[3] == "==":
			s1, ok1 := y.(string)
			s2, ok2 := want.(string)
			if ok1 && ok2 && s1 == s2 {
				return true, nil
			}
		}
	}
	return false, nil
}
