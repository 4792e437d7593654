package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel"
	hbase "github.com/pb33f/libopenapi/datamodel/high/base"
	v3high "github.com/pb33f/libopenapi/datamodel/high/v3"

	"verifsim/doc"
	"verifsim/harness"
	"verifsim/simrt"
)

// Shared machinery of the multi-file properties.

type multiCase struct {
	M       *doc.Multi            `json:"doc"`
	Mode    string                `json:"mode"` // os dirfs remote
	Lat     int                   `json:"lat"`
	Seq     bool                  `json:"extract_sequentially"`
	Circ    bool                  `json:"circular_check"`
	Faults  map[string]*fileFault `json:"faults,omitempty"`
	Host    string                `json:"host,omitempty"`
	Compare bool                  `json:"compare,omitempty"`
	Readers int                   `json:"readers,omitempty"`
}

// web is the simulated network: one origin server, latency, failures.
type web struct {
	mu     sync.Mutex
	e      *harness.Env
	r      *simrt.Rand
	lat    int
	base   string
	files  map[string][]byte
	faults map[string]*fileFault
	gets   map[string]int
	bodies int // open response bodies
	failed map[string]int
	clock  int
	bad    map[string][][2]int // per file: when requests that failed were under way
	good   map[string]int      // per file: bodies delivered in full
	active int
	maxAct int
	now    func() time.Time
}

type webBody struct {
	io.Reader
	w      *web
	closed bool
	name   string
	start  int
	failed bool // the request counts as failed
	ended  bool
}

// end notes how the request ended.
func (b *webBody) end(ok bool) {
	if b.ended {
		return
	}
	b.ended = true
	b.w.mu.Lock()
	defer b.w.mu.Unlock()
	if ok && !b.failed {
		b.w.good[b.name]++
	} else {
		b.w.failure(b.name, b.start)
	}
}

func (w *web) failure(p string, start int) {
	w.clock++
	w.bad[p] = append(w.bad[p], [2]int{start, w.clock})
}

func (b *webBody) Close() error {
	if b.closed {
		b.w.e.Probe("double-close")
		return nil
	}
	b.closed = true
	b.w.mu.Lock()
	b.w.bodies--
	b.w.mu.Unlock()
	return nil
}

func (b *webBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	b.w.delay()
	n, err := b.Reader.Read(p)
	if err != nil {
		b.end(err == io.EOF)
	}
	return n, err
}

type failReader struct{ err error }

func (f failReader) Read([]byte) (int, error) { return 0, f.err }

func (w *web) delay() {
	if w.lat > 0 {
		w.mu.Lock()
		us := w.r.N(w.lat + 1)
		w.mu.Unlock()
		if us > 0 {
			w.e.Fault("net-latency")
			time.Sleep(time.Duration(us) * time.Microsecond)
		}
	}
}

func (w *web) get(u string) (*http.Response, error) {
	w.mu.Lock()
	w.active++
	w.maxAct = max(w.maxAct, w.active)
	w.mu.Unlock()
	w.delay()
	resp, nap, late, err := w.answer(u)
	if nap > 0 {
		time.Sleep(nap)
	}
	w.mu.Lock()
	if late != nil {
		late()
	}
	w.active--
	w.mu.Unlock()
	return resp, err
}

func (w *web) answer(u string) (_ *http.Response, nap time.Duration, late func(), _ error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	u, _, _ = strings.Cut(u, "#") // an HTTP client never sends the fragment
	p := strings.TrimPrefix(u, w.base+"/")
	w.gets[p]++
	w.clock++
	start := w.clock
	f := w.faults[p]
	if f != nil && f.N > 0 && w.failed[p] >= f.N {
		f = nil
	}
	fired := func() { w.failed[p]++; w.e.Fault("net-" + f.Kind) }
	resp := func(code int, r io.Reader) *http.Response {
		w.bodies++
		return &http.Response{StatusCode: code, Status: http.StatusText(code), Header: http.Header{}, Body: &webBody{Reader: r, w: w, name: p, start: start, failed: code != 200}}
	}
	if f != nil {
		switch f.Kind {
		case "slow":
			fired()
			nap = time.Duration(f.At) * time.Millisecond
		case "refused":
			fired()
			w.failure(p, start)
			return nil, nap, late, errors.New("dial tcp: connection refused")
		case "timeout":
			fired()
			nap = 30 * time.Second
			late = func() { w.failure(p, start) }
			return nil, nap, late, context.DeadlineExceeded
		case "nil":
			fired()
			w.failure(p, start)
			return nil, nap, late, nil
		case "err-with-resp":
			fired()
			w.failure(p, start)
			return resp(502, strings.NewReader("bad gateway")), nap, late, errors.New("proxy error")
		case "500", "404", "503", "429":
			fired()
			code := map[string]int{"500": 500, "404": 404, "503": 503, "429": 429}[f.Kind]
			w.failure(p, start)
			return resp(code, strings.NewReader("description: error page\ntitle: not the file")), nap, late, nil
		case "reset":
			fired()
			b := w.files[p]
			at := min(f.At, len(b))
			return resp(200, io.MultiReader(bytes.NewReader(b[:at]), failReader{io.ErrUnexpectedEOF})), nap, late, nil
		}
	}
	b, ok := w.files[p]
	if !ok {
		w.e.Probe("web-404")
		return resp(404, strings.NewReader("not found")), nap, late, nil
	}
	return resp(200, bytes.NewReader(b)), nap, late, nil
}

type multiBuilt struct {
	doc     libopenapi.Document
	model   *v3high.Document
	m       *libopenapi.DocumentModel[v3high.Document]
	newErr  error
	err     error
	disk    *disk
	web     *web
	log     errLog
	unmount func()
}

// reported is what the library said about what it could not read: the error of the build or an error it logged.
func (b *multiBuilt) reported() error {
	if b.err == nil && b.log.n.Load() > 0 {
		return fmt.Errorf("logged: %v", b.log.last.Load())
	}
	return b.err
}

// prepare sets up storage for one build. Call done afterwards.
func (c *multiCase) prepare(e *harness.Env, salt uint64, faults bool) *multiBuilt {
	files := c.M.Build()
	b := &multiBuilt{log: newErrLog(), unmount: func() {}}
	ff := map[string]*fileFault{}
	if faults {
		ff = c.Faults
	}
	r := simrt.NewRand(simrt.Mix(e.Seed(), 31, salt))
	lat := c.Lat
	if c.Mode == "remote" {
		b.web = &web{e: e, r: r, lat: lat, base: "http://sim.test/api", files: files, faults: ff, gets: map[string]int{}, failed: map[string]int{},
			bad: map[string][][2]int{}, good: map[string]int{}}
		return b
	}
	b.disk = &disk{e: e, r: r, lat: lat, faults: ff}
	if c.Mode == "os" {
		b.unmount = b.disk.mount(files)
	}
	return b
}

func (b *multiBuilt) done() { b.unmount() }

func (c *multiCase) config(b *multiBuilt) *datamodel.DocumentConfiguration {
	cfg := datamodel.NewDocumentConfiguration()
	cfg.Logger = slog.New(b.log)
	cfg.ExtractRefsSequentially = c.Seq
	cfg.SkipCircularReferenceCheck = !c.Circ
	switch c.Mode {
	case "os":
		cfg.AllowFileReferences = true
		cfg.BasePath = vroot
		cfg.SpecFilePath = c.M.Files[0].Path
	case "dirfs":
		cfg.AllowFileReferences = true
		cfg.BasePath = vroot
		cfg.SpecFilePath = c.M.Files[0].Path
		cfg.LocalFS = newMemFS(b.disk, c.M.Build())
	case "remote":
		cfg.AllowRemoteReferences = true
		u, _ := url.Parse("http://sim.test/api")
		cfg.BaseURL = u
		cfg.RemoteURLHandler = b.web.get
	}
	return cfg
}

func (c *multiCase) build(b *multiBuilt) {
	root := c.M.Build()[c.M.Files[0].Path]
	b.doc, b.newErr = libopenapi.NewDocumentWithConfiguration(root, c.config(b))
	if b.newErr != nil {
		return
	}
	b.m, b.err = b.doc.BuildV3Model()
	if b.m != nil {
		b.model = &b.m.Model
	}
}

// walker compares what the model resolves with what the files say.
type walker struct {
	e                     *harness.Env
	m                     *doc.Multi
	bad                   map[int]bool // schemas that must not resolve (their file failed)
	badC                  map[int]bool
	maybe, maybeC, maybeP map[int]bool // may be there or not, but never something else
	cls                   string
	seen                  map[int]bool
	count                 int
	err                   error // what the build reported
	errs                  int   // references that reported an error, as expected
	lost                  int   // unresolved while expected to resolve
	trail                 []string
	unordered             bool                           // paths may come in any order
	mapping               func(value string, target int) // is given the mapping entries of discriminators
}

func (w *walker) lenient() bool {
	for _, m := range []map[int]bool{w.badC, w.maybeC} {
		for _, v := range m {
			if v {
				return true
			}
		}
	}
	return false
}

// shaky tells whether something path k refers to may not be there: an object whose part
// cannot be built may be absent as a whole, as long as the build says so.
func (w *walker) shaky(k int, badPath map[int]bool) bool {
	if w.err == nil {
		return false
	}
	if l := w.m.Paths[k].Like; l > 0 {
		k = l - 1
	}
	p := w.m.Paths[k]
	x := badPath[k] || w.maybeP[k] || w.bad[p.Schema] || w.maybe[p.Schema]
	for _, c := range p.Comps {
		i := w.m.Comps[c].Schema
		x = x || w.badC[c] || w.maybeC[c] || w.bad[i] || w.maybe[i]
	}
	return x
}

func (w *walker) anyShaky(badPath map[int]bool) bool {
	for k := range w.m.Paths {
		if w.shaky(k, badPath) {
			return true
		}
	}
	return false
}

func newWalker(e *harness.Env, m *doc.Multi, cls string) *walker {
	return &walker{e: e, m: m, cls: cls, seen: map[int]bool{}, bad: map[int]bool{}, badC: map[int]bool{},
		maybe: map[int]bool{}, maybeC: map[int]bool{}, maybeP: map[int]bool{}}
}

func (w *walker) fail(cls, f string, a ...any) {
	w.e.Fail(w.cls+cls, "%s: %s", strings.Join(w.trail, " > "), fmt.Sprintf(f, a...))
}

func (w *walker) push(s string) func() {
	w.trail = append(w.trail, s)
	n := len(w.trail)
	return func() { w.trail = w.trail[:n-1] }
}

// schema checks that sp denotes schema i. via a reference found in file from.
func (w *walker) schema(sp *hbase.SchemaProxy, i int) {
	defer w.push(fmt.Sprintf("ref to schema %d (%s %s)", i, w.m.Files[w.m.Schemas[i].File].Path, w.m.Frag(i)))()
	if w.e.Failed() {
		return
	}
	if sp == nil {
		if w.bad[i] || w.maybe[i] {
			w.errs++
			return
		}
		w.fail("-missing", "no schema proxy")
		return
	}
	s := sp.Schema()
	w.count++
	if w.bad[i] {
		if s != nil {
			w.fail("-phantom", "resolves to a schema (%q) although its file cannot be read", s.Description)
			return
		}
		if sp.GetBuildError() == nil {
			w.fail("-silent", "the reference does not resolve and no error is reported by the schema proxy")
			return
		}
		w.errs++
		return
	}
	shaky := w.maybe[i]
	for _, ed := range w.m.Schemas[i].Edges {
		// a schema one of whose properties cannot be found does not build, and says so.
		shaky = shaky || ed.Via == "ref" && ed.To >= 0 && (w.bad[ed.To] || w.maybe[ed.To])
	}
	if s == nil && shaky {
		if sp.GetBuildError() == nil {
			w.fail("-silent", "the reference does not resolve and no error is reported by the schema proxy")
		}
		w.errs++
		return
	}
	if s == nil {
		w.fail("-unresolved", "reference %q does not resolve: %v", sp.GetReference(), sp.GetBuildError())
		return
	}
	if s.Description != doc.Mark(i) {
		w.fail("-wrong-target", "reference %q resolves to %q, want %q", sp.GetReference(), s.Description, doc.Mark(i))
		return
	}
	if w.seen[i] {
		return
	}
	w.seen[i] = true
	if s.Title != doc.Mark(i) {
		w.fail("-truncated", "title is %q, want %q", s.Title, doc.Mark(i))
	}
	want := len(w.m.Schemas[i].Edges) + w.m.Schemas[i].Extra
	if got := s.Properties.Len(); got != want {
		w.fail("-truncated", "%d properties, want %d", got, want)
		return
	}
	for k, ed := range w.m.Schemas[i].Edges {
		w.edge(s, k, ed)
	}
}

func (w *walker) edge(s *hbase.Schema, k int, ed doc.MEdge) {
	name := fmt.Sprintf("p%d", k)
	defer w.push(name + "(" + ed.Via + ")")()
	p := s.Properties.GetOrZero(name)
	if p == nil {
		w.fail("-truncated", "property missing")
		return
	}
	var target *hbase.SchemaProxy
	if ed.Via == "ref" {
		target = p
	} else {
		ps := p.Schema()
		if ps == nil {
			if ed.To >= 0 && (w.bad[ed.To] || w.maybe[ed.To]) && p.GetBuildError() != nil {
				w.errs++
				return
			}
			w.fail("-unresolved", "inline schema does not build: %v", p.GetBuildError())
			return
		}
		pick := func(l []*hbase.SchemaProxy) {
			if len(l) > 0 {
				target = l[0]
			}
		}
		switch ed.Via {
		case "items":
			if ps.Items != nil {
				target = ps.Items.A
			}
		case "map":
			if ps.AdditionalProperties != nil {
				target = ps.AdditionalProperties.A
			}
		case "allOf":
			pick(ps.AllOf)
		case "oneOf":
			pick(ps.OneOf)
		case "anyOf":
			pick(ps.AnyOf)
		}
	}
	if len(ed.Map) > 0 && w.mapping != nil && (ed.Via == "oneOf" || ed.Via == "anyOf") {
		ps := p.Schema()
		if ps.Discriminator == nil || ps.Discriminator.Mapping == nil || ps.Discriminator.Mapping.Len() != len(ed.Map) {
			w.fail("-truncated", "the discriminator or its mapping is gone")
			return
		}
		for j, t := range ed.Map {
			w.mapping(ps.Discriminator.Mapping.GetOrZero(fmt.Sprintf("m%d", j)), t)
		}
	}
	if ed.To < 0 {
		if target != nil {
			if x := target.Schema(); x != nil {
				w.fail("-phantom", "a reference to nothing resolves to %q", x.Description)
			} else if target.GetBuildError() == nil {
				w.fail("-silent", "a reference to nothing reports no error")
			}
		}
		return
	}
	w.schema(target, ed.To)
}

func (w *walker) media(c interface {
	Len() int
	GetOrZero(string) *v3high.MediaType
}, i int) {
	if c.Len() != 1 || c.GetOrZero("application/json") == nil {
		w.fail("-truncated", "%d media types, want application/json", c.Len())
		return
	}
	w.schema(c.GetOrZero("application/json").Schema, i)
}

func (w *walker) comp(c int, desc string, present bool) bool {
	if w.badC[c] {
		if present && desc == doc.CompMark(c) {
			w.fail("-phantom", "component %d is present although its file cannot be read", c)
		}
		w.errs++
		return false
	}
	if !present && w.maybeC[c] {
		w.errs++
		return false
	}
	if !present {
		w.fail("-missing", "component %d is not there", c)
		return false
	}
	if desc != doc.CompMark(c) {
		w.fail("-wrong-target", "component is %q, want %q", desc, doc.CompMark(c))
		return false
	}
	return true
}

// document walks the whole model.
func (w *walker) document(d *v3high.Document, badPath map[int]bool) {
	if d.Paths == nil || d.Paths.PathItems == nil {
		if !w.anyShaky(badPath) {
			w.fail("-missing", "no paths")
			return
		}
		w.errs++
	} else {
		w.paths(d, badPath)
	}
	if d.Components != nil && d.Components.Schemas != nil {
		for name, sp := range d.Components.Schemas.FromOldest() {
			for i, s := range w.m.Schemas {
				if s.File == 0 && s.Name == name {
					w.schema(sp, i)
				}
			}
		}
	}
}

func (w *walker) paths(d *v3high.Document, badPath map[int]bool) {
	last := -1
	got := map[int]*v3high.PathItem{}
	for pth, pi := range d.Paths.PathItems.FromOldest() {
		k := -1
		fmt.Sscanf(pth, "/p%d", &k)
		if k <= last && !w.unordered || k < 0 || k >= len(w.m.Paths) {
			w.fail("-order", "path item %s comes after /p%d", pth, last)
			return
		}
		last = k
		got[k] = pi
	}
	for k := range w.m.Paths {
		if w.e.Failed() {
			return
		}
		pi, ok := got[k]
		if !ok && w.shaky(k, badPath) {
			w.errs++
			continue
		}
		o := k
		if l := w.m.Paths[k].Like; l > 0 {
			o = l - 1
		}
		if !ok && !badPath[o] && !w.maybeP[o] {
			w.fail("-missing", "path item /p%d is not there", k)
			return
		}
		w.path(k, pi, badPath)
	}
}

func (w *walker) path(k int, pi *v3high.PathItem, badPath map[int]bool) {
	defer w.push(fmt.Sprintf("path /p%d", k))()
	if l := w.m.Paths[k].Like; l > 0 {
		k = l - 1
	}
	p := w.m.Paths[k]
	if badPath[k] {
		if pi != nil && pi.Post != nil {
			w.fail("-phantom", "the path item has content although its file cannot be read")
		}
		w.errs++
		return
	}
	if w.maybeP[k] && (pi == nil || pi.Post == nil && pi.Summary == "") {
		w.errs++
		return
	}
	if pi == nil || pi.Post == nil || pi.Summary != doc.PathMark(k) || pi.Post.Description != doc.PathMark(k) {
		w.fail("-truncated", "path item or its operation is not what the file says")
		return
	}
	rs := pi.Post.Responses
	if rs == nil || rs.Codes == nil || rs.Codes.GetOrZero("200") == nil {
		if w.shaky(k, badPath) {
			w.errs++
			return
		}
		w.fail("-truncated", "no 200 response, build error: %v", w.err)
		return
	}
	ok := rs.Codes.GetOrZero("200")
	func() {
		defer w.push("200")()
		w.media(ok.Content, p.Schema)
	}()
	pn := 0
	for k, c := range p.Comps {
		if w.e.Failed() {
			return
		}
		cp := w.m.Comps[c]
		pop := w.push(fmt.Sprintf("%s %d (%s)", cp.Kind, c, w.m.Files[cp.File].Path))
		switch cp.Kind {
		case "parameters":
			var x *v3high.Parameter
			for _, y := range pi.Post.Parameters {
				if y != nil && y.Description == doc.CompMark(c) {
					x = y
				}
			}
			if w.comp(c, doc.CompMark(c), x != nil) {
				if pn < len(pi.Post.Parameters) && !w.lenient() && pi.Post.Parameters[pn] != x {
					w.fail("-order", "parameter is not at position %d", pn)
				}
				pn++
				w.schema(x.Schema, cp.Schema)
			}
		case "responses":
			x := rs.Codes.GetOrZero(fmt.Sprintf("%d", 400+k))
			desc := ""
			if x != nil {
				desc = x.Description
			}
			if w.comp(c, desc, x != nil) {
				w.media(x.Content, cp.Schema)
			}
		case "requestBodies":
			x := pi.Post.RequestBody
			desc := ""
			if x != nil {
				desc = x.Description
			}
			if w.comp(c, desc, x != nil) {
				w.media(x.Content, cp.Schema)
			}
		case "headers":
			x := ok.Headers.GetOrZero(fmt.Sprintf("X-H%d", k))
			desc := ""
			if x != nil {
				desc = x.Description
			}
			if w.comp(c, desc, x != nil) {
				w.schema(x.Schema, cp.Schema)
			}
		}
		pop()
	}
}

func genMulti(r *simrt.Rand, modes []string) *multiCase {
	c := &multiCase{M: doc.DrawMulti(r, simrt.Pick(r, []int{2, 3, 5, 6})), Mode: simrt.Pick(r, modes),
		Lat: simrt.Pick(r, []int{0, 10, 500, 20000}), Seq: r.P(0.2), Circ: r.P(0.3)}
	if c.Mode == "remote" && r.P(0.5) {
		c.M.Abs = "http://sim.test/api"
	}
	return c
}

func init() {
	harness.Register(&harness.Scenario{
		Name: "multi-file", Property: "C03", Est: 300000,
		New: func() any { return &multiCase{} },
		Gen: func(r *simrt.Rand) any {
			c := genMulti(r, []string{"os", "os", "dirfs"})
			c.Compare = r.P(0.2)
			return c
		},
		Run: func(ci any, e *harness.Env) {
			c := ci.(*multiCase)
			b := c.prepare(e, 1, false)
			defer b.done()
			e.Sim(func() {
				c.build(b)
			})
			if e.Failed() {
				return
			}
			if b.newErr != nil {
				e.Fail("unexpected-error", "document refused: %v", b.newErr)
				return
			}
			if b.err != nil && !strings.Contains(b.err.Error(), "circular reference") {
				e.Fail("unexpected-error", "every reference has a target but the build reports: %v", b.err)
				return
			}
			if b.model == nil {
				e.Fail("no-model", "no model: %v", b.err)
				return
			}
			w := newWalker(e, c.M, "resolve")
			e.Ref(2, func() { w.document(b.model, nil) })
			e.Probes["refs-checked"] += w.count
			for p, n := range b.disk.loads {
				if n > 1 {
					e.Fail("loaded-twice", "%s was read %d times", p, n)
				}
			}
			e.Digest(fmt.Sprint(w.count, b.err))
		},
	})
}

func (c *multiCase) Valid() bool { return c.M != nil && c.M.Valid() }

// hard tells which files certainly cannot be read, maybe which may or may not be.
func (c *multiCase) affected() (hard, maybe map[int]bool) {
	hard, maybe = map[int]bool{}, map[int]bool{}
	files := c.M.Build()
	for f := range c.M.Files {
		if f == 0 {
			continue
		}
		ft := c.Faults[c.M.Files[f].Path]
		if ft == nil {
			continue
		}
		eff := false
		switch ft.Kind {
		case "stat":
			maybe[f] = true // whether a file exists is found out by asking for its status
		case "missing", "eio-open", "eacces", "emfile", "refused", "timeout", "nil", "err-with-resp", "500", "404", "503", "429":
			eff = true
		case "eio-read", "reset":
			eff = ft.At <= len(files[c.M.Files[f].Path])
		}
		if !eff {
			continue
		}
		if ft.N > 0 && ft.Kind != "missing" {
			maybe[f] = true
		} else {
			hard[f] = true
		}
	}
	return
}

func (w *walker) affect(hard, maybe map[int]bool) (badPath map[int]bool) {
	badPath = map[int]bool{}
	for i, s := range w.m.Schemas {
		w.bad[i] = hard[s.File]
		w.maybe[i] = maybe[s.File]
	}
	for i, s := range w.m.Comps {
		w.badC[i] = hard[s.File]
		w.maybeC[i] = maybe[s.File]
	}
	for i, s := range w.m.Paths {
		if hard[s.File] {
			badPath[i] = true
		}
		w.maybeP[i] = maybe[s.File]
	}
	return
}
