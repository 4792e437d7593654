package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/arazzo"
	"github.com/pb33f/libopenapi/datamodel"
	high "github.com/pb33f/libopenapi/datamodel/high/arazzo"
	v3high "github.com/pb33f/libopenapi/datamodel/high/v3"

	"verifsim/doc"
	"verifsim/harness"
	"verifsim/simrt"
)

// Property arazzo-sources: resolving the sources of an Arazzo document over a failing network and a
// failing disk gives every source or an error, and never leaves the limits of its configuration.

type srcSpec struct {
	Kind  string   `json:"kind"`           // http file rel
	Type  string   `json:"type,omitempty"` // openapi arazzo "" OpenAPI bogus
	Host  string   `json:"host,omitempty"`
	Path  string   `json:"path"`
	Pad   int      `json:"pad,omitempty"`
	Fault string   `json:"fault,omitempty"`
	At    int      `json:"at,omitempty"` // bytes, or milliseconds
	Hops  []string `json:"hops,omitempty"`
	HTTPS bool     `json:"https,omitempty"`
	Decoy bool     `json:"decoy,omitempty"` // the second root has a file of the same name
}

type srcCase struct {
	Sources    [][]*srcSpec `json:"sources"` // one list per document, resolved at the same time
	Mode       string       `json:"mode"`    // handler client default
	TimeoutMs  int          `json:"timeout"`
	MaxBody    int          `json:"maxbody,omitempty"`
	MaxSources int          `json:"maxsources,omitempty"`
	Hosts      []string     `json:"hosts,omitempty"`
	Schemes    []string     `json:"schemes,omitempty"`
	Roots      bool         `json:"roots,omitempty"`
	Base       string       `json:"base,omitempty"` // "", http, file
	Lat        int          `json:"lat,omitempty"`
	ClientMs   int          `json:"clientms,omitempty"`  // timeout of the caller's client
	Redirects  string       `json:"redirects,omitempty"` // policy of the caller's client: "", none, many
}

// hostOf is the host name in an authority.
func hostOf(a string) string {
	a = a[strings.LastIndex(a, "@")+1:]
	if i := strings.Index(a, ":"); i >= 0 {
		a = a[:i]
	}
	return a
}

// hopOf splits a redirect into scheme and authority.
func hopOf(h, sch string) (string, string) {
	if i := strings.Index(h, "+"); i >= 0 {
		return h[:i], h[i+1:]
	}
	return sch, h
}

// timeout is how long one fetch may take.
func (c *srcCase) timeout() int {
	if c.Mode == "client" && c.ClientMs > 0 && c.ClientMs < c.TimeoutMs {
		return c.ClientMs
	}
	return c.TimeoutMs
}

func (c *srcCase) Valid() bool {
	seen := map[string]bool{}
	for d, l := range c.Sources {
		for i, s := range l {
			if s == nil || s.Path == "" {
				return false
			}
			if s.Kind == "rel" && c.Base == "" && !c.Roots {
				return false
			}
			if k := c.target(d, i); seen[k] {
				return false
			} else {
				seen[k] = true
			}
			for _, h := range s.Hops {
				if _, a := hopOf(h, "http"); a == "" {
					return false
				}
			}
			if s.Host == "" && s.Kind == "http" {
				return false
			}
			switch s.Kind {
			case "http", "file", "rel":
			default:
				return false
			}
		}
	}
	return len(c.Sources) > 0 && c.TimeoutMs > 0
}

func (c *srcCase) raw(s *srcSpec) string {
	switch s.Kind {
	case "http":
		return scheme(s) + "://" + s.Host + "/" + s.Path
	case "file":
		return "file://" + vroot + "/" + s.Path
	}
	return s.Path
}

func scheme(s *srcSpec) string {
	if s.HTTPS {
		return "https"
	}
	return "http"
}

func (c *srcCase) baseURL() string {
	switch c.Base {
	case "http":
		return "http://good.test/base/"
	case "file":
		return "file://" + vroot + "/root/"
	}
	return ""
}

// target is where the content of a source really is.
func (c *srcCase) target(d, i int) string {
	s := c.Sources[d][i]
	switch {
	case s.Kind == "http":
		return hostOf(s.Host) + "/" + s.Path
	case s.Kind == "file":
		return path.Clean(s.Path)
	case c.Base == "http":
		return "good.test" + path.Join("/base", s.Path)
	}
	return path.Join("root", s.Path)
}

func (c *srcCase) isHTTP(s *srcSpec) bool {
	return s.Kind == "http" || s.Kind == "rel" && c.Base == "http"
}

func (s *srcSpec) typ() string {
	t := strings.ToLower(s.Type)
	if t == "" {
		t = "openapi"
	}
	return t
}

func (c *srcCase) content(d, i int) []byte {
	s := c.Sources[d][i]
	var b strings.Builder
	title := fmt.Sprintf("src-%d-%d", d, i)
	if s.typ() == "arazzo" {
		fmt.Fprintf(&b, "arazzo: 1.0.1\ninfo:\n  title: %s\n  version: '1'\n", title)
	} else {
		fmt.Fprintf(&b, "openapi: 3.1.0\ninfo:\n  title: %s\n  version: '1'\npaths: {}\n", title)
	}
	for k := 0; k < s.Pad; k++ {
		fmt.Fprintf(&b, "x-pad-%d: %s\n", k, strings.Repeat("p", 20))
	}
	return []byte(b.String())
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if strings.EqualFold(x, s) {
			return true
		}
	}
	return false
}

func (c *srcCase) allowed(sch, host string) bool {
	sc := c.Schemes
	if len(sc) == 0 {
		sc = []string{"http", "https", "file"}
	}
	if !contains(sc, sch) {
		return false
	}
	return sch == "file" || len(c.Hosts) == 0 || contains(c.Hosts, host)
}

func (c *srcCase) limit() int {
	if c.MaxBody > 0 {
		return c.MaxBody
	}
	return 10 << 20
}

func (s *srcSpec) escapes() bool {
	return strings.Contains(s.Path, "..") || strings.Contains(s.Path, "secret") || strings.Contains(s.Path, "linkout") || strings.Contains(s.Path, "dout-")
}

// expect says whether a source must resolve ("ok"), must fail ("fail") or may do either.
func (c *srcCase) expect(d, i int) string {
	s := c.Sources[d][i]
	size := len(c.content(d, i))
	big := size > c.limit()
	if s.typ() == "bogus" || s.Fault == "factory" {
		return "fail"
	}
	if !c.isHTTP(s) {
		if !c.allowed("file", "") {
			return "fail"
		}
		if c.Roots && s.escapes() {
			return "fail"
		}
		switch s.Fault {
		case "missing", "eio-open", "eacces", "emfile":
			return "fail"
		case "eio-read":
			return "fail"
		case "stat", "grow":
			return "either"
		}
		if big {
			return "fail"
		}
		return "ok"
	}
	host, sch := hostOf(s.Host), scheme(s)
	if s.Kind == "rel" {
		host, sch = "good.test", "http"
	}
	if !c.allowed(sch, host) {
		return "fail"
	}
	if c.Mode == "handler" {
		switch s.Fault {
		case "refused", "reset", "500", "404":
			return "fail"
		}
		if big {
			return "fail"
		}
		return "ok"
	}
	for _, h := range s.Hops {
		if hs, a := hopOf(h, sch); !c.allowed(hs, hostOf(a)) {
			return "fail"
		}
	}
	policy := ""
	if c.Mode == "client" {
		policy = c.Redirects
	}
	switch {
	case policy == "none" && len(s.Hops) > 0, policy == "" && len(s.Hops) >= 10, len(s.Hops) > 15:
		return "fail"
	}
	switch s.Fault {
	case "refused", "reset", "500", "404", "stall", "stall-body", "304", "endless":
		return "fail"
	case "slow":
		if s.At >= c.timeout() {
			return "fail"
		}
	case "drip":
		if s.At*dripChunks(size, c.limit()) >= c.timeout() {
			return "fail"
		}
	}
	if big {
		return "fail"
	}
	return "ok"
}

const dripSize = 64

// dripChunks is how many delays a reader that stops just past its limit sits through.
func dripChunks(size, limit int) int {
	if size > limit {
		size = limit + 1
	}
	return (size + dripSize - 1) / dripSize
}

// srcWeb is the simulated network below net/http.
type srcWeb struct {
	c     *srcCase
	e     *harness.Env
	mu    sync.Mutex
	at    map[string][2]int // target -> document, source
	open  int
	reqs  []string
	bad   string
	reads map[string]int
}

func (w *srcWeb) find(host, p string) (int, int, bool) {
	x, ok := w.at[host+p]
	return x[0], x[1], ok
}

func (w *srcWeb) fault(k string) {
	w.mu.Lock()
	w.e.Fault(k)
	w.mu.Unlock()
}

func (w *srcWeb) RoundTrip(req *http.Request) (*http.Response, error) {
	host, sch := req.URL.Hostname(), req.URL.Scheme
	w.mu.Lock()
	w.reqs = append(w.reqs, req.URL.String())
	if !w.c.allowed(sch, host) && w.bad == "" {
		w.bad = req.URL.String()
	}
	w.mu.Unlock()
	if w.c.Lat > 0 {
		time.Sleep(time.Duration(w.c.Lat) * time.Microsecond)
	}
	if req.Context().Err() != nil {
		return nil, req.Context().Err()
	}
	hop := 0
	p := req.URL.Path
	key := host + p
	if q := req.URL.Query().Get("hop"); q != "" {
		hop, _ = strconv.Atoi(q)
		key = req.URL.Query().Get("t")
	}
	x, ok := w.at[key]
	if !ok {
		return w.resp(req, 404, nil), nil
	}
	s := w.c.Sources[x[0]][x[1]]
	if hop < len(s.Hops) {
		w.fault("redirect")
		r := w.resp(req, 302, nil)
		hs, a := hopOf(s.Hops[hop], sch)
		r.Header.Set("Location", fmt.Sprintf("%s://%s/h?hop=%d&t=%s", hs, a, hop+1, key))
		return r, nil
	}
	body := w.c.content(x[0], x[1])
	b := &srcBody{w: w, ctx: req.Context(), data: body, key: key}
	switch s.Fault {
	case "refused":
		w.fault("net-refused")
		return nil, errors.New("connection refused")
	case "500":
		w.fault("net-500")
		return w.resp(req, 500, b), nil
	case "404":
		w.fault("net-404")
		return w.resp(req, 404, b), nil
	case "304":
		w.fault("net-304")
		return w.resp(req, 304, b), nil
	case "stall":
		w.fault("net-stall")
		<-req.Context().Done()
		return nil, req.Context().Err()
	case "slow":
		w.fault("net-slow")
		t := time.NewTimer(time.Duration(s.At)*time.Millisecond + 7*time.Microsecond)
		defer t.Stop()
		select {
		case <-req.Context().Done():
			return nil, req.Context().Err()
		case <-t.C:
		}
	case "reset", "stall-body":
		w.fault("net-" + s.Fault)
		b.cut, b.mode = s.At%(len(body)+1), s.Fault
	case "drip":
		w.fault("net-drip")
		b.delay = time.Duration(s.At) * time.Millisecond
	case "endless":
		w.fault("net-endless")
		b.mode = "endless"
	case "short":
		w.fault("net-short-reads")
		b.mode = "short"
	}
	r := w.resp(req, 200, b)
	return r, nil
}

func (w *srcWeb) resp(req *http.Request, code int, b *srcBody) *http.Response {
	if b == nil {
		b = &srcBody{w: w, ctx: req.Context()}
	}
	w.mu.Lock()
	w.open++
	w.mu.Unlock()
	return &http.Response{StatusCode: code, Status: strconv.Itoa(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: b, ContentLength: -1, Request: req}
}

type srcBody struct {
	w      *srcWeb
	ctx    context.Context
	data   []byte
	pos    int
	cut    int
	mode   string
	delay  time.Duration
	closed bool
	key    string
	given  int
}

func (b *srcBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("read of a closed body")
	}
	if err := b.ctx.Err(); err != nil {
		return 0, err
	}
	n := len(p)
	if b.delay > 0 && b.pos < len(b.data) {
		t := time.NewTimer(b.delay)
		select {
		case <-b.ctx.Done():
			t.Stop()
			return 0, b.ctx.Err()
		case <-t.C:
		}
		n = min(n, dripSize)
	}
	switch b.mode {
	case "endless":
		for i := range p {
			p[i] = '#'
		}
		b.count(n)
		return n, nil
	case "short":
		n = min(n, 7)
	case "reset", "stall-body":
		n = min(n, b.cut-b.pos)
		if n == 0 {
			if b.mode == "reset" {
				return 0, errors.New("connection reset by peer")
			}
			<-b.ctx.Done()
			return 0, b.ctx.Err()
		}
	}
	if b.pos >= len(b.data) {
		return 0, io.EOF
	}
	n = copy(p[:n], b.data[b.pos:])
	b.pos += n
	b.count(n)
	return n, nil
}

func (b *srcBody) count(n int) {
	b.given += n
	b.w.mu.Lock()
	if b.given > b.w.reads[b.key] {
		b.w.reads[b.key] = b.given
	}
	b.w.mu.Unlock()
}

func (b *srcBody) Close() error {
	b.w.mu.Lock()
	if !b.closed {
		b.w.open--
	}
	b.closed = true
	b.w.mu.Unlock()
	return nil
}

type madeDoc struct {
	url   string
	bytes string
	open  *v3high.Document
	ar    *high.Arazzo
}

func runSources(c *srcCase, e *harness.Env) {
	files := map[string][]byte{"secret/keep.yaml": []byte("secret: true\n"), "root/keep": {}, "root2/keep": {}}
	faults := map[string]*fileFault{}
	w := &srcWeb{c: c, e: e, at: map[string][2]int{}, reads: map[string]int{}}
	grow := map[string]int{}
	type lnk struct{ name, to string }
	var links []lnk
	for d, l := range c.Sources {
		for i, s := range l {
			t := c.target(d, i)
			if c.isHTTP(s) {
				w.at[t] = [2]int{d, i}
				continue
			}
			b := c.content(d, i)
			base := path.Base(t)
			if s.Decoy && s.Kind == "rel" && c.Base == "" && s.Fault != "missing" {
				files[path.Join("root2", s.Path)] = []byte("decoy: true\n")
			}
			switch dir := path.Base(path.Dir(t)); {
			case strings.HasPrefix(dir, "dout-"):
				files["secret/x-"+dir+"/"+base] = b
				links = append(links, lnk{path.Dir(t), "../secret/x-" + dir})
			case strings.HasPrefix(dir, "din-"):
				files["root/x-"+dir+"/"+base] = b
				links = append(links, lnk{path.Dir(t), "x-" + dir})
			case strings.HasPrefix(base, "linkout"):
				files["secret/t-"+base] = b
				links = append(links, lnk{t, "../secret/t-" + base})
			case strings.HasPrefix(base, "linkin"):
				files["root/t-"+base] = b
				links = append(links, lnk{t, "t-" + base})
			case s.Kind == "rel" && c.Base == "" && strings.HasPrefix(base, "second"):
				files[path.Join("root2", s.Path)] = b
				t = path.Join("root2", s.Path)
			default:
				files[t] = b
			}
			switch s.Fault {
			case "grow":
				grow[t] = 1
			case "missing", "eio-open", "eacces", "emfile", "eio-read", "short", "slow", "stat":
				if !strings.HasPrefix(base, "link") && !strings.HasPrefix(path.Base(path.Dir(t)), "d") {
					faults[t] = &fileFault{Kind: s.Fault, At: s.At}
				}
			}
		}
	}
	d := &disk{root: vroot, e: e, r: simrt.NewRand(simrt.Mix(e.Seed(), 41)), lat: c.Lat, faults: faults}
	unmount := d.mount(files)
	real := os.VerifReal
	defer unmount()
	for _, l := range links {
		os.MkdirAll(filepath.Dir(filepath.Join(real, l.name)), 0o755)
		if err := os.Symlink(l.to, filepath.Join(real, l.name)); err != nil {
			panic(err)
		}
	}
	inner := os.VerifOp
	os.VerifOp = func(op, name string, n int) (int, error) {
		k, err := inner(op, name, n)
		p := strings.TrimPrefix(name, vroot+"/")
		// the file gets longer between the moment it is looked at and the moment it is read
		w.mu.Lock()
		now := op == "read" && grow[p] == 1
		if now {
			grow[p] = 2
		}
		w.mu.Unlock()
		if now {
			e.Fault("disk-grow")
			if f, err := os.OpenFile(filepath.Join(real, p), os.O_APPEND|os.O_WRONLY, 0); err == nil {
				f.WriteString(strings.Repeat("# more\n", 1+c.limit()/7))
				f.Close()
			}
		}
		return k, err
	}
	cfg := &arazzo.ResolveConfig{BaseURL: c.baseURL(), Timeout: time.Duration(c.TimeoutMs) * time.Millisecond, MaxBodySize: int64(c.MaxBody),
		AllowedSchemes: c.Schemes, AllowedHosts: c.Hosts, MaxSources: c.MaxSources}
	if c.Roots {
		cfg.FSRoots = []string{vroot + "/root", vroot + "/root2"}
	}
	var mu sync.Mutex
	made := map[string][]*madeDoc{}
	factoryFails := map[string]bool{}
	for dd, l := range c.Sources {
		for i, s := range l {
			if s.Fault == "factory" {
				factoryFails[fmt.Sprintf("src-%d-%d", dd, i)] = true
			}
		}
	}
	title := func(b []byte) string {
		n, err := doc.Parse(b)
		if err != nil {
			return ""
		}
		return str(n.At("info", "title"))
	}
	errFactory := errors.New("factory refused")
	cfg.OpenAPIFactory = func(u string, b []byte) (*v3high.Document, error) {
		m := &madeDoc{url: u, bytes: string(b)}
		t := title(b)
		mu.Lock()
		made[t] = append(made[t], m)
		mu.Unlock()
		if factoryFails[t] {
			w.fault("factory-error")
			return nil, errFactory
		}
		dc := datamodel.NewDocumentConfiguration()
		dc.Logger = quietLogger
		dd, err := libopenapi.NewDocumentWithConfiguration(b, dc)
		if err != nil {
			return nil, err
		}
		mm, err := dd.BuildV3Model()
		if err != nil {
			return nil, err
		}
		m.open = &mm.Model
		return m.open, nil
	}
	cfg.ArazzoFactory = func(u string, b []byte) (*high.Arazzo, error) {
		m := &madeDoc{url: u, bytes: string(b)}
		t := title(b)
		mu.Lock()
		made[t] = append(made[t], m)
		mu.Unlock()
		if factoryFails[t] {
			w.fault("factory-error")
			return nil, errFactory
		}
		a, err := libopenapi.NewArazzoDocument(b)
		m.ar = a
		return a, err
	}
	switch c.Mode {
	case "handler":
		cfg.HTTPHandler = func(u string) ([]byte, error) {
			mu.Lock()
			w.reqs = append(w.reqs, u)
			mu.Unlock()
			key := u[strings.Index(u, "://")+3:]
			h := hostOf(key[:strings.Index(key, "/")])
			if !c.allowed(u[:strings.Index(u, "://")], h) {
				w.bad = u
			}
			key = h + key[strings.Index(key, "/"):]
			x, ok := w.at[key]
			if !ok {
				return nil, fmt.Errorf("nothing at %s", u)
			}
			s := c.Sources[x[0]][x[1]]
			switch s.Fault {
			case "refused", "reset", "500", "404":
				w.fault("handler-error")
				return nil, errors.New("handler: " + s.Fault)
			case "slow", "stall":
				w.fault("handler-slow")
				time.Sleep(time.Duration(s.At) * time.Millisecond)
			}
			return c.content(x[0], x[1]), nil
		}
	case "client":
		cfg.HTTPClient = &http.Client{Transport: w, Timeout: time.Duration(c.ClientMs) * time.Millisecond}
		switch c.Redirects {
		case "none":
			cfg.HTTPClient.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
		case "many":
			cfg.HTTPClient.CheckRedirect = func(_ *http.Request, via []*http.Request) error {
				if len(via) > 15 {
					return errors.New("too many redirects")
				}
				return nil
			}
		}
	default:
		old := http.DefaultTransport
		http.DefaultTransport = w
		defer func() { http.DefaultTransport = old }()
	}
	type outcome struct {
		res      []*arazzo.ResolvedSource
		err      error
		attached []*v3high.Document
		took     time.Duration
	}
	outs := make([]outcome, len(c.Sources))
	e.Sim(func() {
		var wg sync.WaitGroup
		for di, l := range c.Sources {
			a := &high.Arazzo{}
			for i, s := range l {
				a.SourceDescriptions = append(a.SourceDescriptions, &high.SourceDescription{Name: fmt.Sprintf("n-%d-%d", di, i), URL: c.raw(s), Type: s.Type})
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				t0 := time.Now()
				r, err := arazzo.ResolveSources(a, cfg)
				outs[di] = outcome{r, err, a.GetOpenAPISourceDocuments(), time.Since(t0)}
			}()
		}
		wg.Wait()
	})
	if e.Failed() {
		return
	}
	if w.bad != "" {
		e.Fail("source-policy", "a request was sent to %s, which the configuration does not allow (hosts %v, schemes %v)", w.bad, c.Hosts, c.Schemes)
		return
	}
	if w.open != 0 {
		e.Fail("source-body-leak", "%d response bodies were never closed", w.open)
		return
	}
	for k, n := range w.reads {
		// one byte past the limit tells that the body is too large
		if n > c.limit()+4096 {
			e.Fail("source-limit", "%d bytes of %s were read although the limit is %d", n, k, c.limit())
			return
		}
	}
	for t, l := range made {
		for _, m := range l {
			if len(m.bytes) > c.limit() {
				e.Fail("source-limit", "%d bytes were handed to the factory although the limit is %d", len(m.bytes), c.limit())
				return
			}
			var di, i int
			if n, _ := fmt.Sscanf(t, "src-%d-%d", &di, &i); n != 2 {
				e.Fail("source-content", "the factory was given something no source contains: %.200q", m.bytes)
				return
			}
			if want := string(c.content(di, i)); m.bytes != want && (c.Sources[di][i].Fault != "grow" || !strings.HasPrefix(m.bytes, want)) {
				e.Fail("source-content", "the factory was given %q for source %s, which contains %q", m.bytes, t, want)
				return
			}
			if c.Roots && !c.isHTTP(c.Sources[di][i]) && c.Sources[di][i].escapes() {
				e.Fail("source-roots", "the content of %s was loaded although it is outside the configured roots", c.raw(c.Sources[di][i]))
				return
			}
		}
	}
	if c.Roots {
		for p, n := range d.opens {
			if n > 0 && strings.HasPrefix(p, "secret") {
				e.Fail("source-roots", "%s was opened although it is outside the configured roots", p)
				return
			}
		}
	}
	for di, l := range c.Sources {
		o := outs[di]
		e.Probe("resolutions")
		must, may := -1, false
		maxSrc := c.MaxSources
		if maxSrc == 0 {
			maxSrc = 50
		}
		tooMany := len(l) > maxSrc
		budget := time.Duration(0)
		for i, s := range l {
			switch c.expect(di, i) {
			case "fail":
				if must < 0 {
					must = i
				}
			case "either":
				may = true
			}
			if c.isHTTP(s) {
				if c.Mode == "handler" {
					budget += time.Duration(s.At) * time.Millisecond
				} else {
					// the limit is one of time, checked when something happens
					budget += time.Duration(c.TimeoutMs)*time.Millisecond + time.Duration(c.Lat*12)*time.Microsecond
				}
			} else {
				budget += time.Duration(s.At)*time.Millisecond + time.Duration(c.Lat*1000)*time.Microsecond
			}
		}
		switch {
		case o.err != nil:
			e.Probe("failed")
			if o.res != nil {
				e.Fail("source-partial", "document %d: sources were returned with an error (%v)", di, o.err)
				return
			}
			if len(o.attached) != 0 {
				e.Fail("source-partial", "document %d: %d source documents are attached although resolving failed (%v)", di, len(o.attached), o.err)
				return
			}
			if !tooMany && must < 0 && !may {
				e.Fail("source-spurious", "document %d: every source can be had but resolving failed: %v", di, o.err)
				return
			}
			if !tooMany && !errors.Is(o.err, arazzo.ErrSourceDescLoadFailed) {
				e.Fail("source-error", "document %d: the error is not a source failure: %v", di, o.err)
				return
			}
		default:
			e.Probe("resolved")
			if tooMany {
				e.Fail("source-limit", "document %d: %d sources were resolved although the limit is %d", di, len(l), maxSrc)
				return
			}
			if must >= 0 {
				e.Fail("source-accepted", "document %d: source %d (%s, fault %q) cannot be had but resolving succeeded", di, must, c.raw(l[must]), l[must].Fault)
				return
			}
			if len(o.res) != len(l) {
				e.Fail("source-count", "document %d: %d sources, %d resolved", di, len(l), len(o.res))
				return
			}
			var att []*v3high.Document
			for i, s := range l {
				r := o.res[i]
				ttl := fmt.Sprintf("src-%d-%d", di, i)
				if r == nil || r.Name != fmt.Sprintf("n-%d-%d", di, i) || r.Type != s.typ() {
					e.Fail("source-result", "document %d: source %d resolved to %+v", di, i, r)
					return
				}
				if s.typ() == "openapi" {
					if r.OpenAPIDocument == nil || r.ArazzoDocument != nil || r.OpenAPIDocument.Info.Title != ttl {
						e.Fail("source-result", "document %d: source %d has the wrong document", di, i)
						return
					}
					att = append(att, r.OpenAPIDocument)
				} else if r.ArazzoDocument == nil || r.OpenAPIDocument != nil || r.ArazzoDocument.Info.Title != ttl {
					e.Fail("source-result", "document %d: source %d has the wrong document", di, i)
					return
				}
				want := c.raw(s)
				if s.Kind == "rel" {
					switch {
					case c.Base == "http":
						want = "http://" + c.target(di, i)
					case strings.HasPrefix(path.Base(s.Path), "second") && c.Base == "":
						want = "file://" + vroot + "/" + path.Join("root2", s.Path)
					default:
						want = "file://" + vroot + "/" + c.target(di, i)
					}
				} else if s.Kind == "file" {
					want = "file://" + vroot + "/" + path.Clean(s.Path)
				}
				if r.URL != want {
					e.Fail("source-result", "document %d: source %d was resolved as %s instead of %s", di, i, r.URL, want)
					return
				}
			}
			if len(att) != len(o.attached) {
				e.Fail("source-attach", "document %d: %d OpenAPI sources, %d attached", di, len(att), len(o.attached))
				return
			}
			for i := range att {
				if att[i] != o.attached[i] {
					e.Fail("source-attach", "document %d: attached documents are not the resolved ones in order", di)
					return
				}
			}
		}
		if o.took > budget+time.Millisecond {
			e.Fail("source-timeout", "document %d: resolving took %v of virtual time; its sources allow %v", di, o.took, budget)
			return
		}
	}
	if tooManyAll(c) && (len(w.reqs) > 0 || len(d.opens) > 0) {
		e.Fail("source-limit", "requests were made although there are too many sources: %v", w.reqs)
		return
	}
	e.Digest(fmt.Sprint(w.reqs, d.opens))
}

func tooManyAll(c *srcCase) bool {
	m := c.MaxSources
	if m == 0 {
		m = 50
	}
	for _, l := range c.Sources {
		if len(l) <= m {
			return false
		}
	}
	return true
}

func genSources(r *simrt.Rand) any {
	for {
		c := &srcCase{Mode: simrt.Pick(r, []string{"client", "client", "default", "handler"}), TimeoutMs: simrt.Pick(r, []int{50, 1000, 30000}), Lat: simrt.Pick(r, []int{0, 0, 20, 300})}
		c.MaxBody = simrt.Pick(r, []int{0, 150, 400, 3000})
		if r.P(0.15) {
			c.MaxSources = r.Range(1, 3)
		}
		if r.P(0.5) {
			c.Hosts = simrt.Pick(r, [][]string{{"good.test"}, {"GOOD.test", "other.test"}, {"other.test"}})
		}
		if r.P(0.3) {
			c.Schemes = simrt.Pick(r, [][]string{{"https", "file"}, {"http", "https"}, {"HTTP", "file"}, {"file"}})
		}
		if r.P(0.3) {
			c.ClientMs = simrt.Pick(r, []int{c.TimeoutMs * 3, c.TimeoutMs * 3, c.TimeoutMs / 2})
		}
		if r.P(0.3) {
			c.Redirects = simrt.Pick(r, []string{"none", "many", "many"})
		}
		c.Roots = r.P(0.6)
		c.Base = simrt.Pick(r, []string{"", "http", "file"})
		faulty := simrt.Pick(r, []float64{0, 0.15, 0.5})
		esc := simrt.Pick(r, []float64{0, 0.1})
		k := 0
		for d := r.Range(1, 2); d > 0; d-- {
			var l []*srcSpec
			for i := r.Range(1, 4); i > 0; i-- {
				k++
				s := &srcSpec{Kind: simrt.Pick(r, []string{"http", "http", "file", "rel"}), Type: simrt.Pick(r, []string{"openapi", "openapi", "arazzo", "", "OpenAPI"}), Path: fmt.Sprintf("s%d.yaml", k)}
				if r.P(0.2) {
					s.Path = "sub/" + s.Path
				}
				if r.P(0.02) {
					s.Type = "bogus"
				}
				s.Pad = simrt.Pick(r, []int{0, 0, 3, 8, 60})
				if c.MaxBody > 0 && c.MaxBody < 3000 && r.P(0.7) {
					s.Pad = r.N(2)
				}
				http := s.Kind == "http" || s.Kind == "rel" && c.Base == "http"
				if s.Kind == "http" {
					s.Host = simrt.Pick(r, []string{"good.test", "good.test", "good.test", "other.test"})
					if len(c.Hosts) > 0 && r.P(0.8) {
						s.Host = strings.ToLower(c.Hosts[0])
					}
					s.HTTPS = r.P(0.4)
					if r.P(0.07) {
						s.Host = simrt.Pick(r, []string{"evil.test", "sub.good.test", "good.test.evil.test", "evilgood.test", "good.test@evil.test", "good.test:8080", "evil@good.test"})
					}
				}
				if http {
					if r.P(0.15) {
						wild := r.P(0.4)
						for h := simrt.Pick(r, []int{1, 1, 2, 9, 10, 12, 16}); h > 0; h-- {
							to := s.Host
							if s.Kind != "http" {
								to = "good.test"
							}
							if wild && r.P(0.4) {
								to = simrt.Pick(r, []string{"good.test", "other.test", "evil.test", "sub.good.test", "good.test@evil.test", "https+good.test", "http+good.test"})
							}
							s.Hops = append(s.Hops, to)
						}
					}
					if r.P(faulty) {
						s.Fault = simrt.Pick(r, []string{"refused", "500", "404", "304", "stall", "stall-body", "reset", "slow", "drip", "endless", "short", "factory"})
						switch s.Fault {
						case "slow":
							s.At = simrt.Pick(r, []int{10, 49, 60, 2000, 29999, 40000})
						case "drip":
							s.At = simrt.Pick(r, []int{3, 30, 700})
						case "reset", "stall-body":
							s.At = r.N(400)
						}
					}
				} else {
					if s.Kind == "file" {
						s.Path = simrt.Pick(r, []string{"root/", "root/", "root2/"}) + s.Path
					}
					if r.P(faulty) {
						s.Fault = simrt.Pick(r, []string{"missing", "eio-open", "eacces", "emfile", "eio-read", "short", "slow", "stat", "grow", "grow", "factory"})
						s.At = simrt.Pick(r, []int{0, 10, 50})
					}
					if r.P(esc) {
						base := fmt.Sprintf("s%d.yaml", k)
						if s.Kind == "file" {
							s.Path = simrt.Pick(r, []string{"secret/" + base, "root/../secret/" + base, "root/linkout-" + base, "rootx/secret-" + base, fmt.Sprintf("root/dout-%d/%s", k, base)})
						} else {
							s.Path = simrt.Pick(r, []string{"../secret/" + base, "linkout-" + base, "sub/../../secret/" + base, fmt.Sprintf("dout-%d/%s", k, base)})
						}
						s.Fault = ""
					} else if r.P(0.1) && s.Fault == "" {
						base := fmt.Sprintf("s%d.yaml", k)
						if s.Kind == "file" {
							s.Path = simrt.Pick(r, []string{"root/linkin-" + base, fmt.Sprintf("root/din-%d/%s", k, base)})
						} else {
							s.Path = simrt.Pick(r, []string{"linkin-" + base, "second-" + base, fmt.Sprintf("din-%d/%s", k, base)})
						}
					} else if s.Kind == "rel" {
						s.Decoy = r.P(0.5)
					}
				}
				l = append(l, s)
			}
			c.Sources = append(c.Sources, l)
		}
		if c.Valid() {
			return c
		}
	}
}

func init() {
	harness.Register(&harness.Scenario{Name: "arazzo-sources", Property: "C12", Est: 60000,
		New: func() any { return &srcCase{} }, Gen: genSources,
		Run: func(c any, e *harness.Env) { runSources(c.(*srcCase), e) }})
}
