package props

import (
	"context"
	"fmt"
	"io"
	"io/fs"
	"log/slog"
	"net/url"
	"strings"
	"time"

	"github.com/pb33f/libopenapi/index"

	"verifsim/harness"
	"verifsim/simrt"
)

// Concurrent opens of remote files through a simulated network (C05).

type rfile struct {
	Path  string     `json:"path"`
	JSON  bool       `json:"json,omitempty"`
	Size  int        `json:"size"`
	Fault *fileFault `json:"fault,omitempty"`
}

type ropen struct {
	File  int    `json:"file"`
	At    int    `json:"at"`  // microseconds after the start
	Via   string `json:"via"` // fs rolodex
	Again bool   `json:"again,omitempty"`
	Frag  string `json:"frag,omitempty"`
}

type remoteCase struct {
	Files  []rfile `json:"files"`
	Opens  []ropen `json:"opens"`
	Lat    int     `json:"lat"`
	Detect bool    `json:"detect,omitempty"`
	Base   bool    `json:"base,omitempty"`
}

func (c *remoteCase) Valid() bool {
	for _, o := range c.Opens {
		if o.File < 0 || o.File >= len(c.Files) || o.At < 0 {
			return false
		}
	}
	seen := map[string]bool{}
	for _, f := range c.Files {
		if seen[f.Path] || f.Path == "" {
			return false
		}
		seen[f.Path] = true
	}
	return len(c.Files) > 0
}

func (f rfile) content(i int) []byte {
	var s strings.Builder
	if f.JSON {
		fmt.Fprintf(&s, `{"components": {"schemas": {`)
		for k := 0; k <= f.Size; k++ {
			if k > 0 {
				s.WriteString(",")
			}
			fmt.Fprintf(&s, `"S%d": {"type": "object", "description": "remote-%d-%d"}`, k, i, k)
		}
		s.WriteString("}}}")
	} else {
		s.WriteString("components:\n  schemas:\n")
		for k := 0; k <= f.Size; k++ {
			fmt.Fprintf(&s, "    S%d:\n      type: object\n      description: remote-%d-%d\n", k, i, k)
		}
	}
	return []byte(s.String())
}

func genRemote(r *simrt.Rand) *remoteCase {
	c := &remoteCase{Lat: simrt.Pick(r, []int{0, 10, 500, 20000}), Detect: r.P(0.4), Base: r.P(0.5)}
	n := r.Range(1, 4)
	for i := 0; i < n; i++ {
		f := rfile{JSON: r.P(0.4), Size: r.N(4)}
		if r.P(0.1) {
			f.Size = 60
		}
		ext := ".yaml"
		if f.JSON {
			ext = ".json"
		}
		if c.Detect && r.P(0.5) {
			ext = ""
		}
		f.Path = fmt.Sprintf("%sf%d%s", simrt.Pick(r, []string{"", "a/", "a/b/"}), i, ext)
		if r.P(0.45) {
			f.Fault = &fileFault{Kind: simrt.Pick(r, []string{"refused", "timeout", "nil", "err-with-resp", "500", "404", "503", "429", "reset", "slow"})}
			switch f.Fault.Kind {
			case "reset":
				f.Fault.At = r.N(len(f.content(i)) + 1)
			case "slow":
				f.Fault.At = r.N(3000)
			}
			if r.P(0.6) {
				f.Fault.N = r.Range(1, 3)
			}
		}
		c.Files = append(c.Files, f)
	}
	span := simrt.Pick(r, []int{1, 50, 20000, 3000000})
	for k := r.Range(2, 10); k > 0; k-- {
		o := ropen{File: r.N(n), At: r.N(span), Via: simrt.Pick(r, []string{"fs", "rolodex"}), Again: r.P(0.4)}
		if r.P(0.2) {
			o.Frag = "#/components/schemas/S0"
		}
		c.Opens = append(c.Opens, o)
	}
	return c
}

type openRec struct {
	op         int
	file       int
	start, end int
	ok         bool
	err        error
	content    string
	nothing    bool // neither a file nor an error
	idx        bool
}

func runRemote(c *remoteCase, e *harness.Env) {
	files := map[string][]byte{}
	faults := map[string]*fileFault{}
	for i, f := range c.Files {
		files[f.Path] = f.content(i)
		if f.Fault != nil {
			faults[f.Path] = f.Fault
		}
	}
	index.ClearContentDetectionCache()
	var recs []*openRec
	w := &web{e: e, r: simrt.NewRand(simrt.Mix(e.Seed(), 31)), lat: c.Lat, base: "http://sim.test/api", files: files, faults: faults,
		gets: map[string]int{}, failed: map[string]int{}, bad: map[string][][2]int{}, good: map[string]int{}}
	e.Sim(func() {
		cfg := index.CreateOpenAPIIndexConfig()
		cfg.AllowRemoteLookup = true
		cfg.AllowUnknownExtensionContentDetection = c.Detect
		cfg.Logger = slog.New(newErrLog())
		cfg.RemoteURLHandler = w.get
		if c.Base {
			cfg.BaseURL, _ = url.Parse("http://sim.test/api")
		}
		rfs, err := index.NewRemoteFSWithConfig(cfg)
		if err != nil {
			e.Fail("remote-setup", "%v", err)
			return
		}
		rolo := index.NewRolodex(cfg)
		rolo.AddRemoteFS("http://sim.test/api", rfs)
		done := make(chan bool, len(c.Opens))
		one := func(k int, o ropen) {
			u := "http://sim.test/api/" + c.Files[o.File].Path + o.Frag
			w.mu.Lock()
			w.clock++
			rec := &openRec{op: k, file: o.File, start: w.clock}
			recs = append(recs, rec)
			w.mu.Unlock()
			var content []byte
			var err error
			nothing := false
			if o.Via == "fs" {
				var f fs.File
				f, err = rfs.OpenWithContext(context.Background(), u)
				switch x := f.(type) {
				case nil:
					nothing = err == nil
				case *index.RemoteFile:
					nothing = x == nil && err == nil
					if x != nil && err == nil {
						content = []byte(x.GetContent())
						x.WaitForIndexing()
						rec.idx = x.GetIndex() != nil
					}
				default:
					content, _ = io.ReadAll(f)
				}
			} else {
				var f index.RolodexFile
				f, err = rolo.OpenWithContext(context.Background(), u)
				if f == nil {
					nothing = err == nil
				} else if err == nil {
					content = []byte(f.GetContent())
					f.WaitForIndexing()
					rec.idx = f.GetIndex() != nil
				}
			}
			w.mu.Lock()
			defer w.mu.Unlock()
			w.clock++
			rec.end, rec.err, rec.nothing, rec.content, rec.ok = w.clock, err, nothing, string(content), err == nil && !nothing
		}
		for k, o := range c.Opens {
			go func() {
				defer func() { done <- true }()
				if o.At > 0 {
					time.Sleep(time.Duration(o.At) * time.Microsecond)
				}
				one(k, o)
				if o.Again {
					one(k, o)
				}
			}()
		}
		for range c.Opens {
			<-done
		}
	})
	if e.Failed() {
		return
	}
	for _, rec := range recs {
		f := c.Files[rec.file]
		e.Probe("opens")
		if rec.nothing {
			e.Fail("remote-nothing", "open %d of %s returned neither a file nor an error", rec.op, f.Path)
			return
		}
		if rec.ok {
			e.Probe("opens-ok")
			if rec.content != string(files[f.Path]) {
				e.Fail("remote-content", "open %d of %s returned %q, the server sent %q", rec.op, f.Path, rec.content, files[f.Path])
				return
			}
			if !rec.idx {
				e.Fail("remote-no-index", "open %d of %s returned a file that has no index", rec.op, f.Path)
				return
			}
			continue
		}
		overlap := false
		for _, b := range w.bad[f.Path] {
			// the request may have been made on behalf of an open this one overlaps with
			for _, by := range recs {
				if by.file == rec.file && by.start <= b[0] && by.end >= b[1] && by.start <= rec.end && by.end >= rec.start {
					overlap = true
				}
			}
		}
		if !overlap {
			e.Fail("remote-spurious", "open %d of %s failed although no request for it failed while it ran: %v", rec.op, f.Path, rec.err)
			return
		}
	}
	for _, f := range c.Files {
		// a file whose extension does not tell its type is fetched once more to find out.
		if n := w.good[f.Path]; n > 1 && strings.Contains(f.Path, ".") {
			e.Fail("remote-twice", "%s was fetched %d times", f.Path, n)
			return
		}
	}
	if w.bodies != 0 {
		e.Fail("remote-body-leak", "%d response bodies were never closed", w.bodies)
	}
	e.Digest(fmt.Sprint(len(recs), w.gets))
}

func init() {
	harness.Register(&harness.Scenario{
		Name: "remote-open", Property: "C05", Est: 20000,
		New: func() any { return &remoteCase{} },
		Gen: func(r *simrt.Rand) any { return genRemote(r) },
		Run: func(ci any, e *harness.Env) { runRemote(ci.(*remoteCase), e) },
	})
	harness.Register(&harness.Scenario{
		Name: "remote-docs", Property: "C05", Est: 300000,
		New: func() any { return &multiCase{} },
		Gen: func(r *simrt.Rand) any {
			c := genMulti(r, []string{"remote"})
			if r.P(0.5) {
				drawFaults(r, c, []string{"refused", "timeout", "nil", "err-with-resp", "500", "404", "503", "429", "reset", "slow"})
			}
			return c
		},
		Run: func(ci any, e *harness.Env) {
			c := ci.(*multiCase)
			b := c.prepare(e, 1, true)
			defer b.done()
			e.Sim(func() {
				c.build(b)
				if b.newErr != nil {
					e.Fail("unexpected-error", "the root document can be read but was refused: %v", b.newErr)
					return
				}
				hard, maybe := c.affected()
				if len(hard)+len(maybe) == 0 && b.err != nil && !strings.Contains(b.err.Error(), "circular reference") {
					e.Fail("unexpected-error", "every reference has a target but the build reports: %v", b.err)
					return
				}
				checkAffected(c, e, b, hard, maybe, "remote")
			})
			if e.Failed() {
				return
			}
			for u, n := range b.web.good {
				if n > 1 {
					e.Fail("remote-twice", "%s was fetched %d times", u, n)
					return
				}
			}
			if b.web.bodies != 0 {
				e.Fail("remote-body-leak", "%d response bodies were never closed", b.web.bodies)
			}
			e.Digest(fmt.Sprint(b.err))
		},
	})
}
