package props

import (
	"context"
	"fmt"
	"log/slog"
	"strings"
	"sync"
	"time"

	"github.com/pb33f/libopenapi/index"

	"verifsim/harness"
	"verifsim/simrt"
)

// Concurrent opens of local files over a simulated disk (C03 without faults, C04 with them).

type lfile struct {
	Path  string     `json:"path"`
	JSON  bool       `json:"json,omitempty"`
	Size  int        `json:"size"`
	Refs  []int      `json:"refs,omitempty"` // files this one refers to
	Fault *fileFault `json:"fault,omitempty"`
}

type lopen struct {
	File  int    `json:"file"`
	At    int    `json:"at"`  // microseconds after the start
	Via   string `json:"via"` // fs rolodex
	Again bool   `json:"again,omitempty"`
}

type localCase struct {
	Files []lfile `json:"files"`
	Opens []lopen `json:"opens"`
	Lat   int     `json:"lat"`
	Seq   bool    `json:"seq,omitempty"`
	Rolo  bool    `json:"rolo,omitempty"` // files may refer to each other
}

func (c *localCase) Valid() bool {
	seen := map[string]bool{}
	for _, f := range c.Files {
		if seen[f.Path] || f.Path == "" || f.Size < 0 {
			return false
		}
		seen[f.Path] = true
		for _, r := range f.Refs {
			if r < 0 || r >= len(c.Files) {
				return false
			}
		}
	}
	for _, o := range c.Opens {
		if o.File < 0 || o.File >= len(c.Files) || o.At < 0 {
			return false
		}
	}
	return len(c.Files) > 0
}

func (c *localCase) content(i int) []byte {
	f := c.Files[i]
	up := strings.Repeat("../", strings.Count(f.Path, "/"))
	var s strings.Builder
	if f.JSON {
		s.WriteString(`{"components": {"schemas": {`)
		for k := 0; k <= f.Size; k++ {
			if k > 0 {
				s.WriteString(",\n")
			}
			fmt.Fprintf(&s, `"S%d": {"type": "object", "description": "local-%d-%d"`, k, i, k)
			if k < len(f.Refs) && c.Rolo {
				fmt.Fprintf(&s, `, "properties": {"p": {"$ref": "%s%s#/components/schemas/S0"}}`, up, c.Files[f.Refs[k]].Path)
			} else if k > 0 {
				fmt.Fprintf(&s, `, "properties": {"p": {"$ref": "#/components/schemas/S%d"}}`, k-1)
			}
			s.WriteString("}")
		}
		s.WriteString("}}}")
		return []byte(s.String())
	}
	s.WriteString("paths:\n")
	for k := 0; k <= f.Size%5; k++ {
		fmt.Fprintf(&s, "  /p%d:\n    get:\n      operationId: op%d\n      tags: [t%d]\n      parameters:\n        - name: q%d\n          in: query\n", k, k, k, k)
	}
	s.WriteString("components:\n  schemas:\n")
	for k := 0; k <= f.Size; k++ {
		fmt.Fprintf(&s, "    S%d:\n      type: object\n      description: local-%d-%d\n", k, i, k)
		if k < len(f.Refs) && c.Rolo {
			fmt.Fprintf(&s, "      properties:\n        p:\n          $ref: '%s%s#/components/schemas/S0'\n", up, c.Files[f.Refs[k]].Path)
		} else if k > 0 {
			fmt.Fprintf(&s, "      properties:\n        p:\n          $ref: '#/components/schemas/S%d'\n", k-1)
		}
	}
	return []byte(s.String())
}

func genLocal(r *simrt.Rand, faults bool) *localCase {
	c := &localCase{Lat: simrt.Pick(r, []int{0, 0, 10, 500, 20000}), Seq: r.P(0.3), Rolo: r.P(0.6)}
	n := r.Range(1, 4)
	for i := 0; i < n; i++ {
		f := lfile{JSON: r.P(0.3), Size: r.N(5)}
		if r.P(0.15) {
			f.Size = 20 + r.N(60)
		}
		for k := r.N(3); k > 0; k-- {
			f.Refs = append(f.Refs, r.N(n))
		}
		ext := ".yaml"
		if f.JSON {
			ext = ".json"
		}
		f.Path = fmt.Sprintf("%sf%d%s", simrt.Pick(r, []string{"", "a/", "a/b/"}), i, ext)
		c.Files = append(c.Files, f)
	}
	for i := range c.Files {
		if !faults || !r.P(0.5) {
			continue
		}
		f := &c.Files[i]
		f.Fault = &fileFault{Kind: simrt.Pick(r, []string{"missing", "eio-open", "eacces", "emfile", "eio-read", "short", "stat", "slow"})}
		switch f.Fault.Kind {
		case "eio-read":
			f.Fault.At = r.N(len(c.content(i)) + 1)
		case "slow":
			f.Fault.At = r.N(3000)
		}
		if f.Fault.Kind != "missing" && r.P(0.6) {
			f.Fault.N = r.Range(1, 3)
		}
	}
	span := simrt.Pick(r, []int{0, 0, 50, 20000, 3000000})
	for k := r.Range(2, 10); k > 0; k-- {
		c.Opens = append(c.Opens, lopen{File: r.N(n), At: r.N(span), Via: simrt.Pick(r, []string{"fs", "rolodex"}), Again: r.P(0.4)})
	}
	return c
}

// facts of an index that must be complete once its file is said to be indexed.
func indexFacts(x *index.SpecIndex) string {
	if x == nil {
		return "no index"
	}
	n := 0
	for _, m := range x.GetAllParametersFromOperations() {
		for _, p := range m {
			n += len(p)
		}
	}
	return fmt.Sprintf("operations' parameters=%d schemas=%d references=%d mapped=%d tags=%d path count=%d operations=%d errors=%d",
		n, len(x.GetAllComponentSchemas()), len(x.GetAllReferences()), len(x.GetMappedReferencesSequenced()),
		len(x.GetOperationTags()), x.GetPathCount(), x.GetOperationCount(), len(x.GetReferenceIndexErrors()))
}

func runLocal(c *localCase, e *harness.Env) {
	files := map[string][]byte{}
	fl := map[string]*fileFault{}
	anyFault := false
	for i, f := range c.Files {
		files[f.Path] = c.content(i)
		if f.Fault != nil {
			fl[f.Path] = f.Fault
			anyFault = true
		}
	}
	type world struct {
		d    *disk
		lfs  *index.LocalFS
		rolo *index.Rolodex
		un   func()
	}
	mk := func(salt uint64, faulty bool) *world {
		w := &world{d: &disk{root: vroot, e: e, r: simrt.NewRand(simrt.Mix(e.Seed(), salt)), lat: c.Lat}}
		if faulty {
			w.d.faults = fl
		}
		w.un = w.d.mount(files)
		return w
	}
	setup := func(w *world) bool {
		cfg := index.CreateOpenAPIIndexConfig()
		cfg.BasePath = vroot
		cfg.AllowFileLookup = true
		cfg.AvoidCircularReferenceCheck = true
		cfg.ExtractRefsSequentially = c.Seq
		cfg.Logger = slog.New(newErrLog())
		lfs, err := index.NewLocalFSWithConfig(&index.LocalFSConfig{BaseDirectory: vroot, IndexConfig: cfg, Logger: cfg.Logger})
		if err != nil {
			e.Fail("local-setup", "%v", err)
			return false
		}
		w.lfs, w.rolo = lfs, index.NewRolodex(cfg)
		w.rolo.AddLocalFS(vroot, lfs)
		return true
	}
	// what every index looks like when the files are opened one after the other on a quiet disk
	want := map[int]string{}
	if !anyFault {
		rw := mk(3, false)
		rw.d.lat = 0
		e.Ref(1, func() {
			if !setup(rw) {
				return
			}
			for i, f := range c.Files {
				if fh, err := rw.rolo.Open(vroot + "/" + f.Path); err == nil && fh != nil {
					fh.WaitForIndexing()
					want[i] = indexFacts(fh.GetIndex())
				}
			}
		})
		rw.un()
		if e.Failed() {
			return
		}
	}
	type rec struct {
		op, file   int
		start, end int
		failedBy   [2]int // faults fired for the file before the start, at the end
		err        error
		nothing    bool
		content    string
		facts      string
		lf         *index.LocalFile
	}
	var recs []*rec
	w := mk(5, true)
	defer w.un()
	clock := 0
	var mu sync.Mutex
	e.Sim(func() {
		if !setup(w) {
			return
		}
		done := make(chan bool, len(c.Opens))
		one := func(k int, o lopen) {
			p := c.Files[o.File].Path
			mu.Lock()
			clock++
			rc := &rec{op: k, file: o.File, start: clock}
			recs = append(recs, rc)
			mu.Unlock()
			if o.Via == "fs" {
				f, err := w.lfs.OpenWithContext(context.Background(), vroot+"/"+p)
				rc.err = err
				if x, ok := f.(*index.LocalFile); ok && x != nil && err == nil {
					rc.lf = x
				} else {
					rc.nothing = err == nil
				}
				if rc.lf != nil {
					rc.content = rc.lf.GetContent()
					rc.lf.WaitForIndexing()
					rc.facts = indexFacts(rc.lf.GetIndex())
				}
			} else {
				f, err := w.rolo.OpenWithContext(context.Background(), vroot+"/"+p)
				rc.err = err
				if f == nil {
					rc.nothing = err == nil
				} else if err == nil {
					rc.content = f.GetContent()
					f.WaitForIndexing()
					rc.facts = indexFacts(f.GetIndex())
				}
			}
			mu.Lock()
			clock++
			rc.end = clock
			mu.Unlock()
		}
		for k, o := range c.Opens {
			go func() {
				defer func() { done <- true }()
				if o.At > 0 {
					time.Sleep(time.Duration(o.At) * time.Microsecond)
				}
				one(k, o)
				if o.Again {
					one(k, o)
				}
			}()
		}
		for range c.Opens {
			<-done
		}
	})
	if e.Failed() {
		return
	}
	first := map[int]*index.LocalFile{}
	for _, rc := range recs {
		f := c.Files[rc.file]
		e.Probe("opens")
		if rc.nothing {
			e.Fail("local-nothing", "open %d of %s returned neither a file nor an error", rc.op, f.Path)
			return
		}
		if rc.err != nil {
			switch {
			case f.Fault == nil || f.Fault.Kind == "short" || f.Fault.Kind == "slow" || f.Fault.Kind == "stat":
				e.Fail("local-spurious", "open %d of %s failed although the file can be read: %v", rc.op, f.Path, rc.err)
				return
			case f.Fault.Kind != "missing" && w.d.failed[f.Path] == 0:
				e.Fail("local-spurious", "open %d of %s failed although nothing on the disk failed: %v", rc.op, f.Path, rc.err)
				return
			}
			continue
		}
		e.Probe("opens-ok")
		if rc.content != string(files[f.Path]) {
			e.Fail("local-content", "open %d of %s returned %q, the file holds %q", rc.op, f.Path, rc.content, files[f.Path])
			return
		}
		if rc.facts == "no index" {
			e.Fail("local-no-index", "open %d of %s: the file is said to be indexed but has no index", rc.op, f.Path)
			return
		}
		if want[rc.file] != "" && rc.facts != want[rc.file] {
			e.Fail("local-index", "open %d of %s: the file is said to be indexed with %s; opened alone it has %s", rc.op, f.Path, rc.facts, want[rc.file])
			return
		}
		if rc.lf != nil {
			if first[rc.file] == nil {
				first[rc.file] = rc.lf
			} else if first[rc.file] != rc.lf {
				e.Fail("local-two-copies", "two opens of %s got two different copies of the file", f.Path)
				return
			}
		}
	}
	for _, f := range c.Files {
		if f.Fault == nil && w.d.loads[f.Path] > 1 {
			e.Fail("local-twice", "%s was read %d times", f.Path, w.d.loads[f.Path])
			return
		}
	}
	e.Digest(fmt.Sprint(len(recs), dumpDisk(w.d)))
}

func init() {
	for _, v := range []struct {
		name, prop string
		faults     bool
	}{{"local-open", "C03", false}, {"local-open-faults", "C04", true}} {
		harness.Register(&harness.Scenario{
			Name: v.name, Property: v.prop, Est: 8000,
			New: func() any { return &localCase{} },
			Gen: func(r *simrt.Rand) any { return genLocal(r, v.faults) },
			Run: func(ci any, e *harness.Env) { runLocal(ci.(*localCase), e) },
		})
	}
}
