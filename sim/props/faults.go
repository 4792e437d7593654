package props

import (
	"fmt"

	"verifsim/harness"
	"verifsim/simrt"
)

// drawFaults puts faults on some of the files the root document refers to.
func drawFaults(r *simrt.Rand, c *multiCase, kinds []string) {
	c.Faults = map[string]*fileFault{}
	files := c.M.Build()
	n := r.Range(1, 2)
	if r.P(0.15) {
		n = len(c.M.Files)
	}
	for k := 0; k < n && len(c.M.Files) > 1; k++ {
		f := r.Range(1, len(c.M.Files)-1)
		p := c.M.Files[f].Path
		ft := &fileFault{Kind: simrt.Pick(r, kinds)}
		switch ft.Kind {
		case "eio-read", "reset":
			ft.At = r.N(len(files[p]) + 1)
		case "slow":
			ft.At = r.N(5000)
		}
		if ft.Kind != "missing" && r.P(0.3) {
			ft.N = r.Range(1, 3)
		}
		c.Faults[p] = ft
	}
}

// rootRefersTo tells whether the root document itself refers to one of the files.
func (c *multiCase) rootRefersTo(files map[int]bool) bool {
	m := c.M
	for _, s := range m.Schemas {
		if s.File == 0 {
			for _, e := range s.Edges {
				if e.To >= 0 && files[m.Schemas[e.To].File] {
					return true
				}
			}
		}
	}
	for _, p := range m.Paths {
		if p.Like > 0 {
			continue
		}
		if p.File != 0 {
			if files[p.File] {
				return true
			}
			continue
		}
		if files[m.Schemas[p.Schema].File] {
			return true
		}
		for _, k := range p.Comps {
			if files[m.Comps[k].File] {
				return true
			}
		}
	}
	for _, x := range m.Comps {
		if x.File == 0 && files[m.Schemas[x.Schema].File] {
			return true
		}
	}
	return false
}

func init() {
	harness.Register(&harness.Scenario{
		Name: "disk-faults", Property: "C04", Est: 300000,
		New: func() any { return &multiCase{} },
		Gen: func(r *simrt.Rand) any {
			c := genMulti(r, []string{"os", "os", "dirfs"})
			drawFaults(r, c, []string{"missing", "eio-open", "eacces", "emfile", "eio-read", "eio-read", "slow", "short", "stat"})
			return c
		},
		Run: func(ci any, e *harness.Env) {
			c := ci.(*multiCase)
			b := c.prepare(e, 1, true)
			defer b.done()
			e.Sim(func() {
				c.build(b)
				c.diskVerdict(e, b)
			})
		},
	})
}

func (c *multiCase) diskVerdict(e *harness.Env, b *multiBuilt) {
	hard, maybe := c.affected()
	if b.newErr != nil {
		e.Fail("unexpected-error", "the root document can be read but was refused: %v", b.newErr)
		return
	}
	if c.Mode == "dirfs" {
		// the whole file system is read up front: one unreadable file may make all of it unavailable
		whole := false
		for f := range hard {
			whole = whole || c.Faults[c.M.Files[f].Path].Kind != "missing"
		}
		if whole || len(maybe) > 0 {
			for f := range c.M.Files {
				if f > 0 {
					if !hard[f] || c.Faults[c.M.Files[f].Path].Kind != "missing" {
						delete(hard, f)
					}
					maybe[f] = true
				}
			}
		}
		if whole && b.err == nil {
			e.Fail("disk-unreported", "a file of the supplied file system cannot be read and the build reports nothing")
			return
		}
	}
	checkAffected(c, e, b, hard, maybe, "disk")
	e.Digest(fmt.Sprint(b.err))
}

func checkAffected(c *multiCase, e *harness.Env, b *multiBuilt, hard, maybe map[int]bool, cls string) {
	if b.err == nil && c.rootRefersTo(hard) {
		e.Fail(cls+"-unreported", "a file the root document refers to cannot be read and the build reports no error")
		return
	}
	w := newWalker(e, c.M, cls)
	w.err = b.reported()
	badPath := w.affect(hard, maybe)
	if b.model == nil {
		if b.err == nil {
			e.Fail("no-model", "no model and no error")
		} else if len(hard)+len(maybe) == 0 {
			e.Fail("no-model", "no model although every file could be read: %v", b.err)
		}
		return
	}
	w.document(b.model, badPath)
	e.Probes["refs-checked"] += w.count
	e.Probes["refs-refused"] += w.errs
}
