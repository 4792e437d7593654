package props

import (
	"bytes"
	"fmt"
	"runtime"
	"slices"
	"strings"
	"sync"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel"
	highoverlay "github.com/pb33f/libopenapi/datamodel/high/overlay"
	"github.com/pb33f/libopenapi/datamodel/low"
	"github.com/pb33f/libopenapi/generator/golang"
	"github.com/pb33f/libopenapi/utils"
	"github.com/pb33f/libopenapi/what-changed/model"
	"go.yaml.in/yaml/v4"

	"verifsim/doc"
	"verifsim/harness"
	"verifsim/simrt"
)

// Property isolation: what is done with one document gives the result it gives alone, whatever else the
// process does with other documents, before it or at the same time, and whenever the caches are cleared.

type isoDoc struct {
	Gen   doc.Gen3 `json:"gen"`
	Edits []wcEdit `json:"edits,omitempty"` // makes a document of the same shape with other content
}

func (d isoDoc) bytes() []byte {
	root := d.Gen.Build()
	if len(d.Edits) > 0 {
		root, _ = (&changedCase{Gen: d.Gen, Edits: d.Edits}).apply(root)
	}
	return d.Gen.Bytes(root)
}

type isoWorker struct {
	Doc     int      `json:"doc"`
	Ops     []readOp `json:"ops"`
	Release bool     `json:"release,omitempty"` // the document is released at the end
}

type isoCase struct {
	Docs    []isoDoc    `json:"docs"`
	Files   *bundleCase `json:"files,omitempty"` // a document in several files, for the bundles
	Overlay []isoAction `json:"overlay,omitempty"`
	Workers []isoWorker `json:"workers"`
	InTurn  bool        `json:"in_turn,omitempty"` // one after another, not at the same time
}

type isoAction struct {
	Target string `json:"target"`
	What   string `json:"what"`
	Key    string `json:"key"`
}

func (c *isoCase) Valid() bool {
	if len(c.Docs) == 0 || len(c.Workers) == 0 || c.Files != nil && !c.Files.Valid() {
		return false
	}
	return true
}

func (c *isoCase) overlay() []byte {
	var acts []any
	for _, a := range c.Overlay {
		switch a.What {
		case "remove":
			acts = append(acts, doc.M("target", a.Target, "remove", true))
		case "deep":
			acts = append(acts, doc.M("target", a.Target, "update", doc.M(a.Key, doc.M("a", doc.M("b", 1, "c", doc.L("x", "y")), "d", a.Key))))
		default:
			acts = append(acts, doc.M("target", a.Target, "update", doc.M("description", a.Key, a.Key, doc.L(doc.M("k", a.Target)))))
		}
	}
	o := doc.M("overlay", "1.0.0", "info", doc.M("title", "o", "version", "1"), "actions", doc.L(acts...))
	return o.YAML()
}

// isoShared is what the workers of a run have in common.
type isoShared struct {
	gen     *golang.Generator
	overlay *highoverlay.Overlay
	src     [][]byte
	given   [][]byte
}

func (c *isoCase) shared() *isoShared {
	s := &isoShared{gen: golang.NewGenerator(golang.WithPackageName("models"))}
	for _, d := range c.Docs {
		b := d.bytes()
		s.src, s.given = append(s.src, b), append(s.given, bytes.Clone(b))
	}
	return s
}

var isoPaths = []string{"$.info", "$.paths.*", "$.paths.*.*.responses.*.description", "$.components.schemas.*", "$..description", "$.components.schemas[?(@.type=='object')]",
	"$..properties.*", "$.paths.*.get.parameters[0]", "$.tags[*].name", "$..schema", "$..[?@.required]", "$.servers[0].url"}

type isoTypeA struct {
	Name  string    `json:"name"`
	Count int       `json:"count,omitempty"`
	Next  *isoTypeA `json:"next,omitempty"`
	B     isoTypeB  `json:"b"`
}

type isoTypeB struct {
	Tags []string            `json:"tags"`
	More map[string]isoTypeC `json:"more,omitempty"`
}

type isoTypeC struct {
	On    bool    `json:"on"`
	Ratio float64 `json:"ratio"`
	Any   any     `json:"any"`
}

const notItsOwn = "(not its own hash) "

type isoRun struct {
	c *isoCase
	s *isoShared
	k int
	b *multiBuilt
	m *readModel
}

// overlayText is what an overlay holds, without touching it.
func overlayText(o *highoverlay.Overlay) string {
	var b strings.Builder
	var node func(n *yaml.Node)
	node = func(n *yaml.Node) {
		if n == nil {
			return
		}
		fmt.Fprintf(&b, "(%d %s %q", n.Kind, n.Tag, n.Value)
		for _, c := range n.Content {
			node(c)
		}
		b.WriteByte(')')
	}
	for _, a := range o.Actions {
		fmt.Fprintf(&b, "%s %v %s ", a.Target, a.Remove, a.Copy)
		node(a.Update)
		b.WriteByte('\n')
	}
	return b.String()
}

func (r *isoRun) open() *readModel {
	if r.m == nil {
		r.m, _ = openReadModel(r.s.src[r.c.Workers[r.k].Doc%len(r.s.src)])
	}
	return r.m
}

func (r *isoRun) do(o readOp) string {
	c := r.c
	src := r.s.src[c.Workers[r.k].Doc%len(r.s.src)]
	cfg := datamodel.NewDocumentConfiguration()
	cfg.Logger = quietLogger
	switch o.Kind {
	case "clear":
		libopenapi.ClearAllCaches()
		return ""
	case "forget": // another reading of the document may get the memory of this one
		r.m = nil
		runtime.GC()
		return ""
	case "release":
		if r.m != nil {
			r.m.d.Release()
			r.m = nil
		}
		return ""
	case "rules": // the defaults are set again, or reset to
		if o.Arg%2 == 0 {
			model.SetActiveBreakingRulesConfig(model.GenerateDefaultBreakingRules())
		} else {
			model.ResetActiveBreakingRulesConfig()
		}
		return ""
	case "reflect":
		g := r.s.gen
		if o.Target%4 == 0 {
			g = golang.NewGenerator(golang.WithPackageName("models"))
		}
		all := []any{isoTypeA{}, isoTypeB{}, []isoTypeA{}, map[string]isoTypeB{}, &isoTypeC{}}
		var vs []any
		for k := 0; k <= o.Arg%3; k++ {
			vs = append(vs, all[(o.Arg+k)%len(all)])
		}
		set, err := g.SchemasFromValues(vs...)
		t := errText(err)
		if set != nil {
			for n, v := range set.Roots.FromOldest() {
				t += "\nroot " + n + " " + yml(v.Render())
			}
			for n, v := range set.Components.FromOldest() {
				t += "\ncomponent " + n + " " + yml(v.Render())
			}
			t += fmt.Sprint(len(set.Diagnostics))
		}
		return t
	case "model":
		b := buildV3(src, &build3Case{}, true)
		return b.newErr + b.buildErr + b.renderErr + "\n" + string(b.rendered) + b.high + b.idx
	case "compare":
		x := wcCompare(src, r.s.src[o.Target%len(r.s.src)])
		_, whole := wcReport(x.ch)
		return whole + errText(x.err)
	case "bundle":
		if c.Files == nil {
			return ""
		}
		k := c.Files.Kinds[o.Target%len(c.Files.Kinds)]
		x := c.Files.one(r.b, k)
		return k + " " + string(x.out) + errText(x.err) + originText(x.origins)
	case "overlay":
		if len(c.Overlay) == 0 {
			return ""
		}
		ov := r.s.overlay
		if o.Target%3 == 0 {
			var err error
			if ov, err = libopenapi.NewOverlayDocument(c.overlay()); err != nil {
				return err.Error()
			}
		}
		x, err := libopenapi.ApplyOverlayToSpecBytes(src, ov)
		if err != nil {
			return err.Error()
		}
		t := string(x.Bytes)
		for _, w := range x.Warnings {
			t += fmt.Sprint("\nwarning ", w.Target, w.Message)
		}
		return t
	case "reload":
		d, err := libopenapi.NewDocumentWithConfiguration(src, cfg)
		if err != nil {
			return err.Error()
		}
		m, err := d.BuildV3Model()
		if m == nil {
			return errText(err)
		}
		m.Model.Info.Title = fmt.Sprint("reloaded-", o.Arg)
		b, d2, m2, err := d.RenderAndReload()
		t := string(b) + errText(err)
		if d2 != nil && m2 != nil {
			t += m2.Model.Info.Title + yml(m2.Model.Render())
		}
		return t
	}
	m := r.open()
	if m == nil {
		return "no model"
	}
	switch o.Kind {
	case "ghash":
		if m.m.Model.Paths == nil || m.m.Model.Paths.PathItems == nil {
			return "none"
		}
		t := ""
		one := func(n string, x low.Hashable) {
			g, h := low.GenerateHashString(x), fmt.Sprintf("%x", x.Hash())
			t += n + " " + g + " "
			if g != h {
				t += notItsOwn
			}
		}
		for n, p := range m.m.Model.Paths.PathItems.FromOldest() {
			one(n, p.GoLow())
			for k, op := range p.GetOperations().FromOldest() {
				one(k, op.GoLow())
				if op.RequestBody != nil {
					one("body", op.RequestBody.GoLow())
				}
				for _, x := range op.Parameters {
					one(x.Name, x.GoLow())
				}
				if op.Responses != nil {
					for c, x := range op.Responses.Codes.FromOldest() {
						one(c, x.GoLow())
					}
				}
			}
		}
		return t
	case "path":
		q := isoPaths[o.Target%len(isoPaths)]
		ns, err := utils.FindNodesWithoutDeserializing(m.m.Index.GetRootNode(), q)
		t := q + errText(err)
		for _, n := range ns {
			t += fmt.Sprintf("\n%d:%d %s %q %d", n.Line, n.Column, n.Tag, n.Value, len(n.Content))
		}
		return t
	case "gen":
		cs := m.m.Model.Components
		if cs == nil || cs.Schemas == nil {
			return "none"
		}
		g := r.s.gen
		if o.Target%4 == 0 {
			g = golang.NewGenerator(golang.WithPackageName("models"))
		}
		f, err := g.RenderSchemas(cs.Schemas)
		if err != nil {
			return err.Error()
		}
		t := f.PackageName + string(f.Source)
		if f.SchemaMetadata != nil {
			t += f.SchemaMetadata.Name + string(f.SchemaMetadata.Source)
		}
		for _, x := range f.Types {
			t += " " + x.Name
		}
		for _, x := range f.Diagnostics {
			t += "\n" + x.Code + " " + x.Path + " " + x.Message
		}
		return t
	}
	return m.do(o)
}

func (r *isoRun) all(out []string) {
	w := r.c.Workers[r.k]
	for j, o := range w.Ops {
		if o.Us > 0 {
			pdelay(o.Us)
		}
		out[j] = r.do(o)
	}
	if w.Release && r.m != nil {
		r.m.d.Release()
	}
}

func (c *isoCase) run(e *harness.Env) {
	n := len(c.Workers)
	make2 := func() (out [][]string) {
		for _, w := range c.Workers {
			out = append(out, make([]string, len(w.Ops)))
		}
		return
	}
	prep := func(salt int) func(k int) *multiBuilt {
		if c.Files == nil {
			return func(int) *multiBuilt { return nil }
		}
		var bs []*multiBuilt
		for k := 0; k < n; k++ {
			bs = append(bs, c.Files.D.prepare(e, uint64(salt+k), false))
		}
		return func(k int) *multiBuilt { return bs[k] }
	}
	bad, fresh := "", ""
	ov := func(s *isoShared) {
		if len(c.Overlay) == 0 {
			return
		}
		var err error
		if s.overlay, err = libopenapi.NewOverlayDocument(c.overlay()); err != nil {
			bad = err.Error()
			return
		}
		fresh = overlayText(s.overlay)
	}
	want := make2()
	b0 := prep(100)
	e.Ref(0, func() {
		for k := range c.Workers {
			libopenapi.ClearAllCaches()
			simrt.DrainPools()
			s := c.shared()
			ov(s)
			(&isoRun{c: c, s: s, k: k, b: b0(k)}).all(want[k])
		}
	})
	if bad != "" {
		e.Fail("overlay-refused", "a valid overlay is refused: %s", bad)
	}
	if e.Failed() {
		return
	}
	libopenapi.ClearAllCaches()
	simrt.DrainPools()
	got := make2()
	s := c.shared()
	b1 := prep(200)
	e.Sim(func() {
		ov(s)
		if c.InTurn {
			for k := range c.Workers {
				(&isoRun{c: c, s: s, k: k, b: b1(k)}).all(got[k])
			}
			return
		}
		var wg sync.WaitGroup
		for k := range c.Workers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				(&isoRun{c: c, s: s, k: k, b: b1(k)}).all(got[k])
			}()
		}
		wg.Wait()
	})
	if e.Failed() {
		return
	}
	how := "while other work goes on"
	if c.InTurn {
		how = "after other work"
	}
	for k, w := range c.Workers {
		for j, o := range w.Ops {
			e.Probe("op:" + o.Kind)
			if d := firstDiff(want[k][j], got[k][j]); d != "" {
				e.Fail("isolation-"+o.Kind, "worker %d operation %d (%s) gives something else %s (alone vs now): %s", k, j, o.Kind, how, d)
				return
			}
			if strings.Contains(got[k][j], notItsOwn) {
				e.Fail("isolation-stale-hash", "worker %d operation %d: an object is given the hash of another: %s", k, j, got[k][j])
				return
			}
			switch o.Kind {
			case "hash", "ghash", "phash", "plow", "schema", "deep", "build": // hashes are seeded by the process
			default:
				e.Digest(got[k][j])
			}
		}
	}
	if s.overlay != nil {
		if d := firstDiff(fresh, overlayText(s.overlay)); d != "" {
			e.Fail("isolation-overlay-changed", "the overlay itself was changed by applying it: %s", d)
			return
		}
	}
	for i := range s.src {
		if !bytes.Equal(s.src[i], s.given[i]) {
			e.Fail("isolation-bytes", "the bytes given for document %d were changed", i)
			return
		}
	}
}

// inlining can be exponential in size, and is compared by the bundle scenario
var isoBundles = slices.DeleteFunc(slices.Clone(bundleKinds), func(k string) bool { return strings.HasPrefix(k, "inline") })

var isoKinds = []string{"model", "model", "compare", "compare", "compare", "bundle", "bundle", "overlay", "overlay", "overlay", "reload", "path", "path", "gen", "gen", "gen", "mock", "mock", "mock", "bytes", "serialize", "clear", "clear", "release", "rules", "reflect", "reflect",
	"ref", "phash", "hash", "plow", "schema", "deep", "build", "ghash", "pinline", "pinline", "pctx", "prender", "render", "inline", "inline", "doc", "search", "find", "get"}

func genIsolation(r *simrt.Rand) any {
	c := &isoCase{InTurn: r.P(0.25)}
	limit := 2500
	draw := func() doc.Gen3 {
		g := doc.DrawGen3(r, 0)
		if r.P(0.9) {
			g.Big = ""
		}
		g.AllOps = g.AllOps && r.P(0.3)
		g.Schemas = max(g.Schemas, r.N(4))
		g.Cyclic = g.Cyclic && r.P(0.5)
		for k := 0; doc.Expanded(g.Build(), limit) >= limit; k++ {
			switch k {
			case 0:
				g.AllOps, g.MorePoly = false, false
			case 1:
				g.Depth, g.Comps, g.Schemas = min(g.Depth, 1), min(g.Comps, 2), min(g.Schemas, 4)
			case 2:
				g.Depth, g.Poly, g.Wide, g.Big, g.Cyclic = 0, false, false, "", false
			default:
				g.RefP, g.Props, g.Paths, g.Webhooks = 0, 1, 1, 0
				return g
			}
		}
		return g
	}
	c.Docs = []isoDoc{{Gen: draw()}}
	for n := simrt.Pick(r, []int{0, 1, 1, 2}); n > 0; n-- {
		d := isoDoc{Gen: c.Docs[0].Gen}
		if r.P(0.3) {
			d.Gen = draw()
		}
		for k := r.Range(1, 6); k > 0; k-- {
			d.Edits = append(d.Edits, wcEdit{Kind: simrt.Pick(r, []string{"leaf", "leaf", "text", "number"}), Pick: r.N(1 << 20)})
		}
		c.Docs = append(c.Docs, d)
	}
	kinds := isoKinds
	if r.P(0.3) { // few kinds that meet often
		kinds = nil
		for n := r.Range(1, 3); n > 0; n-- {
			kinds = append(kinds, simrt.Pick(r, isoKinds))
		}
	}
	whole := 4
	for n := r.Range(2, 4); n > 0; n-- {
		w := isoWorker{Doc: r.N(len(c.Docs)), Release: r.P(0.2)}
		for j := r.Range(1, 5); j > 0; j-- {
			o := readOp{Kind: simrt.Pick(r, kinds), Target: r.N(60), Arg: r.N(50)}
			switch o.Kind {
			case "model", "compare", "bundle", "doc", "reload", "serialize":
				if whole--; whole < 0 {
					o.Kind = "pinline"
				}
			}
			if o.Kind == "compare" && o.Target%len(c.Docs) == w.Doc {
				o.Target++
			}
			if r.P(0.1) {
				o.Us = r.N(50)
			}
			if o.Kind == "bundle" && c.Files == nil {
				c.Files = &bundleCase{D: genMulti(r, []string{"dirfs", "dirfs", "remote"})}
				for k := r.Range(1, 3); k > 0; k-- {
					c.Files.Kinds = append(c.Files.Kinds, simrt.Pick(r, isoBundles))
				}
			}
			w.Ops = append(w.Ops, o)
		}
		c.Workers = append(c.Workers, w)
	}
	for n := r.Range(1, 4); n > 0; n-- {
		c.Overlay = append(c.Overlay, isoAction{Target: simrt.Pick(r, []string{"$.info", "$.paths.*", "$.paths.*.get", "$.components.schemas.*", "$", "$.components.schemas.*.properties.*", "$.tags[*]", "$..[?@.operationId]"}),
			What: simrt.Pick(r, []string{"update", "update", "deep", "deep", "remove"}), Key: fmt.Sprint("x-k", r.N(4))})
	}
	return c
}

func init() {
	harness.Register(&harness.Scenario{Name: "isolation", Property: "C10", Est: 300000,
		New: func() any { return &isoCase{} }, Gen: genIsolation,
		Run: func(c any, e *harness.Env) { c.(*isoCase).run(e) }})
}
