package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"log/slog"
	"regexp"
	"sort"
	"strings"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/bundler"
	"github.com/pb33f/libopenapi/datamodel"
	"go.yaml.in/yaml/v4"

	"verifsim/doc"
	"verifsim/harness"
	"verifsim/simrt"
)

// bundleCase: a document over several files is bundled into one, sometimes several times at once.
type bundleCase struct {
	D     *multiCase `json:"doc"`
	Kinds []string   `json:"bundles"` // one concurrent bundling per entry
	Delim string     `json:"delimiter,omitempty"`
}

var bundleKinds = []string{"inline", "inline-all", "inline-doc", "composed", "composed-doc", "origins", "origins-doc"}

func (c *bundleCase) Valid() bool { return c.D != nil && c.D.Valid() && len(c.Kinds) > 0 }

// cyclic tells whether schemas refer to each other in a circle.
func cyclic(m *doc.Multi) bool {
	state := make([]int, len(m.Schemas))
	var walk func(i int) bool
	walk = func(i int) bool {
		if state[i] == 1 {
			return true
		}
		if state[i] == 2 {
			return false
		}
		state[i] = 1
		for _, e := range m.Schemas[i].Edges {
			if e.To >= 0 && walk(e.To) {
				return true
			}
		}
		state[i] = 2
		return false
	}
	for i := range m.Schemas {
		if walk(i) {
			return true
		}
	}
	return false
}

// expansions counts what inlining everything could render, up to a limit: every way through the schemas that enters
// none of them twice.
func expansions(m *doc.Multi, limit int) int {
	n := 0
	on := make([]bool, len(m.Schemas))
	var walk func(i int)
	walk = func(i int) {
		if n++; n >= limit || on[i] {
			return
		}
		on[i] = true
		for _, e := range m.Schemas[i].Edges {
			if e.To >= 0 && n < limit {
				walk(e.To)
			}
		}
		on[i] = false
	}
	for i := range m.Schemas {
		if n < limit {
			walk(i)
		}
	}
	return n
}

var inlineRE = regexp.MustCompile("^inline(-all|-disc)?")

type bundled struct {
	out     []byte
	err     error
	log     string
	origins bundler.ComponentOriginMap
}

func (b *bundled) reported() bool { return b.err != nil || b.log != "" }

func (c *bundleCase) one(b *multiBuilt, kind string) *bundled {
	root := c.D.M.Build()[c.D.M.Files[0].Path]
	given := bytes.Clone(root)
	log := newErrLog()
	cfg := c.D.config(b)
	cfg.Logger = slog.New(log)
	var cc *bundler.BundleCompositionConfig
	if c.Delim != "" {
		cc = &bundler.BundleCompositionConfig{Delimiter: c.Delim}
	}
	r := &bundled{}
	all := true
	switch kind {
	case "inline":
		r.out, r.err = bundler.BundleBytes(root, cfg)
	case "inline-all":
		r.out, r.err = bundler.BundleBytesWithConfig(root, cfg, &bundler.BundleInlineConfig{InlineLocalRefs: &all})
	case "inline-disc":
		r.out, r.err = bundler.BundleBytesWithConfig(root, cfg, &bundler.BundleInlineConfig{ResolveDiscriminatorExternalRefs: true})
	case "composed":
		r.out, r.err = bundler.BundleBytesComposed(root, cfg, cc)
	case "origins":
		var x *bundler.BundleResult
		x, r.err = bundler.BundleBytesComposedWithOrigins(root, cfg, cc)
		if x != nil {
			r.out, r.origins = x.Bytes, x.Origins
		}
	default:
		d, err := libopenapi.NewDocumentWithConfiguration(root, cfg)
		if err != nil {
			r.err = err
			return r
		}
		m, err := d.BuildV3Model()
		if m == nil {
			r.err = err
			return r
		}
		r.err = err
		switch kind {
		case "inline-doc":
			r.out, err = bundler.BundleDocument(&m.Model)
		case "composed-doc":
			r.out, err = bundler.BundleDocumentComposed(&m.Model, cc)
		case "origins-doc":
			var x *bundler.BundleResult
			x, err = bundler.BundleDocumentComposedWithOrigins(&m.Model, cc)
			if x != nil {
				r.out, r.origins = x.Bytes, x.Origins
			}
		}
		if err != nil {
			r.err = err
		}
	}
	if log.n.Load() > 0 {
		r.log = fmt.Sprint(log.last.Load())
	}
	if !bytes.Equal(root, given) {
		r.err = fmt.Errorf("the caller's bytes were changed")
	}
	return r
}

func originText(o bundler.ComponentOriginMap) string {
	var ks []string
	for k, v := range o {
		j, _ := json.Marshal(v)
		ks = append(ks, k+" "+string(j))
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

// refsOf returns every reference of a document, and every description found at a JSON pointer.
func refsOf(b []byte) (refs []string, at map[string]string, err error) {
	var n yaml.Node
	if err := yaml.Unmarshal(b, &n); err != nil {
		return nil, nil, err
	}
	at = map[string]string{}
	var walk func(n *yaml.Node, p string)
	walk = func(n *yaml.Node, p string) {
		switch n.Kind {
		case yaml.DocumentNode:
			walk(n.Content[0], "#")
		case yaml.MappingNode:
			for i := 0; i+1 < len(n.Content); i += 2 {
				k, v := n.Content[i].Value, n.Content[i+1]
				if k == "$ref" && v.Kind == yaml.ScalarNode {
					refs = append(refs, v.Value)
				}
				if (k == "description" || k == "summary") && v.Kind == yaml.ScalarNode {
					if at[p] == "" {
						at[p] = v.Value
					}
				}
				walk(v, p+"/"+strings.ReplaceAll(strings.ReplaceAll(k, "~", "~0"), "/", "~1"))
			}
		case yaml.SequenceNode:
			for i, x := range n.Content {
				walk(x, fmt.Sprintf("%s/%d", p, i))
			}
		}
	}
	walk(&n, "")
	return
}

func (c *bundleCase) run(e *harness.Env) {
	m := c.D.M
	if expansions(m, 150) >= 150 { // inlining would take for ever
		for i, k := range c.Kinds {
			c.Kinds[i] = inlineRE.ReplaceAllString(k, "composed")
		}
	}
	got := make([]*bundled, len(c.Kinds))
	want := map[string]*bundled{}
	faulty := false
	for _, f := range c.D.Faults {
		faulty = faulty || f.Kind != "slow" && f.Kind != "short"
	}
	// alone, on a quiet disk
	lat := c.D.Lat
	c.D.Lat = 0
	rb := c.D.prepare(e, 3, false)
	e.Ref(5, func() {
		for _, k := range c.Kinds {
			if want[k] == nil {
				want[k] = c.one(rb, k)
			}
		}
	})
	rb.done()
	c.D.Lat = lat
	if e.Failed() {
		return
	}
	b := c.D.prepare(e, 1, true)
	defer b.done()
	e.Sim(func() {
		done := make(chan bool, len(c.Kinds))
		for i, k := range c.Kinds {
			go func() {
				defer func() { done <- true }()
				got[i] = c.one(b, k)
			}()
		}
		for range c.Kinds {
			<-done
		}
	})
	if e.Failed() {
		return
	}
	circ := cyclic(m)
	for i, k := range c.Kinds {
		w, g := want[k], got[i]
		if faulty && g.reported() {
			if g.err != nil {
				e.Probe("bundle-refused")
			} else {
				e.Probe("bundle-logged-" + k)
			}
			continue
		}
		if g.err != nil && !(circ && strings.Contains(g.err.Error(), "circular reference")) {
			e.Fail("bundle-error", "%s bundling of a well-formed document fails: %v", k, g.err)
			return
		}
		if fmt.Sprint(g.err) != fmt.Sprint(w.err) {
			e.Fail("bundle-errors-differ", "%s: error %v, alone on a quiet disk %v", k, g.err, w.err)
			return
		}
		if !bytes.Equal(g.out, w.out) {
			e.Fail("bundle-differs", "%s bundle depends on the schedule, the disk or other bundlings: %s", k, firstDiff(string(w.out), string(g.out)))
			return
		}
		if originText(g.origins) != originText(w.origins) {
			e.Fail("bundle-origins-differ", "%s: origins depend on the schedule: %s", k, firstDiff(originText(w.origins), originText(g.origins)))
			return
		}
		if len(g.out) == 0 {
			if g.err == nil {
				e.Fail("bundle-empty", "%s: neither a bundle nor an error", k)
				return
			}
			continue
		}
		e.Probe("bundle-" + k)
		if strings.HasPrefix(k, "inline") && circ && !c.D.Circ {
			continue
		}
		if strings.HasPrefix(k, "inline") && circ {
			e.Probe("inlined-with-circles")
		}
		refs, at, err := refsOf(g.out)
		if err != nil {
			e.Fail("bundle-broken", "%s: the bundle cannot be parsed: %v\n%s", k, err, g.out)
			return
		}
		for _, r := range refs {
			if !strings.HasPrefix(r, "#/") {
				e.Fail("bundle-external", "%s: the bundle still refers to %q\n%s", k, r, g.out)
				return
			}
		}
		c.origins(e, k, g, at)
		if e.Failed() {
			return
		}
		var res *multiBuilt
		e.Ref(7, func() {
			cfg := datamodel.NewDocumentConfiguration()
			cfg.Logger = slog.New(newErrLog())
			cfg.SkipCircularReferenceCheck = true
			x := &multiBuilt{}
			x.doc, x.newErr = libopenapi.NewDocumentWithConfiguration(g.out, cfg)
			if x.newErr == nil {
				x.m, x.err = x.doc.BuildV3Model()
				if x.m != nil {
					x.model = &x.m.Model
				}
			}
			res = x
			if x.newErr != nil || x.err != nil || x.model == nil {
				e.Fail("bundle-unusable", "%s: the bundle cannot be built: %v %v\n%s", k, x.newErr, x.err, g.out)
				return
			}
			w := newWalker(e, m, "bundle")
			w.unordered = true
			w.mapping = func(v string, t int) {
				e.Probe("mappings-checked")
				n, ok := strings.CutPrefix(v, "#/components/schemas/")
				if !ok || x.model.Components == nil || x.model.Components.Schemas == nil || x.model.Components.Schemas.GetOrZero(n) == nil {
					w.fail("-mapping", "a discriminator maps to %q, which is not in the bundle, for schema %d", v, t)
					return
				}
				w.schema(x.model.Components.Schemas.GetOrZero(n), t)
			}
			w.document(x.model, nil)
			e.Probes["refs-checked"] += w.count
		})
		_ = res
		if e.Failed() {
			if e.Viol != nil && !strings.Contains(e.Viol.Msg, "\n---\n") {
				e.Viol.Msg = k + ": " + e.Viol.Msg + "\n---\n" + string(g.out)
			}
			return
		}
	}
	e.Digest(fmt.Sprint(len(c.Kinds)))
}

// origins checks that every lifted component is said to come from where it was.
func (c *bundleCase) origins(e *harness.Env, k string, g *bundled, at map[string]string) {
	if !strings.HasPrefix(k, "origins") {
		return
	}
	m := c.D.M
	base := vroot + "/"
	if c.D.Mode == "remote" {
		base = "http://sim.test/api/"
	}
	for ref, o := range g.origins {
		if ref != o.BundledRef {
			e.Fail("bundle-origin", "%s: origin of %s says it is %s", k, ref, o.BundledRef)
			return
		}
		mark, ok := at[ref]
		if !ok {
			e.Fail("bundle-origin", "%s: origin %+v of something that is not in the bundle", k, *o)
			return
		}
		file, frag, name := "", "", ""
		for i, s := range m.Schemas {
			if mark == doc.Mark(i) {
				file, frag = m.Files[s.File].Path, m.Frag(i)
				if frag != "" {
					name = s.Name
				}
			}
		}
		for i, s := range m.Comps {
			if mark == doc.CompMark(i) {
				file, frag, name = m.Files[s.File].Path, m.CompRef(s.File, i), s.Name
			}
		}
		if file == "" {
			continue
		}
		if name != "" && (o.OriginalName != name || o.WasRenamed != !strings.HasSuffix(ref, "/"+name)) {
			e.Fail("bundle-origin", "%s: %s holds %q, which was called %s; its origin says %+v", k, ref, mark, name, *o)
			return
		}
		if frag == "" {
			frag = "#/"
		}
		if o.OriginalFile != base+file || strings.TrimSuffix(o.OriginalRef, "/") != strings.TrimSuffix(frag, "/") {
			e.Fail("bundle-origin", "%s: %s holds %q of %s%s, its origin says %+v", k, ref, mark, base+file, frag, *o)
			return
		}
	}
}

func init() {
	gen := func(r *simrt.Rand) *bundleCase {
		c := &bundleCase{D: genMulti(r, []string{"os", "os", "dirfs", "remote"})}
		c.D.Circ = r.P(0.4)
		disc := false
		if r.P(0.3) {
			for i := range c.D.M.Schemas {
				for k := range c.D.M.Schemas[i].Edges {
					if ed := &c.D.M.Schemas[i].Edges[k]; ed.Via == "oneOf" || ed.Via == "ref" && r.P(0.2) {
						ed.Via = simrt.Pick(r, []string{"oneOf", "anyOf"})
						for n := r.N(3); n > 0; n-- {
							t := ed.To
							if f := c.D.M.Schemas[t].File; f == 0 || c.D.M.Files[f].Style != "comps" || c.D.Mode == "remote" {
								continue
							}
							ed.Map = append(ed.Map, t)
							disc = true
						}
					}
				}
			}
		}
		for n := simrt.Pick(r, []int{1, 1, 2, 3}); n > 0; n-- {
			k := simrt.Pick(r, bundleKinds)
			if disc && strings.HasPrefix(k, "inline") {
				k = inlineRE.ReplaceAllString(k, "composed") // inlined bundles leave discriminators as they are
			}
			c.Kinds = append(c.Kinds, k)
		}
		if r.P(0.2) {
			c.Delim = simrt.Pick(r, []string{"_", "--", "."})
		}
		return c
	}
	harness.Register(&harness.Scenario{Name: "bundle-faults", Property: "C09", Est: 300000,
		New: func() any { return &bundleCase{} },
		Gen: func(r *simrt.Rand) any {
			c := gen(r)
			kinds := []string{"missing", "eio-open", "eacces", "emfile", "eio-read", "eio-read", "slow", "short", "stat"}
			if c.D.Mode == "remote" {
				kinds = []string{"refused", "timeout", "nil", "err-with-resp", "500", "404", "503", "429", "reset", "slow"}
			}
			drawFaults(r, c.D, kinds)
			return c
		},
		Run: func(ci any, e *harness.Env) { ci.(*bundleCase).run(e) },
	})
	harness.Register(&harness.Scenario{Name: "bundle", Property: "C09", Est: 300000,
		New: func() any { return &bundleCase{} },
		Gen: func(r *simrt.Rand) any { return gen(r) },
		Run: func(ci any, e *harness.Env) { ci.(*bundleCase).run(e) },
	})
}
