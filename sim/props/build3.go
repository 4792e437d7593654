package props

import (
	"fmt"
	"strings"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel"
	v3high "github.com/pb33f/libopenapi/datamodel/high/v3"

	"verifsim/doc"
	"verifsim/harness"
	"verifsim/simrt"
)

// Property build-v3: building and rendering a model gives the document's own content whatever the
// interleaving of the builder's goroutines.

type build3Case struct {
	Gen      doc.Gen3 `json:"gen"`
	Clear    bool     `json:"clear_caches"`
	SkipCirc bool     `json:"skip_circular_check"`
	Full     bool     `json:"full_dump"`
}

type built struct {
	newErr, buildErr, renderErr string
	model                       *v3high.Document
	high, low, idx              string
	rendered                    []byte
	hash                        uint64
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func buildV3(src []byte, c *build3Case, full bool) (b built) {
	cfg := datamodel.NewDocumentConfiguration()
	cfg.SkipCircularReferenceCheck = c.SkipCirc
	d, err := libopenapi.NewDocumentWithConfiguration(src, cfg)
	if err != nil {
		b.newErr = err.Error()
		return
	}
	m, err := d.BuildV3Model()
	b.buildErr = errText(err)
	if m == nil {
		return
	}
	b.model = &m.Model
	r, err := m.Model.Render()
	b.renderErr = errText(err)
	b.rendered = r
	if full {
		b.high = dumpText(&m.Model)
		b.low = dumpText(m.Model.GoLow())
		b.idx = dumpIndex(m.Index)
	}
	return
}

// normResponses moves every responses object's "default" to the front: the model keeps it apart
// from the status codes, so its place among them is not part of the contract.
func normDefault(n *doc.Node) *doc.Node {
	c := n.Clone()
	c.Walk(func(p []string, x *doc.Node) {
		if len(p) > 0 && p[len(p)-1] == "responses" && x.Kind == doc.Map && x.Has("default") {
			v := x.Get("default")
			x.Del("default")
			x.Keys = append([]string{"default"}, x.Keys...)
			x.Vals = append([]*doc.Node{v}, x.Vals...)
		}
	})
	return c
}

func checkRendered(e *harness.Env, what string, want *doc.Node, rendered []byte) {
	got, err := doc.Parse(rendered)
	if err != nil {
		e.Fail(what+"-unparsable", "rendered document does not parse: %v", err)
		return
	}
	if d := doc.Diff(want, got, false); d != "" {
		e.Fail(what+"-content", "rendered model differs from the document it was built from (document vs rendered): %s", d)
		return
	}
	if d := doc.Diff(normDefault(want), normDefault(got), true); d != "" {
		e.Fail(what+"-order", "rendered model does not keep the document's order: %s", d)
	}
}

func compareBuilt(e *harness.Env, what string, a, b *built) {
	for _, x := range []struct{ n, a, b string }{
		{"new-error", a.newErr, b.newErr}, {"build-error", a.buildErr, b.buildErr}, {"render-error", a.renderErr, b.renderErr},
		{"rendered", string(a.rendered), string(b.rendered)},
		{"high-model", a.high, b.high}, {"low-model", a.low, b.low}, {"index", a.idx, b.idx}} {
		if d := firstDiff(x.a, x.b); d != "" {
			cls := x.n
			if x.n == "index" {
				// name the accessor that differs
				la, lb := strings.Split(x.a, "\nGet"), strings.Split(x.b, "\nGet")
				for i := range la {
					if i < len(lb) && la[i] != lb[i] {
						cls += ":" + strings.SplitN(la[i], " ", 2)[0]
						d = firstDiff(la[i], lb[i])
						break
					}
				}
			}
			e.Fail(what+":"+cls, "%s differs between two schedules of the same build (reference vs this schedule): %s", x.n, d)
			return
		}
	}
}

func init() {
	harness.Register(&harness.Scenario{
		Name: "build-v3", Property: "C01", Est: 400000,
		New: func() any { return &build3Case{} },
		Gen: func(r *simrt.Rand) any {
			c := &build3Case{Gen: doc.DrawGen3(r, 1), Clear: r.Bool(), SkipCirc: r.P(0.2)}
			c.Full = r.P(0.25)
			return c
		},
		Run: func(ci any, e *harness.Env) {
			c := ci.(*build3Case)
			d := c.Gen.Build()
			src := c.Gen.Bytes(d)
			var ref, got built
			if c.Full {
				libopenapi.ClearAllCaches()
				e.Ref(0, func() { ref = buildV3(src, c, true) })
				if e.Failed() {
					return
				}
			}
			if c.Full && c.Clear {
				libopenapi.ClearAllCaches()
			}
			e.Sim(func() { got = buildV3(src, c, c.Full) })
			if e.Failed() {
				return
			}
			if got.newErr != "" || got.buildErr != "" || got.renderErr != "" {
				if !(c.Gen.Cyclic && strings.Contains(got.buildErr, "circular")) {
					e.Fail("unexpected-error", "a valid document was refused: new=%q build=%q render=%q", got.newErr, got.buildErr, got.renderErr)
					return
				}
			}
			if got.model == nil {
				e.Fail("no-model", "no model for a valid document: %s", got.buildErr)
				return
			}
			checkRendered(e, "render", d, got.rendered)
			if c.Full {
				compareBuilt(e, "schedule", &ref, &got)
			}
			e.Digest(fmt.Sprint(len(got.rendered), got.buildErr))
		},
	})
}
