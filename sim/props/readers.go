package props

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel"
	"github.com/pb33f/libopenapi/datamodel/high/base"
	v3high "github.com/pb33f/libopenapi/datamodel/high/v3"
	"github.com/pb33f/libopenapi/datamodel/low"
	"github.com/pb33f/libopenapi/index"
	"github.com/pb33f/libopenapi/orderedmap"
	"github.com/pb33f/libopenapi/renderer"
	"go.yaml.in/yaml/v4"

	"verifsim/doc"
	"verifsim/harness"
	"verifsim/simrt"
)

// Property readers: goroutines that read one built model at the same time each see what a single
// reader sees.

type readOp struct {
	Kind   string `json:"kind"`
	Target int    `json:"target"`
	Arg    int    `json:"arg,omitempty"`
	Us     int    `json:"us,omitempty"` // virtual delay before the operation
}

type readersCase struct {
	Gen     doc.Gen3   `json:"gen"`
	Readers [][]readOp `json:"readers"`
	Reverse bool       `json:"reverse,omitempty"`
}

// readable is one object of the model with a stable name.
type readable struct {
	name string
	v    any
}

func describeSchema(s *base.Schema) string {
	if s == nil {
		return "nil"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "type=%v title=%q fmt=%q desc=%q req=%v enum=%d ", s.Type, s.Title, s.Format, s.Description, s.Required, len(s.Enum))
	if s.Properties != nil {
		for k, p := range s.Properties.FromOldest() {
			fmt.Fprintf(&b, "%s(%v %s) ", k, p.IsReference(), p.GetReference())
		}
	}
	if s.ParentProxy != nil {
		fmt.Fprintf(&b, "parent=%v %q ", s.ParentProxy.IsReference(), s.ParentProxy.GetReference())
	}
	if s.Items != nil && s.Items.IsA() && s.Items.A != nil {
		fmt.Fprintf(&b, "items(%v %s) ", s.Items.A.IsReference(), s.Items.A.GetReference())
	}
	for _, l := range [][]*base.SchemaProxy{s.AllOf, s.AnyOf, s.OneOf} {
		b.WriteByte('|')
		for _, p := range l {
			fmt.Fprintf(&b, "(%v %s) ", p.IsReference(), p.GetReference())
		}
	}
	if l := s.GoLow(); l != nil {
		fmt.Fprintf(&b, "low=%x", l.Hash())
	}
	return b.String()
}

// deepSchema reads a schema and everything below it, stopping at references of references.
func deepSchema(p *base.SchemaProxy, depth int, b *strings.Builder) {
	if p == nil || depth > 5 {
		return
	}
	s := p.Schema()
	fmt.Fprintf(b, "[%v %q ", p.IsReference(), p.GetReference())
	if e := p.GetBuildError(); e != nil {
		fmt.Fprintf(b, "err=%q ", e)
	}
	b.WriteString(describeSchema(s))
	if s != nil {
		if s.Properties != nil {
			for _, q := range s.Properties.FromOldest() {
				deepSchema(q, depth+1, b)
			}
		}
		if s.Items != nil && s.Items.IsA() {
			deepSchema(s.Items.A, depth+1, b)
		}
		for _, l := range [][]*base.SchemaProxy{s.AllOf, s.AnyOf, s.OneOf} {
			for _, q := range l {
				deepSchema(q, depth+1, b)
			}
		}
		if s.AdditionalProperties != nil && s.AdditionalProperties.IsA() {
			deepSchema(s.AdditionalProperties.A, depth+1, b)
		}
	}
	b.WriteByte(']')
}

type readModel struct {
	d      libopenapi.Document
	m      *libopenapi.DocumentModel[v3high.Document]
	prox   []readable
	objs   []readable
	mock   []readable // what a mock can be made of
	nodes  []readable // extensions and examples, as nodes
	refs   []string
	getter []string
	files  []string
}

func openReadModel(src []byte) (*readModel, error) {
	cfg := datamodel.NewDocumentConfiguration()
	cfg.Logger = quietLogger
	d, err := libopenapi.NewDocumentWithConfiguration(src, cfg)
	if err != nil {
		return nil, err
	}
	m, err := d.BuildV3Model()
	if m == nil {
		return nil, err
	}
	return collect(d, m), nil
}

// collect names everything of a model that can be read.
func collect(d libopenapi.Document, m *libopenapi.DocumentModel[v3high.Document]) *readModel {
	r := &readModel{d: d, m: m}
	addp := func(n string, p *base.SchemaProxy) {
		if p != nil {
			r.prox = append(r.prox, readable{n, p})
			r.objs = append(r.objs, readable{n, p})
			r.mock = append(r.mock, readable{n, p})
		}
	}
	exts := func(n string, x *orderedmap.Map[string, *yaml.Node]) {
		for k, v := range x.FromOldest() {
			r.nodes = append(r.nodes, readable{n + " " + k, v})
		}
	}
	exs := func(n string, x *orderedmap.Map[string, *base.Example], one *yaml.Node) {
		for k, v := range x.FromOldest() {
			if v.Value != nil {
				r.nodes = append(r.nodes, readable{n + " example " + k, v.Value})
			}
		}
		if one != nil {
			r.nodes = append(r.nodes, readable{n + " example", one})
		}
	}
	add := func(n string, v any) {
		r.objs = append(r.objs, readable{n, v})
		switch x := v.(type) {
		case *v3high.Parameter:
			r.mock = append(r.mock, readable{n, v})
			exts(n, x.Extensions)
			exs(n, x.Examples, x.Example)
		case *v3high.Header:
			r.mock = append(r.mock, readable{n, v})
			exts(n, x.Extensions)
			exs(n, x.Examples, x.Example)
		case *v3high.PathItem:
			exts(n, x.Extensions)
		case *v3high.Operation:
			exts(n, x.Extensions)
		case *v3high.Response:
			exts(n, x.Extensions)
		case *v3high.RequestBody:
			exts(n, x.Extensions)
		}
	}
	media := func(n string, x *v3high.MediaType) {
		r.mock = append(r.mock, readable{n, x})
		exts(n, x.Extensions)
		exs(n, x.Examples, x.Example)
	}
	exts("", m.Model.Extensions)
	dm := &m.Model
	if c := dm.Components; c != nil {
		add("components", c)
		if c.Schemas != nil {
			for k, p := range c.Schemas.FromOldest() {
				addp("schemas/"+k, p)
			}
		}
		if c.Parameters != nil {
			for k, p := range c.Parameters.FromOldest() {
				add("parameters/"+k, p)
				addp("parameters/"+k+"/schema", p.Schema)
			}
		}
		if c.Headers != nil {
			for k, p := range c.Headers.FromOldest() {
				add("headers/"+k, p)
				addp("headers/"+k+"/schema", p.Schema)
			}
		}
		if c.Responses != nil {
			for k, p := range c.Responses.FromOldest() {
				add("responses/"+k, p)
			}
		}
		if c.RequestBodies != nil {
			for k, p := range c.RequestBodies.FromOldest() {
				add("requestBodies/"+k, p)
			}
		}
	}
	if dm.Paths != nil && dm.Paths.PathItems != nil {
		for k, pi := range dm.Paths.PathItems.FromOldest() {
			add("paths"+k, pi)
			for v, op := range pi.GetOperations().FromOldest() {
				add("paths"+k+" "+v, op)
				for i, p := range op.Parameters {
					addp(fmt.Sprintf("paths%s %s param %d", k, v, i), p.Schema)
					exs(fmt.Sprintf("paths%s %s param %d", k, v, i), p.Examples, p.Example)
				}
				if op.RequestBody != nil && op.RequestBody.Content != nil {
					for ct, mt := range op.RequestBody.Content.FromOldest() {
						addp("paths"+k+" "+v+" body "+ct, mt.Schema)
						media("paths"+k+" "+v+" body "+ct, mt)
					}
				}
				if op.Responses != nil && op.Responses.Codes != nil {
					for code, rs := range op.Responses.Codes.FromOldest() {
						add("paths"+k+" "+v+" "+code, rs)
						if rs.Content != nil {
							for ct, mt := range rs.Content.FromOldest() {
								addp("paths"+k+" "+v+" "+code+" "+ct, mt.Schema)
								media("paths"+k+" "+v+" "+code+" "+ct, mt)
							}
						}
					}
				}
			}
		}
	}
	for k := range m.Index.GetAllReferences() {
		r.refs = append(r.refs, k)
	}
	r.refs = append(r.refs, "#/components/schemas/Nope")
	sort.Strings(r.refs)
	t := reflect.TypeOf(m.Index)
	for i := 0; i < t.NumMethod(); i++ {
		mt := t.Method(i)
		if !strings.HasPrefix(mt.Name, "Get") || mt.Type.NumIn() != 1 || mt.Type.NumOut() != 1 {
			continue
		}
		switch mt.Name {
		case "GetHighCacheHits", "GetHighCacheMisses", "GetHighCache", "GetResolver", "GetConfig", "GetNodeMap", "GetCache",
			"GetLogger", "GetRolodex", "GetRootNode":
			continue
		}
		r.getter = append(r.getter, mt.Name)
	}
	for _, i := range m.Index.GetRolodex().GetIndexes() {
		r.files = append(r.files, i.GetSpecAbsolutePath())
	}
	return r
}

func refTable(m map[string]*index.Reference) string {
	var l []string
	for k, x := range m {
		s := k + " -> nil"
		if x != nil {
			s = fmt.Sprintf("%s -> %s %s", k, x.FullDefinition, x.RemoteLocation)
			if x.Node != nil {
				s += fmt.Sprintf(" %d:%d", x.Node.Line, x.Node.Column)
			}
		}
		l = append(l, s)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func loops(l []*index.CircularReferenceResult) string {
	var b strings.Builder
	for _, c := range l {
		fmt.Fprintf(&b, "%s %s\n", c.LoopPoint.FullDefinition, c.GenerateJourneyPath())
	}
	return b.String()
}

// rolo reads from the rolodex of a model.
func (r *readModel) rolo(o readOp) string {
	x := r.m.Index.GetRolodex()
	switch o.Target % 7 {
	case 0:
		return refTable(x.GetAllReferences())
	case 1:
		return refTable(x.GetAllMappedReferences())
	case 2:
		return loops(x.GetSafeCircularReferences()) + "---\n" + loops(x.GetIgnoredCircularReferences())
	case 3:
		var b strings.Builder
		for _, i := range x.GetIndexes() {
			fmt.Fprintf(&b, "%s %d %d\n", i.GetSpecAbsolutePath(), len(i.GetAllReferences()), len(i.GetMappedReferences()))
		}
		return b.String()
	case 4:
		return fmt.Sprint(x.RolodexTotalFiles(), x.RolodexFileSize(), x.GetFullLineCount(), x.RolodexFileSizeAsString())
	}
	if len(r.files) == 0 {
		return "no files"
	}
	p := r.files[o.Arg%len(r.files)]
	f, err := x.Open(p)
	if f == nil {
		return fmt.Sprintf("%s: %v", p, err)
	}
	n, nerr := f.GetContentAsYAMLNode()
	s := fmt.Sprintf("%s %s %s %d %v %v %v", p, f.GetFullPath(), f.Name(), len(f.GetContent()), f.GetFileExtension(), err, nerr)
	if n != nil {
		s += fmt.Sprintf(" %d %d", n.Kind, len(n.Content))
	}
	if i := f.GetIndex(); i != nil {
		s += " " + i.GetSpecAbsolutePath() + " " + refTable(i.GetAllReferences())
	}
	return s
}

func yml(v any, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	switch x := v.(type) {
	case []byte:
		return string(x)
	}
	b, err := yaml.Marshal(v)
	if err != nil {
		return "marshal error: " + err.Error()
	}
	return string(b)
}

func (r *readModel) do(o readOp) string {
	switch o.Kind {
	case "schema", "deep", "build", "ref", "phash", "plow", "pinline", "pctx", "prender":
		if len(r.prox) == 0 {
			return "none"
		}
		p := r.prox[o.Target%len(r.prox)].v.(*base.SchemaProxy)
		switch o.Kind {
		case "schema":
			return describeSchema(p.Schema()) + errText(p.GetBuildError())
		case "deep":
			var b strings.Builder
			deepSchema(p, 0, &b)
			return b.String()
		case "build":
			s, err := p.BuildSchema()
			return describeSchema(s) + errText(err)
		case "ref":
			s := fmt.Sprint(p.IsReference(), p.GetReference())
			if n := p.GetReferenceNode(); n != nil {
				s += fmt.Sprintf(" @%d:%d", n.Line, n.Column)
			}
			if og := p.GetReferenceOrigin(); og != nil {
				s += fmt.Sprintf(" origin %s:%d:%d", og.AbsoluteLocation, og.Line, og.Column)
			}
			return s
		case "phash":
			return fmt.Sprintf("%x", p.GoLow().Hash())
		case "plow":
			s := p.GoLow().Schema()
			if s == nil {
				return "nil" + errText(p.GoLow().GetBuildError())
			}
			return fmt.Sprintf("%x %s %v", s.Hash(), s.Description.Value, s.GetIndex() == r.m.Index)
		case "pinline":
			return yml(p.MarshalYAMLInline())
		case "pctx":
			return yml(p.MarshalYAMLInlineWithContext(base.NewInlineRenderContextForValidation()))
		default:
			return yml(p.Render())
		}
	case "render", "inline", "hash":
		if len(r.objs) == 0 {
			return "none"
		}
		x := r.objs[o.Target%len(r.objs)].v
		switch o.Kind {
		case "render":
			if v, ok := x.(interface{ Render() ([]byte, error) }); ok {
				return yml(v.Render())
			}
		case "inline":
			if v, ok := x.(interface{ RenderInline() ([]byte, error) }); ok {
				return yml(v.RenderInline())
			}
			if v, ok := x.(interface{ MarshalYAMLInline() (interface{}, error) }); ok {
				return yml(v.MarshalYAMLInline())
			}
		case "hash":
			if g, ok := x.(interface{ GoLowUntyped() any }); ok {
				if h, ok := g.GoLowUntyped().(interface{ Hash() uint64 }); ok {
					return fmt.Sprintf("%x", h.Hash())
				}
			}
		}
		return "n/a"
	case "doc":
		switch o.Target % 4 {
		case 0:
			return yml(r.m.Model.Render())
		case 1:
			return yml(r.m.Model.RenderInline())
		case 2:
			return fmt.Sprintf("%x", r.m.Model.GoLow().Hash())
		default:
			b := r.d.GetSpecInfo().GetSpecJSONBytes()
			if b == nil {
				return "nil " + errText(r.d.GetSpecInfo().GetSpecJSONError())
			}
			return string(*b)
		}
	case "serialize":
		b, err := r.d.Serialize()
		return string(b) + errText(err)
	case "mock":
		if len(r.mock) == 0 {
			return "none"
		}
		x := r.mock[o.Target%len(r.mock)].v
		if p, ok := x.(*base.SchemaProxy); ok {
			s := p.Schema()
			if s == nil {
				return "nil"
			}
			x = s
		}
		mg := renderer.NewMockGenerator([]renderer.MockType{renderer.JSON, renderer.YAML, renderer.YAML, renderer.XML}[o.Arg%4])
		mg.SetSeed(int64(o.Arg))
		if o.Arg%3 == 0 {
			mg.DisableRequiredCheck()
		}
		b, err := mg.GenerateMock(x, []string{"", "one", "0"}[o.Arg%5%3])
		return string(b) + errText(err)
	case "bytes":
		if len(r.nodes) == 0 {
			return "none"
		}
		x := r.nodes[o.Target%len(r.nodes)].v.(*yaml.Node)
		switch o.Arg % 3 {
		case 0:
			b, err := low.YAMLNodeToBytes(x)
			return string(b) + errText(err)
		case 1:
			return low.ValueToString(x)
		default:
			return low.GenerateHashString(x)
		}
	case "rolo":
		return r.rolo(o)
	case "search":
		ref := r.refs[o.Target%len(r.refs)]
		x, i := r.m.Index.SearchIndexForReference(ref)
		if x == nil {
			return "not found"
		}
		return fmt.Sprint(ref, x.FullDefinition, x.Name, x.Node.Line, x.Node.Column, i == r.m.Index)
	case "find":
		ref := r.refs[o.Target%len(r.refs)]
		x := r.m.Index.FindComponent(context.Background(), ref)
		if x == nil {
			return "not found"
		}
		return fmt.Sprint(ref, x.FullDefinition, x.Name, x.Node.Line, x.Node.Column)
	case "get":
		n := r.getter[o.Target%len(r.getter)]
		out := reflect.ValueOf(r.m.Index).MethodByName(n).Call(nil)[0]
		d := &dumper{seen: map[any]int{}, limit: 60000}
		d.val(out)
		return n + " = " + d.b.String()
	case "node":
		n, ok := r.m.Index.GetNode(1+o.Target%200, 1+2*(o.Arg%12))
		if !ok || n == nil {
			return "none"
		}
		s := fmt.Sprint(n.Value, n.Line, n.Column)
		if og := r.m.Index.GetRolodex().FindNodeOrigin(n); og != nil {
			s += fmt.Sprintf(" origin %s:%d:%d", og.AbsoluteLocation, og.Line, og.Column)
		}
		return s
	}
	return "?"
}

// nodesOf gives every node below some roots, as it is.
func nodesOf(roots ...*yaml.Node) []string {
	var out []string
	seen := map[*yaml.Node]bool{}
	var walk func(n *yaml.Node)
	walk = func(n *yaml.Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		out = append(out, fmt.Sprintf("%d:%d kind %d tag %q style %d anchor %q %q, %d below", n.Line, n.Column, n.Kind, n.Tag, n.Style, n.Anchor, n.Value, len(n.Content)))
		for _, x := range n.Content {
			walk(x)
		}
		walk(n.Alias)
	}
	for _, r := range roots {
		walk(r)
	}
	return out
}

// changedNode says which node is no longer as it was.
func changedNode(before, after []string) string {
	for i := 0; i < min(len(before), len(after)); i++ {
		if before[i] != after[i] {
			return before[i] + ", now " + after[i]
		}
	}
	if len(before) > len(after) {
		return fmt.Sprint(len(before)-len(after), " nodes are gone")
	}
	return ""
}

// sources gives every node of the files of the document.
func (r *readModel) sources() []string {
	l := []*yaml.Node{r.m.Index.GetRootNode(), r.d.GetSpecInfo().RootNode}
	if rolo := r.m.Index.GetRolodex(); rolo != nil {
		for _, x := range rolo.GetIndexes() {
			l = append(l, x.GetRootNode())
		}
	}
	return nodesOf(l...)
}

func (c *readersCase) draw(r *simrt.Rand, kinds []string, whole int) {
	hot := r.P(0.5) // few targets, so that readers meet
	n := r.Range(2, 5)
	spread := 60
	if hot {
		spread = r.Range(1, 4)
	}
	base0 := r.N(40)
	fav := ""
	if r.P(0.3) {
		fav = simrt.Pick(r, kinds)
	}
	for i := 0; i < n; i++ {
		var ops []readOp
		for j := r.Range(1, 6); j > 0; j-- {
			o := readOp{Kind: simrt.Pick(r, kinds), Target: base0 + r.N(spread), Arg: r.N(50)}
			if fav != "" && r.P(0.7) {
				o.Kind = fav
			}
			if o.Kind == "doc" || o.Kind == "serialize" {
				if whole--; whole < 0 {
					o.Kind = "ref"
				}
			}
			if r.P(0.1) {
				o.Us = r.N(50)
			}
			ops = append(ops, o)
		}
		c.Readers = append(c.Readers, ops)
	}
}

func genReaders(r *simrt.Rand) any {
	c := &readersCase{Gen: doc.DrawGen3(r, 0), Reverse: r.P(0.2)}
	defer func() {
		// inlining is exponential in the worst case: keep it to documents where it is not
		if n := doc.Expanded(c.Gen.Build(), 6000); n >= 6000 {
			for _, ops := range c.Readers {
				for i := range ops {
					switch ops[i].Kind {
					case "inline", "pinline", "pctx":
						ops[i].Kind = "prender"
					case "deep", "mock":
						ops[i].Kind = "schema"
					case "doc":
						if ops[i].Target%4 == 1 {
							ops[i].Target++
						}
					}
				}
			}
		}
	}()
	if r.P(0.9) {
		c.Gen.Big = ""
	}
	whole := 3 // operations over the whole document are expensive
	if c.Gen.Big != "" {
		whole = 1
	}
	c.draw(r, []string{"schema", "schema", "deep", "build", "ref", "phash", "plow", "pinline", "pctx", "prender", "render", "inline", "hash", "doc", "search", "find", "get", "node", "serialize", "mock", "mock", "bytes"}, whole)
	return c
}

func runReaders(c *readersCase, e *harness.Env) {
	d := c.Gen.Build()
	src := c.Gen.Bytes(d)
	c.run(e, func(int) (*readModel, error) { return openReadModel(src) })
}

// run compares what each reader is told while the others read too with what it is told otherwise.
func (c *readersCase) run(e *harness.Env, open func(k int) (*readModel, error)) {
	names := func(o readOp, m *readModel) string {
		s := o.Kind
		switch o.Kind {
		case "get":
			s += " " + m.getter[o.Target%len(m.getter)]
		case "search", "find":
			s += " " + m.refs[o.Target%len(m.refs)]
		case "render", "inline", "hash":
			if len(m.objs) > 0 {
				s += " " + m.objs[o.Target%len(m.objs)].name
			}
		case "rolo":
			s += fmt.Sprint(" ", o.Target%7)
		case "doc", "node":
			s += fmt.Sprint(" ", o.Target%4)
		case "mock":
			if len(m.mock) > 0 {
				s += " " + m.mock[o.Target%len(m.mock)].name
			}
		case "bytes":
			if len(m.nodes) > 0 {
				s += " " + m.nodes[o.Target%len(m.nodes)].name
			}
		case "serialize":
		default:
			if len(m.prox) > 0 {
				s += " " + m.prox[o.Target%len(m.prox)].name
			}
		}
		return s
	}
	want := make([][]string, len(c.Readers))
	seq := func(k int, out [][]string, order []int) func() {
		return func() {
			libopenapi.ClearAllCaches()
			m, err := open(k)
			if m == nil {
				e.Fail("no-model", "no model for a valid document: %v", err)
				return
			}
			for _, i := range order {
				out[i] = make([]string, len(c.Readers[i]))
				for j, o := range c.Readers[i] {
					out[i][j] = m.do(o)
				}
			}
		}
	}
	var fwd, rev []int
	for i := range c.Readers {
		fwd = append(fwd, i)
		rev = append([]int{i}, rev...)
	}
	e.Ref(0, seq(0, want, fwd))
	if e.Failed() {
		return
	}
	got := make([][]string, len(c.Readers))
	var m *readModel
	libopenapi.ClearAllCaches()
	if c.Reverse {
		e.Sim(func() {
			seq(1, got, rev)()
			m, _ = open(2)
		})
	} else {
		e.Sim(func() {
			var err error
			m, err = open(1)
			if m == nil {
				e.Fail("no-model", "no model for a valid document: %v", err)
				return
			}
			before := m.sources()
			defer func() {
				if d := changedNode(before, m.sources()); d != "" {
					e.Fail("read-changed-source", "reading changed a node of the document: %s", d)
				}
			}()
			var wg sync.WaitGroup
			for i := range c.Readers {
				wg.Add(1)
				got[i] = make([]string, len(c.Readers[i]))
				go func() {
					defer wg.Done()
					for j, o := range c.Readers[i] {
						if o.Us > 0 {
							pdelay(o.Us)
						}
						got[i][j] = m.do(o)
					}
				}()
			}
			wg.Wait()
		})
	}
	if e.Failed() || m == nil {
		return
	}
	for i := range c.Readers {
		for j, o := range c.Readers[i] {
			e.Probe("op:" + o.Kind)
			if df := firstDiff(want[i][j], got[i][j]); df != "" {
				how := "while others read the same model"
				if c.Reverse {
					how = "when the reads are made in another order"
				}
				e.Fail("read-"+o.Kind, "reader %d operation %d (%s) returns something else %s (alone vs now): %s", i, j, names(o, m), how, df)
				return
			}
			e.Digest(got[i][j])
		}
	}
}

func init() {
	harness.Register(&harness.Scenario{Name: "readers", Property: "C07", Est: 300000,
		New: func() any { return &readersCase{} }, Gen: genReaders,
		Run: func(c any, e *harness.Env) { runReaders(c.(*readersCase), e) }})

	harness.Register(&harness.Scenario{Name: "readers-files", Property: "C07", Est: 300000,
		New: func() any { return &readersFilesCase{} }, Gen: genReadersFiles,
		Run: func(ci any, e *harness.Env) {
			c := ci.(*readersFilesCase)
			var b [3]*multiBuilt
			for i := range b {
				b[i] = c.F.prepare(e, uint64(5+i), false)
				defer b[i].done()
			}
			c.run(e, func(k int) (*readModel, error) {
				c.F.build(b[k])
				if b[k].m == nil {
					return nil, fmt.Errorf("%v %v", b[k].newErr, b[k].err)
				}
				return collect(b[k].doc, b[k].m), nil
			})
		}})
}

// readersFilesCase is the same over a document in several files.
type readersFilesCase struct {
	F *multiCase `json:"files"`
	readersCase
}

func (c *readersFilesCase) Valid() bool { return c.F != nil && c.F.Valid() }

func genReadersFiles(r *simrt.Rand) any {
	c := &readersFilesCase{F: genMulti(r, []string{"os", "os", "dirfs", "remote"})}
	c.F.Lat = simrt.Pick(r, []int{0, 0, 20})
	c.Reverse = r.P(0.2)
	c.draw(r, []string{"rolo", "rolo", "rolo", "rolo", "schema", "schema", "deep", "build", "ref", "phash", "plow", "prender", "render", "hash", "search", "find", "get", "node"}, 0)
	return c
}
