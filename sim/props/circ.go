package props

import (
	"fmt"
	"path"
	"regexp"
	"slices"
	"sort"
	"strings"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel"
	v3high "github.com/pb33f/libopenapi/datamodel/high/v3"
	"github.com/pb33f/libopenapi/index"

	"verifsim/harness"
	"verifsim/simrt"
)

// Property circular: circular references are found exactly where they are, the same in every build.

type circEdge struct {
	To   int    `json:"to"`
	Kind string `json:"k"` // prop req items nested addl allOf anyOf oneOf
}

type circCase struct {
	Files   int          `json:"files"` // 1: everything in the root
	At      []int        `json:"at"`    // file of each schema
	Edges   [][]circEdge `json:"edges"`
	Roots   []int        `json:"roots"`             // schemas used by operations
	Missing []circEdge   `json:"missing,omitempty"` // To: schema that also has a required property naming nothing
	Poly    bool         `json:"poly,omitempty"`    // ignore polymorphic
	Array   bool         `json:"array,omitempty"`   // ignore array
	Seq     bool         `json:"seq,omitempty"`
	Resolve bool         `json:"resolve,omitempty"`
	Lat     int          `json:"lat,omitempty"`
	Pad     int          `json:"pad,omitempty"`  // plain required properties in front
	Same    bool         `json:"same,omitempty"` // schemas of different files share names
}

// num is the number in the name of schema i: its own, or its place among the schemas of its file.
func (c *circCase) num(i int) int {
	if !c.Same {
		return i
	}
	n := 0
	for k := range i {
		if c.At[k] == c.At[i] {
			n++
		}
	}
	return n
}

func (c *circCase) Valid() bool {
	if c.Files < 1 || len(c.At) == 0 || len(c.At) != len(c.Edges) {
		return false
	}
	for _, f := range c.At {
		if f < 0 || f >= c.Files {
			return false
		}
	}
	ok := func(i int) bool { return i >= 0 && i < len(c.At) }
	for _, l := range c.Edges {
		addl := 0
		for _, e := range l {
			if !ok(e.To) {
				return false
			}
			if e.Kind == "addl" {
				addl++
			}
		}
		if addl > 1 {
			return false
		}
	}
	for _, r := range c.Roots {
		if !ok(r) {
			return false
		}
	}
	for _, r := range c.Missing {
		if !ok(r.To) {
			return false
		}
	}
	return true
}

func circFile(f int) string {
	if f == 0 {
		return "root.yaml"
	}
	return fmt.Sprintf("f%d.yaml", f)
}

func (c *circCase) ref(from, to int) string {
	p := ""
	if from != c.At[to] {
		p = circFile(c.At[to])
	}
	return fmt.Sprintf("%s#/components/schemas/S%d", p, c.num(to))
}

func (c *circCase) files() map[string][]byte {
	out := map[string][]byte{}
	for f := 0; f < c.Files; f++ {
		var b strings.Builder
		if f == 0 {
			b.WriteString("openapi: 3.1.0\ninfo: {title: t, version: '1'}\npaths:\n")
			if len(c.Roots) == 0 {
				b.WriteString("  /none: {get: {responses: {'204': {description: none}}}}\n")
			}
			for k, r := range c.Roots {
				fmt.Fprintf(&b, "  /p%d:\n    get:\n      responses:\n        '200':\n          description: d\n          content:\n            application/json:\n              schema: {$ref: '%s'}\n", k, c.ref(0, r))
			}
		}
		b.WriteString("components:\n  schemas:\n    Lone: {type: string}\n")
		for i, at := range c.At {
			if at != f {
				continue
			}
			fmt.Fprintf(&b, "    S%d:\n      type: object\n      description: schema %d\n", c.num(i), i)
			var req, props []string
			by := map[string][]string{}
			addl := ""
			single := map[string][]string{}
			for k := range c.Pad {
				req = append(req, fmt.Sprintf("a%d", k))
				props = append(props, fmt.Sprintf("a%d: {type: string}", k))
			}
			for k, e := range c.Edges[i] {
				r := fmt.Sprintf("{$ref: '%s'}", c.ref(f, e.To))
				p := fmt.Sprintf("p%d", k)
				switch e.Kind {
				case "req":
					req = append(req, p)
					props = append(props, p+": "+r)
				case "items":
					props = append(props, p+": {type: array, items: "+r+"}")
				case "nested":
					props = append(props, p+": {type: object, properties: {q: "+r+"}}")
				case "addl":
					addl = r
				case "deep":
					d := r
					for range 12 {
						d = "{type: object, properties: {q: " + d + "}}"
					}
					props = append(props, p+": "+d)
				case "deepOf":
					d := "{allOf: [{type: object, properties: {q: " + r + "}}]}"
					for range 5 {
						d = "{type: object, properties: {q: " + d + "}}"
					}
					props = append(props, p+": "+d)
				case "not", "contains":
					props = append(props, p+": {"+e.Kind+": "+r+"}")
				case "prefix":
					props = append(props, p+": {type: array, prefixItems: [{type: string}, "+r+"]}")
				case "pattern":
					single["patternProperties"] = append(single["patternProperties"], "'^"+p+"': "+r)
				case "depend":
					single["dependentSchemas"] = append(single["dependentSchemas"], p+": "+r)
				case "then":
					props = append(props, p+": {if: {type: string}, then: "+r+", else: {type: integer}}")
				case "inOf":
					by["allOf"] = append(by["allOf"], "{type: object, properties: {"+p+": "+r+"}}")
				case "ofItems":
					by["anyOf"] = append(by["anyOf"], "{type: array, items: "+r+"}")
				case "propOf":
					props = append(props, p+": {oneOf: [{type: string}, "+r+"]}")
				case "reqitems":
					req = append(req, p)
					props = append(props, p+": {type: array, items: "+r+"}")
				case "reqallOf":
					req = append(req, p)
					props = append(props, p+": {allOf: ["+r+"]}")
				case "allOf", "anyOf", "oneOf":
					by[e.Kind] = append(by[e.Kind], r)
				default:
					props = append(props, p+": "+r)
				}
			}
			for k, m := range c.Missing {
				if m.To == i {
					p := fmt.Sprintf("m%d", k)
					if m.Kind == "req" {
						req = append(req, p)
					}
					props = append(props, p+": {$ref: '#/components/schemas/Gone"+fmt.Sprint(k)+"'}")
				}
			}
			if len(req) > 0 {
				fmt.Fprintf(&b, "      required: [%s]\n", strings.Join(req, ", "))
			}
			if len(props) > 0 {
				b.WriteString("      properties:\n")
				for _, p := range props {
					b.WriteString("        " + p + "\n")
				}
			}
			if addl != "" {
				b.WriteString("      additionalProperties: " + addl + "\n")
			}
			for _, k := range []string{"patternProperties", "dependentSchemas"} {
				if len(single[k]) > 0 {
					fmt.Fprintf(&b, "      %s: {%s}\n", k, strings.Join(single[k], ", "))
				}
			}
			for _, k := range []string{"allOf", "anyOf", "oneOf"} {
				if len(by[k]) > 0 {
					fmt.Fprintf(&b, "      %s: [%s]\n", k, strings.Join(by[k], ", "))
				}
			}
		}
		out[circFile(f)] = []byte(b.String())
	}
	return out
}

// circGraph is the reference: plain graph algorithms over the generated edges.
type circGraph struct {
	n    int
	scc  []int
	cyc  map[int]bool // components with a cycle
	req  [][]bool     // reachability over required edges (at least one step)
	may  [][]bool     // the same, with edges that may be taken as required
	edge [][]bool
	load []bool       // whether a schema's file is loaded
	poly map[int]bool // components with a polymorphic edge inside
	seen []bool       // in the root document, or reachable from it
}

func (c *circCase) graph() *circGraph {
	n := len(c.At)
	g := &circGraph{n: n, cyc: map[int]bool{}, poly: map[int]bool{}}
	mk := func() [][]bool {
		m := make([][]bool, n)
		for i := range m {
			m[i] = make([]bool, n)
		}
		return m
	}
	g.edge, g.req, g.may = mk(), mk(), mk()
	all := mk()
	for i, l := range c.Edges {
		for _, e := range l {
			g.edge[i][e.To], all[i][e.To] = true, true
			switch e.Kind {
			case "req":
				g.req[i][e.To], g.may[i][e.To] = true, true
			case "reqitems", "reqallOf":
				g.may[i][e.To] = true
			}
		}
	}
	for _, m := range [][][]bool{g.req, g.may, all} {
		for k := 0; k < n; k++ {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					m[i][j] = m[i][j] || m[i][k] && m[k][j]
				}
			}
		}
	}
	g.scc = make([]int, n)
	for i := range g.scc {
		g.scc[i] = i
		for j := 0; j < i; j++ {
			if all[i][j] && all[j][i] {
				g.scc[i] = g.scc[j]
				break
			}
		}
		if all[i][i] {
			g.cyc[g.scc[i]] = true
		}
	}
	for i, l := range c.Edges {
		for _, e := range l {
			if strings.Contains(strings.ToLower(e.Kind), "of") && g.scc[i] == g.scc[e.To] {
				g.poly[g.scc[i]] = true
			}
		}
	}
	file := make([]bool, c.Files)
	file[0] = true
	for _, r := range c.Roots {
		file[c.At[r]] = true
	}
	for range c.Files {
		for i, l := range c.Edges {
			for _, e := range l {
				if file[c.At[i]] {
					file[c.At[e.To]] = true
				}
			}
		}
	}
	g.seen = make([]bool, n)
	for i := range n {
		if c.At[i] == 0 || slices.Contains(c.Roots, i) {
			g.seen[i] = true
			for j := range n {
				g.seen[j] = g.seen[j] || all[i][j]
			}
		}
	}
	g.load = make([]bool, n)
	for i := range g.load {
		g.load[i] = file[c.At[i]]
	}
	return g
}

// paths counts the ways through the graph that repeat no schema: inlining follows each.
func (c *circCase) paths(limit int) int {
	n := 0
	on := make([]bool, len(c.At))
	var walk func(i int)
	walk = func(i int) {
		n++
		if n > limit || on[i] {
			return
		}
		on[i] = true
		for _, e := range c.Edges[i] {
			walk(e.To)
		}
		on[i] = false
	}
	for i := range c.At {
		walk(i)
	}
	return n
}

var circLeft = regexp.MustCompile(`\$ref: *['"]?[^'"}\n]*/S(\d+)`)

var circName = regexp.MustCompile(`^(.*?)#/components/schemas/S(\d+)$`)

func (c *circCase) schemaOf(r *index.Reference) (int, error) {
	if r == nil {
		return 0, fmt.Errorf("no reference")
	}
	m := circName.FindStringSubmatch(r.FullDefinition)
	if m == nil {
		return 0, fmt.Errorf("%q is not a schema of the document", r.FullDefinition)
	}
	for i, f := range c.At {
		if fmt.Sprint(c.num(i)) == m[2] && (c.Files == 1 || path.Base(m[1]) == circFile(f)) {
			return i, nil
		}
	}
	return 0, fmt.Errorf("%q does not exist", r.FullDefinition)
}

type circBuilt struct {
	err     error
	newErr  error
	model   *v3high.Document
	results map[string][]*index.CircularReferenceResult // by index
	ignored map[string][]*index.CircularReferenceResult
	safe    []*index.CircularReferenceResult
	ign     []*index.CircularReferenceResult
	text    string
	order   string
	inlined []string
}

func (c *circCase) build(e *harness.Env, salt uint64) *circBuilt {
	files := c.files()
	b := &circBuilt{results: map[string][]*index.CircularReferenceResult{}, ignored: map[string][]*index.CircularReferenceResult{}}
	cfg := datamodel.NewDocumentConfiguration()
	cfg.Logger = quietLogger
	cfg.ExtractRefsSequentially = c.Seq
	cfg.IgnorePolymorphicCircularReferences = c.Poly
	cfg.IgnoreArrayCircularReferences = c.Array
	if c.Files > 1 {
		d := &disk{e: e, r: simrt.NewRand(simrt.Mix(e.Seed(), 31, salt)), lat: c.Lat}
		unmount := d.mount(files)
		defer unmount()
		cfg.AllowFileReferences = true
		cfg.BasePath = vroot
		cfg.SpecFilePath = "root.yaml"
	}
	small := c.paths(300) < 300
	body := func() {
		var d libopenapi.Document
		d, b.newErr = libopenapi.NewDocumentWithConfiguration(files["root.yaml"], cfg)
		if b.newErr != nil {
			return
		}
		m, err := d.BuildV3Model()
		b.err = err
		if m != nil {
			b.model = &m.Model
		}
		ro := d.GetRolodex()
		if ro == nil {
			return
		}
		for _, x := range append([]*index.SpecIndex{ro.GetRootIndex()}, ro.GetIndexes()...) {
			if x == nil {
				continue
			}
			b.order += path.Base(x.GetSpecAbsolutePath()) + " "
			k := path.Base(x.GetSpecAbsolutePath())
			b.results[k] = append(b.results[k], x.GetCircularReferences()...)
			b.ignored[k] = append(b.ignored[k], x.GetIgnoredPolymorphicCircularReferences()...)
			b.ignored[k] = append(b.ignored[k], x.GetIgnoredArrayCircularReferences()...)
		}
		b.safe, b.ign = ro.GetSafeCircularReferences(), ro.GetIgnoredCircularReferences()
		b.text = c.text(b)
		if b.model != nil && b.model.Components != nil && b.model.Components.Schemas != nil {
			// every schema can be built and rendered, or says why not
			for k, sp := range b.model.Components.Schemas.FromOldest() {
				s, err := sp.BuildSchema()
				b.text += fmt.Sprintf("%s: %v %v\n", k, s != nil, err)
				if s != nil && small {
					y, err := s.RenderInline()
					b.text += fmt.Sprintf("inline %v %s\n", err, y)
					if err == nil {
						b.inlined = append(b.inlined, string(y))
					}
				}
			}
		}
		if c.Resolve {
			ro.Resolve()
			var after circBuilt
			for _, x := range append([]*index.SpecIndex{ro.GetRootIndex()}, ro.GetIndexes()...) {
				if x != nil {
					after.safe = append(after.safe, x.GetCircularReferences()...)
				}
			}
			after.ign = append(ro.GetSafeCircularReferences(), ro.GetIgnoredCircularReferences()...)
			if c.Files > 1 {
				return // resolving replaces nodes shared between files; only that it ends is checked
			}
			b.text += "resolved:\n" + c.text(&after) + fmt.Sprint(ro.GetCaughtErrors())
		}
	}
	if salt == 0 {
		e.Ref(0, body)
	} else {
		e.Sim(body)
	}
	return b
}

func (c *circCase) text(b *circBuilt) string {
	var s strings.Builder
	fmt.Fprintf(&s, "new %v\nbuild %v\nindexes %s\n", b.newErr, b.err, b.order)
	one := func(r *index.CircularReferenceResult) {
		fmt.Fprintf(&s, " %s infinite=%v poly=%v(%s) array=%v\n", r.GenerateJourneyPath(), r.IsInfiniteLoop, r.IsPolymorphicResult, r.PolymorphicType, r.IsArrayResult)
	}
	var ks []string
	for k := range b.results {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&s, "%s:\n", k)
		for _, r := range b.results[k] {
			one(r)
		}
		fmt.Fprintf(&s, "%s ignored:\n", k)
		for _, r := range b.ignored[k] {
			one(r)
		}
	}
	s.WriteString("safe:\n")
	for _, r := range b.safe {
		one(r)
	}
	s.WriteString("ignored:\n")
	for _, r := range b.ign {
		one(r)
	}
	return s.String()
}

func runCirc(c *circCase, e *harness.Env) {
	g := c.graph()
	a := c.build(e, 0)
	if e.Failed() {
		return
	}
	b := c.build(e, 1)
	if e.Failed() {
		return
	}
	if a.text != b.text {
		e.Fail("circ-differs", "two builds of the same document report different things:\n%s", firstDiff(a.text, b.text))
		return
	}
	if a.newErr != nil {
		e.Fail("circ-new", "the document was refused: %v", a.newErr)
		return
	}
	for _, y := range a.inlined {
		for _, m := range circLeft.FindAllStringSubmatch(y, -1) {
			var k int
			fmt.Sscan(m[1], &k)
			if !c.Same && k < g.n && !g.cyc[g.scc[k]] {
				e.Fail("circ-inline", "S%d is on no cycle but its reference is left in an inlined schema:\n%s", k, y)
				return
			}
		}
		e.Probe("inlined")
	}
	found := map[int]bool{}
	anyInf := false
	each := func(where string, l []*index.CircularReferenceResult) bool {
		for _, r := range l {
			lp, err := c.schemaOf(r.LoopPoint)
			if err != nil {
				e.Fail("circ-false", "%s: loop point: %v", where, err)
				return false
			}
			e.Probe("circulars")
			found[g.scc[lp]] = true
			if !g.cyc[g.scc[lp]] {
				e.Fail("circ-false", "%s: S%d is reported circular (%s) but no cycle goes through it", where, lp, r.GenerateJourneyPath())
				return false
			}
			prev := -1
			in := 0
			for _, j := range r.Journey {
				k, err := c.schemaOf(j)
				if err != nil {
					e.Fail("circ-journey", "%s: journey: %v", where, err)
					return false
				}
				if prev >= 0 && !g.edge[prev][k] {
					e.Fail("circ-journey", "%s: the journey %s goes from S%d to S%d, which it does not reference", where, r.GenerateJourneyPath(), prev, k)
					return false
				}
				prev = k
				if k == lp {
					in++
				}
			}
			if in < 2 || prev != lp {
				e.Fail("circ-journey", "%s: the journey %s does not come back to its loop point S%d", where, r.GenerateJourneyPath(), lp)
				return false
			}
			if r.IsInfiniteLoop {
				anyInf = true
				inf := g.may[lp][lp]
				for k := range g.n {
					inf = inf || g.may[lp][k] && g.may[k][k]
				}
				if !inf {
					e.Fail("circ-infinite", "%s: S%d is reported as an infinite loop but an object of it can end", where, lp)
					return false
				}
			}
		}
		return true
	}
	for k, l := range a.results {
		if !each(k, l) {
			return
		}
	}
	for k, l := range a.ignored {
		if !each(k+" (ignored)", l) {
			return
		}
	}
	if !each("safe", a.safe) || !each("ignored", a.ign) {
		return
	}
	listed := map[string]bool{}
	for _, r := range append(slices.Clone(a.safe), a.ign...) {
		listed[r.LoopPoint.FullDefinition] = true
	}
	for k := range a.results {
		for _, r := range append(slices.Clone(a.results[k]), a.ignored[k]...) {
			if !r.IsInfiniteLoop && !listed[r.LoopPoint.FullDefinition] {
				e.Fail("circ-unlisted", "the circular reference %s of %s is neither in the list of safe nor of ignored ones:\n%s", r.GenerateJourneyPath(), k, a.text)
				return
			}
		}
	}
	for s := range g.cyc {
		if g.seen[s] && !found[s] {
			e.Fail("circ-missed", "there is a cycle through S%d but no circular reference of it is reported:\n%s", s, a.text)
			return
		}
	}
	wantInf, hidden := false, true
	for i := range g.n {
		if g.seen[i] && g.req[i][i] {
			wantInf = true
			hidden = hidden && g.poly[g.scc[i]]
		}
	}
	if wantInf && !anyInf && !c.Poly && !c.Array {
		if hidden {
			e.Fail("circ-infinite-hidden", "an endless chain of required references is not reported as such because its schemas are also a loop through allOf, anyOf or oneOf:\n%s", a.text)
			return
		}
		e.Fail("circ-infinite-missed", "there is an endless chain of required references, but none is reported:\n%s", a.text)
		return
	}
	gone := 0
	for _, m := range c.Missing {
		if g.seen[m.To] {
			gone++
		}
	}
	if (anyInf || gone > 0) != (a.err != nil) && !c.Poly && !c.Array {
		e.Fail("circ-error", "infinite loop reported %v, %d missing references, but the build says: %v", anyInf, gone, a.err)
		return
	}
	e.Digest(a.text)
}

func genCirc(r *simrt.Rand) any {
	c := &circCase{Files: simrt.Pick(r, []int{1, 1, 2, 3}), Seq: r.P(0.3), Lat: simrt.Pick(r, []int{0, 30, 300})}
	n := r.Range(1, 8)
	kinds := []string{"prop", "req", "req", "items", "nested", "addl", "allOf", "anyOf", "oneOf"}
	if r.P(0.5) {
		kinds = []string{"prop", "req", "req", "items", "nested", "addl"}
	}
	if r.P(0.4) {
		for _, k := range []string{"deep", "not", "contains", "prefix", "pattern", "depend", "then", "inOf", "ofItems", "propOf", "reqitems", "reqallOf", "deepOf"} {
			if r.P(0.4) {
				kinds = append(kinds, k)
			}
		}
	}
	if c.Files > 1 {
		c.Same = r.P(0.4)
	}
	if r.P(0.2) {
		c.Pad = r.Range(1, 9)
	}
	ring, pairs := r.P(0.04), r.P(0.04)
	if ring || pairs {
		n = r.Range(9, 60)
	}
	forward := r.P(0.25)
	dens := simrt.Pick(r, []float64{0.5, 1, 1.7})
	for i := 0; i < n; i++ {
		c.At = append(c.At, r.N(c.Files))
		var l []circEdge
		if ring || pairs {
			to := (i + 1) % n
			if pairs {
				to = simrt.Pick(r, []int{i, min(i^1, n-1)})
			}
			l = append(l, circEdge{To: to, Kind: simrt.Pick(r, kinds)})
			c.Edges = append(c.Edges, l)
			continue
		}
		for k := int(dens * float64(r.N(3)+1)); k > 0; k-- {
			to := r.N(n)
			if forward {
				if i+1 >= n {
					continue
				}
				to = i + 1 + r.N(n-i-1)
			}
			l = append(l, circEdge{To: to, Kind: simrt.Pick(r, kinds)})
		}
		c.Edges = append(c.Edges, l)
	}
	for k := r.N(3); k > 0; k-- {
		c.Roots = append(c.Roots, r.N(n))
	}
	if c.Files > 1 {
		// every file has to be mentioned to be loaded
		c.Roots = c.Roots[:0]
		for i := range n {
			if r.P(0.5) {
				c.Roots = append(c.Roots, i)
			}
		}
	}
	for r.P(0.12) || len(c.Missing) == 1 && r.P(0.4) {
		c.Missing = append(c.Missing, circEdge{To: r.N(n), Kind: simrt.Pick(r, []string{"req", "prop"})})
	}
	c.Poly, c.Array = r.P(0.12), r.P(0.12)
	c.Resolve = r.P(0.2)
	for i, l := range c.Edges {
		addl := false
		c.Edges[i] = slices.DeleteFunc(l, func(e circEdge) bool {
			d := e.Kind == "addl" && addl
			addl = addl || e.Kind == "addl"
			return d
		})
	}
	return c
}

func init() {
	harness.Register(&harness.Scenario{Name: "circular", Property: "C06", Est: 40000,
		New: func() any { return &circCase{} }, Gen: genCirc,
		Run: func(c any, e *harness.Env) { runCirc(c.(*circCase), e) }})
}
