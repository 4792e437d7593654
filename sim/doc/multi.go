package doc

import (
	"fmt"
	"path"
	"strings"

	"verifsim/simrt"
)

// Multi is a generated document spread over several files; Build is a pure function of it.
type Multi struct {
	Files   []MFile   `json:"files"` // Files[0] is the root document
	Schemas []MSchema `json:"schemas"`
	Comps   []MComp   `json:"comps"`
	Paths   []MPath   `json:"paths"`
	Ver     string    `json:"ver"`
	Dot     bool      `json:"dot"`           // write "./x.yaml" rather than "x.yaml"
	Abs     string    `json:"abs,omitempty"` // write absolute references below this base
	Pad     int       `json:"pad,omitempty"`
}

type MFile struct {
	Path  string `json:"path"`
	Style string `json:"style"` // root comps defs whole path
	JSON  bool   `json:"json,omitempty"`
}

type MSchema struct {
	File  int     `json:"file"`
	Name  string  `json:"name"`
	Edges []MEdge `json:"edges,omitempty"`
	Extra int     `json:"extra"`
}

type MEdge struct {
	To   int    `json:"to"` // -1: to a name that does not exist
	Via  string `json:"via"`
	Req  bool   `json:"req,omitempty"`
	File int    `json:"file,omitempty"` // for dangling refs: in this file
	Map  []int  `json:"map,omitempty"`  // oneOf, anyOf: a discriminator that maps to these schemas
}

type MComp struct {
	Kind   string `json:"kind"` // parameters responses requestBodies headers
	File   int    `json:"file"`
	Name   string `json:"name"`
	Schema int    `json:"schema"`
}

type MPath struct {
	File   int   `json:"file"` // 0: inline in the root; else a "path" file
	Schema int   `json:"schema"`
	Comps  []int `json:"comps"`
	Like   int   `json:"like,omitempty"` // 1+k: refers to the file of path k
}

func (m *Multi) Frag(s int) string {
	f := m.Files[m.Schemas[s].File]
	switch f.Style {
	case "whole":
		return ""
	case "defs":
		return "#/" + m.Schemas[s].Name
	}
	return "#/components/schemas/" + m.Schemas[s].Name
}

// Ref is the text of a reference from one file to a place in another.
func (m *Multi) Ref(from, to int, frag string) string {
	if from == to {
		if frag == "" {
			return m.rel(from, to)
		}
		return frag
	}
	return m.rel(from, to) + frag
}

func (m *Multi) rel(from, to int) string {
	if m.Abs != "" {
		return m.Abs + "/" + m.Files[to].Path
	}
	fd := path.Dir(m.Files[from].Path)
	t := m.Files[to].Path
	up := ""
	for fd != "." && fd != "" && !strings.HasPrefix(t, fd+"/") {
		fd = path.Dir(fd)
		up += "../"
	}
	if fd != "." && fd != "" {
		t = strings.TrimPrefix(t, fd+"/")
	}
	if up == "" && m.Dot {
		up = "./"
	}
	return up + t
}

func Mark(i int) string     { return fmt.Sprintf("schema-marker-%d.", i) }
func CompMark(i int) string { return fmt.Sprintf("comp-marker-%d.", i) }
func PathMark(i int) string { return fmt.Sprintf("path-marker-%d.", i) }

func (m *Multi) edge(from int, e MEdge) *Node {
	var t string
	if e.To >= 0 {
		t = m.Ref(from, m.Schemas[e.To].File, m.Frag(e.To))
	} else {
		switch m.Files[e.File].Style {
		case "whole", "path":
			t = m.Ref(from, e.File, "") + "x.yaml"
		case "defs":
			t = m.Ref(from, e.File, "#/Missing")
		default:
			t = m.Ref(from, e.File, "#/components/schemas/Missing")
		}
	}
	r := M("$ref", t)
	switch e.Via {
	case "items":
		return M("type", "array", "items", r)
	case "allOf", "oneOf", "anyOf":
		n := M(e.Via, L(r))
		if len(e.Map) > 0 && e.Via != "allOf" {
			mp := M()
			for k, t := range e.Map {
				mp.Set(fmt.Sprintf("m%d", k), m.Ref(from, m.Schemas[t].File, m.Frag(t)))
			}
			n.Set("discriminator", M("propertyName", "kind", "mapping", mp))
		}
		return n
	case "map":
		return M("type", "object", "additionalProperties", r)
	}
	return r
}

func (m *Multi) schema(i int) *Node {
	s := m.Schemas[i]
	n := M("type", "object", "description", Mark(i))
	props := M()
	var req []string
	for k, e := range s.Edges {
		props.Set(fmt.Sprintf("p%d", k), m.edge(s.File, e))
		if e.Req {
			req = append(req, fmt.Sprintf("p%d", k))
		}
	}
	for k := 0; k < s.Extra; k++ {
		props.Set(fmt.Sprintf("s%d", k), M("type", "string", "example", strings.Repeat("padding ", m.Pad)))
	}
	if props.Len() > 0 {
		n.Set("properties", props)
	}
	if len(req) > 0 {
		n.Set("required", req)
	}
	n.Set("title", Mark(i))
	return n
}

func (m *Multi) CompRef(from, c int) string {
	x := m.Comps[c]
	if m.Files[x.File].Style == "defs" {
		return m.Ref(from, x.File, "#/"+x.Name)
	}
	return m.Ref(from, x.File, "#/components/"+x.Kind+"/"+x.Name)
}

func (m *Multi) comp(i int) *Node {
	c := m.Comps[i]
	sr := M("$ref", m.Ref(c.File, m.Schemas[c.Schema].File, m.Frag(c.Schema)))
	switch c.Kind {
	case "parameters":
		return M("name", c.Name, "in", "query", "description", CompMark(i), "schema", sr)
	case "headers":
		return M("description", CompMark(i), "schema", sr)
	}
	return M("description", CompMark(i), "content", M("application/json", M("schema", sr)))
}

func (m *Multi) pathItem(i int) *Node {
	p := m.Paths[i]
	op := M("operationId", fmt.Sprintf("op%d", i), "description", PathMark(i))
	params := L()
	resp := M("200", M("description", "ok", "content", M("application/json", M("schema",
		M("$ref", m.Ref(p.File, m.Schemas[p.Schema].File, m.Frag(p.Schema)))))))
	for k, c := range p.Comps {
		r := M("$ref", m.CompRef(p.File, c))
		switch m.Comps[c].Kind {
		case "parameters":
			params.Add(r)
		case "responses":
			resp.Set(fmt.Sprintf("%d", 400+k), r)
		case "requestBodies":
			op.Set("requestBody", r)
		case "headers":
			h := resp.Get("200").Get("headers")
			if h == nil {
				h = M()
				resp.Get("200").Set("headers", h)
			}
			h.Set(fmt.Sprintf("X-H%d", k), r)
		}
	}
	if params.Len() > 0 {
		op.Set("parameters", params)
	}
	op.Set("responses", resp)
	return M("summary", PathMark(i), "post", op)
}

// Trees returns the content of every file.
func (m *Multi) Trees() []*Node {
	out := make([]*Node, len(m.Files))
	for f, file := range m.Files {
		n := M()
		if f == 0 {
			n.Set("openapi", m.Ver)
			n.Set("info", M("title", "t", "version", "1"))
			ps := M()
			for i, p := range m.Paths {
				if p.Like > 0 {
					ps.Set(fmt.Sprintf("/p%d", i), M("$ref", m.Ref(0, m.Paths[p.Like-1].File, "")))
				} else if p.File == 0 {
					ps.Set(fmt.Sprintf("/p%d", i), m.pathItem(i))
				} else {
					ps.Set(fmt.Sprintf("/p%d", i), M("$ref", m.Ref(0, p.File, "")))
				}
			}
			n.Set("paths", ps)
		}
		schemas := M()
		kinds := M()
		for i, s := range m.Schemas {
			if s.File != f {
				continue
			}
			switch file.Style {
			case "whole":
				n = m.schema(i)
			case "defs":
				n.Set(s.Name, m.schema(i))
			default:
				schemas.Set(s.Name, m.schema(i))
			}
		}
		for i, c := range m.Comps {
			if c.File != f {
				continue
			}
			if file.Style == "defs" {
				n.Set(c.Name, m.comp(i))
				continue
			}
			k := kinds.Get(c.Kind)
			if k == nil {
				k = M()
				kinds.Set(c.Kind, k)
			}
			k.Set(c.Name, m.comp(i))
		}
		if schemas.Len() > 0 {
			kinds.Set("schemas", schemas)
		}
		if kinds.Len() > 0 {
			n.Set("components", kinds)
		}
		if file.Style == "path" {
			for i, p := range m.Paths {
				if p.File == f {
					n = m.pathItem(i)
				}
			}
		}
		out[f] = n
	}
	return out
}

// Build returns the bytes of every file by path.
func (m *Multi) Build() map[string][]byte {
	out := map[string][]byte{}
	for i, t := range m.Trees() {
		if m.Files[i].JSON {
			out[m.Files[i].Path] = t.JSON()
		} else {
			out[m.Files[i].Path] = t.YAML()
		}
	}
	return out
}

// DrawMulti draws a document of up to maxFiles files.
func DrawMulti(r *simrt.Rand, maxFiles int) *Multi {
	m := &Multi{Ver: simrt.Pick(r, []string{"3.0.3", "3.1.0"}), Dot: r.Bool()}
	m.Files = append(m.Files, MFile{Path: "openapi.yaml", Style: "root"})
	nf := r.Range(1, maxFiles)
	dirs := []string{"", "", "sub/", "sub/deep/", "other/"}
	mids := []string{""}
	if r.P(0.2) {
		mids = []string{"", ".v1", "-x", "_y"}
	}
	if r.P(0.3) {
		dirs = dirs[:1]
	}
	for i := 0; i < nf; i++ {
		f := MFile{Style: simrt.Pick(r, []string{"comps", "comps", "defs", "defs", "whole"}), JSON: r.P(0.2)}
		ext := ".yaml"
		if f.JSON {
			ext = ".json"
		}
		f.Path = fmt.Sprintf("%sf%d%s%s", simrt.Pick(r, dirs), i, simrt.Pick(r, mids), ext)
		m.Files = append(m.Files, f)
	}
	names := []string{"Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta"}
	if r.P(0.25) { // every character a component name may have
		names = []string{"Alpha.v1", "Al-pha", "Gamma_x", "Alpha", "v1.Beta.json", "Beta"}
	}
	unique := r.P(0.6)
	used := map[string]bool{}
	name := func(f int) string {
		for {
			n := simrt.Pick(r, names)
			if unique {
				n = fmt.Sprintf("%s%d", n, len(used))
			}
			k := fmt.Sprint(f, n)
			if !used[k] {
				used[k] = true
				return n
			}
			if len(used) > 4 {
				n += fmt.Sprint(len(used))
				used[fmt.Sprint(f, n)] = true
				return n
			}
		}
	}
	for f := range m.Files {
		k := r.Range(1, 3)
		if m.Files[f].Style == "whole" {
			k = 1
		}
		if f == 0 {
			k = r.N(3)
		}
		for j := 0; j < k; j++ {
			m.Schemas = append(m.Schemas, MSchema{File: f, Name: name(f), Extra: r.Range(1, 3)})
		}
	}
	cyc := r.P(0.5)
	for i := range m.Schemas {
		for k := r.N(4); k > 0; k-- {
			lo := 0
			if !cyc {
				lo = i + 1
			}
			if lo >= len(m.Schemas) {
				continue
			}
			m.Schemas[i].Edges = append(m.Schemas[i].Edges, MEdge{To: lo + r.N(len(m.Schemas)-lo), Via: simrt.Pick(r, []string{"ref", "ref", "ref", "items", "map", "oneOf", "allOf"})})
		}
	}
	for k := r.N(5); k > 0; k-- {
		f := r.N(len(m.Files))
		for m.Files[f].Style == "whole" {
			f = r.N(len(m.Files))
		}
		m.Comps = append(m.Comps, MComp{Kind: simrt.Pick(r, []string{"parameters", "responses", "requestBodies", "headers"}), File: f,
			Name: fmt.Sprintf("C%d", len(m.Comps)), Schema: r.N(len(m.Schemas))})
	}
	for k := r.Range(1, 4); k > 0; k-- {
		p := MPath{Schema: r.N(len(m.Schemas))}
		used := map[string]bool{}
		for c := range m.Comps {
			if r.P(0.4) && !(m.Comps[c].Kind == "requestBodies" && used["rb"]) {
				p.Comps = append(p.Comps, c)
				if m.Comps[c].Kind == "requestBodies" {
					used["rb"] = true
				}
			}
		}
		if r.P(0.25) {
			p.File = len(m.Files)
			m.Files = append(m.Files, MFile{Path: fmt.Sprintf("%spath%d.yaml", simrt.Pick(r, dirs), p.File), Style: "path"})
		}
		m.Paths = append(m.Paths, p)
		if p.File > 0 && r.P(0.2) {
			m.Paths = append(m.Paths, MPath{Like: len(m.Paths)})
		}
	}
	return m
}

// Valid tells whether m is a well-formed description (shrinking may break it).
func (m *Multi) Valid() bool {
	if len(m.Files) == 0 || m.Files[0].Style != "root" || m.Ver == "" {
		return false
	}
	names := map[string]bool{}
	n := make([]int, len(m.Files))
	okS := func(i int) bool { return i >= 0 && i < len(m.Schemas) }
	paths := map[string]bool{}
	for i, f := range m.Files {
		if f.Path == "" || paths[f.Path] || i > 0 && f.Style == "root" {
			return false
		}
		paths[f.Path] = true
	}
	for _, s := range m.Schemas {
		if s.File < 0 || s.File >= len(m.Files) || s.Name == "" || m.Files[s.File].Style == "path" {
			return false
		}
		n[s.File]++
		k := fmt.Sprint(s.File, "/schemas/", s.Name)
		if names[k] {
			return false
		}
		names[k] = true
		for _, e := range s.Edges {
			for _, t := range e.Map {
				if !okS(t) {
					return false
				}
			}
			if e.To >= 0 && !okS(e.To) || e.To < 0 && (e.File < 0 || e.File >= len(m.Files)) {
				return false
			}
		}
	}
	for _, c := range m.Comps {
		if c.File < 0 || c.File >= len(m.Files) || !okS(c.Schema) || c.Name == "" || m.Files[c.File].Style == "path" || m.Files[c.File].Style == "whole" {
			return false
		}
		n[c.File]++
		k := fmt.Sprint(c.File, "/", c.Kind, "/", c.Name)
		if m.Files[c.File].Style == "defs" {
			k = fmt.Sprint(c.File, "/schemas/", c.Name)
		}
		if names[k] {
			return false
		}
		names[k] = true
	}
	for i, p := range m.Paths {
		if p.Like > 0 {
			if p.Like > i || m.Paths[p.Like-1].File == 0 || p.File != 0 {
				return false
			}
			continue
		}
		if p.File < 0 || p.File >= len(m.Files) || !okS(p.Schema) || p.File > 0 && m.Files[p.File].Style != "path" {
			return false
		}
		n[p.File]++
		for _, c := range p.Comps {
			if c < 0 || c >= len(m.Comps) {
				return false
			}
		}
	}
	for i, f := range m.Files {
		if (f.Style == "whole" || f.Style == "path") && n[i] != 1 || i > 0 && n[i] == 0 {
			return false
		}
	}
	return true
}
