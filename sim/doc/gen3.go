package doc

import (
	"fmt"

	"verifsim/simrt"
)

// Gen3 describes a generated OpenAPI 3 document. All fields are plain data so that a case is
// serialisable; Build is a pure function of them.
type Gen3 struct {
	Seed     uint64 `json:"seed"`
	Ver      string `json:"ver"`
	Paths    int    `json:"paths"`
	Schemas  int    `json:"schemas"`
	Comps    int    `json:"comps"` // of each other kind
	Props    int    `json:"props"`
	Depth    int    `json:"depth"`
	RefP     int    `json:"ref_pct"`
	Webhooks int    `json:"webhooks"`
	Ext      bool   `json:"ext"`
	CompRefs bool   `json:"comp_refs"`
	PathRefs bool   `json:"path_refs"`
	Poly     bool   `json:"poly"`
	MorePoly bool   `json:"more_poly,omitempty"` // many compositions of schemas
	Cyclic   bool   `json:"cyclic"`              // schema refs may form (non-required) cycles
	AllOps   bool   `json:"all_ops"`
	Crlf     bool   `json:"crlf,omitempty"`
	JSON     bool   `json:"json"`
	Wide     bool   `json:"wide,omitempty"`  // rarely used fields too
	Alias    bool   `json:"alias,omitempty"` // component entries that are references to entries of their kind
	Big      string `json:"big,omitempty"`   // a container of more than 16 small entries
}

func DrawGen3(r *simrt.Rand, scale int) Gen3 {
	g := Gen3{Seed: r.U64(), Ver: simrt.Pick(r, []string{"3.0.1", "3.1.0", "3.1.0", "3.0.3", "3.1.1"}),
		Paths: r.Range(0, 1+scale), Schemas: r.Range(0, 2+2*scale), Comps: r.Range(0, 1+scale), Props: r.Range(1, 4),
		Depth: r.Range(0, 2), RefP: simrt.Pick(r, []int{0, 20, 50, 80}), Webhooks: r.N(3), Ext: r.Bool(),
		CompRefs: r.Bool(), Poly: r.Bool(), Cyclic: r.P(0.3), AllOps: r.P(0.3), JSON: r.P(0.2)}
	if g.AllOps {
		g.Paths = r.Range(0, 2)
	}
	g.Wide, g.Alias = r.P(0.5), r.P(0.3)
	if r.P(0.1) {
		g.Big = simrt.Pick(r, []string{"schemas", "responses", "parameters", "examples", "requestBodies", "headers", "securitySchemes", "links", "callbacks", "pathItems",
			"content", "operation-parameters", "status", "properties", "oneOf", "operation-callbacks", "response-headers", "response-links", "media-examples", "tags"})
		g.Depth, g.Comps, g.Paths, g.Schemas = 0, min(g.Comps, 1), min(g.Paths, 1), min(g.Schemas, 2)
	}
	switch r.N(30) { // past the parallel-translation thresholds
	case 0:
		g.Schemas, g.Paths = r.Range(16, 20), r.N(2)
	case 1:
		g.Paths, g.AllOps, g.Comps, g.Depth = r.Range(16, 18), false, r.N(2), 0
	case 2:
		g.Comps, g.Paths, g.Depth = r.Range(16, 18), 0, 0
	}
	return g
}

type b3 struct {
	g  Gen3
	r  *simrt.Rand
	n  int
	sn []string // schema names

	bigDone bool
}

func (b *b3) id(p string) string { b.n++; return fmt.Sprintf("%s%d", p, b.n) }

func (b *b3) ext(n *Node) *Node {
	if b.g.Ext && b.r.P(0.25) {
		switch b.r.N(3) {
		case 0:
			n.Set(b.id("x-e"), b.id("val"))
		case 1:
			n.Set(b.id("x-e"), M("a", b.r.N(100), "b", L("q", b.r.Bool())))
		case 2:
			n.Set(b.id("x-e"), b.r.N(1000))
		}
	}
	return n
}

func (b *b3) str() string {
	return simrt.Pick(b.r, []string{"alpha", "a longer: text, with \"quotes\"", "beta gamma", "yes", "123", "ünïcode ✓", "line one\nline two", "#hash", "- dash", "true"}) + b.id("")
}

// schema returns an inline schema; idx is the index of the component being built (refs only go to
// later components unless Cyclic), -1 for none.
func (b *b3) schemaOrRef(depth, idx int) *Node {
	if len(b.sn) > 0 && b.r.N(100) < b.g.RefP {
		lo := idx + 1
		if b.g.Cyclic {
			lo = 0
		}
		if lo < len(b.sn) {
			return M("$ref", "#/components/schemas/"+b.sn[lo+b.r.N(len(b.sn)-lo)])
		}
	}
	return b.schema(depth, idx)
}

func (b *b3) schema(depth, idx int) *Node {
	n := b.schema0(depth, idx)
	if b.g.Wide && n.Kind == Map && !n.Has("$ref") {
		b.wideSchema(n, depth, idx)
	}
	return n
}

// wideSchema adds rarely used schema keywords.
func (b *b3) wideSchema(n *Node, depth, idx int) {
	r := b.r
	v31 := b.g.Ver >= "3.1"
	set := func(k string, v any) {
		if !n.Has(k) {
			n.Set(k, v)
		}
	}
	for i := r.N(4); i > 0; i-- {
		switch r.N(38) {
		case 0:
			set("title", b.str())
		case 1:
			set("multipleOf", 1+r.N(9))
		case 2:
			if v31 {
				set("exclusiveMaximum", r.N(50))
			} else {
				set("exclusiveMaximum", true)
			}
		case 3:
			if v31 {
				set("exclusiveMinimum", r.N(50))
			} else {
				set("exclusiveMinimum", true)
			}
		case 4:
			set("pattern", "^[a-z]"+b.id("")+"$")
		case 5:
			set("uniqueItems", true)
		case 6:
			set("maxProperties", 3+r.N(9))
		case 7:
			set("minProperties", r.N(3))
		case 8:
			set("not", b.schemaOrRef(0, idx))
		case 9:
			set("default", b.str())
		case 10:
			if !v31 {
				set("nullable", true)
			}
		case 11:
			m := M("propertyName", b.id("kind"))
			if r.Bool() {
				m.Set("mapping", M(b.id("m"), "#/components/schemas/S0", b.id("m"), "other"))
			}
			set("discriminator", m)
		case 12:
			set("readOnly", true)
		case 13:
			set("writeOnly", true)
		case 14:
			set("xml", b.ext(M("name", b.id("xn"), "namespace", "https://ns.example/"+b.id(""), "prefix", b.id("x"), "attribute", true, "wrapped", true)))
		case 15:
			set("externalDocs", b.ext(M("url", "https://sd.example/"+b.id(""), "description", b.str())))
		case 16:
			set("deprecated", true)
		case 17:
			set("maxLength", 10+r.N(50))
		case 18:
			set("maxItems", 5+r.N(50))
		case 19:
			set("example", M("a", L(1, "two", r.Bool()), b.id("k"), b.str()))
		default:
			if !v31 {
				continue
			}
			switch r.N(18) {
			case 0:
				set("const", b.str())
			case 1:
				set("contentMediaType", "application/"+b.id("x"))
			case 2:
				set("contentEncoding", "base64")
			case 3:
				set("if", b.schemaOrRef(0, idx))
				set("then", b.schemaOrRef(0, idx))
				set("else", b.schemaOrRef(0, idx))
			case 4:
				set("dependentSchemas", M(b.id("d"), b.schemaOrRef(0, idx), b.id("d"), b.schemaOrRef(0, idx)))
			case 5:
				set("dependentRequired", M(b.id("d"), L("a", "b"), b.id("d"), L("c")))
			case 6:
				set("prefixItems", L(b.schemaOrRef(0, idx), b.schemaOrRef(0, idx)))
			case 7:
				set("contains", b.schemaOrRef(0, idx))
				set("minContains", r.N(3))
				set("maxContains", 3+r.N(3))
			case 8:
				set("patternProperties", M("^"+b.id("pp"), b.schemaOrRef(0, idx), "^"+b.id("pp"), b.schemaOrRef(0, idx)))
			case 9:
				set("propertyNames", b.schemaOrRef(0, idx))
			case 10:
				set("unevaluatedItems", b.schemaOrRef(0, idx))
			case 11:
				if r.Bool() {
					set("unevaluatedProperties", r.Bool())
				} else {
					set("unevaluatedProperties", b.schemaOrRef(0, idx))
				}
			case 12:
				set("examples", L(b.str(), r.N(40), M("z", b.str())))
			case 13:
				if n.Has("type") && n.Get("type").Kind != Map {
					n.Set("type", L("null", "string"))
				}
			case 14:
				set("$comment", b.str())
			case 15:
				set("$anchor", b.id("anchor"))
			case 16:
				set("contentSchema", b.schemaOrRef(0, idx))
			case 17:
				set("$dynamicAnchor", b.id("dyn"))
			}
		}
	}
}

// many adds entries to a container when it is the one chosen to be big.
func (b *b3) many(what string, n *Node, mk func() *Node) *Node {
	if b.g.Big != what || b.bigDone {
		return n
	}
	b.bigDone = true
	k := b.r.Range(17, 24)
	for i := 0; i < k; i++ {
		if n.Kind == List {
			n.Add(mk())
		} else {
			key := b.id("big")
			switch what {
			case "status":
				key = fmt.Sprint(210 + i)
			case "content":
				key = "application/" + key
			}
			n.Set(key, mk())
		}
	}
	return n
}

func (b *b3) schema0(depth, idx int) *Node {
	r := b.r
	n := M()
	if b.g.Big == "oneOf" && !b.bigDone {
		n.Set("oneOf", b.many("oneOf", L(), func() *Node { return b.schemaOrRef(0, idx) }))
		return n
	}
	if b.g.Big == "properties" && !b.bigDone {
		n.Set("type", "object")
		n.Set("properties", b.many("properties", M(), func() *Node { return b.schemaOrRef(0, idx) }))
		return n
	}
	if b.g.Poly && depth > 0 && (b.g.MorePoly && r.P(0.6) || r.P(0.2)) {
		k := simrt.Pick(r, []string{"allOf", "oneOf", "anyOf"})
		l := L()
		for i := 0; i < r.Range(1, 3); i++ {
			l.Add(b.schemaOrRef(depth-1, idx))
		}
		n.Set("description", b.str())
		n.Set(k, l)
		return b.ext(n)
	}
	if depth > 0 && r.P(0.55) {
		if r.P(0.3) {
			n.Set("type", "array")
			n.Set("items", b.schemaOrRef(depth-1, idx))
			if r.Bool() {
				n.Set("minItems", r.N(3))
				n.Set("maxItems", 3+r.N(5))
			}
			return b.ext(n)
		}
		n.Set("type", "object")
		if r.Bool() {
			n.Set("title", b.str())
		}
		p := M()
		for i := 0; i < b.g.Props; i++ {
			p.Set(b.id("p"), b.schemaOrRef(depth-1, idx))
		}
		if !b.g.Cyclic && r.P(0.4) {
			n.Set("required", L(p.Keys[0]))
		}
		n.Set("properties", p)
		if r.P(0.2) {
			n.Set("additionalProperties", b.schemaOrRef(0, idx))
		} else if r.P(0.2) {
			n.Set("additionalProperties", r.Bool())
		}
		return b.ext(n)
	}
	switch r.N(5) {
	case 0:
		n.Set("type", "string")
		if r.Bool() {
			n.Set("enum", L("e1"+b.id(""), "e2", "e3"))
		}
	case 1:
		n.Set("type", "integer")
		n.Set("minimum", r.N(10))
		n.Set("maximum", 10+r.N(100))
	case 2:
		n.Set("type", "boolean")
	case 3:
		n.Set("type", "number")
		n.Set("description", b.str())
	case 4:
		n.Set("type", "string")
		n.Set("format", "date-time")
		n.Set("minLength", r.N(5))
		n.Set("example", b.str())
	}
	return b.ext(n)
}

func (b *b3) comp(kind string, mk func() *Node) *Node {
	if b.g.CompRefs && b.g.Comps > 0 && b.r.P(0.35) {
		return M("$ref", fmt.Sprintf("#/components/%s/%s", kind, b.cname(kind, b.r.N(b.g.Comps))))
	}
	return mk()
}

func (b *b3) cname(kind string, i int) string { return fmt.Sprintf("%s_%d", kind[:3], i) }

func (b *b3) parameter() *Node {
	in := simrt.Pick(b.r, []string{"query", "header", "cookie"})
	n := M("name", b.id("prm"), "in", in)
	if b.r.Bool() {
		n.Set("description", b.str())
	}
	if b.r.Bool() {
		n.Set("required", true)
	}
	if b.g.Wide {
		b.wideParam(n)
		if b.r.P(0.15) {
			n.Set("content", M("application/json", M("schema", b.schemaOrRef(0, -1))))
			return b.ext(n)
		}
	}
	n.Set("schema", b.schemaOrRef(0, -1))
	if b.r.P(0.3) {
		n.Set("examples", M(b.id("ex"), b.comp("examples", b.example)))
	}
	return b.ext(n)
}

// wideParam adds what parameters and headers share.
func (b *b3) wideParam(n *Node) {
	r := b.r
	if r.P(0.2) {
		n.Set("deprecated", true)
	}
	if r.P(0.2) && n.Has("in") {
		n.Set("allowEmptyValue", true)
	}
	if r.P(0.2) {
		n.Set("style", simrt.Pick(r, []string{"simple", "form", "deepObject"}))
	}
	if r.P(0.2) {
		n.Set("explode", r.Bool())
	}
	if r.P(0.2) {
		n.Set("allowReserved", true)
	}
	if r.P(0.2) {
		n.Set("example", M("e", b.str()))
	}
}

func (b *b3) example() *Node {
	n := M("summary", b.str())
	if b.g.Wide && b.r.P(0.4) {
		n.Set("description", b.str())
		if b.r.P(0.3) {
			n.Set("externalValue", "https://ev.example/"+b.id(""))
			return b.ext(n)
		}
	}
	n.Set("value", M("a", b.r.N(9), "b", b.str()))
	return b.ext(n)
}

func (b *b3) content() *Node {
	c := M()
	for i := 0; i < b.r.Range(1, 2); i++ {
		mt := M("schema", b.schemaOrRef(b.g.Depth, -1))
		if b.r.P(0.2) {
			mt.Set("example", M("k", b.str()))
		}
		if b.r.P(0.15) {
			mt.Set("encoding", M(b.id("enc"), M("contentType", "text/plain")))
		} else if b.g.Wide && b.r.P(0.3) {
			mt.Set("encoding", M(b.id("enc"), M("contentType", "text/"+b.id("c"), "headers", M(b.id("X-E"), b.comp("headers", b.header)), "style", "form", "explode", true, "allowReserved", true)))
		}
		if !mt.Has("example") && b.g.Wide && b.r.P(0.3) {
			mt.Set("examples", M(b.id("ex"), b.comp("examples", b.example), b.id("ex"), b.comp("examples", b.example)))
		}
		if b.g.Big == "media-examples" && !b.bigDone {
			mt.Del("example")
			mt.Set("examples", b.many("media-examples", M(), func() *Node { return b.comp("examples", b.example) }))
		}
		c.Set([]string{"application/json", "application/xml"}[i], b.ext(mt))
	}
	return b.many("content", c, func() *Node { return M("schema", b.schemaOrRef(0, -1)) })
}

func (b *b3) header() *Node {
	n := M("description", b.str())
	if b.g.Wide {
		b.wideParam(n)
		if b.r.P(0.2) {
			n.Set("required", b.r.Bool())
		}
		if !n.Has("example") && b.r.P(0.2) {
			n.Set("examples", M(b.id("ex"), b.comp("examples", b.example)))
		}
		if b.r.P(0.15) {
			n.Set("content", M("text/plain", M("schema", b.schemaOrRef(0, -1))))
			return b.ext(n)
		}
	}
	n.Set("schema", b.schemaOrRef(0, -1))
	return b.ext(n)
}

func (b *b3) link() *Node {
	n := M("operationId", b.id("lop"), "description", b.str(), "parameters", M(b.id("lp"), "$response.body#/id"))
	if b.g.Wide {
		if b.r.P(0.3) {
			n.Del("operationId")
			n.Set("operationRef", "#/paths/~1"+b.id("lr")+"/get")
		}
		if b.r.P(0.3) {
			n.Set("requestBody", "$request.body#/"+b.id("rb"))
		}
		if b.r.P(0.3) {
			n.Set("server", b.server())
		}
	}
	return b.ext(n)
}

func (b *b3) response() *Node {
	n := M("description", b.str())
	if b.r.P(0.3) {
		n.Set("headers", M(b.id("X-H"), b.comp("headers", b.header), b.id("X-G"), b.comp("headers", b.header)))
	}
	if b.g.Big == "response-headers" && !b.bigDone {
		n.Set("headers", b.many("response-headers", M(), func() *Node { return b.comp("headers", b.header) }))
	}
	if b.r.P(0.7) {
		n.Set("content", b.content())
	}
	if b.g.Big == "response-links" && !b.bigDone {
		n.Set("links", b.many("response-links", M(), func() *Node { return b.comp("links", b.link) }))
	} else if b.r.P(0.2) {
		n.Set("links", M(b.id("lnk"), b.comp("links", b.link)))
	}
	return b.ext(n)
}

func (b *b3) requestBody() *Node {
	n := M("description", b.str(), "content", b.content())
	if b.r.Bool() {
		n.Set("required", true)
	}
	return b.ext(n)
}

func (b *b3) callback() *Node {
	n := M("{$request.query.url}"+b.id("/c"), M("post", b.operation(0)))
	if b.g.Wide && b.r.P(0.3) {
		n.Set("{$request.body#/u}"+b.id("/c"), M("put", b.operation(0)))
		b.ext(n)
	}
	return n
}

func (b *b3) security() *Node {
	if b.g.Wide && b.r.P(0.4) {
		if b.r.P(0.3) {
			return b.ext(M("type", "openIdConnect", "openIdConnectUrl", "https://oidc.example/"+b.id(""), "description", b.str()))
		}
		fl := M()
		for _, k := range []string{"password", "clientCredentials", "authorizationCode", "implicit"} {
			if b.r.P(0.5) {
				f := M()
				if k == "authorizationCode" || k == "implicit" {
					f.Set("authorizationUrl", "https://a.example/"+b.id("auth"))
				}
				if k != "implicit" {
					f.Set("tokenUrl", "https://a.example/"+b.id("tok"))
				}
				if b.r.Bool() {
					f.Set("refreshUrl", "https://a.example/"+b.id("ref"))
				}
				f.Set("scopes", M(b.id("sc"), b.str()))
				fl.Set(k, b.ext(f))
			}
		}
		if fl.Len() > 0 {
			return b.ext(M("type", "oauth2", "flows", b.ext(fl)))
		}
	}
	switch b.r.N(4) {
	case 0:
		return b.ext(M("type", "apiKey", "name", b.id("key"), "in", "header"))
	case 1:
		return b.ext(M("type", "http", "scheme", "basic"))
	case 2:
		return b.ext(M("type", "oauth2", "flows", M("implicit", M("authorizationUrl", "https://a.example/auth", "scopes", M(b.id("sc"), b.str(), b.id("sc"), b.str())))))
	}
	return b.ext(M("type", "http", "scheme", "bearer", "bearerFormat", "JWT", "description", b.str()))
}

func (b *b3) operation(cb int) *Node {
	r := b.r
	n := M()
	if r.P(0.5) {
		n.Set("tags", L(b.id("tag")))
	}
	n.Set("summary", b.str())
	n.Set("operationId", b.id("op"))
	if b.g.Wide && r.P(0.3) {
		n.Set("description", b.str())
		n.Set("externalDocs", b.ext(M("url", "https://od.example/"+b.id(""), "description", b.str())))
	}
	if b.g.Big == "operation-parameters" && !b.bigDone {
		n.Set("parameters", b.many("operation-parameters", L(), func() *Node { return b.comp("parameters", b.parameter) }))
	} else if r.P(0.5) {
		l := L()
		for i := 0; i < r.Range(1, 3); i++ {
			l.Add(b.comp("parameters", b.parameter))
		}
		n.Set("parameters", l)
	}
	if r.P(0.4) {
		n.Set("requestBody", b.comp("requestBodies", b.requestBody))
	}
	rs := M()
	for _, c := range []string{"200", "404", "default"}[:r.Range(1, 3)] {
		rs.Set(c, b.comp("responses", b.response))
	}
	n.Set("responses", b.many("status", rs, func() *Node { return b.comp("responses", b.response) }))
	if cb > 0 && b.g.Big == "operation-callbacks" && !b.bigDone {
		n.Set("callbacks", b.many("operation-callbacks", M(), func() *Node { return b.comp("callbacks", b.callback) }))
	} else if cb > 0 && r.P(0.3) {
		n.Set("callbacks", M(b.id("cb"), b.comp("callbacks", b.callback)))
	}
	if r.P(0.2) {
		n.Set("deprecated", true)
	}
	if r.P(0.2) {
		n.Set("security", L(M(b.id("sec"), L("s1", "s2"))))
	}
	if r.P(0.15) {
		n.Set("servers", L(b.server()))
	}
	return b.ext(n)
}

func (b *b3) server() *Node {
	return b.ext(M("url", "https://{host}.example.com/"+b.id("v"), "description", b.str(),
		"variables", M("host", M("default", "a", "enum", L("a", "b")))))
}

var ops3 = []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}

func (b *b3) pathItem() *Node {
	n := M()
	if b.r.P(0.3) {
		n.Set("summary", b.str())
	}
	if b.g.Wide && b.r.P(0.3) {
		n.Set("description", b.str())
	}
	k := b.r.Range(1, 3)
	if b.g.AllOps {
		k = 8
	}
	st := b.r.N(8)
	for i := 0; i < k; i++ {
		n.Set(ops3[(st+i)%8], b.operation(1))
	}
	if b.r.P(0.3) {
		n.Set("parameters", L(b.comp("parameters", b.parameter)))
	}
	if b.r.P(0.1) {
		n.Set("servers", L(b.server()))
	}
	return b.ext(n)
}

// aliases adds entries to a section of the components, some of them references to its other entries.
func (b *b3) aliases(kind string, m *Node, mk func() *Node) {
	own := append([]string(nil), m.Keys...)
	b.many(kind, m, func() *Node {
		if b.g.Alias && len(own) > 0 && b.r.P(0.5) {
			return M("$ref", "#/components/"+kind+"/"+simrt.Pick(b.r, own))
		}
		return mk()
	})
	if b.g.Alias && len(own) > 0 && b.r.P(0.4) {
		m.Set(b.id("Alias"), M("$ref", "#/components/"+kind+"/"+simrt.Pick(b.r, own)))
	}
}

// Build makes the document.
func (g Gen3) Build() *Node {
	b := &b3{g: g, r: simrt.NewRand(g.Seed)}
	r := b.r
	for i := 0; i < g.Schemas; i++ {
		b.sn = append(b.sn, fmt.Sprintf("S%d", i))
	}
	d := M("openapi", g.Ver)
	info := M("title", b.str(), "version", "1."+fmt.Sprint(r.N(50)))
	if r.Bool() {
		info.Set("description", b.str())
		info.Set("contact", M("name", b.str(), "email", "a@b.example"))
		info.Set("license", M("name", "MIT", "url", "https://l.example"))
	}
	if g.Wide {
		if r.Bool() {
			info.Set("termsOfService", "https://tos.example/"+b.id(""))
		}
		if g.Ver >= "3.1" {
			if r.Bool() {
				info.Set("summary", b.str())
			}
			if l := info.Get("license"); l != nil && r.Bool() {
				l.Del("url")
				l.Set("identifier", b.id("MIT-"))
			}
			if r.P(0.3) {
				d.Set("jsonSchemaDialect", "https://spec.openapis.org/oas/3.1/dialect/base")
			}
		}
		if c := info.Get("contact"); c != nil {
			c.Set("url", "https://c.example/"+b.id(""))
		}
	}
	d.Set("info", b.ext(info))
	if r.P(0.4) {
		d.Set("servers", L(b.server(), b.server()))
	}
	if r.P(0.4) {
		d.Set("tags", L(b.ext(M("name", b.id("tg"), "description", b.str())), M("name", b.id("tg"), "externalDocs", M("url", "https://d.example", "description", b.str()))))
	}
	if g.Big == "tags" {
		d.Set("tags", b.many("tags", L(), func() *Node { return b.ext(M("name", b.id("tg"), "description", b.str())) }))
	}
	if r.P(0.3) {
		d.Set("security", L(M(b.id("sec"), L())))
	}
	ps := M()
	for i := 0; i < g.Paths; i++ {
		ps.Set(b.id("/path"), b.pathItem())
	}
	d.Set("paths", ps)
	if g.Webhooks > 0 && g.Ver >= "3.1" {
		w := M()
		for i := 0; i < g.Webhooks; i++ {
			w.Set(b.id("hook"), b.pathItem())
		}
		d.Set("webhooks", w)
	}
	c := M()
	// small: entries of a big section
	small := func() *Node { return b.schema0(0, 1<<30) }
	if g.Schemas > 0 || g.Big == "schemas" {
		s := M()
		for i, n := range b.sn {
			s.Set(n, b.schema(g.Depth+1, i))
			if g.Alias && i > 0 && r.P(0.3) {
				s.Set(n+"Alias", M("$ref", "#/components/schemas/"+b.sn[r.N(i)]))
			}
		}
		c.Set("schemas", b.many("schemas", s, small))
	}
	if g.Comps > 0 || g.Big != "" {
		save := b.g.CompRefs
		b.g.CompRefs = false
		for _, k := range []struct {
			name string
			mk   func() *Node
		}{{"responses", b.response}, {"parameters", b.parameter}, {"examples", b.example}, {"requestBodies", b.requestBody},
			{"headers", b.header}, {"securitySchemes", b.security}, {"links", b.link}, {"callbacks", b.callback}} {
			if g.Comps == 0 && g.Big != k.name {
				continue
			}
			m := M()
			for i := 0; i < g.Comps; i++ {
				m.Set(b.cname(k.name, i), k.mk())
			}
			b.aliases(k.name, m, k.mk)
			c.Set(k.name, m)
		}
		if g.Ver >= "3.1" && (r.Bool() || g.Big == "pathItems") {
			m := M()
			for i := 0; i < g.Comps; i++ {
				m.Set(b.cname("pathItems", i), b.pathItem())
			}
			b.aliases("pathItems", m, func() *Node { return M("get", b.operation(0)) })
			if m.Len() > 0 {
				c.Set("pathItems", m)
			}
		}
		b.g.CompRefs = save
	}
	if c.Len() > 0 {
		d.Set("components", b.ext(c))
	}
	if r.P(0.2) {
		d.Set("externalDocs", M("url", "https://e.example", "description", b.str()))
	}
	return b.ext(d)
}

// Bytes emits the document in its drawn syntax.
func (g Gen3) Bytes(d *Node) []byte {
	if g.JSON {
		return d.JSON()
	}
	return d.YAML()
}
