package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel"
	wcm "github.com/pb33f/libopenapi/what-changed/model"

	"verifsim/doc"
	"verifsim/harness"
	"verifsim/simrt"
)

// Property changed: the change report of two documents is exactly the edits made between them,
// whatever the interleaving of the comparison's goroutines.

type wcEdit struct {
	Kind string `json:"kind"`
	Pick int    `json:"pick"`
}

type changedCase struct {
	Gen    doc.Gen3 `json:"gen"`
	Edits  []wcEdit `json:"edits"`
	Back   bool     `json:"back,omitempty"`   // compare new to old instead
	Second bool     `json:"second,omitempty"` // another comparison runs at the same time
	Twice  bool     `json:"twice,omitempty"`  // the same comparison is made again
	JSON   bool     `json:"json,omitempty"`   // the second document is written as JSON
	Full   bool     `json:"full,omitempty"`   // the whole report is compared with a sequential one
	Focus  int      `json:"focus,omitempty"`  // all edits lie below one object, picked by this number
}

// focus is the path of the object, list or map that all edits of a case lie below.
func (c *changedCase) focus(root *doc.Node) []string {
	if c.Focus == 0 {
		return nil
	}
	var all, props [][]string
	root.Walk(func(p []string, n *doc.Node) {
		if wcOpaque(p) || len(p) < 2 || n.Kind == doc.Scalar || n.Len() < 3 {
			return
		}
		q := append([]string{}, p...)
		all = append(all, q)
		if p[len(p)-1] == "properties" && n.Len() > 2 {
			props = append(props, q)
		}
	})
	if c.Focus%2 == 0 && len(props) > 0 {
		all = props
	}
	if len(all) == 0 {
		return nil
	}
	return all[c.Focus/2%len(all)]
}

func below(p, f []string) bool {
	if len(p) < len(f) {
		return false
	}
	for i := range f {
		if p[i] != f[i] {
			return false
		}
	}
	return true
}

type wcWant struct {
	Type     int
	Prop     string
	Old, New string
	Any      bool // Old/New are not plain values
	At       string
	Place    []string // keys that lead to the changed object
}

func (w wcWant) String() string {
	return fmt.Sprintf("%s %s %q -> %q at %s", wcName(w.Type), w.Prop, w.Old, w.New, w.At)
}

func wcName(t int) string {
	return [...]string{"none", "modified", "property-added", "object-added", "object-removed", "property-removed"}[t]
}

// flip is what the change is when the documents are compared the other way round.
func (w wcWant) flip() wcWant {
	w.Old, w.New = w.New, w.Old
	w.Type = map[int]int{wcm.Modified: wcm.Modified, wcm.PropertyAdded: wcm.PropertyRemoved, wcm.PropertyRemoved: wcm.PropertyAdded,
		wcm.ObjectAdded: wcm.ObjectRemoved, wcm.ObjectRemoved: wcm.ObjectAdded}[w.Type]
	return w
}

type wcSite struct {
	path []string
	n    *doc.Node
}

func (s wcSite) last() string { return s.path[len(s.path)-1] }

// opaque says whether a path leads through free-form content (examples, extensions, defaults, enums)
// or through objects whose keys are chosen by the author.
func wcOpaque(p []string) bool {
	// components other than schemas are compared where they are used, in place: only additions and
	// removals are reported for the components themselves
	if len(p) > 3 && p[0] == "components" && p[1] != "schemas" {
		return true
	}
	for i, k := range p {
		if strings.HasPrefix(k, "x-") && i > 0 {
			return true
		}
		switch k {
		case "example", "examples", "default", "enum", "value", "dataValue", "const", "mapping", "scopes", "callbacks", "encoding", "links":
			if i > 0 && p[i-1] == "components" {
				continue
			}
			return true
		}
	}
	return false
}

// kind of object a path leads to
func wcObj(p []string) string {
	n := len(p)
	at := func(i int) string {
		if i < 0 || i >= n {
			return ""
		}
		return p[i]
	}
	switch {
	case n == 1 && p[0] == "info":
		return "info"
	case n == 2 && p[0] == "tags":
		return "tag"
	case n == 2 && p[0] == "paths":
		return "pathItem"
	case n == 3 && p[0] == "paths" && isVerb(p[2]):
		return "operation"
	case n == 3 && p[0] == "components" && p[1] == "schemas":
		return "schema"
	case n > 2 && p[0] == "components" && p[1] != "schemas":
		return "" // no edits in the other components: see wcOpaque
	case at(n-2) == "parameters":
		return "parameter"
	case at(n-2) == "responses":
		return "response"
	case at(n-1) == "requestBody":
		return "requestBody"
	case at(n-2) == "properties" || at(n-1) == "items" || at(n-1) == "schema":
		return "schema"
	case at(n-2) == "patternProperties" || at(n-2) == "dependentSchemas" || at(n-2) == "prefixItems":
		return "schema"
	case at(n-2) == "allOf" || at(n-2) == "anyOf" || at(n-2) == "oneOf":
		return "schema"
	}
	switch at(n - 1) {
	case "not", "if", "then", "else", "additionalProperties", "propertyNames", "contains", "unevaluatedItems", "unevaluatedProperties", "contentSchema":
		return "schema"
	}
	return ""
}

// wcComp: sections of the components of which additions and removals are reported
func wcComp(s string) bool {
	switch s {
	case "responses", "parameters", "headers", "requestBodies", "links", "callbacks", "examples":
		return true
	}
	return false
}

func isVerb(s string) bool {
	switch s {
	case "get", "put", "post", "delete", "options", "head", "patch", "trace":
		return true
	}
	return false
}

// sites lists where an edit of a kind can be made.
func wcSites(root *doc.Node, kind string) []wcSite {
	var out []wcSite
	used := map[string]bool{}
	root.Walk(func(p []string, n *doc.Node) {
		if n.Kind == doc.Scalar && strings.HasPrefix(n.S, "#/components/") {
			used[strings.TrimPrefix(n.S, "#/components/")] = true
		}
	})
	add := func(p []string, n *doc.Node) {
		out = append(out, wcSite{append([]string{}, p...), n})
	}
	switch kind {
	case "move":
		root.Walk(func(p []string, n *doc.Node) {
			if len(p) > 2 && n.Kind == doc.Scalar && wcMoves[p[len(p)-1]] != "" && wcObj(p[:len(p)-1]) == "schema" && !wcOpaque(p) {
				if par := root.At(p[:len(p)-1]...); !par.Has(wcMoves[p[len(p)-1]]) {
					if w, _ := wcAny(root, "drop-leaf", p, n, ""); len(w) == 1 {
						add(p, n)
					}
				}
			}
		})
		return out
	case "leaf", "drop-leaf", "drop-node":
		root.Walk(func(p []string, n *doc.Node) {
			if w, _ := wcAny(root, kind, p, n, ""); w != nil {
				add(p, n)
			}
		})
		return out
	}
	root.Walk(func(p []string, n *doc.Node) {
		if wcOpaque(p) || len(p) == 0 {
			return
		}
		o := ""
		if n.Kind == doc.Map && !n.Has("$ref") {
			o = wcObj(p)
		}
		switch kind {
		case "text": // change a text
			if n.Kind == doc.Scalar && n.Tag == "str" && len(p) > 1 {
				switch p[len(p)-1] {
				case "description", "summary", "title", "operationId", "pattern":
					switch wcObj(p[:len(p)-1]) {
					case "info", "tag", "operation", "schema", "response", "parameter", "header", "requestBody":
						add(p, n)
					}
				}
			}
		case "drop-text":
			if n.Kind == doc.Scalar && n.Tag == "str" && len(p) > 1 {
				switch p[len(p)-1] {
				case "description", "summary":
					switch wcObj(p[:len(p)-1]) {
					case "info", "operation", "schema", "parameter", "header", "requestBody":
						add(p, n)
					}
				}
			}
		case "add-text":
			switch o {
			case "operation", "schema", "parameter", "header", "requestBody":
				if !n.Has("description") {
					add(p, n)
				}
			}
		case "number":
			if n.Kind == doc.Scalar && n.Tag == "int" && len(p) > 1 && wcObj(p[:len(p)-1]) == "schema" {
				switch p[len(p)-1] {
				case "maximum", "minimum", "maxLength", "minLength", "maxItems", "minItems", "multipleOf", "maxProperties", "minProperties":
					add(p, n)
				}
			}
		case "add-path":
			if len(p) == 1 && p[0] == "paths" && n.Len() > 0 {
				add(p, n)
			}
		case "drop-path":
			if o == "pathItem" && root.Get("paths").Len() > 2 {
				add(p, n)
			}
		case "add-op":
			if o == "pathItem" {
				for _, v := range []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"} {
					if !n.Has(v) {
						add(append(append([]string{}, p...), v), n)
					}
				}
			}
		case "drop-op":
			if o == "operation" {
				add(p, n)
			}
		case "add-prop":
			if len(p) > 0 && p[len(p)-1] == "properties" && n.Kind == doc.Map && wcObj(p[:len(p)-1]) == "schema" && n.Len() > 0 {
				add(p, n)
			}
		case "drop-prop":
			if len(p) > 1 && p[len(p)-2] == "properties" && wcObj(p[:len(p)-2]) == "schema" && root.At(p[:len(p)-1]...).Len() > 1 {
				add(p, n)
			}
		case "add-schema":
			if len(p) == 2 && p[0] == "components" && p[1] == "schemas" && n.Len() > 0 {
				add(p, n)
			}
		case "add-comp":
			if len(p) == 2 && p[0] == "components" && wcComp(p[1]) && n.Len() > 0 {
				add(p, n)
			}
		case "drop-comp":
			if len(p) == 3 && p[0] == "components" && wcComp(p[1]) && root.At(p[:2]...).Len() > 1 && !used[p[1]+"/"+p[2]] {
				add(p, n)
			}
		case "add-code":
			if p[len(p)-1] == "responses" && len(p) > 2 && n.Kind == doc.Map && n.Len() > 0 {
				add(p, n)
			}
		case "drop-code":
			if len(p) == 5 && p[0] == "paths" && p[3] == "responses" && p[4] != "default" && !strings.HasPrefix(p[4], "x-") && root.At(p[:4]...).Len() > 1 {
				add(p, n)
			}
		case "add-tag":
			if len(p) == 1 && p[0] == "tags" && n.Len() > 0 {
				add(p, n)
			}
		case "ext":
			switch o {
			case "info", "operation", "schema", "response", "parameter", "header", "requestBody", "pathItem":
				add(p, n)
			}
		}
	})
	return out
}

// wcPlace keeps the keys of a path that a report has to go through to show a change there.
func wcPlace(p []string) (out []string) {
	for i := 0; i+1 < len(p); i++ {
		switch p[i] {
		case "paths", "webhooks":
			out = append(out, p[i+1])
			if i+2 < len(p) && isVerb(p[i+2]) {
				out = append(out, p[i+2])
			}
		case "responses", "content", "headers", "properties", "patternProperties", "dependentSchemas", "schemas":
			out = append(out, p[i+1])
		case "allOf", "oneOf", "anyOf", "prefixItems":
			out = append(out, p[i])
		}
	}
	return
}

type wcFound struct {
	*wcm.Change
	path   []string
	weight int // 2 to the number of allOf above
}

// wcWalk lists the changes of a report with the keys that lead to each.
func wcWalk(v reflect.Value, path []string, weight int, out *[]wcFound) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return
		}
		if c, ok := v.Interface().(*wcm.Change); ok {
			*out = append(*out, wcFound{c, path, weight})
			return
		}
		wcWalk(v.Elem(), path, weight, out)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			wcWalk(v.Index(i), path, weight, out)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			wcWalk(v.MapIndex(k), append(path[:len(path):len(path)], k.String()), weight, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			tag, _, _ := strings.Cut(f.Tag.Get("json"), ",")
			if !f.IsExported() || tag == "-" {
				continue
			}
			p, w := path, weight
			if tag != "" && tag != "changes" {
				p = append(path[:len(path):len(path)], tag)
			}
			if tag == "allOf" {
				w *= 2
			}
			wcWalk(v.Field(i), p, w, out)
		}
	}
}

// through says whether a change lies below the keys of a place.
func (f wcFound) through(place []string) bool {
	i := 0
	for _, k := range f.path {
		if i < len(place) && strings.EqualFold(k, place[i]) {
			i++
		}
	}
	return i == len(place)
}

// wcMoves pairs keywords of a schema whose values can stand in for each other.
var wcMoves = map[string]string{"readOnly": "writeOnly", "writeOnly": "nullable", "nullable": "deprecated", "deprecated": "readOnly", "maximum": "minimum", "minimum": "multipleOf",
	"multipleOf": "maximum", "maxLength": "minLength", "minLength": "maxItems", "maxItems": "minItems", "minItems": "maxProperties", "maxProperties": "minProperties", "minProperties": "maxLength",
	"title": "description", "description": "title", "pattern": "format", "format": "pattern"}

func wcBranches(s string) bool { return s == "oneOf" || s == "anyOf" || s == "allOf" }

func wcIndex(s string) bool { return s != "" && s[0] >= '0' && s[0] <= '9' }

// wcNames: keys of maps whose own keys are chosen by the author
func wcNames(s string) bool {
	switch s {
	case "properties", "patternProperties", "dependentSchemas", "dependentRequired", "schemas", "responses", "headers", "content", "links",
		"callbacks", "encoding", "variables", "securitySchemes", "mapping", "scopes", "paths", "webhooks":
		return true
	}
	return false
}

// wcAny says what is to be reported when the scalar at p becomes another one (leaf), is left out (drop-leaf), or when the
// object, the entry of a map or of a list at p is left out (drop-node); nothing when there is no such edit there.
// own is the path below which no other edit may be made.
func wcAny(root *doc.Node, kind string, p []string, n *doc.Node, now string) (want []wcWant, own []string) {
	z := len(p)
	if z < 2 || p[0] == "components" && (z < 4 || p[1] != "schemas" && p[1] != "securitySchemes") {
		return
	}
	at := func(i int) string { // from the end
		if z-i < 0 {
			return ""
		}
		return p[z-i]
	}
	last, up := p[z-1], p[z-2]
	if n.Kind == doc.Scalar && (last == "$ref" || strings.HasPrefix(n.S, "#/components") || strings.Contains(n.S, ".yaml")) {
		return
	}
	if n.Has("$ref") {
		return
	}
	was := ""
	if n.Kind == doc.Scalar {
		was = n.S
		switch n.Tag {
		case "str", "int", "bool":
		default:
			return
		}
	}
	W := func(at []string, t int, prop, o, nw string) {
		want = append(want, wcWant{Place: wcPlace(at), At: strings.Join(p, "|"), Type: t, Prop: prop, Old: o, New: nw})
	}
	any := func(at []string, t int, prop string) {
		want = append(want, wcWant{Place: wcPlace(at), At: strings.Join(p, "|"), Type: t, Prop: prop, Any: true})
	}
	own = p
	// free content: the whole value has changed
	for i := 0; i < z; i++ {
		prev := ""
		if i > 0 {
			prev = p[i-1]
		}
		free := strings.HasPrefix(p[i], "x-") && !wcNames(prev)
		if !wcNames(prev) && !(prev == "examples" && !wcIndex(p[i])) {
			switch p[i] {
			case "example", "value", "dataValue", "default", "const":
				free = true
			}
			if p[i] == "examples" && i+1 < z && wcIndex(p[i+1]) && i+2 < z {
				if kind != "leaf" || n.Kind != doc.Scalar {
					return nil, nil
				}
				any(p[:i], wcm.Modified, "examples")
				return want, p[:i+1]
			}
		}
		if free && i+1 < z {
			if kind != "leaf" || n.Kind != doc.Scalar {
				return nil, nil
			}
			any(p[:i], wcm.Modified, p[i])
			return want, p[:i+1]
		}
	}
	obj := p[:z-1]
	inSchema := wcObj(obj) == "schema"
	switch kind {
	case "leaf":
		if n.Kind != doc.Scalar {
			return nil, nil
		}
		switch {
		case wcIndex(last) && up == "enum":
			if at(3) != "" && at(4) == "variables" {
				W(p[:z-2], wcm.ObjectRemoved, "enum", was, "")
				W(p[:z-2], wcm.ObjectAdded, "enum", "", now)
			} else {
				W(p[:z-2], wcm.PropertyRemoved, "enum", was, "")
				W(p[:z-2], wcm.PropertyAdded, "enum", "", now)
			}
			return want, p[:z-1]
		case wcIndex(last) && (up == "required" || up == "tags"):
			W(p[:z-2], wcm.PropertyRemoved, up, was, "")
			W(p[:z-2], wcm.PropertyAdded, up, "", now)
			return want, p[:z-1]
		case wcIndex(last) && up == "examples":
			W(p[:z-2], wcm.Modified, up, was, now)
			return want, p[:z-1]
		case wcIndex(last) && up == "type", wcIndex(last) && at(3) == "dependentRequired":
			any(p[:z-2], wcm.Modified, up)
			return want, p[:z-1]
		case wcIndex(last) && wcIndex(at(3)) && at(4) == "security":
			W(p[:z-4], wcm.ObjectRemoved, up, was, "")
			W(p[:z-4], wcm.ObjectAdded, up, "", now)
			return want, p[:z-3]
		case wcIndex(last):
			return nil, nil
		case last == "name" && at(3) == "parameters" && wcIndex(up):
			W(p[:z-3], wcm.ObjectRemoved, "parameters", was, "")
			W(p[:z-3], wcm.ObjectAdded, "parameters", "", now)
			return want, p[:z-1]
		case last == "name" && z == 3 && p[0] == "tags":
			any(nil, wcm.ObjectRemoved, was)
			any(nil, wcm.ObjectAdded, now)
			return want, p[:z-1]
		case last == "url" && at(3) == "servers" && wcIndex(up):
			W(p[:z-3], wcm.ObjectRemoved, "servers", was, "")
			W(p[:z-3], wcm.ObjectAdded, "servers", "", now)
			return want, p[:z-1]
		case up == "parameters" && len(p) > 3 && at(4) == "links", up == "scopes":
			W(p[:z-2], wcm.Modified, up, was, now)
			return want, p
		}
		if up == "mapping" {
			obj = p[:z-2]
		}
		W(obj, wcm.Modified, last, was, now)
		return want, p
	case "drop-leaf":
		if n.Kind != doc.Scalar || wcIndex(last) || n.Tag == "bool" && n.S == "false" {
			return nil, nil
		}
		switch {
		case up == "mapping", up == "scopes", up == "parameters":
			return nil, nil
		case last == "name" && (wcIndex(up) && (at(3) == "parameters" || at(3) == "tags")), last == "url" && at(3) == "servers":
			return nil, nil
		case last == "in" && wcIndex(up):
			return nil, nil
		case strings.HasPrefix(last, "x-"), last == "additionalProperties", last == "unevaluatedProperties", last == "unevaluatedItems", last == "items":
			W(obj, wcm.ObjectRemoved, last, was, "")
			return want, p
		}
		W(obj, wcm.PropertyRemoved, last, was, "")
		return want, p
	case "drop-node":
		par := root.At(obj...)
		if wcIndex(last) {
			if n.Kind != doc.Scalar || par.Len() < 2 {
				if z > 2 && up == "servers" && par.Len() > 1 {
					any(p[:z-2], wcm.ObjectRemoved, "servers")
					return want, p[:z-1]
				}
				return nil, nil
			}
			switch {
			case up == "enum" && at(4) == "variables":
				W(p[:z-2], wcm.ObjectRemoved, "enum", was, "")
			case up == "enum", up == "required", up == "tags":
				W(p[:z-2], wcm.PropertyRemoved, up, was, "")
			case wcIndex(at(3)) && at(4) == "security":
				W(p[:z-4], wcm.ObjectRemoved, up, was, "")
				return want, p[:z-3]
			default:
				return nil, nil
			}
			return want, p[:z-1]
		}
		if n.Kind != doc.Map {
			return nil, nil
		}
		if wcNames(up) || up == "examples" {
			if par.Len() < 2 {
				return nil, nil
			}
			switch up {
			case "content", "headers", "links", "encoding", "variables":
				W(p[:z-2], wcm.ObjectRemoved, up, last, "")
			case "patternProperties", "dependentSchemas":
				W(p[:z-2], wcm.ObjectRemoved, "properties", last, "")
			case "examples":
				if at(4) == "content" {
					any(p[:z-2], wcm.ObjectRemoved, "example")
				} else {
					W(p[:z-2], wcm.ObjectRemoved, up, last, "")
				}
			default:
				return nil, nil
			}
			return want, p
		}
		switch last {
		case "externalDocs":
			if isVerb(up) {
				any(obj, wcm.PropertyRemoved, last)
			} else {
				any(obj, wcm.ObjectRemoved, last)
			}
		case "contact", "license":
			any(obj, wcm.ObjectRemoved, last)
		case "xml", "discriminator", "contains", "not", "if", "then", "else", "propertyNames", "items", "additionalProperties", "unevaluatedItems", "unevaluatedProperties":
			if !inSchema {
				return nil, nil
			}
			any(obj, wcm.ObjectRemoved, last)
		case "schema":
			any(obj, wcm.ObjectRemoved, last)
		case "contentSchema", "server":
			any(obj, wcm.PropertyRemoved, last)
		default:
			return nil, nil
		}
		return want, p
	}
	return nil, nil
}

// apply makes the edits on a copy of root and says what has to be reported.
func (c *changedCase) apply(root *doc.Node) (*doc.Node, []wcWant) {
	d := root.Clone()
	var want []wcWant
	var touched []string // paths that were edited: an edit may not lie above or below another one
	branch := map[string]string{}
	clash := func(p []string) bool {
		k := strings.Join(p, "\x00") + "\x00"
		for _, t := range touched {
			if strings.HasPrefix(t, k) || strings.HasPrefix(k, t) {
				return true
			}
		}
		// the branches of a composition have no names: with more than one of them edited, which is which is a guess
		for i := 0; i+1 < len(p); i++ {
			if wcBranches(p[i]) && wcIndex(p[i+1]) {
				l := strings.Join(p[:i+1], "\x00")
				if b, ok := branch[l]; ok && b != p[i+1] {
					return true
				}
				branch[l] = p[i+1]
			}
		}
		touched = append(touched, k)
		return false
	}
	focus := c.focus(root)
	for i, ed := range c.Edits {
		ss := wcSites(root, ed.Kind)
		if focus != nil {
			ss = slices.DeleteFunc(ss, func(s wcSite) bool { return !below(s.path, focus) })
		}
		if len(ss) == 0 {
			continue
		}
		s := ss[ed.Pick%len(ss)]
		id := fmt.Sprintf("edit-%d", i)
		par := d.At(s.path[:len(s.path)-1]...)
		me := d.At(s.path...)
		if par == nil || me == nil && ed.Kind != "add-op" {
			continue
		}
		key := func(k string) bool { return clash(append(append([]string{}, s.path...), k)) }
		key2 := func(k string) bool { return clash(append(append([]string{}, s.path[:len(s.path)-1]...), k)) }
		switch ed.Kind {
		case "text":
			if clash(s.path) {
				continue
			}
			want = append(want, wcWant{Place: wcPlace(s.path[:len(s.path)-1]), At: strings.Join(s.path, "|"), Type: wcm.Modified, Prop: s.last(), Old: me.S, New: id})
			par.Set(s.last(), id)
		case "drop-text":
			if clash(s.path) {
				continue
			}
			want = append(want, wcWant{Place: wcPlace(s.path[:len(s.path)-1]), At: strings.Join(s.path, "|"), Type: wcm.PropertyRemoved, Prop: s.last(), Old: me.S})
			par.Del(s.last())
		case "add-text":
			if key("description") {
				continue
			}
			want = append(want, wcWant{Place: wcPlace(s.path), At: strings.Join(s.path, "|"), Type: wcm.PropertyAdded, Prop: "description", New: id})
			me.Set("description", id)
		case "number":
			if clash(s.path) {
				continue
			}
			v := 100000 + i
			want = append(want, wcWant{Place: wcPlace(s.path[:len(s.path)-1]), At: strings.Join(s.path, "|"), Type: wcm.Modified, Prop: s.last(), Old: me.S, New: fmt.Sprint(v)})
			par.Set(s.last(), v)
		case "leaf", "drop-leaf", "drop-node":
			var v any = id
			if s.n.Tag == "int" {
				v = 100000 + i
			} else if s.n.Tag == "bool" {
				v = s.n.S != "true"
			}
			w, own := wcAny(root, ed.Kind, s.path, s.n, fmt.Sprint(v))
			if clash(own) {
				continue
			}
			if ed.Kind == "leaf" {
				*me = *doc.V(v)
			} else {
				par.Del(s.last())
			}
			want = append(want, w...)
		case "move":
			to := wcMoves[s.last()]
			if clash(s.path) || key2(to) {
				continue
			}
			w, _ := wcAny(root, "drop-leaf", s.path, s.n, "")
			x := w[0]
			x.Prop, x.Type, x.Old, x.New = to, wcm.PropertyAdded, "", x.Old
			want = append(want, w[0], x)
			v := *me
			par.Del(s.last())
			par.Set(to, &v)
		case "add-path":
			k := "/" + id
			if key(k) {
				continue
			}
			me.Set(k, doc.M("get", doc.M("responses", doc.M("200", doc.M("description", id)))))
			want = append(want, wcWant{Place: wcPlace(s.path), At: strings.Join(s.path, "|"), Type: wcm.ObjectAdded, Prop: k, New: k})
		case "drop-path":
			if clash(s.path) {
				continue
			}
			par.Del(s.last())
			want = append(want, wcWant{Place: wcPlace(s.path[:1]), At: strings.Join(s.path, "|"), Type: wcm.ObjectRemoved, Prop: s.last(), Old: s.last()})
		case "add-op":
			if clash(s.path) {
				continue
			}
			par.Set(s.last(), doc.M("responses", doc.M("200", doc.M("description", id))))
			want = append(want, wcWant{Place: wcPlace(s.path[:2]), At: strings.Join(s.path, "|"), Type: wcm.PropertyAdded, Prop: s.last(), Any: true})
		case "drop-op":
			if clash(s.path) {
				continue
			}
			par.Del(s.last())
			want = append(want, wcWant{Place: wcPlace(s.path[:2]), At: strings.Join(s.path, "|"), Type: wcm.PropertyRemoved, Prop: s.last(), Any: true})
		case "add-prop":
			k := fmt.Sprintf("%c-%s", 'a'+ed.Pick%26, id)
			if key(k) {
				continue
			}
			me.Set(k, doc.M("type", "string", "description", id))
			want = append(want, wcWant{Place: wcPlace(s.path[:len(s.path)-1]), At: strings.Join(s.path, "|"), Type: wcm.ObjectAdded, Prop: "properties", New: k})
		case "drop-prop":
			if clash(s.path) {
				continue
			}
			par.Del(s.last())
			want = append(want, wcWant{Place: wcPlace(s.path[:len(s.path)-2]), At: strings.Join(s.path, "|"), Type: wcm.ObjectRemoved, Prop: "properties", Old: s.last()})
		case "add-schema":
			if key("S-" + id) {
				continue
			}
			me.Set("S-"+id, doc.M("type", "object", "description", id))
			want = append(want, wcWant{Place: wcPlace(s.path[:1]), At: strings.Join(s.path, "|"), Type: wcm.ObjectAdded, Prop: "schemas", New: "S-" + id})
		case "add-comp":
			k := "C-" + id
			if key(k) {
				continue
			}
			v := doc.M("description", id)
			switch s.last() {
			case "parameters":
				v = doc.M("name", id, "in", "query", "schema", doc.M("type", "string"))
			case "headers":
				v = doc.M("description", id, "schema", doc.M("type", "string"))
			case "callbacks":
				v = doc.M("{$request.body#/"+id+"}", doc.M("post", doc.M("responses", doc.M("200", doc.M("description", id)))))
			case "requestBodies":
				v = doc.M("description", id, "content", doc.M("text/plain", doc.M("schema", doc.M("type", "string"))))
			case "links":
				v = doc.M("operationId", id)
			case "examples":
				v = doc.M("summary", id, "value", id)
			}
			me.Set(k, v)
			want = append(want, wcWant{Place: wcPlace(s.path[:1]), At: strings.Join(s.path, "|"), Type: wcm.ObjectAdded, Prop: s.last(), New: k})
		case "drop-comp":
			if clash(s.path) {
				continue
			}
			par.Del(s.last())
			want = append(want, wcWant{Place: wcPlace(s.path[:1]), At: strings.Join(s.path, "|"), Type: wcm.ObjectRemoved, Prop: s.path[1], Old: s.last()})
		case "add-code":
			k := fmt.Sprint(600 + i)
			if key(k) {
				continue
			}
			me.Set(k, doc.M("description", id))
			want = append(want, wcWant{Place: wcPlace(s.path), At: strings.Join(s.path, "|"), Type: wcm.ObjectAdded, Prop: "codes", New: k})
		case "drop-code":
			if clash(s.path) {
				continue
			}
			par.Del(s.last())
			want = append(want, wcWant{Place: wcPlace(s.path[:4]), At: strings.Join(s.path, "|"), Type: wcm.ObjectRemoved, Prop: "codes", Old: s.last()})
		case "add-tag":
			me.Add(doc.M("name", "t-"+id, "description", id))
			want = append(want, wcWant{Place: wcPlace(s.path), At: strings.Join(s.path, "|"), Type: wcm.ObjectAdded, Prop: "t-" + id, Any: true})
		case "ext":
			k := "x-" + id
			if key(k) {
				continue
			}
			me.Set(k, id)
			want = append(want, wcWant{Place: wcPlace(s.path), At: strings.Join(s.path, "|"), Type: wcm.ObjectAdded, Prop: k, New: id})
		}
	}
	return d, want
}

var wcKinds = []string{"leaf", "leaf", "leaf", "leaf", "drop-leaf", "drop-leaf", "drop-node", "drop-node", "text", "drop-text", "add-text", "number", "move", "move", "add-path", "drop-path", "add-op", "drop-op",
	"add-prop", "drop-prop", "add-schema", "add-code", "drop-code", "add-tag", "ext", "add-comp", "drop-comp"}

func genChanged(r *simrt.Rand) any {
	c := &changedCase{Gen: doc.DrawGen3(r, 0), Back: r.P(0.3), Second: r.P(0.15), Twice: r.P(0.15), JSON: r.P(0.1), Full: r.P(0.4)}
	c.Gen.Cyclic = c.Gen.Cyclic && r.P(0.3)
	if r.P(0.85) {
		c.Gen.Big = ""
	}
	if r.P(0.15) {
		c.Gen.Poly, c.Gen.MorePoly, c.Gen.Depth = true, true, 2
	}
	if c.Second || c.Twice || c.Full {
		c.Gen.AllOps = false
		c.Gen.Comps = min(c.Gen.Comps, 3)
	}
	limit := 30000 // beyond, one run is too expensive
	if c.Second || c.Twice || c.Full {
		limit = 12000
	}
	for k := 0; doc.Expanded(c.Gen.Build(), limit) >= limit; k++ {
		switch k {
		case 0:
			c.Gen.AllOps, c.Gen.MorePoly = false, false
		case 1:
			c.Gen.Depth, c.Gen.Comps, c.Gen.Schemas = min(c.Gen.Depth, 1), min(c.Gen.Comps, 2), min(c.Gen.Schemas, 4)
		case 2:
			c.Gen.Depth, c.Gen.Poly, c.Gen.Wide, c.Gen.Big = 0, false, false, ""
		default:
			c.Gen.RefP, c.Gen.Props, c.Gen.Paths, c.Gen.Webhooks = 0, 1, 1, 0
			limit = 1 << 30
		}
	}
	fav := simrt.Pick(r, wcKinds)
	n := r.N(7)
	kinds := wcKinds
	if r.P(0.35) {
		c.Focus = 1 + r.N(1<<20)
		n = 3 + r.N(6)
		if c.Focus%2 == 0 {
			kinds = []string{"add-prop", "add-prop", "drop-prop", "drop-prop", "leaf", "leaf", "text", "drop-leaf", "drop-node", "add-text", "move"}
			fav = simrt.Pick(r, kinds)
			c.Gen.Props = max(c.Gen.Props, 5)
		}
	}
	for i := n; i > 0; i-- {
		e := wcEdit{Kind: simrt.Pick(r, kinds), Pick: r.N(1 << 20)}
		if r.P(0.3) {
			e.Kind = fav
		}
		c.Edits = append(c.Edits, e)
	}
	return c
}

func wcText(s string) string { return strings.TrimSpace(s) }

// report flattens what was found: every change with its place is in the JSON, the order of the
// entries of a list of changes is not part of the contract.
func wcReport(ch *wcm.DocumentChanges) (flat []string, whole string) {
	if ch == nil {
		return nil, "no changes"
	}
	for _, x := range ch.GetAllChanges() {
		flat = append(flat, fmt.Sprintf("%s %s %q -> %q breaking=%v", wcName(x.ChangeType), x.Property, x.Original, x.New, x.Breaking))
	}
	sort.Strings(flat)
	b, err := json.Marshal(ch)
	if err != nil {
		return flat, "error: " + err.Error()
	}
	var v any
	_ = json.Unmarshal(b, &v)
	b, _ = json.MarshalIndent(sortLists(v), "", " ")
	whole = fmt.Sprintf("total=%d breaking=%d\n%s", ch.TotalChanges(), ch.TotalBreakingChanges(), b)
	return
}

func sortLists(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k := range x {
			x[k] = sortLists(x[k])
		}
	case []any:
		ks := make([]string, len(x))
		for i := range x {
			x[i] = sortLists(x[i])
			b, _ := json.Marshal(x[i])
			ks[i] = string(b)
		}
		sort.Sort(byKey{ks, x})
	}
	return v
}

type byKey struct {
	k []string
	v []any
}

func (b byKey) Len() int           { return len(b.k) }
func (b byKey) Less(i, j int) bool { return b.k[i] < b.k[j] }
func (b byKey) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.v[i], b.v[j] = b.v[j], b.v[i]
}

type wcDone struct {
	ch  *wcm.DocumentChanges
	err error
}

func wcCompare(l, r []byte) (out wcDone) {
	open := func(src []byte) libopenapi.Document {
		cfg := datamodel.NewDocumentConfiguration()
		cfg.Logger = quietLogger
		d, err := libopenapi.NewDocumentWithConfiguration(src, cfg)
		if err != nil {
			out.err = err
		}
		return d
	}
	a, b := open(l), open(r)
	if out.err != nil {
		return
	}
	out.ch, out.err = libopenapi.CompareDocuments(a, b)
	return
}

func runChanged(c *changedCase, e *harness.Env) {
	old := c.Gen.Build()
	upd, want := c.apply(old)
	l := c.Gen.Bytes(old)
	g := c.Gen
	g.JSON = g.JSON != c.JSON
	r := g.Bytes(upd)
	if c.Back {
		l, r = r, l
		for i := range want {
			want[i] = want[i].flip()
		}
	}
	var refWhole string
	if c.Full {
		e.Ref(0, func() {
			x := wcCompare(l, r)
			_, refWhole = wcReport(x.ch)
		})
		if e.Failed() {
			return
		}
		libopenapi.ClearAllCaches()
	}
	var got, other wcDone
	var again *wcm.DocumentChanges
	e.Sim(func() {
		var wg sync.WaitGroup
		if c.Second {
			wg.Add(1)
			go func() {
				defer wg.Done()
				other = wcCompare(r, l)
			}()
		}
		if c.Twice {
			cfg := datamodel.NewDocumentConfiguration()
			cfg.Logger = quietLogger
			a, _ := libopenapi.NewDocumentWithConfiguration(l, cfg)
			b, _ := libopenapi.NewDocumentWithConfiguration(r, cfg)
			src := nodesOf(a.GetSpecInfo().RootNode, b.GetSpecInfo().RootNode)
			got.ch, got.err = libopenapi.CompareDocuments(a, b)
			again, _ = libopenapi.CompareDocuments(a, b)
			if d := changedNode(src, nodesOf(a.GetSpecInfo().RootNode, b.GetSpecInfo().RootNode)); d != "" {
				e.Fail("compare-changed-source", "comparing changed a node of a document: %s", d)
			}
		} else {
			got = wcCompare(l, r)
		}
		wg.Wait()
	})
	if e.Failed() {
		return
	}
	if got.err != nil && !(c.Gen.Cyclic && strings.Contains(got.err.Error(), "circular")) {
		e.Fail("compare-error", "comparing two valid documents: %v", got.err)
		return
	}
	flat, whole := wcReport(got.ch)
	late := wcCheck(e, "", want, got.ch)
	if e.Failed() {
		return
	}
	if c.Full {
		if d := firstDiff(refWhole, whole); d != "" {
			e.Fail("schedule-report", "the report differs between two schedules of the same comparison (sequential vs this one): %s", d)
			return
		}
	}
	if c.Second {
		w := append([]wcWant{}, want...)
		for i := range w {
			w[i] = w[i].flip()
		}
		if m := wcCheck(e, "concurrent-", w, other.ch); m != "" {
			late = m
		}
	}
	if c.Twice && !e.Failed() {
		f2, _ := wcReport(again)
		if d := firstDiff(strings.Join(flat, "\n"), strings.Join(f2, "\n")); d != "" {
			e.Fail("again", "the same comparison made again reports something else (first vs again): %s", d)
		}
	}
	if late != "" && !e.Failed() {
		e.Fail("breaking-count-allof", "breaking changes below allOf are counted twice: %s", late)
		return
	}
	e.Probe(fmt.Sprintf("changes:%d", len(want)))
	e.Digest(whole)
}

// wcCheck compares the report with the edits. The result, when not empty, tells of breaking changes below
// allOf that are counted twice: a known finding, for the caller to report after everything else.
func wcCheck(e *harness.Env, pre string, want []wcWant, ch *wcm.DocumentChanges) (late string) {
	if len(want) == 0 {
		if ch != nil {
			f, _ := wcReport(ch)
			e.Fail(pre+"phantom", "two equal documents: %d changes reported: %s", ch.TotalChanges(), strings.Join(f, "; "))
		}
		return
	}
	if ch == nil {
		e.Fail(pre+"missed:"+want[0].Prop, "documents that differ by %v: no change reported", want)
		return
	}
	all := ch.GetAllChanges()
	var tree []wcFound
	wcWalk(reflect.ValueOf(ch), nil, 1, &tree)
	if n := ch.TotalChanges(); n != len(all) || n != len(tree) {
		e.Fail(pre+"count", "the report counts %d changes, lists %d and holds %d", n, len(all), len(tree))
		return
	}
	brk, ext, heavy, heavyExt := 0, 0, 0, 0
	used := make([]bool, len(tree))
	for _, x := range tree {
		if x.Breaking && strings.HasPrefix(x.Property, "x-") {
			ext++
			heavyExt += x.weight
		} else if x.Breaking {
			brk++
			heavy += x.weight
		}
	}
	{
		if n := ch.TotalBreakingChanges(); n < brk || n > brk+ext {
			f, _ := wcReport(ch)
			msg := fmt.Sprintf("the report counts %d breaking changes and lists %d: %s (edits: %v)", n, brk, strings.Join(f, "; "), want)
			if n < heavy || n > heavy+heavyExt {
				e.Fail(pre+"breaking-count", "%s", msg)
				return
			}
			late = msg
		}
	}
	for _, w := range want {
		ok := false
		for i, x := range tree {
			if x.ChangeType == w.Type && x.Property == w.Prop && (w.Any || wcText(x.Original) == wcText(w.Old) && wcText(x.New) == wcText(w.New)) {
				used[i] = true
				ok = ok || x.through(w.Place)
			}
		}
		if !ok {
			f, _ := wcReport(ch)
			e.Fail(pre+"missed:"+wcName(w.Type)+":"+w.Prop, "an edit is not in the report (in its place): %s; report: %s", w, strings.Join(f, "; "))
			return
		}
	}
	for i, x := range tree {
		if !used[i] {
			e.Fail(pre+"phantom:"+wcName(x.ChangeType)+":"+x.Property, "the report has a change nobody made: %s %s %q -> %q (edits: %v)", wcName(x.ChangeType), x.Property, x.Original, x.New, want)
			return
		}
	}
	return
}

func init() {
	harness.Register(&harness.Scenario{Name: "what-changed", Property: "C08", Est: 900000,
		New: func() any { return &changedCase{} }, Gen: genChanged,
		Run: func(c any, e *harness.Env) { runChanged(c.(*changedCase), e) }})
}
