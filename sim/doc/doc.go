// Package doc is a small ordered document tree with its own emitters, independent of the code
// under test. It is the ground truth the oracles compare against.
package doc

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"go.yaml.in/yaml/v4"
)

type Kind byte

const (
	Map    Kind = 'm'
	List   Kind = 'l'
	Scalar Kind = 's'
)

type Node struct {
	Kind Kind     `json:"k"`
	Keys []string `json:"keys,omitempty"`
	Vals []*Node  `json:"vals,omitempty"`
	S    string   `json:"s,omitempty"`
	Tag  string   `json:"t,omitempty"` // str int float bool null
}

func M(kv ...any) *Node {
	n := &Node{Kind: Map}
	for i := 0; i+1 < len(kv); i += 2 {
		n.Set(kv[i].(string), V(kv[i+1]))
	}
	return n
}
func L(vs ...any) *Node {
	n := &Node{Kind: List}
	for _, v := range vs {
		n.Vals = append(n.Vals, V(v))
	}
	return n
}
func V(v any) *Node {
	switch x := v.(type) {
	case *Node:
		return x
	case string:
		return &Node{Kind: Scalar, S: x, Tag: "str"}
	case int:
		return &Node{Kind: Scalar, S: strconv.Itoa(x), Tag: "int"}
	case int64:
		return &Node{Kind: Scalar, S: strconv.FormatInt(x, 10), Tag: "int"}
	case float64:
		return &Node{Kind: Scalar, S: strconv.FormatFloat(x, 'f', -1, 64), Tag: "float"}
	case bool:
		return &Node{Kind: Scalar, S: strconv.FormatBool(x), Tag: "bool"}
	case nil:
		return &Node{Kind: Scalar, S: "null", Tag: "null"}
	case []string:
		n := &Node{Kind: List}
		for _, s := range x {
			n.Vals = append(n.Vals, V(s))
		}
		return n
	}
	panic(fmt.Sprintf("doc.V %T", v))
}

func (n *Node) Get(k string) *Node {
	if n == nil {
		return nil
	}
	for i, x := range n.Keys {
		if x == k {
			return n.Vals[i]
		}
	}
	return nil
}
func (n *Node) Has(k string) bool { return n.Get(k) != nil }
func (n *Node) At(path ...string) *Node {
	for _, p := range path {
		if i, err := strconv.Atoi(p); err == nil && n.Kind == List {
			if i < 0 || i >= len(n.Vals) {
				return nil
			}
			n = n.Vals[i]
			continue
		}
		n = n.Get(p)
		if n == nil {
			return nil
		}
	}
	return n
}
func (n *Node) Set(k string, v any) *Node {
	nv := V(v)
	for i, x := range n.Keys {
		if x == k {
			n.Vals[i] = nv
			return n
		}
	}
	n.Keys = append(n.Keys, k)
	n.Vals = append(n.Vals, nv)
	return n
}
func (n *Node) Del(k string) {
	if i, err := strconv.Atoi(k); err == nil && n.Kind == List {
		n.Vals = append(append([]*Node(nil), n.Vals[:i]...), n.Vals[i+1:]...)
		return
	}
	for i, x := range n.Keys {
		if x == k {
			n.Keys = append(append([]string(nil), n.Keys[:i]...), n.Keys[i+1:]...)
			n.Vals = append(append([]*Node(nil), n.Vals[:i]...), n.Vals[i+1:]...)
			return
		}
	}
}
func (n *Node) Add(v any) *Node { n.Vals = append(n.Vals, V(v)); return n }
func (n *Node) Len() int {
	if n == nil {
		return 0
	}
	return len(n.Vals)
}

func (n *Node) Clone() *Node {
	if n == nil {
		return nil
	}
	c := &Node{Kind: n.Kind, S: n.S, Tag: n.Tag, Keys: append([]string(nil), n.Keys...)}
	for _, v := range n.Vals {
		c.Vals = append(c.Vals, v.Clone())
	}
	return c
}

var plain = regexp.MustCompile(`^[A-Za-z_/][A-Za-z0-9_/.\-{}]*$`)

func yscalar(n *Node) string {
	if n.Tag != "str" {
		return n.S
	}
	return ystr(n.S)
}

func ystr(s string) string {
	l := strings.ToLower(s)
	if plain.MatchString(s) && l != "true" && l != "false" && l != "null" && l != "yes" && l != "no" && l != "on" && l != "off" && l != "y" && l != "n" && !strings.ContainsAny(s, "{}") {
		return s
	}
	return jstr(s)
}

func jstr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"':
			b.WriteString(`\"`)
		case r == '\\':
			b.WriteString(`\\`)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r < 0x20:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// YAML emits block-style YAML with the given indent.
func (n *Node) YAML() []byte {
	var b strings.Builder
	emitY(&b, n, 0, false)
	return []byte(b.String())
}

func emitY(b *strings.Builder, n *Node, ind int, inline bool) {
	pad := strings.Repeat("  ", ind)
	switch n.Kind {
	case Scalar:
		b.WriteString(yscalar(n))
		b.WriteByte('\n')
	case Map:
		if len(n.Keys) == 0 {
			b.WriteString("{}\n")
			return
		}
		for i, k := range n.Keys {
			if i > 0 || !inline {
				b.WriteString(pad)
			}
			b.WriteString(ystr(k))
			b.WriteByte(':')
			v := n.Vals[i]
			if v.Kind == Scalar || len(v.Vals) == 0 {
				b.WriteByte(' ')
				emitY(b, v, ind+1, false)
			} else {
				b.WriteByte('\n')
				emitY(b, v, ind+1, false)
			}
		}
	case List:
		if len(n.Vals) == 0 {
			b.WriteString("[]\n")
			return
		}
		for i, v := range n.Vals {
			if i > 0 || !inline {
				b.WriteString(pad)
			}
			b.WriteString("- ")
			emitY(b, v, ind+1, true)
		}
	}
}

// JSON emits indented JSON.
func (n *Node) JSON() []byte {
	var b strings.Builder
	emitJ(&b, n, 0)
	b.WriteByte('\n')
	return []byte(b.String())
}

func emitJ(b *strings.Builder, n *Node, ind int) {
	pad := strings.Repeat("  ", ind+1)
	switch n.Kind {
	case Scalar:
		if n.Tag == "str" {
			b.WriteString(jstr(n.S))
		} else {
			b.WriteString(n.S)
		}
	case Map:
		if len(n.Keys) == 0 {
			b.WriteString("{}")
			return
		}
		b.WriteString("{\n")
		for i, k := range n.Keys {
			b.WriteString(pad + jstr(k) + ": ")
			emitJ(b, n.Vals[i], ind+1)
			if i < len(n.Keys)-1 {
				b.WriteByte(',')
			}
			b.WriteByte('\n')
		}
		b.WriteString(strings.Repeat("  ", ind) + "}")
	case List:
		if len(n.Vals) == 0 {
			b.WriteString("[]")
			return
		}
		b.WriteString("[\n")
		for i, v := range n.Vals {
			b.WriteString(pad)
			emitJ(b, v, ind+1)
			if i < len(n.Vals)-1 {
				b.WriteByte(',')
			}
			b.WriteByte('\n')
		}
		b.WriteString(strings.Repeat("  ", ind) + "]")
	}
}

// Parse reads YAML or JSON.
func Parse(src []byte) (*Node, error) {
	var y yaml.Node
	if err := yaml.Unmarshal(src, &y); err != nil {
		return nil, err
	}
	return FromYAML(&y), nil
}

func FromYAML(y *yaml.Node) *Node { return fromYAML(y, 0) }

func fromYAML(y *yaml.Node, depth int) *Node {
	if y == nil || depth > 200 {
		return &Node{Kind: Scalar, Tag: "null", S: "null"}
	}
	switch y.Kind {
	case yaml.DocumentNode:
		if len(y.Content) == 0 {
			return nil
		}
		return fromYAML(y.Content[0], depth+1)
	case yaml.AliasNode:
		return fromYAML(y.Alias, depth+1)
	case yaml.MappingNode:
		n := &Node{Kind: Map}
		for i := 0; i+1 < len(y.Content); i += 2 {
			n.Keys = append(n.Keys, y.Content[i].Value)
			n.Vals = append(n.Vals, fromYAML(y.Content[i+1], depth+1))
		}
		return n
	case yaml.SequenceNode:
		n := &Node{Kind: List}
		for _, c := range y.Content {
			n.Vals = append(n.Vals, fromYAML(c, depth+1))
		}
		return n
	case yaml.ScalarNode:
		n := &Node{Kind: Scalar, S: y.Value, Tag: "str"}
		switch y.ShortTag() {
		case "!!int":
			n.Tag = "int"
		case "!!float":
			n.Tag = "float"
		case "!!bool":
			n.Tag = "bool"
		case "!!null":
			n.Tag = "null"
			n.S = "null"
		}
		return n
	}
	return &Node{Kind: Scalar, Tag: "null", S: "null"}
}

// Diff returns "" when a and b are equal; otherwise the first difference. ordered also compares key order.
func Diff(a, b *Node, ordered bool) string { return diff("", a, b, ordered) }

func short(n *Node) string {
	if n == nil {
		return "<absent>"
	}
	s := string(n.JSON())
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

func diff(p string, a, b *Node, ordered bool) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("%s: %s vs %s", p, short(a), short(b))
	}
	if a.Kind != b.Kind {
		return fmt.Sprintf("%s: %s vs %s", p, short(a), short(b))
	}
	switch a.Kind {
	case Scalar:
		if a.S != b.S && !numEq(a, b) || (a.Tag == "str") != (b.Tag == "str") {
			return fmt.Sprintf("%s: %s vs %s", p, short(a), short(b))
		}
	case List:
		if len(a.Vals) != len(b.Vals) {
			return fmt.Sprintf("%s: %d items vs %d: %s vs %s", p, len(a.Vals), len(b.Vals), short(a), short(b))
		}
		for i := range a.Vals {
			if d := diff(fmt.Sprintf("%s[%d]", p, i), a.Vals[i], b.Vals[i], ordered); d != "" {
				return d
			}
		}
	case Map:
		for i, k := range a.Keys {
			bv := b.Get(k)
			if bv == nil {
				return fmt.Sprintf("%s/%s: %s vs <absent>", p, k, short(a.Vals[i]))
			}
			if d := diff(p+"/"+k, a.Vals[i], bv, ordered); d != "" {
				return d
			}
		}
		for i, k := range b.Keys {
			if a.Get(k) == nil {
				return fmt.Sprintf("%s/%s: <absent> vs %s", p, k, short(b.Vals[i]))
			}
		}
		if len(a.Keys) != len(b.Keys) {
			return fmt.Sprintf("%s: duplicate keys %v vs %v", p, a.Keys, b.Keys)
		}
		if ordered {
			for i := range a.Keys {
				if a.Keys[i] != b.Keys[i] {
					return fmt.Sprintf("%s: key order %v vs %v", p, a.Keys, b.Keys)
				}
			}
		}
	}
	return ""
}

func numEq(a, b *Node) bool {
	if a.Tag != "int" && a.Tag != "float" {
		return false
	}
	x, e1 := strconv.ParseFloat(a.S, 64)
	y, e2 := strconv.ParseFloat(b.S, 64)
	return e1 == nil && e2 == nil && x == y
}

// KeyOrderDiff compares the relative order of the keys of every map reached through a path that
// matches sel (called with the path); other maps are compared as sets.
func KeyOrderDiff(a, b *Node, sel func(path []string) bool) string {
	return kod(nil, a, b, sel)
}

func kod(p []string, a, b *Node, sel func([]string) bool) string {
	if a == nil || b == nil || a.Kind != b.Kind {
		return ""
	}
	switch a.Kind {
	case List:
		for i := range a.Vals {
			if i < len(b.Vals) {
				if d := kod(append(p, "[]"), a.Vals[i], b.Vals[i], sel); d != "" {
					return d
				}
			}
		}
	case Map:
		if sel(p) && strings.Join(a.Keys, "\x00") != strings.Join(b.Keys, "\x00") {
			x, y := append([]string(nil), a.Keys...), append([]string(nil), b.Keys...)
			sort.Strings(x)
			sort.Strings(y)
			if strings.Join(x, "\x00") == strings.Join(y, "\x00") {
				return fmt.Sprintf("/%s: order %v vs %v", strings.Join(p, "/"), a.Keys, b.Keys)
			}
		}
		for i, k := range a.Keys {
			if d := kod(append(p, k), a.Vals[i], b.Get(k), sel); d != "" {
				return d
			}
		}
	}
	return ""
}

// Walk visits every node.
func (n *Node) Walk(f func(path []string, n *Node)) { walk(nil, n, f) }

func walk(p []string, n *Node, f func([]string, *Node)) {
	if n == nil {
		return
	}
	f(p, n)
	for i, v := range n.Vals {
		k := strconv.Itoa(i)
		if n.Kind == Map {
			k = n.Keys[i]
		}
		walk(append(p[:len(p):len(p)], k), v, f)
	}
}

// Expanded counts the nodes of root with every local reference replaced by its target, giving up at
// limit. A reference met again below itself is not followed.
func Expanded(root *Node, limit int) int {
	n := 0
	open := map[string]bool{}
	var walk func(x *Node)
	walk = func(x *Node) {
		if n++; n >= limit {
			return
		}
		if x.Kind == Map {
			if r := x.Get("$ref"); r != nil && len(r.S) > 2 && r.S[:2] == "#/" && !open[r.S] {
				if t := root.At(splitPtr(r.S[2:])...); t != nil {
					open[r.S] = true
					walk(t)
					delete(open, r.S)
				}
				return
			}
		}
		for _, v := range x.Vals {
			walk(v)
		}
	}
	walk(root)
	return n
}

func splitPtr(s string) []string {
	var out []string
	for _, p := range strings.Split(s, "/") {
		out = append(out, strings.ReplaceAll(strings.ReplaceAll(p, "~1", "/"), "~0", "~"))
	}
	return out
}
