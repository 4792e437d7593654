package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	highbase "github.com/pb33f/libopenapi/datamodel/high/base"
	lowbase "github.com/pb33f/libopenapi/datamodel/low/base"
	"github.com/pb33f/libopenapi/index"
	"go.yaml.in/yaml/v4"
)

// dumper renders everything a user can observe of a model into text, so that two executions can be
// compared. Object identity is replaced by first-visit numbering; maps are sorted.
type dumper struct {
	b     strings.Builder
	seen  map[any]int
	depth int
	limit int
}

var (
	tYaml    = reflect.TypeOf((*yaml.Node)(nil))
	tIndex   = reflect.TypeOf((*index.SpecIndex)(nil))
	tRolodex = reflect.TypeOf((*index.Rolodex)(nil))
	tHighSP  = reflect.TypeOf((*highbase.SchemaProxy)(nil))
	tLowSP   = reflect.TypeOf((*lowbase.SchemaProxy)(nil))
	tErr     = reflect.TypeOf((*error)(nil)).Elem()
)

func newDumper() *dumper { return &dumper{seen: map[any]int{}, limit: 400000} }

func dumpText(vs ...any) string {
	d := newDumper()
	for _, v := range vs {
		d.val(reflect.ValueOf(v))
		d.b.WriteByte('\n')
	}
	return d.b.String()
}

func (d *dumper) pf(f string, a ...any) { fmt.Fprintf(&d.b, f, a...) }

func (d *dumper) node(n *yaml.Node) {
	if n == nil {
		d.b.WriteString("nil")
		return
	}
	if k, ok := d.seen[n]; ok {
		d.pf("@%d", k)
		return
	}
	d.seen[n] = len(d.seen)
	d.pf("y(%d,%s,%q,%d:%d", n.Kind, n.Tag, n.Value, n.Line, n.Column)
	for _, c := range n.Content {
		d.b.WriteByte(' ')
		d.node(c)
	}
	if n.Alias != nil {
		d.b.WriteString(" *")
		d.node(n.Alias)
	}
	d.b.WriteByte(')')
}

func (d *dumper) val(v reflect.Value) {
	if d.b.Len() > d.limit*20 {
		return
	}
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	d.depth++
	defer func() { d.depth-- }()
	if d.depth > 150 {
		d.b.WriteString("<deep>")
		return
	}
	t := v.Type()
	switch t {
	case tYaml:
		d.node(v.Interface().(*yaml.Node))
		return
	case tIndex, tRolodex:
		if v.IsNil() {
			d.b.WriteString("nil")
		} else {
			d.b.WriteString("<" + t.Elem().Name() + ">")
		}
		return
	case tHighSP:
		d.highProxy(v.Interface().(*highbase.SchemaProxy))
		return
	case tLowSP:
		d.lowProxy(v.Interface().(*lowbase.SchemaProxy))
		return
	}
	if t.Kind() != reflect.Interface && t.Implements(tErr) && t.Kind() == reflect.Ptr && !v.IsNil() {
		d.pf("err(%q)", v.Interface().(error).Error())
		return
	}
	switch t.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if e, ok := v.Interface().(error); ok {
			d.pf("err(%q)", e.Error())
			return
		}
		d.val(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		p := v.Interface()
		if k, ok := d.seen[p]; ok {
			d.pf("@%d", k)
			return
		}
		d.seen[p] = len(d.seen)
		if strings.HasPrefix(t.Elem().Name(), "Map[") && strings.HasSuffix(t.Elem().PkgPath(), "orderedmap") {
			d.omap(v)
			return
		}
		d.b.WriteByte('&')
		d.val(v.Elem())
	case reflect.Struct:
		pkg := t.PkgPath()
		if !strings.Contains(pkg, "libopenapi") {
			d.pf("<%s>", t.Name())
			return
		}
		name := t.Name()
		if i := strings.IndexByte(name, '['); i >= 0 {
			name = name[:i]
		}
		d.pf("%s{", name)
		if v.CanInterface() {
			if r, ok := v.Interface().(interface {
				IsReference() bool
				GetReference() string
			}); ok && r.IsReference() {
				d.pf("REF=%q ", r.GetReference())
			}
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() || f.Anonymous {
				continue
			}
			switch f.Type.Kind() {
			case reflect.Func, reflect.Chan:
				continue
			}
			switch f.Name {
			case "Context", "Lock", "CacheLock", "NodeMap", "RootNode", "KeyNode" + "x":
				continue
			}
			fv := v.Field(i)
			if fv.IsZero() {
				continue
			}
			d.pf("%s:", f.Name)
			d.val(fv)
			d.b.WriteByte(' ')
		}
		d.b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		d.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
			d.b.WriteByte('\n')
		}
		d.b.WriteByte(']')
	case reflect.Map:
		keys := v.MapKeys()
		ks := make([]string, len(keys))
		idx := make([]int, len(keys))
		for i, k := range keys {
			idx[i] = i
			ks[i] = fmt.Sprint(k.Interface())
			if n, ok := k.Interface().(*yaml.Node); ok {
				ks[i] = fmt.Sprintf("%08d:%08d:%s", n.Line, n.Column, n.Value)
			}
		}
		sort.Slice(idx, func(a, b int) bool { return ks[idx[a]] < ks[idx[b]] })
		d.b.WriteString("map{")
		for _, i := range idx {
			d.pf("%q:", ks[i])
			d.val(v.MapIndex(keys[i]))
			d.b.WriteByte('\n')
		}
		d.b.WriteByte('}')
	case reflect.String:
		d.pf("%q", v.String())
	case reflect.Bool:
		d.pf("%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.pf("%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.pf("%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		d.pf("%g", v.Float())
	default:
		d.pf("<%s>", t.Kind())
	}
}

func (d *dumper) omap(v reflect.Value) {
	d.b.WriteString("omap{")
	first := v.MethodByName("First")
	if !first.IsValid() {
		d.b.WriteString("?}")
		return
	}
	p := first.Call(nil)[0]
	for n := 0; n < 100000; n++ {
		if !p.IsValid() || p.IsNil() {
			break
		}
		d.val(p.MethodByName("Key").Call(nil)[0])
		d.b.WriteByte(':')
		d.val(p.MethodByName("Value").Call(nil)[0])
		d.b.WriteByte('\n')
		p = p.MethodByName("Next").Call(nil)[0]
	}
	d.b.WriteByte('}')
}

func (d *dumper) highProxy(p *highbase.SchemaProxy) {
	if p == nil {
		d.b.WriteString("nil")
		return
	}
	if k, ok := d.seen[p]; ok {
		d.pf("@%d", k)
		return
	}
	d.seen[p] = len(d.seen)
	d.pf("SP(ref=%v %q ", p.IsReference(), p.GetReference())
	s := p.Schema()
	if e := p.GetBuildError(); e != nil {
		d.pf("builderr=%q ", e.Error())
	}
	// a schema reached through references is dumped by its low-level hash: every proxy of a cycle
	// owns its own copy
	if p.IsReference() || s == nil {
		if s != nil && s.GoLow() != nil {
			d.pf("h=%x ", s.GoLow().Hash())
		}
	} else {
		d.val(reflect.ValueOf(s))
	}
	d.b.WriteByte(')')
}

func (d *dumper) lowProxy(p *lowbase.SchemaProxy) {
	if p == nil {
		d.b.WriteString("nil")
		return
	}
	if k, ok := d.seen[p]; ok {
		d.pf("@%d", k)
		return
	}
	d.seen[p] = len(d.seen)
	d.pf("LSP(ref=%v %q ", p.IsReference(), p.GetReference())
	if k := p.GetKeyNode(); k != nil {
		d.pf("k=%d:%d ", k.Line, k.Column)
	}
	if k := p.GetValueNode(); k != nil {
		d.pf("v=%d:%d ", k.Line, k.Column)
	}
	s := p.Schema()
	if e := p.GetBuildError(); e != nil {
		d.pf("builderr=%q ", e.Error())
	}
	if s != nil {
		if p.IsReference() {
			d.pf("h=%x ", s.Hash())
		} else {
			d.val(reflect.ValueOf(s))
		}
	}
	d.b.WriteByte(')')
}

// dumpIndex renders what the index accessors report. Order of slices is part of the result.
func dumpIndex(x *index.SpecIndex) string {
	if x == nil {
		return "nil index"
	}
	d := newDumper()
	v := reflect.ValueOf(x)
	t := v.Type()
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if !strings.HasPrefix(m.Name, "Get") || m.Type.NumIn() != 1 || m.Type.NumOut() != 1 {
			continue
		}
		switch m.Name {
		case "GetHighCacheHits", "GetHighCacheMisses", "GetHighCache", "GetResolver", "GetConfig", "GetNodeMap", "GetCache",
			"GetLogger", "GetRolodex", "GetRootNode":
			continue
		}
		out := v.Method(i).Call(nil)[0]
		d.pf("%s = ", m.Name)
		dd := &dumper{seen: map[any]int{}, limit: d.limit}
		dd.val(out)
		d.b.WriteString(dd.b.String())
		d.b.WriteByte('\n')
	}
	return d.b.String()
}

// firstDiff shows the first difference of two texts with context.
func firstDiff(a, b string) string {
	n := min(len(a), len(b))
	i := 0
	for i < n && a[i] == b[i] {
		i++
	}
	if i == n && len(a) == len(b) {
		return ""
	}
	lo := max(0, i-160)
	cut := func(s string) string {
		hi := min(len(s), i+160)
		if lo > hi {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at byte %d: ...%s... vs ...%s...", i, cut(a), cut(b))
}
