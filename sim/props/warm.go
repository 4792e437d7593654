package props

import (
	"reflect"
	"strings"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel/low"
	lowarazzo "github.com/pb33f/libopenapi/datamodel/low/arazzo"
	lowoverlay "github.com/pb33f/libopenapi/datamodel/low/overlay"
	lowv2 "github.com/pb33f/libopenapi/datamodel/low/v2"
	lowv3 "github.com/pb33f/libopenapi/datamodel/low/v3"
	"go.yaml.in/yaml/v4"

	"verifsim/harness"
	"verifsim/simrt"
)

// Per-type tables that the code computes on first use and keeps for the life of the process would
// make a run depend on the runs before it in the same process. They are filled here, before the
// first run: the model builder is run once on every model type reachable from the document roots.
func warmTypes() {
	seen := map[reflect.Type]bool{}
	var visit func(t reflect.Type)
	visit = func(t reflect.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Kind() {
		case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Chan:
			visit(t.Elem())
		case reflect.Map:
			visit(t.Key())
			visit(t.Elem())
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				visit(t.Field(i).Type)
			}
			if strings.Contains(t.PkgPath(), "/datamodel/low") {
				func() {
					defer func() { _ = recover() }()
					n := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
					_ = low.BuildModel(n, reflect.New(t).Interface())
				}()
			}
		}
	}
	for _, x := range []any{lowv3.Document{}, lowv2.Swagger{}, lowarazzo.Arazzo{}, lowoverlay.Overlay{}} {
		visit(reflect.TypeOf(x))
	}
}

func init() {
	harness.Warm = warmTypes
	harness.BeforeRun = func() {
		libopenapi.ClearAllCaches()
		simrt.DrainPools()
	}
}
