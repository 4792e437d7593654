package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"
)

func sameClass(a, b string) bool {
	return a == b || strings.HasPrefix(a, "data-race") && strings.HasPrefix(b, "data-race")
}

type schedT struct {
	Mode     int      `json:"mode"`
	Seed     uint64   `json:"seed"`
	CPUs     int      `json:"cpus,omitempty"`
	Mean     uint64   `json:"mean,omitempty"`
	PCT      []uint64 `json:"pct,omitempty"`
	Preempts []uint64 `json:"preempts,omitempty"`
	PickAt   []uint64 `json:"pick_at,omitempty"`
	PickIdx  []uint32 `json:"pick_idx,omitempty"`
}

// confirmAndMinimise replays a candidate in a fresh process and shrinks its case and schedule.
func confirmAndMinimise(c *caseFile, pre int) (*caseFile, error) {
	deadline := time.Now().Add(60 * time.Second)
	orig := *c
	orig.Scheds = nil // seed-driven strategies
	got := execCase(&orig)
	if got == nil || !sameClass(got.Class, c.Class) {
		// depends on what ran before in the same process
		orig.Prefix = pre
		got = execCase(&orig)
		if got == nil {
			return nil, fmt.Errorf("class %s of %s index %d (prefix %d)", c.Class, c.Scenario, c.Index, pre)
		}
	}
	cur := orig
	cur.Class, cur.Msg = got.Class, got.Msg
	want := got.Class
	tries := 0
	try := func(x caseFile) *caseFile {
		tries++
		g := execCase(&x)
		if g != nil && sameClass(g.Class, want) {
			return g
		}
		return nil
	}
	if orig.Prefix == 0 {
		// does it need the schedule at all?
		fifo := cur
		fifo.Scheds = []json.RawMessage{}
		// shrink the case; every candidate may fail under another strategy seed, so try a few
		doc := decode(cur.Case)
		improved := true
		for improved && time.Now().Before(deadline) {
			improved = false
			for _, cand := range reductions(doc) {
				if time.Now().After(deadline) {
					break
				}
				b, _ := json.Marshal(cand)
				x := cur
				x.Case = b
				x.Scheds = nil
				ok := false
				for k := 0; k < 3; k++ {
					if k > 0 {
						x.Seed = cur.Seed + uint64(k)*7919
					}
					if g := try(x); g != nil {
						cur.Case, cur.Seed, cur.Msg, cur.Class = b, x.Seed, g.Msg, g.Class
						ok = true
						break
					}
				}
				if ok {
					doc = decode(cur.Case)
					improved = true
					break
				}
			}
		}
	}
	// schedule: record, then drop decisions
	rec := execCase(&cur)
	if rec != nil && len(rec.Scheds) > 0 {
		scr := cur
		scr.Scheds = rec.Scheds
		if g := try(scr); g != nil {
			cur.Scheds = rec.Scheds
			cur.Msg = g.Msg
			min2 := time.Now().Add(30 * time.Second)
			for k := range cur.Scheds {
				var s schedT
				if json.Unmarshal(cur.Scheds[k], &s) != nil {
					continue
				}
				set := func(t schedT) bool {
					x := cur
					x.Scheds = append([]json.RawMessage(nil), cur.Scheds...)
					b, _ := json.Marshal(t)
					x.Scheds[k] = b
					if g := try(x); g != nil {
						cur.Scheds, cur.Msg = x.Scheds, g.Msg
						return true
					}
					return false
				}
				ddmin(len(s.Preempts), min2, func(keep []int) bool {
					t := s
					t.Preempts = nil
					for _, i := range keep {
						t.Preempts = append(t.Preempts, s.Preempts[i])
					}
					return set(t)
				})
				json.Unmarshal(cur.Scheds[k], &s)
				s2 := schedT{}
				json.Unmarshal(cur.Scheds[k], &s2)
				ddmin(len(s2.PickAt), min2, func(keep []int) bool {
					t := s2
					t.PickAt, t.PickIdx = nil, nil
					for _, i := range keep {
						t.PickAt = append(t.PickAt, s2.PickAt[i])
						t.PickIdx = append(t.PickIdx, s2.PickIdx[i])
					}
					return set(t)
				})
			}
		}
	}
	cur.Note = fmt.Sprintf("minimised with %d replays; original scenario index %d of VERIF_SEED base %d", tries, c.Index, c.Base)
	// the file must reproduce as written
	if g := execCase(&cur); g == nil || !sameClass(g.Class, want) {
		o := orig
		o.Class, o.Msg = got.Class, got.Msg
		o.Note = "not minimised"
		return &o, nil
	}
	return &cur, nil
}

// ddmin drops as many of n items as it can while ok(keep) holds.
func ddmin(n int, deadline time.Time, ok func(keep []int) bool) {
	keep := make([]int, n)
	for i := range keep {
		keep[i] = i
	}
	if n == 0 {
		return
	}
	if ok(nil) {
		return
	}
	chunk := (n + 1) / 2
	for chunk >= 1 && time.Now().Before(deadline) {
		dropped := false
		for lo := 0; lo < len(keep) && time.Now().Before(deadline); {
			hi := min(len(keep), lo+chunk)
			cand := append(append([]int(nil), keep[:lo]...), keep[hi:]...)
			if len(cand) < len(keep) && ok(cand) {
				keep = cand
				dropped = true
			} else {
				lo = hi
			}
		}
		if chunk == 1 && !dropped {
			break
		}
		if chunk > 1 {
			chunk = (chunk + 1) / 2
		} else if !dropped {
			break
		}
	}
}

func decode(b json.RawMessage) any {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var v any
	d.Decode(&v)
	return v
}

// reductions proposes smaller JSON values: drop array elements, lower numbers, clear booleans.
func reductions(v any) []any {
	var out []any
	var paths [][]any
	var collect func(p []any, x any)
	collect = func(p []any, x any) {
		paths = append(paths, append([]any(nil), p...))
		switch t := x.(type) {
		case map[string]any:
			var ks []string
			for k := range t {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				collect(append(p, k), t[k])
			}
		case []any:
			for i := range t {
				collect(append(p, i), t[i])
			}
		}
	}
	collect(nil, v)
	get := func(p []any) any {
		x := v
		for _, k := range p {
			switch kk := k.(type) {
			case string:
				x = x.(map[string]any)[kk]
			case int:
				x = x.([]any)[kk]
			}
		}
		return x
	}
	// arrays first
	for _, p := range paths {
		if a, ok := get(p).([]any); ok && len(a) > 0 {
			if len(a) > 3 {
				out = append(out, with(v, p, a[:len(a)/2]), with(v, p, a[len(a)/2:]))
			}
			for i := range a {
				b := append(append([]any(nil), a[:i]...), a[i+1:]...)
				out = append(out, with(v, p, b))
			}
		}
	}
	for _, p := range paths {
		last := ""
		if len(p) > 0 {
			last, _ = p[len(p)-1].(string)
		}
		switch t := get(p).(type) {
		case json.Number:
			if last == "seed" || strings.HasSuffix(last, "_seed") {
				continue
			}
			n, err := t.Int64()
			if err != nil || n <= 0 {
				continue
			}
			out = append(out, with(v, p, json.Number("0")))
			if n > 1 {
				out = append(out, with(v, p, json.Number(fmt.Sprint(n/2))))
				out = append(out, with(v, p, json.Number(fmt.Sprint(n-1))))
			}
		case bool:
			if t {
				out = append(out, with(v, p, false))
			}
		}
	}
	return out
}

// with copies v replacing the value at path p.
func with(v any, p []any, nv any) any {
	if len(p) == 0 {
		return nv
	}
	switch k := p[0].(type) {
	case string:
		m := v.(map[string]any)
		c := map[string]any{}
		for kk, x := range m {
			c[kk] = x
		}
		c[k] = with(m[k], p[1:], nv)
		return c
	case int:
		a := v.([]any)
		c := append([]any(nil), a...)
		c[k] = with(a[k], p[1:], nv)
		return c
	}
	return v
}
