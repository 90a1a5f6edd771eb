package main

import (
	"bytes"
	"encoding/gob"

	"github.com/hashicorp/hcl2/hcldec"
)

// Decoding with specifications that were serialised and read back.

// sendable tells whether a specification is made only of the parts that can be
// serialised: no expressions, functions or types to be decided later.
func sendable(j J) bool {
	switch v := j.(type) {
	case A:
		if len(v) > 0 {
			switch v[0] {
			case "expr", "xform", "dyn":
				return false
			}
		}
		for _, x := range v {
			if !sendable(x) {
				return false
			}
		}
	case O:
		for _, x := range v {
			if !sendable(x) {
				return false
			}
		}
	}
	return true
}

func sent(s hcldec.Spec) hcldec.Spec {
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(&s); err != nil {
		panic("encoding the specification: " + err.Error())
	}
	var ret hcldec.Spec
	if err := gob.NewDecoder(&buf).Decode(&ret); err != nil {
		panic("decoding the specification: " + err.Error())
	}
	return ret
}

func init() {
	replayers["decgob"] = func(r *runner, c O) {
		b, spec := c["body"].(A), c["spec"]
		if !sendable(spec) || hasPinned(spec) {
			r.Count("specifications that cannot be sent")
			return
		}
		src := bodySource(b, nil)
		key, input := src+" with "+specText(spec), O{"src": src, "spec": spec}
		got, _, p := decodeVia(b, spec, sent)
		if p != "" && lastPanicDep {
			r.Count("panics of the type library")
			return
		}
		if p != "" {
			r.Mismatch(key, input, "no panic", p)
			return
		}
		if !same(norm(got["ty"]), c["ty"]) {
			r.Mismatch(key, input, O{"implied type": c["ty"]}, got["ty"])
			return
		}
		if !same(norm(got["schema"]), norm(schemaSets(decSchema(c["schema"].(O))))) {
			r.Mismatch(key, input, O{"schema": c["schema"]}, got["schema"])
			return
		}
		if c["any"].(bool) {
			r.Count("left open")
			return
		}
		if got["e"] != c["e"] || got["pe"] != c["pe"] {
			r.Mismatch(key, input, O{"e": c["e"], "pe": c["pe"]}, O{"e": got["e"], "pe": got["pe"]})
			return
		}
		if !same(sortSets(norm(got["v"])), sortSets(c["v"])) {
			r.Mismatch(key, input, c["v"], got["v"])
			return
		}
		r.Count("spec " + spec.(A)[0].(string))
		r.Sample(input)
	}
	recorders["decgob"] = func(r *runner, n int) {
		for i := 0; i < n; {
			g := &decGen{bodyGen: bodyGen{rng: r.rng}}
			spec := norm(g.spec(3, false, map[string]int{}))
			if !sendable(spec) || hasPinned(spec) {
				continue
			}
			i++
			b := norm(g.body(spec)).(A)
			src := bodySource(b, nil)
			got, _, p := decodeVia(b, spec, sent)
			input := O{"src": src, "spec": spec}
			if p != "" && lastPanicDep {
				r.Count("panics of the type library")
				continue
			}
			if p != "" {
				r.Mismatch(src+" with "+specText(spec), input, "no panic", p)
				continue
			}
			delete(got, "nonconforming")
			delete(got, "schema")
			r.Count("spec " + spec.(A)[0].(string))
			r.Sample(input)
			r.Record(O{"spec": spec, "body": b, "got": got, "pinned": false, "src": src + "\nspec " + specText(spec)}, 2)
		}
	}
}
