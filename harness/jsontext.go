package main

import (
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
)

// jsonTree reads a JSON expression back as the value that was written.
func jsonTree(e hcl.Expression) J {
	if kvs, diags := hcl.ExprMap(e); !diags.HasErrors() {
		out := A{}
		for _, kv := range kvs {
			k, _ := kv.Key.Value(nil)
			out = append(out, A{k.AsString(), jsonTree(kv.Value)})
		}
		return A{"o", out}
	}
	if es, diags := hcl.ExprList(e); !diags.HasErrors() {
		out := A{}
		for _, x := range es {
			out = append(out, jsonTree(x))
		}
		return A{"a", out}
	}
	v, diags := e.Value(nil)
	switch {
	case diags.HasErrors():
		return A{"error", diags.Error()}
	case v.IsNull():
		return A{"z"}
	case v.Type() == cty.String:
		return A{"s", v.AsString()}
	case v.Type() == cty.Number:
		return A{"n", encVal(v)}
	case v.Type() == cty.Bool:
		return A{"t", v.True()}
	}
	return A{"?"}
}

func jsonObserve(src string) J {
	var got J
	p := guard(src, func() {
		f, diags := json.Parse([]byte(src), "t.json")
		if bad := diagsInside(diags, 0, len(src)); bad != "" {
			got = A{bad}
			return
		}
		if diags.HasErrors() {
			got = A{"err"}
			return
		}
		attrs, diags := f.Body.JustAttributes()
		if diags.HasErrors() {
			got = A{"ok"}
			return
		}
		var list []*hcl.Attribute
		for _, a := range attrs {
			list = append(list, a)
		}
		sort.Slice(list, func(i, j int) bool { return list[i].NameRange.Start.Byte < list[j].NameRange.Start.Byte })
		out := A{}
		for _, a := range list {
			out = append(out, A{a.Name, jsonTree(a.Expr)})
		}
		got = A{"ok", A{"o", out}}
	})
	if p != "" {
		return A{p}
	}
	return ascii(norm(got))
}

// jsonMatches compares an observed value with a wanted one that may hold
// numbers the specification does not name.
func jsonMatches(w, g A) bool {
	if w[0] != g[0] {
		return false
	}
	switch w[0] {
	case "n":
		return w[1].(A)[0] == "any" || same(w[1], g[1])
	case "a", "o":
		ws, _ := w[1].(A)
		gs, _ := g[1].(A)
		if len(ws) != len(gs) {
			return false
		}
		for i := range ws {
			a, b := ws[i].(A), gs[i].(A)
			if w[0] == "o" {
				if a[0] != b[0] {
					return false
				}
				a, b = a[1].(A), b[1].(A)
			}
			if !jsonMatches(a, b) {
				return false
			}
		}
		return true
	}
	return same(w, g)
}

func (g tokGen) jsonWs() string {
	return g.p("", "", "", "", " ", "\n", "\t", "\r\n", "  ")
}

func (g tokGen) jsonStr() string {
	var b strings.Builder
	for k := g.n(4); k > 0; k-- {
		b.WriteString(g.p("a", "b", "x y", "é", "世", "\\n", "\\\"", "\\\\", "\\/", "\\t", "\\u0041", "\\u00e9", "\\u007B", "$", "{", "//", "\\b", "\\f", "#", "'", "${a}", "%{"))
	}
	return "\"" + b.String() + "\""
}

func (g tokGen) jsonVal(d int) string {
	k := g.n(8)
	if d == 0 {
		k = 3 + g.n(5)
	}
	switch k {
	case 0, 1:
		var parts []string
		for k := g.n(4); k > 0; k-- {
			parts = append(parts, g.jsonWs()+g.jsonVal(d-1)+g.jsonWs())
		}
		return "[" + strings.Join(parts, ",") + g.jsonWs() + "]"
	case 2, 3:
		if d == 0 {
			return "{}"
		}
		return g.jsonObj(d)
	case 4:
		return g.jsonStr()
	case 5:
		return g.p("0", "1", "-1", "12", "1.5", "-0.25", "1e2", "1E+2", "25e-2", "100", "123456", "0.125", "7", "1e0", "-3.5e1", "0.1", "12345678901234567890")
	default:
		return g.p("true", "false", "null", `"s"`)
	}
}

func (g tokGen) jsonObj(d int) string {
	var parts []string
	for k := g.n(4); k > 0; k-- {
		key := g.p(`"a"`, `"b"`, `"c"`, `"d"`, g.jsonStr())
		parts = append(parts, g.jsonWs()+key+g.jsonWs()+":"+g.jsonWs()+g.jsonVal(d-1)+g.jsonWs())
	}
	return "{" + strings.Join(parts, ",") + g.jsonWs() + "}"
}

var jsonMut = []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "u", "n", "1", "0", "-", "+", ".", "e", "t", " ", "\n", ";", "=", "#", "/", "<ff>", "<e2>", "<pre>", "a", "'"}

func init() {
	replayers["json"] = func(r *runner, c O) {
		src := charsText(strs(c["chars"]))
		want := c["want"].(A)
		got := jsonObserve(src).(A)
		ok := want[0] == got[0]
		if ok && len(want) == 2 {
			ok = len(got) == 2 && jsonMatches(want[1].(A), got[1].(A))
		}
		if !ok {
			r.Mismatch(src, src, want, got)
		}
		r.Count("parse " + want[0].(string))
		r.Sample(src)
	}
	recorders["json"] = func(r *runner, n int) {
		g := tokGen{r}
		for r.cases < n {
			src := g.jsonWs() + g.p(g.jsonObj(3), g.jsonObj(3), g.jsonObj(2), g.jsonVal(2)) + g.jsonWs()
			cs := split(src)
			if g.n(3) == 0 {
				for k := 1 + g.n(2); k > 0 && len(cs) > 0; k-- {
					i := g.n(len(cs))
					switch g.n(4) {
					case 0:
						cs = append(cs[:i:i], cs[i+1:]...)
					case 1:
						cs[i] = jsonMut[g.n(len(jsonMut))]
					case 2:
						cs = append(cs[:i:i], append([]string{jsonMut[g.n(len(jsonMut))]}, cs[i:]...)...)
					case 3:
						cs = cs[:i]
					}
				}
			}
			if len(cs) > 150 {
				continue
			}
			if cs == nil {
				cs = []string{}
			}
			text := charsText(cs)
			got := jsonObserve(text)
			r.Count(got.(A)[0].(string))
			r.Sample(text)
			r.Record(O{"chars": cs, "got": got, "src": text}, 2)
		}
	}
}
