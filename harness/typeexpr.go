package main

import (
	gojson "encoding/json"
	"strings"

	"github.com/hashicorp/hcl2/ext/typeexpr"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
)

// typeSeen reads a text as a type in both syntaxes.
func typeSeen(text string) (got O, bad string) {
	bad = guard(text, func() {
		out := func(ty cty.Type, diags hcl.Diagnostics) A {
			if diags.HasErrors() {
				for _, d := range diags {
					if d.Subject == nil || d.Subject.Filename != "t.hcl" {
						panic("error without a place in the source")
					}
				}
				return A{"err", A{"dyn"}}
			}
			return A{"ok", encType(ty)}
		}
		nat, diags := hclsyntax.ParseExpression([]byte(text), "t.hcl", hcl.InitialPos)
		got = O{"type": A{"err", A{"dyn"}}, "cons": A{"err", A{"dyn"}}}
		if !diags.HasErrors() {
			got["type"], got["cons"] = out(typeexpr.Type(nat)), out(typeexpr.TypeConstraint(nat))
		}
		q, _ := gojson.Marshal(text)
		f, diags := json.Parse([]byte(`{"t":`+string(q)+`}`), "t.hcl")
		if diags.HasErrors() {
			panic(diags.Error())
		}
		attrs, _ := f.Body.JustAttributes()
		ex := attrs["t"].Expr
		got["jtype"], got["jcons"] = out(typeexpr.Type(ex)), out(typeexpr.TypeConstraint(ex))
	})
	return
}

// typeText prints a type and reads it back.
func typeText(ty cty.Type) (text string, back bool, bad string) {
	bad = guard(ty.GoString(), func() {
		text = typeexpr.TypeString(ty)
		ex, diags := hclsyntax.ParseExpression([]byte(text), "t.hcl", hcl.InitialPos)
		if diags.HasErrors() {
			return
		}
		got, diags := typeexpr.TypeConstraint(ex)
		back = !diags.HasErrors() && got.Equals(ty)
		if ex, diags := typeexpr.Type(ex); !diags.HasErrors() && !ex.Equals(ty) {
			back = false
		}
	})
	return
}

// sameTypes compares outcomes, leaving open what the specification does.
func sameTypes(want, got O) bool {
	for k, w := range want {
		x, y := w.(A), norm(got[k]).(A)
		if x[0] == "any" {
			continue
		}
		if x[0] != y[0] || (x[0] == "ok" && !same(x[1], y[1])) {
			return false
		}
	}
	return true
}

func (g tokGen) typeText(d int) string {
	k := g.n(12)
	if d == 0 {
		k = g.n(4)
	}
	sp := func() string { return g.p("", "", "", " ", "\n") }
	switch k {
	case 0, 1, 2:
		return g.p("string", "number", "bool", "any")
	case 3:
		return g.p("string", "any", "foo", "list", "object", "tuple", "true", "null", "1", "\"string\"", "a.b", "string[0]", "(string)", "string()", "any()", "-1", "x(string)", "object(string)", "tuple({})", "object([])", "tuple(string)", "list()", "map(string, string)", "list(string...)", "object()", "[string]", "{a=string}")
	case 4, 5, 6:
		return g.p("list", "set", "map") + "(" + sp() + g.typeText(d-1) + g.p("", "", "", ",", "...") + sp() + ")"
	case 7, 8:
		var es []string
		for n := g.n(4); n > 0; n-- {
			es = append(es, sp()+g.typeText(d-1))
		}
		return "tuple([" + strings.Join(es, ",") + g.p("", "", ",") + sp() + "])"
	}
	var es []string
	for n := g.n(4); n > 0; n-- {
		name := g.p("a", "b", "list", "null", "for", "x-y", "z", "string")
		if g.n(12) == 0 {
			name = g.p("(a)", "\"a\"", "a.b", "1", "${a}", "true")
		}
		es = append(es, name+g.p("=", " = ", ":")+g.typeText(d-1))
	}
	return "object({" + g.p("", "\n") + strings.Join(es, g.p(",", ", ", "\n")) + g.p("", "\n") + "})"
}

func (g tokGen) anyType(d int) J {
	k := g.n(9)
	if d == 0 {
		k = g.n(4)
	}
	switch k {
	case 0, 1, 2, 3:
		return A{g.p("string", "number", "bool", "dyn")}
	case 4, 5:
		return A{g.p("list", "set", "map"), g.anyType(d - 1)}
	case 6:
		es := A{}
		for n := g.n(4); n > 0; n-- {
			es = append(es, g.anyType(d-1))
		}
		return A{"tuple", es}
	}
	o := O{}
	for n := g.n(4); n > 0; n-- {
		o[g.p("a", "b", "for", "list", "null", "string", "x-y", "z")] = g.anyType(d - 1)
	}
	return A{"object", o}
}

func init() {
	replayers["typeexpr"] = func(r *runner, c O) {
		text := charsText(strs(c["chars"]))
		if c["pool"] == "types" {
			ty := decType(c["t"])
			got, back, bad := typeText(ty)
			if bad != "" || got != text || !back {
				r.Mismatch(ty.GoString(), ty.GoString(), text, O{"text": got, "back": back, "bad": bad})
			}
		}
		got, bad := typeSeen(text)
		want := c["want"].(O)
		if bad != "" || !sameTypes(want, got) {
			r.Mismatch(text, text, want, O{"got": got, "bad": bad})
		}
		r.Count("constraint " + want["cons"].(A)[0].(string))
		r.Sample(O{"text": text, "got": got})
	}
	recorders["typeexpr"] = func(r *runner, n int) {
		g := tokGen{r}
		for r.cases < n {
			if g.n(3) == 0 {
				t := norm(g.anyType(3))
				text, back, bad := typeText(decType(t))
				rec := O{"kind": "type", "t": t, "got": O{"text": text + bad, "back": back}, "src": text}
				r.Sample(rec)
				r.Record(rec, 2)
				continue
			}
			cs := split(g.typeText(3))
			if g.n(8) == 0 {
				cs = g.mutText(cs)
			}
			if cs == nil {
				cs = []string{}
			}
			text := charsText(cs)
			if strings.Contains(text, "\r") || len(cs) > 150 {
				continue
			}
			got, bad := typeSeen(text)
			if bad != "" {
				got = O{"type": A{bad}, "cons": A{bad}, "jtype": A{bad}, "jcons": A{bad}}
			}
			rec := O{"kind": "text", "chars": cs, "got": got, "src": text}
			r.Sample(rec)
			r.Record(rec, 2)
		}
	}
}
