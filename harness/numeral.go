package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	hjson "github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
)

// the ways a written number can become a value
var numRoutes = []string{"nat", "json", "jtmpl", "conv", "wr", "struct", "pack", "body"}

func mustDiags(diags hcl.Diagnostics) {
	if diags.HasErrors() {
		panic(diags.Error())
	}
}

func nativeExprValue(src string) cty.Value {
	e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.Pos{Line: 1, Column: 1})
	mustDiags(diags)
	v, diags := e.Value(nil)
	mustDiags(diags)
	return v
}

func bodyAttrValue(b hcl.Body) cty.Value {
	attrs, diags := b.JustAttributes()
	mustDiags(diags)
	v, diags := attrs["a"].Expr.Value(&hcl.EvalContext{})
	mustDiags(diags)
	return v
}

func numberBy(route, text string) cty.Value {
	native := func(src string) hcl.Body {
		f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.Pos{Line: 1, Column: 1})
		mustDiags(diags)
		return f.Body
	}
	fromJSON := func(src string) cty.Value {
		f, diags := hjson.Parse([]byte(src), "t.json")
		mustDiags(diags)
		return bodyAttrValue(f.Body)
	}
	switch route {
	case "json":
		return fromJSON(`{"a": ` + text + `}`)
	case "jtmpl":
		return fromJSON(`{"a": "${` + text + `}"}`)
	case "conv":
		v, diags := hcldec.Decode(native(`a = "`+text+"\"\n"), &hcldec.AttrSpec{Name: "a", Type: cty.Number}, nil)
		mustDiags(diags)
		return v
	case "wr":
		f := hclwrite.NewEmptyFile()
		f.Body().SetAttributeValue("a", nativeExprValue(text))
		var buf bytes.Buffer
		f.WriteTo(&buf)
		return bodyAttrValue(native(buf.String()))
	case "struct":
		var s struct {
			A cty.Value `hcl:"a"`
		}
		mustDiags(gohcl.DecodeBody(native("a = "+text+"\n"), nil, &s))
		return s.A
	case "pack":
		pb, diags := hclpack.PackNativeFile([]byte("a = "+text+"\n"), "t.hcl", hcl.Pos{Line: 1, Column: 1})
		mustDiags(diags)
		enc, err := json.Marshal(pb)
		if err != nil {
			panic(err)
		}
		back := &hclpack.Body{}
		if err := json.Unmarshal(enc, back); err != nil {
			panic(err)
		}
		return bodyAttrValue(back)
	case "body":
		return bodyAttrValue(native("a = " + text + "\n"))
	}
	return nativeExprValue(text)
}

func chars(s string) A {
	a := A{}
	for _, c := range s {
		a = append(a, string(c))
	}
	return a
}

func unchars(j J) string {
	var b strings.Builder
	for _, c := range j.(A) {
		b.WriteString(c.(string))
	}
	return b.String()
}

var numProbes = map[string]hcl.Expression{
	"eq": mustExpr("a == b"), "lt": mustExpr("a < b"), "gt": mustExpr("a > b"), "text": mustExpr(`"n${a}"`),
	"ne": mustExpr("a != b"), "le": mustExpr("a <= b"), "ge": mustExpr("a >= b"),
}

// compareNumbers compares two written numbers with the operators of the
// language and writes the first.
func compareNumbers(a, ra, b, rb string) (O, string) {
	got := O{}
	p := guard(a+" and "+b, func() {
		ctx := &hcl.EvalContext{Variables: map[string]cty.Value{"a": numberBy(ra, a), "b": numberBy(rb, b)}}
		for k, e := range numProbes {
			v, diags := e.Value(ctx)
			mustDiags(diags)
			if k == "text" {
				got[k] = chars(strings.TrimPrefix(v.AsString(), "n"))
				continue
			}
			got[k] = v.True()
		}
		if got["ne"] == got["eq"] || got["le"] == got["gt"] || got["ge"] == got["lt"] {
			panic(fmt.Sprintf("comparisons contradict: %v", got))
		}
		delete(got, "ne")
		delete(got, "le")
		delete(got, "ge")
		if t := got["text"].(A); len(t) == 2 && t[0] == "-" && t[1] == "0" {
			got["text"] = A{"0"} // the sign of zero is left open
		}
	})
	return got, p
}

func init() {
	replayers["numeral"] = func(r *runner, c O) {
		a, b := unchars(c["a"]), unchars(c["b"])
		ra, rb := numRoutes[r.rng.Intn(len(numRoutes))], numRoutes[r.rng.Intn(len(numRoutes))]
		cmp := jint(c["cmp"])
		want := O{"eq": cmp == 0, "lt": cmp < 0, "gt": cmp > 0, "text": c["text"]}
		input := O{"a": a, "b": b, "a by": ra, "b by": rb}
		got, p := compareNumbers(a, ra, b, rb)
		if p != "" {
			r.Mismatch(a+" and "+b, input, want, p)
			return
		}
		if !same(norm(got), norm(want)) {
			r.Mismatch(a+" and "+b, input, want, got)
			return
		}
		r.Count(ra + " with " + rb)
		r.Sample(input)
	}
	recorders["numeral"] = func(r *runner, n int) {
		for r.cases < n {
			a := randNumeral(r.rng)
			b := a
			switch r.rng.Intn(4) {
			case 0:
				b = randNumeral(r.rng)
			case 1, 2:
				b = nudge(r.rng, a)
			}
			ra, rb := numRoutes[r.rng.Intn(len(numRoutes))], numRoutes[r.rng.Intn(len(numRoutes))]
			input := O{"a": a, "b": b, "a by": ra, "b by": rb}
			got, p := compareNumbers(a, ra, b, rb)
			if p != "" {
				r.Mismatch(a+" and "+b, input, "numbers", p)
				continue
			}
			r.Count("by " + ra)
			r.Count(fmt.Sprintf("equal %v", got["eq"]))
			r.Sample(input)
			got["a"], got["b"], got["src"] = chars(a), chars(b), a+" by "+ra+", "+b+" by "+rb
			r.Record(got, 2)
		}
	}
}

func randDigits(rng *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(rng.Intn(10))
		if rng.Intn(4) == 0 {
			b[i] = '0'
		}
	}
	return string(b)
}

// randNumeral writes a number of up to about a hundred digits in a form that
// both syntaxes have.
func randNumeral(rng *rand.Rand) string {
	size := []int{1, 3, 8, 20, 40}[rng.Intn(5)]
	t := strings.TrimLeft(randDigits(rng, rng.Intn(size)+1), "0")
	if t == "" {
		t = "0"
	}
	if rng.Intn(3) > 0 {
		t += "." + randDigits(rng, rng.Intn(size)+1)
	}
	if rng.Intn(3) == 0 {
		t += pick(rng, "e", "E", "e+", "E+", "e-", "E-") + fmt.Sprint(rng.Intn([]int{3, 30}[rng.Intn(2)]))
	}
	if rng.Intn(4) == 0 {
		t = "-" + t
	}
	return t
}

// nudge writes the same number differently, or changes its last digit.
func nudge(rng *rand.Rand, t string) string {
	mant, exp := t, ""
	if i := strings.IndexAny(t, "eE"); i >= 0 {
		mant, exp = t[:i], t[i:]
	}
	switch rng.Intn(3) {
	case 0: // one zero more
		if strings.Contains(mant, ".") {
			return mant + "0" + exp
		}
		return mant + ".0" + exp
	case 1: // move the point
		if exp == "" && strings.Contains(mant, ".") {
			n := len(mant) - strings.Index(mant, ".") - 1
			neg := strings.HasPrefix(mant, "-")
			d := strings.TrimLeft(strings.Replace(strings.TrimPrefix(mant, "-"), ".", "", 1), "0")
			if d == "" {
				d = "0"
			}
			if neg {
				d = "-" + d
			}
			return d + "e-" + fmt.Sprint(n)
		}
	}
	last := mant[len(mant)-1]
	return mant[:len(mant)-1] + string('0'+(last-'0'+1)%10) + exp
}
