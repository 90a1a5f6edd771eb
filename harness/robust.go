package main

import (
	"fmt"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hclwrite"
)

// inside tells whether a range lies within the len bytes from base.
func inside(r hcl.Range, base, len int) bool {
	return base <= r.Start.Byte && r.Start.Byte <= r.End.Byte && r.End.Byte <= base+len && r.Start.Line >= 1 && r.Start.Column >= 1 && r.End.Line >= r.Start.Line
}

func diagsInside(diags hcl.Diagnostics, base, len int) string {
	for _, d := range diags {
		if d.Subject == nil {
			return "diagnostic without a range: " + d.Summary
		}
		if !inside(*d.Subject, base, len) {
			return fmt.Sprintf("diagnostic outside the source: %s %s (bytes %d-%d)", d.Summary, d.Subject, d.Subject.Start.Byte, d.Subject.End.Byte)
		}
		if d.Context != nil && !inside(*d.Context, base, len) {
			return fmt.Sprintf("context outside the source: %s %s", d.Summary, d.Context)
		}
	}
	return ""
}

func nodesInside(n hclsyntax.Node, base, len int) string {
	bad := ""
	hclsyntax.VisitAll(n, func(n hclsyntax.Node) hcl.Diagnostics {
		switch n.(type) {
		case hclsyntax.Attributes, hclsyntax.Blocks:
			return nil // groups without a range of their own
		}
		if !inside(n.Range(), base, len) {
			bad = fmt.Sprintf("%T with range %s (bytes %d-%d)", n, n.Range(), n.Range().Start.Byte, n.Range().End.Byte)
		}
		return nil
	})
	return bad
}

// useBody reads everything from a body.
func useBody(b hcl.Body) {
	b.Content(&hcl.BodySchema{})
	_, rem, _ := b.PartialContent(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "a", Required: true}},
		Blocks: []hcl.BlockHeaderSchema{{Type: "a"}, {Type: "b", LabelNames: []string{"x"}}}})
	rem.JustAttributes()
	attrs, _ := b.JustAttributes()
	for _, a := range attrs {
		useExpr(a.Expr)
	}
	b.MissingItemRange()
}

func useExpr(e hcl.Expression) {
	e.Variables()
	e.Value(nil)
	e.Value(&hcl.EvalContext{})
	e.Range()
	e.StartRange()
	hcl.AbsTraversalForExpr(e)
	hcl.ExprAsKeyword(e)
	hcl.ExprList(e)
	hcl.ExprMap(e)
	hcl.ExprCall(e)
}

// robust tries every way of parsing a text. It returns what went wrong.
func robust(src string) (bad string) {
	var entry string
	try := func(name string, f func() string) {
		if bad != "" {
			return
		}
		entry = name
		lastPanicDep = false
		if p := guard(name+": "+src, func() { bad = f() }); p != "" && !lastPanicDep {
			bad = p
		}
		if bad != "" {
			bad = name + ": " + bad
		}
	}
	_ = entry
	b := []byte(src)
	for _, start := range []hcl.Pos{{Line: 1, Column: 1}, {Line: 3, Column: 5, Byte: 7}} {
		start := start
		try("configuration", func() string {
			f, diags := hclsyntax.ParseConfig(b, "t.hcl", start)
			if f == nil || f.Body == nil {
				return "no body"
			}
			if s := diagsInside(diags, start.Byte, len(b)); s != "" {
				return s
			}
			if s := nodesInside(f.Body.(*hclsyntax.Body), start.Byte, len(b)); s != "" {
				return s
			}
			useBody(f.Body)
			return ""
		})
		try("expression", func() string {
			e, diags := hclsyntax.ParseExpression(b, "t.hcl", start)
			if e == nil {
				return "no expression"
			}
			if s := diagsInside(diags, start.Byte, len(b)); s != "" {
				return s
			}
			if s := nodesInside(e, start.Byte, len(b)); s != "" {
				return s
			}
			useExpr(e)
			return ""
		})
		try("template", func() string {
			e, diags := hclsyntax.ParseTemplate(b, "t.hcl", start)
			if e == nil {
				return "no template"
			}
			if s := diagsInside(diags, start.Byte, len(b)); s != "" {
				return s
			}
			if s := nodesInside(e, start.Byte, len(b)); s != "" {
				return s
			}
			useExpr(e)
			return ""
		})
		try("traversal", func() string {
			t, diags := hclsyntax.ParseTraversalAbs(b, "t.hcl", start)
			if s := diagsInside(diags, start.Byte, len(b)); s != "" {
				return s
			}
			if !diags.HasErrors() {
				t.RootName()
				t.TraverseAbs(&hcl.EvalContext{})
				if !inside(t.SourceRange(), start.Byte, len(b)) {
					return "range " + t.SourceRange().String()
				}
			}
			return ""
		})
	}
	try("JSON", func() string {
		f, diags := json.Parse(b, "t.json")
		if f == nil || f.Body == nil {
			return "no body"
		}
		if s := diagsInside(diags, 0, len(b)); s != "" {
			return s
		}
		useBody(f.Body)
		return ""
	})
	try("rewriting", func() string {
		_, d0 := hclsyntax.ParseConfig(b, "t.hcl", hcl.Pos{Line: 1, Column: 1})
		f, diags := hclwrite.ParseConfig(b, "t.hcl", hcl.Pos{Line: 1, Column: 1})
		if s := diagsInside(diags, 0, len(b)); s != "" {
			return s
		}
		if d0.HasErrors() != diags.HasErrors() {
			return fmt.Sprintf("parser: %v; writer: %v", d0, diags)
		}
		if !diags.HasErrors() {
			f.Bytes()
		}
		return ""
	})
	try("formatting", func() string {
		hclwrite.Format(b)
		return ""
	})
	return bad
}

func init() {
	front := replayers["front"]
	replayers["robust"] = func(r *runner, c O) {
		front(r, c)
		src := charsText(strs(c["chars"]))
		if bad := robust(src); bad != "" {
			r.Mismatch(src, O{"src": src}, "a result with ranges inside the source", bad)
		}
	}
}
