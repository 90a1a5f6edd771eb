package main

import (
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
)

// astOf dumps a parsed expression in the encoding of Grammar.tla.
func astOf(e hclsyntax.Expression, item *hclsyntax.AnonSymbolExpr) J {
	switch x := e.(type) {
	case *hclsyntax.LiteralValueExpr:
		return A{"lit", encVal(x.Val)}
	case *hclsyntax.TemplateExpr:
		parts := A{}
		for _, p := range x.Parts {
			if lit, ok := p.(*hclsyntax.LiteralValueExpr); ok && lit.Val.Type() == cty.String && !lit.Val.IsNull() {
				t := lit.Val.AsString()
				if t == "" {
					continue
				}
				if k := len(parts); k > 0 && parts[k-1].(A)[0] == "s" {
					t = parts[k-1].(A)[1].(string) + t
					parts = parts[:k-1]
				}
				parts = append(parts, A{"s", t})
				continue
			}
			parts = append(parts, A{"i", astOf(p, item)})
		}
		if len(parts) == 0 {
			return A{"lit", A{"str", ""}}
		}
		if len(parts) == 1 && parts[0].(A)[0] == "s" {
			return A{"lit", A{"str", parts[0].(A)[1]}}
		}
		return A{"tmpl", parts}
	case *hclsyntax.TemplateWrapExpr:
		return A{"wrap", astOf(x.Wrapped, item)}
	case *hclsyntax.TemplateJoinExpr:
		return A{"join", astOf(x.Tuple, item)}
	case *hclsyntax.ScopeTraversalExpr:
		return steps(A{"var", x.Traversal.RootName()}, x.Traversal[1:])
	case *hclsyntax.RelativeTraversalExpr:
		return steps(astOf(x.Source, item), x.Traversal)
	case *hclsyntax.IndexExpr:
		return A{"idx", astOf(x.Collection, item), astOf(x.Key, item)}
	case *hclsyntax.SplatExpr:
		return A{"splat", astOf(x.Source, item), astOf(x.Each, x.Item)}
	case *hclsyntax.AnonSymbolExpr:
		if x == item {
			return A{"item"}
		}
		return A{"wrong item"}
	case *hclsyntax.FunctionCallExpr:
		args := A{}
		for _, a := range x.Args {
			args = append(args, astOf(a, item))
		}
		return A{"call", x.Name, args, x.ExpandFinal}
	case *hclsyntax.ConditionalExpr:
		return A{"cond", astOf(x.Condition, item), astOf(x.TrueResult, item), astOf(x.FalseResult, item)}
	case *hclsyntax.BinaryOpExpr:
		return A{"bin", opText(x.Op), astOf(x.LHS, item), astOf(x.RHS, item)}
	case *hclsyntax.UnaryOpExpr:
		op := "?"
		if x.Op == hclsyntax.OpNegate {
			op = "-"
		} else if x.Op == hclsyntax.OpLogicalNot {
			op = "!"
		}
		return A{"un", op, astOf(x.Val, item)}
	case *hclsyntax.TupleConsExpr:
		xs := A{}
		for _, a := range x.Exprs {
			xs = append(xs, astOf(a, item))
		}
		return A{"tuple", xs}
	case *hclsyntax.ObjectConsExpr:
		xs := A{}
		for _, it := range x.Items {
			xs = append(xs, A{keyOf(it.KeyExpr, item), astOf(it.ValueExpr, item)})
		}
		return A{"obj", xs}
	case *hclsyntax.ObjectConsKeyExpr:
		return keyOf(x, item)
	case *hclsyntax.ForExpr:
		var k, c J = A{}, A{}
		if x.KeyExpr != nil {
			k = astOf(x.KeyExpr, item)
		}
		if x.CondExpr != nil {
			c = astOf(x.CondExpr, item)
		}
		return A{"for", x.KeyVar, x.ValVar, astOf(x.CollExpr, item), k, astOf(x.ValExpr, item), c, x.Group}
	}
	return A{"?"}
}

func steps(from J, t hcl.Traversal) J {
	for _, s := range t {
		switch s := s.(type) {
		case hcl.TraverseAttr:
			from = A{"attr", from, s.Name}
		case hcl.TraverseIndex:
			from = A{"idx", from, A{"lit", encVal(s.Key)}}
		default:
			from = A{"step?", from}
		}
	}
	return from
}

// keyOf tells literal names from expressions by evaluating without a scope.
func keyOf(e hclsyntax.Expression, item *hclsyntax.AnonSymbolExpr) J {
	k, ok := e.(*hclsyntax.ObjectConsKeyExpr)
	if !ok {
		return astOf(e, item)
	}
	if t, ok := k.Wrapped.(*hclsyntax.ScopeTraversalExpr); ok && len(t.Traversal) == 1 {
		v, diags := k.Value(nil)
		if !diags.HasErrors() && v.AsString() == t.Traversal.RootName() {
			return A{"name", t.Traversal.RootName()}
		}
	}
	if _, ok := k.Wrapped.(*hclsyntax.LiteralValueExpr); ok {
		v, diags := k.Value(nil)
		if !diags.HasErrors() && v.Type() == cty.String && !v.IsNull() {
			return A{"name", v.AsString()}
		}
	}
	return astOf(k.Wrapped, item)
}

func opText(op *hclsyntax.Operation) string {
	switch op {
	case hclsyntax.OpLogicalOr:
		return "||"
	case hclsyntax.OpLogicalAnd:
		return "&&"
	case hclsyntax.OpEqual:
		return "=="
	case hclsyntax.OpNotEqual:
		return "!="
	case hclsyntax.OpGreaterThan:
		return ">"
	case hclsyntax.OpGreaterThanOrEqual:
		return ">="
	case hclsyntax.OpLessThan:
		return "<"
	case hclsyntax.OpLessThanOrEqual:
		return "<="
	case hclsyntax.OpAdd:
		return "+"
	case hclsyntax.OpSubtract:
		return "-"
	case hclsyntax.OpMultiply:
		return "*"
	case hclsyntax.OpDivide:
		return "/"
	case hclsyntax.OpModulo:
		return "%"
	}
	return "?"
}

func bodyTree(b *hclsyntax.Body) J {
	attrs := A{}
	var list []*hclsyntax.Attribute
	for n, a := range b.Attributes {
		if n != a.Name {
			return A{"misnamed attribute"}
		}
		list = append(list, a)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].NameRange.Start.Byte < list[j].NameRange.Start.Byte })
	for _, a := range list {
		attrs = append(attrs, A{a.Name, astOf(a.Expr, nil)})
	}
	blocks := A{}
	for _, bl := range b.Blocks {
		ls := A{}
		for _, l := range bl.Labels {
			ls = append(ls, l)
		}
		blocks = append(blocks, A{bl.Type, ls, bodyTree(bl.Body)})
	}
	return A{attrs, blocks}
}

// tokenText joins tokens into source text; tight leaves out spaces where two
// tokens cannot merge.
func tokenText(toks []string, tight bool) string {
	var b strings.Builder
	solid := func(t string) bool { return t != "" && strings.Contains("()[]{},", t) }
	for i, t := range toks {
		if i > 0 {
			p := toks[i-1]
			switch {
			case p == "\n" || p == "#":
			case t == "\n":
			case tight && (solid(p) || solid(t)):
			case tight && (p == "." && isWord(t) || t == "." && isWord(p)):
			default:
				b.WriteByte(' ')
			}
		}
		switch t {
		case "#":
			if tight {
				b.WriteString("//}\n")
			} else {
				b.WriteString("# c ]\n")
			}
		case "/**/":
			b.WriteString("/* ) */")
		default:
			b.WriteString(t)
		}
	}
	return b.String()
}

func isWord(t string) bool { return t[0] >= 'a' && t[0] <= 'z' }

func parseTokens(mode, src string) J {
	var got J
	p := guard(src, func() {
		if mode == "expr" {
			e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.Pos{Line: 1, Column: 1})
			if diags.HasErrors() {
				got = A{"err"}
			} else {
				got = A{"ok", astOf(e, nil)}
			}
		} else {
			f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.Pos{Line: 1, Column: 1})
			if diags.HasErrors() {
				got = A{"err"}
			} else {
				got = A{"ok", bodyTree(f.Body.(*hclsyntax.Body))}
			}
		}
	})
	if p != "" {
		return A{p}
	}
	return got
}

func strs(j J) []string {
	var out []string
	if a, ok := j.(A); ok {
		for _, x := range a {
			out = append(out, x.(string))
		}
	}
	return out
}

type tokGen struct{ r *runner }

func (g tokGen) n(k int) int           { return g.r.rng.Intn(k) }
func (g tokGen) p(xs ...string) string { return pick(g.r.rng, xs...) }

// layout inserts newlines and comments; nl tells whether newlines are
// insignificant here.
func (g tokGen) ws(in bool) []string {
	if g.n(12) == 0 {
		return []string{"/**/"}
	}
	if in && g.n(8) == 0 {
		return []string{g.p("\n", "#")}
	}
	return nil
}

func (g tokGen) expr(d int, in bool) []string {
	var out []string
	add := func(xs ...string) { out = append(out, xs...) }
	sub := func(in bool) { add(g.expr(d-1, in)...) }
	add(g.ws(in)...)
	defer func() { out = append(out, g.ws(in)...) }()
	if d <= 0 {
		add(g.p("a", "b", "c", "1", "2", "2.5", `"s"`, "true", "null", "false", `""`, "for", "in", "if"))
		return out
	}
	switch g.n(14) {
	case 0, 1, 2:
		sub(in)
		add(g.p("+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||"))
		sub(in)
	case 3:
		add(g.p("-", "!"))
		sub(in)
	case 4:
		sub(in)
		add("?")
		sub(in)
		add(":")
		sub(in)
	case 5:
		add("(")
		sub(true)
		add(")")
	case 6, 7:
		sub(in)
		for k := g.n(3) + 1; k > 0; k-- {
			switch g.n(6) {
			case 0, 1:
				add(".", g.p("a", "k", "for"))
			case 2:
				add(".", g.p("0", "1", "0", "1", "0.5"))
			case 3:
				add("[")
				sub(true)
				add("]")
			case 4:
				add(".", "*")
			case 5:
				add("[", "*", "]")
			}
		}
	case 8:
		add(g.p("f", "g", "true"), "(")
		for k := g.n(3); k > 0; k-- {
			sub(true)
			if k > 1 || g.n(4) == 0 {
				add(",")
			} else if g.n(4) == 0 {
				add("...")
			}
		}
		add(")")
	case 9:
		add("[")
		for k := g.n(3); k > 0; k-- {
			sub(true)
			if k > 1 || g.n(4) == 0 {
				add(",")
			}
		}
		add("]")
	case 10, 11:
		add("{")
		for k := g.n(4); k > 0; k-- {
			if g.n(3) == 0 {
				add("\n")
			}
			if g.n(2) == 0 {
				add(g.p("a", "b", `"k"`, "1"))
			} else {
				sub(false)
			}
			add(g.p("=", ":"))
			sub(false)
			if k > 1 || g.n(3) == 0 {
				add(g.p(",", "\n", ",", "#"))
			}
		}
		add("}")
	case 12:
		add("[", "for", "v")
		if g.n(2) == 0 {
			add(",", "w")
		}
		add("in")
		sub(true)
		add(":")
		sub(true)
		if g.n(3) == 0 {
			add("if")
			sub(true)
		}
		add("]")
	case 13:
		add("{")
		if g.n(3) == 0 {
			add("\n")
		}
		add("for", "v")
		if g.n(2) == 0 {
			add(",", "w")
		}
		add("in")
		sub(true)
		add(":")
		sub(true)
		add("=>")
		sub(true)
		if g.n(3) == 0 {
			add("...")
		}
		if g.n(3) == 0 {
			add("if")
			sub(true)
		}
		add("}")
	}
	return out
}

func (g tokGen) body(d int) []string {
	var out []string
	for k := g.n(4); k > 0; k-- {
		if g.n(5) == 0 {
			out = append(out, g.p("\n", "#", "/**/"))
		}
		if g.n(2) == 0 || d <= 0 {
			out = append(out, g.p("a", "b", "c", "d", "for"), "=")
			out = append(out, g.expr(g.n(3), false)...)
			out = append(out, g.p("\n", "\n", "#"))
			continue
		}
		out = append(out, g.p("a", "b", "t"))
		for l := g.n(3); l > 0; l-- {
			out = append(out, g.p("a", `"s"`, `""`, "null"))
		}
		out = append(out, "{")
		if g.n(4) == 0 {
			out = append(out, g.p("a", "b"), "=")
			out = append(out, g.expr(g.n(3), false)...)
		} else if g.n(5) > 0 {
			out = append(out, g.p("\n", "#"))
			out = append(out, g.body(d-1)...)
		}
		out = append(out, "}", g.p("\n", "\n", "#"))
	}
	return out
}

var mutTokens = []string{"a", "b", "1", "0.5", `"s"`, "+", "-", "*", "==", "&&", "||", "!", "?", ":", ".", ",", "=", "(", ")", "[", "]", "{", "}", "...", "=>", "\n", "#", "/**/", "for", "in", "if"}

func (g tokGen) mutate(t []string) []string {
	t = append([]string{}, t...)
	if len(t) == 0 {
		return t
	}
	i := g.n(len(t))
	switch g.n(5) {
	case 0:
		t = append(t[:i], t[i+1:]...)
	case 1:
		t[i] = mutTokens[g.n(len(mutTokens))]
	case 2:
		t = append(t[:i], append([]string{mutTokens[g.n(len(mutTokens))]}, t[i:]...)...)
	case 3:
		j := g.n(len(t))
		t[i], t[j] = t[j], t[i]
	case 4:
		t = t[:i]
	}
	return t
}

func recordGrammar(mode string) func(*runner, int) {
	return func(r *runner, n int) {
		g := tokGen{r}
		for r.cases < n {
			var toks []string
			if mode == "expr" {
				toks = g.expr(1+g.n(3), true)
			} else {
				toks = g.body(2)
			}
			if len(toks) > 60 {
				continue
			}
			if g.n(3) == 0 {
				toks = g.mutate(toks)
			}
			src := tokenText(toks, g.n(2) == 0)
			got := parseTokens(mode, src)
			if got.(A)[0] == "ok" {
				r.Count("accepted")
			} else {
				r.Count("rejected")
			}
			r.Sample(src)
			if toks == nil {
				toks = []string{}
			}
			r.Record(O{"mode": mode, "toks": toks, "got": got, "src": src}, 2)
		}
	}
}

func init() {
	recorders["grammar_expr"] = recordGrammar("expr")
	recorders["grammar_body"] = recordGrammar("body")
	replayers["grammar"] = func(r *runner, c O) {
		toks := strs(c["toks"])
		mode := c["mode"].(string)
		for _, tight := range []bool{false, true} {
			src := tokenText(toks, tight)
			got := norm(parseTokens(mode, src))
			if !same(got, c["want"]) {
				r.Mismatch(src, src, c["want"], got)
			}
		}
		if c["want"].(A)[0] == "ok" {
			r.Count("accepted")
			r.Sample(tokenText(toks, false))
		} else {
			r.Count("rejected")
		}
	}
}
