package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	hcljson "github.com/hashicorp/hcl2/hcl/json"
)

func staticPath(e hcl.Expression) J {
	t, diags := hcl.AbsTraversalForExpr(e)
	if diags.HasErrors() {
		return A{}
	}
	return encPath(t)
}

// observeStatic applies every static analysis to an expression.
func observeStatic(e hcl.Expression) J {
	no := A{"no"}
	out := O{"path": staticPath(e), "kw": hcl.ExprAsKeyword(e), "call": no, "list": no, "map": no}
	if c, diags := hcl.ExprCall(e); !diags.HasErrors() {
		args := A{}
		for _, a := range c.Arguments {
			args = append(args, staticPath(a))
		}
		out["call"] = A{"yes", c.Name, args}
	}
	if es, diags := hcl.ExprList(e); !diags.HasErrors() {
		l := A{}
		for _, x := range es {
			l = append(l, staticPath(x))
		}
		out["list"] = A{"yes", l}
	}
	if kvs, diags := hcl.ExprMap(e); !diags.HasErrors() {
		l := A{}
		for _, kv := range kvs {
			l = append(l, A{staticPath(kv.Key), staticPath(kv.Value)})
		}
		out["map"] = A{"yes", l}
	}
	return out
}

// travLaws checks operations on an absolute traversal against each other
// and returns the outcome of resolving it.
func travLaws(t hcl.Traversal, ctx *hcl.EvalContext) (J, string) {
	enc := jstr(encPath(t))
	outcome := func(f func(ctx *hcl.EvalContext) J) J { return f(ctx) }
	val := outcome(func(ctx *hcl.EvalContext) J {
		v, diags := t.TraverseAbs(ctx)
		if diags.HasErrors() {
			return A{"err"}
		}
		return A{"ok", encVal(v)}
	})
	if t.IsRelative() {
		return val, "an absolute path claims to be relative"
	}
	sp := t.SimpleSplit()
	v, diags := sp.Traverse(ctx)
	got := J(A{"err"})
	if !diags.HasErrors() {
		got = A{"ok", encVal(v)}
	}
	if !same(norm(got), norm(val)) {
		return val, "split path resolves to " + jstr(got) + " rather than " + jstr(val)
	}
	if len(sp.Abs) != 1 || sp.RootName() != t.RootName() {
		return val, "split path has a different root"
	}
	if jstr(encPath(sp.Join())) != enc {
		return val, "joining the split path gives " + jstr(encPath(sp.Join()))
	}
	for k := 1; k <= len(t); k++ {
		if !t[k:].IsRelative() {
			return val, "the steps of a path claim to be absolute"
		}
		j := hcl.TraversalJoin(t[:k], t[k:])
		if jstr(encPath(j)) != enc {
			return val, fmt.Sprintf("joining the path cut at %d gives %s", k, jstr(encPath(j)))
		}
		a, d1 := t[:k].TraverseAbs(ctx)
		if d1.HasErrors() {
			continue
		}
		b, d2 := t[k:].TraverseRel(a)
		g := J(A{"err"})
		if !d2.HasErrors() {
			g = A{"ok", encVal(b)}
		}
		if !same(norm(g), norm(val)) {
			return val, fmt.Sprintf("resolving in two parts (cut at %d) gives %s rather than %s", k, jstr(g), jstr(val))
		}
		// two different continuations of one path must not share storage
		x := append(hcl.TraversalJoin(t[:k], nil), hcl.TraverseAttr{Name: "p1"})
		y := append(hcl.TraversalJoin(t[:k], nil), hcl.TraverseAttr{Name: "p2"})
		if x[k].(hcl.TraverseAttr).Name != "p1" || y[k].(hcl.TraverseAttr).Name != "p2" {
			return val, "two joined paths share storage"
		}
	}
	for _, c := range []*hcl.EvalContext{nil, {}, (&hcl.EvalContext{}).NewChild()} {
		if _, diags := t.TraverseAbs(c); !diags.HasErrors() {
			return val, "a path resolves in an empty scope"
		}
	}
	return val, ""
}

// relLaw compares the relative reading of an expression with the absolute one.
func relLaw(e hcl.Expression) string {
	abs, d1 := hcl.AbsTraversalForExpr(e)
	rel, d2 := hcl.RelTraversalForExpr(e)
	if d1.HasErrors() != d2.HasErrors() || len(abs) != len(rel) {
		return "relative and absolute reading of the expression differ"
	}
	if len(abs) == 0 {
		return ""
	}
	if !rel.IsRelative() {
		return "relative reading is not relative"
	}
	a, ok := rel[0].(hcl.TraverseAttr)
	if !ok || a.Name != abs.RootName() {
		return "relative reading does not start with the root name"
	}
	again, _ := hcl.AbsTraversalForExpr(e)
	if again.IsRelative() {
		return "reading an expression relatively changed it"
	}
	root := hcl.Traversal{hcl.TraverseRoot{Name: "r"}}
	e1 := jstr(encPath(hcl.TraversalJoin(root, rel)))
	e2 := jstr(encPath(append(hcl.Traversal{hcl.TraverseRoot{Name: "r"}, hcl.TraverseAttr{Name: abs.RootName()}}, abs[1:]...)))
	if e1 != e2 {
		return "relative reading has other steps"
	}
	return ""
}

func textSeen(src string, frames A) (J, string) {
	out := O{"path": A{}, "pval": A{"err"}, "an": A{}, "val": A{"err"}}
	bad := ""
	pos := hcl.Pos{Line: 1, Column: 1}
	p := guard(src, func() {
		ctx := evalCtx(frames)
		if t, diags := hclsyntax.ParseTraversalAbs([]byte(src), "t.hcl", pos); !diags.HasErrors() {
			out["path"] = encPath(t)
			out["pval"], bad = travLaws(t, ctx)
		} else if b := diagsInside(diags, 0, len(src)); b != "" {
			bad = b
		}
		if e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", pos); !diags.HasErrors() {
			out["an"] = A{observeStatic(e)}
			out["val"] = observeEval(e, ctx)
			if b := relLaw(e); b != "" {
				bad = b
			}
			if t, diags := hcl.AbsTraversalForExpr(e); !diags.HasErrors() {
				if _, b := travLaws(t, ctx); b != "" {
					bad = b
				}
			}
		}
	})
	if p != "" {
		bad = p
	}
	return ascii(norm(out)), bad
}

func skipAny(w, g O, keys ...string) (O, O) {
	w2, g2 := O{}, O{}
	for k, v := range w {
		w2[k] = v
	}
	for k, v := range g {
		g2[k] = v
	}
	for _, k := range keys {
		if a, ok := w2[k].(A); ok && len(a) > 0 && a[0] == "any" {
			delete(w2, k)
			delete(g2, k)
		}
	}
	return w2, g2
}

// nodeText writes a node of JsonText.tla as JSON, choosing spellings.
func nodeText(n A, g *tokGen) string {
	ws := func() string {
		if g == nil {
			return ""
		}
		return g.p("", "", "", " ", "\n")
	}
	str := func(cs J) string {
		text := charsText(strs(cs))
		b, _ := json.Marshal(text)
		s := string(b)
		for _, r := range [][2]string{{"\\u003c", "<"}, {"\\u003e", ">"}, {"\\u0026", "&"}} {
			s = strings.Replace(s, r[0], r[1], -1)
		}
		if g != nil && g.n(6) == 0 {
			s = strings.Replace(s, "a", "\\u0061", -1)
		}
		return s
	}
	switch n[0] {
	case "s":
		return str(n[1])
	case "n":
		v := n[1].(A)
		return numText(toInt(v[1]), toInt(v[2]))
	case "t":
		return fmt.Sprint(n[1])
	case "z":
		return "null"
	case "a":
		var parts []string
		xs, _ := n[1].(A)
		for _, x := range xs {
			parts = append(parts, ws()+nodeText(x.(A), g)+ws())
		}
		return "[" + strings.Join(parts, ",") + "]"
	case "o":
		var parts []string
		xs, _ := n[1].(A)
		for _, x := range xs {
			p := x.(A)
			parts = append(parts, ws()+str(p[0])+ws()+":"+ws()+nodeText(p[1].(A), g))
		}
		return "{" + strings.Join(parts, ",") + "}"
	}
	panic("bad node")
}

func toInt(v J) int64 {
	switch v := v.(type) {
	case float64:
		return int64(v)
	case int64:
		return v
	case int:
		return int64(v)
	}
	return v.(interface{ Int64() int64 }).Int64()
}

// jsonSeen observes a JSON value used as an attribute's expression.
func jsonSeen(text string, frames A) (out O, bad string) {
	src := `{"x":` + text + `}`
	p := guard(src, func() {
		f, diags := hcljson.Parse([]byte(src), "t.json")
		if diags.HasErrors() {
			bad = "not accepted: " + diags.Error()
			return
		}
		attrs, _ := f.Body.JustAttributes()
		e := attrs["x"].Expr
		ctx := evalCtx(frames)
		vars := e.Variables()
		out = O{"lit": observeEval(e, nil), "val": observeEval(e, ctx), "vars": encPaths(vars), "an": observeStatic(e)}
		if cut := observeEval(e, restrictCtx(ctx, vars)); !same(norm(cut), norm(out["val"])) {
			bad = "with only the reported variables in scope: " + jstr(cut)
		}
		if b := relLaw(e); b != "" {
			bad = b
		}
		if again := observeEval(e, ctx); !same(norm(again), norm(out["val"])) {
			bad = "second evaluation: " + jstr(again)
		}
	})
	if p != "" {
		bad = p
	}
	if out != nil {
		out = ascii(norm(out)).(O)
	}
	return out, bad
}

func (g tokGen) path() string {
	s := g.p("a", "b", "o", "l", "k", "true", "x", "for", "null")
	for k := g.n(5); k > 0; k-- {
		s += g.p(".b", ".k", "[0]", "[1]", "[\"k\"]", "[\"b\"]", "[\"\"]", ".a", ".x", " .b", "[ 0 ]", "/* c */.k", "[\n1]", ".0", "[true]", "[0.5]", "[\"$${a}\"]", "[\"\\n\"]", ".for", "[null]", ".*", "[*]", "[a]", "[\"${a}\"]", "[-1]", "[(1)]")
	}
	return s
}

func (g tokGen) staticText() string {
	switch g.n(8) {
	case 0:
		var args []string
		for k := g.n(3); k > 0; k-- {
			args = append(args, g.path())
		}
		return g.p("id", "pair", "f") + "(" + strings.Join(args, ", ") + g.p("", "", "", "...") + ")"
	case 1:
		var args []string
		for k := g.n(3); k > 0; k-- {
			args = append(args, g.path())
		}
		return g.p("", "(") + "[" + strings.Join(args, ", ") + g.p("", ",") + "]" + g.p("", ")", "[0]")
	case 2:
		var args []string
		for k := g.n(3); k > 0; k-- {
			args = append(args, g.p("a", "b", "(a)", "true", "\"q\"", "a.b", "1")+g.p(" = ", ": ")+g.path())
		}
		return "{" + strings.Join(args, ", ") + "}"
	case 3:
		return "(" + g.path() + ")" + g.p("", ".b", "[0]")
	}
	return g.path()
}

func (g tokGen) jsonNode(d int) A {
	str := func(s string) A {
		cs := A{}
		for _, c := range split(s) {
			cs = append(cs, c)
		}
		return cs
	}
	word := func() string {
		switch g.n(5) {
		case 0:
			return g.staticText()
		case 1:
			return g.tmpl(1, "bare")
		case 2:
			return g.p("", "x", "1", "é", "true", "世 ", "$${a}", "%%{a}", "${", "a\tb")
		}
		return g.p("${a}", "${x}", "${a}${o.k}", "${l[0]}", "${l}", "${o}", "x${n}", "${k}", "${k.b}", "${id(a)}", "${nope}", "%{if t}x%{endif}", "${[for v in l: v]}", "${z}")
	}
	k := g.n(7)
	if d == 0 {
		k = 2 + g.n(5)
	}
	switch k {
	case 0:
		l := A{}
		for k := g.n(4); k > 0; k-- {
			l = append(l, g.jsonNode(d-1))
		}
		return A{"a", l}
	case 1:
		l := A{}
		for k := g.n(4); k > 0; k-- {
			key := word()
			if g.n(3) > 0 {
				key = g.p("x", "y", "a", "${a}")
			}
			l = append(l, A{str(key), g.jsonNode(d - 1)})
		}
		return A{"o", l}
	case 2:
		return A{"n", A{"num", float64(g.n(9) - 4), float64(1)}}
	case 3:
		if g.n(3) == 0 {
			return A{"z"}
		}
		return A{"t", g.n(2) == 0}
	}
	return A{"s", str(word())}
}

var staticCtx = A{
	O{"a": A{"str", "y"}, "t": A{"bool", true}, "n": A{"num", 3, 1}, "k": A{"unk", A{"dyn"}}, "z": A{"null", A{"string"}}},
	O{"l": A{"tuple", A{A{"str", "p"}, A{"str", "q"}}}, "o": A{"obj", O{"k": A{"str", "v"}, "b": A{"list", A{"number"}, A{A{"num", 4, 1}, A{"num", 5, 1}}}}}},
	O{"b": A{"obj", O{"b": A{"map", A{"string"}, O{"k": A{"str", "w"}, "b": A{"str", "w2"}}}, "a": A{"tuple", A{A{"num", 1, 1}, A{"bool", false}}}}}, "true": A{"str", "T"}, "x": A{"num", 2, 1}},
}

func init() {
	replayers["static"] = func(r *runner, c O) {
		src := charsText(strs(c["chars"]))
		want := c["want"].(O)
		got, bad := textSeen(src, c["ctx"].(A))
		if bad != "" {
			r.Mismatch(src, src, "laws of paths", bad)
			return
		}
		delete(want, "st")
		w, g := skipAny(want, got.(O), "pval", "val")
		if !same(w, g) {
			r.Mismatch(src, src, w, g)
		}
		if p, ok := want["path"].(A); ok && len(p) > 0 {
			r.Count("path")
		}
		if p, ok := want["an"].(A); ok && len(p) > 0 {
			r.Count("expression")
		}
		r.Sample(src)
	}
	recorders["static"] = func(r *runner, n int) {
		g := tokGen{r}
		frames := norm(staticCtx).(A)
		for r.cases < n {
			cs := split(g.staticText())
			if g.n(6) == 0 {
				cs = g.mutText(cs)
			}
			if cs == nil {
				cs = []string{}
			}
			text := charsText(cs)
			if strings.Contains(text, "\r") {
				continue
			}
			got, bad := textSeen(text, frames)
			if bad != "" {
				if lastPanicDep && strings.HasPrefix(bad, "panic") {
					lastPanicDep = false
					continue
				}
				r.Mismatch(text, text, "laws of paths", bad)
			}
			r.Sample(text)
			r.Record(O{"kind": "text", "chars": cs, "ctx": frames, "got": got, "src": text}, 2)
		}
	}
	replayers["jsonexpr"] = func(r *runner, c O) {
		text := nodeText(c["node"].(A), nil)
		want := c["want"].(O)
		got, bad := jsonSeen(text, c["ctx"].(A))
		if bad != "" {
			r.Mismatch(text, text, "agreement of repeated and restricted evaluation", bad)
			return
		}
		want["vars"] = sortedSet(want["vars"])
		w, g := skipAny(want, got, "lit", "val")
		if !same(w, g) {
			r.Mismatch(text, text, w, g)
		}
		r.Count("value " + want["val"].(A)[0].(string))
		r.Sample(text)
	}
	recorders["jsonexpr"] = func(r *runner, n int) {
		g := tokGen{r}
		frames := norm(staticCtx).(A)
		for r.cases < n {
			node := norm(g.jsonNode(3)).(A)
			text := nodeText(node, &g)
			if len(text) > 150 || strings.Contains(text, "\\r") {
				continue
			}
			got, bad := jsonSeen(text, frames)
			if bad != "" {
				if lastPanicDep && strings.HasPrefix(bad, "panic") {
					lastPanicDep = false
					continue
				}
				r.Mismatch(text, text, "agreement of repeated and restricted evaluation", bad)
				continue
			}
			r.Count("value " + got["val"].(A)[0].(string))
			r.Sample(text)
			r.Record(O{"kind": "json", "node": node, "ctx": frames, "got": got, "src": text}, 2)
		}
	}
}
