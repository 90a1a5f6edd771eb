package main

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
)

// treeWalk knows the nodes of one tree by the places they are stored in.
type treeWalk struct {
	at map[J]A // pointer -> path
}

func (w *treeWalk) kid(p A, j int) A { return append(append(A{}, p...), j) }

func (w *treeWalk) node(k string, c A) O { return O{"k": k, "c": c, "n": A{}, "l": false} }

func (w *treeWalk) list(k string, p A, xs ...hclsyntax.Expression) O {
	c := A{}
	for j, x := range xs {
		c = append(c, w.describe(x, w.kid(p, j+1)))
	}
	return w.node(k, c)
}

// describe gives the tree in the encoding of Walk.tla, following the stored
// children only.
func (w *treeWalk) describe(n hclsyntax.Node, p A) J {
	switch x := n.(type) {
	case hclsyntax.Attributes:
		w.at[reflect.ValueOf(x).Pointer()] = p
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		c := A{}
		for j, k := range ks {
			c = append(c, w.describe(x[k], w.kid(p, j+1)))
		}
		return w.node("attrs", c)
	case hclsyntax.Blocks:
		c := A{}
		for j, b := range x {
			c = append(c, w.describe(b, w.kid(p, j+1)))
		}
		return w.node("blocks", c)
	}
	w.at[n] = p
	switch x := n.(type) {
	case *hclsyntax.Body:
		return w.node("body", A{w.describe(x.Attributes, w.kid(p, 1)), w.describe(x.Blocks, w.kid(p, 2))})
	case *hclsyntax.Attribute:
		return w.list("attr", p, x.Expr)
	case *hclsyntax.Block:
		return w.node("block", A{w.describe(x.Body, w.kid(p, 1))})
	case *hclsyntax.LiteralValueExpr:
		return w.node("lit", A{})
	case *hclsyntax.ScopeTraversalExpr:
		return w.node("ref", A{})
	case *hclsyntax.AnonSymbolExpr:
		return w.node("item", A{})
	case *hclsyntax.RelativeTraversalExpr:
		return w.list("rel", p, x.Source)
	case *hclsyntax.FunctionCallExpr:
		return w.list("call", p, x.Args...)
	case *hclsyntax.ConditionalExpr:
		return w.list("cond", p, x.Condition, x.TrueResult, x.FalseResult)
	case *hclsyntax.IndexExpr:
		return w.list("index", p, x.Collection, x.Key)
	case *hclsyntax.TupleConsExpr:
		return w.list("tuple", p, x.Exprs...)
	case *hclsyntax.ObjectConsExpr:
		var xs []hclsyntax.Expression
		for _, it := range x.Items {
			xs = append(xs, it.KeyExpr, it.ValueExpr)
		}
		return w.list("obj", p, xs...)
	case *hclsyntax.ObjectConsKeyExpr:
		ret := w.list("key", p, x.Wrapped)
		// a plain name is a key of that name, also without any scope
		if v, diags := x.Value(nil); !diags.HasErrors() && v.Type() == cty.String && hcl.ExprAsKeyword(x.Wrapped) != "" {
			ret["l"] = true
		}
		return ret
	case *hclsyntax.ForExpr:
		c := A{w.describe(x.CollExpr, w.kid(p, 1)), A{}, w.describe(x.ValExpr, w.kid(p, 3)), A{}}
		if x.KeyExpr != nil {
			c[1] = w.describe(x.KeyExpr, w.kid(p, 2))
		}
		if x.CondExpr != nil {
			c[3] = w.describe(x.CondExpr, w.kid(p, 4))
		}
		names := A{}
		for _, n := range []string{x.KeyVar, x.ValVar} {
			if n != "" {
				names = append(names, n)
			}
		}
		return O{"k": "for", "c": c, "n": names, "l": false}
	case *hclsyntax.SplatExpr:
		return w.list("splat", p, x.Source, x.Each)
	case *hclsyntax.BinaryOpExpr:
		return w.list("bin", p, x.LHS, x.RHS)
	case *hclsyntax.UnaryOpExpr:
		return w.list("un", p, x.Val)
	case *hclsyntax.TemplateExpr:
		return w.list("tmpl", p, x.Parts...)
	case *hclsyntax.TemplateJoinExpr:
		return w.list("join", p, x.Tuple)
	case *hclsyntax.TemplateWrapExpr:
		return w.list("wrap", p, x.Wrapped)
	}
	return w.node(fmt.Sprintf("%T", n), A{})
}

// visit says which visit a callback is about; bodies says which bodies were
// seen, the last one first.
func (w *treeWalk) visit(n hclsyntax.Node, in A) (p A, scope bool, names A) {
	names = A{}
	var key J
	switch x := n.(type) {
	case hclsyntax.Attributes:
		key = reflect.ValueOf(x).Pointer()
	case hclsyntax.Blocks:
		if len(x) == 0 {
			return w.kid(in, 2), false, names
		}
		q, ok := w.at[x[0]]
		if !ok {
			return A{-1}, false, names
		}
		return q[:len(q)-1], false, names
	case hclsyntax.ChildScope:
		scope = true
		var ns []string
		for n := range x.LocalNames {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			names = append(names, n)
		}
		key = x.Expr
	default:
		key = n
	}
	q, ok := w.at[key]
	if !ok {
		q = A{-1}
	}
	return q, scope, names
}

type walkLog struct {
	w    *treeWalk
	open []A
	evs  A
	said map[string]int
	left int
}

func (l *walkLog) say() hcl.Diagnostics {
	t := fmt.Sprintf("event %d", len(l.evs))
	l.said[t]++
	if len(l.evs)%3 == 0 {
		return nil // nothing to report here
	}
	l.left++
	return hcl.Diagnostics{{Severity: hcl.DiagError, Summary: "s", Detail: t}}
}

func (l *walkLog) Enter(n hclsyntax.Node) hcl.Diagnostics {
	in := A{}
	if len(l.open) > 0 {
		in = l.open[len(l.open)-1]
	}
	p, s, names := l.w.visit(n, in)
	l.open = append(l.open, p)
	l.evs = append(l.evs, O{"e": "in", "p": p, "s": s, "n": names})
	return l.say()
}

func (l *walkLog) Exit(n hclsyntax.Node) hcl.Diagnostics {
	in := A{}
	if len(l.open) > 1 {
		in = l.open[len(l.open)-2]
	}
	if len(l.open) > 0 {
		l.open = l.open[:len(l.open)-1]
	}
	p, s, names := l.w.visit(n, in)
	l.evs = append(l.evs, O{"e": "out", "p": p, "s": s, "n": names})
	return l.say()
}

func (l *walkLog) told(diags hcl.Diagnostics) bool {
	seen := map[string]bool{}
	for _, d := range diags {
		if l.said[d.Detail] == 0 || seen[d.Detail] {
			return false
		}
		seen[d.Detail] = true
	}
	return len(seen) == l.left
}

// walkBoth walks a tree in both ways.
func walkBoth(root hclsyntax.Node) (tree J, got O) {
	w := &treeWalk{map[J]A{}}
	tree = w.describe(root, A{})
	l := &walkLog{w: w, evs: A{}, said: map[string]int{}}
	diags := hclsyntax.Walk(root, l)
	told := l.told(diags)

	v := &walkLog{w: w, evs: A{}, said: map[string]int{}}
	all := A{}
	pending := []A{} // bodies whose empty list of blocks is still to come
	diags = hclsyntax.VisitAll(root, func(n hclsyntax.Node) hcl.Diagnostics {
		in := A{-1}
		switch x := n.(type) {
		case *hclsyntax.Body:
			if len(x.Blocks) == 0 {
				pending = append(pending, w.at[x])
			}
		case hclsyntax.Blocks:
			if len(x) == 0 && len(pending) > 0 {
				in = pending[len(pending)-1]
				pending = pending[:len(pending)-1]
			}
		}
		p, s, _ := w.visit(n, in)
		all = append(all, A{p, s})
		v.evs = append(v.evs, nil)
		return v.say()
	})
	return tree, O{"walk": l.evs, "all": all, "told": told && v.told(diags)}
}

// buildTree makes the syntax tree that Walk.tla describes.
func buildTree(t O, path string) hclsyntax.Node {
	c, _ := t["c"].(A)
	sub := func(j int) hclsyntax.Expression {
		if j >= len(c) {
			return nil
		}
		o, ok := c[j].(O)
		if !ok {
			return nil
		}
		return buildTree(o, fmt.Sprintf("%s_%d", path, j)).(hclsyntax.Expression)
	}
	var subs []hclsyntax.Expression
	switch t["k"] {
	case "body", "attrs", "blocks", "attr", "block":
	default:
		for j := range c {
			subs = append(subs, sub(j))
		}
	}
	switch t["k"] {
	case "body":
		return &hclsyntax.Body{Attributes: buildTree(c[0].(O), path+"a").(hclsyntax.Attributes), Blocks: buildTree(c[1].(O), path+"b").(hclsyntax.Blocks)}
	case "attrs":
		ret := hclsyntax.Attributes{}
		for j, x := range c {
			n := fmt.Sprintf("a%02d", j)
			a := buildTree(x.(O), path+n).(*hclsyntax.Attribute)
			a.Name = n
			ret[n] = a
		}
		return ret
	case "blocks":
		ret := hclsyntax.Blocks{}
		for j, x := range c {
			ret = append(ret, buildTree(x.(O), fmt.Sprintf("%s_%d", path, j)).(*hclsyntax.Block))
		}
		return ret
	case "attr":
		return &hclsyntax.Attribute{Expr: sub(0)}
	case "block":
		return &hclsyntax.Block{Type: "b", Body: buildTree(c[0].(O), path+"c").(*hclsyntax.Body)}
	case "lit":
		return &hclsyntax.LiteralValueExpr{Val: cty.NumberIntVal(1)}
	case "ref":
		return &hclsyntax.ScopeTraversalExpr{Traversal: hcl.Traversal{hcl.TraverseRoot{Name: "r" + path}}}
	case "item":
		return &hclsyntax.AnonSymbolExpr{}
	case "rel":
		return &hclsyntax.RelativeTraversalExpr{Source: subs[0], Traversal: hcl.Traversal{hcl.TraverseAttr{Name: "x"}}}
	case "call":
		return &hclsyntax.FunctionCallExpr{Name: "f", Args: subs}
	case "cond":
		return &hclsyntax.ConditionalExpr{Condition: subs[0], TrueResult: subs[1], FalseResult: subs[2]}
	case "index":
		return &hclsyntax.IndexExpr{Collection: subs[0], Key: subs[1]}
	case "tuple":
		return &hclsyntax.TupleConsExpr{Exprs: subs}
	case "obj":
		ret := &hclsyntax.ObjectConsExpr{}
		for j := 0; j < len(subs); j += 2 {
			ret.Items = append(ret.Items, hclsyntax.ObjectConsItem{KeyExpr: subs[j], ValueExpr: subs[j+1]})
		}
		return ret
	case "key":
		return &hclsyntax.ObjectConsKeyExpr{Wrapped: subs[0]}
	case "for":
		ret := &hclsyntax.ForExpr{CollExpr: subs[0], KeyExpr: subs[1], ValExpr: subs[2], CondExpr: subs[3]}
		names := strs(t["n"])
		ret.ValVar = names[len(names)-1]
		if len(names) > 1 {
			ret.KeyVar = names[0]
		}
		return ret
	case "splat":
		ret := &hclsyntax.SplatExpr{Source: subs[0], Each: subs[1]}
		e := subs[1]
		for ret.Item == nil {
			switch x := e.(type) {
			case *hclsyntax.AnonSymbolExpr:
				ret.Item = x
			case *hclsyntax.RelativeTraversalExpr:
				e = x.Source
			case *hclsyntax.IndexExpr:
				e = x.Collection
			}
		}
		return ret
	case "bin":
		return &hclsyntax.BinaryOpExpr{LHS: subs[0], Op: hclsyntax.OpAdd, RHS: subs[1]}
	case "un":
		return &hclsyntax.UnaryOpExpr{Op: hclsyntax.OpNegate, Val: subs[0]}
	case "tmpl":
		return &hclsyntax.TemplateExpr{Parts: subs}
	case "join":
		return &hclsyntax.TemplateJoinExpr{Tuple: subs[0]}
	case "wrap":
		return &hclsyntax.TemplateWrapExpr{Wrapped: subs[0]}
	}
	panic(fmt.Sprint("kind ", t["k"]))
}

// visitTree turns the events of a walk into nested visits, and says whether
// they nest.
func visitTree(evs A) (J, bool) {
	var stack []O
	var root J
	for _, e := range evs {
		ev := e.(O)
		if ev["e"] == "in" {
			if root != nil && len(stack) == 0 {
				return nil, false
			}
			v := O{"p": ev["p"], "s": ev["s"], "n": ev["n"], "kids": A{}}
			stack = append(stack, v)
			if root == nil {
				root = v
			}
			continue
		}
		if len(stack) == 0 {
			return nil, false
		}
		v := stack[len(stack)-1]
		if !same(norm(v["p"]), norm(ev["p"])) || v["s"] != ev["s"] {
			return nil, false
		}
		stack = stack[:len(stack)-1]
		if k := len(stack); k > 0 {
			stack[k-1]["kids"] = append(stack[k-1]["kids"].(A), v)
		}
	}
	return root, len(stack) == 0 && root != nil
}

// sortVisits brings nested visits into one order.
func sortVisits(j J) J {
	v, _ := norm(j).(O)
	var ks []string
	m := map[string]J{}
	kids, _ := v["kids"].(A)
	for _, x := range kids {
		y := sortVisits(x)
		k := jstr(y)
		for m[k] != nil {
			k += "'"
		}
		m[k] = y
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := A{}
	for _, k := range ks {
		out = append(out, m[k])
	}
	p, _ := v["p"].(A)
	if p == nil {
		p = A{}
	}
	return O{"p": p, "s": v["s"], "n": sortedSet(v["n"]), "kids": out}
}

func flatVisits(j J, out A) A {
	v := j.(O)
	out = append(out, jstr(A{v["p"], v["s"]}))
	for _, x := range v["kids"].(A) {
		out = flatVisits(x, out)
	}
	return out
}

func sortedStrs(a A) []string {
	var out []string
	for _, x := range a {
		out = append(out, x.(string))
	}
	sort.Strings(out)
	return out
}

// template makes a template of every kind of part.
func (g tokGen) template(d int) string {
	expr := func() string { return tokenText(g.expr(g.n(2), true), true) }
	out := ""
	for k := g.n(4); k >= 0; k-- {
		switch j := g.n(5); {
		case j == 0:
			out += "t "
		case j == 1 || d == 0:
			out += "${" + expr() + "}"
		case j == 2:
			out += "%{if " + expr() + "}" + g.template(d-1) + "%{endif}"
		case j == 3:
			out += "%{if " + expr() + "}" + g.template(d-1) + "%{else}" + g.template(d-1) + "%{endif}"
		default:
			out += "%{for " + g.p("x", "k, v") + " in " + expr() + "}" + g.template(d-1) + "%{endfor}"
		}
	}
	return out
}

func init() {
	replayers["walk"] = func(r *runner, c O) {
		key := jstr(c["tree"])
		if msg := guard(key, func() {
			root := buildTree(c["tree"].(O), "")
			_, got := walkBoth(root)
			want := sortVisits(c["want"])
			r.Count(c["tree"].(O)["k"].(string))
			r.Sample(key)
			t, nested := visitTree(got["walk"].(A))
			if !nested {
				r.Mismatch(key+" walk", c["tree"], want, got["walk"])
				return
			}
			if g := sortVisits(t); !same(g, want) {
				r.Mismatch(key+" walk", c["tree"], want, g)
			}
			ids := A{}
			for _, x := range got["all"].(A) {
				n := norm(x).(A)
				if n[0] == nil {
					n[0] = A{}
				}
				ids = append(ids, jstr(n))
			}
			w, g := sortedStrs(flatVisits(want, A{})), sortedStrs(ids)
			if jstr(w) != jstr(g) {
				r.Mismatch(key+" all", c["tree"], w, g)
			}
			if got["told"] != true {
				r.Mismatch(key+" told", c["tree"], true, false)
			}
		}); msg != "" {
			r.Mismatch(key+" panic", c["tree"], "no panic", msg)
		}
	}
	recorders["walk"] = func(r *runner, n int) {
		g := tokGen{r}
		for r.cases < n {
			var root hclsyntax.Node
			var src string
			if k := g.n(5); k == 0 {
				src = g.template(2)
				e, _ := hclsyntax.ParseTemplate([]byte(src), "t", hcl.Pos{Line: 1, Column: 1})
				root = e
			} else if k < 3 {
				src = tokenText(g.expr(1+g.n(3), true), g.n(2) == 0)
				e, _ := hclsyntax.ParseExpression([]byte(src), "t", hcl.Pos{Line: 1, Column: 1})
				root = e
			} else {
				src = tokenText(g.body(2), g.n(2) == 0)
				f, _ := hclsyntax.ParseConfig([]byte(src), "t", hcl.Pos{Line: 1, Column: 1})
				root = f.Body.(*hclsyntax.Body)
			}
			var tree J
			var got O
			if msg := guard(src, func() { tree, got = walkBoth(root) }); msg != "" {
				r.Mismatch(src, src, "no panic", msg)
				continue
			}
			if len(jstr(tree)) > 6000 {
				continue
			}
			r.Count(tree.(O)["k"].(string))
			r.Sample(src)
			r.Record(O{"tree": tree, "got": got, "src": src}, 2)
		}
	}
}
