package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
)

var startPos = hcl.Pos{Line: 1, Column: 1}

var named = strings.NewReplacer("<08>", "\b", "<nul>", "\x00", "<zwj>", "\u200d", "<pre>", "\u0600", "<bom>", "\ufeff", "<tag>", "\U000e0001", "<e2>", "é", "<zh>", "世", "<emo>", "\U0001f44d🏽")

func mapStrings(j J, f func(string) string) J {
	switch x := j.(type) {
	case string:
		return f(x)
	case A:
		out := make(A, len(x))
		for i := range x {
			out[i] = mapStrings(x[i], f)
		}
		return out
	case O:
		out := O{}
		for k, v := range x {
			out[f(k)] = mapStrings(v, f)
		}
		return out
	}
	return j
}

// plainText replaces every character outside printable ASCII injectively.
func plainText(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r < 0x20 || r > 0x7e || r == '<' {
			fmt.Fprintf(&b, "<%x>", r)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func readAttr(src []byte, name string) (hclsyntax.Expression, string) {
	f, diags := hclsyntax.ParseConfig(src, "", startPos)
	if diags.HasErrors() {
		return nil, "not valid: " + string(src)
	}
	a, ok := f.Body.(*hclsyntax.Body).Attributes[name]
	if !ok {
		return nil, "no argument: " + string(src)
	}
	return a.Expr, ""
}

// writeValue writes a value as source in every way there is and reads it
// back each time.
func writeValue(v cty.Value) (outs []J, srcs []string) {
	add := func(e hclsyntax.Expression, src []byte, bad string) {
		srcs = append(srcs, string(src))
		if bad != "" {
			outs = append(outs, A{"bad", bad})
			return
		}
		got, diags := e.Value(nil)
		if diags.HasErrors() {
			outs = append(outs, A{"bad", diags.Error()})
			return
		}
		outs = append(outs, norm(encVal(got)))
	}
	p := guard(fmt.Sprintf("%#v", v), func() {
		src := hclwrite.TokensForValue(v).Bytes()
		e, diags := hclsyntax.ParseExpression(src, "", startPos)
		if diags.HasErrors() {
			add(nil, src, diags.Error())
		} else {
			add(e, src, "")
		}
		f := hclwrite.NewEmptyFile()
		f.Body().SetAttributeValue("a", v)
		x, bad := readAttr(f.Bytes(), "a")
		add(x, f.Bytes(), bad)
		f, _ = hclwrite.ParseConfig([]byte("b {\n  a = [1, x.y] # c\n  z=1\n}"), "", startPos)
		f.Body().Blocks()[0].Body().SetAttributeValue("a", v)
		src = f.Bytes()
		nf, diags := hclsyntax.ParseConfig(src, "", startPos)
		if diags.HasErrors() {
			add(nil, src, diags.Error())
		} else {
			nb := nf.Body.(*hclsyntax.Body).Blocks[0].Body
			if nb.Attributes["a"] == nil || nb.Attributes["z"] == nil || len(nb.Attributes) != 2 {
				add(nil, src, "wrong arguments")
			} else {
				add(nb.Attributes["a"].Expr, src, "")
			}
		}
		expr := hclwrite.NewExpressionLiteral(v)
		src = expr.BuildTokens(nil).Bytes()
		e, diags = hclsyntax.ParseExpression(src, "", startPos)
		if diags.HasErrors() {
			add(nil, src, diags.Error())
		} else {
			add(e, src, "")
		}
	})
	if p != "" {
		outs, srcs = []J{A{"bad", p}}, []string{""}
	}
	return
}

func decPath(j J) hcl.Traversal {
	a := j.(A)
	t := hcl.Traversal{hcl.TraverseRoot{Name: a[0].(string)}}
	steps, _ := a[1].(A)
	for _, s := range steps {
		s := s.(A)
		if s[0] == "a" {
			t = append(t, hcl.TraverseAttr{Name: s[1].(string)})
		} else {
			t = append(t, hcl.TraverseIndex{Key: decVal(s[1])})
		}
	}
	return t
}

func writePath(t hcl.Traversal) (outs []J, srcs []string) {
	add := func(g hcl.Traversal, src []byte, bad string) {
		srcs = append(srcs, string(src))
		if bad != "" {
			outs = append(outs, A{"bad", bad})
		} else {
			outs = append(outs, norm(encPath(g)))
		}
	}
	p := guard(fmt.Sprintf("%#v", t), func() {
		src := hclwrite.TokensForTraversal(t).Bytes()
		g, diags := hclsyntax.ParseTraversalAbs(src, "", startPos)
		if diags.HasErrors() {
			add(nil, src, diags.Error())
		} else {
			add(g, src, "")
		}
		e, bad := readAttr([]byte("a = "+string(src)+"\n"), "a")
		if bad == "" {
			vs := e.Variables()
			if len(vs) != 1 {
				bad = "not one reference"
			} else {
				g = vs[0]
			}
		}
		add(g, src, bad)
		f, _ := hclwrite.ParseConfig([]byte("z = 1"), "", startPos)
		a := f.Body().SetAttributeTraversal("a", t)
		_ = a
		src = f.Bytes()
		e, bad = readAttr(src, "a")
		g = nil
		if bad == "" {
			g, diags = hcl.AbsTraversalForExpr(e)
			if diags.HasErrors() {
				bad = diags.Error()
			}
		}
		add(g, src, bad)
		// the steps alone continue another reference
		if len(t) > 1 {
			src = append([]byte("r"), hclwrite.TokensForTraversal(t[1:]).Bytes()...)
			g, diags = hclsyntax.ParseTraversalAbs(src, "", startPos)
			bad = ""
			if diags.HasErrors() {
				bad = diags.Error()
			} else {
				g[0] = t[0]
			}
			add(g, src, bad)
		}
	})
	if p != "" {
		outs, srcs = []J{A{"bad", p}}, []string{""}
	}
	return
}

func tokensText(ts hclwrite.Tokens) string {
	var b strings.Builder
	for _, t := range ts {
		b.Write(t.Bytes)
	}
	return b.String()
}

func writeView(b *hclwrite.Body) J {
	attrs, blocks := A{}, A{}
	m := b.Attributes()
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if b.GetAttribute(n) != m[n] {
			attrs = append(attrs, A{n, "found as a different object"})
			continue
		}
		vars := A{}
		for _, v := range m[n].Expr().Variables() {
			vars = append(vars, tokensText(v.BuildTokens(nil)))
		}
		attrs = append(attrs, A{n, tokensText(m[n].Expr().BuildTokens(nil)), vars})
	}
	for _, n := range []string{"x", "y", "z", "w", "nope"} {
		if m[n] == nil && b.GetAttribute(n) != nil {
			attrs = append(attrs, A{n, "found but not listed"})
		}
	}
	for _, k := range b.Blocks() {
		blocks = append(blocks, writeView(k.Body()))
	}
	return O{"attrs": attrs, "blocks": blocks}
}

// agrees compares the listed names and blocks with a parsed body.
func agrees(b *hclwrite.Body, p *hclsyntax.Body) bool {
	m := b.Attributes()
	ks := b.Blocks()
	if len(m) != len(p.Attributes) || len(ks) != len(p.Blocks) {
		return false
	}
	for n := range m {
		if p.Attributes[n] == nil {
			return false
		}
	}
	for i, k := range ks {
		if !agrees(k.Body(), p.Blocks[i].Body) {
			return false
		}
	}
	return true
}

// writeSession edits one file, keeping hold of bodies it has seen.
type writeSession struct {
	f    *hclwrite.File
	held map[string]*hclwrite.Body
}

func (s *writeSession) at(path A) *hclwrite.Body {
	b := s.f.Body()
	if h := s.held[jstr(path)]; h != nil {
		return h
	}
	for _, i := range path {
		b = b.Blocks()[toInt(i)-1].Body()
	}
	s.held[jstr(path)] = b
	return b
}

func (s *writeSession) do(o A) (bad string) {
	path, _ := o[1].(A)
	if path == nil {
		path = A{}
	}
	b := s.at(path)
	labels := func(i int) []string { return strs(o[i]) }
	switch o[0] {
	case "setv":
		a := b.SetAttributeValue(o[2].(string), decVal(o[3]))
		if a == nil || a != b.GetAttribute(o[2].(string)) {
			bad = "setting an argument does not return it"
		}
	case "setr":
		a := b.SetAttributeTraversal(o[2].(string), decPath(o[3]))
		if a == nil || a != b.GetAttribute(o[2].(string)) {
			bad = "setting an argument does not return it"
		}
	case "block":
		k := b.AppendNewBlock(o[2].(string), labels(3))
		if bs := b.Blocks(); len(bs) == 0 || bs[len(bs)-1] != k {
			bad = "the appended block is not the last one"
		}
		s.held[jstr(append(append(A{}, path...), len(b.Blocks())))] = k.Body()
	case "attach":
		k := hclwrite.NewBlock(o[2].(string), labels(3))
		k.Body().SetAttributeValue(o[4].(string), decVal(o[5]))
		if b.AppendBlock(k) != k {
			bad = "appending a block does not return it"
		}
	case "nl":
		b.AppendNewline()
	case "raw":
		for _, t := range labels(2) {
			b.AppendUnstructuredTokens(hclwrite.Tokens{{Type: hclsyntax.TokenComment, Bytes: []byte(t)}})
		}
	case "clear":
		b.Clear()
		pre := strings.TrimSuffix(jstr(path), "]")
		for k := range s.held {
			if k != jstr(path) && strings.HasPrefix(k, pre) {
				delete(s.held, k)
			}
		}
	case "rename":
		if a := b.GetAttribute(o[2].(string)); a != nil {
			a.Expr().RenameVariablePrefix(labels(3), labels(4))
		}
	case "read":
		writeView(s.f.Body())
		s.f.Bytes()
	}
	return
}

// writeRun loads a text and applies edits, observing after each.
func writeRun(src string, ops A, each func(k int, text string, view J)) (bad string) {
	p := guard(src, func() {
		f, diags := hclwrite.ParseConfig([]byte(src), "", startPos)
		if diags.HasErrors() {
			bad = "not loaded: " + diags.Error()
			return
		}
		s := &writeSession{f, map[string]*hclwrite.Body{}}
		for k := 0; ; k++ {
			text := tokensText(f.BuildTokens(nil))
			view := writeView(f.Body())
			each(k, text, view)
			saved := f.Bytes()
			nf, diags := hclsyntax.ParseConfig(saved, "", startPos)
			if diags.HasErrors() {
				bad = fmt.Sprintf("after %d edits the file is not valid: %s", k, saved)
				return
			}
			if !agrees(f.Body(), nf.Body.(*hclsyntax.Body)) {
				bad = fmt.Sprintf("after %d edits the listed items are not those of the saved text: %s", k, saved)
				return
			}
			toks, _ := ftoks(string(saved))
			var b strings.Builder
			for _, t := range toks {
				b.WriteString(t.text)
			}
			if b.String() != text {
				bad = fmt.Sprintf("after %d edits the saved text has other tokens: %s", k, saved)
				return
			}
			if k == len(ops) {
				return
			}
			if bad = s.do(ops[k].(A)); bad != "" {
				return
			}
		}
	})
	if p != "" {
		bad = p
	}
	return
}

// spaced writes the tokens of a specified file with random spaces.
func (g tokGen) spaced(flat []string) string {
	var b strings.Builder
	for i, t := range flat {
		if t != "\n" && i > 0 {
			b.WriteString(g.p(" ", " ", "  ", "   "))
		}
		b.WriteString(t)
	}
	return b.String()
}

var wNames = []string{"x", "y", "z", "w"}

func (g tokGen) wRef() J {
	st := A{A{"n", "", g.p("a", "a", "b", "c")}}
	for k := g.n(4); k > 0; k-- {
		if g.n(4) == 0 {
			st = append(st, A{"x", g.p("[0]", "[\"k\"]", "[12]", "[\"\"]")})
		} else {
			st = append(st, A{"n", ".", g.p("a", "b", "c")})
		}
	}
	return A{"r", st}
}

func (g tokGen) wExpr() A {
	t := func(s string) J { return A{"t", s} }
	switch g.n(13) {
	case 0:
		return A{t(g.p("1", "\"s\"", "true", "null", "[]", "{}"))}
	case 1, 2:
		return A{g.wRef()}
	case 3:
		return A{g.wRef(), t(g.p("+", "==", "&&")), g.wRef()}
	case 4:
		return A{t("f("), g.wRef(), t(","), g.wRef(), t(g.p(")", "...)"))}
	case 5:
		return A{t("["), g.wRef(), t(","), t("1"), t(","), g.wRef(), t("]")}
	case 6:
		return A{t("[for"), t("v"), t("in"), g.wRef(), t(":"), t("v.a"), t("if"), g.wRef(), t("]")}
	case 7:
		return A{t("\"p${"), g.wRef(), t("}-${"), g.wRef(), t("}\"")}
	case 8:
		return A{t("<<E\nl ${"), g.wRef(), t("}\nE")}
	case 9:
		return A{g.wRef(), t("?"), g.wRef(), t(":"), t("2")}
	case 10:
		return A{t("{k="), g.wRef(), t(",("), g.wRef(), t(")=1}")}
	case 11:
		return A{t("-"), g.wRef()}
	}
	return A{t("1"), t("+"), t("("), g.wRef(), t(")")}
}

func isDoc(e A) bool { s, ok := e[0].(A)[1].(string); return ok && strings.HasPrefix(s, "<<") }

func raw(ts ...string) J {
	a := A{}
	for _, t := range ts {
		a = append(a, t)
	}
	return A{"raw", a}
}

func (g tokGen) wAttr(n string) (A, bool) {
	e := g.wExpr()
	pre, post := A{}, A{}
	if !isDoc(e) && g.n(8) == 0 {
		// parentheses around the whole of an expression stay when it is replaced
		pre, post = A{"("}, A{")"}
	}
	return A{"attr", n, pre, e, post}, isDoc(e)
}

// wBody generates the items of a body; open is set within braces.
func (g tokGen) wBody(d int, open bool) A {
	out := A{}
	if open {
		switch g.n(6) {
		case 0:
			return out
		case 1:
			if a, doc := g.wAttr(g.p(wNames...)); !doc {
				return A{a}
			}
		case 2:
			out = append(out, raw("/* o */"))
		}
		out = append(out, raw(g.p("\n", "\n", "# o\n")))
	}
	perm := g.r.rng.Perm(len(wNames))
	for k := g.n(5); k > 0; k-- {
		end := g.n(10) == 0 && k == 1 && !open
		switch {
		case g.n(4) == 0:
			out = append(out, raw(g.p("# c\n", "\n", "// d\n")))
			continue
		case g.n(3) == 0 && d > 0:
			head := A{g.p("b", "c")}
			for j := g.n(3); j > 0; j-- {
				head = append(head, g.p("\"l\"", "m"))
			}
			out = append(out, A{"block", append(head, "{"), g.wBody(d-1, true), A{"}"}, true})
		case len(perm) > 0:
			a, doc := g.wAttr(wNames[perm[0]])
			perm = perm[1:]
			end = end && !doc
			out = append(out, a)
			if doc {
				out = append(out, raw("\n"))
				continue
			}
		default:
			continue
		}
		if end {
			if g.n(3) == 0 {
				out = append(out, raw("/* e */"))
			}
			continue
		}
		switch g.n(4) {
		case 0:
			out = append(out, raw("# t\n"))
		case 1:
			out = append(out, raw("/* t */", "\n"))
		default:
			out = append(out, raw("\n"))
		}
	}
	return out
}

func flatBody(b A) (out []string) {
	for _, it := range b {
		it := it.(A)
		switch it[0] {
		case "raw":
			out = append(out, strs(it[1])...)
		case "attr":
			out = append(append(out, it[1].(string), "="), strs(it[2])...)
			for _, p := range it[3].(A) {
				p := p.(A)
				if p[0] == "t" {
					out = append(out, p[1].(string))
					continue
				}
				s := ""
				for _, st := range p[1].(A) {
					for _, x := range st.(A)[1:] {
						s += x.(string)
					}
				}
				out = append(out, s)
			}
			out = append(out, strs(it[4])...)
		case "block":
			out = append(append(append(out, strs(it[1])...), flatBody(it[2].(A))...), strs(it[3])...)
		}
	}
	return
}

// wShape tracks just enough of a file to choose legal edits.
type wShape struct {
	kids    []*wShape
	oneLine bool
}

func shapeOf(b A, open bool) *wShape {
	s := &wShape{}
	if open && len(b) > 0 {
		f := flatBody(b)[0]
		s.oneLine = !strings.HasSuffix(f, "\n")
	}
	for _, it := range b {
		if it := it.(A); it[0] == "block" {
			s.kids = append(s.kids, shapeOf(it[2].(A), true))
		}
	}
	return s
}

func (g tokGen) wOp(root *wShape) A {
	s, path := root, A{}
	for len(s.kids) > 0 && g.n(2) == 0 {
		i := g.n(len(s.kids))
		s = s.kids[i]
		path = append(path, i+1)
	}
	add := func() { s.kids = append(s.kids, &wShape{}); s.oneLine = false }
	switch k := g.n(20); {
	case k < 5:
		return A{"setv", path, g.p(wNames...), g.wVal()}
	case k < 8:
		t := A{g.p("a", "q"), A{A{"a", g.p("b", "c")}, A{"i", A{"str", g.p("k", "")}}}}
		if g.n(2) == 0 {
			t = A{g.p("a", "b"), A{}}
		}
		return A{"setr", path, g.p(wNames...), t}
	case k < 10:
		add()
		ls := A{}
		for j := g.n(3); j > 0; j-- {
			ls = append(ls, g.p("l", "m", "q\"", "${"))
		}
		return A{"block", path, g.p("b", "n"), ls}
	case k == 10:
		add()
		return A{"attach", path, "m", A{"l"}, g.p(wNames...), g.wVal()}
	case k == 11 && !s.oneLine:
		return A{"nl", path}
	case k == 12 && !s.oneLine:
		return A{"raw", path, A{g.p("# r\n", "// r\n")}}
	case k == 13 && g.n(3) == 0:
		s.kids, s.oneLine = nil, false
		return A{"clear", path}
	case k < 18:
		switch g.n(3) {
		case 0:
			return A{"rename", path, g.p(wNames...), A{g.p("a", "b")}, A{g.p("q", "a")}}
		case 1:
			return A{"rename", path, g.p(wNames...), A{"a", g.p("b", "c")}, A{"p", "q"}}
		}
		return A{"rename", path, g.p(wNames...), A{"a", "b", "c"}, A{"p", "q", "r"}}
	}
	return A{"read", path}
}

func (g tokGen) wVal() J {
	if g.n(3) > 0 {
		return []J{A{"num", 2, 1}, A{"num", -3, 1}, A{"str", ""}, A{"str", "s"}, A{"str", "${a}"}, A{"bool", true}, A{"null", A{"string"}}, A{"num", 5, 2}}[g.n(8)]
	}
	return []J{A{"tuple", A{}}, A{"tuple", A{A{"num", 1, 1}, A{"str", "a\n"}}}, A{"obj", O{"a": A{"num", 1, 1}, "b c": A{"tuple", A{}}}}, A{"list", A{"string"}, A{A{"str", "\""}}}}[g.n(4)]
}

var wildRunes = []string{"a", "Z", " ", "$", "$", "{", "%", "~", "}", "\"", "\\", "\n", "\r", "\t", "u", "0", "é", "e\u0301", "\u0301", "世", "\U0001f44d🏽", "\u200d", "\u0600", "\x00", "\ufeff", "\U000e0001", "\u2028", "\u00a0", "\u00ad", "\x7f", "\u0085", "\ufffd", "#", "/*", "<<E", "'", "\U0001f1eb", "\u1100", "\u1161", "\u0903", "\x1b"}

func (g tokGen) wildStr() string {
	s := ""
	for k := g.n(6); k > 0; k-- {
		s += g.p(wildRunes...)
	}
	return s
}

func (g tokGen) wildVal(d int) cty.Value {
	k := g.n(10)
	if d == 0 {
		k = g.n(6)
	}
	switch k {
	case 0, 1:
		return cty.StringVal(g.wildStr())
	case 2:
		return cty.NumberIntVal(int64(g.n(2000) - 1000))
	case 3:
		v, err := cty.ParseNumberVal(g.p("", "-") + g.p("0.1", "1.5", "123456789012345678901234567890", "0.000001", "1e40", "1e-20", "3.14159265358979", "100", "0", "17179869184.25"))
		if err != nil {
			panic(err)
		}
		return v
	case 4:
		return cty.BoolVal(g.n(2) == 0)
	case 5:
		return []cty.Value{cty.NullVal(cty.String), cty.NullVal(cty.DynamicPseudoType), cty.NullVal(cty.List(cty.Number)), cty.EmptyObjectVal, cty.EmptyTupleVal, cty.ListValEmpty(cty.Bool), cty.MapValEmpty(cty.String), cty.SetValEmpty(cty.String)}[g.n(8)]
	case 6:
		var vs []cty.Value
		for j := g.n(4); j > 0; j-- {
			vs = append(vs, g.wildVal(d-1))
		}
		return cty.TupleVal(vs)
	case 7:
		m := map[string]cty.Value{}
		for j := g.n(4); j > 0; j-- {
			m[g.wildKey()] = g.wildVal(d - 1)
		}
		return cty.ObjectVal(m)
	case 8:
		m := map[string]cty.Value{}
		for j := 1 + g.n(3); j > 0; j-- {
			m[g.wildKey()] = cty.StringVal(g.wildStr())
		}
		return cty.MapVal(m)
	}
	var vs []cty.Value
	for j := 1 + g.n(3); j > 0; j-- {
		vs = append(vs, cty.StringVal(g.wildStr()))
	}
	if g.n(2) == 0 {
		return cty.SetVal(vs)
	}
	return cty.ListVal(vs)
}

func (g tokGen) wildKey() string {
	if g.n(2) == 0 {
		return g.p("a", "b", "for", "if", "in", "null", "true", "a b", "0", "1a", "a-b", "-", "", "é", "ßa", "a.b", "endif", "_x", "x_", "e\u0301", "a\u200d")
	}
	return g.wildStr()
}

// loadView lists what a loaded file holds, references read back as paths.
func loadView(b *hclwrite.Body) J {
	attrs, blocks := A{}, A{}
	m := b.Attributes()
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		var paths []J
		for _, v := range m[n].Expr().Variables() {
			src := string(v.BuildTokens(nil).Bytes())
			e, diags := hclsyntax.ParseExpression([]byte("("+src+")"), "", startPos)
			if diags.HasErrors() {
				// the tokens of a reference like (a).b begin inside the parentheses
				n := strings.Count(src, ")") - strings.Count(src, "(")
				e, diags = hclsyntax.ParseExpression([]byte("("+strings.Repeat("(", n*b2i(n > 0))+src+")"), "", startPos)
			}
			if diags.HasErrors() {
				paths = append(paths, A{"unreadable " + src, A{}})
				continue
			}
			t, diags := hcl.AbsTraversalForExpr(e)
			if diags.HasErrors() {
				paths = append(paths, A{"not a reference " + src, A{}})
				continue
			}
			paths = append(paths, encPath(t))
		}
		attrs = append(attrs, A{n, sortedSet(A(paths))})
	}
	for _, k := range b.Blocks() {
		blocks = append(blocks, loadView(k.Body()))
	}
	return O{"attrs": attrs, "blocks": blocks}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func sortView(j J) J {
	o := j.(O)
	as, _ := o["attrs"].(A)
	bs, _ := o["blocks"].(A)
	attrs, blocks := A{}, A{}
	for _, a := range as {
		attrs = append(attrs, A{a.(A)[0], sortedSet(a.(A)[1])})
	}
	sort.Slice(attrs, func(i, j int) bool { return attrs[i].(A)[0].(string) < attrs[j].(A)[0].(string) })
	for _, b := range bs {
		blocks = append(blocks, sortView(b))
	}
	return O{"attrs": attrs, "blocks": blocks}
}

// loadLaws loads a text and checks that it is kept; nothing is listed for an
// invalid text.
func loadLaws(src string) (valid bool, view J, bad string) {
	view = O{"attrs": A{}, "blocks": A{}}
	p := guard(src, func() {
		_, d := hclsyntax.ParseConfig([]byte(src), "", startPos)
		in := []byte(src)
		f, diags := hclwrite.ParseConfig(in, "", startPos)
		if d.HasErrors() != diags.HasErrors() {
			bad = "loading and parsing disagree on validity"
			return
		}
		if d.HasErrors() {
			return
		}
		valid = true
		toks, end := ftoks(src)
		if strings.HasPrefix(src, "\ufeff") && len(toks) > 0 {
			toks[0].spaces -= 3
		} else if strings.HasPrefix(src, "\ufeff") {
			end -= 3
		}
		var sp []int
		for _, t := range toks {
			sp = append(sp, t.spaces)
		}
		want := laidOut(toks, sp, end)
		if got := string(f.BuildTokens(nil).Bytes()); got != want {
			bad = "loaded tokens are " + got
			return
		}
		g, _ := hclwrite.ParseConfig(in, "", hcl.Pos{Line: 7, Column: 3, Byte: 11})
		if got := string(g.BuildTokens(nil).Bytes()); got != want {
			bad = "loaded tokens with a start position are " + got
			return
		}
		view = loadView(f.Body())
		if got := string(f.BuildTokens(nil).Bytes()); got != want {
			bad = "reading changed the tokens to " + got
			return
		}
		if got, want := string(f.Bytes()), string(hclwrite.Format([]byte(strings.TrimPrefix(src, "\ufeff")))); got != want {
			bad = "saving gives " + got + " but formatting " + want
		}
		if string(in) != src {
			bad = "loading changed its input"
		}
	})
	if p != "" {
		bad = p
	}
	return valid, ascii(norm(view)), bad
}

func init() {
	replayers["value"] = func(r *runner, c O) {
		name := named.Replace
		var outs []J
		var srcs []string
		var want J
		if c["kind"] == "val" {
			outs, srcs = writeValue(decVal(mapStrings(c["v"], name)))
			want = norm(mapStrings(c["want"], name))
		} else {
			outs, srcs = writePath(decPath(mapStrings(c["path"], name)))
			want = norm(mapStrings(c["path"], name))
		}
		for i := range outs {
			if !same(outs[i], want) {
				r.Mismatch(srcs[i], jstr(c), want, outs[i])
				return
			}
		}
		r.Count(c["kind"].(string))
		r.Sample(srcs[0])
	}
	recorders["value"] = func(r *runner, n int) {
		g := tokGen{r}
		for r.cases < n {
			var outs []J
			var srcs []string
			var v J
			kind := "val"
			if g.n(4) > 0 {
				val := g.wildVal(3)
				v = norm(encVal(val))
				outs, srcs = writeValue(val)
			} else {
				kind = "path"
				t := hcl.Traversal{hcl.TraverseRoot{Name: g.p("a", "for", "if", "é", "in", "a-b", "x_1", "endfor")}}
				for k := g.n(5); k > 0; k-- {
					switch g.n(3) {
					case 0:
						t = append(t, hcl.TraverseAttr{Name: g.p("b", "for", "true", "null", "é", "a-b", "in")})
					case 1:
						t = append(t, hcl.TraverseIndex{Key: cty.NumberIntVal(int64(g.n(300)))})
					default:
						t = append(t, hcl.TraverseIndex{Key: cty.StringVal(g.wildStr())})
					}
				}
				v = norm(encPath(t))
				outs, srcs = writePath(t)
			}
			v = mapStrings(v, plainText)
			for i := range outs {
				r.Record(O{"kind": kind, "v": v, "got": mapStrings(outs[i], plainText), "src": srcs[i]}, 2)
			}
			r.Count(kind)
			r.Sample(srcs[0])
		}
	}
	replayers["write"] = func(r *runner, c O) {
		g := tokGen{r}
		src := g.spaced(strs(c["file"]))
		ops, _ := c["ops"].(A)
		key := jstr(src) + jstr(ops)
		var text string
		var view J
		bad := writeRun(src, ops, func(k int, t string, v J) { text, view = t, v })
		if bad != "" {
			r.Mismatch(key, O{"file": src, "ops": ops}, c["text"], bad)
			return
		}
		if text != c["text"] {
			r.Mismatch(key, O{"file": src, "ops": ops}, c["text"], text)
		} else if !same(norm(view), norm(c["view"])) {
			r.Mismatch(key, O{"file": src, "ops": ops}, c["view"], view)
		}
		r.Count(fmt.Sprint(len(ops), " edits"))
		r.Sample(O{"file": src, "ops": ops})
	}
	recorders["write"] = func(r *runner, n int) {
		g := tokGen{r}
		for r.cases < n {
			file := norm(g.wBody(2, false)).(A)
			src := g.spaced(flatBody(file))
			shape := shapeOf(file, false)
			ops := A{}
			for k := g.n(9); k > 0; k-- {
				ops = append(ops, g.wOp(shape))
			}
			ops = norm(ops).(A)
			got := A{}
			bad := writeRun(src, ops, func(k int, t string, v J) { got = append(got, O{"text": t, "view": v}) })
			if bad != "" {
				r.Mismatch(src+jstr(ops), O{"file": src, "ops": ops}, "a valid file", bad)
				r.cases++
				continue
			}
			r.Sample(O{"file": src, "ops": ops})
			r.Record(O{"file": file, "ops": ops, "got": got, "src": src}, len(ops)+1)
		}
	}
	replayers["load"] = func(r *runner, c O) {
		src := charsText(strs(c["chars"]))
		valid, view, bad := loadLaws(src)
		if bad == "" && !valid {
			bad = "not valid"
		}
		if bad != "" {
			r.Mismatch(src, src, "kept unchanged", bad)
		} else if !same(norm(sortView(view)), norm(sortView(c["view"]))) {
			r.Mismatch(src, src, sortView(c["view"]), view)
		}
		r.Sample(src)
	}
	recorders["load"] = func(r *runner, n int) {
		g := tokGen{r}
		for r.cases < n {
			src := g.confText()
			if g.n(6) == 0 {
				src = charsText(g.mutText(split(src)))
			}
			if g.n(10) == 0 {
				src = "\ufeff" + src
			}
			if strings.Contains(src, "\r") || len(src) > 150 || !utf8.ValidString(src) {
				continue
			}
			valid, view, bad := loadLaws(src)
			if bad != "" {
				r.Mismatch(src, src, "kept unchanged", bad)
				r.cases++
				continue
			}
			if valid {
				r.Count("valid text")
			}
			r.Sample(src)
			chars := A{}
			for _, ch := range split(src) {
				chars = append(chars, ch)
			}
			r.Record(O{"chars": chars, "valid": valid, "got": view, "src": src}, 2)
		}
	}
}
