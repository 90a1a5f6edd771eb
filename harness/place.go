package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcled"
)

// Where constructs are in the source: the pieces a configuration is written
// with (see spec/Place.tla) are only used here to write it; where the
// constructs are is worked out by the model.

type placeGen struct {
	rng  *rand.Rand
	sb   strings.Builder
	fill A
	gen  bool
}

func (g *placeGen) t(s string) { g.sb.WriteString(s) }

// a place for blanks; lines tells if it may hold line breaks
func (g *placeGen) f(kind string) {
	s := ""
	if g.gen {
		switch kind {
		case "line": // before an item
			s = pick(g.rng, "", "", "  ", "# c\n", "\n\n", "/* é */ ", "// x = 1\n  ")
		case "end":
			s = pick(g.rng, "", "", "", " ", " # c", " // }", "/* } */")
		case "none":
		case "nl":
			s = pick(g.rng, "", "", " ", "\n", "\n  ", " # c\n ", "/* ] */")
		default:
			s = pick(g.rng, "", " ", " ", "  ", "\t", "/* é */", "/* } */ ")
		}
		g.fill = append(g.fill, s)
	} else {
		s = g.fill[0].(string)
		g.fill = g.fill[1:]
	}
	g.sb.WriteString(s)
}

func (g *placeGen) args(es A) {
	for i, e := range es {
		g.f("nl")
		g.expr(e.(A), true)
		g.f("in")
		if i < len(es)-1 {
			g.t(",")
		}
	}
}

func (g *placeGen) parts(ps A) {
	for _, x := range ps {
		p := x.(A)
		switch p[0] {
		case "s":
			g.t(p[1].(string))
		case "i":
			g.t("${")
			g.f("in")
			g.expr(p[1].(A), false)
			g.f("in")
			g.t("}")
		case "tif":
			g.t("%{if ")
			g.expr(p[1].(A), false)
			g.f("in")
			g.t("}" + p[2].(string) + "%{else}" + p[3].(string) + "%{endif}")
		}
	}
}

func placeFor(e A) string {
	if e[1].(string) == "" {
		return e[2].(string)
	}
	return e[1].(string) + ", " + e[2].(string)
}

func (g *placeGen) expr(e A, nl bool) {
	switch e[0] {
	case "lit":
		v := e[1].(A)
		switch v[0] {
		case "str":
			g.t(`"` + v[1].(string) + `"`)
		case "num":
			g.t(fmt.Sprint(jint(v[1])))
		case "bool":
			g.t(fmt.Sprint(v[1]))
		default:
			g.t("null")
		}
	case "var":
		g.t(e[1].(string))
	case "paren":
		g.t("(")
		g.f("nl")
		g.expr(e[1].(A), true)
		g.f("nl")
		g.t(")")
	case "attr":
		g.expr(e[1].(A), nl)
		g.f("in")
		g.t(".")
		g.f("in")
		g.t(e[2].(string))
	case "idx":
		g.expr(e[1].(A), nl)
		g.t("[")
		g.f("nl")
		if k := e[2].(A); k[0] == "lit" {
			if v := k[1].(A); v[0] == "num" {
				g.t(fmt.Sprint(jint(v[1])))
			} else {
				g.t(`"` + v[1].(string) + `"`)
			}
		} else {
			g.expr(k, true)
		}
		g.f("nl")
		g.t("]")
	case "splat":
		g.expr(e[1].(A), nl)
		if e[2] == "full" {
			g.t("[*]")
		} else {
			g.t(".*")
		}
		for _, n := range e[3].(A) {
			g.t("." + n.(string))
		}
	case "call":
		g.t(e[1].(string) + "(")
		g.args(e[2].(A))
		if e[3].(bool) {
			g.t("...")
			g.f("in")
		}
		g.t(")")
	case "cond":
		g.expr(e[1].(A), nl)
		g.f("in")
		g.t("?")
		g.f("in")
		g.expr(e[2].(A), nl)
		g.f("in")
		g.t(":")
		g.f("in")
		g.expr(e[3].(A), nl)
	case "bin":
		g.expr(e[2].(A), nl)
		g.f("in")
		g.t(e[1].(string))
		g.f("in")
		g.expr(e[3].(A), nl)
	case "un":
		g.t(e[1].(string))
		g.f("in")
		g.expr(e[2].(A), nl)
	case "tuple":
		g.t("[")
		g.args(e[1].(A))
		g.t("]")
	case "obj":
		fs := e[1].(A)
		g.t("{")
		for i, x := range fs {
			f := x.(A)
			g.f("nl")
			if f[0] == "id" {
				g.t(f[1].(string))
			} else if k := f[1].(A); k[0] == "lit" {
				g.expr(k, false)
			} else {
				g.t("(")
				g.expr(k, true)
				g.t(")")
			}
			g.f("in")
			g.t("=")
			g.f("in")
			g.expr(f[2].(A), false)
			g.f("in")
			if i < len(fs)-1 {
				g.t(",")
			}
		}
		g.t("}")
	case "tmpl":
		g.t(`"`)
		g.parts(e[1].(A))
		g.t(`"`)
	case "here":
		g.t("<<EOT\n")
		g.parts(e[1].(A))
		g.t("\nEOT")
	case "fort":
		g.t("[")
		g.f("nl")
		g.t("for " + placeFor(e) + " in ")
		g.expr(e[3].(A), true)
		g.f("in")
		g.t(":")
		g.f("nl")
		g.expr(e[4].(A), true)
		if e[5].(bool) {
			g.t(" if ")
			g.expr(e[6].(A), true)
		}
		g.f("in")
		g.t("]")
	case "foro":
		g.t("{")
		g.f("nl")
		g.t("for " + placeFor(e) + " in ")
		g.expr(e[3].(A), true)
		g.f("in")
		g.t(":")
		g.f("nl")
		g.expr(e[4].(A), true)
		g.f("in")
		g.t("=>")
		g.f("in")
		g.expr(e[5].(A), true)
		if e[6].(bool) {
			g.t("...")
		}
		g.f("in")
		g.t("}")
	default:
		panic(fmt.Sprint("place: ", e))
	}
}

func (g *placeGen) item(it A) {
	if it[0] == "a" {
		g.t(it[1].(string))
		g.f("in")
		g.t("=")
		g.f("in")
		g.expr(it[2].(A), false)
		return
	}
	g.t(it[1].(string))
	for _, x := range it[2].(A) {
		l := x.(A)
		if l[0].(bool) {
			g.t(` "` + l[1].(string) + `"`)
		} else {
			g.t(" " + l[1].(string))
		}
	}
	g.f("in")
	g.t("{")
	switch it[3] {
	case "empty":
		g.f("in")
	case "line":
		g.f("in")
		g.item(it[4].(A)[0].(A))
		g.f("in")
	default:
		g.t("\n")
		g.items(it[4].(A))
	}
	g.t("}")
}

func (g *placeGen) items(its A) {
	for _, x := range its {
		it := x.(A)
		g.f("line")
		g.item(it)
		if it[0] == "a" && it[2].(A)[0] == "here" {
			g.f("none")
		} else {
			g.f("end")
		}
		g.t("\n")
	}
}

// the expression generator: operands that need parentheses have them

func (g *placeGen) atom(d int) A {
	r := g.rng
	switch n := r.Intn(12); {
	case n < 2:
		return A{"lit", A{"num", r.Intn(120), 1}}
	case n == 2:
		return A{"lit", A{"bool", r.Intn(2) == 0}}
	case n == 3:
		return A{"lit", A{"str", pick(r, "x", "a b", "é", "é\U0001f600", "{")}}
	case n == 4 && d > 0:
		return A{"paren", g.ex(d - 1)}
	case n == 5 && d > 0:
		return A{"call", pick(r, "f", "upper"), g.list(d-1, 1), r.Intn(3) == 0}
	case n == 6 && d > 0:
		return A{"tuple", g.list(d-1, 0)}
	case n == 7 && d > 0:
		return g.tmpl(d-1, false)
	}
	return A{"var", pick(r, "a", "foo", "b_1", "été")}
}

func (g *placeGen) list(d, min int) A {
	es := A{}
	for i := g.rng.Intn(3) + min; i > 0; i-- {
		es = append(es, g.ex(d))
	}
	return es
}

func (g *placeGen) tmpl(d int, here bool) A {
	ps := A{}
	last := ""
	for i := g.rng.Intn(3) + 1; i > 0; i-- {
		switch k := g.rng.Intn(5); {
		case k < 2 && last != "s":
			ps = append(ps, A{"s", pick(g.rng, "x", "a b", "é ", "}", "é\U0001f600")})
			last = "s"
		case k == 4 && d > 0:
			ps = append(ps, A{"tif", g.ex(d - 1), pick(g.rng, "x", "é "), pick(g.rng, "y", "z z")})
			last = "t"
		default:
			ps = append(ps, A{"i", g.ex(d)})
			last = "i"
		}
	}
	if here {
		if last != "i" || len(ps) == 0 {
			ps = append(ps, A{"i", g.ex(d)})
		}
		return A{"here", ps}
	}
	return A{"tmpl", ps}
}

// postfix chains over an operand
func (g *placeGen) operand(d int) A {
	r := g.rng
	e := g.atom(d)
	if e[0] == "lit" || r.Intn(2) == 0 {
		return e
	}
	if e[0] == "paren" && e[1].(A)[0] != "bin" && e[1].(A)[0] != "cond" && e[1].(A)[0] != "tuple" {
		return e
	}
	for i := r.Intn(3); i > 0; i-- {
		switch k := r.Intn(4); {
		case k == 0 && d > 0:
			x := g.ex(d - 1)
			if x[0] == "lit" || x[0] == "paren" || x[0] == "tmpl" {
				x = A{"var", "k"}
			}
			e = A{"idx", e, x}
		case k == 1:
			e = A{"idx", e, A{"lit", A{"num", r.Intn(3), 1}}}
		case k == 2:
			e = A{"idx", e, A{"lit", A{"str", pick(r, "k", "é")}}}
		default:
			e = A{"attr", e, pick(r, "x", "yy")}
		}
	}
	if r.Intn(5) == 0 {
		ns := A{}
		for i := r.Intn(3); i > 0; i-- {
			ns = append(ns, pick(r, "x", "yy"))
		}
		e = A{"splat", e, pick(r, "attr", "full"), ns}
	}
	return e
}

func (g *placeGen) ex(d int) A {
	r := g.rng
	if d <= 0 {
		return g.operand(0)
	}
	wrap := func(e A) A {
		if e[0] == "bin" || e[0] == "cond" || e[0] == "un" {
			return A{"paren", e}
		}
		return e
	}
	switch r.Intn(9) {
	case 0:
		return A{"cond", wrap(g.ex(d - 1)), wrap(g.ex(d - 1)), wrap(g.ex(d - 1))}
	case 1, 2:
		op := pick(r, "+", "*", "==", "<=", "&&", "||", "%")
		left := g.ex(d - 1)
		if left[0] == "bin" && (left[1] == op && op != "==" && op != "<=" || op == "||") {
			return A{"bin", op, left, wrap(g.ex(d - 1))}
		}
		return A{"bin", op, wrap(left), wrap(g.ex(d - 1))}
	case 3:
		return A{"un", pick(r, "!", "-"), wrap(g.ex(d - 1))}
	case 4:
		fs := A{}
		for i := r.Intn(3); i > 0; i-- {
			switch r.Intn(3) {
			case 0:
				fs = append(fs, A{"id", pick(r, "k", "kk"), g.ex(d - 1)})
			case 1:
				fs = append(fs, A{"e", A{"lit", A{"str", pick(r, "k", "é")}}, g.ex(d - 1)})
			default:
				k := g.ex(d - 1)
				if k[0] == "lit" || k[0] == "paren" {
					k = A{"var", "k"}
				}
				fs = append(fs, A{"e", k, g.ex(d - 1)})
			}
		}
		return A{"obj", fs}
	case 5:
		return A{"fort", pick(r, "", "k"), "v", g.ex(d - 1), g.ex(d - 1), r.Intn(2) == 0, g.ex(d - 1)}
	case 6:
		return A{"foro", pick(r, "", "k"), "v", g.ex(d - 1), g.ex(d - 1), g.ex(d - 1), r.Intn(2) == 0}
	}
	return g.operand(d)
}

func (g *placeGen) body(d, max int) A {
	r := g.rng
	its := A{}
	names := map[string]bool{}
	for i := r.Intn(max + 1); i > 0; i-- {
		if d == 0 || r.Intn(2) == 0 {
			n := pick(r, "a", "bb", "c-d", "é", "e", "g")
			if names[n] {
				continue
			}
			names[n] = true
			e := g.ex(r.Intn(3))
			if r.Intn(8) == 0 {
				e = g.tmpl(1, true)
			}
			its = append(its, A{"a", n, e})
			continue
		}
		ls := A{}
		for j := r.Intn(3); j > 0; j-- {
			ls = append(ls, A{r.Intn(2) == 0, pick(r, "x", "l1", "é")})
		}
		b := A{"b", pick(r, "blk", "s"), ls}
		switch r.Intn(4) {
		case 0:
			b = append(b, "empty", A{})
		case 1:
			b = append(b, "line", A{A{"a", "n", g.ex(1)}})
		default:
			b = append(b, "lines", g.body(d-1, max))
		}
		its = append(its, b)
	}
	return its
}

// placeText writes the items with the fillers.
func placeText(items, fill A) string {
	g := &placeGen{fill: append(A{}, fill...)}
	g.items(items)
	return g.sb.String()
}

// placeASCII keeps positions counted in bytes: every character outside ASCII
// is replaced by as many placeholders as it has bytes.
func placeASCII(v interface{}) interface{} {
	switch x := v.(type) {
	case string:
		b := []byte(x)
		for i := range b {
			if b[i] >= 0x80 {
				b[i] = '~'
			}
		}
		return string(b)
	case A:
		out := A{}
		for _, e := range x {
			out = append(out, placeASCII(e))
		}
		return out
	}
	return v
}

// placeRng gives the range, or a description of what is wrong with it: lines
// and columns have to be those of the offsets
func placeRng(src string, kind string, r hcl.Range) A {
	for _, p := range []hcl.Pos{r.Start, r.End} {
		if p.Byte < 0 || p.Byte > len(src) {
			return A{kind + " out of the source", r.Start.Byte, r.End.Byte}
		}
		if w := placePos(src, p.Byte); w != p {
			return A{fmt.Sprintf("%s position %v should be %v", kind, p, w), r.Start.Byte, r.End.Byte}
		}
	}
	return A{kind, r.Start.Byte, r.End.Byte}
}

// placePos counts lines and characters up to an offset
func placePos(src string, off int) hcl.Pos {
	p := hcl.Pos{Line: 1, Column: 1, Byte: off}
	seg := src[:off]
	if i := strings.LastIndex(seg, "\n"); i >= 0 {
		p.Line += strings.Count(seg, "\n")
		seg = seg[i+1:]
	}
	// the only combining sequence written is e + U+0301
	p.Column += len([]rune(strings.Replace(seg, "é", "e", -1)))
	return p
}

func placeNodes(src string, body *hclsyntax.Body) A {
	out := A{}
	add := func(kind string, r hcl.Range) { out = append(out, placeRng(src, kind, r)) }
	hclsyntax.VisitAll(body, func(n hclsyntax.Node) hcl.Diagnostics {
		switch x := n.(type) {
		case *hclsyntax.Attribute:
			add("Attribute", x.Range())
			add("name", x.NameRange)
			add("equals", x.EqualsRange)
			h := x.AsHCLAttribute()
			if h.Range != x.SrcRange || h.NameRange != x.NameRange {
				add("attribute differs", h.Range)
			}
		case *hclsyntax.Block:
			h := x.AsHCLBlock()
			add("Block", x.Range())
			add("type", h.TypeRange)
			for _, l := range h.LabelRanges {
				add("label", l)
			}
			add("def", h.DefRange)
			add("open", x.OpenBraceRange)
			add("close", x.CloseBraceRange)
			if h.TypeRange != x.TypeRange {
				add("block differs", x.TypeRange)
			}
		case *hclsyntax.Body, hclsyntax.Attributes, hclsyntax.Blocks:
		default:
			kind := reflect.TypeOf(n).String()
			kind = kind[strings.LastIndex(kind, ".")+1:]
			r := n.Range()
			switch {
			case kind == "ChildScope":
				return nil
			case kind == "TemplateExpr":
				// the text between control sequences, which has no
				// delimiters of its own, is not a construct
				if s := r.Start.Byte; s < 0 || s >= len(src) || src[s] != '"' && src[s] != '<' {
					return nil
				}
			case kind == "LiteralValueExpr" && r.Empty():
				return nil
			}
			add(kind, r)
		}
		return nil
	})
	sort.SliceStable(out, func(i, j int) bool { return jstr(out[i]) < jstr(out[j]) })
	return out
}

var placeJSON, _ = json.Parse([]byte("{\n  \"a\": \"${x}\",\n  \"b\": {\"l\": {\"c\": [1, 2]}}\n}\n"), "p.json")

// placeAt looks a position up in every way there is.
func placeAt(src string, file *hcl.File, p int) O {
	pos := placePos(src, p)
	// the JSON syntax need not find anything, but answers
	for _, f := range []*hcl.File{placeJSON, {Body: hcl.EmptyBody()}} {
		f.BlocksAtPos(pos)
		f.OutermostBlockAtPos(pos)
		f.InnermostBlockAtPos(pos)
		f.AttributeAtPos(pos)
		f.OutermostExprAtPos(pos)
		hcled.ContextString(f, p)
		hcled.ContextDefRange(f, p)
	}
	bs := A{}
	var fail []string
	blocks := file.BlocksAtPos(pos)
	for _, b := range blocks {
		bs = append(bs, b.DefRange.Start.Byte)
	}
	first, last := file.OutermostBlockAtPos(pos), file.InnermostBlockAtPos(pos)
	if len(blocks) == 0 {
		if first != nil || last != nil {
			fail = append(fail, "outermost or innermost block without blocks")
		}
	} else {
		if first == nil || first.DefRange != blocks[0].DefRange {
			fail = append(fail, "outermost block is not the first")
		}
		if last == nil || last.DefRange != blocks[len(blocks)-1].DefRange {
			fail = append(fail, "innermost block is not the last")
		}
	}
	as, es := A{}, A{}
	if a := file.AttributeAtPos(pos); a != nil {
		as = append(as, a.Range.Start.Byte)
	}
	if e := file.OutermostExprAtPos(pos); e != nil {
		es = append(es, A{e.Range().Start.Byte, e.Range().End.Byte})
	}
	def := hcled.ContextDefRange(file, p)
	fine := def == file.Body.MissingItemRange()
	if len(blocks) > 0 {
		// the header, with or without the opening brace
		want := blocks[0].DefRange
		fine = def.Start == want.Start && def.End.Byte >= want.End.Byte && def.End.Byte <= len(src) &&
			!strings.Contains(src[want.End.Byte:def.End.Byte], "\n")
	}
	if !fine {
		fail = append(fail, fmt.Sprintf("context is %v", def))
	}
	got := O{"blocks": bs, "attr": as, "expr": es, "ctx": placeASCII(hcled.ContextString(file, p))}
	if len(fail) > 0 {
		got["fail"] = strings.Join(fail, "; ")
	}
	return got
}

func placeParse(src string) (*hcl.File, string) {
	var file *hcl.File
	var diags hcl.Diagnostics
	if p := guard("parse", func() { file, diags = hclsyntax.ParseConfig([]byte(src), "p.hcl", hcl.Pos{Line: 1, Column: 1}) }); p != "" {
		return nil, p
	}
	if diags.HasErrors() {
		return nil, "errors: " + diags.Error()
	}
	return file, ""
}

func init() {
	recorders["place"] = func(r *runner, n int) {
		rng := r.rng
		for r.cases < n {
			g := &placeGen{rng: rng, gen: true, fill: A{}}
			items := g.body(2, 3)
			g.items(items)
			src := g.sb.String()
			if len(src) > 400 {
				continue
			}
			file, msg := placeParse(src)
			if file == nil {
				r.Mismatch(src, O{"src": src}, "parsed", msg)
				continue
			}
			var nodes A
			ats := A{}
			if p := guard("places", func() {
				nodes = placeNodes(src, file.Body.(*hclsyntax.Body))
				step := 1 + len(src)/60
				for p := rng.Intn(step); p <= len(src); p += step {
					ats = append(ats, A{p, placeAt(src, file, p)})
				}
			}); p != "" {
				r.Mismatch(src, O{"src": src}, "no panic", p)
				continue
			}
			r.Record(O{"items": placeASCII(items), "fill": placeASCII(g.fill), "text": placeASCII(src), "src": src, "got": O{"nodes": nodes, "ats": ats}}, 2)
		}
	}
	replayers["place"] = func(r *runner, c O) {
		items, fill := c["items"].(A), c["fill"].(A)
		src := placeText(items, fill)
		if src != c["text"] {
			r.Mismatch("text", c, c["text"], src)
			return
		}
		file, msg := placeParse(src)
		if file == nil {
			r.Mismatch(src, O{"src": src}, "parsed", msg)
			return
		}
		if p := guard("places", func() {
			nodes := placeNodes(src, file.Body.(*hclsyntax.Body))
			want := append(A{}, c["nodes"].(A)...)
			sort.SliceStable(want, func(i, j int) bool { return jstr(want[i]) < jstr(want[j]) })
			if jstr(nodes) != jstr(want) {
				r.Mismatch(src, O{"src": src}, want, nodes)
				return
			}
			wants := map[int]interface{}{}
			for _, x := range c["ats"].(A) {
				wants[int(jint(x.(A)[0]))] = x.(A)[1]
			}
			var w interface{}
			for p := 0; p <= len(src); p++ {
				if x, ok := wants[p]; ok {
					w = x
				}
				o := placeAt(src, file, p)
				got := A{o["blocks"], o["attr"], o["expr"], o["ctx"]}
				if fail, ok := o["fail"]; ok {
					got = append(got, fail)
				}
				if !same(w, norm(got)) {
					r.Mismatch(src, O{"src": src, "pos": p}, w, got)
					return
				}
			}
		}); p != "" {
			r.Mismatch(src, O{"src": src}, "no panic", p)
		}
	}
}
