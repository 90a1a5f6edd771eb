package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcled"
)

// jpRng gives start and end of a range, or a description of what is wrong
// with it. Columns are only compared when there are no tabs and carriage
// returns, of which the column is a matter of convention.
func jpRng(src string, r hcl.Range) A {
	for _, p := range []hcl.Pos{r.Start, r.End} {
		if p.Byte < 0 || p.Byte > len(src) {
			return A{"out of the source", r.Start.Byte, r.End.Byte}
		}
		w := placePos(src, p.Byte)
		if strings.ContainsAny(src, "\t\r") {
			w.Column = p.Column
		}
		if w != p {
			return A{fmt.Sprintf("said to be at %d,%d but at %d,%d", p.Line, p.Column, w.Line, w.Column), r.Start.Byte, r.End.Byte}
		}
	}
	if r.Filename != "t.json" {
		return A{"in file " + r.Filename, r.Start.Byte, r.End.Byte}
	}
	return A{r.Start.Byte, r.End.Byte}
}

func jpSort(ls ...A) {
	for _, l := range ls {
		at := func(i int) int {
			for _, x := range l[i].(A) {
				if n, ok := x.(int); ok {
					return n
				}
			}
			return 0
		}
		sort.SliceStable(l, func(i, j int) bool { return at(i) < at(j) })
	}
}

// strings that are wholly a path or a call
var (
	jpPath = regexp.MustCompile(`^"[a-z]+(\.[a-z]+)*"$`)
	jpCall = regexp.MustCompile(`^"[a-z]+\([a-z]+\)"$`)
)

// jpSee reads a document as a configuration and gives where everything is.
func jpSee(src string, names []string, nl int) (got O, f *hcl.File) {
	f, diags := json.Parse([]byte(src), "t.json")
	if diags.HasErrors() {
		return O{"error": diags.Error()}, nil
	}
	vals, nms, refs, stat, args, blocks := A{}, A{}, A{}, A{}, A{}, A{}
	sch := &hcl.BodySchema{}
	for _, n := range names {
		sch.Attributes = append(sch.Attributes, hcl.AttributeSchema{Name: n})
	}
	ct, _, diags := f.Body.PartialContent(sch)
	if diags.HasErrors() {
		return O{"error": diags.Error()}, nil
	}
	var walk func(e hcl.Expression)
	walk = func(e hcl.Expression) {
		r, s := jpRng(src, e.Range()), jpRng(src, e.StartRange())
		if len(s) != 2 || s[0] != r[0] {
			r = append(r, "starts at", s)
		} else {
			r = append(r, s[1])
		}
		vals = append(vals, r)
		if rng := e.Range(); rng.CanSliceBytes([]byte(src)) {
			text := string(rng.SliceBytes([]byte(src)))
			if jpPath.MatchString(text) {
				if t, d := hcl.AbsTraversalForExpr(e); d.HasErrors() {
					stat = append(stat, A{d.Error()})
				} else {
					stat = append(stat, jpRng(src, t.SourceRange()))
				}
			} else if jpCall.MatchString(text) {
				if c, d := hcl.ExprCall(e); d.HasErrors() {
					stat = append(stat, A{d.Error()})
				} else {
					stat = append(stat, jpRng(src, hcl.RangeBetween(c.NameRange, c.ArgsRange)))
				}
			}
		}
		if kvs, d := hcl.ExprMap(e); !d.HasErrors() {
			for _, kv := range kvs {
				nms = append(nms, jpRng(src, kv.Key.Range()))
				walk(kv.Value)
			}
		} else if es, d := hcl.ExprList(e); !d.HasErrors() {
			for _, x := range es {
				walk(x)
			}
		}
	}
	for _, a := range ct.Attributes {
		nr, ar := jpRng(src, a.NameRange), jpRng(src, a.Range)
		ent := append(A{a.Name}, nr...)
		if len(ar) != 2 || ar[0] != nr[0] {
			ent = append(ent, "begins", ar)
		} else {
			ent = append(ent, ar[1])
		}
		args = append(args, ent)
		walk(a.Expr)
		for _, t := range a.Expr.Variables() {
			ref := append(A{t.RootName()}, jpRng(src, t.SourceRange())...)
			refs = append(refs, ref)
		}
	}
	jpSort(vals, nms, refs, stat, args)
	if nl < 9 {
		var ls []string
		for i := 0; i < nl; i++ {
			ls = append(ls, fmt.Sprintf("l%d", i))
		}
		ct, _, diags := f.Body.PartialContent(&hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "b", LabelNames: ls}}})
		if diags.HasErrors() {
			return O{"error": diags.Error()}, nil
		}
		for _, b := range ct.Blocks {
			lr := A{}
			for i, r := range b.LabelRanges {
				at := jpRng(src, r)
				if s, ok := at[0].(int); ok && src[s+1:at[1].(int)-1] != b.Labels[i] {
					at = append(at, "is label", b.Labels[i])
				}
				lr = append(lr, at)
			}
			blocks = append(blocks, A{jpRng(src, b.TypeRange), lr, jpRng(src, b.DefRange), jpRng(src, b.Body.MissingItemRange())})
		}
	}
	return O{"vals": vals, "names": nms, "refs": refs, "stat": stat, "args": placeASCII(args), "missing": jpRng(src, f.Body.MissingItemRange()), "blocks": blocks}, f
}

type jpGen struct {
	r   *runner
	n   int
	tab bool
}

func (g *jpGen) pick(xs ...string) string { return xs[g.r.rng.Intn(len(xs))] }

func (g *jpGen) parts() A {
	ps := A{}
	for n := g.r.rng.Intn(4); n > 0; n-- {
		if g.r.rng.Intn(2) == 0 {
			ps = append(ps, A{"t", g.pick("a", "bc ", "世", "ü-", "$${q} ", "%%{q} ", "/", "a.b", "f(a)", "f", ".c", " } ", "#", "[{")})
		} else {
			ps = append(ps, A{"r", g.pick("v", "ww", "foo_bar")})
		}
	}
	if g.r.rng.Intn(6) == 0 {
		// no places are known behind an escape
		ps = A{A{"t", g.pick(`\"`, `\\`, `A`, `a\nb`, `\/\"x`)}}
	}
	return ps
}

func (g *jpGen) name(ref bool) A {
	if ref && g.r.rng.Intn(6) == 0 {
		return A{A{"r", g.pick("v", "ww")}}
	}
	return A{A{"t", g.pick("a", "b", "c-d", "x y", "é", "", "k.l", "0")}}
}

func (g *jpGen) value(depth int) A {
	if depth == 0 {
		switch g.r.rng.Intn(5) {
		case 0, 1, 2:
			return A{"s", g.parts()}
		}
		return A{"w", g.pick("1", "-2.5e1", "0", "true", "false", "null", "1234567")}
	}
	switch g.r.rng.Intn(5) {
	case 0, 1:
		ps := A{}
		for n := g.r.rng.Intn(4); n > 0; n-- {
			ps = append(ps, A{g.name(true), g.value(g.r.rng.Intn(depth))})
		}
		return A{"o", ps}
	case 2, 3:
		es := A{}
		for n := g.r.rng.Intn(4); n > 0; n-- {
			es = append(es, g.value(g.r.rng.Intn(depth)))
		}
		if g.r.rng.Intn(30) == 0 {
			for len(es) < 12 {
				es = append(es, g.value(g.r.rng.Intn(2)))
			}
		}
		return A{"a", es}
	}
	return g.value(0)
}

// blocks is a value that can be read as blocks with n labels
func (g *jpGen) blocks(n int) A {
	if n == 0 {
		switch g.r.rng.Intn(6) {
		case 0:
			return A{"w", "null"}
		case 1, 2:
			es := A{}
			for k := g.r.rng.Intn(4); k > 0; k-- {
				es = append(es, g.object())
			}
			return A{"a", es}
		}
		return g.object()
	}
	obj := func() A {
		ps := A{}
		for k := g.r.rng.Intn(3); k >= 0; k-- {
			ps = append(ps, A{g.name(false), g.blocks(n - 1)})
		}
		return A{"o", ps}
	}
	if g.r.rng.Intn(3) == 0 {
		es := A{}
		for k := g.r.rng.Intn(3); k >= 0; k-- {
			es = append(es, obj())
		}
		return A{"a", es}
	}
	return obj()
}

func (g *jpGen) object() A {
	ps := A{}
	for n := g.r.rng.Intn(3); n > 0; n-- {
		ps = append(ps, A{g.name(true), g.value(g.r.rng.Intn(2))})
	}
	return A{"o", ps}
}

func jpText(v A, fill func() string, b *strings.Builder) {
	quote := func(ps A) {
		b.WriteString(`"`)
		for _, p := range ps {
			if p.(A)[0] == "t" {
				b.WriteString(p.(A)[1].(string))
			} else {
				b.WriteString("${" + p.(A)[1].(string) + "}")
			}
		}
		b.WriteString(`"`)
	}
	switch v[0] {
	case "o":
		b.WriteString("{")
		for i, p := range v[1].(A) {
			b.WriteString(fill())
			quote(p.(A)[0].(A))
			b.WriteString(fill() + ":" + fill())
			jpText(p.(A)[1].(A), fill, b)
			b.WriteString(fill())
			if i < len(v[1].(A))-1 {
				b.WriteString(",")
			}
		}
		b.WriteString(fill() + "}")
	case "a":
		b.WriteString("[")
		for i, e := range v[1].(A) {
			b.WriteString(fill())
			jpText(e.(A), fill, b)
			b.WriteString(fill())
			if i < len(v[1].(A))-1 {
				b.WriteString(",")
			}
		}
		b.WriteString(fill() + "]")
	case "s":
		quote(v[1].(A))
	default:
		b.WriteString(v[1].(string))
	}
}

func init() {
	recorders["jplace"] = func(r *runner, n int) {
		for r.cases < n {
			g := &jpGen{r: r}
			nl := []int{9, 0, 0, 1, 1, 2, 3}[r.rng.Intn(7)]
			var names []string
			var objs []A
			objs = append(objs, A{})
			for k := r.rng.Intn(4); k > 0; k-- {
				nm := fmt.Sprintf("p%d", k)
				names = append(names, nm)
				objs[len(objs)-1] = append(objs[len(objs)-1], A{A{A{"t", nm}}, g.value(r.rng.Intn(4))})
				if r.rng.Intn(6) == 0 {
					objs = append(objs, A{})
				}
			}
			if r.rng.Intn(4) > 0 {
				v := g.blocks(nl % 9)
				if nl == 9 {
					v = g.value(3)
				}
				names = append(names, "b")
				k := r.rng.Intn(len(objs))
				objs[k] = append(objs[k], A{A{A{"t", "b"}}, v})
			}
			doc := A{"o", objs[0]}
			if len(objs) > 1 {
				es := A{}
				for _, o := range objs {
					es = append(es, A{"o", o})
				}
				doc = A{"a", es}
			}
			fills := [][]string{{""}, {"", " "}, {"", " ", "\n"}, {"", "\n  ", "\n\n"}, {"", "\t", "\r\n", " "}}[r.rng.Intn(5)]
			fill := A{}
			var sb strings.Builder
			next := func() string {
				f := fills[r.rng.Intn(len(fills))]
				fill = append(fill, f)
				return f
			}
			sb.WriteString(next())
			jpText(doc, next, &sb)
			sb.WriteString(next())
			src := sb.String()
			if len(src) > 1500 {
				continue
			}
			var got O
			ctx := A{}
			if msg := guard("places in JSON "+src, func() {
				var f *hcl.File
				got, f = jpSee(src, names, nl)
				if f == nil {
					return
				}
				step := 1 + len(src)/60
				for p := r.rng.Intn(step); p <= len(src)+1; p += step {
					ctx = append(ctx, A{p, placeASCII(hcled.ContextString(f, p))})
				}
			}); msg != "" {
				r.Mismatch("panic", O{"src": src}, "ranges", msg)
				continue
			}
			r.Record(O{"doc": placeASCII(doc), "fill": fill, "text": placeASCII(src), "nl": nl, "got": got, "ctx": ctx, "src": src}, 2)
			r.Count("documents")
			if b, ok := got["blocks"].(A); ok && len(b) > 0 {
				r.Count("with blocks")
			}
			if b, ok := got["refs"].(A); ok && len(b) > 0 {
				r.Count("with references")
			}
		}
	}
	replayers["jplace"] = func(r *runner, c O) {
		src, nl := c["text"].(string), int(c["nl"].(float64))
		want := c["want"].(O)
		var names []string
		for _, a := range want["args"].(A) {
			names = append(names, a.(A)[0].(string))
		}
		if msg := guard("places in JSON "+src, func() {
			got, f := jpSee(src, names, nl)
			if !same(norm(want), norm(got)) {
				r.Mismatch("places", O{"src": src, "nl": nl}, want, got)
				return
			}
			at := map[int]string{}
			for _, x := range c["ctx"].(A) {
				at[int(x.(A)[0].(float64))] = x.(A)[1].(string)
			}
			cur := ""
			for p := 0; p <= len(src); p++ {
				if s, ok := at[p]; ok {
					cur = s
				}
				if s := hcled.ContextString(f, p); s != cur {
					r.Mismatch("context", O{"src": src, "offset": p}, cur, s)
				}
			}
			if len(got["blocks"].(A)) > 0 {
				r.Count("with blocks")
			}
			r.Sample(src)
		}); msg != "" {
			r.Mismatch("panic", O{"src": src}, "ranges", msg)
		}
	}
}
