package main

import (
	"encoding/base64"
	gojson "encoding/json"
	"fmt"
	"reflect"
	"sort"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"
	ctyjson "github.com/zclconf/go-cty/cty/json"
)

// Packed configurations: packed is the portable form, stored is the portable
// form written and read back.

func packStored(b hcl.Body) hcl.Body {
	p, ok := b.(*hclpack.Body)
	if !ok {
		return b
	}
	buf, err := gojson.Marshal(p)
	if err != nil {
		panic("marshal: " + err.Error())
	}
	ret := &hclpack.Body{}
	if err := gojson.Unmarshal(buf, ret); err != nil {
		panic("unmarshal: " + err.Error() + "\n" + string(buf))
	}
	return ret
}

func newPacked(items, ctx A, rd *rend) *bothRun {
	b := &bothRun{ctx: evalCtx(ctx), bodies: map[string][]hcl.Body{}, srcs: map[string]string{}, root: map[int]bool{0: true}}
	b.forms = []string{"native", "packed", "stored"}
	src := astNative(items, "", rd)
	start := hcl.InitialPos
	if rd.rng.Intn(3) == 0 {
		start = hcl.Pos{Line: 1 + rd.rng.Intn(70), Column: 1 + rd.rng.Intn(70), Byte: rd.rng.Intn(300)}
	}
	f, d := hclsyntax.ParseConfig([]byte(src), "t.hcl", start)
	if d.HasErrors() {
		panic("does not parse: " + d.Error() + "\n" + src)
	}
	p, d := hclpack.PackNativeFile([]byte(src), "t.hcl", start)
	if d.HasErrors() {
		panic("does not pack: " + d.Error() + "\n" + src)
	}
	for _, form := range b.forms {
		b.srcs[form] = src
	}
	b.bodies["native"] = []hcl.Body{f.Body}
	b.bodies["packed"] = []hcl.Body{p}
	b.bodies["stored"] = []hcl.Body{packStored(p)}
	q, _ := hclpack.PackNativeFile([]byte(src), "t.hcl", start)
	packRetype(rd, q)
	b.forms = append(b.forms, "typed")
	b.srcs["typed"] = src
	b.bodies["typed"] = []hcl.Body{packStored(q)}
	return b
}

// packRetype writes expressions as templates and literal values.
func packRetype(rd *rend, b *hclpack.Body) {
	names := []string{}
	for n := range b.Attributes {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		a := b.Attributes[n]
		v, d := a.Expr.Value(nil)
		switch {
		case rd.rng.Intn(3) == 0:
			a.Expr.Source = append(append([]byte("${"), a.Expr.Source...), '}')
			a.Expr.SourceType = hclpack.ExprTemplate
		case len(a.Expr.Variables()) == 0 && !d.HasErrors() && v.IsWhollyKnown() && jsonLike(v.Type()):
			if js, err := ctyjson.Marshal(v, v.Type()); err == nil {
				a.Expr.Source, a.Expr.SourceType = js, hclpack.ExprLiteralJSON
			}
		}
		b.Attributes[n] = a
	}
	for i := range b.ChildBlocks {
		packRetype(rd, &b.ChildBlocks[i].Body)
	}
}

func jsonLike(ty cty.Type) bool {
	switch {
	case ty.IsObjectType():
		for _, t := range ty.AttributeTypes() {
			if !jsonLike(t) {
				return false
			}
		}
		return true
	case ty.IsTupleType():
		for _, t := range ty.TupleElementTypes() {
			if !jsonLike(t) {
				return false
			}
		}
		return true
	}
	return ty.IsPrimitiveType()
}

func traversalText(ts []hcl.Traversal) string {
	var out []string
	for _, t := range ts {
		s := ""
		for _, st := range t {
			switch x := st.(type) {
			case hcl.TraverseRoot:
				s += x.Name
			case hcl.TraverseAttr:
				s += "." + x.Name
			case hcl.TraverseIndex:
				s += "[" + jstr(encVal(x.Key)) + "]"
			default:
				s += fmt.Sprintf("%T", st)
			}
			s += "@" + st.(interface{ SourceRange() hcl.Range }).SourceRange().String()
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return jstr(out)
}

// packDiff describes how what was read from the packed form differs from
// what was read from the original, other than in names and values.
func packDiff(orig, got *hcl.BodyContent, ctx *hcl.EvalContext) string {
	for n, a := range orig.Attributes {
		g, ok := got.Attributes[n]
		if !ok {
			return "no argument " + n
		}
		if g.Name != a.Name || g.Range != a.Range || g.NameRange != a.NameRange || g.Expr.Range() != a.Expr.Range() || g.Expr.StartRange() != a.Expr.StartRange() {
			return fmt.Sprintf("ranges of argument %s: %v %v %v %v should be %v %v %v %v", n,
				g.Range, g.NameRange, g.Expr.Range(), g.Expr.StartRange(), a.Range, a.NameRange, a.Expr.Range(), a.Expr.StartRange())
		}
		if x, y := traversalText(a.Expr.Variables()), traversalText(g.Expr.Variables()); x != y {
			return fmt.Sprintf("variables of %s: %s should be %s", n, y, x)
		}
		_, d1 := a.Expr.Value(ctx)
		_, d2 := g.Expr.Value(ctx)
		if len(d1) != len(d2) {
			return fmt.Sprintf("problems of %s: %v should be %v", n, d2, d1)
		}
		for i := range d1 {
			if d1[i].Summary != d2[i].Summary || d1[i].Detail != d2[i].Detail || !reflect.DeepEqual(d1[i].Subject, d2[i].Subject) {
				return fmt.Sprintf("problem of %s: %v should be %v", n, d2[i], d1[i])
			}
		}
		l1, e1 := hcl.ExprList(a.Expr)
		l2, e2 := hcl.ExprList(g.Expr)
		if len(l1) != len(l2) || e1.HasErrors() != e2.HasErrors() {
			return "static list of " + n
		}
		c1, e1 := hcl.ExprCall(a.Expr)
		c2, e2 := hcl.ExprCall(g.Expr)
		if e1.HasErrors() != e2.HasErrors() || !e1.HasErrors() && (c1.Name != c2.Name || len(c1.Arguments) != len(c2.Arguments) || c1.NameRange != c2.NameRange) {
			return "static call of " + n
		}
	}
	if len(orig.Blocks) != len(got.Blocks) {
		return fmt.Sprintf("%d blocks should be %d", len(got.Blocks), len(orig.Blocks))
	}
	for i, a := range orig.Blocks {
		g := got.Blocks[i]
		if a.DefRange != g.DefRange || a.TypeRange != g.TypeRange || len(a.LabelRanges) != len(g.LabelRanges) {
			return fmt.Sprintf("ranges of block %d: %v %v should be %v %v", i, g.DefRange, g.TypeRange, a.DefRange, a.TypeRange)
		}
		for k := range a.LabelRanges {
			if a.LabelRanges[k] != g.LabelRanges[k] {
				return fmt.Sprintf("label range %v should be %v", g.LabelRanges[k], a.LabelRanges[k])
			}
		}
	}
	return ""
}

// packNodes lists where everything in a packed body is, and compares the
// values of its arguments with those of the original.
func packNodes(src string, start hcl.Pos, b *hclpack.Body, out *A) {
	add := func(kind string, r hcl.Range) {
		// lines and columns as counted from the start
		for _, p := range []hcl.Pos{r.Start, r.End} {
			off := p.Byte - start.Byte
			if off < 0 || off > len(src) {
				kind += " out of the source"
				break
			}
			w := placePos(src, off)
			if w.Line == 1 {
				w.Column += start.Column - 1
			}
			w.Line += start.Line - 1
			w.Byte = p.Byte
			if w != p {
				kind += fmt.Sprintf(" position %v should be %v", p, w)
				break
			}
		}
		if r.Filename != "p.hcl" {
			kind += " file " + r.Filename
		}
		*out = append(*out, A{kind, r.Start.Byte, r.End.Byte})
	}
	for _, a := range b.Attributes {
		add("Attribute", a.Range)
		add("name", a.NameRange)
		add("expr", a.Expr.Range_)
	}
	for i := range b.ChildBlocks {
		bl := &b.ChildBlocks[i]
		add("def", bl.DefRange)
		add("type", bl.TypeRange)
		for _, l := range bl.LabelRanges {
			add("label", l)
		}
		packNodes(src, start, &bl.Body, out)
	}
}

var packCtx = &hcl.EvalContext{Variables: map[string]cty.Value{
	"a": cty.NumberIntVal(1), "foo": cty.ObjectVal(map[string]cty.Value{"x": cty.True, "yy": cty.TupleVal([]cty.Value{cty.StringVal("s")})}),
	"b_1": cty.ListVal([]cty.Value{cty.StringVal("p"), cty.StringVal("q")}), "k": cty.NumberIntVal(0),
	"été": cty.MapVal(map[string]cty.Value{"x": cty.StringVal("é"), "é": cty.StringVal("z")}),
}}

func packAll(native *hclsyntax.Body, b *hclpack.Body) string {
	schema := &hcl.BodySchema{}
	for n := range native.Attributes {
		schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: n})
	}
	c1, _, _ := native.PartialContent(schema)
	c2, _, _ := b.PartialContent(schema)
	if d := packDiff(c1, c2, packCtx); d != "" {
		return d
	}
	for n, a := range c1.Attributes {
		if x, y := jstr(observeEval(a.Expr, packCtx)), jstr(observeEval(c2.Attributes[n].Expr, packCtx)); x != y {
			return fmt.Sprintf("value of %s: %s should be %s", n, y, x)
		}
	}
	if len(native.Blocks) != len(b.ChildBlocks) {
		return fmt.Sprintf("%d blocks should be %d", len(b.ChildBlocks), len(native.Blocks))
	}
	for i, bl := range native.Blocks {
		g := &b.ChildBlocks[i]
		if g.Type != bl.Type || fmt.Sprint(g.Labels) != fmt.Sprint(bl.Labels) {
			return fmt.Sprintf("block %s %v should be %s %v", g.Type, g.Labels, bl.Type, bl.Labels)
		}
		if d := packAll(bl.Body, &g.Body); d != "" {
			return d
		}
	}
	return ""
}

func decRange(j J) hcl.Range {
	o := j.(O)
	pos := func(j J) hcl.Pos {
		p := j.(A)
		return hcl.Pos{Line: int(jint(p[0])), Column: int(jint(p[1])), Byte: int(jint(p[2]))}
	}
	return hcl.Range{Filename: o["file"].(string), Start: pos(o["s"]), End: pos(o["e"])}
}

func vlqBytes(n int) []byte {
	u := uint64(n) << 1
	if n < 0 {
		u = uint64(-n)<<1 - 1
	}
	out := []byte{byte(u & 0x7f)}
	for u >>= 7; u > 0; u >>= 7 {
		out = append([]byte{byte(u&0x7f) | 0x80}, out...)
	}
	return out
}

func init() {
	recorders["pack"] = func(r *runner, n int) { recordBoth(r, n, true) }
	recorders["packplace"] = func(r *runner, n int) {
		rng := r.rng
		for r.cases < n {
			g := &placeGen{rng: rng, gen: true, fill: A{}}
			items := g.body(2, 3)
			g.items(items)
			src := g.sb.String()
			if len(src) > 400 {
				continue
			}
			start := hcl.InitialPos
			if rng.Intn(2) == 0 {
				start = hcl.Pos{Line: 1 + rng.Intn(100), Column: 1 + rng.Intn(100), Byte: rng.Intn(400)}
			}
			got := A{}
			fail := ""
			if p := guard(src, func() {
				f, d := hclsyntax.ParseConfig([]byte(src), "p.hcl", start)
				if d.HasErrors() {
					panic("does not parse: " + d.Error())
				}
				p, d := hclpack.PackNativeFile([]byte(src), "p.hcl", start)
				if d.HasErrors() {
					panic("does not pack: " + d.Error())
				}
				b := packStored(p).(*hclpack.Body)
				if b.MissingItemRange_ != p.MissingItemRange_ {
					panic("missing item range changes")
				}
				packNodes(src, start, b, &got)
				fail = packAll(f.Body.(*hclsyntax.Body), b)
			}); p != "" {
				if lastPanicDep {
					lastPanicDep = false
					continue
				}
				r.Mismatch(src, O{"src": src}, "no panic", p)
				continue
			}
			if fail != "" {
				r.Mismatch(src, O{"src": src}, "same as the original", fail)
			}
			r.Record(O{"items": placeASCII(items), "fill": placeASCII(g.fill), "text": placeASCII(src), "src": src, "at": start.Byte, "got": got}, 2)
		}
	}
	// damaged: whatever is made of the written form, reading it gives an
	// error or a body that can be used
	recorders["packbad"] = func(r *runner, n int) {
		rng := r.rng
		for r.cases < n {
			g := &placeGen{rng: rng, gen: true, fill: A{}}
			g.items(g.body(2, 3))
			src := g.sb.String()
			p, _ := hclpack.PackNativeFile([]byte(src), "p.hcl", hcl.InitialPos)
			buf, err := gojson.Marshal(p)
			if err != nil {
				panic(err)
			}
			what := "text"
			if rng.Intn(3) == 0 {
				for k := 1 + rng.Intn(3); k > 0 && len(buf) > 0; k-- {
					i := rng.Intn(len(buf))
					switch rng.Intn(4) {
					case 0:
						buf = append(buf[:i:i], buf[i+1:]...)
					case 1:
						buf[i] = byte(rng.Intn(128))
					case 2:
						buf = append(buf[:i:i], append([]byte{buf[rng.Intn(len(buf))]}, buf[i:]...)...)
					default:
						buf = buf[:i]
					}
				}
			} else {
				what = "value"
				var v interface{}
				gojson.Unmarshal(buf, &v)
				v = packMutate(rng.Intn, v)
				buf, _ = gojson.Marshal(v)
			}
			out := ""
			bad := guard(string(buf), func() {
				var b hclpack.Body
				if err := gojson.Unmarshal(buf, &b); err != nil {
					out = "err"
					return
				}
				out = "ok"
				packUse(&b)
			})
			if bad != "" && lastPanicDep {
				lastPanicDep = false
				continue
			}
			if bad != "" {
				r.Mismatch(string(buf), O{"stored": string(buf)}, "an error or a usable body", bad)
			}
			if !gojson.Valid(buf) && out != "err" {
				r.Mismatch(string(buf), O{"stored": string(buf)}, "an error", out)
			}
			r.cases++
			r.Count(what + " " + out)
		}
	}
	replayers["pack"] = func(r *runner, c O) {
		if c["kind"] == "set" {
			rs := c["ranges"].(A)
			b := &hclpack.Body{Attributes: map[string]hclpack.Attribute{}, MissingItemRange_: decRange(rs[0])}
			bl := hclpack.Block{Type: "b", Labels: []string{"l", "m"}, DefRange: decRange(rs[0]), TypeRange: decRange(rs[len(rs)-1])}
			bl.LabelRanges = []hcl.Range{bl.DefRange, bl.TypeRange}
			bl.Body.MissingItemRange_ = bl.TypeRange
			b.ChildBlocks = []hclpack.Block{bl}
			for i, x := range rs {
				rg := decRange(x)
				nx := decRange(rs[(i+1)%len(rs)])
				b.Attributes[fmt.Sprint("a", i)] = hclpack.Attribute{Range: rg, NameRange: nx,
					Expr: hclpack.Expression{Source: []byte("1"), SourceType: hclpack.ExprNative, Range_: nx, StartRange_: rg}}
			}
			if bad := guard(jstr(c), func() {
				got := packStored(b).(*hclpack.Body)
				for n, a := range b.Attributes {
					if a.Expr.StartRange_ == (hcl.Range{}) {
						// left out: the whole range
						a.Expr.StartRange_ = a.Expr.Range_
						b.Attributes[n] = a
					}
				}
				if !reflect.DeepEqual(norm(b.Attributes), norm(got.Attributes)) || !reflect.DeepEqual(b.ChildBlocks[0].LabelRanges, got.ChildBlocks[0].LabelRanges) ||
					b.MissingItemRange_ != got.MissingItemRange_ || bl.DefRange != got.ChildBlocks[0].DefRange || bl.TypeRange != got.ChildBlocks[0].TypeRange ||
					bl.Body.MissingItemRange_ != got.ChildBlocks[0].Body.MissingItemRange_ {
					r.Mismatch(jstr(rs), rs, fmt.Sprint(b), fmt.Sprint(got))
				}
			}); bad != "" {
				r.Mismatch(jstr(rs), rs, "no panic", bad)
			}
			return
		}
		var pos []byte
		for _, x := range c["bytes"].(A) {
			pos = append(pos, byte(jint(x)))
		}
		rg := append(vlqBytes(int(jint(c["s"]))), vlqBytes(int(jint(c["e"])))...)
		e64 := base64.RawStdEncoding.EncodeToString
		head := O{"r": O{"r": e64(rg)}, "p": e64(pos), "s": c["files"]}
		buf, _ := gojson.Marshal(head)
		var got J
		if bad := guard(string(buf), func() {
			var b hclpack.Body
			if err := gojson.Unmarshal(buf, &b); err != nil {
				got = A{"err"}
				return
			}
			m := b.MissingItemRange()
			enc := func(p hcl.Pos) A { return A{p.Line, p.Column, p.Byte} }
			got = A{"ok", O{"file": m.Filename, "s": enc(m.Start), "e": enc(m.End)}}
		}); bad != "" {
			got = "panic: " + bad
		}
		if !same(c["want"], norm(got)) {
			r.Mismatch(string(buf), O{"stored": string(buf)}, c["want"], got)
		}
	}
}

// packMutate changes one value somewhere within v.
func packMutate(intn func(int) int, v interface{}) interface{} {
	odd := []interface{}{nil, true, 1.0, -1.0, "", "x", "AAAA", "////", "Ow", "gICA", []interface{}{}, map[string]interface{}{}, []interface{}{"AgI"}}
	switch x := v.(type) {
	case map[string]interface{}:
		if len(x) > 0 && intn(6) > 0 {
			ks := make([]string, 0, len(x))
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			k := ks[intn(len(ks))]
			if intn(8) == 0 {
				delete(x, k)
			} else {
				x[k] = packMutate(intn, x[k])
			}
			return x
		}
	case []interface{}:
		if len(x) > 0 && intn(6) > 0 {
			i := intn(len(x))
			x[i] = packMutate(intn, x[i])
			return x
		}
	case string:
		if len(x) > 0 && intn(3) > 0 {
			b := []byte(x)
			if raw, err := base64.RawStdEncoding.DecodeString(x); err == nil && intn(4) > 0 {
				i := intn(len(raw) + 1)
				switch intn(3) {
				case 0:
					raw = append(raw[:i:i], append([]byte{byte(intn(256))}, raw[i:]...)...)
				case 1:
					raw = raw[:i]
				default:
					if i < len(raw) {
						raw[i] = byte(intn(256))
					}
				}
				return base64.RawStdEncoding.EncodeToString(raw)
			}
			b[intn(len(b))] = byte(32 + intn(95))
			return string(b)
		}
	}
	return odd[intn(len(odd))]
}

// packUse reads everything there is in a body.
func packUse(b *hclpack.Body) {
	schema := &hcl.BodySchema{}
	for n := range b.Attributes {
		schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: n})
	}
	for _, bl := range b.ChildBlocks {
		s := hcl.BlockHeaderSchema{Type: bl.Type}
		for i := range bl.Labels {
			s.LabelNames = append(s.LabelNames, fmt.Sprint("l", i))
		}
		schema.Blocks = append(schema.Blocks, s)
	}
	b.Content(schema)
	b.JustAttributes()
	_, remain, _ := b.PartialContent(&hcl.BodySchema{})
	gojson.Marshal(remain)
	content, _, _ := b.PartialContent(schema)
	for _, a := range content.Attributes {
		a.Expr.Value(packCtx)
		a.Expr.Variables()
		a.Expr.Range()
	}
	for _, bl := range content.Blocks {
		packUse(bl.Body.(*hclpack.Body))
	}
}
