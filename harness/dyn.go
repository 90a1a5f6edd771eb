package main

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
)

// Bodies with dynamic blocks, in the encoding of spec/Dyn.tla.

func forCtx() *hcl.EvalContext {
	ctx := decCtx()
	sv := cty.StringVal
	for n, v := range map[string]cty.Value{
		"s":  sv("fe"),
		"t":  cty.SetVal([]cty.Value{sv("g"), sv("h")}),
		"m":  cty.MapVal(map[string]cty.Value{"j": cty.NumberIntVal(3), "k": cty.NumberIntVal(4)}),
		"e":  cty.ListValEmpty(cty.String),
		"ul": cty.UnknownVal(cty.List(cty.String)),
		"nl": cty.NullVal(cty.List(cty.String)),
		"ll": cty.TupleVal([]cty.Value{cty.TupleVal([]cty.Value{sv("i"), sv("j")}), cty.EmptyTupleVal, cty.ListVal([]cty.Value{sv("k")})}),
		"ou": cty.TupleVal([]cty.Value{cty.ObjectVal(map[string]cty.Value{"k": sv("v1")}), cty.ObjectVal(map[string]cty.Value{"k": cty.UnknownVal(cty.String)})}),
	} {
		ctx.Variables[n] = v
	}
	return ctx
}

func restrict(ctx *hcl.EvalContext, vars []hcl.Traversal) *hcl.EvalContext {
	keep := map[string]bool{}
	for _, t := range vars {
		keep[t.RootName()] = true
	}
	for n := range ctx.Variables {
		if !keep[n] {
			delete(ctx.Variables, n)
		}
	}
	return ctx
}

func mustBody(b A) hcl.Body {
	body, perr := parseBody(b, nil)
	if perr != "" {
		panic("body does not parse: " + perr)
	}
	return body
}

// dynDecode decodes the expansion of a body.
func dynDecode(b A, spec J) (O, string) {
	got := O{}
	p := guard(bodySource(b, nil), func() {
		sp := buildSpec(spec)
		body := dynblock.Expand(mustBody(b), forCtx())
		val, diags := hcldec.Decode(body, sp, decCtx())
		got["v"], got["e"] = encVal(val), diags.HasErrors()
		pv, _, pd := hcldec.PartialDecode(body, sp, decCtx())
		got["pe"] = pd.HasErrors()
		if !same(sortSets(norm(encVal(pv))), sortSets(norm(got["v"]))) {
			panic(fmt.Sprintf("partial decode gives %#v, complete decode %#v", pv, val))
		}
	})
	return got, p
}

// walkBySchema drives the schema walk without the help of specifications.
func walkBySchema(node dynblock.WalkVariablesNode, spec hcldec.Spec) []hcl.Traversal {
	vars, children := node.Visit(hcldec.ImpliedSchema(spec))
	nested := hcldec.ChildBlockTypes(spec)
	for _, c := range children {
		if s, ok := nested[c.BlockTypeName]; ok {
			if c.Body() == nil {
				panic("child without a body")
			}
			vars = append(vars, walkBySchema(c.Node, s)...)
		}
	}
	return vars
}

func dynVars(b A, spec J) (O, string) {
	got := O{}
	p := guard(bodySource(b, nil), func() {
		sp := buildSpec(spec)
		body := mustBody(b)
		walk := dynblock.VariablesHCLDec(body, sp)
		exp := dynblock.ExpandVariablesHCLDec(body, sp)
		after := hcldec.Variables(dynblock.Expand(body, forCtx()), sp)
		got["walk"], got["expand"], got["after"] = rootNames(walk), rootNames(exp), rootNames(after)
		val, diags := hcldec.Decode(dynblock.Expand(body, forCtx()), sp, decCtx())
		// only the names reported as needed
		for _, c := range []struct {
			what    string
			fc, ctx *hcl.EvalContext
		}{
			{"the reported names in both scopes", restrict(forCtx(), walk), restrict(decCtx(), walk)},
			{"the names reported for expansion and for content", restrict(forCtx(), exp), restrict(decCtx(), after)},
		} {
			rv, rd := hcldec.Decode(dynblock.Expand(body, c.fc), sp, c.ctx)
			if rd.HasErrors() != diags.HasErrors() || !same(sortSets(norm(encVal(rv))), sortSets(norm(encVal(val)))) {
				panic(fmt.Sprintf("with only %s decoding gives %#v (%s), with the whole scope %#v (%s)", c.what, rv, rd, val, diags))
			}
		}
	})
	return got, p
}

// dynReadOp is readOp with arguments evaluated in the scope of spec/Dyn.tla.
func dynReadOp(b hcl.Body, op string, schema *hcl.BodySchema) (O, []hcl.Body) {
	obs := func(attrs hcl.Attributes) J {
		o := O{}
		for n, a := range attrs {
			v, d := a.Expr.Value(decCtx())
			if d.HasErrors() {
				o[n] = A{"evalerr"}
				continue
			}
			o[n] = encVal(v)
		}
		return o
	}
	var content *hcl.BodyContent
	var diags hcl.Diagnostics
	var opened []hcl.Body
	switch op {
	case "just":
		attrs, d := b.JustAttributes()
		return O{"attrs": obs(attrs), "blocks": A{}, "err": d.HasErrors()}, nil
	case "content":
		content, diags = b.Content(schema)
	case "partial":
		var remain hcl.Body
		content, remain, diags = b.PartialContent(schema)
		opened = append(opened, remain)
	}
	blocks := A{}
	for _, bl := range content.Blocks {
		labels := A{}
		for _, l := range bl.Labels {
			labels = append(labels, l)
		}
		if len(bl.LabelRanges) != len(bl.Labels) {
			panic("labels without ranges")
		}
		blocks = append(blocks, A{bl.Type, labels})
		opened = append(opened, bl.Body)
	}
	return O{"attrs": obs(content.Attributes), "blocks": blocks, "err": diags.HasErrors()}, opened
}

// judgedElsewhere: panics that belong to the decoding property or to the type library.
func judgedElsewhere(p string, spec J) bool {
	return lastPanicDep || (hasPinned(spec) && strings.Contains(p, "inconsistent"))
}

func init() {
	recorders["dyn"] = func(r *runner, n int) {
		for i := 0; i < n; i++ {
			g := &decGen{bodyGen: bodyGen{rng: r.rng}, dyn: true}
			spec := norm(g.deepSpec(r.rng.Intn(3)))
			b := norm(g.body(spec)).(A)
			src := bodySource(b, nil)
			if !strings.Contains(src, "dynamic") {
				i--
				continue
			}
			got, p := dynDecode(b, spec)
			input := O{"src": src, "spec": spec}
			if p != "" {
				if !judgedElsewhere(p, spec) {
					r.Mismatch(src+" with "+specText(spec), input, "no panic", p)
				}
				continue
			}
			if got["e"].(bool) {
				r.Count("with errors")
			} else {
				r.Count("without errors")
			}
			r.Sample(input)
			r.Record(O{"spec": spec, "body": b, "got": got, "src": src + "\nspec " + specText(spec)}, 2)
		}
	}
	recorders["dynvars"] = func(r *runner, n int) {
		for i := 0; i < n; i++ {
			g := &decGen{bodyGen: bodyGen{rng: r.rng}, dyn: true}
			spec := norm(g.deepSpec(2))
			b := norm(g.body(spec)).(A)
			src := bodySource(b, nil)
			got, p := dynVars(b, spec)
			input := O{"src": src, "spec": spec}
			if p != "" {
				if !judgedElsewhere(p, spec) {
					r.Mismatch(src+" with "+specText(spec), input, "decoding needs only the reported names", p)
				}
				continue
			}
			r.Count(fmt.Sprintf("%d names", len(got["walk"].(A))))
			r.Sample(input)
			r.Record(O{"spec": spec, "body": b, "got": got, "src": src + "\nspec " + specText(spec)}, 2)
		}
	}
	recorders["dynread"] = func(r *runner, n int) {
		for i := 0; i < n; i++ {
			g := &decGen{bodyGen: bodyGen{rng: r.rng}, dyn: true}
			spec := norm(g.deepSpec(r.rng.Intn(3)))
			b := norm(g.body(spec)).(A)
			src := bodySource(b, nil)
			if !strings.Contains(src, "dynamic") {
				i--
				continue
			}
			bodies := []hcl.Body{dynblock.Expand(mustBody(b), forCtx())}
			depth := []J{spec}
			ops := A{}
			bad := false
			for k := 1 + r.rng.Intn(6); k > 0; k-- {
				h := r.rng.Intn(len(bodies))
				op := pick(r.rng, "content", "partial", "partial", "partial", "just")
				schema := norm(g.someSchema(depth[h])).(O)
				rec := O{"h": h + 1, "op": op, "schema": schema}
				var opened []hcl.Body
				p := guard(src, func() { rec["got"], opened = dynReadOp(bodies[h], op, decSchema(schema)) })
				if p != "" {
					r.Mismatch(src, O{"src": src, "ops": append(ops, rec)}, "no panic", p)
					bad = true
					break
				}
				from := bodies[h]
				_ = from
				bodies = append(bodies, opened...)
				if op == "partial" {
					depth = append(depth, depth[h])
				}
				if op != "just" {
					for _, bl := range rec["got"].(O)["blocks"].(A) {
						depth = append(depth, nestedFor(depth[h], bl.(A)[0].(string)))
					}
				}
				ops = append(ops, rec)
				r.Count("op " + op)
				if rec["got"].(O)["err"].(bool) {
					r.Count("reads with errors")
				}
			}
			if bad {
				continue
			}
			rec := O{"body": b, "ops": ops, "src": src}
			r.Sample(rec)
			r.Record(rec, len(ops)+1)
		}
	}
	replayers["dyn"] = func(r *runner, c O) {
		b := c["body"].(A)
		src := bodySource(b, nil)
		key := src + " with " + specText(c["spec"])
		input := O{"src": src, "spec": c["spec"]}
		got, p := dynDecode(b, c["spec"])
		if p != "" {
			if !judgedElsewhere(p, c["spec"]) {
				r.Mismatch(key, input, "no panic", p)
			}
			return
		}
		if c["any"].(bool) {
			r.Count("left open")
			return
		}
		if got["e"] != c["e"] || got["pe"] != c["pe"] || !same(sortSets(norm(got["v"])), sortSets(c["v"])) {
			r.Mismatch(key, input, O{"v": c["v"], "e": c["e"], "pe": c["pe"]}, got)
			return
		}
		if got["e"].(bool) {
			r.Count("with errors")
		}
		r.Sample(input)
	}
	replayers["dynvars"] = func(r *runner, c O) {
		b := c["body"].(A)
		src := bodySource(b, nil)
		key := src + " with " + specText(c["spec"])
		input := O{"src": src, "spec": c["spec"]}
		got, p := dynVars(b, c["spec"])
		if p != "" {
			if !judgedElsewhere(p, c["spec"]) {
				r.Mismatch(key, input, "decoding needs only the reported names", p)
			}
			return
		}
		if c["wany"].(bool) {
			r.Count("left open")
			return
		}
		want := O{"walk": sortedSet(c["walk"]), "expand": sortedSet(c["expand"]), "after": sortedSet(c["after"])}
		if !same(norm(got), norm(want)) {
			r.Mismatch(key, input, want, got)
			return
		}
		r.Count(fmt.Sprintf("%d names", len(got["walk"].(A))))
		r.Sample(input)
	}
	replayers["dynread"] = func(r *runner, c O) {
		b := c["body"].(A)
		src := bodySource(b, nil)
		bodies := []hcl.Body{dynblock.Expand(mustBody(b), forCtx())}
		for k, x := range c["ops"].(A) {
			o := x.(O)
			var got O
			var opened []hcl.Body
			p := guard(src, func() {
				got, opened = dynReadOp(bodies[jint(o["h"])-1], o["op"].(string), decSchema(o["schema"].(O)))
			})
			if p != "" {
				r.Mismatch(src, O{"src": src, "ops": c["ops"]}, "no panic", p)
				return
			}
			want := o["want"].(O)
			delete(want, "errs")
			if amb, _ := o["amb"].(bool); amb {
				r.Count("left open")
				return
			}
			if !same(sortSets(norm(got)), sortSets(want)) {
				r.Mismatch(src+fmt.Sprint(c["ops"].(A)[:k+1]), O{"src": src, "ops": c["ops"].(A)[:k+1]}, want, got)
				return
			}
			bodies = append(bodies, opened...)
		}
		r.Sample(O{"src": src, "ops": c["ops"]})
	}
}

// ---- generation

// deepSpec is now and then a chain of block types, for dynamic blocks in the
// content of dynamic blocks.
func (g *decGen) deepSpec(depth int) J {
	if g.rng.Intn(5) > 0 {
		return g.spec(1+depth, false, map[string]int{})
	}
	ret := J(A{"attr", "a", A{"dyn"}, false})
	types := []string{"blk", "svc", "c", "d"}
	for n := 2 + g.rng.Intn(3); n > 0; n-- {
		ret = A{"btuple", types[n-1], A{"tuple", A{A{"attr", "a", A{"dyn"}, false}, ret}}, 0, 0}
	}
	return ret
}

func (g *decGen) itVal() J {
	it := pick(g.rng, g.its...)
	if g.rng.Intn(12) == 0 {
		return A{"ref", it}
	}
	return A{"path", it, []J{A{"value"}, A{"value"}, A{"value"}, A{"value"}, A{"key"}, A{"key"}, A{"key"}, A{"key"}, A{"key"}, A{"key"}, A{"value", "k"}, A{"nope"}}[g.rng.Intn(12)]}
}

// dynamic opens a dynamic block for blocks of type t; the result takes its content.
func (g *decGen) dynamic(t string, nl int, single bool) func(A) A {
	rng := g.rng
	items := A{}
	outer := g.its
	errs := rng.Intn(6) == 0
	var each J
	switch rng.Intn(12) {
	case 0:
		each = A{"tuple", A{g.val(), g.val()}}
	case 1:
		each = A{"obj", O{"k": g.val(), "j": g.val()}}
	case 2:
		each = g.val()
		if rng.Intn(3) > 0 {
			each = A{"tuple", A{A{"num", 1, 1}, A{"num", 2, 1}}}
		}
	case 3, 4:
		each = A{"tuple", A{A{"str", "a1"}, A{"str", "a2"}}}
	case 5, 6, 7:
		each = A{"ref", pick(rng, "l", "t", "m")}
	default:
		each = A{"ref", pick(rng, "l", "l", "o", "t", "t", "m", "m", "e", "ul", "ul", "d", "ll", "ll", "ou", pick(rng, "nl", "z", "l", "l"))}
	}
	if single && rng.Intn(8) > 0 {
		each = []J{A{"ref", "o"}, A{"ref", "ul"}, A{"tuple", A{g.val()}}}[rng.Intn(3)]
	}
	if len(outer) > 0 && rng.Intn(4) == 0 {
		each = A{"path", pick(rng, outer...), []J{A{"value"}, A{"value"}, A{"value", "k"}}[rng.Intn(3)]}
	}
	if rng.Intn(40) > 0 {
		items = append(items, A{"a", "for_each", each})
	}
	it := t
	if rng.Intn(3) == 0 {
		it = pick(rng, "it", "x", "y", "s", "n")
		var v J = A{"ref", it}
		if rng.Intn(12) == 0 {
			v = []J{A{"path", "x", A{"y"}}, A{"num", 1, 1}, A{"str", "x y"}}[rng.Intn(3)]
		}
		items = append(items, A{"a", "iterator", v})
	}
	g.its = append(append([]string{}, outer...), it)
	if (nl > 0) != (rng.Intn(50) == 0) {
		ls := A{}
		for i := 0; i < nl; i++ {
			ls = append(ls, []J{A{"str", "k"}, A{"str", "m"}, A{"path", it, A{"key"}}, A{"path", it, A{"key"}}, A{"path", it, A{"key"}}, A{"ref", "s"}, A{"path", it, A{"value"}}, g.val()}[rng.Intn(8-b2i(!errs)*2)])
		}
		items = append(items, A{"a", "labels", ls2(ls)})
	}
	return func(sub A) A {
		g.its = outer
		for n := []int{0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2}[rng.Intn(32)]; n > 0; n-- {
			items = append(items, A{"b", "content", A{}, sub})
		}
		return A{"b", "dynamic", A{t}, items}
	}
}

func ls2(ls A) J { return A{"tuple", ls} }

// someSchema asks for a part of what a specification describes.
func (g *decGen) someSchema(spec J) O {
	attrs, blocks := A{}, A{}
	if spec != nil {
		d := &fitDecl{attrs: map[string]J{}}
		g.collect(spec, d)
		for _, n := range d.order {
			if g.rng.Intn(2) == 0 {
				attrs = append(attrs, O{"n": n, "req": g.rng.Intn(4) == 0})
			}
		}
		seen := map[string]bool{}
		for _, b := range d.blocks {
			t := b[1].(string)
			nl := 0
			switch b[0].(string) {
			case "bmap", "bobj":
				nl = int(jint(b[2])) + specLabels(b[3])
			case "battrs":
			default:
				nl = specLabels(b[2])
			}
			if !seen[t] && g.rng.Intn(3) > 0 {
				seen[t] = true
				blocks = append(blocks, O{"t": t, "nl": nl})
			}
		}
	}
	if g.rng.Intn(6) == 0 {
		attrs = append(attrs, O{"n": "extra", "req": false})
	}
	return O{"attrs": attrs, "blocks": blocks}
}

func nestedFor(spec J, t string) J {
	if spec == nil {
		return nil
	}
	g := &decGen{}
	d := &fitDecl{attrs: map[string]J{}}
	g.collect(spec, d)
	for _, b := range d.blocks {
		if b[1] == t {
			switch b[0].(string) {
			case "bmap", "bobj":
				return b[3]
			case "battrs":
				return nil
			}
			return b[2]
		}
	}
	return nil
}
