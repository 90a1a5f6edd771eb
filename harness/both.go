package main

import (
	gojson "encoding/json"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	hjson "github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
)

// One configuration in several forms: native text, JSON texts, and merges.

func rawStr(s string) A { b, _ := gojson.Marshal(s); return A{"raw", string(b)} }

// astJSON writes an expression as a JSON value.
func astJSON(e A, rd *rend) A {
	esc := func(s string) string { return strings.NewReplacer("${", "$${", "%{", "%%{").Replace(s) }
	switch e[0] {
	case "lit":
		v := e[1].(A)
		switch v[0] {
		case "str":
			return rawStr(esc(v[1].(string)))
		case "num":
			return A{"raw", numText(jint(v[1]), jint(v[2]))}
		case "bool":
			return A{"t", v[1]}
		case "null":
			return A{"z"}
		}
	case "tuple":
		es := A{}
		for _, x := range e[1].(A) {
			es = append(es, astJSON(x.(A), rd))
		}
		return A{"a", es}
	case "obj":
		ps, seen := A{}, map[string]bool{}
		for _, it := range e[1].(A) {
			x := it.(A)
			if x[0] != "id" || seen[x[1].(string)] {
				ps = nil
				break
			}
			seen[x[1].(string)] = true
			ps = append(ps, A{x[1], astJSON(x[2].(A), rd)})
		}
		if ps != nil {
			return A{"o", ps}
		}
	case "tmpl":
		if t := rd.parts(e[1].(A)); !strings.Contains(t, "\\") {
			return rawStr(t)
		}
	}
	return rawStr("${" + rd.expr(e, 0) + "}")
}

// formJSON is Translated of spec/Both.tla.
func formJSON(items A, form string, val func(J) J) A {
	if form == "array" {
		es := A{}
		for _, it := range items {
			es = append(es, formJSON(A{it}, "flat", val))
		}
		return A{"a", es}
	}
	under := func(ls A, v A) A {
		for i := len(ls) - 1; i >= 0; i-- {
			v = A{"o", A{A{ls[i], v}}}
		}
		return v
	}
	var byLabels func(bs []A, d int) A
	byLabels = func(bs []A, d int) A {
		if d == len(bs[0][2].(A)) {
			if len(bs) == 1 {
				return formJSON(bs[0][3].(A), form, val)
			}
			es := A{}
			for _, b := range bs {
				es = append(es, formJSON(b[3].(A), form, val))
			}
			return A{"a", es}
		}
		ps := A{}
		done := map[string]bool{}
		for _, b := range bs {
			l := b[2].(A)[d].(string)
			if done[l] {
				continue
			}
			done[l] = true
			var sub []A
			for _, c := range bs {
				if c[2].(A)[d] == l {
					sub = append(sub, c)
				}
			}
			ps = append(ps, A{l, byLabels(sub, d+1)})
		}
		return A{"o", ps}
	}
	ps := A{}
	done := map[string]bool{}
	for _, it := range items {
		a := it.(A)
		name := a[1].(string)
		switch {
		case a[0] == "a":
			ps = append(ps, A{name, val(a[2])})
		case form == "flat":
			ps = append(ps, A{name, under(a[2].(A), formJSON(a[3].(A), form, val))})
		case !done[name]:
			done[name] = true
			var bs []A
			for _, x := range items {
				if b := x.(A); b[0] == "b" && b[1] == name {
					bs = append(bs, b)
				}
			}
			if form == "labels" {
				ps = append(ps, A{name, byLabels(bs, 0)})
				continue
			}
			es := A{}
			for _, b := range bs {
				es = append(es, under(b[2].(A), formJSON(b[3].(A), form, val)))
			}
			ps = append(ps, A{name, es})
			ps[len(ps)-1].(A)[1] = A{"a", es}
		}
	}
	return A{"o", ps}
}

// astNative writes items whose arguments are expressions.
func astNative(items A, ind string, rd *rend) string {
	var b strings.Builder
	for _, it := range items {
		a := it.(A)
		if a[0] == "a" {
			b.WriteString(ind + a[1].(string) + " = " + rd.expr(a[2].(A), 0) + "\n")
			continue
		}
		b.WriteString(ind + a[1].(string))
		for _, l := range a[2].(A) {
			b.WriteString(" " + labelText(l.(string), rd.rng))
		}
		b.WriteString(" {\n" + astNative(a[3].(A), ind+"  ", rd) + ind + "}\n")
	}
	return b.String()
}

var bothForms = []string{"native", "flat", "group", "array", "labels", "mixed"}

// bothParse gives the configuration in a form; mixed: the items up to "at" in
// the native syntax and the others in JSON.
func bothParse(form string, at int, native func(A) string, jsn func(A, string) string, items A) (hcl.Body, string) {
	parseN := func(src string) hcl.Body {
		f, d := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.InitialPos)
		if d.HasErrors() {
			panic("does not parse: " + d.Error() + "\n" + src)
		}
		return f.Body
	}
	parseJ := func(src string) hcl.Body {
		f, d := hjson.Parse([]byte(src), "t.json")
		if d.HasErrors() {
			panic("does not parse: " + d.Error() + "\n" + src)
		}
		return f.Body
	}
	switch form {
	case "native":
		src := native(items)
		return parseN(src), src
	case "mixed":
		n, j := native(items[:at]), jsn(items[at:], "flat")
		return hcl.MergeBodies([]hcl.Body{parseN(n), parseJ(j)}), n + "\n---\n" + j
	}
	src := jsn(items, form)
	return parseJ(src), src
}

type bothRun struct {
	forms  []string
	fail   string // how the packed form differs from the original
	ctx    *hcl.EvalContext
	bodies map[string][]hcl.Body // by form, numbered as in the native form
	srcs   map[string]string
	root   map[int]bool // the whole configuration, or what remains of it
}

func newBoth(items A, ctx A, at int, rd *rend) *bothRun {
	b := &bothRun{ctx: evalCtx(ctx), bodies: map[string][]hcl.Body{}, srcs: map[string]string{}, root: map[int]bool{0: true}}
	native := func(x A) string { return astNative(x, "", rd) }
	jsn := func(x A, form string) string {
		return jsonText(formJSON(x, form, func(e J) J { return astJSON(e.(A), rd) }), rd.rng)
	}
	for _, f := range bothForms {
		body, src := bothParse(f, at, native, jsn, items)
		b.bodies[f], b.srcs[f] = []hcl.Body{body}, src
	}
	b.forms = bothForms
	return b
}

// read performs one read in every form. Forms that are arrays cannot be read
// as arguments only.
func (b *bothRun) read(h int, op string, schema *hcl.BodySchema) A {
	type found struct {
		key  string
		body hcl.Body
	}
	out := A{}
	var order []string
	if op == "partial" {
		b.root[len(b.bodies["native"])] = b.root[h]
	}
	var orig *hcl.BodyContent
	for _, form := range b.forms {
		body := b.bodies[form][h]
		var content *hcl.BodyContent
		var diags hcl.Diagnostics
		var opened []found
		switch op {
		case "just":
			content = &hcl.BodyContent{}
			content.Attributes, diags = body.JustAttributes()
		case "content":
			content, diags = body.Content(schema)
		default:
			var remain hcl.Body
			content, remain, diags = body.PartialContent(schema)
			opened = append(opened, found{"remain", remain})
		}
		if form == "native" {
			orig = content
		} else if form == "packed" || form == "stored" {
			if d := packDiff(orig, content, b.ctx); d != "" && b.fail == "" {
				b.fail = form + ": " + d
			}
		}
		attrs, blocks := O{}, A{}
		for n, a := range content.Attributes {
			attrs[n] = observeEval(a.Expr, b.ctx)
		}
		count := map[string]int{}
		for _, bl := range content.Blocks {
			ls := A{}
			for _, l := range bl.Labels {
				ls = append(ls, l)
			}
			k := jstr(A{bl.Type, ls})
			count[k]++
			blocks = append(blocks, A{bl.Type, ls})
			opened = append(opened, found{k + jstr(count[k]), bl.Body})
		}
		if form == "native" {
			for _, f := range opened {
				order = append(order, f.key)
			}
		}
		for _, k := range order {
			var at hcl.Body
			for _, f := range opened {
				if f.key == k {
					at = f.body
				}
			}
			if form == "stored" || form == "typed" {
				at = packStored(at)
			}
			b.bodies[form] = append(b.bodies[form], at)
		}
		if op == "just" && form == "array" && b.root[h] {
			continue
		}
		out = append(out, O{"form": form, "attrs": attrs, "blocks": blocks, "err": diags.HasErrors()})
	}
	return out
}

func sameBlocks(a, b A, form string) bool {
	by := func(x A) string {
		m := map[string][]string{}
		for _, bl := range x {
			k := bl.(A)[0].(string)
			if form == "labels" {
				k = jstr(bl)
			}
			m[k] = append(m[k], jstr(bl))
		}
		return jstr(m)
	}
	return by(a) == by(b)
}

func init() {
	replayers["both"] = func(r *runner, c O) {
		items := c["items"].(A)
		rd := &rend{}
		key := astNative(items, "", rd)
		var srcs map[string]string
		bad := guard(key, func() {
			b := newBoth(items, c["ctx"].(A), len(items)/2, rd)
			srcs = b.srcs
			for _, oj := range c["ops"].(A) {
				o := oj.(O)
				want := o["want"].(O)
				for _, g := range b.read(int(jint(o["h"]))-1, o["op"].(string), decSchema(o["schema"].(O))) {
					got := norm(g).(O)
					fine := got["err"] == want["err"] && sameBlocks(want["blocks"].(A), got["blocks"].(A), got["form"].(string))
					wa, _ := want["attrs"].(O)
					ga := got["attrs"].(O)
					fine = fine && len(wa) == len(ga)
					for n, w := range wa {
						fine = fine && (w.(A)[0] == "any" || same(w, ga[n]))
					}
					if !fine {
						r.Mismatch(key+got["form"].(string)+jstr(c["ops"]), O{"srcs": srcs, "ops": c["ops"]}, want, got)
						return
					}
					r.Count("form " + got["form"].(string))
				}
			}
		})
		if bad != "" {
			r.Mismatch(key+jstr(c["ops"]), O{"srcs": srcs, "ops": c["ops"]}, "no panic", bad)
		}
		r.Sample(O{"srcs": srcs, "ops": c["ops"]})
	}
	recorders["both"] = func(r *runner, n int) { recordBoth(r, n, false) }
	recorders["bothdec"] = func(r *runner, n int) {
		for r.cases < n {
			g := &decGen{bodyGen: bodyGen{rng: r.rng}}
			spec := norm(g.spec(2, false, map[string]int{}))
			items := norm(g.nativeItems(spec)).(A)
			at := r.rng.Intn(len(items) + 1)
			got := A{}
			var srcs []string
			bad := guard(jstr(items), func() {
				sp := buildSpec(spec)
				for _, form := range []string{"native", "flat", "group", "array", "mixed"} {
					body, src := bothParse(form, at, func(x A) string { return nativeText(x, 0, r.rng) },
						func(x A, f string) string { return jsonText(formJSON(x, f, jsonValOf), r.rng) }, items)
					srcs = append(srcs, src)
					val, diags := hcldec.Decode(body, sp, decCtx())
					got = append(got, O{"form": form, "v": sortSets(norm(encVal(val))), "e": diags.HasErrors()})
				}
			})
			if bad != "" {
				if lastPanicDep || hasPinned(spec) && strings.Contains(bad, "inconsistent") {
					lastPanicDep = false
					r.Count("panics judged elsewhere")
					continue
				}
				r.Mismatch(jstr(items), O{"srcs": srcs, "spec": spec}, "no panic", bad)
				continue
			}
			r.Count("spec " + spec.(A)[0].(string))
			r.Sample(O{"srcs": srcs, "spec": spec, "got": got})
			r.Record(O{"spec": spec, "items": items, "got": got, "pinned": hasPinned(spec), "src": strings.Join(srcs, "\n") + "\nspec " + specText(spec)}, 2)
		}
	}
}

func recordBoth(r *runner, n int, pack bool) {
		types := []string{"blk", "sub", "svc"}
		for r.cases < n {
			g := &exprGen{rng: r.rng}
			ctx := g.scope()
			var gen func(d int) A
			gen = func(d int) A {
				items := A{}
				used := map[string]bool{}
				for k := r.rng.Intn(5); k > 0; k-- {
					if d > 0 && r.rng.Intn(2) == 0 {
						t := r.rng.Intn(3)
						ls := A{}
						for j := 0; j < t; j++ {
							ls = append(ls, pick(r.rng, "x", "y", "l1", "a b", "blk", "${x}"))
						}
						items = append(items, A{"b", types[t], ls, gen(d - 1)})
						continue
					}
					name := bodyAttrNames[r.rng.Intn(4)]
					if !used[name] {
						used[name] = true
						items = append(items, A{"a", name, fixSplats(g.gen(pick(r.rng, kinds...), r.rng.Intn(3)))})
					}
				}
				return items
			}
			items := norm(gen(2)).(A)
			rd := &rend{rng: r.rng, paren: true}
			ops := A{}
			var srcs map[string]string
			at := r.rng.Intn(len(items) + 1)
			bad := guard(jstr(items), func() {
				var b *bothRun
				if pack {
					b = newPacked(items, norm(ctx).(A), rd)
				} else {
					b = newBoth(items, norm(ctx).(A), at, rd)
				}
				srcs = b.srcs
				hasBlocks := []bool{strings.Contains(jstr(items), `["b","`)}
				for k := 1 + r.rng.Intn(5); k > 0; k-- {
					h := r.rng.Intn(len(hasBlocks))
					op := pick(r.rng, "content", "partial", "partial", "just")
					if op == "just" && hasBlocks[h] {
						op = "partial"
					}
					attrs, blocks := A{}, A{}
					for _, a := range bodyAttrNames {
						if r.rng.Intn(2) == 0 {
							attrs = append(attrs, O{"n": a, "req": r.rng.Intn(5) == 0})
						}
					}
					for i, t := range types {
						if pack && r.rng.Intn(8) == 0 {
							i = r.rng.Intn(3)
						}
						if r.rng.Intn(3) > 0 {
							blocks = append(blocks, O{"t": t, "nl": i})
						}
					}
					r.rng.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
					schema := O{"attrs": attrs, "blocks": blocks}
					if op == "just" {
						schema = O{"attrs": A{}, "blocks": A{}}
					}
					got := b.read(h, op, decSchema(norm(schema).(O)))
					// whether a block has blocks is not tracked: never "just" there
					for len(hasBlocks) < len(b.bodies["native"]) {
						hasBlocks = append(hasBlocks, len(hasBlocks) > 0 && (op != "partial" || hasBlocks[h] || len(hasBlocks) > 1))
					}
					if b.fail != "" {
						r.Mismatch(b.srcs["native"], O{"srcs": srcs, "ops": append(ops, schema)}, "same as the original", b.fail)
						return
					}
					ops = append(ops, O{"h": h + 1, "op": op, "schema": schema, "got": got})
					r.Count("op " + op)
				}
			})
			if bad != "" && lastPanicDep {
				lastPanicDep = false
				r.Count("skipped: panic within cty/convert")
				continue
			}
			if bad != "" {
				r.Mismatch(jstr(items), O{"srcs": srcs, "ops": ops}, "no panic", bad)
				continue
			}
			if exprSize(items) > 500 {
				continue
			}
			r.Sample(O{"srcs": srcs, "ops": ops})
			r.Record(O{"items": items, "ctx": ctx, "ops": ops, "src": srcs["native"] + "\n" + srcs["flat"]}, 1+len(ops))
		}
	}
