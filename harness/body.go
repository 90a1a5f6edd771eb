package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	hjson "github.com/hashicorp/hcl2/hcl/json"
)

// Bodies in the encoding of spec/Body.tla, their source text, and histories of
// schema reads on them.

func jstrLit(s string) string { return jstr(s) }

// jsonText renders an encoded JSON value; a nil rng gives compact output.
func jsonText(v J, rng *rand.Rand) string {
	sp := func() string {
		if rng == nil {
			return ""
		}
		return pick(rng, "", "", " ", "\n", "\t", "  \r\n ")
	}
	a := v.(A)
	switch a[0].(string) {
	case "o":
		var b strings.Builder
		b.WriteString("{" + sp())
		for i, p := range a[1].(A) {
			if i > 0 {
				b.WriteString("," + sp())
			}
			kv := p.(A)
			b.WriteString(jstrLit(kv[0].(string)) + sp() + ":" + sp() + jsonText(kv[1], rng) + sp())
		}
		return b.String() + "}"
	case "a":
		var b strings.Builder
		b.WriteString("[" + sp())
		for i, p := range a[1].(A) {
			if i > 0 {
				b.WriteString("," + sp())
			}
			b.WriteString(jsonText(p, rng) + sp())
		}
		return b.String() + "]"
	case "s":
		return jstrLit(a[1].(string))
	case "n":
		return strconv.FormatInt(jint(a[1]), 10)
	case "t":
		return fmt.Sprint(a[1].(bool))
	case "raw":
		return a[1].(string)
	}
	return "null"
}

func labelText(l string, rng *rand.Rand) string {
	if hclsyntax.ValidIdentifier(l) && (rng == nil || rng.Intn(2) == 0) {
		return l
	}
	return "\"" + quoteLit(l) + "\""
}

// nativeText renders native items (spec/Body.tla) as source.
func nativeText(items A, depth int, rng *rand.Rand) string {
	var b strings.Builder
	ind := strings.Repeat("  ", depth)
	for _, it := range items {
		a := it.(A)
		if a[0] == "a" {
			fmt.Fprintf(&b, "%s%s = %s\n", ind, a[1], valueText(a[2]))
			continue
		}
		b.WriteString(ind + a[1].(string))
		for _, l := range a[2].(A) {
			b.WriteString(" " + labelText(l.(string), rng))
		}
		sub := a[3].(A)
		if len(sub) == 0 && rng != nil && rng.Intn(2) == 0 {
			b.WriteString(" {}\n")
			continue
		}
		b.WriteString(" {\n" + nativeText(sub, depth+1, rng) + ind + "}\n")
	}
	return b.String()
}

// valueText writes an encoded value as a native expression.
func valueText(v J) string {
	// references to variables may stand inside of tuples and objects
	switch a := v.(A); a[0] {
	case "ref":
		return a[1].(string)
	case "type":
		return typeSource(a[1])
	case "xf":
		return map[string]string{"pair": `[nested, "x"]`, "same": "nested", "undef": "missing"}[a[1].(string)]
	case "path":
		t := a[1].(string)
		for _, x := range a[2].(A) {
			t += "." + x.(string)
		}
		return t
	case "tuple":
		var es []string
		for _, x := range a[1].(A) {
			es = append(es, valueText(x))
		}
		return "[" + strings.Join(es, ", ") + "]"
	case "obj":
		if o, ok := a[1].(O); ok {
			var ks, es []string
			for k := range o {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				es = append(es, k+" = "+valueText(o[k]))
			}
			return "{" + strings.Join(es, ", ") + "}"
		}
		return "{}"
	}
	rd := &rend{}
	return rd.expr(A{"lit", v}, 0)
}

func bodySource(b A, rng *rand.Rand) string {
	switch b[0].(string) {
	case "native":
		return nativeText(b[1].(A), 0, rng)
	case "json":
		return jsonText(b[1], rng)
	}
	var parts []string
	for _, p := range b[1].(A) {
		parts = append(parts, bodySource(p.(A), rng))
	}
	return strings.Join(parts, "\n--- next file\n")
}

// parseBody parses the source of an encoded body with the real parsers.
func parseBody(b A, rng *rand.Rand) (hcl.Body, string) {
	switch b[0].(string) {
	case "native":
		f, diags := hclsyntax.ParseConfig([]byte(bodySource(b, rng)), "t.hcl", hcl.Pos{Line: 1, Column: 1})
		if diags.HasErrors() {
			return nil, diags.Error()
		}
		return f.Body, ""
	case "json":
		src := []byte(bodySource(b, rng))
		f, diags := hjson.Parse(src, "t.json")
		if diags.HasErrors() {
			return nil, diags.Error()
		}
		return f.Body, ""
	}
	var bodies []hcl.Body
	for _, p := range b[1].(A) {
		x, err := parseBody(p.(A), rng)
		if err != "" {
			return nil, err
		}
		bodies = append(bodies, x)
	}
	return hcl.MergeBodies(bodies), ""
}

func decSchema(j O) *hcl.BodySchema {
	s := &hcl.BodySchema{}
	for _, x := range j["attrs"].(A) {
		o := x.(O)
		s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: o["n"].(string), Required: o["req"].(bool)})
	}
	for _, x := range j["blocks"].(A) {
		o := x.(O)
		bs := hcl.BlockHeaderSchema{Type: o["t"].(string)}
		for i := int64(0); i < jint(o["nl"]); i++ {
			bs.LabelNames = append(bs.LabelNames, "label"+strconv.FormatInt(i, 10))
		}
		s.Blocks = append(s.Blocks, bs)
	}
	return s
}

func countErrs(diags hcl.Diagnostics) int {
	n := 0
	for _, d := range diags {
		if d.Severity == hcl.DiagError {
			n++
		}
	}
	return n
}

func obsAttrs(attrs hcl.Attributes) J {
	o := O{}
	for n, a := range attrs {
		if a.Name != n {
			o[n] = A{"misnamed", a.Name}
			continue
		}
		v, d := a.Expr.Value(nil)
		if d.HasErrors() {
			o[n] = A{"evalerr"}
			continue
		}
		o[n] = encVal(v)
	}
	return o
}

// groupedBlocks says how selecting blocks by their type differs from the order
// in which they were read.
func groupedBlocks(bs hcl.Blocks) string {
	by := map[string]hcl.Blocks{}
	for _, b := range bs {
		by[b.Type] = append(by[b.Type], b)
	}
	got := bs.ByType()
	if len(got) != len(by) {
		return fmt.Sprintf("%d types by type, should be %d", len(got), len(by))
	}
	for t, want := range by {
		for _, g := range []hcl.Blocks{got[t], bs.OfType(t)} {
			same := len(g) == len(want)
			for i := 0; same && i < len(g); i++ {
				same = g[i] == want[i]
			}
			if !same {
				return "blocks of type " + t
			}
		}
	}
	if len(bs.OfType("no such type")) != 0 {
		return "blocks of no type"
	}
	return ""
}

// readOp performs one read; it returns the observation and the bodies opened.
func readOp(b hcl.Body, op string, schema *hcl.BodySchema) (O, []hcl.Body) {
	var content *hcl.BodyContent
	var diags hcl.Diagnostics
	var opened []hcl.Body
	switch op {
	case "just":
		attrs, d := b.JustAttributes()
		return O{"attrs": obsAttrs(attrs), "blocks": A{}, "err": d.HasErrors(), "errs": countErrs(d)}, nil
	case "content":
		content, diags = b.Content(schema)
	case "partial":
		var remain hcl.Body
		content, remain, diags = b.PartialContent(schema)
		opened = append(opened, remain)
	}
	blocks := A{}
	if bad := groupedBlocks(content.Blocks); bad != "" {
		blocks = append(blocks, bad)
	}
	for _, bl := range content.Blocks {
		labels := A{}
		for _, l := range bl.Labels {
			labels = append(labels, l)
		}
		blocks = append(blocks, A{bl.Type, labels})
		opened = append(opened, bl.Body)
	}
	return O{"attrs": obsAttrs(content.Attributes), "blocks": blocks, "err": diags.HasErrors(), "errs": countErrs(diags)}, opened
}

// ---- generation

var bodyAttrNames = []string{"a", "b", "c", "d"}
var bodyBlockTypes = []string{"blk", "b", "sub", "svc"}

type bodyGen struct {
	rng  *rand.Rand
	next int
}

func (g *bodyGen) id() int { g.next++; return g.next }

func (g *bodyGen) items(depth int) A {
	items := A{}
	used := map[string]bool{}
	for i := g.rng.Intn(5); i > 0; i-- {
		if depth > 0 && g.rng.Intn(2) == 0 {
			labels := A{}
			for j := g.rng.Intn(4); j > 1; j-- {
				labels = append(labels, pick(g.rng, "x", "y", "l1", "a b", "é"))
			}
			items = append(items, A{"b", bodyBlockTypes[g.rng.Intn(4)], labels, g.items(depth - 1)})
			continue
		}
		n := bodyAttrNames[g.rng.Intn(4)]
		if !used[n] {
			used[n] = true
			items = append(items, A{"a", n, A{"num", g.id(), 1}})
		}
	}
	return items
}

func (g *bodyGen) jval(depth int, what string) J {
	rng := g.rng
	if depth <= 0 || rng.Intn(9) == 0 {
		switch rng.Intn(5) {
		case 0:
			return A{"s", pick(rng, "x", "", "${a}", "y z")}
		case 1:
			return A{"t", rng.Intn(2) == 0}
		case 2:
			return A{"z"}
		case 3:
			return A{"o", A{}}
		default:
			return A{"n", g.id()}
		}
	}
	if rng.Intn(4) == 0 {
		es := A{}
		for i := rng.Intn(4); i > 0; i-- {
			es = append(es, g.jval(depth-1, "o"))
		}
		return A{"a", es}
	}
	ps := A{}
	for i := rng.Intn(5); i > 0; i-- {
		switch rng.Intn(6) {
		case 0:
			ps = append(ps, A{"//", g.jval(0, "")})
		case 1, 2:
			ps = append(ps, A{bodyBlockTypes[rng.Intn(4)], g.jval(depth-1, "o")})
		case 3:
			ps = append(ps, A{pick(rng, "x", "y", "l1", "a b"), g.jval(depth-1, "o")})
		default:
			ps = append(ps, A{bodyAttrNames[rng.Intn(4)], g.jval([]int{0, 0, 0, 1}[rng.Intn(4)], "")})
		}
	}
	return A{"o", ps}
}

func (g *bodyGen) schema() O {
	attrs, blocks := A{}, A{}
	used := map[string]bool{}
	for i := g.rng.Intn(4); i > 0; i-- {
		n := bodyAttrNames[g.rng.Intn(4)]
		if !used[n] {
			used[n] = true
			attrs = append(attrs, O{"n": n, "req": g.rng.Intn(4) == 0})
		}
	}
	for i := g.rng.Intn(4); i > 0; i-- {
		n := bodyBlockTypes[g.rng.Intn(4)]
		if !used[n] {
			used[n] = true
			blocks = append(blocks, O{"t": n, "nl": []int{0, 0, 1, 1, 2}[g.rng.Intn(5)]})
		}
	}
	// a schema may mention a name more than once
	if len(attrs) > 0 && g.rng.Intn(6) == 0 {
		attrs = append(A{O{"n": attrs[0].(O)["n"], "req": false}}, attrs...)
	}
	if len(blocks) > 0 && g.rng.Intn(10) == 0 {
		blocks = append(blocks, blocks[0])
	}
	return O{"attrs": attrs, "blocks": blocks}
}

func (g *bodyGen) body(kind string, depth int) A {
	switch kind {
	case "native":
		return A{"native", g.items(2)}
	case "json":
		if g.rng.Intn(10) > 0 {
			for {
				v := g.jval(4, "o").(A)
				if v[0] == "o" || v[0] == "a" {
					return A{"json", v}
				}
			}
		}
		v := g.jval(2, "o").(A)
		if v[0] != "o" && v[0] != "a" {
			v = A{"o", A{}}
		}
		return A{"json", v}
	}
	parts := A{}
	for i := g.rng.Intn(4); i > 0; i-- {
		k := pick(g.rng, "native", "native", "json")
		if depth > 0 && g.rng.Intn(5) == 0 {
			k = "merge"
		}
		parts = append(parts, g.body(k, depth-1))
	}
	return A{"merge", parts}
}

func recordBodies(kind string) func(*runner, int) {
	return func(r *runner, n int) {
		for i := 0; i < n; i++ {
			g := &bodyGen{rng: r.rng}
			b := g.body(kind, 1)
			var body hcl.Body
			var perr string
			key := bodySource(b, nil)
			if p := guard(key, func() { body, perr = parseBody(b, r.rng) }); p != "" || perr != "" {
				r.Mismatch(key, b, "the rendered body parses", p+perr)
				continue
			}
			bodies := []hcl.Body{body}
			ops := A{}
			bad := false
			for k := 1 + r.rng.Intn(6); k > 0; k-- {
				h := r.rng.Intn(len(bodies))
				op := pick(r.rng, "content", "partial", "partial", "partial", "just")
				schema := g.schema()
				rec := O{"h": h + 1, "op": op, "schema": schema}
				var opened []hcl.Body
				p := guard(key, func() { rec["got"], opened = readOp(bodies[h], op, decSchema(norm(schema).(O))) })
				if p != "" {
					r.Mismatch(key, O{"body": b, "ops": append(ops, rec)}, "no panic", p)
					bad = true
					break
				}
				bodies = append(bodies, opened...)
				ops = append(ops, rec)
				r.Count("op " + op)
				if rec["got"].(O)["err"].(bool) {
					r.Count("reads with errors")
				}
			}
			if bad {
				continue
			}
			rec := O{"body": b, "ops": ops, "src": key}
			r.Sample(rec)
			r.Record(rec, len(ops)+1)
		}
	}
}

func init() {
	recorders["body_native"] = recordBodies("native")
	recorders["body_json"] = recordBodies("json")
	recorders["body_merge"] = recordBodies("merge")
	replayers["body"] = func(r *runner, c O) {
		b := c["body"].(A)
		key := bodySource(b, nil)
		var body hcl.Body
		var perr string
		if p := guard(key, func() { body, perr = parseBody(b, nil) }); p != "" || perr != "" {
			r.Mismatch(key, b, "parses", p+perr)
			return
		}
		bodies := []hcl.Body{body}
		for k, x := range c["ops"].(A) {
			o := x.(O)
			var got O
			var opened []hcl.Body
			p := guard(key, func() {
				got, opened = readOp(bodies[jint(o["h"])-1], o["op"].(string), decSchema(o["schema"].(O)))
			})
			if p != "" {
				r.Mismatch(key, c, "no panic", p)
				return
			}
			want := o["want"].(O)
			if jint(want["errs"]) < 0 {
				got["errs"] = float64(-1)
			}
			if amb, _ := o["amb"].(bool); amb {
				got["err"], got["errs"] = want["err"], want["errs"]
			}
			if !same(norm(got), want) {
				r.Mismatch(key, O{"src": key, "ops": c["ops"].(A)[:k+1]}, want, got)
				return
			}
			bodies = append(bodies, opened...)
		}
		r.Sample(O{"src": key, "ops": c["ops"]})
	}
	_ = sort.Strings
}
