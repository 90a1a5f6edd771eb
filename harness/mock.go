package main

import (
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcltest"
	"github.com/zclconf/go-cty/cty"
)

// mockExpr builds an expression of spec/Mock.tla with the real package. A path
// is made from its source text where src says so.
func mockExpr(m A, src bool) hcl.Expression {
	switch m[0] {
	case "lit":
		return hcltest.MockExprLiteral(decVal(m[1]))
	case "var":
		return hcltest.MockExprVariable(m[1].(string))
	case "path":
		t := hcl.Traversal{hcl.TraverseRoot{Name: m[1].(string)}}
		text := m[1].(string)
		ss, _ := m[2].(A)
		for _, s := range ss {
			s := s.(A)
			if s[0] == "a" {
				t = append(t, hcl.TraverseAttr{Name: s[1].(string)})
				text += "." + s[1].(string)
			} else {
				t = append(t, hcl.TraverseIndex{Key: decVal(s[1])})
				text += "[" + valueText(s[1]) + "]"
			}
		}
		if src {
			return hcltest.MockExprTraversalSrc(text)
		}
		return hcltest.MockExprTraversal(t)
	}
	es := []hcl.Expression{}
	ms, _ := m[1].(A)
	for _, x := range ms {
		es = append(es, mockExpr(x.(A), src))
	}
	return hcltest.MockExprList(es)
}

// mixed says whether a list holds values of different types, which the
// specification leaves open.
func mixed(m A, ctx *hcl.EvalContext, src bool) bool {
	if m[0] != "list" {
		return false
	}
	var ty cty.Type
	ms, _ := m[1].(A)
	for _, x := range ms {
		if mixed(x.(A), ctx, src) {
			return true
		}
	}
	for _, x := range ms {
		v, _ := mockExpr(x.(A), src).Value(ctx)
		if v.Type() == cty.DynamicPseudoType {
			continue
		}
		if ty != cty.NilType && !ty.Equals(v.Type()) {
			return true
		}
		ty = v.Type()
	}
	return false
}

func mockSeen(m A, frames A, src bool) (out O, bad string) {
	bad = guard(jstr(m), func() {
		e := mockExpr(m, src)
		ctx := evalCtx(frames)
		val := J(A{"any"})
		if !mixed(m, ctx, src) {
			val = observeEval(e, ctx)
			if again := observeEval(e, ctx); !same(norm(again), norm(val)) {
				val = A{"changing", val, again}
			}
		}
		out = O{"val": val, "vars": encPaths(e.Variables()), "an": observeStatic(e)}
	})
	return out, bad
}

// mockBody builds a body of spec/Body.tla out of test doubles; JSON parts of
// a merge are real.
func mockBody(b A) hcl.Body {
	switch b[0].(string) {
	case "native":
		c := &hcl.BodyContent{}
		exprs := map[string]hcl.Expression{}
		for _, it := range b[1].(A) {
			a := it.(A)
			if a[0] == "a" {
				exprs[a[1].(string)] = hcltest.MockExprLiteral(decVal(a[2]))
				continue
			}
			c.Blocks = append(c.Blocks, &hcl.Block{Type: a[1].(string), Labels: strs(a[2]), Body: mockBody(A{"native", a[3]})})
		}
		c.Attributes = hcltest.MockAttrs(exprs)
		return hcltest.MockBody(c)
	case "merge":
		var bodies []hcl.Body
		for _, p := range b[1].(A) {
			bodies = append(bodies, mockBody(p.(A)))
		}
		return hcl.MergeBodies(bodies)
	}
	x, err := parseBody(b, nil)
	if err != "" {
		panic(err)
	}
	return x
}

// fitting drops blocks whose number of labels is not that of the schema: a
// reader is told about them, whether they are delivered is left open.
func fitting(got O, opened []hcl.Body, op string, schema *hcl.BodySchema) []hcl.Body {
	keep := A{}
	var bodies []hcl.Body
	if op == "partial" {
		bodies, opened = opened[:1:1], opened[1:]
	}
	for i, x := range got["blocks"].(A) {
		b := x.(A)
		ok := true
		for _, s := range schema.Blocks {
			if s.Type == b[0] && len(s.LabelNames) != len(b[1].(A)) {
				ok = false
			}
		}
		if ok {
			keep = append(keep, b)
			bodies = append(bodies, opened[i])
		}
	}
	got["blocks"] = keep
	return bodies
}

func init() {
	replayers["mock"] = func(r *runner, c O) {
		m, ctx := c["mock"].(A), c["ctx"].(A)
		want := c["want"].(O)
		want["vars"] = sortedSet(want["vars"])
		for _, src := range []bool{false, true} {
			got, bad := mockSeen(m, ctx, src)
			if bad != "" {
				r.Mismatch(jstr(m), c, "no panic", bad)
				return
			}
			w, g := skipAny(want, norm(got).(O), "val")
			if m[0] == "list" && same(w["val"], A{"err"}) && same(g["val"], A{"any"}) {
				w, g = skipAny(O{"val": A{"any"}, "vars": w["vars"], "an": w["an"]}, g, "val")
			}
			if !same(w, g) {
				r.Mismatch(jstr(m), c, w, g)
			}
		}
		r.Count(m[0].(string) + " " + want["val"].(A)[0].(string))
		r.Sample(jstr(m))
	}
	recorders["mock"] = func(r *runner, n int) {
		for r.cases < n {
			g := &exprGen{rng: r.rng, unknowns: r.rng.Intn(3) == 0, nulls: r.rng.Intn(2) == 0}
			frames := g.scope()
			names := []string{"zz"}
			for _, f := range frames {
				for k := range f.(O) {
					names = append(names, k)
				}
			}
			sort.Strings(names)
			var mk func(d int) A
			mk = func(d int) A {
				switch k := r.rng.Intn(6); {
				case k == 0 && d > 0:
					l := A{}
					for j := r.rng.Intn(4); j > 0; j-- {
						l = append(l, mk(d-1))
					}
					return A{"list", l}
				case k == 1 && d > 0:
					x, l := mk(0), A{}
					for j := r.rng.Intn(4); j > 0; j-- {
						l = append(l, x)
					}
					return A{"list", l}
				case k < 3:
					return A{"lit", g.val(kinds[r.rng.Intn(len(kinds))], 2)}
				case k == 3:
					return A{"var", pick(r.rng, names...)}
				}
				ss := A{}
				for j := r.rng.Intn(3); j > 0; j-- {
					if r.rng.Intn(2) == 0 {
						ss = append(ss, A{"a", pick(r.rng, "a", "b", "k", "x", "name", "id")})
					} else if r.rng.Intn(2) == 0 {
						ss = append(ss, A{"i", A{"str", pick(r.rng, "a", "b", "k", "x")}})
					} else {
						ss = append(ss, A{"i", A{"num", r.rng.Intn(3), 1}})
					}
				}
				return A{"path", pick(r.rng, names...), ss}
			}
			m := norm(mk(3)).(A)
			got, bad := mockSeen(m, norm(frames).(A), r.rng.Intn(2) == 0)
			if bad != "" && lastPanicDep && !strings.Contains(bad, "inconsistent list") {
				lastPanicDep = false
				continue
			}
			if bad != "" {
				r.Mismatch(jstr(m), m, "no panic", bad)
				continue
			}
			r.Count(m[0].(string) + " " + got["val"].(A)[0].(string))
			r.Sample(jstr(m))
			r.Record(O{"mock": m, "ctx": frames, "got": ascii(norm(got)), "src": jstr(m)}, 2)
		}
	}
	replayers["mockbody"] = func(r *runner, c O) {
		b := c["body"].(A)
		key := bodySource(b, nil)
		bodies := []hcl.Body{mockBody(b)}
		for k, x := range c["ops"].(A) {
			o := x.(O)
			var got O
			var opened []hcl.Body
			p := guard(key, func() {
				s := decSchema(o["schema"].(O))
				got, opened = readOp(bodies[jint(o["h"])-1], o["op"].(string), s)
				if o["op"] != "just" {
					opened = fitting(got, opened, o["op"].(string), s)
				}
			})
			if p != "" {
				r.Mismatch(key, c, "no panic", p)
				return
			}
			want := o["want"].(O)
			if jint(want["errs"]) < 0 {
				got["errs"] = float64(-1)
			}
			if amb, _ := o["amb"].(bool); amb {
				got["err"], got["errs"] = want["err"], want["errs"]
			}
			if !same(norm(got), want) {
				r.Mismatch(key, O{"src": key, "ops": c["ops"].(A)[:k+1]}, want, got)
				return
			}
			bodies = append(bodies, opened...)
		}
		r.Sample(O{"src": key, "ops": c["ops"]})
	}
	recorders["mockbody"] = func(r *runner, n int) {
		for i := 0; i < n; i++ {
			g := &bodyGen{rng: r.rng}
			b := norm(g.body(pick(r.rng, "native", "native", "merge"), 1)).(A)
			key := bodySource(b, nil)
			bodies := []hcl.Body{mockBody(b)}
			ops := A{}
			bad := false
			for k := 1 + r.rng.Intn(6); k > 0; k-- {
				h := r.rng.Intn(len(bodies))
				op := pick(r.rng, "content", "partial", "partial", "partial", "just")
				schema := g.schema()
				rec := O{"h": h + 1, "op": op, "schema": schema}
				var opened []hcl.Body
				p := guard(key, func() {
					s := decSchema(norm(schema).(O))
					var got O
					got, opened = readOp(bodies[h], op, s)
					if op != "just" {
						opened = fitting(got, opened, op, s)
					}
					rec["got"] = got
				})
				if p != "" {
					r.Mismatch(key, O{"body": b, "ops": append(ops, rec)}, "no panic", p)
					bad = true
					break
				}
				bodies = append(bodies, opened...)
				ops = append(ops, rec)
				r.Count("op " + op)
			}
			if bad {
				continue
			}
			rec := O{"body": b, "ops": ops, "src": key}
			r.Sample(rec)
			r.Record(rec, len(ops)+1)
		}
	}
}
