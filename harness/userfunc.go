package main

import (
	gojson "encoding/json"
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
)

// funcSource writes definitions in either syntax, with other content.
func funcSource(rd *rend, ds A, asJSON bool) string {
	pick := func(xs ...string) string {
		if rd.rng == nil {
			return xs[0]
		}
		return xs[rd.rng.Intn(len(xs))]
	}
	var b strings.Builder
	q := func(s string) string { x, _ := gojson.Marshal(s); return string(x) }
	if asJSON {
		b.WriteString(`{"x": "kept", "function": {`)
	} else {
		b.WriteString("x = \"kept\"\n")
	}
	for i, dj := range ds {
		d := dj.(O)
		params, va, res := d["params"].(A), d["var"].(A), d["res"].(A)
		var lines []string
		add := func(name, text string) {
			if asJSON {
				lines = append(lines, q(name)+": "+text)
			} else {
				lines = append(lines, "  "+name+" = "+text)
			}
		}
		name := func(n string) string {
			if n == "!" {
				if asJSON {
					return pick(`"a.b"`, `5`, `"a b"`, `["a"]`)
				}
				return pick("a.b", "1", `"a"`, "a[0]")
			}
			if asJSON {
				return q(n)
			}
			return n
		}
		switch params[0] {
		case "list":
			var ns []string
			for _, n := range strs(params[1]) {
				ns = append(ns, name(n))
			}
			add("params", "["+strings.Join(ns, ", ")+"]")
		case "bad":
			if asJSON {
				add("params", pick(`"a"`, `{"a": "b"}`, `4`))
			} else {
				add("params", pick("a", "{ a = b }", "4", `"a"`))
			}
		}
		switch va[0] {
		case "name":
			add("variadic_param", name(va[1].(string)))
		case "bad":
			add("variadic_param", name("!"))
		}
		if res[0] == "ast" {
			t := rd.expr(fixSplats(res[1].(A)), 0)
			if asJSON {
				t = q("${" + t + "}")
			}
			add("result", t)
		}
		if d["extra"].(bool) {
			add("zzz", "1")
		}
		if asJSON {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(q(d["name"].(string)) + ": {" + strings.Join(lines, ", ") + "}")
			continue
		}
		labels := []string{"", ` "` + d["name"].(string) + `"`, ` "` + d["name"].(string) + `" "more"`}[num(d["labels"])]
		b.WriteString("function" + labels + " {\n" + strings.Join(lines, "\n") + "\n}\n")
		if i == 0 {
			b.WriteString("other {}\n")
		}
	}
	if asJSON {
		b.WriteString(`}, "other": {}}`)
	} else if len(ds) == 0 {
		b.WriteString("other {}\n")
	}
	return b.String()
}

// funcRun defines functions and evaluates calls in the scope of a caller.
func funcRun(src string, asJSON bool, base string, vars, caller O, calls []string) (got O, bad string) {
	bad = guard(src, func() {
		var f *hcl.File
		var diags hcl.Diagnostics
		if asJSON {
			f, diags = json.Parse([]byte(src), "t.json")
		} else {
			f, diags = hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.InitialPos)
		}
		if diags.HasErrors() {
			panic("does not parse: " + diags.Error())
		}
		var funcs map[string]function.Function
		var cf userfunc.ContextFunc
		asked := 0
		switch base {
		case "nil":
			if len(calls)%2 == 0 {
				cf = func() *hcl.EvalContext { return nil }
			}
		default:
			cf = func() *hcl.EvalContext {
				asked++
				ctx := evalCtx(A{vars})
				if base == "rec" {
					ctx = ctx.NewChild()
					ctx.Functions = funcs
				}
				return ctx
			}
		}
		funcs, remain, diags := userfunc.DecodeUserFunctions(f.Body, "function", cf)
		if asked > 0 {
			panic("the context is asked for before a call")
		}
		for _, d := range diags {
			if d.Subject == nil {
				panic("error without a place in the source")
			}
		}
		headers := remain != nil && funcs != nil
		if remain != nil {
			// what is left is everything but the functions
			schema := &hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "x", Required: true}}, Blocks: []hcl.BlockHeaderSchema{{Type: "other"}}}
			c, d := remain.Content(schema)
			if d.HasErrors() || len(c.Attributes) != 1 || len(c.Blocks) != 1 {
				panic("remaining body: " + d.Error())
			}
			schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: "function", LabelNames: []string{"n"}})
			if c, _, _ := remain.PartialContent(schema); len(c.Blocks.OfType("function")) != 0 {
				panic("function blocks in the remaining body")
			}
			if a, d := remain.JustAttributes(); len(a) < 1 || !d.HasErrors() && !asJSON {
				panic(fmt.Sprintf("remaining arguments: %v %s", a, d.Error()))
			}
		}
		ctx := evalCtx(A{caller})
		ctx = ctx.NewChild()
		ctx.Functions = funcs
		outs := A{}
		for _, c := range calls {
			ex, diags := hclsyntax.ParseExpression([]byte(c), "c.hcl", hcl.InitialPos)
			if diags.HasErrors() {
				panic("call does not parse: " + c)
			}
			out := observeEval(ex, ctx)
			// the same call made directly
			if call, diags := hcl.ExprCall(ex); !diags.HasErrors() && !strings.Contains(c, "...") {
				if fn, ok := funcs[call.Name]; ok {
					var args []cty.Value
					fine := true
					for _, a := range call.Arguments {
						v, d := a.Value(ctx)
						fine = fine && !d.HasErrors()
						args = append(args, v)
					}
					if fine {
						v, err := fn.Call(args)
						direct := A{"err"}
						if err == nil {
							direct = A{"ok", encVal(v)}
						}
						if jstr(direct) != jstr(out) {
							panic("a direct call gives " + jstr(direct) + " and the expression " + jstr(out))
						}
					}
				}
			}
			outs = append(outs, out)
		}
		names := A{}
		for n := range funcs {
			names = append(names, n)
		}
		got = O{"err": diags.HasErrors(), "names": sortedSet(names), "headers": headers, "outs": outs}
	})
	return
}

func init() {
	replayers["userfunc"] = func(r *runner, c O) {
		ds := c["ds"].(A)
		want := c["want"].(O)
		jsonToo := want["headers"].(bool) && ds[0].(O)["name"] != ds[1].(O)["name"]
		for _, asJSON := range []bool{false, true} {
			if asJSON && !jsonToo {
				continue
			}
			rd := &rend{}
			src := funcSource(rd, ds, asJSON)
			call := rd.expr(c["call"].(A), 0)
			got, bad := funcRun(src, asJSON, c["base"].(string), c["vars"].(O), c["caller"].(O), []string{call})
			w := O{"err": want["err"], "names": sortedSet(want["names"]), "outs": A{want["out"]}}
			g := O{}
			if bad == "" {
				g = O{"err": got["err"], "names": got["names"], "outs": got["outs"]}
			}
			if bad != "" || !same(norm(w), norm(g)) {
				r.Mismatch(src+"\n"+call, O{"src": src, "call": call, "base": c["base"]}, w, O{"got": got, "bad": bad})
			}
			r.Count("call " + want["out"].(A)[0].(string))
			r.Sample(O{"src": src, "call": call, "got": got})
		}
	}
	recorders["userfunc"] = func(r *runner, n int) {
		for r.cases < n {
			g := &exprGen{rng: r.rng, nulls: false}
			baseVars := g.scope()[0].(O)
			bv, bn := g.vars, g.names
			base := pick(r.rng, "nil", "vars", "rec", "rec")
			ds := A{}
			var userCalls []A
			asJSON := r.rng.Intn(3) == 0
			cnt := 1 + r.rng.Intn(3)
			for k := 0; k < cnt; k++ {
				pool := []string{"pa", "pb", "pc", "n", "s"}
				r.rng.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
				ps := A{}
				scope := map[string]J{}
				np := r.rng.Intn(4)
				for _, p := range pool[:np] {
					ps = append(ps, p)
					scope[p] = g.val(pick(r.rng, kinds...), 1)
				}
				d := O{"name": fmt.Sprintf("f%d", k), "labels": 1, "params": A{"list", ps}, "var": A{"none"}, "extra": false}
				if r.rng.Intn(3) == 0 {
					d["var"] = A{"name", "rest"}
					scope["rest"] = A{"tuple", A{g.val(pick(r.rng, kinds...), 1), g.val("num", 0)}}
				}
				g.vars, g.names = bv, bn
				if base == "nil" {
					g.vars, g.names = map[string]J{}, nil
				}
				g.noCalls = base == "nil"
				var body A
				g.withVars(scope, func() {
					body = g.gen(pick(r.rng, kinds...), 1+r.rng.Intn(3))
					if len(userCalls) > 0 && r.rng.Intn(2) == 0 {
						c := append(A{}, userCalls[r.rng.Intn(len(userCalls))]...)
						args := A{}
						for i := 0; i < c[2].(int); i++ {
							args = append(args, g.leaf("any"))
						}
						body = A{"tuple", A{body, A{"call", c[1], args, false}}}
					}
				})
				d["res"] = A{"ast", fixSplats(body)}
				userCalls = append(userCalls, A{"call", d["name"], np, d["var"].(A)[0] == "name"})
				switch r.rng.Intn(16) {
				case 0:
					d["params"] = A{"list", append(ps, "!")}
				case 1:
					d["params"] = A{pick(r.rng, "bad", "none")}
				case 2:
					d["var"] = A{"bad"}
				case 3:
					d["extra"] = true
				case 4:
					d["res"] = A{"none"}
				case 5:
					if !asJSON && r.rng.Intn(3) == 0 {
						d["labels"] = 2 * r.rng.Intn(2)
					}
				}
				ds = append(ds, d)
			}
			g.noCalls = false
			g.vars, g.names = map[string]J{}, nil
			caller := g.scope()[0].(O)
			rd := &rend{rng: r.rng, paren: true}
			src := funcSource(rd, norm(ds).(A), asJSON)
			calls, texts := A{}, []string{}
			for k := 1 + r.rng.Intn(3); k > 0; k-- {
				c := userCalls[r.rng.Intn(len(userCalls))]
				nargs := c[2].(int)
				if c[3].(bool) {
					nargs += r.rng.Intn(3)
				}
				if r.rng.Intn(8) == 0 {
					nargs += r.rng.Intn(3) - 1
				}
				args := A{}
				for i := 0; i < nargs; i++ {
					args = append(args, g.gen(pick(r.rng, kinds...), r.rng.Intn(2)))
				}
				expand := nargs > 0 && r.rng.Intn(6) == 0
				e := fixSplats(A{"call", c[1], args, expand})
				calls = append(calls, e)
				texts = append(texts, rd.expr(norm(e).(A), 0))
			}
			if exprSize(norm(ds)) > 600 {
				continue
			}
			got, bad := funcRun(src, asJSON, base, norm(baseVars).(O), norm(caller).(O), texts)
			if bad != "" && lastPanicDep {
				lastPanicDep = false
				r.Count("skipped: panic within cty/convert")
				continue
			}
			if bad != "" {
				got = O{"err": bad, "names": A{}, "outs": A{}}
			}
			for _, o := range got["outs"].(A) {
				r.Count("call " + o.(A)[0].(string))
			}
			rec := O{"ds": ds, "base": base, "vars": baseVars, "caller": caller, "calls": calls, "got": got, "src": src + strings.Join(texts, "\n")}
			r.Sample(O{"src": rec["src"], "got": got})
			r.Record(rec, 2)
		}
	}
}
