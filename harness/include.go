package main

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/hashicorp/hcl2/ext/include"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hclparse"
	"github.com/zclconf/go-cty/cty"
)

// incWorld is the surroundings of an included body: a resolver over a set of
// files, kept in a scratch directory when they are real.
type incWorld struct {
	dir  string // scratch directory, holding the base directory
	key  string
	made []string
}

func (w *incWorld) remove() {
	for _, d := range w.made {
		os.RemoveAll(d)
	}
	w.made = nil
}

// use makes the files of the world real.
func (w *incWorld) use(fs O) string {
	if key := jstr(fs); key != w.key {
		w.remove()
		dir, err := ioutil.TempDir("", "vh-include-")
		if err != nil {
			panic(err)
		}
		w.key, w.dir = key, filepath.Join(dir, "base")
		w.made = append(w.made, dir)
		if err := os.MkdirAll(filepath.Join(w.dir, "d"), 0755); err != nil {
			panic(err)
		}
		for p, c := range fs {
			text := "a = [\n"
			switch c.(A)[0] {
			case "nil":
				continue
			case "bad":
				if strings.HasSuffix(p, ".json") {
					text = `{"a": `
				}
			default:
				text = bodySource(c.(A), nil)
			}
			if err := ioutil.WriteFile(filepath.Join(w.dir, filepath.FromSlash(p)), []byte(text), 0644); err != nil {
				panic(err)
			}
		}
	}
	return w.dir
}

func (iw *incWorld) start(w O, body A, abs bool) hcl.Body {
	fs := w["fs"].(O)
	var res include.Resolver
	rootName := "main.hcl"
	parser := hclparse.NewParser()
	bodies := map[string]hcl.Body{}
	if w["res"] != "file" {
		for p, c := range fs {
			if c.(A)[0] == "native" || c.(A)[0] == "json" {
				b, err := parseBody(c.(A), nil)
				if err != "" {
					panic(err)
				}
				bodies[p] = b
			}
		}
	}
	switch w["res"] {
	case "file":
		base := iw.use(fs)
		if abs {
			rootName = filepath.Join(base, rootName)
		}
		res = include.FileResolver(base, parser)
	case "map":
		res = include.MapResolver(bodies)
	default:
		res = include.ResolverFunc(func(path string, rng hcl.Range) (hcl.Body, hcl.Diagnostics) {
			c, ok := fs[path].(A)
			switch {
			case ok && c[0] == "nil":
				return nil, nil
			case !ok || c[0] == "bad":
				return nil, hcl.Diagnostics{{Severity: hcl.DiagError, Summary: "no", Detail: "no", Subject: &rng}}
			}
			for _, p := range strs(w["wn"]) {
				if p == path {
					return bodies[path], hcl.Diagnostics{incWarning}
				}
			}
			return bodies[path], nil
		})
	}
	ctx := &hcl.EvalContext{Variables: map[string]cty.Value{}}
	for n, v := range w["vars"].(O) {
		ctx.Variables[n] = cty.StringVal(v.(string))
	}
	mark, err := parseBody(A{"native", A{A{"a", "mark", A{"num", 1.0, 1.0}}}}, nil)
	if err != "" {
		panic(err)
	}
	var chain []transform.Transformer
	for _, t := range strs(w["tr"]) {
		switch t {
		case "mark":
			chain = append(chain, transform.TransformerFunc(func(b hcl.Body) hcl.Body { return hcl.MergeBodies([]hcl.Body{b, mark}) }))
		case "warn":
			chain = append(chain, transform.TransformerFunc(func(b hcl.Body) hcl.Body {
				return transform.BodyWithDiagnostics(b, hcl.Diagnostics{incWarning})
			}))
		case "none":
			chain = append(chain, transform.TransformerFunc(func(b hcl.Body) hcl.Body { return transform.BodyWithDiagnostics(b, nil) }))
		case "fail":
			chain = append(chain, transform.TransformerFunc(func(b hcl.Body) hcl.Body {
				return transform.BodyWithDiagnostics(b, hcl.Diagnostics{incWarning, incFailure})
			}))
		case "errbody":
			chain = append(chain, transform.TransformerFunc(func(b hcl.Body) hcl.Body { return transform.NewErrorBody(hcl.Diagnostics{incFailure}) }))
		default:
			chain = append(chain, include.Transformer("include", ctx, res))
		}
	}
	tr := chain[0]
	if len(chain) > 1 || abs {
		tr = transform.Chain(chain)
	}
	src := bodySource(body, nil)
	var f *hcl.File
	var diags hcl.Diagnostics
	if body[0] == "json" {
		f, diags = parser.ParseJSON([]byte(src), rootName)
	} else {
		f, diags = parser.ParseHCL([]byte(src), rootName)
	}
	if diags.HasErrors() {
		panic("does not parse: " + diags.Error())
	}
	if w["deep"].(bool) {
		return transform.Deep(f.Body, tr)
	}
	return transform.Shallow(f.Body, tr)
}

// what a transformation may report
var (
	incWarning = &hcl.Diagnostic{Severity: hcl.DiagWarning, Summary: "warned", Detail: "warned"}
	incFailure = &hcl.Diagnostic{Severity: hcl.DiagError, Summary: "failed", Detail: "failed"}
)

// warnCounter counts the warnings of every read of a body.
type warnCounter struct {
	hcl.Body
	warns *int
}

func (b warnCounter) count(diags hcl.Diagnostics) {
	for _, d := range diags {
		if d.Severity == hcl.DiagWarning && d.Summary == "warned" {
			*b.warns++
		}
	}
}

func (b warnCounter) Content(s *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnostics) {
	c, diags := b.Body.Content(s)
	b.count(diags)
	return c, diags
}

func (b warnCounter) PartialContent(s *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
	c, rem, diags := b.Body.PartialContent(s)
	b.count(diags)
	return c, rem, diags
}

func (b warnCounter) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
	as, diags := b.Body.JustAttributes()
	b.count(diags)
	return as, diags
}

// incRead reads a body whose include paths may refer to variables.
func incRead(b hcl.Body, op string, schema *hcl.BodySchema) (O, []hcl.Body) {
	warns := 0
	got, opened := readOp(warnCounter{b, &warns}, op, schema)
	delete(got, "errs")
	got["warn"] = warns
	for _, x := range opened {
		x.MissingItemRange()
	}
	return got, opened
}

func init() {
	iw := &incWorld{}
	replayers["include"] = func(r *runner, c O) {
		w, body, ops := c["w"].(O), c["body"].(A), c["ops"].(A)
		for _, abs := range []bool{false, true} {
			if abs && w["res"] != "file" {
				continue
			}
			key := jstr(O{"tr": w["tr"], "deep": w["deep"], "res": w["res"], "abs": abs}) + "\n" + bodySource(body, nil)
			var done A
			bad := guard(key, func() {
				hs := []hcl.Body{iw.start(w, body, abs)}
				for _, oj := range ops {
					o := oj.(O)
					h := int(jint(o["h"])) - 1
					if h >= len(hs) || hs[h] == nil {
						panic("no body to read")
					}
					got, opened := incRead(hs[h], o["op"].(string), decSchema(o["schema"].(O)))
					done = append(done, got)
					want := o["want"].(A)
					if want[0] == "fails" {
						if got["err"] != true {
							r.Mismatch(key+jstr(done), O{"w": w, "src": bodySource(body, nil), "ops": ops}, "an error", got)
						}
						// what remains is not specified, but it is a body
						for _, x := range opened {
							incRead(x, "just", &hcl.BodySchema{})
							incRead(x, "content", &hcl.BodySchema{})
						}
						r.Count("failing")
						continue
					}
					r.Count("read")
					if w := int(jint(want[1].(O)["warn"])); got["warn"].(int) > w {
						got["warn"] = w // repeating it does no harm
					}
					if !same(norm(want[1]), norm(got)) {
						r.Mismatch(key+jstr(done), O{"w": w, "src": bodySource(body, nil), "ops": ops}, want, got)
						return
					}
					hs = append(hs, opened...)
				}
			})
			if bad != "" {
				r.Mismatch(key, O{"w": w, "src": bodySource(body, nil), "ops": ops}, "no panic", bad)
			}
			r.Sample(O{"src": bodySource(body, nil), "got": done})
		}
	}
	finishers = append(finishers, iw.remove)
	recorders["include"] = func(r *runner, n int) {
		defer iw.remove()
		for r.cases < n {
			g := &bodyGen{rng: r.rng}
			path := func() string {
				return pick(r.rng, "x.hcl", "x.hcl", "y.hcl", "z.json", "d/v.hcl", "d/v.hcl", "d/w.json", "../x.hcl", "./y.hcl", "d/../x.hcl", "bad.hcl", "bad.json", "nosuch.hcl", "d", "", "v.hcl", "nil")
			}
			// inclusions put into generated bodies
			var put func(items A, depth int) A
			put = func(items A, depth int) A {
				out := A{}
				for _, it := range items {
					x := it.(A)
					if x[0] == "b" {
						x = A{"b", x[1], x[2], put(x[3].(A), depth+1)}
					}
					out = append(out, x)
				}
				if depth < 1 && r.rng.Intn(2) == 0 || depth > 0 && r.rng.Intn(3) > 0 {
					for k := 1 + r.rng.Intn(2); k > 0; k-- {
						var v J = A{"str", path()}
						switch r.rng.Intn(10) {
						case 0:
							v = A{"ref", "p"}
						case 1:
							v = []J{A{"ref", "zz"}, A{"tuple", A{}}, A{"num", 5, 1}}[r.rng.Intn(3)]
						}
						inc := A{"b", "include", A{}, A{A{"a", "path", v}}}
						switch r.rng.Intn(20) {
						case 0:
							inc[3] = A{}
						case 1:
							inc[2] = A{"l"}
						case 2:
							inc[3] = append(inc[3].(A), A{"a", "more", A{"num", 1, 1}})
						}
						at := r.rng.Intn(len(out) + 1)
						out = append(out[:at:at], append(A{inc}, out[at:]...)...)
					}
				}
				return out
			}
			var jput func(v A, depth int) A
			jput = func(v A, depth int) A {
				switch v[0] {
				case "a":
					out := A{}
					for _, x := range v[1].(A) {
						out = append(out, jput(x.(A), depth))
					}
					return A{"a", out}
				case "o":
					out := A{}
					for _, p := range v[1].(A) {
						out = append(out, A{p.(A)[0], jput(p.(A)[1].(A), depth+1)})
					}
					if depth > 0 && r.rng.Intn(3) == 0 {
						out = append(out, A{"include", A{"o", A{A{"path", A{"s", path()}}}}})
					}
					return A{"o", out}
				}
				return v
			}
			fs := O{"nil": A{"nil"}, "bad.hcl": A{"bad"}, "bad.json": A{"bad"}}
			for _, p := range []string{"x.hcl", "y.hcl", "z.json", "d/v.hcl", "d/w.json"} {
				if r.rng.Intn(6) == 0 {
					continue
				}
				if strings.HasSuffix(p, ".json") {
					fs[p] = A{"json", jput(g.body("json", 0)[1].(A), 0)}
				} else {
					fs[p] = A{"native", put(g.items(2), 1)}
				}
			}
			for p, c := range fs {
				// inclusions of an included body itself are left open: mostly without
				if c.(A)[0] == "native" && r.rng.Intn(10) > 0 {
					out := A{}
					for _, it := range c.(A)[1].(A) {
						if it.(A)[1] != "include" {
							out = append(out, it)
						}
					}
					fs[p] = A{"native", out}
				}
			}
			w := O{"fs": fs, "vars": O{"p": path()}, "wn": A{path(), path()}, "deep": r.rng.Intn(4) > 0, "res": pick(r.rng, "file", "file", "map", "func"),
				"tr": []A{{"inc"}, {"inc"}, {"mark"}, {"inc", "mark"}, {"mark", "inc"}, {"warn", "inc"}, {"inc", "warn", "mark"}, {"none", "mark", "inc", "none"}, {"mark", "fail"}, {"errbody", "mark"}, {"warn", "mark"}}[r.rng.Intn(11)]}
			body := A{"native", put(g.items(3), 0)}
			if r.rng.Intn(4) == 0 {
				body = A{"json", jput(g.body("json", 0)[1].(A), r.rng.Intn(2))}
			}
			src := bodySource(norm(body).(A), nil)
			ops := A{}
			bad := guard(src, func() {
				hs := []hcl.Body{iw.start(norm(w).(O), norm(body).(A), r.rng.Intn(2) == 0)}
				for k := 1 + r.rng.Intn(6); k > 0; k-- {
					h := r.rng.Intn(len(hs))
					op := pick(r.rng, "content", "partial", "partial", "just")
					schema := g.schema()
					if r.rng.Intn(3) == 0 {
						schema["attrs"] = append(schema["attrs"].(A), O{"n": "mark", "req": r.rng.Intn(2) == 0})
					}
					if r.rng.Intn(4) == 0 {
						schema["blocks"] = append(schema["blocks"].(A), O{"t": "include", "nl": 0})
					}
					got, opened := incRead(hs[h], op, decSchema(norm(schema).(O)))
					ops = append(ops, O{"h": h + 1, "op": op, "schema": schema, "got": got, "n": len(opened)})
					hs = append(hs, opened...)
					r.Count("op " + op)
				}
			})
			if bad != "" {
				r.Mismatch(src, O{"w": w, "src": src, "ops": ops}, "no panic", bad)
				continue
			}
			r.Sample(O{"src": src, "w": w, "ops": ops})
			r.Record(O{"w": w, "body": body, "ops": ops, "src": src}, 1+len(ops))
		}
	}
}
