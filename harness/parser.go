package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclparse"
	"github.com/zclconf/go-cty/cty"
)

var parserTexts = map[string]string{
	"n1": "a = 1\n", "n2": "a = 2\n# more\n", "nbad": "a = \n}\n", "j1": `{"a": 1}`, "j2": `{ "a": 2 }`, "jbad": `{"a"`, "jroot": `"a"`, "empty": "",
}

// textName is the name of a content.
func textName(b []byte) string {
	for n, t := range parserTexts {
		if t == string(b) {
			return n
		}
	}
	return fmt.Sprintf("?%q", b)
}

// parserRun plays a history of calls and file changes in a scratch directory.
func parserRun(dir string, fs O, ops A) (out A, bad string) {
	put := func(name, c string) {
		p := filepath.Join(dir, name)
		if err := os.RemoveAll(p); err != nil {
			panic(err)
		}
		switch c {
		case "none":
		case "dir":
			must(os.Mkdir(p, 0755))
		default:
			must(ioutil.WriteFile(p, []byte(parserTexts[c]), 0644))
		}
	}
	for n, c := range fs {
		put(n, c.(string))
	}
	bad = guard(jstr(ops), func() {
		p := hclparse.NewParser()
		ids := map[*hcl.File]int{}
		for k, o := range ops {
			op := strs(o)
			name := filepath.Join(dir, op[1])
			var f *hcl.File
			var diags hcl.Diagnostics
			obs := A{"done"}
			call := true
			src := []byte(parserTexts[op[2]])
			switch op[0] {
			case "hcl":
				f, diags = p.ParseHCL(src, name)
			case "json":
				f, diags = p.ParseJSON(src, name)
			case "hclfile":
				f, diags = p.ParseHCLFile(name)
			case "jsonfile":
				f, diags = p.ParseJSONFile(name)
			case "add":
				f, _ := hclsyntax.ParseConfig(src, name, hcl.InitialPos)
				ids[f] = k + 1
				p.AddFile(name, f)
				call = false
			default:
				put(op[1], op[2])
				call = false
			}
			if call && f == nil {
				obs = A{"nofile"}
				if !diags.HasErrors() {
					obs = A{"nofile without an error"}
				}
			} else if call {
				if ids[f] == 0 {
					ids[f] = k + 1
				}
				val := "none"
				attrs, _ := f.Body.JustAttributes()
				if at := attrs["a"]; at != nil {
					if v, d := at.Expr.Value(nil); !d.HasErrors() && v.Type() == cty.Number {
						val = v.AsBigFloat().Text('f', -1)
					}
				}
				if !diags.HasErrors() && len(diags) > 0 {
					panic("diagnostics that are not errors")
				}
				obs = A{"file", ids[f], diags.HasErrors(), textName(f.Bytes), val}
			}
			listed := A{}
			files, sources := p.Files(), p.Sources()
			if len(files) != len(sources) {
				panic("files and sources list different names")
			}
			var names []string
			for n := range files {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				b, ok := sources[n]
				if !ok || string(b) != string(files[n].Bytes) {
					panic("source differs from the bytes of the file")
				}
				listed = append(listed, A{filepath.Base(n), ids[files[n]], textName(b)})
			}
			out = append(out, O{"obs": obs, "listed": listed})
		}
	})
	return
}

func init() {
	scratch := func() (string, func()) {
		dir, err := ioutil.TempDir("", "verif-parser")
		must(err)
		return dir, func() { os.RemoveAll(dir) }
	}
	replayers["parser"] = func(r *runner, c O) {
		dir, done := scratch()
		defer done()
		got, bad := parserRun(dir, c["fs"].(O), c["ops"].(A))
		want := c["want"].(A)
		if bad == "" && len(got) == len(want) {
			g := norm(got).(A)
			for k := range want {
				w, x := want[k].(O), g[k].(O)
				wo, xo := w["obs"].(A), x["obs"].(A)
				if len(wo) == 5 && wo[4] == "open" && len(xo) == 5 {
					xo[4] = "open"
				}
				if !same(wo, xo) || jstr(sortedSet(w["listed"])) != jstr(sortedSet(x["listed"])) {
					r.Mismatch(jstr(c["ops"]), c["ops"], want, got)
					break
				}
			}
		} else {
			r.Mismatch(jstr(c["ops"]), c["ops"], want, O{"got": got, "bad": bad})
		}
		r.Sample(O{"ops": c["ops"], "got": got})
	}
	recorders["parser"] = func(r *runner, n int) {
		g := tokGen{r}
		for c := 0; c < n; c++ {
			dir, done := scratch()
			content := func() string { return g.p("n1", "n2", "nbad", "j1", "j2", "jbad", "jroot", "empty") }
			fs := O{}
			for _, f := range []string{"x", "y", "z.json"} {
				fs[f] = g.p("none", "dir", content(), content())
			}
			ops := A{}
			for k := 1 + g.n(14); k > 0; k-- {
				name := g.p("x", "y", "z.json")
				switch g.n(8) {
				case 0:
					ops = append(ops, A{"hcl", name, content()})
				case 1:
					ops = append(ops, A{"json", name, content()})
				case 2, 3:
					ops = append(ops, A{"hclfile", name, ""})
				case 4, 5:
					ops = append(ops, A{"jsonfile", name, ""})
				case 6:
					if g.n(3) == 0 {
						ops = append(ops, A{"add", name, content()})
					}
				case 7:
					ops = append(ops, A{"write", name, g.p("none", "dir", content(), content())})
				}
			}
			got, bad := parserRun(dir, fs, norm(ops).(A))
			done()
			rec := O{"fs": fs, "ops": ops, "got": got, "src": jstr(ops)}
			if bad != "" {
				for len(got) < len(ops) {
					got = append(got, O{"obs": A{bad}, "listed": A{}})
				}
				rec["got"] = got
			}
			if len(ops) == 0 {
				continue
			}
			r.Sample(rec)
			r.Record(rec, 1+len(ops))
		}
	}
}
