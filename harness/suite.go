package main

import (
	"bytes"
	"context"
	stdjson "encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	ctyjson "github.com/zclconf/go-cty/cty/json"
)

// The runner of the specification suite, with an implementation whose answers
// are laid down in files next to the inputs.

const suiteImpl = `#!/bin/sh
mode=out; spec=; json=; typed=; f=
for a in "$@"; do
  case "$a" in
  --var-refs) mode=refs ;;
  --spec=*) spec="${a#--spec=}" ;;
  --diags=json) json=1 ;;
  --with-type) typed=1 ;;
  *) f="$a" ;;
  esac
done
b="${f%.json}"; b="${b%.hcl}"
[ "$spec" = "$b.hcldec" ] && [ -n "$json" ] || exit 9
[ $mode = refs ] || [ -n "$typed" ] || exit 9
if [ -f "$f.$mode.fail" ]; then cat "$f.$mode.fail" >&2; exit 2; fi
exec cat "$f.$mode"
`

func suitePos(r A, i int) string {
	return fmt.Sprintf("      line = %d\n      column = %d\n      byte = %d\n", jint(r[i]), jint(r[i+1]), jint(r[i+2]))
}

func suiteRange(r A) string {
	return "    from {\n" + suitePos(r, 0) + "    }\n    to {\n" + suitePos(r, 3) + "    }\n"
}

func suitePathText(p A) string {
	t := ""
	for _, s := range p {
		switch a := s.(A); a[0] {
		case "root":
			t += a[1].(string)
		case "attr":
			t += "." + a[1].(string)
		default:
			t += "[" + valueText(a[1]) + "]"
		}
	}
	return t
}

var suiteBroken = []string{
	"result =\n",
	"bogus = 1\n",
	"traversals {\n}\ntraversals {\n}\n",
	"diagnostics {\n}\n",
	"traversals {\n  expect {\n" + suiteRange(A{1, 1, 0, 1, 2, 1}) + "  }\n}\n",
	"traversals {\n  expect {\n    ref = a\n    from {\n" + suitePos(A{1, 1, 0}, 0) + "    }\n  }\n}\n",
	"traversals {\n  expect {\n    ref = a + 1\n" + suiteRange(A{1, 1, 0, 1, 2, 1}) + "  }\n}\n",
	"diagnostics {\n  error {\n    from {\n" + suitePos(A{1, 1, 0}, 0) + "    }\n  }\n}\n",
	"diagnostics {\n  error {\n    more = 1\n" + suiteRange(A{1, 1, 0, 1, 2, 1}) + "  }\n}\n",
	"diagnostics {\n  note {\n" + suiteRange(A{1, 1, 0, 1, 2, 1}) + "  }\n}\n",
	"extra {\n}\n",
}

func suiteTestText(t O) string {
	s := ""
	if ty := t["ty"].(A); len(ty) > 0 {
		s += "result_type = " + typeSource(ty[0]) + "\n"
	}
	if res := t["res"].(A); len(res) > 0 {
		s += "result = " + valueText(res[0]) + "\n"
	}
	if refs := t["refs"].(A); len(refs) > 0 {
		s += "traversals {\n"
		for _, x := range refs[0].(A) {
			s += "  expect {\n    ref = " + suitePathText(x.(O)["path"].(A)) + "\n" + suiteRange(x.(O)["rng"].(A)) + "  }\n"
		}
		s += "}\n"
	}
	if ds := t["diags"].(A); len(ds) > 0 {
		s += "diagnostics {\n"
		for _, x := range ds {
			s += "  " + x.(O)["sev"].(string) + " {\n" + suiteRange(x.(O)["rng"].(A)) + "  }\n"
		}
		s += "}\n"
	}
	if t["file"] == "broken" {
		k := 0
		if n, ok := t["how"]; ok {
			k = int(jint(n))
		}
		s += suiteBroken[k%len(suiteBroken)]
	}
	return s
}

func suiteJSONRange(file string, r A, from, to int) O {
	pos := func(i int) O { return O{"line": r[i], "column": r[i+1], "byte": r[i+2]} }
	return O{"filename": file, "start": pos(from), "end": pos(to)}
}

func suiteDiags(ds A, file string) string {
	list := A{}
	for _, x := range ds {
		d := x.(O)
		o := O{"severity": d["sev"], "summary": "Said", "detail": "This was said."}
		switch d["at"] {
		case "own":
			o["subject"] = suiteJSONRange(file, d["rng"].(A), 0, 3)
		case "other":
			o["subject"] = suiteJSONRange(file+".other", d["rng"].(A), 0, 3)
		}
		list = append(list, o)
	}
	b, err := stdjson.Marshal(O{"diagnostics": list})
	must(err)
	return string(b)
}

func suiteRefs(refs A, file string) string {
	list := A{}
	for _, x := range refs {
		o := x.(O)
		name := file
		if !o["own"].(bool) {
			name += ".other"
		}
		steps := A{}
		path := o["path"].(A)
		for i, s := range path {
			a := s.(A)
			r := suiteJSONRange(name, A{9, 9, 9, 9, 9, 9}, 0, 3)
			own := suiteJSONRange(name, o["rng"].(A), 0, 3)
			if i == 0 {
				r["start"] = own["start"]
			}
			if i == len(path)-1 {
				r["end"] = own["end"]
			}
			step := O{"kind": a[0], "range": r}
			if a[0] == "index" {
				v := decVal(a[1])
				key, err := ctyjson.Marshal(v, v.Type())
				must(err)
				step["key"] = stdjson.RawMessage(key)
			} else {
				step["name"] = a[1]
			}
			steps = append(steps, step)
		}
		list = append(list, O{"steps": steps})
	}
	b, err := stdjson.Marshal(list)
	must(err)
	return string(b)
}

// runSuite writes the tests and the answers and runs the runner.
func (t *toolDir) runSuite(ts A) (got O, text string, p string) {
	dir := t.fresh()
	impl := filepath.Join(t.dir, "impl")
	if _, err := os.Stat(impl); err != nil {
		t.put(impl, suiteImpl, 0755)
	}
	for _, x := range ts {
		c := x.(O)
		var path []string
		for _, n := range c["path"].(A) {
			path = append(path, n.(string))
		}
		base := filepath.Join(dir, filepath.Join(path...))
		must(os.MkdirAll(filepath.Dir(base), 0755))
		s := suiteTestText(c)
		text += "# " + strings.Join(path, "/") + "\n" + s
		t.put(base+".t", s, 0644)
		t.put(base+".txt", "not a test", 0644)
		if c["spec"].(bool) {
			t.put(base+".hcldec", "literal {\n  value = 1\n}\n", 0644)
		}
		for i, y := range c["runs"].(A) {
			run := y.(O)
			in := base + []string{".hcl", ".hcl.json"}[i]
			t.put(in, "ab\nab\n", 0644)
			refs, out := run["refs"].(O), run["out"].(O)
			if f := refs["fail"].(A); len(f) > 0 {
				t.put(in+".refs.fail", suiteDiags(f, in), 0644)
			} else {
				t.put(in+".refs", suiteRefs(refs["list"].(A), in), 0644)
			}
			if f := out["fail"].(A); len(f) > 0 {
				t.put(in+".out.fail", suiteDiags(f, in), 0644)
			} else {
				b, err := ctyjson.Marshal(decVal(out["val"]), cty.DynamicPseudoType)
				must(err)
				t.put(in+".out", string(b), 0644)
			}
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, t.bin, dir, impl)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + t.dir}
	if t.nobody {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobodyID, Gid: nobodyID}}
	}
	var out bytes.Buffer // both, to tell between which lines problems are printed
	cmd.Stdout, cmd.Stderr = &out, &out
	status := 0
	if err := cmd.Run(); err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		status = ee.ExitCode()
	}
	if crashed(out.String()) || ctx.Err() != nil {
		return nil, text, "the runner crashed: " + out.String()
	}
	seen := A{}
	open := ""
	var last O
	for _, line := range strings.Split(out.String(), "\n") {
		switch {
		case strings.HasPrefix(line, "- ") && line == open:
			open = ""
		case strings.HasPrefix(line, "- "):
			if open != "" {
				last["bad"] = true // never finished
			}
			open = line
			path := A{}
			for _, n := range strings.Split(line[2:], "/") {
				path = append(path, n)
			}
			last = O{"path": path, "bad": false}
			seen = append(seen, last)
		case line != "" && open != "":
			last["bad"] = true
		}
	}
	return O{"seen": seen, "exit": status}, text, ""
}

// ---- random suites

type suiteGen struct{ rng *rand.Rand }

func (g suiteGen) ranges() A {
	return []A{{1, 1, 0, 1, 3, 2}, {1, 1, 0, 2, 1, 3}, {1, 1, 0, 1, 2, 1}, {2, 1, 3, 2, 3, 5}, {1, 1, 0, 1, 3, 3}}[g.rng.Intn(5)]
}

func (g suiteGen) path() A {
	p := A{A{"root", pick(g.rng, "a", "b")}}
	for g.rng.Intn(2) == 0 {
		p = append(p, []A{{"attr", "b"}, {"attr", "c"}, {"index", A{"num", 0, 1}}, {"index", A{"str", "b"}}, {"index", A{"num", 1, 1}}}[g.rng.Intn(5)])
	}
	return p
}

func (g suiteGen) value(depth int) J {
	switch k := g.rng.Intn(6); {
	case k < 2 || depth == 0 && k > 2:
		return A{"num", g.rng.Intn(3), 1}
	case k == 2:
		return A{"str", pick(g.rng, "x", "1", "")}
	case k == 3:
		return A{"bool", g.rng.Intn(2) == 0}
	case k == 4:
		es := A{}
		for n := g.rng.Intn(3); n > 0; n-- {
			es = append(es, g.value(depth-1))
		}
		return A{"tuple", es}
	default:
		o := O{}
		for n := 1 + g.rng.Intn(2); n > 0; n-- {
			o[pick(g.rng, "x", "y")] = g.value(depth - 1)
		}
		return A{"obj", o}
	}
}

// shape gives a type that the value may be converted to, mostly.
func (g suiteGen) shape(v J) J {
	a := v.(A)
	switch a[0] {
	case "num":
		return []J{A{"number"}, A{"string"}, A{"number"}, A{"bool"}, A{"dyn"}}[g.rng.Intn(5)]
	case "str":
		return []J{A{"string"}, A{"string"}, A{"number"}}[g.rng.Intn(3)]
	case "bool":
		return []J{A{"bool"}, A{"string"}, A{"dyn"}}[g.rng.Intn(3)]
	case "tuple":
		es := A{}
		for _, e := range a[1].(A) {
			es = append(es, g.shape(e))
		}
		if g.rng.Intn(2) == 0 {
			return A{"tuple", es}
		}
		return A{pick(g.rng, "list", "set"), []J{A{"string"}, A{"number"}}[g.rng.Intn(2)]}
	default:
		o := O{}
		for k, e := range a[1].(O) {
			o[k] = g.shape(e)
		}
		if g.rng.Intn(2) == 0 {
			return A{"object", o}
		}
		return A{"map", A{"string"}}
	}
}

func safeConvert(v cty.Value, ty cty.Type) (ret cty.Value, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%v", p)
		}
	}()
	return convert.Convert(v, ty)
}

func (g suiteGen) diags(expected A) A {
	ret := A{}
	for _, x := range expected {
		d := x.(O)
		if g.rng.Intn(12) > 0 {
			ret = append(ret, O{"sev": d["sev"], "rng": d["rng"], "at": pick(g.rng, "own", "own", "own", "own", "own", "own", "own", "own", "other", "none")})
		}
	}
	if len(ret) == 0 && len(expected) > 0 || g.rng.Intn(10) == 0 {
		ret = append(ret, O{"sev": "error", "rng": g.ranges(), "at": pick(g.rng, "own", "own", "other", "none")})
	}
	g.rng.Shuffle(len(ret), func(i, j int) { ret[i], ret[j] = ret[j], ret[i] })
	return ret
}

func (g suiteGen) test(path A) O {
	t := O{"path": path, "file": "ok", "spec": g.rng.Intn(20) > 0, "ty": A{}, "res": A{}, "refs": A{}, "diags": A{}, "runs": A{}, "how": g.rng.Intn(100)}
	if g.rng.Intn(12) == 0 {
		t["file"] = "broken"
	}
	val := g.value(2)
	if g.rng.Intn(3) > 0 {
		t["res"] = A{val}
	} else if g.rng.Intn(2) == 0 {
		ds := A{}
		for n := 1 + g.rng.Intn(3); n > 0; n-- {
			ds = append(ds, O{"sev": pick(g.rng, "error", "error", "warning"), "rng": g.ranges()})
		}
		t["diags"] = ds
	}
	if g.rng.Intn(2) == 0 {
		t["ty"] = A{g.shape(val)}
	}
	if g.rng.Intn(2) == 0 {
		l := A{}
		for n := g.rng.Intn(3); n > 0; n-- {
			l = append(l, O{"path": g.path(), "rng": g.ranges()})
		}
		t["refs"] = A{l}
	}
	runs := A{}
	for n := []int{0, 1, 1, 1, 2, 2}[g.rng.Intn(6)]; n > 0; n-- {
		refs := O{"fail": A{}, "list": A{}}
		if w := t["refs"].(A); len(w) > 0 {
			l := A{}
			for _, x := range w[0].(A) {
				o := O{"path": x.(O)["path"], "rng": x.(O)["rng"], "own": g.rng.Intn(15) > 0}
				switch g.rng.Intn(15) {
				case 0:
					continue
				case 1:
					o["path"] = g.path()
				case 3, 4: // another last step
					q := append(A{}, o["path"].(A)...)
					if last := g.path(); len(last) > 1 && len(q) > 1 {
						q[len(q)-1] = last[len(last)-1]
						o["path"] = q
					}
				case 2:
					o["rng"] = g.ranges()
				}
				l = append(l, o)
			}
			g.rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			refs["list"] = l
			if g.rng.Intn(20) == 0 {
				refs = O{"fail": A{O{"sev": "error", "rng": g.ranges(), "at": "own"}}, "list": A{}}
			}
		}
		out := O{"fail": g.diags(t["diags"].(A)), "val": val}
		if len(out["fail"].(A)) == 0 {
			v := decVal(norm(val))
			if ty := t["ty"].(A); len(ty) > 0 && g.rng.Intn(8) > 0 {
				if c, err := safeConvert(v, decType(norm(ty[0]))); err == nil {
					v = c
				}
			}
			out["val"] = encVal(v)
			if g.rng.Intn(8) == 0 {
				out["val"] = g.value(1)
			}
		}
		runs = append(runs, O{"refs": refs, "out": out})
	}
	t["runs"] = runs
	return norm(t).(O)
}

func (g suiteGen) suite() A {
	ts, used := A{}, map[string]bool{}
	for n := g.rng.Intn(5); n >= 0; n-- {
		path := A{}
		for g.rng.Intn(3) == 0 && len(path) < 2 {
			path = append(path, pick(g.rng, "a", "b", "c", "d1", ".x"))
		}
		path = append(path, pick(g.rng, "a", "ab", "a-b", "b", "t", ".y", "t1", "a_b"))
		if k := fmt.Sprint(path); !used[k] {
			used[k] = true
			ts = append(ts, g.test(path))
		}
	}
	return ts
}

func init() {
	var tool *toolDir
	replayers["suite"] = func(r *runner, c O) {
		if tool == nil {
			tool = newToolDir("hclspecsuite")
		}
		ts := c["ts"].(A)
		for _, t := range ts {
			t.(O)["how"] = r.cases
		}
		got, text, p := tool.runSuite(ts)
		input := O{"tests": text, "runs": ts}
		key := fmt.Sprint(text, ts)
		want := c["want"].(O)
		if p != "" {
			r.Mismatch(key, input, want, p)
			return
		}
		seen, wseen := got["seen"].(A), want["seen"].(A)
		ok := len(seen) == len(wseen)
		for i := 0; ok && i < len(seen); i++ {
			w, s := wseen[i].(A), seen[i].(O)
			ok = same(w[0], norm(s["path"])) && (w[1] == "any" || (w[1] == "bad") == s["bad"].(bool))
			r.Count("tests " + w[1].(string))
		}
		if e := jint(want["exit"]); !ok || e >= 0 && int(e) != got["exit"].(int) {
			r.Mismatch(key, input, want, got)
			return
		}
		r.Sample(input)
	}
	finishers = append(finishers, func() {
		if tool != nil {
			tool.close()
		}
	})
	recorders["suite"] = func(r *runner, n int) {
		t := newToolDir("hclspecsuite")
		defer t.close()
		for i := 0; i < n; i++ {
			ts := suiteGen{r.rng}.suite()
			got, text, p := t.runSuite(ts)
			if p != "" {
				r.Mismatch(text, O{"tests": text, "runs": ts}, "no crash", p)
				continue
			}
			for _, s := range got["seen"].(A) {
				r.Count(fmt.Sprint("failed ", s.(O)["bad"]))
			}
			r.Count(fmt.Sprint("status ", got["exit"]))
			r.Sample(O{"tests": text})
			r.Record(O{"ts": ts, "got": got, "src": text}, 2)
		}
	}
}
