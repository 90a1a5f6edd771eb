package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/zclconf/go-cty/cty"
)

// Runs of the decoding command, in the encoding of spec/DecTool.tla.

// typeSource writes an encoded type in the syntax of specification files.
func typeSource(j J) string {
	a := j.(A)
	switch t := a[0].(string); t {
	case "dyn":
		return "any"
	case "list", "set", "map":
		return t + "(" + typeSource(a[1]) + ")"
	case "tuple":
		var es []string
		for _, x := range a[1].(A) {
			es = append(es, typeSource(x))
		}
		return "tuple([" + strings.Join(es, ", ") + "])"
	case "object":
		var es []string
		if o, ok := a[1].(O); ok {
			for k, x := range o {
				es = append(es, k+" = "+typeSource(x))
			}
		}
		sort.Strings(es)
		return "object({" + strings.Join(es, ", ") + "})"
	default:
		return t
	}
}

// docOf encodes a JSON document, objects as sorted pairs.
func docOf(v interface{}) J {
	switch t := v.(type) {
	case map[string]interface{}:
		ps := A{}
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			ps = append(ps, A{k, docOf(t[k])})
		}
		return A{"o", ps}
	case []interface{}:
		es := A{}
		for _, x := range t {
			es = append(es, docOf(x))
		}
		return A{"a", es}
	case string:
		return A{"s", t}
	case json.Number:
		n, err := cty.ParseNumberVal(t.String())
		if err != nil {
			return A{"s", "not a number: " + t.String()}
		}
		if len(t.String()) > 12 {
			return A{"s", "the number " + t.String()}
		}
		e := encVal(n).(A)
		return A{"n", e[1], e[2]}
	case bool:
		return A{"t", t}
	}
	return A{"z"}
}

func parseDoc(src string) (J, bool) {
	d := json.NewDecoder(strings.NewReader(src))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, false
	}
	if d.More() {
		return nil, false
	}
	return docOf(v), true
}

// sameDoc: a printed document is the wanted one (objects as functions, "u" an
// array in any order).
func sameDoc(w, g J) bool {
	a, b := w.(A), g.(A)
	switch a[0] {
	case "o":
		o, _ := a[1].(O)
		if b[0] != "o" || len(b[1].(A)) != len(o) {
			return false
		}
		for _, p := range b[1].(A) {
			x, ok := o[p.(A)[0].(string)]
			if !ok || !sameDoc(x, p.(A)[1]) {
				return false
			}
		}
		return true
	case "a", "u":
		es := a[1].(A)
		if b[0] != "a" || len(b[1].(A)) != len(es) {
			return false
		}
		used := make([]bool, len(es))
	elems:
		for i, x := range b[1].(A) {
			if a[0] == "a" {
				if !sameDoc(es[i], x) {
					return false
				}
				continue
			}
			for j := range es {
				if !used[j] && sameDoc(es[j], x) {
					used[j] = true
					continue elems
				}
			}
			return false
		}
		return true
	}
	return same(a, b)
}

// depCrash tells whether a crash of the command came from within the value
// library's type conversions.
func depCrash(stderr string) bool {
	for _, l := range strings.Split(stderr, "\n") {
		if !strings.HasPrefix(l, "\t") && strings.Contains(l, "(") {
			if strings.Contains(l, "zclconf/go-cty/cty/convert.") {
				return true
			}
			if strings.Contains(l, "hashicorp/hcl2/") || strings.HasPrefix(l, "main.") {
				return false
			}
		}
	}
	return false
}

var aloneSeven = regexp.MustCompile(`\b7\b`)

// decRun performs a run of the command; how varies the ways of giving the same
// input.
func decRun(t *toolDir, run O, rng interface{ Intn(int) int }) (got O, desc, crash string) {
	d := t.fresh()
	argv := []string{}
	desc = ""
	texts := map[string]string{}
	// the number 7 of the model may stand for one that needs many digits
	big := ""
	if run["refs"] != true && rng.Intn(3) == 0 {
		big = pickText(rng, "9007199254740993", "12345678901234567890123", "1.00000000000000000001")
	}
	enlarge := func(text string) string {
		if big == "" {
			return text
		}
		return aloneSeven.ReplaceAllString(text, big)
	}
	put := func(name, text string) {
		text = enlarge(text)
		texts[name] = text
		t.put(filepath.Join(d, name), text, 0644)
		desc += fmt.Sprintf("--- %s\n%s", name, text)
		if !strings.HasSuffix(text, "\n") {
			desc += "\n"
		}
	}
	switch sp := run["spec"].(A); sp[0] {
	case "ok":
		put("spec.hcldec", nativeText(sp[1].(A), 0, nil))
	case "broken":
		put("spec.hcldec", pickText(rng, "object {\n", "attr = = \n", "object {}}\n"))
	}
	argv = append(argv, pickText(rng, "--spec=spec.hcldec", "-sspec.hcldec"))
	for i, l := range run["layers"].(A) {
		form := rng.Intn(3)
		if l.(A)[0] == "bad" {
			name := fmt.Sprintf("v%d.hcl", i)
			switch rng.Intn(5) {
			case 0:
				argv = append(argv, "--vars=nosuch.json")
			case 1:
				argv = append(argv, `--vars={"s": }`)
			case 2:
				put(name, "s = \"x\"\nb {\n}\n")
				argv = append(argv, "-V", name)
			case 3:
				put(name, "s = upper(\"x\")\n")
				argv = append(argv, "-V", name)
			case 4:
				put(name, "s = n\n")
				argv = append(argv, "-V", name)
			}
			continue
		}
		js, nat := A{}, A{}
		for _, p := range l.(A)[1].(A) {
			kv := p.(A)
			js = append(js, A{kv[0], jsonValOf(kv[1])})
			nat = append(nat, A{"a", kv[0], kv[1]})
		}
		switch form {
		case 0:
			argv = append(argv, "--vars="+pickText(rng, "", " ")+enlarge(jsonText(A{"o", js}, nil)))
		case 1:
			put(fmt.Sprintf("v%d.json", i), jsonText(A{"o", js}, nil))
			argv = append(argv, fmt.Sprintf("--vars=v%d.json", i))
		default:
			put(fmt.Sprintf("v%d.hcl", i), nativeText(nat, 0, nil))
			argv = append(argv, "-V", fmt.Sprintf("v%d.hcl", i))
		}
	}
	refs, _ := run["refs"].(bool)
	if refs {
		argv = append(argv, "--var-refs")
	}
	if run["ty"] == true {
		argv = append(argv, "--with-type")
	}
	jsonDiags := rng.Intn(3) == 0
	if jsonDiags {
		argv = append(argv, "--diags=json")
	}
	outFile := rng.Intn(3) == 0
	if outFile {
		argv = append(argv, pickText(rng, "-o", "--out=")+"out.json")
		if rng.Intn(2) == 0 {
			t.put(filepath.Join(d, "out.json"), strings.Repeat("previous ", 200), 0644)
		}
	}
	before, _ := ioutil.ReadFile(filepath.Join(d, "out.json"))
	var stdin []byte
	files := run["files"].(A)
	for i, f := range files {
		b := f.(A)
		name := fmt.Sprintf("in%d.hcl", i)
		switch b[0] {
		case "broken":
			if rng.Intn(2) == 0 {
				name = fmt.Sprintf("in%d.json", i)
			}
			put(name, pickText(rng, "a = \n", "{\n", "}"))
		case "json":
			name = fmt.Sprintf("in%d.json", i)
			put(name, bodySource(b, nil))
		case "native":
			if len(files) == 1 && rng.Intn(3) == 0 {
				stdin = []byte(enlarge(bodySource(b, nil)))
				desc += "--- standard input\n" + string(stdin)
				texts["<stdin>"] = string(stdin)
				continue
			}
			put(name, bodySource(b, nil))
		}
		argv = append(argv, name)
	}
	stdout, stderr, status := t.run(d, stdin, argv...)
	if status < 0 {
		must(fmt.Errorf("cannot run hcldec: %s", stderr))
	}
	desc = fmt.Sprintf("hcldec %s\n%sstatus %d\nstdout %q\nstderr %q", strings.Join(argv, " "), desc, status, stdout, stderr)
	if crashed(stderr) || status == 124 {
		return nil, desc, stderr
	}
	quiet := true
	if outFile {
		b, err := ioutil.ReadFile(filepath.Join(d, "out.json"))
		if status == 0 {
			quiet = stdout == ""
			stdout = string(b)
			desc += fmt.Sprintf("\nout.json %q", stdout)
		} else {
			quiet = err != nil || bytes.Equal(b, before)
		}
	}
	if big != "" {
		stdout = strings.Replace(stdout, big, "7", -1)
	}
	out, names, vals := J(A{"none"}), A{}, A{}
	if status == 0 {
		quiet = quiet && stderr == ""
		doc, ok := parseDoc(stdout)
		if !ok {
			out = A{"garbled"}
		} else {
			out = doc
		}
		if refs && ok {
			var ok bool
			if names, vals, ok = refsPrinted(stdout, texts); !ok {
				quiet = false
			}
			out = A{"none"}
		}
	} else {
		if stdout != "" {
			out = A{"printed"}
		}
		quiet = quiet && stderr != ""
		if jsonDiags {
			var ds struct {
				Diagnostics []struct{ Severity, Summary string }
			}
			errs := 0
			if json.Unmarshal([]byte(stderr), &ds) == nil {
				for _, x := range ds.Diagnostics {
					if x.Severity == "error" && x.Summary != "" {
						errs++
					}
				}
			}
			quiet = quiet && errs > 0
		}
	}
	return O{"fail": status != 0, "out": out, "refs": names, "vals": vals, "quiet": quiet}, desc, ""
}

// refsPrinted reads a list of references: the names, the values given with
// them, and whether every one is a single name where it says it is.
func refsPrinted(src string, texts map[string]string) (names, vals A, ok bool) {
	type place struct {
		Filename   string
		Start, End struct{ Line, Column, Byte int }
	}
	var refs []struct {
		Root  string `json:"root_name"`
		Value interface{}
		Steps []struct {
			Kind, Name string
			Key        interface{}
			Range      place
		}
		Range place
	}
	names, vals = A{}, A{}
	d := json.NewDecoder(strings.NewReader(src))
	d.UseNumber()
	if d.Decode(&refs) != nil {
		return names, vals, false
	}
	d = json.NewDecoder(strings.NewReader(src))
	d.UseNumber()
	var raw []map[string]interface{}
	d.Decode(&raw)
	ok = true
	seen := map[string]bool{}
	for i, r := range refs {
		if !seen[r.Root] {
			seen[r.Root] = true
			names = append(names, r.Root)
		}
		if _, given := raw[i]["value"]; given {
			vals = append(vals, A{r.Root, docOf(r.Value)})
		}
		text := texts[r.Range.Filename]
		if len(r.Steps) != 1 || r.Steps[0].Kind != "root" || r.Steps[0].Name != r.Root || r.Steps[0].Key != nil || r.Steps[0].Range != r.Range {
			ok = false
			continue
		}
		s, e := r.Range.Start, r.Range.End
		if s.Byte < 0 || e.Byte > len(text) || s.Byte > e.Byte || text[s.Byte:e.Byte] != r.Root || s.Line != 1+strings.Count(text[:s.Byte], "\n") || e.Line != s.Line || e.Column != s.Column+len(r.Root) || s.Column != s.Byte-strings.LastIndex(text[:s.Byte], "\n") {
			ok = false
		}
	}
	sort.Slice(names, func(i, j int) bool { return names[i].(string) < names[j].(string) })
	return names, vals, ok
}

func pickText(rng interface{ Intn(int) int }, xs ...string) string { return xs[rng.Intn(len(xs))] }

// ---- generation

// toolable replaces what specification files cannot express.
// heads holds the number of labels of the block types of this body.
func toolable(j J, top bool, rng interface{ Intn(int) int }, heads map[string]int) J {
	a := j.(A)
	sub := func(x J) J { return toolable(x, false, rng, heads) }
	nest := func(x J) J { return toolable(x, false, rng, map[string]int{}) }
	if a[0] == "blist" || a[0] == "bset" || a[0] == "btuple" || a[0] == "block" || a[0] == "battrs" || a[0] == "bmap" || a[0] == "bobj" {
		t := a[1].(string)
		n, seen := heads[t]
		if !seen {
			if a[0] == "bmap" || a[0] == "bobj" && rng.Intn(3) == 0 {
				n = 1
				if top {
					n = int(jint(a[2]))
				}
			}
			heads[t] = n
		}
		inner := J(A{"attr", "a", A{"string"}, false})
		switch a[0] {
		case "bmap", "bobj":
			inner = a[3]
		case "battrs":
		default:
			inner = a[2]
		}
		if n > 0 {
			return A{"bmap", t, n, nest(inner)}
		}
		if a[0] == "bmap" || a[0] == "bobj" {
			return A{"blist", t, nest(inner), 0, 0}
		}
	}
	switch a[0].(string) {
	case "object":
		o := O{}
		if m, ok := a[1].(O); ok {
			for k, x := range m {
				o[k] = toolable(x, top, rng, heads)
			}
		}
		return A{"object", o}
	case "tuple":
		es := A{}
		for _, x := range a[1].(A) {
			es = append(es, sub(x))
		}
		return A{"tuple", es}
	case "lit":
		if a[1].(A)[0] == "null" {
			return A{"lit", A{"null", A{"dyn"}}}
		}
		return a
	case "expr", "label":
		return A{"lit", A{"str", "lit"}}
	case "block":
		return A{"block", a[1], nest(a[2]), a[3]}
	case "blist", "bset", "btuple":
		k := a[0]
		if k == "btuple" {
			k = "blist"
		}
		return A{k, a[1], nest(a[2]), a[3], a[4]}
	case "default":
		return A{"default", sub(a[1]), sub(a[2])}
	case "xform":
		if rng.Intn(4) == 0 {
			return sub(a[1])
		}
		return A{"xform", sub(a[1]), "pair"}
	}
	return a
}

type toolGen struct{ *decGen }

func (g toolGen) text(name string, implied string, label bool) A {
	if label && name == implied && g.rng.Intn(2) == 0 {
		return A{}
	}
	return A{A{"str", name}}
}

// block renders a specification as a block of a specification file; with a
// property name when it stands in an object.
func (g toolGen) block(j J, prop string, inObject bool) A {
	a := j.(A)
	labels, items := A{}, A{}
	if inObject {
		labels = A{prop}
	}
	arg := func(n string, v J) { items = append(items, A{"a", n, v}) }
	named := func(n, name string) {
		if inObject && name == prop && g.rng.Intn(2) == 0 {
			return
		}
		arg(n, A{"str", name})
	}
	flag := func(v J) {
		if v == true || g.rng.Intn(4) == 0 {
			arg("required", A{"bool", v})
		}
	}
	typ := func(n string, t J) {
		if t.(A)[0] == "dyn" && g.rng.Intn(2) == 0 {
			return
		}
		arg(n, A{"type", t})
	}
	count := func(n string, v J) {
		if jint(v) != 0 || g.rng.Intn(4) == 0 {
			arg(n, A{"num", v, 1})
		}
	}
	nest := func(x J) { items = append(items, g.block(x, "", false)) }
	t := ""
	switch a[0].(string) {
	case "object":
		t = "object"
		if m, ok := a[1].(O); ok {
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				items = append(items, g.block(m[k], k, true))
			}
		}
	case "tuple":
		t = "array"
		for _, x := range a[1].(A) {
			nest(x)
		}
	case "lit":
		t = "literal"
		arg("value", a[1])
	case "attr":
		t = "attr"
		named("name", a[1].(string))
		typ("type", a[2])
		flag(a[3])
	case "block":
		t = "block"
		named("block_type", a[1].(string))
		flag(a[3])
		nest(a[2])
	case "blist", "bset":
		t = map[string]string{"blist": "block_list", "bset": "block_set"}[a[0].(string)]
		named("block_type", a[1].(string))
		count("min_items", a[3])
		count("max_items", a[4])
		nest(a[2])
	case "bmap":
		t = "block_map"
		named("block_type", a[1].(string))
		ls := A{}
		for i := int64(0); i < jint(a[2]); i++ {
			ls = append(ls, A{"str", fmt.Sprintf("key%d", i)})
		}
		arg("labels", A{"tuple", ls})
		nest(a[3])
	case "battrs":
		t = "block_attrs"
		named("block_type", a[1].(string))
		typ("element_type", a[2])
		flag(a[3])
	case "default":
		t = "default"
		x := a
		cands := A{x[2]}
		for y, ok := x[1].(A); ok; y, ok = x[1].(A) {
			if y[0] != "default" || g.rng.Intn(4) == 0 {
				cands = append(A{y}, cands...)
				break
			}
			cands = append(A{y[2]}, cands...)
			x = y
		}
		for _, x := range cands {
			nest(x)
		}
	case "xform":
		t = "transform"
		arg("result", A{"xf", a[2]})
		nest(a[1])
	}
	if t != "transform" && t != "object" && g.rng.Intn(12) == 0 {
		// wrappers that change nothing
		inner := A{"b", t, A{}, items}
		if !inObject || hasName(items) {
			if g.rng.Intn(2) == 0 {
				return A{"b", "default", labels, A{inner}}
			}
			return A{"b", "transform", labels, A{A{"a", "result", A{"xf", "same"}}, inner}}
		}
	}
	return A{"b", t, labels, items}
}

func hasName(items A) bool {
	for _, it := range items {
		if a := it.(A); a[0] == "a" && (a[1] == "name" || a[1] == "block_type") {
			return true
		}
	}
	return len(items) == 0
}

// collectBlocks lists all blocks of a specification file.
func collectBlocks(items A, ret *[]A) {
	for _, it := range items {
		if a := it.(A); a[0] == "b" && a[1] != "function" {
			*ret = append(*ret, a)
			collectBlocks(a[3].(A), ret)
		}
	}
}

// damage changes something about a specification file.
func (g toolGen) damage(items A) {
	var bs []A
	collectBlocks(items, &bs)
	if len(bs) == 0 {
		return
	}
	b := bs[g.rng.Intn(len(bs))]
	sub := b[3].(A)
	odd := func() J {
		return []J{A{"str", "x"}, A{"str", ""}, A{"num", 3, 1}, A{"num", 3, 2}, A{"num", -1, 1}, A{"bool", true}, A{"null", A{"dyn"}}, A{"ref", "bad"}, A{"type", A{"string"}},
			A{"type", A{"list", A{"dyn"}}}, A{"type", A{"object", O{"k": A{"number"}}}}, A{"tuple", A{}}, A{"tuple", A{A{"str", "k"}}}, A{"tuple", A{A{"null", A{"dyn"}}}}, A{"obj", O{"k": A{"str", "v"}}}, A{"str", "2"}}[g.rng.Intn(16)]
	}
	switch g.rng.Intn(8) {
	case 0:
		if len(sub) > 0 {
			k := g.rng.Intn(len(sub))
			b[3] = append(append(A{}, sub[:k]...), sub[k+1:]...)
		}
	case 1:
		if len(sub) > 0 {
			if x := sub[g.rng.Intn(len(sub))].(A); x[0] == "b" {
				b[3] = append(append(A{}, sub...), x)
			}
		}
	case 2, 3:
		for try := 0; try < 4 && len(sub) > 0; try++ {
			k := g.rng.Intn(len(sub))
			if x := sub[k].(A); x[0] == "a" {
				c := append(A{}, sub...)
				c[k] = A{"a", x[1], odd()}
				b[3] = c
				break
			}
		}
	case 4:
		n := pick(g.rng, "name", "type", "required", "block_type", "min_items", "max_items", "labels", "value", "result", "element_type", "extra")
		for _, it := range sub {
			if it.(A)[0] == "a" && it.(A)[1] == n {
				return
			}
		}
		b[3] = append(append(A{}, sub...), A{"a", n, odd()})
	case 5:
		b[1] = pick(g.rng, "object", "array", "attr", "block", "block_list", "block_set", "block_map", "block_attrs", "default", "transform", "literal", "block_tuple")
	case 6:
		if len(b[2].(A)) > 0 {
			b[2] = A{}
		} else {
			b[2] = A{pick(g.rng, "a", "", "blk")}
		}
	case 7:
		extra := A{"b", pick(g.rng, "attr", "literal", "object", "block", "variables"), A{}, A{A{"a", "name", A{"str", "a"}}}}
		b[3] = append(append(A{}, sub...), extra)
	}
}

// noUnknown rewrites references the command cannot provide values for.
func noUnknown(j J, inJSON bool) J {
	switch t := j.(type) {
	case A:
		if len(t) == 2 && t[0] == "ref" {
			switch t[1] {
			case "u":
				return A{"ref", "s"}
			case "d", "l":
				return A{"ref", "n"}
			}
			return t
		}
		if len(t) == 2 && t[0] == "json" {
			inJSON = true
		}
		ret := make(A, len(t))
		for i, x := range t {
			ret[i] = noUnknown(x, inJSON)
		}
		return ret
	case O:
		ret := O{}
		for k, x := range t {
			ret[k] = noUnknown(x, inJSON)
		}
		return ret
	case string:
		if inJSON {
			switch t {
			case "${u}", "${o}", "${z}":
				return "${s}"
			case "${d}", "${l}":
				return "${n}"
			}
		}
	}
	return j
}

func (g toolGen) layer() A {
	ps := A{}
	for _, n := range []string{"s", "n", "o", "z"} {
		if g.rng.Intn(3) == 0 {
			continue
		}
		var v J
		switch n {
		case "s":
			v = []J{A{"str", "hi"}, A{"str", "5"}, A{"bool", true}, A{"num", 6, 1}}[g.rng.Intn(4)]
		case "n":
			v = []J{A{"num", 7, 1}, A{"num", 8, 1}, A{"str", "9"}}[g.rng.Intn(3)]
		case "o":
			v = []J{A{"obj", O{"k": A{"num", 1, 1}}}, A{"obj", O{"k": A{"str", "v"}}}, A{"tuple", A{A{"str", "e"}}}}[g.rng.Intn(3)]
		default:
			v = A{"null", A{"dyn"}}
		}
		ps = append(ps, A{n, v})
	}
	return ps
}

// JSON numbers of layers are written as whole numbers only.
func wholeLayer(ps A) A {
	for i, p := range ps {
		if v := p.(A)[1].(A); v[0] == "num" && jint(v[2]) != 1 {
			ps[i] = A{p.(A)[0], A{"num", 6, 1}}
		}
	}
	return ps
}

func (g toolGen) run() O {
	spec := norm(toolable(g.spec(2, false, map[string]int{}), true, g.rng, map[string]int{}))
	body := noUnknown(norm(g.body(spec)), false).(A)
	items := A{g.block(spec, "", false)}
	for g.rng.Intn(2) == 0 {
		vs := A{}
		for _, p := range g.layer() {
			vs = append(vs, A{"a", p.(A)[0], p.(A)[1]})
		}
		if g.rng.Intn(20) == 0 {
			vs = append(vs, A{"a", "w", A{"ref", "s"}})
		}
		items = append(items, A{"b", "variables", A{}, vs})
	}
	if g.rng.Intn(4) == 0 {
		items = append(A{A{"b", "function", A{"f"}, A{A{"a", "params", A{"tuple", A{A{"ref", "x"}}}}, A{"a", "result", A{"ref", "x"}}}}}, items...)
	}
	items = norm(items).(A)
	if g.rng.Intn(6) == 0 {
		g.damage(items)
		if g.rng.Intn(3) == 0 {
			g.damage(items)
		}
		items = norm(items).(A)
	}
	layers := A{}
	if g.rng.Intn(4) > 0 {
		layers = append(layers, A{"ok", A{A{"s", A{"str", "hi"}}, A{"n", A{"num", 7, 1}}, A{"o", A{"obj", O{"k": A{"num", 1, 1}}}}, A{"z", A{"null", A{"dyn"}}}}})
	}
	for g.rng.Intn(2) == 0 {
		layers = append(layers, A{"ok", wholeLayer(g.layer())})
	}
	if g.rng.Intn(25) == 0 {
		layers = append(layers, A{"bad"})
	}
	files := A{body}
	if body[0] == "merge" {
		files = body[1].(A)
	}
	if g.rng.Intn(20) == 0 {
		files = append(files, A{pick(g.rng, "missing", "broken")})
	}
	sp := A{"ok", items}
	if g.rng.Intn(40) == 0 {
		sp = A{pick(g.rng, "missing", "broken")}
	}
	return norm(O{"spec": sp, "layers": layers, "files": files, "ty": g.rng.Intn(4) == 0, "refs": g.rng.Intn(8) == 0}).(O)
}

func init() {
	var tool *toolDir
	replayers["dectool"] = func(r *runner, c O) {
		if tool == nil {
			tool = newToolDir("hcldec")
		}
		want := c["want"].(O)
		got, desc, crash := decRun(tool, c["run"].(O), r.rng)
		if crash != "" {
			if depCrash(crash) {
				r.Count("panics of the type library")
				return
			}
			r.Mismatch(desc, desc, "no crash", "a crash")
			return
		}
		if want["any"] == true {
			r.Count("left open")
			return
		}
		ok := got["fail"] == want["fail"] && got["quiet"] == true
		switch {
		case want["fail"] == true:
			r.Count("failures")
			ok = ok && same(got["out"], A{"none"})
		case c["run"].(O)["refs"] == true:
			r.Count("references")
			ok = ok && same(norm(sortedSet(want["refs"])), norm(got["refs"]))
			wv, _ := want["vals"].(O)
			given := map[string]bool{}
			for _, p := range norm(got["vals"]).(A) {
				n := p.(A)[0].(string)
				given[n] = true
				ok = ok && wv[n] != nil && sameDoc(wv[n], p.(A)[1])
			}
			for n := range wv {
				ok = ok && given[n]
			}
		default:
			r.Count("documents")
			ok = ok && sameDoc(want["out"], norm(got["out"]))
		}
		r.Sample(desc)
		if !ok {
			r.Mismatch(desc, desc, want, got)
		}
	}
	finishers = append(finishers, func() {
		if tool != nil {
			tool.close()
		}
	})
	recorders["dectool"] = func(r *runner, n int) {
		t := newToolDir("hcldec")
		defer t.close()
		for r.cases < n {
			g := toolGen{&decGen{bodyGen: bodyGen{rng: r.rng}}}
			run := g.run()
			got, desc, crash := decRun(t, run, r.rng)
			if crash != "" {
				r.cases++
				if depCrash(crash) {
					r.Count("panics of the type library")
					continue
				}
				r.Mismatch(desc, desc, "no crash", "a crash")
				continue
			}
			if got["fail"] == true {
				r.Count("failures")
			} else if run["refs"] == true {
				r.Count("references")
			} else {
				r.Count("documents")
			}
			r.Sample(desc)
			r.Record(O{"run": run, "got": got, "src": desc}, 2)
		}
	}
}
