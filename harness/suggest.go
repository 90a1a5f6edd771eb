package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
)

// What is suggested in place of names that are not known.

func nameOf(j J) string {
	var b strings.Builder
	for _, x := range j.(A) {
		b.WriteRune(rune(jint(x)))
	}
	return b.String()
}

func codesOf(s string) A {
	ret := A{}
	for _, r := range s {
		ret = append(ret, int(r))
	}
	return ret
}

var (
	meanName  = regexp.MustCompile(`Did you mean ("(?:[^"\\]|\\.)*")\?`)
	meanOther = regexp.MustCompile(`Did you mean to define (?:a block of type|argument) ("(?:[^"\\]|\\.)*")\?`)
)

func reportOf(kind, name, detail string) O {
	how, said := "none", ""
	if m := meanName.FindStringSubmatch(detail); m != nil {
		how, said = "name", m[1]
	} else if m := meanOther.FindStringSubmatch(detail); m != nil {
		how, said = "other", m[1]
	} else if strings.Contains(detail, "Did you mean") {
		how = "unreadable"
	}
	if said != "" {
		s, err := strconv.Unquote(said)
		if err != nil {
			panic(err)
		}
		said = s
	}
	return O{"k": kind, "n": codesOf(name), "how": how, "name": codesOf(said)}
}

func suggestScopes(c O) *hcl.EvalContext {
	var ctx *hcl.EvalContext
	for _, s := range c["scopes"].(A) {
		if ctx == nil {
			ctx = &hcl.EvalContext{}
		} else {
			ctx = ctx.NewChild()
		}
		if s.(O)["none"].(bool) {
			continue
		}
		vars, funcs := map[string]cty.Value{}, map[string]function.Function{}
		for _, n := range s.(O)["names"].(A) {
			vars[nameOf(n)] = cty.True
			funcs[nameOf(n)] = function.New(&function.Spec{
				Type: function.StaticReturnType(cty.Bool),
				Impl: func([]cty.Value, cty.Type) (cty.Value, error) { return cty.True, nil },
			})
		}
		if c["syn"] == "var" {
			ctx.Variables = vars
		} else {
			ctx.Functions = funcs
		}
	}
	return ctx
}

// suggestions observes the reports about unknown names.
func suggestions(c O) (reports A, src string, p string) {
	reports = A{}
	syn := c["syn"].(string)
	switch syn {
	case "native", "pack":
		for _, it := range c["items"].(A) {
			if it.(O)["k"] == "a" {
				src += nameOf(it.(O)["n"]) + " = 1\n"
			} else {
				src += nameOf(it.(O)["n"]) + " {\n}\n"
			}
		}
	case "json":
		var parts []string
		for _, it := range c["items"].(A) {
			parts = append(parts, strconv.Quote(nameOf(it.(O)["n"]))+": {}")
		}
		src = "{" + strings.Join(parts, ", ") + "}"
	case "var":
		src = nameOf(c["given"])
	case "func":
		src = nameOf(c["given"]) + "()"
	case "control":
		src = "%{ " + nameOf(c["given"]) + " }"
	case "jsonword":
		src = nameOf(c["given"])
	}
	p = guard(src, func() {
		var diags hcl.Diagnostics
		switch syn {
		case "native", "pack", "json":
			var body hcl.Body
			var pd hcl.Diagnostics
			switch syn {
			case "native":
				var f *hcl.File
				f, pd = hclsyntax.ParseConfig([]byte(src), "t", hcl.InitialPos)
				body = f.Body
			case "pack":
				body, pd = hclpack.PackNativeFile([]byte(src), "t", hcl.InitialPos)
			default:
				var f *hcl.File
				f, pd = json.Parse([]byte(src), "t")
				body = f.Body
			}
			if pd.HasErrors() {
				panic("does not parse: " + pd.Error())
			}
			schema := &hcl.BodySchema{}
			for _, n := range c["attrs"].(A) {
				schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: nameOf(n)})
			}
			for _, n := range c["blocks"].(A) {
				schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: nameOf(n)})
			}
			_, diags = body.Content(schema)
			for _, d := range diags {
				name := string(d.Subject.SliceBytes([]byte(src)))
				kind := "a"
				switch {
				case syn == "json":
					name, _ = strconv.Unquote(name)
				case strings.Contains(src[d.Subject.End.Byte:], "{") && strings.HasPrefix(src[d.Subject.End.Byte:], " {"):
					kind = "b"
				}
				reports = append(reports, reportOf(kind, name, d.Detail))
			}
			return
		case "var", "func":
			expr, pd := hclsyntax.ParseExpression([]byte(src), "t", hcl.InitialPos)
			if pd.HasErrors() {
				panic("does not parse: " + pd.Error())
			}
			_, diags = expr.Value(suggestScopes(c))
		case "control":
			_, diags = hclsyntax.ParseTemplate([]byte(src), "t", hcl.InitialPos)
		case "jsonword":
			_, diags = json.Parse([]byte(src), "t")
		}
		if len(diags) == 0 {
			return
		}
		if syn == "jsonword" { // further problems of the file follow
			diags = diags[:1]
		}
		for _, d := range diags {
			reports = append(reports, reportOf("a", nameOf(c["given"]), d.Detail))
		}
	})
	return reports, src, p
}

// ---- random cases

const suggestLetters = "abcdeé_"

func editName(rng *rand.Rand, s string, n int) string {
	r := []rune(s)
	letters := []rune(suggestLetters)
	for ; n > 0; n-- {
		i := rng.Intn(len(r) + 1)
		l := letters[rng.Intn(len(letters))]
		switch {
		case rng.Intn(3) == 0 || i == len(r):
			r = append(r[:i:i], append([]rune{l}, r[i:]...)...)
		case rng.Intn(2) == 0 && len(r) > 1:
			r = append(r[:i:i], r[i+1:]...)
		default:
			r[i] = l
		}
	}
	return string(r)
}

func suggestName(rng *rand.Rand, known []string) string {
	if len(known) > 0 && rng.Intn(5) > 0 {
		return fixName(editName(rng, known[rng.Intn(len(known))], rng.Intn(5)))
	}
	letters := []rune(suggestLetters)
	var r []rune
	for n := 1 + rng.Intn(8); n > 0; n-- {
		r = append(r, letters[rng.Intn(len(letters))])
	}
	return fixName(string(r))
}

// fixName keeps names to those that both syntaxes can write plainly.
func fixName(s string) string {
	s = strings.TrimLeft(s, "_")
	if s == "" {
		return "a"
	}
	return s
}

func suggestCase(rng *rand.Rand) O {
	known := []string{"abc", "bacade", "count"}[:rng.Intn(4)]
	some := func(max int) []string {
		seen, ret := map[string]bool{}, []string{}
		for n := rng.Intn(max + 1); n > 0; n-- {
			s := suggestName(rng, known)
			if !seen[s] {
				seen[s] = true
				ret = append(ret, s)
				known = append(known, s)
			}
		}
		return ret
	}
	list := func(names []string) A {
		ret := A{}
		for _, n := range names {
			ret = append(ret, codesOf(n))
		}
		return ret
	}
	switch syn := pick(rng, "native", "native", "pack", "json", "var", "func", "control", "jsonword"); syn {
	case "native", "pack", "json":
		attrs, blocks := some(4), some(3)
		all := append(append([]string{}, attrs...), blocks...)
		items, seen := A{}, map[string]bool{}
		for n := rng.Intn(5); n > 0; n-- {
			name := suggestName(rng, all)
			if len(all) > 0 && rng.Intn(3) == 0 {
				name = all[rng.Intn(len(all))]
			}
			k := pick(rng, "a", "b")
			if syn == "json" {
				k = "a"
			}
			if k == "a" && seen[name] {
				continue
			}
			if k == "a" {
				seen[name] = true
			}
			items = append(items, O{"k": k, "n": codesOf(name)})
		}
		return O{"syn": syn, "attrs": list(attrs), "blocks": list(blocks), "items": items}
	case "var", "func":
		for {
			scopes, all, open := A{}, []string{}, false
			for n := 1 + rng.Intn(3); n > 0; n-- {
				if rng.Intn(5) == 0 {
					scopes = append(scopes, O{"none": true, "names": A{}})
					continue
				}
				names := some(3)
				all, open = append(all, names...), true
				scopes = append(scopes, O{"none": false, "names": list(names)})
			}
			given := suggestName(rng, all)
			sort.Strings(all)
			if i := sort.SearchStrings(all, given); open && (i == len(all) || all[i] != given) {
				return O{"syn": syn, "scopes": scopes, "given": codesOf(given)}
			}
		}
	default:
		words := []string{"if", "for", "else", "endif", "endfor"}
		if syn == "jsonword" {
			words = []string{"false", "true", "null"}
		}
		for {
			w := words[rng.Intn(len(words))]
			if syn == "jsonword" && rng.Intn(10) == 0 {
				w = pick(rng, "undefined", "NaN", "Infinity")
			} else if rng.Intn(4) == 0 {
				w = strings.ToUpper(w[:1]) + w[1:]
			} else {
				w = fixName(strings.Replace(editName(rng, w, 1+rng.Intn(4)), "é", "z", -1))
			}
			if !strings.Contains(" "+strings.Join(words, " ")+" ", " "+w+" ") {
				return O{"syn": syn, "given": codesOf(w)}
			}
		}
	}
}

func init() {
	replayers["suggest"] = func(r *runner, c O) {
		got, src, p := suggestions(c)
		input := O{"syn": c["syn"], "src": src, "case": c}
		key := fmt.Sprint(c["syn"], " ", src, " ", c["attrs"], c["blocks"], c["scopes"])
		if p != "" {
			r.Mismatch(key, input, "no panic", p)
			return
		}
		want := map[string]A{}
		for _, s := range c["says"].(A) {
			a := s.(A)
			want[fmt.Sprint(a[0], " ", nameOf(a[1]))] = a[2].(A)
		}
		seen := map[string]bool{}
		for _, g := range got {
			o := g.(O)
			k := fmt.Sprint(o["k"], " ", nameOf(norm(o["n"])))
			seen[k] = true
			ok := false
			for _, w := range want[k] {
				ok = ok || same(w, norm(O{"how": o["how"], "name": o["name"]}))
			}
			if !ok {
				r.Mismatch(key, input, want[k], o)
				return
			}
			r.Count("says " + o["how"].(string))
		}
		if len(seen) != len(want) {
			r.Mismatch(key, input, c["says"], got)
			return
		}
		r.Sample(input)
	}
	recorders["suggest"] = func(r *runner, n int) {
		for i := 0; i < n; i++ {
			c := norm(suggestCase(r.rng)).(O)
			got, src, p := suggestions(c)
			input := O{"syn": c["syn"], "src": src, "case": c}
			if p != "" {
				r.Mismatch(fmt.Sprint(c["syn"], " ", src), input, "no panic", p)
				continue
			}
			for _, g := range got {
				r.Count(c["syn"].(string) + " says " + g.(O)["how"].(string))
			}
			r.Sample(input)
			rec := O{"got": got, "src": src}
			for k, v := range c {
				rec[k] = v
			}
			r.Record(rec, 2)
		}
	}
}
