package main

import (
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
)

var placeholders = strings.NewReplacer("é", "<e2>", "é", "<e2>", "世", "<zh>", "👍🏽", "<emo>", "\ufeff", "BOM", "\xff", "<ff>", "\u0600", "<pre>", "\b", "<08>", "\f", "<0c>", "\x00", "<nul>", "\u200d", "<zwj>", "\U000e0001", "<tag>")

// ascii replaces the characters the specification knows by name.
func ascii(j J) J {
	switch x := j.(type) {
	case string:
		return placeholders.Replace(x)
	case A:
		out := make(A, len(x))
		for i := range x {
			out[i] = ascii(x[i])
		}
		return out
	case O:
		out := O{}
		for k, v := range x {
			out[placeholders.Replace(k)] = ascii(v)
		}
		return out
	}
	return j
}

// frontObserve parses a text in one of the modes of Front.tla and, for
// expressions and templates, evaluates it.
func frontObserve(src, mode string, ctx *hcl.EvalContext) J {
	var got J
	p := guard(src, func() {
		if mode == "body" {
			got = parseTokens("body", src)
			return
		}
		var e hclsyntax.Expression
		var diags hcl.Diagnostics
		if mode == "bare" {
			e, diags = hclsyntax.ParseTemplate([]byte(src), "t.hcl", hcl.Pos{Line: 1, Column: 1})
		} else {
			e, diags = hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.Pos{Line: 1, Column: 1})
		}
		if diags.HasErrors() {
			got = A{"err"}
			return
		}
		got = A{"ok", astOf(e, nil), observeEval(e, ctx)}
	})
	if p != "" {
		return A{p}
	}
	return ascii(norm(got))
}

// texpr is an expression that fits inside an interpolation.
func (g tokGen) texpr(d int) string {
	switch g.n(5) {
	case 0, 1:
		return g.p("a", "x", "t", "l", "l[0]", "o.k", "n")
	case 2:
		return tokenText(g.expr(1, false), g.n(2) == 0)
	case 3:
		if d > 0 {
			return "\"" + g.tmpl(d-1, "q") + "\""
		}
	}
	return g.p("a", "{x=1}.x", "[a, x][1]", "1+x", "!t", "t ? a : x", "null", "\"\"")
}

// tmpl is text for a quoted ("q"), bare ("b") or heredoc ("h") template.
func (g tokGen) tmpl(d int, kind string) string {
	var b strings.Builder
	mark := func(open, in string) string {
		return open + g.p("", "", "~") + g.p("", " ") + in + g.p("", " ") + g.p("", "", "~") + "}"
	}
	for k := g.n(5); k > 0; k-- {
		switch g.n(10) {
		case 0, 1, 2:
			b.WriteString(mark("${", g.texpr(d)))
		case 3:
			if d > 0 {
				b.WriteString(mark("%{", "if "+g.p("t", "!t", "x == 1", "a", "t && t")))
				b.WriteString(g.tmpl(d-1, kind))
				if g.n(2) == 0 {
					b.WriteString(mark("%{", "else"))
					b.WriteString(g.tmpl(d-1, kind))
				}
				b.WriteString(mark("%{", "endif"))
			}
		case 4:
			if d > 0 {
				b.WriteString(mark("%{", "for "+g.p("v", "k, v", "a")+" in "+g.p("l", "o", "[1, 2]", "a")))
				b.WriteString(g.tmpl(d-1, kind))
				b.WriteString(g.p("", "${v}", "${a}"))
				b.WriteString(mark("%{", "endfor"))
			}
		case 5:
			b.WriteString(g.p("$${", "%%{", "$", "%", "$$", "{", "}", "~", "\\n", "\\\"", "\\u0041", "\\\\"))
		case 6:
			if kind != "q" {
				b.WriteString(g.p("\n", "\n", "\n  ", "\n\n", "\r\n", "\n\t "))
			} else {
				b.WriteString(g.p("\\n", " \\n ", "\\t"))
			}
		case 7:
			b.WriteString(g.p(" ", "  "))
		default:
			b.WriteString(g.p("a", "b c", " x ", "é", "世"))
		}
	}
	return b.String()
}

// doc is a heredoc.
func (g tokGen) doc(d int) string {
	var b strings.Builder
	m := g.p("E", "T", "EOT")
	b.WriteString("<<" + g.p("", "-", "-") + m + "\n")
	for k := g.n(5); k > 0; k-- {
		b.WriteString(g.p("", "  ", "    ", "\t", " "))
		b.WriteString(g.p(g.tmpl(d, "h"), "a", "", "E", "${a}", m+" x", "${a} "+m))
		b.WriteString(g.p("\n", "\n", "\n", "\r\n"))
	}
	b.WriteString(g.p("", "  ", "\t") + m + "\n")
	return b.String()
}

func (g tokGen) mutText(cs []string) []string {
	for k := 1 + g.n(2); k > 0 && len(cs) > 0; k-- {
		i := g.n(len(cs))
		switch g.n(4) {
		case 0:
			cs = append(cs[:i:i], cs[i+1:]...)
		case 1, 2:
			c := scanChars[g.n(len(scanChars))]
			if c == "\r" || c == "<e1>" {
				c = "x"
			}
			cs = append(cs[:i:i], append([]string{c}, cs[i:]...)...)
		case 3:
			cs = cs[:i]
		}
	}
	return cs
}

var frontCtx = A{O{"a": A{"str", " A"}, "t": A{"bool", true}, "x": A{"num", 1, 1}, "l": A{"tuple", A{A{"str", "p"}, A{"str", "q "}}},
	"o": A{"obj", O{"k": A{"str", "z"}}}, "n": A{"num", 5, 2}, "b": A{"num", 2, 1}}}

func frontText(g tokGen, kind string) (src, mode string) {
	switch kind {
	case "tmpl":
		if g.n(2) == 0 {
			return g.tmpl(2, "b"), "bare"
		}
		return "\"" + g.tmpl(2, "q") + "\"", "expr"
	case "doc":
		return g.doc(2), "expr"
	}
	mode = g.p("expr", "body", "body", "bare")
	switch mode {
	case "bare":
		return g.tmpl(2, "b"), mode
	case "expr":
		toks := g.expr(2, true)
		for i := range toks {
			switch {
			case toks[i] == `"s"`:
				toks[i] = "\"" + g.tmpl(1, "q") + "\""
			case toks[i] == "a" && g.n(6) == 0:
				toks[i] = "\"" + g.tmpl(1, "q") + "\""
			}
		}
		return tokenText(toks, g.n(2) == 0), mode
	}
	toks := g.body(2)
	for i := range toks {
		switch {
		case i+1 < len(toks) && toks[i] == "=" && toks[i+1] != "\n" && g.n(4) == 0:
			toks[i+1] = "\"" + g.tmpl(1, "q") + "\""
		case i+2 < len(toks) && toks[i] == "=" && toks[i+2] == "\n" && g.n(3) == 0:
			toks[i+1] = strings.TrimSuffix(g.doc(1), "\n")
		}
	}
	return tokenText(toks, g.n(2) == 0), mode
}

func init() {
	for _, kind := range []string{"tmpl", "doc", "any"} {
		kind := kind
		recorders["front_"+kind] = func(r *runner, n int) {
			g := tokGen{r}
			for r.cases < n {
				src, mode := frontText(g, kind)
				mut := 6
				if kind == "any" {
					mut = 2
				}
				cs := split(src)
				if g.n(mut) == 0 {
					cs = g.mutText(cs)
				}
				text := charsText(cs)
				if len(cs) > 160 || strings.Contains(strings.Replace(text, "\r\n", "", -1), "\r") {
					continue
				}
				if cs == nil {
					cs = []string{}
				}
				got := frontObserve(text, mode, evalCtx(frontCtx)).(A)
				if lastPanicDep && strings.HasPrefix(got[0].(string), "panic") {
					lastPanicDep = false
					continue
				}
				if kind == "any" {
					if bad := robust(text); bad != "" {
						r.Mismatch(text, O{"src": text}, "a result with ranges inside the source", bad)
					}
				}
				r.Count(mode + " " + got[0].(string))
				r.Sample(text)
				r.Record(O{"chars": cs, "mode": mode, "ctx": frontCtx, "got": got, "src": text}, 2)
			}
		}
	}
	replayers["front"] = func(r *runner, c O) {
		src := charsText(strs(c["chars"]))
		mode := c["mode"].(string)
		want := c["want"].(A)
		got := frontObserve(src, mode, evalCtx(c["ctx"].(A))).(A)
		if len(want) == 3 && len(got) == 3 && want[2].(A)[0] == "any" {
			want, got = want[:2], got[:2]
		}
		if !same(got, want) {
			r.Mismatch(src, O{"src": src, "mode": mode}, want, got)
		}
		r.Count("parse " + want[0].(string))
		r.Sample(src)
	}
}
