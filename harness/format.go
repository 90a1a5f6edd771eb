package main

import (
	"strings"

	"github.com/apparentlymart/go-textseg/textseg"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
)

type ftok struct {
	kind, text string
	spaces     int
}

// ftoks scans a text into kinds, texts and the spaces before each token;
// the spaces before the end of the text are returned separately.
func ftoks(src string) ([]ftok, int) {
	toks, _ := hclsyntax.LexConfig([]byte(src), "", hcl.Pos{Line: 1, Column: 1})
	var out []ftok
	last := 0
	for _, t := range toks {
		n, ok := tokNames[t.Type]
		if !ok {
			n = string(rune(t.Type))
		}
		sp := t.Range.Start.Byte - last
		last = t.Range.End.Byte
		if n == "eof" {
			return out, sp
		}
		out = append(out, ftok{n, string(t.Bytes), sp})
	}
	return out, 0
}

func sameToks(a, b []ftok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].kind != b[i].kind || a[i].text != b[i].text {
			return false
		}
	}
	return true
}

func laidOut(toks []ftok, spaces []int, end int) string {
	var b strings.Builder
	for i, t := range toks {
		b.WriteString(strings.Repeat(" ", spaces[i]))
		b.WriteString(t.text)
	}
	b.WriteString(strings.Repeat(" ", end))
	return b.String()
}

// formatLaws formats a text and checks what must hold whatever the layout.
func formatLaws(src string) (out string, bad string) {
	p := guard(src, func() {
		in := []byte(src)
		out = string(hclwrite.Format(in))
		if string(in) != src {
			bad = "formatting changed its input"
			return
		}
		_, d1 := hclsyntax.ParseConfig([]byte(src), "", hcl.Pos{Line: 1, Column: 1})
		if d1.HasErrors() {
			return
		}
		_, d2 := hclsyntax.ParseConfig([]byte(out), "", hcl.Pos{Line: 1, Column: 1})
		a, _ := ftoks(src)
		b, _ := ftoks(out)
		switch {
		case d2.HasErrors():
			bad = "formatted text is not valid: " + d2.Error()
		case !sameToks(a, b):
			bad = "formatted text has other tokens: " + out
		case jstr(parseTokens("body", src)) != jstr(parseTokens("body", out)):
			bad = "formatted text means something else: " + out
		default:
			if again := string(hclwrite.Format([]byte(out))); again != out {
				bad = "formatting again gives " + again
			}
		}
		f, d := hclwrite.ParseConfig([]byte(src), "", hcl.Pos{Line: 1, Column: 1})
		if d.HasErrors() {
			bad = "not accepted for rewriting"
		} else if got := string(f.Bytes()); got != out && bad == "" {
			bad = "saving gives " + got + " but formatting " + out
		}
	})
	if p != "" {
		bad = p
	}
	return
}

// spacesOf cuts the formatted text into the spaces before each token.
func spacesOf(out string, toks []ftok) (A, bool) {
	sp := A{}
	for _, t := range toks {
		k := 0
		if t.kind != "qlit" && t.kind != "slit" && t.kind != "cheredoc" {
			k = len(out) - len(strings.TrimLeft(out, " "))
		}
		if !strings.HasPrefix(out[k:], t.text) {
			return nil, false
		}
		sp = append(sp, k)
		out = out[k+len(t.text):]
	}
	return sp, strings.Trim(out, " ") == ""
}

// respace writes tokens with random spaces between them.
func (g tokGen) respace(toks []ftok) string {
	var b strings.Builder
	for _, t := range toks {
		switch {
		case t.kind == "qlit" || t.kind == "slit" || t.kind == "cquote" || t.kind == "cheredoc":
		default:
			b.WriteString(g.p("", " ", " ", "  ", "\t", "     "))
		}
		b.WriteString(t.text)
	}
	return b.String()
}

func width(s string) int {
	n, _ := textseg.TokenCount([]byte(s), textseg.ScanGraphemeClusters)
	return n
}

func (g tokGen) confText() string {
	var b strings.Builder
	g.conf(&b, 2, 0)
	s := b.String()
	if g.n(5) == 0 {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

// conf writes a configuration with varied layout; names are unique per body.
func (g tokGen) conf(b *strings.Builder, d, depth int) {
	names := []string{"a", "bb", "ccc", "d1", "é", "long_name", "in", "for"}
	used := map[string]bool{}
	cmt := func() string { return g.p("", "", "", " # c", " // é c", " /* x */", "/* y\n z */", "  #") }
	for k := g.n(6); k > 0; k-- {
		b.WriteString(g.p("", "", "  ", "\t", "      "))
		switch c := g.n(10); {
		case c < 5:
			n := names[g.n(len(names))]
			if used[n] {
				b.WriteString("\n")
				continue
			}
			used[n] = true
			b.WriteString(n + g.p(" = ", "=", "  =  ", " =") + g.confExpr(2) + cmt() + "\n")
		case c < 7 && d > 0:
			b.WriteString(g.p("blk", "b2") + g.p("", " \"l\"", " l", " \"l\"   \"m\"") + g.p("{", " {", "   {"))
			switch g.n(4) {
			case 0:
				b.WriteString("}")
			case 1:
				b.WriteString(g.p("", " ") + "x=" + g.confExpr(1) + " }")
			default:
				b.WriteString(cmt() + "\n")
				g.conf(b, d-1, depth+1)
				b.WriteString(g.p("", "  ") + "}")
			}
			b.WriteString(cmt() + "\n")
		case c == 7:
			b.WriteString(g.p("# lead", "/* m */", "// w", "/* m\n  n */") + "\n")
		case c == 8:
			n := names[g.n(len(names))]
			if !used[n] {
				used[n] = true
				b.WriteString(n + "=" + g.p("<<E\n", "<<-E\n") + g.p("", "x\n", "  x ${a}\n y\n", "%{ if a }z%{endif}\n") + g.p("E", "  E") + "\n")
			}
		default:
			b.WriteString("\n")
		}
	}
}

func (g tokGen) confExpr(d int) string {
	sp := func() string { return g.p("", " ", " ", "  ") }
	nl := func() string { return g.p("", "", " ", "\n", "\n  ", "\n\n", " # k\n") }
	if d == 0 {
		return g.p("1", "a", "a.b", "\"s\"", "-1", "true", "a[0]", "\"\"", "null", "2.5", "a.0.b", "a.*.b", "é", "\"é ${ a }\"", "\" x \"", "a.0 .1")
	}
	e := func() string { return g.confExpr(d - 1) }
	switch g.n(16) {
	case 0:
		return e() + sp() + g.p("+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||") + g.p(" ", "  ") + e()
	case 1:
		return "(" + nl() + e() + nl() + ")"
	case 2:
		return "[" + nl() + e() + sp() + "," + nl() + e() + g.p("", ",") + nl() + "]"
	case 3:
		return "{" + nl() + g.p("x", "yy") + sp() + g.p("=", ":") + sp() + e() + g.p(",", "\n") + nl() + "(" + e() + ")=" + e() + nl() + "}"
	case 4:
		return g.p("f", "g") + sp() + "(" + nl() + e() + g.p("", ",", "...", ", "+e()) + nl() + ")"
	case 5:
		return e() + " ? " + e() + sp() + ":" + sp() + e()
	case 6:
		return g.p("-", "!", "- ", "! ") + e()
	case 7:
		return "[for " + g.p("x", "k, v") + " in " + g.p("a", "[a]", "f(x)", e()) + sp() + ":" + sp() + e() + g.p("", " if "+e()) + "]"
	case 8:
		return "{for k, v in " + e() + nl() + ":" + sp() + "k" + sp() + "=>" + sp() + e() + g.p("", "...") + "}"
	case 9:
		return "\"" + g.p("", " ", "x") + "${" + sp() + e() + sp() + "}" + g.p("", " ", "${a}", "%{ if a }b%{ endif }", "${~ a ~}") + "\""
	case 10:
		return "[]"
	case 11:
		return "{}"
	case 12:
		return "[" + nl() + "{" + nl() + "x = " + e() + nl() + "}" + nl() + "]"
	}
	return e()
}

func init() {
	replayers["format"] = func(r *runner, c O) {
		var toks []ftok
		var spaces []int
		for _, t := range c["toks"].(A) {
			toks = append(toks, ftok{t.(A)[0].(string), t.(A)[1].(string), 0})
		}
		sp, _ := c["spaces"].(A)
		for _, x := range sp {
			spaces = append(spaces, int(toInt(x)))
		}
		g := tokGen{r}
		seen := false
		for try := 0; try < 2; try++ {
			src := g.respace(toks)
			if in, _ := ftoks(src); !sameToks(in, toks) {
				continue
			}
			seen = true
			_, end := ftoks(src)
			out, bad := formatLaws(src)
			if bad != "" {
				r.Mismatch(src, src, "laws of formatting", bad)
				return
			}
			if want := laidOut(toks, spaces, end); out != want {
				r.Mismatch(src, src, want, out)
				return
			}
			r.Sample(src)
		}
		if seen {
			r.Count("formatted")
		} else {
			r.Count("not writable")
		}
	}
	recorders["format"] = func(r *runner, n int) {
		g := tokGen{r}
		for r.cases < n {
			src := g.confText()
			if g.n(5) == 0 {
				src = charsText(g.mutText(split(src)))
			}
			if strings.Contains(src, "\r") || len(src) > 500 {
				continue
			}
			toks, _ := ftoks(src)
			out, bad := formatLaws(src)
			if bad != "" {
				r.Mismatch(src, src, "laws of formatting", bad)
				continue
			}
			sp, ok := spacesOf(out, toks)
			if !ok {
				r.Mismatch(src, src, "the same text apart from spaces", out)
				continue
			}
			ts := A{}
			for _, t := range toks {
				k := t.kind
				if k == "ident" && t.text == "in" {
					k = "in"
				}
				ts = append(ts, A{k, width(t.text), k == "newline" || k == "comment" && strings.HasSuffix(t.text, "\n")})
			}
			if _, d := hclsyntax.ParseConfig([]byte(src), "", hcl.Pos{Line: 1, Column: 1}); d.HasErrors() {
				r.Count("invalid text")
			} else {
				r.Count("valid text")
			}
			r.Sample(src)
			r.Record(O{"toks": ts, "spaces": sp, "src": src, "out": out, "got": sp}, 2)
		}
	}
}
