package main

import (
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
)

var tokNames = map[hclsyntax.TokenType]string{
	hclsyntax.TokenOQuote: "oquote", hclsyntax.TokenCQuote: "cquote", hclsyntax.TokenOHeredoc: "oheredoc", hclsyntax.TokenCHeredoc: "cheredoc",
	hclsyntax.TokenEqualOp: "eqop", hclsyntax.TokenNotEqual: "neq", hclsyntax.TokenLessThanEq: "le", hclsyntax.TokenGreaterThanEq: "ge",
	hclsyntax.TokenAnd: "and", hclsyntax.TokenOr: "or", hclsyntax.TokenEllipsis: "ellipsis", hclsyntax.TokenFatArrow: "arrow",
	hclsyntax.TokenTemplateInterp: "interp", hclsyntax.TokenTemplateControl: "control", hclsyntax.TokenTemplateSeqEnd: "seqend",
	hclsyntax.TokenQuotedLit: "qlit", hclsyntax.TokenStringLit: "slit", hclsyntax.TokenNumberLit: "number", hclsyntax.TokenIdent: "ident",
	hclsyntax.TokenComment: "comment", hclsyntax.TokenNewline: "newline", hclsyntax.TokenEOF: "eof", hclsyntax.TokenInvalid: "invalid",
	hclsyntax.TokenBadUTF8: "badutf8", hclsyntax.TokenQuotedNewline: "qnewline",
}

func charsText(cs []string) string {
	var b strings.Builder
	for _, c := range cs {
		switch c {
		case "<ff>":
			b.WriteByte(0xff)
		case "<e1>":
			b.WriteString("e\u0301")
		case "<e2>":
			b.WriteString("é")
		case "<zh>":
			b.WriteString("世")
		case "<emo>":
			b.WriteString("👍🏽")
		case "BOM":
			b.WriteString("\ufeff")
		case "<pre>":
			b.WriteString("\u0600")
		default:
			b.WriteString(c)
		}
	}
	return b.String()
}

func encPos(p hcl.Pos) A { return A{p.Line, p.Column, p.Byte} }

// scanObserve scans a text and encodes the tokens; adjacent pieces of one
// literal are merged. It checks that token bytes are the source bytes.
func scanObserve(src, mode string, start hcl.Pos) (J, string) {
	var out A
	bad := ""
	p := guard(src, func() {
		var toks hclsyntax.Tokens
		switch mode {
		case "main":
			toks, _ = hclsyntax.LexConfig([]byte(src), "t.hcl", start)
			alt, _ := hclsyntax.LexExpression([]byte(src), "t.hcl", start)
			if jstr(alt) != jstr(toks) {
				bad = "scanning as an expression gives other tokens"
			}
		case "bare":
			toks, _ = hclsyntax.LexTemplate([]byte(src), "t.hcl", start)
		}
		for _, t := range toks {
			n, ok := tokNames[t.Type]
			if !ok {
				n = string(rune(t.Type))
			}
			lo, hi := t.Range.Start.Byte-start.Byte, t.Range.End.Byte-start.Byte
			if lo < 0 || hi > len(src) || lo > hi || src[lo:hi] != string(t.Bytes) {
				bad = "bytes of token " + n + " are not the source at its range"
			}
			if t.Range.Filename != "t.hcl" {
				bad = "wrong file name"
			}
			if k := len(out); k > 0 && (n == "qlit" || n == "slit") {
				l := out[k-1].(A)
				if l[0] == n && jstr(l[2]) == jstr(encPos(t.Range.Start)) {
					out[k-1] = A{n, l[1], encPos(t.Range.End)}
					continue
				}
			}
			out = append(out, A{n, encPos(t.Range.Start), encPos(t.Range.End)})
		}
	})
	if p != "" {
		bad = p
	}
	return out, bad
}

var scanChars = []string{"a", "b", "E", "T", "f", "o", "r", "_", "0", "1", "2", "9", ".", " ", " ", "\t", "\n", "\n", "\r", "\"", "\"", "$", "%", "{", "}", "{", "}",
	"\\", "~", "<", "-", "=", ">", "!", "&", "|", "/", "*", "#", "(", ")", "[", "]", ",", "?", ":", "+", "^", ";", "`", "'", "@", "<e2>", "<e1>", "<zh>", "<emo>", "<ff>"}

func split(s string) []string {
	var out []string
	for _, c := range s {
		switch c {
		case '\u0301':
			out[len(out)-1] = "<e1>"
		case '🏽':
		case '👍':
			out = append(out, "<emo>")
		case 'é':
			out = append(out, "<e2>")
		case '世':
			out = append(out, "<zh>")
		case '\ufeff':
			out = append(out, "BOM")
		default:
			out = append(out, string(c))
		}
	}
	return out
}

// nested builds plausible template text.
func (g tokGen) tmplText(d int) string {
	var b strings.Builder
	for k := g.n(4); k > 0; k-- {
		switch g.n(9) {
		case 0, 1:
			b.WriteString(g.p("a", "é", " ", "e\u0301", "世", "👍🏽", "fo", "$", "%", "$$", "$${", "%%{", "\\n", "\\\"", "~", "}", "{"))
		case 2, 3:
			if d > 0 {
				b.WriteString(g.p("${", "${~", "%{", "%{~") + g.mainText(d-1) + g.p("}", "~}", "}"))
			}
		default:
			b.WriteString(g.p("a", "b", "x"))
		}
	}
	return b.String()
}

func (g tokGen) docText(d int) string {
	var b strings.Builder
	m := g.p("E", "T", "EE")
	b.WriteString("<<" + g.p("", "-") + m + g.p("\n", "\n", "\r\n"))
	for k := g.n(4); k > 0; k-- {
		b.WriteString(g.p("", " ", "  ", "\t"))
		switch g.n(6) {
		case 0:
			b.WriteString(g.p("E", "T", "EE", "E a", "aE"))
		case 1:
			b.WriteString(g.tmplText(d-1) + g.p("E", ""))
		default:
			b.WriteString(g.p("a", "", "${a}", "é", "\\n", "${a} E"))
		}
		b.WriteString(g.p("\n", "\n", "\r\n"))
	}
	b.WriteString(g.p("", " ", "\t ") + m + g.p("", "", " ") + g.p("\n", "\n", "\r\n"))
	return b.String()
}

func (g tokGen) mainText(d int) string {
	var b strings.Builder
	for k := 1 + g.n(4); k > 0; k-- {
		switch g.n(8) {
		case 0:
			if d > 0 {
				b.WriteString("\"" + g.tmplText(d) + "\"")
			}
		case 1:
			if d > 0 {
				b.WriteString("{" + g.mainText(d-1) + "}")
			}
		case 2:
			if d > 0 {
				b.WriteString(g.docText(d))
			}
		case 3:
			b.WriteString(g.p("# é\n", "// c\r\n", "/* \n */", "/**/", "#"))
		case 4:
			b.WriteString(g.p("\n", " ", "\t", "\r\n", "  "))
		default:
			b.WriteString(g.p("a", "f-1", "1", "1.2", "1e+2", "==", "...", "=>", ".", "[", "]", "é", "&&", "<", "=", " ", "<<", "e\u03011"))
		}
	}
	return b.String()
}

func init() {
	recorders["scan"] = func(r *runner, n int) {
		g := tokGen{r}
		for r.cases < n {
			var cs []string
			mode := g.p("main", "main", "bare")
			switch g.n(3) {
			case 0:
				for k := g.n(14); k > 0; k-- {
					cs = append(cs, scanChars[g.n(len(scanChars))])
				}
			default:
				t := ""
				if mode == "main" {
					t = g.mainText(3)
				} else {
					t = g.tmplText(3)
				}
				cs = split(t)
				for k := g.n(3); k > 0 && len(cs) > 0; k-- {
					i := g.n(len(cs))
					switch g.n(3) {
					case 0:
						cs = append(cs[:i:i], cs[i+1:]...)
					case 1:
						cs = append(cs[:i:i], append([]string{scanChars[g.n(len(scanChars))]}, cs[i:]...)...)
					case 2:
						cs = cs[:i]
					}
				}
			}
			if len(cs) > 90 {
				continue
			}
			if g.n(10) == 0 {
				cs = append([]string{"BOM"}, cs...)
			}
			start := hcl.Pos{Line: 1, Column: 1}
			if g.n(2) == 0 {
				start = hcl.Pos{Line: 1 + g.n(5), Column: 1 + g.n(9), Byte: g.n(50)}
			}
			src := charsText(cs)
			got, bad := scanObserve(src, mode, start)
			if bad != "" {
				r.Mismatch(src, O{"src": src, "mode": mode}, "tokens that reproduce the source", bad)
				r.cases++
				continue
			}
			if cs == nil {
				cs = []string{}
			}
			for _, t := range got.(A) {
				r.Count("token " + t.(A)[0].(string))
			}
			r.Sample(src)
			r.Record(O{"chars": cs, "mode": mode, "start": encPos(start), "got": got, "src": src}, 2)
		}
	}
	replayers["scan"] = func(r *runner, c O) {
		src := charsText(strs(c["chars"]))
		mode := c["mode"].(string)
		if mode == "ident" {
			var valid bool
			p := guard(src, func() { valid = hclsyntax.ValidIdentifier(src) })
			w := c["want"].(A)
			want := len(w) == 2 && w[0].(A)[0] == "ident" && !strings.HasPrefix(src, "\ufeff")
			if p != "" || valid != want {
				r.Mismatch(src, src, want, A{valid, p})
			}
			return
		}
		got, bad := scanObserve(src, mode, hcl.Pos{Line: 1, Column: 1})
		if bad != "" {
			r.Mismatch(src, O{"src": src, "mode": mode}, "tokens that reproduce the source", bad)
		} else if !same(norm(got), c["want"]) {
			r.Mismatch(src, O{"src": src, "mode": mode}, c["want"], got)
		}
		r.Sample(src)
	}
}
