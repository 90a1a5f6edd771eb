package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
)

var asciiText = strings.NewReplacer("\u00e9", "<e2>", "\u4e16", "<zh>", "\U0001f44d\U0001f3fd", "<emo>", "e\u0301", "<e1>", "\x1b", "<esc>")

// charRange makes the range of a pair of character indexes, counted from 1.
func charRange(chars []string, p J) *hcl.Range {
	a, _ := p.(A)
	if len(a) == 0 {
		return nil
	}
	at := func(n int) hcl.Pos {
		pos := hcl.InitialPos
		for _, c := range chars[:n-1] {
			pos.Column++
			pos.Byte += len(charsText([]string{c}))
			if c == "\n" || c == "\r\n" {
				pos.Line++
				pos.Column = 1
			}
		}
		return pos
	}
	return &hcl.Range{Filename: "t.hcl", Start: at(num(a[0])), End: at(num(a[1]))}
}

func decDiag(chars []string, j J) *hcl.Diagnostic {
	o := j.(O)
	d := &hcl.Diagnostic{Severity: hcl.DiagError, Summary: o["sum"].(string), Subject: charRange(chars, o["subj"]), Context: charRange(chars, o["ctx"])}
	if o["sev"] == "warning" {
		d.Severity = hcl.DiagWarning
	}
	var lines []string
	for _, l := range o["det"].(A) {
		lines = append(lines, strings.Join(strs(l), " "))
	}
	d.Detail = strings.Join(lines, "\n")
	return d
}

type offsetNav struct{}

func (offsetNav) ContextString(offset int) string { return fmt.Sprintf("offset %d", offset) }

var diagScope = func() *hcl.EvalContext {
	parent := &hcl.EvalContext{Variables: map[string]cty.Value{
		"foo": cty.StringVal("foo value"), "boz": cty.NumberIntVal(1), "nul": cty.NullVal(cty.String), "unk": cty.UnknownVal(cty.Number),
	}}
	ctx := parent.NewChild()
	ctx.Variables = map[string]cty.Value{
		"boz": cty.NumberIntVal(5), "obj": cty.ObjectVal(map[string]cty.Value{"baz": cty.True}),
		"lst": cty.ListVal([]cty.Value{cty.StringVal("x"), cty.StringVal("y")}), "one": cty.TupleVal([]cty.Value{cty.Zero}),
	}
	return ctx
}()

// printDiag prints a diagnostic with the given options.
func printDiag(chars []string, d *hcl.Diagnostic, opt O) (got string, bad string) {
	src := charsText(chars)
	bad = guard(src, func() {
		files := map[string]*hcl.File{"other": {Bytes: []byte("other text\n")}}
		if opt["known"].(bool) {
			f := &hcl.File{Bytes: []byte(src)}
			if opt["nav"].(bool) {
				f.Nav = offsetNav{}
			}
			files["t.hcl"] = f
		}
		if refs := strs(opt["refs"]); len(refs) > 0 {
			ex, diags := hclsyntax.ParseExpression([]byte("["+strings.Join(refs, ", ")+"]"), "e.hcl", hcl.InitialPos)
			if diags.HasErrors() {
				panic(diags.Error())
			}
			d.Expression, d.EvalContext = ex, diagScope
		}
		width := uint(0)
		switch w := opt["width"].(type) {
		case float64:
			width = uint(w)
		case int:
			width = uint(w)
		}
		var buf bytes.Buffer
		w := hcl.NewDiagnosticTextWriter(&buf, files, width, opt["color"].(bool))
		if err := w.WriteDiagnostic(d); err != nil {
			panic("cannot print: " + err.Error())
		}
		got = buf.String()
		w.WriteDiagnostics(hcl.Diagnostics{d, d})
		if buf.String() != got+got+got {
			panic("printing several diagnostics is not printing each")
		}
		if w.WriteDiagnostic(nil) == nil || w.WriteDiagnostics(hcl.Diagnostics{d, nil}) == nil {
			panic("a missing diagnostic is printed")
		}
	})
	return asciiText.Replace(got), bad
}

func diagList(chars []string, ops A) (got O, bad string) {
	bad = guard(jstr(ops), func() {
		var ds hcl.Diagnostics
		var all []*hcl.Diagnostic
		for _, op := range ops {
			var add hcl.Diagnostics
			for _, d := range op.(A) {
				add = append(add, decDiag(chars, d))
			}
			all = append(all, add...)
			if len(add) == 1 {
				ds = ds.Append(add[0])
			} else {
				ds = ds.Extend(add)
			}
		}
		sums, errs := A{}, A{}
		for i, d := range ds {
			sums = append(sums, d.Summary)
			if d != all[i] {
				panic("another diagnostic than the one added")
			}
		}
		for _, e := range ds.Errs() {
			d := e.(*hcl.Diagnostic)
			errs = append(errs, d.Summary)
			if e.Error() != (hcl.Diagnostics{d}).Error() {
				panic("one diagnostic reads differently alone")
			}
		}
		got = O{"n": len(ds), "has": ds.HasErrors(), "sums": sums, "errs": errs, "text": ds.Error()}
	})
	return
}

func joinText(j J) string { return strings.Join(strs(j), "") }

func init() {
	replayers["diag"] = func(r *runner, in O) {
		chars := strs(in["chars"])
		if in["what"] == "list" {
			got, bad := diagList(chars, in["ops"].(A))
			want := in["want"].(O)
			want["text"] = joinText(want["text"])
			if bad != "" || !same(norm(got), want) {
				r.Mismatch("list "+bad, in["ops"], want, got)
			}
			r.Sample(O{"ops": in["ops"], "got": got})
			return
		}
		got, bad := printDiag(chars, decDiag(chars, in["d"]), in["opt"].(O))
		want := joinText(in["want"])
		if in["open"].(bool) {
			strip := strings.NewReplacer("<esc>[1;4m", "", "<esc>[0m", "")
			// a mark inside of a character leaves it in two parts
			got, want = strip.Replace(got), strip.Replace(want)
			got = asciiText.Replace(got)
			r.Count("mark of an empty range left open")
		}
		if bad != "" || got != want {
			r.Mismatch("print "+bad, in["d"], want, O{"src": charsText(chars), "got": got})
		}
		r.Sample(O{"src": charsText(chars), "d": in["d"], "got": got})
	}
	recorders["diag"] = func(r *runner, n int) {
		syms := []string{"a", "b", " ", "{", "\n", "\n", "\r\n", "<e2>", "<zh>", "<emo>", "<e1>", "\r", "="}
		words := []string{"a", "of", "the", "value", "required", "an", "argument.", "pneumonoultramicroscopic", "not", "is"}
		for c := 0; c < n; c++ {
			chars := []string{}
			for size := r.rng.Intn(40); len(chars) < size; {
				s := pick(r.rng, syms...)
				if k := len(chars); k > 0 && chars[k-1] == "\r" && s == "\n" {
					continue
				}
				chars = append(chars, s)
			}
			if r.rng.Intn(20) == 0 {
				chars = append(chars, "x")
				for k := 0; k < 110; k++ {
					chars = append(chars, "\n")
				}
				chars = append(chars, "x", "y", "\n", "z")
			}
			mk := func() O {
				L := len(chars) + 1
				i := 1 + r.rng.Intn(L)
				j := i + r.rng.Intn(L-i+1)
				if r.rng.Intn(2) == 0 && j > i+5 {
					j = i + 5
				}
				d := O{"sev": pick(r.rng, "error", "error", "warning"), "sum": pick(r.rng, "Missing item", "Unsupported value", "x"), "subj": A{i, j}, "ctx": A{}}
				switch r.rng.Intn(4) {
				case 0:
					k := 1 + r.rng.Intn(i)
					d["ctx"] = A{k, j + r.rng.Intn(L-j+1)}
				case 1:
					if r.rng.Intn(3) == 0 {
						d["subj"] = A{}
					}
				}
				det := A{}
				for k := r.rng.Intn(3); k > 0; k-- {
					l := A{}
					for m := 1 + r.rng.Intn(9); m > 0; m-- {
						l = append(l, pick(r.rng, words...))
					}
					det = append(det, l)
				}
				d["det"] = det
				return d
			}
			if r.rng.Intn(3) == 0 {
				ops := A{}
				for k := r.rng.Intn(5); k > 0; k-- {
					op := A{}
					for m := r.rng.Intn(4); m > 0; m-- {
						op = append(op, mk())
					}
					ops = append(ops, op)
				}
				got, bad := diagList(chars, norm(ops).(A))
				rec := O{"what": "list", "chars": chars, "ops": ops, "got": got}
				if bad != "" {
					rec["got"] = O{"bad": bad}
				}
				r.Sample(rec)
				r.Record(rec, 2)
				continue
			}
			var refs []string
			for k := r.rng.Intn(4); k > 0; k-- {
				refs = append(refs, pick(r.rng, "boz", "foo", "lst", "lst[0]", "missing", "nul", "obj", "obj.baz", "one", "unk"))
			}
			opt := O{"color": r.rng.Intn(2) == 0, "known": r.rng.Intn(8) > 0, "nav": r.rng.Intn(2) == 0, "width": 0, "refs": refs}
			if refs == nil {
				opt["refs"] = A{}
			}
			if r.rng.Intn(2) == 0 {
				opt["width"] = 2 + r.rng.Intn(40)
			}
			d := mk()
			got, bad := printDiag(chars, decDiag(chars, norm(d)), norm(opt).(O))
			if bad != "" {
				got = bad
			}
			rec := O{"what": "print", "chars": chars, "d": d, "opt": opt, "got": got, "src": charsText(chars)}
			if chars == nil {
				rec["chars"] = A{}
			}
			r.Sample(rec)
			r.Record(rec, 2)
		}
	}
}
