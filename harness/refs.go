package main

import (
	"sort"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
)

// encPath encodes an absolute traversal as [root, steps].
func encPath(t hcl.Traversal) J {
	st := A{}
	for _, s := range t[1:] {
		switch s := s.(type) {
		case hcl.TraverseAttr:
			st = append(st, A{"a", s.Name})
		case hcl.TraverseIndex:
			st = append(st, A{"i", encVal(s.Key)})
		default:
			st = append(st, A{"?"})
		}
	}
	return A{t.RootName(), st}
}

// encPaths encodes a set of paths in a canonical order.
func encPaths(ts []hcl.Traversal) A {
	m := map[string]J{}
	var ks []string
	for _, t := range ts {
		e := encPath(t)
		k := jstr(e)
		if _, ok := m[k]; !ok {
			ks = append(ks, k)
		}
		m[k] = e
	}
	sort.Strings(ks)
	out := A{}
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out
}

func sortedSet(j J) A {
	m := map[string]J{}
	var ks []string
	a, _ := j.(A)
	for _, x := range a {
		k := jstr(norm(x))
		if _, ok := m[k]; !ok {
			ks = append(ks, k)
		}
		m[k] = norm(x)
	}
	sort.Strings(ks)
	out := A{}
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out
}

// restrictCtx keeps only the variables whose names are roots of the paths.
func restrictCtx(ctx *hcl.EvalContext, ts []hcl.Traversal) *hcl.EvalContext {
	if ctx == nil {
		return nil
	}
	keep := map[string]bool{}
	for _, t := range ts {
		keep[t.RootName()] = true
	}
	var rec func(c *hcl.EvalContext) *hcl.EvalContext
	rec = func(c *hcl.EvalContext) *hcl.EvalContext {
		var n *hcl.EvalContext
		if c.Parent() != nil {
			n = rec(c.Parent()).NewChild()
		} else {
			n = &hcl.EvalContext{}
		}
		n.Functions = c.Functions
		if c.Variables != nil {
			n.Variables = map[string]cty.Value{}
			for k, v := range c.Variables {
				if keep[k] {
					n.Variables[k] = v
				}
			}
		}
		return n
	}
	return rec(ctx)
}

func observeRefs(src string, frames A) (vars A, got J, parse string, panicked string) {
	panicked = guard(src, func() {
		x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.Pos{Line: 1, Column: 1})
		if diags.HasErrors() {
			parse = diags.Error()
			return
		}
		ts := x.Variables()
		vars = encPaths(ts)
		got = observeEval(x, restrictCtx(evalCtx(frames), ts))
	})
	return
}

func init() {
	recorders["refs"] = func(r *runner, n int) {
		for r.cases < n {
			g := &exprGen{rng: r.rng, unknowns: r.rng.Intn(5) == 0, nulls: r.rng.Intn(4) == 0}
			frames := g.scope()
			e := fixSplats(g.gen(kinds[r.rng.Intn(len(kinds))], 1+r.rng.Intn(4)))
			if exprSize(e) > 500 {
				continue
			}
			rd := &rend{rng: r.rng, paren: true}
			src := rd.expr(e, 0)
			vars, got, parse, p := observeRefs(src, frames)
			if p != "" && lastPanicDep {
				r.Count("skipped: panic within cty/convert")
				continue
			}
			if p != "" || parse != "" {
				r.Mismatch(src, src, "parses and evaluates", A{parse, p})
				r.cases++
				continue
			}
			exprStats(r, e, map[string]bool{})
			r.Sample(O{"src": src, "vars": vars})
			r.Record(O{"ast": e, "ctx": frames, "vars": vars, "got": got, "src": src}, 2)
		}
	}
	replayers["refs"] = func(r *runner, c O) {
		rd := &rend{}
		src := rd.expr(fixSplats(c["ast"].(A)), 0)
		vars, got, parse, p := observeRefs(src, c["ctx"].(A))
		if p != "" || parse != "" {
			r.Mismatch(src, src, "parses and evaluates", A{parse, p})
			return
		}
		if w := sortedSet(c["vars"]); !same(norm(vars), w) {
			r.Mismatch(src, src, w, vars)
		}
		if w := c["want"].(A); w[0] != "any" && !same(norm(got), w) {
			r.Mismatch(src, O{"src": src, "scope": "only the reported names"}, w, got)
		}
		r.Sample(O{"src": src, "vars": vars})
	}
}
