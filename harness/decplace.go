package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
)

// placeMap finds the places of DecPlace.tla in a parsed body.
type placeMap struct {
	exact map[string]A
	items []placedItem
}

type placedItem struct {
	rng  hcl.Range
	path A
}

func newPlaceMap(b *hclsyntax.Body) *placeMap {
	m := &placeMap{exact: map[string]A{}}
	m.walk(b, A{})
	return m
}

func rngKey(r hcl.Range) string {
	return fmt.Sprintf("%s %d.%d.%d-%d.%d.%d", r.Filename, r.Start.Line, r.Start.Column, r.Start.Byte, r.End.Line, r.End.Column, r.End.Byte)
}

func (m *placeMap) walk(b *hclsyntax.Body, path A) {
	m.exact[rngKey(b.MissingItemRange())] = A{"body", path}
	type item struct {
		at    int
		attr  *hclsyntax.Attribute
		block *hclsyntax.Block
	}
	var items []item
	for _, a := range b.Attributes {
		items = append(items, item{at: a.NameRange.Start.Byte, attr: a})
	}
	for _, bl := range b.Blocks {
		items = append(items, item{at: bl.TypeRange.Start.Byte, block: bl})
	}
	sort.Slice(items, func(i, j int) bool { return items[i].at < items[j].at })
	for i, it := range items {
		p := append(append(A{}, path...), i+1)
		if it.attr != nil {
			m.items = append(m.items, placedItem{it.attr.SrcRange, p})
			m.exact[rngKey(it.attr.Expr.Range())] = A{"expr", p}
			continue
		}
		bl := it.block
		m.items = append(m.items, placedItem{hcl.RangeBetween(bl.TypeRange, bl.CloseBraceRange), p})
		head := bl.TypeRange
		for _, l := range bl.LabelRanges {
			head = l
		}
		m.exact[rngKey(hcl.RangeBetween(bl.TypeRange, head))] = A{"def", p}
		for j, l := range bl.LabelRanges {
			m.exact[rngKey(l)] = A{"label", p, j + 1}
		}
		m.walk(bl.Body, p)
	}
}

func (m *placeMap) place(r hcl.Range) A {
	if p, ok := m.exact[rngKey(r)]; ok {
		return p
	}
	if r.Filename != "t.hcl" {
		return A{"off"}
	}
	best := A{"item", A{}}
	for _, it := range m.items {
		if it.rng.Start.Byte <= r.Start.Byte && r.End.Byte <= it.rng.End.Byte && len(it.path) > len(best[1].(A)) {
			best = A{"item", it.path}
		}
	}
	return best
}

// decodePlaces observes where the value and the problems of a decoding are.
func decodePlaces(src string, spec J) (place A, locs A, p string) {
	p = guard(src, func() {
		f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.Pos{Line: 1, Column: 1})
		if diags.HasErrors() {
			panic("body does not parse: " + diags.Error())
		}
		m := newPlaceMap(f.Body.(*hclsyntax.Body))
		sp := buildSpec(spec)
		_, diags = hcldec.Decode(f.Body, sp, decCtx())
		set := A{}
		for _, d := range diags {
			if d.Severity != hcl.DiagError {
				continue
			}
			if d.Subject == nil {
				panic("a problem without a place: " + d.Error())
			}
			if d.Context != nil && d.Context.Filename == d.Subject.Filename && !(d.Context.Start.Byte <= d.Subject.Start.Byte && d.Subject.End.Byte <= d.Context.End.Byte) {
				panic("a problem outside of its context: " + d.Error())
			}
			set = append(set, m.place(*d.Subject))
		}
		locs = sortedSet(set)
		place = m.place(hcldec.SourceRange(f.Body, sp))
	})
	return
}

// answers: a reported place answers a problem of the specification.
func answers(l, q A) bool {
	switch q[0] {
	case "off":
		return l[0] == "off"
	case "body":
		return l[0] == "body" && same(l[1], q[1])
	}
	if l[0] == "off" {
		return false
	}
	lp, qp := l[1].(A), q[1].(A)
	return len(qp) <= len(lp) && same(lp[:len(qp)], qp)
}

// chain makes a specification that names one item, some blocks down.
func (g *decGen) chain(depth int) J {
	if depth == 0 {
		if g.rng.Intn(3) == 0 {
			return A{"battrs", "blk", g.ty(false), g.rng.Intn(4) == 0}
		}
		return g.leaf(true, 2)
	}
	sub := g.chain(depth - 1)
	if g.rng.Intn(5) == 0 {
		sub = A{"xform", sub, pick(g.rng, "pair", "func", "fail")}
	}
	t := pick(g.rng, "blk", "in")
	switch k := pick(g.rng, "block", "blist", "btuple", "bset", "bmap", "bobj"); k {
	case "block":
		return A{k, t, sub, g.rng.Intn(4) == 0}
	case "bmap", "bobj":
		// block maps are not for nested values of varying types
		if text := specText(sub); strings.Contains(text, "btuple") || strings.Contains(text, "bobj") {
			k = "bobj"
		}
		return A{k, t, 1 + g.rng.Intn(2), sub}
	default:
		return A{k, t, sub, []int{0, 0, 0, 1, 2}[g.rng.Intn(5)], []int{0, 0, 0, 2, 3}[g.rng.Intn(5)]}
	}
}

func init() {
	replayers["decplace"] = func(r *runner, c O) {
		src := bodySource(c["body"].(A), nil)
		key := src + " with " + specText(c["spec"])
		input := O{"src": src, "spec": c["spec"]}
		place, locs, p := decodePlaces(src, c["spec"])
		if p != "" {
			if lastPanicDep || hasPinned(c["spec"]) {
				r.Count("panics judged elsewhere")
				return
			}
			r.Mismatch(key, input, "places", p)
			return
		}
		locs = norm(locs).(A)
		probs, _ := c["probs"].(A)
		for _, l := range locs {
			ok := false
			for _, q := range probs {
				ok = ok || answers(l.(A), q.(A))
			}
			if !ok {
				r.Mismatch(key, input, O{"problems": probs}, O{"reported at": locs})
				return
			}
		}
		for _, q := range probs {
			if !q.(A)[2].(bool) {
				continue
			}
			ok := false
			for _, l := range locs {
				ok = ok || answers(l.(A), q.(A))
			}
			if !ok {
				r.Mismatch(key, input, O{"problems": probs}, O{"reported at": locs})
				return
			}
		}
		want := c["place"].(A)
		if want[0] != "any" && !same(norm(place), want) {
			r.Mismatch(key, input, O{"place": want}, place)
			return
		}
		r.Count("place " + want[0].(string))
		r.Count(fmt.Sprintf("%d problems", len(probs)))
		r.Sample(input)
	}
	recorders["decplace"] = func(r *runner, n int) {
		for r.cases < n {
			g := &decGen{bodyGen: bodyGen{rng: r.rng}}
			var spec J
			if r.rng.Intn(2) == 0 {
				spec = norm(g.chain(1 + r.rng.Intn(3)))
			} else {
				spec = norm(g.spec(1+r.rng.Intn(3), false, map[string]int{}))
			}
			items := norm(g.nativeItems(spec)).(A)
			src := pick(r.rng, "", "\n", "# note\n\n", "/* a */ ") + nativeText(items, 0, r.rng)
			place, locs, p := decodePlaces(src, spec)
			input := O{"src": src, "spec": spec}
			if p != "" {
				if lastPanicDep || hasPinned(spec) {
					r.Count("panics judged elsewhere")
					continue
				}
				r.Mismatch(src+" with "+specText(spec), input, "places", p)
				continue
			}
			r.Count("place " + place[0].(string))
			r.Count(fmt.Sprintf("reported at %d places", len(locs)))
			r.Sample(input)
			r.Record(O{"spec": spec, "items": items, "place": place, "locs": locs, "src": src + "\nspec " + specText(spec)}, 2)
		}
	}
}
