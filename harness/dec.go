package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
)

// Decoding specifications in the encoding of spec/Dec.tla.

func decCtx() *hcl.EvalContext {
	return &hcl.EvalContext{Variables: map[string]cty.Value{
		"s": cty.StringVal("hi"), "n": cty.NumberIntVal(7), "u": cty.UnknownVal(cty.String), "d": cty.DynamicVal,
		"z": cty.NullVal(cty.DynamicPseudoType),
		"l": cty.ListVal([]cty.Value{cty.StringVal("p"), cty.StringVal("q")}),
		"o": cty.ObjectVal(map[string]cty.Value{"k": cty.NumberIntVal(1)}),
	}}
}

func pairFunc() function.Function {
	return function.New(&function.Spec{
		Params: []function.Parameter{{Name: "v", Type: cty.DynamicPseudoType, AllowNull: true, AllowUnknown: true, AllowDynamicType: true}},
		Type: func(args []cty.Value) (cty.Type, error) {
			return cty.Tuple([]cty.Type{args[0].Type(), cty.String}), nil
		},
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			return cty.TupleVal([]cty.Value{args[0], cty.StringVal("x")}), nil
		},
	})
}

func failFunc() function.Function {
	return function.New(&function.Spec{
		Params: []function.Parameter{{Name: "v", Type: cty.DynamicPseudoType, AllowNull: true, AllowUnknown: true, AllowDynamicType: true}},
		Type: func(args []cty.Value) (cty.Type, error) {
			return args[0].Type(), nil
		},
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			if args[0].IsNull() {
				return cty.NilVal, fmt.Errorf("null")
			}
			return args[0], nil
		},
	})
}

func mustExpr(src string) hcl.Expression {
	e, diags := hclsyntax.ParseExpression([]byte(src), "spec.hcl", hcl.Pos{Line: 1, Column: 1})
	if diags.HasErrors() {
		panic("bad expression in harness: " + src + ": " + diags.Error())
	}
	return e
}

func labelNames(n int64) []string {
	// spare capacity: deriving a schema must not write into it
	ret := make([]string, 0, 8)
	for i := int64(0); i < n; i++ {
		ret = append(ret, fmt.Sprintf("key%d", i))
	}
	return ret
}

func buildSpec(j J) hcldec.Spec {
	a := j.(A)
	str := func(i int) string { return a[i].(string) }
	num := func(i int) int { return int(jint(a[i])) }
	switch str(0) {
	case "object":
		ret := hcldec.ObjectSpec{}
		if m, ok := a[1].(O); ok {
			for k, v := range m {
				ret[k] = buildSpec(v)
			}
		}
		return ret
	case "tuple":
		ret := hcldec.TupleSpec{}
		for _, v := range a[1].(A) {
			ret = append(ret, buildSpec(v))
		}
		return ret
	case "attr":
		return &hcldec.AttrSpec{Name: str(1), Type: decType(a[2]), Required: a[3].(bool)}
	case "lit":
		return &hcldec.LiteralSpec{Value: decVal(a[1])}
	case "expr":
		return &hcldec.ExprSpec{Expr: mustExpr(valueText(a[1]))}
	case "block":
		return &hcldec.BlockSpec{TypeName: str(1), Nested: buildSpec(a[2]), Required: a[3].(bool)}
	case "blist":
		return &hcldec.BlockListSpec{TypeName: str(1), Nested: buildSpec(a[2]), MinItems: num(3), MaxItems: num(4)}
	case "btuple":
		return &hcldec.BlockTupleSpec{TypeName: str(1), Nested: buildSpec(a[2]), MinItems: num(3), MaxItems: num(4)}
	case "bset":
		return &hcldec.BlockSetSpec{TypeName: str(1), Nested: buildSpec(a[2]), MinItems: num(3), MaxItems: num(4)}
	case "bmap":
		return &hcldec.BlockMapSpec{TypeName: str(1), LabelNames: labelNames(jint(a[2])), Nested: buildSpec(a[3])}
	case "bobj":
		return &hcldec.BlockObjectSpec{TypeName: str(1), LabelNames: labelNames(jint(a[2])), Nested: buildSpec(a[3])}
	case "battrs":
		return &hcldec.BlockAttrsSpec{TypeName: str(1), ElementType: decType(a[2]), Required: a[3].(bool)}
	case "label":
		return &hcldec.BlockLabelSpec{Index: num(1), Name: fmt.Sprintf("label%d", num(1))}
	case "default":
		return &hcldec.DefaultSpec{Primary: buildSpec(a[1]), Default: buildSpec(a[2])}
	case "xform":
		w := buildSpec(a[1])
		switch str(2) {
		case "pair":
			return &hcldec.TransformExprSpec{Wrapped: w, Expr: mustExpr(`[v, "x"]`), TransformCtx: &hcl.EvalContext{}, VarName: "v"}
		case "func":
			return &hcldec.TransformFuncSpec{Wrapped: w, Func: pairFunc()}
		}
		return &hcldec.TransformFuncSpec{Wrapped: w, Func: failFunc()}
	}
	panic("unknown spec " + str(0))
}

// sortSets orders the elements of encoded sets so that values compare.
func sortSets(j J) J {
	switch t := j.(type) {
	case A:
		ret := make(A, len(t))
		for i, x := range t {
			ret[i] = sortSets(x)
		}
		if len(ret) == 3 && ret[0] == "set" {
			if es, ok := ret[2].(A); ok {
				sort.Slice(es, func(i, j int) bool { return jstr2(es[i]) < jstr2(es[j]) })
			}
		}
		return ret
	case O:
		ret := O{}
		for k, v := range t {
			ret[k] = sortSets(v)
		}
		return ret
	}
	return j
}

func jstr2(v J) string { return fmt.Sprintf("%v", v) }

func rootNames(ts []hcl.Traversal) A {
	var names []string
	for _, t := range ts {
		names = append(names, t.RootName())
	}
	return strSet(names)
}

// conforms tells whether a value has the given type, taking a value of unknown
// type as a placeholder for any.
func conforms(v cty.Value, ty cty.Type) bool {
	if ty == cty.DynamicPseudoType || (!v.IsKnown() && v.Type() == cty.DynamicPseudoType) {
		return true
	}
	vt := v.Type()
	if v.IsKnown() && !v.IsNull() {
		switch {
		case vt.IsObjectType():
			if !ty.IsObjectType() || len(ty.AttributeTypes()) != len(vt.AttributeTypes()) {
				return false
			}
			for n, at := range ty.AttributeTypes() {
				if !vt.HasAttribute(n) || !conforms(v.GetAttr(n), at) {
					return false
				}
			}
			return true
		case vt.IsTupleType():
			if !ty.IsTupleType() || len(ty.TupleElementTypes()) != len(vt.TupleElementTypes()) {
				return false
			}
			for i, et := range ty.TupleElementTypes() {
				if !conforms(v.Index(cty.NumberIntVal(int64(i))), et) {
					return false
				}
			}
			return true
		case vt.IsListType() && ty.IsListType(), vt.IsSetType() && ty.IsSetType(), vt.IsMapType() && ty.IsMapType():
			// elements that are placeholders show in the element type
			if typeHolds(ty, vt) {
				return true
			}
			n := 0
			for it := v.ElementIterator(); it.Next(); n++ {
				if _, ev := it.Element(); !conforms(ev, ty.ElementType()) {
					return false
				}
			}
			return n > 0
		}
	}
	return len(vt.TestConformance(ty)) == 0 || typeHolds(ty, vt)
}

// typeHolds: ty with dynamic parts replaced gives vt.
func typeHolds(ty, vt cty.Type) bool {
	switch {
	case ty == cty.DynamicPseudoType:
		return true
	case ty.IsListType() && vt.IsListType(), ty.IsSetType() && vt.IsSetType(), ty.IsMapType() && vt.IsMapType():
		return typeHolds(ty.ElementType(), vt.ElementType())
	case ty.IsObjectType() && vt.IsObjectType():
		if len(ty.AttributeTypes()) != len(vt.AttributeTypes()) {
			return false
		}
		for n, at := range ty.AttributeTypes() {
			if !vt.HasAttribute(n) || !typeHolds(at, vt.AttributeType(n)) {
				return false
			}
		}
		return true
	case ty.IsTupleType() && vt.IsTupleType():
		a, b := ty.TupleElementTypes(), vt.TupleElementTypes()
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !typeHolds(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	return ty.Equals(vt)
}

func schemaSets(s *hcl.BodySchema) J {
	var as, bs []string
	for _, a := range s.Attributes {
		as = append(as, fmt.Sprintf("%s %v", a.Name, a.Required))
	}
	for _, b := range s.Blocks {
		bs = append(bs, fmt.Sprintf("%s %d", b.Type, len(b.LabelNames)))
	}
	return A{strSet(as), strSet(bs)}
}

const pinnedKey = "empty block map with several key labels"

// decodeOnce runs every entry point of the decoder on a body.
func decodeOnce(b A, spec J) (O, cty.Value, string) {
	return decodeVia(b, spec, func(s hcldec.Spec) hcldec.Spec { return s })
}

// decodeVia is decodeOnce with the specification passed through via first.
func decodeVia(b A, spec J, via func(hcldec.Spec) hcldec.Spec) (O, cty.Value, string) {
	got := O{}
	var val cty.Value
	p := guard(bodySource(b, nil), func() {
		body, perr := parseBody(b, nil)
		if perr != "" {
			panic("body does not parse: " + perr)
		}
		sp := via(buildSpec(spec))
		schema := schemaSets(hcldec.ImpliedSchema(sp))
		if !same(norm(schema), norm(schemaSets(hcldec.ImpliedSchema(sp)))) {
			panic("deriving the schema twice gives different schemas")
		}
		var diags hcl.Diagnostics
		val, diags = hcldec.Decode(body, sp, decCtx())
		got["v"], got["e"] = encVal(val), diags.HasErrors()
		pv, left, pd := hcldec.PartialDecode(body, sp, decCtx())
		got["pe"] = pd.HasErrors()
		if !same(sortSets(norm(encVal(pv))), sortSets(norm(got["v"]))) {
			panic(fmt.Sprintf("partial decode gives %#v, complete decode %#v", pv, val))
		}
		attrs, _ := left.JustAttributes()
		var names []string
		for n := range attrs {
			names = append(names, n)
		}
		_, cd := left.Content(&hcl.BodySchema{})
		got["left"] = O{"attrs": strSet(names), "rest": cd.HasErrors()}
		got["ty"] = encType(hcldec.ImpliedType(sp))
		got["schema"] = schema
		for _, d := range append(append(hcl.Diagnostics{}, diags...), pd...) {
			if d.Subject != nil && strings.HasSuffix(d.Subject.Filename, ".hcl") && d.Subject.Start.Line < 1 {
				panic("diagnostic without a position: " + d.Error())
			}
		}
		rng := hcldec.SourceRange(body, sp)
		_ = rng.String()
		if ty := hcldec.ImpliedType(sp); !conforms(val, ty) {
			got["nonconforming"] = fmt.Sprintf("%#v does not conform to %#v", val, ty)
		}
	})
	return got, val, p
}

// decodeVars observes the variables reported for a body and that decoding does
// not depend on any others.
func decodeVars(b A, spec J) (O, string) {
	got := O{}
	p := guard(bodySource(b, nil), func() {
		body, perr := parseBody(b, nil)
		if perr != "" {
			panic("body does not parse: " + perr)
		}
		sp := buildSpec(spec)
		vars := hcldec.Variables(body, sp)
		got["vars"] = rootNames(vars)
		val, diags := hcldec.Decode(body, sp, decCtx())
		keep := map[string]bool{}
		for _, t := range vars {
			keep[t.RootName()] = true
		}
		ctx := decCtx()
		for n := range ctx.Variables {
			if !keep[n] {
				delete(ctx.Variables, n)
			}
		}
		rv, rd := hcldec.Decode(body, sp, ctx)
		if rd.HasErrors() != diags.HasErrors() || !same(sortSets(norm(encVal(rv))), sortSets(norm(encVal(val)))) {
			panic(fmt.Sprintf("with only the reported names in scope decoding gives %#v (%s), with the whole scope %#v", rv, rd, val))
		}
	})
	return got, p
}

// oddDefault: a default of another type than its primary specification.
func oddDefault(j J) bool {
	a, ok := j.(A)
	if !ok {
		if o, ok := j.(O); ok {
			for _, v := range o {
				if oddDefault(v) {
					return true
				}
			}
		}
		return false
	}
	if len(a) == 3 && a[0] == "default" {
		if !hcldec.ImpliedType(buildSpec(a[1])).Equals(hcldec.ImpliedType(buildSpec(a[2]))) {
			return true
		}
	}
	for _, x := range a {
		if oddDefault(x) {
			return true
		}
	}
	return false
}

func specText(j J) string { return strings.ReplaceAll(fmt.Sprint(j), "map[", "{") }

func hasPinned(j J) bool {
	if a, ok := j.(A); ok {
		if len(a) == 4 && a[0] == "bmap" && jint(norm(a[2])) > 1 {
			return true
		}
		for _, x := range a {
			if hasPinned(x) {
				return true
			}
		}
	}
	if o, ok := j.(O); ok {
		for _, x := range o {
			if hasPinned(x) {
				return true
			}
		}
	}
	return false
}

func init() {
	replayers["dec"] = func(r *runner, c O) {
		b := c["body"].(A)
		key := bodySource(b, nil) + " with " + specText(c["spec"])
		got, _, p := decodeOnce(b, c["spec"])
		input := O{"src": bodySource(b, nil), "spec": c["spec"]}
		if p != "" && lastPanicDep {
			r.Count("panics of the type library")
			return
		}
		if p != "" {
			if hasPinned(c["spec"]) && strings.Contains(p, "inconsistent") {
				key = pinnedKey
			}
			r.Mismatch(key, input, "no panic", p)
			return
		}
		if !same(norm(got["ty"]), c["ty"]) {
			r.Mismatch(key, input, O{"implied type": c["ty"]}, got["ty"])
			return
		}
		ws := decSchema(c["schema"].(O))
		if !same(norm(got["schema"]), norm(schemaSets(ws))) {
			r.Mismatch(key, input, O{"schema": c["schema"]}, got["schema"])
			return
		}
		pin := c["pinned"].(O)
		pinned := hasPinned(c["spec"]) && (pin["any"].(bool) || (pin["e"] == got["e"] && same(sortSets(norm(got["v"])), sortSets(pin["v"]))))
		if nc, bad := got["nonconforming"]; bad && !oddDefault(c["spec"]) {
			if pinned {
				key = pinnedKey
			}
			r.Mismatch(key, input, "a value of the implied type", nc)
			return
		}
		if c["any"].(bool) {
			r.Count("left open")
			return
		}
		if got["e"].(bool) {
			r.Count("with errors")
		}
		want := O{"e": c["e"], "pe": c["pe"], "left": c["left"]}
		c["left"].(O)["attrs"] = sortedSet(c["left"].(O)["attrs"])
		have := O{"e": got["e"], "pe": got["pe"], "left": got["left"]}
		l := c["left"].(O)
		if amb, _ := l["amb"].(bool); amb {
			have["left"] = l
		} else {
			delete(l, "amb")
		}
		if !same(norm(have), norm(want)) {
			if pinned && got["e"] != c["e"] {
				key = pinnedKey
			}
			r.Mismatch(key, input, want, have)
			return
		}
		if !same(sortSets(norm(got["v"])), sortSets(c["v"])) {
			if pinned {
				key = pinnedKey
			}
			r.Mismatch(key, input, c["v"], got["v"])
			return
		}
		r.Sample(input)
	}
	replayers["decvars"] = func(r *runner, c O) {
		b := c["body"].(A)
		key := bodySource(b, nil) + " with " + specText(c["spec"])
		got, p := decodeVars(b, c["spec"])
		input := O{"src": bodySource(b, nil), "spec": c["spec"]}
		if p != "" && (lastPanicDep || (hasPinned(c["spec"]) && strings.Contains(p, "inconsistent"))) {
			r.Count("panics judged elsewhere")
			return
		}
		if p != "" {
			r.Mismatch(key, input, "decoding needs only the reported names", p)
			return
		}
		if !same(norm(got["vars"]), norm(sortedSet(c["vars"]))) {
			r.Mismatch(key, input, c["vars"], got["vars"])
			return
		}
		r.Count(fmt.Sprintf("%d names", len(got["vars"].(A))))
		r.Sample(input)
	}
	recorders["decvars"] = func(r *runner, n int) {
		for i := 0; i < n; i++ {
			g := &decGen{bodyGen: bodyGen{rng: r.rng}}
			spec := norm(g.spec(3, false, map[string]int{}))
			b := norm(g.body(spec)).(A)
			src := bodySource(b, nil)
			got, p := decodeVars(b, spec)
			input := O{"src": src, "spec": spec}
			if p != "" && (lastPanicDep || (hasPinned(spec) && strings.Contains(p, "inconsistent"))) {
				continue
			}
			if p != "" {
				r.Mismatch(src+" with "+specText(spec), input, "decoding needs only the reported names", p)
				continue
			}
			r.Count(fmt.Sprintf("%d names", len(got["vars"].(A))))
			r.Sample(input)
			r.Record(O{"spec": spec, "body": b, "got": got, "pinned": false, "src": src + "\nspec " + specText(spec)}, 2)
		}
	}
	recorders["dec"] = func(r *runner, n int) {
		for i := 0; i < n; i++ {
			g := &decGen{bodyGen: bodyGen{rng: r.rng}}
			spec := norm(g.spec(2, false, map[string]int{}))
			b := norm(g.body(spec)).(A)
			src := bodySource(b, nil)
			got, _, p := decodeOnce(b, spec)
			input := O{"src": src, "spec": spec}
			if p != "" && lastPanicDep {
				r.Count("panics of the type library")
				continue
			}
			if p != "" {
				k := src + " with " + specText(spec)
				if hasPinned(spec) && strings.Contains(p, "inconsistent") {
					k = pinnedKey
				}
				r.Mismatch(k, input, "no panic", p)
				continue
			}
			if nc, bad := got["nonconforming"]; bad && !oddDefault(spec) && !hasPinned(spec) {
				r.Mismatch(src+" with "+specText(spec), input, "a value of the implied type", nc)
				continue
			}
			delete(got, "nonconforming")
			delete(got, "schema")
			r.Count("spec " + spec.(A)[0].(string))
			if got["e"].(bool) {
				r.Count("with errors")
			}
			rec := O{"spec": spec, "body": b, "got": got, "pinned": hasPinned(spec), "src": src + "\nspec " + specText(spec)}
			r.Sample(input)
			r.Record(rec, 2)
		}
	}
}

// ---- generation of specifications and of bodies that fit them, mostly

type decGen struct {
	bodyGen
	dyn bool     // also generate dynamic blocks
	its []string // iterators in scope
}

func (g *decGen) ty(dyn bool) J {
	if g.dyn && g.rng.Intn(6) > 0 {
		if dyn && g.rng.Intn(3) > 0 {
			return A{"dyn"}
		}
		return A{"string"}
	}
	ts := []J{A{"string"}, A{"number"}, A{"bool"}, A{"list", A{"string"}}, A{"map", A{"number"}}, A{"set", A{"string"}}}
	if dyn {
		ts = append(ts, A{"dyn"}, A{"dyn"})
	}
	return ts[g.rng.Intn(len(ts))]
}

// spec generates a specification; inBlock is the number of labels available,
// heads the label counts already given to block types of this body.
func (g *decGen) spec(depth int, nodyn bool, heads map[string]int) J {
	return g.specIn(depth, nodyn, 0, heads)
}

func (g *decGen) leaf(nodyn bool, labels int) J {
	rng := g.rng
	switch rng.Intn(9) {
	case 0:
		return A{"lit", []J{A{"num", 4, 1}, A{"str", "w"}, A{"null", A{"string"}}}[rng.Intn(3)]}
	case 1:
		if !nodyn {
			return A{"expr", g.val()}
		}
	case 2:
		t := g.ty(!nodyn)
		return A{"default", A{"attr", g.name(), t, rng.Intn(4) == 0}, A{"attr", g.name(), t, rng.Intn(4) == 0}}
	case 3:
		return A{"default", A{"attr", g.name(), A{"string"}, false}, A{"lit", A{"str", "dd"}}}
	case 4, 5:
		if labels > 0 {
			return A{"label", rng.Intn(labels)}
		}
	}
	return A{"attr", g.name(), g.ty(!nodyn), rng.Intn(5) == 0}
}

func (g *decGen) name() string { return bodyAttrNames[g.rng.Intn(4)] }

func (g *decGen) specIn(depth int, nodyn bool, labels int, heads map[string]int) J {
	rng := g.rng
	if depth <= 0 {
		return g.leaf(nodyn, labels)
	}
	switch rng.Intn(8) {
	case 0, 1, 2:
		o := O{}
		for i := rng.Intn(4); i > 0; i-- {
			o[pick(rng, "p", "q", "r", "s")] = g.specIn(depth-rng.Intn(2), nodyn, labels, heads)
		}
		return A{"object", o}
	case 3:
		t := A{}
		for i := rng.Intn(4); i > 0; i-- {
			t = append(t, g.specIn(depth-rng.Intn(2), nodyn, labels, heads))
		}
		return A{"tuple", t}
	case 4:
		if rng.Intn(2) == 0 {
			return A{"xform", g.specIn(depth-1, nodyn, labels, heads), pick(rng, "pair", "func", "fail")}
		}
		return g.leaf(nodyn, labels)
	}
	t := pick(rng, "blk", "sub", "svc")
	nl, seen := heads[t]
	if !seen {
		nl = []int{0, 0, 0, 1, 1, 2}[rng.Intn(6)]
		heads[t] = nl
	}
	// the labels every specification of this type asks for have to agree
	nest := func(keys int, nd bool) J {
		n := g.specIn(depth-1, nd, nl-keys, map[string]int{})
		if nl-keys == 0 {
			return n
		}
		ls := A{n}
		for i := 0; i < nl-keys; i++ {
			ls = append(ls, A{"label", i})
		}
		return A{"tuple", ls}
	}
	lim := 4
	if g.dyn && rng.Intn(4) > 0 {
		lim = 2
	}
	min, max := []int{0, 0, 1, 2}[rng.Intn(lim)], []int{0, 0, 1, 2, 3}[rng.Intn(lim+lim/4)]
	if max > 0 && max < min || min > 0 && rng.Intn(3) == 0 {
		max = min
	}
	switch k := rng.Intn(8); {
	case k == 0 && nl == 0:
		ety := g.ty(!nodyn)
		return A{"battrs", t, ety, rng.Intn(4) == 0}
	case k < 2 && nl > 0:
		keys := 1 + rng.Intn(nl)
		return A{"bmap", t, keys, nest(keys, true)}
	case k < 4 && nl > 0 && !nodyn:
		keys := 1 + rng.Intn(nl)
		return A{"bobj", t, keys, nest(keys, false)}
	case k == 4 && !nodyn:
		return A{"btuple", t, nest(0, nodyn), min, max}
	case k == 5:
		return A{"bset", t, nest(0, nodyn), min, max}
	case k == 6:
		return A{"block", t, nest(0, nodyn), rng.Intn(4) == 0}
	}
	return A{"blist", t, nest(0, nodyn), min, max}
}

func (g *decGen) val() J {
	rng := g.rng
	switch rng.Intn(10) {
	case 0, 1:
		return A{"str", pick(rng, "x", "5", "true", "")}
	case 2, 3:
		return A{"num", rng.Intn(4), 1}
	case 4:
		return A{"bool", rng.Intn(2) == 0}
	case 5:
		return A{"tuple", A{g.sval(), g.sval()}}
	case 6:
		return A{"obj", O{"k": g.sval(), "m": g.sval()}}
	}
	return g.sval()
}

func (g *decGen) sval() J {
	if len(g.its) > 0 && g.rng.Intn(2) == 0 {
		return g.itVal()
	}
	if g.rng.Intn(3) == 0 {
		return A{"str", pick(g.rng, "x", "y")}
	}
	if g.dyn && g.rng.Intn(8) > 0 {
		return A{"ref", pick(g.rng, "s", "s", "n", "u", "d", "z")}
	}
	return A{"ref", pick(g.rng, "s", "s", "n", "n", "l", "o", "u", "d", "z", "bad")}
}

// fitVal gives a value that mostly converts to the wanted type.
func (g *decGen) fitVal(ty J) J {
	if odd := g.rng.Intn(20); odd == 0 || (odd < 4 && !g.dyn) {
		return g.val()
	}
	if len(g.its) > 0 && g.rng.Intn(2) == 0 {
		return g.itVal()
	}
	switch ty.(A)[0] {
	case "string":
		return []J{A{"str", "x"}, A{"str", "y"}, A{"ref", "s"}, A{"num", 3, 1}, A{"ref", "u"}}[g.rng.Intn(5)]
	case "number":
		return []J{A{"num", g.rng.Intn(4), 1}, A{"str", "5"}, A{"ref", "n"}}[g.rng.Intn(3)]
	case "bool":
		return []J{A{"bool", true}, A{"str", "false"}}[g.rng.Intn(2)]
	case "list", "set":
		return []J{A{"tuple", A{A{"str", "a"}, A{"ref", "s"}}}, A{"ref", "l"}, A{"tuple", A{}}}[g.rng.Intn(3)]
	case "map":
		return []J{A{"obj", O{"k": A{"num", 1, 1}}}, A{"ref", "o"}}[g.rng.Intn(2)]
	}
	return g.val()
}

type fitDecl struct {
	attrs  map[string]J
	order  []string
	blocks []A
}

func (g *decGen) collect(spec J, d *fitDecl) {
	a := spec.(A)
	switch a[0].(string) {
	case "object":
		if o, ok := a[1].(O); ok {
			var ks []string
			for k := range o {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				g.collect(o[k], d)
			}
		}
	case "tuple":
		for _, x := range a[1].(A) {
			g.collect(x, d)
		}
	case "default":
		g.collect(a[1], d)
		g.collect(a[2], d)
	case "xform":
		g.collect(a[1], d)
	case "attr":
		n := a[1].(string)
		if _, ok := d.attrs[n]; !ok {
			d.order = append(d.order, n)
		}
		d.attrs[n] = a[2]
	case "block", "blist", "btuple", "bset", "bmap", "bobj", "battrs":
		d.blocks = append(d.blocks, a)
	}
}

func specLabels(spec J) int {
	a := spec.(A)
	max := 0
	up := func(n int) {
		if n > max {
			max = n
		}
	}
	switch a[0].(string) {
	case "object":
		if o, ok := a[1].(O); ok {
			for _, x := range o {
				up(specLabels(x))
			}
		}
	case "tuple":
		for _, x := range a[1].(A) {
			up(specLabels(x))
		}
	case "default":
		up(specLabels(a[1]))
		up(specLabels(a[2]))
	case "xform":
		up(specLabels(a[1]))
	case "label":
		up(int(jint(a[1])) + 1)
	}
	return max
}

func (g *decGen) nativeItems(spec J) A {
	rng := g.rng
	d := &fitDecl{attrs: map[string]J{}}
	g.collect(spec, d)
	items := A{}
	for _, n := range d.order {
		if rng.Intn(5) > 0 {
			items = append(items, A{"a", n, g.fitVal(d.attrs[n])})
		}
	}
	for _, b := range d.blocks {
		t := b[1].(string)
		for k := []int{0, 1, 1, 2, 2, 3}[rng.Intn(6)]; k > 0; k-- {
			if g.dyn && (b[0] == "block" || b[0] == "battrs") && rng.Intn(6) > 0 {
				k = 1
			}
			var nested J
			nl := 0
			switch b[0].(string) {
			case "bmap", "bobj":
				nested = b[3]
				nl = int(jint(b[2])) + specLabels(nested)
			case "battrs":
			default:
				nested = b[2]
				nl = specLabels(nested)
			}
			if rng.Intn(14) == 0 && (!g.dyn || rng.Intn(6) == 0) {
				nl += rng.Intn(3) - 1
			}
			labels := A{}
			for j := 0; j < nl; j++ {
				labels = append(labels, pick(rng, "k", "m", "j"))
			}
			sub := A{}
			var wrap func(A) A
			if g.dyn && rng.Intn(2) == 0 {
				wrap = g.dynamic(t, nl, b[0] == "block" || b[0] == "battrs")
			}
			if nested != nil {
				sub = g.nativeItems(nested)
			} else {
				for j := rng.Intn(3); j > 0; j-- {
					sub = append(sub, A{"a", []string{"", "f", "g"}[j], g.fitVal(b[2])})
				}
				if rng.Intn(10) == 0 {
					sub = append(sub, A{"b", "in", A{}, A{}})
				}
			}
			if wrap != nil {
				items = append(items, wrap(sub))
				continue
			}
			items = append(items, A{"b", t, labels, sub})
		}
	}
	if rng.Intn(8) == 0 && (!g.dyn || rng.Intn(6) == 0) {
		items = append(items, A{"a", "extra", g.val()})
	}
	if rng.Intn(12) == 0 && (!g.dyn || rng.Intn(6) == 0) {
		items = append(items, A{"b", "other", A{}, A{}})
	}
	rng.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	return items
}

// jsonOf writes native items as JSON, where each block is one property or the
// blocks of a type are gathered.
func (g *decGen) jsonOf(items A) A {
	ps := A{}
	for _, it := range items {
		a := it.(A)
		if a[0] == "a" && a[1] == "iterator" {
			ps = append(ps, A{a[1], A{"s", valueText(a[2])}})
			continue
		}
		if a[0] == "a" {
			ps = append(ps, A{a[1], jsonValOf(a[2])})
			continue
		}
		var v J = g.jsonOf(a[3].(A))
		ls := a[2].(A)
		for i := len(ls) - 1; i >= 0; i-- {
			if g.rng.Intn(4) == 0 {
				v = A{"a", A{v}}
			}
			v = A{"o", A{A{ls[i], v}}}
		}
		if g.rng.Intn(4) == 0 {
			v = A{"a", A{v}}
		}
		ps = append(ps, A{a[1], v})
	}
	return A{"o", ps}
}

func jsonValOf(v J) J {
	a := v.(A)
	switch a[0].(string) {
	case "str":
		return A{"s", a[1]}
	case "num":
		return A{"n", a[1]}
	case "bool":
		return A{"t", a[1]}
	case "ref", "path":
		return A{"s", "${" + valueText(v) + "}"}
	case "tuple":
		es := A{}
		for _, x := range a[1].(A) {
			es = append(es, jsonValOf(x))
		}
		return A{"a", es}
	case "obj":
		o := a[1].(O)
		var ks []string
		for k := range o {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		ps := A{}
		for _, k := range ks {
			ps = append(ps, A{k, jsonValOf(o[k])})
		}
		return A{"o", ps}
	}
	return A{"z"}
}

func (g *decGen) body(spec J) J {
	items := g.nativeItems(spec)
	switch g.rng.Intn(6) {
	case 0, 1:
		return A{"json", g.jsonOf(items)}
	case 2:
		k := g.rng.Intn(len(items) + 1)
		return A{"merge", A{A{"native", items[:k]}, A{"json", g.jsonOf(items[k:])}}}
	}
	return A{"native", items}
}

func strSet(ss []string) A {
	a := A{}
	for _, s := range ss {
		a = append(a, s)
	}
	return sortedSet(a)
}
