package main

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
)

// Tagged structures (spec/Struct.tla): structure types are built with reflection
// from their encoding, bodies decoded into them and their values encoded again.

var (
	rtExpr  = reflect.TypeOf((*hcl.Expression)(nil)).Elem()
	rtBody  = reflect.TypeOf((*hcl.Body)(nil)).Elem()
	rtAttr  = reflect.TypeOf((*hcl.Attribute)(nil))
	rtAttrs = reflect.TypeOf(hcl.Attributes(nil))
	rtBlock = reflect.TypeOf((*hcl.Block)(nil))
	rtCty   = reflect.TypeOf(cty.Value{})
)

func stArgType(j J) reflect.Type {
	t := j.(A)
	switch t[0].(string) {
	case "string":
		return reflect.TypeOf("")
	case "int":
		return reflect.TypeOf(0)
	case "int8":
		return reflect.TypeOf(int8(0))
	case "uint8":
		return reflect.TypeOf(uint8(0))
	case "float":
		return reflect.TypeOf(float64(0))
	case "bool":
		return reflect.TypeOf(false)
	case "ptr":
		return reflect.PtrTo(stArgType(t[1]))
	case "slice":
		return reflect.SliceOf(stArgType(t[1]))
	case "map":
		return reflect.MapOf(reflect.TypeOf(""), stArgType(t[1]))
	case "cty":
		return rtCty
	case "expr":
		return rtExpr
	case "attr":
		return rtAttr
	case "obj":
		var fs []reflect.StructField
		for i, x := range t[1].(A) {
			nt := x.(A)
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("O%d", i), Type: stArgType(nt[1]),
				Tag: reflect.StructTag(fmt.Sprintf("cty:%q", nt[0]))})
		}
		return reflect.StructOf(fs)
	}
	panic("unknown argument type")
}

func stShapeType(j J) reflect.Type {
	sh := j.(A)
	switch sh[0].(string) {
	case "struct":
		return stRecType(sh[1].(A))
	case "gomap":
		return reflect.MapOf(reflect.TypeOf(""), stArgType(sh[1]))
	case "body":
		return rtBody
	case "attrs":
		return rtAttrs
	case "block":
		return rtBlock
	}
	panic("unknown shape")
}

func stRecType(fields A) reflect.Type {
	var fs []reflect.StructField
	for i, x := range fields {
		f := x.(A)
		sf := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
		tag := ""
		switch f[0].(string) {
		case "attr":
			sf.Type = stArgType(f[3])
			switch {
			case f[2].(bool):
				tag = f[1].(string) + ",optional"
			case i%2 == 0:
				tag = f[1].(string)
			default:
				tag = f[1].(string) + ",attr"
			}
		case "label":
			sf.Type, tag = reflect.TypeOf(""), f[1].(string)+",label"
		case "plain":
			sf.Type = reflect.TypeOf("")
		case "remain":
			sf.Type, tag = stShapeType(f[1]), ",remain"
		case "block":
			sf.Type, tag = stShapeType(f[3]), f[1].(string)+",block"
			switch f[2].(string) {
			case "ptr":
				sf.Type = reflect.PtrTo(sf.Type)
			case "slice":
				sf.Type = reflect.SliceOf(sf.Type)
			case "sliceptr":
				sf.Type = reflect.SliceOf(reflect.PtrTo(sf.Type))
			}
		}
		if tag != "" {
			sf.Tag = reflect.StructTag(fmt.Sprintf("hcl:%q", tag))
		}
		fs = append(fs, sf)
	}
	return reflect.StructOf(fs)
}

func stStrs(ss []string) A {
	ret := A{}
	for _, s := range ss {
		ret = append(ret, s)
	}
	return ret
}

func stExprObs(e hcl.Expression) J {
	v, diags := e.Value(decCtx())
	if diags.HasErrors() {
		return A{"err"}
	}
	return encVal(v)
}

func stAttrsObs(attrs hcl.Attributes) A {
	var ks []string
	for k := range attrs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	ret := A{}
	for _, k := range ks {
		if attrs[k].Name != k {
			panic("an attribute is stored under another name: " + k)
		}
		ret = append(ret, A{k, stExprObs(attrs[k].Expr)})
	}
	return ret
}

var stObsSchema = func() *hcl.BodySchema {
	s := &hcl.BodySchema{}
	for _, n := range bodyAttrNames {
		s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: n})
	}
	for _, t := range stBlockTypes {
		s.Blocks = append(s.Blocks, hcl.BlockHeaderSchema{Type: t})
	}
	return s
}()

var stBlockTypes = []string{"blk", "sub", "svc"}

func stBodyObs(b hcl.Body) J {
	content, diags := b.Content(stObsSchema)
	blocks := A{}
	for _, bl := range content.Blocks {
		blocks = append(blocks, A{bl.Type, stStrs(bl.Labels)})
	}
	return A{"body", stAttrsObs(content.Attributes), blocks, diags.HasErrors()}
}

// stArgObs encodes the value of an argument field.
func stArgObs(v reflect.Value, j J) J {
	t := j.(A)
	switch t[0].(string) {
	case "string":
		return A{"str", v.String()}
	case "int", "int8":
		return A{"num", v.Int(), 1}
	case "uint8":
		return A{"num", int64(v.Uint()), 1}
	case "float":
		return encNum(big.NewFloat(v.Float()))
	case "bool":
		return A{"bool", v.Bool()}
	case "cty":
		if x := v.Interface().(cty.Value); x != cty.NilVal {
			return A{"cty", encVal(x)}
		}
		return A{"cty", A{"none"}}
	case "obj":
		es := A{}
		for i, x := range t[1].(A) {
			es = append(es, stArgObs(v.Field(i), x.(A)[1]))
		}
		return A{"obj", es}
	}
	if v.IsNil() {
		return A{"nil"}
	}
	switch t[0].(string) {
	case "ptr":
		return A{"ptr", stArgObs(v.Elem(), t[1])}
	case "slice":
		es := A{}
		for i := 0; i < v.Len(); i++ {
			es = append(es, stArgObs(v.Index(i), t[1]))
		}
		return A{"slice", es}
	case "map":
		return stMapObs(v, t[1])
	case "expr":
		return A{"expr", stExprObs(v.Interface().(hcl.Expression))}
	case "attr":
		at := v.Interface().(*hcl.Attribute)
		return A{"attr", at.Name, stExprObs(at.Expr)}
	}
	panic("unknown argument type")
}

func stMapObs(v reflect.Value, t J) J {
	var ks []string
	for _, k := range v.MapKeys() {
		ks = append(ks, k.String())
	}
	sort.Strings(ks)
	es := A{}
	for _, k := range ks {
		es = append(es, A{k, stArgObs(v.MapIndex(reflect.ValueOf(k)), t)})
	}
	return A{"map", es}
}

func stShapeObs(v reflect.Value, j J) J {
	sh := j.(A)
	if sh[0] == "struct" {
		return stRecObs(v, sh[1].(A))
	}
	if v.IsNil() {
		return A{"nil"}
	}
	switch sh[0].(string) {
	case "gomap":
		return stMapObs(v, sh[1])
	case "body":
		return stBodyObs(v.Interface().(hcl.Body))
	case "attrs":
		return A{"attrs", stAttrsObs(v.Interface().(hcl.Attributes))}
	case "block":
		b := v.Interface().(*hcl.Block)
		return A{"block", b.Type, stStrs(b.Labels), stBodyObs(b.Body)}
	}
	panic("unknown shape")
}

func stRecObs(v reflect.Value, fields A) J {
	es := A{}
	for i, x := range fields {
		f, fv := x.(A), v.Field(i)
		switch f[0].(string) {
		case "attr":
			es = append(es, stArgObs(fv, f[3]))
		case "label", "plain":
			es = append(es, A{"str", fv.String()})
		case "remain":
			es = append(es, stShapeObs(fv, f[1]))
		case "block":
			one := func(x reflect.Value) J {
				if f[2] == "ptr" || f[2] == "sliceptr" {
					if x.IsNil() {
						return A{"nil"}
					}
					return A{"ptr", stShapeObs(x.Elem(), f[3])}
				}
				return stShapeObs(x, f[3])
			}
			if f[2] == "one" || f[2] == "ptr" {
				es = append(es, one(fv))
			} else if fv.IsNil() {
				es = append(es, A{"nil"})
			} else {
				bs := A{}
				for k := 0; k < fv.Len(); k++ {
					bs = append(bs, one(fv.Index(k)))
				}
				es = append(es, A{"slice", bs})
			}
		}
	}
	return A{"rec", es}
}

// stSchemaObs: the schema in the order of names.
func stSchemaObs(s *hcl.BodySchema) O {
	attrs, blocks := A{}, A{}
	for _, a := range s.Attributes {
		attrs = append(attrs, A{a.Name, a.Required})
	}
	for _, b := range s.Blocks {
		blocks = append(blocks, A{b.Type, stStrs(b.LabelNames)})
	}
	less := func(x A) func(i, j int) bool {
		return func(i, j int) bool { return x[i].(A)[0].(string) < x[j].(A)[0].(string) }
	}
	sort.SliceStable(attrs, less(attrs))
	sort.SliceStable(blocks, less(blocks))
	return O{"attrs": attrs, "blocks": blocks}
}

// stDecode decodes a body into a value of the shape and observes it.
func stDecode(b A, sh J, prior A) (O, string) {
	got := O{}
	p := guard(bodySource(b, nil), func() {
		body, perr := parseBody(b, nil)
		if perr != "" {
			panic("body does not parse: " + perr)
		}
		ty := stShapeType(sh)
		v := reflect.New(ty)
		diags := gohcl.DecodeBody(body, decCtx(), v.Interface())
		got["e"], got["n"] = diags.HasErrors(), countErrs(diags)
		got["v"] = A{"nil"}
		if !diags.HasErrors() {
			got["v"] = stShapeObs(v.Elem(), sh)
			if d2 := gohcl.DecodeBody(body, decCtx(), v.Interface()); d2.HasErrors() || !same(norm(stShapeObs(v.Elem(), sh)), norm(got["v"])) {
				got["v"] = A{"changing", got["v"], stShapeObs(v.Elem(), sh)}
			}
		}
		got["prior"], got["again"] = A{}, A{}
		if prior != nil {
			w := reflect.New(ty)
			stBuildShape(w.Elem(), sh, prior)
			got["prior"] = stShapeObs(w.Elem(), sh)
			gohcl.DecodeBody(body, decCtx(), w.Interface())
			if !diags.HasErrors() {
				got["again"] = stShapeObs(w.Elem(), sh)
			}
		}
		got["schema"], got["partial"] = O{"attrs": A{}, "blocks": A{}}, false
		if ty.Kind() == reflect.Struct {
			s, partial := gohcl.ImpliedBodySchema(v.Interface())
			got["schema"], got["partial"] = stSchemaObs(s), partial
			s2, partial2 := gohcl.ImpliedBodySchema(v.Elem().Interface())
			if !same(norm(stSchemaObs(s2)), norm(stSchemaObs(s))) || partial != partial2 {
				panic("a value and a pointer to it have different schemas")
			}
		}
	})
	return got, p
}

// ---- encoding

func stBuildArg(v reflect.Value, j, x J) {
	t, a := j.(A), x.(A)
	switch t[0].(string) {
	case "string":
		v.SetString(a[1].(string))
	case "int", "int8":
		v.SetInt(jint(a[1]))
	case "uint8":
		v.SetUint(uint64(jint(a[1])))
	case "float":
		v.SetFloat(float64(jint(a[1])) / float64(jint(a[2])))
	case "bool":
		v.SetBool(a[1].(bool))
	case "cty":
		v.Set(reflect.ValueOf(decVal(a[1])))
	case "obj":
		for i, f := range t[1].(A) {
			stBuildArg(v.Field(i), f.(A)[1], a[1].(A)[i])
		}
	case "expr", "attr":
		if a[0] == "nil" {
			return
		}
		e := hcl.StaticExpr(cty.StringVal("raw"), hcl.Range{})
		if t[0] == "expr" {
			v.Set(reflect.ValueOf(e))
		} else {
			v.Set(reflect.ValueOf(&hcl.Attribute{Name: "raw", Expr: e}))
		}
	default:
		if a[0] == "nil" {
			return
		}
		switch t[0].(string) {
		case "ptr":
			v.Set(reflect.New(v.Type().Elem()))
			stBuildArg(v.Elem(), t[1], a[1])
		case "slice":
			es := a[1].(A)
			v.Set(reflect.MakeSlice(v.Type(), len(es), len(es)))
			for i, e := range es {
				stBuildArg(v.Index(i), t[1], e)
			}
		case "map":
			v.Set(reflect.MakeMap(v.Type()))
			for _, e := range a[1].(A) {
				ev := reflect.New(v.Type().Elem()).Elem()
				stBuildArg(ev, t[1], e.(A)[1])
				v.SetMapIndex(reflect.ValueOf(e.(A)[0]), ev)
			}
		}
	}
}

var stRawBody = func() hcl.Body {
	f, _ := hclsyntax.ParseConfig([]byte("raw = 1\n"), "raw.hcl", hcl.Pos{Line: 1, Column: 1})
	return f.Body
}()

func stBuildShape(v reflect.Value, j, x J) {
	sh, a := j.(A), x.(A)
	if sh[0] == "struct" {
		stBuildRec(v, sh[1].(A), a)
		return
	}
	if a[0] == "nil" {
		return
	}
	switch sh[0].(string) {
	case "body":
		v.Set(reflect.ValueOf(&stRawBody).Elem())
	case "attrs":
		attrs, _ := stRawBody.JustAttributes()
		v.Set(reflect.ValueOf(attrs))
	case "block":
		v.Set(reflect.ValueOf(&hcl.Block{Type: "raw", Body: stRawBody}))
	}
}

func stBuildRec(v reflect.Value, fields A, x A) {
	for i, fj := range fields {
		f, fv, a := fj.(A), v.Field(i), x[1].(A)[i].(A)
		switch f[0].(string) {
		case "attr":
			stBuildArg(fv, f[3], a)
		case "label", "plain":
			fv.SetString(a[1].(string))
		case "remain":
			stBuildShape(fv, f[1], a)
		case "block":
			one := func(fv reflect.Value, a A) {
				if f[2] == "ptr" || f[2] == "sliceptr" {
					if a[0] == "nil" {
						return
					}
					fv.Set(reflect.New(fv.Type().Elem()))
					fv, a = fv.Elem(), a[1].(A)
				}
				stBuildShape(fv, f[3], a)
			}
			if f[2] == "one" || f[2] == "ptr" {
				one(fv, a)
			} else if a[0] != "nil" {
				es := a[1].(A)
				fv.Set(reflect.MakeSlice(fv.Type(), len(es), len(es)))
				for k, e := range es {
					one(fv.Index(k), e.(A))
				}
			}
		}
	}
}

// stItems reads native items back from source, in source order.
func stItems(b *hclsyntax.Body) A {
	type item struct {
		at int
		j  J
	}
	var items []item
	for n, a := range b.Attributes {
		v, diags := a.Expr.Value(nil)
		j := encVal(v)
		if diags.HasErrors() {
			j = A{"err"}
		}
		items = append(items, item{a.SrcRange.Start.Byte, A{"a", n, j}})
	}
	for _, bl := range b.Blocks {
		items = append(items, item{bl.TypeRange.Start.Byte, A{"b", bl.Type, stStrs(bl.Labels), stItems(bl.Body)}})
	}
	sort.Slice(items, func(i, j int) bool { return items[i].at < items[j].at })
	ret := A{}
	for _, it := range items {
		ret = append(ret, it.j)
	}
	return ret
}

// stEncode encodes the value, as a body and as a block, and reads it back.
func stEncode(sh J, x A) (O, string) {
	got := O{}
	src := ""
	p := guard("", func() {
		ty := stShapeType(sh)
		v := reflect.New(ty)
		stBuildShape(v.Elem(), sh, x)
		f := hclwrite.NewEmptyFile()
		f.Body().SetAttributeValue("old", cty.True)
		f.Body().AppendNewBlock("old", []string{"l"})
		gohcl.EncodeIntoBody(v.Interface(), f.Body())
		src = string(f.Bytes())
		file, diags := hclsyntax.ParseConfig([]byte(src), "out.hcl", hcl.Pos{Line: 1, Column: 1})
		if diags.HasErrors() {
			panic("the written body does not parse: " + diags.Error())
		}
		got["items"] = stItems(file.Body.(*hclsyntax.Body))
		f2 := hclwrite.NewEmptyFile()
		gohcl.EncodeIntoBody(v.Elem().Interface(), f2.Body())
		if string(f2.Bytes()) != src {
			panic("a value and a pointer to it are written differently")
		}
		f3 := hclwrite.NewEmptyFile()
		f3.Body().AppendBlock(gohcl.EncodeAsBlock(v.Interface(), "top"))
		file, diags = hclsyntax.ParseConfig(f3.Bytes(), "out.hcl", hcl.Pos{Line: 1, Column: 1})
		if diags.HasErrors() {
			panic("the written block does not parse: " + diags.Error())
		}
		got["block"] = stItems(file.Body.(*hclsyntax.Body))
		// read back through a structure holding the block
		outer := stRecType(A{A{"block", "top", "one", sh}})
		w := reflect.New(outer)
		diags = gohcl.DecodeBody(file.Body, nil, w.Interface())
		got["e"], got["back"] = diags.HasErrors(), A{"nil"}
		if !diags.HasErrors() {
			got["back"] = stShapeObs(w.Elem().Field(0), sh)
		}
	})
	if p != "" {
		p += "\n" + src
	}
	return got, p
}

// ---- generation

type stGen struct {
	decGen
	same bool
}

func (g *stGen) argType(depth int) A {
	if depth > 0 {
		switch g.rng.Intn(6) {
		case 0:
			return A{"slice", g.noCty(depth - 1)}
		case 1:
			return A{"map", g.noCty(depth - 1)}
		case 2:
			fs := A{}
			for i, n := 0, 1+g.rng.Intn(2); i < n; i++ {
				fs = append(fs, A{[]string{"k", "m"}[i], g.argType(depth - 1)})
			}
			return A{"obj", fs}
		case 3:
			return A{"ptr", g.prim()}
		}
	}
	return g.prim()
}

// noCty: collections of dynamically typed elements are the value library's.
func (g *stGen) noCty(depth int) A {
	for {
		if t := g.argType(depth); !strings.Contains(fmt.Sprint(t), "cty") {
			return t
		}
	}
}

func (g *stGen) prim() A {
	return A{pick(g.rng, "string", "string", "string", "int", "int8", "uint8", "float", "bool", "bool", "cty")}
}

func (g *stGen) shape(depth int, labels bool) A {
	fields := A{}
	used := map[string]bool{}
	for i := g.rng.Intn(3); labels && i > 0; i-- {
		fields = append(fields, A{"label", pick(g.rng, "name", "kind")})
	}
	for i := g.rng.Intn(4); i > 0; i-- {
		n := bodyAttrNames[g.rng.Intn(4)]
		if used[n] {
			continue
		}
		used[n] = true
		t := g.argType(2)
		switch g.rng.Intn(8) {
		case 0:
			t = A{"expr"}
		case 1:
			t = A{"attr"}
		case 2:
			if t[0] != "ptr" && t[0] != "slice" && t[0] != "map" {
				t = A{"ptr", t}
			}
		}
		fields = append(fields, A{"attr", n, g.rng.Intn(3) == 0, t})
	}
	for i := g.rng.Intn(3); depth > 0 && i > 0; i-- {
		n := stBlockTypes[g.rng.Intn(3)]
		if used[n] {
			continue
		}
		used[n] = true
		if g.same && g.rng.Intn(4) == 0 {
			// an argument and a block may share a name
			fields = append(fields, A{"attr", n, true, g.argType(1)})
		}
		mode := pick(g.rng, "one", "ptr", "slice", "sliceptr")
		sh := g.shape(depth-1, true)
		if g.rng.Intn(5) == 0 {
			sh = A{pick(g.rng, "body", "attrs", "block")}
			mode = pick(g.rng, "one", "slice")
		}
		fields = append(fields, A{"block", n, mode, sh})
	}
	if g.rng.Intn(3) == 0 {
		var sh J = A{pick(g.rng, "body", "attrs")}
		switch g.rng.Intn(3) {
		case 0:
			sh = A{"gomap", []A{g.argType(1), {"expr"}, {"attr"}}[g.rng.Intn(3)]}
		case 1:
			if depth > 0 {
				sh = g.shape(depth-1, false)
			}
		}
		fields = append(fields, A{"remain", sh})
	}
	if g.rng.Intn(8) == 0 {
		fields = append(fields, A{"plain"})
	}
	g.rng.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	return A{"struct", fields}
}

// argVal gives a value that mostly suits the type.
func (g *stGen) argVal(t A) J {
	if g.rng.Intn(25) == 0 {
		return g.val()
	}
	if g.rng.Intn(20) == 0 {
		return A{"null", A{"dyn"}}
	}
	switch t[0].(string) {
	case "string":
		return []J{A{"str", "x"}, A{"str", ""}, A{"ref", "s"}, A{"num", 3, 1}, A{"bool", true}}[g.rng.Intn(5)]
	case "int", "int8", "uint8", "float":
		return []J{A{"num", g.rng.Intn(4), 1}, A{"str", "5"}, A{"ref", "n"}, A{"num", []int{-129, -128, -1, 127, 128, 255, 256}[g.rng.Intn(7)], 1}, A{"num", 5, 2}}[g.rng.Intn(5)]
	case "bool":
		return []J{A{"bool", true}, A{"bool", false}, A{"str", "true"}}[g.rng.Intn(3)]
	case "ptr":
		return g.argVal(t[1].(A))
	case "slice":
		es := A{}
		for i := g.rng.Intn(3); i > 0; i-- {
			es = append(es, g.argVal(t[1].(A)))
		}
		return A{"tuple", es}
	case "map":
		o := O{}
		for i := g.rng.Intn(3); i > 0; i-- {
			o[pick(g.rng, "k", "m", "q")] = g.argVal(t[1].(A))
		}
		return A{"obj", o}
	case "obj":
		o := O{}
		for _, f := range t[1].(A) {
			if g.rng.Intn(12) > 0 {
				o[f.(A)[0].(string)] = g.argVal(f.(A)[1].(A))
			}
		}
		return A{"obj", o}
	}
	return g.val()
}

func (g *stGen) items(sh A) A {
	items := A{}
	if sh[0] != "struct" {
		for i, n := 0, g.rng.Intn(3); i < n; i++ {
			t := A{"cty"}
			if sh[0] == "gomap" {
				t = sh[1].(A)
			}
			items = append(items, A{"a", bodyAttrNames[i], g.argVal(t)})
		}
		if sh[0] == "body" || g.rng.Intn(10) == 0 {
			items = append(items, A{"b", stBlockTypes[g.rng.Intn(3)], A{}, A{}})
		}
		return items
	}
	used := map[string]bool{}
	add := func(xs A) {
		for _, it := range xs {
			a := it.(A)
			if a[0] == "a" && used[a[1].(string)] {
				continue
			}
			if a[0] == "a" {
				used[a[1].(string)] = true
			}
			items = append(items, it)
		}
	}
	for _, x := range sh[1].(A) {
		f := x.(A)
		switch f[0].(string) {
		case "attr":
			opt := f[2].(bool) || f[3].(A)[0] == "ptr" || f[3].(A)[0] == "expr" || f[3].(A)[0] == "attr"
			if (opt && g.rng.Intn(3) > 0) || (!opt && g.rng.Intn(25) > 0) {
				add(A{A{"a", f[1], g.argVal(f[3].(A))}})
			}
		case "remain":
			add(g.items(f[1].(A)))
		case "block":
			n := 1
			switch f[2].(string) {
			case "ptr":
				n = g.rng.Intn(2)
			case "slice", "sliceptr":
				n = g.rng.Intn(4)
			}
			if g.rng.Intn(25) == 0 {
				n = g.rng.Intn(3)
			}
			for ; n > 0; n-- {
				labels := A{}
				if f[3].(A)[0] == "struct" {
					for _, y := range f[3].(A)[1].(A) {
						if y.(A)[0] == "label" {
							labels = append(labels, pick(g.rng, "x", "y", "a b"))
						}
					}
				}
				if g.rng.Intn(40) == 0 {
					labels = append(labels, "extra")
				}
				add(A{A{"b", f[1], labels, g.items(f[3].(A))}})
			}
		}
	}
	if g.rng.Intn(20) == 0 {
		add(A{A{"a", bodyAttrNames[g.rng.Intn(4)], g.val()}})
	}
	if g.rng.Intn(30) == 0 {
		add(A{A{"b", stBlockTypes[g.rng.Intn(3)], A{}, A{}}})
	}
	g.rng.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	return items
}

func (g *stGen) body(sh A) A {
	items := g.items(sh)
	switch g.rng.Intn(6) {
	case 0, 1:
		if !stFraction(items) {
			return A{"json", g.jsonOf(items)}
		}
	case 2:
		k := g.rng.Intn(len(items) + 1)
		if !stFraction(items) {
			return A{"merge", A{A{"native", items[:k]}, A{"json", g.jsonOf(items[k:])}}}
		}
	}
	return A{"native", items}
}

// stFraction: the JSON encoding of bodies has whole numbers only.
func stFraction(j J) bool {
	switch x := j.(type) {
	case A:
		if len(x) == 3 && x[0] == "num" && x[2] != 1 {
			return true
		}
		for _, e := range x {
			if stFraction(e) {
				return true
			}
		}
	case O:
		for _, e := range x {
			if stFraction(e) {
				return true
			}
		}
	}
	return false
}

func (g *stGen) goArg(t A) A {
	switch t[0].(string) {
	case "string":
		return A{"str", pick(g.rng, "x", "", "a b", "${x}", "%{ if }", "q\"u", "l\nm", "back\\slash", "$${")}
	case "int":
		return A{"num", []int{0, 1, -7, 100000}[g.rng.Intn(4)], 1}
	case "int8":
		return A{"num", []int{0, -128, 127}[g.rng.Intn(3)], 1}
	case "uint8":
		return A{"num", []int{0, 255}[g.rng.Intn(2)], 1}
	case "float":
		return []A{{"num", 5, 2}, {"num", -1, 4}, {"num", 3, 1}}[g.rng.Intn(3)]
	case "bool":
		return A{"bool", g.rng.Intn(2) == 0}
	case "cty":
		return A{"cty", []J{A{"str", "x"}, A{"num", 4, 1}, A{"tuple", A{A{"str", "x"}, A{"bool", true}}}, A{"obj", O{"k": A{"num", 1, 1}}}, A{"null", A{"dyn"}},
			A{"list", A{"string"}, A{A{"str", "z"}}}, A{"tuple", A{}}, A{"null", A{"string"}}}[g.rng.Intn(8)]}
	case "obj":
		es := A{}
		for _, f := range t[1].(A) {
			es = append(es, g.goArg(f.(A)[1].(A)))
		}
		return A{"obj", es}
	}
	if g.rng.Intn(4) == 0 {
		return A{"nil"}
	}
	switch t[0].(string) {
	case "ptr":
		return A{"ptr", g.goArg(t[1].(A))}
	case "slice":
		es := A{}
		for i := g.rng.Intn(3); i > 0; i-- {
			es = append(es, g.goArg(t[1].(A)))
		}
		return A{"slice", es}
	case "map":
		es := A{}
		for _, k := range []string{"a b", "k", "m"} {
			if g.rng.Intn(2) == 0 {
				es = append(es, A{k, g.goArg(t[1].(A))})
			}
		}
		return A{"map", es}
	}
	return A{"raw"}
}

func (g *stGen) goVal(sh A) A {
	if sh[0] != "struct" {
		return []A{{"nil"}, {"raw"}}[g.rng.Intn(2)]
	}
	es := A{}
	for _, x := range sh[1].(A) {
		f := x.(A)
		switch f[0].(string) {
		case "attr":
			es = append(es, g.goArg(f[3].(A)))
		case "label", "plain":
			es = append(es, A{"str", pick(g.rng, "x", "y", "a b", "", "q\"u", "${x}")})
		case "remain":
			es = append(es, g.goVal(f[1].(A)))
		case "block":
			one := func() A {
				if f[2] == "ptr" || f[2] == "sliceptr" {
					if g.rng.Intn(6) == 0 {
						return A{"nil"}
					}
					return A{"ptr", g.goVal(f[3].(A))}
				}
				return g.goVal(f[3].(A))
			}
			if f[2] == "one" || f[2] == "ptr" {
				es = append(es, one())
			} else if g.rng.Intn(6) == 0 {
				es = append(es, A{"nil"})
			} else {
				bs := A{}
				for i := g.rng.Intn(3); i > 0; i-- {
					bs = append(bs, one())
				}
				es = append(es, A{"slice", bs})
			}
		}
	}
	return A{"rec", es}
}

func stText(j J) string { return strings.ReplaceAll(fmt.Sprint(j), "map[", "{") }

func init() {
	recorders["struct"] = func(r *runner, n int) {
		for r.cases < n {
			g := &stGen{decGen: decGen{bodyGen: bodyGen{rng: r.rng}}}
			sh := g.shape(2, false)
			if r.rng.Intn(15) == 0 {
				sh = A{"gomap", []A{g.argType(2), {"expr"}, {"attr"}}[r.rng.Intn(3)]}
			}
			b := norm(g.body(sh)).(A)
			sh = norm(sh).(A)
			key := stText(sh) + " <- " + bodySource(b, nil)
			var prior A
			if sh[0] == "struct" {
				prior = norm(g.goVal(sh)).(A)
			}
			got, p := stDecode(b, sh, prior)
			if p != "" {
				if panicInDependency() {
					r.Count("panics in the value library")
					continue
				}
				r.Mismatch(key, O{"shape": sh, "body": b}, "no panic", p)
				continue
			}
			r.Count("body " + b[0].(string))
			r.Count(fmt.Sprintf("errors %v", got["e"]))
			rec := O{"op": "decode", "shape": sh, "body": b, "got": got, "src": key}
			r.Sample(rec)
			r.Record(rec, 2)
		}
	}
	recorders["structenc"] = func(r *runner, n int) {
		for r.cases < n {
			g := &stGen{decGen{bodyGen: bodyGen{rng: r.rng}}, true}
			sh := norm(g.shape(2, true)).(A)
			x := norm(g.goVal(sh)).(A)
			key := stText(sh) + " -> " + stText(x)
			got, p := stEncode(sh, x)
			if p != "" {
				if panicInDependency() {
					r.Count("panics in the value library")
					continue
				}
				r.Mismatch(key, O{"shape": sh, "value": x}, "no panic", p)
				continue
			}
			rec := O{"op": "encode", "shape": sh, "val": x, "got": got, "src": key}
			r.Sample(rec)
			r.Record(rec, 2)
		}
	}
	replayers["struct"] = func(r *runner, c O) {
		b, sh := c["body"].(A), c["shape"]
		key := stText(sh) + " <- " + bodySource(b, nil)
		got, p := stDecode(b, sh, nil)
		if p != "" {
			r.Mismatch(key, c, "no panic", p)
			return
		}
		g := norm(got).(O)
		if !same(c["schema"], g["schema"]) || c["partial"] != g["partial"] {
			r.Mismatch(key, c, A{c["schema"], c["partial"]}, A{g["schema"], g["partial"]})
			return
		}
		if c["any"].(bool) {
			return
		}
		if c["e"] != g["e"] || jint(g["n"]) < jint(c["n"]) {
			r.Mismatch(key, c, A{c["e"], c["n"]}, A{g["e"], g["n"]})
			return
		}
		if !c["e"].(bool) && !same(sortSets(c["v"]), sortSets(g["v"])) {
			r.Mismatch(key, c, c["v"], g["v"])
		}
	}
	replayers["structenc"] = func(r *runner, c O) {
		x, sh := c["val"].(A), c["shape"]
		key := stText(sh) + " -> " + stText(x)
		got, p := stEncode(sh, x)
		if p != "" {
			r.Mismatch(key, c, "no panic", p)
			return
		}
		g := norm(got).(O)
		if !same(c["items"], g["items"]) || !same(c["block"], g["block"]) {
			r.Mismatch(key, c, A{c["items"], c["block"]}, A{g["items"], g["block"]})
			return
		}
		if c["full"].(bool) && (g["e"].(bool) || !same(x, g["back"])) {
			r.Mismatch(key, c, x, A{g["e"], g["back"]})
		}
	}
}
