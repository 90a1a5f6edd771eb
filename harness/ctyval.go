package main

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/zclconf/go-cty/cty"
)

// Encoding of cty types and values shared with spec/Cty.tla.

func encType(t cty.Type) J {
	switch {
	case t == cty.NilType:
		return A{"nil"}
	case t == cty.DynamicPseudoType:
		return A{"dyn"}
	case t == cty.String:
		return A{"string"}
	case t == cty.Number:
		return A{"number"}
	case t == cty.Bool:
		return A{"bool"}
	case t.IsListType():
		return A{"list", encType(t.ElementType())}
	case t.IsSetType():
		return A{"set", encType(t.ElementType())}
	case t.IsMapType():
		return A{"map", encType(t.ElementType())}
	case t.IsTupleType():
		es := A{}
		for _, e := range t.TupleElementTypes() {
			es = append(es, encType(e))
		}
		return A{"tuple", es}
	case t.IsObjectType():
		o := O{}
		for k, e := range t.AttributeTypes() {
			o[k] = encType(e)
		}
		return A{"object", o}
	}
	return A{"capsule"}
}

func decType(j J) cty.Type {
	a := j.(A)
	switch a[0].(string) {
	case "dyn":
		return cty.DynamicPseudoType
	case "string":
		return cty.String
	case "number":
		return cty.Number
	case "bool":
		return cty.Bool
	case "list":
		return cty.List(decType(a[1]))
	case "set":
		return cty.Set(decType(a[1]))
	case "map":
		return cty.Map(decType(a[1]))
	case "tuple":
		ts := []cty.Type{}
		for _, e := range a[1].(A) {
			ts = append(ts, decType(e))
		}
		return cty.Tuple(ts)
	case "object":
		ts := map[string]cty.Type{}
		if o, ok := a[1].(O); ok {
			for k, e := range o {
				ts[k] = decType(e)
			}
		}
		return cty.Object(ts)
	}
	panic(fmt.Sprintf("bad type %v", j))
}

func encNum(f *big.Float) J {
	if f.IsInf() {
		if f.Sign() > 0 {
			return A{"num", 1, 0}
		}
		return A{"num", -1, 0}
	}
	r, _ := f.Rat(nil)
	if r.Num().IsInt64() && r.Denom().IsInt64() {
		n, d := r.Num().Int64(), r.Denom().Int64()
		if n < 1<<30 && n > -(1<<30) && d < 1<<30 {
			return A{"num", n, d}
		}
	}
	return A{"bignum", f.Text('g', 40)}
}

func encVal(v cty.Value) J {
	if v == cty.NilVal {
		return A{"nil"}
	}
	t := v.Type()
	if !v.IsKnown() {
		return A{"unk", encType(t)}
	}
	if v.IsNull() {
		return A{"null", encType(t)}
	}
	switch {
	case t == cty.String:
		return A{"str", v.AsString()}
	case t == cty.Bool:
		return A{"bool", v.True()}
	case t == cty.Number:
		return encNum(v.AsBigFloat())
	case t.IsListType(), t.IsSetType(), t.IsTupleType():
		es := A{}
		for it := v.ElementIterator(); it.Next(); {
			_, e := it.Element()
			es = append(es, encVal(e))
		}
		if t.IsTupleType() {
			return A{"tuple", es}
		}
		tag := "list"
		if t.IsSetType() {
			tag = "set"
		}
		return A{tag, encType(t.ElementType()), es}
	case t.IsMapType(), t.IsObjectType():
		o := O{}
		for it := v.ElementIterator(); it.Next(); {
			k, e := it.Element()
			o[k.AsString()] = encVal(e)
		}
		if t.IsMapType() {
			return A{"map", encType(t.ElementType()), o}
		}
		return A{"obj", o}
	}
	return A{"capsule"}
}

func jint(j J) int64 {
	switch n := j.(type) {
	case float64:
		return int64(n)
	case int:
		return int64(n)
	case int64:
		return n
	}
	panic(fmt.Sprintf("not an int: %v", j))
}

func decVal(j J) cty.Value {
	a := j.(A)
	switch a[0].(string) {
	case "str":
		return cty.StringVal(a[1].(string))
	case "bool":
		return cty.BoolVal(a[1].(bool))
	case "num":
		p, q := jint(a[1]), jint(a[2])
		if q == 0 {
			if p > 0 {
				return cty.PositiveInfinity
			}
			return cty.NegativeInfinity
		}
		f := new(big.Float).SetPrec(512).SetInt64(p)
		if q != 1 {
			f.Quo(f, new(big.Float).SetPrec(512).SetInt64(q))
		}
		return cty.NumberVal(f)
	case "null":
		return cty.NullVal(decType(a[1]))
	case "unk":
		return cty.UnknownVal(decType(a[1]))
	case "list", "set":
		et := decType(a[1])
		var vs []cty.Value
		for _, e := range a[2].(A) {
			vs = append(vs, decVal(e))
		}
		if a[0] == "list" {
			if len(vs) == 0 {
				return cty.ListValEmpty(et)
			}
			return cty.ListVal(vs)
		}
		if len(vs) == 0 {
			return cty.SetValEmpty(et)
		}
		return cty.SetVal(vs)
	case "map":
		et := decType(a[1])
		m := map[string]cty.Value{}
		if o, ok := a[2].(O); ok {
			for k, e := range o {
				m[k] = decVal(e)
			}
		}
		if len(m) == 0 {
			return cty.MapValEmpty(et)
		}
		return cty.MapVal(m)
	case "tuple":
		vs := []cty.Value{}
		for _, e := range a[1].(A) {
			vs = append(vs, decVal(e))
		}
		return cty.TupleVal(vs)
	case "obj":
		m := map[string]cty.Value{}
		if o, ok := a[1].(O); ok {
			for k, e := range o {
				m[k] = decVal(e)
			}
		}
		return cty.ObjectVal(m)
	}
	panic(fmt.Sprintf("bad value %v", j))
}

func sortedKeys(o O) []string {
	ks := make([]string, 0, len(o))
	for k := range o {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
