package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
)

// ---------------------------------------------------------------- functions

// exprFuncs are the functions described in spec/Expr.tla.
var exprFuncs = map[string]function.Function{
	"id": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "x", Type: cty.DynamicPseudoType, AllowNull: true, AllowUnknown: true, AllowDynamicType: true}},
		Type:   func(args []cty.Value) (cty.Type, error) { return args[0].Type(), nil },
		Impl:   func(args []cty.Value, t cty.Type) (cty.Value, error) { return args[0], nil },
	}),
	"dup": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "s", Type: cty.String}},
		Type:   function.StaticReturnType(cty.String),
		Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) {
			return cty.StringVal(args[0].AsString() + args[0].AsString()), nil
		},
	}),
	"sum": function.New(&function.Spec{
		VarParam: &function.Parameter{Name: "n", Type: cty.Number},
		Type:     function.StaticReturnType(cty.Number),
		Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) {
			r := cty.NumberIntVal(0)
			for _, a := range args {
				r = r.Add(a)
			}
			return r, nil
		},
	}),
	"pair": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "a", Type: cty.String}, {Name: "b", Type: cty.Number}},
		Type:   function.StaticReturnType(cty.Tuple([]cty.Type{cty.String, cty.Number})),
		Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) {
			return cty.TupleVal([]cty.Value{args[0], args[1]}), nil
		},
	}),
	"fail": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "x", Type: cty.DynamicPseudoType, AllowNull: true, AllowUnknown: true, AllowDynamicType: true}},
		Type:   function.StaticReturnType(cty.DynamicPseudoType),
		Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) {
			return cty.NilVal, fmt.Errorf("it always fails")
		},
	}),
	"chk": function.New(&function.Spec{
		Params:   []function.Parameter{{Name: "n", Type: cty.Number}},
		VarParam: &function.Parameter{Name: "rest", Type: cty.String, AllowNull: true},
		Type:     function.StaticReturnType(cty.Bool),
		Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) {
			if args[0].AsBigFloat().Sign() < 0 {
				return cty.NilVal, function.NewArgErrorf(0, "must not be negative")
			}
			for _, a := range args[1:] {
				if a.IsNull() {
					return cty.False, nil
				}
			}
			return cty.True, nil
		},
	}),
	"join": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "l", Type: cty.List(cty.String)}},
		Type:   function.StaticReturnType(cty.String),
		Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) {
			s, unk := "", false
			for it := args[0].ElementIterator(); it.Next(); {
				_, v := it.Element()
				if v.IsKnown() && v.IsNull() {
					return cty.NilVal, function.NewArgErrorf(0, "null element")
				}
				if !v.IsKnown() {
					unk = true
					continue
				}
				s += v.AsString()
			}
			if unk {
				return cty.UnknownVal(cty.String), nil
			}
			return cty.StringVal(s), nil
		},
	}),
}

// evalCtx builds a chain of contexts from frames (innermost first).
func evalCtx(frames A) *hcl.EvalContext {
	ctx := &hcl.EvalContext{Functions: exprFuncs}
	for i := len(frames) - 1; i >= 0; i-- {
		ctx = ctx.NewChild()
		vars := map[string]cty.Value{}
		if o, ok := frames[i].(O); ok {
			for k, v := range o {
				vars[k] = decVal(v)
			}
		}
		ctx.Variables = vars
	}
	return ctx
}

// observeEval evaluates an expression and encodes the outcome.
func observeEval(expr hcl.Expression, ctx *hcl.EvalContext) J {
	v, diags := expr.Value(ctx)
	if diags.HasErrors() {
		return A{"err"}
	}
	return A{"ok", encVal(v)}
}

// ---------------------------------------------------------------- rendering

// rend renders an expression of the specification as source text.
type rend struct {
	rng   *rand.Rand // nil: canonical layout
	paren bool       // may add redundant parentheses
	nl    bool       // newlines are insignificant here
}

func (r *rend) coin(n int) bool { return r.rng != nil && r.rng.Intn(n) == 0 }

func (r *rend) sp() string {
	if r.rng == nil {
		return " "
	}
	switch r.rng.Intn(8) {
	case 0:
		return "  "
	case 1:
		if r.nl {
			return "\n "
		}
	case 2:
		if r.nl {
			return " /* c */ "
		}
	}
	return " "
}

// osp is optional space.
func (r *rend) osp() string {
	if r.coin(4) {
		return r.sp()
	}
	return ""
}

var binPrec = map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 4, ">": 4, "<=": 4, ">=": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6}

func quoteLit(s string) string {
	var b strings.Builder
	rs := []rune(s)
	for i, c := range rs {
		switch c {
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\t':
			b.WriteString(`\t`)
		case '\r':
			b.WriteString(`\r`)
		case '$', '%':
			b.WriteRune(c)
			if i+1 < len(rs) && rs[i+1] == '{' {
				b.WriteRune(c)
			}
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func numText(p, q int64) string {
	neg := ""
	if p < 0 {
		neg, p = "-", -p
	}
	s := fmt.Sprintf("%s%d", neg, p/q)
	rem := p % q
	if rem != 0 {
		s += "."
		for rem != 0 {
			rem *= 10
			s += fmt.Sprint(rem / q)
			rem %= q
		}
	}
	return s
}

func (r *rend) lit(v A) (string, int) {
	switch v[0].(string) {
	case "num":
		p := jint(v[1])
		if p < 0 {
			return numText(p, jint(v[2])), 7
		}
		return numText(p, jint(v[2])), 9
	case "bool":
		return fmt.Sprint(v[1].(bool)), 9
	case "str":
		return `"` + quoteLit(v[1].(string)) + `"`, 9
	case "null":
		return "null", 9
	}
	panic(fmt.Sprintf("not a literal: %v", v))
}

// expr renders e so that it parses as an operand of at least the given level:
// 0 conditional, 1-6 binary operators, 7 unary, 8 postfix operand.
func (r *rend) expr(e A, level int) string {
	if r.paren && !itemRooted(e) && r.coin(12) {
		return r.parens(e)
	}
	save := r.nl
	s, lv := r.raw(e)
	if lv < level {
		// render again inside parentheses, where newlines are free
		r.nl = save
		return r.parens(e)
	}
	r.nl = save
	return s
}

func itemRooted(e A) bool {
	switch e[0].(string) {
	case "item":
		return true
	case "attr", "idx", "splat":
		return itemRooted(e[1].(A))
	}
	return false
}

func (r *rend) parens(e A) string {
	save := r.nl
	r.nl = true
	s, _ := r.raw(e)
	r.nl = save
	return "(" + s + ")"
}

func (r *rend) inner(e A) string { // inside brackets that ignore newlines
	save := r.nl
	r.nl = true
	s := r.expr(e, 0)
	r.nl = save
	return s
}

func (r *rend) raw(e A) (string, int) {
	switch e[0].(string) {
	case "lit":
		return r.lit(e[1].(A))
	case "var":
		return e[1].(string), 9
	case "item":
		return "", 9
	case "paren":
		return r.parens(e[1].(A)), 9
	case "attr":
		return r.expr(e[1].(A), 8) + "." + e[2].(string), 8
	case "idx":
		base := r.expr(e[1].(A), 8)
		k := e[2].(A)
		if k[0] == "lit" && k[1].(A)[0] == "num" && jint(k[1].(A)[1]) >= 0 && jint(k[1].(A)[2]) == 1 && r.coin(5) &&
			(e[1].(A)[0] == "var" || e[1].(A)[0] == "attr") {
			return fmt.Sprintf("%s.%d", base, jint(k[1].(A)[1])), 8
		}
		return base + "[" + r.osp2() + r.inner(k) + "]", 8
	case "splat":
		src := r.expr(e[1].(A), 8)
		mark := "[*]"
		if e[2] == "attr" {
			mark = ".*"
		}
		return src + mark + r.expr(e[3].(A), 8), 8
	case "call":
		args := []string{}
		for _, a := range e[2].(A) {
			args = append(args, r.inner(a.(A)))
		}
		ell := ""
		if e[3].(bool) {
			ell = "..."
		} else if len(args) > 0 && r.coin(8) {
			ell = ","
		}
		return e[1].(string) + "(" + strings.Join(args, ","+" ") + ell + ")", 9
	case "cond":
		return r.expr(e[1].(A), 1) + r.sp() + "?" + r.sp() + r.expr(e[2].(A), 0) + r.sp() + ":" + r.sp() + r.expr(e[3].(A), 0), 0
	case "bin":
		p := binPrec[e[1].(string)]
		return r.expr(e[2].(A), p) + r.sp() + e[1].(string) + r.sp() + r.expr(e[3].(A), p+1), p
	case "un":
		return e[1].(string) + r.osp() + r.expr(e[2].(A), 7), 7
	case "tuple":
		es := []string{}
		for _, a := range e[1].(A) {
			es = append(es, r.inner(a.(A)))
		}
		trail := ""
		if len(es) > 0 && r.coin(6) {
			trail = ","
		}
		return "[" + r.nlsp() + strings.Join(es, ","+" ") + trail + "]", 9
	case "obj":
		save := r.nl
		r.nl = false
		var b strings.Builder
		b.WriteString("{")
		if r.coin(4) {
			b.WriteString("\n")
		}
		items := e[1].(A)
		for i, it := range items {
			x := it.(A)
			if x[0] == "id" {
				b.WriteString(x[1].(string))
			} else {
				k := x[1].(A)
				if k[0] == "tmpl" || (k[0] == "lit" && k[1].(A)[0] != "null" && k[1].(A)[0] != "bool") {
					s, _ := r.raw(k)
					b.WriteString(s)
				} else {
					b.WriteString(r.parens(k))
				}
			}
			if r.coin(3) {
				b.WriteString(": ")
			} else {
				b.WriteString(" = ")
			}
			b.WriteString(r.expr(x[2].(A), 0))
			if i < len(items)-1 || r.coin(4) {
				if r.coin(3) {
					b.WriteString("\n")
				} else {
					b.WriteString(", ")
				}
			}
		}
		b.WriteString("}")
		r.nl = save
		return b.String(), 9
	case "fort":
		s := "[for " + forVars(e) + " in " + r.inner(e[3].(A)) + " : " + r.inner(e[4].(A))
		if e[5].(bool) {
			s += " if " + r.inner(e[6].(A))
		}
		return s + "]", 9
	case "foro":
		s := "{for " + forVars(e) + " in " + r.inner(e[3].(A)) + " : " + r.inner(e[4].(A)) + " => " + r.inner(e[5].(A))
		if e[8].(bool) {
			s += "..."
		}
		if e[6].(bool) {
			s += " if " + r.inner(e[7].(A))
		}
		return s + "}", 9
	case "tmpl":
		return `"` + r.parts(e[1].(A)) + `"`, 9
	}
	panic(fmt.Sprintf("cannot render %v", e))
}

func (r *rend) osp2() string {
	if r.coin(6) {
		return " "
	}
	return ""
}

func (r *rend) nlsp() string {
	if r.coin(5) {
		return "\n"
	}
	return ""
}

func forVars(e A) string {
	if e[1].(string) == "" {
		return e[2].(string)
	}
	return e[1].(string) + ", " + e[2].(string)
}

func (r *rend) parts(ps A) string {
	var b strings.Builder
	for _, p := range ps {
		x := p.(A)
		switch x[0].(string) {
		case "s":
			b.WriteString(quoteLit(x[1].(string)))
		case "i":
			b.WriteString("${" + r.osp2() + r.inner(x[1].(A)) + r.osp2() + "}")
		case "tif":
			b.WriteString("%{ if " + r.inner(x[1].(A)) + " }" + r.parts(x[2].(A)))
			if len(x[3].(A)) > 0 || r.coin(3) {
				b.WriteString("%{ else }" + r.parts(x[3].(A)))
			}
			b.WriteString("%{ endif }")
		case "tfor":
			b.WriteString("%{ for " + forVars(A{"", x[1], x[2]}) + " in " + r.inner(x[3].(A)) + " }" + r.parts(x[4].(A)) + "%{ endfor }")
		}
	}
	return b.String()
}

// ---------------------------------------------------------------- generating

type exprGen struct {
	rng      *rand.Rand
	vars     map[string]J // name -> value
	names    []string
	unknowns bool
	nulls    bool
	noCalls  bool
	noTmpl   bool
	pure     bool // only names that exist
	keyed    bool
	noDyn    bool // no values of unknown type (inside homogeneous collections)
}

func pick(rng *rand.Rand, xs ...string) string { return xs[rng.Intn(len(xs))] }

var strPool = []string{"", "a", "b", "c", "foo", "k1", "true", "false", "1", "0", "2", "2.5", "x y", "a\"b", "$", "-3", "nope", "${x}", "10"}

func (g *exprGen) num() A {
	switch g.rng.Intn(8) {
	case 0:
		return A{"num", 0, 1}
	case 1:
		return A{"num", 1, 2}
	case 2:
		return A{"num", 5, 2}
	case 3:
		return A{"num", 10 + g.rng.Intn(20), 1}
	}
	return A{"num", 1 + g.rng.Intn(4), 1}
}

// val generates a value of the given kind.
func (g *exprGen) val(kind string, depth int) J {
	rng := g.rng
	if g.unknowns && rng.Intn(7) == 0 {
		return A{"unk", g.typ(kind, depth)}
	}
	if g.nulls && rng.Intn(12) == 0 {
		return A{"null", g.typ(kind, depth)}
	}
	switch kind {
	case "num":
		if rng.Intn(12) == 0 {
			return A{"num", -1 - rng.Intn(3), 1}
		}
		return g.num()
	case "str":
		return A{"str", strPool[rng.Intn(len(strPool))]}
	case "bool":
		return A{"bool", rng.Intn(2) == 0}
	case "seq":
		n := rng.Intn(4)
		switch rng.Intn(4) {
		case 0, 1:
			es := A{}
			for i := 0; i < n; i++ {
				es = append(es, g.val(g.elemKind(depth), depth-1))
			}
			return A{"tuple", es}
		case 2:
			return g.homog("list", n, depth)
		default:
			k := pick(rng, "num", "str", "bool")
			seen := map[string]bool{}
			var vs []cty.Value
			sub := &exprGen{rng: rng}
			for i := 0; i < n; i++ {
				v := sub.val(k, 0)
				if !seen[jstr(v)] {
					seen[jstr(v)] = true
					vs = append(vs, decVal(v))
				}
			}
			if len(vs) == 0 {
				return A{"set", g.typ(k, 0), A{}}
			}
			return norm(encVal(cty.SetVal(vs)))
		}
	case "map":
		n := rng.Intn(4)
		if rng.Intn(2) == 0 {
			o := O{}
			for i := 0; i < n; i++ {
				o[pick(rng, "a", "b", "k1", "id", "foo")] = g.val(g.elemKind(depth), depth-1)
			}
			return A{"obj", o}
		}
		return g.homog("map", n, depth)
	}
	return g.val(g.elemKind(depth), depth)
}

func (g *exprGen) homog(tag string, n, depth int) J {
	defer func(v bool) { g.noDyn = v }(g.noDyn)
	g.noDyn = true
	k := pick(g.rng, "num", "str", "str", "bool")
	if depth > 1 && g.rng.Intn(4) == 0 {
		// collection of objects
		ty := A{"object", O{"a": A{"string"}, "id": A{"number"}}}
		mk := func() J { return A{"obj", O{"a": g.val("str", 0), "id": g.val("num", 0)}} }
		if g.rng.Intn(3) == 0 {
			ty = A{"list", A{"string"}}
			mk = func() J {
				es := A{}
				for i := g.rng.Intn(3); i > 0; i-- {
					es = append(es, g.val("str", 0))
				}
				return A{"list", A{"string"}, es}
			}
		}
		return g.coll(tag, ty, n, mk)
	}
	ty := g.primType(k)
	return g.coll(tag, ty, n, func() J { return g.val(k, 0) })
}

func (g *exprGen) coll(tag string, ty A, n int, mk func() J) J {
	if tag == "list" {
		es := A{}
		for i := 0; i < n; i++ {
			es = append(es, mk())
		}
		return A{"list", ty, es}
	}
	o := O{}
	for i := 0; i < n; i++ {
		o[pick(g.rng, "a", "b", "k1", "id", "foo")] = mk()
	}
	return A{"map", ty, o}
}

func (g *exprGen) elemKind(depth int) string {
	if depth > 0 && g.rng.Intn(3) == 0 {
		return pick(g.rng, "seq", "map")
	}
	return pick(g.rng, "num", "str", "bool", "str")
}

func (g *exprGen) primType(k string) A {
	switch k {
	case "num":
		return A{"number"}
	case "str":
		return A{"string"}
	}
	return A{"bool"}
}

func (g *exprGen) typ(kind string, depth int) J {
	rng := g.rng
	if rng.Intn(10) == 0 && g.unknowns && !g.noDyn {
		return A{"dyn"}
	}
	switch kind {
	case "num", "str", "bool":
		return g.primType(kind)
	case "seq":
		switch rng.Intn(3) {
		case 0:
			ts := A{}
			for i := rng.Intn(3); i > 0; i-- {
				ts = append(ts, g.primType(pick(rng, "num", "str", "bool")))
			}
			return A{"tuple", ts}
		case 1:
			return A{"list", g.primType(pick(rng, "num", "str", "bool"))}
		}
		return A{"set", g.primType(pick(rng, "num", "str"))}
	case "map":
		if rng.Intn(2) == 0 {
			o := O{}
			for i := rng.Intn(3); i > 0; i-- {
				o[pick(rng, "a", "b", "k1", "id")] = g.primType(pick(rng, "num", "str", "bool"))
			}
			return A{"object", o}
		}
		return A{"map", g.primType(pick(rng, "num", "str", "bool"))}
	}
	return g.typ(pick(rng, "num", "str", "bool", "seq", "map"), depth)
}

var kinds = []string{"num", "str", "bool", "seq", "map"}

// scope makes frames with variables of every kind.
func (g *exprGen) scope() A {
	g.vars = map[string]J{}
	g.names = nil
	frames := A{}
	nf := 1 + g.rng.Intn(2)
	pool := []string{"n", "m", "s", "t", "b", "l", "q", "o", "p", "x", "foo-bar", "a"}
	for f := 0; f < nf; f++ {
		fr := O{}
		cnt := 6
		if f > 0 {
			cnt = 3
		}
		for i := 0; i < cnt; i++ {
			name := pool[g.rng.Intn(len(pool))]
			k := kinds[(i+g.rng.Intn(2))%len(kinds)]
			if f == 0 && i < 5 {
				k = kinds[i]
			}
			fr[name] = g.val(k, 2)
		}
		frames = append(frames, fr)
		for k, v := range fr {
			if _, ok := g.vars[k]; !ok {
				g.vars[k] = v
			}
		}
	}
	for _, k := range sortedKeys(g.vars) {
		g.names = append(g.names, k)
	}
	return frames
}

func kindOf(v J) string {
	a := v.(A)
	tag := a[0].(string)
	if tag == "unk" || tag == "null" {
		tag = a[1].(A)[0].(string)
	}
	switch tag {
	case "num", "number":
		return "num"
	case "str", "string":
		return "str"
	case "bool":
		return "bool"
	case "list", "set", "tuple":
		return "seq"
	case "map", "obj", "object":
		return "map"
	}
	return "any"
}

func (g *exprGen) varOf(kind string) (A, bool) {
	var c []string
	for _, n := range g.names {
		if kindOf(g.vars[n]) == kind || kind == "any" {
			c = append(c, n)
		}
	}
	if len(c) == 0 {
		return nil, false
	}
	return A{"var", c[g.rng.Intn(len(c))]}, true
}

func (g *exprGen) leaf(kind string) A {
	rng := g.rng
	if rng.Intn(40) == 0 && g.nulls {
		return A{"lit", A{"null", A{"dyn"}}}
	}
	if rng.Intn(60) == 0 && !g.pure {
		return A{"var", "missing"}
	}
	if rng.Intn(2) == 0 {
		if v, ok := g.varOf(kind); ok {
			return v
		}
	}
	if rng.Intn(25) == 0 {
		if v, ok := g.varOf("any"); ok {
			return v
		}
	}
	switch kind {
	case "num":
		return A{"lit", g.num()}
	case "str":
		return A{"tmpl", A{A{"s", strPool[rng.Intn(len(strPool))]}}}
	case "bool":
		return A{"lit", A{"bool", rng.Intn(2) == 0}}
	case "seq":
		return A{"tuple", A{g.leaf(pick(rng, "num", "str")), g.leaf(pick(rng, "num", "str", "bool"))}}
	case "map":
		return A{"obj", A{A{"id", pick(rng, "a", "b", "id"), g.leaf(pick(rng, "num", "str"))}}}
	}
	return g.leaf(pick(rng, "num", "str", "bool", "seq", "map"))
}

// withVars runs f with extra names in scope.
func (g *exprGen) withVars(vs map[string]J, f func()) {
	sv, sn := g.vars, g.names
	nv := map[string]J{}
	for k, v := range sv {
		nv[k] = v
	}
	for k, v := range vs {
		nv[k] = v
	}
	g.vars = nv
	g.names = nil
	for _, k := range sortedKeys(nv) {
		g.names = append(g.names, k)
	}
	f()
	g.vars, g.names = sv, sn
}

// elemSample returns the key and some element of a value, to guess kinds.
func elemSample(v J) (J, J, bool) {
	a := v.(A)
	switch a[0].(string) {
	case "list", "set":
		if es := a[2].(A); len(es) > 0 {
			return A{"num", 0, 1}, es[0], true
		}
	case "tuple":
		if es := a[1].(A); len(es) > 0 {
			return A{"num", 0, 1}, es[0], true
		}
	case "map", "obj":
		o, _ := a[len(a)-1].(O)
		for _, k := range sortedKeys(o) {
			return A{"str", k}, o[k], true
		}
	}
	return nil, nil, false
}

func (g *exprGen) gen(kind string, d int) A {
	rng := g.rng
	if d <= 0 {
		return g.leaf(kind)
	}
	if rng.Intn(30) == 0 {
		kind = kinds[rng.Intn(len(kinds))] // deliberately wrong kind
	}
	// constructs that can produce any kind
	switch rng.Intn(14) {
	case 0:
		return A{"cond", g.gen("bool", d-1), g.gen(kind, d-1), g.gen(kind, d-1)}
	case 1:
		if a, ok := g.access(kind, d); ok {
			return a
		}
	case 2:
		if a, ok := g.access(kind, d); ok {
			return a
		}
	case 3:
		return A{"paren", g.gen(kind, d-1)}
	case 4:
		if !g.noCalls && rng.Intn(2) == 0 {
			return A{"call", "id", A{g.gen(kind, d-1)}, false}
		}
	case 5:
		return A{"idx", A{"tuple", A{g.gen(kind, d-1), g.gen(kind, d-2)}}, A{"lit", A{"num", rng.Intn(3), 1}}}
	case 6:
		return A{"idx", A{"obj", A{A{"id", "a", g.gen(kind, d-1)}, A{"e", A{"tmpl", A{A{"s", "b"}}}, g.gen(kind, d-2)}}}, g.keyExpr(d - 1)}
	case 7:
		if rng.Intn(3) == 0 && !g.noTmpl {
			return A{"tmpl", A{A{"i", g.gen(kind, d-1)}}}
		}
	}
	switch kind {
	case "num":
		switch rng.Intn(8) {
		case 0, 1, 2, 3:
			return A{"bin", pick(rng, "+", "-", "*", "/", "%"), g.gen("num", d-1), g.gen("num", d-1)}
		case 4:
			return A{"un", "-", g.gen("num", d-1)}
		case 5:
			if !g.noCalls {
				if rng.Intn(3) == 0 {
					args := A{}
					for i := rng.Intn(2); i > 0; i-- {
						args = append(args, g.gen("num", d-1))
					}
					return A{"call", "sum", append(args, g.gen("seq", d-1)), true}
				}
				args := A{}
				for i := rng.Intn(4); i > 0; i-- {
					args = append(args, g.gen("num", d-1))
				}
				return A{"call", "sum", args, false}
			}
		}
		return g.leaf("num")
	case "bool":
		switch rng.Intn(8) {
		case 0, 1:
			return A{"bin", pick(rng, "<", "<=", ">", ">="), g.gen("num", d-1), g.gen("num", d-1)}
		case 2, 3:
			k := kinds[rng.Intn(len(kinds))]
			return A{"bin", pick(rng, "==", "!="), g.gen(k, d-1), g.gen(k, d-1)}
		case 4, 5:
			return A{"bin", pick(rng, "&&", "||"), g.gen("bool", d-1), g.gen("bool", d-1)}
		case 6:
			return A{"un", "!", g.gen("bool", d-1)}
		case 7:
			if !g.noCalls {
				args := A{g.gen("num", d-1)}
				for i := rng.Intn(3); i > 0; i-- {
					args = append(args, g.gen("str", d-1))
				}
				return A{"call", "chk", args, false}
			}
		}
		return g.leaf("bool")
	case "str":
		switch rng.Intn(6) {
		case 0, 1, 2:
			if !g.noTmpl {
				return A{"tmpl", g.parts(d, true)}
			}
		case 3:
			if !g.noCalls {
				return A{"call", "dup", A{g.gen("str", d-1)}, false}
			}
		case 4:
			if !g.noCalls {
				return A{"call", "join", A{g.gen("seq", d-1)}, false}
			}
		}
		return g.leaf("str")
	case "seq":
		switch rng.Intn(7) {
		case 0, 1:
			return g.forExpr(d, false)
		case 2, 3:
			return g.splat(d)
		case 4, 5:
			es := A{}
			for i := rng.Intn(4); i > 0; i-- {
				es = append(es, g.gen(kinds[rng.Intn(3)], d-1))
			}
			return A{"tuple", es}
		case 6:
			if !g.noCalls {
				return A{"call", "pair", A{g.gen("str", d-1), g.gen("num", d-1)}, false}
			}
		}
		return g.leaf("seq")
	case "map":
		switch rng.Intn(5) {
		case 0, 1:
			return g.forExpr(d, true)
		case 2, 3:
			items := A{}
			for i := rng.Intn(4); i > 0; i-- {
				if rng.Intn(2) == 0 {
					items = append(items, A{"id", pick(rng, "a", "b", "id", "null", "if", "foo-bar"), g.gen(kinds[rng.Intn(len(kinds))], d-1)})
				} else {
					items = append(items, A{"e", g.keyExpr(d - 1), g.gen(kinds[rng.Intn(len(kinds))], d-1)})
				}
			}
			return A{"obj", items}
		}
		return g.leaf("map")
	}
	return g.gen(kinds[rng.Intn(len(kinds))], d)
}

func (g *exprGen) keyExpr(d int) A {
	if g.rng.Intn(3) == 0 {
		return g.gen(pick(g.rng, "str", "num"), d)
	}
	return A{"tmpl", A{A{"s", pick(g.rng, "a", "b", "k1", "id", "foo")}}}
}

// access makes attribute or index access that probably has the wanted kind.
func (g *exprGen) access(kind string, d int) (A, bool) {
	rng := g.rng
	type cand struct {
		e A
		v J
	}
	var cs []cand
	var walk func(e A, v J, n int)
	walk = func(e A, v J, n int) {
		a := v.(A)
		if n > 0 && (kindOf(v) == kind || rng.Intn(20) == 0) {
			cs = append(cs, cand{e, v})
		}
		if n >= 3 {
			return
		}
		switch a[0].(string) {
		case "list", "tuple":
			for i, x := range a[len(a)-1].(A) {
				walk(A{"idx", e, A{"lit", A{"num", i, 1}}}, x, n+1)
			}
			if rng.Intn(10) == 0 {
				cs = append(cs, cand{A{"idx", e, g.gen("num", d-1)}, v})
			}
		case "map", "obj":
			o, _ := a[len(a)-1].(O)
			for _, k := range sortedKeys(o) {
				if rng.Intn(2) == 0 {
					walk(A{"attr", e, k}, o[k], n+1)
				} else {
					walk(A{"idx", e, A{"tmpl", A{A{"s", k}}}}, o[k], n+1)
				}
			}
			if rng.Intn(10) == 0 {
				cs = append(cs, cand{A{"idx", e, g.gen("str", d-1)}, v})
			}
			if rng.Intn(15) == 0 {
				cs = append(cs, cand{A{"attr", e, "nope"}, v})
			}
		case "unk":
			switch kindOf(v) {
			case "seq":
				cs = append(cs, cand{A{"idx", e, A{"lit", A{"num", 0, 1}}}, v})
			case "map":
				cs = append(cs, cand{A{"attr", e, pick(rng, "a", "b", "id", "k1")}, v})
				cs = append(cs, cand{A{"idx", e, A{"tmpl", A{A{"s", pick(rng, "a", "b", "id", "k1")}}}}, v})
			case "any":
				cs = append(cs, cand{A{"attr", e, "a"}, v})
			}
		}
	}
	for _, n := range g.names {
		walk(A{"var", n}, g.vars[n], 0)
	}
	if len(cs) == 0 {
		return nil, false
	}
	return cs[rng.Intn(len(cs))].e, true
}

func (g *exprGen) collExpr(d int) (A, J, J) {
	rng := g.rng
	var k J = A{"num", 0, 1}
	var v J = A{"str", "a"}
	if rng.Intn(3) > 0 {
		if e, ok := g.varOf(pick(rng, "seq", "seq", "map")); ok {
			if kk, vv, ok := elemSample(g.vars[e[1].(string)]); ok {
				k, v = kk, vv
			}
			return e, k, v
		}
	}
	e := g.gen(pick(rng, "seq", "seq", "map"), d-1)
	return e, k, v
}

func (g *exprGen) forExpr(d int, obj bool) A {
	rng := g.rng
	coll, k, v := g.collExpr(d)
	kv := ""
	vv := pick(rng, "v", "v", "x", "s")
	vs := map[string]J{vv: v}
	if rng.Intn(2) == 0 {
		kv = pick(rng, "k", "i", "n")
		vs[kv] = k
	}
	var out A
	g.withVars(vs, func() {
		hasCond := rng.Intn(3) == 0
		var cond A = A{}
		if hasCond {
			cond = g.gen("bool", d-1)
		}
		val := g.gen(kinds[rng.Intn(len(kinds))], d-1)
		if rng.Intn(3) == 0 {
			val = A{"var", vv}
		}
		if !obj {
			out = A{"fort", kv, vv, coll, val, hasCond, cond}
			return
		}
		var key A
		switch rng.Intn(4) {
		case 0:
			key = g.gen("str", d-1)
		case 1:
			key = A{"var", vv}
		default:
			key = A{"tmpl", A{A{"s", "k"}, A{"i", A{"var", vv}}}}
			if kv != "" {
				key = A{"var", kv}
			}
		}
		out = A{"foro", kv, vv, coll, key, val, hasCond, cond, rng.Intn(3) == 0}
	})
	return out
}

func (g *exprGen) splat(d int) A {
	rng := g.rng
	var src A
	var v J
	if rng.Intn(3) > 0 {
		if e, ok := g.varOf(pick(rng, "seq", "seq", "map", "str")); ok {
			src = e
			_, v, _ = elemSample(g.vars[e[1].(string)])
			if kindOf(g.vars[e[1].(string)]) != "seq" {
				v = g.vars[e[1].(string)]
			}
		}
	}
	if src == nil {
		src = g.gen(pick(rng, "seq", "map", "num"), d-1)
		// operand of a splat marker must not itself be a full splat, which would
		// absorb the marker into its own elements
		if src[0] == "splat" || hasSplatTail(src) {
			src = A{"paren", src}
		}
	}
	kind := pick(rng, "full", "full", "attr")
	each := A{"item"}
	step := func(e A, v J) (A, J) {
		if v == nil {
			return A{"attr", e, pick(rng, "a", "id")}, nil
		}
		a := v.(A)
		switch kindOf(v) {
		case "map":
			o, _ := a[len(a)-1].(O)
			if ks := sortedKeys(o); len(ks) > 0 {
				k := ks[rng.Intn(len(ks))]
				if x, ok := o[k].(A); ok && a[0] != "unk" && a[0] != "null" {
					return A{"attr", e, k}, x
				}
				return A{"attr", e, k}, nil
			}
			return A{"attr", e, "a"}, nil
		case "seq":
			return A{"idx", e, A{"lit", A{"num", 0, 1}}}, nil
		}
		return e, v
	}
	for i := rng.Intn(3); i > 0; i-- {
		if kind == "attr" {
			if v != nil && kindOf(v) == "map" || v == nil && rng.Intn(3) == 0 {
				each, v = step(each, v)
			}
			continue
		}
		if rng.Intn(4) == 0 {
			// nested full splat: the rest belongs to the inner one
			inner := A{"item"}
			if rng.Intn(2) == 0 {
				inner = A{"attr", A{"item"}, pick(rng, "a", "id")}
			}
			return A{"splat", src, kind, A{"splat", each, "full", inner}}
		}
		each, v = step(each, v)
	}
	return A{"splat", src, kind, each}
}

func hasSplatTail(e A) bool {
	switch e[0].(string) {
	case "splat":
		return true
	case "attr", "idx":
		return hasSplatTail(e[1].(A))
	}
	return false
}

func (g *exprGen) parts(d int, directives bool) A {
	rng := g.rng
	ps := A{}
	prevS := false
	for i := 1 + rng.Intn(3); i > 0; i-- {
		switch c := rng.Intn(6); {
		case c < 2 && !prevS:
			ps = append(ps, A{"s", pick(rng, "a", " b ", "x", "$x", "%%y", "q\"", "tab\t")})
			prevS = true
			continue
		case c < 4:
			ps = append(ps, A{"i", g.gen(pick(rng, "str", "num", "bool", "str", "num"), d-1)})
		case c == 4 && directives:
			ps = append(ps, A{"tif", g.gen("bool", d-1), g.parts(d-1, d > 1), func() A {
				if rng.Intn(2) == 0 {
					return A{}
				}
				return g.parts(d-1, d > 1)
			}()})
		case c == 5 && directives:
			coll, k, v := g.collExpr(d)
			kv := ""
			vs := map[string]J{"v": v}
			if rng.Intn(2) == 0 {
				kv = "k"
				vs["k"] = k
			}
			g.withVars(vs, func() {
				body := A{A{"i", A{"var", "v"}}}
				if rng.Intn(2) == 0 {
					body = g.parts(d-1, d > 1)
				}
				ps = append(ps, A{"tfor", kv, "v", coll, body})
			})
		default:
			continue
		}
		prevS = false
	}
	return ps
}

// fixSplats wraps the operand of attribute/index access in parentheses when it
// ends in a splat, because a splat absorbs the access otherwise.
func fixSplats(e A) A {
	out := make(A, len(e))
	copy(out, e)
	for i, x := range out {
		if a, ok := x.(A); ok {
			out[i] = fixSplatsAny(a)
		}
	}
	if len(out) > 0 {
		if tag, ok := out[0].(string); ok && (tag == "attr" || tag == "idx" || tag == "splat") {
			if src := out[1].(A); len(src) > 0 && hasSplatTail(src) {
				out[1] = A{"paren", src}
			}
		}
	}
	return out
}

func fixSplatsAny(a A) A {
	if len(a) > 0 {
		if s, ok := a[0].(string); ok && (s == "lit" || s == "s") {
			return a
		}
	}
	return fixSplats(a)
}

func exprSize(e J) int {
	a, ok := e.(A)
	if !ok {
		return 1
	}
	n := 1
	for _, x := range a {
		n += exprSize(x)
	}
	return n
}

func exprStats(r *runner, e A, seen map[string]bool) {
	if len(e) == 0 {
		return
	}
	if t, ok := e[0].(string); ok {
		if !seen[t] {
			seen[t] = true
			r.Count("uses " + t)
		}
	}
	for _, x := range e {
		if a, ok := x.(A); ok {
			exprStats(r, a, seen)
		}
	}
}

func recordExprWith(r *runner, n int, unknowns bool) {
	for i := 0; i < n; i++ {
		g := &exprGen{rng: r.rng, unknowns: unknowns && r.rng.Intn(3) > 0, nulls: r.rng.Intn(2) == 0}
		frames := g.scope()
		e := fixSplats(g.gen(kinds[r.rng.Intn(len(kinds))], 1+r.rng.Intn(3)))
		if exprSize(e) > 400 {
			i--
			continue
		}
		rd := &rend{rng: r.rng, paren: true}
		src := rd.expr(e, 0)
		var got J
		p := guard(src, func() {
			x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.Pos{Line: 1, Column: 1})
			if diags.HasErrors() {
				got = A{"parse", diags.Error()}
				return
			}
			got = observeEval(x, evalCtx(frames))
		})
		if p != "" && lastPanicDep {
			r.Count("skipped: panic within cty/convert")
			continue
		}
		if p != "" {
			got = A{"panic", p}
		}
		if got.(A)[0] == "parse" || got.(A)[0] == "panic" {
			r.Mismatch(src, O{"src": src, "ctx": frames}, "an expression that parses and evaluates without crashing", got)
			continue
		}
		exprStats(r, e, map[string]bool{})
		r.Count("outcome " + got.(A)[0].(string))
		r.Sample(O{"src": src, "got": got})
		r.Record(O{"ast": e, "ctx": frames, "got": got, "src": src}, 2)
	}
}

func init() {
	recorders["expr"] = func(r *runner, n int) { recordExprWith(r, n, false) }
	recorders["exprunk"] = func(r *runner, n int) { recordExprWith(r, n, true) }
	replayers["expr"] = func(r *runner, c O) {
		rd := &rend{}
		e := fixSplats(c["ast"].(A))
		src := rd.expr(e, 0)
		var got J
		p := guard(src, func() {
			x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.Pos{Line: 1, Column: 1})
			if diags.HasErrors() {
				got = A{"parse", diags.Error()}
				return
			}
			got = observeEval(x, evalCtx(c["ctx"].(A)))
		})
		if p != "" {
			got = A{"panic", p}
		}
		want := c["want"].(A)
		if !same(norm(got), want) {
			r.Mismatch(src, O{"src": src, "ctx": c["ctx"]}, want, got)
		}
		r.Count("outcome " + want[0].(string))
		r.Sample(O{"src": src, "got": got})
	}
}
