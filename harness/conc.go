package main

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"time"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
)

// Concurrent evaluations of shared expressions and bodies.

// onStep has the function called before every step on shared state; nil in
// builds without the steps.
var onStep func(func())

func goid() int {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	n, _ := strconv.Atoi(string(b[:bytes.IndexByte(b, ' ')]))
	return n
}

// lockstep runs the functions, each until its next step at a time, in the
// order of the schedule; what the schedule leaves out is run afterwards. A
// thread that is waiting for another one is left to be.
type lockstep struct {
	mu    sync.Mutex
	ids   map[int]int
	gos   []chan bool
	at    chan arrival
	state []string // "paused", "running" or "done"
}

type arrival struct {
	t    int
	done bool
}

func (l *lockstep) step() {
	l.mu.Lock()
	t, ok := l.ids[goid()]
	l.mu.Unlock()
	if ok {
		l.at <- arrival{t, false}
		<-l.gos[t]
	}
}

func (l *lockstep) arrived(a arrival) {
	l.state[a.t] = "paused"
	if a.done {
		l.state[a.t] = "done"
	}
}

// advance lets a thread run to its next step or its end
func (l *lockstep) advance(t int) bool {
	if l.state[t] != "paused" {
		return false
	}
	l.state[t] = "running"
	l.gos[t] <- true
	for l.state[t] == "running" {
		select {
		case a := <-l.at:
			l.arrived(a)
		case <-time.After(50 * time.Millisecond):
			return true
		}
	}
	return true
}

func (l *lockstep) run(fs []func(), sched []int) int {
	l.ids = map[int]int{}
	l.at = make(chan arrival, len(fs))
	l.state = make([]string, len(fs))
	l.gos = make([]chan bool, len(fs))
	steps := 0
	for i := range fs {
		l.gos[i] = make(chan bool)
		l.state[i] = "paused"
		i := i
		go func() {
			l.mu.Lock()
			l.ids[goid()] = i
			l.mu.Unlock()
			<-l.gos[i]
			fs[i]()
			l.at <- arrival{i, true}
		}()
	}
	// to the first step
	for i := range fs {
		l.advance(i)
	}
	for _, t := range sched {
		if l.advance(t) {
			steps++
		}
	}
	for {
		left, moved := 0, false
		for i := range fs {
			moved = l.advance(i) || moved
			if l.state[i] != "done" {
				left++
			}
		}
		if left == 0 {
			return steps
		}
		if !moved {
			l.arrived(<-l.at)
		}
	}
}

// together runs the functions at the same time.
func together(fs []func()) {
	var wg, ready sync.WaitGroup
	gate := make(chan bool)
	for _, f := range fs {
		wg.Add(1)
		ready.Add(1)
		f := f
		go func() {
			defer wg.Done()
			ready.Done()
			<-gate
			f()
		}()
	}
	ready.Wait()
	close(gate)
	wg.Wait()
}

// inOwn runs a function and returns its panic, if any: goroutines are outside
// of the guard.
func inOwn(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint("panic: ", e)
			if panicInDependency() {
				msg = "dep"
			}
		}
	}()
	f()
	return ""
}

func splatVal(rows A, inner bool) cty.Value {
	var out []cty.Value
	for _, x := range rows {
		var xs []cty.Value
		for _, n := range x.(A) {
			v := cty.NumberIntVal(int64(jint(n)))
			if inner {
				v = cty.ObjectVal(map[string]cty.Value{"n": v})
			}
			xs = append(xs, v)
		}
		out = append(out, cty.ObjectVal(map[string]cty.Value{"xs": cty.TupleVal(xs)}))
	}
	return cty.TupleVal(out)
}

func numRows(v cty.Value) (out A) {
	out = A{}
	defer func() {
		if e := recover(); e != nil {
			out = append(out, fmt.Sprintf("%#v", v))
		}
	}()
	for it := v.ElementIterator(); it.Next(); {
		_, x := it.Element()
		row := A{}
		for jt := x.ElementIterator(); jt.Next(); {
			_, n := jt.Element()
			f, _ := n.AsBigFloat().Int64()
			row = append(row, f)
		}
		out = append(out, row)
	}
	return out
}

func init() {
	replayers["splat"] = func(r *runner, c O) {
		inner := c["inner"].(bool)
		src := "v[*].xs"
		if inner {
			src = "v[*].xs[*].n"
		}
		var sched []int
		for _, t := range c["sched"].(A) {
			sched = append(sched, int(jint(t))-1)
		}
		vals := c["vals"].(A)
		variants := []string{"apart", "siblings"}
		if c["same"].(bool) {
			variants = []string{"inherit"}
		}
		for _, how := range variants {
			expr, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.InitialPos)
			if diags.HasErrors() {
				panic(diags)
			}
			parent := &hcl.EvalContext{Variables: map[string]cty.Value{"v": splatVal(vals[0].(A), inner)}}
			got := make([]J, len(vals))
			var fs []func()
			for t := range vals {
				t := t
				var ctx *hcl.EvalContext
				switch how {
				case "apart":
					ctx = &hcl.EvalContext{}
				default:
					ctx = parent.NewChild()
				}
				if how != "inherit" {
					ctx.Variables = map[string]cty.Value{"v": splatVal(vals[t].(A), inner)}
				}
				fs = append(fs, func() {
					if p := inOwn(func() {
						v, diags := expr.Value(ctx)
						if diags.HasErrors() {
							got[t] = A{"errors", diags.Error()}
						} else {
							got[t] = numRows(v)
						}
					}); p != "" {
						got[t] = p
					}
				})
			}
			l := &lockstep{}
			if onStep != nil {
				onStep(l.step)
			}
			guard(src, func() { r.info["steps scheduled"] += l.run(fs, sched) })
			if onStep != nil {
				onStep(nil)
			}
			for t := range vals {
				if !same(vals[t], norm(got[t])) {
					r.Mismatch(fmt.Sprint(src, how, sched), O{"src": src, "contexts": how, "schedule": c["sched"], "vals": vals}, vals, got)
					return
				}
			}
			r.Count("contexts " + how)
		}
	}
	// expressions evaluated by several threads, each in its own scope
	recorders["conc"] = func(r *runner, n int) {
		for r.cases < n {
			g := &exprGen{rng: r.rng, nulls: r.rng.Intn(2) == 0}
			shared := g.scope()
			e := fixSplats(g.gen(kinds[r.rng.Intn(len(kinds))], 1+r.rng.Intn(3)))
			if r.rng.Intn(2) == 0 {
				e = fixSplats(A{"tuple", A{e, g.gen(kinds[r.rng.Intn(len(kinds))], 3)}})
			}
			if exprSize(e) > 300 {
				continue
			}
			src := (&rend{rng: r.rng, paren: true}).expr(e, 0)
			parent := evalCtx(shared)
			x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.Pos{Line: 1, Column: 1})
			if diags.HasErrors() {
				r.Mismatch(src, O{"src": src}, "parsed", diags.Error())
				continue
			}
			const threads = 4
			var ctxs [threads]A
			var got [threads][3]J
			var fail [threads]string
			var fs []func()
			for t := 0; t < threads; t++ {
				t := t
				frame := A{O{}}
				if r.rng.Intn(3) == 0 {
					frame = g.scope()[:1]
				}
				ctxs[t] = append(append(A{}, frame...), shared...)
				ctx := parent.NewChild()
				ctx.Variables = map[string]cty.Value{}
				for k, v := range norm(frame[0]).(O) {
					ctx.Variables[k] = decVal(v)
				}
				fs = append(fs, func() {
					fail[t] = inOwn(func() {
						for k := range got[t] {
							got[t][k] = observeEval(x, ctx)
						}
						x.Variables()
					})
				})
			}
			if onStep != nil {
				seed := r.rng.Int63()
				onStep(func() {
					// give way now and then
					if (time.Now().UnixNano()^seed)&3 == 0 {
						runtime.Gosched()
					}
				})
			}
			guard(src, func() { together(fs) })
			if onStep != nil {
				onStep(nil)
			}
			for t := 0; t < threads; t++ {
				if fail[t] == "dep" {
					continue
				}
				if fail[t] != "" {
					r.Mismatch(src, O{"src": src, "ctx": ctxs[t]}, "no panic", fail[t])
					continue
				}
				if !same(norm(got[t][0]), norm(got[t][1])) || !same(norm(got[t][0]), norm(got[t][2])) {
					r.Mismatch(src, O{"src": src, "ctx": ctxs[t]}, "the same value every time", got[t])
					continue
				}
				r.Count("outcome " + got[t][0].(A)[0].(string))
				r.Record(O{"ast": e, "ctx": ctxs[t], "got": got[t][0], "src": src}, 2)
			}
		}
	}
	// bodies and specifications shared by several threads
	recorders["concdec"] = func(r *runner, n int) {
		for r.cases < n {
			g := &decGen{bodyGen: bodyGen{rng: r.rng}, dyn: r.rng.Intn(2) == 0}
			spec := norm(g.spec(2, false, map[string]int{}))
			b := norm(g.body(spec)).(A)
			src := bodySource(b, nil)
			body, perr := parseBody(b, nil)
			if perr != "" {
				r.cases++
				continue
			}
			sp := buildSpec(spec)
			work := func() (out J, fail string) {
				fail = inOwn(func() {
					ctx := decCtx()
					v, d := hcldec.Decode(body, sp, ctx)
					pv, left, pd := hcldec.PartialDecode(body, sp, ctx)
					attrs, _ := left.JustAttributes()
					x := dynblock.Expand(body, ctx)
					xv, xd := hcldec.Decode(x, sp, ctx)
					out = norm(A{sortSets(norm(encVal(v))), d.HasErrors(), sortSets(norm(encVal(pv))), pd.HasErrors(), len(attrs), sortSets(norm(encVal(xv))), xd.HasErrors(),
						len(hcldec.Variables(body, sp)), encType(hcldec.ImpliedType(sp)), hcldec.SourceRange(body, sp).String()})
				})
				return
			}
			want, fail := work()
			if fail != "" {
				r.cases++
				r.Count("skipped: fails alone")
				continue
			}
			const threads = 4
			var got [threads]J
			var fails [threads]string
			var fs []func()
			for t := 0; t < threads; t++ {
				t := t
				fs = append(fs, func() { got[t], fails[t] = work() })
			}
			guard(src, func() { together(fs) })
			for t := 0; t < threads; t++ {
				if fails[t] != "" || !same(want, got[t]) {
					r.Mismatch(src, O{"src": src, "spec": spec}, want, A{got[t], fails[t]})
					break
				}
			}
			r.Count("body " + b[0].(string))
			r.cases++
		}
	}
}
