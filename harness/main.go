// Command vh drives the real hcl2 code for the model-based checks.
//
//	vh replay NAME CASES MISMATCHES   replays cases emitted by TLC
//	vh record NAME N SEED OUT         records behaviour on random cases
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// J is any JSON value in the encoding shared with the specification.
type J = interface{}

// A is a tagged array: ["tag", ...].
type A = []interface{}

// O is a JSON object.
type O = map[string]interface{}

// A replayer runs one case emitted by the specification and returns what was
// observed; it is compared with the case's expectation.
type replayer func(c *Case)

// Case is the context of one replayed or recorded case.
type Case struct {
	In  O
	run *runner
}

type runner struct {
	mism    *bufio.Writer
	nmism   int
	cases   int
	samples []J
	info    map[string]int
	out     *bufio.Writer
	states  int
	rng     *rand.Rand
}

// Mismatch reports a disagreement between specification and code.
func (r *runner) Mismatch(key string, input, want, got J) {
	r.nmism++
	if r.nmism > 2000 {
		return
	}
	b, _ := json.Marshal(O{"key": key, "input": input, "want": want, "got": got})
	r.mism.Write(b)
	r.mism.WriteByte('\n')
}

// Count adds to a named statistic reported in the evidence.
func (r *runner) Count(what string) { r.info[what]++ }

// Sample keeps a few cases for the evidence file.
func (r *runner) Sample(v J) {
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	} else if r.cases%97 == 0 {
		r.samples[3+(r.cases/97)%3] = v
	}
}

// Record writes one record for trace validation. nstates is the number of
// states TLC visits for it when it is accepted.
func (r *runner) Record(rec O, nstates int) {
	b, err := json.Marshal(rec)
	if err != nil {
		panic(err)
	}
	r.out.Write(b)
	r.out.WriteByte('\n')
	r.states += nstates
	r.cases++
}

var replayers = map[string]func(*runner, O){}
var recorders = map[string]func(*runner, int){}

var (
	caseSeq   int64 // incremented at the start of every guarded call
	caseSince int64 // unix nano of the start, 0 when idle
	caseDesc  atomic.Value
	curFile   *os.File
)

func watchdog() {
	for {
		time.Sleep(100 * time.Millisecond)
		since := atomic.LoadInt64(&caseSince)
		if since != 0 && time.Now().UnixNano()-since > int64(30*time.Second) {
			d, _ := caseDesc.Load().(string)
			fmt.Fprintf(os.Stderr, "HANG: %s\n", d)
			os.Exit(7)
		}
		var ms runtime.MemStats
		if since != 0 && time.Now().UnixNano()-since > int64(1*time.Second) {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 6<<30 {
				d, _ := caseDesc.Load().(string)
				fmt.Fprintf(os.Stderr, "MEMORY: %s\n", d)
				os.Exit(7)
			}
		}
	}
}

// guard runs f on the code under test; a panic is returned as its message.
func guard(desc string, f func()) (panicked string) {
	atomic.AddInt64(&caseSeq, 1)
	caseDesc.Store(desc)
	if curFile != nil {
		curFile.Truncate(0)
		curFile.WriteAt([]byte(desc), 0)
	}
	atomic.StoreInt64(&caseSince, time.Now().UnixNano())
	defer func() {
		atomic.StoreInt64(&caseSince, 0)
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("panic: %v", r)
			lastPanicDep = panicInDependency()
			if os.Getenv("VH_STACK") != "" {
				fmt.Fprintf(os.Stderr, "%s\n%s\n", panicked, debug.Stack())
			}
		}
	}()
	f()
	return ""
}

// lastPanicDep tells whether the last panic seen by guard came from within the
// type conversion package of the cty dependency, which is not part of the
// system under test.
var lastPanicDep bool

func panicInDependency() bool {
	pcs := make([]uintptr, 100)
	n := runtime.Callers(3, pcs)
	frames := runtime.CallersFrames(pcs[:n])
	for {
		f, more := frames.Next()
		if strings.Contains(f.Function, "zclconf/go-cty/cty/convert.") {
			return true
		}
		if !strings.HasPrefix(f.Function, "runtime.") && !strings.Contains(f.Function, "zclconf/go-cty/") {
			return false
		}
		if !more {
			return false
		}
	}
}

func seedFor(name string, seed int64) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", name, seed)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

func main() {
	debug.SetMaxStack(256 << 20)
	if f := os.Getenv("VH_CUR"); f != "" {
		curFile, _ = os.Create(f)
	}
	go watchdog()
	r := &runner{info: map[string]int{}}
	switch os.Args[1] {
	case "replay":
		name := os.Args[2]
		f, ok := replayers[name]
		if !ok {
			fmt.Fprintln(os.Stderr, "no replayer", name)
			os.Exit(3)
		}
		mf, err := os.Create(os.Args[4])
		must(err)
		r.mism = bufio.NewWriter(mf)
		seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		in, err := os.Open(os.Args[3])
		must(err)
		sc := bufio.NewScanner(in)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			var o O
			must(json.Unmarshal(sc.Bytes(), &o))
			r.rng = rand.New(rand.NewSource(seedFor(string(sc.Bytes()), seed)))
			f(r, o)
			r.cases++
		}
		must(sc.Err())
		r.mism.Flush()
		mf.Close()
	case "record":
		name := os.Args[2]
		f, ok := recorders[name]
		if !ok {
			fmt.Fprintln(os.Stderr, "no recorder", name)
			os.Exit(3)
		}
		n, err := strconv.Atoi(os.Args[3])
		must(err)
		seed, err := strconv.ParseInt(os.Args[4], 10, 64)
		must(err)
		r.rng = rand.New(rand.NewSource(seedFor(name, seed)))
		of, err := os.Create(os.Args[5])
		must(err)
		r.out = bufio.NewWriter(of)
		mf, err := os.Create(os.Args[5] + ".mismatch")
		must(err)
		r.mism = bufio.NewWriter(mf)
		f(r, n)
		r.out.Flush()
		of.Close()
		r.mism.Flush()
		mf.Close()
	default:
		if f, ok := extraCmds[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
		fmt.Fprintln(os.Stderr, "usage")
		os.Exit(3)
	}
	for _, f := range finishers {
		f()
	}
	s := O{"cases": r.cases, "mismatches": r.nmism, "samples": r.samples, "info": r.info}
	if r.states > 0 {
		s["states"] = r.states
	}
	b, _ := json.Marshal(s)
	fmt.Println(string(b))
}

// finishers remove what replayers and recorders leave behind.
var finishers []func()

var extraCmds = map[string]func([]string){}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func jstr(v J) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// norm passes a value through JSON so that it can be compared structurally.
func norm(v J) J {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var o J
	if err := json.Unmarshal(b, &o); err != nil {
		panic(err)
	}
	return o
}

// same compares two JSON values; TLC cannot tell an empty record from an empty
// sequence, so {} and [] count as equal.
func same(a, b J) bool {
	switch x := a.(type) {
	case A:
		if y, ok := b.(O); ok {
			return len(x) == 0 && len(y) == 0
		}
		y, ok := b.(A)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case O:
		if y, ok := b.(A); ok {
			return len(x) == 0 && len(y) == 0
		}
		y, ok := b.(O)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !same(v, w) {
				return false
			}
		}
		return true
	default:
		return a == b
	}
}
