package main

import (
	"bytes"
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
)

// toolDir is a scratch directory holding a copy of a command of the repository
// and the files it is run on. The command runs as an unprivileged user when
// that is possible.
type toolDir struct {
	dir, bin string
	nobody   bool
}

const nobodyID = 65534

func newToolDir(name string) *toolDir {
	dir, err := ioutil.TempDir("", "vh-tool")
	must(err)
	must(os.Chmod(dir, 0755))
	src, err := ioutil.ReadFile(filepath.Join(os.Getenv("VERIF_BIN"), name))
	must(err)
	t := &toolDir{dir: dir, bin: filepath.Join(dir, name)}
	must(ioutil.WriteFile(t.bin, src, 0755))
	t.nobody = true
	if _, _, status := t.run("", nil, "-version"); status < 0 {
		t.nobody = false
	}
	return t
}

func (t *toolDir) close() { os.RemoveAll(t.dir) }

// fresh makes an empty directory for one run.
func (t *toolDir) fresh() string {
	d := filepath.Join(t.dir, "run")
	must(os.RemoveAll(d))
	must(os.Mkdir(d, 0755))
	if t.nobody {
		must(os.Chown(d, nobodyID, nobodyID))
	}
	return d
}

func (t *toolDir) put(path, text string, mode os.FileMode) {
	must(ioutil.WriteFile(path, []byte(text), 0644))
	if t.nobody {
		must(os.Chown(path, nobodyID, nobodyID))
	}
	must(os.Chmod(path, mode))
}

// run runs the command; status -1: it could not be run.
func (t *toolDir) run(dir string, stdin []byte, args ...string) (stdout, stderr string, status int) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, t.bin, args...)
	cmd.Dir = dir
	if dir == "" {
		cmd.Dir = t.dir
	}
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + t.dir}
	cmd.Stdin = bytes.NewReader(stdin)
	if t.nobody {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobodyID, Gid: nobodyID}}
	}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ctx.Err() != nil {
		return o.String(), e.String() + "\n(timed out)", 124
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return o.String(), e.String(), ee.ExitCode()
	}
	if err != nil {
		return "", err.Error(), -1
	}
	return o.String(), e.String(), 0
}

// crashed tells a Go panic from a failure that was reported.
func crashed(stderr string) bool {
	return strings.Contains(stderr, "goroutine ") && (strings.Contains(stderr, "panic: ") || strings.Contains(stderr, "fatal error: "))
}

type fmtFile struct {
	kind, text, formatted string
	valid, canon, fvalid  bool
}

func parses(src string) bool {
	_, d := hclsyntax.ParseConfig([]byte(src), "f", hcl.Pos{Line: 1, Column: 1})
	return !d.HasErrors()
}

func newFmtFile(kind, text string) fmtFile {
	f := fmtFile{kind: kind, text: text, formatted: string(hclwrite.Format([]byte(text)))}
	f.canon = f.text == f.formatted
	f.valid, f.fvalid = parses(f.text), parses(f.formatted)
	return f
}

func fmtRun(t *toolDir, files []fmtFile, args []int, o O) (got O, desc string) {
	d := t.fresh()
	argv := []string{}
	for _, x := range []struct{ k, flag string }{{"c", "-check"}, {"w", "-w"}, {"n", "-require-no-change"}} {
		if o[x.k] == true {
			argv = append(argv, x.flag)
		}
	}
	names := make([]string, len(files))
	for i, f := range files {
		names[i] = fmt.Sprintf("f%dx.hcl", i+1)
		p := filepath.Join(d, names[i])
		switch f.kind {
		case "dir":
			must(os.Mkdir(p, 0755))
		case "noread":
			t.put(p, f.text, 0)
		case "nowrite":
			t.put(p, f.text, 0444)
		case "file":
			t.put(p, f.text, 0644)
		}
	}
	var stdin []byte
	for _, i := range args {
		argv = append(argv, names[i-1])
	}
	if len(args) == 0 {
		stdin = []byte(files[0].text)
		names[0] = "<stdin>"
		must(os.Remove(filepath.Join(d, "f1x.hcl")))
	}
	stdout, stderr, status := t.run(d, stdin, argv...)
	desc = fmt.Sprintf("hclfmt %s\nstatus %d\nstdout %q\nstderr %q", strings.Join(argv, " "), status, stdout, stderr)
	if status < 0 {
		must(fmt.Errorf("cannot run hclfmt: %s", stderr))
	}
	disk, out, named := A{}, A{}, A{}
	extra := false
	for i, f := range files {
		desc += fmt.Sprintf("\nfile %d (%s): %q", i+1, f.kind, f.text)
		st := "fmt"
		if !f.canon {
			st = "orig"
		}
		if f.kind != "missing" && f.kind != "dir" && len(args) > 0 {
			b, err := ioutil.ReadFile(filepath.Join(d, names[i]))
			switch {
			case err != nil:
				st = "gone"
			case string(b) == f.formatted:
				st = "fmt"
			case string(b) == f.text:
				st = "orig"
			default:
				st = "other"
				desc += fmt.Sprintf(" now %q", b)
			}
		}
		disk = append(disk, st)
		if strings.Contains(stderr, names[i]) {
			named = append(named, i+1)
		}
	}
	rest := stdout
pieces:
	for rest != "" {
		for i, f := range files {
			if f.formatted != "" && strings.HasPrefix(rest, f.formatted) {
				out = append(out, i+1)
				rest = rest[len(f.formatted):]
				continue pieces
			}
		}
		out = append(out, -1)
		break
	}
	have, err := ioutil.ReadDir(d)
	must(err)
	want := 0
	for _, f := range files {
		if f.kind != "missing" {
			want++
		}
	}
	if len(args) == 0 {
		want = 0
	}
	extra = len(have) != want
	return O{"fail": status != 0, "disk": disk, "out": out, "named": named, "noise": stderr != "", "extra": extra || crashed(stderr)}, desc
}

func init() {
	sample := map[string][]string{
		"vc": {"k = 1\n", "blk \"x\" {\n  k = 1\n}\n", ""},
		"vn": {"k=1\n", "blk   \"x\" {\n       k=1\n\n}\n", "k=[1,2]"},
		"ic": {"k = = 1\n", "blk {\n  k = 1\n", "k = [1\n"},
		"in": {"k==1 2\n", "blk {\nk=1\n", "k=\"${\n"},
	}
	var tool *toolDir
	cases := 0
	replayers["fmttool"] = func(r *runner, c O) {
		if tool == nil {
			tool = newToolDir("hclfmt")
		}
		cases++
		files := []fmtFile{}
		for i, j := range c["files"].([]interface{}) {
			f := j.(O)
			kind := f["kind"].(string)
			if !tool.nobody && (kind == "noread" || kind == "nowrite") {
				r.Count("skipped: needs an unprivileged user")
				return
			}
			key := map[bool]string{true: "v", false: "i"}[f["valid"].(bool)] + map[bool]string{true: "c", false: "n"}[f["canon"].(bool)]
			pool := sample[key]
			text := fmt.Sprintf("# f%d\n%s", i+1, pool[cases%len(pool)])
			g := newFmtFile(kind, text)
			if g.valid != f["valid"] || g.canon != f["canon"] || g.fvalid != f["fvalid"] || string(hclwrite.Format([]byte(g.formatted))) != g.formatted {
				r.Count("skipped: text is not as intended")
				return
			}
			files = append(files, g)
		}
		want := c["want"].(O)
		if want["open"] == true {
			r.Count("open")
			return
		}
		args := []int{}
		for _, a := range c["args"].([]interface{}) {
			args = append(args, int(jint(a)))
		}
		got, desc := fmtRun(tool, files, args, c["o"].(O))
		r.Count("runs")
		ok := got["fail"] == want["fail"] && same(norm(got["disk"]), want["disk"]) && same(norm(got["out"]), want["out"]) && got["extra"] == false
		have := map[int]bool{}
		for _, n := range got["named"].(A) {
			have[n.(int)] = true
		}
		for _, n := range want["named"].([]interface{}) {
			ok = ok && have[int(jint(n))]
		}
		if want["fail"] == false && got["noise"] == true {
			ok = false
		}
		if !ok {
			r.Mismatch(desc, desc, want, got)
		}
	}
	finishers = append(finishers, func() {
		if tool != nil {
			tool.close()
		}
	})
	recorders["fmttool"] = func(r *runner, n int) {
		t := newToolDir("hclfmt")
		defer t.close()
		g := tokGen{r}
		for r.cases < n {
			files := []fmtFile{}
			ok := true
			for i, m := 0, 1+r.rng.Intn(4); i < m && ok; i++ {
				kind := "file"
				if r.rng.Intn(8) == 0 {
					kind = pick(r.rng, "missing", "dir")
					if t.nobody {
						kind = pick(r.rng, "missing", "dir", "noread", "nowrite")
					}
				}
				text := g.confText()
				if r.rng.Intn(3) == 0 {
					text = charsText(g.mutText(split(text)))
				}
				if r.rng.Intn(3) == 0 {
					text = string(hclwrite.Format([]byte(text)))
				}
				f := newFmtFile(kind, fmt.Sprintf("# f%d\n", i+1)+text)
				files = append(files, f)
				// the formatting itself is the subject of other checks
				ok = string(hclwrite.Format([]byte(f.formatted))) == f.formatted && !strings.Contains(text, "# f")
			}
			if !ok {
				continue
			}
			args := []int{}
			fs := A{}
			for _, f := range files {
				fs = append(fs, O{"kind": f.kind, "valid": f.valid, "canon": f.canon, "fvalid": f.fvalid})
			}
			for i := range files {
				args = append(args, i+1)
			}
			r.rng.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
			if r.rng.Intn(3) == 0 {
				args = append(args, 1+r.rng.Intn(len(files)))
			}
			if r.rng.Intn(10) == 0 {
				files, fs, args = files[:1], fs[:1], nil
				files[0].kind = "file"
				fs[0].(O)["kind"] = "file"
			}
			o := O{"c": r.rng.Intn(2) == 0, "w": r.rng.Intn(3) > 0, "n": r.rng.Intn(2) == 0}
			got, desc := fmtRun(t, files, args, o)
			as := A{}
			for _, a := range args {
				as = append(as, a)
			}
			r.Count("runs")
			r.Sample(desc)
			r.Record(O{"files": fs, "args": as, "o": o, "got": got, "src": desc}, 2)
		}
	}
}
