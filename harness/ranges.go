package main

import (
	"bufio"
	"errors"
	"fmt"

	"github.com/apparentlymart/go-textseg/textseg"
	"github.com/hashicorp/hcl2/hcl"
)

// rangeAt places a range so that lines and columns can be recognised in
// results: three bytes to a line.
func rangeAt(file string, lo, hi int) hcl.Range {
	return hcl.Range{Filename: file, Start: posAt(lo), End: posAt(hi)}
}

func posAt(b int) hcl.Pos {
	q := b / 3
	if b < 0 {
		q = 0
	}
	return hcl.Pos{Line: 1 + q, Column: 1 + b - 3*q, Byte: b}
}

func span(r hcl.Range) A {
	if r.Start.Byte == r.End.Byte {
		return A{}
	}
	return A{r.Start.Byte, r.End.Byte}
}

// spanOf encodes a result after checking that its positions are ones of the
// given file and that an empty result lies within the receiver.
func spanOf(what string, res, within hcl.Range, bad *string) A {
	if res.Filename != within.Filename || res.Start != posAt(res.Start.Byte) || res.End != posAt(res.End.Byte) {
		*bad = what + " has a position that is in neither range"
	}
	if res.Empty() && (res.Start.Byte < within.Start.Byte || res.Start.Byte > within.End.Byte) {
		*bad = what + " is empty and outside of the receiver"
	}
	return span(res)
}

func num(j J) int { return int(j.(float64)) }

// splitter makes a splitting function from a number of bytes to advance and in
// the token for each piece. An error or nothing follows the last piece.
func splitter(pieces [][2]int, after error) bufio.SplitFunc {
	n := 0
	return func(data []byte, atEOF bool) (int, []byte, error) {
		if !atEOF {
			panic("splitting function called without the whole buffer")
		}
		if n >= len(pieces) {
			return 0, nil, after
		}
		p := pieces[n]
		n++
		return p[0], data[:p[1]], nil
	}
}

// scanPieces scans and returns the ranges; it checks the bytes of each piece.
func scanPieces(src []byte, start hcl.Pos, cb bufio.SplitFunc, after error, max int) (out A, bad string) {
	out = A{}
	p := guard(string(src), func() {
		var sc *hcl.RangeScanner
		if start == hcl.InitialPos {
			sc = hcl.NewRangeScanner(src, "t", cb)
		} else {
			sc = hcl.NewRangeScannerFragment(src, "t", start, cb)
		}
		for sc.Scan() {
			r := sc.Range()
			out = append(out, A{encPos(r.Start), encPos(r.End)})
			lo, hi := r.Start.Byte-start.Byte, r.End.Byte-start.Byte
			if r.Filename != "t" || lo < 0 || hi < lo || hi > len(src) || string(sc.Bytes()) != string(src[lo:hi]) {
				bad = "bytes of a piece are not the source at its range"
			}
			if sc.Err() != nil {
				bad = "error while scanning: " + sc.Err().Error()
			}
			if len(out) > len(src)+2 {
				bad = "scanning does not end"
				return
			}
		}
		if sc.Err() != after {
			bad = fmt.Sprintf("error after scanning is %v, want %v", sc.Err(), after)
		}
		if sc.Scan() {
			bad = "scanning continues after its end"
		}
	})
	if p != "" {
		bad = p
	}
	return
}

var errSplit = errors.New("cannot split")

func init() {
	replayers["range"] = func(r *runner, in O) {
		n := 0
		if in["n"] != nil {
			n = num(in["n"])
		}
		switch in["what"] {
		case "pairs":
			x, y := in["r"].(A), in["o"].(A)
			a, b := rangeAt(x[0].(string), num(x[1]), num(x[2])), rangeAt(y[0].(string), num(y[1]), num(y[2]))
			want := in["want"].(O)
			got := O{}
			bad := ""
			p := guard(jstr(in), func() {
				cont := A{}
				for o := -1; o <= n+1; o++ {
					c := a.ContainsOffset(o)
					if c != a.ContainsPos(posAt(o)) {
						bad = "containment of a position and of its offset differ"
					}
					cont = append(cont, c)
				}
				got["empty"], got["contains"], got["overlaps"] = a.Empty(), cont, a.Overlaps(b)
				got["overlap"] = spanOf("overlap", a.Overlap(b), a, &bad)
				f, m, l := a.PartitionAround(b)
				if s := spanOf("overlap", m, a, &bad); !same(s, got["overlap"]) {
					bad = "partition has another overlap"
				}
				got["before"], got["after"] = spanOf("part before", f, a, &bad), spanOf("part after", l, a, &bad)
				if a.Filename == b.Filename {
					got["over"] = span(hcl.RangeOver(a, b))
					res := hcl.RangeBetween(a, b)
					got["between"] = A{res.Start.Byte, res.End.Byte}
					if o := hcl.RangeOver(a, b); o.Filename != a.Filename || o.Start != posAt(o.Start.Byte) || o.End != posAt(o.End.Byte) {
						bad = "bounding range has a position that is in neither range"
					}
					if res.Filename != a.Filename || res.Start != a.Start || res.End != b.End {
						bad = "range between has other positions"
					}
				} else {
					got["over"], got["between"] = want["over"], want["between"]
				}
			})
			if p != "" {
				bad = p
			}
			if bad != "" {
				r.Mismatch(bad, in, want, got)
			} else if !same(norm(want), norm(got)) {
				r.Mismatch("range operations", in, want, got)
			}
			r.Sample(O{"r": x, "o": y, "got": got})
		case "slices":
			rg := rangeAt("f", num(in["lo"]), num(in["hi"]))
			src := make([]byte, n, n+8)
			for i := range src {
				src[i] = byte('a' + i)
			}
			got := A{}
			can := false
			bad := ""
			p := guard(jstr(in), func() {
				can = rg.CanSliceBytes(src)
				if s := rg.SliceBytes(src); len(s) > 0 {
					lo := int(s[0] - 'a')
					got = A{lo, lo + len(s)}
					for i := range s {
						if int(s[i]) != 'a'+lo+i {
							bad = "slice is not part of the buffer"
						}
					}
				}
			})
			if p != "" {
				bad = p
			}
			if bad != "" || can != in["can"].(bool) || !same(norm(got), in["want"]) {
				r.Mismatch("slice "+bad, in, in["want"], O{"can": can, "got": got})
			}
		default:
			chars := strs(in["chars"])
			src := []byte(charsText(chars))
			st := in["start"].(A)
			start := hcl.Pos{Line: num(st[0]), Column: num(st[1]), Byte: num(st[2])}
			how := in["how"].(A)
			left := num(in["left"])
			for _, after := range []error{nil, errSplit} {
				var cb bufio.SplitFunc
				switch how[0] {
				case "lines":
					cb = bufio.ScanLines
				case "chars":
					cb = textseg.ScanGraphemeClusters
				case "all":
					cb = func(d []byte, _ bool) (int, []byte, error) { return len(d), d, nil }
				case "fixed":
					var ps [][2]int
					k, j := num(how[1]), num(how[2])
					for i := 0; i < len(chars) && len(ps) < left; i += k {
						e := i + k
						if e > len(chars) {
							e = len(chars)
						}
						t := i + j
						if t > e {
							t = e
						}
						ps = append(ps, [2]int{len(charsText(chars[i:e])), len(charsText(chars[i:t]))})
					}
					cb = splitter(ps, after)
				}
				want := after
				if len(chars) == 0 || left == 99 {
					want = nil
				}
				if want != nil && len(in["want"].(A)) == len(chars) {
					want = nil // the buffer ended first
				}
				if after != nil && how[0] != "fixed" {
					continue
				}
				got, bad := scanPieces(src, start, cb, want, left)
				if bad != "" {
					r.Mismatch(bad, in, in["want"], got)
				} else if !same(norm(got), in["want"]) {
					r.Mismatch("scan", in, in["want"], got)
				}
				r.Sample(O{"src": string(src), "how": how, "got": got})
			}
		}
	}
	recorders["range"] = func(r *runner, n int) {
		syms := []string{"a", "b", " ", "\t", "\n", "\r\n", "<e2>", "<zh>", "<emo>", "<e1>", "\r", "#"}
		for c := 0; c < n; c++ {
			size := 1 + r.rng.Intn(30)
			if c%200 == 0 {
				size = 1500 + r.rng.Intn(1500)
			}
			var chars []string
			rare := r.rng.Intn(3) == 0
			for len(chars) < size {
				s := pick(r.rng, syms...)
				if k := len(chars); k > 0 && chars[k-1] == "\r" && s == "\n" {
					continue
				}
				if rare && s == "\n" {
					s = "x"
				}
				chars = append(chars, s)
			}
			src := []byte(charsText(chars))
			start := hcl.InitialPos
			if r.rng.Intn(2) == 0 {
				start = hcl.Pos{Line: 1 + r.rng.Intn(4), Column: 1 + r.rng.Intn(9), Byte: r.rng.Intn(300)}
			}
			ps := A{}
			var raw [][2]int
			for i := 0; i < len(chars); {
				k := 1 + r.rng.Intn(4)
				if size > 1000 {
					k = 1 + r.rng.Intn(1500)
				}
				if i+k > len(chars) {
					k = len(chars) - i
				}
				j := k
				if r.rng.Intn(2) == 0 {
					j = r.rng.Intn(k + 1)
				}
				ps = append(ps, A{k, j})
				raw = append(raw, [2]int{len(charsText(chars[i : i+k])), len(charsText(chars[i : i+j]))})
				i += k
			}
			got, bad := scanPieces(src, start, splitter(raw, nil), nil, 1<<30)
			if bad != "" {
				got = A{A{bad}}
			}
			rec := O{"chars": chars, "start": encPos(start), "pieces": ps, "got": got, "src": string(src)}
			if size < 40 {
				r.Sample(rec)
			}
			r.Record(rec, 1+len(ps))
		}
	}
}
