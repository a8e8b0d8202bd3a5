package main

import (
	"flag"
	"fmt"
	"strings"
	"sync/atomic"
	"time"
)

// The enumeration of spec/ParserEnum.tla against the parser: every sequence
// over the alphabet of each frame up to its length, of which the
// specification lists those that some program starts with.

type enumFrame struct {
	name, mode   string
	glue         bool // the symbols are characters, not tokens
	bytes        bool // or bytes
	pre, al, suf []string
	n            int
	nodes        map[string]enumNode // by path, one byte per symbol
}

type enumNode struct {
	v    byte // A, R, V, U, C
	tree string
}

// layout writes tokens as text and tells where the last two of them end.
func layout(toks []string, glue bool) (text string, prevEnd, end int) {
	b := strings.Builder{}
	for _, t := range toks {
		prevEnd = end
		if glue || strings.HasPrefix(t, "\n") {
			b.WriteString(t)
		} else {
			if b.Len() > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(t)
		}
		end = b.Len()
	}
	return b.String(), prevEnd, end
}

// position is the location after the first n bytes of a text.
func position(text string, n int) (row, col int) {
	row, col = 1, 1
	for i, c := range text[:n] {
		switch {
		case c == '\n' && i > 0 && text[i-1] == '\r':
			// the rest of a line terminator that is already counted
		case c == '\n', c == '\r', c == '\u2028', c == '\u2029':
			row++
			col = 1
		default:
			col++
		}
	}
	return
}

func loadFrames(file string) []*enumFrame {
	frames := map[int]*enumFrame{}
	tlcLines(file, func(v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			if _, ok := x["frame"]; !ok {
				return
			}
			frames[asInt(x["frame"])] = &enumFrame{
				name: x["name"].(string), mode: x["mode"].(string),
				pre: asTexts(x["pre"]), al: asTexts(x["al"]), suf: asTexts(x["suf"]), glue: x["glue"] != nil,
				n: asInt(x["n"]), nodes: map[string]enumNode{},
			}
			if x["bytes"] != nil {
				fr := frames[asInt(x["frame"])]
				fr.bytes, fr.pre, fr.al, fr.suf = true, byteTexts(x["pre"]), byteTexts(x["al"]), byteTexts(x["suf"])
			}
		case []interface{}:
			if len(x) < 3 {
				return
			}
			fr := frames[asInt(x[0])]
			path := x[1].([]interface{})
			key := make([]byte, len(path))
			for i, p := range path {
				key[i] = byte(asInt(p))
			}
			n := enumNode{v: x[2].(string)[0]}
			if n.v == 'A' {
				w := &strings.Builder{}
				project(w, x[3])
				n.tree = w.String()
			}
			fr.nodes[string(key)] = n
		}
	})
	var out []*enumFrame
	for i := 1; i <= len(frames); i++ {
		out = append(out, frames[i])
	}
	return out
}

type enumRun struct {
	j        *job
	checkLoc bool
	accepted, rejected, unspec,
	locs int64
}

func cmdEnum(args []string) {
	fs := flag.NewFlagSet("enum", flag.ExitOnError)
	in := fs.String("in", "", "output of TLC")
	res := fs.String("res", "", "result file")
	progress := fs.String("progress", "", "progress file")
	known := fs.String("known", "", "keys of known findings")
	loc := fs.Bool("loc", false, "also compare the locations of errors")
	check(fs.Parse(args))
	frames := loadFrames(*in)
	j := newJob(*res, *progress, *known, 10*time.Second)
	r := &enumRun{j: j, checkLoc: *loc}
	type item struct {
		fr    *enumFrame
		first int // 0 is the empty path
	}
	var items []item
	for _, fr := range frames {
		if _, ok := fr.nodes[""]; !ok {
			check(fmt.Errorf("frame %s has no start", fr.name))
		}
		for i := 0; i <= len(fr.al); i++ {
			items = append(items, item{fr, i})
		}
	}
	j.parallel(len(items), func(w, i int) {
		it := items[i]
		if it.first == 0 {
			r.visit(w, it.fr, nil)
		} else {
			r.walk(w, it.fr, []byte{byte(it.first)}, true)
		}
	})
	var per []map[string]interface{}
	for _, fr := range frames {
		per = append(per, map[string]interface{}{"frame": fr.name, "mode": fr.mode, "alphabet": len(fr.al), "length": fr.n, "prefixes": len(fr.nodes)})
	}
	j.count("accepted", r.accepted)
	j.count("rejected", r.rejected)
	j.count("unspecified", r.unspec)
	j.count("locations", r.locs)
	j.finish(map[string]interface{}{"frames": per})
}

func (r *enumRun) tokens(fr *enumFrame, path []byte, suffix bool) []string {
	toks := append([]string{}, fr.pre...)
	for _, p := range path {
		toks = append(toks, fr.al[p-1])
	}
	if suffix {
		toks = append(toks, fr.suf...)
	}
	return toks
}

// walk looks at a path and what it can be extended to. alive says whether the
// path without its last symbol is a prefix of some program.
func (r *enumRun) walk(w int, fr *enumFrame, path []byte, alive bool) {
	if r.j.full() {
		return
	}
	n, ok := fr.nodes[string(path)]
	if ok && n.v == 'U' {
		r.visit(w, fr, path)
		return
	}
	extend := r.visit(w, fr, path)
	viable := ok && n.v != 'C'
	if len(path) < fr.n && extend {
		for i := range fr.al {
			r.walk(w, fr, append(append([]byte{}, path...), byte(i+1)), viable)
		}
	}
	_ = alive
}

// visit runs the parser on the path; the result tells whether the parser can
// see what comes behind it.
func (r *enumRun) visit(w int, fr *enumFrame, path []byte) bool {
	n, ok := fr.nodes[string(path)]
	toks := r.tokens(fr, path, false)
	front, prevEnd, end := layout(toks, fr.glue)
	text, _, _ := layout(r.tokens(fr, path, true), fr.glue)
	if len(text) == len(front) && !fr.glue {
		// The end of the text must not be what ends the last token.
		text += " "
	}
	o := r.j.parse(w, fr.mode, text)
	bad := func(want string) {
		r.j.report(mismatch{
			Key:  fr.mode + ":" + text,
			What: fmt.Sprintf("%s %q: specified: %s; but: %s", fr.mode, text, want, o.String()),
			Case: map[string]interface{}{"cmd": "enum", "frame": fr.name, "mode": fr.mode, "text": text, "want": want},
		})
	}
	switch {
	case ok && (n.v == 'U' || n.v == 'V'):
		// Whatever it is, it must be one of the ways to answer.
		atomic.AddInt64(&r.unspec, 1)
		if !o.declared() {
			bad("a tree or a declared error")
		}
	case ok && n.v == 'A':
		if atomic.AddInt64(&r.accepted, 1)%1009 == 1 {
			r.j.sample(map[string]interface{}{"mode": fr.mode, "text": text, "specified": "accept", "tree": n.tree})
		}
		if o.kind != "accept" || (fr.glue && o.masked() != n.tree) || (!fr.glue && o.tree() != n.tree) {
			bad("accepted as " + n.tree)
		}
	default:
		if atomic.AddInt64(&r.rejected, 1)%20011 == 1 {
			r.j.sample(map[string]interface{}{"mode": fr.mode, "text": text, "specified": "reject", "error": o.msg})
		}
		if o.kind != "syntax" && o.kind != "parser" {
			bad("rejected")
		} else if o.kind == "parser" {
			bad("rejected with a syntax error")
		}
		if r.checkLoc && !ok && o.kind == "syntax" && r.deadHere(fr, path) {
			atomic.AddInt64(&r.locs, 1)
			r1, c1 := position(text, prevEnd)
			r2, c2 := position(text, end)
			if o.row < r1 || o.row == r1 && o.col < c1 || o.row > r2 || o.row == r2 && o.col > c2 {
				bad(fmt.Sprintf("rejected at a location between %d:%d and %d:%d", r1, c1, r2, c2))
			}
		}
	}
	// Whether the parser looked behind the path.
	return o.kind == "accept" || o.read > len(front) || o.atEOF || fr.bytes && ok && n.v != 'C'
}

// deadHere tells whether the last token is the first that no program has.
func (r *enumRun) deadHere(fr *enumFrame, path []byte) bool {
	if len(path) == 0 {
		return false
	}
	n, ok := fr.nodes[string(path[:len(path)-1])]
	return ok && (n.v == 'A' || n.v == 'R' || n.v == 'V')
}
