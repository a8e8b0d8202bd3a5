package main

import (
	"flag"
	"fmt"
	"strings"
	"sync/atomic"
)

// The programs of spec/Corpus.tla and every way of changing them of
// spec/Edits.tla, against the parser. Of the changes that the specification
// does not list, the changed token itself is one no program has there.

func init() { extra["edits"] = cmdEdits }

type editPart struct {
	name, mode string
	voc        []string
	levels     []string // the kinds of changes at each level
}

type editCase struct {
	v    byte // A, R, V, U, D, C
	at   int  // the position in the program from which it cannot go on; 0: the change itself cannot
	tree string
}

type editProg struct {
	part  *editPart
	toks  []string
	cases map[string]editCase // by the changes, three bytes each
}

type editRun struct {
	j                                *job
	checkLoc                         bool
	accepted, rejected, unspec, locs int64
}

// turned moves a token to or from a new line.
func turned(t string) string {
	if strings.HasPrefix(t, "\n") {
		return t[1:]
	}
	return "\n" + t
}

func cmdEdits(args []string) {
	r := &editRun{}
	j, in := harnessFlags("edits", args, func(fs *flag.FlagSet) {
		fs.BoolVar(&r.checkLoc, "loc", false, "also compare the locations of errors")
	})
	r.j = j
	parts := map[int]*editPart{}
	progs := map[int]*editProg{}
	tlcLines(in, func(v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			if x["part"] != nil {
				p := &editPart{name: x["name"].(string), mode: x["mode"].(string), voc: asTexts(x["voc"])}
				for _, l := range x["levels"].([]interface{}) {
					p.levels = append(p.levels, strings.Join(asTexts(l), ""))
				}
				parts[asInt(x["part"])] = p
			} else if x["program"] != nil {
				progs[asInt(x["program"])] = &editProg{part: parts[asInt(x["of"])], toks: asTexts(x["toks"]), cases: map[string]editCase{}}
			}
		case []interface{}:
			key := ""
			for _, e := range x[1].([]interface{}) {
				l := e.([]interface{})
				key += l[0].(string) + string([]byte{byte(asInt(l[1])), byte(asInt(l[2]))})
			}
			c := editCase{v: x[2].(string)[0], at: asInt(x[3])}
			if c.v == 'A' {
				w := &strings.Builder{}
				project(w, x[4])
				c.tree = w.String()
			}
			progs[asInt(x[0])].cases[key] = c
		}
	})
	j.parallel(len(progs), func(w, i int) {
		p := progs[i+1]
		if _, ok := p.cases[""]; !ok {
			check(fmt.Errorf("program %d is not judged", i+1))
		}
		r.visit(w, p, "", nil, 1, 0)
	})
	count := map[string]int{}
	for _, p := range progs {
		count[p.part.name]++
	}
	j.count("accepted", r.accepted)
	j.count("rejected", r.rejected)
	j.count("unspecified", r.unspec)
	j.count("locations", r.locs)
	j.count("changed programs", int64(len(progs)))
	j.finish(map[string]interface{}{"frames": []interface{}{count}})
}

// visit looks at the program changed by key, that is at front and what there
// is of the program from pos on; n is how many tokens the change has put there.
func (r *editRun) visit(w int, p *editProg, key string, front []string, pos, n int) {
	if r.j.full() {
		return
	}
	c, ok := p.cases[key]
	toks := append(append([]string{}, front...), p.toks[pos-1:]...)
	text, _, _ := layout(toks, false)
	text += " "
	o := r.j.parse(w, p.part.mode, text)
	bad := func(want string) {
		r.j.report(mismatch{
			Key:  p.part.mode + ":" + text,
			What: fmt.Sprintf("%s %q: specified: %s; but: %s", p.part.mode, text, want, o.String()),
			Case: map[string]interface{}{"cmd": "edits", "corpus": p.part.name, "mode": p.part.mode, "text": text, "want": want},
		})
	}
	switch {
	case ok && (c.v == 'U' || c.v == 'V'):
		atomic.AddInt64(&r.unspec, 1)
		if !o.declared() {
			bad("a tree or a declared error")
		}
	case ok && c.v == 'A':
		if atomic.AddInt64(&r.accepted, 1)%1009 == 1 {
			r.j.sample(map[string]interface{}{"mode": p.part.mode, "text": text, "specified": "accept", "tree": c.tree})
		}
		if o.kind != "accept" || o.tree() != c.tree {
			bad("accepted as " + c.tree)
		}
	default:
		if atomic.AddInt64(&r.rejected, 1)%20011 == 1 {
			r.j.sample(map[string]interface{}{"mode": p.part.mode, "text": text, "specified": "reject", "error": o.msg})
		}
		if o.kind != "syntax" {
			bad("rejected with a syntax error")
			break
		}
		// The token that no program has there.
		at := -1
		if !ok {
			at = len(front) + 1 // nothing put: the token behind
			if n > 0 {
				at = len(front) - n + 1
			}
		} else if c.v == 'D' && c.at > 0 {
			at = len(front) + c.at - pos + 1
		}
		// Of two tokens exchanged or one put twice it may be either.
		if r.checkLoc && at > 0 && at <= len(toks) && (ok || n < 2) {
			atomic.AddInt64(&r.locs, 1)
			_, prevEnd, end := layout(toks[:at], false)
			r1, c1 := position(text, prevEnd)
			r2, c2 := position(text, end)
			if o.row < r1 || o.row == r1 && o.col < c1 || o.row > r2 || o.row == r2 && o.col > c2 || !sameURL(o.uri) {
				bad(fmt.Sprintf("rejected at a location between %d:%d and %d:%d", r1, c1, r2, c2))
			}
		}
	}
	depth := len(key) / 3
	if !ok || c.at == 0 || depth == len(p.part.levels) {
		return
	}
	// Further changes, as far as the beginning of the program allows.
	kinds := p.part.levels[depth]
	for q := pos; q <= c.at; q++ {
		before := append(append([]string{}, front...), p.toks[pos-1:q-1]...)
		with := func(kind string, k int, skip int, put ...string) {
			if strings.Contains(kinds, kind) && q+skip <= len(p.toks)+1 {
				r.visit(w, p, key+kind+string([]byte{byte(q), byte(k)}), append(append([]string{}, before...), put...), q+skip, len(put))
			}
		}
		if q <= len(p.toks) {
			t := p.toks[q-1]
			with("d", 0, 1)
			with("n", 0, 1, turned(t))
			with("u", 0, 1, t, t)
			if q < len(p.toks) {
				with("s", 0, 2, p.toks[q], t)
			}
		}
		for k, t := range p.part.voc {
			with("i", k+1, 0, t)
			with("r", k+1, 1, t)
		}
	}
}
