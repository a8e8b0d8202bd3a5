package main

import (
	"fmt"
	"strings"
	"sync/atomic"
)

// The texts of spec/FrontEdits.tla and every way of changing them by a
// character, against the lexer and the parser together. What the
// specification does not list cannot be gone on with behind the change.

func init() { extra["charedits"] = cmdCharEdits }

type charPart struct {
	name, mode string
	vocs       [][]string // by how many changes there are before
}

type charProg struct {
	part  *charPart
	s     []string
	cases map[string]string // A and the tree, R or U, by the changes: kind, position and piece
}

type charRun struct {
	j                          *job
	accepted, rejected, unspec int64
}

func asChars(v interface{}) []string {
	var s []string
	for _, c := range v.([]interface{}) {
		s = append(s, string(rune(asInt(c))))
	}
	return s
}

func cmdCharEdits(args []string) {
	r := &charRun{}
	j, in := harnessFlags("charedits", args, nil)
	r.j = j
	parts := map[int]*charPart{}
	progs := map[int]*charProg{}
	tlcLines(in, func(v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			if x["part"] != nil {
				p := &charPart{name: x["name"].(string), mode: x["mode"].(string)}
				for _, voc := range x["vocs"].([]interface{}) {
					var pieces []string
					for _, e := range voc.([]interface{}) {
						pieces = append(pieces, strings.Join(asChars(e), ""))
					}
					p.vocs = append(p.vocs, pieces)
				}
				parts[asInt(x["part"])] = p
			} else if x["program"] != nil {
				progs[asInt(x["program"])] = &charProg{part: parts[asInt(x["of"])], s: asChars(x["s"]), cases: map[string]string{}}
			}
		case []interface{}:
			key := ""
			for _, e := range x[1].([]interface{}) {
				l := e.([]interface{})
				key += l[0].(string) + string([]byte{byte(asInt(l[1])), byte(asInt(l[2]))})
			}
			c := x[2].(string)
			if c == "A" {
				w := &strings.Builder{}
				project(w, x[3])
				c += w.String()
			}
			progs[asInt(x[0])].cases[key] = c
		}
	})
	j.parallel(len(progs), func(w, i int) {
		p := progs[i+1]
		if taken := r.visit(w, p, "", "", 1); taken != len(p.cases) && !j.full() {
			check(fmt.Errorf("text %d: %d of %d changes taken", i+1, taken, len(p.cases)))
		}
	})
	count := map[string]int{}
	for _, p := range progs {
		count[p.part.name]++
	}
	j.count("accepted", r.accepted)
	j.count("rejected", r.rejected)
	j.count("unspecified", r.unspec)
	j.count("changed texts", int64(len(progs)))
	j.finish(map[string]interface{}{"frames": []interface{}{count}})
}

// visit looks at front and what there is of the text from pos on, and then
// at further changes; it returns how many changed texts the specification
// lists.
func (r *charRun) visit(w int, p *charProg, key, front string, pos int) int {
	if r.j.full() {
		return 0
	}
	mode := p.part.mode
	text := front + strings.Join(p.s[pos-1:], "")
	o := r.j.parse(w, mode, text)
	bad := func(want string) {
		r.j.report(mismatch{
			Key:  mode + ":" + text,
			What: fmt.Sprintf("%s %q: specified: %s; but: %s", mode, text, want, o.String()),
			Case: map[string]interface{}{"cmd": "charedits", "part": p.part.name, "mode": mode, "text": text, "want": want},
		})
	}
	c, ok := p.cases[key]
	switch {
	case ok && c == "U":
		atomic.AddInt64(&r.unspec, 1)
		if !o.declared() {
			bad("a tree or a declared error")
		}
	case ok && c[0] == 'A':
		if atomic.AddInt64(&r.accepted, 1)%1009 == 1 {
			r.j.sample(map[string]interface{}{"mode": mode, "text": text, "specified": "accept", "tree": c[1:]})
		}
		if o.kind != "accept" || o.masked() != c[1:] {
			bad("accepted as " + c[1:])
		}
	default:
		if atomic.AddInt64(&r.rejected, 1)%20011 == 1 {
			r.j.sample(map[string]interface{}{"mode": mode, "text": text, "specified": "reject", "error": o.msg})
		}
		if o.kind != "syntax" {
			bad("rejected with a syntax error")
		}
	}
	if !ok {
		return 0
	}
	taken := 1
	if len(key)/3 == len(p.part.vocs) {
		return taken
	}
	voc := p.part.vocs[len(key)/3]
	for q := pos; q <= len(p.s)+1; q++ {
		before, rest := front+strings.Join(p.s[pos-1:q-1], ""), p.s[q-1:]
		with := func(kind string, k, skip int, put ...string) {
			if skip <= len(rest) {
				taken += r.visit(w, p, key+kind+string([]byte{byte(q), byte(k)}), before+strings.Join(put, ""), q+skip)
			}
		}
		for k, v := range voc {
			with("i", k+1, 0, v)
			with("r", k+1, 1, v)
		}
		if len(rest) > 0 {
			with("e", 0, len(rest))
			with("d", 0, 1)
			with("u", 0, 1, rest[0], rest[0])
		}
		if len(rest) > 1 {
			with("s", 0, 2, rest[1], rest[0])
		}
	}
	return taken
}
