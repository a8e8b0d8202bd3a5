package main

import (
	"bufio"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"sync/atomic"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/errs"
)

// Readers that fail (spec/Fault.tla): after every number of characters, with
// errors of many kinds.

func init() {
	extra["fault"] = cmdFault
	extra["faultwalk"] = cmdFaultWalk
	extra["faultpump"] = cmdFaultPump
}

type listError []int // cannot be compared

func (e listError) Error() string { return "list error" }

type lyingError struct{ n int }

func (e *lyingError) Error() string        { return "EOF" }
func (e *lyingError) Is(target error) bool { return target == e }

type timeoutError struct{ error }

func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

var somewhere = ast.Location{URI: testURL, Row: 77, Column: 88}

// failures are the errors a reader can fail with, none of which is an end of
// file.
var failures = []struct {
	name string
	err  error
}{
	{"a plain error", errors.New("disk on fire")},
	{"io.ErrUnexpectedEOF", io.ErrUnexpectedEOF},
	{"a wrapped error", fmt.Errorf("reading: %w", os.ErrPermission)},
	{"io.ErrNoProgress", io.ErrNoProgress},
	{"an error named EOF", &lyingError{1}},
	{"an error that cannot be compared", listError{1, 2}},
	{"a syntax error", &errs.SyntaxError{Location: somewhere, Err: errors.New("not of this text")}},
	{"an encoding error", &errs.EncodingError{Location: somewhere, Err: errors.New("not of this text")}},
	{"a parser error", &errs.ParserError{Location: somewhere, Err: errors.New("not of this text")}},
	{"joined errors", errors.Join(errors.New("one"), os.ErrClosed)},
	{"io.ErrClosedPipe", io.ErrClosedPipe},
	{"a wrapped io.ErrUnexpectedEOF", &os.PathError{Op: "read", Path: "EOF", Err: io.ErrUnexpectedEOF}},
	{"an error that passes", timeoutError{errors.New("timeout")}},
	{"an error with the text of EOF", errors.New("EOF")},
	{"bufio.ErrInvalidUnreadRune", bufio.ErrInvalidUnreadRune},
	{"a nil pointer", (*nilError)(nil)},
}

type nilError struct{}

func (*nilError) Error() string { return "nil" }

var ends = []struct {
	name string
	err  error
}{
	{"io.EOF", io.EOF},
	{"a wrapped io.EOF", fmt.Errorf("end of the text: %w", io.EOF)},
	{"a path error of io.EOF", &os.PathError{Op: "read", Path: "x", Err: io.EOF}},
	{"twice wrapped io.EOF", fmt.Errorf("a: %w", fmt.Errorf("b: %w", io.EOF))},
}

func sameError(a, b error) bool {
	la, ok := a.(listError)
	if ok {
		lb, ok := b.(listError)
		return ok && len(la) == len(lb) && &la[0] == &lb[0]
	}
	if _, ok := b.(listError); ok {
		return false
	}
	return a == b
}

// faultReader delivers characters and then fails, or fails at one call.
type faultReader struct {
	cs    []rune
	err   error
	at    int // fail instead of delivering cs[at]; -1: at the call
	call  int
	calls int
	pos   int
	last  bool
	max   int
	// The calls that read again what had been read before.
	again []int
	hit   bool
	after int // calls after the failure
	// Refuse to take back the character of a call; the calls of that, with
	// where they were made.
	refuse, unreads int
	backs           []int
}

func (r *faultReader) ReadRune() (rune, int, error) {
	if r.hit {
		r.after++
		return 0, 0, r.err
	}
	r.calls++
	r.last = false
	if r.at >= 0 && r.pos >= r.at || r.at < 0 && r.calls == r.call {
		r.hit = true
		return 0, 0, r.err
	}
	if r.pos >= len(r.cs) {
		return 0, 0, io.EOF
	}
	if r.pos < r.max {
		r.again = append(r.again, r.calls)
	}
	c := r.cs[r.pos]
	r.pos++
	if r.pos > r.max {
		r.max = r.pos
	}
	r.last = true
	return c, len(string(c)), nil
}

func (r *faultReader) UnreadRune() error {
	if !r.last {
		return errors.New("nothing to unread")
	}
	if r.hit {
		r.after++
		return r.err
	}
	r.last = false
	r.unreads++
	r.backs = append(r.backs, r.pos)
	if r.unreads == r.refuse {
		r.hit = true
		return r.err
	}
	r.pos--
	return nil
}

// byteReader delivers bytes and then fails; with the last ones if together.
type byteReader struct {
	b        []byte
	err      error
	together bool
	size     int
	hit      bool
	after    int
}

func (r *byteReader) Read(p []byte) (int, error) {
	if r.hit {
		r.after++
		return 0, r.err
	}
	n := len(p)
	if r.size > 0 && n > r.size {
		n = r.size
	}
	n = copy(p[:n], r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && (r.together || n == 0) {
		r.hit = true
		return n, r.err
	}
	return n, nil
}

type faultRun struct {
	j                                                *job
	failed, ended, rereads, buffered, maybe, refused int64
	few                                              int // of the second readings and refusals of a text, or all
}

// wrong tells what is wrong with the answer to a failure after k characters.
func failureAnswer(o *outcome, err error, row, col int, hit bool, after int) string {
	e, ok := o.err.(*errs.EncodingError)
	switch {
	case !hit:
		return "the parser never asked for more; it says " + o.String()
	case o.kind != "encoding" || !ok:
		return "not an encoding error, but " + o.String()
	case !sameError(e.Err, err) || !sameError(e.Unwrap(), err):
		return fmt.Sprintf("an encoding error that wraps %v (%T)", e.Err, e.Err)
	case o.row != row || o.col != col:
		return fmt.Sprintf("an encoding error at %d:%d", o.row, o.col)
	case !sameURL(o.uri):
		return fmt.Sprintf("an encoding error in %v", o.uri)
	case o.node != nil:
		return "an encoding error and a tree"
	case after > 0:
		return fmt.Sprintf("an encoding error, but %d more reads after the failure", after)
	}
	return ""
}

func (r *faultRun) bad(mode string, cs []rune, k int, what, want, got string) {
	r.j.report(mismatch{
		Key:  fmt.Sprintf("%s:%s:%d:%s", mode, string(cs), k, what),
		What: fmt.Sprintf("%s %q: the reader fails after %d characters with %s; specified: %s; but: %s", mode, string(cs), k, what, want, got),
		Case: map[string]interface{}{"cmd": "fault", "mode": mode, "text": string(cs), "after": k, "error": what, "want": want},
	})
}

// fail lets the reader fail after k characters of a text that some program
// starts with.
func (r *faultRun) fail(w int, mode string, cs []rune, k, row, col, n int) {
	f := failures[n%len(failures)]
	want := fmt.Sprintf("an encoding error at %d:%d that wraps it", row, col)
	r.j.enter(w, "fault", mode, string(cs[:k]))
	rd := &faultReader{cs: cs, at: k, err: f.err}
	o := parseFrom(mode, rd)
	atomic.AddInt64(&r.failed, 1)
	if recorded != nil {
		recorded.see(&o, mode, string(cs))
	}
	if why := failureAnswer(&o, f.err, row, col, rd.hit, rd.after); why != "" {
		r.bad(mode, cs, k, f.name, want, why)
	}
	if n%3 == 0 {
		br := &byteReader{b: []byte(string(cs[:k])), err: f.err, together: n%2 == 0, size: []int{0, 1, 2, 3, 16}[n%5]}
		o := parseFrom(mode, bufio.NewReaderSize(br, []int{16, 17, 4096}[n/2%3]))
		atomic.AddInt64(&r.buffered, 1)
		if why := failureAnswer(&o, f.err, row, col, br.hit, br.after); why != "" {
			r.bad(mode, cs, k, f.name+" (of a buffered reader)", want, why)
		}
	}
	r.j.leave(w)
}

// maybe lets the reader fail after k characters of a text that may be known
// to be wrong by then.
func (r *faultRun) maybeFail(w int, mode string, cs []rune, k, n int) {
	f := failures[n%len(failures)]
	r.j.enter(w, "fault", mode, string(cs[:k]))
	rd := &faultReader{cs: cs, at: k, err: f.err}
	o := parseFrom(mode, rd)
	r.j.leave(w)
	atomic.AddInt64(&r.maybe, 1)
	why := ""
	if rd.hit {
		why = failureAnswer(&o, f.err, o.row, o.col, rd.hit, rd.after)
	} else if o.kind != "syntax" && o.kind != "parser" {
		why = "the reader did not fail, but " + o.String()
	}
	if why != "" {
		r.bad(mode, cs, k, f.name, "an encoding error if the failure is met, else a syntax error", why)
	}
}

// again lets the reader fail when it is asked again for a character that it
// delivered before and that was unread. pos tells the place after k characters.
func (r *faultRun) again(w int, mode string, cs []rune, from int, pos func(k int) (row, col int), n int) {
	probe := &faultReader{cs: cs, at: len(cs), err: io.EOF}
	r.j.enter(w, "fault", mode, string(cs))
	parseFrom(mode, probe)
	for i, c := range probe.again {
		n++
		if r.few > 0 && len(probe.again) > r.few && (i+n)%(len(probe.again)/r.few) != 0 {
			continue
		}
		f := failures[n%len(failures)]
		rd := &faultReader{cs: cs, at: -1, call: c, err: f.err}
		o := parseFrom(mode, rd)
		if !rd.hit || rd.pos < from {
			continue
		}
		row, col := pos(rd.pos)
		atomic.AddInt64(&r.rereads, 1)
		if why := failureAnswer(&o, f.err, row, col, rd.hit, rd.after); why != "" {
			r.bad(mode, cs, rd.pos, fmt.Sprintf("%s at call %d", f.name, c), fmt.Sprintf("an encoding error at %d:%d that wraps it", row, col), why)
		}
	}
	r.j.leave(w)
}

// refuse lets the reader refuse to take back the kth character.
func (r *faultRun) refuse(w int, mode string, cs []rune, k, row, col, n int) {
	probe := &faultReader{cs: cs, at: len(cs), err: io.EOF}
	r.j.enter(w, "fault", mode, string(cs))
	parseFrom(mode, probe)
	for i, at := range probe.backs {
		if at != k && k >= 0 {
			continue
		}
		n++
		if r.few > 0 && len(probe.backs) > r.few && (i+n)%(len(probe.backs)/r.few) != 0 {
			continue
		}
		f := failures[n%len(failures)]
		rd := &faultReader{cs: cs, at: -1, err: f.err, refuse: i + 1}
		o := parseFrom(mode, rd)
		if k < 0 {
			row, col = position(string(cs), len(string(cs[:at])))
		}
		atomic.AddInt64(&r.refused, 1)
		why := ""
		inner := errors.Unwrap(o.err)
		switch {
		case !rd.hit:
			why = "it did not ask again; it says " + o.String()
		case o.kind != "encoding" && o.kind != "parser":
			why = "not an error that wraps it, but " + o.String()
		case !sameError(inner, f.err):
			why = fmt.Sprintf("an error that wraps %v (%T)", inner, inner)
		case o.row != row || o.col != col || !sameURL(o.uri):
			why = fmt.Sprintf("an error at %d:%d in %v", o.row, o.col, o.uri)
		case o.node != nil:
			why = "an error and a tree"
		case rd.after > 0:
			why = fmt.Sprintf("an error, but %d more calls after the refusal", rd.after)
		}
		if why != "" {
			r.bad(mode, cs, at, f.name+" when the last one is given back", fmt.Sprintf("an error at %d:%d that wraps it", row, col), why)
		}
	}
	r.j.leave(w)
}

// end lets the text end in other ways.
func (r *faultRun) end(w int, mode string, cs []rune, v byte, tree string, n int) {
	e := ends[n%len(ends)]
	r.j.enter(w, "fault", mode, string(cs))
	rd := &faultReader{cs: cs, at: len(cs), err: e.err}
	o := parseFrom(mode, rd)
	r.j.leave(w)
	if recorded != nil {
		recorded.see(&o, mode, string(cs))
	}
	atomic.AddInt64(&r.ended, 1)
	switch {
	case rd.after > 0:
		r.bad(mode, cs, len(cs), e.name, "nothing asked of the reader after the end", fmt.Sprintf("%d calls", rd.after))
	case v == 'A' && (o.kind != "accept" || o.masked() != tree):
		r.bad(mode, cs, len(cs), e.name, "accepted as "+tree, o.String())
	case v == 'R' && o.kind != "syntax":
		r.bad(mode, cs, len(cs), e.name, "rejected with a syntax error", o.String())
	case v == 'V' && !o.declared():
		r.bad(mode, cs, len(cs), e.name, "a tree or a declared error", o.String())
	}
}

type faultNode struct {
	from   int      // the number of characters of the first place
	places [][3]int // the places after from, from + 1, … characters; and 1 if the text may be known to be wrong there
	refuse [3]int   // the number of characters, and the place after them
	v      byte
	tree   string
}

func cmdFault(args []string) {
	j, in := harnessFlags("fault", args, nil)
	frames := map[int]*enumFrame{}
	nodes := map[int]map[string]*faultNode{}
	tlcLines(in, func(v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			if _, ok := x["frame"]; ok {
				i := asInt(x["frame"])
				frames[i] = &enumFrame{name: x["name"].(string), mode: x["mode"].(string), pre: asTexts(x["pre"]), al: asTexts(x["al"]), n: asInt(x["n"])}
				nodes[i] = map[string]*faultNode{}
			}
		case []interface{}:
			ns := nodes[asInt(x[0])]
			var key []byte
			for _, p := range x[1].([]interface{}) {
				key = append(key, byte(asInt(p)))
			}
			n := ns[string(key)]
			if n == nil {
				n = &faultNode{}
				ns[string(key)] = n
			}
			switch kind := x[2].(string); kind {
			case "X":
				n.refuse = [3]int{asInt(x[3]), asInt(x[4]), asInt(x[5])}
			case "F", "G":
				k := asInt(x[3])
				if n.places == nil {
					n.from = k
				}
				for k < n.from {
					n.from--
					n.places = append([][3]int{{}}, n.places...)
				}
				for k >= n.from+len(n.places) {
					n.places = append(n.places, [3]int{})
				}
				n.places[k-n.from] = [3]int{asInt(x[4]), asInt(x[5]), int(kind[0] - 'F')}
			default:
				n.v = kind[0]
				if kind == "A" {
					w := &strings.Builder{}
					project(w, x[3])
					n.tree = w.String()
				}
			}
		}
	})
	type item struct {
		frame int
		key   string
	}
	var items []item
	for i := range nodes {
		for k := range nodes[i] {
			items = append(items, item{i, k})
		}
	}
	r := &faultRun{j: j}
	j.parallel(len(items), func(w, i int) {
		it := items[i]
		fr, n := frames[it.frame], nodes[it.frame][it.key]
		text := strings.Join(fr.pre, "")
		h := 17
		for _, c := range []byte(it.key) {
			text += fr.al[c-1]
			h = h*31 + int(c)
		}
		cs := []rune(text)
		if x := n.refuse; x[0] > 0 {
			r.refuse(w, fr.mode, cs, x[0], x[1], x[2], h)
		}
		if n.places == nil {
			r.maybeFail(w, fr.mode, cs, len(cs), h)
			return
		}
		for k, p := range n.places {
			if p[0] == 0 {
				check(fmt.Errorf("%q: no place after %d characters", text, n.from+k))
			}
			if p[2] == 1 {
				r.maybeFail(w, fr.mode, cs, n.from+k, h)
				continue
			}
			r.fail(w, fr.mode, cs, n.from+k, p[0], p[1], h+k)
		}
		r.end(w, fr.mode, cs, n.v, n.tree, h)
		r.again(w, fr.mode, cs, n.from-1, func(k int) (int, int) {
			for key := it.key; ; key = key[:len(key)-1] {
				m := nodes[it.frame][key]
				if k >= m.from {
					return m.places[k-m.from][0], m.places[k-m.from][1]
				}
			}
		}, h)
		for s, al := range fr.al {
			if len(it.key) < fr.n && nodes[it.frame][it.key+string([]byte{byte(s + 1)})] == nil {
				a := append(append([]rune{}, cs...), []rune(al)...)
				r.maybeFail(w, fr.mode, a, len(a), h+s)
			}
		}
		if h%997 == 1 {
			j.sample(map[string]interface{}{"mode": fr.mode, "text": text, "fails after": n.from, "position": n.places[0]})
		}
	})
	r.finish()
}

func (r *faultRun) finish() {
	r.j.count("failures", r.failed)
	r.j.count("failures of buffered readers", r.buffered)
	r.j.count("failures of a second reading", r.rereads)
	r.j.count("characters not taken back", r.refused)
	r.j.count("failures that may go unnoticed", r.maybe)
	r.j.count("ends", r.ended)
	r.j.finish(nil)
}

// cmdFaultWalk lets the reader fail after every character of random programs.
func cmdFaultWalk(args []string) {
	var seed *int64
	j, in := harnessFlags("faultwalk", args, func(fs *flag.FlagSet) { seed = fs.Int64("seed", 1, "") })
	cases := loadWalks(strings.Split(in, ","))
	r := &faultRun{j: j}
	j.parallel(len(cases), func(w, i int) {
		c := &cases[i]
		if c.tree == "" {
			return
		}
		rnd := rand.New(rand.NewSource(*seed*7919 + int64(i)))
		text, _, _ := layout(c.toks, false)
		if len(text) > 1500 {
			return
		}
		cs := []rune(text)
		place := func(k int) (int, int) { return position(text, len(string(cs[:k]))) }
		step := 1
		if len(cs) > 150 {
			step = len(cs) / 150
		}
		for k := rnd.Intn(step); k <= len(cs); k += 1 + rnd.Intn(2*step-1) {
			row, col := place(k)
			r.fail(w, c.mode, cs, k, row, col, rnd.Intn(1000))
		}
		if len(cs) < 300 {
			r.again(w, c.mode, cs, 0, place, rnd.Intn(1000))
			r.refuse(w, c.mode, cs, -1, 0, 0, rnd.Intn(1000))
		}
		r.end(w, c.mode, cs, 'A', c.tree, rnd.Intn(100))
	})
	r.finish()
}

// cmdFaultPump lets the reader fail within long texts: what the specification
// accepts for any number of repetitions cannot be known to be wrong before its
// end, so that the failure must be told.
func cmdFaultPump(args []string) {
	var seed *int64
	j, in := harnessFlags("faultpump", args, func(fs *flag.FlagSet) { seed = fs.Int64("seed", 1, "") })
	pumps := loadPumps(in)
	if len(pumps) == 0 {
		check(io.ErrUnexpectedEOF)
	}
	r := &faultRun{j: j, few: 4}
	var texts int64
	j.parallel(len(pumps), func(w, i int) {
		p := pumps[i]
		if p.v != "accept" {
			return
		}
		rnd := rand.New(rand.NewSource(*seed*7919 + int64(i)))
		for _, n := range []int{20, 250, 1000 + rnd.Intn(1000), 30000} {
			text := p.text(n)
			if o := j.parse(w, p.Mode, text); n > 300 && o.kind == "parser" {
				break // too deep
			}
			cs := []rune(text)
			at := make([]int, len(cs)+1) // bytes in front
			for k, c := range cs {
				at[k+1] = at[k] + len(string(c))
			}
			place := func(k int) (int, int) { return position(text, at[k]) }
			ks := []int{0, len(cs), len(cs) - 1, len(cs) / 2, 4096, 4095, 4097, 65535, 65536}
			for k := 0; k < 12; k++ {
				ks = append(ks, rnd.Intn(len(cs)+1))
			}
			for _, k := range ks {
				if k < 0 || k > len(cs) {
					continue
				}
				row, col := place(k)
				r.fail(w, p.Mode, cs, k, row, col, rnd.Intn(1000))
			}
			if n < 10000 {
				r.again(w, p.Mode, cs, 0, place, rnd.Intn(1000))
				r.refuse(w, p.Mode, cs, -1, 0, 0, rnd.Intn(1000))
			}
			atomic.AddInt64(&texts, 1)
		}
	})
	j.count("long texts", texts)
	r.finish()
}
