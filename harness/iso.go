package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing/iotest"
	"time"
)

// Parsers that run in turns, and histories of parses (spec/Isolation.tla).

func init() {
	extra["iso"] = cmdIso
	extra["isowalk"] = cmdIsoWalk
	extra["isopump"] = cmdIsoPump
	extra["together"] = cmdTogether
	extra["answer"] = cmdAnswer
}

// answer is all that can be seen of an outcome.
func (o *outcome) answer() string {
	switch o.kind {
	case "accept":
		b, err := o.estree()
		if err != nil {
			return "accepted, but: " + err.Error()
		}
		return "accepted as " + string(b)
	default:
		return fmt.Sprintf("%s error at %d:%d in %v (tree: %v): %s", o.kind, o.row, o.col, o.uri, o.node != nil, o.msg)
	}
}

// cmdAnswer is the answer of a process that does nothing else.
func cmdAnswer(args []string) {
	b, err := io.ReadAll(os.Stdin)
	check(err)
	o := parseText(args[0], string(b))
	fmt.Print(o.answer())
}

func ask(mode, text string) string {
	self, err := os.Executable()
	check(err)
	c := exec.Command(self, "answer", mode)
	c.Stdin = strings.NewReader(text)
	c.Env = append(os.Environ(), "GORACE=log_path=/dev/null")
	b, err := c.Output()
	if err != nil {
		return "the process fails: " + err.Error()
	}
	return string(b)
}

type isoText struct {
	mode, text string
	v          string // accept, reject, unspec
	tree       string
	alone      string
}

// mismatch tells whether an outcome is not the one that is specified.
func (t *isoText) wrong(o *outcome) string {
	switch {
	case t.v == "accept" && (o.kind != "accept" || o.masked() != t.tree):
		return "accepted as " + t.tree
	case t.v == "reject" && o.kind != "syntax":
		return "rejected with a syntax error"
	case t.v == "unspec" && !o.declared():
		return "a tree or a declared error"
	}
	return ""
}

// A gate is a reader that waits for its turn at each call.
type gate struct {
	r      *textReader
	turn   chan struct{}
	arrive chan bool // true: at the gate, false: the parser is done
	calls  int
}

func (g *gate) ReadRune() (rune, int, error) {
	g.arrive <- true
	<-g.turn
	g.calls++
	return g.r.ReadRune()
}

func (g *gate) UnreadRune() error { return g.r.UnreadRune() }

type isoParser struct {
	t    *isoText
	g    *gate
	o    outcome
	done bool
}

func startParser(t *isoText) *isoParser {
	p := &isoParser{t: t, g: &gate{r: &textReader{s: t.text}, turn: make(chan struct{}), arrive: make(chan bool)}}
	go func() {
		p.o = parseFrom(t.mode, p.g)
		p.g.arrive <- false
	}()
	p.done = !<-p.g.arrive
	return p
}

// run lets the parser make n calls, or all.
func (p *isoParser) run(n int) {
	for k := 0; !p.done && (n == 0 || k < n); k++ {
		p.g.turn <- struct{}{}
		p.done = !<-p.g.arrive
	}
}

func cmdIso(args []string) {
	j, in := harnessFlags("iso", args, nil)
	var texts []*isoText
	var mu sync.Mutex
	prepared := false
	prepare := func() {
		mu.Lock()
		defer mu.Unlock()
		if prepared {
			return
		}
		prepared = true
		for i := len(texts) - 1; i >= 0; i-- { // not in the order of the histories
			t := texts[i]
			t.alone = ask(t.mode, t.text)
			o := parseText(t.mode, t.text)
			if want := t.wrong(&o); want != "" {
				j.report(mismatch{Key: t.mode + ":" + t.text, What: fmt.Sprintf("%s %q: specified: %s; but: %s", t.mode, t.text, want, o.String()),
					Case: map[string]interface{}{"cmd": "iso", "mode": t.mode, "text": t.text}})
			}
			if o.answer() != t.alone {
				j.report(mismatch{Key: t.mode + ":" + t.text, What: fmt.Sprintf("%s %q: alone: %s; after other texts: %s", t.mode, t.text, t.alone, o.answer()),
					Case: map[string]interface{}{"cmd": "iso", "mode": t.mode, "text": t.text}})
			}
		}
		if len(texts) == 0 {
			check(errors.New("no texts"))
		}
	}
	var schedules, parses, calls int64
	parallelLines(j, in, func(x map[string]interface{}) {
		if _, ok := x["text"]; !ok {
			return
		}
		w := &strings.Builder{}
		project(w, x["tree"])
		texts = append(texts, &isoText{mode: x["mode"].(string), text: string(runes(x["s"])), v: x["v"].(string), tree: w.String()})
	}, func(w int, line string) {
		prepare()
		v, err := decodeJSON([]byte(line))
		check(err)
		x := v.([]interface{})
		group, runs := x[0].([]interface{}), x[1].([]interface{})
		var ps []*isoParser
		for _, g := range group {
			ps = append(ps, startParser(texts[asInt(g)-1]))
		}
		for _, r := range runs {
			pair := r.([]interface{})
			ps[asInt(pair[0])-1].run(asInt(pair[1]))
		}
		for _, p := range ps {
			p.run(0)
		}
		for k, p := range ps {
			atomic.AddInt64(&parses, 1)
			atomic.AddInt64(&calls, int64(p.g.calls))
			if got := p.o.answer(); got != p.t.alone {
				var all []string
				for _, q := range ps {
					all = append(all, fmt.Sprintf("%s %q", q.t.mode, q.t.text))
				}
				j.report(mismatch{
					Key:  "iso:" + line,
					What: fmt.Sprintf("%s parsed in turns (parser, calls of its reader until another goes on; 0: to the end): %v: number %d, alone: %s; but: %s", strings.Join(all, " and "), runs, k+1, p.t.alone, got),
					Case: map[string]interface{}{"cmd": "iso", "texts": all, "schedule": runs},
				})
			}
		}
		if n := atomic.AddInt64(&schedules, 1); n%5003 == 1 {
			j.sample(map[string]interface{}{"texts": ps[0].t.text + " | " + ps[len(ps)-1].t.text, "schedule": line})
		}
	})
	if !prepared {
		check(errors.New("no schedules"))
	}
	j.count("schedules", schedules)
	j.count("parses", parses)
	j.count("reader calls", calls)
	j.finish(nil)
}

// chunkReader delivers some bytes at a time, and sometimes none.
type chunkReader struct {
	b   []byte
	rnd *rand.Rand
	max int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.rnd.Intn(r.max + 1)
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && r.rnd.Intn(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// forgetful can unread only directly after a read, and only once; in between
// it says a character is larger than it is.
type forgetful struct{ *textReader }

func (f forgetful) ReadRune() (rune, int, error) {
	c, n, err := f.textReader.ReadRune()
	if err != nil {
		return 'x', 1, err // what comes with an error means nothing
	}
	return c, n, err
}

var readers = []struct {
	name string
	make func(text string, rnd *rand.Rand) io.RuneScanner
}{
	{"strings.Reader", func(s string, _ *rand.Rand) io.RuneScanner { return strings.NewReader(s) }},
	{"bytes.Reader", func(s string, _ *rand.Rand) io.RuneScanner { return bytes.NewReader([]byte(s)) }},
	{"bytes.Buffer", func(s string, _ *rand.Rand) io.RuneScanner { return bytes.NewBufferString(s) }},
	{"bufio.Reader", func(s string, _ *rand.Rand) io.RuneScanner { return bufio.NewReader(strings.NewReader(s)) }},
	{"small bufio.Reader", func(s string, _ *rand.Rand) io.RuneScanner {
		return bufio.NewReaderSize(struct{ io.Reader }{strings.NewReader(s)}, 16)
	}},
	{"bufio.Reader of single bytes", func(s string, _ *rand.Rand) io.RuneScanner {
		return bufio.NewReaderSize(iotest.OneByteReader(strings.NewReader(s)), 17)
	}},
	{"bufio.Reader of halves", func(s string, _ *rand.Rand) io.RuneScanner {
		return bufio.NewReaderSize(iotest.HalfReader(strings.NewReader(s)), 64)
	}},
	{"bufio.Reader of data with the end", func(s string, _ *rand.Rand) io.RuneScanner {
		return bufio.NewReaderSize(iotest.DataErrReader(strings.NewReader(s)), 32)
	}},
	{"bufio.Reader of chunks", func(s string, rnd *rand.Rand) io.RuneScanner {
		return bufio.NewReaderSize(&chunkReader{[]byte(s), rnd, 1 + rnd.Intn(9)}, 16+rnd.Intn(20))
	}},
	{"bufio.ReadWriter", func(s string, _ *rand.Rand) io.RuneScanner {
		return bufio.NewReadWriter(bufio.NewReader(strings.NewReader(s)), bufio.NewWriter(io.Discard))
	}},
	{"a reader with values beside errors", func(s string, _ *rand.Rand) io.RuneScanner { return forgetful{&textReader{s: s}} }},
	{"strings.Reader in the middle", func(s string, _ *rand.Rand) io.RuneScanner {
		r := strings.NewReader("a /*" + s)
		_, err := r.Seek(4, io.SeekStart)
		check(err)
		return r
	}},
}

// cmdIsoWalk parses random programs from readers of every kind, in one
// process, and looks at the trees again when all is done.
func cmdIsoWalk(args []string) {
	var seed *int64
	j, in := harnessFlags("isowalk", args, func(fs *flag.FlagSet) { seed = fs.Int64("seed", 1, "") })
	cases := loadWalks(strings.Split(in, ","))
	var programs, beginnings, again int64
	type kept struct {
		text, answer string
		o            outcome
	}
	keep := make([]kept, len(cases))
	j.parallel(len(cases), func(w, i int) {
		c := &cases[i]
		rnd := rand.New(rand.NewSource(*seed*104729 + int64(i)))
		gap := []string{" ", " ", "\u00a0", "\u3000", " /*\U0001f600é*/ "}[rnd.Intn(5)]
		text := ""
		for _, t := range c.toks {
			if text != "" && !strings.HasPrefix(t, "\n") {
				text += gap
			}
			text += t
		}
		for k := 0; k < len(readers); k++ {
			rd := &readers[k]
			t := text
			part := k%4 == 3 && c.tree == ""
			if part {
				t = text[:rnd.Intn(len(text)+1)] // maybe not at the end of a character
			}
			j.enter(w, "parse", c.mode, t)
			base := parseText(c.mode, t)
			o := parseFrom(c.mode, rd.make(t, rnd))
			j.leave(w)
			if c.tree != "" && o.kind == "accept" && o.tree() != c.tree || c.tree != "" && o.kind != "accept" {
				j.report(mismatch{Key: c.mode + ":" + t, What: fmt.Sprintf("%s %q from %s: specified: accepted as %s; but: %s", c.mode, t, rd.name, c.tree, o.String()),
					Case: map[string]interface{}{"cmd": "isowalk", "mode": c.mode, "text": t, "reader": rd.name}})
			}
			if a, b := base.answer(), o.answer(); a != b {
				j.report(mismatch{Key: c.mode + ":" + t, What: fmt.Sprintf("%s %q: %s; but from %s: %s", c.mode, t, a, rd.name, b),
					Case: map[string]interface{}{"cmd": "isowalk", "mode": c.mode, "text": t, "reader": rd.name}})
			}
			if c.tree != "" {
				atomic.AddInt64(&programs, 1)
				if rd.name == "bytes.Buffer" {
					keep[i] = kept{t, o.answer(), o}
				}
			} else {
				atomic.AddInt64(&beginnings, 1)
			}
		}
	})
	runtime.GC()
	for i := range keep {
		if keep[i].answer == "" {
			continue
		}
		again++
		if a := keep[i].o.answer(); a != keep[i].answer {
			j.report(mismatch{Key: cases[i].mode + ":" + keep[i].text, What: fmt.Sprintf("%s %q: %s; but when other texts had been parsed, the same tree: %s", cases[i].mode, keep[i].text, keep[i].answer, a),
				Case: map[string]interface{}{"cmd": "isowalk", "mode": cases[i].mode, "text": keep[i].text}})
		}
	}
	j.count("programs", programs)
	j.count("beginnings", beginnings)
	j.count("trees looked at again", again)
	j.finish(nil)
}

// cmdTogether parses and converts on all processors at the same time; it is
// built with the race detector, which ends it with status 66.
func cmdTogether(args []string) {
	var seed *int64
	j, in := harnessFlags("together", args, func(fs *flag.FlagSet) { seed = fs.Int64("seed", 1, "") })
	cases := loadWalks(strings.Split(in, ","))
	var parses, conversions int64
	j.parallel(len(cases)*2, func(w, i int) {
		c := &cases[(i*7+int(*seed))%len(cases)]
		text, _, _ := layout(c.toks, false)
		j.enter(w, "parse", c.mode, text)
		o := parseFrom(c.mode, strings.NewReader(text))
		if c.tree != "" {
			if o.kind != "accept" {
				j.report(mismatch{Key: c.mode + ":" + text, What: fmt.Sprintf("%s %q: specified: accepted as %s; but: %s", c.mode, text, c.tree, o.String()),
					Case: map[string]interface{}{"cmd": "together", "mode": c.mode, "text": text}})
				return
			}
			var wg sync.WaitGroup
			trees := make([]string, 3)
			for k := range trees {
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					b, err := json.Marshal(o.node.ESTree())
					if err != nil {
						b = []byte(err.Error())
					}
					trees[k] = string(b)
				}()
			}
			wg.Wait()
			for k := range trees {
				atomic.AddInt64(&conversions, 1)
				if trees[k] != trees[0] || k == 0 && o.tree() != c.tree {
					j.report(mismatch{Key: c.mode + ":" + text, What: fmt.Sprintf("%s %q: specified: %s; converted three times at the same time: %q", c.mode, text, c.tree, trees),
						Case: map[string]interface{}{"cmd": "together", "mode": c.mode, "text": text}})
				}
			}
		}
		j.leave(w)
		atomic.AddInt64(&parses, 1)
	})
	j.count("parses", parses)
	j.count("conversions", conversions)
	j.finish(nil)
}

// cmdIsoPump parses short texts of which the specification has the answers,
// after and while long ones are parsed.
func cmdIsoPump(args []string) {
	var seed *int64
	j, in := harnessFlags("isopump", args, func(fs *flag.FlagSet) { seed = fs.Int64("seed", 1, "") })
	j.limit = 60 * time.Second
	pumps := loadPumps(in)
	if len(pumps) == 0 {
		check(io.ErrUnexpectedEOF)
	}
	var long, short int64
	j.parallel(len(pumps), func(w, i int) {
		rnd := rand.New(rand.NewSource(*seed*7919 + int64(i)))
		p := pumps[i]
		after := ""
		look := func(q *pump, n int) {
			text := q.text(n)
			o := j.parse(w, q.Mode, text)
			atomic.AddInt64(&short, 1)
			ok := false
			switch q.vs[n-1] {
			case "accept":
				ok = o.kind == "accept" && o.masked() == q.trees[n-1]
			case "reject":
				ok = o.kind == "syntax"
			default:
				ok = o.declared()
			}
			if !ok {
				j.report(mismatch{Key: fmt.Sprintf("isopump %s n=%d", q, n),
					What: fmt.Sprintf("%s %q%s: specified: %s %s; but: %.1000s", q.Mode, text, after, q.vs[n-1], q.trees[n-1], o.String()),
					Case: map[string]interface{}{"cmd": "parse", "mode": q.Mode, "text": text}})
			}
		}
		for k, n := range []int{17, 300 + rnd.Intn(100), 3000 + rnd.Intn(3000)} {
			text := p.text(n)
			if k == 1 { // left in the middle
				text = text[:rnd.Intn(len(text)+1)]
			}
			first := j.parse(w, p.Mode, text).kind
			atomic.AddInt64(&long, 1)
			after = fmt.Sprintf(" (after %s with n = %d)", p, n)
			for c := 0; c < 12; c++ {
				q := pumps[(i+rnd.Intn(len(pumps)))%len(pumps)]
				if c == 0 {
					q = p
				}
				look(q, 1+rnd.Intn(len(q.vs)))
			}
			if again := j.parse(w, p.Mode, text).kind; again != first {
				j.report(mismatch{Key: fmt.Sprintf("isopump %s n=%d", p, n), What: fmt.Sprintf("%s with n = %d: first %s, the second time %s", p, n, first, again),
					Case: map[string]interface{}{"cmd": "parse", "mode": p.Mode, "text": text}})
			}
		}
	})
	j.count("long texts", long)
	j.count("short texts after and beside them", short)
	j.finish(nil)
}
