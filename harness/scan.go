package main

import (
	"flag"
	"fmt"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

// Histories of the scanners (spec/Scanner.tla, spec/TokQueue.tla) replayed on
// the real ones.

func init() {
	extra["scanner"] = cmdScanner
	extra["queue"] = cmdQueue
}

func harnessFlags(name string, args []string, more func(*flag.FlagSet)) (*job, string) {
	fs := flag.NewFlagSet(name, flag.ExitOnError)
	in := fs.String("in", "", "output of TLC")
	res := fs.String("res", "", "result file")
	progress := fs.String("progress", "", "progress file")
	known := fs.String("known", "", "keys of known findings")
	if more != nil {
		more(fs)
	}
	check(fs.Parse(args))
	return newJob(*res, *progress, *known, 10*time.Second), *in
}

// try runs f and tells how it panicked, if it did.
func try(f func()) (o outcome) {
	defer func() {
		if p := recover(); p != nil {
			if err, ok := p.(error); ok {
				o.setError(err)
				if o.kind != "error" {
					return
				}
			}
			o.kind, o.msg = "panic", fmt.Sprint(p)
		}
	}()
	f()
	return
}

func cmdScanner(args []string) {
	j, in := harnessFlags("scanner", args, nil)
	var hists, ops int64
	parallelLines(j, in, nil, func(w int, line string) {
		v, err := decodeJSON([]byte(line))
		check(err)
		x := v.([]interface{})
		text := string(runes(x[0]))
		hist := x[1].([]interface{})
		s := lexer.NewScanner(&textReader{s: text}, testURL)
		var done []string
		bad := func(f string, a ...interface{}) {
			j.report(mismatch{
				Key:  "scanner:" + text + ":" + strings.Join(done, ""),
				What: fmt.Sprintf("scanner of %q after %s: %s", text, strings.Join(done, ""), fmt.Sprintf(f, a...)),
				Case: map[string]interface{}{"cmd": "scanner", "text": text, "history": strings.Join(done, ""), "specified": line},
			})
		}
		if n := atomic.AddInt64(&hists, 1); n%20011 == 1 {
			j.sample(map[string]interface{}{"text": text, "history": line})
		}
		for _, h := range hist {
			e := h.([]interface{})
			op := e[0].(string)
			done = append(done, op)
			atomic.AddInt64(&ops, 1)
			var got rune
			var loc ast.Location
			o := try(func() {
				if op == "R" {
					got = s.Read()
				} else {
					s.Unread()
				}
				loc = s.Location()
			})
			if o.kind != "" {
				bad("%s: %s", o.kind, o.msg)
				return
			}
			if op == "R" && got != rune(asInt(e[1])) {
				bad("specified to read %d, but reads %d", asInt(e[1]), got)
				return
			}
			if loc.Row != asInt(e[2]) || loc.Column != asInt(e[3]) || !sameURL(loc.URI) {
				bad("specified to be at %d:%d, but is at %s", asInt(e[2]), asInt(e[3]), loc.String())
				return
			}
		}
	})
	j.count("histories", hists)
	j.finish(nil)
}

func cmdQueue(args []string) {
	j, in := harnessFlags("queue", args, nil)
	texts := map[int][]rune{}
	var hists, ops int64
	parallelLines(j, in, func(x map[string]interface{}) {
		texts[asInt(x["text"])] = runes(x["codes"])
	}, func(w int, line string) {
		v, err := decodeJSON([]byte(line))
		check(err)
		x := v.([]interface{})
		rs := texts[asInt(x[0])]
		text := string(rs)
		hist := x[1].([]interface{})
		s := parser.NewScanner(lexer.NewLexer(lexer.NewScanner(&textReader{s: text}, testURL)))
		var done []string
		bad := func(f string, a ...interface{}) {
			j.report(mismatch{
				Key:  "queue:" + text + ":" + strings.Join(done, ""),
				What: fmt.Sprintf("token scanner of %q after %s: %s", text, strings.Join(done, " "), fmt.Sprintf(f, a...)),
				Case: map[string]interface{}{"cmd": "queue", "text": text, "history": strings.Join(done, " "), "specified": line},
			})
		}
		if n := atomic.AddInt64(&hists, 1); n%20011 == 1 {
			j.sample(map[string]interface{}{"text": text, "history": line})
		}
		for _, h := range hist {
			e := h.([]interface{})
			op := e[0].(string)
			done = append(done, op)
			atomic.AddInt64(&ops, 1)
			var got realTok
			var loc ast.Location
			var n int
			o := try(func() {
				switch op[0] {
				case 'S':
					got.Token = s.Scan()
				case 'P':
					n, err := strconv.Atoi(op[1:])
					check(err)
					got.Token = s.PeekAt(n)
				case 'R':
					re := s.ReScan()
					got = realTok{Token: re.Token, pattern: re.Pattern, flags: re.Flags}
				}
				loc, n = s.Location(), s.PeekLen()
			})
			r := e[1].([]interface{})
			if r[0].(string) == "E" {
				if o.kind != "syntax" {
					bad("specified to be a syntax error, but: %s %s %s", o.kind, o.msg, got.Token)
				}
				return
			}
			if o.kind != "" {
				bad("%s: %s", o.kind, o.msg)
				return
			}
			t := specToks([]interface{}{r})[0]
			src := string(rs[t.st:t.en])
			if t.kind == "None" {
				src = got.Source()
			}
			if "Token"+t.kind != got.Type.String() || got.Source() != src || got.NewLine != t.nl {
				bad("specified to deliver %s %q (line break before: %v), but delivers %s", t.kind, src, t.nl, got.Token)
				return
			}
			if op == "R" {
				pl := asInt(t.extra[0])
				if got.pattern != string(rs[t.st+1:t.st+1+pl]) || got.flags != string(rs[t.st+2+pl:t.en]) {
					bad("pattern %q and flags %q", got.pattern, got.flags)
					return
				}
			}
			if loc.Row != asInt(e[2]) || loc.Column != asInt(e[3]) || !sameURL(loc.URI) {
				bad("specified to be at %d:%d, but is at %s", asInt(e[2]), asInt(e[3]), loc.String())
				return
			}
			if n != asInt(e[4]) {
				bad("specified to be peeked %d ahead, but is %d", asInt(e[4]), n)
				return
			}
		}
	})
	j.count("histories", hists)
	j.count("operations", ops)
	j.finish(nil)
}
