package main

import (
	"flag"
	"fmt"
	"sync/atomic"
	"time"
)

// spec/UniEnum.tla against the lexer: every code point in every kind of place.

func init() { extra["uni"] = cmdUni }

func cmdUni(args []string) {
	fs := flag.NewFlagSet("uni", flag.ExitOnError)
	in := fs.String("in", "", "output of TLC")
	res := fs.String("res", "", "result file")
	progress := fs.String("progress", "", "progress file")
	known := fs.String("known", "", "keys of known findings")
	check(fs.Parse(args))
	j := newJob(*res, *progress, *known, 10*time.Second)
	type interval struct {
		pre, suf []rune
		lo, hi   rune
		c        lexCase
	}
	var items []interval
	tlcLines(*in, func(v interface{}) {
		x := v.([]interface{})
		it := interval{pre: runes(x[0]), suf: runes(x[1]), lo: rune(asInt(x[2])), hi: rune(asInt(x[3]))}
		it.c = lexCase{v: x[5].(string)[0], toks: specToks(x[7])}
		if x[4].(bool) {
			it.c.mode = "re"
		}
		if it.c.v == 'E' {
			for i, p := range x[6].([]interface{}) {
				it.c.loc[i] = asInt(p)
			}
		}
		// Pieces of at most 4096, so that they can be shared out.
		for lo := it.lo; lo <= it.hi; lo += 4096 {
			p := it
			p.lo = lo
			if p.hi > lo+4095 {
				p.hi = lo + 4095
			}
			items = append(items, p)
		}
	})
	var cases, unspec int64
	j.parallel(len(items), func(w, i int) {
		it := items[i]
		for r := it.lo; r <= it.hi && !j.full(); r++ {
			if r >= 0xd800 && r < 0xe000 {
				continue // has no UTF-8 form
			}
			c := it.c
			c.text = string(it.pre) + string(r) + string(it.suf)
			j.enter(w, "lex", c.mode, c.text)
			toks, o := lexText(c.text, c.mode == "re")
			j.leave(w)
			if c.v == 'U' {
				atomic.AddInt64(&unspec, 1)
			} else {
				atomic.AddInt64(&cases, 1)
			}
			if what := compareLex(&c, toks, &o); what != "" {
				j.report(mismatch{
					Key:  "lex:" + c.mode + ":" + c.text,
					What: fmt.Sprintf("%q: %s", c.text, what),
					Case: map[string]interface{}{"cmd": "lex", "mode": c.mode, "text": c.text},
				})
			}
		}
	})
	j.count("code points placed", cases)
	j.count("unspecified", unspec)
	j.count("intervals", int64(len(items)))
	j.finish(nil)
}
