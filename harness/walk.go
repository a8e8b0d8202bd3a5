package main

import (
	"flag"
	"fmt"
	"math/rand"
	"strings"
	"sync/atomic"
	"time"
)

// The random programs of spec/ParserSim.tla against the parser: the program,
// all its beginnings, the program with a token put in or replaced by one that
// no program can have there, and the program with other gaps between its
// tokens.

func init() { extra["walk"] = cmdWalk }

type walkCase struct {
	mode string
	pre  int
	toks []string
	dead [][]string // for each token after pre: what could not have stood there
	ends []byte     // a, r, u: what the beginning that ends with this token is
	tree string     // "" if the program was not finished
}

func loadWalks(files []string) []walkCase {
	var out []walkCase
	for _, file := range files {
		tlcLines(file, func(v interface{}) {
			x, ok := v.([]interface{})
			if !ok || len(x) != 6 {
				return
			}
			c := walkCase{mode: x[0].(string), pre: asInt(x[1]), toks: asTexts(x[2])}
			for _, d := range x[3].([]interface{}) {
				c.dead = append(c.dead, asTexts(d))
			}
			for _, e := range x[4].([]interface{}) {
				c.ends = append(c.ends, e.(string)[0])
			}
			if l, ok := x[5].([]interface{}); ok && len(l) > 0 {
				w := &strings.Builder{}
				project(w, x[5])
				c.tree = w.String()
			}
			out = append(out, c)
		})
	}
	return out
}

// Gaps without and with a line break. The first character keeps a slash from
// being read with the token before, the last a comment from swallowing the
// next one.
var plainGaps = []string{" ", "\t", "\v", "\f", "\u00a0", "\ufeff", "\u3000", " /**/ ", " /*x*/ ", "\t/***/\t", " /* / ** */ ", " /*/*/ ", "  ", " /*'*/ /*\"*/ "}
var breakGaps = []string{"\n", "\r", "\r\n", "\u2028", "\u2029", " //\n", " // x\r", "\n//*/\n", " /*\n*/ ", " /**\r**/ ", " /*\u2028*/ ", "\t//\u2029", " /* */ //'\r\n ", "\r /**/ ", " /*\n*/ /**/ ", "\n\n\r\r\n"}

func isSep(t string) bool { return t != "" && strings.Contains("()[]{},;", t) }

// render writes tokens with gaps picked at random. It also tells where the
// last two of the first n end.
func render(rnd *rand.Rand, toks []string) string {
	b := strings.Builder{}
	for i, t := range toks {
		nl := strings.HasPrefix(t, "\n")
		t = strings.TrimPrefix(t, "\n")
		switch {
		case nl:
			b.WriteString(breakGaps[rnd.Intn(len(breakGaps))])
			if rnd.Intn(4) == 0 {
				b.WriteString(plainGaps[rnd.Intn(len(plainGaps))])
			}
		case i > 0 && (isSep(t) || isSep(strings.TrimPrefix(toks[i-1], "\n"))) && rnd.Intn(2) == 0:
		default:
			b.WriteString(plainGaps[rnd.Intn(len(plainGaps))])
			if rnd.Intn(4) == 0 {
				b.WriteString(plainGaps[rnd.Intn(len(plainGaps))])
			}
		}
		b.WriteString(t)
	}
	switch rnd.Intn(3) {
	case 0:
		b.WriteString(plainGaps[rnd.Intn(len(plainGaps))])
	case 1:
		b.WriteString(breakGaps[rnd.Intn(len(breakGaps))])
	}
	return b.String()
}

func cmdWalk(args []string) {
	fs := flag.NewFlagSet("walk", flag.ExitOnError)
	in := fs.String("in", "", "outputs of TLC, separated by commas")
	res := fs.String("res", "", "result file")
	progress := fs.String("progress", "", "progress file")
	known := fs.String("known", "", "keys of known findings")
	loc := fs.Bool("loc", false, "also compare the locations of errors")
	gaps := fs.Int("gaps", 1, "how many other ways of filling the gaps to try")
	only := fs.Bool("onlygaps", false, "only the gaps")
	seed := fs.Int64("seed", 1, "for the gaps")
	check(fs.Parse(args))
	cases := loadWalks(strings.Split(*in, ","))
	j := newJob(*res, *progress, *known, 10*time.Second)
	var progs, prefixes, dead, gapped, locs, tokens int64
	j.parallel(len(cases), func(w, i int) {
		c := &cases[i]
		rnd := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
		bad := func(text, want string, o *outcome) {
			j.report(mismatch{
				Key:  c.mode + ":" + text,
				What: fmt.Sprintf("%s %q: specified: %s; but: %s", c.mode, text, want, o.String()),
				Case: map[string]interface{}{"cmd": "walk", "mode": c.mode, "text": text, "want": want},
			})
		}
		rejected := func(text string, o *outcome) {
			if o.kind != "syntax" {
				bad(text, "rejected with a syntax error", o)
			}
		}
		accepted := func(text string, o *outcome) {
			if o.kind != "accept" || o.tree() != c.tree {
				bad(text, "accepted as "+c.tree, o)
			}
		}
		atomic.AddInt64(&tokens, int64(len(c.toks)))
		if c.tree != "" && !*only {
			text, _, _ := layout(c.toks, false)
			o := j.parse(w, c.mode, text)
			accepted(text, &o)
			if n := atomic.AddInt64(&progs, 1); n%97 == 1 {
				j.sample(map[string]interface{}{"mode": c.mode, "text": text, "specified": "accept"})
			}
		}
		if c.tree != "" {
			for k := 0; k < *gaps; k++ {
				text := render(rnd, c.toks)
				o := j.parse(w, c.mode, text)
				accepted(text, &o)
				if n := atomic.AddInt64(&gapped, 1); n%197 == 1 {
					j.sample(map[string]interface{}{"mode": c.mode, "text": text, "specified": "accept"})
				}
			}
		}
		for k := c.pre; k < len(c.toks); k++ {
			front := c.toks[:k+1]
			if e := c.ends[k-c.pre]; e != 'u' && !*only {
				text, _, _ := layout(front, false)
				text += " "
				o := j.parse(w, c.mode, text)
				atomic.AddInt64(&prefixes, 1)
				if e == 'r' {
					rejected(text, &o)
				} else if o.kind != "accept" {
					bad(text, "accepted", &o)
				}
			}
			for _, d := range c.dead[k-c.pre] {
				sure := !strings.HasPrefix(d, "@")
				if !sure {
					d = d[1:]
				}
				alt := append(append([]string{}, c.toks[:k]...), d)
				_, prevEnd, end := layout(alt, false)
				switch rnd.Intn(3) { // nothing, the rest, or the rest without this token behind it
				case 0:
					alt = append(alt, c.toks[k:]...)
				case 1:
					alt = append(alt, c.toks[k+1:]...)
				}
				var text string
				if *only || rnd.Intn(8) == 0 {
					if rnd.Intn(4) > 0 {
						continue
					}
					text = render(rnd, alt)
					o := j.parse(w, c.mode, text)
					atomic.AddInt64(&gapped, 1)
					rejected(text, &o)
					continue
				}
				text, _, _ = layout(alt, false)
				text += " "
				o := j.parse(w, c.mode, text)
				if n := atomic.AddInt64(&dead, 1); n%5003 == 1 {
					j.sample(map[string]interface{}{"mode": c.mode, "text": text, "specified": "reject", "error": o.msg})
				}
				rejected(text, &o)
				if *loc && sure && o.kind == "syntax" {
					atomic.AddInt64(&locs, 1)
					r1, c1 := position(text, prevEnd)
					r2, c2 := position(text, end)
					if o.row < r1 || o.row == r1 && o.col < c1 || o.row > r2 || o.row == r2 && o.col > c2 || !sameURL(o.uri) {
						bad(text, fmt.Sprintf("rejected at a location between %d:%d and %d:%d", r1, c1, r2, c2), &o)
					}
				}
			}
		}
	})
	longest := 0
	for i := range cases {
		if len(cases[i].toks) > longest {
			longest = len(cases[i].toks)
		}
	}
	j.count("walks", int64(len(cases)))
	j.count("programs", progs)
	j.count("beginnings", prefixes)
	j.count("impossible", dead)
	j.count("gapped", gapped)
	j.count("locations", locs)
	j.count("walk_tokens", tokens)
	j.finish(map[string]interface{}{"longest": longest})
}
