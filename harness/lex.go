package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/big"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jchv/cleansheets/ecmascript/lexer"
)

// The enumeration of spec/LexEnum.tla against the lexer: every text of each
// frame, with the tokens the specification says it consists of.

func init() {
	extra["lex"] = cmdLex
	replays["lex"] = func(mode, text string) { lexText(text, mode == "re") }
}

// parallelLines hands the lines that the specification printed to f, several
// at a time, after those that are objects went to head.
func parallelLines(j *job, file string, head func(map[string]interface{}), f func(w int, line string)) {
	fd, err := os.Open(file)
	check(err)
	defer fd.Close()
	r := bufio.NewReaderSize(fd, 1<<20)
	ch := make(chan []string, 64)
	var wg sync.WaitGroup
	start := func() {
		for w := range j.slots {
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				for ls := range ch {
					for _, l := range ls {
						if !j.full() {
							f(w, l)
						}
					}
				}
			}()
		}
	}
	started := false
	var batch []string
	for {
		line, err := r.ReadString('\n')
		line = strings.TrimRight(line, "\n")
		if len(line) > 1 && line[0] == '"' {
			s := unquote(line)
			if s[0] == '{' {
				v, err := decodeJSON([]byte(s))
				check(err)
				head(v.(map[string]interface{}))
			} else {
				if !started {
					start()
					started = true
				}
				batch = append(batch, s)
				if len(batch) == 256 {
					ch <- batch
					batch = nil
				}
			}
		}
		if err != nil {
			break
		}
	}
	if !started {
		start()
	}
	ch <- batch
	close(ch)
	wg.Wait()
}

func unquote(line string) string {
	if s, err := strconv.Unquote(line); err == nil {
		return s
	}
	return unquoteTLC(line)
}

type lexFrame struct {
	name string
	pre  []rune
	al   [][]rune
	re   bool
	n    int

	// Of frames of a piece many times.
	x, post []rune
	times   []int
	cases   []*lexCase
}

// long is the text with the piece n times.
func (fr *lexFrame) long(n int) []rune {
	var rs []rune
	for ; n > 0; n-- {
		rs = append(rs, fr.x...)
	}
	return append(rs, fr.post...)
}

// further is the case for n pieces, after those for na and nb.
func further(a, b *lexCase, na, nb, n int) *lexCase {
	at := func(x, y int) int { return x + (y-x)/(nb-na)*(n-na) }
	if a.v != b.v || len(a.toks) != len(b.toks) {
		return nil
	}
	c := &lexCase{mode: a.mode, v: a.v}
	for i := range a.loc {
		c.loc[i] = at(a.loc[i], b.loc[i])
	}
	for i, t := range a.toks {
		u := b.toks[i]
		w := specTok{kind: t.kind, nl: t.nl, st: at(t.st, u.st), en: at(t.en, u.en), row: at(t.row, u.row), col: at(t.col, u.col), extra: t.extra}
		if t.kind == "LiteralNumber" || t.kind != u.kind || t.nl != u.nl {
			return nil
		}
		if t.kind == "LiteralRegExp" {
			w.extra = []interface{}{json.Number(strconv.Itoa(at(asInt(t.extra[0]), asInt(u.extra[0]))))}
		}
		c.toks = append(c.toks, w)
	}
	return c
}

func runes(v interface{}) []rune {
	var out []rune
	l, _ := v.([]interface{})
	for _, e := range l {
		out = append(out, rune(asInt(e)))
	}
	return out
}

// specTok is a token of the specification.
type specTok struct {
	kind     string
	st, en   int // in characters
	nl       bool
	row, col int
	extra    []interface{}
}

func specToks(v interface{}) []specTok {
	var out []specTok
	for _, e := range v.([]interface{}) {
		x := e.([]interface{})
		t := specTok{kind: x[0].(string), st: asInt(x[1]), en: asInt(x[2]), nl: x[3].(bool), row: asInt(x[4]), col: asInt(x[5])}
		t.extra, _ = x[6].([]interface{})
		out = append(out, t)
	}
	return out
}

// realTok is a token the lexer delivered.
type realTok struct {
	lexer.Token
	pattern, flags string
	row, col       int
}

// lexText runs the lexer to the end of the text, or to its first error.
func lexText(text string, re bool) (toks []realTok, o outcome) {
	defer func() {
		if p := recover(); p != nil {
			if err, ok := p.(error); ok {
				o.setError(err)
				if o.kind != "error" {
					return
				}
			}
			o.kind, o.msg = "panic", fmt.Sprint(p)
		}
	}()
	l := lexer.NewLexer(lexer.NewScanner(&textReader{s: text}, testURL))
	for n := 0; n <= len(text)+2; n++ {
		t := l.Lex()
		rt := realTok{Token: t}
		if re && (t.Type == lexer.TokenPunctuatorDiv || t.Type == lexer.TokenPunctuatorDivAssign) {
			x := l.ReLex()
			rt = realTok{Token: x.Token, pattern: x.Pattern, flags: x.Flags}
		}
		loc := l.Location()
		rt.row, rt.col = loc.Row, loc.Column
		toks = append(toks, rt)
		if t.Type == lexer.TokenNone {
			o.kind = "accept"
			if again := l.Lex(); again.Type != lexer.TokenNone {
				o.kind, o.msg = "error", "a token after the end of the text"
			}
			return
		}
	}
	o.kind, o.msg = "error", "the lexer does not end"
	return
}

// nearest is the double nearest to the number the specification describes.
func nearest(x []interface{}) float64 {
	base := asInt(x[0])
	ip, fp, sg, ex := x[1].(string), x[2].(string), x[3].(string), x[4].(string)
	n := new(big.Int)
	for _, c := range strings.ToLower(ip + fp) {
		d := int64(strings.IndexRune("0123456789abcdef", c))
		n.Mul(n, big.NewInt(int64(base)))
		n.Add(n, big.NewInt(d))
	}
	e := new(big.Int)
	if ex != "" {
		e.SetString(ex, 10)
	}
	if sg == "-" {
		e.Neg(e)
	}
	e.Sub(e, big.NewInt(int64(len(fp))))
	if n.Sign() == 0 {
		return 0
	}
	digits := int64(len(n.String()))
	if e.IsInt64() && e.Int64()+digits > 400 || e.Cmp(big.NewInt(1<<40)) > 0 {
		return math.Inf(1)
	}
	if !e.IsInt64() || e.Int64()+digits < -400 {
		return 0
	}
	p := new(big.Int).Exp(big.NewInt(10), new(big.Int).Abs(e), nil)
	r := new(big.Rat)
	if e.Sign() < 0 {
		r.SetFrac(n, p)
	} else {
		r.SetInt(n.Mul(n, p))
	}
	f, _ := r.Float64()
	return f
}

type lexCase struct {
	mode string // "re" or ""
	text string
	v    byte // A, E, U
	loc  [4]int
	toks []specTok
}

// compareLex says what is wrong with what the lexer delivers, if anything.
func compareLex(c *lexCase, toks []realTok, o *outcome) string {
	rs := []rune(c.text)
	for i, t := range c.toks {
		src := string(rs[t.st:t.en])
		if i >= len(toks) {
			return fmt.Sprintf("token %d is specified to be %s %q; but: %s error: %s", i+1, t.kind, src, o.kind, o.msg)
		}
		r := toks[i]
		if got := r.Type.String(); got != "Token"+t.kind {
			return fmt.Sprintf("token %d is specified to be %s %q; but it is %s %q", i+1, t.kind, src, got, r.Source())
		}
		if t.kind != "None" {
			if got := r.Source(); got != src {
				return fmt.Sprintf("token %d is specified to be %s %q; but its source is %q", i+1, t.kind, src, got)
			}
		}
		if r.NewLine != t.nl {
			return fmt.Sprintf("token %d (%s %q): a line break before it: %v; but NewLine is %v", i+1, t.kind, src, t.nl, r.NewLine)
		}
		if r.row != t.row || r.col != t.col {
			return fmt.Sprintf("token %d (%s %q) ends at %d:%d; but the location is %d:%d", i+1, t.kind, src, t.row, t.col, r.row, r.col)
		}
		switch t.kind {
		case "LiteralNumber":
			want := nearest(t.extra)
			if got := r.NumberConstant(); got != want || math.Signbit(got) {
				return fmt.Sprintf("token %d (%s %q) has the value %v; but NumberConstant is %v", i+1, t.kind, src, want, got)
			}
		case "LiteralString":
			if !strings.ContainsRune(src, '\\') && r.StringConstant() != src[1:len(src)-1] {
				return fmt.Sprintf("token %d (%s %q): StringConstant is %q", i+1, t.kind, src, r.StringConstant())
			}
		case "LiteralRegExp":
			pl := asInt(t.extra[0])
			pat, flags := string(rs[t.st+1:t.st+1+pl]), string(rs[t.st+2+pl:t.en])
			if r.pattern != pat || r.flags != flags {
				return fmt.Sprintf("token %d (%s %q) has the pattern %q and the flags %q; but they are %q and %q", i+1, t.kind, src, pat, flags, r.pattern, r.flags)
			}
		}
	}
	switch c.v {
	case 'A':
		if o.kind != "accept" || len(toks) != len(c.toks) {
			return fmt.Sprintf("the text is specified to end after %d tokens; but: %d tokens, %s error: %s", len(c.toks), len(toks), o.kind, o.msg)
		}
	case 'E':
		if o.kind != "syntax" {
			return fmt.Sprintf("a syntax error is specified after %d tokens; but: %d tokens, %s %s", len(c.toks), len(toks), o.kind, o.msg)
		}
		if len(toks) != len(c.toks) {
			return fmt.Sprintf("a syntax error is specified after %d tokens; but it comes after %d", len(c.toks), len(toks))
		}
		l := c.loc
		if o.row < l[0] || o.row == l[0] && o.col < l[1] || o.row > l[2] || o.row == l[2] && o.col > l[3] {
			return fmt.Sprintf("a syntax error between %d:%d and %d:%d is specified; but: %s", l[0], l[1], l[2], l[3], o.msg)
		}
		if !sameURL(o.uri) {
			return "the URL of the error is not that of the source: " + o.msg
		}
	}
	return ""
}

// compareLiteral checks the node that a text with a single literal becomes.
func compareLiteral(c *lexCase, o *outcome) string {
	if len(c.toks) != 2 || c.v != 'A' {
		return ""
	}
	t := c.toks[0]
	src := string([]rune(c.text)[t.st:t.en])
	var value interface{}
	switch t.kind {
	case "LiteralNumber":
		f := nearest(t.extra)
		if !math.IsInf(f, 0) {
			value = f
		}
	case "LiteralString":
		if strings.ContainsRune(src, '\\') {
			return ""
		}
		value = src[1 : len(src)-1]
	case "Identifier":
	default:
		return ""
	}
	if o.kind != "accept" {
		return fmt.Sprintf("the expression %q is a literal; but: %s", c.text, o.String())
	}
	b, err := o.estree()
	if err != nil {
		return "ESTree: " + err.Error()
	}
	var n struct {
		Type, Raw, Name string
		Value           interface{}
	}
	check(json.Unmarshal(b, &n))
	if t.kind == "Identifier" {
		if n.Type != "Identifier" || n.Name != src {
			return fmt.Sprintf("the expression %q is specified to be an Identifier of that name; but it is %s", c.text, b)
		}
		return ""
	}
	if n.Type != "Literal" || n.Raw != src || n.Value != value {
		return fmt.Sprintf("the expression %q is specified to be a Literal with raw %q and value %v; but it is %s", c.text, src, value, b)
	}
	return ""
}

func cmdLex(args []string) {
	fs := flag.NewFlagSet("lex", flag.ExitOnError)
	in := fs.String("in", "", "output of TLC")
	res := fs.String("res", "", "result file")
	progress := fs.String("progress", "", "progress file")
	known := fs.String("known", "", "keys of known findings")
	far := fs.Int("far", 0, "go on with frames of a piece many times to about so many")
	check(fs.Parse(args))
	j := newJob(*res, *progress, *known, 10*time.Second)
	frames := map[int]*lexFrame{}
	texts := map[int]*int64{}
	var accepted, rejected, unspec, tokens, literals int64
	one := func(w int, fr *lexFrame, c *lexCase, line string) {
		j.enter(w, "lex", c.mode, c.text)
		toks, o := lexText(c.text, fr.re)
		j.leave(w)
		if recorded != nil {
			recorded.see(&o, "lex", c.text)
		}
		what := compareLex(c, toks, &o)
		if what == "" && !fr.re && len(c.toks) == 2 && (strings.HasPrefix(c.toks[0].kind, "Literal") || c.toks[0].kind == "Identifier") {
			o := j.parse(w, "expression", c.text)
			what = compareLiteral(c, &o)
			atomic.AddInt64(&literals, 1)
		}
		atomic.AddInt64(&tokens, int64(len(c.toks)))
		switch c.v {
		case 'A':
			if atomic.AddInt64(&accepted, 1)%20011 == 1 {
				j.sample(map[string]interface{}{"text": c.text, "specified": line})
			}
		case 'E':
			if atomic.AddInt64(&rejected, 1)%20011 == 1 {
				j.sample(map[string]interface{}{"text": c.text, "specified": "syntax error", "error": o.msg})
			}
		default:
			atomic.AddInt64(&unspec, 1)
		}
		if what != "" {
			j.report(mismatch{
				Key:  "lex:" + c.mode + ":" + c.text,
				What: fmt.Sprintf("%q: %s", c.text, what),
				Case: map[string]interface{}{"cmd": "lex", "frame": fr.name, "mode": c.mode, "text": c.text, "specified": line},
			})
		}
	}
	parallelLines(j, *in, func(x map[string]interface{}) {
		fr := &lexFrame{name: x["name"].(string), pre: runes(x["pre"]), re: x["re"].(bool), n: asInt(x["n"])}
		for _, a := range x["al"].([]interface{}) {
			fr.al = append(fr.al, runes(a))
		}
		if times, ok := x["times"].([]interface{}); ok {
			fr.x, fr.post, fr.cases = runes(x["x"]), runes(x["post"]), make([]*lexCase, len(times))
			for i, n := range times {
				fr.times = append(fr.times, asInt(n))
				fr.al[i] = fr.long(asInt(n))
			}
		}
		frames[asInt(x["frame"])] = fr
		texts[asInt(x["frame"])] = new(int64)
	}, func(w int, line string) {
		v, err := decodeJSON([]byte(line))
		check(err)
		x := v.([]interface{})
		fr := frames[asInt(x[0])]
		atomic.AddInt64(texts[asInt(x[0])], 1)
		rs := append([]rune{}, fr.pre...)
		for _, p := range x[1].([]interface{}) {
			rs = append(rs, fr.al[asInt(p)-1]...)
		}
		c := &lexCase{text: string(rs), v: x[2].(string)[0], toks: specToks(x[4])}
		if fr.re {
			c.mode = "re"
		}
		if c.v == 'E' {
			for i, p := range x[3].([]interface{}) {
				c.loc[i] = asInt(p)
			}
		}
		if fr.cases != nil {
			fr.cases[asInt(x[1].([]interface{})[0])-1] = c
		}
		one(w, fr, c, line)
	})
	lexFurther(j, frames, *far, one)
	var per []map[string]interface{}
	for i := 1; i <= len(frames); i++ {
		per = append(per, map[string]interface{}{"frame": frames[i].name, "alphabet": len(frames[i].al), "length": frames[i].n, "texts": *texts[i]})
	}
	j.count("accepted", accepted)
	j.count("rejected", rejected)
	j.count("unspecified", unspec)
	j.count("tokens", tokens)
	j.count("literals", literals)
	j.finish(map[string]interface{}{"frames": per})
}

// lexFurther goes on with the frames of a piece many times.
func lexFurther(j *job, frames map[int]*lexFrame, far int, one func(int, *lexFrame, *lexCase, string)) {
	type item struct {
		fr *lexFrame
		c  *lexCase
	}
	var items []item
	var law int64
	for _, fr := range frames {
		// The law has to hold as far as the specification was asked.
		last := len(fr.cases) - 1
		if last < 3 || far == 0 {
			continue
		}
		a, b, na, nb := fr.cases[2], fr.cases[3], fr.times[2], fr.times[3]
		if further(a, b, na, nb, nb) == nil {
			continue
		}
		for i := 4; i <= last; i++ {
			c, d := further(a, b, na, nb, fr.times[i]), fr.cases[i]
			c.text = d.text
			if fmt.Sprint(*c) != fmt.Sprint(*d) {
				check(fmt.Errorf("frame %s does not go on evenly from %d to %d pieces", fr.name, nb, fr.times[i]))
			}
		}
		law++
		for n := 8192; n <= far; n *= 2 {
			for k := n - 1; k <= n+1; k++ {
				c := further(a, b, na, nb, k)
				c.text = string(fr.pre) + string(fr.long(k))
				items = append(items, item{fr, c})
			}
		}
	}
	j.parallel(len(items), func(w, i int) { one(w, items[i].fr, items[i].c, "continued") })
	j.count("frames continued", law)
	j.count("continued", int64(len(items)))
}
