package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
	"unicode/utf8"
)

// Whether parsing always ends, in time and memory that fit the text: the
// repetitions of spec/Pump.tla, and mutated programs, which spec/Judge.tla
// says what to expect of.

func init() {
	extra["pump"] = cmdPump
	extra["named"] = cmdNamed
	extra["repeat"] = cmdRepeat
	extra["mutate"] = cmdMutate
	extra["judge"] = cmdJudge
	replays["pump"] = func(mode, text string) {
		var p pump
		check(json.Unmarshal([]byte(text), &p))
		o := p.parse(p.N)
		if o.kind == "accept" {
			b, err := o.estree()
			fmt.Println(len(b), err)
		}
		fmt.Println(o.kind, o.msg)
		if o.kind == "panic" {
			os.Exit(4)
		}
	}
}

type pump struct {
	Mode                 string
	Pre, X, Mid, Y, Post string
	N                    int

	v, depth  string
	trees, vs []string // for n = 1, 2...
	places    [][]int  // likewise, of errors
}

func (p *pump) text(n int) string {
	return p.Pre + strings.Repeat(p.X, n) + p.Mid + strings.Repeat(p.Y, n) + p.Post
}

func (p *pump) parse(n int) outcome { return parseText(p.Mode, p.text(n)) }

func (p *pump) String() string {
	s := p.Mode + ":"
	for i, x := range []string{p.Pre, p.X, p.Mid, p.Y, p.Post} {
		if x == "" {
			continue
		}
		if i == 1 || i == 3 {
			s += fmt.Sprintf(" n×%q", x)
		} else {
			s += fmt.Sprintf(" %q", x)
		}
	}
	return s
}

// treeSize is how many parts a projected tree has, and how deep they are.
func treeSize(t string) (size, depth int) {
	in, d := false, 0
	for i := 0; i < len(t); i++ {
		switch c := t[i]; {
		case in && c == '\\':
			i++
		case c == '"':
			in = !in
			if in {
				size++
			}
		case in:
		case c == '[':
			size++
			if d++; d > depth {
				depth = d
			}
		case c == ']':
			d--
		}
	}
	return
}

// counting counts the calls.
type counting struct {
	textReader
	calls int
}

func (c *counting) ReadRune() (rune, int, error) {
	c.calls++
	return c.textReader.ReadRune()
}

// different gives every name of a letter in the text another name: a string,
// number or regular expression has none.
func different(text string) (string, int) {
	inName := func(c rune) bool {
		return c == '$' || c == '_' || c > 127 || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
	}
	rs := []rune(text)
	w := &strings.Builder{}
	k := 0
	for i, c := range rs {
		if ('a' <= c && c <= 'z' || 'A' <= c && c <= 'Z') &&
			(i == 0 || !inName(rs[i-1]) && !strings.ContainsRune("\"#'/\\`", rs[i-1])) &&
			(i == len(rs)-1 || !inName(rs[i+1]) && !strings.ContainsRune("\"'`", rs[i+1])) {
			k++
			fmt.Fprintf(w, "q%dq", k)
		} else {
			w.WriteRune(c)
		}
	}
	return w.String(), k
}

var nameOf = regexp.MustCompile(`"q([0-9]+)q"`)

// cmdNamed repeats what the specification says to keep its names in order.
func cmdNamed(args []string) {
	j, in := harnessFlags("named", args, nil)
	var pumps []*pump
	well := map[int]int{}
	tlcLines(in, func(v interface{}) {
		x, ok := v.(map[string]interface{})
		if !ok {
			return
		}
		text := func(k string) string { return string(runes(x[k])) }
		if x["mode"] != nil {
			pumps = append(pumps, &pump{Mode: x["mode"].(string), Pre: text("pre"), X: text("x"), Mid: text("mid"), Y: text("y"), Post: text("post")})
		} else if named, _ := x["named"].(bool); named {
			well[asInt(x["pump"])-1]++
		}
	})
	if len(pumps) == 0 || len(well) == 0 {
		check(io.ErrUnexpectedEOF)
	}
	var texts, names int64
	j.parallel(len(pumps), func(w, i int) {
		p := pumps[i]
		if well[i] < 2 {
			return
		}
		for _, n := range []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 400, 512, 513, 1000, 1024, 1025, 4097} {
			text, k := different(p.text(n))
			o := j.parse(w, p.Mode, text)
			if o.kind == "parser" && n > 300 {
				break // too deep
			}
			what := ""
			if o.kind != "accept" {
				what = o.String()
			} else if t := o.tree(); strings.HasPrefix(t, "error: ") {
				if n > 300 {
					break // too deep for JSON
				}
				what = t
			} else {
				next := 1
				for _, m := range nameOf.FindAllStringSubmatch(t, -1) {
					switch m[1] {
					case fmt.Sprint(next):
						next++
					case fmt.Sprint(next - 1):
					default:
						if what == "" {
							what = fmt.Sprintf("in the tree q%sq follows q%dq", m[1], next-1)
						}
					}
				}
				if what == "" && next != k+1 {
					what = fmt.Sprintf("the tree ends with q%dq of %d names", next-1, k)
				}
				atomic.AddInt64(&names, int64(k))
			}
			atomic.AddInt64(&texts, 1)
			if what != "" {
				j.report(mismatch{Key: fmt.Sprintf("named %s n=%d", p, n), What: fmt.Sprintf("%s with n = %d and all names different: %.600s", p, n, what),
					Case: map[string]interface{}{"cmd": "parse", "mode": p.Mode, "text": text}})
				break
			}
		}
	})
	j.count("texts of different names", texts)
	j.count("names", names)
	j.finish(map[string]interface{}{"named": len(well), "pumps": len(pumps)})
}

// loadPumps takes what the specification says of the repetitions.
func loadPumps(in string) (pumps []*pump) {
	tlcLines(in, func(v interface{}) {
		x, ok := v.(map[string]interface{})
		if !ok {
			return
		}
		text := func(k string) string { return string(runes(x[k])) }
		if x["mode"] != nil {
			pumps = append(pumps, &pump{Mode: x["mode"].(string), Pre: text("pre"), X: text("x"), Mid: text("mid"), Y: text("y"), Post: text("post")})
			return
		}
		p, n := pumps[asInt(x["pump"])-1], asInt(x["n"])
		for len(p.trees) < n {
			p.trees, p.vs, p.places = append(p.trees, ""), append(p.vs, ""), append(p.places, nil)
		}
		p.vs[n-1] = x["v"].(string)
		if l := x["place"].([]interface{}); len(l) == 2 {
			p.places[n-1] = []int{asInt(l[0]), asInt(l[1])}
		}
		if x["v"] == "accept" {
			w := &strings.Builder{}
			project(w, x["tree"])
			p.trees[n-1] = w.String()
		}
		if d := x["depth"].(string); d != "" {
			p.v, p.depth = x["v"].(string), d
		}
	})
	return
}

func cmdPump(args []string) {
	var most *int
	j, in := harnessFlags("pump", args, func(fs *flag.FlagSet) { most = fs.Int("most", 100000, "largest n") })
	j.limit = 40 * time.Second
	pumps := loadPumps(in)
	if len(pumps) == 0 {
		check(io.ErrUnexpectedEOF)
	}
	var parses, sizes, refused, measured, conversions int64
	// One after the other: the time and the memory.
	costly := map[*pump]bool{}
	var before, after runtime.MemStats
	for _, p := range pumps {
		small, large := 2000, 20000
		if p.v == "accept" && p.depth != "flat" {
			small, large = 150, 1500
		}
		cost := func(n int) (alloc uint64, d time.Duration) {
			text := p.text(n)
			d = time.Hour
			for k := 0; k < 3; k++ {
				runtime.ReadMemStats(&before)
				t := time.Now()
				parseText(p.Mode, text)
				if e := time.Since(t); e < d {
					d = e
				}
				runtime.ReadMemStats(&after)
				if a := after.TotalAlloc - before.TotalAlloc; k == 0 || a < alloc {
					alloc = a
				}
			}
			return
		}
		q := *p
		q.N = large
		b, err := json.Marshal(&q)
		check(err)
		j.enter(0, "pump", p.Mode, string(b))
		a1, t1 := cost(small)
		a2, t2 := cost(large)
		j.leave(0)
		measured++
		what := ""
		if a2 > 1<<20 && a2 > 30*a1 {
			what = fmt.Sprintf("ten times the text takes %d times the memory (%d, %d bytes)", a2/a1, a1, a2)
		} else if t2 > 150*time.Millisecond && t2 > 60*t1 {
			what = fmt.Sprintf("ten times the text takes %d times the time (%v, %v)", t2/t1, t1, t2)
		}
		if what != "" {
			j.report(mismatch{Key: p.String() + " cost", What: p.String() + ": " + what,
				Case: map[string]interface{}{"cmd": "pump", "mode": p.Mode, "pre": p.Pre, "x": p.X, "mid": p.Mid, "y": p.Y, "post": p.Post, "n": large}})
			costly[p] = true
		}
	}
	j.parallel(len(pumps), func(w, i int) {
		p := pumps[i]
		bad := func(n int, f string, a ...interface{}) {
			j.report(mismatch{
				Key:  fmt.Sprintf("%s n=%d", p, n),
				What: fmt.Sprintf("%s with n = %d (specified: %s, %s): %s", p, n, p.v, p.depth, fmt.Sprintf(f, a...)),
				Case: map[string]interface{}{"cmd": "pump", "mode": p.Mode, "pre": p.Pre, "x": p.X, "mid": p.Mid, "y": p.Y, "post": p.Post, "n": n},
			})
		}
		m := len(p.trees)
		// How the tree grows, of which the specification has the beginning.
		s1, _ := treeSize(p.trees[m-3])
		s2, d2 := treeSize(p.trees[m-2])
		s3, d3 := treeSize(p.trees[m-1])
		nested := p.depth == "grows" || d3 > d2
		steady := s3-s2 == s2-s1
		ns := []int{}
		for n := 1; n <= m; n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 10, 31, 100, 257, 300, 1000, 1024, 2500, 4097, 9000, 10001, 33000, 65537, *most)
		// Deep enough to overflow any stack, for as much text as that takes.
		if deep := 20000000 / (len(p.X) + len(p.Y)); nested && deep > *most {
			if deep > 5000000 {
				deep = 5000000
			}
			ns = append(ns, deep)
		}
		for _, n := range ns {
			if n > 1000 && costly[p] {
				break // it would take for ever
			}
			q := *p
			q.N = n
			b, err := json.Marshal(&q)
			check(err)
			j.enter(w, "pump", p.Mode, string(b))
			text := p.text(n)
			r := &counting{textReader: textReader{s: text}}
			o := parseFrom(p.Mode, r)
			atomic.AddInt64(&parses, 1)
			if max := 4*utf8.RuneCountInString(text) + 16; r.calls > max {
				bad(n, "read %d times in a text of %d characters", r.calls, utf8.RuneCountInString(text))
			}
			want := p.v
			if n <= m {
				want = p.vs[n-1]
			}
			switch {
			case o.kind == "accept":
				b, err := o.estree()
				if err != nil {
					if nested && n > 300 && strings.Contains(err.Error(), "exceeded max depth") {
						break // of JSON
					}
					bad(n, "the tree cannot be converted: %v", err)
					break
				}
				atomic.AddInt64(&conversions, 1)
				if want == "reject" {
					bad(n, "accepted")
				} else if want == "accept" && n < 9500/2 { // as deep as decoding goes
					v, err := decodeJSON(b)
					if err != nil {
						if nested {
							break
						}
						bad(n, "the document cannot be read: %v", err)
						break
					}
					t := maskedTree(v)
					if n <= m && t != p.trees[n-1] {
						bad(n, "specified: %s; but: %s", p.trees[n-1], t)
					}
					if size, _ := treeSize(t); steady && n > 1 && size != s3+(n-m)*(s3-s2) {
						bad(n, "the tree has %d parts, expected are %d", size, s3+(n-m)*(s3-s2))
					}
					atomic.AddInt64(&sizes, 1)
				}
			case o.kind == "syntax" && o.node == nil:
				if want == "accept" {
					bad(n, "%s", o.String())
				}
			case o.kind == "parser" && o.node == nil && (nested && n > 300 || want == "unspec"):
				// It may be too deep.
				atomic.AddInt64(&refused, 1)
			default:
				bad(n, "%.1000s", o.String())
			}
			j.leave(w)
			if i%17 == 3 && n == *most {
				j.sample(map[string]interface{}{"pump": p.String(), "n": n, "characters read": r.calls, "outcome": o.kind})
			}
		}
	})
	j.count("repetitions", parses)
	j.count("sizes compared", sizes)
	j.count("too deep", refused)
	j.count("costs measured", measured)
	j.count("conversions", conversions)
	j.finish(map[string]interface{}{"pumps": len(pumps)})
}

// What is put into programs.
var pool = strings.Fields("( ) [ ] { } ; , . ... ? : => = + - * / % ** ++ -- ! ~ < > <= == === && || ?? ?. += /= **= &&= ?\\?= >>>= " +
	"a b let static async of get set as from yield await eval arguments enum implements " +
	"if else for while do break continue return throw try catch finally switch case default var const function class extends new this null true false typeof void delete in instanceof " +
	"import export super with debugger " +
	"1 0x1 1n 1_0 08 .5 1e3 0b2 's' \"d\" 'use\x20strict' /b/g /[/]/ #p `t` `${ }` \\u0061 <!-- --> #! @ \\ ' \" ` /* */ // \x00 \u00e9 \u2028 \u200d \U0001f600 \U0001d4d0 \ufffd \ufeff")

var kinds = [][]string{
	strings.Fields("a b let static async of get set as from yield await implements eval"),
	strings.Fields("a 1 's' this null /b/g b [] {} (a) \u00e9"),
	strings.Fields("= += ** + - * / < , && || ?? == in instanceof"),
	strings.Fields("++ -- ! ~ typeof void delete - + new"),
	strings.Fields(". ?. , ;"),
	strings.Fields("( [ {"), strings.Fields(") ] }"),
	strings.Fields("var let const"), strings.Fields("break continue return throw"), strings.Fields("if while for with switch catch"),
	strings.Fields(": ? = => ,"),
}

func mutated(rnd *rand.Rand, toks, other []string) string {
	toks = append([]string{}, toks...)
	if len(toks) == 0 {
		toks = []string{"a"}
	}
	any := func() string {
		if rnd.Intn(5) < 3 && len(other) > 0 {
			return other[rnd.Intn(len(other))]
		}
		return strings.Replace(pool[rnd.Intn(len(pool))], "\x20", " ", -1)
	}
	// A piece of it, so that there are not too many characters to judge.
	if n := 10 + rnd.Intn(30); len(toks) > n && rnd.Intn(4) == 0 {
		i := rnd.Intn(len(toks) - n)
		toks = toks[i : i+n]
	}
	for k := 1 + rnd.Intn(2)*rnd.Intn(3); k > 0; k-- {
		i := rnd.Intn(len(toks))
		switch rnd.Intn(14) {
		case 0:
			toks[i] = any()
		case 7, 8, 9: // a token of the same kind
			for _, l := range kinds {
				for _, t := range l {
					if strings.TrimPrefix(toks[i], "\n") == t {
						toks[i] = l[rnd.Intn(len(l))]
						break
					}
				}
			}
		case 10: // a line break
			toks[i] = "\n" + strings.TrimPrefix(toks[i], "\n")
		case 11: // a bracket less
			for l, t := range toks {
				if (t == "{" || t == "(" || t == "[") && rnd.Intn(3) == 0 {
					for m := l + 1; m < len(toks); m++ {
						if toks[m] == "}" || toks[m] == ")" || toks[m] == "]" {
							toks = append(append(append([]string{}, toks[:l]...), toks[l+1:m]...), toks[m+1:]...)
							break
						}
					}
					break
				}
			}
			if len(toks) == 0 {
				toks = []string{"a"}
			}
		case 1, 2:
			toks = append(toks[:i], append([]string{any()}, toks[i:]...)...)
		case 3:
			if len(toks) > 1 {
				toks = append(toks[:i], toks[i+1:]...)
			}
		case 4:
			l := rnd.Intn(len(toks))
			toks[i], toks[l] = toks[l], toks[i]
		case 5: // again
			l := i + 1 + rnd.Intn(len(toks)-i)
			toks = append(toks[:l], append(append([]string{}, toks[i:l]...), toks[l:]...)...)
		case 6: // from another program
			if len(other) > 0 {
				l := rnd.Intn(len(other))
				n := l + rnd.Intn(len(other)-l)
				if n > l+12 {
					n = l + 12
				}
				toks = append(toks[:i], append(append([]string{}, other[l:n]...), toks[i:]...)...)
			}
		}
	}
	text := ""
	if rnd.Intn(3) == 0 {
		text = render(rnd, toks)
	} else {
		text, _, _ = layout(toks, rnd.Intn(4) == 0)
	}
	if rnd.Intn(6) == 0 { // characters
		cs := []rune(text)
		for k := rnd.Intn(2); k >= 0 && len(cs) > 1; k-- {
			i := rnd.Intn(len(cs))
			c := []rune(any())[0]
			switch rnd.Intn(4) {
			case 0:
				cs[i] = c
			case 1:
				cs = append(cs[:i], append([]rune{c}, cs[i:]...)...)
			case 2:
				cs = append(cs[:i], cs[i+1:]...)
			case 3:
				cs = cs[:i]
			}
		}
		text = string(cs)
	}
	if cs := []rune(text); len(cs) > 400 {
		text = string(cs[:400])
	}
	return text
}

func cmdMutate(args []string) {
	var out *string
	var num *int
	var seed *int64
	j, in := harnessFlags("mutate", args, func(fs *flag.FlagSet) {
		out = fs.String("out", "", "the texts")
		num = fs.Int("num", 1000, "how many")
		seed = fs.Int64("seed", 1, "")
	})
	cases := loadWalks(strings.Split(in, ","))
	rnd := rand.New(rand.NewSource(*seed))
	f, err := os.Create(*out)
	check(err)
	w := bufio.NewWriter(f)
	e := json.NewEncoder(w)
	for i := 0; i < *num; i++ {
		c, d := cases[rnd.Intn(len(cases))], cases[rnd.Intn(len(cases))]
		mode := c.mode
		if rnd.Intn(6) == 0 {
			mode = []string{"script", "module", "expression"}[rnd.Intn(3)]
		}
		check(e.Encode(map[string]interface{}{"mode": mode, "s": []rune(mutated(rnd, c.toks, d.toks))}))
	}
	check(w.Flush())
	check(f.Close())
	j.count("texts", int64(*num))
	j.finish(nil)
}

// cmdJudge compares what spec/Judge.tla says about texts to what the parser
// makes of them.
func cmdJudge(args []string) {
	var texts *string
	j, in := harnessFlags("judge", args, func(fs *flag.FlagSet) { texts = fs.String("texts", "", "what was judged") })
	f, err := os.Open(*texts)
	check(err)
	type text struct {
		Mode string
		S    []rune
		v    string
		tree string
	}
	var ts []text
	d := json.NewDecoder(bufio.NewReader(f))
	for {
		var t text
		err := d.Decode(&t)
		if err == io.EOF {
			break
		}
		check(err)
		ts = append(ts, t)
	}
	tlcLines(in, func(v interface{}) {
		x, ok := v.(map[string]interface{})
		if !ok || x["text"] == nil {
			return
		}
		t := &ts[asInt(x["text"])-1]
		t.v = x["v"].(string)
		if t.v == "accept" {
			t.tree = maskedTree(x["tree"])
		}
	})
	var counts [3]int64
	j.parallel(len(ts), func(w, i int) {
		t := &ts[i]
		s := string(t.S)
		o := j.parse(w, t.Mode, s)
		want := ""
		j.enter(w, "parse", t.Mode, s)
		switch t.v {
		case "accept":
			atomic.AddInt64(&counts[0], 1)
			if o.kind != "accept" || o.masked() != t.tree {
				want = "accepted as " + t.tree
			} else if !o.declared() {
				want = "a tree or a declared error"
			}
		case "reject":
			atomic.AddInt64(&counts[1], 1)
			if o.kind != "syntax" || o.node != nil {
				want = "rejected with a syntax error"
			}
		case "unspec":
			atomic.AddInt64(&counts[2], 1)
			if !o.declared() {
				want = "a tree or a declared error"
			}
		default:
			check(fmt.Errorf("text %d was not judged", i+1))
		}
		j.leave(w)
		if want != "" {
			j.report(mismatch{Key: t.Mode + ":" + s, What: fmt.Sprintf("%s %q: specified: %s; but: %s", t.Mode, s, want, o.String()),
				Case: map[string]interface{}{"cmd": "judge", "mode": t.Mode, "text": s, "want": want}})
		}
		if i%301 == 5 {
			j.sample(map[string]interface{}{"mode": t.Mode, "text": s, "specified": t.v, "outcome": o.kind})
		}
	})
	j.count("judged as accepted", counts[0])
	j.count("judged as rejected", counts[1])
	j.count("judged as unspecified", counts[2])
	j.finish(nil)
}

// law extends a sequence of trees, of which there are those for n = 1, 2, …:
// each is the one before with a piece put in at one or two places. There is
// none if the trees at hand do not follow it.
func law(trees []string) func(n int) string {
	m := len(trees)
	if m < 4 {
		return nil
	}
	prefix := func(a, b string) int {
		k := 0
		for k < len(a) && k < len(b) && a[k] == b[k] {
			k++
		}
		return k
	}
	suffix := func(a, b string) int {
		k := 0
		for k < len(a) && k < len(b) && a[len(a)-1-k] == b[len(b)-1-k] {
			k++
		}
		return k
	}
	t2, t3, t4 := trees[m-3], trees[m-2], trees[m-1]
	p2, p3, s2, s3 := prefix(t2, t3), prefix(t3, t4), suffix(t2, t3), suffix(t3, t4)
	for _, x := range []int{p3 - p2, len(t3) - len(t2)} {
		y := len(t3) - len(t2) - x
		if x < 0 || y < 0 || p2+x > len(t3) {
			continue
		}
		p, s := p2, s2
		if p+s > len(t2) {
			s = len(t2) - p
		}
		if y > 0 && s3-s2 != y || s+y > len(t3) {
			continue
		}
		in, out := t3[p:p+x], t3[len(t3)-s-y:len(t3)-s]
		f := func(n int) string {
			k := n - (m - 2)
			return t2[:p] + strings.Repeat(in, k) + t2[p:len(t2)-s] + strings.Repeat(out, k) + t2[len(t2)-s:]
		}
		if f(m-1) == t3 && f(m) == t4 {
			return f
		}
	}
	return nil
}

// cmdRepeat repeats beyond what the specification was asked of, and compares
// verdict and tree.
func cmdRepeat(args []string) {
	var places *bool
	j, in := harnessFlags("repeat", args, func(fs *flag.FlagSet) { places = fs.Bool("places", false, "compare the places of errors only") })
	pumps := loadPumps(in)
	if len(pumps) == 0 {
		check(io.ErrUnexpectedEOF)
	}
	var texts, trees, lawless, laws, located, placeless int64
	j.parallel(len(pumps), func(w, i int) {
		p := pumps[i]
		m := len(p.vs)
		var tree func(n int) string
		if p.v == "accept" {
			// The last one is for the law to be tried on.
			if tree = law(p.trees[:m-1]); tree != nil && tree(m) != p.trees[m-1] {
				tree = nil
			}
			if tree == nil {
				atomic.AddInt64(&lawless, 1)
			} else {
				atomic.AddInt64(&laws, 1)
			}
		}
		// Where the error is: at first as specified, then as far on each time.
		place := func(n int) []int { return p.places[n-1] }
		if *places {
			if p.v != "reject" || p.places[m-1] == nil || p.places[m-2] == nil {
				return
			}
			a, b := p.places[m-2], p.places[m-1]
			far := func(n int) []int {
				k := n - (m - 1)
				return []int{a[0] + k*(b[0]-a[0]), a[1] + k*(b[1]-a[1])}
			}
			if c := p.places[m-3]; c == nil || far(m - 2)[0] != c[0] || far(m - 2)[1] != c[1] {
				atomic.AddInt64(&placeless, 1)
				return
			}
			place = func(n int) []int {
				if n <= m {
					return p.places[n-1]
				}
				return far(n)
			}
		}
		for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513, 1000, 1024, 1025, 2049} {
			if n > 300 && n != 1000 && p.depth == "grows" {
				continue // to convert these takes long
			}
			want := p.v
			if n <= m {
				want = p.vs[n-1]
			}
			text := p.text(n)
			o := j.parse(w, p.Mode, text)
			atomic.AddInt64(&texts, 1)
			what := ""
			switch {
			case *places && want == "reject":
				l := place(n)
				if o.kind != "syntax" || l == nil {
					break // another matter
				}
				atomic.AddInt64(&located, 1)
				cs := []rune(text)
				r1, c1 := position(text, len(string(cs[:l[0]])))
				r2, c2 := position(text, len(string(cs[:l[1]])))
				if o.row < r1 || o.row == r1 && o.col < c1 || o.row > r2 || o.row == r2 && o.col > c2 {
					what = fmt.Sprintf("at %d:%d, not between %d:%d and %d:%d", o.row, o.col, r1, c1, r2, c2)
				} else if !sameURL(o.uri) {
					what = fmt.Sprintf("in %v", o.uri)
				}
			case *places:
			case n > 300 && o.kind == "parser" && want != "reject":
				return // too deep
			case want == "unspec":
				if !o.declared() {
					what = o.String()
				}
			case want == "reject":
				if o.kind != "syntax" && (n <= 300 || o.kind != "parser") {
					what = o.String()
				}
			case o.kind != "accept":
				what = o.String()
			case n <= m || tree != nil:
				t := o.masked()
				if n > 300 && strings.HasPrefix(t, "error: ") {
					return // too deep for JSON
				}
				expect := ""
				if n <= m {
					expect = p.trees[n-1]
				} else {
					expect = tree(n)
				}
				atomic.AddInt64(&trees, 1)
				if t != expect {
					k := 0
					for k < len(t) && k < len(expect) && t[k] == expect[k] {
						k++
					}
					cut := func(s string) string {
						if k > 60 {
							s = "…" + s[k-60:]
						}
						if len(s) > 400 {
							s = s[:400] + "…"
						}
						return s
					}
					what = fmt.Sprintf("%s; specified: %s", cut(t), cut(expect))
				}
			}
			if what != "" {
				j.report(mismatch{Key: fmt.Sprintf("repeat %s n=%d", p, n), What: fmt.Sprintf("%s with n = %d; specified: %s; but: %.1000s", p, n, want, what),
					Case: map[string]interface{}{"cmd": "parse", "mode": p.Mode, "text": text}})
				return
			}
		}
	})
	j.count("repetitions", texts)
	j.count("trees of repetitions", trees)
	j.count("places of errors", located)
	j.finish(map[string]interface{}{"pumps": len(pumps), "laws": laws, "without a law": lawless + placeless})
}
