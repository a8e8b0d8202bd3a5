package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

// The function of the web build in histories of calls (spec/Web.tla), run by
// web.js.

func init() { extra["web"] = cmdWeb }

type webArg struct {
	Kind string `json:"kind"`
	U    []int  `json:"u,omitempty"`
	Pre  string `json:"pre,omitempty"`
	Mid  string `json:"mid,omitempty"`
	Suf  string `json:"suf,omitempty"`
	N    int    `json:"n,omitempty"`
	More bool   `json:"more,omitempty"`

	text, v, tree string
}

type webAnswer struct {
	Threw  *string `json:"threw"`
	Result *string `json:"result"`
	Error  *string `json:"error"`
}

func (a webAnswer) String() string {
	b, _ := json.Marshal(a)
	return fmt.Sprintf("%.600s", b)
}

type webDone struct {
	Answers []webAnswer `json:"answers"`
	Gone    bool        `json:"gone"`
}

// page is a running web.js.
type page struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *strings.Builder
}

func (p *page) start(driver, exec_, wasm string) error {
	p.cmd = exec.Command("node", driver, exec_, wasm)
	p.err = &strings.Builder{}
	p.cmd.Stderr = p.err
	var err error
	p.in, err = p.cmd.StdinPipe()
	check(err)
	out, err := p.cmd.StdoutPipe()
	check(err)
	p.out = bufio.NewReaderSize(out, 1<<20)
	return p.cmd.Start()
}

func (p *page) stop() {
	if p.cmd != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.cmd = nil
	}
}

// run makes the calls of one history in a new program.
func (p *page) run(calls []webArg, gap bool) (d webDone, err error) {
	b, err := json.Marshal(map[string]interface{}{"calls": calls, "gap": gap})
	check(err)
	timer := time.AfterFunc(100*time.Second, func() { p.cmd.Process.Kill() })
	defer timer.Stop()
	if _, err = p.in.Write(append(b, '\n')); err != nil {
		return
	}
	line, err := p.out.ReadString('\n')
	if err != nil {
		return d, errors.New("the page ended: " + strings.TrimSpace(p.err.String()))
	}
	check(json.Unmarshal([]byte(line), &d))
	return d, nil
}

// library is what the library has for a script.
func library(text string) (tree []byte, msg string) {
	n, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(strings.NewReader(text), nil))).Parse(parser.ParseOptions{Mode: parser.ScriptMode})
	if err != nil {
		return nil, err.Error()
	}
	b, err := json.Marshal(n.ESTree())
	if err != nil {
		return nil, err.Error()
	}
	return b, ""
}

// wrong tells what is wrong with the answer to a text.
func (a *webArg) wrong(w webAnswer) string {
	if w.Threw != nil {
		return "did not return an answer: " + *w.Threw
	}
	if (w.Result == nil) == (w.Error == nil) {
		return "not either a result or an error"
	}
	if a.Kind != "text" && a.Kind != "long" {
		return ""
	}
	tree, msg := library(a.text)
	if msg != "" {
		if a.v == "accept" {
			return "specified: accepted as " + a.tree
		}
		if w.Error == nil || *w.Error != msg {
			return fmt.Sprintf("the library's message is %q", msg)
		}
		return ""
	}
	if a.v == "reject" {
		return "specified: rejected"
	}
	if w.Result == nil {
		return "the library has a tree"
	}
	got, err := decodeJSON([]byte(*w.Result))
	if err != nil {
		return "the result is not JSON: " + err.Error()
	}
	lib, err := decodeJSON(tree)
	check(err)
	if !reflect.DeepEqual(got, lib) {
		return "the library's tree is " + string(tree)
	}
	if a.v == "accept" {
		if maskedTree(got) != a.tree {
			return "specified: accepted as " + a.tree
		}
	}
	return ""
}

func (a *webArg) String() string {
	switch a.Kind {
	case "text":
		return fmt.Sprintf("%.300q", a.text)
	case "long":
		return fmt.Sprintf("%d×%q %q %d×%q", a.N, a.Pre, a.Mid, a.N, a.Suf)
	}
	return a.Kind
}

func units(s string) (u []int) {
	for _, c := range s {
		if c >= 0x10000 {
			c -= 0x10000
			u = append(u, int(0xd800+c>>10), int(0xdc00+c&0x3ff))
		} else {
			u = append(u, int(c))
		}
	}
	return
}

func cmdWeb(argv []string) {
	var driver, wexec, wasm, walks, deep *string
	j, in := harnessFlags("web", argv, func(fs *flag.FlagSet) {
		driver = fs.String("driver", "", "web.js")
		wexec = fs.String("exec", "", "wasm_exec.js")
		wasm = fs.String("wasm", "", "the program")
		walks = fs.String("walks", "", "random programs")
		deep = fs.String("deep", "", "JSON list of long texts, each a history with a short one after it")
	})
	j.limit = 120 * time.Second
	pages := make([]page, len(j.slots))
	args := map[int]*webArg{}
	first := map[int]webAnswer{} // of those that are not texts
	var histories, calls, broken int64
	bad := func(hist []webArg, k int, what string) {
		var s []string
		for i := range hist[:k+1] {
			s = append(s, hist[i].String())
		}
		if len(s) > 4 {
			s = append([]string{fmt.Sprintf("(%d calls)", len(s)-3)}, s[len(s)-3:]...)
		}
		atomic.AddInt64(&broken, 1)
		j.report(mismatch{Key: "web:" + strings.Join(s, ", "), What: "calls with " + strings.Join(s, ", ") + ": " + what,
			Case: map[string]interface{}{"cmd": "web", "calls": hist[:k+1]}})
	}
	history := func(w int, hist []webArg, gap bool, each func(k int, a webAnswer) string) {
		p := &pages[w]
		if p.cmd == nil {
			check(p.start(*driver, *wexec, *wasm))
		}
		j.enter(w, "web", "script", fmt.Sprint(len(hist)))
		d, err := p.run(hist, gap)
		j.leave(w)
		n := atomic.AddInt64(&histories, 1)
		atomic.AddInt64(&calls, int64(len(hist)))
		if err != nil {
			bad(hist, len(hist)-1, err.Error())
			p.stop()
			return
		}
		for k := range hist {
			if what := hist[k].wrong(d.Answers[k]); what != "" {
				bad(hist, k, fmt.Sprintf("%s; but: %s", what, d.Answers[k]))
				return
			}
			if each != nil {
				if what := each(k, d.Answers[k]); what != "" {
					bad(hist, k, fmt.Sprintf("%s; but: %s", what, d.Answers[k]))
					return
				}
			}
		}
		if d.Gone {
			bad(hist, len(hist)-1, "the program has ended")
		}
		if n%97 == 1 {
			var s []string
			for k := 0; k < len(hist) && k < 5; k++ {
				s = append(s, hist[k].String()+" -> "+d.Answers[k].String())
			}
			j.sample(s)
		}
	}
	var once sync.Once
	prepare := func() {
		// What there is to be answered to what is not a text.
		for i := 1; i <= len(args); i++ {
			if args[i].Kind != "text" {
				i := i
				history(0, []webArg{*args[i]}, false, func(k int, a webAnswer) string { first[i] = a; return "" })
			}
		}
	}
	parallelLines(j, in, func(x map[string]interface{}) {
		if _, ok := x["arg"]; !ok {
			return
		}
		a := &webArg{Kind: x["kind"].(string), v: x["v"].(string), text: string(runes(x["s"]))}
		for _, u := range x["u"].([]interface{}) {
			a.U = append(a.U, asInt(u))
		}
		w := &strings.Builder{}
		project(w, x["tree"])
		a.tree = w.String()
		args[asInt(x["arg"])] = a
	}, func(w int, line string) {
		v, err := decodeJSON([]byte(line))
		check(err)
		var hist []webArg
		var ids []int
		for k, i := range v.([]interface{}) {
			a := *args[asInt(i)]
			a.More = a.Kind == "text" && (k+len(line))%5 == 0
			hist = append(hist, a)
			ids = append(ids, asInt(i))
		}
		once.Do(prepare)
		history(w, hist, len(line)%2 == 0, func(k int, a webAnswer) string {
			if f, ok := first[ids[k]]; ok && !reflect.DeepEqual(f, a) {
				return "as the first call it is answered " + f.String()
			}
			return ""
		})
	})
	// Random programs, a hundred in a history.
	if *walks != "" {
		cases := loadWalks(strings.Split(*walks, ","))
		const each = 100
		j.parallel((len(cases)+each-1)/each, func(w, i int) {
			var hist []webArg
			for k := i * each; k < len(cases) && k < (i+1)*each; k++ {
				c := &cases[k]
				if c.mode != "script" {
					continue
				}
				text, _, _ := layout(c.toks, false)
				a := webArg{Kind: "text", text: text, U: units(text), v: "any"}
				if c.tree != "" {
					a.v, a.tree = "accept", c.tree
				}
				hist = append(hist, a)
			}
			if len(hist) > 0 {
				history(w, hist, i%2 == 0, nil)
			}
		})
	}
	if *deep != "" {
		var list []webArg
		check(json.Unmarshal([]byte(*deep), &list))
		j.parallel(len(list), func(w, i int) {
			a := list[i]
			a.Kind, a.v, a.text = "long", "any", strings.Repeat(a.Pre, a.N)+a.Mid+strings.Repeat(a.Suf, a.N)
			history(w, []webArg{a, {Kind: "text", text: "a;", U: units("a;"), v: "any"}}, false, nil)
		})
	}
	// Texts that differ in one place, one after the other; and very many.
	text := func(s string) webArg { return webArg{Kind: "text", text: s, U: units(s), v: "any"} }
	sizes := []int{1, 2, 7, 31, 64, 100, 500, 2000, 5000, 0}
	j.parallel(len(sizes), func(w, i int) {
		n := sizes[i]
		var hist []webArg
		if n == 0 {
			for k := 0; k < 4000; k++ {
				hist = append(hist, text(fmt.Sprintf([]string{"a%d", "a%d b", "'%d'", "%d\n;", "(%d"}[k%5], k*k%3001)))
			}
		} else {
			base := strings.Repeat("a;", n)
			for _, k := range []int{0, 1, n / 2, n - 1} {
				if k >= n {
					continue
				}
				for _, c := range []string{"b;", ");", "a\n", "1;"} {
					hist = append(hist, text(base[:2*k]+c+base[2*k+2:]), text(base))
				}
			}
			hist = append(hist, text(base+" "), text(" "+base), text(base+"a"), text(base[:2*n-1]))
		}
		history(w, hist, false, nil)
	})
	for i := range pages {
		pages[i].stop()
	}
	j.count("histories", histories)
	j.count("calls", calls)
	j.finish(nil)
}
