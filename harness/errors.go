package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/errs"
)

// The errors of spec/ErrorsEnum.tla made with the project's types, and the
// errors that texts gave, for spec/ErrorsCheck.tla to judge.

func init() {
	extra["errors"] = cmdErrors
	if s, ok := os.LookupEnv("VERIF_URL"); ok {
		testURL = nil
		if s != "" {
			u, err := url.Parse(s)
			check(err)
			testURL = u
		}
	}
	if s := os.Getenv("VERIF_ERRORS"); s != "" {
		recorded = &errorRecord{file: s, byReason: map[string]*errorShown{}, byPlace: map[string]*errorShown{}}
	}
}

type errorShown struct {
	Kind   string `json:"kind"`
	URI    string `json:"uri"`
	Row    int    `json:"row"`
	Col    int    `json:"col"`
	Reason string `json:"reason"`
	Text   string `json:"text"`
	Bare   bool   `json:"bare"`  // the text had no address
	Noise  bool   `json:"noise"` // the reason has the marks of a broken format
	Mode   string `json:"mode"`
	Source string `json:"source"`
}

type errorRecord struct {
	mu                sync.Mutex
	file              string
	byReason, byPlace map[string]*errorShown
}

var recorded *errorRecord

// see notes an error unless one of its reason and one of its place and kind
// are there already.
func (r *errorRecord) see(o *outcome, mode, source string) {
	if o.err == nil {
		return
	}
	e := &errorShown{Kind: o.kind, Row: o.row, Col: o.col, Text: o.msg, Mode: mode, Source: source, Bare: o.uri == nil}
	if o.uri != nil {
		e.URI = o.uri.String()
	}
	if !sameURL(o.uri) {
		e.Kind = "of another text"
	}
	inner := errors.Unwrap(o.err)
	if inner != nil {
		e.Reason = inner.Error()
	}
	for _, s := range []string{"%!", "0xc0", "<nil>", "&{", "runtime error", "internal error"} {
		if strings.Contains(e.Reason, s) && !strings.Contains(source, s) {
			e.Noise = true
		}
	}
	less := func(a, b *errorShown) bool {
		if len(a.Source) != len(b.Source) {
			return len(a.Source) < len(b.Source)
		}
		if a.Source != b.Source {
			return a.Source < b.Source
		}
		return a.Mode < b.Mode
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	k := e.Kind + "|" + e.Reason
	if old := r.byReason[k]; old == nil || less(e, old) {
		r.byReason[k] = e
	}
	k = fmt.Sprint(e.Kind, "|", e.Row, "|", e.Col)
	if old := r.byPlace[k]; old == nil || less(e, old) {
		r.byPlace[k] = e
	}
}

func (r *errorRecord) write() {
	var all []*errorShown
	for _, m := range []map[string]*errorShown{r.byReason, r.byPlace} {
		for _, e := range m {
			all = append(all, e)
		}
	}
	sort.Slice(all, func(a, b int) bool {
		x, y := all[a], all[b]
		if len(x.Source) != len(y.Source) {
			return len(x.Source) < len(y.Source)
		}
		if x.Source != y.Source {
			return x.Source < y.Source
		}
		return x.Mode < y.Mode
	})
	fd, err := os.Create(r.file)
	check(err)
	bw := bufio.NewWriter(fd)
	e := json.NewEncoder(bw)
	e.SetEscapeHTML(false)
	for i, s := range all {
		if i > 0 && *s == *all[i-1] {
			continue
		}
		check(e.Encode(s))
	}
	check(bw.Flush())
	check(fd.Close())
}

// makeError puts an error of the specification together.
func makeError(layers []interface{}, inner error) error {
	if len(layers) == 0 {
		return inner
	}
	l := layers[0].(map[string]interface{})
	inner = makeError(layers[1:], inner)
	loc := placeOf(l)
	switch l["kind"] {
	case "syntax":
		return &errs.SyntaxError{Location: loc, Err: inner}
	case "encoding":
		return &errs.EncodingError{Location: loc, Err: inner}
	}
	return &errs.ParserError{Location: loc, Err: inner}
}

func placeOf(l map[string]interface{}) ast.Location {
	u, err := url.Parse(l["uri"].(string))
	check(err)
	return ast.Location{URI: u, Row: asInt(l["row"]), Column: asInt(l["col"])}
}

func samePlace(loc ast.Location, want []interface{}) bool {
	l := want[0].(map[string]interface{})
	return loc.URI != nil && loc.URI.String() == l["uri"] && loc.Row == asInt(l["row"]) && loc.Column == asInt(l["col"])
}

// tellError compares what an error says and is with the specification.
func tellError(v map[string]interface{}) (what string) {
	defer func() {
		if p := recover(); p != nil {
			what = fmt.Sprint("panic: ", p)
		}
	}()
	reason := errors.New(v["reason"].(string))
	layers := v["layers"].([]interface{})
	err := makeError(layers, reason)
	if err.Error() != v["text"] {
		return fmt.Sprintf("reads %q, not %q", err.Error(), v["text"])
	}
	if !errors.Is(err, reason) {
		return fmt.Sprintf("%q hides its reason", err)
	}
	if len(layers) > 0 {
		if got, want := errors.Unwrap(err), makeError(layers[1:], reason); got == nil || got.Error() != want.Error() {
			return fmt.Sprintf("%q has %q inside", err, got)
		}
		l := placeOf(layers[0].(map[string]interface{}))
		span := l.Span()
		if span.Start != l || span.End != l || span.String() != l.String() || !strings.HasPrefix(err.Error(), l.String()+": ") {
			return fmt.Sprintf("%q begins with the place %q, as a span %q", err, l.String(), span.String())
		}
	}
	as := v["as"].(map[string]interface{})
	var s *errs.SyntaxError
	var e *errs.EncodingError
	var p *errs.ParserError
	for _, c := range []struct {
		kind string
		got  bool
		loc  func() ast.Location
	}{
		{"syntax", errors.As(err, &s), func() ast.Location { return s.Location }},
		{"encoding", errors.As(err, &e), func() ast.Location { return e.Location }},
		{"parser", errors.As(err, &p), func() ast.Location { return p.Location }},
	} {
		want := as[c.kind].([]interface{})
		if c.got != (len(want) > 0) || c.got && !samePlace(c.loc(), want) {
			return fmt.Sprintf("%q as a %s error: %v, specified: %v", err, c.kind, c.got, want)
		}
	}
	return ""
}

func cmdErrors(args []string) {
	j, in := harnessFlags("errors", args, nil)
	var items []map[string]interface{}
	tlcLines(in, func(v interface{}) {
		if x, ok := v.(map[string]interface{}); ok && x["layers"] != nil {
			items = append(items, x)
		}
	})
	j.parallel(len(items), func(w, i int) {
		v := items[i]
		text := v["text"].(string)
		if i%5003 == 0 {
			j.sample(v)
		}
		if what := tellError(v); what != "" {
			j.report(mismatch{Key: "error:" + text, What: "an error: " + what, Case: v})
		}
	})
	j.count("errors", int64(len(items)))
	j.finish(nil)
}
