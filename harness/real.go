package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/url"
	"strings"
	"unicode/utf8"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

// textReader is the source text as the code under test reads it; it notices
// how far that got.
type textReader struct {
	s     string
	pos   int
	last  int // size of the last rune read, 0 if none
	max   int // furthest position read
	atEOF bool
}

func (r *textReader) ReadRune() (rune, int, error) {
	if r.pos >= len(r.s) {
		r.atEOF = true
		r.last = 0
		return 0, 0, io.EOF
	}
	c, n := utf8.DecodeRuneInString(r.s[r.pos:])
	r.pos += n
	r.last = n
	if r.pos > r.max {
		r.max = r.pos
	}
	return c, n, nil
}

func (r *textReader) UnreadRune() error {
	if r.last == 0 {
		return errors.New("nothing to unread")
	}
	r.pos -= r.last
	r.last = 0
	return nil
}

var testURL = &url.URL{Scheme: "file", Path: "/t.js"}

// sameURL tells whether u is the address the texts are given.
func sameURL(u *url.URL) bool {
	return u == testURL || u != nil && testURL != nil && *u == *testURL
}

// outcome is what the code under test made of a text.
type outcome struct {
	kind     string // "accept", "syntax", "encoding", "parser", "error" (of another type), "panic"
	msg      string
	row, col int
	uri      *url.URL
	err      error
	node     ast.Node
	read     int // how many bytes were read
	atEOF    bool
}

func parseMode(m string) parser.ParseMode {
	switch m {
	case "script":
		return parser.ScriptMode
	case "module":
		return parser.ModuleMode
	case "expression":
		return parser.ExpressionMode
	}
	panic("unknown mode " + m)
}

func (o *outcome) setError(err error) {
	o.err = err
	o.msg = err.Error()
	var loc *ast.Location
	switch e := err.(type) {
	case *errs.SyntaxError:
		o.kind, loc = "syntax", &e.Location
	case *errs.EncodingError:
		o.kind, loc = "encoding", &e.Location
	case *errs.ParserError:
		o.kind, loc = "parser", &e.Location
	default:
		o.kind = "error"
	}
	if loc != nil {
		o.row, o.col, o.uri = loc.Row, loc.Column, loc.URI
	}
}

func parseFrom(mode string, r io.RuneScanner) (o outcome) {
	defer func() {
		if p := recover(); p != nil {
			o.kind, o.msg = "panic", fmt.Sprint(p)
			o.node = nil
		}
	}()
	n, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(r, testURL))).Parse(parser.ParseOptions{Mode: parseMode(mode)})
	if err != nil {
		o.setError(err)
		return o
	}
	o.kind, o.node = "accept", n
	return o
}

func parseText(mode, text string) outcome {
	r := &textReader{s: text}
	o := parseFrom(mode, r)
	o.read, o.atEOF = r.max, r.atEOF
	return o
}

// declared tells whether the outcome is a tree that converts to ESTree or an
// error of a kind that parsing a text is allowed to end in.
func (o *outcome) declared() bool {
	switch o.kind {
	case "accept":
		_, err := o.estree()
		if err != nil {
			o.kind, o.msg = "conversion", err.Error()
		}
		return err == nil && o.node != nil
	case "syntax", "parser":
		return o.err != nil && o.node == nil
	}
	return false
}

// tree is the projected syntax tree of an accepted text.
func (o *outcome) tree() (t string) { return o.treeOf(nil) }

// masked is the tree with a tab for every character that is not printable
// ASCII, which is how spec/Lexer.tla writes the text of tokens.
func (o *outcome) masked() string { return o.treeOf(mask) }

func mask(r rune) rune {
	if r < 32 || r > 126 {
		return '\t'
	}
	return r
}

// maskedTree is the same for a document; it leaves nothing of that as it was.
func maskedTree(v interface{}) string {
	w := &strings.Builder{}
	project(w, mapStrings(v, mask))
	return w.String()
}

func mapStrings(v interface{}, f func(rune) rune) interface{} {
	switch x := v.(type) {
	case string:
		return strings.Map(f, x)
	case []interface{}:
		for i := range x {
			x[i] = mapStrings(x[i], f)
		}
	case map[string]interface{}:
		for k := range x {
			x[k] = mapStrings(x[k], f)
		}
	}
	return v
}

func (o *outcome) treeOf(f func(rune) rune) (t string) {
	b, err := o.estree()
	if err != nil {
		return "error: " + err.Error()
	}
	v, err := decodeJSON(b)
	if err != nil {
		return "error: " + err.Error()
	}
	if f != nil {
		v = mapStrings(v, f)
	}
	w := &strings.Builder{}
	project(w, v)
	return w.String()
}

func (o *outcome) estree() (b []byte, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return json.Marshal(o.node.ESTree())
}

// String says in one line what happened.
func (o *outcome) String() string {
	switch o.kind {
	case "accept":
		return "accepted as " + o.tree()
	default:
		return o.kind + " error: " + o.msg
	}
}
