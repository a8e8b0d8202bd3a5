package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"strings"
	"sync"
)

// The projection of ESTree JSON onto the trees of the specification
// (spec/Parser.tla): a node is a list of its type and its fields in a fixed
// order, and an absent node and an empty list are both [].

type shape struct {
	fields []string
}

var shapes = map[string][]string{
	"Program":                  {"sourceType", "body"},
	"ExpressionStatement":      {"expression", "directive?"},
	"BlockStatement":           {"body"},
	"EmptyStatement":           {},
	"VariableDeclaration":      {"kind", "declarations"},
	"VariableDeclarator":       {"id", "init"},
	"IfStatement":              {"test", "consequent", "alternate"},
	"ForStatement":             {"init", "test", "update", "body"},
	"ForInStatement":           {"left", "right", "body"},
	"ForOfStatement":           {"left", "right", "body"},
	"WhileStatement":           {"test", "body"},
	"DoWhileStatement":         {"body", "test"},
	"ContinueStatement":        {"label"},
	"BreakStatement":           {"label"},
	"ReturnStatement":          {"argument"},
	"ThrowStatement":           {"argument"},
	"TryStatement":             {"block", "handler", "finalizer"},
	"CatchClause":              {"param", "body"},
	"SwitchStatement":          {"discriminant", "cases"},
	"SwitchCase":               {"test", "consequent"},
	"LabeledStatement":         {"label", "body"},
	"FunctionDeclaration":      {"id", "params", "body", "generator?", "async?"},
	"FunctionExpression":       {"id", "params", "body", "generator?", "async?"},
	"ArrowFunctionExpression":  {"params", "body", "async?", "expression?"},
	"ClassDeclaration":         {"id", "superClass", "body"},
	"ClassExpression":          {"id", "superClass", "body"},
	"ClassBody":                {"body"},
	"MethodDefinition":         {"key", "computed?", "value", "kind", "static?"},
	"Property":                 {"key", "computed?", "value", "kind", "method?", "shorthand?"},
	"ObjectExpression":         {"properties"},
	"ArrayExpression":          {"elements"},
	"ObjectPattern":            {"properties"},
	"ArrayPattern":             {"elements"},
	"RestElement":              {"argument"},
	"SpreadElement":            {"argument"},
	"AssignmentPattern":        {"left", "right"},
	"Identifier":               {"name"},
	"ThisExpression":           {},
	"UnaryExpression":          {"operator", "argument"},
	"UpdateExpression":         {"operator", "prefix?", "argument"},
	"BinaryExpression":         {"operator", "left", "right"},
	"LogicalExpression":        {"operator", "left", "right"},
	"AssignmentExpression":     {"operator", "left", "right"},
	"ConditionalExpression":    {"test", "consequent", "alternate"},
	"CallExpression":           {"callee", "arguments"},
	"NewExpression":            {"callee", "arguments"},
	"MemberExpression":         {"object", "property", "computed?"},
	"SequenceExpression":       {"expressions"},
	"ImportDeclaration":        {"specifiers", "source"},
	"ImportDefaultSpecifier":   {"local"},
	"ImportNamespaceSpecifier": {"local"},
	"ImportSpecifier":          {"imported", "local"},
}

func decodeJSON(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	err := d.Decode(&v)
	return v, err
}

// project appends the projection of v to w.
func project(w *strings.Builder, v interface{}) {
	switch x := v.(type) {
	case nil:
		w.WriteString("[]")
	case bool:
		if x {
			w.WriteString("true")
		} else {
			w.WriteString("false")
		}
	case string:
		writeString(w, x)
	case json.Number:
		w.WriteString(x.String())
	case []interface{}:
		w.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				w.WriteByte(',')
			}
			project(w, e)
		}
		w.WriteByte(']')
	case map[string]interface{}:
		typ, _ := x["type"].(string)
		if typ == "Literal" {
			projectLiteral(w, x)
			return
		}
		fields, ok := shapes[typ]
		w.WriteByte('[')
		writeString(w, typ)
		if !ok {
			// Not a node type of the specification: show everything, so that
			// it can equal nothing.
			b, _ := json.Marshal(x)
			w.WriteString(",")
			writeString(w, "unknown node "+string(b))
			w.WriteByte(']')
			return
		}
		for _, f := range fields {
			w.WriteByte(',')
			name := strings.TrimSuffix(f, "?")
			val, present := x[name]
			switch {
			case name == "directive":
				s, _ := val.(string)
				writeString(w, s)
			case f != name && (!present || val == nil):
				w.WriteString("false")
			case name == "source":
				projectSource(w, val)
			default:
				project(w, val)
			}
		}
		w.WriteByte(']')
	default:
		fmt.Fprintf(w, "%q", fmt.Sprint(v))
	}
}

func writeString(w *strings.Builder, s string) {
	b := &bytes.Buffer{}
	e := json.NewEncoder(b)
	e.SetEscapeHTML(false)
	_ = e.Encode(s)
	w.Write(bytes.TrimRight(b.Bytes(), "\n"))
}

func projectLiteral(w *strings.Builder, x map[string]interface{}) {
	raw, _ := x["raw"].(string)
	if re, ok := x["regex"].(map[string]interface{}); ok {
		p, _ := re["pattern"].(string)
		f, _ := re["flags"].(string)
		w.WriteString(`["Literal","re",`)
		writeString(w, p)
		w.WriteByte(',')
		writeString(w, f)
		if raw != "/"+p+"/"+f {
			w.WriteByte(',')
			writeString(w, "raw "+raw)
		}
		w.WriteByte(']')
		return
	}
	kind, v, rest, wrong := "", "", "", ""
	switch val := x["value"].(type) {
	case string:
		kind, v, rest = "str", val, raw
	case json.Number:
		kind, v = "num", raw
		if f, err := val.Float64(); err != nil || f != denoted(raw) {
			wrong = "value " + val.String()
		}
	case bool:
		kind, v = "bool", fmt.Sprint(val)
		if raw != v && raw != "" {
			wrong = "raw " + raw
		}
	case nil:
		kind, v = "null", "null"
		if raw != "null" && raw != "" {
			// A number beyond the range of JSON numbers.
			kind, v = "num", raw
			if !math.IsInf(denoted(raw), 1) {
				wrong = "value null"
			}
		}
	}
	w.WriteString(`["Literal","` + kind + `",`)
	writeString(w, v)
	w.WriteByte(',')
	writeString(w, rest)
	if wrong != "" {
		// Equal to nothing in the specification.
		w.WriteByte(',')
		writeString(w, wrong)
	}
	w.WriteByte(']')
}

// denoted is the double nearest to what a numeric literal denotes, NaN if it
// is none.
func denoted(raw string) float64 {
	if f, ok := denotedBy.Load(raw); ok {
		return f.(float64)
	}
	f := math.NaN()
	s := strings.ToLower(strings.ReplaceAll(raw, "_", ""))
	if m := decimal.FindStringSubmatch(s); m != nil && m[1]+m[2] != "" {
		f = nearest([]interface{}{json.Number("10"), m[1], m[2], strings.TrimPrefix(m[3], "+"), m[4]})
	}
	for _, b := range []struct {
		base json.Number
		re   *regexp.Regexp
	}{{"2", binary}, {"8", octal}, {"8", legacy}, {"16", hexadecimal}} {
		if m := b.re.FindStringSubmatch(s); m != nil {
			f = nearest([]interface{}{b.base, m[1], "", "", ""})
		}
	}
	denotedBy.Store(raw, f)
	return f
}

var (
	denotedBy   sync.Map
	decimal     = regexp.MustCompile(`^([0-9]*)\.?([0-9]*)(?:e([+-]?)([0-9]+))?$`)
	binary      = regexp.MustCompile(`^0b([01]+)$`)
	octal       = regexp.MustCompile(`^0o([0-7]+)$`)
	legacy      = regexp.MustCompile(`^0([0-7]+)$`)
	hexadecimal = regexp.MustCompile(`^0x([0-9a-f]+)$`)
)

// projectSource projects the source of an import declaration by its value.
func projectSource(w *strings.Builder, v interface{}) {
	m, _ := v.(map[string]interface{})
	s, _ := m["value"].(string)
	w.WriteString(`["Source",`)
	writeString(w, s)
	w.WriteByte(']')
}
