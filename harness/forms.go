package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// What the nodes of the ESTree documents look like that the code under test
// makes, for spec/Estree.tla to judge.

func init() { extra["forms"] = cmdForms }

type form struct {
	T    string              `json:"t"`
	F    map[string][]string `json:"f"`
	Mode string              `json:"mode"`
	Text string              `json:"text"`
}

var formEnums = map[string]bool{"operator": true, "kind": true, "sourceType": true, "type": true}

// nodeKind is the type of a node, with more said of some.
func nodeKind(v interface{}) string {
	if v == nil {
		return "null"
	}
	m, ok := v.(map[string]interface{})
	if !ok {
		return fmt.Sprintf("no node: %T", v)
	}
	t, ok := m["type"].(string)
	if !ok {
		return "no type"
	}
	switch t {
	case "Literal":
		raw, hasRaw := m["raw"].(string)
		if _, ok := m["value"].(string); !hasRaw && ok {
			return "Literal:string"
		}
		switch {
		case m["regex"] != nil:
			return "Literal:regex"
		case strings.HasPrefix(raw, "'") || strings.HasPrefix(raw, "\""):
			if _, ok := m["value"].(string); !ok {
				return "Literal:string without a string"
			}
			return "Literal:string"
		case raw == "true" || raw == "false":
			if b, ok := m["value"].(bool); !ok || fmt.Sprint(b) != raw {
				return "Literal:boolean without its value"
			}
			return "Literal:boolean"
		case raw == "null":
			if v, ok := m["value"]; !ok || v != nil {
				return "Literal:null with a value"
			}
			return "Literal:null"
		}
		return "Literal:number"
	case "FunctionExpression":
		if m["id"] == nil {
			return "FunctionExpression:anonymous"
		}
		return "FunctionExpression:named"
	case "VariableDeclaration":
		if m["kind"] != "var" {
			return "VariableDeclaration:lexical"
		}
		if l, ok := m["declarations"].([]interface{}); ok && len(l) == 1 {
			if d, ok := l[0].(map[string]interface{}); ok && d["init"] == nil {
				return "VariableDeclaration:bare"
			}
		}
		return "VariableDeclaration:other"
	}
	return t
}

func collectForms(v interface{}, add func(key string, f *form)) {
	switch x := v.(type) {
	case []interface{}:
		for _, e := range x {
			collectForms(e, add)
		}
	case map[string]interface{}:
		if _, ok := x["type"]; !ok {
			return
		}
		f := &form{F: map[string][]string{}}
		f.T, _ = x["type"].(string)
		for k, val := range x {
			var out []string
			switch y := val.(type) {
			case nil:
				out = []string{"null"}
			case bool:
				out = []string{"bool", fmt.Sprint(y)}
			case string:
				out = []string{"string", ""}
				if formEnums[k] {
					out[1] = y
				}
			case json.Number:
				out = []string{"number"}
			case []interface{}:
				set := map[string]bool{}
				for i, e := range y {
					t := nodeKind(e)
					if t == "RestElement" && i < len(y)-1 {
						t += ":early"
					}
					set[t] = true
				}
				out = []string{"list"}
				for t := range set {
					out = append(out, t)
				}
				sort.Strings(out[1:])
			case map[string]interface{}:
				if _, ok := y["type"]; ok {
					out = []string{"node", nodeKind(y)}
				} else {
					out = []string{"object"}
					for t := range y {
						out = append(out, t)
					}
					sort.Strings(out[1:])
				}
			}
			f.F[k] = out
			collectForms(val, add)
		}
		var keys []string
		for k := range f.F {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b := strings.Builder{}
		b.WriteString(f.T)
		for _, k := range keys {
			b.WriteString("|" + k + "=" + strings.Join(f.F[k], ","))
		}
		add(b.String(), f)
	}
}

func cmdForms(args []string) {
	fs := flag.NewFlagSet("forms", flag.ExitOnError)
	in := fs.String("in", "", "output of TLC for an enumeration")
	walks := fs.String("walks", "", "outputs of TLC for random programs")
	out := fs.String("out", "", "file for the forms")
	res := fs.String("res", "", "result file")
	progress := fs.String("progress", "", "progress file")
	known := fs.String("known", "", "keys of known findings")
	check(fs.Parse(args))
	j := newJob(*res, *progress, *known, 10*time.Second)
	type src struct{ mode, text string }
	var texts []src
	if *in != "" {
		for _, fr := range loadFrames(*in) {
			for key, n := range fr.nodes {
				if n.v != 'A' {
					continue
				}
				r := &enumRun{}
				text, _, _ := layout(r.tokens(fr, []byte(key), true), fr.glue)
				texts = append(texts, src{fr.mode, text})
			}
		}
	}
	if *walks != "" {
		for _, c := range loadWalks(strings.Split(*walks, ",")) {
			if c.tree == "" {
				continue
			}
			text, _, _ := layout(c.toks, false)
			texts = append(texts, src{c.mode, text})
		}
	}
	sort.Slice(texts, func(a, b int) bool {
		if len(texts[a].text) != len(texts[b].text) {
			return len(texts[a].text) < len(texts[b].text)
		}
		if texts[a].mode != texts[b].mode {
			return texts[a].mode < texts[b].mode
		}
		return texts[a].text < texts[b].text
	})
	var mu sync.Mutex
	forms := map[string]*form{}
	var docs, nodes int64
	j.parallel(len(texts), func(w, i int) {
		s := texts[i]
		o := j.parse(w, s.mode, s.text)
		if o.kind != "accept" {
			return
		}
		b, err := o.estree()
		if err == nil {
			var v interface{}
			v, err = decodeJSON(b)
			atomic.AddInt64(&docs, 1)
			collectForms(v, func(key string, f *form) {
				atomic.AddInt64(&nodes, 1)
				mu.Lock()
				if old := forms[key]; old == nil || len(s.text) < len(old.Text) || len(s.text) == len(old.Text) && s.mode+s.text < old.Mode+old.Text {
					f.Mode, f.Text = s.mode, s.text
					forms[key] = f
				}
				mu.Unlock()
			})
			// The outermost node is what the mode says.
			root := nodeKind(v)
			ok := false
			m, _ := v.(map[string]interface{})
			switch s.mode {
			case "script", "module":
				ok = root == "Program" && m["sourceType"] == s.mode
			case "expression":
				ok = root != "Program" && !strings.HasSuffix(root, "Statement")
			}
			if !ok {
				err = fmt.Errorf("the document is a %s", root)
			}
		}
		if err != nil {
			j.report(mismatch{Key: s.mode + ":" + s.text, What: fmt.Sprintf("%s %q does not convert to ESTree: %v", s.mode, s.text, err),
				Case: map[string]interface{}{"mode": s.mode, "text": s.text}})
		}
	})
	var keys []string
	for k := range forms {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fd, err := os.Create(*out)
	check(err)
	bw := bufio.NewWriter(fd)
	e := json.NewEncoder(bw)
	e.SetEscapeHTML(false)
	for _, k := range keys {
		check(e.Encode(forms[k]))
	}
	check(bw.Flush())
	check(fd.Close())
	j.count("documents", docs)
	j.count("nodes", nodes)
	j.count("forms", int64(len(keys)))
	j.finish(nil)
}
