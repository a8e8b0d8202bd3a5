package main

import (
	"bufio"
	"encoding/json"
	"os"
	"strconv"
	"strings"
)

// tlcLines calls f with every value that the specification printed with
// PrintT(ToJson(...)) while TLC ran.
func tlcLines(file string, f func(v interface{})) {
	fd, err := os.Open(file)
	check(err)
	defer fd.Close()
	r := bufio.NewReaderSize(fd, 1<<20)
	done := false
	for {
		line, err := r.ReadString('\n')
		line = strings.TrimRight(line, "\n")
		if len(line) > 1 && line[0] == '"' {
			s, err := strconv.Unquote(line)
			if err != nil {
				s = unquoteTLC(line)
			}
			v, err := decodeJSON([]byte(s))
			if err == nil {
				f(v)
			}
		}
		if strings.HasPrefix(line, "Model checking completed. No error") || strings.Contains(line, "states checked") {
			done = true
		}
		if err != nil {
			break
		}
	}
	_ = done
}

// unquoteTLC undoes the escapes of a TLA+ string.
func unquoteTLC(s string) string {
	s = s[1 : len(s)-1]
	b := strings.Builder{}
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 'n':
				b.WriteByte('\n')
			case 't':
				b.WriteByte('\t')
			case 'r':
				b.WriteByte('\r')
			case 'f':
				b.WriteByte('\f')
			default:
				b.WriteByte(s[i])
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func asInt(v interface{}) int {
	n, _ := v.(json.Number)
	i, _ := n.Int64()
	return int(i)
}

// asTexts reads a list of texts, each a string or a list of code points.
func asTexts(v interface{}) []string {
	var out []string
	l, _ := v.([]interface{})
	for _, e := range l {
		s, ok := e.(string)
		if !ok {
			s = string(runes(e))
		}
		out = append(out, s)
	}
	return out
}

// byteTexts reads a list of lists of bytes.
func byteTexts(v interface{}) []string {
	var out []string
	for _, e := range v.([]interface{}) {
		var b []byte
		for _, c := range e.([]interface{}) {
			b = append(b, byte(asInt(c)))
		}
		out = append(out, string(b))
	}
	return out
}
