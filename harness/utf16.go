package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/jchv/cleansheets/ecmascript/lexer"
)

// The strings of spec/Utf16Enum.tla against the encoder.

func init() {
	extra["utf16"] = cmdUtf16
	replays["utf16"] = func(_, text string) { fmt.Println(encode16(text)) }
}

func encode16(s string) (u []uint16, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return lexer.EncodeUTF16(s), nil
}

func asBytes(v interface{}) []byte {
	var b []byte
	for _, e := range v.([]interface{}) {
		b = append(b, byte(asInt(e)))
	}
	return b
}

func asUnits(v interface{}) []uint16 {
	u := []uint16{}
	for _, e := range v.([]interface{}) {
		u = append(u, uint16(asInt(e)))
	}
	return u
}

func cmdUtf16(args []string) {
	j, in := harnessFlags("utf16", args, nil)
	var items [][]interface{}
	tlcLines(in, func(v interface{}) {
		if x, ok := v.([]interface{}); ok && len(x) > 2 {
			items = append(items, x)
		}
	})
	var points, strs, long int64
	test := func(w int, s string, want []uint16) {
		j.enter(w, "utf16", "", s)
		got, err := encode16(s)
		j.leave(w)
		if err == nil && len(got) == len(want) {
			same := true
			for i := range got {
				if got[i] != want[i] {
					same = false
				}
			}
			if same {
				return
			}
		}
		what := fmt.Sprintf("%04x", got)
		if err != nil {
			what = err.Error()
		}
		short := s
		if len(short) > 60 {
			short = short[:60]
		}
		if len(what) > 300 {
			what = what[:300] + "..."
		}
		wants := fmt.Sprintf("%04x", want)
		if len(wants) > 300 {
			wants = wants[:300] + "..."
		}
		j.report(mismatch{
			Key:  fmt.Sprintf("%x", s),
			What: fmt.Sprintf("EncodeUTF16(%q) (%d bytes): specified: %s; but: %s", short, len(s), wants, what),
			Case: map[string]interface{}{"cmd": "utf16", "bytes": []byte(s)},
		})
	}
	j.parallel(len(items), func(w, i int) {
		x := items[i]
		switch x[0].(string) {
		case "block":
			lo := asInt(x[1])
			first := asUnits(x[2])
			var all []uint16
			b := strings.Builder{}
			for c := lo; c < lo+1024; c++ {
				u := append([]uint16{}, first...)
				u[len(u)-1] += uint16(c - lo)
				test(w, string(rune(c)), u)
				atomic.AddInt64(&points, 1)
				b.WriteRune(rune(c))
				all = append(all, u...)
			}
			test(w, b.String(), all)
			if i%200 == 0 {
				j.sample(map[string]interface{}{"code point": fmt.Sprintf("U+%04X", lo), "units": first})
			}
		case "bytes":
			test(w, string(asBytes(x[1])), asUnits(x[2]))
			if n := atomic.AddInt64(&strs, 1); n%50021 == 1 {
				j.sample(map[string]interface{}{"bytes": asUnits(x[1]), "units": asUnits(x[2])})
			}
		case "long":
			n := asInt(x[1])
			a, b := asBytes(x[2]), asBytes(x[3])
			ua, ub := asUnits(x[4]), asUnits(x[5])
			s := append(append([]byte{}, b...), bytes.Repeat(a, n)...)
			s = append(s, b...)
			u := append([]uint16{}, ub...)
			for k := 0; k < n; k++ {
				u = append(u, ua...)
			}
			u = append(u, ub...)
			test(w, string(s), u)
			atomic.AddInt64(&long, 1)
		}
	})
	j.count("code points", points)
	j.count("strings", strs)
	j.count("long strings", long)
	j.finish(nil)
}
