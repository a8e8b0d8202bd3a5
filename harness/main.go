// Command harness runs jchv/cleansheets against its specification.
package main

import (
	"fmt"
	"io"
	"os"
)

var extra = map[string]func([]string){}

// replays run one case of a kind, to see whether it survives that.
var replays = map[string]func(mode, text string){}

func main() {
	cmds := map[string]func([]string){
		"enum": cmdEnum,
		"one":  cmdOne,
	}
	for k, f := range extra {
		cmds[k] = f
	}
	if len(os.Args) < 2 || cmds[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: harness COMMAND")
		os.Exit(2)
	}
	cmds[os.Args[1]](os.Args[2:])
}

// cmdOne runs one case, the text of which is on standard input, and says what
// happened.
func cmdOne(args []string) {
	text, err := io.ReadAll(os.Stdin)
	check(err)
	if f := replays[args[0]]; f != nil {
		f(args[1], string(text))
		return
	}
	o := parseText(args[1], string(text))
	fmt.Println(o.String())
	fmt.Println("read:", o.read, "of", len(text), "eof:", o.atEOF)
	if o.kind == "panic" {
		os.Exit(4)
	}
}
