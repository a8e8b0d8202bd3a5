package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
)

// The estree command on lists of files (spec/Cli.tla).

func init() { extra["cli"] = cmdCli }

type cliFile struct {
	name, kind, text, v, tree string
}

// documents takes the output apart at the lines that are ---.
func documents(out string) []string {
	if out == "" {
		return nil
	}
	var docs []string
	doc := ""
	for _, l := range strings.SplitAfter(out, "\n") {
		if strings.TrimRight(l, "\n") == "---" {
			docs = append(docs, doc)
			doc = ""
			continue
		}
		doc += l
	}
	return append(docs, doc)
}

func cmdCli(args []string) {
	var bin, dir *string
	j, in := harnessFlags("cli", args, func(fs *flag.FlagSet) {
		bin = fs.String("bin", "", "the command")
		dir = fs.String("dir", "", "an empty directory")
	})
	files := map[int]*cliFile{}
	var runs, docsSeen, failures, broken int64
	parallelLines(j, in, func(x map[string]interface{}) {
		if _, ok := x["file"]; !ok {
			return
		}
		f := &cliFile{name: string(runes(x["name"])), kind: x["kind"].(string), v: x["v"].(string)}
		files[asInt(x["file"])] = f
		path := filepath.Join(*dir, f.name)
		switch f.kind {
		case "text":
			cs, at := runes(x["s"]), asInt(x["at"])
			f.text = string(cs[:at]) + strings.Repeat(" ", asInt(x["pad"])) + string(cs[at:])
			w := &strings.Builder{}
			project(w, x["tree"])
			f.tree = w.String()
			check(os.MkdirAll(filepath.Dir(path), 0o755))
			check(os.WriteFile(path, []byte(f.text), 0o644))
		case "dir":
			check(os.MkdirAll(path, 0o755))
		}
	}, func(w int, line string) {
		v, err := decodeJSON([]byte(line))
		check(err)
		x := v.([]interface{})
		list, wantOut, status, named := x[0].([]interface{}), x[1].([]interface{}), asInt(x[2]), asInt(x[3])
		n := atomic.AddInt64(&runs, 1)
		var names []string
		dashed := n%3 == 0
		for _, i := range list {
			name := files[asInt(i)].name
			if n%4 == 1 && name != "" && name[0] != '-' {
				name = filepath.Join(*dir, name)
			}
			names = append(names, name)
			dashed = dashed || strings.HasPrefix(name, "-") && name != "-"
		}
		argv := names
		if dashed {
			argv = append([]string{"--"}, names...)
		}
		j.enter(w, "cli", "script", line)
		defer j.leave(w)
		var cmd *exec.Cmd
		if len(list) > 20 {
			// A list may be longer than the number of files that can be open.
			cmd = exec.Command("/bin/sh", append([]string{"-c", `ulimit -n 24; exec "$0" "$@"`, *bin}, argv...)...)
		} else {
			cmd = exec.Command(*bin, argv...)
		}
		cmd.Dir = *dir
		cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + *dir}
		var stdout, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		err = cmd.Run()
		if _, ok := err.(*exec.ExitError); err != nil && !ok {
			check(err)
		}
		bad := func(f string, a ...interface{}) {
			j.report(mismatch{
				Key:  fmt.Sprintf("cli:%q", names),
				What: fmt.Sprintf("estree %q (files with %s): %s", names, line, fmt.Sprintf(f, a...)),
				Case: map[string]interface{}{"cmd": "cli", "files": names, "specified": line, "stdout": stdout.String(), "stderr": stderr.String()},
			})
		}
		code := cmd.ProcessState.ExitCode()
		if (code == 0) != (status == 0) {
			bad("exit status %d, but specified is %d; stderr: %s", code, status, stderr.String())
			return
		}
		var want []int
		for _, o := range wantOut {
			if i := asInt(o); i != 0 {
				want = append(want, i)
			}
		}
		docs := documents(stdout.String())
		if len(docs) != len(want) {
			bad("%d documents and separators between them for %d files; stdout: %.300q", len(docs), len(want), stdout.String())
			return
		}
		for k, d := range docs {
			f := files[want[k]]
			got, err := decodeJSON([]byte(d))
			if err != nil {
				bad("document %d is not a JSON document: %v: %.300q", k+1, err, d)
				return
			}
			o := parseText("script", f.text)
			b, err := o.estree()
			check(err)
			lib, err := decodeJSON(b)
			check(err)
			if !reflect.DeepEqual(got, lib) {
				bad("document %d is not what the library has for %.300q: %.1000s", k+1, f.text, d)
				return
			}
			if t := maskedTree(got); t != f.tree {
				bad("document %d: specified: %s; but: %.1000s", k+1, f.tree, t)
				return
			}
			atomic.AddInt64(&docsSeen, 1)
		}
		if status != 0 {
			atomic.AddInt64(&failures, 1)
			lines := strings.Split(strings.TrimRight(stderr.String(), "\n"), "\n")
			last := lines[len(lines)-1]
			name := files[named].name
			if !strings.Contains(last, name) && !strings.Contains(last, strconv.Quote(name)[1:len(strconv.Quote(name))-1]) {
				bad("the message %q does not name the file %q", last, name)
			}
		}
		if n%199 == 1 {
			j.sample(map[string]interface{}{"files": names, "documents": len(want), "status": code})
		}
		// When nobody takes what it prints, it has not printed it.
		if status == 0 && len(list) > 0 && n%5 == 0 {
			r, wr, err := os.Pipe()
			check(err)
			r.Close()
			cmd := exec.Command(*bin, argv...)
			cmd.Dir, cmd.Stdout = *dir, wr
			cmd.SysProcAttr = &syscall.SysProcAttr{}
			err = cmd.Run()
			wr.Close()
			atomic.AddInt64(&broken, 1)
			if err == nil {
				bad("exit status 0, but nothing could be written to standard output")
			}
		}
	})
	j.count("runs", runs)
	j.count("documents", docsSeen)
	j.count("failures", failures)
	j.count("broken pipes", broken)
	b, _ := json.Marshal(len(files))
	j.finish(map[string]interface{}{"files": string(b)})
}
