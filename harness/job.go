package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A job runs many cases of the code under test, several at a time. What each
// of them is working on stands in a file the parent process can read, so that
// it can tell which case killed the process, hung, or used up the memory.

const (
	slotSize  = 1 << 16
	maxReport = 40
)

type slot struct {
	mem   []byte
	start int64 // unix nanoseconds, 0 if idle
}

// mismatch is a case in which the code under test did not do what the
// specification says.
type mismatch struct {
	Key  string `json:"key"`  // identifies the case, for the list of known findings
	What string `json:"what"` // what is wrong, for a person
	// The case to replay.
	Case map[string]interface{} `json:"case"`
}

type job struct {
	slots   []*slot
	limit   time.Duration
	mu      sync.Mutex
	bad     []mismatch
	nbad    int
	known   map[string]bool
	seen    map[string]bool // known findings met
	counts  map[string]int64
	samples []interface{}
	resFile string
}

// sample keeps a few of the cases to show.
func (j *job) sample(v interface{}) {
	j.mu.Lock()
	defer j.mu.Unlock()
	if len(j.samples) < 8 {
		j.samples = append(j.samples, v)
	}
}

func newJob(res, progress, knownFile string, limit time.Duration) *job {
	j := &job{limit: limit, counts: map[string]int64{}, known: map[string]bool{}, seen: map[string]bool{}, resFile: res}
	n := runtime.NumCPU()
	f, err := os.OpenFile(progress, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	check(err)
	check(f.Truncate(int64(n * slotSize)))
	mem, err := syscall.Mmap(int(f.Fd()), 0, n*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	check(err)
	for i := 0; i < n; i++ {
		j.slots = append(j.slots, &slot{mem: mem[i*slotSize : (i+1)*slotSize]})
	}
	if knownFile != "" {
		b, err := os.ReadFile(knownFile)
		check(err)
		var keys []string
		check(json.Unmarshal(b, &keys))
		for _, k := range keys {
			j.known[k] = true
		}
	}
	debug.SetMaxStack(256 << 20)
	go j.watch()
	return j
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
}

// watch ends the process with status 3 when a case takes too long or the
// memory runs out.
func (j *job) watch() {
	var ms runtime.MemStats
	for n := 0; ; n++ {
		time.Sleep(100 * time.Millisecond)
		now := time.Now().UnixNano()
		for i, s := range j.slots {
			t := atomic.LoadInt64(&s.start)
			if t != 0 && now-t > int64(j.limit) {
				fmt.Fprintf(os.Stderr, "STUCK slot=%d\n", i)
				os.Exit(3)
			}
		}
		if n%5 == 0 {
			runtime.ReadMemStats(&ms)
			if ms.HeapInuse+ms.StackInuse > 12<<30 {
				fmt.Fprintln(os.Stderr, "STUCK memory")
				os.Exit(3)
			}
		}
	}
}

// enter notes that slot i now works on the case, which is JSON or a text the
// parent understands.
func (j *job) enter(i int, what, mode, text string) {
	s := j.slots[i]
	n := copy(s.mem[4:], what)
	n += copy(s.mem[4+n:], "\x00")
	n += copy(s.mem[4+n:], mode)
	n += copy(s.mem[4+n:], "\x00")
	n += copy(s.mem[4+n:], text)
	s.mem[0], s.mem[1], s.mem[2], s.mem[3] = byte(n), byte(n>>8), byte(n>>16), 1
	atomic.StoreInt64(&s.start, time.Now().UnixNano())
}

func (j *job) leave(i int) {
	s := j.slots[i]
	atomic.StoreInt64(&s.start, 0)
	s.mem[3] = 0
}

func (j *job) parse(i int, mode, text string) outcome {
	j.enter(i, "parse", mode, text)
	o := parseText(mode, text)
	j.leave(i)
	if recorded != nil {
		recorded.see(&o, mode, text)
	}
	return o
}

func (j *job) count(what string, n int64) {
	j.mu.Lock()
	j.counts[what] += n
	j.mu.Unlock()
}

func (j *job) report(m mismatch) {
	j.mu.Lock()
	defer j.mu.Unlock()
	if j.known[m.Key] {
		j.seen[m.Key] = true
		return
	}
	j.nbad++
	if n := len(m.What); n > 1200 {
		m.What = m.What[:300] + " [...] " + m.What[n-600:]
	}
	if len(j.bad) < maxReport {
		j.bad = append(j.bad, m)
	}
}

func (j *job) full() bool {
	j.mu.Lock()
	defer j.mu.Unlock()
	return j.nbad >= 5*maxReport
}

// parallel runs f(worker, item) for n items.
func (j *job) parallel(n int, f func(w, i int)) {
	var next int64
	var wg sync.WaitGroup
	for w := range j.slots {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1)) - 1
				if i >= n || j.full() {
					return
				}
				f(w, i)
			}
		}()
	}
	wg.Wait()
}

// finish writes the result file.
func (j *job) finish(extra map[string]interface{}) {
	if recorded != nil {
		recorded.write()
	}
	sort.Slice(j.bad, func(a, b int) bool {
		if len(j.bad[a].Key) != len(j.bad[b].Key) {
			return len(j.bad[a].Key) < len(j.bad[b].Key)
		}
		return j.bad[a].Key < j.bad[b].Key
	})
	seen := []string{}
	for k := range j.seen {
		seen = append(seen, k)
	}
	sort.Strings(seen)
	res := map[string]interface{}{
		"counts": j.counts, "mismatches": j.bad, "nmismatches": j.nbad, "known": seen, "samples": j.samples,
	}
	for k, v := range extra {
		res[k] = v
	}
	b, err := json.MarshalIndent(res, "", " ")
	check(err)
	check(os.WriteFile(j.resFile, b, 0o644))
}
