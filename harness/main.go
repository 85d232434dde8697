// vh replays behaviours of the TLA+ specifications on the real library.
//
//	vh run COMPONENT -in traces.ndjson -out results.ndjson [-progress f] [-only i] [-seed n] [-j n] [-tags a,b]
//	vh record COMPONENT -out traces.ndjson -seed n -n count
//
// Each input line is one behaviour (or case) emitted by TLC; a component executes it on the library and reports
// the first point at which what it observes differs from what the specification says.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx is handed to a component for every behaviour.
type Ctx struct {
	Idx   int
	Seed  int64
	Rnd   *rand.Rand
	Tags  map[string]bool // nil: every kind of divergence counts
	Steps int64
	Extra map[string]int64
	Tier  string
	fail  *Failure
}

// Failure is a divergence between specification and library.
type Failure struct {
	I    int    `json:"i"`
	Tag  string `json:"tag"`
	Step int    `json:"step"`
	What string `json:"what"`
	Off  bool   `json:"off,omitempty"` // of a kind this check does not decide
}

type diverged struct{}

// Fail records a divergence and abandons the behaviour.
func (c *Ctx) Fail(tag string, step int, format string, a ...interface{}) {
	off := c.Tags != nil && !c.Tags[tag]
	c.fail = &Failure{I: c.Idx, Tag: tag, Step: step, What: fmt.Sprintf(format, a...), Off: off}
	panic(diverged{})
}

func (c *Ctx) count(k string) { c.Extra[k]++ }

// try runs f and gives back the panic it caused, if any.
func try(f func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(diverged); ok {
				panic(r)
			}
			p = r
		}
	}()
	f()
	return nil
}

type component func(*Ctx, json.RawMessage)

var components = map[string]component{}
var recorders = map[string]func(seed int64, n int, tier string, out *bufio.Writer){}

func runOne(f component, c *Ctx, raw json.RawMessage) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(diverged); ok {
				return
			}
			// a panic that no component attributed to a library call is an error of the harness or of the library
			c.fail = &Failure{I: c.Idx, Tag: "panic", Step: -1, What: fmt.Sprintf("panic: %v\n%s", r, debug.Stack())}
			if c.Tags != nil && !c.Tags["panic"] {
				c.fail.Off = true
			}
		}
	}()
	f(c, raw)
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh run|record COMPONENT ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	in := fs.String("in", "", "")
	out := fs.String("out", "", "")
	prog := fs.String("progress", "", "")
	only := fs.Int("only", -1, "")
	seed := fs.Int64("seed", 1, "")
	j := fs.Int("j", runtime.NumCPU(), "")
	tags := fs.String("tags", "", "")
	limit := fs.Duration("case-timeout", 60*time.Second, "")
	tier := fs.String("tier", "quick", "")
	n := fs.Int("n", 10, "")
	budget := fs.Duration("budget", 0, "stop taking new behaviours after this long")
	stop := fs.Int("stop", 0, "stop taking new behaviours after so many divergences")
	known := fs.String("known", "", "tags that do not count for -stop")
	_ = fs.Parse(os.Args[3:])

	if os.Args[1] == "record" {
		r, ok := recorders[os.Args[2]]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown recorder", os.Args[2])
			os.Exit(2)
		}
		f, err := os.Create(*out)
		must(err)
		w := bufio.NewWriter(f)
		r(*seed, *n, *tier, w)
		must(w.Flush())
		must(f.Close())
		return
	}
	comp, ok := components[os.Args[2]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown component", os.Args[2])
		os.Exit(2)
	}
	var tagset map[string]bool
	if *tags != "" {
		tagset = map[string]bool{}
		for _, t := range strings.Split(*tags, ",") {
			tagset[t] = true
		}
	}

	f, err := os.Open(*in)
	must(err)
	var lines []json.RawMessage
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			lines = append(lines, append([]byte{}, sc.Bytes()...))
		}
	}
	must(sc.Err())
	f.Close()

	var pf *os.File
	if *prog != "" {
		pf, err = os.Create(*prog)
		must(err)
	}
	var next int64 = -1
	var mu sync.Mutex
	var fails []*Failure
	var steps, done, found int64
	extra := map[string]int64{}
	started := make([]int64, *j)
	cur := make([]int64, *j)
	begin := time.Now()
	var wg sync.WaitGroup
	for w := 0; w < *j; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if *only >= 0 {
					if w != 0 || i > 0 {
						return
					}
					i = *only
				}
				if i >= len(lines) || (*budget > 0 && time.Since(begin) > *budget) || (*stop > 0 && atomic.LoadInt64(&found) >= int64(*stop)) {
					return
				}
				if pf != nil {
					var b [8]byte
					binary.LittleEndian.PutUint64(b[:], uint64(i+1))
					_, _ = pf.WriteAt(b[:], int64(8*w))
				}
				atomic.StoreInt64(&cur[w], int64(i))
				atomic.StoreInt64(&started[w], time.Now().UnixNano())
				c := &Ctx{Idx: i, Seed: *seed, Rnd: rand.New(rand.NewSource(*seed*1000003 + int64(i))), Tags: tagset, Extra: map[string]int64{}, Tier: *tier}
				runOne(comp, c, lines[i])
				atomic.StoreInt64(&started[w], 0)
				if pf != nil {
					_, _ = pf.WriteAt(make([]byte, 8), int64(8*w))
				}
				mu.Lock()
				steps += c.Steps
				done++
				for k, v := range c.Extra {
					extra[k] += v
				}
				if c.fail != nil {
					fails = append(fails, c.fail)
					if !c.fail.Off && !strings.Contains(","+*known+",", ","+c.fail.Tag+",") {
						atomic.AddInt64(&found, 1)
					}
				}
				mu.Unlock()
			}
		}(w)
	}
	go func() {
		for {
			time.Sleep(250 * time.Millisecond)
			for w := range started {
				s := atomic.LoadInt64(&started[w])
				if s != 0 && time.Since(time.Unix(0, s)) > *limit {
					fmt.Fprintf(os.Stderr, "vh: behaviour %d did not end within %v\n", atomic.LoadInt64(&cur[w]), *limit)
					os.Exit(3)
				}
			}
		}
	}()
	wg.Wait()

	o, err := os.Create(*out)
	must(err)
	enc := json.NewEncoder(o)
	for _, f := range fails {
		must(enc.Encode(f))
	}
	must(enc.Encode(map[string]interface{}{"summary": true, "n": done, "steps": steps, "extra": extra}))
	must(o.Close())
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vh:", err)
		os.Exit(2)
	}
}

// jsonOrDie decodes a behaviour; a malformed one is an error of the machinery, not of the library.
func jsonOrDie(raw json.RawMessage, v interface{}) {
	if err := json.Unmarshal(raw, v); err != nil {
		fmt.Fprintf(os.Stderr, "vh: bad behaviour: %v: %.200s\n", err, raw)
		os.Exit(2)
	}
}

func hexs(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}
