// Package main replays the properties against the real code: random and
// systematically growing inputs, judged by oracles written independently of it.
// It looks for a concrete failing input when a proof obligation fails, and
// cross-checks the translation and the assumed library contracts on every run.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

type failure struct{ msg string }

type Case struct {
	prop  string
	index uint64
	s     uint64
	log   []func() string
	kind  string
}

func (c *Case) u64() uint64 {
	c.s += 0x9e3779b97f4a7c15
	z := c.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (c *Case) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(c.u64() % uint64(k))
}
func (c *Case) p(num, den int) bool { return c.n(den) < num }
func pick[T any](c *Case, xs []T) T { return xs[c.n(len(xs))] }

// note adds a line to the description of the case.
func (c *Case) note(format string, args ...any) {
	c.log = append(c.log, func() string { return fmt.Sprintf(format, args...) })
}
func (c *Case) noteF(f func() string) { c.log = append(c.log, f) }

func (c *Case) fail(format string, args ...any) { panic(failure{fmt.Sprintf(format, args...)}) }

func (c *Case) describe() string {
	var b strings.Builder
	for _, f := range c.log {
		b.WriteString(f())
		b.WriteByte('\n')
	}
	return b.String()
}

// size of the case: small first, then cycling
func (c *Case) size() int {
	if c.index < 200 {
		return 1 + int(c.index/40)
	}
	if c.index%53 == 52 { // now and then something large
		return 12 + int(c.index/53%5)*8
	}
	return 2 + int(c.index%9)
}

var props = map[string]func(*Case){}

type Report struct {
	Property    string   `json:"property"`
	Seed        uint64   `json:"seed"`
	Evaluations uint64   `json:"evaluations"`
	Distinct    int      `json:"distinct"`
	Samples     []string `json:"samples"`
	Failed      bool     `json:"failed"`
	Index       uint64   `json:"index"`
	Input       string   `json:"input"`
	Message     string   `json:"message"`
	Seconds     float64  `json:"seconds"`
}

func newCase(prop string, seed, i uint64) *Case {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, i)
	return &Case{prop: prop, index: i, s: h.Sum64()}
}

func runCase(prop string, seed, i uint64) (c *Case, msg string) {
	c = newCase(prop, seed, i)
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				msg = f.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 3000))
		}
	}()
	props[prop](c)
	return c, ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "seed")
	secs := flag.Float64("secs", 5, "time budget")
	maxN := flag.Uint64("n", 1<<62, "case budget")
	only := flag.Int64("only", -1, "run a single case")
	state := flag.String("state", "", "file that holds the number of the running case")
	out := flag.String("out", "", "report file")
	descr := flag.Bool("describe", false, "with -only: print the case before running it")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	if props[*prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	rep := Report{Property: *prop, Seed: *seed}
	write := func() {
		b, _ := json.MarshalIndent(rep, "", "  ")
		if *out != "" {
			os.WriteFile(*out, b, 0o644)
		} else {
			fmt.Println(string(b))
		}
	}
	if *only >= 0 {
		if *descr {
			liveDescribe = true
		}
		c, msg := runCase(*prop, *seed, uint64(*only))
		rep.Evaluations, rep.Index, rep.Input, rep.Message, rep.Failed = 1, uint64(*only), c.describe(), msg, msg != ""
		write()
		if rep.Failed {
			os.Exit(1)
		}
		return
	}
	var sf *os.File
	if *state != "" {
		sf, _ = os.Create(*state)
	}
	start := time.Now()
	distinct := map[uint64]bool{}
	type tick struct {
		i uint64
		t time.Time
	}
	cur := make(chan tick, 1)
	go func() { // a case that does not end is a failure of its own
		var last tick
		for {
			time.Sleep(500 * time.Millisecond)
			select {
			case last = <-cur:
			default:
				if !last.t.IsZero() && time.Since(last.t) > 25*time.Second {
					rep.Failed, rep.Index, rep.Message = true, last.i, "the case did not end within 25 s"
					write()
					os.Exit(1)
				}
			}
		}
	}()
	for i := uint64(0); i < *maxN && time.Since(start).Seconds() < *secs; i++ {
		if sf != nil {
			sf.WriteAt([]byte(fmt.Sprintf("%020d", i)), 0)
		}
		select {
		case <-cur:
		default:
		}
		cur <- tick{i, time.Now()}
		c, msg := runCase(*prop, *seed, i)
		rep.Evaluations++
		if msg != "" {
			rep.Failed, rep.Index, rep.Input, rep.Message = true, i, c.describe(), msg
			break
		}
		if i%16 == 0 && len(distinct) < 100000 {
			h := fnv.New64a()
			h.Write([]byte(c.describe()))
			distinct[h.Sum64()] = true
		}
		if i == 3 || i == 250 || i == 1000 {
			rep.Samples = append(rep.Samples, clip(c.describe(), 1500))
		}
	}
	rep.Distinct = len(distinct)
	rep.Seconds = time.Since(start).Seconds()
	write()
	if rep.Failed {
		os.Exit(1)
	}
}

var liveDescribe bool
