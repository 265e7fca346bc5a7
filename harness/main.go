// vharness runs the compiled code of the tree under test against an independent oracle. It
// looks for a concrete failing input when a proof obligation fails, and cross-checks what the
// proofs have to trust. It decides nothing on its own.
package main

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sync/atomic"
	"time"
)

type failure struct {
	What  string `json:"what"`
	Input string `json:"input"`
	Hex   string `json:"stream_hex,omitempty"`
	Want  string `json:"want"`
	Got   string `json:"got"`
}

type report struct {
	Property    string    `json:"property"`
	Seed        int64     `json:"seed"`
	Evaluations int64     `json:"evaluations"`
	Distinct    int64     `json:"distinct"`
	Samples     []string  `json:"samples"`
	Failing     []failure `json:"failing"`
	Done        bool      `json:"done"`
}

type ctx struct {
	r     *rand.Rand
	end   time.Time
	rep   *report
	cf    *os.File
	seen  map[uint64]bool
	tick  int64 // start of the current case, for the watchdog
	out   string
	full  bool
	round int
}

var caseBuf []byte

// begin records the case that is about to run, so that it is known if the process dies
func (c *ctx) begin(input string, stream []byte) {
	c.rep.Evaluations++
	h := uint64(14695981039346656037)
	for i := 0; i < len(input); i++ {
		h = (h ^ uint64(input[i])) * 1099511628211
	}
	for _, b := range stream {
		h = (h ^ uint64(b)) * 1099511628211
	}
	if len(c.seen) < 2000000 {
		if !c.seen[h] {
			c.seen[h] = true
			c.rep.Distinct++
		}
	}
	if len(c.rep.Samples) < 5 && (c.rep.Evaluations%97 == 1) {
		c.rep.Samples = append(c.rep.Samples, clip(input+" "+fmt.Sprintf("%q", clip(string(stream), 120)), 300))
	}
	if c.cf != nil {
		n := len(stream)
		if n > 1<<16 {
			n = 1 << 16
		}
		caseBuf = append(caseBuf[:0], fmt.Sprintf("%08d %08d ", len(input), n)...)
		caseBuf = append(caseBuf, input...)
		caseBuf = append(caseBuf, stream[:n]...)
		c.cf.WriteAt(caseBuf, 0)
	}
	atomic.StoreInt64(&c.tick, time.Now().UnixNano())
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (c *ctx) fail(what, input string, stream []byte, want, got interface{}) {
	if len(c.rep.Failing) >= 5 {
		return
	}
	for _, f := range c.rep.Failing {
		if f.What == what {
			return
		}
	}
	f := failure{What: what, Input: clip(input, 2000), Want: clip(fmt.Sprint(want), 1000), Got: clip(fmt.Sprint(got), 1000)}
	if len(stream) <= 1<<17 {
		f.Hex = hex.EncodeToString(stream)
	} else {
		f.Hex = hex.EncodeToString(stream[:1<<17]) + "..."
	}
	c.rep.Failing = append(c.rep.Failing, f)
	c.write()
}

func (c *ctx) write() {
	b, _ := json.MarshalIndent(c.rep, "", " ")
	os.WriteFile(c.out+".tmp", b, 0644)
	os.Rename(c.out+".tmp", c.out)
}

// over: time is up, or enough was found
func (c *ctx) over() bool {
	return len(c.rep.Failing) >= 3 || time.Now().After(c.end)
}

// guard runs f and returns what it panicked with
func guard(f func()) (p interface{}) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprintf("panic: %v", e)
		}
	}()
	f()
	return nil
}

var checks = map[string]func(*ctx){}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	ms := flag.Int("ms", 15000, "time budget")
	out := flag.String("out", "", "report")
	cs := flag.String("case", "", "file that holds the case being run")
	full := flag.Bool("full", false, "deeper exploration")
	flag.Parse()
	debug.SetGCPercent(200)

	c := &ctx{r: rand.New(rand.NewSource(*seed)), end: time.Now().Add(time.Duration(*ms) * time.Millisecond), out: *out, full: *full,
		rep: &report{Property: *prop, Seed: *seed, Samples: []string{}, Failing: []failure{}}, seen: map[uint64]bool{}}
	if *cs != "" {
		c.cf, _ = os.Create(*cs)
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if t := atomic.LoadInt64(&c.tick); t != 0 && time.Now().UnixNano()-t > int64(20*time.Second) {
				fmt.Println("HANG")
				os.Exit(7)
			}
		}
	}()
	f := checks[*prop]
	if f == nil {
		fmt.Println("no harness for", *prop)
		os.Exit(3)
	}
	func() {
		defer func() {
			if e := recover(); e != nil { // a mistake of the harness: not a finding
				fmt.Println("HARNESS:", e, string(debug.Stack()))
				c.write()
				os.Exit(4)
			}
		}()
		f(c)
	}()
	c.rep.Done = true
	c.write()
}
