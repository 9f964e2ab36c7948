package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"verif/vrt"
)

// Viol is a violation of the property.
type Viol struct {
	Unit  string   `json:"unit"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace"`
}

// Ctx is the state of one run of a check (one shard of it).
type Ctx struct {
	Prop, Tier, Tags, Mode string
	shard, n               int
	only                   string
	deadline               time.Time
	idx                    int
	stop                   bool
	list                   bool
	curFile                string
	cur                    string

	Res Result
	st  map[uint64]struct{}
}

// Result is what a shard reports.
type Result struct {
	Evals      int64             `json:"evaluations"`
	Distinct   int64             `json:"distinct_nontrivial"`
	States     int64             `json:"states"`
	Trans      int64             `json:"transitions"`
	Traces     int64             `json:"traces"`
	Units      int64             `json:"units"`
	Skipped    int64             `json:"skipped"`
	Capped     []string          `json:"capped"`
	Samples    []string          `json:"samples"`
	Viols      []Viol            `json:"violations"`
	Counters   map[string]int64  `json:"counters"`
	Digests    map[string]string `json:"digests"`
	UnitTimes  map[string]int64  `json:"unit_times,omitempty"`
	Incomplete bool              `json:"incomplete"`
}

var progress int64

// maxgap is the longest time without progress, in seconds.
var maxgap int64

func tick() { atomic.AddInt64(&progress, 1) }

// violation is the value of the panics raised by Fail.
type violation struct{ msg string }

// U is one unit of work: the granularity of sharding and of replays.
type U struct {
	c     *Ctx
	name  string
	trace []string
}

// Fail reports a violation and aborts the unit.
func (u *U) Fail(format string, a ...any) {
	panic(violation{fmt.Sprintf(format, a...)})
}

// T records a step of the current execution.
func (u *U) T(format string, a ...any) {
	u.trace = append(u.trace, fmt.Sprintf(format, a...))
}

// Reset forgets the trace and the finalizers: a new execution begins.
func (u *U) Reset() {
	u.trace = u.trace[:0]
	vrt.Reset()
	vrt.ResetGlobals()
}

// Eval counts one evaluation.
func (u *U) Eval() {
	u.c.Res.Evals++
	atomic.AddInt64(&progress, 1)
}

// Nontrivial counts one distinct non-trivial case.
func (u *U) Nontrivial() { u.c.Res.Distinct++ }

// Trans counts n transitions.
func (u *U) Trans(n int) { u.c.Res.Trans += int64(n) }

// Trace counts a complete execution of the implementation.
func (u *U) Done() { u.c.Res.Traces++ }

// Count adds to a named counter.
func (u *U) Count(name string, n int64) { u.c.Res.Counters[name] += n }

// State records a state (a hash) and tells if it is new in this shard.
func (u *U) State(h uint64) bool {
	if _, ok := u.c.st[h]; ok {
		return false
	}
	if len(u.c.st) < 20_000_000 {
		u.c.st[h] = struct{}{}
	}
	return true
}

// Sample keeps a few samples.
func (u *U) Sample(format string, a ...any) {
	if len(u.c.Res.Samples) < 6 {
		u.c.Res.Samples = append(u.c.Res.Samples, fmt.Sprintf(format, a...))
	}
}

// Expired tells if the time of the run is over.
func (c *Ctx) Expired() bool { return time.Now().After(c.deadline) }

// Thorough tells if this is a thorough run.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Quick chooses a bound by the tier.
func (c *Ctx) Quick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Cap records that something was not explored completely.
func (c *Ctx) Cap(what string) {
	c.Res.Incomplete = true
	for _, x := range c.Res.Capped {
		if x == what {
			return
		}
	}
	c.Res.Capped = append(c.Res.Capped, what)
}

// Unit runs f as a unit, when it belongs to this shard.
func (c *Ctx) Unit(name string, f func(u *U)) {
	name = strings.ReplaceAll(name, " ", ",")
	i := c.idx
	c.idx++
	if c.list {
		fmt.Println(name)
		return
	}
	if c.only != "" {
		if c.only != name {
			return
		}
	} else if i%c.n != c.shard {
		return
	}
	if c.stop {
		c.Res.Skipped++
		return
	}
	if c.Expired() {
		c.Res.Skipped++
		c.Cap("deadline")
		return
	}
	c.cur = name
	if c.curFile != "" {
		os.WriteFile(c.curFile, []byte(name), 0o644)
	}
	tick()
	t0 := time.Now()
	u := &U{c: c, name: name}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			vrt.S = nil
			msg := ""
			switch v := r.(type) {
			case violation:
				msg = v.msg
			case error:
				msg = "panic: " + v.Error() + where()
			default:
				msg = fmt.Sprintf("panic: %v%s", r, where())
			}
			tr := u.trace
			if len(tr) > 60 {
				tr = append([]string{fmt.Sprintf("... (%d steps)", len(tr)-60)}, tr[len(tr)-60:]...)
			}
			c.Res.Viols = append(c.Res.Viols, Viol{name, msg, append([]string{}, tr...)})
			c.stop = true
		}()
		u.Reset()
		f(u)
	}()
	u.Reset()
	c.Res.Units++
	if d := time.Since(t0).Milliseconds(); d >= 200 {
		c.Res.UnitTimes[name] = d
	}
}

// where gives the interesting part of the stack of a panic.
func where() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var res []string
	seen := false
	for i := 0; i < len(lines)-1; i++ {
		if strings.HasPrefix(lines[i], "panic(") {
			seen = true
			res = nil
			continue
		}
		if seen && strings.HasPrefix(lines[i+1], "\t") && !strings.HasPrefix(lines[i], "runtime.") {
			fn := lines[i]
			if k := strings.LastIndex(fn, "("); k > 0 {
				fn = fn[:k]
			}
			loc := strings.TrimSpace(lines[i+1])
			if k := strings.LastIndex(loc, "/"); k >= 0 {
				loc = loc[k+1:]
			}
			if k := strings.Index(loc, " "); k >= 0 {
				loc = loc[:k]
			}
			res = append(res, fn+" "+loc)
			if len(res) == 5 {
				break
			}
		}
	}
	if len(res) == 0 {
		return ""
	}
	return " [" + strings.Join(res, " < ") + "]"
}

var checks = map[string]func(*Ctx){}

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	tags := flag.String("tags", "", "")
	mode := flag.String("mode", "ctl", "")
	shard := flag.Int("shard", 0, "")
	n := flag.Int("n", 1, "")
	only := flag.String("unit", "", "")
	secs := flag.Float64("seconds", 300, "")
	out := flag.String("out", "", "")
	curf := flag.String("cur", "", "")
	list := flag.Bool("list", false, "")
	hang := flag.Int("hang", 75, "")
	flag.Parse()
	vrt.SaveGlobals()
	log.SetOutput(io.Discard)
	debug.SetGCPercent(400)
	debug.SetMaxStack(1 << 29)
	if *mode != "plain" {
		runtime.GOMAXPROCS(2)
	}
	f, ok := checks[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	c := &Ctx{Prop: *prop, Tier: *tier, Tags: *tags, Mode: *mode, shard: *shard, n: *n, only: *only, list: *list, curFile: *curf,
		deadline: time.Now().Add(time.Duration(*secs * float64(time.Second))), st: map[uint64]struct{}{}}
	c.Res.Counters = map[string]int64{}
	c.Res.Capped, c.Res.Samples, c.Res.Viols = []string{}, []string{}, []Viol{}
	c.Res.Digests = map[string]string{}
	c.Res.UnitTimes = map[string]int64{}
	write := func() {
		c.Res.States = int64(len(c.st))
		c.Res.Counters["max_seconds_without_progress"] = atomic.LoadInt64(&maxgap)
		data, err := json.Marshal(&c.Res)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		if *out == "" {
			os.Stdout.Write(append(data, '\n'))
		} else if err := os.WriteFile(*out, data, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			p := atomic.LoadInt64(&progress)
			if p != last {
				if g := int64(time.Since(since).Seconds()); g > atomic.LoadInt64(&maxgap) {
					atomic.StoreInt64(&maxgap, g)
				}
				last, since = p, time.Now()
				continue
			}
			if time.Since(since) > time.Duration(*hang)*time.Second {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "no progress for %d s in unit %s\n%s\n", *hang, c.cur, buf)
				os.Exit(4)
			}
		}
	}()
	f(c)
	if c.list {
		return
	}
	sort.Strings(c.Res.Capped)
	write()
}
