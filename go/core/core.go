// Package core is the protocol between the checks (test binaries, one process
// per shard) and the runner (/verif/run.py): case numbering, sharding, budget,
// progress, counters, violations.
package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

// Violation is one observed breach of a property.
type Violation struct {
	Sig    string `json:"sig"`    // stable signature, used for known findings
	What   string `json:"what"`   // human readable explanation
	Part   string `json:"part"`   // part of the check that found it
	Index  int64  `json:"index"`  // case number (replay: ZV_ONLY=index)
	Detail any    `json:"detail"` // the concrete case
}

// Result is written by each shard.
type Result struct {
	Part       string           `json:"part"`
	Shard      int              `json:"shard"`
	Done       bool             `json:"done"`
	Exhaustive bool             `json:"exhaustive"`
	Cases      int64            `json:"cases"`
	Counts     map[string]int64 `json:"counts"`
	Notes      []string         `json:"notes"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
	Known      []Violation      `json:"known"`
	WallS      float64          `json:"wall_s"`
}

// Ctx is handed to each part.
type Ctx struct {
	T     *testing.T
	Prop  string
	Part  string
	Tier  string
	Seed  int64
	Known map[string]bool

	shard, shards int64
	only          int64
	start         time.Time
	deadline      time.Time
	out           string

	mu       sync.Mutex
	idx      int64
	cur      int64
	curSince int64
	res      Result
	sets     map[string]map[uint64]struct{}
	stop     bool
	progress []byte
	limit    time.Duration
	ignored  []string
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
func envInt(k string, d int64) int64 {
	if v := os.Getenv(k); v != "" {
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			panic(err)
		}
		return n
	}
	return d
}

// now reads the real clock even inside a synctest bubble.
func now() int64 {
	var tv syscall.Timeval
	_ = syscall.Gettimeofday(&tv)
	return tv.Sec*1e9 + tv.Usec*1e3
}

// New reads the environment set by the runner.
func New(t *testing.T) *Ctx {
	c := &Ctx{
		T: t, Prop: env("ZV_PROP", "?"), Part: env("ZV_PART", ""), Tier: env("VERIF_TIER", "quick"),
		Seed: envInt("VERIF_SEED", 1), shard: envInt("ZV_SHARD", 0), shards: envInt("ZV_SHARDS", 1),
		only: envInt("ZV_ONLY", -1), out: os.Getenv("ZV_OUT"), start: time.Now(), Known: map[string]bool{},
		sets: map[string]map[uint64]struct{}{}, cur: -1,
		limit: time.Duration(envInt("ZV_CASE_LIMIT_S", 60)) * time.Second,
	}
	c.deadline = time.Unix(0, now()+envInt("ZV_BUDGET_S", 600)*1e9)
	c.res = Result{Part: c.Part, Shard: int(c.shard), Exhaustive: true, Counts: map[string]int64{}}
	for _, s := range strings.Split(os.Getenv("ZV_KNOWN"), "\n") {
		if s != "" {
			c.Known[s] = true
		}
	}
	if c.out != "" {
		if f, err := os.OpenFile(c.out+".progress", os.O_RDWR|os.O_CREATE, 0o644); err == nil {
			f.Truncate(16)
			if b, err := syscall.Mmap(int(f.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				c.progress = b
				binary.LittleEndian.PutUint64(b, ^uint64(0))
			}
			f.Close()
		}
	}
	go c.watchdog()
	return c
}

func (c *Ctx) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		c.mu.Lock()
		cur, since := c.cur, c.curSince
		c.mu.Unlock()
		if cur >= 0 && time.Duration(now()-since) > c.limit {
			c.mu.Lock()
			c.res.Violations = append(c.res.Violations, Violation{Sig: "hang", What: fmt.Sprintf("case %d made no progress for %v of real time (deadlock or endless loop)", cur, c.limit), Part: c.Part, Index: cur, Detail: strings.Split(stacks(), "\n")})
			c.mu.Unlock()
			c.Write()
			os.Exit(3)
		}
	}
}

func stacks() string {
	debug.SetTraceback("all")
	b := make([]byte, 1<<16)
	n := copyStack(b)
	return string(b[:n])
}

// Thorough tells whether the deep tier was requested.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Replaying tells whether a single case is being replayed.
func (c *Ctx) Replaying() bool { return c.only >= 0 }

// Take numbers the next case and tells whether this shard runs it. When it
// returns false because the budget is used up or a violation was found,
// Stopped returns true.
func (c *Ctx) Take() bool {
	i := c.idx
	c.idx++
	if c.stop {
		return false
	}
	if c.only >= 0 {
		if i != c.only {
			if i > c.only {
				c.stop = true
			}
			return false
		}
	} else if i%c.shards != c.shard {
		return false
	}
	n := now()
	if c.only < 0 && n > c.deadline.UnixNano() {
		c.stop = true
		c.res.Exhaustive = false
		return false
	}
	c.mu.Lock()
	c.cur, c.curSince = i, n
	c.mu.Unlock()
	if c.progress != nil {
		binary.LittleEndian.PutUint64(c.progress, uint64(i))
	}
	c.res.Cases++
	return true
}

// TakeAll is Take without sharding by case: used by parts that distribute
// their own sub-cases.
func (c *Ctx) Tick() {
	n := now()
	c.mu.Lock()
	c.curSince = n
	c.mu.Unlock()
}

// Late tells whether the budget is used up (marks the run non-exhaustive).
func (c *Ctx) Late() bool {
	if c.stop {
		return true
	}
	if c.only < 0 && now() > c.deadline.UnixNano() {
		c.stop = true
		c.res.Exhaustive = false
	}
	return c.stop
}

// NotExhaustive records that a cap was hit.
func (c *Ctx) NotExhaustive(note string) { c.res.Exhaustive = false; c.Note(note) }

// Stopped tells whether enumeration should end.
func (c *Ctx) Stopped() bool { return c.stop }

// Index of the current case.
func (c *Ctx) Index() int64 { return c.cur }

// Count adds to a named counter.
func (c *Ctx) Count(name string, n int64) { c.res.Counts[name] += n }

// Distinct adds a value to a named set whose size is reported.
func (c *Ctx) Distinct(set, v string) {
	h := fnv.New64a()
	h.Write([]byte(v))
	c.DistinctHash(set, h.Sum64())
}

// DistinctHash adds a hash to a named set.
func (c *Ctx) DistinctHash(set string, h uint64) {
	m := c.sets[set]
	if m == nil {
		m = map[uint64]struct{}{}
		c.sets[set] = m
	}
	if len(m) < 3000000 {
		m[h] = struct{}{}
	}
}

// Sample records up to a few cases.
func (c *Ctx) Sample(f func() string) {
	if len(c.res.Samples) < 2 {
		c.res.Samples = append(c.res.Samples, f())
	}
}

// Note records a remark for the evidence.
func (c *Ctx) Note(s string) {
	for _, n := range c.res.Notes {
		if n == s {
			return
		}
	}
	c.res.Notes = append(c.res.Notes, s)
}

// Violation reports a breach; unless it is a listed known finding the
// enumeration stops.
func (c *Ctx) Violation(sig, what string, detail any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	v := Violation{Sig: sig, What: what, Part: c.Part, Index: c.cur, Detail: detail}
	if c.Known[sig] {
		for _, k := range c.res.Known {
			if k.Sig == sig {
				return
			}
		}
		c.res.Known = append(c.res.Known, v)
		return
	}
	c.res.Violations = append(c.res.Violations, v)
	c.stop = true
}

// Guard runs f and turns a panic into a violation.
func (c *Ctx) Guard(detail func() any, f func()) {
	defer func() {
		if r := recover(); r != nil {
			var d any
			if detail != nil {
				d = detail()
			}
			c.Violation("panic", fmt.Sprintf("panic: %v\n%s", r, debug.Stack()), d)
		}
	}()
	f()
}

// Finish marks the part complete and writes the result.
func (c *Ctx) Finish() {
	c.mu.Lock()
	c.cur = -1
	c.res.Done = true
	c.mu.Unlock()
	c.Write()
}

// Write stores the result for the runner.
func (c *Ctx) Write() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.WallS = float64(now()-c.start.UnixNano()) / 1e9
	if c.out == "" {
		b, _ := json.MarshalIndent(c.res, "", " ")
		fmt.Println(string(b))
		for k, m := range c.sets {
			fmt.Println("set", k, len(m))
		}
		return
	}
	for k, m := range c.sets {
		b := make([]byte, 0, 8*len(m))
		for h := range m {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		os.WriteFile(c.out+".set."+k, b, 0o644)
	}
	b, err := json.Marshal(c.res)
	if err != nil {
		for i := range c.res.Violations {
			c.res.Violations[i].Detail = fmt.Sprintf("%+v", c.res.Violations[i].Detail)
		}
		for i := range c.res.Known {
			c.res.Known[i].Detail = fmt.Sprintf("%+v", c.res.Known[i].Detail)
		}
		b, err = json.Marshal(c.res)
		if err != nil {
			panic(err)
		}
	}
	if err := os.WriteFile(c.out+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(c.out+".tmp", c.out); err != nil {
		panic(err)
	}
}
