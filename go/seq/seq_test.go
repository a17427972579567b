// Package seq explores operation histories on the in-memory engine under a
// virtual clock and compares every step with the reference model.
package seq

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
)

var bg = context.Background()

type (
	Op  = model.Op
	TS  = model.TS
	Off = model.Off
)

const (
	ms   = model.Ms
	sec  = model.Sec
	hour = model.Hour
)

func p(o Off) *Off      { return &o }
func st(n int32) *int32 { return &n }

// run is one history on one fresh engine.
type run struct {
	c     *core.Ctx
	cfg   memdb.Config
	g     *memdb.Engine
	m     *model.Model
	base  time.Time
	ids   []string
	tops  []string
	trace []string
	steps int64
}

var scratch string

func newRun(c *core.Ctx, retention time.Duration, snapshot bool, ids, topics []string) (*run, string) {
	r := &run{c: c, ids: ids, tops: topics}
	r.cfg = memdb.Config{RetentionPeriod: retention, SnapshotInterval: 5 * time.Minute}
	if snapshot {
		r.cfg.SnapshotPath = filepath.Join(scratch, "snap")
		os.Remove(r.cfg.SnapshotPath)
	}
	// Start every history at a whole second of the virtual clock.
	now := time.Now()
	if d := now.Truncate(time.Second).Add(time.Second).Sub(now); d > 0 {
		time.Sleep(d)
	}
	r.base = time.Now()
	r.m = model.New(model.Cfg{Retention: retention})
	return r, r.open()
}

func (r *run) open() string {
	cfg := r.cfg
	g, err := memdb.New(&cfg)
	if err != nil {
		return "creating the engine: " + err.Error()
	}
	if err := g.Open(bg); err != nil {
		return "opening the engine: " + err.Error()
	}
	r.g = g
	return ""
}

// step performs one operation and checks result and state.
func (r *run) step(op Op, observe bool) string {
	r.steps++
	r.trace = append(r.trace, op.String())
	now := time.Now()
	switch op.K {
	case "advance":
		time.Sleep(time.Duration(op.D))
		return ""
	case "reopen":
		if err := r.g.Close(bg); err != nil {
			return "closing the engine: " + err.Error()
		}
		if s := r.open(); s != "" {
			return s
		}
	default:
		call := r.m.Resolve(op, r.base, now)
		res := model.Exec(bg, r.g, call, true)
		call.After = time.Now()
		var obs model.State
		if op.K == "chore" {
			o, err := model.Observe(bg, r.g, r.ids)
			if err != nil {
				return err.Error()
			}
			obs = o
		}
		if err := r.m.Apply(call, res, obs); err != nil {
			return fmt.Sprintf("%s at base%+v: %v", op, now.Sub(r.base), err)
		}
	}
	if observe {
		obs, err := model.Observe(bg, r.g, r.ids)
		if err != nil {
			return err.Error()
		}
		if s := r.m.Compare(obs); s != "" {
			return fmt.Sprintf("after %s: %s", op, s)
		}
	}
	return ""
}

// audit checks listings and counts, then drains every topic by polling, lets
// all claims time out, recovers and expires, and drains again.
func (r *run) audit(drain bool) string {
	r.trace = append(r.trace, "-- audit")
	if s := r.step(Op{K: "listTopics", Limit: 100}, false); s != "" {
		return s
	}
	for _, t := range r.tops {
		for _, k := range []string{"listTasks", "listPromises", "getTopic"} {
			if s := r.step(Op{K: k, Topic: t, Limit: 100}, false); s != "" {
				return s
			}
		}
	}
	if !drain {
		return ""
	}
	for round := 0; round < 2; round++ {
		for _, t := range r.tops {
			for i := 0; i <= len(r.ids); i++ {
				n := len(r.m.Issued)
				if s := r.step(Op{K: "poll", Topic: t, Consumer: "audit", DeadIn: p(sec)}, false); s != "" {
					return s
				}
				if len(r.m.Issued) == n {
					break
				}
			}
		}
		if round == 0 {
			time.Sleep(3 * time.Second)
			if s := r.step(Op{K: "chore"}, true); s != "" {
				return s
			}
		}
	}
	time.Sleep(200 * time.Hour)
	if s := r.step(Op{K: "chore"}, true); s != "" {
		return s
	}
	return ""
}

type detail struct {
	Init  []TS     `json:"init"`
	Ops   []Op     `json:"ops"`
	Trace []string `json:"trace"`
	Cfg   string   `json:"cfg"`
}

// bubble runs one case under its own virtual clock.
func bubble(c *core.Ctx, f func()) { synctest.Test(c.T, func(*testing.T) { f() }) }

// history runs one complete history as one case.
func history(c *core.Ctx, ret time.Duration, snap bool, ids, tops []string, init []TS, ops []Op, drain bool) {
	var r *run
	det := func() any {
		d := detail{Init: init, Ops: ops, Cfg: fmt.Sprintf("retention=%v snapshot=%v", ret, snap)}
		if r != nil {
			d.Trace = r.trace
		}
		return d
	}
	bad := func(s string) { c.Violation("conformance", s, det()) }
	bubble(c, func() {
		c.Guard(det, func() {
			var s string
			r, s = newRun(c, ret, snap, ids, tops)
			if s != "" {
				bad(s)
				return
			}
			for _, t := range init {
				if s := r.step(Op{K: "upsertTask", Ts: []TS{t}}, false); s != "" {
					bad(s)
					return
				}
			}
			for _, op := range ops {
				if s := r.step(op, true); s != "" {
					bad(s)
					return
				}
				c.Distinct("states", canon(r))
				c.Count("transitions", 1)
			}
			if s := r.audit(drain); s != "" {
				bad(s)
				return
			}
			c.Count("histories", 1)
			c.Count("steps", r.steps)
			c.Sample(func() string { return fmt.Sprintf("init=%+v ops=%v final=%s", init, r.trace, r.m.S) })
		})
	})
}

// canon is the state up to renaming of nonces and shifting of time.
func canon(r *run) string {
	now := time.Now()
	b := make([]byte, 0, 128)
	for _, id := range r.m.S.IDs() {
		t := r.m.S[id]
		b = append(b, id...)
		b = append(b, '|')
		b = append(b, t.Topic...)
		b = append(b, '|', byte('0'+t.State), '|')
		if t.Nonce != "" {
			b = append(b, 'n')
		}
		b = append(b, t.Consumer...)
		for _, x := range []*time.Time{t.Scheduled, t.Consumed, t.Deadline} {
			if x == nil {
				b = append(b, '-')
			} else {
				b = fmt.Appendf(b, "%d", x.Sub(now))
			}
			b = append(b, '|')
		}
		b = fmt.Appendf(b, "%v;", t.Payload)
	}
	return string(b)
}

// all enumerates every sequence of exactly depth operations.
func all(c *core.Ctx, alpha []Op, depth int, f func(ops []Op)) {
	idx := make([]int, depth)
	for {
		if c.Take() {
			ops := make([]Op, depth)
			for i, k := range idx {
				ops[i] = alpha[k]
			}
			f(ops)
		}
		if c.Stopped() {
			return
		}
		i := depth - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(alpha) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// databases enumerates every database with the given per-ID domains.
func databases(doms [][]*TS, f func(init []TS) bool) {
	idx := make([]int, len(doms))
	for {
		var init []TS
		for i, k := range idx {
			if t := doms[i][k]; t != nil {
				init = append(init, *t)
			}
		}
		if !f(init) {
			return
		}
		i := len(doms) - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(doms[i]) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func TestCheck(t *testing.T) {
	c := core.New(t)
	dir, err := os.MkdirTemp(os.Getenv("ZV_SCRATCH"), "seq")
	if err != nil {
		t.Fatal(err)
	}
	scratch = dir
	defer os.RemoveAll(dir)
	f := parts[c.Prop]
	switch c.Part {
	case "sizes":
		f = sizes
	case "cycles":
		f = cycles
	}
	if f == nil {
		t.Fatalf("no part for %s", c.Prop)
	}
	f(c)
	c.Finish()
}
