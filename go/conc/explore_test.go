// Package conc runs concurrent clients against the instrumented in-memory
// engine under every schedule of their synchronisation points (and, in the
// build with steps, of their statements up to a preemption bound), and checks
// that results and contents are those of some sequential order.
package conc

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"verif.local/shim/vos"
	"verif.local/shim/vrand"
	"verif.local/shim/vsched"

	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
)

var bg = context.Background()

type (
	Op  = model.Op
	TS  = model.TS
	Off = model.Off
)

const (
	ms   = model.Ms
	sec  = model.Sec
	hour = model.Hour
	path = "/data/snap"
)

func p(o Off) *Off      { return &o }
func st(n int32) *int32 { return &n }

// Scenario is a set of clients started together on an initial database.
type Scenario struct {
	Name    string `json:"name"`
	Init    []TS   `json:"init"`
	Clients [][]Op `json:"clients"`
	Snap    bool   `json:"snap"`
	Bound   int    `json:"bound"` // preemptions; -1: unbounded
	Warm    bool   `json:"warm"`  // run a background job first, then wait
}

type rec struct {
	client int
	call   *model.Call
	res    model.Result
	from   int64
	to     int64
	save   bool
	wrote  bool
	data   []byte // snapshot file after a saving operation
	there  bool
	ran    bool
}

type choice struct {
	n     int // alternatives
	taken int
	cost  int // preemptions so far, before this choice
	free  bool
}

type outcome struct {
	choices []choice
	recs    []*rec
	obs     model.State
	bad     string
	trace   []string
	steps   int
}

type world struct {
	c    *core.Ctx
	s    Scenario
	ids  []string
	tops []string
	base time.Time

	cache map[string]decoded
}

// execute runs the scenario once, following the prefix and then always the
// first alternative.
func (w *world) execute(prefix []int, verbose bool) (o outcome) {
	var fsys *vos.FS
	vrand.Reset(1)
	cfg := memdb.Config{RetentionPeriod: time.Hour, SnapshotInterval: time.Minute}
	if w.s.Snap {
		fsys = vos.New("/data")
		vos.Install(fsys)
		defer vos.Install(nil)
		cfg.SnapshotPath = path
	}
	g, err := memdb.New(&cfg)
	if err != nil {
		o.bad = err.Error()
		return
	}
	if err := g.Open(bg); err != nil {
		o.bad = err.Error()
		return
	}
	m := model.New(model.Cfg{Retention: time.Hour})
	now := time.Now()
	w.base = now
	for _, t := range w.s.Init {
		call := m.Resolve(Op{K: "upsertTask", Ts: []TS{t}}, now, now)
		if err := m.Apply(call, model.Exec(bg, g, call, true), nil); err != nil {
			o.bad = "initial database: " + err.Error()
			return
		}
	}
	if w.s.Warm {
		call := m.Resolve(Op{K: "chore"}, now, now)
		if err := m.Apply(call, model.Exec(bg, g, call, true), nil); err != nil {
			o.bad = "first background job: " + err.Error()
			return
		}
	}
	start := m.Clone()

	s := vsched.Start()
	defer s.Stop()
	var clock int64
	var recs []*rec
	events := func() int {
		if fsys == nil {
			return 0
		}
		return len(fsys.Events())
	}
	for i, ops := range w.s.Clients {
		rs := make([]*rec, len(ops))
		for j := range ops {
			rs[j] = &rec{client: i}
			recs = append(recs, rs[j])
		}
		s.Go(fmt.Sprintf("client%d", i), func() {
			own := ""
			for j, op := range ops {
				if j > 0 {
					vsched.Point("call", nil, nil)
				}
				r := rs[j]
				if op.N == "own" {
					op.N = own
					if own == "" {
						op.N = "no-claim-granted"
					}
				}
				r.call = start.Resolve(op, now, now)
				clock++
				r.from = clock
				n := events()
				switch op.K {
				case "close":
					r.res = model.Result{Err: closeEngine(g)}
				case "destroy":
					r.res = model.Result{Err: destroyEngine(g)}
				default:
					r.res = model.Exec(bg, g, r.call, true)
				}
				clock++
				r.to = clock
				r.ran = true
				if fsys != nil && (op.K == "chore" || op.K == "close" || op.K == "destroy") {
					r.save = true
					for _, e := range fsys.Events()[n:] {
						if e.Gid == vsched.Gid() {
							r.wrote = true
						}
					}
					r.data, r.there = fsys.Get(path)
				}
				if r.res.Task != nil && (op.K == "poll" || op.K == "insertPromise" || op.K == "upsertPromise") {
					own = r.res.Task.Nonce
				}
			}
		})
	}
	last := -1
	cost := 0
	for {
		synctest.Wait()
		run, _, unfinished := s.Runnable()
		if unfinished == 0 {
			break
		}
		if len(run) == 0 {
			// Something may be sleeping rather than stuck.
			time.Sleep(time.Hour)
			synctest.Wait()
			if run, _, unfinished = s.Runnable(); unfinished == 0 {
				break
			}
			if len(run) == 0 {
				o.bad = "deadlock: " + strings.Join(s.Blocked(), "; ")
				o.recs = recs
				return
			}
		}
		// The thread that ran last comes first.
		cont := false
		for i, t := range run {
			if t.ID == last {
				run[0], run[i] = run[i], run[0]
				for k := i; k > 1 && run[k].ID < run[k-1].ID; k-- {
					run[k], run[k-1] = run[k-1], run[k]
				}
				cont = true
				break
			}
		}
		n := len(run)
		if cont && w.s.Bound >= 0 && cost >= w.s.Bound {
			n = 1
		}
		k := 0
		if n > 1 {
			d := len(o.choices)
			if d < len(prefix) {
				k = prefix[d]
			}
			if k >= n {
				o.bad = "nondeterministic"
				return
			}
			o.choices = append(o.choices, choice{n: n, taken: k, cost: cost})
		}
		if cont && k > 0 {
			cost++
		}
		t := run[k]
		if verbose {
			o.trace = append(o.trace, fmt.Sprintf("%s passes %s", t.Name, t.Kind()))
		}
		o.steps++
		last = t.ID
		s.Resume(t)
	}
	s.Stop()
	o.recs = recs
	obs, err := model.Observe(bg, g, w.ids)
	if err != nil {
		o.bad = err.Error()
		return
	}
	o.obs = obs
	o.bad = w.judge(start, g, &o, fsys)
	return
}

func closeEngine(g *memdb.Engine) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("PANIC: %v", x)
		}
	}()
	return g.Close(bg)
}

func destroyEngine(g *memdb.Engine) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("PANIC: %v", x)
		}
	}()
	return g.Destroy(bg)
}

// decode reads a snapshot with a fresh engine.
func decode(data []byte, ids []string) (model.State, error) {
	f := vos.New("/x")
	f.Put("/x/s", data)
	vos.Install(f)
	defer vos.Install(nil)
	g, err := memdb.New(&memdb.Config{SnapshotPath: "/x/s", SnapshotInterval: time.Hour, RetentionPeriod: 1e6 * time.Hour})
	if err != nil {
		return nil, err
	}
	if err := g.Open(bg); err != nil {
		return nil, err
	}
	return model.Observe(bg, g, ids)
}

type item struct {
	r    *rec
	snap model.State // pseudo operation: the database equals this
	from int64
	to   int64
}

// judge looks for a sequential order that explains everything.
func (w *world) judge(start *model.Model, g *memdb.Engine, o *outcome, fsys *vos.FS) string {
	var items []item
	for _, r := range o.recs {
		if strings.HasPrefix(model.Kind(r.res.Err), "other: PANIC") {
			return "client " + fmt.Sprint(r.client) + " " + r.call.Op.String() + ": " + r.res.Err.Error()
		}
		items = append(items, item{r: r, from: r.from, to: r.to})
	}
	if fsys != nil {
		for _, r := range o.recs {
			if !r.save || !r.wrote || r.res.Err != nil || r.call.Op.K == "destroy" {
				continue
			}
			if !r.there {
				return fmt.Sprintf("client %d: %s wrote but left no snapshot", r.client, r.call.Op)
			}
			if w.cache == nil || len(w.cache) > 10000 {
				w.cache = map[string]decoded{}
			}
			d, ok := w.cache[string(r.data)]
			if !ok {
				d.s, d.err = decode(r.data, w.ids)
				w.cache[string(r.data)] = d
			}
			st, err := d.s, d.err
			vos.Install(fsys)
			if err != nil {
				return fmt.Sprintf("client %d: snapshot after %s cannot be opened: %v", r.client, r.call.Op, err)
			}
			// Another save may have replaced it meanwhile: the cut lies
			// within the saves that overlap.
			from := r.from
			for changed := true; changed; {
				changed = false
				for _, q := range o.recs {
					if q.save && q.from < from && q.to > from {
						from, changed = q.from, true
					}
				}
			}
			items = append(items, item{snap: st, from: from, to: r.to})
		}
		// What is on the disk in the end is no older than the last close.
		from, closed := int64(0), false
		for _, r := range o.recs {
			if r.call.Op.K == "destroy" {
				closed = false
				break
			}
			if r.call.Op.K == "close" && r.res.Err == nil {
				from, closed = max(from, r.from), true
			}
		}
		if closed {
			if w.cache == nil {
				w.cache = map[string]decoded{}
			}
			data, there := fsys.Get(path)
			if !there {
				return "there is no snapshot after the close"
			}
			d, ok := w.cache[string(data)]
			if !ok {
				d.s, d.err = decode(data, w.ids)
				w.cache[string(data)] = d
				vos.Install(fsys)
			}
			if d.err != nil {
				return fmt.Sprintf("the final snapshot cannot be opened: %v", d.err)
			}
			items = append(items, item{snap: d.s, from: from, to: math.MaxInt64})
		}
		for _, f := range fsys.Files() {
			if f != path {
				return "a temporary file was left behind: " + f
			}
		}
	}
	done := make([]bool, len(items))
	var why string
	var final *model.Model
	var rec func(m *model.Model, left int) bool
	rec = func(m *model.Model, left int) bool {
		if left == 0 {
			if s := m.Compare(o.obs); s != "" {
				why = "final contents: " + s
				return false
			}
			final = m
			return true
		}
		for i, it := range items {
			if done[i] {
				continue
			}
			ok := true
			for j, q := range items {
				if !done[j] && j != i && q.to < it.from {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			n := m.Clone()
			if it.r == nil {
				if s := n.Compare(it.snap); s != "" {
					why = "snapshot: " + s
					continue
				}
			} else {
				switch it.r.call.Op.K {
				case "close":
					if it.r.res.Err != nil {
						why = it.r.res.Err.Error()
						continue
					}
				default:
					if err := n.Apply(it.r.call, it.r.res, nil); err != nil {
						why = it.r.call.Op.String() + ": " + err.Error()
						continue
					}
				}
			}
			done[i] = true
			if rec(n, left-1) {
				return true
			}
			done[i] = false
		}
		return false
	}
	if !rec(start, len(items)) {
		var sb strings.Builder
		sb.WriteString("no sequential order explains the results (" + why + "):")
		for _, r := range o.recs {
			fmt.Fprintf(&sb, "\n  client %d [%d,%d] %s -> %s", r.client, r.from, r.to, r.call.Op, r.res)
		}
		for _, it := range items {
			if it.r == nil {
				fmt.Fprintf(&sb, "\n  snapshot [%d,%d] = %s", it.from, it.to, it.snap)
			}
		}
		fmt.Fprintf(&sb, "\n  start = %s\n  final = %s", start.S, o.obs)
		return sb.String()
	}
	return w.audit(final, g)
}

// audit checks the indexes afterwards: listings, then draining by polls.
func (w *world) audit(m *model.Model, g *memdb.Engine) string {
	step := func(op Op) (string, bool) {
		call := m.Resolve(op, w.base, time.Now())
		r := model.Exec(bg, g, call, true)
		if err := m.Apply(call, r, nil); err != nil {
			return fmt.Sprintf("afterwards %s: %v", op, err), false
		}
		return "", r.Err == nil
	}
	limit, polls := max(100, 2*len(w.ids)), len(w.ids)
	if polls > 64 {
		polls = 3
	}
	if s, _ := step(Op{K: "listTopics", Limit: limit}); s != "" {
		return s
	}
	for _, t := range w.tops {
		for _, k := range []string{"listTasks", "listPromises"} {
			if s, _ := step(Op{K: k, Topic: t, Limit: limit}); s != "" {
				return s
			}
		}
		for i := 0; i <= polls; i++ {
			s, ok := step(Op{K: "poll", Topic: t, Consumer: "audit", DeadIn: p(sec)})
			if s != "" {
				return s
			}
			if !ok {
				break
			}
		}
	}
	return ""
}

// explore enumerates all schedules of one scenario.
func (w *world) explore() {
	c := w.c
	synctest.Test(c.T, func(*testing.T) {
		var prefix []int
		fail := func(o outcome, what string) {
			// Run again for the trace.
			vos.Install(nil)
			v := w.execute(prefix, true)
			sig := "linearizability"
			if strings.HasPrefix(what, "deadlock") {
				sig = "deadlock"
			}
			if len(what) > 3000 {
				what = what[:3000] + "..."
			}
			c.Violation(sig, what, map[string]any{"scenario": w.s, "schedule": prefix, "trace": v.trace, "again": v.bad})
			if sig == "deadlock" {
				c.Write()
				os.Exit(0)
			}
		}
		for {
			o := w.execute(prefix, false)
			c.Tick()
			c.Count("schedules", 1)
			c.Count("schedules: "+w.s.Name, 1)
			c.Count("transitions", int64(o.steps))
			if o.bad == "nondeterministic" {
				c.NotExhaustive("a schedule could not be repeated (" + w.s.Name + ")")
				return
			}
			if o.bad != "" {
				fail(o, o.bad)
				return
			}
			c.Distinct("states", outcomeKey(o))
			c.Sample(func() string {
				v := w.execute(prefix, true)
				b, _ := json.Marshal(w.s)
				return string(b) + " schedule: " + strings.Join(v.trace, ", ")
			})
			if c.Late() {
				return
			}
			// Next schedule: the deepest choice with an alternative left.
			i := len(o.choices) - 1
			for ; i >= 0; i-- {
				if o.choices[i].taken+1 < o.choices[i].n {
					break
				}
			}
			if i < 0 {
				return
			}
			prefix = prefix[:0]
			for j := 0; j < i; j++ {
				prefix = append(prefix, o.choices[j].taken)
			}
			prefix = append(prefix, o.choices[i].taken+1)
		}
	})
}

func outcomeKey(o outcome) string {
	var sb strings.Builder
	for _, r := range o.recs {
		sb.WriteString(r.call.Op.K)
		sb.WriteString(model.Kind(r.res.Err))
		if r.res.Task != nil {
			sb.WriteString(r.res.Task.ID)
		}
		if r.res.Deleted != nil {
			fmt.Fprint(&sb, r.res.Deleted.Deleted)
		}
		sb.WriteByte(';')
	}
	for _, id := range o.obs.IDs() {
		t := o.obs[id]
		fmt.Fprintf(&sb, "%s %s %d %s;", id, t.Topic, t.State, t.Consumer)
	}
	return sb.String()
}

func (w *world) run(s Scenario) {
	w.s = s
	w.c.Guard(func() any { return s }, w.explore)
	w.c.Count("histories", 1)
}

func TestCheck(t *testing.T) {
	c := core.New(t)
	f := parts[c.Prop+"/"+c.Part]
	if f == nil {
		t.Fatalf("no part %s for %s", c.Part, c.Prop)
	}
	f(c)
	c.Finish()
}
