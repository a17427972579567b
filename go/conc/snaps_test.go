package conc

import (
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"verif.local/shim/vos"

	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
)

// snapRun is one sequential history with a snapshot schedule.
type snapRun struct {
	c        *core.Ctx
	interval time.Duration
	path     string
	fs       *vos.FS
	g        *memdb.Engine
	m        *model.Model
	base     time.Time
	last     *time.Time // last snapshot written by this engine's background jobs
	have     bool
	dead     bool
	log      []string
}

func (r *snapRun) open() error {
	g, err := memdb.New(&memdb.Config{SnapshotPath: r.path, SnapshotInterval: r.interval, RetentionPeriod: time.Hour})
	if err != nil {
		return err
	}
	r.g, r.last = g, nil
	return g.Open(bg)
}

func (r *snapRun) changed(n int) bool { return len(r.fs.Events()) > n }

func (r *snapRun) snapshotIs(s model.State) string {
	data, ok := r.fs.Get(path)
	if !ok {
		return "there is no snapshot"
	}
	d, err := decode(data, crashIDs)
	vos.Install(r.fs)
	if err != nil {
		return "the snapshot cannot be opened: " + err.Error()
	}
	if !same(d, s) {
		return fmt.Sprintf("the snapshot has %s, expected %s", d, s)
	}
	return ""
}

func (r *snapRun) apply(op Op) string {
	now := time.Now()
	call := r.m.Resolve(op, r.base, now)
	res := model.Exec(bg, r.g, call, true)
	call.After = time.Now()
	if err := r.m.Apply(call, res, nil); err != nil {
		return op.String() + ": " + err.Error()
	}
	return ""
}

func (r *snapRun) step(op string) string {
	r.log = append(r.log, fmt.Sprintf("+%v %s", time.Since(r.base), op))
	n := len(r.fs.Events())
	quiet := true
	switch op {
	case "w1", "w2":
		t := pend(op[1:], "a", -sec)
		t.Payload = fmt.Sprint("at ", time.Since(r.base), len(r.log))
		if s := r.apply(upsert(t)); s != "" {
			return s
		}
	case "claim":
		if s := r.apply(poll("a", "x")); s != "" {
			return s
		}
	case "delete":
		if s := r.apply(Op{K: "deleteTopics"}); s != "" {
			return s
		}
	case "half":
		time.Sleep(r.interval / 2)
	case "short":
		time.Sleep(r.interval - time.Millisecond)
	case "full":
		time.Sleep(r.interval)
	case "long":
		time.Sleep(2*r.interval + time.Second)
	case "chore", "failing chore":
		if op == "failing chore" {
			r.fs.Fault = func(_ int, o, _ string) (bool, bool) { return o == "write" || o == "create", false }
		}
		due := r.path != "" && (r.last == nil || time.Since(*r.last) >= r.interval)
		now := time.Now()
		call := r.m.Resolve(Op{K: "chore"}, r.base, now)
		err := r.g.Chore(bg)
		r.fs.Fault = nil
		if aerr := r.m.Apply(call, model.Result{}, nil); aerr != nil {
			return aerr.Error()
		}
		quiet = !due
		if op == "failing chore" && due {
			if err == nil {
				return "a background job that could not write its snapshot reported no error"
			}
			break
		}
		if err != nil {
			return "background job: " + err.Error()
		}
		if due {
			if !r.changed(n) {
				return "the background job did not write the snapshot that was due"
			}
			if s := r.snapshotIs(r.m.S); s != "" {
				return "after a background job: " + s
			}
			r.last, r.have = &now, true
		}
	case "restart":
		if err := r.g.Close(bg); err != nil {
			return "close: " + err.Error()
		}
		if r.path != "" {
			if s := r.snapshotIs(r.m.S); s != "" {
				return "after close: " + s
			}
			r.have = true
		} else {
			r.m.S = model.State{}
		}
		if err := r.open(); err != nil {
			return "open: " + err.Error()
		}
		quiet = false
	case "destroy":
		if err := r.g.Destroy(bg); err != nil {
			return "destroy: " + err.Error()
		}
		if f := r.fs.Files(); len(f) > 0 {
			return fmt.Sprintf("destroy left files behind: %v", f)
		}
		r.have = false
		r.m.S = model.State{}
		if err := r.open(); err != nil {
			return "open: " + err.Error()
		}
		quiet = false
	}
	if quiet && r.changed(n) {
		return fmt.Sprintf("%s touched files although no snapshot was due: %s", op, describe(r.fs.Events()[n:]))
	}
	if r.path == "" && r.fs.Calls > 0 {
		return fmt.Sprintf("%s touched files although no snapshot is configured: %v", op, r.fs.Names)
	}
	for _, f := range r.fs.Files() {
		if f != path {
			return "a temporary file was left behind after " + op + ": " + f
		}
	}
	if _, ok := r.fs.Get(path); ok != r.have {
		return fmt.Sprintf("after %s: snapshot present is %v, expected %v", op, ok, r.have)
	}
	obs, err := model.Observe(bg, r.g, crashIDs)
	if err != nil {
		return err.Error()
	}
	if s := r.m.Compare(obs); s != "" {
		return "after " + op + ": " + s
	}
	return ""
}

func schedulePart(c *core.Ctx) {
	alpha := []string{"w1", "claim", "half", "short", "full", "chore", "failing chore", "restart", "destroy"}
	depth := pick(c, 4, 6)
	for _, cfg := range []struct {
		p string
		i time.Duration
		d int
	}{{path, time.Minute, depth}, {path, 5 * time.Minute, depth - 1}, {path, 10 * time.Millisecond, depth}, {path, 0, depth - 1}, {path, 72 * time.Hour, depth - 1}, {"", time.Minute, depth - 1}} {
		for _, pre := range [][]string{{"w2"}, {"w2", "chore"}} {
			words(alpha, cfg.d, func(w []string) bool {
				if c.Take() {
					r := &snapRun{c: c, interval: cfg.i, path: cfg.p}
					ops := append(append(append([]string{}, pre...), w...), "chore", "w2", "long", "chore")
					det := func() any {
						return map[string]any{"interval": cfg.i.String(), "path": cfg.p, "ops": ops, "log": r.log}
					}
					synctest.Test(c.T, func(*testing.T) {
						c.Guard(det, func() {
							r.fs = vos.New("/data")
							vos.Install(r.fs)
							defer vos.Install(nil)
							r.m = model.New(model.Cfg{Retention: time.Hour})
							r.base = time.Now()
							if err := r.open(); err != nil {
								c.Violation("schedule", "open: "+err.Error(), det())
								return
							}
							for _, op := range ops {
								if s := r.step(op); s != "" {
									c.Violation("schedule", s, det())
									return
								}
								c.Count("transitions", 1)
								c.Distinct("states", fmt.Sprint(cfg, r.have, r.last == nil, len(r.m.S), time.Since(r.base), op))
							}
						})
					})
					c.Count("histories", 1)
				}
				return !c.Stopped()
			})
			if c.Stopped() {
				return
			}
		}
	}
}

// Snapshots while clients write.
func cutPart(c *core.Ctx) {
	writers := []Op{
		upsert(pend("1", "b", -sec)), {K: "insertTasks", Ts: []TS{pend("2", "a", -sec), pend("3", "b", -sec)}}, {K: "upsertTasks", Ts: []TS{pend("1", "b", -sec), pend("3", "a", -sec)}},
		{K: "deleteTasks", Topic: "a"}, {K: "deleteTopics"}, poll("a", "x"), commit("1", nonceOf("1"), 2), {K: "deletePromises", Topic: "a"}, {K: "deleteTask", ID: "1"},
	}
	savers := []Op{chore, {K: "close"}}
	w := &world{c: c, ids: []string{"1", "2", "3"}, tops: []string{"a", "b"}}
	run := func(name string, bound int, db []TS, cs ...[]Op) bool {
		if c.Take() {
			for i := range cs {
				for j := range cs[i] {
					cs[i][j] = label(cs[i][j], fmt.Sprintf("c%d", i+1))
				}
			}
			w.run(Scenario{Name: name, Init: db, Clients: cs, Bound: bound, Snap: true})
		}
		return !c.Stopped()
	}
	one := func(o Op) []Op { return []Op{o} }
	for k, db := range [][]TS{dbActive, dbExpired, dbMixed, nil} {
		for _, s := range savers {
			for i, a := range writers {
				if !run("save and one writer", pick(c, 4, -1), db, one(s), one(a)) {
					return
				}
				if k >= 2 && !c.Thorough() {
					continue
				}
				for _, b := range writers[i:] {
					if !run("save and two writers", pick(c, 1, 3), db, one(s), one(a), one(b)) || !run("save and a writer of two", pick(c, 2, 4), db, one(s), []Op{a, b}) {
						return
					}
				}
				if !run("two saves and a writer", pick(c, 2, 3), db, one(s), one(chore), one(a)) || !run("write then save", pick(c, 2, 4), db, []Op{a, s}, one(writers[1])) || !run("two savers who write", pick(c, 1, 3), db, []Op{a, s}, []Op{writers[1], chore}) {
					return
				}
			}
			for _, t := range savers {
				if !run("two saves", pick(c, 3, -1), db, one(s), one(t)) {
					return
				}
			}
		}
	}
}

// The same at statement granularity.
func cutSteps(c *core.Ctx) {
	w := &world{c: c, ids: []string{"1", "2", "3"}, tops: []string{"a", "b"}}
	for i, db := range [][]TS{dbActive, dbExpired} {
		for _, s := range []Op{chore, {K: "close"}} {
			for _, a := range []Op{
				upsert(pend("1", "b", -sec)), {K: "insertTasks", Ts: []TS{pend("2", "a", -sec), pend("3", "b", -sec)}},
				{K: "upsertTasks", Ts: []TS{pend("1", "b", -sec), pend("3", "a", -sec)}}, {K: "deleteTopics"}, poll("a", "x"), chore, {K: "close"},
			} {
				if c.Take() {
					w.run(Scenario{Name: "save and one other", Init: db, Clients: [][]Op{{s}, {a}}, Bound: pick(c, 2-i, 3), Snap: true})
				}
				if c.Stopped() {
					return
				}
			}
		}
	}
}
