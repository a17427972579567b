package web

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
)

func init() {
	parts["C18/words"] = c18Words
	parts["C18/deadlines"] = c18Deadlines
}

// update is what a commit is expected to send.
type update struct {
	nonce, topic, deferred string
	state                  ratus.TaskState
	sched                  *time.Time
	payload                any
}

// letter is one call on a context (or a commit with its outcome).
type letter struct {
	name   string
	call   func(x *ratus.Context, now time.Time) *ratus.Context
	model  func(u *update, now time.Time)
	commit string        // outcome of a commit
	sleep  time.Duration // lets time pass
}

func c18Letters() []letter {
	at := func(now time.Time, d time.Duration) time.Time { return now.Add(d) }
	zone := time.FixedZone("z", 5*3600+1800)
	set := func(name string, call func(x *ratus.Context, now time.Time) *ratus.Context, f func(u *update, now time.Time)) letter {
		return letter{name: name, call: call, model: f}
	}
	base := time.Date(2030, 1, 2, 3, 4, 5, 678900000, time.UTC)
	v := []letter{
		set("SetNonce(x)", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.SetNonce("x") }, func(u *update, _ time.Time) { u.nonce = "x" }),
		set("Force", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.Force() }, func(u *update, _ time.Time) { u.nonce = "" }),
		set("SetTopic(u)", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.SetTopic("u") }, func(u *update, _ time.Time) { u.topic = "u" }),
		set("SetTopic()", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.SetTopic("") }, func(u *update, _ time.Time) { u.topic = "" }),
		set("SetState(active)", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.SetState(ratus.TaskStateActive) }, func(u *update, _ time.Time) { u.state = ratus.TaskStateActive }),
		set("SetState(pending)", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.SetState(ratus.TaskStatePending) }, func(u *update, _ time.Time) { u.state = ratus.TaskStatePending }),
		set("SetState(completed)", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.SetState(ratus.TaskStateCompleted) }, func(u *update, _ time.Time) { u.state = ratus.TaskStateCompleted }),
		set("Archive", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.Archive() }, func(u *update, _ time.Time) { u.state = ratus.TaskStateArchived }),
		set("Abstain", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.Abstain() }, func(u *update, _ time.Time) { u.state = ratus.TaskStatePending }),
		set("SetScheduled(zone)", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.SetScheduled(base.In(zone)) }, func(u *update, _ time.Time) { t := base; u.sched = &t }),
		set("SetScheduled(past)", func(x *ratus.Context, now time.Time) *ratus.Context { return x.SetScheduled(at(now, -time.Hour)) }, func(u *update, now time.Time) { t := at(now, -time.Hour); u.sched = &t }),
		set("Reschedule", func(x *ratus.Context, now time.Time) *ratus.Context { return x.Reschedule(at(now, time.Hour)) }, func(u *update, now time.Time) {
			t := at(now, time.Hour)
			u.sched, u.state = &t, ratus.TaskStatePending
		}),
		set("SetDefer(5s)", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.SetDefer("5s") }, func(u *update, _ time.Time) { u.deferred = "5s" }),
		set("SetDefer()", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.SetDefer("") }, func(u *update, _ time.Time) { u.deferred = "" }),
		set("Retry(-1h)", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.Retry("-1h") }, func(u *update, _ time.Time) { u.deferred, u.state = "-1h", ratus.TaskStatePending }),
		set("SetPayload(list)", func(x *ratus.Context, _ time.Time) *ratus.Context {
			return x.SetPayload([]any{1.5, "é<&>", nil, map[string]any{"k": false}})
		}, func(u *update, _ time.Time) { u.payload = []any{1.5, "é<&>", nil, map[string]any{"k": false}} }),
		set("SetPayload(0)", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.SetPayload(0) }, func(u *update, _ time.Time) { u.payload = 0.0 }),
		set("SetPayload(nil)", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.SetPayload(nil) }, func(u *update, _ time.Time) { u.payload = nil }),
		set("Reset", func(x *ratus.Context, _ time.Time) *ratus.Context { return x.Reset() }, func(u *update, _ time.Time) {
			*u = update{nonce: "n1", state: ratus.TaskStateCompleted}
		}),
		{name: "Commit ok", commit: "ok"},
		{name: "Commit conflict", commit: "conflict"},
		{name: "Commit internal", commit: "internal"},
		{name: "Commit lost", commit: "drop"},
		{name: "sleep", sleep: 4 * time.Second},
	}
	return v
}

// claimed runs f with a context obtained by polling, and the functions to
// choose the outcome of the next commit and to take what the server received.
type claimed struct {
	x        *ratus.Context
	outcome  string
	received []*ratus.Commit
	ids      []string
	other    []string
	requests int
}

func poll18(parent context.Context, consumed, deadline *time.Time, id string, f func(cl *claimed) string) string {
	v := &claimed{outcome: "ok"}
	task := &ratus.Task{ID: id, Topic: "t", State: ratus.TaskStateActive, Nonce: "n1", Producer: "p", Consumer: "c", Consumed: consumed, Deadline: deadline, Payload: map[string]any{"a": 1.0}}
	drop := false
	target.Engine = &hook{func(ctx context.Context, op, name string, arg any) (any, error) {
		switch op {
		case "poll":
			if name != "t" || arg.(*ratus.Promise).Consumer != "c" {
				v.other = append(v.other, fmt.Sprintf("poll of %q for %q", name, arg.(*ratus.Promise).Consumer))
			}
			return task, nil
		case "commit":
			v.ids = append(v.ids, name)
			v.received = append(v.received, arg.(*ratus.Commit))
			if v.outcome == "drop" {
				drop = true
				return nil, ratus.ErrInternalServerError
			}
			if e := errKinds[v.outcome]; e != nil {
				return nil, e
			}
			return &ratus.Task{ID: name}, nil
		}
		v.other = append(v.other, op)
		return nil, ratus.ErrInternalServerError
	}}
	inner := handlerFor(defaultPages)
	sv := serve(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		v.requests++
		rec := httptest.NewRecorder()
		inner.ServeHTTP(rec, r)
		if drop {
			drop = false
			panic(http.ErrAbortHandler)
		}
		for k, h := range rec.Header() {
			w.Header()[k] = h
		}
		w.WriteHeader(rec.Code)
		w.Write(rec.Body.Bytes())
	}))
	defer sv.stop()
	c := sv.client(ratus.ClientOptions{})
	pr := &ratus.Promise{Consumer: "c"}
	x, err := c.Poll(parent, "t", pr)
	if err != nil {
		return fmt.Sprintf("poll failed: %v", err)
	}
	if x == nil || x.Task == nil {
		return "poll returned no task"
	}
	if !reflect.DeepEqual(pr, &ratus.Promise{Consumer: "c"}) {
		return "poll changed the promise"
	}
	if x.Task.ID != id || x.Task.Nonce != "n1" || x.Task.Topic != "t" || x.Task.Producer != "p" || x.Task.Consumer != "c" || !reflect.DeepEqual(x.Task.Payload, task.Payload) {
		return fmt.Sprintf("the context carries %+v", x.Task)
	}
	v.x = x
	s := f(v)
	if s == "" && len(v.other) > 0 {
		s = fmt.Sprintf("unexpected requests: %v", v.other)
	}
	if s == "" && v.requests != 1+len(v.received) {
		s = fmt.Sprintf("%d requests for a poll and %d commits", v.requests, len(v.received))
	}
	return s
}

// sent compares what the server received, after normalisation, with the update.
func sent(m *ratus.Commit, u update, now time.Time) string {
	sched := u.sched
	if sched == nil && u.deferred != "" {
		d, _ := time.ParseDuration(u.deferred)
		t := now.Add(d)
		sched = &t
	}
	if m.Nonce != u.nonce || m.Topic != u.topic || m.State == nil || *m.State != u.state || !reflect.DeepEqual(m.Payload, u.payload) ||
		(m.Scheduled == nil) != (sched == nil) || sched != nil && !m.Scheduled.Equal(*sched) {
		st := "none"
		if m.State != nil {
			st = fmt.Sprint(*m.State)
		}
		return fmt.Sprintf("received nonce %q topic %q state %s scheduled %v payload %v, expected %q %q %d %v %v", m.Nonce, m.Topic, st, m.Scheduled, m.Payload, u.nonce, u.topic, u.state, sched, u.payload)
	}
	return ""
}

func c18Words(c *core.Ctx) {
	al := c18Letters()
	run := func(depth int) {
		dims := make([]int, depth)
		for i := range dims {
			dims[i] = len(al)
		}
		product(dims, func(ix []int) bool {
			if c.Take() {
				word18(c, al, ix)
			}
			return !c.Stopped()
		})
	}
	for d := 0; d <= 4; d++ {
		run(d)
	}
	if c.Thorough() {
		run(5)
	}
}

// word18 makes the calls on one context.
func word18(c *core.Ctx, al []letter, ix []int) {
	var word []string
	for _, k := range ix {
		word = append(word, al[k].name)
	}
	det := func() any { return map[string]any{"calls": word} }
	synctest.Test(c.T, func(*testing.T) {
		c.Guard(det, func() {
			start := time.Now()
			con := start.Add(-time.Hour)
			dead := con.Add(10 * time.Second)
			s := poll18(bg, &con, &dead, "id/1 ?", func(v *claimed) string {
				u := update{nonce: "n1", state: ratus.TaskStateCompleted}
				done := false
				commit := func(outcome string) string {
					before := len(v.received)
					v.outcome = outcome
					err := v.x.Commit()
					now := time.Now()
					n := len(v.received) - before
					if done {
						if err != nil || n != 0 {
							return fmt.Sprintf("a commit after a successful one returned %v and sent %d updates", err, n)
						}
						return ""
					}
					if now.Sub(start) >= 10*time.Second {
						if err == nil || n != 0 {
							return fmt.Sprintf("a commit after the deadline returned %v and sent %d updates", err, n)
						}
						return ""
					}
					if n != 1 {
						return fmt.Sprintf("a commit sent %d updates (error %v)", n, err)
					}
					m := v.received[before]
					if id := v.ids[before]; id != "id/1 ?" {
						return fmt.Sprintf("the commit is for %q", id)
					}
					if s := sent(m, u, now); s != "" {
						return s
					}
					if outcome == "ok" {
						if err != nil {
							return fmt.Sprintf("an accepted commit returned %v", err)
						}
						done = true
						return ""
					}
					if err == nil {
						return fmt.Sprintf("a commit that failed (%s) returned no error", outcome)
					}
					if e := errKinds[outcome]; e != nil && (!errors.Is(err, e) || model.Kind(err) != outcome) {
						return fmt.Sprintf("a commit that failed (%s) returned %v", outcome, err)
					}
					return ""
				}
				for i, k := range ix {
					l := al[k]
					switch {
					case l.commit != "":
						if s := commit(l.commit); s != "" {
							return fmt.Sprintf("call %d: %s", i+1, s)
						}
					case l.sleep > 0:
						time.Sleep(l.sleep)
					default:
						n := len(v.received)
						now := time.Now()
						l.model(&u, now)
						y := l.call(v.x, now)
						if y != v.x {
							return fmt.Sprintf("%s returned another context", l.name)
						}
						if len(v.received) != n {
							return fmt.Sprintf("%s sent an update", l.name)
						}
					}
					c.Distinct("states", fmt.Sprint(u.nonce, u.topic, u.deferred, u.state, u.sched, u.payload, done, time.Since(start)))
					c.Count("transitions", 1)
				}
				for _, o := range []string{"ok", "internal"} {
					if s := commit(o); s != "" {
						return "last: " + s
					}
				}
				if v.x.Task.Nonce != "n1" || v.x.Task.Topic != "t" || v.x.Task.State != ratus.TaskStateActive {
					return "the task of the context changed"
				}
				return ""
			})
			if s != "" {
				c.Violation("conformance", fmt.Sprintf("%q: %s", word, s), det())
				return
			}
			c.Count("histories", 1)
			c.Sample(func() string { return fmt.Sprintf("%q", word) })
		})
	})
}

// c18Deadlines: the deadline of the context for every relation of deadline,
// claim time and the parent's deadline.
func c18Deadlines(c *core.Ctx) {
	none := time.Duration(1 << 62)
	cons := []time.Duration{none, -1000 * time.Hour, -1, 0, 5 * time.Second, 1000 * time.Hour}
	diffs := []time.Duration{none, -100 * time.Hour, -1, 0, 1, time.Millisecond, 1500 * time.Millisecond, 10 * time.Minute, 10000 * time.Hour}
	pars := []time.Duration{none, 0, time.Second, time.Hour} // 0: cancelled by hand
	steps := []time.Duration{0, 1, time.Millisecond - 1, time.Millisecond, time.Second, 1500*time.Millisecond - 1, 1500 * time.Millisecond, 5 * time.Minute, 10 * time.Minute, 20000 * time.Hour}
	product([]int{len(cons), len(diffs), len(pars), len(steps)}, func(ix []int) bool {
		if !c.Take() {
			return !c.Stopped()
		}
		cd, dd, pd, sd := cons[ix[0]], diffs[ix[1]], pars[ix[2]], steps[ix[3]]
		det := func() any {
			return map[string]any{"consumed": cd, "deadline": dd, "parent": pd, "then": sd}
		}
		synctest.Test(c.T, func(*testing.T) {
			c.Guard(det, func() {
				now := time.Now()
				var con, dead *time.Time
				ref := now
				if cd != none {
					t := now.Add(cd)
					con, ref = &t, t
				}
				if dd != none {
					t := ref.Add(dd)
					dead = &t
				}
				parent, cancel := context.WithCancel(bg)
				if pd != none && pd != 0 {
					parent, cancel = context.WithTimeout(parent, pd)
				}
				defer cancel()
				end := none
				if cd != none && dd != none {
					end = dd
				}
				if pd != none && pd != 0 {
					end = min(end, pd)
				}
				s := poll18(parent, con, dead, "k", func(v *claimed) string {
					d, ok := v.x.Deadline()
					if ok != (end != none) || ok && !d.Equal(now.Add(end)) {
						return fmt.Sprintf("the context's deadline is %v %v, expected %v from now (%v)", d, ok, end, now)
					}
					time.Sleep(sd)
					synctest.Wait()
					over := end != none && sd >= end
					if (v.x.Err() != nil) != over {
						return fmt.Sprintf("after %v the context's error is %v", sd, v.x.Err())
					}
					if over && !errors.Is(v.x.Err(), context.DeadlineExceeded) {
						return fmt.Sprintf("the context's error is %v", v.x.Err())
					}
					if pd == 0 {
						cancel()
						synctest.Wait()
						if v.x.Err() == nil {
							return "the context goes on although its parent was cancelled"
						}
						over = true
					}
					err := v.x.Commit()
					if over != (err != nil) || over == (len(v.received) == 1) {
						return fmt.Sprintf("commit after %v: %v with %d updates sent", sd, err, len(v.received))
					}
					if over && !errors.Is(err, v.x.Err()) {
						return fmt.Sprintf("commit after %v: %v", sd, err)
					}
					return ""
				})
				if s != "" {
					c.Violation("conformance", fmt.Sprintf("consumed %v, deadline %v later, parent %v: %s", cd, dd, pd, s), det())
					return
				}
				c.Count("histories", 1)
				c.Count("transitions", 2)
				c.Distinct("states", fmt.Sprint(ix))
			})
		})
		return !c.Stopped()
	})
}
