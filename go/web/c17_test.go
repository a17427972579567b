package web

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"slices"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
)

func init() {
	parts["C17/single"] = c17Single
	parts["C17/cancel"] = c17Cancel
	parts["C17/many"] = c17Many
}

// step is what happens at one poll: what the server answers, what the handler
// does with the task and what becomes of the commits.
type step struct {
	Poll   string   `json:"poll"`             // task, taskShort, taskPast, taskNoTimes, taskNoDeadline, slowTask, empty, slowEmpty, an error kind, drop, garbled
	Do     string   `json:"do,omitempty"`     // what the handler does
	Commit []string `json:"commit,omitempty"` // outcomes of the commits in order, default ok
}

func (s step) String() string {
	r := s.Poll
	if s.Do != "" {
		r += "/" + s.Do
	}
	for _, c := range s.Commit {
		r += "/" + c
	}
	return r
}

// event is one thing seen by the server or the handler.
type event struct {
	at   time.Duration
	what string
}

func (e event) MarshalText() ([]byte, error) { return []byte(e.String()), nil }
func (e event) String() string               { return fmt.Sprintf("%v %s", e.at, e.what) }

// subConf is the configuration of a subscription and its surroundings.
type subConf struct {
	N                     int
	Cd, Poll, Drain, Errs time.Duration
	Timeout, Consumer     string
	Client                time.Duration // time limit of the client
	ErrSleep              time.Duration // taken by the handler for errors
	Long                  time.Duration // taken by slow answers and handlers
	Extra                 bool          // fields of the promise that must be ignored are set
}

var errKinds = map[string]error{"badrequest": ratus.ErrBadRequest, "notfound": ratus.ErrNotFound, "conflict": ratus.ErrConflict, "internal": ratus.ErrInternalServerError, "unavailable": ratus.ErrServiceUnavailable}

func or(d, def time.Duration) time.Duration {
	if d <= 0 {
		return def
	}
	return d
}

// taskTimes are consumed time and deadline of the task of a step, by the clock
// of a server that differs from the client's.
func taskTimes(s step, now time.Time) (c, d *time.Time) {
	x := now.Add(-37 * time.Hour)
	y := x.Add(10 * time.Minute)
	switch s.Poll {
	case "taskShort":
		y = x.Add(15 * time.Second)
	case "taskPast":
		y = x.Add(-time.Second)
	case "taskNoTimes":
		return nil, nil
	case "taskNoDeadline":
		return &x, nil
	}
	return &x, &y
}

// expect computes the events of a subscription up to a number of polls, in
// order of time, and the time of the last of these polls.
func expect(cf subConf, script []step, polls int) (evs []event, last time.Duration) {
	next := make([]time.Duration, max(cf.N, 1)) // when each poller polls next
	for i := range next {
		next[i] = or(cf.Cd, ratus.DefaultConcurrencyDelay) * time.Duration(i)
	}
	timeout := cf.Timeout
	if timeout == "" {
		timeout = ratus.DefaultTimeout
	}
	td, _ := time.ParseDuration(timeout)
	for k := 0; k < polls; k++ {
		i := 0
		for j := range next {
			if next[j] < next[i] {
				i = j
			}
		}
		t := next[i]
		last = t
		add := func(f string, a ...any) { evs = append(evs, event{t, fmt.Sprintf(f, a...)}) }
		failed := func(kind string) {
			add("error %s", kind)
			next[i] = t + cf.ErrSleep + or(cf.Errs, ratus.DefaultErrorInterval)
		}
		s := step{Poll: "empty"}
		if k < len(script) {
			s = script[k]
		}
		add("poll t consumer=%s deadline=%v", cf.Consumer, t+td)
		if s.Poll == "slowEmpty" || s.Poll == "slowTask" {
			if cf.Client > 0 && cf.Client < cf.Long {
				t += cf.Client
				failed("other")
				continue
			}
			t += cf.Long
		}
		switch s.Poll {
		case "empty", "slowEmpty":
			next[i] = t + or(cf.Drain, ratus.DefaultDrainInterval)
			continue
		case "drop", "garbled":
			failed("other")
			continue
		}
		if errKinds[s.Poll] != nil {
			failed(s.Poll)
			continue
		}
		add("handle k%d", k)
		dead := time.Duration(1<<63 - 1)
		if c, d := taskTimes(s, time.Now()); c != nil && d != nil {
			dead = t + d.Sub(*c)
		}
		nc, committed, state := 0, false, 2
		commit := func() string {
			if committed {
				return "ok"
			}
			if t >= dead {
				return "other"
			}
			o := "ok"
			if nc < len(s.Commit) {
				o = s.Commit[nc]
			}
			nc++
			add("commit k%d state=%d nonce=n%d", k, state, k)
			if o == "ok" {
				committed = true
			}
			if o == "drop" || o == "garbled" {
				o = "other"
			}
			return o
		}
		switch s.Do {
		case "sleep":
			t += cf.Long
		case "commit":
			commit()
		case "commitTwice":
			commit()
			t += cf.Long
			commit()
		case "abstain":
			state = 0
		case "commitLater":
			t += cf.Long
			commit()
			t += cf.Long
		}
		add("handled k%d", k)
		switch o := commit(); o {
		case "ok":
			next[i] = t + max(cf.Poll, 0)
		case "notfound":
			next[i] = t + or(cf.Drain, ratus.DefaultDrainInterval)
		default:
			failed(o)
		}
	}
	slices.SortStableFunc(evs, func(a, b event) int { return int(min(1, max(-1, a.at-b.at))) })
	return evs, last
}

// subscription runs a script against a subscription until the context ends
// and returns what happened, when it returned and the error.
func subscription(cf subConf, script []step, end time.Duration, deadline bool) (evs []event, returned time.Duration, err error, want error, late []event) {
	start := time.Now()
	var mu sync.Mutex
	add := func(f string, a ...any) {
		mu.Lock()
		evs = append(evs, event{time.Since(start), fmt.Sprintf(f, a...)})
		mu.Unlock()
	}
	polls := 0
	commits := map[string]int{}
	of := func(id string) (k int, s step) {
		fmt.Sscanf(id, "k%d", &k)
		if k < len(script) {
			s = script[k]
		}
		return
	}
	type fate struct{ reached, drop, garbled bool }
	type fateKey struct{}
	target.Engine = &hook{func(ctx context.Context, op, name string, arg any) (any, error) {
		ft := ctx.Value(fateKey{}).(*fate)
		ft.reached = true
		switch op {
		case "poll":
			mu.Lock()
			k := polls
			polls++
			mu.Unlock()
			pr := arg.(*ratus.Promise)
			add("poll %s consumer=%s deadline=%v", name, pr.Consumer, pr.Deadline.Sub(start))
			s := step{Poll: "empty"}
			if k < len(script) {
				s = script[k]
			}
			if s.Poll == "slowEmpty" || s.Poll == "slowTask" {
				select {
				case <-time.After(cf.Long):
				case <-ctx.Done():
					return nil, ctx.Err()
				}
			}
			switch s.Poll {
			case "empty", "slowEmpty":
				return nil, ratus.ErrNotFound
			case "drop":
				ft.drop = true
				return nil, ratus.ErrInternalServerError
			case "garbled":
				ft.garbled = true
				return nil, ratus.ErrInternalServerError
			}
			if e := errKinds[s.Poll]; e != nil {
				return nil, e
			}
			t := &ratus.Task{ID: fmt.Sprint("k", k), Topic: "t", State: ratus.TaskStateActive, Nonce: fmt.Sprint("n", k), Consumer: pr.Consumer, Payload: float64(k)}
			t.Consumed, t.Deadline = taskTimes(s, time.Now())
			return t, nil
		case "commit":
			m := arg.(*ratus.Commit)
			mu.Lock()
			n := commits[name]
			commits[name]++
			mu.Unlock()
			extra := ""
			if m.Topic != "" || m.Scheduled != nil || m.Payload != nil {
				extra = fmt.Sprintf(" and unexpected fields %+v", m)
			}
			add("commit %s state=%d nonce=%s%s", name, *m.State, m.Nonce, extra)
			_, s := of(name)
			o := "ok"
			if n < len(s.Commit) {
				o = s.Commit[n]
			}
			switch o {
			case "drop":
				ft.drop = true
				return nil, ratus.ErrInternalServerError
			case "garbled":
				ft.garbled = true
				return nil, ratus.ErrInternalServerError
			}
			if e := errKinds[o]; e != nil {
				return nil, e
			}
			return &ratus.Task{ID: name, Topic: "t", State: *m.State}, nil
		}
		add("engine %s %s", op, name)
		return nil, ratus.ErrInternalServerError
	}}
	inner := handlerFor(defaultPages)
	sv := serve(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		ft := &fate{}
		rec := httptest.NewRecorder()
		inner.ServeHTTP(rec, r.WithContext(context.WithValue(r.Context(), fateKey{}, ft)))
		if !ft.reached {
			add("request %s %s status %d", r.Method, r.URL, rec.Code)
		}
		if ft.drop {
			panic(http.ErrAbortHandler)
		}
		if ft.garbled {
			w.Header().Set("Content-Type", "application/json")
			w.Write([]byte(`{"_id":"k`))
			return
		}
		for k, v := range rec.Header() {
			w.Header()[k] = v
		}
		w.WriteHeader(rec.Code)
		w.Write(rec.Body.Bytes())
	}))
	defer sv.stop()
	cl := sv.client(ratus.ClientOptions{Timeout: cf.Client})
	var ctx context.Context
	var cancel context.CancelFunc
	if deadline {
		ctx, cancel = context.WithTimeout(bg, end)
		want = context.DeadlineExceeded
	} else {
		ctx, cancel = context.WithCancel(bg)
		time.AfterFunc(end, cancel)
		want = context.Canceled
	}
	defer cancel()
	pr := &ratus.Promise{Consumer: cf.Consumer, Timeout: cf.Timeout}
	if cf.Extra {
		d := time.Now().Add(time.Hour)
		pr.ID, pr.Deadline = "zz", &d
	}
	handler := func(x *ratus.Context, e error) {
		if e != nil {
			kind := model.Kind(e)
			if errKinds[kind] == nil {
				kind = "other"
			}
			if x != nil {
				kind += " with a context"
			}
			add("error %s", kind)
			time.Sleep(cf.ErrSleep)
			return
		}
		if x == nil || x.Task == nil {
			add("handle nothing")
			return
		}
		k, s := of(x.Task.ID)
		if x.Task.Nonce != fmt.Sprint("n", k) || x.Task.Topic != "t" || x.Task.Payload != float64(k) || x.Task.State != ratus.TaskStateActive {
			add("handle %+v", x.Task)
		} else {
			add("handle %s", x.Task.ID)
		}
		switch s.Do {
		case "sleep":
			time.Sleep(cf.Long)
		case "commit":
			x.Commit()
		case "commitTwice":
			x.Commit()
			time.Sleep(cf.Long)
			x.Commit()
		case "abstain":
			x.Abstain()
		case "commitLater":
			time.Sleep(cf.Long)
			x.Commit()
			time.Sleep(cf.Long)
		}
		add("handled %s", x.Task.ID)
	}
	err = cl.Subscribe(ctx, &ratus.SubscribeOptions{Promise: pr, Topic: "t", Concurrency: cf.N, ConcurrencyDelay: cf.Cd, PollInterval: cf.Poll, DrainInterval: cf.Drain, ErrorInterval: cf.Errs}, handler)
	returned = time.Since(start)
	mu.Lock()
	n := len(evs)
	mu.Unlock()
	time.Sleep(5 * time.Minute)
	synctest.Wait()
	mu.Lock()
	late = evs[n:]
	evs = evs[:n]
	mu.Unlock()
	return
}

// judge runs one case and compares.
func judge(c *core.Ctx, cf subConf, script []step, polls int, end time.Duration, deadline bool) {
	exp, last := expect(cf, script, polls)
	if end < 0 {
		end = last + 1
	}
	det := func() any {
		return map[string]any{"configuration": cf, "script": script, "context ends at": end.String(), "by deadline": deadline, "expected": exp}
	}
	synctest.Test(c.T, func(*testing.T) {
		c.Guard(det, func() {
			evs, ret, err, want, late := subscription(cf, script, end, deadline)
			c.Count("transitions", int64(len(evs)))
			if s := compareSub(cf, exp, evs, late, end, ret, err, want); s != "" {
				c.Violation("conformance", fmt.Sprintf("subscription %+v with %v, context ending at %v: %s; saw %v", cf, script, end, s, evs), det())
				return
			}
			c.Count("histories", 1)
			for _, e := range evs {
				c.Distinct("states", fmt.Sprint(cf, e))
			}
			c.Sample(func() string { return fmt.Sprintf("%+v %v: %v", cf, script, evs) })
		})
	})
}

func compareSub(cf subConf, exp, evs, late []event, end, ret time.Duration, err, want error) string {
	i := 0
	wantRet := end
	open := map[string]time.Duration{}
	for _, e := range exp {
		var id string
		if n, _ := fmt.Sscanf(e.what, "handle %s", &id); n == 1 && e.at <= end {
			open[id] = e.at
		}
		if n, _ := fmt.Sscanf(e.what, "handled %s", &id); n == 1 {
			if at, ok := open[id]; ok && at < end {
				wantRet = max(wantRet, e.at)
			}
		}
		if e.at < end && len(e.what) > 5 && e.what[:5] == "error" {
			wantRet = max(wantRet, e.at+cf.ErrSleep)
		}
		if e.at >= end {
			continue
		}
		if i >= len(evs) || evs[i].at >= end {
			return fmt.Sprintf("expected %s, which did not happen", e)
		}
		if evs[i] != e {
			return fmt.Sprintf("expected %s, got %s", e, evs[i])
		}
		i++
	}
	tie := false
	for _, e := range exp {
		tie = tie || e.at == end
	}
	errs := 0
	for _, e := range evs[i:] {
		if e.at < end {
			return fmt.Sprintf("unexpected %s", e)
		}
		if e.at == end && tie {
			continue
		}
		var id string
		if n, _ := fmt.Sscanf(e.what, "handled %s", &id); n == 1 {
			if _, ok := open[id]; ok {
				continue
			}
		}
		if n, _ := fmt.Sscanf(e.what, "commit %s", &id); n == 1 {
			if _, ok := open[id]; ok {
				continue
			}
		}
		if len(e.what) > 5 && e.what[:5] == "error" {
			if errs++; errs <= max(1, cf.N) {
				continue
			}
		}
		return fmt.Sprintf("%s after the context ended", e)
	}
	for len(late) > 0 && tie && late[0].at == end {
		late = late[1:]
	}
	if len(late) > 0 {
		return fmt.Sprintf("%v after the subscription returned", late)
	}
	if !errors.Is(err, want) {
		return fmt.Sprintf("the subscription returned %v, expected %v", err, want)
	}
	if ret < end {
		return fmt.Sprintf("the subscription returned at %v", ret)
	}
	if tie {
		return ""
	}
	if errs == 0 && ret != wantRet {
		return fmt.Sprintf("the subscription returned at %v, expected %v", ret, wantRet)
	}
	return ""
}

func subSteps(full bool) []step {
	v := []step{{Poll: "empty"}, {Poll: "internal"}, {Poll: "drop"}, {Poll: "garbled"}, {Poll: "slowEmpty"},
		{Poll: "task"}, {Poll: "task", Do: "sleep"}, {Poll: "task", Do: "commit"}, {Poll: "task", Do: "commitTwice"}, {Poll: "task", Do: "abstain"}, {Poll: "task", Do: "commitLater"},
		{Poll: "task", Do: "commit", Commit: []string{"conflict"}}, {Poll: "task", Do: "commit", Commit: []string{"internal", "conflict"}},
		{Poll: "task", Commit: []string{"conflict"}}, {Poll: "task", Commit: []string{"notfound"}}, {Poll: "task", Commit: []string{"drop"}}, {Poll: "task", Do: "sleep", Commit: []string{"internal"}},
		{Poll: "taskShort", Do: "sleep"}, {Poll: "taskShort", Do: "commitTwice", Commit: []string{"unavailable"}}, {Poll: "taskShort", Do: "commitLater"}, {Poll: "taskShort", Do: "commitLater", Commit: []string{"internal"}},
		{Poll: "taskPast"}, {Poll: "taskPast", Do: "commit"}, {Poll: "taskNoTimes", Do: "sleep"}, {Poll: "taskNoDeadline", Do: "commit"}, {Poll: "slowTask"}}
	if full {
		for _, k := range []string{"badrequest", "conflict", "unavailable"} {
			v = append(v, step{Poll: k})
		}
		for _, do := range []string{"", "sleep", "commit", "commitTwice", "abstain", "commitLater"} {
			for _, a := range []string{"ok", "conflict", "notfound", "badrequest", "internal", "unavailable", "drop", "garbled"} {
				for _, b := range []string{"ok", "conflict", "notfound", "drop"} {
					if a == "ok" && b != "ok" {
						continue
					}
					v = append(v, step{Poll: "task", Do: do, Commit: []string{a, b}})
				}
			}
		}
	}
	return v
}

func subConfs() []subConf {
	return []subConf{
		{N: 1, Timeout: "30s", Consumer: "c 1", Long: 10 * time.Second},
		{N: 0, Poll: 2 * time.Second, Drain: 3 * time.Second, Errs: 7 * time.Second, Cd: time.Minute, Consumer: "", Long: 10 * time.Second, Extra: true, ErrSleep: time.Second},
		{N: -3, Poll: -time.Second, Drain: -time.Second, Errs: -time.Second, Cd: -1, Timeout: "1h", Consumer: "ü", Client: 4 * time.Second, Long: 10 * time.Second},
	}
}

func c17Single(c *core.Ctx) {
	run := func(steps []step, depth int, confs []subConf) {
		dims := make([]int, depth+1)
		dims[0] = len(confs)
		for i := 1; i <= depth; i++ {
			dims[i] = len(steps)
		}
		product(dims, func(ix []int) bool {
			if c.Take() {
				var sc []step
				for _, k := range ix[1:] {
					sc = append(sc, steps[k])
				}
				judge(c, confs[ix[0]], sc, depth+2, -1, false)
			}
			return !c.Stopped()
		})
	}
	run(subSteps(true), 1, subConfs())
	run(subSteps(false), 2, subConfs())
	if c.Thorough() {
		run(subSteps(true), 2, subConfs())
		run(subSteps(false), 3, subConfs())
		run(subSteps(false)[:10], 4, subConfs())
	} else {
		run(subSteps(false), 3, subConfs()[:2])
	}
}

// c17Cancel ends the context at, just before and just after everything that happens.
func c17Cancel(c *core.Ctx) {
	steps := subSteps(false)
	confs := subConfs()
	confs = append(confs, subConf{N: 2, Drain: 20 * time.Second, Errs: 30 * time.Second, Timeout: "30s", Consumer: "c", Long: 10 * time.Second, ErrSleep: 10 * time.Second})
	depth := 2
	if c.Thorough() {
		depth = 3
	}
	dims := make([]int, depth+1)
	dims[0] = len(confs)
	for i := 1; i <= depth; i++ {
		dims[i] = len(steps)
	}
	product(dims, func(ix []int) bool {
		var sc []step
		for _, k := range ix[1:] {
			sc = append(sc, steps[k])
		}
		cf := confs[ix[0]]
		exp, last := expect(cf, sc, depth+1)
		seen := map[time.Duration]bool{}
		var ends []time.Duration
		for _, e := range exp {
			if e.at > last {
				break
			}
			for _, d := range []time.Duration{e.at - 1, e.at, e.at + 1, e.at + time.Second/2} {
				if d > 0 && !seen[d] {
					seen[d] = true
					ends = append(ends, d)
				}
			}
		}
		for _, e := range ends {
			for _, dl := range []bool{false, true} {
				if c.Take() {
					judge(c, cf, sc, depth+4, e, dl)
				}
				if c.Stopped() {
					return false
				}
			}
		}
		return true
	})
}

// c17Many: several pollers.
func c17Many(c *core.Ctx) {
	// Durations are such that no two pollers do anything at the same time.
	confs := []subConf{
		{N: 2, Drain: 20 * time.Second, Errs: 30 * time.Second, Timeout: "30s", Consumer: "c", Long: 10 * time.Second},
		{N: 3, Drain: 20 * time.Second, Errs: 30 * time.Second, Poll: 10 * time.Second, Consumer: "c", Long: 10 * time.Second, Cd: 3 * time.Second, ErrSleep: 10 * time.Second},
		{N: 2, Cd: 2 * time.Second, Timeout: "5s", Long: 10 * time.Second},
		{N: 4, Drain: 20 * time.Second, Errs: 30 * time.Second, Poll: 20 * time.Second, Long: 40 * time.Second},
	}
	steps := subSteps(false)
	depth := 3
	if c.Thorough() {
		depth = 4
		steps = append(steps[:10:10], steps[12:18]...)
	}
	dims := make([]int, depth+1)
	dims[0] = len(confs)
	for i := 1; i <= depth; i++ {
		dims[i] = len(steps)
	}
	product(dims, func(ix []int) bool {
		if c.Take() {
			var sc []step
			for _, k := range ix[1:] {
				sc = append(sc, steps[k])
			}
			judge(c, confs[ix[0]], sc, depth+8, -1, false)
		}
		return !c.Stopped()
	})
}
