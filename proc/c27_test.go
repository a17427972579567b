package main_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/signal"
	"slices"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/mongod"

	"verif.local/shim/vos"
)

func init() {
	parts["C27/words"] = c27words
	parts["C27/network"] = c27network
	parts["C27/restarts"] = c27restarts

	t := http.DefaultTransport.(*http.Transport)
	t.Proxy = nil
	t.DialContext = func(ctx context.Context, _, _ string) (net.Conn, error) {
		a := arenaNow
		if a == nil {
			return nil, errors.New("no network")
		}
		p := cur
		if p == nil {
			return nil, errors.New("connection refused")
		}
		c, err := p.dial()
		if err != nil {
			return nil, err
		}
		w := &wireConn{Conn: c, a: a}
		a.mu.Lock()
		a.conns = append(a.conns, w)
		a.mu.Unlock()
		return w, nil
	}
}

var arenaNow *arena

// What is fixed in all cases.
const (
	e2eTimeout = 12 * time.Second
	e2eChore   = 10 * time.Second
	e2eDelay   = 4 * time.Second
	e2eDrain   = 5 * time.Second
	e2eErrors  = 7 * time.Second
	e2ePause   = time.Second
	e2eSlack   = 1500 * time.Millisecond
)

// glitch is a fault of the network at the n-th request of a method.
type glitch struct {
	Method string
	N      int
	Kind   string // request: it is lost; answer: it is lost; cut: the answer ends within
}

// wireConn is a connection of a client.
type wireConn struct {
	net.Conn
	a    *arena
	mu   sync.Mutex
	kind string
}

func (w *wireConn) Write(b []byte) (int, error) {
	if kind := w.a.glitch(b); kind != "" {
		if kind == "request" {
			w.Conn.Close()
			return len(b), nil
		}
		w.mu.Lock()
		w.kind = kind
		w.mu.Unlock()
	}
	return w.Conn.Write(b)
}

func (w *wireConn) Read(b []byte) (int, error) {
	n, err := w.Conn.Read(b)
	w.mu.Lock()
	k := w.kind
	w.mu.Unlock()
	if k == "" || err != nil {
		return n, err
	}
	if k == "cut" && n > 20 {
		w.Conn.Close()
		return n - 10, nil
	}
	w.Conn.Close()
	return 0, io.ErrUnexpectedEOF
}

// life is what must become of one task.
type life struct {
	id       string
	word     []string // what the handlers do, attempt by attempt
	attempts int
	topic    string
	payload  string
	eligible time.Time // when it may be executed, if no claim is in force
	claim    string    // nonce of the claim in force, if any
	deadline time.Time
	done     bool
	state    ratus.TaskState
	gone     bool // deleted
}

// effect is what a commit does once it is accepted.
type effect struct {
	state   ratus.TaskState
	topic   string
	payload string
	at      time.Time
}

// arena is one history.
type arena struct {
	c      *core.Ctx
	detail any
	p      *process
	args   []string
	client *ratus.Client

	mu      sync.Mutex
	conns   []*wireConn
	glitch_ []glitch
	seen    map[string]int // requests by method
	lost    bool           // an answer was lost and its effects are unknown so far
	lives   map[string]*life
	busy    [][2]time.Time      // when subscriptions were executing
	down    [][2]time.Time      // when the program was not running, and shortly after
	pend    map[string]*pending // by nonce
	bad     string
	sig     string
	execs   int
	stop    context.CancelFunc
	trace   []string
}

type pending struct {
	sub   int
	l     *life
	nonce string
	e     *effect
	at    time.Time
}

func (a *arena) glitch(b []byte) string {
	m, _, ok := strings.Cut(string(b[:min(len(b), 8)]), " ")
	line, _, _ := strings.Cut(string(b), "\r")
	if !ok || m != "PATCH" && (m != "POST" || !strings.Contains(line, "/promises")) {
		return ""
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	n := a.seen[m]
	a.seen[m]++
	for _, g := range a.glitch_ {
		if g.Method == m && g.N == n {
			if g.Kind != "request" {
				a.lost = true
			}
			return g.Kind
		}
	}
	return ""
}

// fail records the first thing that is wrong; the lock is held.
func (a *arena) fail(sig, f string, v ...any) {
	if a.bad == "" {
		a.sig, a.bad = sig, fmt.Sprintf("at %v: ", time.Since(epoch))+fmt.Sprintf(f, v...)
	}
}

func (a *arena) note(f string, v ...any) {
	a.trace = append(a.trace, fmt.Sprintf("%v ", time.Since(epoch))+fmt.Sprintf(f, v...))
}

// apply makes a commit take effect.
func (l *life) apply(e *effect) {
	l.claim = ""
	l.eligible = e.at
	l.state = e.state
	if e.topic != "" {
		l.topic = e.topic
	}
	if e.payload != "" {
		l.payload = e.payload
	}
	l.done = e.state != ratus.TaskStatePending
}

// settle decides about the commits made automatically before now: they were
// accepted unless an error was reported at once.
func (a *arena) settle(all bool) {
	now := time.Now()
	for k, x := range a.pend {
		if all || x.at.Before(now) {
			if x.l.claim == x.nonce && x.e != nil {
				x.l.apply(x.e)
			}
			delete(a.pend, k)
		}
	}
}

// ask reads a task through the API.
func (a *arena) ask(id string) (*ratus.Task, bool) {
	t, err := a.client.GetTask(bg, id)
	if errors.Is(err, ratus.ErrNotFound) {
		return nil, true
	}
	if err != nil {
		return nil, false
	}
	return t, true
}

// learn finds out what became of a request whose answer was lost: either it
// took effect as a whole or not at all.
func (a *arena) learn() {
	a.mu.Lock()
	lost := a.lost
	a.lost = false
	var ids []string
	for id := range a.lives {
		ids = append(ids, id)
	}
	a.mu.Unlock()
	if !lost {
		return
	}
	slices.Sort(ids)
	for _, id := range ids {
		t, ok := a.ask(id)
		a.mu.Lock()
		l := a.lives[id]
		switch {
		case !ok || t == nil || l.gone:
		case t.State == ratus.TaskStateActive && t.Nonce != l.claim && t.Deadline != nil:
			if l.claim != "" && time.Now().Before(l.deadline) {
				a.fail("exclusive", "task %s is claimed although another claim is in force until %v", id, l.deadline.Sub(epoch))
			}
			a.note("a claim of %s was lost with its answer", id)
			l.claim, l.deadline, l.eligible = t.Nonce, *t.Deadline, *t.Deadline
		case t.State != ratus.TaskStateActive && l.claim != "" && time.Now().Before(l.deadline):
			for k, x := range a.pend {
				if x.l == l && x.nonce == l.claim && x.e != nil {
					a.note("a commit of %s was accepted, its answer lost", id)
					l.apply(x.e)
					delete(a.pend, k)
				}
			}
		}
		a.mu.Unlock()
	}
}

// handle is the handler of a subscription.
func (a *arena) handle(sub int, die func(), x *ratus.Context, err error) {
	if err != nil {
		a.mu.Lock()
		a.note("subscription %d: error", sub)
		// A commit failed; if its answer was lost this is found out.
		if a.lost {
			a.mu.Unlock()
			a.learn()
			a.mu.Lock()
		}
		for k, y := range a.pend {
			if y.sub == sub && y.at.Equal(time.Now()) {
				delete(a.pend, k)
				break
			}
		}
		a.mu.Unlock()
		a.learn()
		return
	}
	begin := time.Now()
	a.mu.Lock()
	a.settle(false)
	l := a.lives[x.Task.ID]
	if l == nil {
		a.fail("unknown", "an unknown task %q is executed", x.Task.ID)
		a.mu.Unlock()
		return
	}
	for k, y := range a.pend {
		if y.l == l && y.e != nil && l.claim == y.nonce {
			l.apply(y.e)
			delete(a.pend, k)
		}
	}
	a.execs++
	act := "done"
	if l.attempts < len(l.word) {
		act = l.word[l.attempts]
	}
	l.attempts++
	a.note("subscription %d: %s of %s", sub, act, l.id)
	t := x.Task
	switch {
	case l.gone:
		a.fail("deleted", "task %s is executed after it was deleted", l.id)
	case l.done:
		a.fail("again", "task %s is executed again after the commit that ended it was accepted", l.id)
	case l.claim != "" && begin.Before(l.deadline.Add(-time.Millisecond)):
		a.fail("exclusive", "task %s is executed although another execution is in force until %v", l.id, l.deadline.Sub(epoch))
	case begin.Before(l.eligible.Add(-time.Millisecond)):
		a.fail("early", "task %s is executed before its time %v", l.id, l.eligible.Sub(epoch))
	case t.Topic != l.topic || t.Payload != l.payload || t.Producer != "maker" || t.State != ratus.TaskStateActive:
		a.fail("contents", "task %s is executed as %s, expected topic %s and payload %s", l.id, brief(t), l.topic, l.payload)
	case t.Consumer != fmt.Sprintf("worker%d", sub) || t.Nonce == "" || t.Deadline == nil || t.Consumed == nil || !near(*t.Consumed, begin) || !near(*t.Deadline, begin.Add(e2eTimeout)):
		a.fail("claim", "task %s is executed under a claim of %q with nonce %q from %v to %v", l.id, t.Consumer, t.Nonce, t.Consumed, t.Deadline)
	case l.claim == t.Nonce:
		a.fail("claim", "the nonce of the claim of task %s is that of the last one", l.id)
	}
	a.late(l, begin)
	l.claim, l.deadline, l.eligible = t.Nonce, begin.Add(e2eTimeout), begin.Add(e2eTimeout)
	a.mu.Unlock()

	e := &effect{state: ratus.TaskStateCompleted, at: begin}
	auto := true
	expect := "accepted"
	producer := func(what string, f func() error) {
		a.mu.Lock()
		a.note("%s %s", what, l.id)
		a.mu.Unlock()
		if err := f(); err != nil {
			a.mu.Lock()
			if a.isUp() {
				a.fail("producer", "%s of task %s fails: %v", what, l.id, err)
			}
			a.mu.Unlock()
			return
		}
		expect = "refused"
	}
	switch act {
	case "done":
	case "commit":
		auto = false
	case "commitEarly":
		auto = false
		time.Sleep(2 * time.Second)
	case "slow":
		time.Sleep(8 * time.Second)
	case "archive":
		x.Archive()
		e.state = ratus.TaskStateArchived
	case "retry":
		x.Abstain()
		e.state = ratus.TaskStatePending
	case "later":
		x.Retry("45s")
		e.state, e.at = ratus.TaskStatePending, begin.Add(45*time.Second)
	case "resched":
		e.state, e.at = ratus.TaskStatePending, begin.Add(70*time.Second)
		x.Reschedule(e.at)
	case "move":
		e.state, e.payload, e.topic = ratus.TaskStatePending, l.payload+"'", "b"
		x.Abstain().SetTopic("b").SetPayload(e.payload)
	case "over":
		time.Sleep(e2eTimeout + time.Second)
		e, expect = nil, "refused"
	case "force":
		// The claim is given up and everything that follows it is overridden.
		x.Force().Abstain()
		e.state = ratus.TaskStatePending
	case "die":
		time.Sleep(3 * time.Second)
		die()
		e, expect = nil, "refused"
	case "revoke":
		time.Sleep(2 * time.Second)
		producer("revoke", func() error { return errOf(a.client.DeletePromise(bg, l.id)) })
		if expect == "refused" {
			a.mu.Lock()
			if l.claim == t.Nonce {
				l.claim, l.eligible = "", time.Now()
			}
			a.mu.Unlock()
		}
	case "replace":
		time.Sleep(2 * time.Second)
		now := time.Now()
		s := now.Add(9 * time.Second)
		v := l.payload + "+"
		a.mu.Lock()
		topic := l.topic
		a.mu.Unlock()
		producer("replace", func() error {
			return errOf(a.client.UpsertTask(bg, &ratus.Task{ID: l.id, Topic: topic, Producer: "maker", Scheduled: &s, Payload: v}))
		})
		if expect == "refused" {
			a.mu.Lock()
			l.claim, l.eligible, l.payload = "", s, v
			a.mu.Unlock()
		}
	case "reset":
		x.SetTopic("zz").Abstain().SetScheduled(begin.Add(time.Hour)).Reset()
	case "resetRetry":
		x.Archive().Reset().Abstain()
		e.state = ratus.TaskStatePending
	case "both":
		e.state, e.at = ratus.TaskStatePending, begin.Add(20*time.Second)
		x.Reschedule(e.at).Retry("50s")
	case "twice":
		auto = false
		if err := x.Commit(); err == nil {
			x.Abstain()
		}
	case "override", "overrideEnd":
		// Someone else commits without a nonce.
		time.Sleep(2 * time.Second)
		m, y := ratus.Commit{State: ptr(ratus.TaskStatePending), Defer: "9s"}, effect{state: ratus.TaskStatePending, at: time.Now().Add(9 * time.Second)}
		if act == "overrideEnd" {
			m, y = ratus.Commit{State: ptr(ratus.TaskStateArchived)}, effect{state: ratus.TaskStateArchived, at: time.Now()}
		}
		producer(act, func() error { return errOf(a.client.PatchTask(bg, l.id, &m)) })
		if expect == "refused" {
			a.mu.Lock()
			l.apply(&y)
			a.mu.Unlock()
		}
	case "steal", "stealDone":
		// Someone else claims the task in spite of the claim in force, and
		// possibly ends it after the first execution has tried to.
		time.Sleep(2 * time.Second)
		var v *ratus.Task
		producer(act, func() (err error) {
			v, err = a.client.UpsertPromise(bg, &ratus.Promise{ID: l.id, Consumer: t.Consumer, Timeout: e2eTimeout.String()})
			return err
		})
		if expect == "refused" {
			a.mu.Lock()
			if v.Nonce == t.Nonce {
				a.fail("claim", "two claims of task %s have the same nonce", l.id)
			}
			l.claim, l.deadline = v.Nonce, time.Now().Add(e2eTimeout)
			l.eligible = l.deadline
			a.mu.Unlock()
			if act == "stealDone" {
				go func() {
					time.Sleep(3 * time.Second)
					err := errOf(a.client.PatchTask(bg, l.id, &ratus.Commit{Nonce: v.Nonce, State: ptr(ratus.TaskStateArchived)}))
					a.mu.Lock()
					defer a.mu.Unlock()
					if err == nil {
						l.apply(&effect{state: ratus.TaskStateArchived, at: time.Now()})
					} else if a.isUp() && len(a.glitch_) == 0 {
						a.fail("refused", "the commit of the claim of task %s in force fails: %v", l.id, err)
					}
				}()
			}
		}
	case "delete":
		time.Sleep(2 * time.Second)
		producer("delete", func() error { return errOf(a.client.DeleteTask(bg, l.id)) })
		if expect == "refused" {
			a.mu.Lock()
			l.claim, l.done, l.gone = "", true, true
			a.mu.Unlock()
		}
	}
	// Several things that happen at one instant are ordered.
	end := time.Now()
	a.mu.Lock()
	a.busy = append(a.busy, [2]time.Time{begin, end})
	a.pend[t.Nonce] = &pending{sub: sub, l: l, nonce: t.Nonce, e: e, at: end}
	if expect == "refused" {
		a.pend[t.Nonce].e = nil
	}
	if e != nil && e.state != ratus.TaskStatePending || e != nil && e.at.Equal(begin) {
		e.at = end
	}
	a.mu.Unlock()
	if auto {
		return
	}
	err = x.Commit()
	if err != nil {
		a.learn()
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	if err == nil && expect == "refused" {
		a.fail("stale", "the commit of an execution of task %s that is no longer in force is accepted", l.id)
	}
	if err == nil {
		a.settle(true)
	} else {
		if a.isUp() && expect == "accepted" && len(a.glitch_) == 0 {
			a.fail("refused", "the commit of the execution of task %s in force fails: %v", l.id, err)
		}
		// It will be tried again on return.
	}
}

// isUp tells whether the program is running; the lock is held.
func (a *arena) isUp() bool {
	p := cur
	return p != nil && p.listener() != nil && !p.dead() && len(a.down) == 0
}

func errOf[T any](_ T, err error) error { return err }

func near(x, y time.Time) bool {
	d := x.Sub(y)
	return d > -2*time.Millisecond && d < 2*time.Millisecond
}

// late checks that a task was not kept waiting until now; the lock is held.
func (a *arena) late(l *life, now time.Time) bool {
	if l.done || now.Before(l.eligible) {
		return false
	}
	allowed := e2eChore + e2eDrain + e2eErrors + 2*e2ePause + e2eSlack
	over := func(v [][2]time.Time) {
		for _, x := range v {
			b, e := x[0], x[1]
			if e.IsZero() || e.After(now) {
				e = now
			}
			if b.Before(l.eligible) {
				b = l.eligible
			}
			if e.After(b) {
				allowed += e.Sub(b)
			}
		}
	}
	over(a.busy)
	over(a.down)
	for _, y := range a.lives { // executions in progress
		if y != l && y.claim != "" && y.deadline.Add(-e2eTimeout).Before(now) {
			allowed += e2eTimeout + e2ePause
		}
	}
	if w := now.Sub(l.eligible); w > allowed {
		a.fail("late", "task %s could have been executed from %v on and was not for %v", l.id, l.eligible.Sub(epoch), w)
		return true
	}
	return false
}

// subscribers of topic a: how many subscriptions of how many goroutines.
var crews = [][2]int{{1, 1}, {2, 1}, {1, 2}}

// subscribe keeps a subscription going.
func (a *arena) subscribe(ctx context.Context, i int, topic string, conc int, after time.Duration, wg *sync.WaitGroup) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		time.Sleep(after)
		for ctx.Err() == nil {
			sub, cancel := context.WithCancel(ctx)
			cl := newRatusClient()
			cl.Subscribe(sub, &ratus.SubscribeOptions{
				Promise: &ratus.Promise{Consumer: fmt.Sprintf("worker%d", i), Timeout: e2eTimeout.String()}, Topic: topic, Concurrency: conc,
				ConcurrencyDelay: 2300 * time.Millisecond, PollInterval: e2ePause, DrainInterval: e2eDrain, ErrorInterval: e2eErrors,
			}, func(x *ratus.Context, err error) { a.handle(i, cancel, x, err) })
			cancel()
			select {
			case <-ctx.Done():
			case <-time.After(6 * time.Second):
			}
		}
	}()
}

func newRatusClient() *ratus.Client {
	c, err := ratus.NewClient(&ratus.ClientOptions{Origin: "http://ratus.test"})
	if err != nil {
		panic(err)
	}
	return c
}

// plan is one case.
type plan struct {
	Engine  string
	Crew    [2]int
	Words   [][]string
	Glitch  []glitch      `json:",omitempty"`
	Restart []restart     `json:",omitempty"`
	Second  time.Duration // delay of the second task
}

type restart struct {
	At, Gap time.Duration
	How     string // INT, TERM, crash
}

func (a *arena) boot(srv *mongod.Server, fs *vos.FS) {
	a.p = &process{fs: fs, srv: srv}
	a.p.boot(a.args...)
}

// e2e runs one case.
func e2e(c *core.Ctx, pl plan) {
	bubble(c, func() any { return pl }, func(t *testing.T) {
		a := &arena{c: c, detail: pl, seen: map[string]int{}, lives: map[string]*life{}, pend: map[string]*pending{}, glitch_: pl.Glitch}
		arenaNow = a
		defer func() { arenaNow = nil }()
		a.args = []string{"--bind", "127.0.0.1", "--port", "8080", "--chore-initial-delay", e2eDelay.String(), "--chore-interval", e2eChore.String()}
		fs := vos.New("/data")
		var srv *mongod.Server
		if kind, mode, _ := strings.Cut(pl.Engine, "/"); kind == "mongodb" {
			srv = mongod.New()
			if mode == "sharded" {
				srv.Shard = []string{"topic"}
			} else if mode == "plain" {
				a.args = append(a.args, "--mongodb-disable-atomic-poll")
			}
			srv.With(func(c map[string]*mongod.Coll) {
				c["ratus.tasks"] = &mongod.Coll{Indexes: seedIndexes}
			})
			a.args = append(a.args, mongoArgs...)
		} else {
			a.args = append(a.args, "--memdb-snapshot-path", path, "--memdb-snapshot-interval", "1m")
		}
		a.boot(srv, fs)
		a.client = newRatusClient()
		ctx, cancel := context.WithCancel(context.Background())
		var wg sync.WaitGroup
		defer func() {
			cancel()
			for _, w := range a.conns {
				w.Conn.Close()
			}
			wg.Wait()
			synctest.Wait()
			a.p.clean()
		}()

		// Produce the tasks.
		var ts []*ratus.Task
		for i, w := range pl.Words {
			s := time.Now().Add(time.Duration(i) * pl.Second)
			l := &life{id: fmt.Sprintf("t%d", i), word: w, topic: "a", payload: fmt.Sprintf("payload %d", i), eligible: s}
			a.lives[l.id] = l
			ts = append(ts, &ratus.Task{ID: l.id, Topic: l.topic, Producer: "maker", Scheduled: &s, Payload: l.payload})
		}
		if len(ts) > 1 {
			if _, err := a.client.InsertTasks(bg, ts[1:]); err != nil {
				c.Violation("produce", "producing fails: "+err.Error(), pl)
				return
			}
		}
		if _, err := a.client.InsertTask(bg, ts[0]); err != nil {
			c.Violation("produce", "producing fails: "+err.Error(), pl)
			return
		}
		a.seen = map[string]int{}
		for i := 0; i < pl.Crew[0]; i++ {
			a.subscribe(ctx, i, "a", pl.Crew[1], 300*time.Millisecond+time.Duration(i)*1700*time.Millisecond, &wg)
		}
		a.subscribe(ctx, 9, "b", 1, 900*time.Millisecond, &wg)

		plan := pl.Restart
		start := time.Now()
		var up time.Time
		for n := 0; n < 4000; n++ {
			time.Sleep(250 * time.Millisecond)
			synctest.Wait()
			now := time.Now()
			if len(plan) > 0 && up.IsZero() && now.Sub(start) >= plan[0].At {
				a.mu.Lock()
				a.note("%s", plan[0].How)
				a.down = append(a.down, [2]time.Time{now, {}})
				a.mu.Unlock()
				switch plan[0].How {
				case "crash":
					a.p.crash()
				case "INT":
					a.p.kill(os.Interrupt)
				default:
					a.p.kill(syscall.SIGTERM)
				}
				up = now.Add(plan[0].Gap)
				synctest.Wait()
			}
			if !up.IsZero() && !now.Before(up) {
				for i := 0; i < 100 && !a.p.dead(); i++ {
					time.Sleep(100 * time.Millisecond)
					synctest.Wait()
				}
				if !a.p.dead() {
					a.fail("shutdown", "the process does not end after the signal")
				}
				if a.p.code != 0 && plan[0].How != "crash" {
					a.fail("shutdown", "the process ended with code %d: %s", a.p.code, a.p.how)
				}
				if srv != nil {
					old := srv
					srv = mongod.New()
					srv.Shard = old.Shard
					old.With(func(c map[string]*mongod.Coll) {
						srv.With(func(d map[string]*mongod.Coll) {
							for k, v := range c {
								d[k] = v
							}
						})
					})
				}
				a.mu.Lock()
				a.note("up")
				a.mu.Unlock()
				a.boot(srv, fs)
				synctest.Wait()
				a.mu.Lock()
				a.down[len(a.down)-1][1] = time.Now().Add(e2eDelay + e2eChore + e2eErrors)
				a.mu.Unlock()
				plan, up = plan[1:], time.Time{}
			}
			a.learn()
			a.mu.Lock()
			a.settle(false)
			done := true
			for _, l := range a.lives {
				a.late(l, now)
				done = done && l.done
			}
			stop := a.bad != "" || done && len(plan) == 0 && up.IsZero()
			a.mu.Unlock()
			if stop {
				break
			}
		}
		// Afterwards nothing is executed any more.
		n := a.execs
		time.Sleep(e2eTimeout + e2eChore + 2*e2eDrain)
		synctest.Wait()
		a.mu.Lock()
		if a.execs != n && a.bad == "" {
			a.fail("again", "tasks are executed after all have ended")
		}
		for _, l := range a.lives {
			if !l.done {
				a.fail("undone", "task %s was never done", l.id)
			}
		}
		bad := a.bad
		a.mu.Unlock()
		if bad == "" {
			for id, l := range a.lives {
				t, ok := a.ask(id)
				switch {
				case !ok:
					a.fail("end", "task %s cannot be read at the end", id)
				case l.gone != (t == nil):
					a.fail("end", "task %s: deleted %v, found %v", id, l.gone, t != nil)
				case t != nil && (t.State != l.state || t.Topic != l.topic || t.Payload != l.payload || t.Producer != "maker"):
					a.fail("end", "task %s is %s at the end, expected topic %s, state %d and payload %s", id, brief(t), l.topic, l.state, l.payload)
				}
			}
		}
		if a.bad != "" {
			c.Violation(a.sig, fmt.Sprintf("%s; %+v; %s", a.bad, pl, strings.Join(a.trace, "; ")), pl)
			return
		}
		c.Count("transitions", int64(len(a.trace)))
		c.Count("histories", 1)
		c.Distinct("states", strings.Join(a.trace, "\n"))
		c.Sample(func() string { return fmt.Sprintf("%+v: %s", pl, strings.Join(a.trace, "; ")) })
	})
}

// crash ends the process as if it had been killed: nothing it does has any
// effect from now on.
func (p *process) crash() {
	p.end("crashed", 0)
	if p.srv != nil {
		p.srv.Stop()
	}
	signal.ZVDeliver(os.Interrupt)
}

var letters27 = []string{"done", "commit", "commitEarly", "slow", "archive", "retry", "later", "resched", "move", "over", "force", "die", "revoke", "replace", "delete", "reset", "resetRetry", "both", "twice", "override", "overrideEnd", "steal", "stealDone"}

func final(s string) bool {
	switch s {
	case "done", "commit", "commitEarly", "slow", "archive", "delete", "reset", "twice", "overrideEnd", "stealDone":
		return true
	}
	return false
}

// words27 are the words of up to n letters of which only the last is final.
func words27(n int) (v [][]string) {
	var rec func(w []string)
	rec = func(w []string) {
		for _, x := range letters27 {
			y := append(slices.Clone(w), x)
			if final(x) {
				v = append(v, y)
			} else if len(y) < n {
				rec(y)
			} else {
				v = append(v, y)
			}
		}
	}
	rec(nil)
	return v
}

var engines27 = []string{"memdb", "mongodb", "mongodb/plain", "mongodb/sharded"}

func c27words(c *core.Ctx) {
	n := 2
	seconds := [][]string{nil, {"slow"}, {"over"}, {"move"}, {"delete"}}
	if c.Thorough() {
		n = 3
		seconds = append(words27(1), nil)
	}
	for _, eng := range engines27 {
		for _, crew := range crews {
			for _, w0 := range words27(n) {
				for _, w1 := range seconds {
					for _, d := range []time.Duration{0, 20 * time.Second} {
						if w1 == nil && d > 0 || strings.Contains(eng, "/") && (w1 != nil || crew[1] > 1) && !c.Thorough() {
							continue
						}
						if crew[1] > 1 && (slices.Contains(w0, "die") || slices.Contains(w1, "die")) {
							continue // others would die along
						}
						if c.Stopped() {
							return
						}
						if !c.Take() {
							continue
						}
						pl := plan{Engine: eng, Crew: crew, Words: [][]string{w0}, Second: d}
						if w1 != nil {
							pl.Words = append(pl.Words, w1)
						}
						e2e(c, pl)
					}
				}
			}
		}
	}
}

func c27network(c *core.Ctx) {
	n := 1
	if c.Thorough() {
		n = 2
	}
	var gs [][]glitch
	for _, m := range []string{"PATCH", "POST"} {
		for i := 0; i < 4; i++ {
			for _, k := range []string{"request", "answer", "cut"} {
				gs = append(gs, []glitch{{m, i, k}})
			}
		}
	}
	for i, k := 0, len(gs); i < k; i++ {
		for j := i + 1; j < k; j++ {
			if gs[i][0].Method != gs[j][0].Method || gs[i][0].N != gs[j][0].N {
				gs = append(gs, []glitch{gs[i][0], gs[j][0]})
			}
		}
	}
	for _, g := range gs {
		for _, w := range words27(n) {
			if slices.ContainsFunc(w, func(x string) bool { return strings.HasPrefix(x, "override") || strings.HasPrefix(x, "steal") }) {
				continue // their own requests would be lost
			}
			for _, eng := range engines27 {
				for _, crew := range crews[:2] {
					if c.Stopped() {
						return
					}
					if len(g) > 1 && (crew[0] > 1 || eng != "memdb") && !c.Thorough() {
						continue
					}
					if c.Take() {
						e2e(c, plan{Engine: eng, Crew: crew, Words: [][]string{w}, Glitch: g})
					}
				}
			}
		}
	}
}

func c27restarts(c *core.Ctx) {
	n, engines := 1, engines27[:2]
	if c.Thorough() {
		n, engines = 2, engines27
	}
	for _, w := range words27(n) {
		for at := time.Second; at <= 40*time.Second; at += 3500 * time.Millisecond {
			for _, gap := range []time.Duration{0, 9 * time.Second} {
				for _, how := range []string{"INT", "TERM", "crash"} {
					for _, eng := range engines {
						for _, crew := range crews[:2] {
							if eng == "memdb" && how == "crash" {
								continue // tasks may return to the last snapshot
							}
							if c.Stopped() {
								return
							}
							if c.Take() {
								e2e(c, plan{Engine: eng, Crew: crew, Words: [][]string{w, {"slow"}}, Second: 25 * time.Second, Restart: []restart{{at, gap, how}}})
							}
						}
					}
				}
			}
		}
	}
}
