package main_test

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"go.mongodb.org/mongo-driver/bson"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/mongod"
)

func init() {
	parts["C30/outages"] = c30outages
	parts["C30/starts"] = c30starts
	parts["C30/stops"] = c30stops
	parts["C30/embedded"] = c30embedded
}

// window is a time the database cannot be used.
type window struct {
	From, For time.Duration
	How       string
}

func (w window) String() string { return fmt.Sprintf("%s from %v for %v", w.How, w.From, w.For) }

// outage is a case.
type outage struct {
	Windows  []window      `json:"windows"`
	Args     []string      `json:"args"`
	Interval time.Duration `json:"interval"`
	Every    time.Duration `json:"every"` // between requests
	Stop     time.Duration `json:"stop"`  // 0: after all
	Shift    int           `json:"shift"` // first kind of request
}

// probe is one request made meanwhile.
type probe struct {
	r        *request
	k        *client
	at, done time.Duration
	answered bool
	status   int
	body     []byte
}

// patience is how long the driver waits for a server.
const patience = 30 * time.Second

// notice is how long it may take to notice that a server is back.
const notice = 11 * time.Second

// moreDocs are tasks like those of seedTasks for other numbers.
func moreDocs(n string) (v []*ratus.Task) {
	for _, t := range seedTasks() {
		if t.Topic == "t" {
			u := *t
			u.ID = u.ID[:1] + n
			u.Payload = "payload of " + u.ID
			v = append(v, &u)
		}
	}
	return v
}

func docOf(t *ratus.Task) (d mongod.D) {
	b, err := bson.Marshal(t)
	if err == nil {
		err = bson.Unmarshal(b, &d)
	}
	if err != nil {
		panic(err)
	}
	return d
}

var notPrimary = &mongod.Fault{Code: 10107, Name: "NotWritablePrimary"}
var shuttingDown = &mongod.Fault{Code: 91, Name: "ShutdownInProgress"}

func (x *outage) end() (d time.Duration) {
	for _, w := range x.Windows {
		d = max(d, w.From+w.For)
	}
	return d
}

// perform runs the case and judges it.
func (x *outage) perform(c *core.Ctx) {
	bubble(c, func() any { return x }, func(t *testing.T) {
		bads := 0
		bad := func(sig, f string, a ...any) {
			bads++
			c.Violation(sig, fmt.Sprintf(f, a...)+fmt.Sprintf("\nthe database: %v; arguments %q, jobs every %v, requests every %v, stop at %v", x.Windows, x.Args, x.Interval, x.Every, x.Stop), x)
		}
		p := &process{srv: seedServer()}
		defer p.clean()
		want := initial()
		docs := seedDocs()[:len(seedDocs()):len(seedDocs())]
		end := x.end() + notice + 20*time.Second
		n := int(end/x.Every) + 1
		for i := 0; i < n; i++ {
			for _, t := range moreDocs(fmt.Sprint("q", i)) {
				docs = append(docs, docOf(t))
				want[t.ID] = brief(t)
			}
		}
		// Tasks that time out one after the other.
		var late []*ratus.Task
		for i := 0; x.Interval > 0 && i < int(end/(5*time.Second)); i++ {
			t := &ratus.Task{ID: fmt.Sprint("late", i), Topic: "u", State: ratus.TaskStateActive, Nonce: "fedcba9876543210", Producer: "prod", Consumer: "gone", Produced: ptr(epoch.Add(-time.Hour)), Scheduled: ptr(epoch.Add(-time.Hour)), Consumed: ptr(epoch.Add(-time.Minute)), Deadline: ptr(epoch.Add(time.Duration(i) * 5 * time.Second))}
			late = append(late, t)
			docs = append(docs, docOf(t))
		}
		p.srv.With(func(c map[string]*mongod.Coll) { c["ratus.tasks"].Docs = docs })
		var begun time.Time
		at := func() time.Duration { return time.Since(begun) }
		failing := false
		var how string
		p.srv.Inject = func(m *mongod.Cmd) *mongod.Fault {
			if !failing || m.Name == "hello" || m.Name == "isMaster" || m.Name == "ismaster" {
				return nil
			}
			switch how {
			case "not primary":
				return notPrimary
			case "shutting down":
				return shuttingDown
			case "dropping":
				return &mongod.Fault{Drop: true}
			}
			return nil
		}
		sw := func(w window, down bool) {
			switch w.How {
			case "refusing":
				p.srv.Down(down)
			default:
				failing, how = down, w.How
			}
		}
		begun = time.Now()
		for _, w := range x.Windows {
			if w.From == 0 {
				sw(w, true)
			}
		}
		args := append([]string{"--bind", "127.0.0.1", "--port", "8080", "--chore-interval", x.Interval.String(), "--chore-initial-delay", "0s"}, x.Args...)
		p.boot(args...)
		// out tells whether the database was away all the time in between.
		out := func(a, b time.Duration) bool {
			for _, w := range x.Windows {
				if w.From <= a && b < w.From+w.For {
					return true
				}
			}
			return false
		}
		// usable tells whether it has been there, and noticed, since before.
		usable := func(a time.Duration) bool {
			for _, w := range x.Windows {
				if a >= w.From && a < w.From+w.For+notice {
					return false
				}
			}
			return true
		}
		var probes []*probe
		defer func() {
			for _, b := range probes {
				b.k.close()
			}
		}()
		launch := func(r *request) {
			conn, err := p.dial()
			if err != nil {
				bad("refused", "after %v a connection was refused", at())
				return
			}
			b := &probe{r: r, k: newClient(conn), at: at()}
			probes = append(probes, b)
			b.k.read(0)
			head, body := forms[0].write(r)
			b.k.send(head + body)
		}
		collect := func() {
			synctest.Wait()
			for _, b := range probes {
				if b.answered {
					continue
				}
				st, body, whole, _ := b.k.answer()
				if whole {
					b.answered, b.status, b.body, b.done = true, st, body, at()
				}
			}
		}
		alive := &request{Name: "alive", method: "GET", target: "/v1/livez", status: 200, effect: noEffect, check: empty}
		ready := &request{Name: "ready", method: "GET", target: "/v1/readyz", status: 200, effect: noEffect, check: empty}
		const tick = 500 * time.Millisecond
		next, made := time.Duration(0), 0
		stopped := false
		var stop time.Duration
		listening := time.Duration(-1)
		for at() < end+patience+tick {
			if p.dead() {
				break
			}
			if listening < 0 && p.listener() != nil {
				listening = at()
			}
			if listening >= 0 && !stopped && at() >= next && at() < end {
				next = at() + x.Every
				launch(alive)
				launch(ready)
				v := requests("t", fmt.Sprint("q", made))
				launch(v[(made+x.Shift)%len(v)])
				made++
			}
			collect()
			if x.Stop > 0 && at() >= x.Stop && !stopped {
				stopped, stop = true, at()
				p.kill(syscall.SIGTERM)
				collect()
			}
			if bads > 0 {
				return
			}
			time.Sleep(tick)
			for _, w := range x.Windows {
				if d := at(); d >= w.From+w.For && d-tick < w.From+w.For {
					sw(w, false)
				}
			}
			for _, w := range x.Windows {
				if d := at(); d >= w.From && d-tick < w.From && d < w.From+w.For {
					sw(w, true)
				}
			}
		}
		collect()
		c.Count("requests", int64(len(probes)))
		if x.Stop > 0 {
			if !stopped {
				bad("died", "the process %s after %v, before it was told to stop", p.how, at())
				return
			}
			if !p.dead() {
				bad("lingers", "the process was told to stop after %v and is still there %v later", stop, at()-stop)
				return
			}
			if p.code != 0 {
				bad("status", "the process was told to stop and %s with status %d", p.how, p.code)
				return
			}
		} else if p.dead() {
			bad("died", "the process %s after %v", p.how, p.at.Sub(begun))
			return
		} else if listening < 0 {
			bad("start", "the process did not start to listen")
			return
		} else if listening > tick && usable(listening) {
			bad("start", "the process began to listen only after %v", listening)
			return
		}
		for _, b := range probes {
			name := fmt.Sprintf("%q, asked after %v", b.r.Name, b.at)
			if !b.answered {
				bad("no answer", "%s: no answer (%d bytes)", name, len(b.k.in))
				return
			}
			took := b.done - b.at
			switch {
			case b.r == alive:
				if b.status != 200 || took > 0 {
					bad("liveness", "%s: status %d after %v", name, b.status, took)
					return
				}
				continue
			case took > patience+tick:
				bad("slow", "%s: answered only after %v", name, took)
				return
			case b.status >= 500:
				if usable(b.at) {
					bad("failure", "%s: status %d after %v although the database can be used: %s", name, b.status, took, b.body)
					return
				}
				if b.r == ready && b.status != 503 {
					bad("readiness", "%s: status %d", name, b.status)
					return
				}
				if err := refused(b.status)(b.body); err != nil {
					bad("failure", "%s: %v", name, err)
					return
				}
				continue
			case b.status != b.r.status:
				bad("answer", "%s: status %d, expected %d: %s", name, b.status, b.r.status, b.body)
				return
			case out(b.at, b.done):
				bad("answer", "%s: status %d after %v although the database could not be used", name, b.status, took)
				return
			case usable(b.at) && took > 0 && usable(b.done):
				bad("slow", "%s: answered after %v although the database can be used", name, took)
				return
			}
			if err := b.r.check(b.body); err != nil {
				bad("answer", "%s: %v", name, err)
				return
			}
			b.r.effect(want)
		}
		got, err := p.stored()
		if err != nil {
			bad("stored", "%v", err)
			return
		}
		over := at()
		for i, t := range late {
			if x.Stop > 0 {
				break
			}
			due := time.Duration(i)*5*time.Second + x.Interval + patience
			u := *t
			b0 := brief(&u)
			u.State = ratus.TaskStatePending
			b1 := brief(&u)
			switch g := got[t.ID]; {
			case g == b1:
			case g == b0 && due > over-notice:
			case g == b0:
				bad("jobs", "the task %s timed out after %v and has not been recovered after %v", t.ID, time.Duration(i)*5*time.Second, over)
				return
			default:
				bad("stored", "the task %s is %s", t.ID, g)
				return
			}
		}
		for k := range got {
			if strings.HasPrefix(k, "late") {
				delete(got, k)
			}
		}
		if s := diff(want, got); s != "" {
			bad("stored", "%s", s)
			return
		}
		c.Count("histories", 1)
		c.Sample(func() string { return fmt.Sprintf("%v, %d requests", x.Windows, len(probes)) })
	})
}

var hows = []string{"refusing", "not primary", "shutting down", "dropping"}

// c30outages: every one or two outages of several lengths and kinds, with all
// kinds of requests made before, during and after them.
func c30outages(c *core.Ctx) {
	froms := []time.Duration{0, 4 * time.Second, 10 * time.Second}
	fors := []time.Duration{time.Second, 8 * time.Second, 29 * time.Second, 31 * time.Second, 75 * time.Second}
	gaps := []time.Duration{time.Second, 14 * time.Second, 40 * time.Second}
	seconds := []time.Duration{2 * time.Second, 33 * time.Second}
	if c.Thorough() {
		froms = append(froms, 7*time.Second, 12500*time.Millisecond)
		fors = append(fors, 2500*time.Millisecond, 15*time.Second, 5*time.Minute)
		gaps = append(gaps, 5*time.Second, 10*time.Second)
		seconds = append(seconds, 9*time.Second, 61*time.Second)
	}
	variants := [][]string{nil, {"--mongodb-disable-atomic-poll"}, {"--mongodb-disable-auto-fallback"}}
	base := mongoArgs[:len(mongoArgs):len(mongoArgs)]
	k := 0
	run := func(w ...window) {
		for v := range variants {
			k++
			if c.Stopped() {
				return
			}
			if !c.Take() {
				continue
			}
			x := &outage{Windows: w, Args: append(base, variants[v]...), Interval: []time.Duration{7 * time.Second, 0}[k/3%2], Every: []time.Duration{2500 * time.Millisecond, 6 * time.Second}[k/6%2], Shift: k / 3 % 6}
			x.perform(c)
		}
	}
	for _, f := range froms {
		for _, l := range fors {
			for _, h := range hows {
				run(window{f, l, h})
				for _, g := range gaps {
					for _, l2 := range seconds {
						for _, h2 := range hows {
							run(window{f, l, h}, window{f + l + g, l2, h2})
						}
					}
				}
			}
		}
	}
	// Every kind of request at every moment around one outage.
	for d := time.Duration(0); d < 6*time.Second; d += 500 * time.Millisecond {
		for _, l := range fors {
			for _, h := range hows {
				for shift := 0; shift < 6; shift++ {
					if c.Stopped() {
						return
					}
					if !c.Take() {
						continue
					}
					x := &outage{Windows: []window{{4*time.Second + d, l, h}}, Args: append(base, variants[shift%3]...), Interval: 7 * time.Second, Every: 3 * time.Second, Shift: shift}
					x.perform(c)
				}
			}
		}
	}
}

// c30starts: starts while the database is away, with the setup of indexes and
// without.
func c30starts(c *core.Ctx) {
	for l := time.Second; l <= 27*time.Second; l += 2 * time.Second {
		for _, indexes := range []bool{false, true} {
			for _, in := range []time.Duration{0, 3 * time.Second} {
				for shift := 0; shift < 6; shift++ {
					if c.Stopped() {
						return
					}
					if !c.Take() {
						continue
					}
					args := mongoArgs[:len(mongoArgs):len(mongoArgs)]
					if indexes {
						args = args[:len(args)-1 : len(args)-1]
					}
					x := &outage{Windows: []window{{0, l, "refusing"}}, Args: args, Interval: in, Every: 3 * time.Second, Shift: shift}
					x.perform(c)
				}
			}
		}
	}
}

// c30stops: a signal at every moment of an outage.
func c30stops(c *core.Ctx) {
	for _, l := range []time.Duration{3 * time.Second, 20 * time.Second, 90 * time.Second} {
		for _, h := range hows {
			for _, in := range []time.Duration{0, 4 * time.Second} {
				for stop := 4 * time.Second; stop < min(l, 50*time.Second)+6*time.Second; stop += 1500 * time.Millisecond {
					if c.Stopped() {
						return
					}
					if !c.Take() {
						continue
					}
					x := &outage{Windows: []window{{5 * time.Second, l, h}}, Args: mongoArgs, Interval: in, Every: 3 * time.Second, Stop: stop, Shift: int(c.Index()) % 6}
					x.perform(c)
				}
			}
		}
	}
}

// c30embedded: with the embedded engine the instance is ready whenever it
// listens, whatever happens to its disk afterwards.
func c30embedded(c *core.Ctx) {
	for _, op := range []string{"", "create", "write", "sync", "rename", "close"} {
		for _, in := range []time.Duration{0, time.Second, time.Minute} {
			for _, save := range []string{"1s", "5m"} {
				if c.Stopped() {
					return
				}
				if !c.Take() {
					continue
				}
				desc := fmt.Sprintf("operation %q of the disk fails, jobs every %v, saves every %s", op, in, save)
				bubble(c, func() any { return desc }, func(t *testing.T) {
					p := &process{fs: seedDisk()}
					defer p.clean()
					p.boot("--bind", "127.0.0.1", "--port", "8080", "--engine", "memdb", "--chore-interval", in.String(), "--memdb-snapshot-path", path, "--memdb-snapshot-interval", save)
					if op != "" {
						p.fs.Fault = func(m int, o, name string) (bool, bool) { return o == op, false }
					}
					for i := 0; i < 60; i++ {
						for _, target := range []string{"/livez", "/readyz", "/v1/readyz", "/healthz"} {
							if st, b, err := p.talk("GET", target, ""); err != nil || st != 200 {
								c.Violation("readiness", fmt.Sprintf("after %d s %s is answered with %d %s %v\n%s", 3*i, target, st, b, err, desc), desc)
								return
							}
						}
						if st, b, err := p.talk("POST", fmt.Sprint("/topics/t/tasks/n", i), `{"producer":"me"}`); err != nil || st != 201 {
							c.Violation("failure", fmt.Sprintf("after %d s a task is answered with %d %s %v\n%s", 3*i, st, b, err, desc), desc)
							return
						}
						c.Count("requests", 5)
						time.Sleep(3 * time.Second)
					}
					// Once the disk works again everything is saved.
					p.fs.Fault = nil
					p.kill(os.Interrupt)
					for i := 0; i < 60 && !p.dead(); i++ {
						synctest.Wait()
						time.Sleep(time.Second)
					}
					got, err := p.stored()
					want := initial()
					for i := 0; i < 60; i++ {
						set(fmt.Sprint("n", i), "t", 0, "me", "", nil)(want)
					}
					if s := ""; err != nil || p.code != 0 {
						c.Violation("end", fmt.Sprintf("%s %d %v\n%s", p.how, p.code, err, desc), desc)
					} else if s = diff(want, got); s != "" {
						c.Violation("stored", s+"\n"+desc, desc)
					}
					c.Count("histories", 1)
				})
			}
		}
	}
}
