package main_test

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/mongod"

	"verif.local/shim/vos"
)

func init() {
	parts["C12/one"] = c12one
	parts["C12/two"] = c12two
	parts["C12/faults"] = c12faults
	parts["C12/endings"] = c12endings
}

// request is a request and what it does.
type request struct {
	Name   string
	method string
	target string
	body   string
	status int
	// effect changes the expected contents.
	effect func(v map[string]string)
	// check looks at the body of the answer.
	check func(b []byte) error
	db    string // first database command it needs
}

func taskIs(id string, state ratus.TaskState) func([]byte) error {
	return func(b []byte) error {
		var t ratus.Task
		if err := json.Unmarshal(b, &t); err != nil {
			return err
		}
		if t.ID != id || t.State != state {
			return fmt.Errorf("got task %s in state %d", t.ID, t.State)
		}
		return nil
	}
}

func counts(created, updated, deleted int64) func([]byte) error {
	return func(b []byte) error {
		var x struct {
			Created, Updated, Deleted int64
		}
		if err := json.Unmarshal(b, &x); err != nil {
			return err
		}
		if x.Created != created || x.Updated != updated || x.Deleted != deleted {
			return fmt.Errorf("got %+v", x)
		}
		return nil
	}
}

func set(id, topic string, state ratus.TaskState, producer, consumer string, payload any) func(v map[string]string) {
	return func(v map[string]string) {
		v[id] = brief(&ratus.Task{ID: id, Topic: topic, State: state, Producer: producer, Consumer: consumer, Payload: payload})
	}
}

func both(fs ...func(v map[string]string)) func(v map[string]string) {
	return func(v map[string]string) {
		for _, f := range fs {
			f(v)
		}
	}
}

// requests touches tasks of one topic, "t" or "u", whose numbers end in n.
func requests(topic, n string) []*request {
	base := "/v1/topics/" + topic
	return []*request{
		{Name: "insert", method: "POST", target: base + "/tasks/n" + n, body: `{"producer":"me","payload":"new","defer":"1h"}`, status: 201,
			effect: set("n"+n, topic, 0, "me", "", "new"), check: counts(1, 0, 0), db: "insert"},
		{Name: "commit", method: "PATCH", target: base + "/tasks/a" + n, body: `{"nonce":"0123456789abcdef","payload":"done"}`, status: 200,
			effect: set("a"+n, topic, 2, "prod", "c0", "done"), check: taskIs("a"+n, 2), db: "findAndModify"},
		{Name: "claim", method: "POST", target: base + "/promises/p" + n, body: `{"consumer":"me","timeout":"47h"}`, status: 200,
			effect: set("p"+n, topic, 1, "prod", "me", "payload of p"+n), check: taskIs("p"+n, 1), db: "findAndModify"},
		{Name: "replace", method: "PUT", target: base + "/tasks", body: `{"data":[{"_id":"p` + n + `","producer":"me","payload":"other","defer":"1h"},{"_id":"m` + n + `","producer":"me","payload":"more","defer":"1h"}]}`, status: 201,
			effect: both(set("p"+n, topic, 0, "me", "", "other"), set("m"+n, topic, 0, "me", "", "more")), check: counts(1, 1, 0), db: "update"},
		{Name: "delete", method: "DELETE", target: base + "/tasks/d" + n, status: 200,
			effect: func(v map[string]string) { delete(v, "d"+n) }, check: counts(0, 0, 1), db: "delete"},
		{Name: "list", method: "GET", target: "/v1/topics/big/tasks?limit=50", status: 200, effect: func(map[string]string) {},
			check: func(b []byte) error {
				var x struct{ Data []*ratus.Task }
				if err := json.Unmarshal(b, &x); err != nil {
					return err
				}
				if len(x.Data) != 12 {
					return fmt.Errorf("got %d tasks", len(x.Data))
				}
				return nil
			}, db: "find"},
	}
}

// steps of a request; the server may have begun to serve it from "head" on.
func (r *request) steps(db bool) []string {
	v := []string{"connect", "half head", "head"}
	if r.body != "" {
		v = append(v, "body")
	}
	if db {
		v = append(v, "database")
	}
	return append(v, "first bytes", "rest")
}

// stop is a case of C12.
type stop struct {
	Engine   string        `json:"engine"`
	Interval time.Duration `json:"interval"`
	Signal   os.Signal     `json:"signal"`
	Events   []string      `json:"events"`
	Gap      time.Duration `json:"gap"`   // between events once the signal has arrived
	Early    bool          `json:"early"` // also before
	Other    string        `json:"other"` // another connection
	Select   uint32        `json:"select"`
	Slow     time.Duration `json:"slow"` // a background job in progress when the signal arrives

	reqs   []*request
	events []event
	seed   map[string]string
}

type event struct {
	r    int // request, or -1 for the signal
	step string
}

func (e event) String() string {
	if e.r < 0 {
		return "SIGNAL"
	}
	return fmt.Sprintf("%d:%s", e.r, e.step)
}

var others = []string{"", "silent", "half head", "idle"}

func initial() map[string]string {
	v := map[string]string{}
	for _, t := range seedTasks() {
		v[t.ID] = brief(t)
	}
	return v
}

// perform runs the case and judges it.
func (x *stop) perform(c *core.Ctx) {
	x.Events = nil
	for _, e := range x.events {
		x.Events = append(x.Events, e.String())
	}
	bubble(c, func() any { return x }, func(t *testing.T) {
		runtime.ZVSelect(x.Select)
		defer runtime.ZVSelect(0)
		bad := func(sig, f string, a ...any) {
			c.Violation(sig, fmt.Sprintf(f, a...)+fmt.Sprintf("\n%s, jobs every %v, %v, gaps of %v, other connection %q, select %d, job in progress for %v\n%s",
				x.Engine, x.Interval, x.Signal, x.Gap, x.Other, x.Select, x.Slow, strings.Join(x.Events, ", ")), x)
		}
		p := &process{}
		defer p.clean()
		args := []string{"--bind", "127.0.0.1", "--port", "8080", "--chore-interval", x.Interval.String()}
		gates := map[string]chan struct{}{}
		held := map[string]bool{}
		slow := x.Slow
		var jobEnd time.Time
		if x.Engine == "mongodb" {
			p.srv = seedServer()
			args = append(args, mongoArgs...)
			// The first command a request needs waits for the step "database".
			for i, r := range x.reqs {
				gates[fmt.Sprint(i, r.db)] = make(chan struct{})
			}
			p.srv.Gate = func(m *mongod.Cmd) {
				if !p.started.Load() {
					return
				}
				s := m.String()
				for i, r := range x.reqs {
					k := fmt.Sprint(i, r.db)
					if m.Name == r.db && r.mine(s) && !held[k] {
						held[k] = true
						<-gates[k]
					}
				}
			}
			p.srv.Inject = func(m *mongod.Cmd) *mongod.Fault {
				if m.Name == "update" && slow > 0 && strings.Contains(m.String(), `"multi":true`) {
					time.Sleep(slow)
					jobEnd = time.Now()
				}
				return nil
			}
		} else {
			p.fs = seedDisk()
			args = append(args, "--engine", "memdb", "--memdb-snapshot-path", path, "--memdb-snapshot-interval", saves[x.Signal])
			p.fs.Hook = func(op, name string) {
				if op == "create" && slow > 0 && inChore() {
					time.Sleep(slow)
					jobEnd = time.Now()
				}
			}
		}
		p.boot(args...)
		for i := 0; i < 20 && p.listener() == nil; i++ {
			time.Sleep(500 * time.Millisecond)
			synctest.Wait()
		}
		p.started.Store(true)
		if p.dead() || p.listener() == nil {
			bad("start", "the process did not start to listen")
			return
		}
		var other *client
		if x.Other != "" {
			k, err := p.dial()
			if err != nil {
				bad("refused", "a connection was refused before the signal: %v", err)
				return
			}
			other = newClient(k)
			defer other.close()
			other.read(0)
			switch x.Other {
			case "half head":
				other.send("GET /v1/topics HTTP/1.1\r\nHost:")
			case "idle":
				other.send("GET /v1/livez HTTP/1.1\r\nHost: ratus\r\n\r\n")
				if s, _, whole, _ := other.answer(); s != 200 || !whole {
					bad("answer", "the liveness probe was answered with %d", s)
					return
				}
			}
		}
		clients := make([]*client, len(x.reqs))
		begun := make([]bool, len(x.reqs))
		gone := make([]bool, len(x.reqs)) // refused or cut off before being begun
		half := make([]bool, len(x.reqs))
		signalled := false
		var killed, last time.Time
		for _, e := range x.events {
			if x.Gap > 0 && (signalled || x.Early) {
				time.Sleep(x.Gap)
				synctest.Wait()
			}
			if e.r < 0 {
				signalled, killed = true, time.Now()
				if p.dead() {
					bad("died", "the process %s before the signal", p.how)
					return
				}
				p.kill(x.Signal)
				synctest.Wait()
				if k, err := p.dial(); err == nil {
					k.Close()
					if !p.dead() {
						bad("accepts", "the process still accepts connections after the signal")
						return
					}
				}
				continue
			}
			r, k := x.reqs[e.r], clients[e.r]
			if gone[e.r] || (k == nil && e.step != "connect") {
				continue
			}
			switch e.step {
			case "connect":
				n, err := p.dial()
				if err != nil {
					if !signalled {
						bad("refused", "a connection was refused before the signal: %v", err)
						return
					}
					gone[e.r] = true
					break
				}
				if signalled {
					n.Close()
					gone[e.r] = true
					bad("accepts", "a connection was accepted after the signal")
					return
				}
				clients[e.r] = newClient(n)
				defer clients[e.r].close()
				synctest.Wait()
			case "half head":
				half[e.r] = true
				k.send(r.method + " " + r.target + " HTTP/1.1\r\nHost: ra")
			case "head":
				s := "tus\r\n"
				if !half[e.r] {
					s = r.method + " " + r.target + " HTTP/1.1\r\nHost: ratus\r\n"
				}
				if r.body != "" {
					s += fmt.Sprintf("Content-Type: application/json\r\nContent-Length: %d\r\n", len(r.body))
				}
				s += "\r\n"
				if r.body != "" {
					s += r.body[:len(r.body)/2]
				}
				k.send(s)
				if !signalled {
					begun[e.r] = true
				}
			case "body":
				k.send(r.body[len(r.body)/2:])
			case "database":
				close(gates[fmt.Sprint(e.r, r.db)])
				synctest.Wait()
			case "first bytes":
				k.read(9)
			case "rest":
				k.read(0)
			}
			last = time.Now()
			if p.dead() {
				for i := range x.reqs {
					if begun[i] {
						if _, _, whole, _ := clients[i].answer(); !whole {
							bad("abandoned", "the process %s although request %d (%s) was not done", p.how, i, x.reqs[i].Name)
							return
						}
					}
				}
			}
		}
		end := killed
		if last.After(end) {
			end = last
		}
		for i := 0; i < 120 && !p.dead(); i++ {
			time.Sleep(time.Second + slow/8)
			synctest.Wait()
		}
		if !p.dead() {
			bad("lingers", "the process was still there long after the signal and the end of all requests")
			return
		}
		if p.code != 0 {
			bad("status", "the process %s with status %d", p.how, p.code)
			return
		}
		if jobEnd.After(end) {
			end = jobEnd
		}
		if d := p.at.Sub(end); d > time.Minute {
			bad("lingers", "the process ended only %v after the signal and the end of all requests", d)
			return
		}
		// The answers, and what must have been stored.
		want := initial()
		var maybe []*request
		for i, r := range x.reqs {
			k := clients[i]
			var status int
			var body []byte
			var whole, any bool
			if k != nil {
				status, body, whole, any = k.answer()
			}
			switch {
			case whole && status == r.status:
				if err := r.check(body); err != nil {
					bad("answer", "request %d (%s) was answered with %q: %v", i, r.Name, body, err)
					return
				}
				r.effect(want)
			case whole:
				bad("answer", "request %d (%s) was answered with %d %q", i, r.Name, status, body)
				return
			case any:
				bad("cut off", "request %d (%s) got an incomplete answer: %q", i, r.Name, k.in)
				return
			case begun[i]:
				bad("unanswered", "request %d (%s) was begun but not answered", i, r.Name)
				return
			default:
				maybe = append(maybe, r)
			}
		}
		got, err := p.stored()
		if err != nil {
			bad("restart", "after the process ended its data cannot be loaded: %v", err)
			return
		}
		ok := false
		for m := 0; m < 1<<len(maybe) && !ok; m++ {
			w := map[string]string{}
			for k, s := range want {
				w[k] = s
			}
			for i, r := range maybe {
				if m>>i&1 == 1 {
					r.effect(w)
				}
			}
			ok = reflect.DeepEqual(w, got)
		}
		if !ok {
			bad("lost", "after a restart the tasks differ from those acknowledged:%s", diff(want, got))
			return
		}
		c.Count("transitions", int64(len(x.events)))
		c.Distinct("states", fmt.Sprint(x.Engine, x.Interval, x.Other, x.Events, len(x.reqs), x.reqs[0].Name))
		c.Sample(func() string { return fmt.Sprintf("%s %v: %s", x.Engine, x.Signal, strings.Join(x.Events, ", ")) })
	})
	c.Count("histories", 1)
}

// mine tells whether a database command belongs to the request.
func (r *request) mine(cmd string) bool {
	if r.Name == "list" {
		return strings.Contains(cmd, `"big"`)
	}
	i := strings.LastIndexByte(r.target, '/')
	id := r.target[i+1:]
	if r.Name == "replace" {
		id = r.body[strings.Index(r.body, `"_id":"`)+7:]
		id = id[:strings.IndexByte(id, '"')]
	}
	return strings.Contains(cmd, `"`+id+`"`)
}

func diff(want, got map[string]string) string {
	var v []string
	for k, s := range want {
		if got[k] != s {
			v = append(v, fmt.Sprintf("\n  expected %s, found %s", s, got[k]))
		}
	}
	for k, s := range got {
		if _, ok := want[k]; !ok {
			v = append(v, "\n  unexpected "+s)
		}
	}
	sort.Strings(v)
	return strings.Join(v, "")
}

// c12one: one request, the signal at every moment, in every setting.
// saves gives the snapshot interval: whether or not a save has just been made
// or is not due yet, the last one at the end is.
var saves = map[os.Signal]string{os.Interrupt: "1ns", syscall.SIGTERM: "5m"}

func c12one(c *core.Ctx) {
	gaps := []time.Duration{0, 700 * time.Millisecond, time.Hour}
	for _, eng := range []string{"memdb", "mongodb"} {
		for _, in := range []time.Duration{0, time.Second} {
			for _, r := range requests("t", "1") {
				st := r.steps(eng == "mongodb")
				for at := 0; at <= len(st); at++ {
					for _, g := range gaps {
						for _, other := range others {
							for _, sg := range signals {
								for sel := uint32(1); sel <= 3; sel++ {
									for _, slow := range []time.Duration{0, time.Minute} {
										if c.Stopped() {
											return
										}
										if slow > 0 && (in == 0 || other == "half head" || sel != 1 && !c.Thorough()) {
											continue
										}
										if !c.Take() {
											continue
										}
										x := &stop{Engine: eng, Interval: in, Signal: sg, Gap: g, Other: other, Select: sel, Slow: slow, reqs: []*request{r}}
										for i, s := range st {
											if i == at {
												x.events = append(x.events, event{-1, ""})
											}
											x.events = append(x.events, event{0, s})
										}
										if at == len(st) {
											x.events = append(x.events, event{-1, ""})
										}
										x.perform(c)
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

// c12two: two requests, every order of their steps and of the signal.
func c12two(c *core.Ctx) {
	a, b := requests("t", "1"), requests("u", "2")
	pairs := [][2]int{{0, 1}, {2, 5}, {3, 4}, {1, 3}}
	if c.Thorough() {
		pairs = nil
		for i := range a {
			for j := range b {
				if i != 5 || j != 5 {
					pairs = append(pairs, [2]int{i, j})
				}
			}
		}
	}
	for n, ij := range pairs {
		for _, eng := range []string{"memdb", "mongodb"} {
			if eng == "mongodb" && n%2 == 1 && !c.Thorough() {
				continue
			}
			rs := []*request{a[ij[0]], b[ij[1]]}
			sa, sb := rs[0].steps(eng == "mongodb"), rs[1].steps(eng == "mongodb")
			if eng == "mongodb" && !c.Thorough() {
				sb = append([]string{"connect"}, sb[2:]...)
			}
			var merge func(i, j int, ev []event, sig bool)
			merge = func(i, j int, ev []event, sig bool) {
				if c.Stopped() {
					return
				}
				if i == len(sa) && j == len(sb) && sig {
					if !c.Take() {
						return
					}
					k := int(c.Index())
					x := &stop{Engine: eng, Interval: []time.Duration{0, 17 * time.Second}[k%2], Signal: signals[k/2%2], Gap: []time.Duration{0, time.Minute}[k/4%2], Early: k/8%2 == 1, Other: others[k/16%4], Select: uint32(k%3 + 1),
						reqs: rs, events: append([]event(nil), ev...)}
					x.perform(c)
					return
				}
				if i < len(sa) {
					merge(i+1, j, append(ev, event{0, sa[i]}), sig)
				}
				if j < len(sb) {
					merge(i, j+1, append(ev, event{1, sb[j]}), sig)
				}
				if !sig {
					merge(i, j, append(ev, event{-1, ""}), true)
				}
			}
			merge(0, 0, nil, false)
		}
	}
}

// c12faults: a final save that fails at any of its operations is not passed
// over in silence, and leaves the previous snapshot.
func c12faults(c *core.Ctx) {
	for _, in := range []time.Duration{0, time.Second} {
		for _, sv := range []bool{true, false} {
			for n := 0; n < 60; n++ {
				for _, partial := range []bool{false, true} {
					if c.Stopped() {
						return
					}
					if !c.Take() {
						continue
					}
					bubble(c, nil, func(t *testing.T) {
						detail := fmt.Sprintf("jobs every %v, API %v, failing operation %d of the final save (partially: %v)", in, sv, n, partial)
						p := &process{fs: seedDisk()}
						defer p.clean()
						port := "0"
						if sv {
							port = "8080"
						}
						p.boot("--port", port, "--chore-interval", in.String(), "--engine", "memdb", "--memdb-snapshot-path", path, "--memdb-snapshot-interval", "1h")
						if !sv && in == 0 {
							// Nothing to do: it ends at once.
							if !p.dead() || p.code != 0 {
								c.Violation("idle", "a process without API and jobs does not end by itself", detail)
							}
							return
						}
						want := initial()
						if sv {
							k, err := p.dial()
							if err != nil {
								c.Violation("refused", "a connection was refused: "+err.Error(), detail)
								return
							}
							cl := newClient(k)
							defer cl.close()
							cl.read(0)
							r := requests("t", "1")[0]
							cl.send(fmt.Sprintf("%s %s HTTP/1.1\r\nHost: ratus\r\nContent-Length: %d\r\n\r\n%s", r.method, r.target, len(r.body), r.body))
							if s, _, whole, _ := cl.answer(); s != r.status || !whole {
								c.Violation("answer", fmt.Sprintf("the request was answered with %d", s), detail)
								return
							}
							r.effect(want)
						}
						before := p.fs.Calls
						failed := false
						p.fs.Fault = func(m int, op, name string) (bool, bool) {
							if m == before+n && op != "remove" {
								failed = true
								return true, partial
							}
							return false, false
						}
						p.kill(signals[n%2])
						for i := 0; i < 60 && !p.dead(); i++ {
							synctest.Wait()
							time.Sleep(time.Second)
						}
						p.fs.Fault = nil
						if !p.dead() {
							c.Violation("lingers", "the process does not end", detail)
							return
						}
						got, err := p.stored()
						switch {
						case err != nil:
							c.Violation("restart", "the data cannot be loaded after a failed save: "+err.Error(), detail)
						case p.code == 0 && !reflect.DeepEqual(got, want):
							c.Violation("lost", "the process reported success but after a restart the tasks differ from those acknowledged:"+diff(want, got), detail)
						case p.code != 0 && !failed:
							c.Violation("status", "the process "+p.how+" although nothing failed", detail)
						case !reflect.DeepEqual(got, want) && !reflect.DeepEqual(got, initial()):
							c.Violation("mixed", "the snapshot is neither the previous nor the final one:"+diff(want, got), detail)
						}
						c.Count("transitions", 1)
						c.Distinct("states", detail)
					})
					c.Count("histories", 1)
				}
			}
		}
	}
}

// c12endings: a process that cannot listen, or cannot open its data, fails at
// once instead of lingering, and damages nothing.
func c12endings(c *core.Ctx) {
	for _, in := range []time.Duration{0, time.Second, time.Hour} {
		for _, delay := range []time.Duration{0, time.Hour} {
			for _, what := range []string{"listen", "accept", "damaged", "unreadable", "engine"} {
				for sel := uint32(1); sel <= 3; sel++ {
					if c.Stopped() {
						return
					}
					if !c.Take() {
						continue
					}
					bubble(c, nil, func(t *testing.T) {
						detail := fmt.Sprintf("jobs every %v after %v, %s fails", in, delay, what)
						p := &process{fs: seedDisk()}
						defer p.clean()
						runtime.ZVSelect(sel)
						defer runtime.ZVSelect(0)
						eng := "memdb"
						raw := append([]byte(nil), seedSnapshot()...)
						switch what {
						case "listen":
							p.listenErr = errors.New("address already in use")
						case "damaged":
							raw = raw[:len(raw)-7]
							p.fs = vos.New("/data")
							p.fs.Put(path, raw)
						case "unreadable":
							p.fs.Fault = func(m int, op, name string) (bool, bool) { return op == "open" || op == "read", false }
						case "engine":
							eng = "none"
						}
						p.boot("--port", "8080", "--chore-interval", in.String(), "--chore-initial-delay", delay.String(), "--engine", eng, "--memdb-snapshot-path", path, "--memdb-snapshot-interval", "1ns")
						want := initial()
						if l := p.listener(); what == "accept" && l != nil {
							// A request is answered, then the listener fails.
							k, err := p.dial()
							if err != nil {
								c.Violation("refused", "a connection was refused: "+err.Error(), detail)
								return
							}
							cl := newClient(k)
							defer cl.close()
							cl.read(0)
							r := requests("t", "1")[0]
							cl.send(fmt.Sprintf("%s %s HTTP/1.1\r\nHost: ratus\r\nContent-Length: %d\r\n\r\n%s", r.method, r.target, len(r.body), r.body))
							if s, _, whole, _ := cl.answer(); s != r.status || !whole {
								c.Violation("answer", fmt.Sprintf("the request was answered with %d", s), detail)
								return
							}
							r.effect(want)
							close(l.broken)
						}
						for i := 0; i < 30 && !p.dead(); i++ {
							synctest.Wait()
							time.Sleep(time.Second)
						}
						p.fs.Fault = nil
						if !p.dead() {
							c.Violation("lingers", "the process neither works nor ends", detail)
							return
						}
						if p.code == 0 {
							c.Violation("status", "the process reports success", detail)
							return
						}
						if what == "damaged" {
							if b, ok := p.fs.Get(path); !ok || string(b) != string(raw) {
								c.Violation("overwritten", "a snapshot that could not be loaded was replaced", detail)
							}
							return
						}
						got, err := p.stored()
						if err != nil || !reflect.DeepEqual(got, want) {
							c.Violation("lost", fmt.Sprintf("the stored tasks are not those acknowledged (%v):%s", err, diff(want, got)), detail)
						}
						c.Count("transitions", 1)
						c.Distinct("states", detail)
					})
					c.Count("histories", 1)
				}
			}
		}
	}
}
