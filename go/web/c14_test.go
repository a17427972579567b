package web

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
)

func init() {
	parts["C14/tasks"] = c14Tasks
	parts["C14/batches"] = c14Batches
	parts["C14/claims"] = c14Claims
	parts["C14/commits"] = c14Commits
	parts["C14/pairs"] = c14Pairs
	parts["C14/payloads"] = c14Payloads
}

// val is one choice for a field: its JSON text (empty: absent) and its meaning.
type val struct {
	js string
	v  any // string, int32, Off, time.Duration, payload
}

var none = val{}

func (v val) set() bool { return v.js != "" && v.js != "null" }

type field struct {
	name string
	v    val
}

// object writes the fields that are present.
func object(fs ...field) string {
	var b strings.Builder
	b.WriteByte('{')
	for _, f := range fs {
		if f.v.js == "" {
			continue
		}
		if b.Len() > 1 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, "%q:%s", f.name, f.v.js)
	}
	b.WriteByte('}')
	return b.String()
}

func str(s string) val {
	b, _ := json.Marshal(s)
	return val{string(b), s}
}

func num(n int32) val { return val{fmt.Sprint(n), n} }

// times are written in several notations of the same instant.
func (w *world) tm(o Off, layout int) val {
	t := o.At(w.base)
	switch layout {
	case 1:
		t = t.In(time.FixedZone("", 5*3600+1800))
	case 2:
		t = t.In(time.FixedZone("", -3600))
	default:
		t = t.UTC()
	}
	b, _ := json.Marshal(t.Format(time.RFC3339Nano))
	return val{string(b), o}
}

func dur(s string) val {
	if s == "" {
		return val{`""`, time.Duration(0)}
	}
	d, err := time.ParseDuration(s)
	if err != nil {
		panic(err)
	}
	return val{`"` + s + `"`, d}
}

func sv(v val) string {
	if !v.set() {
		return ""
	}
	return v.v.(string)
}

func (w *world) tp(v val) *time.Time {
	if !v.set() {
		return nil
	}
	t := v.v.(Off).At(w.base)
	return &t
}

// taskBody is a symbolic request body for a task.
type taskBody struct {
	id, topic, state, nonce, producer, consumer, produced, scheduled, consumed, deadline, payload, deferral val
}

func (b taskBody) js() string {
	return object(field{"_id", b.id}, field{"topic", b.topic}, field{"state", b.state}, field{"nonce", b.nonce}, field{"producer", b.producer},
		field{"consumer", b.consumer}, field{"produced", b.produced}, field{"scheduled", b.scheduled}, field{"consumed", b.consumed},
		field{"deadline", b.deadline}, field{"payload", b.payload}, field{"defer", b.deferral})
}

// task is what the documentation says becomes of it when accepted now.
func (w *world) task(b taskBody, pathID, pathTopic string) *ratus.Task {
	now := time.Now()
	t := &ratus.Task{ID: sv(b.id), Topic: sv(b.topic), Nonce: sv(b.nonce), Producer: sv(b.producer), Consumer: sv(b.consumer),
		Produced: w.tp(b.produced), Scheduled: w.tp(b.scheduled), Consumed: w.tp(b.consumed), Deadline: w.tp(b.deadline), Payload: b.payload.v}
	if t.ID == "" {
		t.ID = pathID
	}
	if t.Topic == "" {
		t.Topic = pathTopic
	}
	if b.state.set() {
		t.State = ratus.TaskState(b.state.v.(int32))
	}
	if t.Produced == nil {
		t.Produced = &now
	}
	if t.Scheduled == nil {
		s := now
		if b.deferral.set() {
			s = now.Add(b.deferral.v.(time.Duration))
		}
		t.Scheduled = &s
	}
	return t
}

func pend(id, topic string, sched Off) TS {
	return TS{ID: id, Topic: topic, Sched: p(sched), Prod: p(-hour), Producer: "prod", Payload: "p" + id}
}

func variant(id, topic string, state int32) TS {
	t := pend(id, topic, -sec)
	t.State = state
	if state > 0 {
		t.Consumer, t.Cons, t.Dead = "c0", p(-sec), p(hour)
	}
	if state == 1 {
		t.Nonce = "0123456789abcdef"
	}
	return t
}

// product enumerates the combinations of n choices each.
func product(dims []int, f func(ix []int) bool) {
	ix := make([]int, len(dims))
	for {
		if !f(ix) {
			return
		}
		i := len(dims) - 1
		for ; i >= 0; i-- {
			ix[i]++
			if ix[i] < dims[i] {
				break
			}
			ix[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func (w *world) layouts(o Off) []val {
	return []val{none, w.tm(o, 0), w.tm(o, 1), {"null", nil}}
}

func c14Tasks(c *core.Ctx) {
	methods := []string{"POST", "PUT"}
	prefixes := []string{"", "/v1"}
	// Quick: the four fields that take part in normalisation against each
	// other; the plain fields one at a time and all together.
	plain := []int{0, 63, 1, 2, 4, 8, 16, 32}
	if c.Thorough() {
		plain = plain[:0]
		for i := 0; i < 64; i++ {
			plain = append(plain, i)
		}
	}
	states := []val{none, num(0), num(1), num(2), num(3)}
	defers := []val{none, dur(""), dur("90s"), dur("-1.5h"), dur("1ns")}
	payloads := []val{none, {"null", nil}, {`{"a":[1,"x",null,true]}`, map[string]any{"a": []any{1, "x", nil, true}}}, str("s")}
	product([]int{2, 2, 2, 3, 2, len(states), 4, len(defers), len(payloads), len(plain)}, func(ix []int) bool {
		if !c.Take() {
			return !c.Stopped()
		}
		exists := ix[2] == 1
		var init []TS
		if exists {
			init = []TS{variant("a", "t", int32(ix[5]%4)), pend("b", "u", 0)}
		}
		one(c, []string{"a", "b"}, init, func(w *world) string {
			pl := plain[ix[9]]
			pick := func(bit int, v val) val {
				if pl>>bit&1 == 1 {
					return v
				}
				return none
			}
			b := taskBody{
				id: []val{none, str("a")}[ix[4]], topic: []val{none, str("t"), str("u")}[ix[3]], state: states[ix[5]],
				scheduled: w.layouts(-sec + 123456789)[ix[6]], deferral: defers[ix[7]], payload: payloads[ix[8]],
				nonce: pick(0, str("given")), producer: pick(1, str("p/1")), consumer: pick(2, str("c 1")),
				produced: pick(3, w.tm(-hour+1, 2)), consumed: pick(4, w.tm(-ms, 0)), deadline: pick(5, w.tm(hour, 1)),
			}
			path := "t"
			if ix[3] == 2 {
				path = "" // the topic is only in the body, as the client does it
			}
			r := Req{Method: methods[ix[0]], Target: prefixes[ix[1]] + "/topics/" + path + "/tasks/a", Body: body(b.js())}
			k := "insertTask"
			if r.Method == "PUT" {
				k = "upsertTask"
			}
			t := w.task(b, "a", path)
			if s := w.valid(r, &model.Call{Op: Op{K: k}, Tasks: []*ratus.Task{t}}); s != "" {
				return s
			}
			w.state("t")
			return w.valid(Req{Method: "GET", Target: prefixes[ix[1]] + "/topics//tasks/a"}, &model.Call{Op: Op{K: "getTask", ID: "a"}})
		})
		return !c.Stopped()
	})
}

func c14Batches(c *core.Ctx) {
	// Every batch of up to two (thorough three) entries out of these, over
	// colliding IDs.
	type ent struct {
		id, topic, state, deferral, scheduled int
	}
	var ents []ent
	product([]int{2, 3, 2, 3, 2}, func(ix []int) bool {
		ents = append(ents, ent{ix[0], ix[1], ix[2], ix[3], ix[4]})
		return true
	})
	max := 2
	for n := 0; n <= max; n++ {
		dims := []int{2, 2, 2}
		for i := 0; i < n; i++ {
			dims = append(dims, len(ents))
		}
		product(dims, func(ix []int) bool {
			if !c.Take() {
				return !c.Stopped()
			}
			var init []TS
			if ix[2] == 1 {
				init = []TS{variant("a", "t", 2), pend("z", "u", 0)}
			}
			one(c, []string{"a", "b", "z"}, init, func(w *world) string {
				var ts []*ratus.Task
				js := `{"data":[`
				for i := 0; i < n; i++ {
					e := ents[ix[3+i]]
					b := taskBody{id: []val{str("a"), str("b")}[e.id], topic: []val{none, str("t"), str("u")}[e.topic],
						state: []val{none, num(2)}[e.state], deferral: []val{none, dur("5m"), dur("-1s")}[e.deferral],
						scheduled: []val{none, w.tm(hour, 0)}[e.scheduled], producer: str(fmt.Sprint("p", i)), payload: num(int32(i))}
					ts = append(ts, w.task(b, "", "t"))
					if i > 0 {
						js += ","
					}
					js += b.js()
				}
				js += "]}"
				k, m := "insertTasks", "POST"
				if ix[0] == 1 {
					k, m = "upsertTasks", "PUT"
				}
				r := Req{Method: m, Target: []string{"", "/v1"}[ix[1]] + "/topics/t/tasks", Body: body(js)}
				if s := w.valid(r, &model.Call{Op: Op{K: k}, Tasks: ts}); s != "" {
					return s
				}
				w.state("b")
				return ""
			})
			return !c.Stopped()
		})
	}
}

func q(v val) string {
	var s string
	if json.Unmarshal([]byte(v.js), &s) != nil {
		return ""
	}
	return esc(s)
}

func c14Claims(c *core.Ctx) {
	// Endpoint, prefix, state of the task, consumer, deadline, timeout, ID in
	// the body, body form.
	// Places: 0 absent, 1 body, 2 query, 3 both alike.
	product([]int{3, 2, 5, 4, 7, 6, 3, 2}, func(ix []int) bool {
		if !c.Take() {
			return !c.Stopped()
		}
		var init []TS
		if ix[2] < 4 {
			init = append(init, variant("a", "t", int32(ix[2])))
		}
		init = append(init, pend("b", "u", -sec))
		one(c, []string{"a", "b"}, init, func(w *world) string {
			var fs []field
			var qs []string
			put := func(name string, v val, place int) {
				if place&1 != 0 {
					fs = append(fs, field{name, v})
				}
				if place&2 != 0 {
					qs = append(qs, name+"="+q(v))
				}
			}
			pr := &ratus.Promise{}
			if ix[3] > 0 {
				pr.Consumer = "c/1 ü"
				put("consumer", str(pr.Consumer), ix[3])
			}
			// deadline: 0 none, 1 body, 2 query, 3 both, 4 body with an offset, 5 query with an offset, 6 null in the body
			switch d := ix[4]; d {
			case 1, 2, 3:
				put("deadline", w.tm(hour+1, 0), d)
			case 4, 5:
				put("deadline", w.tm(hour+1, 1), d-3)
			case 6:
				fs = append(fs, field{"deadline", val{js: "null"}})
			}
			to := 10 * time.Minute
			// timeout: 0 none, 1 body, 2 query, 3 both, 4 body negative, 5 empty in body
			switch d := ix[5]; d {
			case 1, 2, 3:
				put("timeout", str("1h2m3.5s"), d)
				to, _ = time.ParseDuration("1h2m3.5s")
			case 4:
				put("timeout", str("-1s"), 1)
				to = -time.Second
			case 5:
				put("timeout", str(""), 1)
			}
			dl := time.Now().Add(to)
			if ix[4] > 0 && ix[4] < 6 {
				dl = (hour + 1).At(w.base)
			}
			pr.Deadline = &dl
			topic := "t"
			if ix[6] == 2 { // the topic does not matter when a task is named
				topic = ""
			}
			r := Req{Method: "POST", Target: []string{"", "/v1"}[ix[1]] + "/topics/" + topic + "/promises"}
			op := Op{K: "poll", Topic: "t"}
			switch ix[0] {
			case 0:
				if ix[6] > 0 { // the body names a task: a claim on that task
					put("_id", str("a"), 1+len(init)%2)
					op = Op{K: "insertPromise", ID: "a"}
				}
			case 1, 2:
				r.Target += "/a"
				op = Op{K: "insertPromise", ID: "a"}
				if ix[0] == 2 {
					r.Method, op.K = "PUT", "upsertPromise"
				}
				if ix[6] == 1 {
					put("_id", str("a"), 1)
				}
			}
			if op.K != "poll" {
				pr.ID = "a"
			}
			if len(qs) > 0 {
				r.Target += "?" + strings.Join(qs, "&")
			}
			if len(fs) > 0 {
				r.Body = body(object(fs...))
				r.Chunked = ix[7] == 1
			} else if ix[7] == 1 {
				r.Body = body([]string{"", "{}", " \n"}[ix[2]%3])
			}
			if s := w.valid(r, &model.Call{Op: op, Promise: pr}); s != "" {
				return s
			}
			w.state("c")
			return w.valid(Req{Method: "GET", Target: "/topics/t/promises/a"}, &model.Call{Op: Op{K: "getPromise", ID: "a"}})
		})
		return !c.Stopped()
	})
}

func c14Commits(c *core.Ctx) {
	states := []val{none, num(0), num(1), num(2), num(3), {"null", nil}}
	payloads := []val{none, {"null", nil}, {`[]`, []any{}}, {`0`, 0}, {`""`, ""}, {`false`, false}, str("new")}
	defers := []val{none, dur(""), dur("20m"), dur("-5s")}
	product([]int{2, 5, 3, 3, len(states), 4, len(defers), len(payloads)}, func(ix []int) bool {
		if !c.Take() {
			return !c.Stopped()
		}
		init := []TS{pend("b", "u", -sec)}
		if ix[1] < 4 {
			init = append(init, variant("a", "t", int32(ix[1])))
		}
		one(c, []string{"a", "b"}, init, func(w *world) string {
			nonce := []val{none, str("0123456789abcdef"), str("wrong")}[ix[2]]
			topic := []val{none, str("u"), str("")}[ix[3]]
			sched := w.layouts(2 * hour)[ix[5]]
			x := &ratus.Commit{Nonce: sv(nonce), Topic: sv(topic), Payload: payloads[ix[7]].v}
			s := ratus.TaskStateCompleted
			if states[ix[4]].set() {
				s = ratus.TaskState(states[ix[4]].v.(int32))
			}
			x.State = &s
			x.Scheduled = w.tp(sched)
			if d := defers[ix[6]]; d.set() && d.js != `""` && x.Scheduled == nil {
				t := time.Now().Add(d.v.(time.Duration))
				x.Scheduled = &t
			}
			r := Req{Method: "PATCH", Target: []string{"", "/v1"}[ix[0]] + "/topics/t/tasks/a"}
			js := object(field{"nonce", nonce}, field{"topic", topic}, field{"state", states[ix[4]]}, field{"scheduled", sched},
				field{"defer", defers[ix[6]]}, field{"payload", payloads[ix[7]]})
			if js != "{}" || ix[0] == 1 {
				r.Body = body(js)
			} else if ix[1]%2 == 0 {
				r.Body = body("")
			}
			if s := w.valid(r, &model.Call{Op: Op{K: "commit", ID: "a"}, Commit: x}); s != "" {
				return s
			}
			w.state("m")
			return w.valid(Req{Method: "GET", Target: "/topics/t/tasks/a"}, &model.Call{Op: Op{K: "getTask", ID: "a"}})
		})
		return !c.Stopped()
	})
}

// shape is a complete request with its meaning.
type shape struct {
	r    func(w *world) Req
	call func(w *world) *model.Call
}

func fixed(r Req, call func(w *world) *model.Call) shape {
	return shape{func(*world) Req { return r }, call}
}

func simple(method, target string, op Op) shape {
	return fixed(Req{Method: method, Target: target}, func(*world) *model.Call { return &model.Call{Op: op} })
}

// shapes are requests that set as many or as few fields as possible.
func shapes() []shape {
	var v []shape
	full := func(w *world, id string) taskBody {
		return taskBody{id: str(id), topic: str("u"), state: num(3), nonce: str("n1"), producer: str("p1"), consumer: str("c1"),
			produced: w.tm(-hour, 0), scheduled: w.tm(-2*hour, 0), consumed: w.tm(-hour, 1), deadline: w.tm(hour, 0), payload: str("x")}
	}
	dfr := func(w *world) taskBody { return taskBody{producer: str("p2"), deferral: dur("30m"), payload: num(7)} }
	for _, m := range []string{"POST", "PUT"} {
		k := map[string]string{"POST": "insertTask", "PUT": "upsertTask"}[m]
		for _, id := range []string{"a", "b"} {
			for _, mk := range []func(w *world) taskBody{
				func(w *world) taskBody { return taskBody{} },
				func(w *world) taskBody { return full(w, id) },
				dfr,
			} {
				v = append(v, shape{
					func(w *world) Req {
						return Req{Method: m, Target: "/topics/t/tasks/" + id, Body: body(mk(w).js())}
					},
					func(w *world) *model.Call {
						return &model.Call{Op: Op{K: k}, Tasks: []*ratus.Task{w.task(mk(w), id, "t")}}
					},
				})
			}
		}
		for _, n := range []int{0, 1, 2} {
			mk := func(w *world) []taskBody {
				x := []taskBody{full(w, "a"), {id: str("b"), deferral: dur("1m")}}
				return x[:n]
			}
			if n == 1 {
				mk = func(w *world) []taskBody { return []taskBody{{id: str("a")}} }
			}
			v = append(v, shape{
				func(w *world) Req {
					js := []string{}
					for _, b := range mk(w) {
						js = append(js, b.js())
					}
					s := `{"data":[` + strings.Join(js, ",") + `]}`
					if n == 0 {
						s = `{}`
					}
					return Req{Method: m, Target: "/v1/topics/t/tasks", Body: body(s)}
				},
				func(w *world) *model.Call {
					var ts []*ratus.Task
					for _, b := range mk(w) {
						ts = append(ts, w.task(b, "", "t"))
					}
					return &model.Call{Op: Op{K: k + "s"}, Tasks: ts}
				},
			})
		}
	}
	prom := func(id string, cons string, d func(w *world) time.Time) func(w *world) *ratus.Promise {
		return func(w *world) *ratus.Promise {
			t := d(w)
			return &ratus.Promise{ID: id, Consumer: cons, Deadline: &t}
		}
	}
	in := func(x time.Duration) func(w *world) time.Time {
		return func(*world) time.Time { return time.Now().Add(x) }
	}
	claim := func(m, target string, b *string, op Op, pr func(w *world) *ratus.Promise) {
		v = append(v, fixed(Req{Method: m, Target: target, Body: b}, func(w *world) *model.Call { return &model.Call{Op: op, Promise: pr(w)} }))
	}
	for _, id := range []string{"a", "b"} {
		for _, m := range []string{"POST", "PUT"} {
			op := Op{K: map[string]string{"POST": "insertPromise", "PUT": "upsertPromise"}[m], ID: id}
			claim(m, "/topics/t/promises/"+id, nil, op, prom(id, "", in(10*time.Minute)))
			claim(m, "/topics/t/promises/"+id, body(`{"consumer":"full","timeout":"1h"}`), op, prom(id, "full", in(time.Hour)))
			claim(m, "/topics/t/promises/"+id+"?consumer=query&timeout=5s", nil, op, prom(id, "query", in(5*time.Second)))
		}
	}
	claim("POST", "/topics/t/promises", nil, Op{K: "poll", Topic: "t"}, prom("", "", in(10*time.Minute)))
	claim("POST", "/topics/t/promises", body(`{"consumer":"full","timeout":"1h"}`), Op{K: "poll", Topic: "t"}, prom("", "full", in(time.Hour)))
	claim("POST", "/topics/t/promises", body(`{"_id":"a","consumer":"named"}`), Op{K: "insertPromise", ID: "a"}, prom("a", "named", in(10*time.Minute)))
	claim("POST", "/topics/u/promises?consumer=query", body(``), Op{K: "poll", Topic: "u"}, prom("", "query", in(10*time.Minute)))
	cm := func(id string, b *string, mk func(w *world) *ratus.Commit) {
		v = append(v, fixed(Req{Method: "PATCH", Target: "/topics/t/tasks/" + id, Body: b}, func(w *world) *model.Call {
			return &model.Call{Op: Op{K: "commit", ID: id}, Commit: mk(w)}
		}))
	}
	state := func(s ratus.TaskState) *ratus.TaskState { return &s }
	for _, id := range []string{"a", "b"} {
		cm(id, nil, func(w *world) *ratus.Commit { return &ratus.Commit{State: state(2)} })
		cm(id, body(`{"nonce":"stale"}`), func(w *world) *ratus.Commit { return &ratus.Commit{Nonce: "stale", State: state(2)} })
		cm(id, body(`{"topic":"u","state":0,"defer":"1h","payload":{"k":1}}`), func(w *world) *ratus.Commit {
			t := time.Now().Add(time.Hour)
			return &ratus.Commit{Topic: "u", State: state(0), Scheduled: &t, Payload: map[string]any{"k": 1}}
		})
	}
	for _, id := range []string{"a", "b"} {
		v = append(v, simple("GET", "/topics/t/tasks/"+id, Op{K: "getTask", ID: id}),
			simple("DELETE", "/topics/t/tasks/"+id, Op{K: "deleteTask", ID: id}),
			simple("GET", "/v1/topics/t/promises/"+id, Op{K: "getPromise", ID: id}),
			simple("DELETE", "/topics/t/promises/"+id, Op{K: "deletePromise", ID: id}))
	}
	for _, t := range []string{"t", "u"} {
		v = append(v, simple("GET", "/topics/"+t, Op{K: "getTopic", Topic: t}),
			simple("DELETE", "/topics/"+t, Op{K: "deleteTopic", Topic: t}),
			simple("GET", "/topics/"+t+"/tasks", Op{K: "listTasks", Topic: t, Limit: 10}),
			simple("GET", "/v1/topics/"+t+"/tasks?limit=1&offset=1", Op{K: "listTasks", Topic: t, Limit: 1, Offset: 1}),
			simple("DELETE", "/topics/"+t+"/tasks", Op{K: "deleteTasks", Topic: t}),
			simple("GET", "/topics/"+t+"/promises", Op{K: "listPromises", Topic: t, Limit: 10}),
			simple("DELETE", "/v1/topics/"+t+"/promises", Op{K: "deletePromises", Topic: t}))
	}
	v = append(v, simple("GET", "/topics", Op{K: "listTopics", Limit: 10}), simple("GET", "/v1/topics?limit=1&offset=1", Op{K: "listTopics", Limit: 1, Offset: 1}),
		simple("DELETE", "/topics", Op{K: "deleteTopics"}))
	// A refused request in between must leave no trace either.
	for _, r := range []Req{
		{Method: "POST", Target: "/topics/t/tasks/a", Body: body(`{"producer":"bad","state":3,"defer":"x"}`)},
		{Method: "PUT", Target: "/topics/t/promises/a", Body: body(`{"consumer":"bad","timeout":"x"}`)},
		{Method: "PATCH", Target: "/topics/t/tasks/a", Body: body(`{"topic":"bad","state":9}`)},
		{Method: "PUT", Target: "/topics/t/tasks", Body: body(`{"data":[{"_id":"b","producer":"bad"},{"producer":"bad"}]}`)},
		{Method: "GET", Target: "/topics?limit=-1&offset=3"},
	} {
		v = append(v, fixed(r, nil))
	}
	return v
}

func (w *world) shape(s shape) string {
	if s.call == nil {
		return w.refused(s.r(w), 400)
	}
	return w.valid(s.r(w), s.call(w))
}

func c14Pairs(c *core.Ctx) {
	sh := shapes()
	depth := 3
	inits := [][]TS{{}, {pend("a", "t", -sec), variant("b", "u", 1)}}
	dims := []int{len(inits)}
	for i := 0; i < depth; i++ {
		dims = append(dims, len(sh))
	}
	product(dims, func(ix []int) bool {
		if !c.Take() {
			return !c.Stopped()
		}
		one(c, []string{"a", "b"}, inits[ix[0]], func(w *world) string {
			for i, k := range ix[1:] {
				if s := w.shape(sh[k]); s != "" {
					return s
				}
				w.state(fmt.Sprint("p", i))
				time.Sleep(time.Second)
			}
			return ""
		})
		return !c.Stopped()
	})
}

// c14Payloads sends JSON payloads and reads them back by every route.
func c14Payloads(c *core.Ctx) {
	atoms := []string{`null`, `true`, `false`, `0`, `-1`, `1.5`, `1e300`, `9007199254740991`, `-0.000001`, `""`, `"a"`, `"<&>'\""`, `"\u0000\u001f\u2028"`, `"ü漢😀"`, `"\ud800"`, `"2006-01-02T15:04:05Z"`}
	var level []string
	level = append(level, atoms...)
	depth := 2
	all := append([]string{}, atoms...)
	for d := 0; d < depth; d++ {
		var next []string
		src := level
		if d > 0 && !c.Thorough() {
			src = level[:min(len(level), 60)]
		}
		next = append(next, `[]`, `{}`)
		for _, x := range src {
			next = append(next, "["+x+"]", `{"k":`+x+`}`, `{"":`+x+`,"_id":1}`)
			for _, y := range atoms {
				next = append(next, "["+x+","+y+"]", `{"a.b":`+x+`,"$c":`+y+`}`)
			}
		}
		all = append(all, next...)
		level = next
	}
	for _, pl := range all {
		if !c.Take() {
			if c.Stopped() {
				return
			}
			continue
		}
		one(c, []string{"a", "b"}, nil, func(w *world) string {
			var v any
			if err := json.Unmarshal([]byte(pl), &v); err != nil {
				return "" // not reachable: the list is well-formed
			}
			b := taskBody{payload: val{pl, v}}
			if s := w.valid(Req{Method: "POST", Target: "/topics/t/tasks/a", Body: body(b.js())}, &model.Call{Op: Op{K: "insertTask"}, Tasks: []*ratus.Task{w.task(b, "a", "t")}}); s != "" {
				return s
			}
			b2 := taskBody{id: str("b"), payload: val{pl, v}}
			if s := w.valid(Req{Method: "PUT", Target: "/v1/topics/t/tasks", Body: body(`{"data":[` + b2.js() + `]}`)}, &model.Call{Op: Op{K: "upsertTasks"}, Tasks: []*ratus.Task{w.task(b2, "", "t")}}); s != "" {
				return s
			}
			for _, s := range []shape{
				simple("GET", "/topics/t/tasks/a", Op{K: "getTask", ID: "a"}),
				simple("GET", "/topics/t/tasks", Op{K: "listTasks", Topic: "t", Limit: 10}),
				fixed(Req{Method: "POST", Target: "/topics/t/promises", Headers: []string{"Accept-Encoding: gzip"}}, func(w *world) *model.Call {
					d := time.Now().Add(10 * time.Minute)
					return &model.Call{Op: Op{K: "poll", Topic: "t"}, Promise: &ratus.Promise{Deadline: &d}}
				}),
				fixed(Req{Method: "PATCH", Target: "/topics/t/tasks/a", Body: body(`{"payload":` + pl + `}`)}, func(w *world) *model.Call {
					s := ratus.TaskStateCompleted
					return &model.Call{Op: Op{K: "commit", ID: "a"}, Commit: &ratus.Commit{State: &s, Payload: v}}
				}),
			} {
				if x := w.shape(s); x != "" {
					return x
				}
			}
			w.state("j")
			return ""
		})
	}
}
