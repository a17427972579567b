package web

import (
	"context"
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
)

func init() {
	parts["C13/sizes"] = c13Sizes
	parts["C14/sizes"] = c14Sizes
	parts["C15/sizes"] = c15Sizes
	parts["C16/lengths"] = c16Lengths
	parts["C17/long"] = c17Long
	parts["C18/long"] = c18Long
	parts["C23/sizes"] = c23Sizes
}

// ramp lists all small numbers, and those around the limits programs tend to
// have.
func ramp(c *core.Ctx, top, most int) []int {
	if c.Thorough() {
		top, most = top*4, most*4
	}
	var v []int
	for i := 1; i <= top; i++ {
		v = append(v, i)
	}
	for _, l := range []int{50, 64, 100, 128, 200, 250, 256, 300, 400, 500, 512, 768, 1000, 1024, 1500, 2000, 2048, 3000, 4000, 4096, 5000, 8000, 8192, 10000} {
		if l > most {
			break
		}
		for _, n := range []int{l - 1, l, l + 1} {
			if n > v[len(v)-1] {
				v = append(v, n)
			}
		}
	}
	return v
}

// places are positions among n.
func places(n int) []int {
	v := []int{0}
	if n > 2 {
		v = append(v, n/2)
	}
	if n > 1 {
		v = append(v, n-1)
	}
	return v
}

// c13Sizes: long lists with one invalid task, long names that contradict each
// other or are no text, and large bodies that are cut short.
func c13Sizes(c *core.Ctx) {
	const when = `"produced":"1999-01-02T03:04:05Z","scheduled":"1999-01-02T03:04:05Z"`
	bads := []string{`{"topic":"u","state":2,` + when + `}`, `{"_id":"","topic":"u",` + when + `}`, `null`, `{"_id":"bad","topic":"u","state":4,` + when + `}`, `{"_id":"bad","topic":"u","state":-1,` + when + `}`,
		`{"_id":"bad","topic":"u","defer":"soon"}`, `{"_id":7,"topic":"u",` + when + `}`, `{"_id":"bad","topic":"u","state":"1",` + when + `}`}
	try := func(r Req) bool {
		if c.Take() {
			one(c, abc, db3(), func(w *world) string {
				s := w.refused(r, 400)
				w.state(fmt.Sprint("r", c.Index()))
				return s
			})
		}
		return !c.Stopped()
	}
	for _, n := range ramp(c, 40, 5000) {
		for _, at := range places(n) {
			for bi, bad := range bads {
				for k := 0; k < 4; k++ {
					var b strings.Builder
					b.WriteString(`{"data":[`)
					for i := 0; i < n; i++ {
						if i > 0 {
							b.WriteByte(',')
						}
						switch {
						case i == at:
							b.WriteString(bad)
						case k&1 == 0:
							fmt.Fprintf(&b, `{"_id":"i%d"}`, i)
						default:
							fmt.Fprintf(&b, `{"_id":"i%d","topic":"u","state":1,%s}`, i, when)
						}
					}
					b.WriteString("]}")
					if !try(Req{Method: []string{"POST", "PUT"}[k>>1], Target: []string{"/v1", ""}[at%2] + "/topics/t/tasks", Body: body(b.String()), Chunked: bi%2 == 1}) {
						return
					}
				}
			}
		}
		// Without a topic, in a list for no topic.
		var b strings.Builder
		b.WriteString(`{"data":[`)
		for i := 1; i < n; i++ {
			fmt.Fprintf(&b, `{"_id":"i%d","topic":"u",%s},`, i, when)
		}
		if !try(Req{Method: "POST", Target: "/topics//tasks", Body: body(b.String() + `{"_id":"bad",` + when + `}]}`)}) {
			return
		}
	}
	for _, n := range ramp(c, 130, 10000) {
		long := strings.Repeat("x", n)
		for _, m := range []string{"POST", "PUT"} {
			for _, r := range []Req{
				{Target: "/topics/t/tasks/" + long, Body: body(`{"_id":"` + long + `x"}`)},
				{Target: "/topics/t/tasks/" + long, Body: body(`{"_id":"` + long[1:] + `y"}`)},
				{Target: "/topics/t/tasks/" + long + "%ff", Body: body(`{}`)},
				{Target: "/topics/" + long + "%ff/tasks/x", Body: body(`{}`)},
				{Target: "/topics/t/promises/" + long, Body: body(`{"_id":"` + long[1:] + `y"}`)},
				{Target: "/topics/t/promises/" + long + "?_id=" + long + "x"},
				{Target: "/topics/t/promises/a?consumer=" + long + "%ff"},
				{Target: "/topics/t/promises/a?timeout=" + long},
				{Target: "/topics/t/promises/a", Body: body(`{"consumer":"` + long + `","timeout":"` + long + `"}`)},
				{Target: "/topics/t/tasks/x", Body: body(`{"payload":"` + long + `","state":9}`)},
				{Target: "/topics/t/tasks/x", Body: body(`{"payload":"` + long + `"`)},
				{Target: "/topics/t/tasks/x", Body: body(`{"payload":` + strings.Repeat("[", n) + strings.Repeat("]", n-1) + `}`)},
				{Target: "/topics/t/tasks/x", Body: body(`{"payload":"x","defer":"` + strings.Repeat("1", n) + `"}`)},
				{Target: "/topics/t/tasks/x", Body: body(strings.Repeat(" ", n) + `{"state":9}`), Chunked: true},
				{Target: "/topics/t/tasks/x", Body: body(strings.Repeat(" ", n)), Chunked: true},
				{Target: "/topics/t/tasks", Body: body(`{"data":[` + strings.Repeat(`{"_id":"i"},`, n) + `]}`)},
				{Target: "/topics/t/tasks", Body: body(`{"data":[` + strings.Repeat(`{"_id":"i"},`, n) + `{"_id":"i"}`)},
			} {
				r.Method = m
				if !try(r) {
					return
				}
			}
		}
		for _, r := range []Req{
			{Method: "PATCH", Target: "/topics/t/tasks/b", Body: body(`{"nonce":"0123456789abcdef","payload":"` + long + `","state":9}`)},
			{Method: "PATCH", Target: "/topics/t/tasks/b", Body: body(`{"nonce":"0123456789abcdef","payload":"` + long + `"`)},
			{Method: "PATCH", Target: "/topics/t/tasks/b", Body: body(`{"topic":"` + long + `","defer":"` + long + `"}`)},
			{Method: "POST", Target: "/topics/t/promises?consumer=" + long + "&deadline=" + long},
			{Method: "GET", Target: "/topics?limit=" + strings.Repeat("9", n+3)},
			{Method: "GET", Target: "/topics/t/tasks?offset=-" + strings.Repeat("9", n)},
			{Method: "GET", Target: "/topics/t/promises?limit=1&offset=1" + strings.Repeat("0", n+4)},
		} {
			if !try(r) {
				return
			}
		}
	}
}

// big lists payloads that are large in different ways.
func big(n int) []any {
	var flat []any
	obj := map[string]any{}
	var deep any = "x"
	for i := 0; i < n; i++ {
		flat = append(flat, float64(i))
		obj[fmt.Sprint("k", i)] = "v"
		if i > 9000 {
			// Deeper JSON is no longer read by the standard library.
		} else if i%2 == 0 {
			deep = []any{deep}
		} else {
			deep = map[string]any{"k": deep}
		}
	}
	return []any{strings.Repeat("x", n), strings.Repeat("é<", n), flat, obj, deep}
}

func marshal(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

var largePages = config.PaginationConfig{MaxLimit: 100000, MaxOffset: 100000}

// c14Sizes: long lists, each task completed as documented, large payloads and
// long strings, sent, read and listed.
func c14Sizes(c *core.Ctx) {
	for _, n := range ramp(c, 130, 5000) {
		for k := 0; k < 4; k++ {
			if !c.Take() {
				if c.Stopped() {
					return
				}
				continue
			}
			one(c, nil, nil, func(w *world) string {
				w.h = handlerFor(largePages)
				var js []string
				var ts []*ratus.Task
				for i := 0; i < n; i++ {
					id := fmt.Sprintf("i%05d", (i*7919)%n)
					w.ids = append(w.ids, id)
					b := taskBody{id: str(id), payload: num(int32(i))}
					if i%2 == 0 || k&1 == 1 {
						b.scheduled, b.produced = w.tm(Off(i)*sec, i%3), w.tm(Off(-i)*sec, 0)
					} else if i%3 == 0 {
						b.deferral = dur(fmt.Sprint(i, "s"))
					}
					if i%5 != 0 {
						b.topic = str(fmt.Sprint("t", i%5%2))
					}
					if i%7 == 0 {
						b.state, b.nonce = num(int32(i%4)), str("n")
					}
					js, ts = append(js, b.js()), append(ts, w.task(b, "", "t0"))
				}
				op, m := "insertTasks", "POST"
				if k>>1 == 1 {
					op, m = "upsertTasks", "PUT"
				}
				r := Req{Method: m, Target: "/topics/t0/tasks", Body: body(`{"data":[` + strings.Join(js, ",") + `]}`), Chunked: k == 2}
				if s := w.valid(r, &model.Call{Op: Op{K: op}, Tasks: ts}); s != "" {
					return s
				}
				w.state("b")
				for _, o := range []int{0, n / 2, n - 1} {
					if s := w.shape(simple("GET", fmt.Sprintf("/topics/t0/tasks?limit=%d&offset=%d", n, o), Op{K: "listTasks", Topic: "t0", Limit: n, Offset: o})); s != "" {
						return s
					}
					if s := w.shape(simple("GET", fmt.Sprintf("/topics/t0/promises?limit=%d&offset=%d", n, o/2), Op{K: "listPromises", Topic: "t0", Limit: n, Offset: o / 2})); s != "" {
						return s
					}
				}
				// The same list again.
				return w.valid(r, &model.Call{Op: Op{K: op}, Tasks: ts})
			})
		}
		// As many topics.
		if c.Take() {
			one(c, nil, nil, func(w *world) string {
				w.h = handlerFor(largePages)
				var js []string
				var ts []*ratus.Task
				for i := 0; i < n; i++ {
					b := taskBody{id: str(fmt.Sprint("i", i)), topic: str(fmt.Sprint("t", i))}
					w.ids = append(w.ids, sv(b.id))
					js, ts = append(js, b.js()), append(ts, w.task(b, "", "t"))
				}
				if s := w.valid(Req{Method: "POST", Target: "/v1/topics/t/tasks", Body: body(`{"data":[` + strings.Join(js, ",") + `]}`)}, &model.Call{Op: Op{K: "insertTasks"}, Tasks: ts}); s != "" {
					return s
				}
				for _, o := range []int{0, n / 2, n - 1, n} {
					if s := w.shape(simple("GET", fmt.Sprintf("/topics?limit=%d&offset=%d", n, o), Op{K: "listTopics", Limit: n, Offset: o})); s != "" {
						return s
					}
				}
				return w.shape(simple("DELETE", "/topics", Op{K: "deleteTopics"}))
			})
		}
	}
	for _, n := range ramp(c, 130, 8192) {
		for pi, pl := range big(n) {
			if !c.Take() {
				if c.Stopped() {
					return
				}
				continue
			}
			one(c, []string{"a", "b"}, []TS{pend("b", "t", hour)}, func(w *world) string {
				long := strings.Repeat("n", n)
				x := val{marshal(pl), pl}
				b := taskBody{id: str("a"), payload: x, producer: str("p" + long), consumer: str(long + "c"), nonce: str(long), scheduled: w.tm(-sec, 0)}
				for i, s := range []shape{
					fixed(Req{Method: "POST", Target: "/topics/t/tasks/a", Body: body(b.js()), Chunked: pi%2 == 0}, func(w *world) *model.Call {
						return &model.Call{Op: Op{K: "insertTask"}, Tasks: []*ratus.Task{w.task(b, "a", "t")}}
					}),
					simple("GET", "/topics/t/tasks/a", Op{K: "getTask", ID: "a"}),
					fixed(Req{Method: "PUT", Target: "/v1/topics/t/tasks", Body: body(`{"data":[` + b.js() + `]}`)}, func(w *world) *model.Call {
						return &model.Call{Op: Op{K: "upsertTasks"}, Tasks: []*ratus.Task{w.task(b, "", "t")}}
					}),
					fixed(Req{Method: "POST", Target: "/topics/t/promises", Body: body(`{"consumer":"` + long + `"}`), Headers: []string{"Accept-Encoding: gzip"}}, func(w *world) *model.Call {
						d := time.Now().Add(10 * time.Minute)
						return &model.Call{Op: Op{K: "poll", Topic: "t"}, Promise: &ratus.Promise{Consumer: long, Deadline: &d}}
					}),
					simple("GET", "/topics/t/promises/a", Op{K: "getPromise", ID: "a"}),
					fixed(Req{Method: "PATCH", Target: "/topics/t/tasks/b", Body: body(`{"state":0,"payload":` + x.js + `}`), Chunked: pi%2 == 1}, func(w *world) *model.Call {
						s := ratus.TaskStatePending
						return &model.Call{Op: Op{K: "commit", ID: "b"}, Commit: &ratus.Commit{State: &s, Payload: pl}}
					}),
					fixed(Req{Method: "POST", Target: "/v1/topics/t/promises/b?consumer=" + long}, func(w *world) *model.Call {
						d := time.Now().Add(10 * time.Minute)
						return &model.Call{Op: Op{K: "insertPromise", ID: "b"}, Promise: &ratus.Promise{ID: "b", Consumer: long, Deadline: &d}}
					}),
					simple("GET", "/topics/t/tasks?limit=10", Op{K: "listTasks", Topic: "t", Limit: 10}),
				} {
					if s := w.shape(s); s != "" {
						return fmt.Sprintf("request %d: %s", i+1, s)
					}
				}
				w.state("p")
				return ""
			})
		}
	}
}

// c15Sizes: the same through the client, and errors with long messages.
func c15Sizes(c *core.Ctx) {
	for _, n := range ramp(c, 130, 5000) {
		for k := 0; k < 2; k++ {
			if !c.Take() {
				if c.Stopped() {
					return
				}
				continue
			}
			one(c, nil, nil, func(w *world) string {
				w.h = handlerFor(largePages)
				sv := serve(w.h)
				defer sv.stop()
				e := viaClient{sv.client(ratus.ClientOptions{}), w.g}
				var ts []TS
				for i := 0; i < n; i++ {
					t := TS{ID: fmt.Sprintf("i%05d", (i*7919)%n), Topic: []string{"t", "u"}[i%2], Producer: "p", Payload: float64(i)}
					if i%3 == 0 {
						t = variant(t.ID, t.Topic, int32(i%4))
					}
					w.ids = append(w.ids, t.ID)
					ts = append(ts, t)
				}
				ops := []Op{{K: "insertTasks", Ts: ts[:n/2]}, {K: "upsertTasks", Ts: ts}, {K: "listTasks", Topic: "t", Limit: n}, {K: "listTasks", Topic: "u", Limit: n/2 + 1, Offset: n / 3}, {K: "listPromises", Topic: "t", Limit: n}, {K: "getTopic", Topic: "t"},
					{K: "deletePromises", Topic: "t"}, {K: "insertTasks", Ts: ts}, {K: "deleteTasks", Topic: "u"}, {K: "deleteTopics"}}
				if k == 1 {
					for i := range ts {
						ts[i].Topic = ts[i].ID
					}
					ops = []Op{{K: "upsertTasks", Ts: ts}, {K: "listTopics", Limit: n}, {K: "listTopics", Limit: n, Offset: n / 2}, {K: "listTopics", Limit: n/2 + 1, Offset: n - 1}, {K: "deleteTopics"}}
				}
				for _, op := range ops {
					if s := w.over(e, op, true); s != "" {
						return short(s)
					}
					w.state("c")
				}
				return ""
			})
		}
	}
	raws := rawOf()
	for _, n := range ramp(c, 130, 10000) {
		for pi, pl := range big(n) {
			if !c.Take() {
				if c.Stopped() {
					return
				}
				continue
			}
			withClient(c, []string{"a", "b"}, []TS{pend("b", "t", hour)}, func(w *world, e model.Engine) string {
				long := strings.Repeat("n", n)
				full := TS{ID: "a", Topic: "t", Nonce: long, Producer: long, Consumer: long, Sched: p(-sec), Payload: pl}
				for _, op := range []Op{{K: "insertTask", Ts: []TS{full}}, {K: "getTask", ID: "a"}, {K: "poll", Topic: "t", Consumer: long}, {K: "getPromise", ID: "a"}, {K: "upsertPromise", ID: "a", Consumer: long + "x"}, {K: "commit", ID: "a", N: "cur", State: st(0), Payload: pl},
					{K: "upsertTasks", Ts: []TS{full, {ID: "b", Topic: "t", Payload: pl}}}, {K: "listTasks", Topic: "t", Limit: 10}, {K: "insertPromise", ID: "b", Consumer: "c" + long}, {K: "listPromises", Topic: "t", Limit: 10}, {K: "commit", ID: "b", N: "old"}} {
					if s := w.over(e, op, true); s != "" {
						return short(s)
					}
				}
				w.state(fmt.Sprint("p", pi))
				return ""
			})
		}
		ks := keys(raws)
		for ei, e := range []error{ratus.ErrNotFound, ratus.ErrConflict, ratus.ErrServiceUnavailable, ratus.ErrBadRequest} {
			if !c.Take() {
				continue
			}
			one(c, nil, nil, func(w *world) string {
				sv := serve(w.h)
				defer sv.stop()
				cl := sv.client(ratus.ClientOptions{})
				for _, msg := range []error{fmt.Errorf("%w: %s", e, strings.Repeat("x", n)), fmt.Errorf("%s: %w", strings.Repeat("é", n), e), fmt.Errorf("%s%w", strings.Repeat("<\"\n", n), e)} {
					target.Engine = &hook{func(ctx context.Context, op, name string, arg any) (any, error) { return nil, msg }}
					k := ks[(n+ei)%len(ks)]
					if k == "ready" {
						k = "poll"
					}
					op := Op{K: k, ID: "a", Topic: "t", Limit: 10, Ts: []TS{{ID: "a", Topic: "t"}}}
					w.trace = append(w.trace, k)
					err := model.Exec(bg, viaClient{cl, nil}, w.m.Resolve(op, w.base, time.Now()), false).Err
					if err == nil || model.Kind(err) != model.Kind(e) {
						return short(fmt.Sprintf("%s with an error %v and %d characters: the client got %v", k, e, n, err))
					}
					if !strings.Contains(err.Error(), msg.Error()) {
						return short(fmt.Sprintf("%s with an error %v and %d characters: the client got %v", k, e, n, err))
					}
					c.Count("transitions", 1)
				}
				return ""
			})
		}
	}
}

// c16Lengths: names of every length, with names like it next to it.
func c16Lengths(c *core.Ctx) {
	for _, n := range ramp(c, 260, 10000) {
		for ci, unit := range []string{"a", "ü", "/", "%", "ab/"} {
			name := strings.Repeat(unit, n)
			r := []rune(name)
			cut := func(i int, x string) string { return string(r[:i]) + x + string(r[i+1:]) }
			last := len(r) - 1
			nb := []string{name + unit, cut(last, "z"), cut(0, "z"), cut(last/2, "z"), name + "A"}
			if last > 0 {
				nb = append(nb, string(r[:last]))
			}
			sort.Strings(nb)
			seen := map[string]bool{name: true, "": true}
			ids := []string{name}
			for _, x := range nb {
				if !seen[x] {
					seen[x] = true
					ids = append(ids, x)
				}
			}
			for mode := 0; mode < 3; mode++ {
				if n > 100 && (ci+n)%3 != mode && !c.Thorough() {
					continue
				}
				if !c.Take() {
					if c.Stopped() {
						return
					}
					continue
				}
				c.Distinct("states", fmt.Sprint(n, ci, mode))
				switch mode {
				case 0: // tasks
					var init []TS
					for i, x := range ids {
						t := pend(x, "t", -sec)
						if i%2 == 1 {
							t = variant(x, "t", 1)
						}
						if i > 0 || n%2 == 0 {
							init = append(init, t)
						}
					}
					withClient(c, ids, init, func(w *world, e model.Engine) string {
						for _, op := range idOps(name) {
							if s := w.over(e, op, true); s != "" {
								return short(s)
							}
							w.c.Count("transitions", 1)
						}
						return short(w.rawNames(name, ""))
					})
				case 1: // topics
					var init []TS
					all := []string{"other", "new"}
					for i, x := range ids {
						if i == 0 && n%2 == 1 {
							continue
						}
						for j := 0; j < 2; j++ {
							id := fmt.Sprint("i", i, j)
							all = append(all, id)
							t := pend(id, x, -sec)
							if j == 1 {
								t = variant(id, x, 1)
							}
							init = append(init, t)
						}
					}
					init = append(init, pend("other", "zz", -sec))
					withClient(c, all, init, func(w *world, e model.Engine) string {
						for _, op := range topicOps(name) {
							if s := w.over(e, op, true); s != "" {
								return short(s)
							}
							w.c.Count("transitions", 1)
						}
						return short(w.rawNames("", name))
					})
				case 2: // lists of them, by hand and through the client
					withClient(c, ids, nil, func(w *world, e model.Engine) string {
						var ts []TS
						for _, x := range ids {
							ts = append(ts, TS{ID: x, Topic: x, Producer: x, Consumer: x, Nonce: x})
						}
						for i, op := range []Op{{K: "insertTasks", Ts: ts}, {K: "upsertTasks", Ts: ts}, {K: "insertTasks", Ts: ts}, {K: "listTopics", Limit: 100}, {K: "listTasks", Topic: name, Limit: 100}, {K: "getTask", ID: name}, {K: "deleteTask", ID: name}, {K: "deleteTopic", Topic: ids[1]}} {
							if s := w.over(e, op, true); s != "" {
								return short(fmt.Sprintf("%d: %s", i, s))
							}
						}
						var js []string
						var cs []*ratus.Task
						for _, x := range ids {
							b := taskBody{id: str(x), topic: str(x), producer: str(x)}
							js, cs = append(js, b.js()), append(cs, w.task(b, "", ""))
						}
						return short(w.valid(Req{Method: "PUT", Target: "/topics//tasks", Body: body(`{"data":[` + strings.Join(js, ",") + `]}`)}, &model.Call{Op: Op{K: "upsertTasks"}, Tasks: cs}))
					})
				}
			}
		}
	}
}

// c17Long: the same happens over and over.
func c17Long(c *core.Ctx) {
	times := 300
	if c.Thorough() {
		times = 1100
	}
	steps := subSteps(true)
	for _, cf := range subConfs() {
		for _, s := range steps {
			if c.Take() {
				sc := make([]step, times)
				for i := range sc {
					sc[i] = s
				}
				judge(c, cf, sc, times+2, -1, false)
			}
			if c.Stopped() {
				return
			}
		}
	}
	// Many times one thing, then others, and two taking turns.
	steps = subSteps(false)
	confs := subConfs()
	product([]int{len(steps), len(steps), 3}, func(ix []int) bool {
		if c.Take() {
			n := []int{times / 5, times/5 + 1, times / 10}[ix[2]]
			var sc []step
			for i := 0; i < n; i++ {
				sc = append(sc, steps[ix[0]])
				if ix[2] == 2 {
					sc = append(sc, steps[ix[1]])
				}
			}
			sc = append(sc, steps[ix[1]], steps[ix[0]])
			judge(c, confs[ix[2]%2], sc, len(sc)+2, -1, false)
		}
		return !c.Stopped()
	})
	// Many pollers.
	for _, n := range []int{5, 8, 10, 16, 17, 32, 33, 64, 65, 90} {
		for _, s := range []step{{Poll: "empty"}, {Poll: "internal"}, {Poll: "task"}, {Poll: "slowEmpty"}, {Poll: "slowTask"}, {Poll: "task", Do: "sleep"}, {Poll: "task", Do: "commit"}, {Poll: "drop"}} {
			if c.Take() {
				cf := subConf{N: n, Cd: time.Second, Poll: 100 * time.Second, Drain: 100 * time.Second, Errs: 100 * time.Second, Timeout: "1h", Consumer: "c", Long: 10370 * time.Millisecond}
				sc := make([]step, 3*n)
				for i := range sc {
					sc[i] = s
				}
				judge(c, cf, sc, 3*n, -1, false)
			}
			if c.Stopped() {
				return
			}
		}
	}
}

// c18Long: each call and each failed commit, over and over.
func c18Long(c *core.Ctx) {
	al := c18Letters()
	reps := []int{8, 16, 33, 64, 101, 130}
	if c.Thorough() {
		reps = append(reps, 256, 257, 1001)
	}
	product([]int{len(al), len(al), len(reps)}, func(ix []int) bool {
		if al[ix[0]].sleep > 0 || al[ix[1]].sleep > 0 {
			return true
		}
		if c.Take() {
			var word []int
			for i := 0; i < reps[ix[2]]; i++ {
				word = append(word, ix[0])
			}
			word18(c, al, append(word, ix[1]))
			word = word[:0]
			for i := 0; i < reps[ix[2]]/2; i++ {
				word = append(word, ix[0], ix[1])
			}
			word18(c, al, word)
		}
		return !c.Stopped()
	})
}

// c23Sizes: many topics, producers and consumers are counted each on its own,
// and long lists in full.
func c23Sizes(c *core.Ctx) {
	uniq := 0
	grown := func(before, after, want map[string]float64) string {
		for k, v := range after {
			if d := v - before[k] - want[k]; d != 0 {
				return fmt.Sprintf("%s grew by %v, expected %v", k, d+want[k], want[k])
			}
		}
		for k, v := range want {
			if _, ok := after[k]; !ok && v != 0 {
				return fmt.Sprintf("%s is absent, expected %v", k, v)
			}
		}
		return ""
	}
	most := 5100
	if c.Thorough() {
		most = 12000
	}
	const when = `"produced":"1999-01-02T03:04:05Z","scheduled":"1999-01-02T03:04:05Z"`
	for _, n := range ramp(c, 130, 5000) {
		for k, m := range []string{"POST", "PUT"} {
			if !c.Take() {
				if c.Stopped() {
					return
				}
				continue
			}
			one(c, nil, nil, func(w *world) string {
				var b strings.Builder
				for i := 0; i < n; i++ {
					if i > 0 {
						b.WriteByte(',')
					}
					fmt.Fprintf(&b, `{"_id":"i%d","topic":"b","producer":"bp",%s}`, i, when)
				}
				long := url.PathEscape(strings.Repeat("é", n))
				r := Req{Method: m, Target: "/topics/b/tasks", Body: body(`{"data":[` + b.String() + `]}`)}
				two := Req{Method: m, Target: "/topics/" + long + "/tasks/x", Body: body(`{"producer":"` + strings.Repeat("p", n) + `"}`)}
				before, s := w.scrape(counters)
				if s != "" {
					return s
				}
				want := map[string]float64{hist("GET", "/metrics", 200): 1}
				for i, r := range []Req{r, r, two} {
					resp, s := do(w.h, r)
					if s != "" {
						return s
					}
					status, made := 201, float64(n)
					if i == 1 && m == "PUT" {
						status = 200
					} else if i == 1 {
						status, made = 200, 0
					}
					if resp.Status != status {
						return fmt.Sprintf("%s: status %d, expected %d", r, resp.Status, status)
					}
					want[hist(r.Method, r.Target, status)]++
					if i < 2 {
						want[`ratus_task_produced_count_total{producer="bp",topic="b"}`] += made
					} else {
						want[fmt.Sprintf("ratus_task_produced_count_total{producer=%q,topic=%q}", strings.Repeat("p", n), strings.Repeat("é", n))]++
					}
					c.Count("transitions", 1)
				}
				after, s := w.scrape(counters)
				if s == "" {
					s = grown(before, after, want)
				}
				if s != "" {
					return short(fmt.Sprintf("a list of %d tasks: %s", n, s))
				}
				c.Distinct("states", fmt.Sprint("list", n, k))
				if _, err := w.g.DeleteTopics(bg); err != nil {
					return err.Error()
				}
				w.m.S = model.State{}
				return ""
			})
		}
	}
	// The largest ones come last, as they slow down what follows.
	for _, n := range []int{33, 130, most} {
		for kind := 0; kind < 8; kind++ {
			if n == most && kind != 7 && kind&(kind-1) != 0 || !c.Take() {
				continue
			}
			one(c, nil, nil, func(w *world) string {
				uniq++
				before, s := w.scrape(counters)
				if s != "" {
					return s
				}
				want := map[string]float64{hist("GET", "/metrics", 200): 1}
				ask := func(r Req, status int) string {
					resp, s := do(w.h, r)
					if s == "" && resp.Status != status {
						s = fmt.Sprintf("%s: status %d, expected %d: %s", r, resp.Status, status, resp.Body)
					}
					want[hist(r.Method, r.Target, status)]++
					c.Count("transitions", 1)
					return s
				}
				for i := 0; i < n; i++ {
					// Which of topic, producer and consumer are new each time.
					tp, pr, co := fmt.Sprintf("t%d-%d", c.Index(), uniq), "p", "c"
					if kind&1 == 1 {
						tp += fmt.Sprint("-", i)
					}
					if kind&2 == 2 {
						pr += fmt.Sprint("-", i)
					}
					if kind&4 == 4 {
						co += fmt.Sprint("-", i)
					}
					for _, x := range []func() string{
						func() string {
							want[fmt.Sprintf("ratus_task_produced_count_total{producer=%q,topic=%q}", pr, tp)]++
							return ask(Req{Method: "POST", Target: "/topics/" + tp + "/tasks/i" + fmt.Sprint(i), Body: body(`{"producer":"` + pr + `",` + when + `}`)}, 201)
						},
						func() string {
							want[task3("consumed", &ratus.Task{Consumer: co, Producer: pr, Topic: tp})]++
							return ask(Req{Method: "POST", Target: "/topics/" + tp + "/promises?consumer=" + co}, 200)
						},
						func() string {
							want[task3("committed", &ratus.Task{Consumer: co, Producer: pr, Topic: tp})]++
							return ask(Req{Method: "PATCH", Target: "/topics/" + tp + "/tasks/i" + fmt.Sprint(i), Body: body(`{}`)}, 200)
						},
						func() string { return ask(Req{Method: "GET", Target: "/topics/" + tp + "/tasks/none"}, 404) },
					} {
						if s := x(); s != "" {
							return s
						}
					}
				}
				after, s := w.scrape(counters)
				if s == "" {
					s = grown(before, after, want)
				}
				if s != "" {
					return fmt.Sprintf("after %d tasks (case %d): %s", n, kind, s)
				}
				c.Distinct("states", fmt.Sprint(kind, n))
				if _, err := w.g.DeleteTopics(bg); err != nil {
					return err.Error()
				}
				w.m.S = model.State{}
				return ""
			})
			if c.Stopped() {
				return
			}
		}
	}
}
