package web

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"net/url"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
)

func init() {
	parts["C23/metrics"] = func(c *core.Ctx) { c23(c, false) }
	parts["C26/gauges"] = func(c *core.Ctx) { c23(c, true) }
	parts["C26/requests"] = c26requests
}

var counters = []string{"ratus_task_produced_count_total{", "ratus_task_consumed_count_total{", "ratus_task_committed_count_total{", "ratus_request_duration_seconds_count{"}
var gauges = []string{"ratus_task_schedule_delay_seconds{", "ratus_task_execution_duration_seconds{"}

// scrape reads metrics.
func (w *world) scrape(names []string) (map[string]float64, string) {
	resp, s := do(w.h, Req{Method: "GET", Target: "/metrics"})
	if s != "" {
		return nil, s
	}
	if resp.Status != 200 {
		return nil, fmt.Sprintf("GET /metrics: status %d", resp.Status)
	}
	v := map[string]float64{}
	for _, l := range bytes.Split(resp.Body, []byte("\n")) {
		line := string(l)
		if !slices.ContainsFunc(names, func(n string) bool { return strings.HasPrefix(line, n) }) {
			continue
		}
		i := strings.LastIndexByte(line, ' ')
		f, err := strconv.ParseFloat(line[i+1:], 64)
		if err != nil {
			return nil, "metrics: " + line
		}
		v[line[:i]] = f
	}
	return v, ""
}

func task3(kind string, t *ratus.Task) string {
	return fmt.Sprintf("ratus_task_%s_count_total{consumer=%q,producer=%q,topic=%q}", kind, t.Consumer, t.Producer, t.Topic)
}

// route is the pattern a request is counted under, and its topic.
func route(target string) (string, string) {
	path, _, _ := strings.Cut(target, "?")
	seg := strings.Split(path[1:], "/")
	pre := ""
	if seg[0] == "v1" {
		pre, seg = "/v1", seg[1:]
	}
	topic := ""
	if len(seg) > 1 {
		topic, _ = url.PathUnescape(seg[1])
		seg[1] = ":topic"
	}
	if len(seg) > 3 {
		seg[3] = ":id"
	}
	return pre + "/" + strings.Join(seg, "/"), strings.ToValidUTF8(topic, "\uFFFD")
}

func hist(method, target string, status int) string {
	rt, tp := route(target)
	return fmt.Sprintf("ratus_request_duration_seconds_count{endpoint=%q,method=%q,status_code=\"%d\",topic=%q}", rt, method, status, tp)
}

// counted sends a request, adds what it must contribute to the counters and
// sets what it must set the gauges to.
func (w *world) counted(s shape, want, set map[string]float64) string {
	tasks := map[string]*ratus.Task{}
	if set != nil {
		for _, id := range w.ids {
			if t, err := w.g.GetTask(bg, id); err == nil {
				tasks[id] = t
			}
		}
	}
	now := time.Now()
	r := s.r(w)
	w.trace = append(w.trace, r.String())
	resp, bad := do(w.h, r)
	if bad != "" {
		return bad
	}
	want[hist(r.Method, r.Target, resp.Status)]++
	if s.call == nil {
		if resp.Status < 400 {
			return fmt.Sprintf("%s: status %d", r, resp.Status)
		}
		return ""
	}
	call := s.call(w)
	call.Before, call.After, call.Base = time.Now(), time.Now(), w.base
	res, bad := result(call.Op, resp)
	if bad != "" {
		return bad
	}
	if err := w.m.Apply(call, res, nil); err != nil {
		return fmt.Sprintf("%s: %v", r, err)
	}
	if res.Err != nil {
		return ""
	}
	switch call.Op.K {
	case "insertTask", "upsertTask", "insertTasks", "upsertTasks":
		if n := res.Updated.Created + res.Updated.Updated; n > 0 {
			want[fmt.Sprintf("ratus_task_produced_count_total{producer=%q,topic=%q}", call.Tasks[0].Producer, call.Tasks[0].Topic)] += float64(n)
		}
	case "poll", "insertPromise", "upsertPromise":
		want[task3("consumed", res.Task)]++
		if t := tasks[res.Task.ID]; t != nil && t.Scheduled != nil {
			set[fmt.Sprintf("ratus_task_schedule_delay_seconds{consumer=%q,producer=%q,topic=%q}", res.Task.Consumer, res.Task.Producer, res.Task.Topic)] = now.Sub(*t.Scheduled).Seconds()
		}
	case "commit":
		want[task3("committed", res.Task)]++
		if t := tasks[res.Task.ID]; t != nil && t.Consumed != nil {
			set[fmt.Sprintf("ratus_task_execution_duration_seconds{consumer=%q,producer=%q,topic=%q}", res.Task.Consumer, res.Task.Producer, res.Task.Topic)] = now.Sub(*t.Consumed).Seconds()
		}
	}
	return ""
}

func metricShapes() []shape {
	sh := shapes()
	// Batches as the client sends them, and of several tasks.
	batch := func(m, target string, ids ...string) shape {
		k := map[string]string{"POST": "insertTasks", "PUT": "upsertTasks"}[m]
		mk := func(i int, id string) taskBody {
			return taskBody{id: str(id), topic: str("u"), producer: str("bp"), payload: num(int32(i))}
		}
		return shape{
			func(w *world) Req {
				js := []string{}
				for i, id := range ids {
					js = append(js, mk(i, id).js())
				}
				return Req{Method: m, Target: target, Body: body(`{"data":[` + strings.Join(js, ",") + `]}`)}
			},
			func(w *world) *model.Call {
				var ts []*ratus.Task
				for i, id := range ids {
					ts = append(ts, w.task(mk(i, id), "", ""))
				}
				return &model.Call{Op: Op{K: k}, Tasks: ts}
			},
		}
	}
	for _, m := range []string{"POST", "PUT"} {
		sh = append(sh, batch(m, "/v1/topics//tasks", "a", "b"), batch(m, "/topics/other/tasks", "a", "x"), batch(m, "/topics/u/tasks", "x", "y", "x"))
	}
	for _, r := range []Req{{Method: "POST", Target: "/topics/%ff/promises?consumer=%ff"}, {Method: "PUT", Target: "/topics/%ff/tasks/x", Body: body(`{}`)}, {Method: "POST", Target: "/topics//tasks/x", Body: body(`{}`)}, {Method: "GET", Target: "/topics/t/tasks?limit=-1"}} {
		sh = append(sh, fixed(r, nil))
	}
	return sh
}

func c23(c *core.Ctx, times bool) {
	names := counters
	if times {
		names = gauges
	}
	sh := metricShapes()
	inits := [][]TS{{}, {pend("a", "t", -sec), variant("b", "u", 1)}, {variant("a", "u", 2), pend("b", "t", -sec), pend("z", "t", -hour)}}
	run := func(init []TS, sq []shape) {
		one(c, []string{"a", "b", "x", "y", "z"}, init, func(w *world) string {
			before, s := w.scrape(names)
			if s != "" {
				return s
			}
			want := map[string]float64{hist("GET", "/metrics", 200): 1}
			var set map[string]float64
			if times {
				set = before
			}
			for i, x := range sq {
				if s := w.counted(x, want, set); s != "" {
					return s
				}
				w.state("k")
				time.Sleep(time.Second)
				if times {
					time.Sleep(time.Duration(i+1) * 12345678 * time.Microsecond)
				}
			}
			if s := w.same(); s != "" {
				return s
			}
			after, s := w.scrape(names)
			if s != "" {
				return s
			}
			var diff []string
			if times {
				for k, v := range after {
					if x, ok := set[k]; !ok || math.Abs(x-v) > 1e-6 {
						diff = append(diff, fmt.Sprintf("%s is %v, expected %v", k, v, set[k]))
					}
				}
				for k, v := range set {
					if _, ok := after[k]; !ok {
						diff = append(diff, fmt.Sprintf("%s is absent, expected %v", k, v))
					}
				}
				after, want = nil, nil
			}
			for k, v := range after {
				if d := v - before[k] - want[k]; d != 0 {
					diff = append(diff, fmt.Sprintf("%s grew by %v, expected %v", k, v-before[k], want[k]))
				}
				delete(want, k)
			}
			for k, v := range want {
				if v != 0 {
					diff = append(diff, fmt.Sprintf("%s is absent, expected %v", k, v))
				}
			}
			if len(diff) > 0 {
				sort.Strings(diff)
				return fmt.Sprintf("after %v: %s", w.trace, strings.Join(diff, "; "))
			}
			return w.same()
		})
	}
	if times {
		// Reading changes nothing; the other checks look at that.
		sh = slices.DeleteFunc(sh, func(x shape) bool {
			w := &world{base: time.Unix(1700000000, 0)}
			return x.call == nil || x.r(w).Method == "GET" || strings.HasSuffix(x.r(w).Target, "topics")
		})
		inits = inits[2:]
		// Claims and commits under way, of different ages and labels.
		old := func(id, topic string, state int32, sched, cons Off, consumer string) TS {
			t := variant(id, topic, state)
			t.Sched, t.Cons, t.Consumer, t.Producer = p(sched), p(cons), consumer, "p"+id
			return t
		}
		inits = append(inits, []TS{old("a", "t", 1, -3*hour, -hour-sec, "c1"), old("b", "t", 0, -2*hour-7*ms, -hour, "c0")},
			[]TS{old("a", "u", 1, -26*hour, -25*hour, "c0"), old("b", "u", 2, -2*sec, -sec, "c1"), old("x", "t", 3, 0, 0, "c0")})
	}
	depth := 2
	if c.Thorough() {
		depth = 3
	}
	for d := 1; d <= depth; d++ {
		dims := []int{len(inits)}
		for i := 0; i < d; i++ {
			dims = append(dims, len(sh))
		}
		product(dims, func(ix []int) bool {
			if c.Take() {
				var sq []shape
				for _, k := range ix[1:] {
					sq = append(sq, sh[k])
				}
				run(inits[ix[0]], sq)
			}
			return !c.Stopped()
		})
	}
}

// nothing is an answer of an engine that says little.
func nothing(op string) any {
	switch op {
	case "poll", "commit", "getTask", "insertPromise", "upsertPromise":
		return &ratus.Task{}
	case "getTopic":
		return &ratus.Topic{}
	case "getPromise":
		return &ratus.Promise{}
	case "insertTask", "upsertTask", "insertTasks", "upsertTasks":
		return &ratus.Updated{}
	case "deleteTopics", "deleteTopic", "deleteTasks", "deleteTask", "deletePromises", "deletePromise":
		return &ratus.Deleted{}
	}
	return nil
}

// c26requests: every route with every duration of the engine's work, alone and
// twice.
func c26requests(c *core.Ctx) {
	raws := rawOf()
	times := []time.Duration{0, 5 * time.Millisecond, 10*time.Millisecond - 1, 10 * time.Millisecond, 10*time.Millisecond + 1, 99 * time.Millisecond, 100 * time.Millisecond, 499 * time.Millisecond, 500 * time.Millisecond, 999 * time.Millisecond, time.Second, time.Second + 1, 2 * time.Second, 4 * time.Second, 5 * time.Second, 5*time.Second + 1, 30 * time.Second, 2 * time.Hour}
	const name = "ratus_request_duration_seconds"
	for _, k := range keys(raws) {
		for _, pre := range []string{"", "/v1"} {
			product([]int{len(times), 4, 4}, func(ix []int) bool {
				if !c.Take() {
					return !c.Stopped()
				}
				one(c, nil, nil, func(w *world) string {
					r := raws[k]
					r.Target = pre + r.Target
					took := []time.Duration{times[ix[0]], times[[]int{0, 3, 9, 17}[ix[1]]]}
					n := 0
					target.Engine = &hook{func(ctx context.Context, op, name string, arg any) (any, error) {
						time.Sleep(took[n])
						n++
						if ix[2]>>(n-1)&1 == 1 {
							return nil, ratus.ErrNotFound
						}
						return nothing(op), nil
					}}
					before, s := w.scrape([]string{name})
					if s != "" {
						return s
					}
					status := []int{}
					for range took {
						resp, s := do(w.h, r)
						w.trace = append(w.trace, r.String())
						if s != "" {
							return s
						}
						status = append(status, resp.Status)
					}
					w.trace = append(w.trace, fmt.Sprint("taking ", took))
					after, s := w.scrape([]string{name})
					if s != "" {
						return s
					}
					rt, tp := route(r.Target)
					for _, st := range []int{200, 201, 404} {
						label := fmt.Sprintf("endpoint=%q,method=%q,status_code=\"%d\",topic=%q", rt, r.Method, st, tp)
						var v []time.Duration
						for i, d := range took {
							if status[i] == st {
								v = append(v, d)
							}
						}
						sum := 0.0
						for _, d := range v {
							sum += d.Seconds()
						}
						grew := func(k string) float64 { return after[k] - before[k] }
						if g := grew(name + "_sum{" + label + "}"); math.Abs(g-sum) > 1e-6 {
							return fmt.Sprintf("%s_sum of %s grew by %v, expected %v", name, label, g, sum)
						}
						if g := grew(name + "_count{" + label + "}"); g != float64(len(v)) {
							return fmt.Sprintf("%s_count of %s grew by %v, expected %v", name, label, g, len(v))
						}
						for b := range after {
							le, ok := strings.CutPrefix(b, name+"_bucket{"+label+",le=\"")
							if !ok {
								continue
							}
							x, err := strconv.ParseFloat(strings.TrimSuffix(le, "\"}"), 64)
							if err != nil {
								return b
							}
							n := 0
							for _, d := range v {
								if d.Seconds() <= x {
									n++
								}
							}
							if g := grew(b); g != float64(n) {
								return fmt.Sprintf("%s grew by %v, expected %v", b, g, n)
							}
						}
					}
					c.Count("transitions", 2)
					c.Distinct("states", fmt.Sprint(k, pre, took, ix[2]))
					return ""
				})
				return !c.Stopped()
			})
		}
	}
}
