package mon

import (
	"fmt"
	"strings"

	"github.com/hyperonym/ratus/internal/zverif/core"
)

func init() {
	parts["C19/sizes"] = c19sizes
	parts["C19/cycles"] = c19cycles
}

// ramp lists all small numbers, and those around the limits programs tend to
// have.
func ramp(c *core.Ctx, top, most int) []int {
	if c.Thorough() {
		top, most = top*4, most*4
	}
	var v []int
	for i := 1; i <= top; i++ {
		v = append(v, i)
	}
	for _, l := range []int{50, 64, 100, 101, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000} {
		if l > most {
			break
		}
		for _, n := range []int{l - 1, l, l + 1} {
			if n > v[len(v)-1] {
				v = append(v, n)
			}
		}
	}
	return v
}

// c19sizes: operations that concern many tasks, and long strings and large
// payloads; cursors have batches of the size they have by default.
func c19sizes(c *core.Ctx) {
	in(c.T, func(s *site) {
		s.srv.Batch = 101
		defer func() { s.srv.Batch = 0 }()
		name := func(i int) string { return fmt.Sprintf("t%05d", i) }
		many := func(n int, f func(i int) TS) []TS {
			v := make([]TS, n)
			for i := range v {
				v[i] = f(i)
			}
			return v
		}
		spread := func(i, n int) Off { return Off((i*7919)%n) * ms }
		due := func(n int, topics ...string) []TS {
			return many(n, func(i int) TS { return pend(name(i), topics[i%len(topics)], -hour+spread(i, n)) })
		}
		held := func(n int, dead func(i int) Off) []TS {
			return many(n, func(i int) TS {
				t := pend(name(i), []string{"a", "b"}[i%2], -hour+spread(i, n))
				t.State, t.Consumer, t.Nonce, t.Cons, t.Dead = 1, "c0", fmt.Sprintf("nonce%011d", i), p(-2*sec), p(dead(i))
				return t
			})
		}
		poll := Op{K: "poll", Topic: "a", Consumer: "c1", DeadIn: p(2 * sec)}
		type plan struct {
			init []TS
			ops  []Op
			tops []string
		}
		batch := func(k string, v []TS) Op { return Op{K: k, Ts: v} }
		plans := []func(n int) plan{
			func(n int) plan {
				return plan{nil, []Op{batch("insertTasks", due(n, "a", "b")), {K: "listTasks", Topic: "a", Limit: n}, {K: "listTasks", Topic: "b", Limit: n/2 + 1, Offset: n / 4}, batch("insertTasks", due(n, "b")), {K: "deleteTasks", Topic: "a"}}, nil}
			},
			func(n int) plan {
				return plan{due(n, "a")[:n/2], []Op{batch("upsertTasks", due(n, "b", "c", "a")), batch("upsertTasks", due(n, "a")), {K: "deleteTopic", Topic: "a"}}, nil}
			},
			func(n int) plan {
				v := many(n, func(i int) TS { return pend(name(i), name(n-i), -sec) })
				return plan{v, []Op{{K: "listTopics", Limit: n}, {K: "listTopics", Limit: n/2 + 1, Offset: n / 3}, {K: "listTopics", Limit: 3, Offset: n - 1}, {K: "listTopics", Limit: 3, Offset: n}, {K: "deleteTopic", Topic: name(n/2 + 1)}, {K: "deleteTopics"}}, nil}
			},
			func(n int) plan {
				return plan{held(n, func(i int) Off {
					if i%3 == 0 {
						return hour
					}
					return -sec - spread(i, n)
				}), []Op{{K: "listPromises", Topic: "a", Limit: n}, {K: "chore"}, {K: "chore"}, {K: "listPromises", Topic: "b", Limit: n}, {K: "deletePromises", Topic: "a"}}, nil}
			},
			func(n int) plan {
				return plan{held(n, func(i int) Off { return -spread(i, n) - sec }), []Op{{K: "chore"}, poll, poll, {K: "getTopic", Topic: "a"}, {K: "deletePromises", Topic: "b"}}, nil}
			},
			func(n int) plan {
				// Much of what is there is not due, or of another topic.
				v := many(n, func(i int) TS {
					t := pend(name(i), []string{"a", "ab", "A", "a"}[i%4], -hour+spread(i, n))
					switch i % 4 {
					case 0:
						t.Sched = p(hour + spread(i, n))
					case 3:
						t.State = 2 + int32(i/4%2)
					}
					return t
				})
				return plan{append(v, pend("x", "a", -sec), pend("y", "a", -2*sec)), []Op{poll, poll, poll}, nil}
			},
			func(n int) plan {
				if n > 70 {
					return plan{}
				}
				pl := plan{init: due(n, "a")}
				for i := 0; i <= n; i++ {
					pl.ops = append(pl.ops, poll)
				}
				pl.ops = append(pl.ops, Op{K: "advance", D: 3 * sec}, Op{K: "chore"}, poll)
				return pl
			},
			func(n int) plan {
				long := func(c string) string { return strings.Repeat(c, n) }
				t, u, w, x, y := pend(long("i"), "a", -sec), active("u", "a", p(hour)), pend("w", "a", -2*sec), pend("x", "a", -3*sec), pend("y", long("t"), -sec)
				u.Consumer, u.Producer, u.Nonce = long("c"), long("p"), long("n")
				w.Payload = long("é")
				var l []any
				m := map[string]any{}
				var deep any = 1.0
				for i := 0; i < n; i++ {
					l = append(l, float64(i))
					m[name(i)] = "v"
					if i < 90 {
						deep = []any{deep}
					}
				}
				x.Payload, y.Payload = l, m
				return plan{[]TS{t, u, w, x, y}, []Op{poll, poll, {K: "commit", ID: "x", N: "cur", Payload: deep}, {K: "insertPromise", ID: long("i"), Consumer: long("d")}, {K: "commit", ID: long("i"), N: "cur", State: st(0), NewTopic: long("t"), Payload: l}, {K: "poll", Topic: long("t"), Consumer: long("c")},
					{K: "commit", ID: "u", N: "cur"}, {K: "deletePromise", ID: long("i")}, {K: "deleteTask", ID: long("i") + "i"}, {K: "getTask", ID: long("i")[1:] + "j"}, {K: "upsertPromise", ID: "w", Consumer: long("c")}, {K: "deletePromises", Topic: long("t")}, {K: "deleteTopic", Topic: long("t")}},
					[]string{"a", long("t"), long("t") + "t"}}
			},
		}
		most := 1024
		for _, md := range modes {
			for _, n := range ramp(c, 40, most) {
				for pi, f := range plans {
					if n > 130 && md.plain() && !c.Thorough() {
						continue
					}
					if c.Take() {
						if pl := f(n); pl.ops != nil {
							sizeCase(c, s, md, n, pi, pl.init, pl.ops, pl.tops)
						}
					}
					if c.Stopped() {
						return
					}
				}
			}
		}
	})
}

func sizeCase(c *core.Ctx, s *site, md mode, n, pi int, init []TS, ops []Op, tops []string) {
	if tops == nil {
		tops = []string{"a", "b", "c"}
	}
	var ids []string
	seen := map[string]bool{}
	add := func(v []TS) {
		for _, t := range v {
			if !seen[t.ID] {
				seen[t.ID] = true
				ids = append(ids, t.ID)
			}
		}
	}
	add(init)
	for _, o := range ops {
		add(o.Ts)
	}
	cut := func(s string) string {
		if len(s) > 300 {
			s = s[:200] + "..." + s[len(s)-90:]
		}
		return s
	}
	det := func() any {
		v := []string{}
		for _, o := range ops {
			v = append(v, cut(o.String()))
		}
		return map[string]any{"mode": md.name, "tasks": n, "plan": pi, "ops": v}
	}
	bad := func(s string) {
		if len(s) > 800 {
			s = s[:800] + "..."
		}
		c.Violation("conformance", fmt.Sprintf("%s, with %d: %s", md.name, n, s), det())
	}
	c.Guard(det, func() {
		r, err := newRun(c, s, md, ids, tops)
		if err != nil {
			bad(err.Error())
			return
		}
		r.lazy = n > 40
		if len(init) > 0 {
			if s := r.step(Op{K: "upsertTasks", Ts: init}); s != "" {
				bad(s)
				return
			}
		}
		ops := ops
		for _, t := range tops {
			ops = append(ops, Op{K: "listTasks", Topic: t, Limit: 2*n + 9}, Op{K: "listPromises", Topic: t, Limit: 2*n + 9}, Op{K: "getTopic", Topic: t})
		}
		ops = append(ops, Op{K: "listTopics", Limit: n + 9}, Op{K: "advance", D: 2 * hour}, Op{K: "chore"}, Op{K: "poll", Topic: "a", Consumer: "audit", DeadIn: p(sec)})
		for i := 0; i < len(ids); i += len(ids)/7 + 1 {
			ops = append(ops, Op{K: "getTask", ID: ids[i]}, Op{K: "getPromise", ID: ids[i]})
		}
		for _, op := range ops {
			if s := r.step(op); s != "" {
				bad(s)
				return
			}
		}
		c.Distinct("states", fmt.Sprint(md.name, n, pi))
		c.Count("histories", 1)
		c.Sample(func() string { return fmt.Sprint(det()) })
	})
}

// c19cycles repeats every short word of operations many times.
func c19cycles(c *core.Ctx) {
	in(c.T, func(s *site) {
		turns, words := 70, 2
		if c.Thorough() {
			turns, words = 300, 3
		}
		init := []TS{pend("1", "a", -sec), pend("2", "a", -2*sec)}
		for _, md := range modes {
			for l := 1; l <= words; l++ {
				each(c, alphabet(), l, func(w []Op) {
					var ops []Op
					for i := 0; i < turns; i++ {
						ops = append(ops, w...)
					}
					history(c, s, md, []string{"1", "2"}, []string{"a", "b"}, init, ops, true)
				})
				if c.Stopped() {
					return
				}
			}
		}
	})
}
