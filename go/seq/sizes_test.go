package seq

import (
	"fmt"
	"strings"
	"time"

	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
)

// counts lists how many tasks the databases of the sizes part have: all small
// numbers, and those around the limits programs tend to have.
func counts(c *core.Ctx) []int {
	top := 130
	limits := []int{200, 250, 256, 500, 512, 1000, 1024, 2000, 2048}
	if c.Thorough() {
		top, limits = 600, append(limits, 4096, 5000, 8192, 10000)
	}
	var v []int
	for i := 1; i <= top; i++ {
		v = append(v, i)
	}
	for _, l := range limits {
		if l > top+1 {
			v = append(v, l-1, l, l+1)
		}
	}
	return v
}

func many(n int, f func(i int) TS) []TS {
	v := make([]TS, n)
	for i := range v {
		v[i] = f(i)
	}
	return v
}

func name(i int) string { return fmt.Sprintf("t%05d", i) }

func idsOf(v ...[]TS) []string {
	var ids []string
	seen := map[string]bool{}
	for _, x := range v {
		for _, t := range x {
			if !seen[t.ID] {
				seen[t.ID] = true
				ids = append(ids, t.ID)
			}
		}
	}
	return ids
}

// plan is one case of the sizes part.
type plan struct {
	snap  bool
	topic []string
	init  []TS
	other []TS
	ops   []Op
}

// sizes performs operations that concern many tasks, for every number of
// tasks.
func sizes(c *core.Ctx) {
	near := func(id string) TS { return pend(id, "b", -sec) }
	var plans []func(n int) plan
	add := func(f func(n int) plan) { plans = append(plans, f) }
	one := func(ops ...Op) []Op { return ops }
	// spread scatters 0..n-1 so that the order of IDs, of insertion and of time
	// all differ.
	spread := func(i, n int) Off { return Off((i*7919)%n) * ms }
	poll := Op{K: "poll", Topic: "a", Consumer: "c1", DeadIn: p(2 * sec)}
	batch := func(k string, v []TS) Op { return Op{K: k, Ts: v} }
	due := func(n int) []TS {
		return many(n, func(i int) TS { return pend(name(i), "a", -hour+spread(i, n)) })
	}
	held := func(n int, dead func(i int) Off) []TS {
		return many(n, func(i int) TS {
			t := active(name(i), "a", p(dead(i)))
			t.Nonce = fmt.Sprintf("nonce%011d", i)
			return t
		})
	}
	done := func(n int, cons func(i int) Off) []TS {
		return many(n, func(i int) TS {
			t := pend(name(i), []string{"a", "c"}[i%2], 0)
			t.State, t.Consumer, t.Cons = 2, "c0", p(cons(i))
			return t
		})
	}
	switch c.Prop {
	case "C01", "C02", "C03":
		// n due tasks are handed out one by one, until there are none left.
		add(func(n int) plan {
			pl := plan{init: due(n)}
			for i := 0; i <= n; i++ {
				pl.ops = append(pl.ops, poll)
			}
			return pl
		})
		// A task in front of which n are not due, or n of another topic are.
		add(func(n int) plan {
			v := many(n, func(i int) TS {
				t := pend(name(i), []string{"a", "ab", "A"}[i%3], -hour+spread(i, n))
				if i%3 == 0 {
					t.Sched = p(hour + spread(i, n))
				}
				return t
			})
			return plan{init: append(v, pend("x", "a", -sec), pend("y", "a", -2*sec)), ops: one(poll, poll, poll)}
		})
		add(func(n int) plan {
			v := many(n, func(i int) TS {
				t := pend(name(i), "a", -hour+spread(i, n))
				t.State = int32(1 + i%3)
				if t.State == 1 {
					t.Nonce, t.Consumer, t.Dead = "0123456789abcdef", "c0", p(hour)
				}
				return t
			})
			return plan{init: append(v, pend("x", "a", -sec), pend("y", "a", -2*sec)), ops: one(poll, poll, poll)}
		})
	case "C04":
		add(func(n int) plan {
			return plan{init: held(n, func(i int) Off { return -sec - spread(i, n) }), other: []TS{near("z")}, ops: one(Op{K: "chore"})}
		})
		add(func(n int) plan {
			return plan{init: held(n, func(i int) Off {
				if i%3 == 0 {
					return hour
				}
				return -sec - spread(i, n)
			}), ops: one(Op{K: "chore"}, Op{K: "chore"}, Op{K: "deletePromises", Topic: "a"})}
		})
		add(func(n int) plan {
			pl := plan{init: due(n)}
			for i := 0; i < n; i++ {
				pl.ops = append(pl.ops, poll)
			}
			pl.ops = append(pl.ops, Op{K: "advance", D: 3 * sec}, Op{K: "chore"}, poll)
			return pl
		})
	case "C05":
		add(func(n int) plan {
			return plan{init: done(n, func(i int) Off { return -2*hour - spread(i, n) }), other: []TS{near("z")}, ops: one(Op{K: "chore"})}
		})
		add(func(n int) plan {
			return plan{init: done(n, func(i int) Off {
				if i%3 == 0 {
					return -sec
				}
				return -2*hour - spread(i, n)
			}), ops: one(Op{K: "chore"}, Op{K: "advance", D: hour}, Op{K: "chore"})}
		})
		add(func(n int) plan {
			v := held(n, func(i int) Off { return -sec })
			return plan{init: append(v, done(2*n, func(i int) Off { return -2 * hour })[n:]...), ops: one(Op{K: "chore"})}
		})
	case "C06":
		add(func(n int) plan { return plan{other: due(n), ops: one(batch("insertTasks", due(n)))} })
		add(func(n int) plan {
			return plan{init: due(n)[:n/2], other: due(n), ops: one(batch("insertTasks", due(n)), Op{K: "deleteTasks", Topic: "a"})}
		})
		add(func(n int) plan {
			v := many(n, func(i int) TS { return pend(name(i), []string{"a", "b"}[i%2], -sec) })
			return plan{init: due(n)[n/2:], other: v, ops: one(batch("upsertTasks", v), Op{K: "deleteTopic", Topic: "b"}, Op{K: "deleteTopics"})}
		})
		add(func(n int) plan {
			return plan{init: append(held(n, func(i int) Off { return hour + Off(i) }), near("z")), ops: one(Op{K: "deletePromises", Topic: "a"}, Op{K: "deletePromises", Topic: "a"}, Op{K: "deleteTasks", Topic: "a"})}
		})
		add(func(n int) plan {
			v := many(n, func(i int) TS { return pend(name(i), name(i), -sec) })
			return plan{init: append(v, near("z")), ops: one(Op{K: "deleteTopics"}, batch("insertTasks", v), Op{K: "deleteTopic", Topic: name(n / 2)})}
		})
	case "C08":
		add(func(n int) plan {
			v := append(due(n), near("z"))
			v = append(v, many(n/3, func(i int) TS {
				t := active(name(n+i), "a", p(hour-spread(i, n)))
				t.Nonce = fmt.Sprintf("nonce%011d", i)
				return t
			})...)
			pl := plan{init: v}
			for _, l := range []int{1, 3, 10, n - 1, n, n + 1, 2 * n} {
				for _, o := range []int{0, 1, n / 2, n - 1, n, n + 1, n + n/3} {
					if l > 0 && o >= 0 {
						pl.ops = append(pl.ops, Op{K: "listTasks", Topic: "a", Limit: l, Offset: o}, Op{K: "listPromises", Topic: "a", Limit: l, Offset: o})
					}
				}
			}
			pl.ops = append(pl.ops, Op{K: "getTopic", Topic: "a"}, Op{K: "getTopic", Topic: "b"})
			return pl
		})
		add(func(n int) plan {
			v := many(n, func(i int) TS { return pend(name(i), name(n-i), -sec) })
			pl := plan{init: append(v, near("z"))}
			for _, l := range []int{1, 3, 10, n - 1, n, n + 1, 2 * n} {
				for _, o := range []int{0, 1, n / 2, n - 1, n, n + 1} {
					if l > 0 && o >= 0 {
						pl.ops = append(pl.ops, Op{K: "listTopics", Limit: l, Offset: o})
					}
				}
			}
			return pl
		})
	case "C09":
		add(func(n int) plan {
			v := many(n, func(i int) TS {
				t := pend(name(i), name(i%7), -hour+spread(i, n))
				t.State = int32(i % 4)
				if t.State == 1 {
					t.Nonce, t.Consumer, t.Dead = fmt.Sprintf("nonce%011d", i), "c0", p(hour)
				}
				t.Payload = map[string]any{"i": float64(i), "s": strings.Repeat("x", i%97)}
				return t
			})
			return plan{snap: true, init: v, ops: one(Op{K: "reopen"}, Op{K: "chore"}, Op{K: "reopen"})}
		})
		// One long string in each place.
		add(func(n int) plan {
			long := func(c string) string { return strings.Repeat(c, n) }
			t := pend(long("i"), "a", -sec)
			u := active("u", "a", p(hour))
			u.Consumer, u.Producer = long("c"), long("p")
			w := pend("w", "a", -sec)
			w.Payload = long("é")
			x := pend("x", "a", -sec)
			x.Payload = many(n, func(i int) TS { return TS{} })
			y := make([]any, n)
			m := map[string]any{}
			for i := range y {
				y[i] = float64(i)
				m[name(i)] = float64(i)
			}
			x.Payload = y
			z := pend("z", long("t"), -sec)
			z.Payload = m
			return plan{snap: true, init: []TS{t, u, w, x, z}, topic: []string{"a", long("t")}, ops: one(Op{K: "reopen"}, Op{K: "chore"}, Op{K: "reopen"})}
		})
	}
	for _, n := range counts(c) {
		for _, f := range plans {
			if c.Take() {
				sizeCase(c, n, f(n))
			}
			if c.Stopped() {
				return
			}
		}
	}
}

func sizeCase(c *core.Ctx, n int, pl plan) {
	tops := pl.topic
	if tops == nil {
		tops = []string{"a", "b"}
	}
	ids := idsOf(pl.init, pl.other)
	brief := func() any {
		s := fmt.Sprintf("%d tasks", n)
		for i, o := range pl.ops {
			if i > 5 {
				return s + fmt.Sprintf("; ... (%d operations)", len(pl.ops))
			}
			x := o.String()
			if len(x) > 120 {
				x = x[:120] + "..."
			}
			s += "; " + x
		}
		return s
	}
	bubble(c, func() {
		c.Guard(brief, func() {
			bad := func(s string) {
				if len(s) > 600 {
					s = s[:600] + "..."
				}
				c.Violation("conformance", fmt.Sprintf("with %d tasks: %s", n, s), brief())
			}
			r, s := newRun(c, time.Hour, pl.snap, ids, tops)
			if s != "" {
				bad(s)
				return
			}
			if len(pl.init) > 0 {
				for lo := 0; lo < len(pl.init); lo += 64 {
					if s := r.step(Op{K: "upsertTasks", Ts: pl.init[lo:min(lo+64, len(pl.init))]}, false); s != "" {
						bad(s)
						return
					}
				}
			}
			long := len(pl.ops) > 16
			for _, op := range pl.ops {
				if s := r.step(op, !long); s != "" {
					bad(s)
					return
				}
				c.Count("transitions", 1)
			}
			c.Distinct("states", canon(r))
			limit := 2*len(ids) + 5
			ops := []Op{{K: "listTopics", Limit: limit}}
			for _, t := range tops {
				ops = append(ops, Op{K: "listTasks", Topic: t, Limit: limit}, Op{K: "listPromises", Topic: t, Limit: limit}, Op{K: "getTopic", Topic: t})
			}
			for i, op := range ops {
				if s := r.step(op, long && i == 0); s != "" {
					bad(s)
					return
				}
			}
			// Everything that is due is still handed out.
			if n <= 130 || c.Prop == "C04" {
				for i := 0; i <= len(ids); i++ {
					k := len(r.m.Issued)
					if s := r.step(Op{K: "poll", Topic: "a", Consumer: "audit", DeadIn: p(sec)}, false); s != "" {
						bad(s)
						return
					}
					if len(r.m.Issued) == k {
						break
					}
				}
			}
			c.Count("histories", 1)
			c.Count("steps", r.steps)
			c.Sample(func() string { return fmt.Sprint(brief()) })
		})
	})
}

// cycles repeats every short word of operations many times: what depends on
// how often something happened shows only in long histories.
func cycles(c *core.Ctx) {
	ids, tops := []string{"1", "2"}, []string{"a", "b"}
	poll := Op{K: "poll", Topic: "a", Consumer: "c1", DeadIn: p(2 * sec)}
	alpha := []Op{
		poll,
		{K: "chore"},
		{K: "advance", D: 3 * sec},
		{K: "commit", ID: "1", N: "cur", State: st(0)},
		{K: "insertPromise", ID: "1", Consumer: "c2", DeadIn: p(2 * sec)},
		{K: "upsertPromise", ID: "1", Consumer: "c3", DeadIn: p(4 * sec)},
		{K: "deletePromise", ID: "1"},
		upsert(pend("1", "a", 0)),
		{K: "commit", ID: "1", N: "old", State: st(2)},
		{K: "deleteTask", ID: "1"},
		insert("1", "a", 0),
		{K: "commit", ID: "1", State: st(0), NewTopic: "b"},
		{K: "commit", ID: "1", State: st(0), NewTopic: "a"},
		{K: "deletePromises", Topic: "a"},
		{K: "advance", D: hour},
	}
	snap := c.Prop == "C09"
	words, turns := 3, 150
	if c.Thorough() {
		turns = 300
	}
	if snap {
		alpha = append([]Op{{K: "reopen"}}, alpha[:9]...)
		words = 2
		if c.Thorough() {
			words = 3
		}
	}
	init := []TS{pend("1", "a", -sec), pend("2", "a", -2*sec)}
	for l := 1; l <= words; l++ {
		all(c, alpha, l, func(w []Op) {
			var ops []Op
			for i := 0; i < turns; i++ {
				ops = append(ops, w...)
			}
			history(c, 24*time.Hour, snap, ids, tops, init, ops, true)
		})
		if c.Stopped() {
			return
		}
	}
}

var _ = model.Ms
