package conc

import (
	"fmt"

	"github.com/hyperonym/ratus/internal/zverif/core"
)

// large explores operations that concern many tasks at once against an
// operation of another client: whatever the number of tasks, they take effect
// at one point in time.
func large(c *core.Ctx) {
	name := func(i int) string { return fmt.Sprintf("t%05d", i) }
	many := func(n int, f func(i int) TS) (v []TS) {
		for i := 0; i < n; i++ {
			v = append(v, f(i))
		}
		return v
	}
	sizes := []int{5, 17, 33, 65, 101, 129, 257, 501, 1025}
	if c.Thorough() {
		sizes = append(sizes, 2049, 4097, 10001)
	}
	if c.Prop == "C11" {
		sizes = []int{33, 129, 257}
		if c.Thorough() {
			sizes = append(sizes, 513, 1025)
		}
	}
	for _, n := range sizes {
		w := &world{c: c, tops: []string{"a", "b"}}
		for i := 0; i < n; i++ {
			w.ids = append(w.ids, name(i))
		}
		fresh := many(n, func(i int) TS { return pend(name(i), "a", -hour+Off(i*7919%n)*ms) })
		moved := many(n, func(i int) TS { return pend(name(i), "b", -hour) })
		claimed := many(n, func(i int) TS {
			t := active(name(i), "a", p(-sec))
			t.Nonce = fmt.Sprintf("nonce%011d", i)
			return t
		})
		done := many(n, func(i int) TS { return completed(name(i), "a", -2*hour) })
		mid, end := name(n/2), name(n-1)
		reads := []Op{
			{K: "getTopic", Topic: "a"}, {K: "listTasks", Topic: "a", Limit: 2 * n}, {K: "listPromises", Topic: "a", Limit: 2 * n},
			{K: "listTopics", Limit: 9}, {K: "getTask", ID: end}, poll("a", "x"), {K: "deleteTask", ID: end}, claim(mid, "x"), upsert(pend(end, "b", -sec)),
		}
		cases := []struct {
			init []TS
			op   Op
			snap bool
		}{
			{nil, Op{K: "insertTasks", Ts: fresh}, false},
			{fresh[n/2:], Op{K: "insertTasks", Ts: fresh}, false},
			{fresh, Op{K: "upsertTasks", Ts: moved}, false},
			{fresh, Op{K: "deleteTasks", Topic: "a"}, false},
			{fresh, Op{K: "deleteTopics"}, false},
			{claimed, Op{K: "deletePromises", Topic: "a"}, false},
			{claimed, chore, false},
			{done, chore, false},
			{fresh, Op{K: "listTasks", Topic: "a", Limit: 2 * n}, false},
		}
		if c.Prop == "C11" {
			cases = cases[:0]
			cases = append(cases, struct {
				init []TS
				op   Op
				snap bool
			}{fresh, chore, true})
			reads = []Op{
				{K: "deleteTasks", Topic: "a"}, {K: "upsertTasks", Ts: moved}, {K: "upsertTasks", Ts: []TS{pend(name(0), "b", -sec), pend(end, "b", -sec)}},
				upsert(pend(end, "b", -sec)), {K: "deleteTask", ID: end},
			}
		}
		for _, x := range cases {
			for _, r := range reads {
				if c.Take() {
					w.run(Scenario{Name: fmt.Sprintf("%d tasks", n), Init: x.init, Clients: [][]Op{{x.op}, {r}}, Bound: 1, Snap: x.snap})
				}
				if c.Stopped() {
					return
				}
			}
		}
	}
}
