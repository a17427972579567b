package seq

import (
	"fmt"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
)

const (
	zero  = model.OffZero
	pre   = model.OffPreEpoch
	epoch = model.OffEpoch
	far   = model.OffFar
)

func offs(v ...Off) []*Off {
	r := make([]*Off, len(v))
	for i := range v {
		o := v[i]
		r[i] = &o
	}
	return r
}

var parts = map[string]func(*core.Ctx){
	"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C08": c08, "C09": c09,
}

func pend(id, topic string, sched Off) TS {
	return TS{ID: id, Topic: topic, Sched: p(sched), Prod: p(-hour), Producer: "prod", Payload: "p" + id}
}

func insert(id, topic string, sched Off) Op {
	return Op{K: "insertTask", Ts: []TS{pend(id, topic, sched)}}
}

func upsert(t TS) Op { return Op{K: "upsertTask", Ts: []TS{t}} }

func active(id, topic string, dead *Off) TS {
	t := pend(id, topic, -sec)
	t.State, t.Nonce, t.Consumer, t.Cons, t.Dead = 1, "0123456789abcde"+id[:1], "c0", p(-sec), dead
	return t
}

// variants gives the per-ID domain: absent, and every combination of state and
// the given fields.
func variants(id string, topics []string, states []int32, sched, dead, cons []*Off) []*TS {
	v := []*TS{nil}
	for _, tp := range topics {
		for _, s := range states {
			for _, sc := range sched {
				for _, d := range dead {
					for _, co := range cons {
						t := pend(id, tp, 0)
						t.State, t.Sched, t.Dead, t.Cons = s, sc, d, co
						if s == 1 {
							t.Nonce, t.Consumer = "0123456789abcde"+id[:1], "c0"
						} else if co != nil {
							t.Consumer = "c0"
						}
						v = append(v, &t)
					}
				}
			}
		}
	}
	return v
}

func dbs(c *core.Ctx, ret time.Duration, ids, tops []string, doms [][]*TS, ops [][]Op, drain bool) {
	databases(doms, func(init []TS) bool {
		for _, o := range ops {
			if c.Take() {
				c.Distinct("databases", fmt.Sprintf("%v%+v", ret, js(init)))
				history(c, ret, false, ids, tops, init, o, drain)
			}
			if c.Stopped() {
				return false
			}
		}
		return true
	})
}

func js(v []TS) string {
	s := ""
	for _, t := range v {
		s += t.ID + t.Topic + fmt.Sprint(t.State) + o2s(t.Sched) + o2s(t.Dead) + o2s(t.Cons) + t.Nonce + ";"
	}
	return s
}

func o2s(o *Off) string {
	if o == nil {
		return "-"
	}
	return fmt.Sprint(int64(*o)) + ","
}

// snapshots runs all histories on an engine that writes snapshots now and then.
func snapshots(c *core.Ctx, alpha []Op, depth int, ret time.Duration, ids, tops []string, init []TS) {
	all(c, append([]Op{{K: "advance", D: 6 * 60 * sec}}, alpha...), depth, func(ops []Op) { history(c, ret, true, ids, tops, init, ops, true) })
}

func single(ops []Op) [][]Op {
	var v [][]Op
	for _, o := range ops {
		v = append(v, []Op{o})
	}
	return v
}

func pairs(a, b []Op) [][]Op {
	var v [][]Op
	for _, x := range a {
		for _, y := range b {
			v = append(v, []Op{x, y})
		}
	}
	return v
}

func depth(c *core.Ctx, quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

func claimOps(ids, tops []string) []Op {
	var v []Op
	for _, t := range tops {
		v = append(v, Op{K: "poll", Topic: t, Consumer: "c1", DeadIn: p(2 * sec)})
	}
	for _, id := range ids {
		v = append(v,
			Op{K: "insertPromise", ID: id, Consumer: "c2", DeadIn: p(2 * sec)},
			Op{K: "upsertPromise", ID: id, Consumer: "c3", DeadIn: p(5 * sec)})
	}
	return v
}

// C01: claims.
func c01(c *core.Ctx) {
	ids, tops := []string{"1", "2", "12"}, []string{"a", "ab"}
	alpha := []Op{
		{K: "poll", Topic: "a", Consumer: "c1", DeadIn: p(2 * sec)},
		{K: "insertPromise", ID: "1", Consumer: "c2", DeadIn: p(2 * sec)},
		insert("1", "a", 0),
		{K: "upsertPromise", ID: "1", Consumer: "c3", DeadIn: p(4 * sec)},
		{K: "commit", ID: "1", N: "cur", State: st(2)},
		{K: "commit", ID: "1", State: st(0)},
		{K: "deletePromise", ID: "1"},
		{K: "chore"},
		{K: "advance", D: 3 * sec},
		insert("2", "a", -sec),
		{K: "insertPromise", ID: "2", Consumer: "", DeadIn: p(-sec)},
		{K: "deletePromises", Topic: "a"},
		upsert(pend("1", "a", 0)),
		{K: "deleteTask", ID: "1"},
		upsert(active("1", "a", p(sec))),
		{K: "poll", Topic: "ab", Consumer: "c4", DeadIn: p(2 * sec)},
	}
	all(c, alpha, depth(c, 5, 6), func(ops []Op) { history(c, time.Hour, false, ids, tops, nil, ops, true) })
	if c.Stopped() {
		return
	}
	snapshots(c, alpha, depth(c, 3, 4), time.Hour, ids, tops, nil)
	if c.Stopped() {
		return
	}
	// Every small database, every claim, then another claim.
	doms := [][]*TS{
		variants("1", tops, []int32{0, 1, 2, 3}, offs(-sec, sec), append(offs(-sec, sec), nil), offs(-2*sec)),
		variants("12", tops, []int32{0, 1, 2, 3}, offs(-2*sec), offs(sec), offs(-2*sec)),
	}
	ops := claimOps([]string{"1", "12", "2"}, append(tops, "b"))
	dbs(c, time.Hour, ids, tops, doms, pairs(ops, ops), false)
}

// C02: commits.
func c02(c *core.Ctx) {
	ids, tops := []string{"1", "2"}, []string{"a", "b"}
	full := func(n string, s int32) Op {
		return Op{K: "commit", ID: "1", N: n, State: st(s), NewTopic: "b", Sched: p(-5 * sec), Payload: map[string]any{"x": 1.0}}
	}
	alpha := []Op{
		{K: "poll", Topic: "a", Consumer: "c1", DeadIn: p(2 * sec)},
		{K: "commit", ID: "1", N: "old", State: st(2)},
		{K: "commit", ID: "1", N: "cur", State: st(0)},
		{K: "insertPromise", ID: "1", Consumer: "c2", DeadIn: p(2 * sec)},
		full("old", 0),
		{K: "commit", ID: "1", N: "", State: st(0), NewTopic: "a"},
		{K: "upsertPromise", ID: "1", Consumer: "c3", DeadIn: p(4 * sec)},
		{K: "chore"},
		{K: "advance", D: 3 * sec},
		{K: "deletePromise", ID: "1"},
		{K: "deletePromises", Topic: "a"},
		{K: "commit", ID: "1", N: "bogus", State: st(3)},
		upsert(pend("1", "a", 0)),
		{K: "deleteTask", ID: "1"},
		{K: "commit", ID: "1", N: "cur", Sched: p(9 * sec)},
	}
	init := []TS{pend("1", "a", -sec)}
	all(c, alpha, depth(c, 5, 6), func(ops []Op) { history(c, time.Hour, false, ids, tops, init, ops, false) })
	if c.Stopped() {
		return
	}
	snapshots(c, alpha, depth(c, 3, 4), time.Hour, ids, tops, init)
	if c.Stopped() {
		return
	}
	// Every small database and every shape of commit.
	var ops []Op
	for _, id := range []string{"1", "2"} {
		for _, n := range append([]string{"", "cur", "bogus"}, model.Near...) {
			for _, s := range []*int32{nil, st(0), st(1), st(2), st(3)} {
				for _, t := range []string{"", "a", "b"} {
					for _, sc := range []*Off{nil, p(-3 * sec), p(hour)} {
						for _, pl := range []any{nil, "new", false} {
							ops = append(ops, Op{K: "commit", ID: id, N: n, State: s, NewTopic: t, Sched: sc, Payload: pl})
						}
					}
				}
			}
		}
	}
	doms := [][]*TS{
		variants("1", []string{"a"}, []int32{0, 1, 2, 3}, offs(-sec), append(offs(sec), nil), offs(-2*sec)),
		variants("2", []string{"a", "b"}, []int32{0, 1}, offs(-2*sec), offs(sec), offs(-2*sec)),
	}
	dbs(c, time.Hour, ids, tops, doms, single(ops), true)
}

// C03: polling.
func c03(c *core.Ctx) {
	ids, tops := []string{"1", "2", "3"}, []string{"a", "ab", "b"}
	poll := func(t string) Op { return Op{K: "poll", Topic: t, Consumer: "c1", DeadIn: p(2 * sec)} }
	alpha := []Op{
		poll("a"), insert("1", "a", 0), insert("2", "a", -sec), insert("1", "b", -sec), poll("b"),
		{K: "advance", D: 2500 * ms}, {K: "chore"},
		{K: "commit", ID: "1", State: st(0), Sched: p(sec)},
		{K: "commit", ID: "1", State: st(0), NewTopic: "ab", Sched: p(-2 * sec)},
		{K: "commit", ID: "2", State: st(0), NewTopic: "b"},
		insert("3", "a", 2*sec),
		upsert(pend("2", "a", sec)), upsert(pend("1", "a", -3*sec)),
		{K: "deletePromises", Topic: "a"}, {K: "deleteTask", ID: "2"},
		{K: "upsertPromise", ID: "1", Consumer: "c2", DeadIn: p(2 * sec)},
		{K: "commit", ID: "1", N: "cur"},
	}
	all(c, alpha, depth(c, 5, 6), func(ops []Op) { history(c, time.Hour, false, ids, tops, nil, ops, true) })
	if c.Stopped() {
		return
	}
	snapshots(c, alpha, depth(c, 3, 4), time.Hour, ids, tops, nil)
	if c.Stopped() {
		return
	}
	sched := offs(zero, pre, epoch, -hour, -sec, -ms, -300*1000, 0, 300*1000, ms, 400*24*hour, far)
	few := offs(pre, -sec, 0, sec)
	if c.Thorough() {
		few = offs(zero, pre, -hour, -sec, -ms, 0, 300*1000, sec)
	}
	var v1, v2, v3 []*TS
	v1 = append(variants("1", tops, []int32{0}, sched, offs(sec), []*Off{nil}), variants("1", tops, []int32{1, 2, 3}, offs(-sec), offs(sec), offs(-sec))[1:]...)
	v2 = append(variants("2", tops, []int32{0}, sched, offs(-sec), []*Off{nil}), variants("2", tops[:2], []int32{1, 2, 3}, offs(-sec), offs(sec), offs(-sec))[1:]...)
	v3 = variants("3", tops, []int32{0}, few, []*Off{nil}, []*Off{nil})
	dbs(c, time.Hour, ids, tops, [][]*TS{v1, v2, v3}, single([]Op{poll("a"), poll("ab"), poll("b")}), true)
}

// C04: recovery.
func c04(c *core.Ctx) {
	ids, tops := []string{"1", "2", "3"}, []string{"a", "b"}
	alpha := []Op{
		{K: "poll", Topic: "a", Consumer: "c1", DeadIn: p(2 * sec)},
		{K: "chore"},
		{K: "advance", D: 1100 * ms},
		{K: "poll", Topic: "a", Consumer: "c2", DeadIn: p(500 * ms)},
		{K: "advance", D: 3 * sec},
		{K: "commit", ID: "1", N: "old", State: st(2)},
		{K: "insertPromise", ID: "2", Consumer: "c3", DeadIn: p(-sec)},
		{K: "upsertPromise", ID: "1", Consumer: "c3", DeadIn: p(hour)},
		{K: "commit", ID: "1", State: st(1)},
		{K: "commit", ID: "2", N: "cur", State: st(3)},
		{K: "deletePromise", ID: "1"},
		upsert(active("2", "b", p(1500*ms))),
		{K: "commit", ID: "1", State: st(0), NewTopic: "b", Sched: p(0)},
		{K: "deleteTask", ID: "1"},
	}
	init := []TS{pend("1", "a", -sec), pend("2", "a", 0)}
	all(c, alpha, depth(c, 5, 6), func(ops []Op) { history(c, 24*time.Hour, false, ids, tops, init, ops, true) })
	if c.Stopped() {
		return
	}
	snapshots(c, alpha[:9], depth(c, 4, 5), 24*time.Hour, ids, tops, init)
	if c.Stopped() {
		return
	}
	dead := append(offs(zero, pre, epoch, -hour, -ms, -300*1000, 0, 300*1000, ms, hour, far), nil)
	few := append(offs(pre, -sec, 0, sec), nil)
	if c.Thorough() {
		few = append(offs(zero, -hour, -ms, 0, ms, sec, far), nil)
	}
	v1 := variants("1", []string{"a"}, []int32{0, 1, 2, 3}, offs(-sec), dead, offs(-2*sec))
	v2 := variants("2", tops, []int32{0, 1, 2, 3}, offs(0), dead, offs(-2*sec))
	v3 := variants("3", []string{"a"}, []int32{1}, offs(-sec), few, offs(-2*sec))
	dbs(c, 1000*time.Hour, ids, tops, [][]*TS{v1, v2, v3}, [][]Op{{{K: "chore"}}, {{K: "chore"}, {K: "advance", D: ms}, {K: "chore"}}}, true)
}

// C05: expiry.
func c05(c *core.Ctx) {
	ids, tops := []string{"1", "2", "3"}, []string{"a", "b"}
	alpha := []Op{
		{K: "poll", Topic: "a", Consumer: "c1", DeadIn: p(2 * sec)},
		{K: "commit", ID: "1", N: "cur", State: st(2)},
		{K: "chore"},
		{K: "advance", D: 40 * sec},
		{K: "commit", ID: "2", State: st(2)},
		{K: "commit", ID: "1", State: st(3)},
		{K: "commit", ID: "1", State: st(0)},
		{K: "upsertPromise", ID: "1", Consumer: "c2", DeadIn: p(hour)},
		{K: "commit", ID: "1", State: st(2), NewTopic: "b"},
		upsert(func() TS { t := pend("3", "a", 0); t.State, t.Cons = 2, p(-70*sec); return t }()),
		upsert(func() TS { t := pend("3", "b", 0); t.State = 2; return t }()),
		{K: "deletePromise", ID: "2"},
		{K: "insertPromise", ID: "2", Consumer: "c2", DeadIn: p(sec)},
	}
	init := []TS{pend("1", "a", -sec), pend("2", "a", 0)}
	all(c, alpha, depth(c, 5, 6), func(ops []Op) { history(c, time.Minute, false, ids, tops, init, ops, true) })
	if c.Stopped() {
		return
	}
	snapshots(c, alpha[:8], depth(c, 4, 5), time.Minute, ids, tops, init)
	for _, ret := range []time.Duration{time.Hour, 0, 72 * time.Hour} {
		if c.Stopped() {
			return
		}
		r := Off(ret)
		cons := append(offs(zero, pre, epoch, -r-hour, -r-ms, -r-300*1000, -r, -r+300*1000, -r+ms, -r+hour, sec), nil)
		few := append(offs(pre, -r-sec, -r, -r+sec), nil)
		v1 := variants("1", []string{"a"}, []int32{0, 1, 2, 3}, offs(-sec), offs(hour), cons)
		v2 := variants("2", tops, []int32{0, 1, 2, 3}, offs(0), offs(-sec), cons)
		v3 := variants("3", []string{"a"}, []int32{2}, offs(-sec), offs(-hour), few)
		dbs(c, ret, ids, tops, [][]*TS{v1, v2, v3}, [][]Op{{{K: "chore"}}}, false)
	}
}

// C06: the reference model.
func c06(c *core.Ctx) {
	ids, tops := []string{"1", "2", "12"}, []string{"a", "b"}
	a1, b1, a2, b2 := pend("1", "a", 0), pend("1", "b", -sec), pend("2", "a", -sec), pend("2", "b", 0)
	done := b1
	done.State, done.Payload, done.Producer = 2, []any{1.0, "x"}, "other"
	c12 := pend("12", "a", 0)
	alpha := []Op{
		insert("1", "a", 0),
		{K: "insertTasks", Ts: []TS{a1, a2}},
		{K: "upsertTasks", Ts: []TS{b1, b2}},
		{K: "deleteTask", ID: "1"},
		{K: "deleteTasks", Topic: "a"},
		{K: "poll", Topic: "a", Consumer: "c1", DeadIn: p(2 * sec)},
		{K: "commit", ID: "1", State: st(0), NewTopic: "b"},
		{K: "deleteTopic", Topic: "b"},
		upsert(a1), upsert(done), upsert(c12),
		{K: "insertTasks", Ts: []TS{a2, a2}},
		{K: "upsertTasks", Ts: []TS{a1, b1}},
		{K: "deleteTopics"},
		{K: "upsertPromise", ID: "1", Consumer: "c2", DeadIn: p(sec)},
		{K: "deletePromises", Topic: "a"}, {K: "deletePromise", ID: "1"},
		{K: "insertTasks"}, {K: "upsertTasks"},
		{K: "chore"},
	}
	all(c, alpha, depth(c, 4, 5), func(ops []Op) { history(c, time.Hour, false, ids, tops, nil, ops, true) })
	if c.Stopped() {
		return
	}
	snapshots(c, alpha, depth(c, 3, 4), time.Hour, ids, tops, nil)
	if c.Stopped() {
		return
	}
	// Every operation from every small database.
	ops := append([]Op{}, alpha...)
	for _, id := range []string{"1", "2", "12", "3", ""} {
		ops = append(ops, Op{K: "getTask", ID: id}, Op{K: "getPromise", ID: id}, Op{K: "deleteTask", ID: id}, Op{K: "deletePromise", ID: id})
	}
	for _, t := range []string{"a", "b", "ab", ""} {
		ops = append(ops, Op{K: "getTopic", Topic: t}, Op{K: "deleteTopic", Topic: t}, Op{K: "deleteTasks", Topic: t}, Op{K: "deletePromises", Topic: t})
	}
	for _, v := range variants("1", tops, []int32{0, 1, 2, 3}, offs(-sec), offs(sec), offs(-sec))[1:] {
		ops = append(ops, Op{K: "insertTask", Ts: []TS{*v}}, Op{K: "upsertTask", Ts: []TS{*v}}, Op{K: "upsertTasks", Ts: []TS{*v, a2}}, Op{K: "insertTasks", Ts: []TS{a2, *v, c12}})
	}
	doms := [][]*TS{
		variants("1", tops, []int32{0, 1, 2, 3}, offs(-sec), offs(-sec, sec), offs(-sec)),
		variants("2", tops, []int32{0, 1, 2, 3}, offs(-sec), offs(sec), offs(-sec)),
		variants("12", []string{"a"}, []int32{1}, offs(-sec), offs(sec), offs(-sec)),
	}
	dbs(c, time.Hour, ids, tops, doms, single(ops), true)
}

// C08: listings (engine level).
func c08(c *core.Ctx) {
	ids, tops := []string{"1", "2", "12", "3"}, []string{"a", "ab", "b"}
	topics := []string{"a", "ab", "b"}
	v := func(id string) []*TS {
		return variants(id, topics, []int32{0, 1, 2, 3}, offs(-sec), offs(sec), offs(-sec))
	}
	doms := [][]*TS{append(v("1"), variants("1", []string{"a", "b"}, []int32{1, 2}, offs(sec), append(offs(-sec), nil), []*Off{nil})[1:]...),
		v("2"), v("12"), variants("3", topics, []int32{1, 2}, offs(-sec), offs(-sec), offs(-sec))}
	if c.Thorough() {
		ids = append(ids, "4")
		doms = append(doms, variants("4", topics, []int32{0, 1}, offs(-sec), offs(sec), offs(-sec)))
	}
	databases(doms, func(init []TS) bool {
		if c.Take() {
			c.Distinct("databases", js(init))
			listings(c, ids, tops, init, nil)
			// The same contents reached through a transfer and a removal.
			if len(init) > 1 {
				listings(c, ids, tops, init, []Op{{K: "commit", ID: init[0].ID, State: st(1), NewTopic: "ab"}, {K: "deleteTask", ID: init[1].ID}})
			}
		}
		return !c.Stopped()
	})
}

func listings(c *core.Ctx, ids, tops []string, init []TS, ops []Op) {
	var r *run
	det := func() any {
		d := detail{Init: init, Ops: ops}
		if r != nil {
			d.Trace = r.trace
		}
		return d
	}
	bad := func(s string) { c.Violation("listing", s, det()) }
	bubble(c, func() {
		c.Guard(det, func() {
			var s string
			r, s = newRun(c, time.Hour, false, ids, tops)
			if s != "" {
				bad(s)
				return
			}
			for _, t := range init {
				if s := r.step(Op{K: "upsertTask", Ts: []TS{t}}, false); s != "" {
					bad(s)
					return
				}
			}
			for _, o := range ops {
				if s := r.step(o, true); s != "" {
					bad(s)
					return
				}
			}
			n := len(r.m.S)
			kinds := []Op{{K: "listTopics"}}
			for _, t := range append([]string{"zz", ""}, tops...) {
				kinds = append(kinds, Op{K: "listTasks", Topic: t}, Op{K: "listPromises", Topic: t})
				if s := r.step(Op{K: "getTopic", Topic: t}, false); s != "" {
					bad(s)
					return
				}
			}
			for _, k := range kinds {
				get := func(limit, offset int) []string {
					var v []string
					switch k.K {
					case "listTopics":
						x, _ := r.g.ListTopics(bg, limit, offset)
						for _, t := range x {
							v = append(v, t.Name)
						}
					case "listTasks":
						x, _ := r.g.ListTasks(bg, k.Topic, limit, offset)
						for _, t := range x {
							v = append(v, t.ID)
						}
					case "listPromises":
						x, _ := r.g.ListPromises(bg, k.Topic, limit, offset)
						for _, t := range x {
							v = append(v, t.ID)
						}
					}
					return v
				}
				whole := get(100, 0)
				for limit := 1; limit <= n+1; limit++ {
					for offset := 0; offset <= n+1; offset++ {
						o := k
						o.Limit, o.Offset = limit, offset
						if s := r.step(o, false); s != "" {
							bad(s)
							return
						}
						lo, hi := min(offset, len(whole)), min(offset+limit, len(whole))
						if g := get(limit, offset); fmt.Sprint(g) != fmt.Sprint(whole[lo:hi]) {
							bad(fmt.Sprintf("%s: page %q is not the slice [%d:%d] of the whole listing %q", o, g, lo, hi, whole))
							return
						}
						c.Count("pages", 1)
					}
				}
			}
			c.Count("transitions", r.steps)
			c.Count("histories", 1)
			c.Distinct("states", canon(r))
			c.Sample(func() string {
				return fmt.Sprintf("database %s: all pages with limit 1..%d and offset 0..%d", r.m.S, n+1, n+1)
			})
		})
	})
}

// C09: snapshots restore what was stored.
func c09(c *core.Ctx) {
	c09values(c)
	if c.Stopped() {
		return
	}
	ids, tops := []string{"1", "2"}, []string{"a", "b"}
	alpha := []Op{
		{K: "poll", Topic: "a", Consumer: "c1", DeadIn: p(2 * sec)},
		insert("1", "a", 0),
		{K: "commit", ID: "1", N: "old", State: st(2)},
		insert("2", "a", -sec),
		{K: "commit", ID: "1", N: "cur", State: st(0), NewTopic: "b", Payload: []any{map[string]any{"k": nil}}},
		{K: "chore"},
		{K: "advance", D: 3 * sec},
		{K: "deleteTask", ID: "1"},
		{K: "deletePromise", ID: "2"},
		{K: "commit", ID: "2", State: st(3)},
	}
	d := depth(c, 4, 5)
	all(c, alpha, d, func(ops []Op) {
		for i := 1; i <= d; i++ {
			x := append(append(append([]Op{}, ops[:i]...), Op{K: "reopen"}), ops[i:]...)
			history(c, time.Hour, true, ids, tops, nil, x, true)
			if c.Stopped() {
				return
			}
		}
	})
}

// jsonValues enumerates JSON values by nesting depth.
func jsonValues(d int) []any {
	leaves := []any{nil, false, true, 0.0, -1.5, 1e300, "", "x", "é\u0000\U0001F600", float64(1 << 53)}
	if d == 0 {
		return leaves
	}
	sub := jsonValues(d - 1)
	v := append([]any{}, leaves...)
	v = append(v, []any{}, map[string]any{})
	for _, x := range sub {
		v = append(v, []any{x}, map[string]any{"k": x}, map[string]any{"": x, "z": "y"})
	}
	if d == 1 {
		for _, x := range sub {
			for _, y := range sub {
				v = append(v, []any{x, y}, map[string]any{"a": x, "b": y})
			}
		}
	} else {
		for _, x := range sub {
			v = append(v, []any{x, []any{}}, []any{nil, x}, map[string]any{"a": x, "b": map[string]any{}})
		}
	}
	return v
}

func c09values(c *core.Ctx) {
	d := 2
	if c.Thorough() {
		d = 3
	}
	pl := jsonValues(d)
	for i := range pl {
		if c.Take() {
			t := pend("1", "a", -sec)
			t.Payload = pl[i]
			c.Count("payloads", 1)
			history(c, time.Hour, true, []string{"1"}, []string{"a"}, []TS{t}, []Op{{K: "reopen"}}, true)
		}
		if c.Stopped() {
			return
		}
	}
	// Times: extreme values in every field and zone.
	zones := []*time.Location{time.UTC}
	for _, m := range []int{-1, 1, 330, -720, 1439, -1439, 60} {
		zones = append(zones, time.FixedZone("", m*60))
	}
	whens := []Off{zero, model.Off1600, pre, epoch, -hour, 0, 123456789, hour, far}
	for _, z := range zones {
		for _, w := range whens {
			for field := 0; field < 4; field++ {
				for _, s := range []int32{0, 1, 2, 3} {
					if c.Take() {
						c.Count("times", 1)
						timeCase(c, z, w, field, s)
					}
					if c.Stopped() {
						return
					}
				}
			}
		}
	}
	// Presence of every field.
	for mask := 0; mask < 1<<9; mask++ {
		for s := int32(0); s < 4; s++ {
			if c.Take() {
				t := TS{ID: "1", Topic: "a", State: s}
				set := func(b int, f func()) {
					if mask&(1<<b) != 0 {
						f()
					}
				}
				set(0, func() { t.Nonce = "0123456789abcdef" })
				set(1, func() { t.Producer = "p" })
				set(2, func() { t.Consumer = "c" })
				set(3, func() { t.Prod = p(-hour) })
				set(4, func() { t.Sched = p(-sec) })
				set(5, func() { t.Cons = p(-2 * sec) })
				set(6, func() { t.Dead = p(sec) })
				set(7, func() { t.Payload = map[string]any{"a": []any{1.0, nil}} })
				set(8, func() { t.Topic = "t\xc3\xa9 /%\n" })
				c.Count("field_masks", 1)
				// Between two tasks that have every field, as records of a snapshot
				// are written and read one after another.
				full := func(id string) TS {
					u := active(id, t.Topic, p(sec))
					u.Consumer, u.Producer, u.State = "other"+id, "producer"+id, 1+int32(id[0]-'0')/2
					u.Payload = map[string]any{"k" + id: id, "a": []any{id, id, id}}
					return u
				}
				history(c, time.Hour, true, []string{"0", "1", "2"}, []string{t.Topic}, []TS{full("0"), t, full("2")}, []Op{{K: "reopen"}, {K: "chore"}, {K: "reopen"}}, true)
			}
			if c.Stopped() {
				return
			}
		}
	}
}

// timeCase stores a task with one time in a given zone, restarts and compares.
func timeCase(c *core.Ctx, z *time.Location, w Off, field int, s int32) {
	det := func() any { return fmt.Sprintf("zone offset %v, instant %d, field %d, state %d", z, w, field, s) }
	bubble(c, func() {
		c.Guard(det, func() {
			r, e := newRun(c, time.Hour, true, []string{"1", "2"}, []string{"a"})
			if e != "" {
				c.Violation("conformance", e, det())
				return
			}
			x := w.At(r.base).In(z)
			t := pend("1", "a", -sec).Task(r.base)
			t.State = ratus.TaskState(s)
			if s == 1 {
				t.Nonce = "0123456789abcdef"
			}
			switch field {
			case 0:
				t.Produced = &x
			case 1:
				t.Scheduled = &x
			case 2:
				t.Consumed = &x
			case 3:
				t.Deadline = &x
			}
			if _, err := r.g.InsertTask(bg, model.CopyTask(t)); err != nil {
				c.Violation("conformance", err.Error(), det())
				return
			}
			r.m.S["1"] = t
			for _, op := range []Op{{K: "reopen"}, insert("2", "a", 0), {K: "poll", Topic: "a", Consumer: "c", DeadIn: p(sec)}, {K: "reopen"}, {K: "chore"}} {
				if e := r.step(op, true); e != "" {
					c.Violation("conformance", e, det())
					return
				}
				c.Count("transitions", 1)
			}
			if e := r.audit(true); e != "" {
				c.Violation("conformance", e, det())
			}
			c.Count("histories", 1)
		})
	})
}
