package mon

import (
	"fmt"
	"strings"
	"time"

	"github.com/hyperonym/ratus/internal/engine/mongodb"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
	"github.com/hyperonym/ratus/internal/zverif/mongod"
)

func init() {
	parts["C19/histories"] = c19histories
	parts["C19/databases"] = c19databases
	parts["C19/values"] = c19values
}

// run is one history on one engine.
type run struct {
	c     *core.Ctx
	s     *site
	md    mode
	g     *mongodb.Engine
	m     *model.Model
	base  time.Time
	ids   []string
	tops  []string
	trace []string
	cmds  []string
	lazy  bool // what is stored is not looked at after reads
}

func newRun(c *core.Ctx, s *site, md mode, ids, tops []string) (*run, error) {
	s.srv.Shard = nil
	g, err := s.engine("c1", md)
	if err != nil {
		return nil, fmt.Errorf("opening the engine: %w", err)
	}
	s.srv.Shard = md.shard
	s.clear()
	r := &run{c: c, s: s, md: md, g: g, ids: ids, tops: tops, base: align()}
	r.m = model.New(model.Cfg{TimeMs: true, NoExpire: true, LaxUpdated: true})
	s.srv.Observe = func(cmd *mongod.Cmd, reply mongod.D) { r.cmds = append(r.cmds, cmd.String()); c.Count("commands", 1) }
	return r, nil
}

func (r *run) step(op Op) string {
	r.trace = append(r.trace, op.String())
	r.cmds = r.cmds[:0]
	now := time.Now()
	if op.K == "advance" {
		time.Sleep(time.Duration(op.D))
		return ""
	}
	call := r.m.Resolve(op, r.base, now)
	res := model.Exec(bg, r.g, call, true)
	call.After = time.Now()
	var obs model.State
	look := !r.lazy || !strings.HasPrefix(op.K, "get") && !strings.HasPrefix(op.K, "list")
	if look {
		var err error
		if obs, err = r.s.contents(); err != nil {
			return err.Error()
		}
	}
	if err := r.m.Apply(call, res, obs); err != nil {
		return fmt.Sprintf("%s at base%+v: %v (commands: %v)", op, now.Sub(r.base), err, r.cmds)
	}
	if !look {
		r.c.Count("transitions", 1)
		return ""
	}
	if s := r.m.Compare(obs); s != "" {
		return fmt.Sprintf("after %s: %s (commands: %v)", op, s, r.cmds)
	}
	r.c.Count("transitions", 1)
	return ""
}

// audit reads everything through the engine.
func (r *run) audit() string {
	r.trace = append(r.trace, "-- audit")
	v := []Op{{K: "listTopics", Limit: 100}}
	for _, t := range r.tops {
		for _, k := range []string{"listTasks", "listPromises", "getTopic"} {
			v = append(v, Op{K: k, Topic: t, Limit: 100})
		}
	}
	for _, id := range r.ids {
		v = append(v, Op{K: "getTask", ID: id}, Op{K: "getPromise", ID: id})
	}
	for _, o := range v {
		if s := r.step(o); s != "" {
			return s
		}
	}
	return ""
}

// drain polls every topic until it is empty, lets all claims time out and
// polls again.
func (r *run) drain() string {
	for round := 0; round < 2; round++ {
		for _, t := range r.tops {
			for i := 0; i <= len(r.ids); i++ {
				n := len(r.m.Issued)
				if s := r.step(Op{K: "poll", Topic: t, Consumer: "audit", DeadIn: p(sec)}); s != "" {
					return s
				}
				if len(r.m.Issued) == n {
					break
				}
			}
		}
		if round == 0 {
			time.Sleep(3 * time.Second)
			if s := r.step(Op{K: "chore"}); s != "" {
				return s
			}
		}
	}
	return ""
}

type detail struct {
	Mode  string   `json:"mode"`
	Init  []TS     `json:"init"`
	Ops   []Op     `json:"ops"`
	Trace []string `json:"trace"`
	Cmds  []string `json:"commands"`
}

func history(c *core.Ctx, s *site, md mode, ids, tops []string, init []TS, ops []Op, drain bool) {
	var r *run
	det := func() any {
		d := detail{Mode: md.name, Init: init, Ops: ops}
		if r != nil {
			d.Trace, d.Cmds = r.trace, r.cmds
		}
		return d
	}
	c.Guard(det, func() {
		var err error
		r, err = newRun(c, s, md, ids, tops)
		if err != nil {
			c.Violation("conformance", err.Error(), det())
			return
		}
		if len(init) > 0 {
			if s := r.step(Op{K: "insertTasks", Ts: init}); s != "" {
				c.Violation("conformance", s, det())
				return
			}
		}
		for _, op := range ops {
			if s := r.step(op); s != "" {
				c.Violation("conformance", s, det())
				return
			}
			c.Distinct("states", md.name+canon(r.m, r.base))
		}
		s := r.audit()
		if s == "" && drain {
			s = r.drain()
		}
		if s != "" {
			c.Violation("conformance", s, det())
			return
		}
		c.Count("histories", 1)
		c.Sample(func() string { return fmt.Sprintf("%s: init=%+v ops=%v final=%s", md.name, init, r.trace, r.m.S) })
	})
}

// canon is the state up to renaming of nonces and shifting of time.
func canon(m *model.Model, base time.Time) string {
	now := time.Now()
	b := make([]byte, 0, 128)
	for _, id := range m.S.IDs() {
		t := m.S[id]
		b = append(b, id...)
		b = append(b, '|')
		b = append(b, t.Topic...)
		b = append(b, '|', byte('0'+t.State), '|')
		if t.Nonce != "" {
			b = append(b, 'n')
		}
		b = append(b, t.Consumer...)
		for _, x := range []*time.Time{t.Scheduled, t.Consumed, t.Deadline} {
			if x == nil {
				b = append(b, '-')
			} else {
				b = fmt.Appendf(b, "%d", x.Sub(now))
			}
			b = append(b, '|')
		}
		b = fmt.Appendf(b, "%v;", t.Payload)
	}
	return string(b)
}

// each enumerates every sequence of exactly depth operations.
func each(c *core.Ctx, alpha []Op, depth int, f func(ops []Op)) {
	idx := make([]int, depth)
	for {
		if c.Take() {
			ops := make([]Op, depth)
			for i, k := range idx {
				ops[i] = alpha[k]
			}
			f(ops)
		}
		if c.Stopped() {
			return
		}
		i := depth - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(alpha) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func alphabet() []Op {
	a1, b1, a2, b2 := pend("1", "a", 0), pend("1", "b", -sec), pend("2", "a", -sec), pend("2", "b", 0)
	done := b1
	done.State, done.Payload, done.Producer = 2, []any{1.0, "x"}, "other"
	return []Op{
		{K: "poll", Topic: "a", Consumer: "c1", DeadIn: p(2 * sec)},
		{K: "commit", ID: "1", N: "cur", State: st(2)},
		{K: "commit", ID: "1", N: "old", State: st(0), NewTopic: "b", Sched: p(-5 * sec), Payload: map[string]any{"x": 1.0}},
		{K: "commit", ID: "1", State: st(0), NewTopic: "a"},
		{K: "insertPromise", ID: "1", Consumer: "c2", DeadIn: p(2 * sec)},
		{K: "upsertPromise", ID: "1", Consumer: "", DeadIn: p(4 * sec)},
		{K: "chore"},
		{K: "advance", D: 3 * sec},
		insert("1", "a", 0),
		upsert(b1),
		{K: "upsertTasks", Ts: []TS{a1, b2}},
		{K: "insertTasks", Ts: []TS{done, a2}},
		{K: "deleteTask", ID: "1"},
		{K: "deletePromise", ID: "1"},
		{K: "deletePromises", Topic: "a"},
		{K: "deleteTopic", Topic: "b"},
		{K: "deleteTasks", Topic: "a"},
		{K: "poll", Topic: "b", Consumer: "c3", DeadIn: p(-sec)},
		upsert(done),
		{K: "commit", ID: "2"},
		{K: "deleteTopics"},
		upsert(active("2", "a", p(sec))),
	}
}

func c19histories(c *core.Ctx) {
	in(c.T, func(s *site) {
		ids, tops := []string{"1", "2"}, []string{"a", "b"}
		inits := [][]TS{nil, {pend("1", "a", -sec), pend("2", "a", -2*sec)}, {active("1", "a", p(sec)), pend("2", "b", sec)}}
		d := 3
		if c.Thorough() {
			d = 4
		}
		for _, md := range modes {
			for i, init := range inits {
				if i != 1 && md.plain() && !c.Thorough() {
					continue
				}
				each(c, alphabet(), d, func(ops []Op) { history(c, s, md, ids, tops, init, ops, false) })
				if c.Stopped() {
					return
				}
			}
		}
	})
}

// variants gives the per-ID domain: absent, and every combination of state and
// the given fields.
func variants(id string, topics []string, states []int32, sched, dead []*Off) []*TS {
	v := []*TS{nil}
	for _, tp := range topics {
		for _, s := range states {
			for _, sc := range sched {
				for _, d := range dead {
					t := pend(id, tp, 0)
					t.State, t.Sched, t.Dead, t.Cons = s, sc, d, p(-2*sec)
					if s == 1 {
						t.Nonce, t.Consumer = "0123456789abcde"+id[:1], "c0"
					} else {
						t.Consumer, t.Cons = "", nil
					}
					v = append(v, &t)
				}
			}
		}
	}
	return v
}

func offs(v ...Off) []*Off {
	r := make([]*Off, len(v))
	for i := range v {
		o := v[i]
		r[i] = &o
	}
	return r
}

func databases(doms [][]*TS, f func(init []TS) bool) {
	idx := make([]int, len(doms))
	for {
		var init []TS
		for i, k := range idx {
			if t := doms[i][k]; t != nil {
				init = append(init, *t)
			}
		}
		if !f(init) {
			return
		}
		i := len(doms) - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(doms[i]) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// c19databases performs every operation on every small database.
func c19databases(c *core.Ctx) {
	in(c.T, func(s *site) {
		ids, tops := []string{"1", "2", "12"}, []string{"a", "b"}
		ops := alphabet()
		ops = append(ops, Op{K: "insertTasks"}, Op{K: "upsertTasks"})
		for _, id := range []string{"1", "12", "3", ""} {
			ops = append(ops, Op{K: "getTask", ID: id}, Op{K: "getPromise", ID: id}, Op{K: "deleteTask", ID: id}, Op{K: "deletePromise", ID: id},
				Op{K: "insertPromise", ID: id, Consumer: "c2", DeadIn: p(2 * sec)}, Op{K: "upsertPromise", ID: id, Consumer: "c2", DeadIn: p(2 * sec)})
		}
		for _, t := range []string{"a", "ab", ""} {
			ops = append(ops, Op{K: "getTopic", Topic: t}, Op{K: "deleteTopic", Topic: t}, Op{K: "deleteTasks", Topic: t}, Op{K: "deletePromises", Topic: t}, Op{K: "poll", Topic: t, DeadIn: p(sec)})
			for l := 1; l <= 3; l++ {
				for o := 0; o <= 3; o++ {
					ops = append(ops, Op{K: "listTasks", Topic: t, Limit: l, Offset: o}, Op{K: "listPromises", Topic: t, Limit: l, Offset: o})
					if t == "" {
						ops = append(ops, Op{K: "listTopics", Limit: l, Offset: o})
					}
				}
			}
		}
		for _, n := range []string{"", "cur", "bogus"} {
			for _, x := range []*int32{nil, st(0), st(1), st(2), st(3)} {
				for _, t := range []string{"", "a", "b"} {
					ops = append(ops, Op{K: "commit", ID: "1", N: n, State: x, NewTopic: t}, Op{K: "commit", ID: "12", N: n, State: x, NewTopic: t, Sched: p(-3 * sec), Payload: false})
				}
			}
		}
		for _, n := range model.Near {
			ops = append(ops, Op{K: "commit", ID: "1", N: n}, Op{K: "commit", ID: "12", N: n, State: st(0)})
		}
		c12 := pend("12", "a", 0)
		for _, v := range variants("1", tops, []int32{0, 1, 2, 3}, offs(-sec), offs(sec))[1:] {
			ops = append(ops, Op{K: "insertTask", Ts: []TS{*v}}, upsert(*v), Op{K: "upsertTasks", Ts: []TS{*v, c12}}, Op{K: "insertTasks", Ts: []TS{pend("2", "a", 0), *v, c12}})
		}
		doms := [][]*TS{
			variants("1", tops, []int32{0, 1, 2, 3}, offs(-sec), append(offs(-sec), nil)),
			variants("2", tops[:1], []int32{0, 1}, offs(-2*sec), offs(sec)),
			variants("12", tops, []int32{1}, offs(-sec), offs(-sec)),
		}
		if c.Thorough() {
			doms[1] = variants("2", tops, []int32{0, 1, 2, 3}, offs(-2*sec), offs(sec))
		}
		for _, md := range modes {
			doms := doms
			if md.plain() && !c.Thorough() {
				doms = [][]*TS{variants("1", tops, []int32{0, 1, 2}, offs(-sec), offs(-sec)), doms[1][:3], doms[2][:2]}
			}
			databases(doms, func(init []TS) bool {
				for i, o := range ops {
					if c.Take() {
						history(c, s, md, ids, tops, init, []Op{o}, i%8 == 0)
					}
					if c.Stopped() {
						return false
					}
				}
				return true
			})
			if c.Stopped() {
				return
			}
		}
	})
}

// c19values: times around the present to fractions of a millisecond, extreme
// times, payloads, strings and presence of fields.
func c19values(c *core.Ctx) {
	in(c.T, func(s *site) {
		ids, tops := []string{"1", "2", "3"}, []string{"a", "b"}
		for _, md := range modes {
			zeroTimes(c, s, md)
		}
		near := []*Off{p(model.OffPreEpoch), p(model.OffEpoch), p(-hour), p(-ms), p(-500 * 1000), p(-1), p(0), p(1), p(500 * 1000), p(ms), p(model.OffFar), nil}
		for _, md := range modes[:4] {
			for _, x := range near {
				for _, y := range near {
					for _, after := range []Off{0, 300 * 1000, 700 * 1000, ms} {
						if c.Take() && x != nil && y != nil {
							a, b := pend("1", "a", 0), pend("2", "a", 0)
							a.Sched, b.Sched = x, y
							history(c, s, md, ids, tops, []TS{a, b}, []Op{{K: "advance", D: after}, {K: "poll", Topic: "a", Consumer: "c", DeadIn: p(sec)}, {K: "poll", Topic: "a", Consumer: "c", DeadIn: p(sec)}}, true)
						}
						if c.Take() {
							a, b := active("1", "a", x), active("2", "b", y)
							history(c, s, md, ids, tops, []TS{a, b}, []Op{{K: "advance", D: after}, {K: "chore"}}, true)
						}
						if c.Stopped() {
							return
						}
					}
				}
			}
			for _, v := range payloads(2) {
				if c.Take() {
					a := pend("1", "a", -sec)
					a.Payload = v
					history(c, s, md, ids, tops, []TS{a, pend("2", "a", 0)}, []Op{upsert(a), {K: "poll", Topic: "a", Consumer: "c", DeadIn: p(sec)}, {K: "commit", ID: "2", Payload: v, State: st(0), Sched: p(model.OffZero)}}, true)
				}
				if c.Stopped() {
					return
				}
			}
			for mask := 0; mask < 1<<8; mask++ {
				for x := int32(0); x < 4; x++ {
					if c.Take() {
						t := TS{ID: "1", Topic: "a", State: x}
						set := func(b int, f func()) {
							if mask&(1<<b) != 0 {
								f()
							}
						}
						set(0, func() { t.Nonce = "0123456789abcdef" })
						set(1, func() { t.Producer = "p" })
						set(2, func() { t.Consumer = "c" })
						set(3, func() { t.Prod = p(-hour) })
						set(4, func() { t.Cons = p(-2 * sec) })
						set(5, func() { t.Dead = p(-sec) })
						set(6, func() { t.Payload = map[string]any{"a": []any{1.0, nil}} })
						set(7, func() { t.Topic = "t\xc3\xa9 /%$.\n" })
						t.Sched = p(-sec)
						history(c, s, md, []string{"1"}, []string{t.Topic}, []TS{t}, []Op{upsert(t), {K: "commit", ID: "1", N: "cur", Sched: p(-2 * sec)}, {K: "chore"}, {K: "insertPromise", ID: "1", Consumer: "d", DeadIn: p(sec)}}, true)
					}
					if c.Stopped() {
						return
					}
				}
			}
			for _, n := range names {
				for _, o := range names {
					if c.Take() {
						history(c, s, md, []string{n, o}, []string{n, o}, []TS{pend(n, n, -sec)}, []Op{upsert(pend(o, o, -2*sec)), {K: "poll", Topic: o, Consumer: o, DeadIn: p(sec)}, {K: "deletePromises", Topic: n}, {K: "commit", ID: n, NewTopic: o, State: st(0)}, {K: "deleteTask", ID: o}}, true)
					}
					if c.Stopped() {
						return
					}
				}
			}
		}
	})
}

// zeroTimes stores tasks with the zero time in one field.
func zeroTimes(c *core.Ctx, s *site, md mode) {
	for f, field := range []string{"scheduled", "deadline", "produced", "consumed"} {
		for _, k := range []string{"insertTask", "upsertTask", "insertTasks", "upsertTasks"} {
			if !c.Take() {
				continue
			}
			t := active("1", "a", p(sec))
			*[]**Off{&t.Sched, &t.Dead, &t.Prod, &t.Cons}[f] = p(model.OffZero)
			op := Op{K: k, Ts: []TS{t}}
			det := detail{Mode: md.name, Ops: []Op{op}}
			c.Guard(func() any { return det }, func() {
				r, err := newRun(c, s, md, []string{"1"}, []string{"a"})
				if err == nil {
					_, err = r.g.UpsertTasks(bg, nil)
				}
				if err != nil {
					c.Violation("conformance", err.Error(), det)
					return
				}
				call := r.m.Resolve(op, r.base, time.Now())
				res := model.Exec(bg, r.g, call, true)
				v, err := r.s.contents()
				if err != nil || res.Err != nil || v["1"] == nil {
					c.Violation("conformance", fmt.Sprintf("storing a task with the zero time as its %s time: %v, %v, %v", field, res.Err, err, v), det)
					return
				}
				got := v["1"]
				x := []*time.Time{got.Scheduled, got.Deadline, got.Produced, got.Consumed}[f]
				if x == nil {
					c.Violation("zero-time-"+field, fmt.Sprintf("a task stored with the zero time as its %s time comes back without it", field), det)
				} else if !x.IsZero() {
					c.Violation("conformance", fmt.Sprintf("a task stored with the zero time as its %s time comes back with %s", field, x), det)
				}
			})
		}
	}
}

var names = []string{"a", "A", "ab", "$a", "a.b", "a/b", "a\x00", "é", ".", "$", "\x00", "topic", "_id", " "}

func payloads(d int) []any {
	leaves := []any{nil, false, true, 0.0, -1.5, 1e300, "", "x", "é\u0000\U0001F600", float64(1 << 53)}
	if d == 0 {
		return leaves
	}
	sub := payloads(d - 1)
	v := append([]any{}, leaves...)
	v = append(v, []any{}, map[string]any{})
	for _, x := range sub {
		v = append(v, []any{x}, map[string]any{"k": x}, map[string]any{"$set": x, "a.b": "y"}, map[string]any{"": x, "_id": 1.0})
	}
	return v
}
