package mon

import (
	"fmt"
	"strings"
	"time"

	"go.mongodb.org/mongo-driver/bson"

	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
	"github.com/hyperonym/ratus/internal/zverif/mongod"
)

func init() { parts["C20/races"] = c20races }

// c20races lets one client lose the race for a task again and again: whenever
// it is about to modify a task, another client is faster. However often that
// happens, the operation takes effect on what there is in the end.
func c20races(c *core.Ctx) {
	first := func(m *model.Model) string {
		id := ""
		for _, k := range m.S.IDs() {
			t := m.S[k]
			if t.State == 0 && t.Topic == "a" && (id == "" || t.Scheduled.Before(*m.S[id].Scheduled)) {
				id = k
			}
		}
		return id
	}
	claimFirst := func(m *model.Model, i int) Op {
		return Op{K: "insertPromise", ID: first(m), Consumer: "rival", DeadIn: p(sec)}
	}
	rivals := []struct {
		name string
		op   func(m *model.Model, i int) Op
	}{
		{"claims the first task", claimFirst},
		{"polls", func(m *model.Model, i int) Op { return Op{K: "poll", Topic: "a", Consumer: "rival", DeadIn: p(sec)} }},
		{"deletes the first task", func(m *model.Model, i int) Op { return Op{K: "deleteTask", ID: first(m)} }},
		{"moves the first task", func(m *model.Model, i int) Op {
			return Op{K: "commit", ID: first(m), State: st(0), NewTopic: "b"}
		}},
		{"archives the first task", func(m *model.Model, i int) Op { return Op{K: "commit", ID: first(m), State: st(3)} }},
		{"claims or gives up the middle task", func(m *model.Model, i int) Op {
			if i%2 == 0 {
				return Op{K: "upsertPromise", ID: "t000", Consumer: fmt.Sprint("rival", i), DeadIn: p(sec)}
			}
			return Op{K: "deletePromise", ID: "t000"}
		}},
		{"claims the middle task", func(m *model.Model, i int) Op {
			return Op{K: "upsertPromise", ID: "t000", Consumer: fmt.Sprint("rival", i), DeadIn: p(sec)}
		}},
		{"moves the middle task to and fro", func(m *model.Model, i int) Op {
			return Op{K: "commit", ID: "t000", NewTopic: []string{"b", "a"}[i%2]}
		}},
		{"replaces the middle task", func(m *model.Model, i int) Op {
			t := pend("t000", []string{"b", "a"}[i%2], -Off(i)*sec)
			return Op{K: "upsertTask", Ts: []TS{t}}
		}},
	}
	victims := []Op{
		{K: "poll", Topic: "a", Consumer: "victim", DeadIn: p(2 * sec)},
		{K: "upsertPromise", ID: "t000", Consumer: "victim", DeadIn: p(2 * sec)},
	}
	top := 70
	limits := []int{100, 128, 256}
	if c.Thorough() {
		top, limits = 300, []int{512, 1000, 1024}
	}
	var lengths []int
	for k := 1; k <= top; k++ {
		lengths = append(lengths, k)
	}
	for _, l := range limits {
		lengths = append(lengths, l, l+1)
	}
	in(c.T, func(s *site) {
		for _, md := range modes {
			if md.fallback == 0 && !md.noAtomic && md.shard == nil {
				continue
			}
			for _, k := range lengths {
				for _, r := range rivals {
					for _, v := range victims {
						for spare := 0; spare < 2; spare++ {
							if c.Take() {
								race(c, s, md, k, r.name, r.op, v, spare)
							}
							if c.Stopped() {
								return
							}
						}
					}
				}
			}
		}
	})
}

func race(c *core.Ctx, s *site, md mode, k int, name string, rival func(*model.Model, int) Op, victim Op, spare int) {
	detail := func() any {
		return map[string]any{"mode": md.name, "races": k, "rival": name, "operation": victim.String(), "spare": spare}
	}
	c.Guard(detail, func() {
		s.srv.Gate, s.srv.Shard = nil, nil
		s.clear()
		base := time.Now()
		m := model.New(model.Cfg{TimeMs: true, NoExpire: true, LaxUpdated: true})
		g, err := s.engine("c1", md)
		if err != nil {
			c.Violation("open", err.Error(), detail())
			return
		}
		h, err := s.engine("c2", modes[0])
		if err != nil {
			c.Violation("open", err.Error(), detail())
			return
		}
		var ids []string
		s.srv.With(func(colls map[string]*mongod.Coll) {
			// The tasks the rival takes, and none or one more.
			for i := 0; i < k+spare; i++ {
				t := pend(fmt.Sprintf("t%03d", i), "a", -hour+Off(i*7919%(k+2))*sec)
				task := t.Task(base)
				m.S[t.ID] = task
				ids = append(ids, t.ID)
				b, err := bson.Marshal(task)
				if err != nil {
					panic(err)
				}
				var d mongod.D
				if err := bson.Unmarshal(b, &d); err != nil {
					panic(err)
				}
				colls[collName].Docs = append(colls[collName].Docs, d)
			}
		})
		done := 0
		var wrong string
		s.srv.Gate = func(cmd *mongod.Cmd) {
			if cmd.Host != "c1" || cmd.Name != "findAndModify" || done == k || wrong != "" {
				return
			}
			i := done
			done++
			op := rival(m, i)
			call := m.Resolve(op, base, time.Now())
			res := model.Exec(bg, h, call, true)
			if err := m.Apply(call, res, nil); err != nil {
				wrong = fmt.Sprintf("rival's %s: %v", op, err)
			}
		}
		// What a rival gives back after the victim has looked is not missed by it.
		call := m.Resolve(victim, base, time.Now())
		res := model.Exec(bg, g, call, true)
		s.srv.Gate = nil
		m.Cfg.AnyDue = strings.Contains(name, "middle")
		if wrong == "" {
			if err := m.Apply(call, res, nil); err != nil {
				wrong = fmt.Sprintf("after %d rival operations %s: %v", done, victim, err)
			}
		}
		if wrong == "" {
			obs, err := s.contents()
			if err != nil {
				wrong = err.Error()
			} else {
				wrong = m.Compare(obs)
			}
		}
		if wrong != "" {
			c.Violation("race", fmt.Sprintf("%s, another client %s each time: %s", md.name, name, wrong), detail())
			return
		}
		c.Count("histories", 1)
		c.Count("schedules", 1)
		c.Count("transitions", int64(done)+1)
		c.Distinct("states", fmt.Sprint(md.name, name, victim.K, done, model.Kind(res.Err), spare))
		c.Sample(func() string { return fmt.Sprintf("%v: %d races lost, %s", detail(), done, res) })
	})
}
