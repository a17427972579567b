package conc

import (
	"fmt"

	"github.com/hyperonym/ratus/internal/zverif/core"
)

func pend(id, topic string, sched Off) TS {
	return TS{ID: id, Topic: topic, Sched: p(sched), Prod: p(-hour), Producer: "prod", Payload: "p" + id}
}

func nonceOf(id string) string { return "0123456789abcde" + id[:1] }

func active(id, topic string, dead *Off) TS {
	t := pend(id, topic, -sec)
	t.State, t.Nonce, t.Consumer, t.Cons, t.Dead = 1, nonceOf(id), "c0", p(-2*sec), dead
	return t
}

func completed(id, topic string, cons Off) TS {
	t := pend(id, topic, -sec)
	t.State, t.Consumer, t.Cons, t.Dead = 2, "c0", p(cons), p(-sec)
	return t
}

func upsert(t TS) Op { return Op{K: "upsertTask", Ts: []TS{t}} }
func insert(t TS) Op { return Op{K: "insertTask", Ts: []TS{t}} }

func poll(topic, who string) Op {
	return Op{K: "poll", Topic: topic, Consumer: who, DeadIn: p(2 * sec)}
}
func claim(id, who string) Op {
	return Op{K: "insertPromise", ID: id, Consumer: who, DeadIn: p(2 * sec)}
}
func force(id, who string) Op {
	return Op{K: "upsertPromise", ID: id, Consumer: who, DeadIn: p(2 * sec)}
}
func commit(id, n string, s int32) Op {
	return Op{K: "commit", ID: id, N: n, State: st(s)}
}

var chore = Op{K: "chore"}

var (
	dbPending = []TS{pend("1", "a", -sec), pend("2", "a", -2*sec)}
	dbOne     = []TS{pend("1", "a", -sec)}
	dbActive  = []TS{active("1", "a", p(sec)), pend("2", "a", -sec)}
	dbExpired = []TS{active("1", "a", p(-sec)), completed("2", "a", -2*hour), pend("3", "b", -sec)}
	dbMixed   = []TS{active("1", "a", p(hour)), active("2", "b", p(-sec)), completed("3", "a", -2*hour)}
)

func everyOp() []Op {
	return []Op{
		poll("a", "x"), claim("1", "y"), force("1", "z"),
		commit("1", nonceOf("1"), 2), commit("1", "", 0), {K: "commit", ID: "1", State: st(0), NewTopic: "b"},
		{K: "deletePromise", ID: "1"}, {K: "deletePromises", Topic: "a"}, chore,
		insert(pend("1", "a", -sec)), upsert(pend("1", "b", -3*sec)),
		{K: "insertTasks", Ts: []TS{pend("1", "a", -sec), pend("3", "b", -sec)}},
		{K: "upsertTasks", Ts: []TS{pend("2", "b", -sec), pend("1", "b", -sec)}},
		{K: "deleteTask", ID: "1"}, {K: "deleteTasks", Topic: "a"}, {K: "deleteTopics"},
		{K: "getTask", ID: "1"}, {K: "getPromise", ID: "1"}, {K: "getTopic", Topic: "a"},
		{K: "listTasks", Topic: "a", Limit: 9}, {K: "listPromises", Topic: "a", Limit: 9}, {K: "listTopics", Limit: 9},
		poll("b", "v"), {K: "deleteTopic", Topic: "b"},
	}
}

func label(op Op, who string) Op {
	if op.Consumer != "" {
		op.Consumer = who
	}
	return op
}

// tuples enumerates multisets of k clients out of the given programs.
func tuples(progs [][]Op, k int, f func([][]Op) bool) {
	idx := make([]int, k)
	for {
		cs := make([][]Op, k)
		for i, x := range idx {
			for _, op := range progs[x] {
				cs[i] = append(cs[i], label(op, fmt.Sprintf("c%d", i+1)))
			}
		}
		if !f(cs) {
			return
		}
		i := k - 1
		for ; i >= 0 && idx[i] == len(progs)-1; i-- {
		}
		if i < 0 {
			return
		}
		idx[i]++
		for j := i + 1; j < k; j++ {
			idx[j] = idx[i]
		}
	}
}

func single(ops []Op) [][]Op {
	var v [][]Op
	for _, o := range ops {
		v = append(v, []Op{o})
	}
	return v
}

func seqs(ops []Op) [][]Op {
	var v [][]Op
	for _, a := range ops {
		for _, b := range ops {
			v = append(v, []Op{a, b})
		}
	}
	return v
}

func scenarios(c *core.Ctx, name string, dbs [][]TS, progs [][]Op, k, bound int, snap bool) bool {
	w := &world{c: c, ids: []string{"1", "2", "3"}, tops: []string{"a", "b"}}
	for _, db := range dbs {
		tuples(progs, k, func(cs [][]Op) bool {
			if c.Take() {
				w.run(Scenario{Name: name, Init: db, Clients: cs, Bound: bound, Snap: snap})
			}
			return !c.Stopped()
		})
		if c.Stopped() {
			return false
		}
	}
	return true
}

func pick(c *core.Ctx, quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

var claims = []Op{poll("a", "x"), claim("1", "x"), claim("2", "x"), force("1", "x")}

var enders = []Op{
	commit("1", nonceOf("1"), 2), commit("1", "", 0), {K: "deletePromise", ID: "1"}, {K: "deletePromises", Topic: "a"}, chore,
	upsert(pend("1", "a", -sec)), {K: "deleteTask", ID: "1"},
	{K: "insertTasks", Ts: []TS{pend("1", "a", -sec), pend("2", "a", -sec)}},
}

var allDBs = [][]TS{dbPending, dbActive, dbExpired, dbMixed, nil}

var parts = map[string]func(*core.Ctx){
	// Claims: two and three claimants, claimants against everything that
	// ends or creates claims, and clients that claim twice.
	"C01/sync": func(c *core.Ctx) {
		ops := append(append([]Op{}, claims...), enders...)
		_ = scenarios(c, "pairs", allDBs, single(ops), 2, -1, false) &&
			scenarios(c, "triples of claims", [][]TS{dbPending, dbOne, dbExpired}, single(claims), 3, -1, false) &&
			scenarios(c, "triples", [][]TS{dbPending, dbActive, dbExpired}, single(ops), 3, pick(c, 3, -1), false) &&
			scenarios(c, "two operations each", [][]TS{dbPending, dbExpired}, seqs(append(append([]Op{}, claims[:2]...), chore, commit("1", "own", 0), Op{K: "deletePromise", ID: "1"})), 2, pick(c, 3, -1), false)
	},
	"C01/steps": func(c *core.Ctx) {
		ops := append(append([]Op{}, claims...), enders...)
		_ = scenarios(c, "pairs", [][]TS{dbPending, dbExpired}, single(ops), 2, pick(c, 2, 3), false) &&
			scenarios(c, "pairs of claims", [][]TS{dbPending}, single(claims), 2, 2, false)
	},
	// Commits against each other and against everything that ends a claim.
	"C02/sync": func(c *core.Ctx) {
		ops := append([]Op{
			commit("1", nonceOf("1"), 2), commit("1", nonceOf("1"), 0), commit("1", "stale-nonce-0000", 2), {K: "commit", ID: "1", N: nonceOf("1"), State: st(0), NewTopic: "b", Payload: "new"},
			poll("a", "x"), force("1", "x"), claim("1", "x"),
		}, enders[1:]...)
		cl := []Op{poll("a", "x"), commit("1", "own", 2), chore, force("1", "x"), commit("1", nonceOf("1"), 0)}
		_ = scenarios(c, "pairs", allDBs, single(ops), 2, -1, false) &&
			scenarios(c, "triples", [][]TS{dbActive, dbExpired}, single(ops), 3, pick(c, 3, -1), false) &&
			scenarios(c, "two operations each", [][]TS{dbOne, dbActive, dbExpired}, seqs(cl), 2, pick(c, 3, -1), false)
	},
	"C02/steps": func(c *core.Ctx) {
		ops := append([]Op{commit("1", nonceOf("1"), 2), commit("1", nonceOf("1"), 0), {K: "commit", ID: "1", N: nonceOf("1"), State: st(0), NewTopic: "b", Payload: "new"}, poll("a", "x"), force("1", "x")}, enders[1:]...)
		_ = scenarios(c, "pairs", [][]TS{dbActive, dbExpired}, single(ops), 2, pick(c, 2, 3), false)
	},
	// Everything against everything.
	"C07/sync": func(c *core.Ctx) {
		few := []Op{poll("a", "x"), commit("1", "own", 2), chore, upsert(pend("1", "b", -sec)), {K: "listTasks", Topic: "a", Limit: 9}, {K: "deleteTasks", Topic: "a"}, {K: "insertTasks", Ts: []TS{pend("1", "a", -sec), pend("2", "a", -sec)}}, {K: "getTopic", Topic: "a"}}
		some := everyOp()
		if !c.Thorough() {
			some = few
		}
		_ = scenarios(c, "pairs", allDBs, single(everyOp()), 2, -1, false) &&
			scenarios(c, "triples", [][]TS{dbExpired, dbActive, nil}, single(some), 3, pick(c, 2, -1), false) &&
			scenarios(c, "two operations each", [][]TS{dbActive, dbExpired}, seqs(few), 2, pick(c, 2, -1), false)
	},
	"C07/steps": func(c *core.Ctx) {
		_ = scenarios(c, "pairs", [][]TS{dbExpired, dbActive, nil}, single(everyOp()), 2, pick(c, 2, 3), false)
	},
	"C07/large":    large,
	"C11/large":    large,
	"C10/crash":    crashPart,
	"C11/sync":     cutPart,
	"C11/steps":    cutSteps,
	"C11/schedule": schedulePart,
}
