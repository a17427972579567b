package mon

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"go.mongodb.org/mongo-driver/bson"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
	"github.com/hyperonym/ratus/internal/zverif/mongod"
)

func init() {
	parts["C20/pairs"] = c20pairs
	parts["C20/triples"] = c20triples
	parts["C20/programs"] = c20programs
}

// Client runs its operations one after the other on an engine of its own.
type Client struct {
	Mode string `json:"mode"`
	Ops  []Op   `json:"ops"`
}

// Scenario is a database and clients that use it at the same time.
type Scenario struct {
	Name    string   `json:"name"`
	Init    []TS     `json:"init"`
	Clients []Client `json:"clients"`
	Shard   []string `json:"shard,omitempty"`
}

type rec struct {
	client   int
	call     *model.Call
	res      model.Result
	from, to int
	ran      bool
}

func (r *rec) String() string {
	return fmt.Sprintf("client %d [%d,%d] %s -> %s", r.client, r.from, r.to, r.call.Op, r.res)
}

type execution struct {
	choices [][2]int // taken, alternatives
	recs    []*rec
	trace   []string
	obs     model.State
	bad     string
	steps   int
}

type waiting struct {
	host string
	cmd  *mongod.Cmd
	ch   chan struct{}
}

// arena runs scenarios on one server.
type arena struct {
	c  *core.Ctx
	s  *site
	mu sync.Mutex
	w  []*waiting
	on bool
}

func newArena(c *core.Ctx, s *site) *arena {
	a := &arena{c: c, s: s}
	s.srv.Gate = func(cmd *mongod.Cmd) {
		a.mu.Lock()
		if !a.on {
			a.mu.Unlock()
			return
		}
		w := &waiting{cmd.Host, cmd, make(chan struct{})}
		a.w = append(a.w, w)
		a.mu.Unlock()
		<-w.ch
	}
	return a
}

func modeNamed(name string) mode {
	for _, m := range modes {
		if m.name == name {
			return m
		}
	}
	return mode{name: name}
}

const stepLimit = 150

// execute runs a scenario once, following the prefix and then always the
// first alternative.
func (a *arena) execute(sc Scenario, prefix []int, verbose bool) (o execution) {
	s := a.s
	a.on = false
	s.srv.Shard = nil
	s.clear()
	base := time.Now()
	start := model.New(model.Cfg{TimeMs: true, NoExpire: true, LaxUpdated: true})
	engines := make([]*mongodb.Engine, len(sc.Clients))
	for i, cl := range sc.Clients {
		g, err := s.engine(fmt.Sprintf("c%d", i+1), modeNamed(cl.Mode))
		if err != nil {
			o.bad = err.Error()
			return
		}
		engines[i] = g
	}
	s.srv.With(func(c map[string]*mongod.Coll) {
		for _, t := range sc.Init {
			task := t.Task(base)
			start.S[t.ID] = task
			if t.Nonce != "" {
				start.Issued[t.Nonce] = true
			}
			b, err := bson.Marshal(task)
			if err != nil {
				o.bad = err.Error()
				return
			}
			var d mongod.D
			if err := bson.Unmarshal(b, &d); err != nil {
				o.bad = err.Error()
				return
			}
			c[collName].Docs = append(c[collName].Docs, d)
		}
	})
	if o.bad != "" {
		return
	}
	s.srv.Shard = sc.Shard
	var clock, left int
	a.w = nil
	a.on = true
	var recs []*rec
	for i, cl := range sc.Clients {
		rs := make([]*rec, len(cl.Ops))
		for j := range rs {
			rs[j] = &rec{client: i + 1}
		}
		recs = append(recs, rs...)
		left++
		go func() {
			own := ""
			for j, op := range cl.Ops {
				r := rs[j]
				if op.N == "own" {
					if op.N = own; own == "" {
						op.N = "no-claim-granted"
					}
				}
				a.mu.Lock()
				r.call = start.Resolve(op, base, base)
				clock++
				r.from = clock
				a.mu.Unlock()
				r.res = model.Exec(bg, engines[i], r.call, true)
				a.mu.Lock()
				clock++
				r.to, r.ran = clock, true
				a.mu.Unlock()
				if r.res.Task != nil && (op.K == "poll" || op.K == "insertPromise" || op.K == "upsertPromise") {
					own = r.res.Task.Nonce
				}
			}
			a.mu.Lock()
			left--
			a.mu.Unlock()
		}()
	}
	for {
		synctest.Wait()
		a.mu.Lock()
		n, done := len(a.w), left == 0
		a.mu.Unlock()
		if done {
			break
		}
		if n == 0 {
			// Something may be sleeping rather than stuck.
			time.Sleep(time.Minute)
			synctest.Wait()
			if len(a.w) == 0 && left > 0 {
				o.bad = "stuck: an operation neither ends nor sends a command"
				for _, r := range recs {
					if !r.ran && r.call != nil {
						o.bad += fmt.Sprintf("; client %d %s", r.client, r.call.Op)
					}
				}
				a.on = false
				return
			}
			continue
		}
		if o.steps == stepLimit {
			o.bad = fmt.Sprintf("operations do not end: %d commands executed", o.steps)
			a.flush()
			return
		}
		sort.SliceStable(a.w, func(i, j int) bool { return a.w[i].host < a.w[j].host })
		k := 0
		if n > 1 {
			if d := len(o.choices); d < len(prefix) {
				k = prefix[d]
			}
			if k >= n {
				o.bad = "nondeterministic"
				a.flush()
				return
			}
			o.choices = append(o.choices, [2]int{k, n})
		}
		w := a.w[k]
		a.w = append(a.w[:k:k], a.w[k+1:]...)
		if verbose {
			o.trace = append(o.trace, w.host+": "+w.cmd.String())
		}
		o.steps++
		close(w.ch)
	}
	a.on = false
	o.recs = recs
	obs, err := s.contents()
	if err != nil {
		o.bad = err.Error()
		return
	}
	o.obs = obs
	o.bad = judge(sc, start, recs, obs)
	return
}

// flush lets everything run to its end.
func (a *arena) flush() {
	a.mu.Lock()
	a.on = false
	for _, w := range a.w {
		close(w.ch)
	}
	a.w = nil
	a.mu.Unlock()
	synctest.Wait()
}

// progress of an operation: batches and replacements may take effect one task
// at a time, and replacements also by deletion and insertion.
type progress struct {
	step             int
	created, deleted int64
	same             int64
	done             bool
}

func batch(op Op) bool { return op.K == "insertTasks" || op.K == "upsertTasks" || op.K == "upsertTask" }

// advance takes the next step of an operation; all says what the outcome may
// be. It returns the possible progress.
func advance(m *model.Model, r *rec, p progress, fallback bool) (progress, error) {
	if !batch(r.call.Op) {
		p.done = true
		return p, m.Apply(r.call, r.res, nil)
	}
	if r.res.Err != nil {
		return p, fmt.Errorf("failed: %v", r.res.Err)
	}
	ts := r.call.Tasks
	n := len(ts)
	switch {
	case r.call.Op.K == "insertTasks" || fallback && p.step >= n:
		if n > 0 {
			t := ts[p.step%n]
			if m.S[t.ID] == nil {
				m.S[t.ID] = model.CopyTask(t)
				p.created++
			}
		}
	case fallback:
		t := ts[p.step]
		if m.S[t.ID] != nil {
			delete(m.S, t.ID)
			p.deleted++
		}
	default:
		if n > 0 {
			t := ts[p.step]
			switch old := m.S[t.ID]; {
			case old == nil:
				p.created++
			case m.EqTask(t, old) == "":
				p.same++
				p.deleted++
			default:
				p.deleted++
			}
			m.S[t.ID] = model.CopyTask(t)
		}
	}
	p.step++
	total := n
	if fallback && r.call.Op.K != "insertTasks" {
		total = 2 * n
	}
	if p.step < total {
		return p, nil
	}
	p.done = true
	u := r.res.Updated
	if u == nil {
		return p, fmt.Errorf("no counts")
	}
	switch {
	case r.call.Op.K == "insertTasks":
		if u.Created != p.created || u.Updated != 0 {
			return p, fmt.Errorf("reported %s, expected %d created", r.res, p.created)
		}
	case fallback:
		if u.Created != int64(n)-p.deleted || u.Updated != p.deleted {
			return p, fmt.Errorf("reported %s, expected %d created and %d updated", r.res, int64(n)-p.deleted, p.deleted)
		}
	default:
		if u.Created != p.created || u.Updated > p.deleted || u.Updated < p.deleted-p.same {
			return p, fmt.Errorf("reported %s, expected %d created and %d updated", r.res, p.created, p.deleted)
		}
	}
	return p, nil
}

// touches returns whether a successful operation may have changed the task.
func touches(r *rec, id string) bool {
	if r.res.Err != nil {
		return false
	}
	switch op := r.call.Op; op.K {
	case "poll":
		return r.res.Task != nil && r.res.Task.ID == id
	case "commit", "insertPromise", "upsertPromise":
		return op.ID == id
	case "deleteTask", "deletePromise":
		return op.ID == id && r.res.Deleted != nil && r.res.Deleted.Deleted > 0
	case "deleteTasks", "deleteTopic", "deleteTopics", "deletePromises":
		return r.res.Deleted != nil && r.res.Deleted.Deleted > 0
	case "chore":
		return true
	case "insertTask", "insertTasks", "upsertTask", "upsertTasks":
		for _, t := range r.call.Tasks {
			if t.ID == id {
				return true
			}
		}
	}
	return false
}

// judge looks for an order that explains the results and the contents.
func judge(sc Scenario, start *model.Model, recs []*rec, obs model.State) string {
	for _, r := range recs {
		switch k := model.Kind(r.res.Err); k {
		case "", "notfound", "conflict":
		default:
			return fmt.Sprintf("client %d: %s failed: %s", r.client, r.call.Op, k)
		}
	}
	why, ok := order(sc, start, recs, obs)
	if ok {
		return ""
	}
	// An operation that failed because the task changed under it has no
	// effect and may report either error.
	rest := make([]*rec, 0, len(recs))
	for _, r := range recs {
		excused := false
		if r.res.Err != nil && (r.call.Op.K == "commit" || r.call.Op.K == "insertPromise") {
			for _, q := range recs {
				if q.client != r.client && q.from < r.to && q.to > r.from && touches(q, r.call.Op.ID) {
					excused = true
				}
			}
		}
		if !excused {
			rest = append(rest, r)
		}
	}
	if len(rest) < len(recs) {
		if _, ok := order(sc, start, rest, obs); ok {
			return ""
		}
	}
	// A poll that peeked at a task before it was rescheduled may take it.
	for _, r := range rest {
		if r.call.Op.K == "poll" && r.res.Task != nil {
			for _, q := range recs {
				if q.client != r.client && q.from < r.to && q.to > r.from && touches(q, r.res.Task.ID) {
					m := start.Clone()
					m.Cfg.AnyDue = true
					if _, ok := order(sc, m, rest, obs); ok {
						return ""
					}
				}
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("no sequential order explains the results (" + why + "):")
	for _, r := range recs {
		sb.WriteString("\n  " + r.String())
	}
	fmt.Fprintf(&sb, "\n  start = %s\n  final = %s", start.S, obs)
	return sb.String()
}

func order(sc Scenario, start *model.Model, recs []*rec, obs model.State) (why string, ok bool) {
	prog := make([]progress, len(recs))
	fb := make([]bool, len(recs))
	for i, r := range recs {
		fb[i] = sc.Clients[r.client-1].Mode == "fallback" || sc.Shard != nil
	}
	var try func(m *model.Model, left int) bool
	try = func(m *model.Model, left int) bool {
		if left == 0 {
			if s := m.Compare(obs); s != "" {
				why = "final contents: " + s
				return false
			}
			return true
		}
		for i, r := range recs {
			if prog[i].done {
				continue
			}
			blocked := false
			for j, q := range recs {
				if !prog[j].done && j != i && q.to < r.from {
					blocked = true
					break
				}
			}
			if blocked {
				continue
			}
			was := prog[i]
			n := m.Clone()
			p, err := advance(n, r, was, fb[i])
			if err != nil {
				why = r.call.Op.String() + ": " + err.Error()
				continue
			}
			prog[i] = p
			l := left
			if p.done {
				l--
			}
			if try(n, l) {
				return true
			}
			prog[i] = was
		}
		return false
	}
	ok = try(start, len(recs))
	return
}

// explore enumerates all interleavings of the commands of one scenario.
func (a *arena) explore(sc Scenario) {
	c := a.c
	c.Guard(func() any { return sc }, func() {
		var prefix []int
		for {
			o := a.execute(sc, prefix, false)
			c.Tick()
			c.Count("schedules", 1)
			c.Count("schedules: "+sc.Name, 1)
			c.Count("transitions", int64(o.steps))
			if o.bad == "nondeterministic" {
				c.NotExhaustive("a schedule could not be repeated (" + sc.Name + ")")
				return
			}
			if o.bad != "" {
				det := map[string]any{"scenario": sc, "schedule": prefix}
				if !strings.HasPrefix(o.bad, "stuck") {
					det["trace"] = a.execute(sc, prefix, true).trace
				}
				c.Violation("linearizability", o.bad, det)
				return
			}
			c.Distinct("states", outcome(o))
			c.Sample(func() string {
				b, _ := json.Marshal(sc)
				return string(b) + " schedule: " + strings.Join(a.execute(sc, prefix, true).trace, ", ")
			})
			if c.Late() {
				return
			}
			i := len(o.choices) - 1
			for ; i >= 0 && o.choices[i][0]+1 == o.choices[i][1]; i-- {
			}
			if i < 0 {
				return
			}
			prefix = prefix[:0]
			for j := 0; j < i; j++ {
				prefix = append(prefix, o.choices[j][0])
			}
			prefix = append(prefix, o.choices[i][0]+1)
		}
	})
	c.Count("histories", 1)
}

func outcome(o execution) string {
	var sb strings.Builder
	for _, r := range o.recs {
		sb.WriteString(r.call.Op.K)
		sb.WriteString(model.Kind(r.res.Err))
		if r.res.Task != nil {
			sb.WriteString(r.res.Task.ID)
		}
		if r.res.Deleted != nil {
			fmt.Fprint(&sb, r.res.Deleted.Deleted)
		}
		sb.WriteByte(';')
	}
	for _, id := range o.obs.IDs() {
		t := o.obs[id]
		fmt.Fprintf(&sb, "%s %s %d %s;", id, t.Topic, t.State, t.Consumer)
	}
	return sb.String()
}

func pollOp(topic string) Op { return Op{K: "poll", Topic: topic, Consumer: "x", DeadIn: p(2 * sec)} }
func claimOp(id string) Op {
	return Op{K: "insertPromise", ID: id, Consumer: "x", DeadIn: p(2 * sec)}
}
func forceOp(id string) Op {
	return Op{K: "upsertPromise", ID: id, Consumer: "x", DeadIn: p(2 * sec)}
}
func commitOp(id, n string, s int32) Op { return Op{K: "commit", ID: id, N: n, State: st(s)} }
func nonceOf(id string) string          { return "0123456789abcde" + id[:1] }

func done(id, topic string) TS {
	t := pend(id, topic, -sec)
	t.State, t.Consumer, t.Cons, t.Dead = 2, "c0", p(-2*hour), p(-sec)
	return t
}

var chore = Op{K: "chore"}

var (
	dbPending = []TS{pend("1", "a", -sec), pend("2", "a", -2*sec)}
	dbActive  = []TS{active("1", "a", p(sec)), pend("2", "a", -sec)}
	dbExpired = []TS{active("1", "a", p(-sec)), done("2", "a"), pend("3", "b", -sec)}
	dbMixed   = []TS{active("1", "a", p(hour)), active("2", "b", p(-sec)), done("3", "a")}
	allDBs    = [][]TS{dbPending, dbActive, dbExpired, dbMixed, nil}
)

func everyOp() []Op {
	return []Op{
		pollOp("a"), claimOp("1"), forceOp("1"),
		commitOp("1", nonceOf("1"), 2), commitOp("1", "", 0), {K: "commit", ID: "1", State: st(0), NewTopic: "b"},
		{K: "commit", ID: "2", State: st(0), Sched: p(hour)}, {K: "commit", ID: "2", N: "", Sched: p(-500 * ms), Payload: "new"},
		{K: "deletePromise", ID: "1"}, {K: "deletePromises", Topic: "a"}, chore,
		insert("1", "a", -sec), upsert(pend("1", "b", -3*sec)),
		{K: "insertTasks", Ts: []TS{pend("1", "a", -sec), pend("3", "b", -sec)}},
		{K: "upsertTasks", Ts: []TS{pend("2", "b", -sec), pend("1", "b", -sec)}},
		{K: "deleteTask", ID: "1"}, {K: "deleteTasks", Topic: "a"}, {K: "deleteTopics"},
		{K: "getTask", ID: "1"}, {K: "getPromise", ID: "1"}, {K: "getTopic", Topic: "a"},
		{K: "listTasks", Topic: "a", Limit: 9}, {K: "listPromises", Topic: "a", Limit: 9}, {K: "listTopics", Limit: 9},
		pollOp("b"), {K: "deleteTopic", Topic: "b"}, upsert(pend("2", "a", hour)),
	}
}

func label(op Op, who string) Op {
	if op.Consumer != "" {
		op.Consumer = who
	}
	return op
}

func single(ops []Op) [][]Op {
	var v [][]Op
	for _, o := range ops {
		v = append(v, []Op{o})
	}
	return v
}

func seqs(a, b []Op) [][]Op {
	var v [][]Op
	for _, x := range a {
		for _, y := range b {
			v = append(v, []Op{x, y})
		}
	}
	return v
}

// combos are the modes of up to three clients.
type combo struct {
	modes []string
	shard []string
}

var combos2 = []combo{
	{modes: []string{"fallback", "fallback"}},
	{modes: []string{"preferred", "fallback"}},
	{modes: []string{"preferred", "preferred"}},
	{modes: []string{"preferred", "preferred"}, shard: []string{"topic", "_id"}},
	{modes: []string{"fallback", "preferred"}},
	{modes: []string{"non-atomic poll", "preferred"}},
}

// scenarios explores all tuples of programs. With clients in the same mode
// the order of the programs does not matter.
func (a *arena) scenarios(name string, dbs [][]TS, progs [][]Op, cb combo) bool {
	k := len(cb.modes)
	same := true
	for _, m := range cb.modes {
		same = same && m == cb.modes[0]
	}
	for _, db := range dbs {
		idx := make([]int, k)
		for {
			skip := false
			for i := 1; i < k && same; i++ {
				skip = skip || idx[i] < idx[i-1]
			}
			if !skip {
				if a.c.Take() {
					sc := Scenario{Name: name, Init: db, Shard: cb.shard}
					for i, x := range idx {
						cl := Client{Mode: cb.modes[i]}
						for _, op := range progs[x] {
							cl.Ops = append(cl.Ops, label(op, fmt.Sprintf("c%d", i+1)))
						}
						sc.Clients = append(sc.Clients, cl)
					}
					a.explore(sc)
				}
				if a.c.Stopped() {
					return false
				}
			}
			i := k - 1
			for ; i >= 0; i-- {
				if idx[i]++; idx[i] < len(progs) {
					break
				}
				idx[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
	return true
}

func c20pairs(c *core.Ctx) {
	in(c.T, func(s *site) {
		a := newArena(c, s)
		for _, cb := range combos2 {
			if !a.scenarios("pairs", allDBs, single(everyOp()), cb) {
				return
			}
		}
	})
}

var claims = []Op{pollOp("a"), claimOp("1"), forceOp("1")}

func c20triples(c *core.Ctx) {
	in(c.T, func(s *site) {
		a := newArena(c, s)
		ops := append(append([]Op{}, claims...), commitOp("1", nonceOf("1"), 2), commitOp("1", "", 0), chore, upsert(pend("1", "a", -sec)), Op{K: "deleteTask", ID: "1"}, Op{K: "deletePromise", ID: "1"})
		if c.Thorough() {
			ops = everyOp()
		}
		for _, cb := range []combo{
			{modes: []string{"fallback", "fallback", "fallback"}},
			{modes: []string{"preferred", "preferred", "preferred"}, shard: []string{"topic"}},
			{modes: []string{"fallback", "preferred", "fallback"}},
		} {
			if !a.scenarios("triples", [][]TS{dbPending, dbActive, dbExpired}, single(ops), cb) {
				return
			}
		}
	})
}

func c20programs(c *core.Ctx) {
	in(c.T, func(s *site) {
		a := newArena(c, s)
		first := []Op{pollOp("a"), claimOp("1"), forceOp("1"), chore, {K: "deletePromise", ID: "1"}, upsert(pend("1", "a", -sec))}
		second := []Op{commitOp("1", "own", 2), {K: "commit", ID: "1", N: "own", State: st(0), Sched: p(-sec)}, pollOp("a"), {K: "getTask", ID: "1"}, claimOp("1"), {K: "commit", ID: "2", N: "own", State: st(2)}}
		if c.Thorough() {
			first, second = append(first, everyOp()...), append(second, everyOp()...)
		}
		for _, cb := range combos2[:2] {
			if !a.scenarios("two operations each", [][]TS{dbPending, dbExpired}, seqs(first, second), cb) {
				return
			}
		}
	})
}

var _ = ratus.TaskStatePending
