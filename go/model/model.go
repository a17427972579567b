// Package model is the reference model of a Ratus storage engine: a plain map
// from task ID to task, and for every operation the relation between the state
// before, the arguments, the result and the state after. It is written against
// the documented behaviour only and knows nothing about any engine.
package model

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/hyperonym/ratus"
)

// Off is a point in time: nanoseconds relative to the base of a history, or
// one of the absolute sentinels below.
type Off int64

const (
	OffZero     Off = math.MinInt64     // 0001-01-01T00:00:00Z
	OffEpoch    Off = math.MinInt64 + 1 // 1970-01-01T00:00:00Z
	OffPreEpoch Off = math.MinInt64 + 2 // 1 ms before the epoch
	OffFar      Off = math.MaxInt64     // 9999-12-31T23:59:59Z
	Off1600     Off = math.MinInt64 + 3
)

const (
	Ms   = Off(time.Millisecond)
	Sec  = Off(time.Second)
	Hour = Off(time.Hour)
)

// P makes a pointer to an offset.
func P(o Off) *Off { return &o }

// At resolves an offset.
func (o Off) At(base time.Time) time.Time {
	switch o {
	case OffZero:
		return time.Time{}
	case OffEpoch:
		return time.UnixMilli(0).UTC()
	case OffPreEpoch:
		return time.UnixMilli(-1).UTC()
	case Off1600:
		return time.Date(1600, 1, 1, 0, 0, 0, 0, time.UTC)
	case OffFar:
		return time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)
	}
	return base.Add(time.Duration(o))
}

func at(o *Off, base time.Time) *time.Time {
	if o == nil {
		return nil
	}
	t := o.At(base)
	return &t
}

// TS describes a task.
type TS struct {
	ID       string `json:"id"`
	Topic    string `json:"topic"`
	State    int32  `json:"state"`
	Nonce    string `json:"nonce,omitempty"`
	Producer string `json:"producer,omitempty"`
	Consumer string `json:"consumer,omitempty"`
	Prod     *Off   `json:"prod,omitempty"`
	Sched    *Off   `json:"sched,omitempty"`
	Cons     *Off   `json:"cons,omitempty"`
	Dead     *Off   `json:"dead,omitempty"`
	Payload  any    `json:"payload,omitempty"`
}

// Task resolves the description.
func (s TS) Task(base time.Time) *ratus.Task {
	return &ratus.Task{
		ID: s.ID, Topic: s.Topic, State: ratus.TaskState(s.State), Nonce: s.Nonce, Producer: s.Producer, Consumer: s.Consumer,
		Produced: at(s.Prod, base), Scheduled: at(s.Sched, base), Consumed: at(s.Cons, base), Deadline: at(s.Dead, base), Payload: s.Payload,
	}
}

// Op is a symbolic operation.
type Op struct {
	K        string `json:"k"`
	ID       string `json:"id,omitempty"`
	Topic    string `json:"topic,omitempty"`
	Ts       []TS   `json:"ts,omitempty"`
	Consumer string `json:"consumer,omitempty"`
	Dead     *Off   `json:"dead,omitempty"`   // promise deadline, relative to the base
	DeadIn   *Off   `json:"deadin,omitempty"` // promise deadline, relative to now
	N        string `json:"n,omitempty"`      // commit nonce: "", "cur", "old", "bogus"
	State    *int32 `json:"state,omitempty"`
	NewTopic string `json:"newtopic,omitempty"`
	Sched    *Off   `json:"sched,omitempty"`
	Payload  any    `json:"payload,omitempty"`
	D        Off    `json:"d,omitempty"`
	Limit    int    `json:"limit,omitempty"`
	Offset   int    `json:"offset,omitempty"`
}

func (o Op) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

// Call is an operation with concrete arguments.
type Call struct {
	Op      Op
	Tasks   []*ratus.Task
	Promise *ratus.Promise
	Commit  *ratus.Commit
	Before  time.Time
	After   time.Time
	Base    time.Time
}

// Result of an operation.
type Result struct {
	Err      error
	Task     *ratus.Task
	Tasks    []*ratus.Task
	Updated  *ratus.Updated
	Deleted  *ratus.Deleted
	Topic    *ratus.Topic
	Topics   []*ratus.Topic
	Promise  *ratus.Promise
	Promises []*ratus.Promise
}

func (r Result) String() string {
	if r.Err != nil {
		return "error: " + r.Err.Error()
	}
	var v any
	switch {
	case r.Task != nil:
		v = r.Task
	case r.Tasks != nil:
		v = r.Tasks
	case r.Updated != nil:
		v = r.Updated
	case r.Deleted != nil:
		v = r.Deleted
	case r.Topic != nil:
		v = r.Topic
	case r.Topics != nil:
		v = r.Topics
	case r.Promise != nil:
		v = r.Promise
	case r.Promises != nil:
		v = r.Promises
	default:
		return "ok"
	}
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

// Kind names the class of an error.
func Kind(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, ratus.ErrNotFound):
		return "notfound"
	case errors.Is(err, ratus.ErrConflict):
		return "conflict"
	case errors.Is(err, ratus.ErrBadRequest):
		return "badrequest"
	case errors.Is(err, ratus.ErrClientClosedRequest):
		return "clientclosed"
	case errors.Is(err, ratus.ErrServiceUnavailable):
		return "unavailable"
	case errors.Is(err, ratus.ErrInternalServerError):
		return "internal"
	}
	return "other: " + err.Error()
}

// Cfg adapts the relation to what the documentation leaves to an engine.
type Cfg struct {
	TimeMs     bool // times are kept to the millisecond
	Retention  time.Duration
	NoExpire   bool // expiry is not done by the background job
	LaxUpdated bool // identical replacements may not count as updates
	AnyDue     bool // concurrent: a poll may take any due task
	RaceKinds  bool // concurrent: a conflict may be reported as not found and vice versa
}

// State maps IDs to tasks. Tasks in a State are never modified in place.
type State map[string]*ratus.Task

// Clone copies the map.
func (s State) Clone() State {
	n := make(State, len(s)+1)
	for k, v := range s {
		n[k] = v
	}
	return n
}

// IDs lists the IDs in order.
func (s State) IDs() []string {
	v := make([]string, 0, len(s))
	for k := range s {
		v = append(v, k)
	}
	sort.Strings(v)
	return v
}

func (s State) String() string {
	var sb strings.Builder
	for _, k := range s.IDs() {
		b, err := json.Marshal(s[k])
		if err != nil {
			b = []byte(fmt.Sprintf("%+v", s[k]))
		}
		sb.Write(b)
		sb.WriteString("; ")
	}
	return sb.String()
}

// Model is the reference engine.
type Model struct {
	Cfg    Cfg
	S      State
	Issued map[string]bool // nonces handed out so far
	Last   map[string]string
}

// New makes an empty model.
func New(c Cfg) *Model {
	return &Model{Cfg: c, S: State{}, Issued: map[string]bool{}, Last: map[string]string{}}
}

// Clone copies the model.
func (m *Model) Clone() *Model {
	n := &Model{Cfg: m.Cfg, S: m.S.Clone(), Issued: make(map[string]bool, len(m.Issued)), Last: make(map[string]string, len(m.Last))}
	for k, v := range m.Issued {
		n.Issued[k] = v
	}
	for k, v := range m.Last {
		n.Last[k] = v
	}
	return n
}

// Resolve turns a symbolic operation into a call at the given time.
func (m *Model) Resolve(op Op, base, now time.Time) *Call {
	c := &Call{Op: op, Base: base, Before: now, After: now}
	for _, t := range op.Ts {
		c.Tasks = append(c.Tasks, t.Task(base))
	}
	switch op.K {
	case "poll", "insertPromise", "upsertPromise":
		p := &ratus.Promise{Consumer: op.Consumer}
		if op.K != "poll" {
			p.ID = op.ID
		}
		if op.DeadIn != nil {
			t := now.Add(time.Duration(*op.DeadIn))
			p.Deadline = &t
		} else {
			p.Deadline = at(op.Dead, base)
		}
		c.Promise = p
	case "commit":
		x := &ratus.Commit{Topic: op.NewTopic, Payload: op.Payload}
		if op.State != nil {
			s := ratus.TaskState(*op.State)
			x.State = &s
		}
		x.Scheduled = at(op.Sched, base)
		switch op.N {
		case "":
		case "cur":
			x.Nonce = "none-in-force"
			if t := m.S[op.ID]; t != nil && t.Nonce != "" {
				x.Nonce = t.Nonce
			}
		case "old":
			x.Nonce = "none-so-far"
			if v := m.Last[op.ID]; v != "" {
				x.Nonce = v
			}
		case "case", "prefix", "longer", "space", "newline", "nul":
			// Something close to the nonce in force.
			x.Nonce = "none-in-force"
			if t := m.S[op.ID]; t != nil && t.Nonce != "" {
				x.Nonce = near(op.N, t.Nonce)
			}
		default:
			x.Nonce = op.N
		}
		c.Commit = x
	}
	return c
}

// Near lists the kinds of nonces close to, but not equal to, the one in force.
var Near = []string{"case", "prefix", "longer", "space", "newline", "nul"}

func near(kind, n string) string {
	switch kind {
	case "case":
		if u := strings.ToUpper(n); u != n {
			return u
		}
		if l := strings.ToLower(n); l != n {
			return l
		}
		return n + "x"
	case "prefix":
		return n[:len(n)-1]
	case "longer":
		return n + n[:1]
	case "space":
		return " " + n + " "
	case "newline":
		return n + "\n"
	case "nul":
		return n + "\x00"
	}
	panic(kind)
}

// CopyTask copies a task deeply enough that later changes by anyone to the
// original do not show.
func CopyTask(t *ratus.Task) *ratus.Task {
	if t == nil {
		return nil
	}
	u := *t
	u.Produced, u.Scheduled, u.Consumed, u.Deadline = cpT(t.Produced), cpT(t.Scheduled), cpT(t.Consumed), cpT(t.Deadline)
	return &u
}

func cpT(t *time.Time) *time.Time {
	if t == nil {
		return nil
	}
	v := *t
	return &v
}

func (m *Model) eqTime(a, b *time.Time) bool {
	if a == nil || b == nil {
		return a == b
	}
	if m.Cfg.TimeMs {
		return a.UnixMilli() == b.UnixMilli()
	}
	return a.Equal(*b)
}

// EqPayload compares payloads as JSON.
func EqPayload(a, b any) bool {
	if a == nil && b == nil {
		return true
	}
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	x, e1 := json.Marshal(a)
	y, e2 := json.Marshal(b)
	return e1 == nil && e2 == nil && string(x) == string(y)
}

// EqTask compares two tasks; want is what the model expects.
func (m *Model) EqTask(got, want *ratus.Task) string {
	switch {
	case got == nil && want == nil:
		return ""
	case got == nil:
		return "task is missing, expected " + js(want)
	case want == nil:
		return "unexpected task " + js(got)
	}
	d := func(f string, a, b any) string { return fmt.Sprintf("field %s is %v, expected %v", f, a, b) }
	switch {
	case got.ID != want.ID:
		return d("_id", got.ID, want.ID)
	case got.Topic != want.Topic:
		return d("topic", got.Topic, want.Topic)
	case got.State != want.State:
		return d("state", got.State, want.State)
	case got.Nonce != want.Nonce:
		return d("nonce", got.Nonce, want.Nonce)
	case got.Producer != want.Producer:
		return d("producer", got.Producer, want.Producer)
	case got.Consumer != want.Consumer:
		return d("consumer", got.Consumer, want.Consumer)
	case !m.eqTime(got.Produced, want.Produced):
		return d("produced", got.Produced, want.Produced)
	case !m.eqTime(got.Scheduled, want.Scheduled):
		return d("scheduled", got.Scheduled, want.Scheduled)
	case !m.eqTime(got.Consumed, want.Consumed):
		return d("consumed", got.Consumed, want.Consumed)
	case !m.eqTime(got.Deadline, want.Deadline):
		return d("deadline", got.Deadline, want.Deadline)
	case got.Defer != "":
		return d("defer", got.Defer, "empty")
	case !EqPayload(got.Payload, want.Payload):
		return d("payload", js(got.Payload), js(want.Payload))
	}
	return ""
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

// Compare checks a complete observation of the contents against the model.
func (m *Model) Compare(obs State) string {
	for id, w := range m.S {
		if s := m.EqTask(obs[id], w); s != "" {
			return "task " + id + ": " + s
		}
	}
	for id, g := range obs {
		if m.S[id] == nil {
			return "task " + id + ": unexpected task " + js(g)
		}
	}
	return ""
}

// ValidNonce tells whether a nonce has the documented form.
func ValidNonce(n string) bool {
	if len(n) != ratus.NonceLength {
		return false
	}
	for _, c := range n {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return true
}

func recovered(t *ratus.Task) *ratus.Task {
	u := *t
	u.State, u.Nonce = ratus.TaskStatePending, ""
	return &u
}

// claimed checks the result of a granted claim and returns the new task.
func (m *Model) claimed(t *ratus.Task, c *Call, r Result) (*ratus.Task, error) {
	g := r.Task
	if g == nil {
		return nil, errors.New("claim was granted without a task")
	}
	if g.Consumed == nil {
		return nil, errors.New("claimed task has no time of claim")
	}
	lo, hi := c.Before, c.After
	if m.Cfg.TimeMs {
		lo = time.UnixMilli(lo.UnixMilli())
	}
	if g.Consumed.Before(lo) || g.Consumed.After(hi) {
		return nil, fmt.Errorf("time of claim is %v, but the call was made between %v and %v", g.Consumed, c.Before, c.After)
	}
	if !ValidNonce(g.Nonce) {
		return nil, fmt.Errorf("nonce %q is not made of %d letters and digits", g.Nonce, ratus.NonceLength)
	}
	if m.Issued[g.Nonce] {
		return nil, fmt.Errorf("nonce %q was issued before", g.Nonce)
	}
	u := *t
	u.State, u.Nonce, u.Consumer = ratus.TaskStateActive, g.Nonce, c.Promise.Consumer
	u.Consumed, u.Deadline = cpT(g.Consumed), cpT(c.Promise.Deadline)
	if s := m.EqTask(g, &u); s != "" {
		return nil, errors.New("claimed task: " + s)
	}
	m.Issued[g.Nonce] = true
	m.Last[t.ID] = g.Nonce
	return &u, nil
}

func (m *Model) wantErr(r Result, kind string) error {
	k := Kind(r.Err)
	if k == kind {
		return nil
	}
	if k == "" {
		k = "success: " + r.String()
	}
	if kind == "" {
		kind = "success"
	}
	return fmt.Errorf("got %s, expected %s", k, kind)
}

func ub(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// topicOf lists the IDs of the tasks in a topic.
func (m *Model) topicOf(topic string, f func(*ratus.Task) bool) []string {
	var v []string
	for _, id := range m.S.IDs() {
		if t := m.S[id]; t.Topic == topic && (f == nil || f(t)) {
			v = append(v, id)
		}
	}
	return v
}

func wantDeleted(r Result, n int) error {
	if r.Err != nil {
		return fmt.Errorf("got error %v, expected success", r.Err)
	}
	if r.Deleted == nil || r.Deleted.Deleted != int64(n) {
		return fmt.Errorf("reported %s, expected %d", r, n)
	}
	return nil
}

// Due and overdue at millisecond resolution.
func (m *Model) mayBeDue(t *time.Time, hi time.Time) bool {
	if t != nil && m.Cfg.TimeMs {
		return t.UnixMilli() <= hi.UnixMilli()
	}
	return t != nil && !t.After(hi)
}
func mustBeDue(t *time.Time, lo time.Time) bool {
	return t != nil && !t.After(lo.Add(-time.Millisecond))
}

// Apply checks that the result of a call is one the reference allows in the
// current state, and moves to the state after. obs, if not nil, is the
// observed state after the call, used only to resolve what the reference
// leaves open (a background job at the very millisecond of a deadline).
func (m *Model) Apply(c *Call, r Result, obs State) error {
	op := c.Op
	switch op.K {
	case "advance", "reopen":
		return m.wantErr(r, "")

	case "insertTask":
		t := c.Tasks[0]
		if m.S[t.ID] != nil {
			return m.wantErr(r, "conflict")
		}
		if err := m.wantErr(r, ""); err != nil {
			return err
		}
		m.S[t.ID] = CopyTask(t)
		return wantUpdated(r, 1, 0)

	case "upsertTask":
		t := c.Tasks[0]
		if err := m.wantErr(r, ""); err != nil {
			return err
		}
		old := m.S[t.ID]
		m.S[t.ID] = CopyTask(t)
		if old == nil {
			return wantUpdated(r, 1, 0)
		}
		if m.Cfg.LaxUpdated && m.EqTask(t, old) == "" && wantUpdated(r, 0, 0) == nil {
			return nil
		}
		return wantUpdated(r, 0, 1)

	case "insertTasks":
		if err := m.wantErr(r, ""); err != nil {
			return err
		}
		var n int64
		for _, t := range c.Tasks {
			if m.S[t.ID] == nil {
				m.S[t.ID] = CopyTask(t)
				n++
			}
		}
		return wantUpdated(r, n, 0)

	case "upsertTasks":
		if err := m.wantErr(r, ""); err != nil {
			return err
		}
		var n, same int64
		for _, t := range c.Tasks {
			old := m.S[t.ID]
			if old == nil {
				n++
			} else if m.EqTask(t, old) == "" {
				same++
			}
			m.S[t.ID] = CopyTask(t)
		}
		u := int64(len(c.Tasks)) - n
		if m.Cfg.LaxUpdated && r.Updated != nil && r.Updated.Created == n && r.Updated.Updated >= u-same && r.Updated.Updated <= u {
			return nil
		}
		return wantUpdated(r, n, u)

	case "deleteTask":
		_, ok := m.S[op.ID]
		delete(m.S, op.ID)
		return wantDeleted(r, int(ub(ok)))

	case "deleteTasks", "deleteTopic":
		v := m.topicOf(op.Topic, nil)
		for _, id := range v {
			delete(m.S, id)
		}
		return wantDeleted(r, len(v))

	case "deleteTopics":
		n := len(m.S)
		m.S = State{}
		return wantDeleted(r, n)

	case "getTask":
		t := m.S[op.ID]
		if t == nil {
			return m.wantErr(r, "notfound")
		}
		if err := m.wantErr(r, ""); err != nil {
			return err
		}
		if s := m.EqTask(r.Task, t); s != "" {
			return errors.New(s)
		}
		return nil

	case "getPromise":
		t := m.S[op.ID]
		if t == nil || t.State != ratus.TaskStateActive {
			return m.wantErr(r, "notfound")
		}
		if err := m.wantErr(r, ""); err != nil {
			return err
		}
		return m.eqPromise(r.Promise, t)

	case "getTopic":
		v := m.topicOf(op.Topic, nil)
		if len(v) == 0 {
			return m.wantErr(r, "notfound")
		}
		if err := m.wantErr(r, ""); err != nil {
			return err
		}
		if r.Topic == nil || r.Topic.Name != op.Topic || r.Topic.Count != int64(len(v)) {
			return fmt.Errorf("got %s, expected topic %q with %d tasks", r, op.Topic, len(v))
		}
		return nil

	case "listTasks":
		if err := m.wantErr(r, ""); err != nil {
			return err
		}
		if r.Tasks == nil {
			return errors.New("listing is absent, expected a list")
		}
		want := m.topicOf(op.Topic, nil)
		ids := make([]string, len(r.Tasks))
		for i, t := range r.Tasks {
			if t == nil {
				return errors.New("listing contains nothing at an index")
			}
			ids[i] = t.ID
		}
		if err := checkPage(ids, want, op.Limit, op.Offset); err != nil {
			return err
		}
		for _, t := range r.Tasks {
			if s := m.EqTask(t, m.S[t.ID]); s != "" {
				return errors.New("listed task " + t.ID + ": " + s)
			}
		}
		return nil

	case "listPromises":
		if err := m.wantErr(r, ""); err != nil {
			return err
		}
		if r.Promises == nil {
			return errors.New("listing is absent, expected a list")
		}
		want := m.topicOf(op.Topic, func(t *ratus.Task) bool { return t.State == ratus.TaskStateActive })
		ids := make([]string, len(r.Promises))
		for i, p := range r.Promises {
			if p == nil {
				return errors.New("listing contains nothing at an index")
			}
			ids[i] = p.ID
		}
		if err := checkPage(ids, want, op.Limit, op.Offset); err != nil {
			return err
		}
		for _, p := range r.Promises {
			if err := m.eqPromise(p, m.S[p.ID]); err != nil {
				return err
			}
		}
		return nil

	case "listTopics":
		if err := m.wantErr(r, ""); err != nil {
			return err
		}
		if r.Topics == nil {
			return errors.New("listing is absent, expected a list")
		}
		seen := map[string]bool{}
		var want []string
		for _, t := range m.S {
			if !seen[t.Topic] {
				seen[t.Topic] = true
				want = append(want, t.Topic)
			}
		}
		ids := make([]string, len(r.Topics))
		for i, t := range r.Topics {
			if t == nil {
				return errors.New("listing contains nothing at an index")
			}
			ids[i] = t.Name
		}
		return checkPage(ids, want, op.Limit, op.Offset)

	case "deletePromise":
		t := m.S[op.ID]
		if t == nil || t.State != ratus.TaskStateActive {
			return wantDeleted(r, 0)
		}
		m.S[op.ID] = recovered(t)
		return wantDeleted(r, 1)

	case "deletePromises":
		v := m.topicOf(op.Topic, func(t *ratus.Task) bool { return t.State == ratus.TaskStateActive })
		for _, id := range v {
			m.S[id] = recovered(m.S[id])
		}
		return wantDeleted(r, len(v))

	case "insertPromise", "upsertPromise":
		t := m.S[op.ID]
		if t == nil {
			return m.wantErr(r, "notfound")
		}
		if op.K == "insertPromise" && t.State != ratus.TaskStatePending {
			return m.wantErr(r, "conflict")
		}
		if err := m.wantErr(r, ""); err != nil {
			return err
		}
		u, err := m.claimed(t, c, r)
		if err != nil {
			return err
		}
		m.S[op.ID] = u
		return nil

	case "poll":
		return m.poll(c, r)

	case "commit":
		t := m.S[op.ID]
		if t == nil {
			return m.wantErr(r, "notfound")
		}
		if c.Commit.Nonce != "" && c.Commit.Nonce != t.Nonce {
			return m.wantErr(r, "conflict")
		}
		if err := m.wantErr(r, ""); err != nil {
			return err
		}
		u := CopyTask(t)
		u.Nonce = ""
		if c.Commit.Topic != "" {
			u.Topic = c.Commit.Topic
		}
		if c.Commit.State != nil {
			u.State = *c.Commit.State
		}
		if c.Commit.Scheduled != nil {
			u.Scheduled = cpT(c.Commit.Scheduled)
		}
		if c.Commit.Payload != nil {
			u.Payload = c.Commit.Payload
		}
		if s := m.EqTask(r.Task, u); s != "" {
			return errors.New("committed task: " + s)
		}
		m.S[op.ID] = u
		return nil

	case "chore":
		if err := m.wantErr(r, ""); err != nil {
			return err
		}
		m.chore(c, obs)
		return nil
	}
	return fmt.Errorf("unknown operation %q", op.K)
}

func wantUpdated(r Result, created, updated int64) error {
	if r.Updated == nil || r.Updated.Created != created || r.Updated.Updated != updated {
		return fmt.Errorf("reported %s, expected %d created and %d updated", r, created, updated)
	}
	return nil
}

func (m *Model) eqPromise(p *ratus.Promise, t *ratus.Task) error {
	if p == nil {
		return errors.New("promise is absent")
	}
	if p.ID != t.ID || p.Consumer != t.Consumer || !m.eqTime(p.Deadline, t.Deadline) {
		return fmt.Errorf("got promise %s, expected one by %q for task %s until %v", js(p), t.Consumer, t.ID, t.Deadline)
	}
	return nil
}

// checkPage checks a page of IDs against the set of IDs of the whole listing.
// The order of the listing is left to the engine.
func checkPage(got, want []string, limit, offset int) error {
	n := len(want) - offset
	if n < 0 {
		n = 0
	}
	if n > limit {
		n = limit
	}
	if len(got) != n {
		return fmt.Errorf("page with limit %d and offset %d of %d resources has %d entries %q, expected %d", limit, offset, len(want), len(got), got, n)
	}
	w := map[string]bool{}
	for _, id := range want {
		w[id] = true
	}
	for _, id := range got {
		if !w[id] {
			return fmt.Errorf("page lists %q twice or although it does not belong there (listing: %q)", id, want)
		}
		delete(w, id)
	}
	return nil
}

func (m *Model) poll(c *Call, r Result) error {
	var may, must []*ratus.Task
	for _, id := range m.topicOf(c.Op.Topic, func(t *ratus.Task) bool { return t.State == ratus.TaskStatePending }) {
		t := m.S[id]
		if m.mayBeDue(t.Scheduled, c.After) {
			may = append(may, t)
			if mustBeDue(t.Scheduled, c.Before) {
				must = append(must, t)
			}
		}
	}
	if r.Err != nil {
		if err := m.wantErr(r, "notfound"); err != nil {
			return err
		}
		if len(must) > 0 {
			return fmt.Errorf("poll found nothing although task %s is due since %v (now %v)", must[0].ID, must[0].Scheduled, c.Before)
		}
		return nil
	}
	if r.Task == nil {
		return errors.New("poll succeeded without a task")
	}
	var x *ratus.Task
	for _, t := range may {
		if t.ID == r.Task.ID {
			x = t
		}
	}
	if x == nil {
		return fmt.Errorf("poll of topic %q returned %s, which is not a due pending task of that topic (state before: %s)", c.Op.Topic, js(r.Task), m.S)
	}
	for _, t := range may {
		if !m.Cfg.AnyDue && t.Scheduled.UnixMilli() < x.Scheduled.UnixMilli() {
			return fmt.Errorf("poll returned task %s scheduled at %v before task %s scheduled at %v", x.ID, x.Scheduled, t.ID, t.Scheduled)
		}
	}
	u, err := m.claimed(x, c, r)
	if err != nil {
		return err
	}
	m.S[x.ID] = u
	return nil
}

func (m *Model) chore(c *Call, obs State) {
	for _, id := range m.S.IDs() {
		t := m.S[id]
		switch t.State {
		case ratus.TaskStateActive:
			switch {
			case mustBeDue(t.Deadline, c.Before):
				m.S[id] = recovered(t)
			case m.mayBeDue(t.Deadline, c.After):
				if obs == nil || obs[id] != nil && obs[id].State == ratus.TaskStatePending {
					m.S[id] = recovered(t)
				}
			}
		case ratus.TaskStateCompleted:
			if m.Cfg.NoExpire || t.Consumed == nil {
				continue
			}
			e := t.Consumed.Add(m.Cfg.Retention)
			switch {
			case mustBeDue(&e, c.Before):
				delete(m.S, id)
			case m.mayBeDue(&e, c.After):
				if obs == nil || obs[id] == nil {
					delete(m.S, id)
				}
			}
		}
	}
}
