package web

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
)

// pipes is a listener whose connections are in-memory pipes.
type pipes struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

type addr struct{}

func (addr) Network() string { return "pipe" }
func (addr) String() string  { return "192.0.2.1:80" }

type conn struct{ net.Conn }

func (conn) RemoteAddr() net.Addr { return addr{} }
func (conn) LocalAddr() net.Addr  { return addr{} }

func newPipes() *pipes { return &pipes{ch: make(chan net.Conn), done: make(chan struct{})} }

func (l *pipes) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *pipes) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *pipes) Addr() net.Addr { return addr{} }
func (l *pipes) dial(ctx context.Context) (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case l.ch <- conn{b}:
		return conn{a}, nil
	case <-l.done:
		return nil, errors.New("connection refused")
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

var current atomic.Pointer[pipes]

func init() {
	t := http.DefaultTransport.(*http.Transport)
	t.Proxy = nil
	t.DialContext = func(ctx context.Context, _, address string) (net.Conn, error) {
		if w := wired.Load(); w != nil {
			return w.dial(ctx, address)
		}
		return current.Load().dial(ctx)
	}
}

// service runs the API on pipes until stopped and makes a client for it.
type service struct {
	l   *pipes
	srv *http.Server
	end chan struct{}
}

func serve(h http.Handler) *service {
	s := &service{l: newPipes(), srv: &http.Server{Handler: h}, end: make(chan struct{})}
	s.srv.ErrorLog = nil
	current.Store(s.l)
	go func() { s.srv.Serve(s.l); close(s.end) }()
	return s
}

func (s *service) client(o ratus.ClientOptions) *ratus.Client {
	if o.Origin == "" {
		o.Origin = "http://ratus.test"
	}
	c, err := ratus.NewClient(&o)
	if err != nil {
		panic(err)
	}
	return c
}

func (s *service) stop() {
	s.l.Close()
	s.srv.Close()
	<-s.end
	synctest.Wait()
}

// viaClient is the client seen as an engine.
type viaClient struct {
	*ratus.Client
	g engine.Engine
}

func (v viaClient) Chore(ctx context.Context) error { return v.g.Chore(ctx) }
func (v viaClient) Poll(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	return v.Client.PostPromises(ctx, topic, p)
}
func (v viaClient) Commit(ctx context.Context, id string, m *ratus.Commit) (*ratus.Task, error) {
	return v.Client.PatchTask(ctx, id, m)
}

var _ model.Engine = viaClient{}

// normalize makes of a call what the API documents it becomes at the given time.
func normalize(c *model.Call, now time.Time) {
	for _, t := range c.Tasks {
		if t.Produced == nil {
			x := now
			t.Produced = &x
		}
		if t.Scheduled == nil {
			x := now
			if t.Defer != "" {
				d, _ := time.ParseDuration(t.Defer)
				x = now.Add(d)
			}
			t.Scheduled = &x
		}
		t.Defer = ""
	}
	if c.Promise != nil && c.Promise.Deadline == nil {
		x := now.Add(10 * time.Minute)
		if c.Promise.Timeout != "" {
			d, _ := time.ParseDuration(c.Promise.Timeout)
			x = now.Add(d)
		}
		c.Promise.Deadline, c.Promise.Timeout = &x, ""
	}
	if c.Commit != nil {
		if c.Commit.State == nil {
			s := ratus.TaskStateCompleted
			c.Commit.State = &s
		}
		if c.Commit.Defer != "" && c.Commit.Scheduled == nil {
			d, _ := time.ParseDuration(c.Commit.Defer)
			x := now.Add(d)
			c.Commit.Scheduled = &x
		}
		c.Commit.Defer = ""
	}
}

// over runs one operation through the client and checks it.
func (w *world) over(e model.Engine, op Op, observe bool) string {
	w.trace = append(w.trace, op.String())
	if op.K == "advance" {
		time.Sleep(time.Duration(op.D))
		return ""
	}
	now := time.Now()
	call := w.m.Resolve(op, w.base, now)
	res := model.Exec(bg, e, call, true)
	call.After = time.Now()
	if !call.After.Equal(now) {
		return fmt.Sprintf("%s took %v of virtual time", op, call.After.Sub(now))
	}
	normalize(call, now)
	var obs model.State
	if op.K == "chore" {
		var err error
		if obs, err = model.Observe(bg, w.g, w.ids); err != nil {
			return err.Error()
		}
	}
	if err := w.m.Apply(call, res, obs); err != nil {
		return fmt.Sprintf("%s through the client: %v", op, err)
	}
	if observe {
		if s := w.same(); s != "" {
			return fmt.Sprintf("after %s through the client: %s", op, s)
		}
	}
	return ""
}

// withClient runs a case with a client connected to a fresh engine.
func withClient(c *core.Ctx, ids []string, init []TS, f func(w *world, e model.Engine) string) {
	one(c, ids, init, func(w *world) string {
		s := serve(w.h)
		defer s.stop()
		return f(w, viaClient{s.client(ratus.ClientOptions{}), w.g})
	})
}

func init() {
	parts["C15/histories"] = c15Histories
	parts["C15/errors"] = c15Errors
	parts["C15/broken"] = c15Broken
	parts["C16/names"] = c16Names
	parts["C16/pairs"] = c16Pairs
	parts["C16/empty"] = c16Empty
}

func c15Alphabet() []Op {
	full := TS{ID: "a", Topic: "t", State: 3, Nonce: "n", Producer: "p", Consumer: "c", Prod: p(-hour), Sched: p(-hour + 1), Cons: p(-ms), Dead: p(hour), Payload: map[string]any{"x": []any{1, "y", nil}}}
	return []Op{
		{K: "insertTask", Ts: []TS{{ID: "a", Topic: "t"}}},
		{K: "insertTask", Ts: []TS{pend("b", "t", -sec)}},
		{K: "upsertTask", Ts: []TS{full}},
		{K: "upsertTask", Ts: []TS{pend("a", "u", 30*sec)}},
		{K: "insertTasks", Ts: []TS{{ID: "a", Topic: "u", Payload: "x"}, {ID: "b", Topic: "t"}}},
		{K: "upsertTasks", Ts: []TS{pend("b", "u", -hour), full}},
		{K: "upsertTasks", Ts: []TS{}},
		{K: "insertTasks", Ts: nil},
		{K: "poll", Topic: "t", Consumer: "c1", DeadIn: p(5 * sec)},
		{K: "poll", Topic: "u"},
		{K: "insertPromise", ID: "a", Consumer: "c2"},
		{K: "insertPromise", ID: "b", DeadIn: p(-sec)},
		{K: "upsertPromise", ID: "a", Consumer: "c3", DeadIn: p(hour)},
		{K: "commit", ID: "a", N: "cur"},
		{K: "commit", ID: "a", N: "old", State: st(0), Sched: p(-2 * sec), NewTopic: "u", Payload: "z"},
		{K: "commit", ID: "b"},
		{K: "deletePromise", ID: "a"},
		{K: "deletePromises", Topic: "t"},
		{K: "getPromise", ID: "a"},
		{K: "getTask", ID: "a"},
		{K: "getTopic", Topic: "t"},
		{K: "listTasks", Topic: "t", Limit: 10},
		{K: "listTasks", Topic: "t", Limit: 1, Offset: 1},
		{K: "listPromises", Topic: "t", Limit: 10},
		{K: "listTopics", Limit: 2},
		{K: "listTopics", Limit: 1, Offset: 1},
		{K: "deleteTask", ID: "a"},
		{K: "deleteTasks", Topic: "t"},
		{K: "deleteTopic", Topic: "u"},
		{K: "deleteTopics"},
		{K: "chore"},
		{K: "advance", D: 10 * sec},
	}
}

func c15Histories(c *core.Ctx) {
	al := c15Alphabet()
	depth := 3
	inits := [][]TS{{}, {pend("a", "t", -sec), variant("b", "t", 1)}, {variant("a", "u", 1), variant("b", "t", 2), pend("z", "t", -2*sec)}}
	for ii := range inits {
		if c.Thorough() && ii == 0 {
			depth = 4
		} else {
			depth = 3
		}
		dims := make([]int, depth)
		for i := range dims {
			dims[i] = len(al)
		}
		product(dims, func(ix []int) bool {
			if !c.Take() {
				return !c.Stopped()
			}
			withClient(c, []string{"a", "b", "z"}, inits[ii], func(w *world, e model.Engine) string {
				for _, k := range ix {
					if s := w.over(e, al[k], true); s != "" {
						return s
					}
					w.state("c")
				}
				for _, op := range []Op{{K: "listTopics", Limit: 100}, {K: "listTasks", Topic: "t", Limit: 100}, {K: "listPromises", Topic: "t", Limit: 100}} {
					if s := w.over(e, op, false); s != "" {
						return s
					}
				}
				return ""
			})
			return !c.Stopped()
		})
	}
}

// hook is an engine whose operations are all decided by one function.
type hook struct {
	f func(ctx context.Context, k, name string, arg any) (any, error)
}

func hk[T any](h *hook, ctx context.Context, k, name string, arg any) (r T, err error) {
	v, err := h.f(ctx, k, name, arg)
	if v != nil {
		r = v.(T)
	}
	return r, err
}

func (h *hook) e(ctx context.Context, k string) error {
	_, err := h.f(ctx, k, "", nil)
	return err
}
func (h *hook) Open(ctx context.Context) error    { return h.e(ctx, "open") }
func (h *hook) Close(ctx context.Context) error   { return h.e(ctx, "close") }
func (h *hook) Destroy(ctx context.Context) error { return h.e(ctx, "destroy") }
func (h *hook) Ready(ctx context.Context) error   { return h.e(ctx, "ready") }
func (h *hook) Chore(ctx context.Context) error   { return h.e(ctx, "chore") }
func (h *hook) Poll(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	return hk[*ratus.Task](h, ctx, "poll", topic, p)
}
func (h *hook) Commit(ctx context.Context, id string, m *ratus.Commit) (*ratus.Task, error) {
	return hk[*ratus.Task](h, ctx, "commit", id, m)
}
func (h *hook) ListTopics(ctx context.Context, limit, offset int) ([]*ratus.Topic, error) {
	return hk[[]*ratus.Topic](h, ctx, "listTopics", "", nil)
}
func (h *hook) DeleteTopics(ctx context.Context) (*ratus.Deleted, error) {
	return hk[*ratus.Deleted](h, ctx, "deleteTopics", "", nil)
}
func (h *hook) GetTopic(ctx context.Context, topic string) (*ratus.Topic, error) {
	return hk[*ratus.Topic](h, ctx, "getTopic", topic, nil)
}
func (h *hook) DeleteTopic(ctx context.Context, topic string) (*ratus.Deleted, error) {
	return hk[*ratus.Deleted](h, ctx, "deleteTopic", topic, nil)
}
func (h *hook) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {
	return hk[[]*ratus.Task](h, ctx, "listTasks", topic, nil)
}
func (h *hook) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	return hk[*ratus.Updated](h, ctx, "insertTasks", "", ts)
}
func (h *hook) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	return hk[*ratus.Updated](h, ctx, "upsertTasks", "", ts)
}
func (h *hook) DeleteTasks(ctx context.Context, topic string) (*ratus.Deleted, error) {
	return hk[*ratus.Deleted](h, ctx, "deleteTasks", topic, nil)
}
func (h *hook) GetTask(ctx context.Context, id string) (*ratus.Task, error) {
	return hk[*ratus.Task](h, ctx, "getTask", id, nil)
}
func (h *hook) InsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	return hk[*ratus.Updated](h, ctx, "insertTask", t.ID, t)
}
func (h *hook) UpsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	return hk[*ratus.Updated](h, ctx, "upsertTask", t.ID, t)
}
func (h *hook) DeleteTask(ctx context.Context, id string) (*ratus.Deleted, error) {
	return hk[*ratus.Deleted](h, ctx, "deleteTask", id, nil)
}
func (h *hook) ListPromises(ctx context.Context, topic string, limit, offset int) ([]*ratus.Promise, error) {
	return hk[[]*ratus.Promise](h, ctx, "listPromises", topic, nil)
}
func (h *hook) DeletePromises(ctx context.Context, topic string) (*ratus.Deleted, error) {
	return hk[*ratus.Deleted](h, ctx, "deletePromises", topic, nil)
}
func (h *hook) GetPromise(ctx context.Context, id string) (*ratus.Promise, error) {
	return hk[*ratus.Promise](h, ctx, "getPromise", id, nil)
}
func (h *hook) InsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	return hk[*ratus.Task](h, ctx, "insertPromise", p.ID, p)
}
func (h *hook) UpsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	return hk[*ratus.Task](h, ctx, "upsertPromise", p.ID, p)
}
func (h *hook) DeletePromise(ctx context.Context, id string) (*ratus.Deleted, error) {
	return hk[*ratus.Deleted](h, ctx, "deletePromise", id, nil)
}

// rawOf gives, for every operation, a request that performs it.
func rawOf() map[string]Req {
	return map[string]Req{
		"poll": {Method: "POST", Target: "/topics/t/promises"}, "commit": {Method: "PATCH", Target: "/topics/t/tasks/a"},
		"listTopics": {Method: "GET", Target: "/topics"}, "deleteTopics": {Method: "DELETE", Target: "/topics"},
		"getTopic": {Method: "GET", Target: "/topics/t"}, "deleteTopic": {Method: "DELETE", Target: "/topics/t"},
		"listTasks": {Method: "GET", Target: "/topics/t/tasks"}, "deleteTasks": {Method: "DELETE", Target: "/topics/t/tasks"},
		"insertTasks": {Method: "POST", Target: "/topics/t/tasks", Body: body(`{"data":[{"_id":"a"}]}`)}, "upsertTasks": {Method: "PUT", Target: "/topics/t/tasks", Body: body(`{"data":[{"_id":"a"}]}`)},
		"getTask": {Method: "GET", Target: "/topics/t/tasks/a"}, "deleteTask": {Method: "DELETE", Target: "/topics/t/tasks/a"},
		"insertTask": {Method: "POST", Target: "/topics/t/tasks/a", Body: body("{}")}, "upsertTask": {Method: "PUT", Target: "/topics/t/tasks/a", Body: body("{}")},
		"listPromises": {Method: "GET", Target: "/topics/t/promises"}, "deletePromises": {Method: "DELETE", Target: "/topics/t/promises"},
		"getPromise": {Method: "GET", Target: "/topics/t/promises/a"}, "deletePromise": {Method: "DELETE", Target: "/topics/t/promises/a"},
		"insertPromise": {Method: "POST", Target: "/topics/t/promises/a"}, "upsertPromise": {Method: "PUT", Target: "/topics/t/promises/a"},
		"ready": {Method: "GET", Target: "/readyz"},
	}
}

// c15Errors: every operation with every error an engine can report, plain,
// wrapped in front, behind, twice and joined.
func c15Errors(c *core.Ctx) {
	type kind struct {
		err  error
		code int
		name string
	}
	kinds := []kind{
		{ratus.ErrBadRequest, 400, "badrequest"}, {ratus.ErrNotFound, 404, "notfound"}, {ratus.ErrConflict, 409, "conflict"},
		{ratus.ErrClientClosedRequest, 499, "clientclosed"}, {ratus.ErrServiceUnavailable, 503, "unavailable"}, {ratus.ErrInternalServerError, 500, "internal"},
		{context.Canceled, 499, "clientclosed"}, {io.ErrUnexpectedEOF, 499, "clientclosed"}, {context.DeadlineExceeded, 500, "internal"},
		{errors.New("disk on fire: 100% \"full\"\nat <once>"), 500, "internal"}, {io.EOF, 500, "internal"},
	}
	wraps := []func(error) error{
		func(e error) error { return e },
		func(e error) error { return fmt.Errorf("%w: more", e) },
		func(e error) error { return fmt.Errorf("while working: %w", e) },
		func(e error) error { return fmt.Errorf("a: %w", fmt.Errorf("b: %w: c", e)) },
		func(e error) error { return errors.Join(errors.New("first"), e) },
		func(e error) error { return fmt.Errorf("ünï %w %w", errors.New("x"), e) },
	}
	raws := rawOf()
	ops := map[string]Op{}
	for k := range raws {
		if k == "ready" {
			continue
		}
		op := Op{K: k, ID: "a", Topic: "t", Limit: 10}
		if strings.Contains(k, "sert") {
			op.Ts = []TS{{ID: "a", Topic: "t"}}
		}
		ops[k] = op
	}
	for _, k := range keys(raws) {
		for _, kd := range kinds {
			for wi, wr := range wraps {
				for _, pre := range []string{"", "/v1"} {
					if !c.Take() {
						if c.Stopped() {
							return
						}
						continue
					}
					one(c, nil, nil, func(w *world) string {
						e := wr(kd.err)
						calls := 0
						target.Engine = &hook{func(ctx context.Context, op, name string, arg any) (any, error) {
							calls++
							if op != k {
								return nil, fmt.Errorf("unexpected %s", op)
							}
							return nil, e
						}}
						r := raws[k]
						r.Target = pre + r.Target
						w.trace = append(w.trace, r.String(), e.Error())
						resp, s := do(w.h, r)
						if s != "" {
							return s
						}
						if resp.Status != kd.code {
							return fmt.Sprintf("%s with error %q: status %d, expected %d", r, e, resp.Status, kd.code)
						}
						m, s := errBody(resp)
						if s != "" {
							return r.String() + ": " + s
						}
						if !strings.Contains(m, e.Error()) {
							return fmt.Sprintf("%s with error %q: message %q", r, e, m)
						}
						sv := serve(w.h)
						defer sv.stop()
						cl := sv.client(ratus.ClientOptions{})
						var err error
						if k == "ready" {
							err = cl.GetReadiness(bg)
						} else {
							call := w.m.Resolve(ops[k], w.base, time.Now())
							err = model.Exec(bg, viaClient{cl, nil}, call, false).Err
						}
						if err == nil || model.Kind(err) != kd.name {
							return fmt.Sprintf("%s with error %q: the client got %v (%s), expected %s", k, e, err, model.Kind(err), kd.name)
						}
						if !strings.Contains(err.Error(), e.Error()) {
							return fmt.Sprintf("%s with error %q: the client got %q", k, e, err)
						}
						if calls != 2 {
							return fmt.Sprintf("%s called the engine %d times for 2 requests", k, calls)
						}
						if err := cl.GetLiveness(bg); err != nil {
							return fmt.Sprintf("liveness: %v", err)
						}
						for _, t := range []string{"/livez", "/healthz", "/v1/livez", "/v1/healthz"} {
							if resp, s := do(w.h, Req{Method: "GET", Target: t}); s != "" || resp.Status != 200 {
								return fmt.Sprintf("GET %s: %d %s", t, resp.Status, s)
							}
						}
						if k != "ready" {
							return ""
						}
						target.Engine = &hook{func(ctx context.Context, op, name string, arg any) (any, error) { return nil, nil }}
						if err := cl.GetReadiness(bg); err != nil {
							return fmt.Sprintf("readiness of a ready engine: %v", err)
						}
						return ""
					})
					c.Distinct("states", fmt.Sprint(k, kd.code, kd.err, wi, pre))
					c.Count("transitions", 1)
				}
			}
		}
	}
}

// c15Broken: whatever does not come from the API is never taken for success.
func c15Broken(c *core.Ctx) {
	type reply struct {
		code int
		body string
		ct   string
	}
	replies := []reply{{502, "<html>bad gateway</html>", "text/html"}, {500, "", ""}, {404, "404 page not found", "text/plain"}, {429, `{"message":"slow down"}`, "application/json"}, {400, `{"error":{}}`, "application/json"}, {200, "", ""}, {200, "<html>", "text/html"}, {200, `{"data":`, "application/json"}, {201, "[", ""}, {300, `{"data":[]}`, "application/json"}, {304, "", ""}, {307, `{"created":1}`, "application/json"}, {399, `{}`, "application/json"}, {0, "", ""}, {-1, "", ""}}
	raws := rawOf()
	for _, k := range keys(raws) {
		for _, rp := range replies {
			if !c.Take() {
				if c.Stopped() {
					return
				}
				continue
			}
			one(c, nil, nil, func(w *world) string {
				w.trace = append(w.trace, k, fmt.Sprint(rp))
				sv := serve(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
					switch rp.code {
					case 0:
						panic(http.ErrAbortHandler)
					case -1:
						rw.Header().Set("Content-Length", "100")
						rw.Write([]byte(`{"data":[`))
						panic(http.ErrAbortHandler)
					}
					if rp.ct != "" {
						rw.Header().Set("Content-Type", rp.ct)
					}
					rw.WriteHeader(rp.code)
					io.WriteString(rw, rp.body)
				}))
				defer sv.stop()
				cl := sv.client(ratus.ClientOptions{})
				var err error
				if k == "ready" {
					err = cl.GetReadiness(bg)
					if rp.code == 200 || rp.code == 201 || rp.code == -1 {
						return ""
					}
				} else {
					op := Op{K: k, ID: "a", Topic: "t", Limit: 10, Ts: []TS{{ID: "a", Topic: "t"}}}
					r := model.Exec(bg, viaClient{cl, nil}, w.m.Resolve(op, w.base, time.Now()), false)
					err = r.Err
					if r.Err == nil {
						return fmt.Sprintf("%s answered with %v: the client reports success: %s", k, rp, r)
					}
				}
				if err == nil {
					return fmt.Sprintf("%s answered with %v: the client reports success", k, rp)
				}
				w.c.Count("transitions", 1)
				return ""
			})
			c.Distinct("states", fmt.Sprint("broken", k, rp))
		}
	}
}

// nameChars is the alphabet of the names.
var nameChars = []string{"a", "A", "/", ".", "%", " ", "?", "#", ";", ",", "&", "=", ":", "*", "\\", "\"", "ü", "e\u0301", "\x00", "\n", "\x7f", "<", "|", "2F", "tasks", "-", "_", "~", "@", "[", "😀"}

func names(maxLen int) []string {
	var v []string
	lvl := []string{""}
	for i := 0; i < maxLen; i++ {
		var next []string
		for _, x := range lvl {
			for _, ch := range nameChars {
				next = append(next, x+ch)
			}
		}
		v = append(v, next...)
		lvl = next
	}
	// Plus signs are documented as unsupported together with characters that
	// force an escaped path; alone they are ordinary.
	return append(v, "+", "a+b", "++", "..", "../..", "./", "promises", "topics", "v1", "metrics", "//", "%2e%2e", "%252F", strings.Repeat("long/", 200), "null", "0", "a b/c d", "x?limit=1", "x#y", "%00", "%ff")
}

// near lists names that are easily confused with a name.
func near(n string) []string {
	v := []string{n + "a", n + "/", n + ".", n + "%", " " + n, strings.ToUpper(n), strings.ToLower(n), esc(n), strings.TrimSpace(n), strings.Trim(n, "/"), strings.TrimRight(n, "."), n + "\x00", n + "?x", n + "/tasks", n + "/tasks/a", "/" + n}
	if len(n) > 1 {
		v = append(v, n[:1], strings.ToValidUTF8(n[1:], "x"))
	}
	for i := 0; i < len(n); i++ {
		if n[i] == '/' || n[i] == '?' || n[i] == '#' || n[i] == ';' || n[i] == 0 {
			v = append(v, n[:i])
		}
	}
	if u, err := unescape(n); err == nil {
		v = append(v, u)
	}
	var r []string
	seen := map[string]bool{n: true, "": true}
	for _, x := range v {
		x = strings.ToValidUTF8(x, "x")
		if !seen[x] && !strings.Contains(x, "+") {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

func unescape(s string) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			var x int
			if _, err := fmt.Sscanf(s[i+1:i+3], "%02x", &x); err == nil {
				b.WriteByte(byte(x))
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String(), nil
}

func idOps(n string) []Op {
	return []Op{
		{K: "getTask", ID: n}, {K: "insertPromise", ID: n, Consumer: "c"}, {K: "getPromise", ID: n}, {K: "insertTask", Ts: []TS{pend(n, "t", -sec)}},
		{K: "commit", ID: n, N: "cur", State: st(0)}, {K: "upsertPromise", ID: n, Consumer: n}, {K: "deletePromise", ID: n}, {K: "upsertTask", Ts: []TS{pend(n, "t2", 0)}},
		{K: "deleteTask", ID: n}, {K: "getTask", ID: n}, {K: "insertTask", Ts: []TS{pend(n, "t", -sec)}}, {K: "insertTasks", Ts: []TS{pend(n, "t", 0)}}, {K: "upsertTasks", Ts: []TS{pend(n, "t", -hour)}}, {K: "getTask", ID: n},
	}
}

func topicOps(n string) []Op {
	return []Op{
		{K: "getTopic", Topic: n}, {K: "listTasks", Topic: n, Limit: 100}, {K: "poll", Topic: n, Consumer: "c"}, {K: "listPromises", Topic: n, Limit: 100}, {K: "deletePromises", Topic: n},
		{K: "poll", Topic: n, Consumer: n}, {K: "poll", Topic: n}, {K: "poll", Topic: n}, {K: "commit", ID: "other", NewTopic: n, State: st(0)}, {K: "poll", Topic: n}, {K: "deleteTasks", Topic: n}, {K: "getTopic", Topic: n},
		{K: "insertTask", Ts: []TS{pend("new", n, -sec)}}, {K: "getTopic", Topic: n}, {K: "poll", Topic: n}, {K: "deleteTopic", Topic: n}, {K: "listTopics", Limit: 100}, {K: "poll", Topic: n},
	}
}

// c16Names: every name up to a length, with the names most like it next to
// it, through every operation of the client and by raw requests.
func c16Names(c *core.Ctx) {
	ns := names(2)
	if c.Thorough() {
		ns = names(3)
	}
	for _, n := range ns {
		for mode := 0; mode < 4; mode++ {
			if !c.Take() {
				if c.Stopped() {
					return
				}
				continue
			}
			nb := near(n)
			if mode < 2 {
				ids := append([]string{n}, nb...)
				var init []TS
				for i, x := range ids {
					if i == 0 && mode == 1 {
						continue // absent: only its neighbours exist
					}
					t := pend(x, "t", -sec)
					if i%2 == 1 {
						t = variant(x, "t", 1)
					}
					init = append(init, t)
				}
				withClient(c, ids, init, func(w *world, e model.Engine) string {
					for _, op := range idOps(n) {
						if s := w.over(e, op, true); s != "" {
							return s
						}
						w.c.Count("transitions", 1)
					}
					return w.rawNames(n, "")
				})
			} else {
				var init []TS
				ids := []string{"other", "new"}
				for i, x := range append([]string{n}, nb...) {
					if i == 0 && mode == 3 {
						continue
					}
					for j := 0; j < 2; j++ {
						id := fmt.Sprint("i", i, j)
						ids = append(ids, id)
						t := pend(id, x, -sec)
						if j == 1 {
							t = variant(id, x, 1)
						}
						init = append(init, t)
					}
				}
				init = append(init, pend("other", "zz", -sec))
				withClient(c, ids, init, func(w *world, e model.Engine) string {
					for _, op := range topicOps(n) {
						if s := w.over(e, op, true); s != "" {
							return s
						}
						w.c.Count("transitions", 1)
					}
					return w.rawNames("", n)
				})
			}
			c.Distinct("states", fmt.Sprint(n, mode))
		}
	}
}

// rawNames addresses names with every byte percent-encoded, in both cases.
func (w *world) rawNames(id, topic string) string {
	for _, f := range []string{"%%%02X", "%%%02x"} {
		en := func(s string) string {
			var b strings.Builder
			for i := 0; i < len(s); i++ {
				fmt.Fprintf(&b, f, s[i])
			}
			return b.String()
		}
		var v []shape
		if id != "" {
			v = []shape{simple("GET", "/topics/t/tasks/"+en(id), Op{K: "getTask", ID: id}), simple("GET", "/v1/topics//promises/"+en(id), Op{K: "getPromise", ID: id}),
				fixed(Req{Method: "PUT", Target: "/topics/t/promises/" + en(id) + "?consumer=" + en(id)}, func(w *world) *model.Call {
					d := time.Now().Add(10 * time.Minute)
					return &model.Call{Op: Op{K: "upsertPromise", ID: id}, Promise: &ratus.Promise{ID: id, Consumer: id, Deadline: &d}}
				}),
				simple("DELETE", "/v1/topics/t/tasks/"+en(id), Op{K: "deleteTask", ID: id}), simple("GET", "/topics/t/tasks/"+en(id), Op{K: "getTask", ID: id})}
		} else {
			v = []shape{simple("GET", "/topics/"+en(topic), Op{K: "getTopic", Topic: topic}), simple("GET", "/v1/topics/"+en(topic)+"/tasks?limit=100", Op{K: "listTasks", Topic: topic, Limit: 100}),
				fixed(Req{Method: "POST", Target: "/topics/" + en(topic) + "/tasks/new", Body: body("{}")}, func(w *world) *model.Call {
					return &model.Call{Op: Op{K: "insertTask"}, Tasks: []*ratus.Task{w.task(taskBody{}, "new", topic)}}
				}),
				fixed(Req{Method: "POST", Target: "/topics/" + en(topic) + "/promises"}, func(w *world) *model.Call {
					d := time.Now().Add(10 * time.Minute)
					return &model.Call{Op: Op{K: "poll", Topic: topic}, Promise: &ratus.Promise{Deadline: &d}}
				}),
				simple("DELETE", "/topics/"+en(topic)+"/promises", Op{K: "deletePromises", Topic: topic}),
				simple("DELETE", "/v1/topics/"+en(topic), Op{K: "deleteTopic", Topic: topic})}
		}
		for _, s := range v {
			if x := w.shape(s); x != "" {
				return x
			}
		}
	}
	return ""
}

// c16Pairs: for every ordered pair of short names one of which exists, an
// operation on the other finds and changes nothing.
func c16Pairs(c *core.Ctx) {
	ns := names(1)
	ns = append(ns, "aa", "a/", "/a", "a.", "a\x00", "a\x00a", "Aa", "%2F", "%2f", "%61", "a ", " a", "ü", "u\u0308", "a/tasks", "a\x00b")
	for _, x := range ns {
		if !c.Take() {
			if c.Stopped() {
				return
			}
			continue
		}
		one(c, nil, nil, func(w *world) string {
			s := serve(w.h)
			defer s.stop()
			e := viaClient{s.client(ratus.ClientOptions{}), w.g}
			w.ids = ns
			for _, y := range ns {
				if x == y {
					continue
				}
				w.trace = w.trace[:0]
				if _, err := w.g.DeleteTopics(bg); err != nil {
					return err.Error()
				}
				w.m.S = model.State{}
				for _, op := range []Op{
					{K: "insertTask", Ts: []TS{pend(x, x, -sec)}},
					{K: "getTask", ID: y}, {K: "insertPromise", ID: y}, {K: "upsertPromise", ID: y}, {K: "commit", ID: y}, {K: "deletePromise", ID: y}, {K: "deleteTask", ID: y},
					{K: "poll", Topic: y}, {K: "getTopic", Topic: y}, {K: "listTasks", Topic: y, Limit: 100}, {K: "deletePromises", Topic: y}, {K: "deleteTasks", Topic: y}, {K: "deleteTopic", Topic: y},
					{K: "poll", Topic: x}, {K: "listPromises", Topic: y, Limit: 100}, {K: "getPromise", ID: y}, {K: "deletePromises", Topic: y},
					{K: "insertTask", Ts: []TS{pend(y, y, -sec)}}, {K: "getTopic", Topic: x}, {K: "getTopic", Topic: y}, {K: "deleteTopic", Topic: y}, {K: "getTask", ID: x},
				} {
					if s := w.over(e, op, true); s != "" {
						return s
					}
					w.c.Count("transitions", 1)
				}
			}
			w.c.Distinct("states", "pair"+x)
			return ""
		})
	}
}

// c16Empty: operations with an empty name fail or find nothing and never
// touch anything.
func c16Empty(c *core.Ctx) {
	type try struct {
		name string
		f    func(cl *ratus.Client) (any, error)
	}
	pr := func() *ratus.Promise { return &ratus.Promise{Consumer: "c"} }
	tries := []try{
		{"GetTopic", func(cl *ratus.Client) (any, error) { return cl.GetTopic(bg, "") }},
		{"DeleteTopic", func(cl *ratus.Client) (any, error) { return cl.DeleteTopic(bg, "") }},
		{"ListTasks", func(cl *ratus.Client) (any, error) { return cl.ListTasks(bg, "", 10, 0) }},
		{"DeleteTasks", func(cl *ratus.Client) (any, error) { return cl.DeleteTasks(bg, "") }},
		{"GetTask", func(cl *ratus.Client) (any, error) { return cl.GetTask(bg, "") }},
		{"InsertTask", func(cl *ratus.Client) (any, error) { return cl.InsertTask(bg, &ratus.Task{Topic: "t"}) }},
		{"UpsertTask", func(cl *ratus.Client) (any, error) { return cl.UpsertTask(bg, &ratus.Task{Topic: "t"}) }},
		{"InsertTask without topic", func(cl *ratus.Client) (any, error) { return cl.InsertTask(bg, &ratus.Task{ID: "x"}) }},
		{"UpsertTask without topic", func(cl *ratus.Client) (any, error) { return cl.UpsertTask(bg, &ratus.Task{ID: "a"}) }},
		{"InsertTasks", func(cl *ratus.Client) (any, error) {
			return cl.InsertTasks(bg, []*ratus.Task{{ID: "x", Topic: "t"}, {Topic: "t"}})
		}},
		{"UpsertTasks", func(cl *ratus.Client) (any, error) {
			return cl.UpsertTasks(bg, []*ratus.Task{{ID: "a", Topic: "t"}, {ID: "y"}})
		}},
		{"DeleteTask", func(cl *ratus.Client) (any, error) { return cl.DeleteTask(bg, "") }},
		{"PatchTask", func(cl *ratus.Client) (any, error) { return cl.PatchTask(bg, "", &ratus.Commit{}) }},
		{"ListPromises", func(cl *ratus.Client) (any, error) { return cl.ListPromises(bg, "", 10, 0) }},
		{"PostPromises", func(cl *ratus.Client) (any, error) { return cl.PostPromises(bg, "", pr()) }},
		{"Poll", func(cl *ratus.Client) (any, error) { return cl.Poll(bg, "", pr()) }},
		{"DeletePromises", func(cl *ratus.Client) (any, error) { return cl.DeletePromises(bg, "") }},
		{"GetPromise", func(cl *ratus.Client) (any, error) { return cl.GetPromise(bg, "") }},
		{"InsertPromise", func(cl *ratus.Client) (any, error) { return cl.InsertPromise(bg, pr()) }},
		{"UpsertPromise", func(cl *ratus.Client) (any, error) { return cl.UpsertPromise(bg, pr()) }},
		{"DeletePromise", func(cl *ratus.Client) (any, error) { return cl.DeletePromise(bg, "") }},
	}
	type rawTry struct{ method, path string }
	var raws []rawTry
	for _, pre := range []string{"", "/v1"} {
		for _, m := range []string{"GET", "POST", "PUT", "PATCH", "DELETE"} {
			for _, t := range []string{"/topics/", "/topics//tasks", "/topics//promises", "/topics/t/tasks/", "/topics/t/promises/", "/topics//tasks/", "/topics//promises/", "/topics//", "/topics/t/", "/topics/t//", "/topics///"} {
				raws = append(raws, rawTry{m, pre + t})
			}
		}
	}
	inits := [][]TS{db3(), {variant("a", "t", 1)}, {}}
	for _, init := range inits {
		for _, t := range tries {
			if c.Take() {
				withClient(c, abc, init, func(w *world, e model.Engine) string {
					w.trace = append(w.trace, t.name)
					v, err := t.f(e.(viaClient).Client)
					if s := w.same(); s != "" {
						return fmt.Sprintf("%s with an empty name (%v, %v): %s", t.name, v, err, s)
					}
					if err == nil {
						switch x := v.(type) {
						case *ratus.Deleted:
							if x.Deleted != 0 {
								return fmt.Sprintf("%s with an empty name reports %d deleted", t.name, x.Deleted)
							}
						case []*ratus.Task:
							if len(x) > 0 {
								return fmt.Sprintf("%s with an empty name lists %d tasks", t.name, len(x))
							}
						case []*ratus.Promise:
							if len(x) > 0 {
								return fmt.Sprintf("%s with an empty name lists %d promises", t.name, len(x))
							}
						default:
							return fmt.Sprintf("%s with an empty name succeeds: %+v", t.name, v)
						}
					}
					w.state("e" + t.name)
					return ""
				})
			}
		}
		for _, r := range raws {
			if c.Take() {
				one(c, abc, init, func(w *world) string {
					for _, b := range []*string{nil, body("{}"), body(`{"data":[]}`)} {
						q := Req{Method: r.method, Target: r.path, Body: b}
						w.trace = append(w.trace, q.String())
						resp, s := do(w.h, q)
						if s != "" {
							return s
						}
						if resp.Status >= 300 && resp.Status < 400 || resp.Status >= 500 {
							return fmt.Sprintf("%s: status %d to %s", q, resp.Status, resp.Header.Get("Location"))
						}
						if s := w.same(); s != "" {
							return fmt.Sprintf("after %s (status %d): %s", q, resp.Status, s)
						}
						w.state("e" + q.String())
					}
					return ""
				})
			}
		}
		if c.Stopped() {
			return
		}
	}
}

var _ = config.PaginationConfig{}
var _ = testing.Short
