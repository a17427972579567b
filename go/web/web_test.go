// Package web explores requests to the HTTP API and histories of the Go client
// against the reference model.
package web

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gin-gonic/gin"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/controller"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/middleware"
	"github.com/hyperonym/ratus/internal/router"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
)

var bg = context.Background()

type (
	Op  = model.Op
	TS  = model.TS
	Off = model.Off
)

const (
	ms   = model.Ms
	sec  = model.Sec
	hour = model.Hour
)

func p(o Off) *Off      { return &o }
func st(n int32) *int32 { return &n }

// proxy lets one router serve a fresh engine in every case.
type proxy struct{ engine.Engine }

var target = &proxy{}

func newHandler(pc config.PaginationConfig) http.Handler {
	return router.New(&controller.V1{
		Pagination: middleware.Pagination(&pc),
		Topic:      controller.NewTopicController(target),
		Task:       controller.NewTaskController(target),
		Promise:    controller.NewPromiseController(target),
		Health:     controller.NewHealthController(target),
		Metrics:    controller.NewMetricsController(target),
	}).Handler()
}

var handlers = map[config.PaginationConfig]http.Handler{}

func handlerFor(pc config.PaginationConfig) http.Handler {
	h := handlers[pc]
	if h == nil {
		h = newHandler(pc)
		handlers[pc] = h
	}
	return h
}

var defaultPages = config.PaginationConfig{MaxLimit: 100, MaxOffset: 10000}

// Req is one request.
type Req struct {
	Method  string   `json:"method"`
	Target  string   `json:"target"`
	Body    *string  `json:"body,omitempty"`
	Chunked bool     `json:"chunked,omitempty"`
	Headers []string `json:"headers,omitempty"`
}

// short cuts what is too long to be shown.
func short(s string) string {
	if len(s) > 3000 {
		return fmt.Sprintf("%s...(%d bytes)...%s", s[:1000], len(s), s[len(s)-1000:])
	}
	return s
}

func (r Req) String() string {
	s := r.Method + " " + short(r.Target)
	if r.Body != nil {
		s += " " + short(*r.Body)
	}
	for _, h := range r.Headers {
		s += " [" + h + "]"
	}
	return s
}

// Resp is the answer.
type Resp struct {
	Status int
	Header http.Header
	Body   []byte
}

func body(s string) *string { return &s }

// do sends a request through the real parser and handler.
func do(h http.Handler, r Req) (resp Resp, bad string) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: ratus\r\n", r.Method, r.Target)
	for _, x := range r.Headers {
		b.WriteString(x + "\r\n")
	}
	if r.Body != nil {
		if r.Chunked {
			b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
			if *r.Body != "" {
				fmt.Fprintf(&b, "%x\r\n%s\r\n", len(*r.Body), *r.Body)
			}
			b.WriteString("0\r\n\r\n")
		} else {
			fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(*r.Body), *r.Body)
		}
	} else {
		b.WriteString("\r\n")
	}
	req, err := http.ReadRequest(bufio.NewReader(&b))
	if err != nil {
		return Resp{}, "UNPARSABLE " + err.Error()
	}
	req.RemoteAddr = "192.0.2.1:1234"
	w := httptest.NewRecorder()
	func() {
		defer func() {
			if x := recover(); x != nil {
				bad = fmt.Sprintf("%s: the handler panicked and the connection would be dropped: %v\n%s", r, x, debug.Stack())
			}
		}()
		h.ServeHTTP(w, req)
	}()
	if bad != "" {
		return
	}
	res := w.Result()
	resp.Status, resp.Header = res.StatusCode, res.Header
	resp.Body, _ = io.ReadAll(res.Body)
	if res.Header.Get("Content-Encoding") == "gzip" && len(resp.Body) > 0 {
		z, err := gzip.NewReader(bytes.NewReader(resp.Body))
		if err == nil {
			resp.Body, err = io.ReadAll(z)
		}
		if err != nil {
			return resp, fmt.Sprintf("%s: the response is not the gzip stream it claims to be: %v", r, err)
		}
	}
	return
}

// world is one case: a fresh engine behind the API, and its model.
type world struct {
	c     *core.Ctx
	h     http.Handler
	g     *memdb.Engine
	m     *model.Model
	base  time.Time
	ids   []string
	trace []string
}

func newWorld(c *core.Ctx, ids []string, init ...TS) (*world, string) {
	w := &world{c: c, h: handlerFor(defaultPages), ids: ids}
	now := time.Now()
	if d := now.Truncate(time.Second).Add(time.Second).Sub(now); d > 0 {
		time.Sleep(d)
	}
	w.base = time.Now()
	w.m = model.New(model.Cfg{Retention: 72 * time.Hour})
	g, err := memdb.New(&memdb.Config{RetentionPeriod: 72 * time.Hour, SnapshotInterval: time.Minute})
	if err != nil {
		return w, err.Error()
	}
	if err := g.Open(bg); err != nil {
		return w, err.Error()
	}
	w.g = g
	target.Engine = g
	for _, t := range init {
		op := Op{K: "upsertTask", Ts: []TS{t}}
		call := w.m.Resolve(op, w.base, time.Now())
		if err := w.m.Apply(call, model.Exec(bg, g, call, false), nil); err != nil {
			return w, "preparing the database: " + err.Error()
		}
	}
	return w, ""
}

// same checks that the stored tasks are exactly those of the model.
func (w *world) same() string {
	obs, err := model.Observe(bg, w.g, w.ids)
	if err != nil {
		return err.Error()
	}
	if s := w.m.Compare(obs); s != "" {
		return s
	}
	all := len(w.m.S) + 1000
	ts, err := w.g.ListTopics(bg, all, 0)
	if err != nil {
		return err.Error()
	}
	tops := map[string]bool{}
	for _, t := range w.m.S {
		tops[t.Topic] = true
	}
	if len(ts) != len(tops) {
		return fmt.Sprintf("there are %d topics, expected %d", len(ts), len(tops))
	}
	n := 0
	for _, t := range ts {
		v, err := w.g.ListTasks(bg, t.Name, all, 0)
		if err != nil {
			return err.Error()
		}
		n += len(v)
	}
	if n != len(w.m.S) {
		return fmt.Sprintf("there are %d tasks, expected %d", n, len(w.m.S))
	}
	return ""
}

var sentinel = map[int]error{400: ratus.ErrBadRequest, 404: ratus.ErrNotFound, 409: ratus.ErrConflict, 499: ratus.ErrClientClosedRequest, 500: ratus.ErrInternalServerError, 503: ratus.ErrServiceUnavailable}

// errBody checks the error body of a failed request.
func errBody(r Resp) (string, string) {
	var e struct {
		Error *struct {
			Code    int
			Message string
		}
	}
	d := json.NewDecoder(bytes.NewReader(r.Body))
	d.DisallowUnknownFields()
	if err := d.Decode(&e); err != nil || e.Error == nil {
		return "", fmt.Sprintf("status %d without an error body: %q", r.Status, r.Body)
	}
	if e.Error.Code != r.Status {
		return "", fmt.Sprintf("status %d with code %d in the body", r.Status, e.Error.Code)
	}
	if e.Error.Message == "" {
		return "", fmt.Sprintf("status %d without a message", r.Status)
	}
	if !strings.Contains(r.Header.Get("Content-Type"), "application/json") {
		return "", fmt.Sprintf("error body of type %q", r.Header.Get("Content-Type"))
	}
	return e.Error.Message, ""
}

// result turns a response into the result of the operation.
func result(op Op, r Resp) (res model.Result, bad string) {
	if r.Status >= 400 {
		m, s := errBody(r)
		if s != "" {
			return res, s
		}
		e := sentinel[r.Status]
		if e == nil {
			return res, fmt.Sprintf("unexpected status %d: %s", r.Status, m)
		}
		res.Err = fmt.Errorf("%w (%s)", e, m)
		return res, ""
	}
	if !strings.Contains(r.Header.Get("Content-Type"), "application/json") {
		return res, fmt.Sprintf("status %d with a body of type %q", r.Status, r.Header.Get("Content-Type"))
	}
	dec := func(v any) {
		d := json.NewDecoder(bytes.NewReader(r.Body))
		d.DisallowUnknownFields()
		if err := d.Decode(v); err != nil {
			bad = fmt.Sprintf("response %q: %v", r.Body, err)
		} else if d.More() {
			bad = fmt.Sprintf("response %q has trailing data", r.Body)
		}
	}
	switch op.K {
	case "insertTask", "upsertTask", "insertTasks", "upsertTasks":
		res.Updated = new(ratus.Updated)
		dec(res.Updated)
		want := 200
		if res.Updated.Created > 0 {
			want = 201
		}
		if bad == "" && r.Status != want {
			bad = fmt.Sprintf("status %d, expected %d with %d created", r.Status, want, res.Updated.Created)
		}
		return
	case "deleteTask", "deleteTasks", "deleteTopic", "deleteTopics", "deletePromise", "deletePromises":
		res.Deleted = new(ratus.Deleted)
		dec(res.Deleted)
	case "getTask", "poll", "insertPromise", "upsertPromise", "commit":
		res.Task = new(ratus.Task)
		dec(res.Task)
	case "getPromise":
		res.Promise = new(ratus.Promise)
		dec(res.Promise)
		if res.Promise.Timeout != "" {
			bad = "promise with a timeout"
		}
	case "getTopic":
		res.Topic = new(ratus.Topic)
		dec(res.Topic)
	case "listTasks":
		var v ratus.Tasks
		dec(&v)
		res.Tasks = v.Data
	case "listPromises":
		var v ratus.Promises
		dec(&v)
		res.Promises = v.Data
	case "listTopics":
		var v ratus.Topics
		dec(&v)
		res.Topics = v.Data
	default:
		bad = "unknown operation " + op.K
	}
	if bad == "" && r.Status != 200 {
		bad = fmt.Sprintf("status %d, expected 200", r.Status)
	}
	return
}

// valid sends a request that stands for a call and checks everything.
func (w *world) valid(r Req, call *model.Call) string {
	w.trace = append(w.trace, r.String())
	call.Before, call.Base = time.Now(), w.base
	resp, s := do(w.h, r)
	call.After = time.Now()
	if s != "" {
		return s
	}
	res, s := result(call.Op, resp)
	if s != "" {
		return r.String() + ": " + s
	}
	if err := w.m.Apply(call, res, nil); err != nil {
		return fmt.Sprintf("%s (status %d): %v", r, resp.Status, err)
	}
	if s := w.same(); s != "" {
		return fmt.Sprintf("after %s (status %d): %s", r, resp.Status, s)
	}
	return ""
}

// refused sends a request that must be refused with the status and change nothing.
func (w *world) refused(r Req, status int) string {
	w.trace = append(w.trace, r.String())
	resp, s := do(w.h, r)
	if s != "" {
		if strings.HasPrefix(s, "UNPARSABLE") {
			return ""
		}
		return s
	}
	if resp.Status != status {
		return fmt.Sprintf("%s: status %d %s, expected %d", r, resp.Status, resp.Body, status)
	}
	if _, s := errBody(resp); s != "" {
		return r.String() + ": " + s
	}
	if s := w.same(); s != "" {
		return "after " + r.String() + ": " + s
	}
	return ""
}

// robust sends any request: the server must answer and not fail internally;
// what is refused must change nothing.
func (w *world) robust(r Req) string {
	w.trace = append(w.trace, r.String())
	resp, s := do(w.h, r)
	if s != "" {
		if strings.HasPrefix(s, "UNPARSABLE") {
			return ""
		}
		return s
	}
	if resp.Status >= 500 || resp.Status < 200 {
		return fmt.Sprintf("%s: status %d %s", r, resp.Status, resp.Body)
	}
	if resp.Status >= 400 {
		if r.Method != "HEAD" {
			if _, s := errBody(resp); s != "" {
				return r.String() + ": " + s
			}
		}
		if s := w.same(); s != "" {
			return "after " + r.String() + ": " + s
		}
	}
	return ""
}

func (w *world) state(extra string) {
	w.c.Distinct("states", extra+canon(w.m, time.Now()))
	w.c.Count("transitions", 1)
}

func canon(m *model.Model, now time.Time) string {
	var b []byte
	for _, id := range m.S.IDs() {
		t := m.S[id]
		b = fmt.Appendf(b, "%q%q%d", t.ID, t.Topic, t.State)
		if t.Nonce != "" {
			b = append(b, 'n')
		}
		b = append(b, t.Producer...)
		b = append(b, t.Consumer...)
		for _, x := range []*time.Time{t.Produced, t.Scheduled, t.Consumed, t.Deadline} {
			if x == nil {
				b = append(b, '-')
			} else {
				b = fmt.Appendf(b, "%d", x.Sub(now))
			}
		}
		b = fmt.Appendf(b, "%v;", t.Payload)
	}
	return string(b)
}

// one runs a case in its own bubble.
func one(c *core.Ctx, ids []string, init []TS, f func(w *world) string) {
	var w *world
	det := func() any {
		d := map[string]any{"init": init}
		if w != nil {
			d["requests"] = w.trace
		}
		return d
	}
	synctest.Test(c.T, func(*testing.T) {
		c.Guard(det, func() {
			var s string
			w, s = newWorld(c, ids, init...)
			if s == "" {
				s = f(w)
			}
			if s != "" {
				c.Violation("conformance", s, det())
				return
			}
			c.Count("histories", 1)
			c.Sample(func() string { return short(fmt.Sprintf("%v on %s", w.trace, w.m.S)) })
		})
	})
}

// esc percent-encodes everything but unreserved characters.
func esc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || strings.IndexByte("-_.~", ch) >= 0 {
			b.WriteByte(ch)
		} else {
			fmt.Fprintf(&b, "%%%02X", ch)
		}
	}
	return b.String()
}

func keys[V any](m map[string]V) []string {
	var v []string
	for k := range m {
		v = append(v, k)
	}
	sort.Strings(v)
	return v
}

var parts = map[string]func(*core.Ctx){}

func TestCheck(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultErrorWriter = io.Discard
	log.SetOutput(io.Discard)
	c := core.New(t)
	f := parts[c.Prop+"/"+c.Part]
	if f == nil {
		t.Fatalf("no part %s of %s", c.Part, c.Prop)
	}
	if c.Part == "" {
		fmt.Fprintln(os.Stderr, "no part")
	}
	f(c)
	c.Finish()
}
