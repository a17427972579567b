package web

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zverif/core"
)

func init() {
	parts["C25/requests"] = c25Requests
	parts["C25/endings"] = c25Endings
	parts["C25/many"] = c25Many
}

// wired is the network of clients, if any.
var wired atomic.Pointer[wire]

// wire is a network on which whatever a client connects to answers as decided.
type wire struct {
	mu       sync.Mutex
	dials    []string
	seen     []seen
	open     int
	mostOpen int
	inside   int // requests being answered
	conns    []net.Conn
	end      chan struct{}
	answer   func(n int, s seen) answer
}

// seen is a request as it arrived.
type seen struct {
	Addr   string
	TLS    bool
	Method string
	URI    string
	Host   string
	Header http.Header
	Body   string
}

// answer is what a server answers: the first part at once and the rest later.
type answer struct {
	Dial   bool // the connection is never established
	Unread bool // the request is never read
	Raw    string
	Cut    int           // bytes sent at once
	Wait   time.Duration // before the rest; never if negative
}

func reply(status int, body string, headers ...string) string {
	s := fmt.Sprintf("HTTP/1.1 %d X\r\n", status)
	for _, h := range headers {
		s += h + "\r\n"
	}
	return s + fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body)
}

const okBody = `{"_id":"1","topic":"t","nonce":"n1"}`

func newWire(f func(n int, s seen) answer) *wire {
	w := &wire{end: make(chan struct{}), answer: f}
	wired.Store(w)
	return w
}

func (w *wire) stop() {
	close(w.end)
	w.mu.Lock()
	v := w.conns
	w.mu.Unlock()
	for _, c := range v {
		c.Close()
	}
	synctest.Wait()
	wired.Store(nil)
}

type counted struct {
	net.Conn
	w    *wire
	once sync.Once
}

func (c *counted) Close() error {
	c.once.Do(func() {
		c.w.mu.Lock()
		c.w.open--
		c.w.mu.Unlock()
	})
	return c.Conn.Close()
}

func (w *wire) dial(ctx context.Context, address string) (net.Conn, error) {
	w.mu.Lock()
	w.dials = append(w.dials, address)
	n := len(w.seen)
	w.mu.Unlock()
	a := w.answer(n, seen{Addr: address})
	if a.Dial {
		select {
		case <-ctx.Done():
			return nil, ctx.Err()
		case <-w.end:
			return nil, net.ErrClosed
		}
	}
	x, y := net.Pipe()
	w.mu.Lock()
	w.open++
	w.mostOpen = max(w.mostOpen, w.open)
	w.conns = append(w.conns, y)
	w.mu.Unlock()
	if !a.Unread {
		go w.serve(y, address)
	}
	return &counted{Conn: conn{x}, w: w}, nil
}

func (w *wire) serve(c net.Conn, address string) {
	defer c.Close()
	br := bufio.NewReader(c)
	if b, err := br.Peek(1); err != nil {
		return
	} else if b[0] == 0x16 {
		w.mu.Lock()
		w.seen = append(w.seen, seen{Addr: address, TLS: true})
		w.mu.Unlock()
		return
	}
	for {
		r, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return
		}
		s := seen{Addr: address, Method: r.Method, URI: r.RequestURI, Host: r.Host, Header: r.Header, Body: string(b)}
		w.mu.Lock()
		n := len(w.seen)
		w.seen = append(w.seen, s)
		w.inside++
		w.mu.Unlock()
		next := make(chan error, 1)
		go func() {
			_, err := br.Peek(1)
			next <- err
		}()
		a := w.answer(n, s)
		if a.Cut > 0 {
			io.WriteString(c, a.Raw[:a.Cut])
		}
		if a.Wait < 0 {
			select {
			case <-next:
			case <-w.end:
			}
			return
		}
		if a.Wait > 0 {
			t := time.NewTimer(a.Wait)
			select {
			case <-t.C:
			case <-next:
				t.Stop()
				return
			case <-w.end:
				t.Stop()
				return
			}
		}
		w.mu.Lock()
		w.inside--
		w.mu.Unlock()
		if _, err := io.WriteString(c, a.Raw[a.Cut:]); err != nil {
			return
		}
		if err := <-next; err != nil {
			return
		}
	}
}

// way is a way to make a client send a request.
type way struct {
	name string
	f    func(c *ratus.Client, ctx context.Context) error
	bare bool // the body of the answer does not matter
	more bool // there may be several requests
}

func e1[T any](_ T, err error) error { return err }

var ways = func() []way {
	task := func() *ratus.Task { return &ratus.Task{ID: "1", Topic: "t", Payload: "x"} }
	pr := func() *ratus.Promise { return &ratus.Promise{ID: "1", Consumer: "c", Timeout: "1h"} }
	v := []way{
		{name: "ListTopics", f: func(c *ratus.Client, x context.Context) error { return e1(c.ListTopics(x, 10, 0)) }},
		{name: "DeleteTopics", f: func(c *ratus.Client, x context.Context) error { return e1(c.DeleteTopics(x)) }},
		{name: "GetTopic", f: func(c *ratus.Client, x context.Context) error { return e1(c.GetTopic(x, "t")) }},
		{name: "DeleteTopic", f: func(c *ratus.Client, x context.Context) error { return e1(c.DeleteTopic(x, "t")) }},
		{name: "ListTasks", f: func(c *ratus.Client, x context.Context) error { return e1(c.ListTasks(x, "t", 10, 0)) }},
		{name: "InsertTasks", f: func(c *ratus.Client, x context.Context) error {
			return e1(c.InsertTasks(x, []*ratus.Task{task()}))
		}},
		{name: "UpsertTasks", f: func(c *ratus.Client, x context.Context) error {
			return e1(c.UpsertTasks(x, []*ratus.Task{task()}))
		}},
		{name: "DeleteTasks", f: func(c *ratus.Client, x context.Context) error { return e1(c.DeleteTasks(x, "t")) }},
		{name: "GetTask", f: func(c *ratus.Client, x context.Context) error { return e1(c.GetTask(x, "1")) }},
		{name: "InsertTask", f: func(c *ratus.Client, x context.Context) error { return e1(c.InsertTask(x, task())) }},
		{name: "UpsertTask", f: func(c *ratus.Client, x context.Context) error { return e1(c.UpsertTask(x, task())) }},
		{name: "DeleteTask", f: func(c *ratus.Client, x context.Context) error { return e1(c.DeleteTask(x, "1")) }},
		{name: "PatchTask", f: func(c *ratus.Client, x context.Context) error {
			return e1(c.PatchTask(x, "1", &ratus.Commit{Nonce: "n"}))
		}},
		{name: "ListPromises", f: func(c *ratus.Client, x context.Context) error { return e1(c.ListPromises(x, "t", 10, 0)) }},
		{name: "PostPromises", f: func(c *ratus.Client, x context.Context) error { return e1(c.PostPromises(x, "t", pr())) }},
		{name: "DeletePromises", f: func(c *ratus.Client, x context.Context) error { return e1(c.DeletePromises(x, "t")) }},
		{name: "GetPromise", f: func(c *ratus.Client, x context.Context) error { return e1(c.GetPromise(x, "1")) }},
		{name: "InsertPromise", f: func(c *ratus.Client, x context.Context) error { return e1(c.InsertPromise(x, pr())) }},
		{name: "UpsertPromise", f: func(c *ratus.Client, x context.Context) error { return e1(c.UpsertPromise(x, pr())) }},
		{name: "DeletePromise", f: func(c *ratus.Client, x context.Context) error { return e1(c.DeletePromise(x, "1")) }},
		{name: "GetLiveness", bare: true, f: func(c *ratus.Client, x context.Context) error { return c.GetLiveness(x) }},
		{name: "GetReadiness", bare: true, f: func(c *ratus.Client, x context.Context) error { return c.GetReadiness(x) }},
		{name: "Poll", f: func(c *ratus.Client, x context.Context) error { return e1(c.Poll(x, "t", pr())) }},
		{name: "Request", f: func(c *ratus.Client, x context.Context) error {
			var v any
			return c.Request(x, "POST", "/v1/anything?a=b", map[string]int{"a": 1}, &v)
		}},
		{name: "Request absolute", f: func(c *ratus.Client, x context.Context) error {
			var v any
			return c.Request(x, "GET", "http://ratus.test/v1/anything", nil, &v)
		}},
		{name: "Poll and Commit", more: true, f: func(c *ratus.Client, x context.Context) error {
			y, err := c.Poll(x, "t", pr())
			if err != nil {
				return err
			}
			return y.SetPayload("x").Commit()
		}},
		{name: "Subscribe", more: true, f: func(c *ratus.Client, x context.Context) error {
			x, end := context.WithCancel(x)
			defer end()
			var first error
			err := c.Subscribe(x, &ratus.SubscribeOptions{Topic: "t", Promise: pr()}, func(y *ratus.Context, err error) {
				if err == nil {
					err = y.Commit()
				}
				first = err
				end()
			})
			if first != nil {
				return first
			}
			if !errors.Is(err, context.Canceled) {
				return err
			}
			return nil
		}},
	}
	return v
}()

// c25case runs one case in a bubble.
func c25case(c *core.Ctx, detail any, f func() string) {
	synctest.Test(c.T, func(*testing.T) {
		c.Guard(func() any { return detail }, func() {
			t := http.DefaultTransport.(*http.Transport)
			before := fmt.Sprint(t.MaxIdleConns, t.MaxConnsPerHost, t.MaxIdleConnsPerHost, t.IdleConnTimeout, t.TLSHandshakeTimeout, t.DisableKeepAlives, t.DisableCompression, t.ResponseHeaderTimeout, *http.DefaultClient)
			s := f()
			if t != http.DefaultTransport || before != fmt.Sprint(t.MaxIdleConns, t.MaxConnsPerHost, t.MaxIdleConnsPerHost, t.IdleConnTimeout, t.TLSHandshakeTimeout, t.DisableKeepAlives, t.DisableCompression, t.ResponseHeaderTimeout, *http.DefaultClient) {
				s = "the settings of all HTTP clients of the program were changed"
			}
			if s != "" {
				c.Violation("conformance", s, detail)
				return
			}
			c.Count("histories", 1)
			c.Distinct("states", fmt.Sprint(detail))
			c.Sample(func() string { return fmt.Sprint(detail) })
		})
	})
}

// settings of a client and what is to be seen of them.
type settings struct {
	Origin  string
	Headers map[string]string
}

func (o settings) host() (addr, host string, tls bool) {
	u, err := url.Parse(o.Origin)
	if err != nil {
		panic(err)
	}
	addr = u.Host
	if u.Port() == "" {
		addr = net.JoinHostPort(u.Hostname(), map[string]string{"http": "80", "https": "443"}[u.Scheme])
	}
	return addr, u.Host, u.Scheme == "https"
}

// judge tells what is wrong with a request of a client.
func (o settings) judge(s seen, absolute bool) string {
	addr, host, tls := o.host()
	if s.Addr != addr {
		return fmt.Sprintf("it went to %s", s.Addr)
	}
	if s.TLS != tls {
		return fmt.Sprintf("encrypted: %v", s.TLS)
	}
	if tls {
		return ""
	}
	if s.Host != host && !absolute {
		return fmt.Sprintf("its host is %q", s.Host)
	}
	agent := "Ratus-Client"
	for k, v := range o.Headers {
		k = http.CanonicalHeaderKey(k)
		if k == "User-Agent" {
			agent = v
		}
		if got := s.Header[k]; len(got) != 1 || got[0] != v {
			return fmt.Sprintf("header %s is %q", k, got)
		}
	}
	if got := s.Header["User-Agent"]; len(got) != 1 || got[0] != agent {
		return fmt.Sprintf("the user agent is %q", got)
	}
	return ""
}

// c25Requests: every method with every origin, headers and answer.
func c25Requests(c *core.Ctx) {
	origins := []string{"http://ratus.test", "http://ratus.test:8080", "https://ratus.test", "https://ratus.test:8443", "http://192.0.2.7:9", "http://[2001:db8::1]:8080", "HTTP://Ratus.Test"}
	headers := []map[string]string{nil, {}, {"foo": "bar"}, {"Authorization": "Bearer abc"}, {"X-One": "1", "x-two": "2"}, {"user-agent": "me/1"}, {"User-Agent": "me/2"}, {"Content-Type": "application/json; charset=utf-8"}, {"Accept-Encoding": "identity"}, {"Cookie": "a=b"}, {"X-Empty": ""}, {"accept": "application/json", "AUTHORIZATION": "x"}}
	type ans struct {
		name string
		raw  []string
	}
	answers := []ans{{"ok", nil}, {"404", []string{reply(404, `{"error":{"code":404,"message":"not found"}}`)}}, {"500", []string{reply(500, "oops")}}, {"set-cookie", []string{reply(200, okBody, "Set-Cookie: s=1")}}}
	for _, st := range []int{301, 302, 303, 307, 308} {
		for _, to := range []string{"/elsewhere", "http://other.test/x", "https://other.test/x", "//other.test:99/x", "http://ratus.test:1/x"} {
			answers = append(answers, ans{fmt.Sprintf("%d to %s", st, to), []string{reply(st, "", "Location: "+to)}})
		}
	}
	answers = append(answers, ans{"two redirects", []string{reply(307, "", "Location: http://a.test/"), reply(308, "", "Location: https://b.test/")}})
	for _, o := range origins {
		for _, h := range headers {
			for _, a := range answers {
				for _, m := range ways {
					if !c.Take() {
						if c.Stopped() {
							return
						}
						continue
					}
					st := settings{o, h}
					d := map[string]any{"settings": st, "answer": a.name, "method": m.name}
					c25case(c, d, func() string {
						w := newWire(func(n int, s seen) answer {
							if n < len(a.raw) {
								return answer{Raw: a.raw[n]}
							}
							return answer{Raw: reply(200, okBody)}
						})
						defer w.stop()
						own := map[string]string{}
						for k, v := range h {
							own[k] = v
						}
						if h == nil {
							own = nil
						}
						cl, err := ratus.NewClient(&ratus.ClientOptions{Origin: o, Headers: own})
						if err != nil {
							return fmt.Sprintf("%v: NewClient: %v", d, err)
						}
						if fmt.Sprint(own) != fmt.Sprint(map[string]string(h)) {
							return "NewClient changed the headers it was given"
						}
						err = m.f(cl, bg)
						synctest.Wait()
						w.mu.Lock()
						defer w.mu.Unlock()
						_, _, tls := st.host()
						if bad := a.name == "404" || a.name == "500" || tls; (err != nil) != bad && !(m.name == "Subscribe" && a.name == "404") {
							return fmt.Sprintf("%v: the result is %v", d, err)
						}
						if len(w.seen) == 0 {
							return fmt.Sprintf("%v: no request arrived", d)
						}
						for i, s := range w.seen {
							if x := st.judge(s, m.name == "Request absolute"); x != "" {
								return fmt.Sprintf("%v: request %d, %s %s: %s", d, i, s.Method, s.URI, x)
							}
						}
						for _, x := range w.dials {
							if addr, _, _ := st.host(); x != addr {
								return fmt.Sprintf("%v: a connection was made to %s", d, x)
							}
						}
						if f := w.seen[0]; strings.HasPrefix(a.name, "307") || strings.HasPrefix(a.name, "308") {
							if len(w.seen) < 2 && !tls {
								return fmt.Sprintf("%v: the redirect was not followed", d)
							}
							if !tls && (w.seen[1].Method != f.Method || w.seen[1].Body != f.Body) {
								return fmt.Sprintf("%v: after the redirect the request is %s %q, before it was %s %q", d, w.seen[1].Method, w.seen[1].Body, f.Method, f.Body)
							}
						}
						c.Count("transitions", int64(len(w.seen)))
						return ""
					})
				}
			}
		}
	}
	for _, o := range []string{"http://[::1", ":foo", "http://a b/", "http://x:port", "%zz", "http://%zz", "\x7f"} {
		if !c.Take() {
			if c.Stopped() {
				return
			}
			continue
		}
		c25case(c, o, func() string {
			if _, err := ratus.NewClient(&ratus.ClientOptions{Origin: o}); err == nil {
				return fmt.Sprintf("a client was made for the origin %q", o)
			}
			return ""
		})
	}
}

// c25Endings: every method, every point at which an exchange stalls, every
// timeout and every end of the context.
func c25Endings(c *core.Ctx) {
	ok := reply(200, okBody)
	head := strings.Index(ok, "\r\n\r\n") + 4
	chunked := "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + fmt.Sprintf("%x\r\n%s\r\n0\r\n\r\n", len(okBody), okBody)
	bad := reply(409, `{"error":{"code":409,"message":"conflict"}}`)
	type stall struct {
		name    string
		a       answer
		headers bool // the headers have arrived
		second  bool // a redirect comes first
		err     bool
	}
	stalls := []stall{
		{name: "connecting", a: answer{Dial: true}},
		{name: "sending", a: answer{Unread: true}},
		{name: "before the answer", a: answer{Raw: ok}},
		{name: "in the status", a: answer{Raw: ok, Cut: 7}},
		{name: "in the headers", a: answer{Raw: ok, Cut: head - 2}},
		{name: "before the body", a: answer{Raw: ok, Cut: head}, headers: true},
		{name: "in the body", a: answer{Raw: ok, Cut: head + 9}, headers: true},
		{name: "in a chunk", a: answer{Raw: chunked, Cut: len(chunked) - 20}, headers: true},
		{name: "in an error", a: answer{Raw: bad, Cut: len(bad) - 5}, headers: true, err: true},
		{name: "after a redirect", a: answer{Raw: ok}, second: true},
	}
	const never = time.Duration(-1)
	timeouts := []time.Duration{0, 2 * time.Second, 5 * time.Second}
	type ending struct {
		How string
		At  time.Duration
	}
	ends := []ending{{"", 0}, {"deadline", 3 * time.Second}, {"cancel", 3 * time.Second}, {"cancel", 0}, {"deadline", 0}, {"deadline", -time.Second}}
	for _, s := range stalls {
		for _, wait := range []time.Duration{never, time.Second, 4 * time.Second} {
			if wait > 0 && (s.a.Dial || s.a.Unread) {
				continue
			}
			for _, to := range timeouts {
				for _, e := range ends {
					for _, m := range ways {
						if !c.Take() {
							if c.Stopped() {
								return
							}
							continue
						}
						d := map[string]any{"method": m.name, "stalls": s.name, "for": wait, "timeout": to, "context": e}
						c25case(c, fmt.Sprint(d), func() string {
							stalled := true
							w := newWire(func(n int, q seen) answer {
								switch {
								case !stalled || n > 1:
									return answer{Raw: ok}
								case s.second && n == 0:
									return answer{Raw: reply(307, "", "Location: /again")}
								case n == 1 && !s.second:
									return answer{Raw: ok}
								}
								a := s.a
								a.Wait = wait
								return a
							})
							defer w.stop()
							cl, err := ratus.NewClient(&ratus.ClientOptions{Origin: "http://ratus.test", Timeout: to})
							if err != nil {
								return err.Error()
							}
							parent, release := context.WithCancel(bg)
							defer release()
							ctx := parent
							limit := never
							var why error
							if to > 0 {
								limit = to
							}
							start := time.Now()
							switch e.How {
							case "deadline":
								x, f := context.WithDeadline(parent, start.Add(e.At))
								defer f()
								ctx = x
								if limit < 0 || e.At < limit {
									limit, why = max(e.At, 0), context.DeadlineExceeded
								}
							case "cancel":
								x, f := context.WithCancel(parent)
								ctx = x
								if e.At == 0 {
									f()
								}
								t := time.AfterFunc(e.At, f)
								defer t.Stop()
								defer f()
								if limit < 0 || e.At < limit {
									limit, why = e.At, context.Canceled
								}
							}
							done := make(chan error, 1)
							var at time.Time
							go func() {
								err := m.f(cl, ctx)
								at = time.Now()
								done <- err
							}()
							synctest.Wait()
							horizon := 100 * time.Hour
							time.Sleep(horizon)
							synctest.Wait()
							var res error
							returned := true
							select {
							case res = <-done:
							default:
								returned = false
							}
							took := at.Sub(start)
							answered := wait > 0 && (limit < 0 || wait < limit)
							switch {
							case !answered && limit < 0:
								if returned {
									return fmt.Sprintf("%v: it returned %v after %v", d, res, took)
								}
								release()
								synctest.Wait()
								select {
								case res = <-done:
									if res == nil && !(m.bare && s.headers) && m.name != "Subscribe" {
										return fmt.Sprintf("%v: it returned no error when the context was cancelled", d)
									}
								default:
									return fmt.Sprintf("%v: it did not return when the context was cancelled", d)
								}
							case !returned:
								return fmt.Sprintf("%v: it has not returned after %v", d, horizon)
							case answered:
								if took != wait && !(m.bare && took <= wait) {
									return fmt.Sprintf("%v: it returned after %v", d, took)
								}
								if (res != nil) != s.err {
									return fmt.Sprintf("%v: it returned %v although the answer came in time", d, res)
								}
							default:
								if took != limit && !(m.bare && s.headers && !s.err && took <= limit) {
									return fmt.Sprintf("%v: it returned %v after %v, expected %v", d, res, took, limit)
								}
								if m.name == "Subscribe" && why != nil {
									break // it only returns the error of its context
								}
								if res == nil && !(m.bare && s.headers && !s.err && limit > 0) {
									return fmt.Sprintf("%v: it returned no error", d)
								}
								if s.headers {
									break // encoding/json may hide the reason behind that of a second read
								}
								if res != nil && why != nil && !errors.Is(res, why) {
									return fmt.Sprintf("%v: it returned %q, which is not %q", d, res, why)
								}
								var ne net.Error
								if res != nil && why == nil && !(errors.As(res, &ne) && ne.Timeout()) && !errors.Is(res, context.DeadlineExceeded) {
									return fmt.Sprintf("%v: it returned %q, which is no timeout", d, res)
								}
							}
							// The client works as before.
							stalled = false
							again := time.Now()
							if err := m.f(cl, bg); err != nil {
								return fmt.Sprintf("%v: afterwards it failed: %v", d, err)
							}
							if x := time.Since(again); x != 0 {
								return fmt.Sprintf("%v: afterwards it took %v", d, x)
							}
							synctest.Wait()
							w.mu.Lock()
							defer w.mu.Unlock()
							if w.open > 1 && !(m.more && w.open < 4) {
								return fmt.Sprintf("%v: afterwards %d connections are open", d, w.open)
							}
							c.Count("transitions", int64(len(w.seen)))
							return ""
						})
					}
				}
			}
		}
	}
}

// c25Many: many calls at once, calls one after another, and several clients.
func c25Many(c *core.Ctx) {
	sizes := []int{1, 2, 3, 4, 6, 8, 16, 32, 64, 100, 128, 256, 300, 1030, 2100}
	for _, n := range sizes {
		for _, m := range ways {
			if m.more || n > 1000 && m.name != "PostPromises" && !c.Thorough() {
				continue
			}
			if !c.Take() {
				if c.Stopped() {
					return
				}
				continue
			}
			d := fmt.Sprintf("%d calls of %s at once", n, m.name)
			c25case(c, d, func() string {
				w := newWire(func(int, seen) answer { return answer{Raw: reply(200, okBody), Wait: time.Minute} })
				defer w.stop()
				cl, err := ratus.NewClient(&ratus.ClientOptions{Origin: "http://ratus.test", Headers: map[string]string{"A": "b"}})
				if err != nil {
					return err.Error()
				}
				for round := 0; round < 2; round++ {
					start := time.Now()
					errs := make(chan error, n)
					for i := 0; i < n; i++ {
						go func() { errs <- m.f(cl, bg) }()
					}
					synctest.Wait()
					w.mu.Lock()
					in := w.inside
					w.mu.Unlock()
					if in != n {
						return fmt.Sprintf("%s: %d requests arrived", d, in)
					}
					for i := 0; i < n; i++ {
						if err := <-errs; err != nil {
							return fmt.Sprintf("%s: %v", d, err)
						}
					}
					if x := time.Since(start); x != time.Minute {
						return fmt.Sprintf("%s took %v", d, x)
					}
					synctest.Wait()
				}
				w.mu.Lock()
				defer w.mu.Unlock()
				if w.mostOpen > n {
					return fmt.Sprintf("%s: up to %d connections were open", d, w.mostOpen)
				}
				c.Count("transitions", int64(len(w.seen)))
				return ""
			})
		}
	}
	// Words of answers, one after another: at most one connection stays open.
	letters := []struct {
		name string
		a    answer
	}{
		{"ok", answer{Raw: reply(200, okBody)}}, {"ok with more", answer{Raw: reply(200, okBody+"\n"+strings.Repeat(" ", 5000))}},
		{"404", answer{Raw: reply(404, `{"error":{"code":404,"message":"not found"}}`)}}, {"html", answer{Raw: reply(502, "<html>"+strings.Repeat("x", 9000))}},
		{"garbage", answer{Raw: reply(200, "{]")}}, {"empty", answer{Raw: reply(200, "")}}, {"no content", answer{Raw: "HTTP/1.1 204 No Content\r\n\r\n"}},
		{"stall", answer{Raw: reply(200, okBody), Cut: 60, Wait: -1}},
	}
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	var rec func(word []int)
	rec = func(word []int) {
		if c.Stopped() {
			return
		}
		if len(word) == depth {
			for _, m := range ways {
				if m.more || !c.Take() {
					continue
				}
				var d []string
				for _, l := range word {
					d = append(d, letters[l].name)
				}
				d = append(d, m.name)
				c25case(c, d, func() string {
					w := newWire(func(n int, s seen) answer {
						if s.Method == "" {
							return answer{}
						}
						return letters[word[n]].a
					})
					defer w.stop()
					cl, err := ratus.NewClient(&ratus.ClientOptions{Origin: "http://ratus.test", Timeout: time.Second})
					if err != nil {
						return err.Error()
					}
					for i, l := range word {
						err := m.f(cl, bg)
						synctest.Wait()
						w.mu.Lock()
						open, got := w.open, len(w.seen)
						w.mu.Unlock()
						if got != i+1 {
							return fmt.Sprintf("%v: %d requests arrived for %d calls", d, got, i+1)
						}
						if open > 1 {
							return fmt.Sprintf("%v: %d connections are open after call %d", d, open, i)
						}
						switch letters[l].name {
						case "ok", "ok with more":
							if err != nil {
								return fmt.Sprintf("%v: call %d: %v", d, i, err)
							}
						case "404", "html":
							if err == nil {
								return fmt.Sprintf("%v: call %d: no error", d, i)
							}
						}
						c.Count("transitions", 1)
					}
					return ""
				})
			}
			return
		}
		for i := range letters {
			rec(append(word[:len(word):len(word)], i))
		}
	}
	rec(nil)
	// Several clients with settings of their own take turns.
	all := []settings{{"http://a.test", map[string]string{"X-A": "1", "User-Agent": "a"}}, {"http://b.test:81", map[string]string{"X-A": "2"}}, {"http://c.test", nil}}
	var turns func(word []int, n int)
	turns = func(word []int, n int) {
		if c.Stopped() {
			return
		}
		if len(word) == n {
			if !c.Take() {
				return
			}
			d := fmt.Sprint("clients in turn: ", word)
			c25case(c, d, func() string {
				w := newWire(func(int, seen) answer { return answer{Raw: reply(200, okBody)} })
				defer w.stop()
				var cls []*ratus.Client
				for _, s := range all {
					cl, err := ratus.NewClient(&ratus.ClientOptions{Origin: s.Origin, Headers: s.Headers})
					if err != nil {
						return err.Error()
					}
					cls = append(cls, cl)
				}
				for i, k := range word {
					if err := ways[(i*7+int(c.Index()))%len(ways)].f(cls[k], bg); err != nil {
						return fmt.Sprintf("%s: %v", d, err)
					}
					w.mu.Lock()
					v := w.seen
					w.seen = nil
					w.mu.Unlock()
					for _, s := range v {
						abs := strings.Contains(s.URI, "anything")
						if x := all[k].judge(s, abs); x != "" {
							return fmt.Sprintf("%s: call %d, %s %s: %s", d, i, s.Method, s.URI, x)
						}
						for h := range s.Header {
							if h == "X-A" && all[k].Headers == nil {
								return fmt.Sprintf("%s: call %d has a header of another client", d, i)
							}
						}
					}
					c.Count("transitions", 1)
				}
				return ""
			})
			return
		}
		for k := range all {
			turns(append(word[:len(word):len(word)], k), n)
		}
	}
	for n := 1; n <= 6; n++ {
		turns(nil, n)
	}
}
