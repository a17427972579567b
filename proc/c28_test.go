package main_test

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"regexp"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zverif/core"
)

func init() {
	parts["C28/forms"] = c28forms
	parts["C28/pieces"] = c28pieces
	parts["C28/connections"] = c28connections
	parts["C28/cuts"] = c28cuts
	parts["C28/crowds"] = c28crowds
	parts["C28/browsers"] = c28browsers
}

func noEffect(map[string]string) {}

// is checks that an answer is a JSON object with certain members.
func is(text string) func([]byte) error {
	var want any
	if err := json.Unmarshal([]byte(text), &want); err != nil {
		panic(err)
	}
	return func(b []byte) error {
		var got any
		if err := json.Unmarshal(b, &got); err != nil {
			return err
		}
		if s := lacks(want, got); s != "" {
			return fmt.Errorf("%s in %s", s, b)
		}
		return nil
	}
}

func lacks(want, got any) string {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("%v instead of an object", got)
		}
		for k := range w {
			if s := lacks(w[k], g[k]); s != "" {
				return k + ": " + s
			}
		}
		return ""
	}
	a, _ := json.Marshal(want)
	b, _ := json.Marshal(got)
	if !bytes.Equal(a, b) {
		return fmt.Sprintf("%s instead of %s", b, a)
	}
	return ""
}

func refused(status int) func([]byte) error { return is(fmt.Sprintf(`{"error":{"code":%d}}`, status)) }

func empty(b []byte) error {
	if len(b) > 0 {
		return fmt.Errorf("a body: %q", b)
	}
	return nil
}

// holds checks that an answer contains some text.
func holds(s string) func([]byte) error {
	return func(b []byte) error {
		if !bytes.Contains(b, []byte(s)) {
			return fmt.Errorf("no %q", s)
		}
		return nil
	}
}

// transports are requests of every kind, about tasks whose numbers end in n.
func transports(n string) []*request {
	topic := "t"
	if n == "2" {
		topic = "u"
	}
	base := "/topics/" + topic
	none := func(name, method, target, body string, status int, check func([]byte) error) *request {
		return &request{Name: name, method: method, target: target, body: body, status: status, effect: noEffect, check: check}
	}
	v := requests(topic, n)
	big := "b" + n
	v = append(v,
		&request{Name: "insert a large task", method: "PUT", target: base + "/tasks/" + big, body: `{"producer":"me","defer":"1h","payload":"` + strings.Repeat("y", 9000) + `"}`, status: 201,
			effect: set(big, topic, 0, "me", "", strings.Repeat("y", 9000)), check: counts(1, 0, 0)},
		&request{Name: "claim by default", method: "PUT", target: "/v1" + base + "/promises/p" + n, body: "", status: 200,
			effect: set("p"+n, topic, 1, "prod", "", "payload of p"+n), check: taskIs("p"+n, 1)},
		none("read", "GET", base+"/tasks/a"+n, "", 200, is(`{"_id":"a`+n+`","topic":"`+topic+`","state":1,"nonce":"0123456789abcdef","payload":"payload of a`+n+`"}`)),
		none("topic", "GET", "/v1/topics/big", "", 200, is(`{"name":"big","count":12}`)),
		none("missing", "GET", base+"/tasks/none", "", 404, refused(404)),
		none("exists", "POST", base+"/tasks/a"+n, `{"producer":"me"}`, 409, refused(409)),
		none("damaged", "PUT", base+"/tasks", `{"data":[{"_id":"z","producer":"me"},{"_id":"z2","payload":tru}]}`, 400, refused(400)),
		none("bad limit", "GET", base+"/tasks?limit=x", "", 400, refused(400)),
		none("nowhere", "POST", base+"/nothing", `{"producer":"me"}`, 404, refused(404)),
		none("alive", "GET", "/livez", "", 200, empty),
		none("ready", "GET", "/v1/readyz", "", 200, empty),
		none("metrics", "GET", "/metrics", "", 200, holds("\nratus_request_duration_seconds_count{")),
		none("start page", "GET", "/", "", 200, holds("swagger-ui")),
		none("description", "GET", "/openapi.json", "", 200, is(`{"openapi":"3.0.1","servers":[{"url":"/v1"}]}`)),
	)
	for _, r := range v {
		// A title is not needed to tell them apart in a history.
		r.db = ""
	}
	return v
}

// form is a way to write a request.
type form struct {
	Name    string
	headers string
	http10  bool
	chunk   int  // size of chunks, if any
	wait    bool // the body is sent when asked for
	zip     bool // the answer may be compressed
	close   bool // the connection is closed
	origin  bool
	lower   bool // names of header fields in lower case
	proxy   bool // absolute target
	trailer bool
}

var forms = []form{
	{Name: "plain"},
	{Name: "gzip", headers: "Accept-Encoding: gzip\r\n", zip: true},
	{Name: "browser", headers: "Accept-Encoding: gzip, deflate, br, zstd\r\nAccept: text/html,application/xhtml+xml,*/*;q=0.8\r\nAccept-Language: en\r\nUser-Agent: Mozilla/5.0\r\nCookie: a=b\r\nOrigin: https://example.com\r\nReferer: https://example.com/\r\n", zip: true, origin: true},
	{Name: "identity", headers: "Accept-Encoding: identity\r\n"},
	{Name: "chunked", chunk: 1 << 20},
	{Name: "chunks of 1", chunk: 1},
	{Name: "chunks of 7 with extensions and trailer", chunk: 7, trailer: true},
	{Name: "chunked and gzip", chunk: 100, headers: "Accept-Encoding: gzip\r\n", zip: true},
	{Name: "HTTP/1.0", http10: true, close: true},
	{Name: "HTTP/1.0 and gzip", http10: true, close: true, headers: "Accept-Encoding: gzip\r\n", zip: true},
	{Name: "HTTP/1.0 kept alive", http10: true, headers: "Connection: keep-alive\r\n"},
	{Name: "last", headers: "Connection: close\r\n", close: true},
	{Name: "last and gzip", headers: "Connection: close\r\nAccept-Encoding: gzip\r\n", close: true, zip: true},
	{Name: "asks to continue", headers: "Expect: 100-continue\r\n", wait: true},
	{Name: "asks to continue, chunked", headers: "Expect: 100-continue\r\n", wait: true, chunk: 1 << 20},
	{Name: "asks to continue but does not wait", headers: "Expect: 100-continue\r\n"},
	{Name: "other origin", headers: "Origin: http://app.example.org:3000\r\n", origin: true},
	{Name: "no origin", headers: "Origin: null\r\n", origin: true},
	{Name: "lower case", lower: true},
	{Name: "through a proxy", proxy: true, headers: "X-Forwarded-For: 10.0.0.1, 10.0.0.2\r\nX-Forwarded-Proto: https\r\nX-Forwarded-Host: ratus.example.org\r\nVia: 1.1 proxy\r\nX-Real-Ip: 10.0.0.1\r\n"},
	{Name: "long header", headers: "Authorization: Bearer " + strings.Repeat("k", 100000) + "\r\nTraceparent: 00-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01\r\n"},
	{Name: "many header fields", headers: strings.Repeat("X-Something: else\r\n", 80)},
}

// write is the text of a request: its head and its body.
func (f *form) write(r *request) (head, body string) {
	target, version := r.target, "HTTP/1.1"
	if f.proxy {
		target = "http://ratus" + target
	}
	if f.http10 {
		version = "HTTP/1.0"
	}
	h := "Host: ratus\r\n" + f.headers
	if r.body != "" {
		h += "Content-Type: application/json\r\n"
	}
	switch {
	case f.chunk > 0:
		h += "Transfer-Encoding: chunked\r\n"
		ext := ""
		if f.trailer {
			h += "Trailer: X-Sum\r\n"
			ext = `;name="value"`
		}
		for b := r.body; b != ""; {
			n := min(f.chunk, len(b))
			body += fmt.Sprintf("%x%s\r\n%s\r\n", n, ext, b[:n])
			b = b[n:]
		}
		body += "0\r\n"
		if f.trailer {
			body += "X-Sum: 1\r\n"
		}
		body += "\r\n"
	case r.body != "" || r.method == "POST" || r.method == "PUT" || r.method == "PATCH":
		h += fmt.Sprintf("Content-Length: %d\r\n", len(r.body))
		body = r.body
	}
	if f.lower {
		lines := strings.Split(h, "\r\n")
		for i, l := range lines {
			if k, v, ok := strings.Cut(l, ":"); ok {
				lines[i] = strings.ToLower(k) + ":" + strings.TrimSpace(v)
			}
		}
		h = strings.Join(lines, "\r\n")
	}
	return r.method + " " + target + " " + version + "\r\n" + h + "\r\n", body
}

// received is one answer.
type received struct {
	status int
	header http.Header
	body   []byte
}

// received parses all that has arrived on a connection: answers to requests
// with the given methods. It tells what is left.
func (k *client) received(methods ...string) (v []received, continues int, rest int, err error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	br := bufio.NewReader(bytes.NewReader(k.in))
	for i := 0; i < len(methods); {
		if _, e := br.Peek(1); e != nil {
			return v, continues, 0, nil
		}
		r, e := http.ReadResponse(br, &http.Request{Method: methods[i]})
		if e != nil {
			return v, continues, 0, fmt.Errorf("answer %d: %v", i, e)
		}
		if r.StatusCode == 100 {
			continues++
			continue
		}
		toEnd := r.ContentLength < 0 && len(r.TransferEncoding) == 0
		b, e := io.ReadAll(r.Body)
		if e != nil {
			return v, continues, 0, fmt.Errorf("the body of answer %d is cut off: %v", i, e)
		}
		if toEnd && !k.eof {
			return v, continues, 0, fmt.Errorf("answer %d has no end", i)
		}
		v = append(v, received{r.StatusCode, r.Header, b})
		i++
	}
	b, _ := io.ReadAll(br)
	return v, continues, len(b), nil
}

// talker is one process under requests in different forms.
type talker struct {
	c      *core.Ctx
	p      *process
	want   map[string]string
	detail func() any
	desc   string
	bads   int
}

func (x *talker) bad(sig, f string, a ...any) {
	x.bads++
	s := regexp.MustCompile("y{100,}").ReplaceAllStringFunc(fmt.Sprintf(f, a...), func(s string) string { return fmt.Sprintf("(y %d times)", len(s)) })
	x.c.Violation(sig, s+"\n"+x.desc, x.detail())
}

// types are the media types of answers, by name of request.
var types map[string]string

// judge compares an answer with what is expected of the request.
func (x *talker) judge(r *request, f *form, a received) {
	if a.status != r.status {
		x.bad("status", "%q was answered with %d, expected %d: %.300q", r.Name, a.status, r.status, a.body)
		return
	}
	b := a.body
	switch e := a.header.Get("Content-Encoding"); {
	case e == "":
	case e == "gzip" && f.zip:
		if len(b) > 0 {
			z, err := gzip.NewReader(bytes.NewReader(b))
			if err == nil {
				b, err = io.ReadAll(z)
			}
			if err != nil {
				x.bad("encoding", "the answer to %q is not the compressed text it claims to be: %v", r.Name, err)
				return
			}
		}
	default:
		x.bad("encoding", "the answer to %q is in encoding %q, which was not accepted", r.Name, e)
		return
	}
	if r.check != nil {
		if err := r.check(b); err != nil {
			x.bad("body", "the answer to %q: %v", r.Name, err)
			return
		}
	}
	ct := a.header.Get("Content-Type")
	if t, ok := types[r.Name]; ok && t != ct {
		x.bad("type", "the answer to %q has the type %q, expected %q", r.Name, ct, t)
	} else if !ok && types != nil {
		types[r.Name] = ct
	}
	if o := a.header.Get("Access-Control-Allow-Origin"); f.origin && o != "*" {
		x.bad("origin", "the answer to %q allows the origin %q, expected all", r.Name, o)
	}
}

// talk28 runs a case against a process of its own; f is given the means.
func talk28(c *core.Ctx, detail any, desc string, f func(x *talker)) {
	bubble(c, func() any { return detail }, func(t *testing.T) {
		x := &talker{c: c, want: initial(), detail: func() any { return detail }, desc: desc}
		p := &process{fs: seedDisk()}
		x.p = p
		defer p.clean()
		p.boot("--bind", "127.0.0.1", "--port", "8080", "--chore-interval", "900h", "--engine", "memdb", "--memdb-snapshot-path", path, "--memdb-snapshot-interval", "500h")
		if p.dead() || p.listener() == nil {
			x.bad("start", "the process did not start to listen")
			return
		}
		f(x)
		if x.bads > 0 {
			return
		}
		p.kill(syscall.SIGTERM)
		synctest.Wait()
		for i := 0; i < 40 && !p.dead(); i++ {
			time.Sleep(500 * time.Millisecond)
			synctest.Wait()
		}
		if !p.dead() || p.code != 0 {
			x.bad("end", "the process did not end well: %s", p.how)
			return
		}
		got, err := p.stored()
		if err != nil {
			x.bad("stored", "%v", err)
			return
		}
		if s := diff(x.want, got); s != "" {
			x.bad("stored", "%s", s)
		}
		c.Count("processes", 1)
		c.Sample(func() string { return desc })
	})
}

// known learns the media types of the answers.
func known28(c *core.Ctx) {
	types = map[string]string{}
	for _, r := range transports("1") {
		talk28(c, r.Name, r.Name, func(x *talker) {
			k := x.dial()
			k.read(0)
			head, body := forms[0].write(r)
			k.send(head + body)
			x.finish(k, []*request{r}, []*form{&forms[0]})
			k.close()
		})
	}
}

func (x *talker) dial() *client {
	n, err := x.p.dial()
	if err != nil {
		panic(err)
	}
	return newClient(n)
}

// finish judges all answers received on a connection.
func (x *talker) finish(k *client, rs []*request, fs []*form) {
	var methods []string
	for _, r := range rs {
		methods = append(methods, r.method)
	}
	v, _, rest, err := k.received(methods...)
	if err != nil {
		x.bad("framing", "%v", err)
		return
	}
	if len(v) < len(rs) {
		x.bad("no answer", "%d of %d requests were answered", len(v), len(rs))
		return
	}
	if rest > 0 {
		x.bad("framing", "%d bytes follow the last answer", rest)
	}
	for i := range v {
		x.judge(rs[i], fs[i], v[i])
		rs[i].effect(x.want)
	}
	last := fs[len(fs)-1]
	k.mu.Lock()
	eof := k.eof
	k.mu.Unlock()
	if last.close && !eof {
		x.bad("open", "the connection stays open")
	}
}

// other asks something on another connection, in the middle of something.
func (x *talker) other() {
	st, b, err := x.p.talk("GET", "/v1/topics/big", "")
	if err != nil || st != 200 || is(`{"count":12}`)(b) != nil {
		x.bad("others", "meanwhile another client was answered with %d %s %v", st, b, err)
	}
}

// c28forms: every request in every form, delivered and read in several ways.
func c28forms(c *core.Ctx) {
	known28(c)
	type reading struct {
		Name string
		n    int // bytes at a time, 0 for all
		gap  time.Duration
	}
	readings := []reading{{"at once", 0, 0}, {"1 byte and after an hour the rest", 1, time.Hour}, {"600 bytes a minute", 600, time.Minute}}
	for ri := range transports("1") {
		for fi := range forms {
			for delivery := 0; delivery < 4; delivery++ {
				for _, rd := range readings {
					if c.Stopped() {
						return
					}
					if !c.Take() {
						continue
					}
					r, f := transports("1")[ri], &forms[fi]
					names := []string{"at once", "head, then body after a minute", "half of the head, the rest after an hour, the body after another", "10 pieces 7 s apart"}
					desc := fmt.Sprintf("%s %s, form %q, sent %s, read %s", r.method, r.target, f.Name, names[delivery], rd.Name)
					detail := map[string]any{"request": r.Name, "form": f.Name, "delivery": delivery, "reading": rd.Name}
					talk28(c, detail, desc, func(x *talker) {
						k := x.dial()
						defer k.close()
						if rd.n == 0 {
							k.read(0)
						} else {
							k.read(rd.n)
						}
						head, body := f.write(r)
						pause := func(d time.Duration) {
							time.Sleep(d)
							synctest.Wait()
							x.other()
						}
						switch {
						case f.wait || delivery == 1:
							k.send(head)
							pause(time.Minute)
							if f.wait && rd.n == 0 && r.body != "" && r.status != 404 {
								if _, n, _, err := k.received(r.method); n != 1 || err != nil {
									x.bad("continue", "the client was not asked to continue: %v", err)
									return
								}
							}
							if body != "" {
								k.send(body)
							}
						case delivery == 0:
							k.send(head + body)
						case delivery == 2:
							k.send(head[:len(head)/2])
							pause(time.Hour)
							k.send(head[len(head)/2:])
							pause(time.Hour)
							if body != "" {
								k.send(body)
							}
						default:
							b := head + body
							for i := 0; i < 10; i++ {
								if i > 0 {
									time.Sleep(7 * time.Second)
								}
								k.send(b[len(b)*i/10 : len(b)*(i+1)/10])
							}
						}
						if rd.n == 1 {
							pause(rd.gap)
							k.read(0)
						} else if rd.n > 0 {
							for i := 0; i < 300; i++ {
								k.mu.Lock()
								n := len(k.in)
								k.mu.Unlock()
								time.Sleep(rd.gap)
								k.read(rd.n)
								k.mu.Lock()
								m := len(k.in)
								k.mu.Unlock()
								if n == m {
									break
								}
							}
							x.other()
						}
						x.finish(k, []*request{r}, []*form{f})
					})
				}
			}
		}
	}
}

// c28pieces: every request, cut in two at every byte.
func c28pieces(c *core.Ctx) {
	known28(c)
	use := []int{0, 1, 4, 6, 13}
	gaps := []time.Duration{0, time.Minute}
	if c.Thorough() {
		use = nil
		for i := range forms {
			if len(forms[i].headers) < 1000 {
				use = append(use, i)
			}
		}
		gaps = []time.Duration{0, 3 * time.Second, time.Minute, time.Hour}
	}
	for ri := range transports("1") {
		for _, fi := range use {
			head, body := forms[fi].write(transports("1")[ri])
			b := head + body
			for cut := 1; cut < len(b); cut++ {
				if cut > 700 && cut < len(b)-100 && (cut+1)&cut != 0 && cut&(cut-1) != 0 {
					continue
				}
				for _, gap := range gaps {
					if c.Stopped() {
						return
					}
					if !c.Take() {
						continue
					}
					r, f := transports("1")[ri], &forms[fi]
					desc := fmt.Sprintf("%s %s, form %q, sent in two pieces, the first of %d bytes, %v apart", r.method, r.target, f.Name, cut, gap)
					talk28(c, map[string]any{"request": r.Name, "form": f.Name, "cut": cut, "gap": gap}, desc, func(x *talker) {
						k := x.dial()
						defer k.close()
						k.read(0)
						k.send(b[:cut])
						time.Sleep(gap)
						synctest.Wait()
						if cut%16 == 0 {
							x.other()
						}
						k.send(b[cut:])
						x.finish(k, []*request{r}, []*form{f})
					})
				}
			}
		}
	}
	// Byte by byte.
	for ri := range transports("1") {
		for fi := range forms {
			for _, gap := range []time.Duration{0, 20 * time.Second} {
				head, body := forms[fi].write(transports("1")[ri])
				b := head + body
				if len(b) > 2000 {
					continue
				}
				if c.Stopped() {
					return
				}
				if !c.Take() {
					continue
				}
				r, f := transports("1")[ri], &forms[fi]
				desc := fmt.Sprintf("%s %s, form %q, a byte every %v", r.method, r.target, f.Name, gap)
				talk28(c, map[string]any{"request": r.Name, "form": f.Name, "gap": gap}, desc, func(x *talker) {
					k := x.dial()
					defer k.close()
					k.read(0)
					for i := range b {
						k.send(b[i : i+1])
						time.Sleep(gap)
						synctest.Wait()
					}
					x.finish(k, []*request{r}, []*form{f})
				})
			}
		}
	}
}

// c28connections: every pair of requests on one connection: the second after
// the answer to the first, together with the first, or with the first in
// pieces.
func c28connections(c *core.Ctx) {
	known28(c)
	use := []int{0, 1, 4, 6, 15, 16}
	if c.Thorough() {
		use = nil
		for i := range forms {
			if !forms[i].close && !forms[i].wait && !forms[i].http10 {
				use = append(use, i)
			}
		}
	}
	for ai := range transports("1") {
		for bi := range transports("2") {
			for _, fi := range use {
				for _, gi := range use {
					for way := 0; way < 3; way++ {
						if c.Stopped() {
							return
						}
						if !c.Take() {
							continue
						}
						a, b := transports("1")[ai], transports("2")[bi]
						f, g := &forms[fi], &forms[gi]
						if a.status >= 400 && f.headers != "" && strings.Contains(f.headers, "Expect") {
							// If the whole body was not asked for the server has to close.
							continue
						}
						names := []string{"one after the other", "together", "together, in three pieces"}
						desc := fmt.Sprintf("%s %s, form %q, and %s %s, form %q, %s", a.method, a.target, f.Name, b.method, b.target, g.Name, names[way])
						talk28(c, map[string]any{"requests": []string{a.Name, b.Name}, "forms": []string{f.Name, g.Name}, "way": way}, desc, func(x *talker) {
							k := x.dial()
							defer k.close()
							k.read(0)
							h1, b1 := f.write(a)
							h2, b2 := g.write(b)
							t := h1 + b1 + h2 + b2
							n := len(h1 + b1)
							switch way {
							case 0:
								k.send(t[:n])
								k.send(t[n:])
							case 1:
								k.send(t)
							default:
								k.send(t[:n/2])
								time.Sleep(time.Second)
								k.send(t[n/2 : n+len(h2)/2])
								time.Sleep(time.Second)
								k.send(t[n+len(h2)/2:])
							}
							x.finish(k, []*request{a, b}, []*form{f, g})
						})
					}
				}
			}
		}
	}
	// Many on one connection.
	ns := []int{3, 10, 33, 100, 101, 129, 257, 1001, 1030}
	if c.Thorough() {
		ns = append(ns, 4097, 10001)
	}
	for _, n := range ns {
		for way := 0; way < 2; way++ {
			for _, fi := range []int{0, 1, 5} {
				if c.Stopped() {
					return
				}
				if !c.Take() {
					continue
				}
				f := &forms[fi]
				desc := fmt.Sprintf("%d requests on one connection, form %q, way %d", n, f.Name, way)
				talk28(c, map[string]any{"n": n, "form": f.Name, "way": way}, desc, func(x *talker) {
					k := x.dial()
					defer k.close()
					k.read(0)
					var rs []*request
					var fs []*form
					var all strings.Builder
					for i := 0; i < n; i++ {
						r := requests("t", fmt.Sprint("x", i))[0]
						if i%3 == 1 {
							r = transports("1")[8]
						}
						rs, fs = append(rs, r), append(fs, f)
						h, b := f.write(r)
						if way == 0 {
							k.send(h + b)
						} else {
							all.WriteString(h + b)
						}
					}
					if way == 1 {
						k.send(all.String())
					}
					x.finish(k, rs, fs)
				})
			}
		}
	}
}

// c28cuts: connections that are lost at every byte of the request, or before
// the answer is read: the request has its whole effect or none, and none
// unless its body has arrived.
func c28cuts(c *core.Ctx) {
	known28(c)
	use := []int{0, 4, 5, 6, 8, 15}
	if c.Thorough() {
		use = nil
		for i := range forms {
			if len(forms[i].headers) < 1000 && !forms[i].wait {
				use = append(use, i)
			}
		}
	}
	for ri, r := range transports("1") {
		before, after := initial(), initial()
		r.effect(after)
		if diff(before, after) == "" {
			continue
		}
		for _, fi := range use {
			f := &forms[fi]
			head, body := f.write(r)
			b := head + body
			done := len(b) // the text of the body has arrived
			if f.chunk > 0 && r.body != "" {
				last := r.body[len(r.body)-1:]
				done = strings.LastIndex(b, last) + 1
			}
			for cut := 1; cut <= len(b); cut++ {
				if cut > 700 && cut < len(b)-100 && (cut+1)&cut != 0 && cut&(cut-1) != 0 {
					continue
				}
				for _, gap := range []time.Duration{0, time.Minute} {
					if c.Stopped() {
						return
					}
					if !c.Take() {
						continue
					}
					r := transports("1")[ri]
					desc := fmt.Sprintf("%s %s, form %q, the connection is lost %v after byte %d of %d", r.method, r.target, f.Name, gap, cut, len(b))
					talk28(c, map[string]any{"request": r.Name, "form": f.Name, "cut": cut, "gap": gap}, desc, func(x *talker) {
						k := x.dial()
						if strings.Contains(f.headers, "Expect") {
							// Otherwise the server could not ask for the body.
							k.read(0)
						}
						k.send(b[:cut])
						time.Sleep(gap)
						synctest.Wait()
						k.close()
						synctest.Wait()
						x.other()
						got := contents(x.p)
						switch {
						case got == nil:
							x.bad("contents", "the contents could not be read")
						case cut < done && (r.body != "" || cut < len(head)):
							if s := diff(x.want, got); s != "" {
								x.bad("torn", "a request that did not arrive had an effect: %s", s)
							}
						default:
							with := map[string]string{}
							for k, v := range x.want {
								with[k] = v
							}
							r.effect(with)
							if s := diff(with, got); s != "" && (cut == len(b) || diff(x.want, got) != "") {
								x.bad("torn", "a request that was received and whose answer was lost had another effect: %s", s)
							}
						}
						x.want = got
					})
				}
			}
		}
	}
}

// contents asks for all tasks.
func contents(p *process) map[string]string {
	v := map[string]string{}
	for _, topic := range []string{"t", "u", "big"} {
		st, b, err := p.talk("GET", "/v1/topics/"+topic+"/tasks?limit=100", "")
		var l struct{ Data []*ratus.Task }
		if err != nil || st != 200 || json.Unmarshal(b, &l) != nil {
			return nil
		}
		for _, t := range l.Data {
			v[t.ID] = brief(t)
		}
	}
	return v
}

// c28crowds: many connections at different stages, then one more client.
func c28crowds(c *core.Ctx) {
	known28(c)
	ns := []int{1, 2, 7, 8, 9, 15, 16, 17, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513, 1000, 1001, 1024, 1025, 1030}
	if c.Thorough() {
		ns = append(ns, 2000, 2047, 2048, 2049, 4096, 4097, 5000, 5001, 8192, 8193, 10000, 10001)
	}
	stages := []string{"silent", "half of the head", "half of the body", "not reading the answer", "idle after an answer"}
	for _, n := range ns {
		for stage := range stages {
			for _, gap := range []time.Duration{0, time.Minute} {
				if c.Stopped() {
					return
				}
				if !c.Take() {
					continue
				}
				desc := fmt.Sprintf("%d connections, %s, then after %v one more", n, stages[stage], gap)
				talk28(c, map[string]any{"n": n, "stage": stages[stage], "gap": gap}, desc, func(x *talker) {
					var ks []*client
					var rs []*request
					var rest []string
					defer func() {
						for _, k := range ks {
							k.close()
						}
					}()
					f := &forms[0]
					for i := 0; i < n; i++ {
						r := requests("t", fmt.Sprint("x", i))[0]
						h, b := f.write(r)
						t := h + b
						k := x.dial()
						ks, rs = append(ks, k), append(rs, r)
						cut := []int{0, len(h) / 2, len(h) + len(b)/2, len(t), len(t)}[stage]
						rest = append(rest, t[cut:])
						if stage == 4 {
							k.read(0)
						}
						if cut > 0 {
							k.send(t[:cut])
						} else {
							synctest.Wait()
						}
					}
					time.Sleep(gap)
					synctest.Wait()
					// One more.
					all := transports("2")
					for _, i := range []int{8, 1, 4} {
						r := all[i]
						k := x.dial()
						k.read(0)
						h, b := forms[1].write(r)
						k.send(h + b)
						x.finish(k, []*request{r}, []*form{&forms[1]})
						k.close()
						if x.bads > 0 {
							return
						}
					}
					// The others go on.
					for i, k := range ks {
						if stage < 4 {
							k.read(0)
						}
						if rest[i] != "" {
							k.send(rest[i])
						}
						x.finish(k, []*request{rs[i]}, []*form{f})
						if x.bads > 0 {
							return
						}
					}
				})
			}
		}
	}
}

// c28browsers: what a browser asks before it sends a request of a page from
// elsewhere.
func c28browsers(c *core.Ctx) {
	origins := []string{"https://example.com", "http://localhost:3000", "null", "http://ratus.example.org", "https://a.b.c.example.com:8443", "chrome-extension://abc"}
	for ri := range transports("1") {
		for _, origin := range origins {
			for _, ask := range []string{"", "content-type", "Content-Type"} {
				for fi := range []int{0, 1} {
					if c.Stopped() {
						return
					}
					if !c.Take() {
						continue
					}
					r := transports("1")[ri]
					desc := fmt.Sprintf("the preflight request of %s %s from %s, header fields %q", r.method, r.target, origin, ask)
					talk28(c, map[string]any{"request": r.Name, "origin": origin, "headers": ask}, desc, func(x *talker) {
						k := x.dial()
						defer k.close()
						k.read(0)
						head := "OPTIONS " + r.target + " HTTP/1.1\r\nHost: ratus\r\nOrigin: " + origin + "\r\nAccess-Control-Request-Method: " + r.method + "\r\n"
						if ask != "" {
							head += "Access-Control-Request-Headers: " + ask + "\r\n"
						}
						if fi == 1 {
							head += "Accept-Encoding: gzip\r\n"
						}
						k.send(head + "\r\n")
						v, _, rest, err := k.received("OPTIONS")
						if err != nil || len(v) != 1 || rest > 0 {
							x.bad("framing", "no answer to the preflight request: %v", err)
							return
						}
						a := v[0]
						has := func(name, v string) bool {
							for _, s := range strings.Split(strings.Join(a.header.Values(name), ","), ",") {
								if s = strings.TrimSpace(s); s == "*" || strings.EqualFold(s, v) {
									return true
								}
							}
							return false
						}
						if a.status != 200 && a.status != 204 {
							x.bad("preflight", "the preflight request was answered with %d", a.status)
						}
						if o := a.header.Get("Access-Control-Allow-Origin"); o != "*" && o != origin {
							x.bad("origin", "the origin %s is not allowed: %q", origin, o)
						}
						// Methods that need no permission are GET, HEAD and POST.
						if r.method != "GET" && r.method != "POST" && !has("Access-Control-Allow-Methods", r.method) {
							x.bad("method", "the method %s is not allowed: %q", r.method, a.header.Values("Access-Control-Allow-Methods"))
						}
						if ask != "" && !has("Access-Control-Allow-Headers", ask) {
							x.bad("headers", "the header field %s is not allowed: %q", ask, a.header.Values("Access-Control-Allow-Headers"))
						}
						// The request itself.
						f := &form{Name: "browser", headers: "Origin: " + origin + "\r\n", origin: true}
						h, b := f.write(r)
						n := len(k.in)
						k.send(h + b)
						k.mu.Lock()
						k.in = k.in[n:]
						k.mu.Unlock()
						x.finish(k, []*request{r}, []*form{f})
					})
				}
			}
		}
	}
}

