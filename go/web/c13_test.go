package web

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
)

func init() {
	parts["C13/fields"] = c13Fields
	parts["C13/bodies"] = c13Bodies
	parts["C13/paths"] = c13Paths
	parts["C13/robust"] = c13Robust
	parts["C08/http"] = c08HTTP
}

func db3() []TS {
	return []TS{pend("a", "t", -sec), variant("b", "t", 1), variant("c", "u", 2)}
}

var abc = []string{"a", "b", "c", "x", ""}

// fieldKinds gives the type of every body field.
var fieldKinds = map[string]map[string]string{
	"task":    {"_id": "string", "topic": "string", "state": "state", "nonce": "string", "producer": "string", "consumer": "string", "produced": "time", "scheduled": "time", "consumed": "time", "deadline": "time", "payload": "any", "defer": "duration"},
	"promise": {"_id": "string", "consumer": "string", "deadline": "time", "timeout": "duration"},
	"commit":  {"nonce": "string", "topic": "string", "state": "state", "scheduled": "time", "payload": "any", "defer": "duration"},
}

// wrong lists JSON values that are no value of a kind.
var wrong = map[string][]string{
	"string":   {`1`, `1.5`, `true`, `false`, `{}`, `[]`, `["a"]`, `{"a":"b"}`},
	"state":    {`"1"`, `""`, `"pending"`, `true`, `{}`, `[]`, `[1]`, `1.5`, `-1`, `4`, `5`, `127`, `128`, `256`, `258`, `65536`, `65538`, `2147483647`, `-2147483648`, `2147483648`, `4294967296`, `4294967298`, `9223372036854775808`, `1e2`, `1e30`},
	"time":     {`1`, `1700000000`, `true`, `{}`, `[]`, `""`, `"x"`, `"now"`, `"2006-01-02"`, `"2006-01-02 15:04:05"`, `"2006-01-02T15:04:05"`, `"2006-13-02T15:04:05Z"`, `"2006-02-30T15:04:05Z"`, `"2006-01-02T25:04:05Z"`, `"12006-01-02T15:04:05Z"`, `"1700000000"`, `"10m"`},
	"duration": {`1`, `true`, `{}`, `[]`, `"x"`, `"10"`, `"10 m"`, `"1d"`, `"m"`, `"1h1"`, `"--1s"`, `"1e3s"`, `"99999999999h"`, `" 1s"`, `"1s "`, `"2006-01-02T15:04:05Z"`},
}

// good values of the kinds.
var good = map[string]string{"string": `"a"`, "state": `2`, "time": `"2030-01-02T03:04:05Z"`, "duration": `"10m"`, "any": `{"k":1}`}

type endpoint struct {
	method, target, kind string
	list                 bool
	id                   string // ID in the path
}

func endpoints() []endpoint {
	var v []endpoint
	for _, pre := range []string{"", "/v1"} {
		for _, m := range []string{"POST", "PUT"} {
			for _, tp := range []string{"t", ""} {
				v = append(v, endpoint{m, pre + "/topics/" + tp + "/tasks/a", "task", false, "a"},
					endpoint{m, pre + "/topics/" + tp + "/tasks/x", "task", false, "x"},
					endpoint{m, pre + "/topics/" + tp + "/tasks", "task", true, ""},
					endpoint{m, pre + "/topics/" + tp + "/promises/a", "promise", false, "a"},
					endpoint{m, pre + "/topics/" + tp + "/promises/b", "promise", false, "b"})
			}
		}
		for _, tp := range []string{"t", ""} {
			v = append(v, endpoint{"POST", pre + "/topics/" + tp + "/promises", "promise", false, ""},
				endpoint{"PATCH", pre + "/topics/" + tp + "/tasks/a", "commit", false, "a"},
				endpoint{"PATCH", pre + "/topics/" + tp + "/tasks/b", "commit", false, "b"})
		}
	}
	return v
}

// entry builds a body of a kind: the fields named in with get good values.
func entry(kind, id string, over map[string]string, with ...string) string {
	fs := map[string]string{}
	for _, k := range with {
		fs[k] = good[fieldKinds[kind][k]]
	}
	if kind == "task" {
		fs["topic"] = `"t"`
		if id != "" {
			fs["_id"] = fmt.Sprintf("%q", id)
		}
	}
	if kind == "promise" && fs["_id"] != "" {
		fs["_id"] = fmt.Sprintf("%q", id)
		if id == "" {
			delete(fs, "_id")
		}
	}
	for k, v := range over {
		if v == "" {
			delete(fs, k)
		} else {
			fs[k] = v
		}
	}
	var b strings.Builder
	for i, k := range keys(fs) {
		if i > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, "%q:%s", k, fs[k])
	}
	return "{" + b.String() + "}"
}

// lists embeds an invalid entry at every position among valid ones.
func lists(bad string) []string {
	var v []string
	g := func(id string) string { return entry("task", id, nil, "producer", "payload") }
	v = append(v, `{"data":[`+bad+`]}`,
		`{"data":[`+bad+`,`+g("x")+`]}`, `{"data":[`+g("x")+`,`+bad+`]}`,
		`{"data":[`+g("x")+`,`+bad+`,`+g("a")+`]}`, `{"data":[`+g("a")+`,`+g("x")+`,`+bad+`]}`)
	return v
}

func (w *world) refusedState(r Req) string {
	s := w.refused(r, 400)
	w.state("r" + r.String())
	return s
}

// c13Fields: every field of every body with every value outside its type,
// alone and among other fields; contradictions and missing names; queries.
func c13Fields(c *core.Ctx) {
	run := func(r Req) {
		if c.Take() {
			one(c, abc, db3(), func(w *world) string { return w.refusedState(r) })
		}
	}
	for _, e := range endpoints() {
		kinds := fieldKinds[e.kind]
		send := func(js, id string) {
			bs := []string{js}
			if e.list {
				bs = lists(js)
			}
			for _, b := range bs {
				run(Req{Method: e.method, Target: e.target, Body: body(b)})
				if c.Stopped() {
					return
				}
			}
		}
		id := e.id
		if e.list {
			id = "x"
		}
		for _, f := range keys(kinds) {
			for _, bad := range wrong[kinds[f]] {
				// An absolute time takes precedence over a relative one that
				// is then not looked at, so the pair is not refused.
				withs := [][]string{nil}
				var rest []string
				for _, o := range keys(kinds) {
					if o != f && o != "_id" && o != "topic" && !(kinds[f] == "duration" && (o == "scheduled" || o == "deadline") && bad[0] == '"') {
						rest = append(rest, o)
					}
				}
				for i := range rest {
					withs = append(withs, rest[i:i+1])
				}
				withs = append(withs, rest)
				for _, with := range withs {
					send(entry(e.kind, id, map[string]string{f: bad}, with...), id)
					if c.Stopped() {
						return
					}
				}
			}
		}
		// Contradictions and missing names.
		if e.kind == "task" && !e.list || e.kind == "promise" && e.id != "" {
			for _, o := range []string{"b2", "A", "a ", "aa", "a/", "%61"} {
				for _, with := range [][]string{nil, {"consumer"}} {
					send(entry(e.kind, id, map[string]string{"_id": fmt.Sprintf("%q", o)}, with...), id)
				}
			}
		}
		if e.kind == "task" {
			if e.list {
				send(entry("task", "x", map[string]string{"_id": ""}, "producer"), "")
				send(entry("task", "x", map[string]string{"_id": `""`}, "producer"), "")
				send(entry("task", "x", map[string]string{"_id": `null`}, "producer"), "")
				send(`null`, "")
				send(`{}`, "")
			}
			if strings.Contains(e.target, "topics//") {
				for _, v := range []string{"", `""`, `null`} {
					send(entry("task", id, map[string]string{"topic": v}, "producer"), id)
				}
			}
		}
		if c.Stopped() {
			return
		}
	}
	// Claims in the query.
	for _, t := range []string{"/topics/t/promises", "/v1/topics/t/promises/a", "/topics//promises/b"} {
		for _, m := range []string{"POST", "PUT"} {
			if m == "PUT" && strings.HasSuffix(t, "promises") {
				continue
			}
			for _, kind := range []string{"time", "duration"} {
				for _, js := range wrong[kind] {
					var s string
					if json.Unmarshal([]byte(js), &s) != nil {
						s = js
					}
					if s == "" {
						continue
					}
					n := map[string]string{"time": "deadline", "duration": "timeout"}[kind]
					for _, b := range []*string{nil, body(`{"consumer":"x"}`)} {
						run(Req{Method: m, Target: t + "?" + n + "=" + esc(s), Body: b})
						run(Req{Method: m, Target: t + "?consumer=c&" + n + "=" + esc(s), Body: b})
					}
				}
			}
			if !strings.HasSuffix(t, "promises") {
				run(Req{Method: m, Target: t + "?_id=other"})
			}
		}
	}
	// Names that are no text.
	for _, r := range []Req{
		{Method: "POST", Target: "/topics/t/tasks/%ff", Body: body(`{}`)}, {Method: "PUT", Target: "/topics/%ff/tasks/x", Body: body(`{}`)},
		{Method: "POST", Target: "/topics/%c3%28/tasks", Body: body(`{"data":[{"_id":"x"}]}`)},
		{Method: "POST", Target: "/topics/t/promises?consumer=%ff"}, {Method: "POST", Target: "/topics/t/promises/a?consumer=%ff"}, {Method: "PUT", Target: "/topics/t/promises/b?consumer=a%80b"},
	} {
		run(r)
	}
	c13Pages(c)
}

func c13Pages(c *core.Ctx) {
	bad := []string{"-1", "-10", "x", "1.5", "1e1", "0x1", " 1", "1 ", "99999999999999999999", "-99999999999999999999", "true", "null", "9223372036854775808"}
	for _, t := range []string{"/topics", "/topics/t/tasks", "/topics/t/promises", "/v1/topics", "/v1/topics//tasks", "/v1/topics/zz/promises"} {
		for _, k := range []string{"limit", "offset"} {
			over := []string{"101", "1000000", "9223372036854775807"}
			if k == "offset" {
				over = []string{"10001", "9223372036854775807"}
			}
			for _, v := range append(append([]string{}, bad...), over...) {
				for _, o := range []string{"", "&limit=1", "&offset=1"} {
					if strings.Contains(o, k) {
						continue
					}
					if c.Take() {
						one(c, abc, db3(), func(w *world) string {
							return w.refusedState(Req{Method: "GET", Target: t + "?" + k + "=" + esc(v) + o})
						})
					}
					if c.Stopped() {
						return
					}
				}
			}
		}
	}
}

// wellFormed tells whether a body starts with a well-formed JSON value.
func wellFormed(b string) bool {
	var raw json.RawMessage
	return json.NewDecoder(bytes.NewReader([]byte(b))).Decode(&raw) == nil
}

// c13Bodies: every truncation and every change of one byte of complete bodies.
func c13Bodies(c *core.Ctx) {
	eps := endpoints()
	if !c.Thorough() {
		eps = eps[:len(eps)/2] // one prefix
	}
	bytesOf := []byte{' ', '"', '{', '}', '[', ']', ',', ':', '0', '9', '-', '+', '.', 'e', 't', 'n', '\\', '/', 0, 0x1f, 0x7f, 0x80, 0xff}
	for _, e := range eps {
		id := e.id
		if e.list {
			id = "x"
		}
		full := entry(e.kind, id, nil, keys(fieldKinds[e.kind])...)
		if e.list {
			full = `{"data":[` + full + `,` + entry("task", "a", nil, "defer") + `]}`
		}
		try := func(b string, trunc bool) {
			if !c.Take() {
				return
			}
			one(c, abc, db3(), func(w *world) string {
				r := Req{Method: e.method, Target: e.target, Body: body(b), Chunked: len(b)%2 == 1}
				optional := e.kind != "task" && strings.Trim(b, " \t\r\n") == ""
				switch {
				case optional:
					return w.robust(r)
				case !wellFormed(b):
					return w.refusedState(r)
				}
				return w.robust(r)
			})
		}
		for i := 0; i < len(full); i++ {
			try(full[:i], true)
			try(full[i:], true)
		}
		for i := 0; i < len(full); i++ {
			for _, x := range bytesOf {
				if full[i] != x {
					try(full[:i]+string(x)+full[i+1:], false)
				}
			}
			try(full[:i]+full[i+1:], false)
			try(full[:i]+full[i:i+1]+full[i:], false)
			if c.Stopped() {
				return
			}
		}
		// Not an object at all.
		for _, b := range []string{`1`, `"x"`, `[]`, `[{}]`, `true`, `1.5`, `x`, `nul`, `{`, `}`, `{]`, `{"a"}`, `{'a':1}`, "\xef\xbb\xbf{}", `{"_id":"a",}`, `<xml/>`, `_id=a`} {
			if c.Take() {
				one(c, abc, db3(), func(w *world) string {
					return w.refusedState(Req{Method: e.method, Target: e.target, Body: body(b)})
				})
			}
		}
		// Missing where one is required.
		if e.kind == "task" {
			for _, r := range []Req{{}, {Body: body("")}, {Body: body(""), Chunked: true}, {Body: body(" ")}, {Body: body("\r\n\t")}} {
				r.Method, r.Target = e.method, e.target
				for _, h := range [][]string{nil, {"Content-Type: application/json"}, {"Content-Type: text/plain"}, {"Content-Type: application/x-www-form-urlencoded"}} {
					r.Headers = h
					if c.Take() {
						one(c, abc, db3(), func(w *world) string { return w.refusedState(r) })
					}
				}
			}
			if e.list {
				for _, b := range []string{`{"data":{}}`, `{"data":1}`, `{"data":"x"}`, `{"data":true}`, `{"data":[1]}`, `{"data":["x"]}`, `{"data":[[]]}`, `{"data":[null]}`, `{"data":[{"_id":"x","topic":"t"},null]}`} {
					if c.Take() {
						one(c, abc, db3(), func(w *world) string {
							return w.refusedState(Req{Method: e.method, Target: e.target, Body: body(b)})
						})
					}
				}
			}
		}
		if c.Stopped() {
			return
		}
	}
}

// known tells whether a path and method name an operation, after splitting
// into segments.
func known(method string, seg []string) bool {
	if len(seg) > 0 && seg[0] == "v1" {
		seg = seg[1:]
	}
	is := func(ms ...string) bool {
		for _, m := range ms {
			if m == method {
				return true
			}
		}
		return false
	}
	switch {
	case len(seg) == 1 && (seg[0] == "healthz" || seg[0] == "livez" || seg[0] == "readyz" || seg[0] == "metrics"):
		return is("GET")
	case len(seg) == 0 || seg[0] != "topics":
		return false
	case len(seg) <= 2:
		return is("GET", "DELETE")
	case len(seg) == 3 && seg[2] == "tasks":
		return is("GET", "POST", "PUT", "DELETE")
	case len(seg) == 3 && seg[2] == "promises":
		return is("GET", "POST", "DELETE")
	case len(seg) == 4 && seg[2] == "tasks":
		return is("GET", "POST", "PUT", "DELETE", "PATCH")
	case len(seg) == 4 && seg[2] == "promises":
		return is("GET", "POST", "PUT", "DELETE")
	}
	return false
}

// c13Paths: every path of up to five segments over an alphabet, with every
// method: a path that names no operation gives 404 and changes nothing.
func c13Paths(c *core.Ctx) {
	words := []string{"topics", "tasks", "promises", "v1", "t", "", "v2", "..", "%2F", "TOPICS", "metrics", "livez"}
	max := 4
	if c.Thorough() {
		max = 5
	}
	methods := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "FOO"}
	for n := 0; n <= max; n++ {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = len(words)
		}
		product(dims, func(ix []int) bool {
			if !c.Take() {
				return !c.Stopped()
			}
			seg := make([]string, n)
			for i, k := range ix {
				seg[i] = words[k]
			}
			one(c, abc, db3(), func(w *world) string {
				for _, m := range methods {
					if known(m, seg) {
						continue
					}
					r := Req{Method: m, Target: "/" + strings.Join(seg, "/")}
					if m == "POST" || m == "PUT" || m == "PATCH" {
						r.Body = body(`{"_id":"x","topic":"t","data":[{"_id":"x","topic":"t"}]}`)
					}
					if s := w.refused404(r); s != "" {
						return s
					}
					w.state("n" + r.String())
				}
				return ""
			})
			return !c.Stopped()
		})
		if n == 0 {
			continue
		}
	}
}

func (w *world) refused404(r Req) string { return w.refused(r, 404) }

// c13Robust: every request made of a method, a path out of many odd ones, a
// query and a body: the server answers, never fails internally, and what it
// refuses changes nothing.
func c13Robust(c *core.Ctx) {
	names := []string{"a", "", "%00", "%ff", "%2F", "%2e%2e", "..", "%25", "%252F", "+", "%20", ";", "a;b=c", "%C3%BC", "*", "%0a", ":id", "~", strings.Repeat("x", 3000)}
	var paths []string
	for _, n := range names {
		paths = append(paths, "/topics/"+n)
		for _, k := range []string{"tasks", "promises"} {
			paths = append(paths, "/topics/"+n+"/"+k)
			for _, i := range []string{"a", "b", n} {
				paths = append(paths, "/topics/"+n+"/"+k+"/"+i, "/v1/topics/t/"+k+"/"+n)
			}
		}
	}
	paths = append(paths, "/", "*", "/v1", "/v1/", "//", "/topics/", "/metrics", "/livez", "/readyz", "/healthz", "http://other/topics", "/topics?", "/topics#x")
	queries := []string{"", "?", "?limit=5", "?limit=", "?limit=1&limit=x", "?offset=1;limit=2", "?%zz=1", "?consumer=%00", "?consumer=x&timeout=1s", "?deadline=0001-01-01T00:00:00Z", "?deadline=9999-12-31T23:59:59Z&_id=a", "?_id=%ff", "?" + strings.Repeat("a=b&", 200)}
	bodies := []*string{nil, body(""), body("{}"), body("null"), body(`{"data":[]}`), body(`{"data":null}`), body(`{"_id":"a"}`), body(`{"_id":"x","topic":"t","defer":"-2562047h"}`), body(`{"scheduled":"0001-01-01T00:00:00Z","deadline":"9999-12-31T23:59:59.999999999Z","produced":"0000-01-01T00:00:00-00:01"}`),
		body(`{"data":[{"_id":"x","topic":"t"},{"_id":"x","topic":"u"}]}`), body(strings.Repeat(`{"a":`, 5000) + "1" + strings.Repeat("}", 5000)), body(strings.Repeat("[", 11000)), body(`{"payload":` + strings.Repeat("[", 9000) + strings.Repeat("]", 9000) + `}`), body(`{"state":0,"_id":"x","_ID":"y","topic":"t"}`), body("{\"producer\":\"\xff\xfe\",\"consumer\":\"\\ud800\"}")}
	hdrs := [][]string{nil, {"Accept-Encoding: gzip"}, {"Origin: http://elsewhere"}, {"Content-Type: text/html", "Expect: 100-continue"}, {"Range: bytes=0-1", "If-None-Match: *"}, {"Connection: Upgrade", "Upgrade: websocket"}}
	nh := len(hdrs)
	if !c.Thorough() {
		nh = 1 // headers take turns instead
	}
	methods := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"}
	product([]int{len(paths), len(queries), nh}, func(ix []int) bool {
		if !c.Take() {
			return !c.Stopped()
		}
		hdr := hdrs[(ix[0]+ix[1]+ix[2])%len(hdrs)]
		one(c, abc, db3(), func(w *world) string {
			for _, m := range methods {
				for _, b := range bodies {
					if b != nil && (m == "GET" || m == "HEAD" || m == "DELETE" || m == "OPTIONS") && *b != "{}" {
						continue
					}
					if s := w.fresh(); s != "" {
						return s
					}
					if s := w.robust(Req{Method: m, Target: paths[ix[0]] + queries[ix[1]], Body: b, Headers: hdr}); s != "" {
						return s
					}
					w.c.Count("transitions", 1)
				}
			}
			w.state("q")
			return ""
		})
		return !c.Stopped()
	})
}

// fresh restores the database of the case.
func (w *world) fresh() string {
	w.trace = w.trace[:0]
	if _, err := w.g.DeleteTopics(bg); err != nil {
		return err.Error()
	}
	w.m = model.New(w.m.Cfg)
	for _, t := range db3() {
		call := w.m.Resolve(Op{K: "upsertTask", Ts: []TS{t}}, w.base, w.base)
		if err := w.m.Apply(call, model.Exec(bg, w.g, call, false), nil); err != nil {
			return err.Error()
		}
	}
	return ""
}

// c08HTTP: listings over the API, every limit and offset, adjacent pages,
// defaults and refusals.
func c08HTTP(c *core.Ctx) {
	cfgs := []config.PaginationConfig{{MaxLimit: 100, MaxOffset: 10000}, {MaxLimit: 10, MaxOffset: 5}, {MaxLimit: 4, MaxOffset: 14}, {MaxLimit: 1, MaxOffset: 0}, {MaxLimit: 11, MaxOffset: 1}}
	counts := []int{0, 1, 3, 4, 9, 10, 11, 12, 14}
	lim := []string{"", "0", "1", "2", "3", "4", "5", "9", "10", "11", "12", "100", "101"}
	off := []string{"", "0", "1", "2", "3", "5", "6", "10", "11", "13", "14", "15", "10000", "10001"}
	atoi := func(s string) int { n := 0; fmt.Sscan(s, &n); return n }
	product([]int{len(cfgs), len(counts), 3, 2, 2}, func(ix []int) bool {
		if !c.Take() {
			return !c.Stopped()
		}
		pc, n := cfgs[ix[0]], counts[ix[1]]
		var init []TS
		var ids []string
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("i%02d", (i*7)%n)
			t := variant(id, "t", int32(1))
			if ix[2] == 0 {
				t.Topic = "t" + id
			}
			if ix[4] == 1 && i%3 == 0 {
				t.State = 0
			}
			ids = append(ids, id)
			init = append(init, t)
		}
		if ix[4] == 1 && ix[2] > 0 {
			init = append(init, pend("o1", "t2", 0), pend("o2", "s", 0))
			ids = append(ids, "o1", "o2")
		}
		one(c, ids, init, func(w *world) string {
			w.h = handlerFor(pc)
			pre := []string{"", "/v1"}[ix[3]]
			target := pre + []string{"/topics", "/topics/t/tasks", "/topics/t/promises"}[ix[2]]
			op := Op{K: []string{"listTopics", "listTasks", "listPromises"}[ix[2]], Topic: "t"}
			def := 10
			if pc.MaxLimit < def {
				def = pc.MaxLimit
			}
			for _, l := range lim {
				for _, o := range off {
					var qs []string
					if l != "" {
						qs = append(qs, "limit="+l)
					}
					if o != "" {
						qs = append(qs, "offset="+o)
					}
					r := Req{Method: "GET", Target: target}
					if len(qs) > 0 {
						r.Target += "?" + strings.Join(qs, "&")
					}
					op.Limit, op.Offset = atoi(l), atoi(o)
					if op.Limit == 0 {
						op.Limit = def
					}
					var s string
					if op.Limit > pc.MaxLimit || op.Offset > pc.MaxOffset {
						s = w.refused(r, 400)
					} else {
						s = w.valid(r, &model.Call{Op: op})
					}
					if s != "" {
						return fmt.Sprintf("max limit %d, max offset %d: %s", pc.MaxLimit, pc.MaxOffset, s)
					}
				}
			}
			w.trace = w.trace[:0]
			// Adjacent pages of every size partition the listing, repeatedly.
			total := map[string]bool{}
			for size := 1; size <= pc.MaxLimit && size <= 13; size++ {
				for rep := 0; rep < 2; rep++ {
					seen := map[string]bool{}
					at := 0
					for ; at <= pc.MaxOffset && at <= 20; at += size {
						r := Req{Method: "GET", Target: fmt.Sprintf("%s?limit=%d&offset=%d", target, size, at)}
						resp, s := do(w.h, r)
						if s != "" {
							return s
						}
						var v struct {
							Data []map[string]any `json:"data"`
						}
						if err := json.Unmarshal(resp.Body, &v); err != nil || v.Data == nil {
							return fmt.Sprintf("%s: %s", r, resp.Body)
						}
						for _, x := range v.Data {
							k := fmt.Sprint(x["_id"], x["name"])
							if seen[k] {
								return fmt.Sprintf("%s lists %s, which an earlier page already listed", r, k)
							}
							seen[k] = true
							total[k] = true
						}
					}
					if at > 20 && len(seen) != len(total) {
						return fmt.Sprintf("pages of %d list %d resources, other page sizes %d", size, len(seen), len(total))
					}
					w.c.Count("transitions", int64(at/size))
				}
			}
			w.state(fmt.Sprintf("l%v", pc))
			return ""
		})
		return !c.Stopped()
	})
}
