package web

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"gopkg.in/yaml.v3"

	"github.com/hyperonym/ratus/docs"
	"github.com/hyperonym/ratus/internal/controller"
	"github.com/hyperonym/ratus/internal/middleware"
	"github.com/hyperonym/ratus/internal/router"
	"github.com/hyperonym/ratus/internal/zverif/core"
)

func init() {
	parts["C29/answers"] = c29Answers
	parts["C29/fields"] = c29Fields
	parts["C29/served"] = c29Served
}

// published is a handler with the description, as the program mounts it.
func published() http.Handler {
	pc := defaultPages
	return router.New(&controller.V1{
		Pagination: middleware.Pagination(&pc),
		Topic:      controller.NewTopicController(target),
		Task:       controller.NewTaskController(target),
		Promise:    controller.NewPromiseController(target),
		Health:     controller.NewHealthController(target),
		Metrics:    controller.NewMetricsController(target),
	}, &docs.Swagger{}).Handler()
}

// The API description, as far as it is used.
type (
	schema struct {
		Ref        string             `json:"$ref"`
		Type       string             `json:"type"`
		Properties map[string]*schema `json:"properties"`
		Items      *schema            `json:"items"`
		AllOf      []*schema          `json:"allOf"`
		Enum       []any              `json:"enum"`
	}
	media struct {
		Schema *schema `json:"schema"`
	}
	operation struct {
		Parameters []struct {
			Name, In string
			Required bool
			Schema   *schema
		}
		RequestBody *struct {
			Content  map[string]media
			Required bool
		} `json:"requestBody"`
		Responses map[string]struct {
			Content map[string]media
		}
	}
	description struct {
		Servers    []struct{ URL string }
		Paths      map[string]map[string]*operation
		Components struct{ Schemas map[string]*schema }
	}
)

// described fetches the description from the server.
func described(h http.Handler) (*description, string) {
	resp, s := do(h, Req{Method: "GET", Target: "/openapi.json"})
	if s != "" {
		return nil, s
	}
	if resp.Status != 200 {
		return nil, fmt.Sprintf("the description is answered with %d", resp.Status)
	}
	d := new(description)
	if err := json.Unmarshal(resp.Body, d); err != nil {
		return nil, "the description: " + err.Error()
	}
	if len(d.Paths) == 0 || len(d.Servers) == 0 {
		return nil, "the description describes nothing"
	}
	return d, ""
}

func (d *description) resolve(s *schema) *schema {
	for i := 0; i < 10 && s != nil; i++ {
		switch {
		case s.Ref != "":
			s = d.Components.Schemas[s.Ref[strings.LastIndexByte(s.Ref, '/')+1:]]
		case len(s.AllOf) == 1:
			s = s.AllOf[0]
		default:
			return s
		}
	}
	return s
}

// valid tells what is wrong with a value.
func (d *description) valid(s *schema, v any, at string) string {
	if s = d.resolve(s); s == nil {
		return at + ": no schema"
	}
	if len(s.Enum) > 0 {
		for _, e := range s.Enum {
			if e == v {
				return ""
			}
		}
		return fmt.Sprintf("%s: %v is none of %v", at, v, s.Enum)
	}
	switch s.Type {
	case "string":
		if _, ok := v.(string); ok {
			return ""
		}
	case "integer":
		if f, ok := v.(float64); ok && f == float64(int64(f)) {
			return ""
		}
	case "array":
		if l, ok := v.([]any); ok {
			for i := range l {
				if b := d.valid(s.Items, l[i], fmt.Sprintf("%s[%d]", at, i)); b != "" {
					return b
				}
			}
			return ""
		}
	case "object":
		if len(s.Properties) == 0 {
			return "" // anything
		}
		if m, ok := v.(map[string]any); ok {
			for k := range m {
				p := s.Properties[k]
				if p == nil {
					return fmt.Sprintf("%s: %q is not described", at, k)
				}
				if b := d.valid(p, m[k], at+"."+k); b != "" {
					return b
				}
			}
			return ""
		}
	}
	return fmt.Sprintf("%s: %v is no %s", at, v, s.Type)
}

// conforms tells how an answer to a described operation differs from what is
// described.
func (d *description) conforms(o *operation, r Resp) string {
	x, ok := o.Responses[strconv.Itoa(r.Status)]
	if !ok {
		return fmt.Sprintf("status %d is not described: %.300s", r.Status, r.Body)
	}
	if len(x.Content) == 0 {
		if len(r.Body) > 0 {
			return fmt.Sprintf("status %d with the body %.300q, none is described", r.Status, r.Body)
		}
		return ""
	}
	ct, _, _ := strings.Cut(r.Header.Get("Content-Type"), ";")
	m, ok := x.Content[ct]
	if !ok {
		if m, ok = x.Content["*/*"]; !ok {
			return fmt.Sprintf("status %d with a body of type %q is not described", r.Status, ct)
		}
		ct = "application/json"
	}
	if ct != "application/json" {
		return ""
	}
	var v any
	if err := json.Unmarshal(r.Body, &v); err != nil {
		return fmt.Sprintf("status %d with the body %.300q: %v", r.Status, r.Body, err)
	}
	if s := d.valid(m.Schema, v, "the body"); s != "" {
		return fmt.Sprintf("status %d: %s in %.300s", r.Status, s, r.Body)
	}
	if r.Status >= 400 {
		e, _ := v.(map[string]any)["error"].(map[string]any)
		if e == nil || e["code"] != float64(r.Status) || e["message"] == "" {
			return fmt.Sprintf("status %d with the error %s", r.Status, r.Body)
		}
	}
	return ""
}

// asked is a request for a described operation.
type asked struct {
	Req
	path string // in the description
	op   *operation
}

// value gives a JSON value for a property; wrong ones are of another type.
func (d *description) value(name string, s *schema, wrong bool) string {
	r := d.resolve(s)
	switch {
	case len(r.Enum) > 0:
		if wrong {
			return `"x"`
		}
		return `2`
	case r.Type == "integer":
		if wrong {
			return `"x"`
		}
		return `1`
	case r.Type == "string":
		if wrong {
			return `7`
		}
		switch name {
		case "produced", "scheduled", "consumed":
			return `"1999-05-06T07:08:09.123Z"`
		case "deadline":
			return `"2031-05-06T07:08:09Z"`
		case "defer", "timeout":
			return `"1h30m"`
		case "topic":
			return `"t"`
		case "_id":
			return `"a"`
		}
		return `"v ` + name + `"`
	case r.Type == "array":
		if wrong {
			return `{"a":1}`
		}
		return `[]`
	}
	return `{"k":[1,"x",null]}`
}

func props(s *schema) []string {
	var v []string
	for k := range s.Properties {
		v = append(v, k)
	}
	sort.Strings(v)
	return v
}

// object builds an object of a schema with some of its properties.
func (d *description) object(s *schema, with func(k string) (bool, bool)) string {
	var v []string
	for _, k := range props(s) {
		if in, wrong := with(k); in {
			v = append(v, fmt.Sprintf("%q:%s", k, d.value(k, s.Properties[k], wrong)))
		}
	}
	return "{" + strings.Join(v, ",") + "}"
}

func whole(string) (bool, bool) { return true, false }

// bodies of an operation: complete ones, empty ones.
func (d *description) bodies(o *operation) []*string {
	if o.RequestBody == nil {
		return []*string{nil}
	}
	s := d.resolve(o.RequestBody.Content["application/json"].Schema)
	v := []*string{body("{}"), body(d.object(s, whole)), body(`[1]`), body(`{`)}
	if l := s.Properties["data"]; l != nil {
		e := d.resolve(d.resolve(l).Items)
		x := d.object(e, func(k string) (bool, bool) { return k != "defer", false })
		y := d.object(e, func(k string) (bool, bool) { return k == "_id" || k == "defer", false })
		y = strings.Replace(y, `"_id":"a"`, `"_id":"b"`, 1)
		v = append(v, body(`{"data":[`+x+`]}`), body(`{"data":[`+x+`,`+y+`]}`), body(`{"data":[{}]}`))
	} else {
		v = append(v, body(d.object(s, func(k string) (bool, bool) { return k != "_id" && k != "topic" && k != "nonce", false })))
	}
	if !o.RequestBody.Required {
		v = append(v, nil)
	}
	return v
}

// requests lists requests for all that is described.
func (d *description) requests(prefix string) []asked {
	var v []asked
	var paths []string
	for p := range d.Paths {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		var ms []string
		for m := range d.Paths[p] {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			o := d.Paths[p][m]
			ts := []string{p}
			for _, x := range o.Parameters {
				var vals []string
				switch {
				case x.In == "path" && x.Name == "topic":
					vals = []string{"t", "none"}
				case x.In == "path":
					vals = []string{"a", "b", "none"}
				default:
					continue
				}
				var n []string
				for _, t := range ts {
					for _, s := range vals {
						n = append(n, strings.Replace(t, "{"+x.Name+"}", s, 1))
					}
				}
				ts = n
			}
			var queries []string
			for _, x := range o.Parameters {
				if x.In == "query" {
					queries = append(queries, x.Name+"=1", x.Name+"=x")
				}
			}
			for _, t := range ts {
				for _, q := range append([]string{""}, queries...) {
					tt := prefix + t
					if q != "" {
						tt += "?" + q
					}
					for _, b := range d.bodies(o) {
						if b != nil && m == "post" && strings.HasSuffix(p, "/promises") && strings.Contains(*b, `"_id"`) {
							// Only wildcard promises are described here.
							b = body(strings.Replace(*b, `"_id":"a",`, "", 1))
						}
						v = append(v, asked{Req{Method: strings.ToUpper(m), Target: tt, Body: b}, p, o})
					}
				}
			}
		}
	}
	return v
}

// bases are small databases.
func bases29() [][]TS {
	act := func(id, topic string, dead Off) TS {
		return TS{ID: id, Topic: topic, State: 1, Nonce: "v nonce", Producer: "p", Consumer: "c", Prod: p(-hour), Sched: p(-hour), Cons: p(-sec), Dead: p(dead), Payload: "x"}
	}
	return [][]TS{
		{},
		{pend("a", "t", -sec)},
		{pend("a", "t", hour), act("b", "t", hour)},
		{act("a", "t", hour), pend("b", "u", -sec)},
		{act("a", "t", -sec)},
		{variant("a", "t", 2), variant("b", "t", 3)},
		{{ID: "a", Topic: "t", State: 0}},
	}
}

// c29Answers: every sequence of described requests is answered as described.
func c29Answers(c *core.Ctx) {
	h := published()
	d, s := described(h)
	if s != "" {
		c.Violation("description", s, nil)
		return
	}
	for _, prefix := range []string{"", d.Servers[0].URL} {
		rs := d.requests(prefix)
		c.Note(fmt.Sprintf("%d requests for the described operations under %q", len(rs), prefix))
		for _, db := range bases29() {
			for i := range rs {
				if c.Stopped() {
					return
				}
				if !c.Take() {
					continue
				}
				seconds := rs
				if !c.Thorough() && prefix == "" {
					seconds = rs[:1]
				}
				for j := range seconds {
					one(c, []string{"a", "b"}, db, func(w *world) string {
						for _, r := range []asked{rs[i], seconds[j]} {
							w.trace = append(w.trace, r.String())
							resp, bad := do(h, r.Req)
							if bad == "" {
								bad = d.conforms(r.op, resp)
							}
							if bad == "" && r.Body == nil && !strings.Contains(r.Target, "?") && resp.Status == 400 {
								bad = fmt.Sprintf("refused with %s", resp.Body)
							}
							if bad != "" {
								return r.String() + ": " + bad
							}
							time.Sleep(time.Second)
						}
						c.Count("requests", 2)
						return ""
					})
				}
			}
		}
	}
}

// c29Fields: every described property is accepted in a request, kept, and
// found under its name in what is read afterwards; a value of another type is
// refused.
func c29Fields(c *core.Ctx) {
	h := published()
	d, s := described(h)
	if s != "" {
		c.Violation("description", s, nil)
		return
	}
	task, promise, commit := d.Components.Schemas["ratus.Task"], d.Components.Schemas["ratus.Promise"], d.Components.Schemas["ratus.Commit"]
	if task == nil || promise == nil || commit == nil {
		c.Violation("description", "the description has no tasks, promises or commits", nil)
		return
	}
	ask := func(w *world, r Req) (Resp, map[string]any, string) {
		w.trace = append(w.trace, r.String())
		resp, bad := do(h, r)
		var m map[string]any
		if bad == "" {
			if err := json.Unmarshal(resp.Body, &m); err != nil {
				bad = err.Error()
			}
		}
		return resp, m, bad
	}
	same := func(name string, s *schema, got any, text string) bool {
		var want any
		json.Unmarshal([]byte(text), &want)
		if x, ok := want.(string); ok {
			if y, ok := got.(string); ok {
				t, e1 := time.Parse(time.RFC3339Nano, x)
				u, e2 := time.Parse(time.RFC3339Nano, y)
				if e1 == nil && e2 == nil {
					return t.Equal(u)
				}
			}
		}
		return reflect.DeepEqual(want, got)
	}
	// Tasks: every set of properties, alone and in a batch.
	names := props(task)
	for mask := 0; mask < 1<<len(names); mask++ {
		for _, m := range []string{"POST", "PUT"} {
			for _, list := range []bool{false, true} {
				if c.Stopped() {
					return
				}
				if !c.Take() {
					continue
				}
				in := map[string]bool{}
				for i, k := range names {
					in[k] = mask>>i&1 > 0
				}
				if list && !in["_id"] {
					continue
				}
				one(c, []string{"a"}, nil, func(w *world) string {
					b := d.object(task, func(k string) (bool, bool) { return in[k], false })
					r := Req{Method: m, Target: "/v1/topics/t/tasks/a", Body: &b}
					if list {
						r.Target, r.Body = "/v1/topics/t/tasks", body(`{"data":[`+b+`]}`)
					}
					resp, _, bad := ask(w, r)
					if bad == "" && resp.Status != 201 {
						bad = fmt.Sprintf("%s: status %d %s", r, resp.Status, resp.Body)
					}
					if bad != "" {
						return bad
					}
					resp, got, bad := ask(w, Req{Method: "GET", Target: "/v1/topics/t/tasks/a"})
					if bad != "" || resp.Status != 200 {
						return fmt.Sprintf("%s: the task was not found afterwards: %d %s", r, resp.Status, bad)
					}
					for _, k := range names {
						switch {
						case k == "defer":
							// A deferral becomes a scheduled time.
							if _, ok := got[k]; ok {
								return fmt.Sprintf("%s: then the task has a deferral: %s", r, resp.Body)
							}
							t, err := time.Parse(time.RFC3339Nano, fmt.Sprint(got["scheduled"]))
							if in[k] && !in["scheduled"] && (err != nil || !t.Equal(time.Now().Add(90*time.Minute))) {
								return fmt.Sprintf("%s: then it was scheduled at %v, expected after 90 minutes", r, got["scheduled"])
							}
						case in[k] && !same(k, task.Properties[k], got[k], d.value(k, task.Properties[k], false)):
							return fmt.Sprintf("%s: then its property %q is %v", r, k, got[k])
						}
					}
					return ""
				})
			}
		}
	}
	// Commits and promises, every set of properties.
	cn := props(commit)
	for mask := 0; mask < 1<<len(cn); mask++ {
		if c.Stopped() {
			return
		}
		if !c.Take() {
			continue
		}
		in := map[string]bool{}
		for i, k := range cn {
			in[k] = mask>>i&1 > 0
		}
		one(c, []string{"a"}, bases29()[3], func(w *world) string {
			b := d.object(commit, func(k string) (bool, bool) { return in[k], false })
			b = strings.Replace(b, `"topic":"t"`, `"topic":"u"`, 1)
			r := Req{Method: "PATCH", Target: "/v1/topics/t/tasks/a", Body: &b}
			resp, got, bad := ask(w, r)
			if bad == "" && resp.Status != 200 {
				bad = fmt.Sprintf("%s: status %d %s", r, resp.Status, resp.Body)
			}
			if bad != "" {
				return bad
			}
			want := map[string]any{"topic": "t", "state": 2.0, "payload": "x"}
			if in["topic"] {
				want["topic"] = "u"
			}
			if in["payload"] {
				json.Unmarshal([]byte(d.value("payload", commit.Properties["payload"], false)), &want)
				want["payload"] = map[string]any{"k": []any{1.0, "x", nil}}
				delete(want, "k")
			}
			for k, v := range want {
				if !reflect.DeepEqual(got[k], v) {
					return fmt.Sprintf("%s: then %q is %v, expected %v", r, k, got[k], v)
				}
			}
			t, err := time.Parse(time.RFC3339Nano, fmt.Sprint(got["scheduled"]))
			if err != nil {
				return fmt.Sprintf("%s: then it is scheduled at %v", r, got["scheduled"])
			}
			switch u, _ := time.Parse(time.RFC3339Nano, "1999-05-06T07:08:09.123Z"); {
			case in["scheduled"] && !t.Equal(u):
				return fmt.Sprintf("%s: then it is scheduled at %v", r, t)
			case !in["scheduled"] && in["defer"] && !t.Equal(time.Now().Add(90*time.Minute)):
				return fmt.Sprintf("%s: then it is scheduled at %v, expected after 90 minutes", r, t)
			}
			return ""
		})
	}
	pn := props(promise)
	for mask := 0; mask < 1<<len(pn); mask++ {
		for _, how := range []string{"POST ", "POST a", "PUT a"} {
			if c.Stopped() {
				return
			}
			if !c.Take() {
				continue
			}
			in := map[string]bool{}
			for i, k := range pn {
				in[k] = mask>>i&1 > 0
			}
			m, id, _ := strings.Cut(how, " ")
			if id == "" && in["_id"] {
				continue
			}
			one(c, []string{"a"}, bases29()[1], func(w *world) string {
				b := d.object(promise, func(k string) (bool, bool) { return in[k], false })
				r := Req{Method: m, Target: "/v1/topics/t/promises", Body: &b}
				if id != "" {
					r.Target += "/" + id
				}
				resp, got, bad := ask(w, r)
				if bad == "" && resp.Status != 200 {
					bad = fmt.Sprintf("%s: status %d %s", r, resp.Status, resp.Body)
				}
				if bad != "" {
					return bad
				}
				until := time.Now().Add(10 * time.Minute)
				if in["timeout"] {
					until = time.Now().Add(90 * time.Minute)
				}
				if in["deadline"] {
					until, _ = time.Parse(time.RFC3339, "2031-05-06T07:08:09Z")
				}
				for i := 0; i < 2; i++ {
					t, err := time.Parse(time.RFC3339Nano, fmt.Sprint(got["deadline"]))
					if err != nil || !t.Equal(until) {
						return fmt.Sprintf("%s: the deadline is %v, expected %v", r, got["deadline"], until)
					}
					if got["_id"] != "a" || in["consumer"] && got["consumer"] != "v consumer" {
						return fmt.Sprintf("%s: answered with %v", r, got)
					}
					if i == 0 && got["state"] != 1.0 {
						return fmt.Sprintf("%s: the state is %v", r, got["state"])
					}
					// The promise itself.
					if i == 0 {
						if resp, got, bad = ask(w, Req{Method: "GET", Target: "/v1/topics/t/promises/a"}); bad != "" || resp.Status != 200 {
							return fmt.Sprintf("%s: the promise is answered with %d %s", r, resp.Status, bad)
						}
					}
				}
				return ""
			})
		}
	}
	// Every property with a value of another type.
	rs := d.requests(d.Servers[0].URL)
	seen := map[string]bool{}
	for _, r := range rs {
		k := r.Method + r.Target
		if r.op.RequestBody == nil || seen[k] {
			continue
		}
		seen[k] = true
		s := d.resolve(r.op.RequestBody.Content["application/json"].Schema)
		entry := s
		if l := s.Properties["data"]; l != nil {
			entry = d.resolve(d.resolve(l).Items)
		}
		for _, name := range props(entry) {
			x := d.resolve(entry.Properties[name])
			if x.Type == "object" {
				continue
			}
			for _, others := range []bool{false, true} {
				if c.Stopped() {
					return
				}
				if !c.Take() {
					continue
				}
				one(c, []string{"a", "b"}, bases29()[2], func(w *world) string {
					b := d.object(entry, func(k string) (bool, bool) { return k == name || others, k == name })
					if entry != s {
						b = `{"data":[` + b + `]}`
					}
					q := r.Req
					q.Body = &b
					w.trace = append(w.trace, q.String())
					resp, bad := do(h, q)
					if bad == "" && resp.Status != 400 {
						bad = fmt.Sprintf("%s: status %d %s, expected 400 as %q has another type", q, resp.Status, resp.Body, name)
					}
					if bad == "" {
						bad = d.conforms(r.op, resp)
					}
					if bad == "" {
						bad = w.same()
					}
					return bad
				})
			}
		}
	}
}

var reference = regexp.MustCompile(`(?:src|href)="([^"]+)"|url: "([^"]+)"`)

var listed = regexp.MustCompile(`<a href="([^"]+)">`)

// c29Served: the pages and files of the description are served whole, in every
// form and part, and nothing else is.
func c29Served(c *core.Ctx) {
	h := published()
	dir := filepath.Join(os.Getenv("ZV_REPO"), "docs")
	files := map[string]string{"/": "index.html"}
	for _, f := range []string{"swagger.json", "swagger.yaml", "openapi.json", "openapi.yaml"} {
		files["/"+f] = f
	}
	ui, err := os.ReadDir(filepath.Join(dir, "swagger-ui"))
	if err != nil {
		panic(err)
	}
	for _, f := range ui {
		files["/swagger-ui/"+f.Name()] = "swagger-ui/" + f.Name()
	}
	get := func(target string, headers ...string) (Resp, string) {
		r, s := do(h, Req{Method: "GET", Target: target, Headers: headers})
		return r, s
	}
	bad := func(sig, f string, a ...any) { c.Violation(sig, short(fmt.Sprintf(f, a...)), nil) }
	texts := map[string][]byte{}
	for _, t := range keys(files) {
		b, err := os.ReadFile(filepath.Join(dir, files[t]))
		if err != nil {
			panic(err)
		}
		texts[t] = b
		kinds := map[string]string{".html": "text/html", ".json": "application/json", ".js": "text/javascript", ".css": "text/css"}
		kind := kinds[filepath.Ext(files[t])]
		for _, hd := range [][]string{nil, {"Accept-Encoding: gzip"}, {"Accept-Encoding: gzip, deflate, br", "Accept: */*", "Origin: https://example.com"}, {"Range: bytes=0-"}, {"If-Modified-Since: Mon, 01 Jan 2001 00:00:00 GMT"}, {`If-None-Match: "x"`}, {"Cache-Control: no-cache"}} {
			for _, q := range []string{"", "?", "?v=1", "?a=b&c=%20"} {
				if c.Stopped() {
					return
				}
				if !c.Take() {
					continue
				}
				r, s := get(t+q, hd...)
				switch {
				case s != "":
					bad("file", "GET %s %v: %s", t, hd, s)
				case r.Status != 200 && r.Status != 206:
					bad("file", "GET %s %v: status %d %s", t, hd, r.Status, r.Body)
				case !bytes.Equal(r.Body, b):
					bad("file", "GET %s %v: %d bytes that differ from the %d of the file %s", t, hd, len(r.Body), len(b), files[t])
				case !strings.HasPrefix(r.Header.Get("Content-Type"), kind):
					bad("file", "GET %s %v: the type %q, expected %q", t, hd, r.Header.Get("Content-Type"), kind)
				}
				c.Count("requests", 1)
			}
		}
	}
	// The page finds what it refers to.
	for _, m := range reference.FindAllStringSubmatch(string(texts["/"]), -1) {
		ref := m[1] + m[2]
		if strings.Contains(ref, "://") || !c.Take() {
			continue
		}
		if r, s := get("/" + strings.TrimPrefix(ref, "/")); s != "" || r.Status != 200 || len(r.Body) == 0 {
			bad("page", "the page refers to %q, which is answered with %d %s", ref, r.Status, s)
		}
	}
	// What looks like a file of the description and is none.
	var names []string
	for _, a := range []string{"/swagger-ui/", "/swagger-ui", "/swagger-ui//", "/v1/swagger-ui/", "/docs/"} {
		for _, b := range []string{"..", "../docs.go", "../swagger.json", "..%2fswagger.json", "%2e%2e/docs.go", "%2e%2e%2fdocs.go", "../../go.mod", "../../../../../../../../etc/passwd", "..%2f..%2f..%2f..%2f..%2fetc%2fpasswd", "/etc/passwd", "%2fetc%2fpasswd", "none.js", "swagger-ui.css", "swagger-ui-bundle.js/", "swagger-ui-bundle.js/x", "..\\docs.go", "%00", "swagger-ui-bundle.js%00", "", ".", "./", "docs_test.go"} {
			names = append(names, a+b)
		}
	}
	for _, n := range []string{"/docs.go", "/index.html", "/swagger.jsn", "/swagger.json/", "/swagger.json/x", "/openapi.json/..", "/openapi", "/Swagger.json", "/assets", "/docs_test.go", "/swagger.yml", "/v1/swagger.json", "/v1/", "/v1"} {
		names = append(names, n)
	}
	for _, n := range names {
		for _, hd := range [][]string{nil, {"Accept-Encoding: gzip"}} {
			if c.Stopped() {
				return
			}
			if !c.Take() {
				continue
			}
			r, s := get(n, hd...)
			if strings.HasPrefix(s, "UNPARSABLE") {
				continue
			}
			if s != "" {
				bad("others", "GET %s: %s", n, s)
				continue
			}
			if r.Status >= 500 {
				bad("others", "GET %s: status %d %s", n, r.Status, r.Body)
			}
			if r.Status == 200 {
				known := false
				for _, b := range texts {
					known = known || bytes.Equal(b, r.Body)
				}
				// A listing may name what is served.
				if l := listed.FindAllSubmatch(r.Body, -1); len(l) > 0 && bytes.Contains(r.Body, []byte("<pre>")) {
					known = true
					for _, m := range l {
						f := string(m[1])
						if texts["/"+f] == nil && texts["/swagger-ui/"+f] == nil && f != "swagger-ui/" {
							known = false
						}
					}
				}
				if !known {
					bad("others", "GET %s: answered with something else: %.200q", n, r.Body)
				}
			}
			c.Count("requests", 1)
		}
	}
	// The four files say the same.
	if c.Take() {
		tree := func(t string) (v any) {
			var err error
			if strings.HasSuffix(t, "json") {
				err = json.Unmarshal(texts[t], &v)
			} else if err = yaml.Unmarshal(texts[t], &v); err == nil {
				var b []byte
				if b, err = json.Marshal(v); err == nil {
					v = nil
					err = json.Unmarshal(b, &v)
				}
			}
			if err != nil {
				bad("files", "%s: %v", t, err)
			}
			return v
		}
		for _, k := range []string{"/swagger", "/openapi"} {
			if !reflect.DeepEqual(tree(k+".json"), tree(k+".yaml")) {
				bad("files", "%s.json and %s.yaml differ", k, k)
			}
		}
		old, _ := tree("/swagger.json").(map[string]any)
		now, _ := tree("/openapi.json").(map[string]any)
		outline := func(m map[string]any) (v []string) {
			ps, _ := m["paths"].(map[string]any)
			for p, o := range ps {
				ms, _ := o.(map[string]any)
				for me, x := range ms {
					rs, _ := x.(map[string]any)["responses"].(map[string]any)
					v = append(v, fmt.Sprint(me, " ", p, " ", keys(rs)))
				}
			}
			sort.Strings(v)
			return v
		}
		if a, b := outline(old), outline(now); !reflect.DeepEqual(a, b) || len(a) == 0 {
			bad("files", "swagger.json and openapi.json describe different operations:\n%v\n%v", a, b)
		}
	}
	// Every route of the API is described, and everything described is routed.
	d, s := described(h)
	if s != "" {
		bad("description", "%s", s)
		return
	}
	segments := []string{"topics", "{topic}", "tasks", "promises", "{id}", "livez", "readyz", "healthz", "metrics", "nonces", "chores"}
	matches := func(path string) bool {
		seg := strings.Split(path, "/")
		for t := range d.Paths {
			ts := strings.Split(t, "/")
			ok := len(ts) == len(seg)
			for i := range ts {
				ok = ok && (ts[i] == seg[i] || strings.HasPrefix(ts[i], "{"))
			}
			if ok {
				return true
			}
		}
		return false
	}
	var rec func(path string, depth int)
	rec = func(path string, depth int) {
		if path != "" {
			for _, m := range []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD"} {
				for _, pre := range []string{"", d.Servers[0].URL} {
					if c.Stopped() {
						return
					}
					if !c.Take() {
						continue
					}
					op := d.Paths[path][strings.ToLower(m)]
					if d.Paths[path] == nil && matches(path) {
						continue // a name that looks like a part of the API
					}
					if path == "/healthz" {
						op = d.Paths["/livez"][strings.ToLower(m)]
					}
					// Each described request has a database where it succeeds.
					ok := false
					var last Resp
					dbs := bases29()[1:4]
					if op == nil {
						dbs = dbs[1:2]
					}
					for _, db := range dbs {
						one(c, nil, db, func(w *world) string {
							t := pre + strings.NewReplacer("{topic}", "t", "{id}", "a").Replace(path)
							r := Req{Method: m, Target: t}
							if m != "GET" && m != "HEAD" && m != "DELETE" {
								if r.Body = body("{}"); op != nil && op.RequestBody != nil {
									if s := d.resolve(op.RequestBody.Content["application/json"].Schema); s.Properties["data"] != nil {
										r.Body = body(`{"data":[{"_id":"z"}]}`)
									}
								}
								if m == "POST" && strings.HasSuffix(path, "/tasks/{id}") {
									r.Target = strings.TrimSuffix(t, "a") + "z"
								}
							}
							resp, s := do(h, r)
							if s != "" {
								return s
							}
							last = resp
							ok = ok || resp.Status < 300
							return ""
						})
					}
					if op != nil && !ok {
						bad("route", "%s %s is described and answered with %d %s", m, pre+path, last.Status, last.Body)
					}
					if op == nil && last.Status != 404 && !(m == "HEAD" && last.Status == 200) {
						bad("route", "%s %s is not described and answered with %d %s", m, pre+path, last.Status, last.Body)
					}
				}
			}
		}
		if depth == 0 {
			return
		}
		for _, s := range segments {
			rec(path+"/"+s, depth-1)
		}
	}
	depth := 3
	if c.Thorough() {
		depth = 5
	}
	rec("", depth)
	for _, p := range keys(d.Paths) {
		rec(p, 0)
	}
}
