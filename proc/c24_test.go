package main_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/mongod"

	"verif.local/shim/vos"
)

func init() {
	parts["C24/memdb"] = c24memdb
	parts["C24/mongodb"] = c24mongodb
	parts["C24/refused"] = c24refused
}

// source is how an option is given.
type source int

const (
	byFlag source = iota
	byEquals
	byEnv
	byBoth // the flag wins over the environment
	sources
)

func (s source) String() string {
	return []string{"flag", "flag=", "environment", "flag over environment"}[s]
}

// option is an option of the program with the values tried.
type option struct {
	name, env string
	def       string
	vals      []string
	toggle    bool
}

// setting is an option that is given.
type setting struct {
	Opt option `json:"-"`
	Val string `json:"value"`
	Src source `json:"source"`
	Say string `json:"option"`
}

// give puts settings where the program finds them.
func give(v []setting) (args []string) {
	for _, s := range v {
		flag := "--" + s.Opt.name
		other := "17s"
		for _, o := range append([]string{s.Opt.def}, s.Opt.vals...) {
			if o != s.Val && o != "" {
				other = o
			}
		}
		switch {
		case s.Src == byEnv:
			os.Setenv(s.Opt.env, s.Val)
		case s.Opt.toggle && s.Src == byFlag && s.Val == "true":
			args = append(args, flag)
		case s.Opt.toggle || s.Src == byEquals:
			if s.Src == byBoth {
				os.Setenv(s.Opt.env, other)
			}
			args = append(args, flag+"="+s.Val)
		default:
			if s.Src == byBoth {
				os.Setenv(s.Opt.env, other)
			}
			args = append(args, flag, s.Val)
		}
	}
	return args
}

func withdraw(v []setting) {
	for _, s := range v {
		os.Unsetenv(s.Opt.env)
	}
}

// values of all options in force.
func values(opts []option, v []setting) map[string]string {
	m := map[string]string{}
	for _, o := range opts {
		m[o.name] = o.def
	}
	for _, s := range v {
		m[s.Opt.name] = s.Val
	}
	return m
}

// subsets calls f with every choice of up to n options, values and sources.
func subsets(opts []option, n int, f func(v []setting) bool) bool {
	var rec func(from int, v []setting) bool
	rec = func(from int, v []setting) bool {
		if !f(v) {
			return false
		}
		if len(v) == n {
			return true
		}
		for i := from; i < len(opts); i++ {
			o := opts[i]
			for _, x := range o.vals {
				for s := byFlag; s < sources; s++ {
					if !rec(i+1, append(v[:len(v):len(v)], setting{o, x, s, o.name})) {
						return false
					}
				}
			}
		}
		return true
	}
	return rec(0, nil)
}

var common = []option{
	{name: "port", env: "PORT", def: "80", vals: []string{"8080", "0", "1", "65535"}},
	{name: "bind", env: "BIND", def: "0.0.0.0", vals: []string{"127.0.0.1", "10.1.2.3"}},
	{name: "chore-interval", env: "CHORE_INTERVAL", def: "10s", vals: []string{"7s", "0s", "1h30m"}},
	{name: "chore-initial-delay", env: "CHORE_INITIAL_DELAY", def: "0s", vals: []string{"3s", "25m"}},
	{name: "chore-initial-random", env: "CHORE_INITIAL_RANDOM", def: "false", vals: []string{"true", "false"}, toggle: true},
	{name: "pagination-max-limit", env: "PAGINATION_MAX_LIMIT", def: "100", vals: []string{"1", "8", "5000"}},
	{name: "pagination-max-offset", env: "PAGINATION_MAX_OFFSET", def: "10000", vals: []string{"0", "9", "70000"}},
}

const elsewhere = "/data/elsewhere"

var memdbOptions = append(append([]option(nil), common...),
	option{name: "engine", env: "ENGINE", def: "memdb", vals: []string{"memdb", "MemDB"}},
	option{name: "memdb-snapshot-path", env: "MEMDB_SNAPSHOT_PATH", def: "", vals: []string{path, elsewhere}},
	option{name: "memdb-snapshot-interval", env: "MEMDB_SNAPSHOT_INTERVAL", def: "5m", vals: []string{"1s", "45s", "3h"}},
	option{name: "memdb-retention-period", env: "MEMDB_RETENTION_PERIOD", def: "72h", vals: []string{"90m", "500h"}},
	// Options of the engine that is not used have no effect.
	option{name: "mongodb-retention-period", env: "MONGODB_RETENTION_PERIOD", def: "72h", vals: []string{"1h"}},
)

const mongoURI = "mongodb://db:27017/?retryWrites=false&retryReads=false"

var mongoOptions = append(append([]option(nil), common...),
	option{name: "mongodb-uri", env: "MONGODB_URI", def: "mongodb://127.0.0.1:27017", vals: []string{mongoURI, "mongodb://other.example:27018"}},
	option{name: "mongodb-database", env: "MONGODB_DATABASE", def: "ratus", vals: []string{"elsewhere"}},
	option{name: "mongodb-collection", env: "MONGODB_COLLECTION", def: "tasks", vals: []string{"jobs"}},
	option{name: "mongodb-retention-period", env: "MONGODB_RETENTION_PERIOD", def: "72h", vals: []string{"90m", "500h"}},
	option{name: "mongodb-disable-index-creation", env: "MONGODB_DISABLE_INDEX_CREATION", def: "false", vals: []string{"true", "false"}, toggle: true},
	option{name: "mongodb-disable-auto-fallback", env: "MONGODB_DISABLE_AUTO_FALLBACK", def: "false", vals: []string{"true", "false"}, toggle: true},
	option{name: "mongodb-disable-atomic-poll", env: "MONGODB_DISABLE_ATOMIC_POLL", def: "false", vals: []string{"true", "false"}, toggle: true},
	option{name: "memdb-retention-period", env: "MEMDB_RETENTION_PERIOD", def: "72h", vals: []string{"1h"}},
)

func dur(s string) time.Duration {
	d, err := time.ParseDuration(s)
	if err != nil {
		panic(err)
	}
	return d
}

// talk sends a request on a connection of its own.
func (p *process) talk(method, target, body string) (int, []byte, error) {
	conn, err := p.dial()
	if err != nil {
		return 0, nil, err
	}
	k := newClient(conn)
	defer k.close()
	k.read(0)
	k.send(fmt.Sprintf("%s %s HTTP/1.1\r\nHost: ratus\r\nConnection: close\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", method, target, len(body), body))
	status, b, whole, _ := k.answer()
	if !whole {
		return 0, nil, fmt.Errorf("no complete answer")
	}
	return status, b, nil
}

// trial is one process with its settings.
type trial struct {
	c    *core.Ctx
	p    *process
	v    []setting
	val  map[string]string
	bads int
}

func (x *trial) bad(sig, f string, a ...any) {
	var s []string
	for _, y := range x.v {
		s = append(s, fmt.Sprintf("%s=%s (%s)", y.Opt.name, y.Val, y.Src))
	}
	x.bads++
	x.c.Violation(sig, fmt.Sprintf(f, a...)+"; settings: "+strings.Join(s, ", "), x.v)
}

// task reads a task through the API; nil if there is none.
func (x *trial) task(id string) *ratus.Task {
	st, b, err := x.p.talk("GET", "/v1/topics/t/tasks/"+id, "")
	var t ratus.Task
	if err == nil && st == 200 {
		err = json.Unmarshal(b, &t)
	} else if err == nil && st == 404 {
		return nil
	}
	if err != nil || st != 200 {
		x.bad("request", "reading task %s: status %d, %v", id, st, err)
	}
	return &t
}

// put stores tasks through the API.
func (x *trial) put(t *ratus.Task) {
	b, _ := json.Marshal(t)
	if st, r, err := x.p.talk("PUT", "/v1/topics/t/tasks/"+t.ID, string(b)); err != nil || st >= 300 {
		x.bad("request", "storing task %s: status %d %s, %v", t.ID, st, r, err)
	}
}

// listening checks where the process listens.
func (x *trial) listening() bool {
	want := x.val["bind"] + ":" + x.val["port"]
	l := x.p.listener()
	x.p.mu.Lock()
	at := x.p.address
	x.p.mu.Unlock()
	switch {
	case x.val["port"] == "0":
		if l != nil {
			x.bad("port", "the process listens on %s although the port is 0", at)
		}
		return false
	case l == nil:
		x.bad("port", "the process does not listen, expected on %s", want)
		return false
	case at != want:
		x.bad("bind", "the process listens on %s, expected %s", at, want)
	}
	return true
}

// pages checks the limits of pagination.
func (x *trial) pages() {
	for _, q := range []struct{ opt, par string }{{"pagination-max-limit", "limit"}, {"pagination-max-offset", "offset"}} {
		var n int
		fmt.Sscan(x.val[q.opt], &n)
		for d := 0; d < 2; d++ {
			st, b, err := x.p.talk("GET", fmt.Sprintf("/v1/topics/t/tasks?%s=%d", q.par, n+d), "")
			if want := 200 + 200*d; err != nil || st != want {
				x.bad(q.opt, "%s=%d with a maximum of %d: status %d %.80s, %v, expected %d", q.par, n+d, n, st, b, err, want)
			}
		}
	}
}

// jobs checks when background jobs run and what they expire, through the API;
// there is a task whose claim has timed out, one that expired and one that did
// not.
func (x *trial) jobs(retention time.Duration) {
	in, delay := dur(x.val["chore-interval"]), dur(x.val["chore-initial-delay"])
	start := x.p.start()
	at := func(d time.Duration) {
		time.Sleep(start.Add(d).Sub(time.Now()))
		synctest.Wait()
	}
	claimed := func(id string) *ratus.Task {
		return &ratus.Task{ID: id, State: ratus.TaskStateActive, Nonce: "0123456789abcdef", Consumer: "c", Consumed: ptr(time.Now().Add(-time.Minute)), Deadline: ptr(time.Now().Add(-time.Second))}
	}
	done := func(id string, consumed time.Time) *ratus.Task {
		return &ratus.Task{ID: id, State: ratus.TaskStateCompleted, Consumer: "c", Consumed: &consumed, Deadline: &consumed}
	}
	state := func(id string, want ratus.TaskState, when string) {
		if t := x.task(id); t == nil || t.State != want {
			x.bad("chore-interval", "%s: claimed task %v is %+v, expected state %v", when, id, t, want)
		}
	}
	x.put(claimed("a"))
	if in == 0 {
		at(10 * time.Hour)
		state("a", ratus.TaskStateActive, "background jobs are off, after 10h")
		return
	}
	if retention > 0 {
		x.put(done("young", start.Add(delay-retention+2*time.Second)))
		x.put(done("old", start.Add(-retention-2*time.Second)))
	}
	if x.val["chore-initial-random"] == "true" {
		at(delay + time.Millisecond)
		state("a", ratus.TaskStatePending, "after the randomised initial delay")
	} else {
		if delay > 0 {
			at(delay - time.Millisecond)
			state("a", ratus.TaskStateActive, "just before the initial delay has passed")
		}
		at(delay + time.Millisecond)
		state("a", ratus.TaskStatePending, "just after the initial delay")
		x.put(claimed("b"))
		at(delay + in - time.Millisecond)
		state("b", ratus.TaskStateActive, "just before the interval has passed")
		at(delay + in + time.Millisecond)
		state("b", ratus.TaskStatePending, "just after the interval")
	}
	if retention > 0 {
		if x.task("old") != nil {
			x.bad("retention", "a task completed %v and 2s before is still there", retention)
		}
		if x.task("young") == nil && in > 2*time.Second && time.Since(start) < delay+2*time.Second {
			x.bad("retention", "a task completed less than %v ago is gone", retention)
		}
	}
}

// c24memdb: every choice of options with the in-memory engine.
func c24memdb(c *core.Ctx) {
	n := 2
	if c.Thorough() {
		n = 3
	}
	// Snapshots there may be before, one at each path.
	before := map[string][]byte{path: seedSnapshot(), elsewhere: snapshotOf([]*ratus.Task{{ID: "other", Topic: "t", Payload: "x", Produced: &epoch, Scheduled: &epoch}})}
	has := map[string]string{path: "p1", elsewhere: "other"}
	each := func(v []setting, old bool) bool {
		if !c.Take() {
			return !c.Stopped()
		}
		bubble(c, func() any { return v }, func(t *testing.T) {
			runtime.ZVSelect(1)
			defer runtime.ZVSelect(0)
			defer withdraw(v)
			x := &trial{c: c, v: v, val: values(memdbOptions, v), p: &process{fs: vos.New("/data")}}
			for name, b := range before {
				if old {
					x.p.fs.Put(name, b)
				}
			}
			var mu sync.Mutex
			saves := map[string][]time.Time{}
			x.p.fs.Hook = func(op, name string) {
				mu.Lock()
				defer mu.Unlock()
				if op == "create" {
					saves["create"] = append(saves["create"], time.Now())
				}
			}
			x.p.boot(give(v)...)
			defer x.p.clean()
			if x.p.dead() && (x.val["port"] != "0" || x.val["chore-interval"] != "0s") {
				x.bad("died", "the process %s", x.p.how)
				return
			}
			start := x.p.start()
			file := x.val["memdb-snapshot-path"]
			if x.listening() {
				for name, id := range has {
					if got, want := x.task(id) != nil, old && file == name; got != want {
						x.bad("snapshot-path", "the task of the snapshot %s was loaded: %v, expected %v", name, got, want)
					}
				}
				x.pages()
				x.jobs(dur(x.val["memdb-retention-period"]))
			}
			// Snapshots: none without a path, at the path given, and the first
			// job and those an interval later write one.
			in, gap, delay := dur(x.val["chore-interval"]), dur(x.val["memdb-snapshot-interval"]), dur(x.val["chore-initial-delay"])
			if in > 0 && file != "" {
				more := delay + max(gap, in) + min(gap, in) + in + time.Second
				time.Sleep(start.Add(more).Sub(time.Now()))
				synctest.Wait()
				mu.Lock()
				got := append([]time.Time(nil), saves["create"]...)
				mu.Unlock()
				if len(got) < 2 {
					x.bad("snapshot-interval", "only %d snapshots were written in %v", len(got), time.Since(start))
				} else if d := got[1].Sub(got[0]); d < gap || d > gap+in+time.Millisecond {
					x.bad("snapshot-interval", "two snapshots were written %v apart, expected %v to %v", d, gap, gap+in)
				}
			}
			x.p.kill([]os.Signal{os.Interrupt, syscall.SIGTERM}[c.Index()%2])
			for i := 0; i < 10 && !x.p.dead(); i++ {
				time.Sleep(time.Minute)
				synctest.Wait()
			}
			if !x.p.dead() || x.p.code != 0 {
				x.bad("end", "the process did not end with status 0 after the signal: %s %d", x.p.how, x.p.code)
			}
			files := x.p.fs.Files()
			sort.Strings(files)
			want := []string{}
			for name, b := range before {
				if old || name == file {
					want = append(want, name)
				}
				if now, _ := x.p.fs.Get(name); old && name != file && !bytes.Equal(now, b) {
					x.bad("snapshot-path", "the file %s was changed", name)
				}
			}
			sort.Strings(want)
			if fmt.Sprint(files) != fmt.Sprint(want) {
				x.bad("snapshot-path", "files at the end: %v, expected %v", files, want)
			}
			finish(c, x, len(v))
		})
		c.Count("histories", 1)
		return !c.Stopped()
	}
	subsets(memdbOptions, n, func(v []setting) bool { return each(v, false) && each(v, true) })
}

func finish(c *core.Ctx, x *trial, n int) {
	c.Count("transitions", int64(n)+4)
	c.Distinct("states", fmt.Sprint(x.val))
	c.Sample(func() string { return fmt.Sprintf("settings in force: %v", x.val) })
}

// c24mongodb: every choice of options with the MongoDB engine.
func c24mongodb(c *core.Ctx) {
	n := 2
	if c.Thorough() {
		n = 3
	}
	engine := option{name: "engine", env: "ENGINE", def: "memdb", vals: []string{"mongodb", "MONGODB"}}
	subsets(mongoOptions, n, func(given []setting) bool {
		if !c.Take() {
			return !c.Stopped()
		}
		v := append(given[:len(given):len(given)], setting{engine, engine.vals[c.Index()%2], source(c.Index() % int64(sources)), "engine"})
		bubble(c, func() any { return v }, func(t *testing.T) {
			runtime.ZVSelect(1)
			defer runtime.ZVSelect(0)
			defer withdraw(v)
			x := &trial{c: c, v: v, val: values(mongoOptions, v), p: &process{srv: mongod.New()}}
			var mu sync.Mutex
			var cmds []string
			sharded := false
			x.p.srv.Observe = func(m *mongod.Cmd, _ mongod.D) {
				mu.Lock()
				defer mu.Unlock()
				cmds = append(cmds, m.Name+" "+m.Coll)
				if m.Name == "createIndexes" || !x.p.isOpen() && m.Name != "hello" && m.Name != "isMaster" {
					x.p.mu.Lock()
					x.p.born, x.p.opened = time.Now(), true
					x.p.mu.Unlock()
				}
			}
			x.p.srv.Inject = func(m *mongod.Cmd) *mongod.Fault {
				if sharded && m.Name == "findAndModify" && !strings.Contains(m.String(), `"_id"`) {
					return &mongod.Fault{Code: 61, Name: "ShardKeyNotFound"}
				}
				return nil
			}
			x.p.boot(give(v)...)
			defer x.p.clean()
			for i := 0; i < 20 && x.p.listener() == nil && !x.p.dead(); i++ {
				time.Sleep(100 * time.Millisecond)
				synctest.Wait()
				if x.val["port"] == "0" && i > 10 {
					break
				}
			}
			if x.p.dead() && (x.val["port"] != "0" || x.val["chore-interval"] != "0s") {
				x.bad("died", "the process %s", x.p.how)
				return
			}
			ns := x.val["mongodb-database"] + "." + x.val["mongodb-collection"]
			// Where it connects to.
			host := strings.TrimPrefix(x.val["mongodb-uri"], "mongodb://")
			host, _, _ = strings.Cut(host, "/")
			x.p.mu.Lock()
			d := append([]string(nil), x.p.dialed...)
			x.p.mu.Unlock()
			other := len(d) == 0
			for _, a := range d {
				other = other || a != host
			}
			if other {
				x.bad("mongodb-uri", "the process connected to %v, expected %s", d, host)
			}
			// Which indexes it creates.
			x.p.srv.With(func(colls map[string]*mongod.Coll) {
				var got []string
				ttl := int64(-1)
				for k, co := range colls {
					for _, ix := range co.Indexes {
						if ix.Name == "_id_" {
							continue
						}
						got = append(got, k)
						if ix.Expire != nil {
							ttl = *ix.Expire
						}
					}
				}
				if off := x.val["mongodb-disable-index-creation"] == "true"; off {
					if len(got) > 0 {
						x.bad("index-creation", "indexes were created although that is disabled: %v", got)
					}
				} else {
					if len(got) != 5 {
						x.bad("index-creation", "%d indexes were created", len(got))
					}
					if want := int64(dur(x.val["mongodb-retention-period"]) / time.Second); ttl != want {
						x.bad("retention", "tasks expire after %d seconds, expected %d", ttl, want)
					}
				}
				for _, k := range got {
					if k != ns {
						x.bad("collection", "indexes were created on %s, expected on %s", k, ns)
					}
				}
				// Where indexes are not created there must be some.
				if colls[ns] == nil || len(colls[ns].Indexes) < 5 {
					colls[ns] = &mongod.Coll{Indexes: seedIndexes}
				}
			})
			if x.listening() {
				x.pages()
				x.put(&ratus.Task{ID: "1", Payload: "x"})
				x.put(&ratus.Task{ID: "2", Payload: "x"})
				// Polling.
				poll := func() int {
					mu.Lock()
					cmds = nil
					mu.Unlock()
					st, _, err := x.p.talk("POST", "/v1/topics/t/promises?timeout=100h", "")
					if err != nil {
						x.bad("request", "poll: %v", err)
					}
					return st
				}
				st := poll()
				mu.Lock()
				first := strings.Join(cmds, ",")
				mu.Unlock()
				if atomic := first == "findAndModify "+ns; st != 200 || atomic == (x.val["mongodb-disable-atomic-poll"] == "true") {
					x.bad("atomic-poll", "a poll was answered %d and sent: %s", st, first)
				}
				// Fallbacks.
				mu.Lock()
				sharded = true
				mu.Unlock()
				want := 200
				if x.val["mongodb-disable-auto-fallback"] == "true" && x.val["mongodb-disable-atomic-poll"] != "true" {
					want = 500
				}
				if st := poll(); st != want {
					x.bad("auto-fallback", "a poll the database refuses was answered %d, expected %d", st, want)
				}
				mu.Lock()
				sharded = false
				mu.Unlock()
				x.jobsMongo()
				x.p.srv.With(func(colls map[string]*mongod.Coll) {
					for k, co := range colls {
						if k != ns && len(co.Docs) > 0 {
							x.bad("collection", "tasks were stored in %s, expected in %s", k, ns)
						}
					}
					if len(colls[ns].Docs) < 2 {
						x.bad("collection", "tasks were not stored in %s", ns)
					}
				})
			}
			x.p.kill([]os.Signal{os.Interrupt, syscall.SIGTERM}[c.Index()%2])
			for i := 0; i < 10 && !x.p.dead(); i++ {
				time.Sleep(time.Minute)
				synctest.Wait()
			}
			if !x.p.dead() || x.p.code != 0 {
				x.bad("end", "the process did not end with status 0 after the signal: %s %d", x.p.how, x.p.code)
			}
			finish(c, x, len(v))
		})
		c.Count("histories", 1)
		return !c.Stopped()
	})
}

// jobsMongo checks that background jobs run at the interval (the start is not
// known exactly).
func (x *trial) jobsMongo() {
	in, delay := dur(x.val["chore-interval"]), dur(x.val["chore-initial-delay"])
	t := &ratus.Task{ID: "a", State: ratus.TaskStateActive, Nonce: "0123456789abcdef", Consumer: "c", Consumed: ptr(time.Now().Add(-time.Minute)), Deadline: ptr(time.Now().Add(-time.Second))}
	x.put(t)
	if in == 0 {
		time.Sleep(10 * time.Hour)
		synctest.Wait()
		if g := x.task("a"); g == nil || g.State != ratus.TaskStateActive {
			x.bad("chore-interval", "background jobs are off, but the claimed task is %+v after 10h", g)
		}
		return
	}
	lo := delay - 3*time.Second
	if x.val["chore-initial-random"] != "true" && lo > 0 {
		time.Sleep(lo)
		synctest.Wait()
		if g := x.task("a"); g == nil || g.State != ratus.TaskStateActive {
			x.bad("chore-initial-delay", "the claimed task is %+v before the initial delay has passed", g)
		}
		delay -= lo
	}
	time.Sleep(delay + in + time.Second)
	synctest.Wait()
	if g := x.task("a"); g == nil || g.State != ratus.TaskStatePending {
		x.bad("chore-interval", "the claimed task is %+v after the initial delay and an interval", g)
	}
}

// c24refused: settings that make no sense keep the process from starting.
func c24refused(c *core.Ctx) {
	wrong := map[string][]string{
		"engine": {"redis", "mem db", "memdb2"},
		"port":   {"x", "-1", "80.5", "65536", "1000000"}, "chore-interval": {"x", "10", "-", "1 s"}, "chore-initial-delay": {"soon", "5"},
		"chore-initial-random": {"maybe", "2"}, "pagination-max-limit": {"x", "1.5", "10k"}, "pagination-max-offset": {"many"},
		"memdb-snapshot-interval": {"x", "60"}, "memdb-retention-period": {"3days", "72"}, "mongodb-retention-period": {"x"},
		"mongodb-disable-index-creation": {"no way"}, "mongodb-disable-auto-fallback": {"x"}, "mongodb-disable-atomic-poll": {"x"},
		"no-such-option": {"1"}, "mongodb-uri": {"http://db", "mongodb://", "db:27017"},
	}
	all := append(append([]option(nil), memdbOptions...), mongoOptions[len(common):]...)
	all = append(all, option{name: "no-such-option"})
	for _, eng := range []string{"memdb", "mongodb"} {
		for _, o := range all {
			for _, w := range wrong[o.name] {
				for s := byFlag; s < sources; s++ {
					if o.env == "" && s >= byEnv || o.name == "mongodb-uri" && eng != "mongodb" || s == byBoth && o.name != "engine" {
						continue
					}
					if o.toggle && s == byFlag {
						continue
					}
					if c.Stopped() {
						return
					}
					if !c.Take() {
						continue
					}
					v := []setting{{o, w, s, o.name}}
					bubble(c, func() any { return v }, func(t *testing.T) {
						defer withdraw(v)
						p := &process{fs: vos.New("/data")}
						args := []string{"--memdb-snapshot-path", path, "--engine", eng}
						if o.name == "engine" {
							args = args[:2]
						}
						if eng == "mongodb" {
							p.srv = mongod.New()
							if o.name != "mongodb-uri" {
								args = append(args, "--mongodb-uri", mongoURI)
							}
						}
						x := &trial{c: c, v: v, p: p}
						devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
						so, se := os.Stdout, os.Stderr
						os.Stdout, os.Stderr = devnull, devnull
						p.boot(append(args, give(v)...)...)
						for i := 0; i < 20 && !p.dead(); i++ {
							time.Sleep(time.Second)
							synctest.Wait()
						}
						os.Stdout, os.Stderr = so, se
						devnull.Close()
						switch {
						case !p.dead():
							x.bad("accepted", "the process started")
						case p.code == 0:
							x.bad("accepted", "the process %s with status 0", p.how)
						case p.listener() != nil:
							x.bad("accepted", "the process listened before it ended")
						case o.name != "port" && len(p.fs.Files()) > 0:
							x.bad("accepted", "the process wrote %v", p.fs.Files())
						}
						c.Count("transitions", 1)
						c.Distinct("states", fmt.Sprint(o.name, w, p.how))
						p.clean()
					})
					c.Count("histories", 1)
				}
			}
		}
	}
}
