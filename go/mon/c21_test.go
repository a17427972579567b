package mon

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/mongo"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
	"github.com/hyperonym/ratus/internal/zverif/mongod"
)

func init() {
	parts["C21/open"] = c21open
	parts["C21/faults"] = c21faults
	parts["C21/sequences"] = c21sequences
}

// setting is a combination of fallback settings.
type setting struct {
	name               string
	noAuto, noAtomic   bool
	forced             bool // all fallbacks on from the start
	pollFlag, restFlag int  // -1: only preferred, 0: automatic, 1: fallback
}

var settings = []setting{
	{name: "default"},
	{name: "auto fallback disabled", noAuto: true, pollFlag: -1, restFlag: -1},
	{name: "atomic poll disabled", noAtomic: true, pollFlag: 1},
	{name: "both disabled", noAuto: true, noAtomic: true, pollFlag: 1, restFlag: -1},
	{name: "fallback", forced: true, pollFlag: 1, restFlag: 1},
}

// fresh opens an engine of its own.
func (s *site) fresh(st setting) (*mongodb.Engine, error) {
	c := config("c9")
	c.DisableAutoFallback, c.DisableAtomicPoll = st.noAuto, st.noAtomic
	g, err := mongodb.New(c)
	if err != nil {
		return nil, err
	}
	if st.forced {
		g.Fallback(1)
	}
	if err := g.Open(bg); err != nil {
		g.Close(bg)
		return nil, err
	}
	return g, nil
}

// probe is an operation on a database.
type probe struct {
	name string
	op   Op
	init []TS
	flex bool // has a preferred and a fallback form
}

func (b probe) kind() string { return b.op.K }

func probes() []probe {
	two := []TS{pend("1", "a", -sec), pend("2", "a", -2*sec), active("3", "a", p(-sec)), active("4", "a", p(hour)), done("5", "b")}
	var v []probe
	add := func(flex bool, ops ...Op) {
		for _, o := range ops {
			v = append(v, probe{name: o.String(), op: o, init: two, flex: flex})
		}
	}
	add(true,
		pollOp("a"), pollOp("none"), pollOp("b"),
		commitOp("3", nonceOf("3"), 2), Op{K: "commit", ID: "3", N: nonceOf("3"), State: st(0), NewTopic: "b"}, commitOp("3", "stale-nonce-0000", 2), commitOp("1", "", 0), commitOp("9", "", 2), commitOp("9", nonceOf("3"), 2),
		claimOp("1"), claimOp("3"), claimOp("9"), claimOp("5"),
		forceOp("1"), forceOp("3"), forceOp("9"), forceOp("5"),
		upsert(pend("1", "b", -sec)), upsert(pend("9", "a", 0)),
		Op{K: "upsertTasks", Ts: []TS{pend("1", "b", 0), pend("9", "a", 0), pend("3", "a", 0)}},
		Op{K: "upsertTasks", Ts: []TS{pend("9", "a", 0)}},
	)
	add(false,
		insert("9", "a", 0), insert("1", "b", 0),
		Op{K: "insertTasks", Ts: []TS{pend("1", "b", 0), pend("9", "a", 0), pend("8", "a", 0), pend("3", "b", 0)}},
		Op{K: "insertTasks", Ts: []TS{pend("9", "a", 0), pend("8", "a", 0)}},
		Op{K: "getTask", ID: "1"}, Op{K: "getTask", ID: "9"}, Op{K: "deleteTask", ID: "1"}, Op{K: "deleteTasks", Topic: "a"},
		Op{K: "getTopic", Topic: "a"}, Op{K: "getTopic", Topic: "none"}, Op{K: "deleteTopic", Topic: "a"}, Op{K: "deleteTopics"},
		Op{K: "listTopics", Limit: 9}, Op{K: "listTasks", Topic: "a", Limit: 9}, Op{K: "listPromises", Topic: "a", Limit: 9},
		Op{K: "getPromise", ID: "3"}, Op{K: "getPromise", ID: "1"}, Op{K: "deletePromise", ID: "3"}, Op{K: "deletePromises", Topic: "a"}, chore,
	)
	return v
}

// fill resets the database to the given tasks.
func (s *site) fill(init []TS, base time.Time) error {
	s.clear()
	var bad error
	s.srv.With(func(c map[string]*mongod.Coll) {
		if c[collName] == nil {
			c[collName] = &mongod.Coll{Indexes: []*mongod.Index{{Name: "_id_", Key: mongod.D{{Key: "_id", Value: int32(1)}}}}}
		}
		for _, t := range init {
			b, err := bson.Marshal(t.Task(base))
			var d mongod.D
			if err == nil {
				err = bson.Unmarshal(b, &d)
			}
			if err != nil {
				bad = err
			}
			c[collName].Docs = append(c[collName].Docs, d)
		}
	})
	return bad
}

// shot is one operation performed with faults.
type shot struct {
	res    model.Result
	cmds   []string // shapes of the commands sent
	hit    []bool   // faults that came to pass, by command
	before *model.Model
	call   *model.Call
	obs    model.State
}

// fire performs the operation of a probe on its database; faults[i], if any,
// befalls the i-th command.
func (s *site) fire(g *mongodb.Engine, b probe, faults []*mongod.Fault) (o shot, err error) {
	base := time.Now()
	if err := s.fill(b.init, base); err != nil {
		return o, err
	}
	m := model.New(model.Cfg{TimeMs: true, NoExpire: true, LaxUpdated: true})
	for _, t := range b.init {
		m.S[t.ID] = t.Task(base)
		if t.Nonce != "" {
			m.Issued[t.Nonce] = true
		}
	}
	o.before = m
	o.call = m.Resolve(b.op, base, base)
	s.srv.Inject = func(c *mongod.Cmd) *mongod.Fault {
		if c.Name == "killCursors" {
			return nil
		}
		i := len(o.cmds)
		o.cmds = append(o.cmds, shape(c))
		if i < len(faults) && faults[i] != nil {
			o.hit = append(o.hit, true)
			return faults[i]
		}
		o.hit = append(o.hit, false)
		return nil
	}
	o.res = model.Exec(bg, g, o.call, true)
	o.call.After = time.Now()
	s.srv.Inject = nil
	o.obs, err = s.contents()
	return o, err
}

// shape describes a command without its values.
func shape(c *mongod.Cmd) string {
	var f func(v any) string
	f = func(v any) string {
		switch x := v.(type) {
		case mongod.D:
			var w []string
			for _, e := range x {
				w = append(w, e.Key+":"+f(e.Value))
			}
			return "{" + strings.Join(w, " ") + "}"
		case mongod.A:
			var w []string
			for _, e := range x {
				w = append(w, f(e))
			}
			return "[" + strings.Join(w, " ") + "]"
		}
		return fmt.Sprintf("%T", v)
	}
	var d mongod.D
	for _, e := range c.Doc {
		switch e.Key {
		case "lsid", "$db", "$clusterTime", "$readPreference", "getMore":
			continue
		}
		d = append(d, e)
	}
	return c.Name + f(d)
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// forms are the command sequences of every probe in its two forms.
type forms struct {
	pref, fall map[string][]string
}

func (s *site) forms(v []probe) (*forms, error) {
	f := &forms{map[string][]string{}, map[string][]string{}}
	for _, x := range []struct {
		st  setting
		dst map[string][]string
	}{{settings[1], f.pref}, {settings[4], f.fall}} {
		g, err := s.fresh(x.st)
		if err != nil {
			return nil, err
		}
		for _, b := range v {
			o, err := s.fire(g, b, nil)
			if err != nil {
				return nil, err
			}
			if k := model.Kind(o.res.Err); strings.HasPrefix(k, "other") {
				return nil, fmt.Errorf("%s: %s", b.name, k)
			}
			x.dst[b.name] = o.cmds
		}
		g.Close(bg)
	}
	return f, nil
}

// flags is what should become of every operation.
type flags map[string]int

func newFlags(st setting) flags {
	f := flags{}
	for _, k := range []string{"commit", "upsertTask", "upsertTasks", "insertPromise", "upsertPromise"} {
		f[k] = st.restFlag
	}
	f["poll"] = st.pollFlag
	return f
}

func triggers(f *mongod.Fault) bool {
	return f != nil && !f.Drop && !f.Concern && (f.Code == 61 || f.Code == 31025)
}

// expect checks one shot and moves the flags.
func (f flags) expect(b probe, o shot, faults []*mongod.Fault, fm *forms) string {
	// Which faults came to pass?
	first, n := -1, 0
	for i, h := range o.hit {
		if h {
			if first < 0 {
				first = i
			}
			n++
		}
	}
	flag, flex := 1, b.flex
	if flex {
		flag = f[b.kind()]
	}
	want := fm.pref[b.name]
	if flex && flag > 0 {
		want = fm.fall[b.name]
	}
	if first < 0 {
		if !same(o.cmds, want) {
			return fmt.Sprintf("%s sent %v, expected %v (flag %d)", b.name, o.cmds, want, flag)
		}
		m := o.before.Clone()
		if err := m.Apply(o.call, o.res, o.obs); err != nil {
			return err.Error()
		}
		return m.Compare(o.obs)
	}
	flt := faults[first]
	if first < len(want) && !same(o.cmds[:first+1], want[:first+1]) {
		return fmt.Sprintf("%s sent %v, expected to begin with %v (flag %d)", b.name, o.cmds, want, flag)
	}
	if flex && flag == 0 && triggers(flt) {
		if first > 0 {
			// After the command proper: an error is as good.
			if o.res.Err == nil {
				return fmt.Sprintf("%s succeeded although its command %d failed with %d", b.name, first, flt.Code)
			}
			if len(o.cmds) > first+1 {
				f[b.kind()] = 1
			} else {
				f[b.kind()] = flagUnknown
			}
			return ""
		}
		f[b.kind()] = 1
		rest, rf := o.cmds[1:], -1
		for i := 1; i < len(o.hit); i++ {
			if o.hit[i] && rf < 0 {
				rf = i
			}
		}
		wf := fm.fall[b.name]
		if rf < 0 {
			if !same(rest, wf) {
				return fmt.Sprintf("%s after error %d sent %v, expected the fallback %v", b.name, flt.Code, rest, wf)
			}
			m := o.before.Clone()
			if flt.Write {
				// Part of it was done before: only the contents count.
				if o.res.Err != nil {
					return fmt.Sprintf("after falling back: %v", o.res.Err)
				}
				for _, t := range o.call.Tasks {
					m.S[t.ID] = model.CopyTask(t)
				}
				return m.Compare(o.obs)
			}
			if err := m.Apply(o.call, o.res, o.obs); err != nil {
				return fmt.Sprintf("after falling back: %v", err)
			}
			return m.Compare(o.obs)
		}
		return failed(b, o, faults[rf], rf)
	}
	return failed(b, o, flt, first)
}

const flagUnknown = 99

// failed checks the result of an operation whose command number i had a fault
// that cannot be worked around.
func failed(b probe, o shot, flt *mongod.Fault, i int) string {
	err := o.res.Err
	dup := flt.Code == 11000 && !flt.Drop && !flt.Concern
	insert := strings.HasPrefix(o.cmds[i], "insert{")
	if dup && insert {
		switch {
		case b.kind() == "insertTask":
			if model.Kind(err) != "conflict" {
				return fmt.Sprintf("%s with a duplicate key: got %v, expected a conflict", b.name, err)
			}
			return ""
		case !flt.Write && model.Kind(err) == "":
			// A duplicate key error for the whole command.
			return ""
		case flt.Write:
			if err != nil {
				return fmt.Sprintf("%s with duplicate keys: got %v, expected success", b.name, err)
			}
			return ""
		}
	}
	if flt.Concern && b.kind() == "insertTask" && model.Kind(err) == "conflict" && o.before.S[b.op.Ts[0].ID] != nil {
		return ""
	}
	if err == nil {
		return fmt.Sprintf("%s succeeded although command %d (%s) failed with %+v", b.name, i, o.cmds[i], *flt)
	}
	if k := model.Kind(err); !strings.HasPrefix(k, "other") || strings.Contains(k, "PANIC") {
		return fmt.Sprintf("%s answered %q when command %d (%s) failed with %+v", b.name, k, i, o.cmds[i], *flt)
	}
	if len(o.cmds) > i+1 {
		return fmt.Sprintf("%s went on with %v after command %d failed with %+v", b.name, o.cmds[i+1:], i, *flt)
	}
	if !flt.Drop {
		var e mongo.ServerError
		if !errors.As(err, &e) || !e.HasErrorCode(int(flt.Code)) {
			return fmt.Sprintf("%s: the error %v does not carry the code %d of the server", b.name, err, flt.Code)
		}
	}
	if i == 0 && !flt.Write && !flt.Concern && !(flt.Drop && flt.After) {
		if s := o.before.Compare(o.obs); s != "" {
			return "a failed operation left its mark: " + s
		}
	}
	return ""
}

// faultKinds are the faults for a single command.
func faultKinds() []*mongod.Fault {
	v := []*mongod.Fault{
		{Code: 61, Name: "ShardKeyNotFound"}, {Code: 31025, Name: "Location31025"}, {Code: 11600, Name: "InterruptedAtShutdown"}, {Code: 13, Name: "Unauthorized"},
		{Code: 2, Name: "BadValue"}, {Code: 112, Name: "WriteConflict"}, {Code: 10107, Name: "NotWritablePrimary"}, {Code: 50, Name: "MaxTimeMSExpired"}, {Code: 11000, Name: "DuplicateKey"},
		{Code: 66, Name: "ImmutableField"}, {Code: 31026, Name: "Location31026"}, {Code: 60, Name: "near 61"}, {Code: 62, Name: "near 61"}, {Code: 1, Name: "InternalError"}, {Code: 26, Name: "NamespaceNotFound"},
		{Drop: true}, {Drop: true, After: true},
	}
	for _, c := range []int32{61, 31025, 121, 11000, 2} {
		for i := 0; i < 4; i++ {
			v = append(v, &mongod.Fault{Code: c, Name: "x", Write: true, Partial: true, Index: i})
		}
	}
	v = append(v, &mongod.Fault{Code: 64, Name: "WriteConcernFailed", Concern: true}, &mongod.Fault{Code: 100, Name: "UnsatisfiableWriteConcern", Concern: true})
	return v
}

// fits tells whether the fault makes sense for the command.
func fits(f *mongod.Fault, cmd string) bool {
	name, _, _ := strings.Cut(cmd, "{")
	if f == nil {
		return true
	}
	if !f.Write && !f.Concern {
		return true
	}
	n := strings.Count(cmd, "{")
	switch name {
	case "insert":
		return f.Concern || f.Index < n-1
	case "update", "delete":
		return f.Concern || f.Index < strings.Count(cmd, " q:")+strings.Count(cmd, "{q:")
	}
	return false
}

func c21case(c *core.Ctx, s *site, st setting, fm *forms, words []probe, scripts [][]*mongod.Fault, all []probe) {
	var trace []string
	det := func() any { return map[string]any{"settings": st.name, "trace": trace} }
	c.Guard(det, func() {
		g, err := s.fresh(st)
		if err != nil {
			c.Violation("open", "opening the engine: "+err.Error(), det())
			return
		}
		defer g.Close(bg)
		f := newFlags(st)
		key := st.name
		for i, b := range words {
			o, err := s.fire(g, b, scripts[i])
			trace = append(trace, fmt.Sprintf("%s faults %s: %s (commands %v)", b.name, describe(scripts[i]), o.res, o.cmds))
			c.Count("transitions", 1)
			if err != nil {
				c.Violation("fallback", err.Error(), det())
				return
			}
			if s := f.expect(b, o, scripts[i], fm); s != "" {
				c.Violation("fallback", s, det())
				return
			}
			key += b.name + describe(scripts[i])
		}
		// Every operation behaves as its flag says.
		for _, b := range all {
			if b.flex && f[b.kind()] == flagUnknown {
				continue
			}
			o, err := s.fire(g, b, nil)
			c.Count("transitions", 1)
			if err == nil {
				if m := f.expect(b, o, nil, fm); m != "" {
					err = errors.New(m)
				}
			}
			if err != nil {
				trace = append(trace, b.name)
				c.Violation("fallback", "later: "+err.Error(), det())
				return
			}
		}
		c.Distinct("states", key+fmt.Sprint(f))
		c.Count("histories", 1)
		c.Sample(func() string { return fmt.Sprintf("%s: %s", st.name, strings.Join(trace, "; ")) })
	})
}

func describe(v []*mongod.Fault) string {
	var w []string
	for _, f := range v {
		if f == nil {
			w = append(w, "-")
		} else {
			w = append(w, fmt.Sprintf("%+v", *f))
		}
	}
	return "[" + strings.Join(w, ", ") + "]"
}

// later is a smaller set of probes, one or two per operation.
func later(v []probe) []probe {
	seen := map[string]int{}
	var w []probe
	for _, b := range v {
		if seen[b.kind()] < 1 && b.flex {
			w = append(w, b)
		}
		seen[b.kind()]++
	}
	return w
}

// c21faults: every fault, and pairs of faults, at every command of every
// operation.
func c21faults(c *core.Ctx) {
	in(c.T, func(s *site) {
		s.srv.Batch = 2
		all := probes()
		fm, err := s.forms(all)
		if err != nil {
			c.Violation("open", err.Error(), nil)
			return
		}
		for _, b := range all {
			if b.flex && same(fm.pref[b.name], fm.fall[b.name]) {
				c.Note(fmt.Sprintf("%s sends the same commands in both forms", b.name))
			}
		}
		kinds := faultKinds()
		few := []*mongod.Fault{kinds[0], kinds[1], kinds[3], kinds[15]}
		rest := later(all)
		for _, st := range settings {
			for _, b := range all {
				flag := 0
				if b.flex {
					flag = newFlags(st)[b.kind()]
				}
				cmds := fm.pref[b.name]
				if flag > 0 {
					cmds = fm.fall[b.name]
				}
				for i := range cmds {
					for _, k := range kinds {
						if !fits(k, cmds[i]) {
							continue
						}
						script := make([]*mongod.Fault, i+1)
						script[i] = k
						if c.Take() {
							c21case(c, s, st, fm, []probe{b}, [][]*mongod.Fault{script}, rest)
						}
						if c.Stopped() {
							return
						}
					}
				}
				if !b.flex || flag != 0 {
					continue
				}
				// A refused command, then faults of the fallback's commands.
				for _, k := range few[:2] {
					for i := 0; i <= len(fm.fall[b.name]); i++ {
						for _, l := range kinds {
							if i < len(fm.fall[b.name]) && !fits(l, fm.fall[b.name][i]) {
								continue
							}
							script := make([]*mongod.Fault, i+2)
							script[0], script[i+1] = k, l
							if c.Take() {
								c21case(c, s, st, fm, []probe{b}, [][]*mongod.Fault{script}, rest)
							}
							if c.Stopped() {
								return
							}
						}
					}
				}
			}
		}
	})
}

// c21sequences: operations one after the other, each refused, failing or not.
func c21sequences(c *core.Ctx) {
	in(c.T, func(s *site) {
		s.srv.Batch = 2
		all := probes()
		fm, err := s.forms(all)
		if err != nil {
			c.Violation("open", err.Error(), nil)
			return
		}
		words := later(all)
		faults := [][]*mongod.Fault{nil, {{Code: 61, Name: "x"}}, {{Code: 31025, Name: "x"}}, {{Code: 11600, Name: "x"}}}
		depth := 2
		if c.Thorough() {
			depth = 3
			faults = append(faults, []*mongod.Fault{{Drop: true}})
		}
		n := len(words) * len(faults)
		total := 1
		for i := 0; i < depth; i++ {
			total *= n
		}
		for _, st := range settings {
			for x := 0; x < total; x++ {
				if c.Take() {
					var ws []probe
					var fs [][]*mongod.Fault
					for i, y := 0, x; i < depth; i, y = i+1, y/n {
						ws = append(ws, words[y%n/len(faults)])
						fs = append(fs, faults[y%n%len(faults)])
					}
					c21case(c, s, st, fm, ws, fs, words)
				}
				if c.Stopped() {
					return
				}
			}
		}
	})
}

func indexKey(x *mongod.Index) string {
	e := int64(-1)
	if x.Expire != nil {
		e = *x.Expire
	}
	return fmt.Sprintf("%s %v %v %d", x.Name, x.Key, x.Partial, e)
}

func (s *site) indexes() (v []string, byName map[string]*mongod.Index) {
	byName = map[string]*mongod.Index{}
	s.srv.With(func(c map[string]*mongod.Coll) {
		if x := c[collName]; x != nil {
			for _, i := range x.Indexes {
				v = append(v, indexKey(i))
				byName[i.Name] = i
			}
		}
	})
	sort.Strings(v)
	return
}

// c21open: every index situation before opening, every error while opening.
func c21open(c *core.Ctx) {
	in(c.T, func(s *site) {
		open := func(retention time.Duration, disabled bool) (*mongodb.Engine, error) {
			cfg := config("c9")
			cfg.RetentionPeriod, cfg.DisableIndexCreation = retention, disabled
			g, err := mongodb.New(cfg)
			if err != nil {
				return nil, err
			}
			return g, g.Open(bg)
		}
		// The indexes as made on an empty database are the reference; the
		// other checks establish that all queries work with them.
		retentions := []time.Duration{time.Hour, 72 * time.Hour, time.Second, 10 * 365 * 24 * time.Hour, 0}
		ref := map[time.Duration][]*mongod.Index{}
		for _, r := range retentions {
			s.srv.Reset()
			g, err := open(r, false)
			if err != nil {
				c.Violation("open", fmt.Sprintf("opening on an empty database with retention %v: %v", r, err), nil)
				return
			}
			g.Close(bg)
			_, by := s.indexes()
			ttl := 0
			for _, x := range by {
				ref[r] = append(ref[r], x)
				if x.Expire != nil {
					ttl++
					if *x.Expire != int64(r/time.Second) || len(x.Key) != 1 || x.Key[0].Key != "consumed" || len(x.Partial) != 1 || x.Partial[0].Key != "state" || fmt.Sprint(x.Partial[0].Value) != "2" {
						c.Violation("open", fmt.Sprintf("retention %v: expiring index %s", r, indexKey(x)), nil)
						return
					}
				}
			}
			if ttl != 1 {
				c.Violation("open", fmt.Sprintf("retention %v: %d expiring indexes", r, ttl), nil)
				return
			}
			sort.Slice(ref[r], func(i, j int) bool { return ref[r][i].Name < ref[r][j].Name })
		}
		names := []string{}
		for _, x := range ref[time.Hour] {
			if x.Name != "_id_" {
				names = append(names, x.Name)
			}
		}
		// Each index absent or there; the expiring one also with other periods;
		// an unrelated index there or not; documents there or not.
		foreign := &mongod.Index{Name: "producer_1", Key: mongod.D{{Key: "producer", Value: int32(1)}}}
		type fault struct {
			cmd  string
			nth  int
			f    *mongod.Fault
			want bool // an error is required
		}
		faults := []*fault{nil}
		for _, f := range faultKinds()[:17] {
			faults = append(faults, &fault{"createIndexes", 0, f, true}, &fault{"createIndexes", 1, f, true}, &fault{"collMod", 0, f, true})
		}
		for _, f := range []*mongod.Fault{{Code: 85, Name: "IndexOptionsConflict"}, {Code: 86, Name: "IndexKeySpecsConflict"}, {Code: 67, Name: "CannotCreateIndex"}, {Code: 68, Name: "IndexAlreadyExists"}} {
			faults = append(faults, &fault{"createIndexes", 0, f, true}, &fault{"createIndexes", 1, f, true})
		}
		for _, r := range retentions {
			for mask := 0; mask < 1<<len(names); mask++ {
				for _, old := range []time.Duration{r, time.Minute, 96 * time.Hour} {
					for variant := 0; variant < 4; variant++ {
						for fi, flt := range faults {
							if fi > 0 && (variant > 0 || r != time.Hour || mask%3 > 1 && !c.Thorough()) {
								continue
							}
							for order := 0; order < 2; order++ {
								if c.Take() {
									c.Guard(func() any {
										return map[string]any{"retention": r.String(), "existing": mask, "old": old.String(), "variant": variant, "fault": fmt.Sprintf("%+v", flt), "order": order}
									}, func() {
										var fl *mongod.Fault
										cmd, nth := "", 0
										if flt != nil {
											fl, cmd, nth = flt.f, flt.cmd, flt.nth
										}
										c21one(c, s, open, ref[r], r, names, mask, old, variant, foreign, fl, cmd, nth, order)
									})
								}
								if c.Stopped() {
									return
								}
							}
						}
					}
				}
			}
		}
	})
}

func c21one(c *core.Ctx, s *site, open func(time.Duration, bool) (*mongodb.Engine, error), ref []*mongod.Index, r time.Duration, names []string, mask int, old time.Duration, variant int, foreign *mongod.Index, flt *mongod.Fault, cmd string, nth, order int) {
	disabled := variant == 3
	s.srv.Reset()
	want := map[string]string{}
	s.srv.With(func(cs map[string]*mongod.Coll) {
		x := &mongod.Coll{}
		for _, i := range ref {
			have := i.Name == "_id_"
			for k, n := range names {
				have = have || n == i.Name && mask&(1<<k) != 0
			}
			if !disabled {
				want[i.Name] = indexKey(i)
			}
			if !have {
				continue
			}
			y := *i
			if y.Expire != nil {
				e := int64(old / time.Second)
				y.Expire = &e
			}
			x.Indexes = append(x.Indexes, &y)
			if disabled {
				want[i.Name] = indexKey(&y)
			}
		}
		if variant == 1 {
			x.Indexes = append(x.Indexes, foreign)
			want[foreign.Name] = indexKey(foreign)
		}
		if variant == 2 && mask == 0 {
			return // no collection at all
		}
		cs[collName] = x
	})
	// The order in which the two creations arrive.
	var mu sync.Mutex
	var held []waiting
	s.srv.Gate = func(c *mongod.Cmd) {
		w := waiting{c.Name + fmt.Sprint(strings.Contains(c.String(), "expireAfterSeconds")), c, make(chan struct{})}
		mu.Lock()
		held = append(held, w)
		mu.Unlock()
		<-w.ch
	}
	var log []string
	hit := false
	ttlHit := false
	seen := 0
	s.srv.Inject = func(x *mongod.Cmd) *mongod.Fault {
		log = append(log, x.Name)
		if x.Name == cmd && flt != nil {
			seen++
			if seen == nth+1 {
				hit = true
				ttlHit = x.Name == "createIndexes" && strings.Contains(x.String(), "expireAfterSeconds")
				return flt
			}
		}
		return nil
	}
	defer func() { s.srv.Gate, s.srv.Inject = nil, nil }()
	var g *mongodb.Engine
	var err error
	fin := false
	go func() {
		g, err = open(r, disabled)
		fin = true
	}()
	for step := 0; ; step++ {
		synctest.Wait()
		if fin {
			break
		}
		if len(held) == 0 {
			time.Sleep(time.Minute)
			synctest.Wait()
			if len(held) == 0 && !fin {
				c.Violation("open", "opening the engine does not end", nil)
				return
			}
			continue
		}
		// Sort what waits by name, take the first or the last.
		k := 0
		for i := range held {
			if (held[i].host < held[k].host) == (order == 0) && held[i].host != held[k].host {
				k = i
			}
		}
		w := held[k]
		held = append(held[:k:k], held[k+1:]...)
		close(w.ch)
	}
	s.srv.Gate = nil
	for _, w := range held {
		close(w.ch)
	}
	synctest.Wait()
	s.srv.Inject = nil
	if g != nil {
		defer g.Close(bg)
	}
	c.Count("histories", 1)
	c.Count("transitions", int64(len(log)))
	bad := func(f string, a ...any) {
		existing := []string{}
		for k, n := range names {
			if mask&(1<<k) != 0 {
				existing = append(existing, n)
			}
		}
		c.Violation("open", fmt.Sprintf(f, a...), map[string]any{"existing": existing, "retention": r.String(), "existing retention": old.String(), "variant": variant, "fault": fmt.Sprintf("%+v at %s %d", flt, cmd, nth), "order": order, "commands": log, "error": fmt.Sprint(err)})
	}
	if disabled {
		if len(log) > 0 {
			bad("commands are sent at opening although index creation is disabled: %v", log)
		}
		if err != nil {
			bad("opening failed: %v", err)
		}
	}
	if hit {
		conflict := ttlHit && flt.Name == "IndexOptionsConflict"
		if conflict && mask&(1<<indexOf(names, "consumed_1")) == 0 {
			// The change of an index that is not there fails.
			if err == nil {
				bad("opening succeeded without the expiring index")
			}
			return
		}
		if !conflict {
			if err == nil {
				bad("opening succeeded although %s failed with %+v", cmd, *flt)
			}
			return
		}
	}
	if err != nil {
		bad("opening failed: %v", err)
		return
	}
	got, by := s.indexes()
	for n, w := range want {
		if by[n] == nil {
			bad("index %s is missing; indexes: %v", n, got)
			return
		}
		if k := indexKey(by[n]); k != w {
			bad("index is %s, expected %s", k, w)
			return
		}
	}
	if len(by) != len(want) {
		bad("indexes are %v, expected %v", got, want)
		return
	}
	c.Distinct("states", strings.Join(got, ";"))
	if e := g.Ready(bg); e != nil {
		bad("not ready: %v", e)
		return
	}
	if order == 0 && variant == 0 && mask%5 == 0 {
		s.srv.Down(true)
		ctx, cancel := context.WithTimeout(bg, time.Minute)
		if e := g.Ready(ctx); !errors.Is(e, ratus.ErrServiceUnavailable) {
			bad("ready without a server: %v", e)
		}
		cancel()
		s.srv.Down(false)
		if e := g.Ready(bg); e != nil {
			bad("not ready after the server came back: %v", e)
		}
	}
}

func indexOf(v []string, x string) int {
	for i, y := range v {
		if x == y {
			return i
		}
	}
	return len(v)
}
