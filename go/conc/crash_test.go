package conc

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"verif.local/shim/vos"

	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
)

// saving is one operation that writes a snapshot.
type saving struct {
	From int         // events before it
	To   int         // events after it
	S    model.State // contents it had to write
	OK   bool        // reported success
	What string
}

// crashRun is one history on an engine with a snapshot in a recorded file
// system, with injected faults.
type crashRun struct {
	c        *core.Ctx
	interval time.Duration
	ops      []string
	faults   []fault
	fs       *vos.FS
	g        *memdb.Engine
	m        *model.Model
	saves    []saving
	lastOK   model.State // contents of the last snapshot reported written
	have     bool        // a snapshot was ever reported written
	pending  bool        // the next background job has to write
	log      []string
	cache    map[string]decoded
	hits     []string // operations that failed
}

type fault struct {
	N       int  `json:"n"` // number of the file operation
	Partial bool `json:"partial"`
}

type decoded struct {
	s   model.State
	err error
}

var crashIDs = []string{"1", "2"}

func (r *crashRun) open() error {
	g, err := memdb.New(&memdb.Config{SnapshotPath: path, SnapshotInterval: r.interval, RetentionPeriod: time.Hour})
	if err != nil {
		return err
	}
	if err := g.Open(bg); err != nil {
		return err
	}
	r.g = g
	r.pending = true
	return nil
}

func (r *crashRun) decode(data []byte) decoded { return r.reopen(data, true, nil) }

// reopen opens the engine in a directory that has the snapshot, if it is
// present, and other files besides it.
func (r *crashRun) reopen(data []byte, present bool, rest map[string][]byte) decoded {
	key := fmt.Sprintf("%t %s", present, data)
	var names []string
	for n := range rest {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		key += fmt.Sprintf("\x00%s\x00%s", n, rest[n])
	}
	if d, ok := r.cache[key]; ok {
		return d
	}
	f := vos.New("/data")
	if present {
		f.Put(path, data)
	}
	for _, n := range names {
		f.Put(n, rest[n])
	}
	vos.Install(f)
	var d decoded
	func() {
		defer func() {
			if x := recover(); x != nil {
				d.err = fmt.Errorf("PANIC: %v", x)
			}
		}()
		g, err := memdb.New(&memdb.Config{SnapshotPath: path, SnapshotInterval: time.Hour, RetentionPeriod: time.Hour})
		if err == nil {
			err = g.Open(bg)
		}
		if err != nil {
			d.err = err
			return
		}
		d.s, d.err = model.Observe(bg, g, crashIDs)
		if d.err == nil {
			var ts model.State = model.State{}
			for _, t := range []string{"a", "b"} {
				v, err := g.ListTasks(bg, t, 99, 0)
				if err != nil {
					d.err = err
				}
				for _, x := range v {
					ts[x.ID] = x
				}
			}
			if len(ts) != len(d.s) {
				d.err = fmt.Errorf("contents are inconsistent: %s, %s", d.s, ts)
			}
		}
	}()
	vos.Install(r.fs)
	r.cache[key] = d
	return d
}

func same(a, b model.State) bool {
	m := model.New(model.Cfg{})
	m.S = b
	return m.Compare(a) == ""
}

// version counts writes so that all contents differ.
func (r *crashRun) write(op Op) string {
	now := time.Now()
	call := r.m.Resolve(op, now.Add(-time.Minute), now)
	if err := r.m.Apply(call, model.Exec(bg, r.g, call, true), nil); err != nil {
		return op.String() + ": " + err.Error()
	}
	return ""
}

// mustReport tells whether the failure of a file operation always makes the
// snapshot worthless, so that an error has to be reported.
func mustReport(name string) bool {
	for _, p := range []string{"create ", "write ", "fsync ", "rename "} {
		if strings.HasPrefix(name, p) && !strings.HasPrefix(name, "fsync /data/dir") {
			return true
		}
	}
	return false
}

func mustFailOpen(name string) bool {
	return name == "open "+path || name == "read "+path
}

func (r *crashRun) run() string {
	r.fs = vos.New("/data")
	vos.Install(r.fs)
	defer vos.Install(nil)
	r.m = model.New(model.Cfg{Retention: time.Hour})
	r.cache = map[string]decoded{}
	r.fs.Fault = func(n int, op, p string) (bool, bool) {
		for _, f := range r.faults {
			if f.N == n {
				r.hits = append(r.hits, op+" "+p)
				return true, f.Partial
			}
		}
		return false, false
	}
	if err := r.open(); err != nil {
		if len(r.hits) == 0 {
			return "opening without a snapshot: " + err.Error()
		}
		r.hits = nil
		if err := r.open(); err != nil {
			if len(r.hits) > 0 {
				return ""
			}
			return "opening without a snapshot, second try: " + err.Error()
		}
	}
	ver := 0
	for i, op := range append(append([]string{}, r.ops...), "S", "S") {
		r.hits = nil
		ver++
		if i >= len(r.ops) {
			// The history ends with two background jobs without faults.
			r.fs.Fault = nil
			if i > len(r.ops) && r.interval > 0 {
				break
			}
		}
		switch op {
		case "1", "2":
			t := pend(op, "a", -sec)
			t.Payload = fmt.Sprintf("version %d of task %s", ver, op)
			if s := r.write(upsert(t)); s != "" {
				return s
			}
		case "D":
			if s := r.write(Op{K: "deleteTask", ID: "1"}); s != "" {
				return s
			}
		case "B":
			if s := r.write(Op{K: "commit", ID: "2", State: st(0), NewTopic: "b"}); s != "" {
				return s
			}
		case "S":
			n := len(r.fs.Events())
			err := r.g.Chore(bg)
			if s := r.saved("background job", n, err, r.pending || r.interval == 0); s != "" {
				return s
			}
		case "C":
			n := len(r.fs.Events())
			err := r.g.Close(bg)
			if s := r.saved("close", n, err, true); s != "" {
				return s
			}
			// The process ends here, whatever close returned.
			for try := 0; ; try++ {
				r.hits = nil
				err := r.open()
				bad := ""
				for _, h := range r.hits {
					if mustFailOpen(h) {
						bad = h
					}
				}
				if err == nil && bad != "" && r.have {
					return "opening succeeded although " + bad + " failed"
				}
				if err != nil && len(r.hits) == 0 {
					return "opening after close: " + err.Error()
				}
				if err == nil {
					break
				}
				if try > 3 {
					return "opening never succeeds: " + err.Error()
				}
			}
			if r.have {
				r.m.S = r.lastOK.Clone()
			} else {
				r.m.S = model.State{}
			}
			obs, err := model.Observe(bg, r.g, crashIDs)
			if err != nil {
				return err.Error()
			}
			if s := r.m.Compare(obs); s != "" {
				return "after reopening: " + s
			}
		}
		if r.fs.Open != 0 {
			return fmt.Sprintf("%d files left open after %s", r.fs.Open, op)
		}
	}
	return ""
}

// saved checks an operation that should have written a snapshot.
func (r *crashRun) saved(what string, from int, err error, due bool) string {
	s := saving{From: from, To: len(r.fs.Events()), S: r.m.S.Clone(), OK: err == nil, What: what}
	must, any := false, false
	for _, h := range r.hits {
		any = true
		must = must || mustReport(h)
	}
	r.log = append(r.log, fmt.Sprintf("%s (failing: %v) -> %v", what, r.hits, err))
	if err != nil && !any {
		return what + " failed without a cause: " + err.Error()
	}
	if err == nil && must {
		return fmt.Sprintf("%s reported success although %v failed", what, r.hits)
	}
	if !due {
		if s.To != s.From {
			return what + " wrote a snapshot before it was due"
		}
		return ""
	}
	if s.To == s.From && !any {
		return what + " did not write the snapshot that was due"
	}
	data, ok := r.fs.Get(path)
	if err == nil {
		if !ok {
			return what + " reported success but there is no snapshot"
		}
		d := r.decode(data)
		if d.err != nil {
			return what + " reported success but the snapshot cannot be opened: " + d.err.Error()
		}
		if !same(d.s, s.S) {
			return fmt.Sprintf("%s reported success but the snapshot has %s, expected %s", what, d.s, s.S)
		}
		r.lastOK, r.have, r.pending = s.S, true, false
	} else {
		// The previous snapshot is intact, or the new one got complete
		// after all.
		d := decoded{}
		if ok {
			d = r.decode(data)
		}
		switch {
		case !ok && !r.have:
		case ok && d.err == nil && r.have && same(d.s, r.lastOK):
		case ok && d.err == nil && !must && same(d.s, s.S):
			r.lastOK, r.have = s.S, true
		default:
			return fmt.Sprintf("after %s failed (%v, failing: %v) the snapshot is not the previous one: present=%v err=%v contents=%s, expected %s", what, err, r.hits, ok, d.err, d.s, r.lastOK)
		}
		r.pending = true
	}
	if !any {
		for _, f := range r.fs.Files() {
			if f == path {
				continue
			}
			// Only the failed removal of an earlier one may leave it.
			left := false
			for _, q := range r.faults {
				if q.N < len(r.fs.Names) && strings.HasPrefix(r.fs.Names[q.N], "remove ") {
					left = true
				}
			}
			if !left {
				return "a temporary file was left behind after " + what + ": " + f
			}
		}
	}
	r.saves = append(r.saves, s)
	return ""
}

// disk is the state of a file system rebuilt from a log.
type disk struct {
	files map[string]int
	inos  map[int][]vos.Event // data events per inode, in order
	sync  map[int]int         // how many of them are synchronised
}

func isMeta(op string) bool {
	return op == "create" || op == "rename" || op == "remove" || op == "link"
}

// crash enumerates the states after a crash when the events up to n had been
// carried out.
func (r *crashRun) crash(ev []vos.Event, n int, power bool, f func(data []byte, present bool, rest map[string][]byte, metas int, how string) bool) bool {
	// Positions of directory changes and data events.
	var metas []int
	last := -1 // directory changes up to here are synchronised
	for i := 0; i < n; i++ {
		if isMeta(ev[i].Op) {
			metas = append(metas, i)
		}
		if ev[i].Op == "fsyncdir" {
			last = len(metas) - 1
		}
	}
	lo := len(metas)
	if power {
		lo = last + 1
	}
	for k := lo; k <= len(metas); k++ {
		files := map[string]int{}
		for _, i := range metas[:k] {
			e := ev[i]
			switch e.Op {
			case "create":
				files[e.Path] = e.Ino
			case "rename":
				delete(files, e.Path)
				files[e.Path2] = e.Ino
			case "link":
				files[e.Path2] = e.Ino
			case "remove":
				delete(files, e.Path)
			}
		}
		// What has been left in other files.
		rest := map[string][]byte{}
		for name, ino := range files {
			if name == path {
				continue
			}
			var w []vos.Event
			for i := 0; i < n; i++ {
				if e := ev[i]; e.Ino == ino && (e.Op == "write" || e.Op == "trunc") {
					w = append(w, e)
				}
			}
			rest[name] = build(w)
		}
		ino, ok := files[path]
		if !ok {
			if !f(nil, false, rest, k, "") {
				return false
			}
			continue
		}
		// Data of the inode: synchronised part and the rest.
		var sure, open []vos.Event
		for i := 0; i < n; i++ {
			e := ev[i]
			if e.Ino != ino {
				continue
			}
			switch e.Op {
			case "write", "trunc":
				open = append(open, e)
			case "fsync":
				sure = append(sure, open...)
				open = nil
			}
		}
		if !power {
			if !f(build(append(sure, open...)), true, rest, k, "all") {
				return false
			}
			continue
		}
		if len(open) > 12 {
			// Keep the enumeration finite: treat the first ones as written.
			r.c.NotExhaustive("more than 12 unsynchronised writes")
			sure = append(sure, open[:len(open)-12]...)
			open = open[len(open)-12:]
		}
		for set := 0; set < 1<<len(open); set++ {
			var evs []vos.Event
			var lastw = -1
			for i, e := range open {
				if set&(1<<i) != 0 {
					evs = append(evs, e)
					if e.Op == "write" {
						lastw = len(evs) - 1
					}
				}
			}
			all := append(append([]vos.Event{}, sure...), evs...)
			if !f(build(all), true, rest, k, fmt.Sprintf("kept %b of %d", set, len(open))) {
				return false
			}
			// The last one torn.
			if lastw >= 0 {
				j := len(sure) + lastw
				for _, cut := range []int{0, len(all[j].Data) / 2, len(all[j].Data) - 1} {
					if cut < 0 || cut >= len(all[j].Data) {
						continue
					}
					t := append([]vos.Event{}, all...)
					t[j].Data = t[j].Data[:cut]
					if !f(build(t), true, rest, k, fmt.Sprintf("kept %b of %d, torn at %d", set, len(open), cut)) {
						return false
					}
				}
			}
		}
	}
	return true
}

func build(evs []vos.Event) []byte {
	var d []byte
	for _, e := range evs {
		switch e.Op {
		case "trunc":
			if e.Size <= int64(len(d)) {
				d = d[:e.Size]
			} else {
				d = append(d, make([]byte, int(e.Size)-len(d))...)
			}
		case "write":
			if end := int(e.Off) + len(e.Data); end > len(d) {
				d = append(d, make([]byte, end-len(d))...)
			}
			copy(d[e.Off:], e.Data)
		}
	}
	return d
}

// crashes checks every crash point of the recorded history.
func (r *crashRun) crashes() string {
	ev := r.fs.Events()
	bad := ""
	// When the process is killed in the middle of a write, a part of it has
	// been written: two extra points per write.
	points := [][]vos.Event{}
	for n := 0; n <= len(ev); n++ {
		points = append(points, ev[:n])
		if n < len(ev) && ev[n].Op == "write" && len(ev[n].Data) > 1 {
			t := append(append([]vos.Event{}, ev[:n]...), ev[n])
			t[n].Data = t[n].Data[:len(t[n].Data)/2]
			points = append(points, t)
		}
	}
	for _, evs := range points {
		n := len(evs)
		// What was reported written, and what may be in progress.
		var okState model.State
		have := false
		var cands []model.State
		for _, s := range r.saves {
			if s.To <= n && s.OK && s.To > s.From {
				okState, have = s.S, true
				cands = nil
			}
			if s.From <= n && (s.To > n || !s.OK) {
				cands = append(cands, s.S)
			}
		}
		check := func(power bool) func([]byte, bool, map[string][]byte, int, string) bool {
			return func(data []byte, present bool, rest map[string][]byte, metas int, how string) bool {
				r.c.Count("transitions", 1)
				fail := func(s string) bool {
					kind := "a kill"
					if power {
						kind = "a power failure"
					}
					bad = fmt.Sprintf("%s after %d of %d file events (%s; %d directory changes on disk): %s; events: %s", kind, n, len(ev), how, metas, s, describe(evs))
					return false
				}
				if !present {
					if have && !power {
						return fail("the snapshot is gone")
					}
					if power && metas > 0 {
						// Gone although an earlier prefix had it?
						seen := 0
						for _, e := range evs {
							if isMeta(e.Op) {
								seen++
								if seen <= metas && (e.Path2 == path || e.Op == "create" && e.Path == path) {
									return fail("the snapshot is gone")
								}
							}
						}
					}
					// Nothing but complete contents may come from other files.
					d := r.reopen(nil, false, rest)
					if d.err != nil {
						return fail("opening without a snapshot: " + d.err.Error())
					}
					if len(d.s) == 0 {
						return true
					}
					for _, s := range r.saves {
						if s.From <= n && same(d.s, s.S) {
							return true
						}
					}
					return fail(fmt.Sprintf("there is no snapshot, but opening gives %s", d.s))
				}
				d := r.reopen(data, true, rest)
				if d.err != nil {
					return fail("the snapshot cannot be opened: " + d.err.Error())
				}
				r.c.Distinct("states", d.s.String()+fmt.Sprint(n, metas, power)+strings.Join(r.ops, ""))
				if have && same(d.s, okState) {
					return true
				}
				for _, s := range cands {
					if same(d.s, s) {
						return true
					}
				}
				if power {
					// Directory changes were dropped: an earlier complete one.
					for _, s := range r.saves {
						if s.From <= n && same(d.s, s.S) && metas < countMeta(evs) {
							return true
						}
					}
				}
				return fail(fmt.Sprintf("the snapshot has %s, expected %s or one of %v", d.s, okState, cands))
			}
		}
		if !r.crash(evs, n, false, check(false)) || !r.crash(evs, n, true, check(true)) {
			return bad
		}
	}
	return ""
}

func countMeta(ev []vos.Event) (n int) {
	for _, e := range ev {
		if isMeta(e.Op) {
			n++
		}
	}
	return
}

func describe(ev []vos.Event) string {
	var sb strings.Builder
	for _, e := range ev {
		fmt.Fprintf(&sb, "%s %s", e.Op, e.Path)
		if e.Path2 != "" {
			fmt.Fprintf(&sb, "->%s", e.Path2)
		}
		if e.Op == "write" {
			fmt.Fprintf(&sb, "[%d+%d]", e.Off, len(e.Data))
		}
		sb.WriteString("; ")
	}
	return sb.String()
}

type crashDetail struct {
	Ops      []string `json:"ops"`
	Interval string   `json:"interval"`
	Faults   []fault  `json:"faults"`
	Log      []string `json:"log"`
	Calls    []string `json:"calls"`
}

func (r *crashRun) exec(crashes bool) {
	det := func() any {
		d := crashDetail{Ops: r.ops, Interval: r.interval.String(), Faults: r.faults, Log: r.log}
		if r.fs != nil {
			d.Calls = r.fs.Names
		}
		return d
	}
	r.c.Guard(det, func() {
		s := r.run()
		if s == "" && crashes {
			vos.Install(r.fs)
			s = r.crashes()
			vos.Install(nil)
		}
		if s != "" {
			r.c.Violation("crash", s, det())
			return
		}
		r.c.Count("histories", 1)
		r.c.Sample(func() string {
			return fmt.Sprintf("ops=%v interval=%v faults=%v log=%v file operations=%v", r.ops, r.interval, r.faults, r.log, r.fs.Names)
		})
	})
}

func words(alpha []string, n int, f func([]string) bool) {
	idx := make([]int, n)
	for {
		w := make([]string, n)
		for i, k := range idx {
			w[i] = alpha[k]
		}
		if !f(w) {
			return
		}
		i := n - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(alpha) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func crashPart(c *core.Ctx) {
	alpha := []string{"1", "2", "D", "B", "S", "C"}
	intervals := []time.Duration{0, time.Hour}
	// Every crash point of every history.
	words(alpha, pick(c, 4, 6), func(w []string) bool {
		for _, iv := range intervals {
			if c.Take() {
				(&crashRun{c: c, interval: iv, ops: w}).exec(true)
			}
		}
		return !c.Stopped()
	})
	// Every single fault, and pairs of faults, with every crash point.
	words([]string{"1", "D", "S", "C"}, pick(c, 3, 4), func(w []string) bool {
		if !strings.ContainsAny(strings.Join(w, ""), "SC") {
			return true
		}
		for _, iv := range intervals {
			if !c.Take() {
				if c.Stopped() {
					return false
				}
				continue
			}
			ops := append([]string{"1", "2"}, w...)
			dry := &crashRun{c: c, interval: iv, ops: ops}
			dry.exec(false)
			if c.Stopped() {
				return false
			}
			n := dry.fs.Calls
			for i := 0; i < n && !c.Late(); i++ {
				for _, part := range []bool{false, true} {
					if part && !strings.HasPrefix(dry.fs.Names[i], "write ") {
						continue
					}
					one := &crashRun{c: c, interval: iv, ops: ops, faults: []fault{{i, part}}}
					one.exec(true)
					c.Tick()
					if part || c.Stopped() {
						continue
					}
					for j := i + 1; j < one.fs.Calls && !c.Stopped(); j++ {
						(&crashRun{c: c, interval: iv, ops: ops, faults: []fault{{i, false}, {j, false}}}).exec(c.Thorough() || j <= i+3)
						c.Tick()
					}
				}
			}
		}
		return !c.Stopped()
	})
	damaged(c)
}

// damaged opens snapshots cut at every byte, overwritten and unreadable.
func damaged(c *core.Ctx) {
	for _, ops := range [][]string{{"1", "S"}, {"1", "2", "S"}, {"1", "2", "B", "S"}} {
		if !c.Take() {
			if c.Stopped() {
				return
			}
			continue
		}
		r := &crashRun{c: c, interval: 0, ops: ops}
		r.exec(false)
		if c.Stopped() {
			return
		}
		vos.Install(r.fs)
		data, _ := r.fs.Get(path)
		full := r.decode(data)
		ends := boundaries(data)
		vos.Install(nil)
		bad := func(what string, at int, d decoded) {
			c.Violation("damaged", fmt.Sprintf("%s at byte %d of %d: opening gave %v, contents %s", what, at, len(data), d.err, d.s), map[string]any{"ops": ops, "data": data, "at": at})
		}
		subset := func(s model.State) bool {
			for id, t := range s {
				m := model.New(model.Cfg{})
				if full.s[id] == nil || m.EqTask(t, full.s[id]) != "" {
					return false
				}
			}
			return true
		}
		for n := 0; n < len(data); n++ {
			d := r.decode(data[:n])
			c.Count("transitions", 1)
			if d.err == nil && (!contains(ends, n) || !subset(d.s)) || d.err != nil && strings.Contains(d.err.Error(), "PANIC") {
				bad("snapshot cut", n, d)
				return
			}
			// The rest lost to zeros: must not crash.
			z := append(append([]byte{}, data[:n]...), make([]byte, len(data)-n)...)
			d = r.decode(z)
			c.Count("transitions", 1)
			if d.err != nil && strings.Contains(d.err.Error(), "PANIC") {
				bad("snapshot zeroed", n, d)
				return
			}
		}
		for _, junk := range []string{"x", "not a snapshot", strings.Repeat("\xff", 64), "{}"} {
			if d := r.decode([]byte(junk)); d.err == nil {
				bad("foreign data "+junk, 0, d)
				return
			}
			if d := r.decode(append(append([]byte{}, data...), junk...)); d.err == nil && !same(d.s, full.s) {
				bad("trailing data "+junk, len(data), d)
				return
			}
		}
		// Unreadable.
		for n := 0; ; n++ {
			f := vos.New("/data")
			f.Put(path, data)
			hit := ""
			f.Fault = func(k int, op, p string) (bool, bool) {
				if k == n {
					hit = op + " " + p
				}
				return k == n, false
			}
			vos.Install(f)
			g, err := memdb.New(&memdb.Config{SnapshotPath: path, SnapshotInterval: time.Hour, RetentionPeriod: time.Hour})
			if err == nil {
				err = g.Open(bg)
			}
			vos.Install(nil)
			c.Count("transitions", 1)
			if hit == "" {
				break
			}
			if err == nil && mustFailOpen(hit) {
				c.Violation("damaged", "opening succeeded although "+hit+" failed", map[string]any{"ops": ops, "fault": n})
				return
			}
		}
	}
}

func contains(v []int, n int) bool {
	i := sort.SearchInts(v, n)
	return i < len(v) && v[i] == n
}

// boundaries finds the ends of the length-prefixed messages of a gob stream;
// a cut exactly there cannot be told from a complete file.
func boundaries(b []byte) []int {
	v := []int{0}
	for i := 0; i < len(b); {
		n, w := int(b[i]), 1
		if n > 127 {
			k := 256 - n
			n = 0
			if i+1+k > len(b) {
				break
			}
			for _, x := range b[i+1 : i+1+k] {
				n = n<<8 | int(x)
			}
			w += k
		}
		i += w + n
		if i <= len(b) {
			v = append(v, i)
		}
	}
	return v
}
