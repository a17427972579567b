package main_test

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"runtime"

	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/mongod"

	"verif.local/shim/vos"
)

func init() {
	parts["C22/schedule"] = c22schedule
	parts["C22/settings"] = c22settings
}

// outcome is how a background job goes.
type outcome struct {
	fail bool
	slow int // quarters of the interval it takes
}

func (o outcome) String() string {
	s := "ok"
	if o.fail {
		s = "fails"
	}
	if o.slow > 0 {
		s += fmt.Sprintf(" after %d/4", o.slow)
	}
	return s
}

// jobs is a case: a configuration, how the jobs go, and when a signal arrives.
type jobs struct {
	Engine   string        `json:"engine"`
	Interval time.Duration `json:"interval"`
	Delay    time.Duration `json:"delay"`
	Random   bool          `json:"random"`
	Offset   time.Duration `json:"offset"` // start of the process
	Serve    bool          `json:"serve"`
	Word     []outcome     `json:"-"`
	Jobs     string        `json:"jobs"`
	Signal   os.Signal     `json:"signal"`
	At       time.Duration `json:"at"` // time of the signal, since the start
	Select   uint32        `json:"select"`
}

// run is one background job as observed.
type run struct{ from, to time.Time }

// slack is the tolerance for times.
const slack = time.Millisecond

type observed struct {
	runs  []run
	first time.Duration
}

// perform runs the case and judges it.
func (x *jobs) perform(c *core.Ctx) (o observed) {
	bubble(c, func() any { return x }, func(t *testing.T) {
		runtime.ZVSelect(x.Select)
		defer runtime.ZVSelect(0)
		time.Sleep(x.Offset)
		p := &process{fs: vos.New("/data")}
		var mu sync.Mutex
		var runs []run
		// begin is called by the engine's first action in a job.
		begin := func() (fail bool) {
			mu.Lock()
			i := len(runs)
			runs = append(runs, run{from: time.Now()})
			mu.Unlock()
			var w outcome
			if i < len(x.Word) {
				w = x.Word[i]
			}
			if w.slow > 0 {
				time.Sleep(x.Interval / 4 * time.Duration(w.slow))
			}
			mu.Lock()
			runs[i].to = time.Now()
			mu.Unlock()
			return w.fail
		}
		args := []string{"--bind", "127.0.0.1", "--port", "0", "--chore-interval", x.Interval.String(), "--chore-initial-delay", x.Delay.String()}
		if x.Serve {
			args[3] = "8080"
		}
		if x.Random {
			args = append(args, "--chore-initial-random")
		}
		if x.Engine == "mongodb" {
			p.srv = seedServer()
			args = append(args, mongoArgs...)
			p.srv.Inject = func(m *mongod.Cmd) *mongod.Fault {
				if m.Name == "update" && begin() {
					return &mongod.Fault{Code: 8, Name: "UnknownError"}
				}
				return nil
			}
		} else {
			args = append(args, "--engine", "memdb", "--memdb-snapshot-path", path, "--memdb-snapshot-interval", "1ns")
		}
		if p.srv != nil {
			// The driver may need time to connect; the program starts to work
			// when the engine has reached the database (indexes exist).
			p.srv.Observe = func(m *mongod.Cmd, _ mongod.D) {
				if m.Name != "update" {
					p.mu.Lock()
					p.born, p.opened = time.Now(), true
					p.mu.Unlock()
				}
			}
		}
		p.boot(args...)
		for i := 0; i < 10 && p.srv != nil && !p.isOpen(); i++ {
			time.Sleep(500 * time.Millisecond)
			synctest.Wait()
		}
		if x.Engine != "mongodb" {
			// The disk fails and is slow only in the jobs: the first operation
			// of a save creates a file.
			p.fs.Fault = func(n int, op, name string) (bool, bool) {
				if op != "create" || !inChore() {
					return false, false
				}
				return begin(), false
			}
		}
		start := p.start()
		bad := func(sig, f string, a ...any) {
			mu.Lock()
			defer mu.Unlock()
			s := ""
			for _, r := range runs {
				s += fmt.Sprintf(" [%v,%v]", r.from.Sub(start), r.to.Sub(start))
			}
			c.Violation(sig, fmt.Sprintf(f, a...)+fmt.Sprintf("\n%+v\njobs:%s", *x, s), x)
		}
		if x.At < 0 {
			time.Sleep(x.Delay + 6*x.Interval)
		} else {
			time.Sleep(x.At - time.Since(start))
		}
		synctest.Wait()
		alive := x.Serve || x.Interval > 0
		if p.dead() && alive {
			bad("died", "the process ended before any signal (%s)", p.how)
		}
		kill := time.Now()
		mu.Lock()
		before := len(runs)
		busy := before > 0 && runs[before-1].to.IsZero()
		mu.Unlock()
		x.judge(start, kill, append([]run(nil), runs...), bad)
		p.kill(x.Signal)
		synctest.Wait()
		// However long the job in progress takes, no other one is started.
		for i := 0; i < 200 && !p.dead(); i++ {
			time.Sleep(x.Interval/8 + time.Second)
			synctest.Wait()
		}
		mu.Lock()
		after := len(runs)
		var last run
		if after > 0 {
			last = runs[after-1]
		}
		due := after > before && !last.from.After(kill)
		mu.Unlock()
		switch {
		case !p.dead():
			bad("lingers", "the process had not ended long after the signal")
		case p.code != 0:
			bad("status", "the process %s with status %d", p.how, p.code)
		case after > before && !(after == before+1 && due):
			bad("late job", "%d jobs were started after the signal at %v", after-before, kill.Sub(start))
		case after > 0 && (last.to.IsZero() || last.to.After(p.at)):
			bad("abandoned", "the process ended at %v, before the job in progress was done", p.at.Sub(start))
		default:
			end := kill
			if after > 0 && last.to.After(end) {
				end = last.to
			}
			if d := p.at.Sub(end); d > 30*time.Second+x.Interval/4 {
				bad("lingers", "the process ended only %v after the signal and the last job", d)
			}
		}
		c.Count("transitions", int64(after)+2)
		c.Distinct("states", fmt.Sprint(x.Interval, x.Delay, x.Serve, len(runs), busy, p.at.Sub(start)))
		o.runs = runs
		if len(runs) > 0 {
			o.first = runs[0].from.Sub(start)
		}
		p.clean()
	})
	c.Count("histories", 1)
	return o
}

// judge checks the jobs started until a time.
func (x *jobs) judge(start, now time.Time, runs []run, bad func(sig, f string, a ...any)) {
	if x.Interval <= 0 {
		if len(runs) > 0 {
			bad("disabled", "a background job ran although the interval is %v", x.Interval)
		}
		return
	}
	lo, hi := start.Add(x.Delay), start.Add(x.Delay+slack)
	if x.Random {
		lo = start
	}
	if len(runs) == 0 {
		if now.After(hi) {
			bad("no job", "no job has been run %v after the start", now.Sub(start))
		}
		return
	}
	if f := runs[0].from; f.Before(lo) || f.After(hi) {
		bad("first job", "the first job ran %v after the start, expected between %v and %v", f.Sub(start), lo.Sub(start), hi.Sub(start))
	}
	steady := true
	for i, r := range runs {
		if i == 0 {
			continue
		}
		q := runs[i-1]
		// As long as every job takes less than an interval they start exactly an
		// interval apart; how the schedule goes on after one that takes longer is
		// open.
		steady = steady && q.to.Sub(q.from) < x.Interval
		at := runs[0].from.Add(x.Interval * time.Duration(i))
		switch {
		case steady && r.from.After(at.Add(slack)):
			bad("drift", "job %d started %v after the first one", i, r.from.Sub(runs[0].from))
		case q.to.IsZero() || r.from.Before(q.to):
			bad("overlap", "job %d started before the previous one was done", i)
		case r.from.Before(runs[0].from.Add(x.Interval*time.Duration(i) - slack)):
			bad("too often", "job %d started %v after the first one", i, r.from.Sub(runs[0].from))
		case r.from.After(q.to.Add(x.Interval + slack)):
			bad("too late", "job %d started %v after the end of the previous one", i, r.from.Sub(q.to))
		}
	}
	if n := len(runs); steady && !runs[n-1].to.IsZero() && runs[n-1].to.Sub(runs[n-1].from) < x.Interval && now.After(runs[0].from.Add(x.Interval*time.Duration(n)+slack)) {
		bad("drift", "after %d jobs there was no further one by %v after the first one", n, now.Sub(runs[0].from))
	}
	if q := runs[len(runs)-1]; !q.to.IsZero() && now.After(q.to.Add(x.Interval+slack)) {
		bad("no further job", "no job was started for %v after %d of them", now.Sub(q.to), len(runs))
	}
}

func wordString(w []outcome) string {
	var v []string
	for _, o := range w {
		v = append(v, o.String())
	}
	return strings.Join(v, ", ")
}

var signals = []os.Signal{os.Interrupt, syscall.SIGTERM}

func words(alpha []outcome, n int, f func(w []outcome)) {
	w := make([]outcome, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(w)
			return
		}
		for _, o := range alpha {
			w[i] = o
			rec(i + 1)
		}
	}
	rec(0)
}

// c22schedule: every word of jobs, and a signal at every moment.
func c22schedule(c *core.Ctx) {
	alpha := []outcome{{}, {fail: true}, {slow: 2}, {slow: 4}, {slow: 6}, {slow: 10, fail: true}}
	n := 3
	if c.Thorough() {
		n = 4
	}
	const I = time.Minute
	for _, eng := range []string{"mongodb", "memdb"} {
		words(alpha, n, func(w []outcome) {
			// Quarters of the interval until all jobs of the word are done.
			q := 4
			for _, o := range w {
				q += max(4, o.slow)
			}
			for at := -1; at <= q; at++ {
				for _, eps := range []time.Duration{-time.Microsecond, time.Microsecond} {
					for sel := uint32(1); sel <= 3; sel++ {
						if c.Stopped() {
							return
						}
						if !c.Take() {
							continue
						}
						x := &jobs{Engine: eng, Interval: I, Delay: I / 2, Serve: at%2 == 0, Word: w, Jobs: wordString(w), Signal: signals[(at+2)%2], Select: sel,
							At: I/2 + I/4*time.Duration(at) + eps}
						x.perform(c)
					}
				}
			}
		})
	}
}

// c22settings: every combination of settings.
func c22settings(c *core.Ctx) {
	for _, eng := range []string{"memdb", "mongodb"} {
		for _, in := range []time.Duration{0, time.Millisecond, time.Second, 10 * time.Second, time.Hour} {
			for _, delay := range []time.Duration{0, time.Millisecond, 700 * time.Millisecond, 10 * time.Second, 3 * time.Hour} {
				for _, sv := range []bool{true, false} {
					for _, sg := range signals {
						for _, w := range [][]outcome{nil, {{fail: true}, {fail: true}, {fail: true}, {fail: true}, {fail: true}, {fail: true}}} {
							for _, at := range []time.Duration{-1, 0, delay / 2, delay, delay + in/2, delay + in, delay + in*3/2} {
								for sel := uint32(1); sel <= 3; sel++ {
									if c.Stopped() {
										return
									}
									if !c.Take() {
										continue
									}
									x := &jobs{Engine: eng, Interval: in, Delay: delay, Serve: sv, Word: w, Jobs: wordString(w), Signal: sg, At: at, Select: sel}
									x.perform(c)
								}
							}
						}
					}
				}
			}
		}
	}
	// Randomised delays differ between starts.
	for _, delay := range []time.Duration{time.Second, time.Hour} {
		for _, in := range []time.Duration{time.Second, time.Minute} {
			if c.Stopped() {
				return
			}
			if !c.Take() {
				continue
			}
			first := map[time.Duration]bool{}
			for k := 0; k < 40 && !c.Stopped(); k++ {
				x := &jobs{Engine: "memdb", Interval: in, Delay: delay, Random: true, Offset: time.Duration(k*k) * 1000003, Signal: signals[k%2], At: -1, Select: uint32(k%3 + 1)}
				first[x.perform(c).first] = true
			}
			if len(first) < 3 && !c.Stopped() {
				c.Violation("not random", fmt.Sprintf("the first job of 40 processes with a randomised delay of up to %v ran after %v", delay, first), nil)
			}
		}
	}
}
