package main_test

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/mongod"

	"verif.local/shim/vos"
)

func init() {
	parts["C26/chores"] = c26chores
}

const choreName = "ratus_chore_duration_seconds"

// choreMetrics reads the histogram of background jobs.
func (p *process) choreMetrics() (map[string]float64, error) {
	st, b, err := p.talk("GET", "/metrics", "")
	if err != nil || st != 200 {
		return nil, fmt.Errorf("GET /metrics: %d %v", st, err)
	}
	v := map[string]float64{}
	for _, l := range bytes.Split(b, []byte("\n")) {
		line := string(l)
		i := strings.LastIndexByte(line, ' ')
		if strings.HasPrefix(line, choreName) && i > 0 {
			if v[line[:i]], err = strconv.ParseFloat(line[i+1:], 64); err != nil {
				return nil, err
			}
		}
	}
	return v, nil
}

// bucketsOf tells what is wrong with the growth of a histogram whose names
// start with the prefix, after observations of the given durations.
func bucketsOf(name string, before, after map[string]float64, took []time.Duration) string {
	sum := 0.0
	for _, d := range took {
		sum += d.Seconds()
	}
	grew := func(k string) float64 { return after[name+k] - before[name+k] }
	if g := grew("_count"); g != float64(len(took)) {
		return fmt.Sprintf("%s_count grew by %v, expected %d", name, g, len(took))
	}
	if g := grew("_sum"); math.Abs(g-sum) > 1e-6 {
		return fmt.Sprintf("%s_sum grew by %v, expected %v", name, g, sum)
	}
	for k := range after {
		le, ok := strings.CutPrefix(k, name+"_bucket{le=\"")
		if !ok {
			continue
		}
		x, err := strconv.ParseFloat(strings.TrimSuffix(le, "\"}"), 64)
		if err != nil {
			return k
		}
		n := 0
		for _, d := range took {
			if d.Seconds() <= x {
				n++
			}
		}
		if g := after[k] - before[k]; g != float64(n) {
			return fmt.Sprintf("%s grew by %v, expected %d", k, g, n)
		}
	}
	return ""
}

// c26chores: every word of durations and outcomes of background jobs.
func c26chores(c *core.Ctx) {
	type job struct {
		Takes time.Duration
		Fails bool
	}
	var letters []job
	for _, d := range []time.Duration{0, 10 * time.Millisecond, 300 * time.Millisecond, 4 * time.Second, 12 * time.Second, 65 * time.Second} {
		letters = append(letters, job{d, false}, job{d, true})
	}
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	for _, eng := range []string{"memdb", "mongodb"} {
		var rec func(word []job)
		rec = func(word []job) {
			if c.Stopped() {
				return
			}
			if len(word) < depth {
				for _, l := range letters {
					rec(append(word[:len(word):len(word)], l))
				}
				return
			}
			if !c.Take() {
				return
			}
			detail := map[string]any{"engine": eng, "jobs": word}
			bubble(c, func() any { return detail }, func(t *testing.T) {
				runtime.ZVSelect(1)
				defer runtime.ZVSelect(0)
				p := &process{fs: vos.New("/data")}
				var mu sync.Mutex
				n, ended, idle := 0, 0, false
				begin := func() bool {
					mu.Lock()
					i := n
					n++
					mu.Unlock()
					w := job{}
					if i < len(word) {
						w = word[i]
					}
					time.Sleep(w.Takes)
					mu.Lock()
					ended++
					mu.Unlock()
					return w.Fails
				}
				args := []string{"--bind", "127.0.0.1", "--port", "8080", "--chore-initial-delay", "5s"}
				if eng == "mongodb" {
					p.srv = seedServer()
					args = append(args, mongoArgs...)
					p.srv.Inject = func(m *mongod.Cmd) *mongod.Fault {
						if m.Name == "update" && begin() {
							return &mongod.Fault{Code: 8, Name: "UnknownError"}
						}
						return nil
					}
				} else {
					args = append(args, "--memdb-snapshot-path", path, "--memdb-snapshot-interval", "1ns")
				}
				p.boot(args...)
				defer p.clean()
				time.Sleep(4 * time.Second)
				synctest.Wait()
				if eng == "memdb" {
					p.fs.Fault = func(_ int, op, name string) (bool, bool) {
						return op == "create" && inChore() && begin(), false
					}
				}
				bad := func(f string, a ...any) {
					c.Violation("chores", fmt.Sprintf(f, a...)+fmt.Sprintf("; %s, jobs %v", eng, word), detail)
				}
				before, err := p.choreMetrics()
				mu.Lock()
				early := n
				mu.Unlock()
				if err != nil || early > 0 {
					bad("before the first job: %v, %d jobs", err, early)
					return
				}
				// Wait until the jobs have run and none is in progress.
				for i := 0; i < 10000 && !idle; i++ {
					time.Sleep(700 * time.Millisecond)
					synctest.Wait()
					mu.Lock()
					idle = n >= len(word) && n == ended
					mu.Unlock()
				}
				after, err := p.choreMetrics()
				if err != nil || !idle {
					bad("after %d jobs: %v", n, err)
					return
				}
				took := make([]time.Duration, n)
				for i := range word {
					took[i] = word[i].Takes
				}
				if s := bucketsOf(choreName, before, after, took); s != "" {
					bad("%s", s)
				}
				c.Count("transitions", int64(n))
				c.Count("histories", 1)
				c.Distinct("states", fmt.Sprint(eng, word))
				c.Sample(func() string { return fmt.Sprint(eng, word) })
			})
		}
		rec(nil)
	}
}
