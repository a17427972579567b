package main_test

import (
	"fmt"
	"time"

	"github.com/hyperonym/ratus/internal/zverif/core"
)

func init() {
	parts["C12/many"] = c12many
	parts["C22/long"] = c22long
}

// c12many: many requests in progress when the signal arrives, at different
// stages, that go on in different orders.
func c12many(c *core.Ctx) {
	ns := []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129}
	if c.Thorough() {
		ns = append(ns, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025)
	}
	for _, eng := range []string{"memdb", "mongodb"} {
		for _, n := range ns {
			for _, gap := range []time.Duration{0, 100 * time.Millisecond, 2 * time.Minute} {
				for stage := 0; stage < 4; stage++ {
					for order := 0; order < 3; order++ {
						if c.Stopped() {
							return
						}
						if !c.Take() {
							continue
						}
						k := n + stage + order
						x := &stop{Engine: eng, Interval: []time.Duration{0, 17 * time.Second}[k%2], Signal: signals[k/2%2], Gap: gap, Other: others[k/4%4], Select: uint32(k%3 + 1)}
						rest := make([][]string, n)
						for i := 0; i < n; i++ {
							r := requests("t", fmt.Sprint("x", i))[0]
							x.reqs = append(x.reqs, r)
							st := r.steps(eng == "mongodb")
							st = append([]string{st[0]}, st[2:]...)
							done := 2 + stage
							if stage == 3 {
								done = 2 + i%3
							}
							for _, s := range st[:done] {
								x.events = append(x.events, event{i, s})
							}
							rest[i] = st[done:]
						}
						x.events = append(x.events, event{-1, ""})
						switch order {
						case 0, 1: // one after the other
							for i := 0; i < n; i++ {
								j := i
								if order == 1 {
									j = n - 1 - i
								}
								for _, s := range rest[j] {
									x.events = append(x.events, event{j, s})
								}
							}
						default: // all at once
							for s := 0; s < 6; s++ {
								for i := 0; i < n; i++ {
									if s < len(rest[i]) {
										x.events = append(x.events, event{i, rest[i][s]})
									}
								}
							}
						}
						x.perform(c)
					}
				}
			}
		}
	}
}

// c22long: jobs that go the same way, or in turns, for a long time.
func c22long(c *core.Ctx) {
	alpha := []outcome{{}, {fail: true}, {slow: 2}, {slow: 3, fail: true}, {slow: 6}, {slow: 10, fail: true}}
	turns := []int{12, 35, 130, 300, 1030}
	if c.Thorough() {
		turns = append(turns, 5001)
	}
	for _, eng := range []string{"mongodb", "memdb"} {
		for _, in := range []time.Duration{time.Second, time.Minute, 5 * time.Hour} {
			if eng == "mongodb" && in > time.Second {
				// Idle hours of the driver's monitoring take long to run.
				continue
			}
			for _, n := range turns {
				for _, a := range alpha {
					for _, b := range alpha {
						for mix := 0; mix < 2; mix++ {
							if c.Stopped() {
								return
							}
							if !c.Take() {
								continue
							}
							var w []outcome
							q := 0
							for i := 0; i < n; i++ {
								o := a
								if mix == 1 && i%2 == 1 || mix == 0 && i >= n-3 {
									o = b
								}
								w = append(w, o)
								q += max(4, o.slow)
							}
							k := int(c.Index())
							// The clock of the process starts at an odd time.
							x := &jobs{Engine: eng, Interval: in, Delay: in / 2, Serve: k%3 > 0, Word: w, Jobs: fmt.Sprintf("%d times %s and %s, mixed in way %d", n, a, b, mix), Signal: signals[k%2], Select: uint32(k%3 + 1),
								At: in/2 + in/4*time.Duration(q+9) + time.Millisecond/2}
							x.perform(c)
						}
					}
				}
			}
		}
	}
}
