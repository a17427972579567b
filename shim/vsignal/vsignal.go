// Package vsignal stands in for package os/signal in instrumented code: the
// harness delivers the signals.
package vsignal

import (
	"context"
	"os"
	"sync"
	"syscall"
)

type reg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var (
	mu   sync.Mutex
	regs []reg
)

// Clear forgets all registrations.
func Clear() {
	mu.Lock()
	regs = nil
	mu.Unlock()
}

// Deliver sends a signal to everyone who asked for it, as the runtime would;
// it returns how many were registered. With none the process would have died.
func Deliver(s os.Signal) int {
	mu.Lock()
	defer mu.Unlock()
	n := 0
	for _, r := range regs {
		for _, x := range r.sigs {
			if x == s {
				n++
				select {
				case r.c <- s:
				default:
				}
				break
			}
		}
	}
	return n
}

var every = []os.Signal{os.Interrupt, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGQUIT}

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	if len(sigs) == 0 {
		sigs = every
	}
	mu.Lock()
	defer mu.Unlock()
	regs = append(regs, reg{c, append([]os.Signal(nil), sigs...)})
}

func Stop(c chan<- os.Signal) {
	mu.Lock()
	defer mu.Unlock()
	var v []reg
	for _, r := range regs {
		if r.c != c {
			v = append(v, r)
		}
	}
	regs = v
}

func Reset(...os.Signal)  {}
func Ignore(...os.Signal) {}

func Ignored(os.Signal) bool { return false }

func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sigs...)
	go func() {
		select {
		case <-ch:
			cancel()
		case <-ctx.Done():
		}
	}()
	return ctx, func() { Stop(ch); cancel() }
}
