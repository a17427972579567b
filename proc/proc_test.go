// The whole process under a virtual clock: main runs in a bubble with an
// in-memory network, file system and database; signals, connections, bytes,
// time and the end of the process are events of the test.
package main_test

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"os/signal"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gin-gonic/gin"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/x/mongo/driver/topology"

	"github.com/hyperonym/ratus"
	ratusmain "github.com/hyperonym/ratus/cmd/ratus"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/mongod"

	"verif.local/shim/vos"
)

var bg = context.Background()

var parts = map[string]func(*core.Ctx){}

func TestCheck(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
	log.SetOutput(io.Discard)
	for _, k := range []string{"ENGINE", "PORT", "BIND"} {
		os.Unsetenv(k)
	}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		if strings.HasPrefix(k, "MEMDB_") || strings.HasPrefix(k, "MONGODB_") || strings.HasPrefix(k, "CHORE_") || strings.HasPrefix(k, "PAGINATION_") {
			os.Unsetenv(k)
		}
	}
	// The goroutine that receives real signals is started outside all bubbles.
	signal.Notify(make(chan os.Signal, 1), syscall.SIGUSR1)
	signal.ZVReset()
	prepare(t)
	c := core.New(t)
	f := parts[c.Prop+"/"+c.Part]
	if f == nil {
		t.Fatalf("no part %s of %s", c.Part, c.Prop)
	}
	f(c)
	c.Finish()
}

// listener is the only listening socket of a process.
type listener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
	// broken, once closed, makes the listener fail.
	broken chan struct{}
}

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "127.0.0.1:8080" }

type pipeConn struct{ net.Conn }

func (pipeConn) RemoteAddr() net.Addr { return addr{} }
func (pipeConn) LocalAddr() net.Addr  { return addr{} }

func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.broken:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: errors.New("bad file descriptor")}
	case <-l.done:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
}
func (l *listener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *listener) Addr() net.Addr { return addr{} }

// dialer connects the driver to the database of the current process.
type dialer struct{}

func (dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	p := cur
	if p == nil || p.srv == nil {
		return nil, errors.New("no server")
	}
	p.mu.Lock()
	known := false
	for _, a := range p.dialed {
		known = known || a == address
	}
	if !known {
		p.dialed = append(p.dialed, address)
	}
	p.mu.Unlock()
	return p.srv.DialContext(ctx, network, address)
}

func init() { topology.DefaultDialer = dialer{} }

// process is one run of the program.
type process struct {
	fs  *vos.FS        // its disk
	srv *mongod.Server // its database, if it uses MongoDB

	mu        sync.Mutex
	l         *listener
	listenErr error
	listens   int
	address   string     // where it listens
	dialed    []string   // where it connected to
	conns     []net.Conn // server sides
	ended     bool
	how       string
	code      int
	born, at  time.Time // start and end
	opened    bool      // the database was used
	started   atomic.Bool
}

var cur *process

const path = "/data/snapshot"

// boot starts the program.
func (p *process) boot(args ...string) {
	cur = p
	p.born = time.Now()
	vos.Install(p.fs)
	signal.ZVReset()
	net.ZVListen = func(network, address string) (net.Listener, error) {
		p.mu.Lock()
		defer p.mu.Unlock()
		p.listens++
		p.address = address
		if p.listenErr != nil {
			return nil, &net.OpError{Op: "listen", Net: network, Addr: addr{}, Err: p.listenErr}
		}
		if _, port, err := net.SplitHostPort(address); err != nil {
			return nil, &net.OpError{Op: "listen", Net: network, Err: err}
		} else if n, err := strconv.Atoi(port); err != nil || n < 0 || n > 65535 {
			return nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "invalid port", Addr: port}}
		}
		l := &listener{ch: make(chan net.Conn, 16), done: make(chan struct{}), broken: make(chan struct{})}
		p.l = l
		return l, nil
	}
	os.ZVExit = func(code int) {
		p.end("called os.Exit", code)
		runtime.Goexit()
	}
	os.Args = append([]string{"ratus"}, args...)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				p.end(fmt.Sprintf("panicked: %v", r), 2)
			}
		}()
		ratusmain.ZVMain()
		p.end("returned from main", 0)
	}()
	synctest.Wait()
}

// end is the end of the process: nothing it does later has any effect.
func (p *process) end(how string, code int) {
	p.mu.Lock()
	if p.ended {
		p.mu.Unlock()
		return
	}
	p.ended, p.how, p.code, p.at = true, how, code, time.Now()
	dead := vos.New()
	dead.Hook = func(string, string) { runtime.Goexit() }
	vos.Install(dead)
	if p.l != nil {
		p.l.Close()
	}
	conns := p.conns
	p.mu.Unlock()
	for _, c := range conns {
		c.Close()
	}
}

func (p *process) dead() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.ended
}

func (p *process) isOpen() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.opened
}

func (p *process) listener() *listener {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.l
}

func (p *process) start() time.Time {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.born
}

// kill delivers a signal.
func (p *process) kill(s os.Signal) {
	if p.dead() {
		return
	}
	if !signal.ZVDeliver(s) {
		p.end("was killed by the signal", 128)
	}
}

// dial opens a connection, as a client.
func (p *process) dial() (net.Conn, error) {
	p.mu.Lock()
	l := p.l
	p.mu.Unlock()
	refused := errors.New("connection refused")
	if l == nil {
		return nil, refused
	}
	select {
	case <-l.done:
		return nil, refused
	default:
	}
	a, b := net.Pipe()
	select {
	case l.ch <- pipeConn{b}:
	default:
		return nil, errors.New("backlog is full")
	}
	p.mu.Lock()
	p.conns = append(p.conns, b)
	p.mu.Unlock()
	return a, nil
}

// clean ends what a process may have left behind in the bubble.
func (p *process) clean() {
	p.end("was stopped by the test", 0)
	signal.ZVDeliver(os.Interrupt)
	synctest.Wait()
	if p.srv != nil {
		p.srv.With(func(map[string]*mongod.Coll) {})
		p.srv.Stop()
	}
	synctest.Wait()
	signal.ZVReset()
	net.ZVListen, os.ZVExit, cur = nil, nil, nil
	vos.Install(nil)
}

// client is one connection.
type client struct {
	c    net.Conn
	out  chan []byte
	want chan int
	mu   sync.Mutex
	in   []byte
	eof  bool
	werr error
}

func newClient(c net.Conn) *client {
	k := &client{c: c, out: make(chan []byte, 64), want: make(chan int, 64)}
	go func() {
		for b := range k.out {
			if _, err := c.Write(b); err != nil {
				k.mu.Lock()
				k.werr = err
				k.mu.Unlock()
			}
		}
	}()
	go func() {
		b := make([]byte, 1<<16)
		for n := range k.want {
			for {
				m := len(b)
				if n > 0 {
					m = n
				}
				r, err := c.Read(b[:m])
				k.mu.Lock()
				k.in = append(k.in, b[:r]...)
				if err != nil {
					k.eof = true
				}
				k.mu.Unlock()
				if err != nil || n > 0 {
					break
				}
			}
		}
	}()
	return k
}

func (k *client) send(s string) { k.out <- []byte(s); synctest.Wait() }

// read reads up to n bytes once (n > 0), or everything from now on.
func (k *client) read(n int) { k.want <- n; synctest.Wait() }

func (k *client) close() {
	k.c.Close()
	close(k.out)
	close(k.want)
}

// answer parses the first answer received so far.
func (k *client) answer() (status int, body []byte, whole bool, any bool) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if len(k.in) == 0 {
		return 0, nil, false, false
	}
	r, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(k.in)), nil)
	if err != nil {
		return 0, nil, false, true
	}
	b, err := io.ReadAll(r.Body)
	if err != nil || (r.ContentLength < 0 && len(r.TransferEncoding) == 0 && !k.eof) {
		return r.StatusCode, b, false, true
	}
	return r.StatusCode, b, true, true
}

// The data every process starts with.

func ptr[T any](v T) *T { return &v }

var epoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

func seedTasks() []*ratus.Task {
	var v []*ratus.Task
	add := func(id, topic string, f func(t *ratus.Task)) {
		t := &ratus.Task{ID: id, Topic: topic, Producer: "prod", Produced: ptr(epoch.Add(-2 * time.Hour)), Scheduled: ptr(epoch.Add(-time.Hour)), Payload: "payload of " + id}
		if f != nil {
			f(t)
		}
		v = append(v, t)
	}
	add("p1", "t", nil)
	add("p2", "u", nil)
	active := func(t *ratus.Task) {
		t.State, t.Nonce, t.Consumer, t.Consumed, t.Deadline = ratus.TaskStateActive, "0123456789abcdef", "c0", ptr(epoch.Add(-time.Minute)), ptr(epoch.Add(48*time.Hour))
	}
	add("a1", "t", active)
	add("a2", "u", active)
	add("d1", "t", nil)
	add("d2", "u", nil)
	for i := 0; i < 12; i++ {
		add(fmt.Sprintf("big%02d", i), "big", func(t *ratus.Task) { t.Payload = strings.Repeat("x", 700) })
	}
	return v
}

var seedSnapshot = sync.OnceValue(func() []byte { return snapshotOf(seedTasks()) })

// snapshotOf is the snapshot of some tasks.
func snapshotOf(v []*ratus.Task) []byte {
	f := vos.New("/data")
	vos.Install(f)
	defer vos.Install(nil)
	g, err := memdb.New(&memdb.Config{SnapshotPath: path, SnapshotInterval: time.Hour, RetentionPeriod: 72 * time.Hour})
	if err != nil {
		panic(err)
	}
	if err := g.Open(bg); err != nil {
		panic(err)
	}
	if _, err := g.InsertTasks(bg, v); err != nil {
		panic(err)
	}
	if err := g.Close(bg); err != nil {
		panic(err)
	}
	b, ok := f.Get(path)
	if !ok {
		panic("no snapshot was written")
	}
	return b
}

// seedDisk is a disk with the snapshot of the initial data.
func seedDisk() *vos.FS {
	b := seedSnapshot()
	f := vos.New("/data")
	f.Put(path, b)
	return f
}

var seedDocs = sync.OnceValue(func() []mongod.D {
	var v []mongod.D
	for _, t := range seedTasks() {
		b, err := bson.Marshal(t)
		if err != nil {
			panic(err)
		}
		var d mongod.D
		if err := bson.Unmarshal(b, &d); err != nil {
			panic(err)
		}
		v = append(v, d)
	}
	return v
})

var mongoArgs = []string{"--engine", "mongodb", "--mongodb-uri", "mongodb://db:27017/?retryWrites=false&retryReads=false", "--mongodb-disable-index-creation"}

// seedIndexes are the indexes the engine creates, for databases where they
// exist already.
var seedIndexes []*mongod.Index

func prepare(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		p := &process{srv: mongod.New()}
		cur = p
		g, err := mongodb.New(&mongodb.Config{URI: mongoArgs[3], Database: "ratus", Collection: "tasks", RetentionPeriod: 72 * time.Hour})
		if err == nil {
			err = g.Open(bg)
		}
		if err != nil {
			t.Fatal(err)
		}
		p.srv.With(func(c map[string]*mongod.Coll) { seedIndexes = c["ratus.tasks"].Indexes })
		g.Close(bg)
		p.srv.Stop()
		cur = nil
	})
}

func seedServer() *mongod.Server {
	s := mongod.New()
	s.With(func(c map[string]*mongod.Coll) {
		c["ratus.tasks"] = &mongod.Coll{Docs: append([]mongod.D(nil), seedDocs()...), Indexes: seedIndexes}
	})
	return s
}

// brief is what is compared of a task.
func brief(t *ratus.Task) string {
	return fmt.Sprintf("%s/%s/%d/%s/%s/%v", t.Topic, t.ID, t.State, t.Producer, t.Consumer, t.Payload)
}

// stored reads what a process has left behind: by starting the in-memory
// engine from its disk, or from the database.
func (p *process) stored() (map[string]string, error) {
	v := map[string]string{}
	if p.srv != nil {
		var err error
		p.srv.With(func(c map[string]*mongod.Coll) {
			for _, d := range c["ratus.tasks"].Docs {
				b, e := bson.Marshal(d)
				var t ratus.Task
				if e == nil {
					e = bson.Unmarshal(b, &t)
				}
				if e != nil {
					err = e
				}
				v[t.ID] = brief(&t)
			}
		})
		return v, err
	}
	vos.Install(p.fs)
	defer vos.Install(nil)
	g, err := memdb.New(&memdb.Config{SnapshotPath: path, SnapshotInterval: time.Hour, RetentionPeriod: 72 * time.Hour})
	if err != nil {
		return nil, err
	}
	if err := g.Open(bg); err != nil {
		return nil, err
	}
	for _, topic := range []string{"t", "u", "big"} {
		ts, err := g.ListTasks(bg, topic, 100000, 0)
		if err != nil {
			return nil, err
		}
		for _, t := range ts {
			v[t.ID] = brief(t)
		}
	}
	return v, nil
}

var bubbles int

// bubble runs one case. What a process leaves behind blocked when it has ended
// is of no interest.
func bubble(c *core.Ctx, detail func() any, f func(t *testing.T)) {
	c.Guard(detail, func() {
		defer func() {
			r := recover()
			// Half of what bubbles leave behind survives each collection, so
			// rare collections would let it grow without limit.
			if bubbles++; bubbles%4 == 0 {
				runtime.GC()
			}
			if r != nil && !strings.Contains(fmt.Sprint(r), "blocked goroutines remain") {
				panic(r)
			}
		}()
		synctest.Test(c.T, f)
	})
}

// inChore tells whether the caller acts on behalf of a background job.
func inChore() bool {
	b := make([]byte, 1<<14)
	return strings.Contains(string(b[:runtime.Stack(b, false)]), ").Chore(")
}
