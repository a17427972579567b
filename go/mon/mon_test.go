// Package mon drives the real MongoDB engine, through the real driver, against
// an in-process model of a MongoDB server (package mongod), under a virtual
// clock.
package mon

import (
	"context"
	"errors"
	"fmt"
	"net"
	"reflect"
	"testing"
	"testing/synctest"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/bsontype"
	"go.mongodb.org/mongo-driver/x/mongo/driver/topology"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
	"github.com/hyperonym/ratus/internal/zverif/core"
	"github.com/hyperonym/ratus/internal/zverif/model"
	"github.com/hyperonym/ratus/internal/zverif/mongod"
)

var bg = context.Background()

type (
	Op  = model.Op
	TS  = model.TS
	Off = model.Off
)

const (
	ms   = model.Ms
	sec  = model.Sec
	hour = model.Hour
)

func p(o Off) *Off      { return &o }
func st(n int32) *int32 { return &n }

// current is the server all engines connect to.
var current *mongod.Server

type dialer struct{}

func (dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	if current == nil {
		return nil, errors.New("no server")
	}
	return current.DialContext(ctx, network, address)
}

func init() { topology.DefaultDialer = dialer{} }

// mode is a way an engine may be configured and deployed.
type mode struct {
	name     string
	fallback int32
	noAtomic bool
	shard    []string
}

var modes = []mode{
	{name: "preferred"},
	{name: "fallback", fallback: 1},
	{name: "sharded by topic", shard: []string{"topic"}},
	{name: "sharded by ID", shard: []string{"_id"}},
	{name: "sharded by both", shard: []string{"topic", "_id"}},
	{name: "non-atomic poll", noAtomic: true},
}

// plain returns whether the mode shares its code paths with one of the first
// two.
func (m mode) plain() bool { return m.shard != nil || m.noAtomic }

// site is a server and the engines connected to it.
type site struct {
	srv     *mongod.Server
	engines map[string]*mongodb.Engine
}

const collName = "ratus.tasks"

// in runs f in a bubble with a fresh server.
func in(t *testing.T, f func(s *site)) {
	synctest.Test(t, func(*testing.T) {
		s := &site{srv: mongod.New(), engines: map[string]*mongodb.Engine{}}
		current = s.srv
		defer func() {
			s.srv.Gate, s.srv.Inject = nil, nil
			for _, g := range s.engines {
				g.Close(bg)
			}
			s.srv.Stop()
			current = nil
		}()
		f(s)
	})
}

func config(host string) *mongodb.Config {
	return &mongodb.Config{URI: "mongodb://" + host + ":27017/?retryWrites=false&retryReads=false", Database: "ratus", Collection: "tasks", RetentionPeriod: time.Hour}
}

func (s *site) engine(host string, md mode) (*mongodb.Engine, error) {
	k := host + "/" + md.name
	if g := s.engines[k]; g != nil {
		reset(g, md)
		return g, nil
	}
	c := config(host)
	c.DisableAtomicPoll = md.noAtomic
	g, err := mongodb.New(c)
	if err != nil {
		return nil, err
	}
	if err := g.Open(bg); err != nil {
		g.Close(bg)
		return nil, err
	}
	s.engines[k] = g
	reset(g, md)
	return g, nil
}

// reset brings the engine back to how it was when it was opened.
func reset(g *mongodb.Engine, md mode) {
	if md.noAtomic {
		return
	}
	g.Fallback(md.fallback)
}

// clear removes all tasks and keeps the indexes.
func (s *site) clear() {
	s.srv.With(func(c map[string]*mongod.Coll) {
		for _, x := range c {
			x.Docs = nil
		}
	})
}

var registry = bson.NewRegistryBuilder().RegisterTypeMapEntry(bsontype.EmbeddedDocument, reflect.TypeOf(bson.M{})).Build()

// contents decodes the tasks stored in the server.
func (s *site) contents() (model.State, error) {
	v := model.State{}
	var err error
	s.srv.With(func(c map[string]*mongod.Coll) {
		for name, x := range c {
			if name != collName {
				err = fmt.Errorf("unexpected collection %s", name)
				return
			}
			for _, d := range x.Docs {
				b, e := bson.Marshal(d)
				if e != nil {
					err = e
					return
				}
				var t ratus.Task
				if e := bson.UnmarshalWithRegistry(registry, b, &t); e != nil {
					err = e
					return
				}
				v[t.ID] = &t
			}
		}
	})
	return v, err
}

func align() time.Time {
	now := time.Now()
	if d := now.Truncate(time.Second).Add(time.Second).Sub(now); d > 0 {
		time.Sleep(d)
	}
	return time.Now()
}

func pend(id, topic string, sched Off) TS {
	return TS{ID: id, Topic: topic, Sched: p(sched), Prod: p(-hour), Producer: "prod", Payload: "p" + id}
}

func insert(id, topic string, sched Off) Op {
	return Op{K: "insertTask", Ts: []TS{pend(id, topic, sched)}}
}

func upsert(t TS) Op { return Op{K: "upsertTask", Ts: []TS{t}} }

func active(id, topic string, dead *Off) TS {
	t := pend(id, topic, -sec)
	t.State, t.Nonce, t.Consumer, t.Cons, t.Dead = 1, "0123456789abcde"+id[:1], "c0", p(-sec), dead
	return t
}

var parts = map[string]func(*core.Ctx){}

func TestCheck(t *testing.T) {
	c := core.New(t)
	f := parts[c.Prop+"/"+c.Part]
	if f == nil {
		t.Fatalf("no part %s of %s", c.Part, c.Prop)
	}
	f(c)
	c.Finish()
}
