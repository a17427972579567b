package model

import (
	"context"
	"fmt"

	"github.com/hyperonym/ratus"
)

// Engine is the operation surface shared by the engines and by the client.
type Engine interface {
	Chore(ctx context.Context) error
	Poll(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error)
	Commit(ctx context.Context, id string, m *ratus.Commit) (*ratus.Task, error)
	ListTopics(ctx context.Context, limit, offset int) ([]*ratus.Topic, error)
	DeleteTopics(ctx context.Context) (*ratus.Deleted, error)
	GetTopic(ctx context.Context, topic string) (*ratus.Topic, error)
	DeleteTopic(ctx context.Context, topic string) (*ratus.Deleted, error)
	ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error)
	InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error)
	UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error)
	DeleteTasks(ctx context.Context, topic string) (*ratus.Deleted, error)
	GetTask(ctx context.Context, id string) (*ratus.Task, error)
	InsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error)
	UpsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error)
	DeleteTask(ctx context.Context, id string) (*ratus.Deleted, error)
	ListPromises(ctx context.Context, topic string, limit, offset int) ([]*ratus.Promise, error)
	DeletePromises(ctx context.Context, topic string) (*ratus.Deleted, error)
	GetPromise(ctx context.Context, id string) (*ratus.Promise, error)
	InsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error)
	UpsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error)
	DeletePromise(ctx context.Context, id string) (*ratus.Deleted, error)
}

func scribble(t *ratus.Task) {
	t.ID, t.Topic, t.State, t.Nonce, t.Producer, t.Consumer = "scribbled", "scribbled", 77, "scribbled", "scribbled", "scribbled"
	t.Produced, t.Scheduled, t.Consumed, t.Deadline, t.Payload = nil, nil, nil, nil, "scribbled"
}

// Exec performs a call on an engine. With isolate, everything passed in or
// handed out is overwritten afterwards (results are copied first), as a caller
// is free to do.
func Exec(ctx context.Context, g Engine, c *Call, isolate bool) (r Result) {
	defer func() {
		if x := recover(); x != nil {
			r = Result{Err: fmt.Errorf("PANIC: %v", x)}
		}
	}()
	op := c.Op
	var in []*ratus.Task
	cp := func() []*ratus.Task {
		in = make([]*ratus.Task, len(c.Tasks))
		for i, t := range c.Tasks {
			in[i] = CopyTask(t)
		}
		return in
	}
	prom := func() *ratus.Promise { p := *c.Promise; return &p }
	switch op.K {
	case "insertTask":
		r.Updated, r.Err = g.InsertTask(ctx, cp()[0])
	case "upsertTask":
		r.Updated, r.Err = g.UpsertTask(ctx, cp()[0])
	case "insertTasks":
		r.Updated, r.Err = g.InsertTasks(ctx, cp())
	case "upsertTasks":
		r.Updated, r.Err = g.UpsertTasks(ctx, cp())
	case "deleteTask":
		r.Deleted, r.Err = g.DeleteTask(ctx, op.ID)
	case "deleteTasks":
		r.Deleted, r.Err = g.DeleteTasks(ctx, op.Topic)
	case "deleteTopic":
		r.Deleted, r.Err = g.DeleteTopic(ctx, op.Topic)
	case "deleteTopics":
		r.Deleted, r.Err = g.DeleteTopics(ctx)
	case "getTask":
		r.Task, r.Err = g.GetTask(ctx, op.ID)
	case "getPromise":
		r.Promise, r.Err = g.GetPromise(ctx, op.ID)
	case "getTopic":
		r.Topic, r.Err = g.GetTopic(ctx, op.Topic)
	case "listTasks":
		r.Tasks, r.Err = g.ListTasks(ctx, op.Topic, op.Limit, op.Offset)
	case "listPromises":
		r.Promises, r.Err = g.ListPromises(ctx, op.Topic, op.Limit, op.Offset)
	case "listTopics":
		r.Topics, r.Err = g.ListTopics(ctx, op.Limit, op.Offset)
	case "deletePromise":
		r.Deleted, r.Err = g.DeletePromise(ctx, op.ID)
	case "deletePromises":
		r.Deleted, r.Err = g.DeletePromises(ctx, op.Topic)
	case "insertPromise":
		r.Task, r.Err = g.InsertPromise(ctx, prom())
	case "upsertPromise":
		r.Task, r.Err = g.UpsertPromise(ctx, prom())
	case "poll":
		r.Task, r.Err = g.Poll(ctx, op.Topic, prom())
	case "commit":
		m := *c.Commit
		r.Task, r.Err = g.Commit(ctx, op.ID, &m)
	case "chore":
		r.Err = g.Chore(ctx)
	default:
		r.Err = fmt.Errorf("cannot execute %q", op.K)
	}
	if r.Err == nil && isolate {
		if r.Task != nil {
			t := CopyTask(r.Task)
			scribble(r.Task)
			r.Task = t
		}
		for i, t := range r.Tasks {
			if t != nil {
				u := CopyTask(t)
				scribble(t)
				r.Tasks[i] = u
			}
		}
		for i, p := range r.Promises {
			if p != nil {
				q := *p
				p.ID, p.Consumer, p.Deadline = "scribbled", "scribbled", nil
				r.Promises[i] = &q
			}
		}
	}
	if isolate {
		for _, t := range in {
			scribble(t)
		}
	}
	return r
}

// Observe reads the complete contents through the API: every task of the
// given IDs.
func Observe(ctx context.Context, g Engine, ids []string) (State, error) {
	s := State{}
	for _, id := range ids {
		t, err := g.GetTask(ctx, id)
		if err != nil {
			if Kind(err) == "notfound" {
				continue
			}
			return nil, fmt.Errorf("reading task %s: %w", id, err)
		}
		if t == nil {
			return nil, fmt.Errorf("reading task %s: no task and no error", id)
		}
		s[id] = CopyTask(t)
	}
	return s, nil
}
