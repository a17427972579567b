// Package mongod is a small in-process model of a MongoDB server: it speaks
// the wire protocol to the real driver and executes each command atomically on
// in-memory collections. It is written from MongoDB's documentation and knows
// nothing about Ratus.
package mongod

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

type (
	D = bson.D
	A = bson.A
)

// Fault is what happens to a command instead of its execution.
type Fault struct {
	Code  int32 // command error (or write error, for commands that write)
	Name  string
	Label string
	Drop  bool // the connection is lost before the command is executed
	After bool // with Drop: after it was executed
	Write bool // report the error as write errors of a successful command
	// With Write: all but the statement with this number are executed.
	Partial bool
	Index   int
	Concern bool // execute the command but report a write concern error
}

// Cmd is a command received.
type Cmd struct {
	Host string // the host name the client used
	Name string
	Coll string
	Doc  D
}

func (c *Cmd) String() string {
	var d D
	for _, e := range c.Doc {
		switch e.Key {
		case "lsid", "$db", "$clusterTime", "txnNumber", "$readPreference":
			continue
		}
		d = append(d, e)
	}
	b, err := bson.MarshalExtJSON(d, false, false)
	if err != nil {
		return fmt.Sprint(d)
	}
	return string(b)
}

// Index of a collection.
type Index struct {
	Name    string
	Key     D
	Partial D
	Expire  *int64
	Raw     D
}

// Coll is a collection.
type Coll struct {
	Docs    []D
	Indexes []*Index
}

// Server is one deployment.
type Server struct {
	mu    sync.Mutex
	Colls map[string]*Coll
	// Gate, if set, is called before every command other than handshakes and
	// returns once the command may be executed.
	Gate func(c *Cmd)
	// Inject, if set, decides about faults; it is called after Gate.
	Inject func(c *Cmd) *Fault
	// Observe, if set, sees every command that was executed and its reply.
	Observe func(c *Cmd, reply D)
	// Shard is the shard key of all collections, if sharded.
	Shard []string
	// Batch is the number of documents in a batch of a cursor, if positive.
	Batch int

	cursors map[int64]A
	lastCur int64

	connMu sync.Mutex
	conns  map[net.Conn]bool
	down   bool
	wg     sync.WaitGroup
}

// New makes an empty server.
func New() *Server { return &Server{Colls: map[string]*Coll{}, conns: map[net.Conn]bool{}} }

// Reset empties the server.
func (s *Server) Reset() {
	s.mu.Lock()
	s.Colls = map[string]*Coll{}
	s.mu.Unlock()
}

// With gives access to the contents.
func (s *Server) With(f func(colls map[string]*Coll)) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f(s.Colls)
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type pipeConn struct {
	net.Conn
	a addr
}

func (c pipeConn) RemoteAddr() net.Addr { return c.a }
func (c pipeConn) LocalAddr() net.Addr  { return addr("client:1") }

// DialContext connects to the server.
func (s *Server) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	a, b := net.Pipe()
	s.connMu.Lock()
	defer s.connMu.Unlock()
	if s.down {
		return nil, errors.New("connection refused")
	}
	s.conns[b] = true
	s.wg.Add(1)
	host, _, _ := strings.Cut(address, ":")
	go func() {
		defer s.wg.Done()
		s.serve(b, host)
		b.Close()
		s.connMu.Lock()
		delete(s.conns, b)
		s.connMu.Unlock()
	}()
	return pipeConn{a, addr(address)}, nil
}

// Down refuses connections (and drops the existing ones) or accepts them again.
func (s *Server) Down(down bool) {
	s.connMu.Lock()
	s.down = down
	if down {
		for c := range s.conns {
			c.Close()
		}
	}
	s.connMu.Unlock()
}

// Stop drops all connections and waits.
func (s *Server) Stop() {
	s.Down(true)
	s.wg.Wait()
}

func (s *Server) serve(c net.Conn, host string) {
	for {
		var h [16]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			return
		}
		n := int(binary.LittleEndian.Uint32(h[:]))
		id := binary.LittleEndian.Uint32(h[4:])
		op := binary.LittleEndian.Uint32(h[12:])
		if n < 16 || n > 50<<20 {
			return
		}
		b := make([]byte, n-16)
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		var doc D
		var err error
		switch op {
		case 2004:
			i := 4
			for b[i] != 0 {
				i++
			}
			err = bson.Unmarshal(b[i+9:], &doc)
		case 2013:
			doc, err = parseMsg(b)
		default:
			return
		}
		if err != nil || len(doc) == 0 {
			return
		}
		reply, drop := s.command(host, doc)
		if drop {
			return
		}
		out, err := bson.Marshal(reply)
		if err != nil {
			panic(err)
		}
		var m []byte
		switch op {
		case 2004:
			m = make([]byte, 36, 36+len(out))
			binary.LittleEndian.PutUint32(m[12:], 1)
			binary.LittleEndian.PutUint32(m[32:], 1)
		case 2013:
			m = make([]byte, 21, 21+len(out))
			binary.LittleEndian.PutUint32(m[12:], 2013)
		}
		m = append(m, out...)
		binary.LittleEndian.PutUint32(m, uint32(len(m)))
		binary.LittleEndian.PutUint32(m[8:], id)
		if _, err := c.Write(m); err != nil {
			return
		}
	}
}

func parseMsg(b []byte) (D, error) {
	if len(b) < 5 {
		return nil, io.ErrUnexpectedEOF
	}
	flags := binary.LittleEndian.Uint32(b)
	b = b[4:]
	if flags&1 != 0 {
		b = b[:len(b)-4]
	}
	var doc D
	var seqs D
	for len(b) > 0 {
		kind := b[0]
		b = b[1:]
		n := int(binary.LittleEndian.Uint32(b))
		sec := b[:n]
		b = b[n:]
		switch kind {
		case 0:
			if err := bson.Unmarshal(sec, &doc); err != nil {
				return nil, err
			}
		case 1:
			sec = sec[4:]
			i := 0
			for sec[i] != 0 {
				i++
			}
			name := string(sec[:i])
			sec = sec[i+1:]
			var a A
			for len(sec) > 0 {
				k := int(binary.LittleEndian.Uint32(sec))
				var d D
				if err := bson.Unmarshal(sec[:k], &d); err != nil {
					return nil, err
				}
				a = append(a, d)
				sec = sec[k:]
			}
			seqs = append(seqs, bson.E{Key: name, Value: a})
		default:
			return nil, errors.New("unknown section")
		}
	}
	return append(doc, seqs...), nil
}

func get(d D, k string) (any, bool) {
	for _, e := range d {
		if e.Key == k {
			return e.Value, true
		}
	}
	return nil, false
}

func str(d D, k string) string { v, _ := get(d, k); s, _ := v.(string); return s }

func doc(d D, k string) D { v, _ := get(d, k); x, _ := v.(D); return x }

func arr(d D, k string) A { v, _ := get(d, k); x, _ := v.(A); return x }

func truthy(d D, k string) bool {
	v, ok := get(d, k)
	if !ok {
		return false
	}
	switch x := v.(type) {
	case bool:
		return x
	case nil:
		return false
	}
	f, ok := number(v)
	return !ok || f != 0
}

func number(v any) (float64, bool) {
	switch x := v.(type) {
	case int32:
		return float64(x), true
	case int64:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func num(d D, k string) int64 {
	v, _ := get(d, k)
	f, _ := number(v)
	return int64(f)
}

type cmdErr struct {
	code int32
	name string
	msg  string
}

func (e *cmdErr) Error() string { return e.msg }

func fail(code int32, name, f string, a ...any) error {
	return &cmdErr{code, name, fmt.Sprintf(f, a...)}
}

func errReply(e *cmdErr, label string) D {
	d := D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: e.msg}, {Key: "code", Value: e.code}, {Key: "codeName", Value: e.name}}
	if label != "" {
		d = append(d, bson.E{Key: "errorLabels", Value: A{label}})
	}
	return d
}

func (s *Server) command(host string, d D) (reply D, drop bool) {
	name := d[0].Key
	switch strings.ToLower(name) {
	case "hello", "ismaster":
		return D{{Key: "ismaster", Value: true}, {Key: "isWritablePrimary", Value: true}, {Key: "helloOk", Value: true}, {Key: "maxBsonObjectSize", Value: int32(16777216)},
			{Key: "maxMessageSizeBytes", Value: int32(48000000)}, {Key: "maxWriteBatchSize", Value: int32(100000)},
			{Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(21)}, {Key: "readOnly", Value: false}, {Key: "ok", Value: 1.0}}, false
	case "endsessions":
		return D{{Key: "ok", Value: 1.0}}, false
	}
	c := &Cmd{Host: host, Name: name, Doc: d}
	if x, ok := d[0].Value.(string); ok {
		c.Coll = str(d, "$db") + "." + x
	}
	if s.Gate != nil {
		s.Gate(c)
	}
	var f *Fault
	if s.Inject != nil {
		f = s.Inject(c)
	}
	writes := name == "insert" || name == "update" || name == "delete"
	if f != nil && !(f.Drop && f.After) && !(f.Concern && writes) {
		if f.Drop {
			return nil, true
		}
		if f.Write && f.Partial && writes {
			s.mu.Lock()
			reply = s.partial(c, f)
			s.mu.Unlock()
		} else if f.Write && (name == "insert" || name == "update" || name == "delete") {
			reply = D{{Key: "ok", Value: 1.0}, {Key: "n", Value: int32(0)}, {Key: "writeErrors", Value: A{D{{Key: "index", Value: int32(0)}, {Key: "code", Value: f.Code}, {Key: "errmsg", Value: f.Name}}}}}
		} else {
			reply = errReply(&cmdErr{f.Code, f.Name, "injected " + f.Name}, f.Label)
		}
	} else {
		s.mu.Lock()
		var err error
		reply, err = s.exec(c)
		s.mu.Unlock()
		if err != nil {
			var e *cmdErr
			if !errors.As(err, &e) {
				e = &cmdErr{8, "UnknownError", err.Error()}
			}
			reply = errReply(e, "")
		} else if f != nil && f.Concern {
			reply = append(reply, bson.E{Key: "writeConcernError", Value: D{{Key: "code", Value: f.Code}, {Key: "errmsg", Value: f.Name}}})
		}
	}
	if s.Observe != nil {
		s.Observe(c, reply)
	}
	return reply, f != nil && f.Drop
}

// partial executes a write command without one of its statements, which
// fails.
func (s *Server) partial(c *Cmd, f *Fault) D {
	x := *c
	x.Doc = append(D(nil), c.Doc...)
	for i, e := range x.Doc {
		if v, ok := e.Value.(A); ok && f.Index < len(v) {
			x.Doc[i].Value = append(append(A(nil), v[:f.Index]...), v[f.Index+1:]...)
		}
	}
	r, err := s.exec(&x)
	if err != nil {
		return errReply(&cmdErr{8, "UnknownError", err.Error()}, "")
	}
	shift := func(v any) A {
		var w A
		a, _ := v.(A)
		for _, y := range a {
			d := append(D(nil), y.(D)...)
			for i := range d {
				if k, ok := d[i].Value.(int32); ok && d[i].Key == "index" && int(k) >= f.Index {
					d[i].Value = k + 1
				}
			}
			w = append(w, d)
		}
		return w
	}
	errs := A{D{{Key: "index", Value: int32(f.Index)}, {Key: "code", Value: f.Code}, {Key: "errmsg", Value: f.Name}}}
	var out D
	for _, e := range r {
		switch e.Key {
		case "writeErrors":
			errs = append(errs, shift(e.Value)...)
		case "upserted":
			out = append(out, bson.E{Key: e.Key, Value: shift(e.Value)})
		default:
			out = append(out, e)
		}
	}
	return append(out, bson.E{Key: "writeErrors", Value: errs})
}

func (s *Server) coll(name string, create bool) *Coll {
	c := s.Colls[name]
	if c == nil {
		c = &Coll{Indexes: []*Index{{Name: "_id_", Key: D{{Key: "_id", Value: int32(1)}}}}}
		if create {
			s.Colls[name] = c
		}
	}
	return c
}

func (s *Server) exec(c *Cmd) (D, error) {
	d := c.Doc
	switch c.Name {
	case "ping":
		return D{{Key: "ok", Value: 1.0}}, nil
	case "buildInfo", "buildinfo":
		return D{{Key: "version", Value: "7.0.0"}, {Key: "ok", Value: 1.0}}, nil
	case "find":
		return s.find(c)
	case "getMore":
		id := num(d, "getMore")
		b, ok := s.cursors[id]
		if !ok {
			return nil, fail(43, "CursorNotFound", "cursor id %d not found", id)
		}
		delete(s.cursors, id)
		if n := max(s.Batch, 1); len(b) > n {
			s.cursors[id] = b[n:]
			b = b[:n:n]
		} else {
			id = 0
		}
		return D{{Key: "cursor", Value: D{{Key: "id", Value: id}, {Key: "ns", Value: str(d, "$db") + "." + str(d, "collection")}, {Key: "nextBatch", Value: b}}}, {Key: "ok", Value: 1.0}}, nil
	case "killCursors":
		for _, x := range arr(d, "cursors") {
			if id, ok := x.(int64); ok {
				delete(s.cursors, id)
			}
		}
		return D{{Key: "ok", Value: 1.0}}, nil
	case "count":
		cl := s.coll(c.Coll, false)
		docs, err := s.query(cl, doc(d, "query"), d, false)
		if err != nil {
			return nil, err
		}
		return D{{Key: "n", Value: int32(len(page(docs, num(d, "skip"), num(d, "limit"))))}, {Key: "ok", Value: 1.0}}, nil
	case "distinct":
		cl := s.coll(c.Coll, false)
		docs, err := s.query(cl, doc(d, "query"), d, false)
		if err != nil {
			return nil, err
		}
		var vals A
		for _, x := range docs {
			v, ok := get(x, str(d, "key"))
			if !ok {
				continue
			}
			dup := false
			for _, w := range vals {
				dup = dup || cmp(v, w) == 0
			}
			if !dup {
				vals = append(vals, v)
			}
		}
		if vals == nil {
			vals = A{}
		}
		return D{{Key: "values", Value: vals}, {Key: "ok", Value: 1.0}}, nil
	case "findAndModify", "findandmodify":
		return s.findAndModify(c)
	case "insert":
		return s.insert(c)
	case "update":
		return s.update(c)
	case "delete":
		return s.delete(c)
	case "aggregate":
		return s.aggregate(c)
	case "createIndexes":
		return s.createIndexes(c)
	case "collMod":
		return s.collMod(c)
	case "listIndexes":
		cl := s.Colls[c.Coll]
		if cl == nil {
			return nil, fail(26, "NamespaceNotFound", "ns does not exist: %s", c.Coll)
		}
		b := A{}
		for _, x := range cl.Indexes {
			b = append(b, x.doc())
		}
		return s.cursor(c, b), nil
	case "dropIndexes":
		cl := s.Colls[c.Coll]
		if cl == nil {
			return nil, fail(26, "NamespaceNotFound", "ns not found %s", c.Coll)
		}
		n := str(d, "index")
		for i, x := range cl.Indexes {
			if x.Name == n && n != "_id_" {
				cl.Indexes = append(cl.Indexes[:i:i], cl.Indexes[i+1:]...)
				return D{{Key: "ok", Value: 1.0}}, nil
			}
		}
		return nil, fail(27, "IndexNotFound", "index not found with name [%s]", n)
	case "drop":
		if s.Colls[c.Coll] == nil {
			return nil, fail(26, "NamespaceNotFound", "ns not found")
		}
		delete(s.Colls, c.Coll)
		return D{{Key: "ok", Value: 1.0}}, nil
	case "create":
		s.coll(c.Coll, true)
		return D{{Key: "ok", Value: 1.0}}, nil
	}
	return nil, fail(59, "CommandNotFound", "no such command: '%s'", c.Name)
}

func (s *Server) cursor(c *Cmd, b A) D {
	id := int64(0)
	if s.Batch > 0 && len(b) > s.Batch {
		s.lastCur++
		id = s.lastCur
		if s.cursors == nil {
			s.cursors = map[int64]A{}
		}
		s.cursors[id] = b[s.Batch:]
		b = b[:s.Batch:s.Batch]
	}
	return D{{Key: "cursor", Value: D{{Key: "id", Value: id}, {Key: "ns", Value: c.Coll}, {Key: "firstBatch", Value: b}}}, {Key: "ok", Value: 1.0}}
}

func page(docs []D, skip, limit int64) []D {
	if skip > int64(len(docs)) {
		skip = int64(len(docs))
	}
	docs = docs[skip:]
	if limit < 0 {
		limit = -limit
	}
	if limit > 0 && limit < int64(len(docs)) {
		docs = docs[:limit]
	}
	return docs
}

// equality finds the value a filter demands of a field.
func equality(f D, k string) (any, bool) {
	for _, e := range f {
		switch {
		case e.Key == "$and":
			if a, ok := e.Value.(A); ok {
				for _, x := range a {
					if y, ok := x.(D); ok {
						if v, ok := equality(y, k); ok {
							return v, true
						}
					}
				}
			}
		case e.Key == k:
			if o, ok := e.Value.(D); ok && len(o) > 0 && strings.HasPrefix(o[0].Key, "$") {
				if v, ok := get(o, "$eq"); ok {
					return v, true
				}
				if v, ok := get(o, "$in"); ok {
					if a, ok := v.(A); ok && len(a) == 1 {
						return a[0], true
					}
				}
				continue
			}
			return e.Value, true
		}
	}
	return nil, false
}

func (s *Server) hint(cl *Coll, f, opts D) error {
	h, ok := get(opts, "hint")
	if !ok || h == nil {
		return nil
	}
	for _, x := range cl.Indexes {
		match := false
		switch v := h.(type) {
		case string:
			match = x.Name == v
		case D:
			match = sameKey(x.Key, v)
		}
		if !match {
			continue
		}
		for _, e := range x.Partial {
			v, ok := equality(f, e.Key)
			if !ok || cmp(v, e.Value) != 0 {
				if _, byKey := h.(D); byKey {
					match = false // another index may have the same key
					break
				}
				return fail(2, "BadValue", "error processing query: planner returned error: bad hint: index %s does not cover the query %v", x.Name, f)
			}
		}
		if match {
			return nil
		}
	}
	return fail(2, "BadValue", "error processing query: planner returned error: hint provided does not correspond to an existing index: %v", h)
}

// query returns the matching documents in natural order.
func (s *Server) query(cl *Coll, f, opts D, one bool) ([]D, error) {
	if err := s.hint(cl, f, opts); err != nil {
		return nil, err
	}
	var r []D
	for _, x := range cl.Docs {
		ok, err := match(x, f)
		if err != nil {
			return nil, err
		}
		if ok {
			r = append(r, x)
		}
	}
	if so := doc(opts, "sort"); len(so) > 0 {
		sort.SliceStable(r, func(i, j int) bool {
			for _, e := range so {
				a, _ := get(r[i], e.Key)
				b, _ := get(r[j], e.Key)
				k := cmp(a, b)
				if n, _ := number(e.Value); n < 0 {
					k = -k
				}
				if k != 0 {
					return k < 0
				}
			}
			return false
		})
	}
	return r, nil
}

func project(x, p D) D {
	if len(p) == 0 {
		return x
	}
	incl := false
	set := map[string]bool{}
	id := true
	for _, e := range p {
		n, isNum := number(e.Value)
		on := isNum && n != 0
		if b, ok := e.Value.(bool); ok {
			on = b
		}
		if e.Key == "_id" {
			id = on
			continue
		}
		set[e.Key] = true
		incl = incl || on
	}
	if len(set) == 0 {
		incl = id
	}
	var r D
	for _, e := range x {
		if e.Key == "_id" {
			if id {
				r = append(r, e)
			}
		} else if set[e.Key] == incl {
			r = append(r, e)
		}
	}
	if r == nil {
		r = D{}
	}
	return r
}

func (s *Server) find(c *Cmd) (D, error) {
	cl := s.coll(c.Coll, false)
	r, err := s.query(cl, doc(c.Doc, "filter"), c.Doc, false)
	if err != nil {
		return nil, err
	}
	b := A{}
	for _, x := range page(r, num(c.Doc, "skip"), num(c.Doc, "limit")) {
		b = append(b, project(x, doc(c.Doc, "projection")))
	}
	return s.cursor(c, b), nil
}

func (s *Server) hasShardKey(q D) bool {
	for _, k := range s.Shard {
		if _, ok := equality(q, k); !ok {
			return false
		}
	}
	return true
}

func (s *Server) shardChange(q, old, new D) error {
	for _, k := range s.Shard {
		a, _ := get(old, k)
		b, _ := get(new, k)
		if cmp(a, b) != 0 && !s.hasShardKey(q) {
			return fail(31025, "ShardKeyUpdateNotAllowed", "Shard key update is not allowed without specifying the full shard key in the query")
		}
	}
	return nil
}

func (s *Server) findAndModify(c *Cmd) (D, error) {
	d := c.Doc
	q := doc(d, "query")
	if len(s.Shard) > 0 && !s.hasShardKey(q) {
		return nil, fail(61, "ShardKeyNotFound", "Query for sharded findAndModify must contain the shard key")
	}
	up := truthy(d, "upsert")
	cl := s.coll(c.Coll, up)
	r, err := s.query(cl, q, d, false)
	if err != nil {
		return nil, err
	}
	p := doc(d, "fields")
	leo := D{{Key: "updatedExisting", Value: false}, {Key: "n", Value: int32(0)}}
	var val any
	switch {
	case truthy(d, "remove"):
		leo = D{{Key: "n", Value: int32(0)}}
		if len(r) > 0 {
			cl.remove(r[0])
			val = project(r[0], p)
			leo[0].Value = int32(1)
		}
	case len(r) > 0:
		u, ok := get(d, "update")
		ud, isDoc := u.(D)
		if !ok || !isDoc {
			return nil, fail(9, "FailedToParse", "update pipelines are not supported by this model")
		}
		n, err := apply(r[0], ud, false)
		if err != nil {
			return nil, err
		}
		if err := s.shardChange(q, r[0], n); err != nil {
			return nil, err
		}
		cl.replace(r[0], n)
		leo = D{{Key: "updatedExisting", Value: true}, {Key: "n", Value: int32(1)}}
		if truthy(d, "new") {
			val = project(n, p)
		} else {
			val = project(r[0], p)
		}
	case up:
		n, err := upserted(q, doc(d, "update"))
		if err != nil {
			return nil, err
		}
		if err := cl.add(n); err != nil {
			return nil, err
		}
		id, _ := get(n, "_id")
		leo = D{{Key: "updatedExisting", Value: false}, {Key: "n", Value: int32(1)}, {Key: "upserted", Value: id}}
		if truthy(d, "new") {
			val = project(n, p)
		}
	}
	return D{{Key: "lastErrorObject", Value: leo}, {Key: "value", Value: val}, {Key: "ok", Value: 1.0}}, nil
}

func (cl *Coll) index(x D) int {
	id, _ := get(x, "_id")
	for i, y := range cl.Docs {
		v, _ := get(y, "_id")
		if cmp(id, v) == 0 {
			return i
		}
	}
	return -1
}

func (cl *Coll) remove(x D) {
	i := cl.index(x)
	cl.Docs = append(cl.Docs[:i:i], cl.Docs[i+1:]...)
}

func (cl *Coll) replace(x, n D) {
	i := cl.index(x)
	v := append([]D(nil), cl.Docs...)
	v[i] = n
	cl.Docs = v
}

func (cl *Coll) add(x D) error {
	if _, ok := get(x, "_id"); !ok {
		x = append(D{{Key: "_id", Value: primitive.NewObjectID()}}, x...)
	}
	if cl.index(x) >= 0 {
		id, _ := get(x, "_id")
		return fail(11000, "DuplicateKey", "E11000 duplicate key error collection: index: _id_ dup key: { _id: %v }", id)
	}
	cl.Docs = append(cl.Docs[:len(cl.Docs):len(cl.Docs)], idFirst(x))
	return nil
}

func idFirst(x D) D {
	for i, e := range x {
		if e.Key == "_id" && i > 0 {
			r := D{e}
			r = append(r, x[:i]...)
			return append(r, x[i+1:]...)
		}
	}
	return x
}

func writeError(i int, err error) D {
	var e *cmdErr
	if !errors.As(err, &e) {
		e = &cmdErr{8, "UnknownError", err.Error()}
	}
	return D{{Key: "index", Value: int32(i)}, {Key: "code", Value: e.code}, {Key: "errmsg", Value: e.msg}}
}

func ordered(d D) bool {
	if _, ok := get(d, "ordered"); !ok {
		return true
	}
	return truthy(d, "ordered")
}

func (s *Server) insert(c *Cmd) (D, error) {
	cl := s.coll(c.Coll, true)
	var errs A
	n := 0
	for i, x := range arr(c.Doc, "documents") {
		if err := cl.add(x.(D)); err != nil {
			errs = append(errs, writeError(i, err))
			if ordered(c.Doc) {
				break
			}
			continue
		}
		n++
	}
	r := D{{Key: "n", Value: int32(n)}}
	if errs != nil {
		r = append(r, bson.E{Key: "writeErrors", Value: errs})
	}
	return append(r, bson.E{Key: "ok", Value: 1.0}), nil
}

func (s *Server) update(c *Cmd) (D, error) {
	var errs, ups A
	n, mod := 0, 0
	for i, x := range arr(c.Doc, "updates") {
		if err := s.updateOne(c, i, x.(D), &n, &mod, &ups); err != nil {
			errs = append(errs, writeError(i, err))
			if ordered(c.Doc) {
				break
			}
		}
	}
	r := D{{Key: "n", Value: int32(n)}, {Key: "nModified", Value: int32(mod)}}
	if ups != nil {
		r = append(r, bson.E{Key: "upserted", Value: ups})
	}
	if errs != nil {
		r = append(r, bson.E{Key: "writeErrors", Value: errs})
	}
	return append(r, bson.E{Key: "ok", Value: 1.0}), nil
}

func (s *Server) updateOne(c *Cmd, i int, x D, n, mod *int, ups *A) error {
	q := doc(x, "q")
	multi, up := truthy(x, "multi"), truthy(x, "upsert")
	if len(s.Shard) > 0 && !multi {
		_, id := equality(q, "_id")
		if !s.hasShardKey(q) && (up || !id) {
			return fail(61, "ShardKeyNotFound", "Failed to target upsert by query :: could not extract exact shard key")
		}
	}
	u, _ := get(x, "u")
	ud, ok := u.(D)
	if !ok {
		return fail(9, "FailedToParse", "update pipelines are not supported by this model")
	}
	if multi && !isOps(ud) {
		return fail(9, "FailedToParse", "multi update is not supported for replacement-style update")
	}
	cl := s.coll(c.Coll, up)
	r, err := s.query(cl, q, x, false)
	if err != nil {
		return err
	}
	if len(r) > 1 && !multi {
		r = r[:1]
	}
	for _, old := range r {
		nw, err := apply(old, ud, false)
		if err != nil {
			return err
		}
		if err := s.shardChange(q, old, nw); err != nil {
			return err
		}
		*n++
		if cmp(old, nw) != 0 || !sameFields(old, nw) {
			*mod++
			cl.replace(old, nw)
		}
	}
	if len(r) == 0 && up {
		nw, err := upserted(q, ud)
		if err != nil {
			return err
		}
		if err := cl.add(nw); err != nil {
			return err
		}
		id, _ := get(nw, "_id")
		*n++
		*ups = append(*ups, D{{Key: "index", Value: int32(i)}, {Key: "_id", Value: id}})
	}
	return nil
}

func (s *Server) delete(c *Cmd) (D, error) {
	cl := s.coll(c.Coll, false)
	n := 0
	var errs A
	for i, x := range arr(c.Doc, "deletes") {
		x := x.(D)
		q := doc(x, "q")
		one := num(x, "limit") == 1
		err := func() error {
			if len(s.Shard) > 0 && one {
				if _, id := equality(q, "_id"); !id && !s.hasShardKey(q) {
					return fail(61, "ShardKeyNotFound", "A single delete on a sharded collection must contain an exact match on _id or contain the shard key")
				}
			}
			r, err := s.query(cl, q, x, false)
			if err != nil {
				return err
			}
			if one && len(r) > 1 {
				r = r[:1]
			}
			for _, y := range r {
				cl.remove(y)
				n++
			}
			return nil
		}()
		if err != nil {
			errs = append(errs, writeError(i, err))
			if ordered(c.Doc) {
				break
			}
		}
	}
	r := D{{Key: "n", Value: int32(n)}}
	if errs != nil {
		r = append(r, bson.E{Key: "writeErrors", Value: errs})
	}
	return append(r, bson.E{Key: "ok", Value: 1.0}), nil
}

func (s *Server) aggregate(c *Cmd) (D, error) {
	cl := s.coll(c.Coll, false)
	stages := arr(c.Doc, "pipeline")
	var first D
	if len(stages) > 0 {
		if m, ok := get(stages[0].(D), "$match"); ok {
			first, _ = m.(D)
			stages = stages[1:]
		}
	}
	opts := D{}
	if h, ok := get(c.Doc, "hint"); ok {
		opts = D{{Key: "hint", Value: h}}
	}
	docs, err := s.query(cl, first, opts, false)
	if err != nil {
		return nil, err
	}
	for _, st := range stages {
		st := st.(D)
		switch st[0].Key {
		case "$match":
			f, _ := st[0].Value.(D)
			var r []D
			for _, x := range docs {
				ok, err := match(x, f)
				if err != nil {
					return nil, err
				}
				if ok {
					r = append(r, x)
				}
			}
			docs = r
		case "$sort":
			so := st[0].Value.(D)
			docs = append([]D(nil), docs...)
			sort.SliceStable(docs, func(i, j int) bool {
				for _, e := range so {
					a, _ := get(docs[i], e.Key)
					b, _ := get(docs[j], e.Key)
					k := cmp(a, b)
					if n, _ := number(e.Value); n < 0 {
						k = -k
					}
					if k != 0 {
						return k < 0
					}
				}
				return false
			})
		case "$skip", "$limit":
			f, ok := number(st[0].Value)
			if !ok || f < 0 || f == 0 && st[0].Key == "$limit" {
				return nil, fail(15958, "Location15958", "the %s must be positive", st[0].Key)
			}
			if st[0].Key == "$skip" {
				docs = page(docs, int64(f), 0)
			} else {
				docs = page(docs, 0, int64(f))
			}
		case "$count":
			name, _ := st[0].Value.(string)
			if len(docs) == 0 {
				docs = nil
			} else {
				docs = []D{{{Key: name, Value: int32(len(docs))}}}
			}
		case "$project":
			p, _ := st[0].Value.(D)
			var r []D
			for _, x := range docs {
				r = append(r, project(x, p))
			}
			docs = r
		case "$group":
			r, err := group(docs, st[0].Value.(D))
			if err != nil {
				return nil, err
			}
			docs = r
		default:
			return nil, fail(40324, "Location40324", "Unrecognized pipeline stage name: '%s'", st[0].Key)
		}
	}
	b := A{}
	for _, x := range docs {
		b = append(b, x)
	}
	return s.cursor(c, b), nil
}

func expr(x D, e any) any {
	if v, ok := e.(string); ok && strings.HasPrefix(v, "$") {
		r, _ := get(x, v[1:])
		return r
	}
	return e
}

func group(docs []D, g D) ([]D, error) {
	var r []D
	id, _ := get(g, "_id")
	for _, x := range docs {
		k := expr(x, id)
		var to *D
		for i := range r {
			if cmp(r[i][0].Value, k) == 0 {
				to = &r[i]
			}
		}
		if to == nil {
			n := D{{Key: "_id", Value: k}}
			for _, e := range g {
				if e.Key != "_id" {
					n = append(n, bson.E{Key: e.Key, Value: int32(0)})
				}
			}
			r = append(r, n)
			to = &r[len(r)-1]
		}
		for i, e := range *to {
			if i == 0 {
				continue
			}
			acc, _ := get(g, e.Key)
			a, ok := acc.(D)
			if !ok || len(a) != 1 || a[0].Key != "$sum" && a[0].Key != "$count" {
				return nil, fail(15952, "Location15952", "unknown group operator")
			}
			inc := 1.0
			if a[0].Key == "$sum" {
				inc, _ = number(expr(x, a[0].Value))
			}
			old, _ := number(e.Value)
			(*to)[i].Value = int32(old + inc)
		}
	}
	return r, nil
}

func sameKey(a, b D) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key != b[i].Key || cmp(a[i].Value, b[i].Value) != 0 {
			return false
		}
	}
	return true
}

func (x *Index) doc() D {
	d := D{{Key: "v", Value: int32(2)}, {Key: "key", Value: x.Key}, {Key: "name", Value: x.Name}}
	if x.Partial != nil {
		d = append(d, bson.E{Key: "partialFilterExpression", Value: x.Partial})
	}
	if x.Expire != nil {
		d = append(d, bson.E{Key: "expireAfterSeconds", Value: *x.Expire})
	}
	return d
}

// ParseIndex reads an index specification.
func ParseIndex(d D) *Index {
	x := &Index{Name: str(d, "name"), Key: doc(d, "key"), Partial: doc(d, "partialFilterExpression"), Raw: d}
	if v, ok := get(d, "expireAfterSeconds"); ok {
		f, _ := number(v)
		n := int64(f)
		x.Expire = &n
	}
	return x
}

func (s *Server) createIndexes(c *Cmd) (D, error) {
	cl := s.coll(c.Coll, true)
	var add []*Index
	for _, v := range arr(c.Doc, "indexes") {
		x := ParseIndex(v.(D))
		if x.Expire != nil && (*x.Expire < 0 || *x.Expire > 1<<31-1) {
			return nil, fail(67, "CannotCreateIndex", "TTL index 'expireAfterSeconds' option must be within an acceptable range")
		}
		skip := false
		for _, y := range append(cl.Indexes[:len(cl.Indexes):len(cl.Indexes)], add...) {
			sameSpec := sameKey(x.Key, y.Key) && cmp(x.Partial, y.Partial) == 0
			sameTTL := (x.Expire == nil) == (y.Expire == nil) && (x.Expire == nil || *x.Expire == *y.Expire)
			switch {
			case x.Name == y.Name && sameSpec && sameTTL:
				skip = true
			case x.Name == y.Name && sameSpec, sameSpec:
				return nil, fail(85, "IndexOptionsConflict", "An equivalent index already exists with different options. Requested index: %v, existing index: %v", x.doc(), y.doc())
			case x.Name == y.Name:
				return nil, fail(86, "IndexKeySpecsConflict", "An existing index has the same name as the requested index. Requested index: %v, existing index: %v", x.doc(), y.doc())
			}
		}
		if !skip {
			add = append(add, x)
		}
	}
	n := len(cl.Indexes)
	cl.Indexes = append(cl.Indexes[:n:n], add...)
	return D{{Key: "numIndexesBefore", Value: int32(n)}, {Key: "numIndexesAfter", Value: int32(n + len(add))}, {Key: "ok", Value: 1.0}}, nil
}

func (s *Server) collMod(c *Cmd) (D, error) {
	cl := s.Colls[c.Coll]
	if cl == nil {
		return nil, fail(26, "NamespaceNotFound", "ns does not exist")
	}
	ix := doc(c.Doc, "index")
	if ix == nil {
		return nil, fail(72, "InvalidOptions", "no index in collMod")
	}
	for _, y := range cl.Indexes {
		if n := str(ix, "name"); n != "" && y.Name == n || n == "" && sameKey(doc(ix, "keyPattern"), y.Key) {
			v, ok := get(ix, "expireAfterSeconds")
			f, isNum := number(v)
			if !ok || !isNum {
				return nil, fail(72, "InvalidOptions", "expireAfterSeconds field must be a number")
			}
			if f < 0 || f > 1<<31-1 {
				return nil, fail(72, "InvalidOptions", "TTL index 'expireAfterSeconds' option must be within an acceptable range")
			}
			k := int64(f)
			y2 := *y
			y2.Expire = &k
			for i := range cl.Indexes {
				if cl.Indexes[i] == y {
					v := append([]*Index(nil), cl.Indexes...)
					v[i] = &y2
					cl.Indexes = v
				}
			}
			return D{{Key: "expireAfterSeconds_new", Value: k}, {Key: "ok", Value: 1.0}}, nil
		}
	}
	return nil, fail(27, "IndexNotFound", "cannot find index for collMod: %v", ix)
}
