From 9c89151a0c7483b2a5222ada964060c454134135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:20 +0000
Subject: [PATCH 01/20] fix: do not poll tasks from other topics in memdb

---
 internal/engine/memdb/queue.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index 795e2f2..42bdd47 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -83,8 +83,14 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 		return nil, ratus.ErrNotFound
 	}
 
-	// Do not consume the task until the scheduled time.
+	// The lower bound falls through to the next topic in the index if there
+	// are no more pending tasks in the specified topic.
 	t := r.(*ratus.Task)
+	if t.Topic != topic {
+		return nil, ratus.ErrNotFound
+	}
+
+	// Do not consume the task until the scheduled time.
 	if t.Scheduled != nil && t.Scheduled.After(n) {
 		return nil, ratus.ErrNotFound
 	}
-- 
2.43.0


From 01006c7d518134cc2005fbdf55fb16b3d38a6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:21 +0000
Subject: [PATCH 02/20] fix: do not skip times before the Unix epoch in memdb

---
 internal/engine/memdb/memdb.go | 4 ++++
 internal/engine/memdb/queue.go | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index e70981e..60d0d6f 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"math"
 	"os"
 	"sync"
 	"time"
@@ -41,6 +42,9 @@ const (
 	indexCompletedConsumed     = "completed-consumed "
 )
 
+// minTime sorts before any other time in time-based indexes.
+var minTime = time.UnixMilli(math.MinInt64)
+
 // Config contains configurations for the MemDB storage engine.
 type Config struct {
 	SnapshotPath     string        `arg:"--memdb-snapshot-path,env:MEMDB_SNAPSHOT_PATH" placeholder:"PATH" help:"path to the snapshot file" default:""`
diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index 42bdd47..4f274cd 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -14,7 +14,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 
 	// Recover tasks that have timed out.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, minTime)
 	if err != nil {
 		return err
 	}
@@ -30,7 +30,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 	}
 
 	// Delete completed tasks that have exceeded their retention period.
-	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, time.UnixMilli(0))
+	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, minTime)
 	if err != nil {
 		return err
 	}
@@ -74,7 +74,7 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 
 	// Peek into the topic to get the next candidate task.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, minTime)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b26b175e6d955eadf52acf73d97b2c9abbc87a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 03/20] fix: refuse malformed commits and promises

---
 internal/middleware/commit.go     |  5 ++++-
 internal/middleware/middleware.go | 13 +++++++++++++
 internal/middleware/promise.go    | 10 ++++++++--
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/internal/middleware/commit.go b/internal/middleware/commit.go
index 77b203b..38ac6bf 100644
--- a/internal/middleware/commit.go
+++ b/internal/middleware/commit.go
@@ -16,7 +16,10 @@ func Commit() gin.HandlerFunc {
 		// All fields are optional in a commit.
 		// An empty commit sets the state of the task to "completed".
 		var m ratus.Commit
-		c.ShouldBindJSON(&m)
+		if err := bindOptional(c, &m); err != nil {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the commit.
 		if err := normalizeCommit(&m); err != nil {
diff --git a/internal/middleware/middleware.go b/internal/middleware/middleware.go
index b360bd2..5db4aea 100644
--- a/internal/middleware/middleware.go
+++ b/internal/middleware/middleware.go
@@ -2,6 +2,8 @@
 package middleware
 
 import (
+	"io"
+
 	"github.com/gin-gonic/gin"
 
 	"github.com/hyperonym/ratus"
@@ -23,3 +25,14 @@ func fail(c *gin.Context, err error) {
 	e := ratus.NewError(err)
 	c.AbortWithStatusJSON(e.Error.Code, e)
 }
+
+// bindOptional binds the JSON request body if it is not empty.
+func bindOptional(c *gin.Context, v any) error {
+	if c.Request.Body == nil {
+		return nil
+	}
+	if err := c.ShouldBindJSON(v); err != nil && err != io.EOF {
+		return err
+	}
+	return nil
+}
diff --git a/internal/middleware/promise.go b/internal/middleware/promise.go
index b1d42ad..0416b34 100644
--- a/internal/middleware/promise.go
+++ b/internal/middleware/promise.go
@@ -17,8 +17,14 @@ func Promise() gin.HandlerFunc {
 		// Promise is a relatively simple data structure that can be submitted
 		// either through the request body or query parameters.
 		var p ratus.Promise
-		c.ShouldBindJSON(&p)
-		c.ShouldBindQuery(&p)
+		if err := bindOptional(c, &p); err != nil {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
+		if err := c.ShouldBindQuery(&p); err != nil {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the promise.
 		if err := normalizePromise(&p, c.Param(ParamID)); err != nil {
-- 
2.43.0


From 8d9f497ca7ddd641a48dbe4e79794656939731b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:25 +0000
Subject: [PATCH 04/20] fix: refuse null entries in task lists

---
 internal/middleware/task.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/middleware/task.go b/internal/middleware/task.go
index 217a4b8..d29f353 100644
--- a/internal/middleware/task.go
+++ b/internal/middleware/task.go
@@ -57,6 +57,10 @@ func Tasks() gin.HandlerFunc {
 		// Validate and normalize all tasks in the list.
 		p := c.Param(ParamTopic)
 		for _, t := range ts.Data {
+			if t == nil {
+				fail(c, fmt.Errorf("%w: task must not be null", ratus.ErrBadRequest))
+				return
+			}
 			if err := normalizeTask(t, "", p); err != nil {
 				fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
 				return
-- 
2.43.0


From 8594ab7e451b723d0b2dc9f79adce70b65ff841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:26 +0000
Subject: [PATCH 05/20] fix: sync snapshots and report errors before replacing
 the old one

---
 internal/engine/memdb/memdb.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index 60d0d6f..a983726 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -240,7 +240,7 @@ func clone[T any](v *T) *T {
 }
 
 // save writes a snapshot of the database to a file.
-func save(db *memdb.MemDB, path string) error {
+func save(db *memdb.MemDB, path string) (err error) {
 
 	// Create a temporary file for writing the snapshot.
 	p := fmt.Sprintf("%s.%s", path, nonce.Generate(8))
@@ -252,11 +252,17 @@ func save(db *memdb.MemDB, path string) error {
 	// Rename or delete the temporary file before returning.
 	var ok bool
 	defer func() {
-		f.Close()
-		if !ok {
+		if ok {
+			err = f.Sync()
+		}
+		if e := f.Close(); err == nil {
+			err = e
+		}
+		if ok && err == nil {
+			err = os.Rename(p, path)
+		}
+		if err != nil {
 			os.Remove(p)
-		} else {
-			os.Rename(p, path)
 		}
 	}()
 
-- 
2.43.0


From 9110a7b4b812d08b12c492233f1a2bd6713c8e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:28 +0000
Subject: [PATCH 06/20] fix: do not fail to write snapshots because of time
 zones

---
 internal/engine/memdb/memdb.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index a983726..a35576d 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -275,7 +275,7 @@ func save(db *memdb.MemDB, path string) (err error) {
 		return err
 	}
 	for r := it.Next(); r != nil; r = it.Next() {
-		if err := enc.Encode(r); err != nil {
+		if err := enc.Encode(encodable(r.(*ratus.Task))); err != nil {
 			return err
 		}
 	}
@@ -287,6 +287,22 @@ func save(db *memdb.MemDB, path string) (err error) {
 	return nil
 }
 
+// encodable returns a copy of the task with times converted to UTC if their
+// zone offsets can not be represented in a snapshot.
+func encodable(v *ratus.Task) *ratus.Task {
+	u := clone(v)
+	for _, p := range []**time.Time{&u.Produced, &u.Scheduled, &u.Consumed, &u.Deadline} {
+		if *p == nil {
+			continue
+		}
+		if _, err := (*p).MarshalBinary(); err != nil {
+			t := (*p).UTC()
+			*p = &t
+		}
+	}
+	return u
+}
+
 // load recovers data from a snapshot file.
 func load(db *memdb.MemDB, path string) error {
 
-- 
2.43.0


From 1b0cefbfd7aa4d57e2811a500b7b231be2c0fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 07/20] fix: restore empty lists in payloads from snapshots

---
 internal/engine/memdb/memdb.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index a35576d..707db0c 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -328,6 +328,7 @@ func load(db *memdb.MemDB, path string) error {
 			}
 			return err
 		}
+		t.Payload = restore(t.Payload)
 		if err := txn.Insert(tableTask, &t); err != nil {
 			return err
 		}
@@ -336,3 +337,22 @@ func load(db *memdb.MemDB, path string) error {
 
 	return nil
 }
+
+// restore replaces nil slices in a decoded payload with empty ones, as they
+// are indistinguishable in the snapshot and JSON arrays are never nil.
+func restore(v any) any {
+	switch x := v.(type) {
+	case []any:
+		if x == nil {
+			return make([]any, 0)
+		}
+		for i := range x {
+			x[i] = restore(x[i])
+		}
+	case map[string]any:
+		for k := range x {
+			x[k] = restore(x[k])
+		}
+	}
+	return v
+}
-- 
2.43.0


From 049c78631c3427adc802d92a95844e65749cbc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:30 +0000
Subject: [PATCH 08/20] fix: do not redirect operations with empty names to
 collections

---
 internal/router/router.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/router/router.go b/internal/router/router.go
index c44e8e4..9b6ad7d 100644
--- a/internal/router/router.go
+++ b/internal/router/router.go
@@ -37,6 +37,10 @@ func New(groups ...Group) *gin.Engine {
 	r.UseRawPath = true
 	r.UnescapePathValues = true
 
+	// Do not redirect requests with an empty trailing path parameter to the
+	// endpoint of the parent collection.
+	r.RedirectTrailingSlash = false
+
 	// Enable logging and profiling if not in release mode.
 	// Recommended to collect logs at load balancer level in production.
 	if gin.Mode() != gin.ReleaseMode {
-- 
2.43.0


From e38fd03e0b76cd97733f516dc16d36c87ec29025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:32 +0000
Subject: [PATCH 09/20] fix: separate names containing null characters in memdb

---
 internal/engine/memdb/indexer.go | 58 ++++++++++++++++++++++++++++++++
 internal/engine/memdb/memdb.go   |  8 ++---
 2 files changed, 62 insertions(+), 4 deletions(-)

diff --git a/internal/engine/memdb/indexer.go b/internal/engine/memdb/indexer.go
index 7707432..be25652 100644
--- a/internal/engine/memdb/indexer.go
+++ b/internal/engine/memdb/indexer.go
@@ -9,6 +9,64 @@ import (
 	"github.com/hyperonym/ratus"
 )
 
+// StringFieldIndex encodes string fields for index building. Unlike the one
+// provided by MemDB, strings may contain null characters.
+type StringFieldIndex struct {
+	Field string
+}
+
+// FromObject implements the memdb.SingleIndexer interface.
+func (i *StringFieldIndex) FromObject(obj any) (bool, []byte, error) {
+
+	// Extract and validate the value.
+	v := reflect.ValueOf(obj)
+	v = reflect.Indirect(v)
+	v = v.FieldByName(i.Field)
+	v = reflect.Indirect(v)
+	if !v.IsValid() {
+		return false, nil, nil
+	}
+
+	// Check the type of the value.
+	if v.Kind() != reflect.String {
+		return false, nil, fmt.Errorf("field %q is of type %v; want a string", i.Field, v.Kind())
+	}
+
+	// Empty strings are considered missing.
+	if v.Len() == 0 {
+		return false, nil, nil
+	}
+
+	return true, i.encodeString(v.String()), nil
+}
+
+// FromArgs implements the memdb.Indexer interface.
+func (i *StringFieldIndex) FromArgs(args ...any) ([]byte, error) {
+	if len(args) != 1 {
+		return nil, fmt.Errorf("must provide only a single argument")
+	}
+	s, ok := args[0].(string)
+	if !ok {
+		return nil, fmt.Errorf("arg is of type %T; want a string", args[0])
+	}
+	return i.encodeString(s), nil
+}
+
+func (i *StringFieldIndex) encodeString(s string) []byte {
+
+	// Escape null characters before adding one as the terminator, so that no
+	// encoded string is a prefix of another and the order is preserved.
+	b := make([]byte, 0, len(s)+1)
+	for j := 0; j < len(s); j++ {
+		if s[j] <= 1 {
+			b = append(b, 1, s[j]+1)
+			continue
+		}
+		b = append(b, s[j])
+	}
+	return append(b, 0)
+}
+
 // StateFieldIndex encodes task state fields for index building.
 type StateFieldIndex struct {
 	Field string
diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index 707db0c..c23facb 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -76,13 +76,13 @@ func New(c *Config) (*Engine, error) {
 						Name:         indexID,
 						AllowMissing: false,
 						Unique:       true,
-						Indexer:      &memdb.StringFieldIndex{Field: keyID},
+						Indexer:      &StringFieldIndex{Field: keyID},
 					},
 					indexTopic: {
 						Name:         indexTopic,
 						AllowMissing: false,
 						Unique:       false,
-						Indexer:      &memdb.StringFieldIndex{Field: keyTopic},
+						Indexer:      &StringFieldIndex{Field: keyTopic},
 					},
 					indexPendingTopicScheduled: {
 						Name:         indexPendingTopicScheduled,
@@ -91,7 +91,7 @@ func New(c *Config) (*Engine, error) {
 						Indexer: &memdb.CompoundIndex{
 							Indexes: []memdb.Indexer{
 								&StateFieldIndex{Field: keyState, Filter: ratus.TaskStatePending},
-								&memdb.StringFieldIndex{Field: keyTopic},
+								&StringFieldIndex{Field: keyTopic},
 								&TimeFieldIndex{Field: keyScheduled},
 							},
 						},
@@ -114,7 +114,7 @@ func New(c *Config) (*Engine, error) {
 						Indexer: &memdb.CompoundIndex{
 							Indexes: []memdb.Indexer{
 								&StateFieldIndex{Field: keyState, Filter: ratus.TaskStateActive},
-								&memdb.StringFieldIndex{Field: keyTopic},
+								&StringFieldIndex{Field: keyTopic},
 							},
 						},
 					},
-- 
2.43.0


From 7bf628cdc1c2997d27c10be0a3604f7e5f3e5b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:33 +0000
Subject: [PATCH 10/20] fix: wait for requests in progress before exiting

---
 cmd/ratus/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 238073e..9cd2adf 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -150,7 +150,9 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 	// Gracefully shut down the server when an interrupt or SIGTERM signal
 	// is received, or close the server immediately if the context has been
 	// canceled or another goroutine in the error group has return an error.
+	done := make(chan struct{})
 	go func() {
+		defer close(done)
 		select {
 		case <-ch:
 			log.Printf("stop listening on %s\n", a)
@@ -166,6 +168,9 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 		return err
 	}
 
+	// Wait for requests in progress to complete.
+	<-done
+
 	return nil
 }
 
-- 
2.43.0


From a27714c2e6a8a43bffbe83e43cc4362378c387c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 11/20] fix: report errors when closing the storage engine on
 exit

---
 cmd/ratus/main.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 9cd2adf..06d857d 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -73,7 +73,7 @@ func main() {
 	log.Println("shut down gracefully")
 }
 
-func run() error {
+func run() (err error) {
 
 	// Parse command line arguments.
 	var a args
@@ -83,10 +83,7 @@ func run() error {
 	ctx := context.Background()
 
 	// Create a storage engine instance of the specified type.
-	var (
-		g   engine.Engine
-		err error
-	)
+	var g engine.Engine
 	switch strings.ToLower(a.Engine) {
 	case "memdb":
 		g, err = memdb.New(&a.memdbConfig)
@@ -104,7 +101,11 @@ func run() error {
 	if err := g.Open(ctx); err != nil {
 		return err
 	}
-	defer g.Close(ctx)
+	defer func(ctx context.Context) {
+		if e := g.Close(ctx); err == nil {
+			err = e
+		}
+	}(ctx)
 
 	// Create router and mount API endpoints.
 	r := router.New(&controller.V1{
-- 
2.43.0


From 5c7c00d6314529b02273595e9f404b9f5103cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:42 +0000
Subject: [PATCH 12/20] fix: refuse names that are not valid UTF-8 instead of
 panicking

---
 internal/middleware/prometheus.go | 4 +++-
 internal/middleware/promise.go    | 6 ++++++
 internal/middleware/task.go       | 7 +++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/middleware/prometheus.go b/internal/middleware/prometheus.go
index 1d2eb0a..83c31d1 100644
--- a/internal/middleware/prometheus.go
+++ b/internal/middleware/prometheus.go
@@ -2,6 +2,7 @@ package middleware
 
 import (
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -16,6 +17,7 @@ func Prometheus() gin.HandlerFunc {
 		c.Next()
 		d := time.Since(t).Seconds()
 		s := strconv.Itoa(c.Writer.Status())
-		metrics.RequestHistogram.WithLabelValues(c.Param(ParamTopic), c.Request.Method, c.FullPath(), s).Observe(d)
+		p := strings.ToValidUTF8(c.Param(ParamTopic), "\uFFFD")
+		metrics.RequestHistogram.WithLabelValues(p, c.Request.Method, c.FullPath(), s).Observe(d)
 	}
 }
diff --git a/internal/middleware/promise.go b/internal/middleware/promise.go
index 0416b34..b7cfaad 100644
--- a/internal/middleware/promise.go
+++ b/internal/middleware/promise.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"time"
+	"unicode/utf8"
 
 	"github.com/gin-gonic/gin"
 
@@ -49,6 +50,11 @@ func normalizePromise(p *ratus.Promise, id string) error {
 		return errors.New("promise ID is inconsistent with the path parameter")
 	}
 
+	// Parameters from the path or query are not necessarily valid UTF-8.
+	if !utf8.ValidString(p.ID) || !utf8.ValidString(p.Consumer) {
+		return errors.New("promise ID and consumer must be valid UTF-8")
+	}
+
 	// Normalize deadline time.
 	if p.Deadline == nil {
 		if p.Timeout == "" {
diff --git a/internal/middleware/task.go b/internal/middleware/task.go
index d29f353..5a288a6 100644
--- a/internal/middleware/task.go
+++ b/internal/middleware/task.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"time"
+	"unicode/utf8"
 
 	"github.com/gin-gonic/gin"
 
@@ -91,6 +92,9 @@ func normalizeTask(t *ratus.Task, id, topic string) error {
 	if id != "" && t.ID != id {
 		return errors.New("task ID is inconsistent with the path parameter")
 	}
+	if !utf8.ValidString(t.ID) {
+		return errors.New("task ID must be valid UTF-8")
+	}
 
 	// Normalize and validate topic.
 	if t.Topic == "" && topic != "" {
@@ -99,6 +103,9 @@ func normalizeTask(t *ratus.Task, id, topic string) error {
 	if t.Topic == "" {
 		return errors.New("topic must not be empty")
 	}
+	if !utf8.ValidString(t.Topic) {
+		return errors.New("topic must be valid UTF-8")
+	}
 
 	// Validate task state.
 	if t.State < ratus.TaskStatePending || t.State > ratus.TaskStateArchived {
-- 
2.43.0


From 6e927eec8c4a737420e4361965634e772acf15a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 13/20] fix: count tasks of a batch under their topic when the
 path names none

---
 internal/controller/task.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/controller/task.go b/internal/controller/task.go
index 6cde157..8cb50b0 100644
--- a/internal/controller/task.go
+++ b/internal/controller/task.go
@@ -57,7 +57,7 @@ func (r *TaskController) PostTasks(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created > 0 && len(ts.Data) > 0 {
-		metrics.ProducedCounter.WithLabelValues(c.Param(middleware.ParamTopic), ts.Data[0].Producer).Add(float64(v.Created))
+		metrics.ProducedCounter.WithLabelValues(ts.Data[0].Topic, ts.Data[0].Producer).Add(float64(v.Created))
 	}
 }
 
@@ -80,7 +80,7 @@ func (r *TaskController) PutTasks(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created+v.Updated > 0 && len(ts.Data) > 0 {
-		metrics.ProducedCounter.WithLabelValues(c.Param(middleware.ParamTopic), ts.Data[0].Producer).Add(float64(v.Created + v.Updated))
+		metrics.ProducedCounter.WithLabelValues(ts.Data[0].Topic, ts.Data[0].Producer).Add(float64(v.Created + v.Updated))
 	}
 }
 
-- 
2.43.0


From daf3c01562930cda074f6080051b230d337285c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:15 +0000
Subject: [PATCH 14/20] fix: accept empty lists of tasks in the MongoDB engine

The driver refuses bulk writes without operations, so inserting or updating
an empty list failed with an internal server error. The in-memory engine
accepts it.
---
 internal/engine/mongodb/task.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index cb4d598..9c87e12 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -27,6 +27,12 @@ func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int)
 
 // InsertTasks inserts a batch of tasks while ignoring existing ones.
 func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+
+	// MongoDB does not accept bulk writes without operations.
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
+
 	w := make([]mongo.WriteModel, len(ts))
 	for i, t := range ts {
 		m := mongo.NewInsertOneModel()
@@ -51,6 +57,12 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 
 // UpsertTasks inserts or updates a batch of tasks.
 func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+
+	// MongoDB does not accept bulk writes without operations.
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
+
 	return branch(func() (*ratus.Updated, error) {
 		return g.upsertTasksReplace(ctx, ts)
 	}, func() (*ratus.Updated, error) {
-- 
2.43.0


From 220cac1733ebe1eb9d800bc8a7fa60f8f78d5e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:36 +0000
Subject: [PATCH 15/20] fix: report write errors of task batches that also
 contain duplicates

A batch insertion ignores duplicate keys, but the check for them is true as
soon as any of the write errors is a duplicate key error: other errors of
the same batch were ignored and tasks that had not been stored were
acknowledged.
---
 internal/engine/mongodb/task.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index 9c87e12..9465ff2 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -45,7 +45,7 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 	// MongoDB will continue to process remaining write operations in the list.
 	o := options.BulkWrite().SetOrdered(false)
 	r, err := g.collection.BulkWrite(ctx, w, o)
-	if err != nil && !mongo.IsDuplicateKeyError(err) {
+	if err != nil && !onlyDuplicateKeyErrors(err) {
 		return nil, err
 	}
 
@@ -55,6 +55,21 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 	}, nil
 }
 
+// onlyDuplicateKeyErrors returns whether every error that occurred during a
+// bulk write is a duplicate key error.
+func onlyDuplicateKeyErrors(err error) bool {
+	e, ok := err.(mongo.BulkWriteException)
+	if !ok {
+		return mongo.IsDuplicateKeyError(err)
+	}
+	for _, w := range e.WriteErrors {
+		if !mongo.IsDuplicateKeyError(w.WriteError) {
+			return false
+		}
+	}
+	return e.WriteConcernError == nil
+}
+
 // UpsertTasks inserts or updates a batch of tasks.
 func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
 
-- 
2.43.0


From e751f45d99b0b36798f62869c634c0f7cc8e7858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:44 +0000
Subject: [PATCH 16/20] fix: report errors of the existence check instead of
 'not found' (MongoDB engine)

A claim or commit that matched nothing is followed by a query that tells a
conflict from a missing task. If that query failed, the error was taken for
a missing task.
---
 internal/engine/mongodb/mongodb.go | 11 ++++++++---
 internal/engine/mongodb/promise.go |  5 ++++-
 internal/engine/mongodb/queue.go   | 12 ++++++++----
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/internal/engine/mongodb/mongodb.go b/internal/engine/mongodb/mongodb.go
index f6a2ba1..b94474d 100644
--- a/internal/engine/mongodb/mongodb.go
+++ b/internal/engine/mongodb/mongodb.go
@@ -265,9 +265,14 @@ func (g *Engine) peek(ctx context.Context, filter, sort any, hint string) (*ratu
 }
 
 // exists returns whether a document that matches the filter criteria exists.
-func (g *Engine) exists(ctx context.Context, filter any, hint string) bool {
-	_, err := g.peek(ctx, filter, nil, hint)
-	return err == nil
+func (g *Engine) exists(ctx context.Context, filter any, hint string) (bool, error) {
+	if _, err := g.peek(ctx, filter, nil, hint); err != nil {
+		if err == mongo.ErrNoDocuments {
+			err = nil
+		}
+		return false, err
+	}
+	return true, nil
 }
 
 // queryOpsPoll returns a document containing query operators to peek into the
diff --git a/internal/engine/mongodb/promise.go b/internal/engine/mongodb/promise.go
index ab3070d..efda2a0 100644
--- a/internal/engine/mongodb/promise.go
+++ b/internal/engine/mongodb/promise.go
@@ -100,7 +100,10 @@ func (g *Engine) insertPromiseAtomic(ctx context.Context, p *ratus.Promise) (*ra
 		// Check if the failure is due to a mismatch of state or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if g.exists(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID) {
+			ok, e := g.exists(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID)
+			if e != nil {
+				err = e
+			} else if ok {
 				err = ratus.ErrConflict
 			} else {
 				err = ratus.ErrNotFound
diff --git a/internal/engine/mongodb/queue.go b/internal/engine/mongodb/queue.go
index f3cb35a..4bb21f3 100644
--- a/internal/engine/mongodb/queue.go
+++ b/internal/engine/mongodb/queue.go
@@ -130,10 +130,14 @@ func (g *Engine) commitAtomic(ctx context.Context, id string, m *ratus.Commit) (
 		// Check if the failure is due to a mismatch of nonce or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if m.Nonce != "" && g.exists(ctx, bson.D{{Key: keyID, Value: id}}, indexID) {
-				err = ratus.ErrConflict
-			} else {
-				err = ratus.ErrNotFound
+			err = ratus.ErrNotFound
+			if m.Nonce != "" {
+				ok, e := g.exists(ctx, bson.D{{Key: keyID, Value: id}}, indexID)
+				if e != nil {
+					err = e
+				} else if ok {
+					err = ratus.ErrConflict
+				}
 			}
 		}
 		return nil, err
-- 
2.43.0


From 8fdedd520839e9499e73fbe7bf1c890afebabcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 17/20] fix: do not start another background job after a
 termination signal

---
 cmd/ratus/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 06d857d..a09983e 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -210,6 +210,12 @@ func chore(ctx context.Context, g engine.Engine, c *config.ChoreConfig) error {
 			return ctx.Err()
 		case <-r.C:
 
+			// A tick may have become due while the previous run was in progress.
+			// Do not start another run if it is time to stop.
+			if len(ch) > 0 || ctx.Err() != nil {
+				continue
+			}
+
 			// Reset the timer to use the normal interval after the initial delay.
 			if !n {
 				log.Println("start running background jobs")
-- 
2.43.0


From a41cdbbed9dbc3292c2e8746d48faaa702b8fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:34 +0000
Subject: [PATCH 18/20] fix: send the media type of the start page when it is
 compressed

---
 docs/docs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/docs.go b/docs/docs.go
index f391ca1..a4b1663 100644
--- a/docs/docs.go
+++ b/docs/docs.go
@@ -31,7 +31,7 @@ func (s *Swagger) Mount(r *gin.RouterGroup) {
 
 	// Serve Swagger UI files.
 	r.GET("/", func(c *gin.Context) {
-		c.Writer.Write(index)
+		c.Data(http.StatusOK, "text/html; charset=utf-8", index)
 	})
 	r.GET("/swagger-ui/*filepath", func(c *gin.Context) {
 		c.FileFromFS(path.Join("/swagger-ui/", c.Param("filepath")), fs)
-- 
2.43.0


From 5d1e37d25afe86cff9fe8987d86483f05d506404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 19/20] fix: let the final snapshot wait for one in progress

---
 internal/engine/memdb/memdb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index c23facb..e642b8a 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -161,6 +161,10 @@ func (g *Engine) Open(ctx context.Context) error {
 // Close or disconnect from the storage engine.
 func (g *Engine) Close(ctx context.Context) error {
 	if g.config.SnapshotPath != "" {
+
+		// Wait for background jobs that are writing an older snapshot.
+		g.mux.Lock()
+		defer g.mux.Unlock()
 		return save(g.database, g.config.SnapshotPath)
 	}
 	return nil
-- 
2.43.0


From d75160a32e4a03db1a1a5edc1cc6b392ab151d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 20/20] fix: do not take redirections for success

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 5ccea86..d7d2ab9 100644
--- a/client.go
+++ b/client.go
@@ -240,7 +240,7 @@ func (c *Client) Request(ctx context.Context, method, endpoint string, body, res
 	defer res.Body.Close()
 
 	// Handle failed request and parse the error message.
-	if res.StatusCode >= http.StatusBadRequest {
+	if res.StatusCode >= http.StatusMultipleChoices {
 		var r Error
 		if err := json.NewDecoder(res.Body).Decode(&r); err != nil {
 			return err
-- 
2.43.0

