#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

MEM = ["internal/engine/memdb/queue.go", "internal/engine/memdb/promise.go", "internal/engine/memdb/task.go",
       "internal/engine/memdb/topic.go", "internal/engine/memdb/memdb.go", "internal/engine/memdb/indexer.go"]
MON = ["internal/engine/mongodb/mongodb.go", "internal/engine/mongodb/queue.go", "internal/engine/mongodb/promise.go",
       "internal/engine/mongodb/task.go", "internal/engine/mongodb/topic.go"]

prop("C01", "A task in force under one claim is never claimed again",
 "On the in-memory engine, polling a topic or claiming a specific task only ever succeeds on a task that is pending, so while a claim is in force (until it is committed, its promise is deleted or overridden, it times out, or the task is replaced or deleted) no other ordinary claim obtains that task, however many consumers act concurrently. A granted claim returns the task active, carrying the claimant's name and deadline, the time of the claim and a nonce of 16 letters and digits that no earlier claim was given; everything else about the task is unchanged and later reads show exactly that claim. A claim on a missing task reports not found and a claim on a task that is not pending reports a conflict, and neither changes anything.",
 ["schedules", "histories"], "every interleaving of two or three concurrent clients that poll, claim, override, commit, delete and recover over colliding tasks, and every operation history up to a depth from every small database",
 "The suite polls from one goroutine and samples a few concurrent inserts; it explores no interleaving and asserts exclusivity only along one fixed history.",
 MEM + ["internal/nonce/nonce.go"],
 [("single writer transaction around check and claim", "memdb.Engine.Poll, InsertPromise, UpsertPromise"), ("fresh nonce per claim", "nonce.Generate, updateOpsConsume")],
 ["Engine.Poll/InsertPromise/UpsertPromise results", "GetTask, GetPromise, ListPromises"],
 [("nonce", "identifies the claim in force", "Task.Nonce")])

prop("C02", "A commit from a claim that is no longer in force is refused",
 "On the in-memory engine, a commit that carries a nonce is accepted only if it is the nonce of the claim currently in force on that task; once that claim has ended (an earlier commit, recovery after the deadline, deletion or override of the promise, replacement of the task) the commit is refused as a conflict, or as not found if the task is gone, and changes nothing. Hence of any number of commits made under one claim at most one is accepted, in every interleaving. An accepted commit, with or without a nonce, ends the claim and changes exactly the topic, state, scheduled time and payload it names, and returns the task as later reads show it.",
 ["schedules", "histories"], "every interleaving of commits with recovery, promise deletion, override, replacement and other commits, and every history of claims and commits up to a depth",
 "The suite checks one wrong nonce and one right nonce in sequence; it never makes a claim stale by the other routes or races two commits.",
 MEM, [("nonce comparison inside the write transaction", "memdb.Engine.Commit"), ("nonce cleared on recovery and commit", "updateOpsRecover, updateOpsCommit")],
 ["Engine.Commit result", "GetTask before and after"], [("nonce", "identifies the claim in force", "Task.Nonce")])

prop("C03", "Polling hands out the earliest due pending task of that topic",
 "On the in-memory engine, polling a topic returns a task that belongs to exactly that topic, is pending, has reached its scheduled time, and has a scheduled time no later, to the millisecond, than any other task of the topic that qualifies. Whenever at least one task of the topic qualifies (due for at least a millisecond), a poll succeeds; otherwise it reports not found and changes nothing. So repeated polling hands out every due task exactly once, in order of scheduled time, whatever other topics hold and however the tasks came to be pending.",
 ["histories", "inputs"], "every database of up to three tasks over colliding topic names, all states and scheduled times around, far before and far after the present, and every history of inserts, moves, reschedules, recoveries and time steps up to a depth",
 "The suite polls one topic at a time with a handful of schedules; a poll that falls through into a neighbouring topic or misses a reindexed task is outside what it samples.",
 MEM, [("ordered index scan", "memdb.Engine.Poll"), ("time encoding", "TimeFieldIndex")], ["Engine.Poll result", "GetTask"],
 [("pending index", "pending tasks by topic and scheduled time", "memdb schema")])

prop("C04", "Timed-out tasks return to the queue; unexpired claims are untouched",
 "On the in-memory engine, after a background job runs, every active task whose deadline passed at least a millisecond earlier is pending again with its claim ended and everything else unchanged, so it can be polled again and commits under the old claim are refused. An active task whose deadline has not been reached, or that has none, and every pending or archived task is left exactly as it was. Thus a task that was accepted and never completed, archived or deleted by a client is always either pending or under a claim and is eventually handed out again, whatever consumers do.",
 ["histories", "inputs"], "every database of up to three tasks over all states and deadlines before, at, after and far from the present, and every history of claims, crashes of consumers (no commit), time steps and background jobs up to a depth",
 "The suite recovers one expired task once; it does not vary deadlines around the boundary, several tasks, indices left behind by other operations, or repeated recovery.",
 MEM, [("deadline index scan", "memdb.Engine.Chore"), ("recover update", "updateOpsRecover")], ["GetTask after Chore", "Poll after Chore"],
 [("active-deadline index", "active tasks by deadline", "memdb schema")])

prop("C05", "Only completed tasks past their retention period are ever expired",
 "On the in-memory engine, a background job deletes a completed task once at least the retention period has passed since it was claimed, and not before that. It never deletes a pending, active or archived task, nor a completed task that was never claimed, however old. No other operation makes a task disappear unless it was asked to delete that task, its topic or everything.",
 ["histories", "inputs", "configurations"], "every database of up to three tasks over all states and claim times around the retention boundary, for several retention periods, and every history of completing, archiving, reopening and time steps up to a depth",
 "The suite expires one task with one retention period; it does not vary state, boundary, several tasks per pass, or state changes before expiry.",
 MEM, [("completed-consumed index scan", "memdb.Engine.Chore")], ["GetTask/ListTasks/GetTopic after Chore"],
 [("completed index", "completed tasks by claim time", "memdb schema")])

prop("C06", "Task, topic and promise operations follow one simple reference model",
 "On the in-memory engine every sequence of operations on tasks, batches, topics and promises gives the results and the contents of a plain map from task ID to task: IDs are unique across topics, inserting an existing ID is a conflict (or is skipped in a batch), upserting replaces the whole task, and deleting and counting affect exactly the named task, topic or everything. Batches report how many tasks were created and updated, missing tasks, topics and promises are reported as not found, and a failing operation changes nothing. What is stored changes only through these operations: what a caller later assigns to the fields of a task it passed in or was given does not alter it.",
 ["histories"], "every sequence of operations up to a depth over two or three IDs and two topics, including batches with duplicates, and every operation from every small database",
 "The suite walks one long fixed script; the reference model is compared on all short histories, including those that leave stale index entries behind.",
 MEM, [("write transactions with clone", "memdb task.go, topic.go, promise.go")], ["all Engine methods"],
 [("task table", "one row per task ID", "memdb schema")])

prop("C07", "Concurrent operations on the in-memory engine are linearizable",
 "Operations issued concurrently against the in-memory engine behave as if each took effect at one instant between its call and its return: results and final contents are always those of some sequential order that respects real time. In particular batches are all-or-nothing to every reader, lists and counts come from a single state, and background recovery and expiry are atomic. No interleaving deadlocks, panics or loses an acknowledged update.",
 ["schedules"], "every interleaving at synchronisation operations of all pairs of operations, and preemption-bounded interleavings of triples and of two-operation clients, from several initial databases",
 "Race-free runs of the suite sample a handful of interleavings of inserts; atomicity between arbitrary operations is never checked.",
 MEM, [("single writer lock and atomic root", "go-memdb Txn as used by memdb")], ["results of all Engine methods under schedules"],
 [("root", "immutable tree swapped at commit", "go-memdb")])

prop("C08", "Pages of a listing partition it and counts agree with it",
 "For every database, listing the topics, the tasks of a topic or the promises of a topic returns each matching resource exactly once and nothing else over any sequence of adjacent pages, each page holding at most the requested number and being full unless the listing ends there. Repeating a listing on unchanged data gives the same order, a topic exists exactly when it has tasks, and its reported count is the number of tasks listed. Over the API the limit defaults to ten (or the configured maximum if smaller), an empty listing is an empty list, and negative or excessive limits and offsets are refused as bad requests.",
 ["inputs", "configurations"], "every database of up to four tasks over topics, states and prefix-related names, every limit and offset around the listing size, and every pagination parameter shape for several configured maxima",
 "The suite lists a few fixed pages; off-by-one slips at other offsets, topic boundaries and configured maxima are not sampled.",
 ["internal/engine/memdb/task.go", "internal/engine/memdb/topic.go", "internal/engine/memdb/promise.go", "internal/middleware/pagination.go", "internal/controller/task.go", "internal/controller/topic.go", "internal/controller/promise.go"],
 [("index iteration with offset and limit", "ListTasks, ListTopics, ListPromises"), ("pagination middleware", "middleware.Pagination")], ["List* and GetTopic", "GET endpoints"])

prop("C09", "A snapshot restores exactly the tasks that were stored",
 "Closing the in-memory engine with a snapshot configured and opening a new one on the same file restores every task with the same ID, topic, state, nonce, producer, consumer, times and payload, and no other task; opening without a file gives an empty engine. This holds for every task the engine accepts, in particular every payload representable in JSON and every time representable in a request. The restored engine behaves like the original: polling, commits under claims made before the restart, recovery, expiry and listings give the same results.",
 ["inputs", "histories"], "every combination of task states, present and absent times at extreme values and zones, and every JSON payload up to a small size and nesting, plus every operation after a restart inserted at each point of short histories",
 "The suite saves and reloads a few plain tasks; it does not vary payload shapes, zones or what happens after the reload.",
 ["internal/engine/memdb/memdb.go", "ratus.go"], [("gob encoding and registered payload types", "memdb save/load, ratus init"), ("load into a write transaction", "load")], ["Engine.Close then Engine.Open", "GetTask, Poll, Commit, Chore after reopen"])

prop("C10", "A crash or I/O error never corrupts or silently loses the snapshot",
 "At every instant, including during and right after writing a snapshot and whatever unsynchronised data a crash drops, the snapshot file is absent (only before the first one), or a complete previous snapshot, or the complete new one, so a restart always succeeds with the contents of one of them, and a crash of the process alone never loses one whose writing was reported successful. If an I/O step of writing a snapshot fails, the operation reports an error, the previous snapshot stays intact, and the next background job tries again. A snapshot that cannot be read or decoded makes opening fail rather than start with partial data.",
 ["crash_points", "fault_sequences"], "every crash point of the file-system trace of short histories of saves, every subset of unsynchronised data lost or torn, and every single (and pairs of) I/O failures",
 "The suite never crashes and only tests a missing directory; torn or unsynchronised files cannot be produced by a unit test on a live file system.",
 ["internal/engine/memdb/memdb.go", "internal/engine/memdb/queue.go"], [("write to temporary file then rename", "memdb save"), ("transactional load", "memdb load")], ["files left on disk", "Engine.Open result", "Engine.Chore/Close error"],
 [("saved", "time of the last snapshot", "memdb.Engine")], "os package replaced by a recording file system at build time (overlay, no change in /repo)")

prop("C11", "Snapshots are consistent cuts, taken on schedule and at close",
 "Every snapshot of the in-memory engine equals the contents of the database at one instant between the start of the background job (or close) that wrote it and its end, even while clients keep writing, and saves running at the same time never leave a damaged file. The first background job writes a snapshot and a later one does exactly when the snapshot interval has elapsed since the last successful one; without a configured path no file is ever touched. Closing always writes the final contents, so every operation acknowledged before the close is in it, and destroying the engine leaves no snapshot behind.",
 ["schedules", "histories", "configurations"], "every interleaving of a snapshotting background job or close with one or two writers, and every history of writes, time steps and background jobs up to a depth for several intervals",
 "The suite takes one snapshot with no concurrent writer and does not look at the interval.",
 ["internal/engine/memdb/memdb.go", "internal/engine/memdb/queue.go"], [("immutable snapshot transaction", "memdb save"), ("interval check under a mutex", "memdb.Engine.Chore")], ["snapshot file contents", "file modification events"],
 [("saved", "time of the last snapshot", "memdb.Engine")])

prop("C12", "Graceful shutdown finishes accepted requests and persists them",
 "When the server process receives an interrupt or termination signal at any point of a request's life, it stops accepting connections, finishes every request it has begun to serve and delivers the complete response, then exits successfully on its own. Every write acknowledged before the process exits, including those completed after the signal, is in the final snapshot and present after a restart. With idle connections open, or with the background jobs or the API server disabled, it still terminates. A process that cannot listen, cannot load its data or cannot write the final snapshot ends with a failure status instead of lingering or reporting success, and leaves the data it had stored intact.",
 ["schedules", "crash_points", "configurations"], "every placement of the signal relative to the phases of up to two in-flight requests (connecting, mid-headers, mid-body, in the database, mid-response, idle), both signals, each combination of enabled components, and every failing operation of the final save or of the start",
 "No test starts the process; the shutdown path of the main package is never executed.",
 ["cmd/ratus/main.go", "internal/engine/memdb/memdb.go"], [("signal handling and server shutdown", "serve"), ("deferred engine close", "run")], ["HTTP responses, end and status of the process, contents after a restart"])

prop("C13", "Invalid requests are refused and change nothing",
 "Every request that contradicts the documented contract, because its body is not JSON of the expected type, a time or duration is malformed, a state or number is outside the defined ones, an identifier contradicts the path, or a task ID or topic is missing, is answered with 400 and an error body, and the stored tasks are exactly as before. Bodies that are optional (claims and commits) may be empty but are never silently ignored when malformed, and a batch with one invalid entry is refused as a whole; of a body only the first JSON value counts. Unknown paths give 404, and no request makes the server drop the connection or fail internally.",
 ["inputs"], "every combination of endpoint, path prefix and body or query mutation (each field absent, valid, wrongly typed, out of range, malformed; truncation of a valid body at every byte) against a database with pending, active and completed tasks",
 "The suite posts a few invalid bodies to task endpoints only, and not those for claims and commits.",
 ["internal/middleware/task.go", "internal/middleware/commit.go", "internal/middleware/promise.go", "internal/controller/controller.go", "internal/router/router.go"], [("binding and normalisation", "middleware.Task/Tasks/Promise/Commit")], ["HTTP status and body", "engine contents before and after"])

prop("C14", "Valid requests are normalised to exactly the documented task changes",
 "For every valid request, the path supplies a missing task ID and topic, a missing creation time becomes the time of acceptance, a missing scheduled time becomes the acceptance time plus the given relative delay (or the acceptance time itself), a missing deadline becomes the acceptance time plus the given timeout or ten minutes, and a commit without a state completes the task; absolute times always take precedence over relative ones and relative fields are never stored. Every other field is stored and returned exactly as sent (numbers as IEEE doubles), claims accept their fields from the body or the query alike, and one request never influences how another is interpreted. Both path prefixes behave identically, and success is 201 exactly when something was created.",
 ["inputs", "histories"], "every combination of presence and absence of the fields of tasks, claims and commits, over all endpoints and both prefixes, under a controlled clock, alone and after another request",
 "The suite checks a few single fields in isolation and cannot control the clock.",
 ["internal/middleware/task.go", "internal/middleware/commit.go", "internal/middleware/promise.go", "internal/controller/task.go", "internal/controller/promise.go", "internal/controller/controller.go"], [("normalisation", "normalizeTask, normalizePromise, normalizeCommit")], ["HTTP responses", "engine contents"])

prop("C15", "The HTTP API and client are a faithful view of the engine",
 "Every operation history carried out through the Go client over HTTP gives the same results as the same operations on the engine itself: the same tasks, counts and lists, and errors of the same kind (bad request, not found, conflict, client closed request, unavailable, internal). Every error kind an engine can report, wrapped or not, reaches the client as that kind with its message and the matching status code (400, 404, 409, 499, 503, 500), and the client never reports success for an answer that is not a success of the API. The readiness probe fails exactly when the engine is not ready, and liveness always succeeds.",
 ["histories", "fault_sequences"], "every operation history up to a depth through client, router and in-memory engine, and every client method against every error an engine can return, wrapped and unwrapped",
 "The suite calls each client method once against a stub with fixed answers; most error kinds never travel the whole path.",
 ["client.go", "ratus.go", "transport.go", "internal/controller/controller.go", "internal/controller/task.go", "internal/controller/promise.go", "internal/controller/topic.go", "internal/controller/health.go", "internal/router/router.go"], [("error mapping both ways", "ratus.NewError, Error.Err"), ("client endpoints", "Client methods")], ["Client method results", "HTTP status codes"])

prop("C16", "Any topic name and task ID addresses exactly itself end to end",
 "Task IDs and topic names are arbitrary non-empty strings of valid UTF-8: through the client, the API and the in-memory engine, an operation on one name affects exactly the tasks with that name and never those of another name, including names that are prefixes of one another, differ in case, or contain slashes, dots, percent signs, spaces, query or fragment characters, non-ASCII characters or control characters (plus signs are documented as unsupported). An operation given an empty name fails or finds nothing, and in particular never widens to other tasks or topics.",
 ["inputs"], "all pairs of distinct names over a small alphabet of awkward characters up to length three, each operation addressed to one of them while the other exists, plus the empty name",
 "The suite uses plain numeric IDs and short alphabetic topics only.",
 ["client.go", "internal/router/router.go", "internal/engine/memdb/memdb.go", "internal/engine/memdb/indexer.go"], [("path escaping and raw-path routing", "Client endpoints, router.New"), ("terminated index keys", "memdb indexes")], ["tasks and topics read back after each operation"])

prop("C17", "Subscriptions deliver each claimed task once, commit it, and keep going",
 "A subscription hands every task it obtains to the handler exactly once and, unless the handler already committed or the claim ran out, commits it afterwards; it makes no request other than polls for its topic with its consumer name and timeout and those commits. After a success it polls again after the poll interval, after an empty topic after the drain interval without bothering the handler, and after any other error it reports that error to the handler once and polls again after the error interval. It runs one poller per configured concurrency, started one concurrency delay apart and each handling one task at a time, never stops by itself, and returns with the context's error, starting no further poll, once the context ends.",
 ["fault_sequences", "schedules", "configurations"], "every sequence of server answers (task, empty, server error, malformed answer, connection failure, failed commit) and handler behaviours up to a depth, every cancellation point, and one to three pollers, under a controlled clock",
 "The suite counts events in a 150 ms window of real time against a fixed stub.",
 ["client.go", "context.go", "transport.go"], [("polling loop per goroutine", "Client.Subscribe"), ("automatic commit", "Context.Commit")], ["requests seen by the server with virtual times", "handler invocations"])

prop("C18", "A claimed task's context commits at most once with exactly the chosen updates",
 "The context returned by a poll carries the claimed task, expires after the difference between the task's deadline and claim time, and on commit sends one update for that task made of the claim's nonce, the completed state by default, and exactly the fields set through its methods, the last setting of each field winning. After a commit succeeded further commits send nothing and succeed; after one failed the error is returned and a later commit tries again. Reset restores the default update, a forced commit omits the nonce, abstaining and retrying or rescheduling make the task pending, and archiving archives it.",
 ["inputs", "fault_sequences"], "every sequence of context methods up to a depth combined with every sequence of server answers to the commits, and deadlines in every relation to the claim time, under a controlled clock",
 "The suite checks a few single setters with a stub that always accepts.",
 ["context.go", "client.go"], [("commit builder and committed flag", "Context")], ["PATCH requests seen by the server", "Context deadline and errors"])

prop("C19", "The MongoDB engine follows the same reference model, in both modes",
 "Every operation history gives, on the MongoDB engine, the results of the same reference model as the in-memory engine (task, batch, topic and promise operations, polling order and eligibility, claims, nonce-checked commits, recovery of timed-out tasks), whether it uses the preferred atomic commands or the optimistic fallbacks. Differences are limited to what the database dictates: times are kept to the millisecond, completed tasks are expired by the database itself, and replacing a task by an identical one may not count as an update. Every query names an index that exists and covers the matching tasks.",
 ["histories", "configurations"], "every operation history up to a depth and every operation from every small database, in atomic and fallback mode, against an in-process model of the database server speaking its wire protocol",
 "The repository's MongoDB tests need a server and are skipped; no behaviour of this engine is exercised at all.",
 MON, [("single findAndModify commands", "pollAtomic, commitAtomic, …"), ("peek then conditional update", "pollOptimistic, commitOptimistic, …")], ["results of all Engine methods", "documents in the database"])

prop("C20", "MongoDB fallbacks stay exclusive and nonce-safe between instances",
 "With several engine instances sharing one database and any interleaving of their commands, in preferred or fallback mode or mixed, at most one ordinary claim succeeds per pending task, a commit with a nonce is accepted only under the claim in force and at most once, no update is lost, and polls that lose a race go on to the next available task rather than fail while another is due. Operations other than fallback replacement (documented as delete followed by insert) leave the database as some sequential order of the operations that succeeded would. Every operation terminates once the others stop.",
 ["schedules", "configurations"], "every interleaving at database-command granularity of two (and three) concurrent operations over colliding tasks, from several initial databases, in preferred, fallback and mixed mode",
 "The repository's MongoDB tests are skipped and sequential; races between commands of two instances cannot be provoked by a unit test.",
 MON, [("all known fields in the update filter", "pollOptimistic, commitOptimistic, insertPromiseOptimistic, upsertPromiseOptimistic"), ("retry on lost race", "pollOptimistic, upsertPromiseOptimistic")], ["results of concurrent Engine methods", "documents in the database"],
 [("nonce, state, topic", "optimistic lock fields", "task document")])

prop("C21", "The MongoDB engine sets up indexes and falls back exactly when it must",
 "Opening the MongoDB engine creates every index its queries name, with the expiry of completed tasks set to the configured retention period, also when an index with a different period already exists, and does nothing of the kind when index creation is disabled. A preferred command refused by the server because of sharding restrictions is retried through its fallback within the same call, and later calls of that operation use the fallback directly; any other error is returned without a fallback and without changing later behaviour, and with fallbacks disabled every error is returned. Disabling atomic polling makes only polling use its fallback.",
 ["fault_sequences", "configurations"], "every operation with every error code injected at each command it issues, followed by every operation, for every combination of fallback settings, and every pre-existing index situation at open",
 "The repository's MongoDB tests are skipped; no error path of the driver is exercised.",
 MON, [("branch on server error codes", "branch"), ("createIndexes and collMod", "createIndexes")], ["commands seen by the database", "engine results"])

prop("C22", "Background jobs run on schedule, survive errors, and stop on request",
 "With a positive interval the process runs its first background job after the configured initial delay (or within it, if randomised) and then once per interval for as long as it lives, whatever errors individual runs return. With an interval of zero it never runs one. On an interrupt or termination signal it starts no further run, and the process ends after the one in progress.",
 ["fault_sequences", "histories", "configurations"], "every combination of interval, initial delay and randomisation setting, every pattern of failing and succeeding runs up to a depth, and every signal time relative to the runs, under a controlled clock",
 "No test runs the background loop.",
 ["cmd/ratus/main.go"], [("ticker loop", "chore")], ["database commands or file-system operations of each background job with virtual times", "process end"])

prop("C23", "Metrics count exactly the accepted operations",
 "After any history of requests, the produced, consumed and committed counters exposed to Prometheus have grown, per topic and producer or consumer, by exactly the number of tasks the successful requests created or replaced, claimed, and committed (a batch counts as a whole under its topic and the producer of its first task); failed requests count nothing. Every request to a route of the API is counted once in the request duration histogram under its method, route and status code. Reading the metrics changes nothing else.",
 ["histories"], "every history of requests up to a depth over single and batch writes, claims, polls and commits, successful and failing",
 "The suite only checks that the metrics endpoint responds.",
 ["internal/controller/task.go", "internal/controller/promise.go", "internal/controller/metrics.go", "internal/middleware/prometheus.go", "internal/metrics/metrics.go"], [("counter updates after each successful call", "controllers")], ["GET /metrics"])

prop("C24", "Every option does what it says, from flags or environment alike",
 "Every option of the program has the documented effect and only that, however it is given: as a flag with the value apart or attached, as an environment variable, or both (the flag wins), alone or with other options, and documented defaults apply otherwise. This covers the address and port (none for port 0), the interval, initial delay and randomisation of background jobs, both pagination limits, the engine by name in any case, the snapshot path and interval, the retention period of each engine, and the MongoDB address, database, collection and its three switches. Options of the engine that is not in use change nothing. A value that cannot be understood, an unknown option or an unknown engine keeps the process from starting: it ends with a non-zero status without listening.",
 ["configurations"], "every choice of up to two (thorough three) options with several values each, each given in four ways, for both engines, on the real process observed from outside; and every malformed value of every option",
 "The suite never runs main with options; whether an option reaches the code that should honour it is not tested at all.",
 ["cmd/ratus/main.go", "internal/config/config.go", "internal/engine/memdb/memdb.go", "internal/engine/mongodb/mongodb.go", "internal/middleware/pagination.go"], [("argument parsing", "arg tags of the config structs"), ("wiring", "run, serve, chore, engine constructors")], ["address listened on and dialled", "files, indexes and documents written, with virtual times", "HTTP answers", "process end"])

prop("C25", "Client requests go to its origin with its headers, and end in time",
 "Every request a client makes, by whichever method, in a subscription, through a context or following redirects, is sent to the scheme, host and port of the client's origin, carries each configured header exactly once with its value, and a user agent that is Ratus-Client unless configured; redirects that keep the method keep the body too. Settings of one client affect no other client and no other HTTP traffic of the program, and an origin that is no URL is refused. A call ends with an error no later than the configured timeout (never by itself if there is none) and as soon as its context ends, with the context's error if the answer has not begun, wherever the exchange stalls: connecting, sending, waiting, or in the middle of an answer. The client then works as before. Any number of calls can be in progress at the same time, and calls made one after another, whatever their results, do not accumulate open connections.",
 ["configurations", "fault_sequences", "histories"], "every method with every kind of origin, header set and answer including redirects; every method with every point of stalling, timeout and end of the context; bursts of up to 300 (2100) calls; all words of 3 (4) kinds of answers; all turns of three clients",
 "The suite makes one call per method to a server that answers at once, and never looks at what the server received.",
 ["client.go", "transport.go", "context.go"], [("origin and header rewriting", "transport.RoundTrip"), ("HTTP client", "NewClient"), ("request helper", "Client.Request")], ["addresses connected to and requests received by a server", "results of client methods with virtual times", "connections open"])

prop("C26", "Duration metrics tell how long tasks, requests and jobs really took",
 "After every successful claim the schedule delay shown to Prometheus under the task's topic, producer and consumer is the time between the task's scheduled time and the claim, and after every successful commit the execution duration under these labels is the time since the task was claimed; nothing else changes these values. Every request adds the time it took to the request histogram of its topic, method, route and status code, and every background job, successful or not, adds the time it took to the histogram of jobs: the sum grows by that time and exactly the buckets that include it grow by one.",
 ["histories", "fault_sequences"], "every history of claims, commits and other writes up to a depth with time passing in between; every route with engines that take every duration of a set around the bucket limits; every word of durations and outcomes of background jobs",
 "The suite only checks that the metrics endpoint responds.",
 ["internal/controller/task.go", "internal/controller/promise.go", "internal/middleware/prometheus.go", "internal/metrics/metrics.go", "cmd/ratus/main.go"], [("gauges set after each successful call", "collectMetrics, PatchTask"), ("histograms", "Prometheus middleware, chore")], ["GET /metrics"])

prop("C27", "Every task produced is worked off, end to end, and only as commits say",
 "With the real program running (either engine), subscriptions of the client and their handlers: every task produced is executed no earlier than its scheduled time, under the contents last written, by one execution at a time as long as its claim is in force, again and again until a commit that completes or archives it is accepted (or it is deleted), and never afterwards unless produced again. An execution that ends in a retry, a new schedule, another topic or a new payload is followed by exactly such an execution; one that overruns its timeout, whose worker dies, whose answer is lost on the network or whose claim is revoked or overridden is repeated once the claim has ended, and its own late commit has no effect. None of this is lost when the program is stopped by a signal and started again at any moment, nor when it is killed while its data lives in MongoDB. No task waits longer than the intervals of background jobs, subscriptions and executions in progress explain.",
 ["histories", "fault_sequences", "configurations"], "all words of what handlers, workers and producers do (23 letters) for two tasks, one or two subscriptions with one or two workers; every single loss of a request or of an answer (whole or in part) and pairs; a restart (either signal or a crash, with and without a pause) every 3.5 seconds; both engines; a controlled clock",
 "The suite exercises handlers, client and engines apart from each other and never the program as a whole, nor failures between its parts.",
 ["client.go", "context.go", "cmd/ratus/main.go", "internal/controller/promise.go", "internal/controller/task.go", "internal/engine/memdb/memdb.go", "internal/engine/mongodb/mongodb.go"], [("poll, execute, commit loop", "Client.Subscribe"), ("recovery and expiry", "Chore"), ("nonce check", "Commit")], ["executions of handlers with virtual times and the tasks they receive", "tasks read through the API at the end"])

prop("C28", "However a request travels, its answer and its effect are the same",
 "A request to the running program means the same however it reaches it: in one piece or byte by byte with pauses of up to an hour anywhere, with a length or in chunks, under HTTP/1.0 or 1.1, alone or with others on one connection (one after the other or sent ahead), waiting to be asked for its body or not, with or without compression of the answer, from a page of any other origin (whose preflight requests allow every method of the API and JSON bodies), through a proxy, with long headers, next to a thousand connections that are silent, stalled or do not read. It has the same status, media type, body (once decompressed) and effect, its answer arrives whole however slowly it is read, and other clients are served meanwhile. A request whose connection is lost has its whole effect or none, and none unless its body has arrived.",
 ["inputs", "fault_sequences", "configurations"], "every request of a set that covers the API x 22 forms x 4 ways of sending x 3 ways of reading; every split of every request at every byte; all pairs of requests on one connection in every form; connections lost at every byte; up to 1030 (10001) other connections",
 "The suite calls handlers directly with whole requests and never runs the server that main configures.",
 ["internal/router/router.go", "cmd/ratus/main.go", "docs/docs.go", "internal/middleware/middleware.go", "internal/controller/metrics.go"], [("compression and CORS", "router.New"), ("HTTP server", "serve"), ("binding of bodies", "middleware.Tasks, Task, Promise, Commit")], ["bytes on connections to the running program", "tasks read through the API and from the final snapshot"])

prop("C29", "The published API description is served, complete and true",
 "The program serves its description (the start page and all it refers to, and four specification files that agree with each other) byte for byte, with its media type, to any client that asks for it in any form, and nothing else of its file system. Every operation described is available under both prefixes and every route of the API is described. Whatever described requests were made before, every answer to a described request has a described status, media type and body: only described properties, of the described types. Every described property is accepted in a request, kept, and found under its name in what is read afterwards, and a value of another type is refused with status 400 and changes nothing. (Described requests: the body of a wildcard promise has no ID; storage works.)",
 ["inputs", "histories"], "all pairs of requests generated from the description (269 under each prefix) on 7 databases; every set of properties of tasks, promises and commits and every property with a value of another type; every served file in 28 forms; all paths of up to 3 (5) segments and every method",
 "The suite looks for a few words in the served files and never compares answers with the description.",
 ["docs/docs.go", "internal/controller/controller.go", "internal/router/router.go", "ratus.go"], [("embedded description", "Swagger.Mount"), ("routes", "V1.Mount"), ("JSON names of resources", "Task, Promise, Commit, Topic, Updated, Deleted, Error")], ["responses to HTTP requests"])

prop("C30", "Outages of the database pass: probes tell the truth and service resumes",
 "While the database cannot be used (it refuses connections, drops them, has no primary or is shutting down), an instance stays alive: liveness is always confirmed at once, readiness is denied with status 503, and every other request that needs the database is answered within 30 seconds with an error and has no effect. As soon as the database has been usable for 11 seconds, without any restart, the instance is ready, every request works at once and background jobs have resumed, however many outages there were, of whatever length; requests that were waiting when it came back may succeed. An instance started while the database is away starts as soon as it comes back (within 27 s), and one told to stop during an outage stops with status 0. With the embedded engine an instance is ready for as long as it listens, even when its disk fails, and everything is saved once the disk works again.",
 ["fault_sequences", "schedules", "inputs", "configurations"], "every one or two outages of 5 (8) lengths, 4 kinds, 3 (5) moments and 3 (5) gaps, on 3 set-ups; every kind of request at every half second around one; every start and every stop at a grid of moments; each failing operation of the disk",
 "No test of the suite runs without its database once it has started, and readiness is only asked of a stub.",
 ["internal/engine/mongodb/mongodb.go", "internal/controller/health.go", "cmd/ratus/main.go", "internal/middleware/middleware.go"], [("readiness", "Engine.Ready of mongodb; HealthController.GetReadiness"), ("background jobs", "main's chore loop"), ("start and stop", "Engine.Open, Engine.Close; serve")], ["responses of the running program", "contents of the database", "status of the process"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
