"""The checks: which programs decide which property."""

SEQ_ASSUME = [
    "virtual clock of testing/synctest: time passes only when all goroutines sleep",
    "the reference model (go/model) is the specification; it was written from the documentation",
    "sequential histories: one operation at a time (interleavings are explored separately)",
]


def seq(level_note, bounds, **kw):
    d = {"level": "model_checking", "technique": "explicit-state exploration of the real engine against a reference model (all histories up to a depth, all small databases)",
         "level_note": level_note, "bounds": bounds, "assumptions": SEQ_ASSUME,
         "parts": [{"bin": "seq", "name": "histories"}]}
    d.update(kw)
    return d


NOTE = "Exhaustive within the stated bounds on the real code; every explored trace is a trace of the implementation, checked step by step against the reference model. "

CONC_ASSUME = [
    "scheduling points: mutex and atomic operations of the engine, of go-memdb and of nonce generation, file-system and random-source operations, starts and ends of operations; in the build with steps also between any two statements of the engine",
    "memory is sequentially consistent at these points",
    "time stands still during a concurrent phase (virtual clock)",
]

CNOTE = "Stateless exploration of the real engine: every schedule within the preemption bound is executed, and results and final contents are compared with all sequential orders of the reference model. "


def conc(*parts):
    return [{"bin": "steps" if p == "steps" else "conc", "name": p} for p in parts]


CHECKS = {
    "C01": seq(NOTE, "histories of 5 (thorough 6) operations over 16 symbolic operations; all databases of two tasks x all pairs of claims"),
    "C02": seq(NOTE, "histories of 5 (thorough 6) operations over 15; all databases of two tasks x every shape of commit"),
    "C03": seq(NOTE, "histories of 5 (thorough 6) operations over 17; all databases of three tasks x polls of every topic, then drained"),
    "C04": seq(NOTE, "histories of 5 (thorough 6) operations over 14; all databases of three tasks x background jobs, then drained"),
    "C05": seq(NOTE, "histories of 5 (thorough 6) operations over 13; all databases of three tasks x background job for several retention periods"),
    "C06": seq(NOTE, "histories of 4 (thorough 5) operations over 20; all databases of three tasks x every operation"),
    "C07": {"level": "model_checking", "technique": "stateless exploration of all schedules of the real engine under a controlled scheduler, with a linearizability check",
            "level_note": CNOTE, "bounds": "all pairs of 24 operations from 5 databases (no preemption bound); triples of 8 (thorough: all) operations and pairs of two-operation clients (2 preemptions; thorough unbounded); all pairs at statement granularity (2 preemptions, thorough 3)",
            "assumptions": CONC_ASSUME, "parts": conc("sync", "steps", "large")},
    "C10": {"level": "model_checking", "technique": "exhaustive crash-point, lost-write and fault enumeration over the recorded file-system trace of the real engine",
            "level_note": "Every crash state of every history within the bounds is rebuilt and opened by the real engine. ", "bounds": "all histories of 4 (thorough 6) operations over 6, 2 snapshot intervals, every crash point, every subset of unsynchronised data and torn last write, every prefix of unsynchronised directory changes, reopened together with the temporary files that were left; all single and pairs of I/O faults in histories of 5 (6) operations; snapshots cut at every byte",
            "assumptions": ["directory changes reach the disk in order", "data of a file reaches the disk in any subset unless synchronised", "a cut exactly between two records of a snapshot cannot be detected in its format and is not counted as damage"],
            "parts": conc("crash")},
    "C11": {"level": "model_checking", "technique": "stateless exploration of all schedules of saves and writers on the real engine; all histories of writes, time steps and background jobs",
            "level_note": CNOTE, "bounds": "a save against one writer (4 preemptions; thorough unbounded), two writers or a writer of two operations (1-2; 3-4), two saves and a writer (2; 3), statement granularity with 2 (3) preemptions; schedule histories of 4 (6) operations over 9 for 6 configurations",
            "assumptions": CONC_ASSUME, "parts": conc("sync", "steps", "schedule", "large")},
    "C08": seq(NOTE, "all databases of four tasks x every listing x every limit and offset"),
    "C09": seq(NOTE, "JSON payloads to nesting depth 2 (3), times in every field and zone, all field presence masks, and a restart at every point of all histories of 4 (5) operations"),
}

for _p in ("C01", "C03", "C04", "C05", "C06", "C08", "C09"):
    CHECKS[_p]["parts"] += [{"bin": "seq", "name": "sizes"}]
    CHECKS[_p]["bounds"] += "; operations on n tasks for every n to 130 (600) and around powers of two and round numbers to 2048 (10000)"
for _p in ("C01", "C02", "C04", "C09"):
    CHECKS[_p]["parts"] += [{"bin": "seq", "name": "cycles"}]
    CHECKS[_p]["bounds"] += "; every word of up to %s operations repeated 150 (300) times" % ("2 (3)" if _p == "C09" else "3")
CHECKS["C07"]["bounds"] += "; operations on n tasks against another operation (1 preemption), n to 1025 (10001)"
CHECKS["C11"]["bounds"] += "; saves of n tasks against a writer (1 preemption), n to 257 (1025)"

NOT_APPLICABLE = {}

for _p in ("C01", "C02"):
    CHECKS[_p]["parts"] += conc("sync", "steps")
    CHECKS[_p]["technique"] += "; stateless exploration of all schedules of concurrent claims, commits and everything that ends a claim"
    CHECKS[_p]["assumptions"] = CHECKS[_p]["assumptions"][:2] + CONC_ASSUME
    CHECKS[_p]["bounds"] += "; all pairs of 12-14 concurrent operations from 5 databases without a preemption bound, triples and two-operation clients with 3 preemptions (thorough: unbounded), statement granularity with 2 (3) preemptions"


WEB_ASSUME = [
    "virtual clock of testing/synctest; requests are handed to the real HTTP handler, or sent by the real client over an in-memory connection",
    "the reference model (go/model) is the specification; it was written from the documentation",
    "requests one at a time (interleavings of the engine are explored separately)",
]


def web(*parts, **kw):
    return [dict({"bin": "web", "name": p, "rerun_shard": True}, **kw) for p in parts]


WTECH = "explicit-state exploration of the real HTTP handlers (and client) over the real engine against a reference model"
CHECKS["C13"] = {"level": "model_checking", "technique": WTECH + ": every request shape in a bounded space, each on every small database",
                 "level_note": NOTE, "bounds": "every field of every write request x every out-of-range or malformed value; every JSON body of a bounded grammar; every path and query of a bounded set; lists of up to 5001 tasks with an invalid one first, in the middle or last, names and payloads of up to 10001 bytes",
                 "assumptions": WEB_ASSUME, "parts": web("fields", "bodies", "paths", "robust", "sizes")}
CHECKS["C14"] = {"level": "model_checking", "technique": WTECH + ": all sequences of requests up to a depth, answers compared with the API's contract",
                 "level_note": NOTE, "bounds": "sequences of 3 of 70 request shapes on 2 databases; all field presence masks of tasks, batches, claims and commits; lists of up to 5001 tasks and payloads and names of up to 8193 bytes, elements or levels",
                 "assumptions": WEB_ASSUME, "parts": web("pairs", "tasks", "batches", "claims", "commits", "payloads", "sizes")}
CHECKS["C15"] = {"level": "model_checking", "technique": WTECH + ": all sequences of client calls up to a depth; every error and every broken answer",
                 "level_note": NOTE, "bounds": "histories of client calls to a depth, every engine error under every call, every way an answer is broken; lists of up to 5001 tasks, payloads, names and error messages of up to 10001 bytes",
                 "assumptions": WEB_ASSUME, "parts": web("histories", "errors", "broken", "sizes")}
CHECKS["C16"] = {"level": "model_checking", "technique": WTECH + ": every name of a bounded alphabet, in every role, and all pairs of near names",
                 "level_note": NOTE, "bounds": "names of up to 2 (3) characters of an alphabet of special characters, in every role; names of all lengths to 260 and around the usual limits to 10001, next to names that differ in one character",
                 "assumptions": WEB_ASSUME, "parts": web("names", "pairs", "empty", "lengths")}
CHECKS["C23"] = {"level": "model_checking", "technique": WTECH + ": all sequences of requests up to a depth, GET /metrics compared with the counts of the model",
                 "level_note": NOTE, "bounds": "sequences of requests to a depth over every route; 5100 topics, producers and consumers; lists of up to 5001 tasks",
                 "assumptions": WEB_ASSUME, "parts": web("metrics", "sizes")}
CHECKS["C08"]["parts"] += web("http")
CHECKS["C17"] = {"level": "model_checking", "technique": "exhaustive exploration of fault sequences: the real client subscribed to the real API, every script of server answers, handler behaviours and commit outcomes up to a depth, every moment the context may end, against an exact timed model",
                 "level_note": NOTE, "bounds": "scripts of 3 (thorough 4) steps over 26 for one poller and for 2 to 4 pollers, several configurations; the context ending at, just before and just after every event of scripts of 2 (3) steps; every step 300 times in a row and every pair taking turns; 90 pollers",
                 "assumptions": WEB_ASSUME[:1] + ["connections are in-memory pipes; answers take no time except those made slow"], "parts": web("single", "cancel", "many", "long")}
CHECKS["C18"] = {"level": "model_checking", "technique": "explicit-state exploration of the real context: every word of its methods and commits (with every outcome) up to a depth, compared with a reference model of the update sent",
                 "level_note": NOTE, "bounds": "words of 4 (thorough 5) calls over 24; 2160 combinations of claim time, deadline, parent deadline and time of the commit; every pair of calls repeated up to 130 (1001) times",
                 "assumptions": WEB_ASSUME[:1], "parts": web("words", "deadlines", "long")}

MON_ASSUME = [
    "the in-process model of the MongoDB server (go/mongod) stands for the database: single commands are atomic, unordered bulk writes run in order of their list",
    "the real driver and the real engine run over in-memory connections under the virtual clock of testing/synctest; retryable reads and writes are off",
]


def mon(*parts, **kw):
    return [dict({"bin": "mon", "name": p, "rerun_shard": True}, **kw) for p in parts]


CHECKS["C19"] = {"level": "model_checking", "technique": "explicit-state exploration of the real MongoDB engine and driver over a model of the server, against the reference model of the in-memory engine (all histories up to a depth, every operation on every small database)",
                 "level_note": NOTE, "bounds": "histories of 3 (thorough 4) operations over 22 in preferred and fallback mode from 3 databases, and with non-atomic polling and three sharded deployments; every operation on all databases of three tasks; times to fractions of a millisecond; payloads to depth 2; all field presence masks; batches, listings, recoveries and deletions of up to 1025 (8193) tasks and strings as long; words of 2 (3) operations repeated 70 (300) times",
                 "assumptions": MON_ASSUME, "parts": mon("histories", "databases", "values", "sizes", "cycles")}
CHECKS["C20"] = {"level": "model_checking", "technique": "stateless exploration of all interleavings, at the granularity of database commands, of real engine instances sharing a model of the server, with a linearizability check",
                 "level_note": "Every interleaving of every scenario within the bounds is executed on the real engine and driver; results and final documents are compared with all sequential orders of the reference model. ",
                 "bounds": "all pairs of 27 operations from 5 databases in 6 combinations of modes; triples of 9 (thorough: all) operations in 3 combinations; pairs of two-operation clients; a client that loses the race for a task k times in a row, k to 256 (1024)",
                 "assumptions": MON_ASSUME + ["a database command takes effect atomically, including commands that concern several documents"], "parts": mon("pairs", "triples", "programs", "races")}
CHECKS["C21"] = {"level": "model_checking", "technique": "exhaustive fault enumeration on the real MongoDB engine and driver over a model of the server: every error at every command of every operation, under every setting, followed by every operation; every index situation at opening",
                 "level_note": NOTE, "bounds": "39 kinds of errors at each command of 39 operations, and pairs with a refused command; sequences of 2 (thorough 3) of refused, failing and ordinary operations; 5 settings; every subset of existing indexes x periods x errors x orders at opening",
                 "assumptions": MON_ASSUME, "parts": mon("open", "faults", "sequences")}

PROC_ASSUME = [
    "the real main function runs under the virtual clock of testing/synctest with an in-memory network, disk and database; signals are delivered through os/signal's own dispatch",
    "between two events (bytes of a client, a signal, time passing) the process runs until it is idle; of several ready cases of a select each is made to win in turn",
]


def proc(*parts, **kw):
    return [dict({"bin": "proc", "name": p, "rerun_shard": True}, **kw) for p in parts]


CHECKS["C12"] = {"level": "model_checking", "technique": "exhaustive exploration of event orders on the real process: every placement of a signal among the steps of requests, every interleaving of two requests, every failing operation of the final save",
                 "level_note": NOTE, "bounds": "6 requests x every step x 2 engines x jobs on and off x 4 kinds of other connections x 3 gaps x both signals x 3 choices of select; all interleavings of pairs of requests (4, thorough 35 pairs) with the signal; every I/O fault of the final save; every failing start; up to 129 (1025) requests in progress at the signal, at every stage, going on in 3 orders",
                 "assumptions": PROC_ASSUME, "parts": proc("one", "two", "faults", "endings", "many")}
CHECKS["C22"] = {"level": "model_checking", "technique": "exhaustive exploration of fault sequences on the real process under a virtual clock: every word of job outcomes up to a length and a signal at every moment, against a timed specification",
                 "level_note": NOTE, "bounds": "words of 3 (thorough 4) outcomes over 6, signals just before and after every quarter of an interval, 3 choices of select, 2 engines; 5 intervals x 5 delays x API on and off x both signals x 7 signal times; 160 randomised starts; all pairs of outcomes in words of up to 1030 (5001) jobs",
                 "assumptions": PROC_ASSUME, "parts": proc("schedule", "settings", "long")}
CHECKS["C24"] = {"level": "model_checking", "technique": "exhaustive exploration of configurations on the real process under a virtual clock: every choice of a few options, values and ways to give them, each observed from outside through a fixed history",
                 "level_note": NOTE, "bounds": "all choices of up to 2 (thorough 3) of 12 options (memdb) and 15 (MongoDB), 1 to 3 values each, given in 4 ways; malformed values of every option",
                 "assumptions": PROC_ASSUME, "parts": proc("memdb", "mongodb", "refused")}
CHECKS["C25"] = {"level": "model_checking", "technique": "exhaustive exploration of configurations, stalls and cancellations: the real client against a scripted server on an in-memory network under a virtual clock, every combination of method, settings, answer, point of stalling and end of the context",
                 "level_note": NOTE, "bounds": "27 methods x 7 origins x 12 header sets x 30 answers; 27 methods x 10 points of stalling x 3 durations x 3 timeouts x 6 ends of the context; bursts of up to 300 (2100) calls; words of 3 (4) of 8 answers; 1092 turns of three clients",
                 "assumptions": ["connections are in-memory pipes; encrypted connections are followed only to their first byte"], "parts": web("requests", "endings", "many")}
CHECKS["C26"] = {"level": "model_checking", "technique": WTECH + ": all histories up to a depth, all durations of a set, GET /metrics compared with the times of a virtual clock; the same for background jobs of the real process",
                 "level_note": NOTE, "bounds": "histories of 2 (thorough 3) of 56 requests on 3 databases; 42 routes x 18 x 4 durations x outcomes; words of 3 (4) of 12 kinds of jobs, 2 engines",
                 "assumptions": WEB_ASSUME + PROC_ASSUME[:1], "parts": web("gauges", "requests") + proc("chores")}
CHECKS["C27"] = {"level": "model_checking", "technique": "exhaustive exploration of fault sequences on the real process with real subscriptions of the client under a virtual clock: every word of what handlers, workers and producers do, every lost message, every moment of a restart, with monitors of exclusiveness, schedule, contents and progress",
                 "level_note": NOTE, "bounds": "words of up to 2 (thorough 3) of 23 letters for one task next to 5 (23) words of a second one, 3 crews of workers, 4 engines and modes; each loss of one of the first 4 claims or commits in 3 ways and all pairs, on words of 1 (2); a restart every 3.5 s to 40 s, 3 ways, 2 pauses, on words of 1 (2)",
                 "assumptions": PROC_ASSUME[:1] + MON_ASSUME[:1], "parts": proc("words", "network", "restarts")}
CHECKS["C28"] = {"level": "model_checking", "technique": "exhaustive exploration of the ways requests travel, on the real process under a virtual clock: every split, every loss at a byte, every form, every pair on a connection, against one expected answer and effect per request",
                 "level_note": NOTE, "bounds": "20 requests x 22 forms x 4 ways of sending x 3 of reading; splits at every byte x 5 (18) forms x 2 (4) pauses and byte by byte in every form; 400 pairs on a connection x 36 pairs of forms x 3 ways, up to 1030 (10001) requests on one; losses at every byte in 6 (18) forms; up to 1030 (10001) connections at 5 stages; preflight requests of 20 requests from 6 origins",
                 "assumptions": PROC_ASSUME[:1] + ["connections are in-memory pipes; of texts longer than 800 bytes the middle is cut only around powers of two"], "parts": proc("forms", "pieces", "connections", "cuts", "crowds", "browsers")}
CHECKS["C29"] = {"level": "model_checking", "technique": WTECH + ": all sequences of requests generated from the served description, each answer validated against it; all sets of properties; all routes and served files",
                 "level_note": NOTE, "bounds": "all pairs of 269 requests on 7 databases (single requests under the other prefix; thorough: pairs too); 4096 sets of properties of a task x 4 requests, all sets for promises and commits; all paths of 3 (5) of 11 segments x 6 methods; 8 files x 28 forms, 230 other names",
                 "assumptions": WEB_ASSUME + ["the description in /repo/docs is the specification of names, types and statuses"], "parts": web("answers", "fields", "served")}
CHECKS["C30"] = {"level": "model_checking", "technique": "exhaustive exploration of outages (moment, length, kind, gap) on the real process with the real driver against a model of the database, under a virtual clock, with monitors of probes, answers, effects, jobs and the end of the process",
                 "level_note": NOTE, "bounds": "all single outages and pairs over 3 (5) moments, 5 (8) lengths, 4 kinds, 3 (5) gaps, 2 (4) second lengths, 3 set-ups; one outage at 12 moments x 6 orders of requests; starts after 1..27 s; stops every 1.5 s of 3 lengths; 5 operations of the disk",
                 "assumptions": PROC_ASSUME[:1] + MON_ASSUME[:1], "parts": proc("outages", "starts", "stops", "embedded")}
