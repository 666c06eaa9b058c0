#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})

prop("P01", "A semaphore never grants more permits than its capacity",
 "For the channel-based and the lock-based semaphore with n >= 1 permits, in every interleaving of Acquire, TryAcquire and Release the grants behave like one atomic counter between 0 and n: permits granted and not yet released never exceed n. TryAcquire succeeds exactly when a permit is free at some instant during the call, and releasing when nothing is held changes nothing. Concurrent use is free of data races.",
 ["schedules", "histories"], "every interleaving of up to 3 goroutines calling Acquire/TryAcquire/Release on one semaphore, including over-release",
 "The tests start goroutines and look at one schedule; over-grant and lost decrements appear only in particular interleavings of the check and the update.",
 ["concurrent/sema.go"], [("buffered channel as counter", "concurrent/sema.go ChanSemaphore"), ("mutex + condition variable around count", "concurrent/sema.go LockSemaphore")],
 ["Acquire/TryAcquire/Release return order and results"], [{"name": "count / channel occupancy", "meaning": "granted permits", "where": "concurrent/sema.go"}])

prop("P02", "Semaphore waiters are never lost and non-blocking calls never block",
 "In every interleaving, a goroutine waiting in Acquire gets a permit once Release calls make one available that nobody else takes: no wake-up is lost, and with at least as many effective releases as waiters nobody stays blocked. TryAcquire and Release always return without waiting for another goroutine to release a permit.",
 ["schedules"], "every interleaving of up to 4 goroutines (several waiters, several releasers, barging TryAcquire)",
 "A lost wake-up needs a release between a waiter's check and its wait, or one signal for two waiters; the tests release one permit at a time after all waiters have queued.",
 ["concurrent/sema.go"], [("Broadcast on release under the lock, wait in a loop", "concurrent/sema.go LockSemaphore.Release/Acquire"), ("select with default", "concurrent/sema.go ChanSemaphore")],
 ["which calls have returned when no goroutine can run any more"])

prop("P03", "The circuit breaker follows its closed/open/half-open protocol",
 "For every sequence of calls under a non-decreasing clock, Do either runs the task exactly once or calls onOpen exactly once: it refuses exactly when at least failureThreshold failures were recorded since the last success and no more than resetTimeout has elapsed since the most recent failure. A failing task's own error reaches onError exactly once and counts as one failure; a success clears all recorded failures and calls neither callback. A panic of the task or of a callback reaches the caller and leaves the breaker working by the same rules; a task that panics never counts as a success. The never-open breaker always runs the task and only reports its error.",
 ["histories", "configurations"], "all call sequences (success/failure, clock steps around resetTimeout) up to a depth, for several thresholds and timeouts",
 "Tests walk four short scripts with one threshold; failures at the exact timeout boundary, re-opening from half-open, and counts across several open/close cycles are not reached.",
 ["circuitbreaker/circuitbreaker.go"], [("failure counter and timestamp of last failure", "circuitbreaker/circuitbreaker.go SyncCircuitBreaker.state/recordFailure/reset")],
 ["task, onError, onOpen invocations"], [{"name": "failures, lastFailureTs", "meaning": "failures since last success; time of the latest", "where": "circuitbreaker/circuitbreaker.go"}])

prop("P04", "The circuit breaker stays exact under concurrent calls",
 "When several goroutines call Do on one breaker, every admission or refusal and every recorded outcome is explained by some one-at-a-time order of the admission checks and outcome recordings that respects real time; no failure or success is lost and there is no data race. An outcome is recorded before the caller's onError runs or Do returns. Tasks and callbacks run with nothing held inside the breaker, so a slow task or a nested Do never delays other callers.",
 ["schedules", "histories"], "every interleaving of 2-3 goroutines with tasks that succeed, fail, wait for each other or call Do again, and a moving clock",
 "No test calls Do from more than one goroutine except benchmarks that check nothing.",
 ["circuitbreaker/circuitbreaker.go"], [("RWMutex around counter and timestamp only", "circuitbreaker/circuitbreaker.go")],
 ["task, onError, onOpen invocations and return of Do"])

prop("P05", "Token buckets grant what they hold and refill at the issue rate",
 "For both token buckets under a non-decreasing clock, a new bucket holds `capacity` tokens, a call succeeds exactly when a token is left and consumes one, and `issueRatePerSecond` tokens are added per whole second since the last issue (or since the bucket was last seen full), never beyond capacity. So over any stretch of time the grants never exceed capacity plus rate times the elapsed seconds, however long the bucket was idle before. An empty bucket with positive rate and capacity grants again one second later at the latest.",
 ["histories", "configurations"], "all sequences of acquires and clock steps (fractions and multiples of a second, long idles) up to a depth, for several capacities and rates, both implementations",
 "The tests use a full bucket drained immediately after creation with one clock jump; idle-then-burst and partially filled histories are never compared with the allowed total.",
 ["ratelimiter/tokenbucket.go"], [("lazy issue on acquire", "ratelimiter/tokenbucket.go issueIfNecessary")],
 ["Acquire results against a virtual clock"], [{"name": "tokens, lastIssueTimestamp", "meaning": "tokens left and when they were last issued", "where": "ratelimiter/tokenbucket.go"}])

prop("P06", "Token buckets stay exact under concurrent acquirers",
 "For both token buckets, in every interleaving of concurrent Acquire calls and clock advances, the total number of grants never exceeds capacity plus rate times the whole seconds elapsed, and a token issued for one period is never issued twice. No token is lost either: callers are refused only when the tokens due by then have been granted to others. Concurrent use is free of data races.",
 ["schedules"], "every interleaving of 2-3 acquirers (1-3 calls each) around a refill instant",
 "Double refill needs two goroutines inside the lock-free issue path at the same instant; the tests are single-threaded.",
 ["ratelimiter/tokenbucket.go"], [("mutex", "SyncTokenBucket"), ("compare-and-swap of tokens and issue timestamp", "AtomicTokenBucket.issueIfNecessary/Acquire")],
 ["number of successful Acquire calls"])

prop("P07", "A fixed window admits exactly its capacity per interval",
 "Time is cut into consecutive intervals of length windowSize, aligned to multiples of windowSize since the Unix epoch and including their right end. For every history under a non-decreasing clock, each interval admits exactly its first `capacity` requests and rejects every later one, regardless of how requests, idle gaps and interval boundaries fall.",
 ["histories", "configurations"], "all sequences of acquires and clock steps (to, just before, on and just past boundaries, across many intervals) up to a depth at present-day timestamps",
 "Tests check one interval and one boundary crossing; boundaries at real timestamps, long gaps and first requests near a boundary are not covered.",
 ["ratelimiter/fixedwindow.go"], [("window end extended in multiples of windowSize, counter reset", "ratelimiter/fixedwindow.go reset/contains")],
 ["Acquire results against a virtual clock"], [{"name": "until, count", "meaning": "right end of the current interval; admitted in it", "where": "ratelimiter/fixedwindow.go"}])

prop("P08", "A sliding window never admits more than its capacity in any window",
 "With capacity c > 0 and window W, under a non-decreasing clock a request at time t is admitted exactly when fewer than c remembered admissions lie in [t-W, t]; rejected requests are not counted, and capacity 0 (or negative) admits everything without counting it. The limiter remembers its most recent admissions, as many as its capacity. UpdateConfig takes effect for the next request: what is remembered stays so, except that lowering the capacity to c forgets all but the c most recent, and Capacity and WindowSize report the values in force.",
 ["histories", "configurations"], "all sequences of acquires, clock steps around W and UpdateConfig calls (grow, shrink, zero, negative) up to a depth",
 "Tests try one reconfiguration per run; sequences that mix admissions, rejections and several reconfigurations are not enumerated.",
 ["ratelimiter/slidingwindow.go"], [("list of admission timestamps bounded by capacity", "ratelimiter/slidingwindow.go")],
 ["Acquire/Capacity/WindowSize results against a virtual clock"], [{"name": "records", "meaning": "timestamps of the most recent admissions", "where": "ratelimiter/slidingwindow.go"}])

prop("P09", "The Redis TTL limiter blocks exactly when its rate is exceeded",
 "For every sequence of calls over time, a request is blocked while its block key is active, reporting the remaining seconds and the message that triggered the block, and such requests consume nothing. Otherwise it passes exactly when fewer than capacity requests of its key passed within the last window seconds; else it starts the block: exactly that request is reported as triggered with the configured timeout and its own message, and the block ends timeout seconds later.",
 ["histories", "configurations"], "all sequences of ShouldBlock/ShouldBlock2 calls and clock steps up to a depth, for parameters with window shorter, equal and longer than timeout",
 "All tests of this component need a Redis server and are skipped; even those run one script of calls with sleeps.",
 ["ratelimiter/ttl_ratelimiter_redis.go"], [("Lua script executed atomically by Redis", "ratelimiter/ttl_ratelimiter_redis.go script1")],
 ["Result of ShouldBlock*/ShouldBlock2* on a Redis stand-in with virtual time"], [{"name": "_rl:<key> list, <blockKey>:bl string", "meaning": "admission times; active block and its message", "where": "Redis"}])

prop("P10", "The Redis TTL limiter fails open and only returns legal results",
 "If the parameters are not all positive, or Redis refuses, drops or errors on the command (unreachable, lost connection, error reply, script not loaded), the call returns the all-zero pass result without panicking, and a later call works again once Redis does. The Context variants hand their context to the Redis client, and one that has ended makes the call pass without asking Redis. Every result has one of the three documented forms: pass with ttl 0 and empty message, or blocked with ttl > 0 and the block's message, triggered or not.",
 ["fault_sequences", "configurations", "histories"], "every placement of one or two faults (each kind) in short call histories; every sign combination of parameters; sub-second positions inside a block's last second",
 "No test injects a Redis failure and none looks at the last second of a block.",
 ["ratelimiter/ttl_ratelimiter_redis.go", "ratelimiter/ttl_ratelimiter.go"], [("error check before decoding the reply", "ttl_ratelimiter_redis.go ShouldBlock2Context/IsBlockedContext"), ("parameter guard", "ttl_ratelimiter.go isParamsNotSet and script1")],
 ["Result values under injected faults"])

prop("P11", "TTL limiter blocks are visible to IsBlocked and isolated per key",
 "For both constructors (single node and cluster), once a block is triggered on a block key, IsBlocked on that block key reports it with the same message and remaining seconds until it ends, never as triggered, and IsBlocked never changes any state. Requests with other keys are counted separately and other block keys are unaffected, while different keys sharing one block key are blocked together. In cluster mode both Redis keys of a call carry the configured hash tag, so that they live in one slot.",
 ["histories", "configurations"], "all call sequences over two keys and two block keys, both constructors, hash tags with and without braces",
 "Redis-backed tests are skipped, and none covers the cluster constructor together with IsBlocked.",
 ["ratelimiter/ttl_ratelimiter_redis.go"], [("key prefix/suffix and hash tag", "ttl_ratelimiter_redis.go"), ("read-only script", "script2")],
 ["Result of IsBlocked*, keys sent to the Redis stand-in"])

prop("P12", "Window limiters stay exact under concurrent use",
 "For the fixed and the sliding window limiter, every interleaving of concurrent Acquire calls, clock advances and (sliding window) UpdateConfig calls has results explained by some one-at-a-time order that respects real time. In particular an interval or window never admits more than its capacity, no request is rejected while capacity is left, and there is no data race or deadlock.",
 ["schedules"], "every interleaving of 2-3 goroutines with 1-2 calls each, with the clock moving past a boundary in between",
 "Tests of the limiters are single-threaded; benchmarks check nothing.",
 ["ratelimiter/fixedwindow.go", "ratelimiter/slidingwindow.go"], [("mutex around check and update", "fixedwindow.go Acquire, slidingwindow.go Acquire/UpdateConfig")],
 ["Acquire results"])

prop("P13", "The config store serves the last accepted value or the default",
 "For every sequence of operations, reading a registered key yields its last accepted update, or the default when there is none since registration, reset or deregistration; unregistered keys are misses (Must readers panic). A value its processor rejects is never stored or served and is reported with key, value and reason; registration fails without effect for an empty or duplicate key, a missing processor or an invalid default. The typed and the string view always describe the same value, and batch operations act like their single counterparts in order, keeping valid entries when others fail. An operation that panics because a processor does leaves the key as it was and the store usable.",
 ["histories", "inputs"], "all operation sequences over two keys and a small set of valid and invalid values up to a depth, every read checked after every step",
 "Tests run each operation once or twice on a fresh store; interactions (reset after update after re-registration, duplicates in a batch) are not enumerated.",
 ["confstore/store.go", "confstore/interface.go"], [("processor, default and value maps", "confstore/store.go defaultImpl")],
 ["return values of all Interface methods"], [{"name": "kv/kvStr/kvDefault/kvProcessor", "meaning": "current values, defaults and processors per key", "where": "confstore/store.go"}])

prop("P14", "Accepted updates, and only those, are persisted and survive a restart",
 "After Update or BatchUpdate the persistence layer holds exactly the accepted values: every accepted entry for a registered key is saved, rejected or unregistered entries and UpdateNoPersist never reach it, and ResetKey and DeregisterKey remove the key from it. A new store loading from the same persistence (in particular the Redis one) therefore serves the same values as the old one. A failing persistence layer never panics the store or corrupts the values in memory, and after a failed save or load later ones work again.",
 ["histories", "fault_sequences"], "all operation sequences over two keys up to a depth, with restarts at every point and a persister failure at every single call",
 "Tests use the no-op persister (Redis ones are skipped), so nothing observes what is persisted.",
 ["confstore/store.go", "confstore/persister.go"], [("save after accepted update", "confstore/store.go Update/BatchUpdate"), ("hash in Redis", "confstore/persister.go redisPersister")],
 ["persister contents, values served by a store loading from it"])

prop("P15", "The config store is linearizable under concurrent use",
 "In every interleaving of concurrent registrations, deregistrations, updates, resets and reads (no persistence, no loading), all results are explained by some one-at-a-time order that respects real time: readers see whole values only, a deregistered key never reappears, and no value converted for one registration is served under another. There is no data race, panic or deadlock.",
 ["schedules"], "every interleaving of 2-3 goroutines with 1-2 operations each on one or two keys",
 "Tests are single-threaded; the windows lie between looking up the processor and storing the converted value.",
 ["confstore/store.go"], [("two RWMutexes", "confstore/store.go kvProcessorLock, kvLock")],
 ["return values of concurrent operations"])

prop("P16", "The load policy bounds staleness and load frequency",
 "With minimum interval m > 0, in every interleaving of readers and clock advances a read at least m after the last successful load triggers a load before answering, no load starts less than m after a successful one finished, and loads never run concurrently. A failed load is not counted, so the next read loads again and its error is returned by the policy; nor is a load that panics, which leaves the policy usable. With m <= 0 and with the simple policy every read loads; the no-op policy never does.",
 ["schedules", "histories", "fault_sequences"], "all sequences of policy calls and clock steps around m with loads succeeding or failing; every interleaving of 2-3 concurrent readers",
 "One test sleeps 15 ms once with a load that always succeeds; failing and concurrent loads are not covered.",
 ["confstore/loader.go", "confstore/store.go"], [("timestamp of last successful load under a mutex", "confstore/loader.go defaultLoadPolicy")],
 ["load calls seen by a persister stand-in"])

prop("P17", "Value processors accept exactly their grammar and convert faithfully",
 "For every string, each built-in processor accepts exactly the values of its documented kind: lengths or ranges with their inclusive/exclusive ends, true/false, integers, durations, enum members, URLs, RSA keys, and colours that are exactly # plus six hex digits (empty where allowed). Validation never panics, a rejection carries a non-empty reason and an acceptance an empty one, and every accepted value converts to the value it denotes with the documented type.",
 ["inputs"], "all strings up to a length over small alphabets per processor, all boundary settings of ranges, and the RSA key kinds",
 "The tests list a dozen values per processor; embedded matches, range ends, and keys of another algorithm are not tried.",
 ["confstore/procs.go", "util/rsa/util.go"], [("Validate/Convert pairs", "confstore/procs.go")],
 ["Validate and Convert results"])

prop("P18", "The event bus delivers every event once and in order",
 "In every interleaving of publishers, the dispatcher and consumers, each receiver that stays registered gets the events published after its registration in the order the bus accepted them, without duplicates or invented events. A Block receiver gets all of them; a Drop receiver misses an event only if its buffer was full (unbuffered: nobody was waiting) when that event was dispatched, and then no other receiver is affected. There is no data race.",
 ["schedules", "configurations"], "every interleaving of 1-2 publishers, the dispatcher and 1-2 consumers, for buffer sizes 0-2 and both strategies",
 "Tests send one event to two receivers that are ready; ordering, full buffers and mixed strategies are not exercised.",
 ["event/bus.go"], [("single dispatch loop under a read lock", "event/bus.go doDispatch/onEvent")],
 ["values read from Receiver.C"], [{"name": "recvMap", "meaning": "registered receivers by name", "where": "event/bus.go"}])

prop("P19", "Closing the bus or a receiver is clean in every interleaving",
 "Closing a receiver closes its own channel only, leaves already delivered events readable and other receivers receiving; closing the bus closes every registered receiver's channel. In every interleaving with dispatching, blocked or slow consumers, new registrations of other receivers and other Close calls (a receiver closed twice, or after or while the bus closes), every Close returns and nothing panics, deadlocks or sends on a closed channel. After the bus is closed the dispatcher ends.",
 ["schedules"], "every interleaving of Receiver.Close, bus Close, dispatch, registration and consumption with 1-2 receivers of both strategies",
 "Tests close once at a quiet moment or with a consumer that keeps draining.",
 ["event/bus.go"], [("write lock around close and deregistration", "event/bus.go Close/deregisterRecv")],
 ["channel closure, returned Close calls, goroutines left"])

prop("P20", "Drain and CollectTimeout return exactly what was delivered",
 "Drain never waits and returns, in order, exactly the events available when called. CollectTimeout returns, in order, exactly the events delivered to the receiver until the timeout, never fewer that were delivered before it expired and never anything that was not published; it returns at the timeout, or earlier only if the receiver was closed. Both end on a closed receiver after its remaining events.",
 ["schedules", "histories"], "every interleaving of a collector with a dispatcher delivering up to 3 events around the timeout and with closing",
 "Tests collect two strings that arrive long before the timeout and never collect from a closed receiver.",
 ["event/bus.go"], [("non-blocking receive loop", "event/bus.go Drain"), ("receive loop with timer", "event/bus.go CollectTimeout")],
 ["returned slices, virtual time of return"])

prop("P21", "Fixed-delay runs never overlap and keep the delay",
 "A started fixed-delay task runs its job at once and then again and again until stopped: every later run begins when the interval has elapsed since the previous run ended, never sooner and never while a run is still going. This holds whatever the job does: finishing at once, taking longer than the interval, exceeding its timeout with or without reacting to cancellation, or returning an error.",
 ["schedules", "histories"], "every interleaving of the task's goroutines and timers for scripts of 3-4 runs with durations below, at and above interval and timeout",
 "Tests measure a few runs in real time with a lower bound on the number of runs.",
 ["schedule/fixed_delay_task.go", "schedule/task.go"], [("consumer goroutine runs the job and re-arms a timer afterwards", "schedule/fixed_delay_task.go startConsuming/appendJobQueueFuture")],
 ["start and end instants of job runs in virtual time"])

prop("P22", "Fixed-rate runs start once per tick regardless of job duration",
 "A started fixed-rate task starts exactly one run at once and exactly one further run at every multiple of the interval after Start until it is stopped, whatever earlier runs do: long runs overlap with later ones instead of delaying or suppressing them, and timeouts, ignored cancellation or errors do not disturb the cadence.",
 ["schedules", "histories"], "every interleaving of the task's goroutines and ticks for scripts of 3-4 ticks with job durations below, at and above interval and timeout",
 "Tests only require at least two runs within some milliseconds.",
 ["schedule/fixed_rate_task.go", "schedule/task.go"], [("provider goroutine on a ticker, consumer spawning runs", "schedule/fixed_rate_task.go")],
 ["start instants of job runs in virtual time"])

prop("P23", "Task start and stop form a one-way life cycle",
 "For both task kinds, in every interleaving of concurrent Start, Stop, MustStart and MustStop calls exactly one start succeeds, exactly one stop after it succeeds, and every other call returns an error (the Must variants panic) without any effect; none of them waits for a job. Once Stop has returned no run is triggered at any later instant, however far timers advance, and all goroutines of the task end when its running jobs do. A stopped task cannot be restarted and there is no data race.",
 ["schedules", "histories"], "every interleaving of 2-3 concurrent lifecycle calls with running jobs, and all sequential call orders",
 "Tests call Start and Stop sequentially and stop at moments when nothing else happens.",
 ["schedule/task.go", "schedule/fixed_delay_task.go", "schedule/fixed_rate_task.go"], [("status under a mutex, stop signal channel closed once", "schedule/task.go markStart/markStopSendSignal")],
 ["returned errors, job starts after Stop, goroutines left"], [{"name": "status", "meaning": "new/started/stopped", "where": "schedule/task.go"}])

prop("P24", "Jobs are cancelled on timeout or stop, and only then",
 "The cancel channel given to a job run is closed as soon as the run has lasted its timeout or its task is stopped, whichever comes first, and never earlier while the job is still running; cancellation of one run does not cancel another. Stop cancels every run in progress, including overlapping runs of a fixed-rate task, and a job's error or late return never crashes or blocks the task.",
 ["schedules", "histories"], "every interleaving of job runs (finishing before, at and after the timeout, reacting or ignoring) with the timeout and with Stop, both task kinds",
 "One test counts that at least two runs saw their cancel channel closed at some point.",
 ["schedule/task.go"], [("context with timeout plus stop signal", "schedule/task.go runJob")],
 ["instant at which a job observes its cancel channel closed"])

prop("P25", "The task manager owns one running task per name",
 "In every interleaving of Register, Unregister and UnregisterAll, at most one task per name is registered: registering starts the task exactly once and returns nil, registering a taken name returns an error and does not start the newcomer, and unregistering stops exactly the task registered under that name and frees the name (unknown names are ignored). After UnregisterAll every task registered before is stopped and all names are free; a Register that panics because its task cannot start leaves the name free. There is no data race or deadlock.",
 ["schedules", "histories"], "all call sequences over two names up to a depth and every interleaving of 2-3 concurrent calls",
 "Tests count map entries after sequential calls and never check which task was started or stopped.",
 ["schedule/task_manager.go"], [("map under a mutex", "schedule/task_manager.go")],
 ["Start/Stop calls seen by stand-in tasks, returned errors"])

prop("P26", "Loaded configuration follows flag over environment over YAML",
 "For every supported field and every combination of sources that set it, Load yields the value of the highest-ranking source: command-line flag, then environment variable, then YAML file, then the value already present in the struct (or zero). A field set in no source keeps that value, setting one field never changes another, and pointers to structs or supported types are allocated so that nested fields can be set; a malformed value or unreadable file makes the program exit with an error instead of loading something else.",
 ["configurations", "inputs"], "all 8 source combinations for every supported type, nesting form and pair of fields",
 "Tests cover a handful of fields with one or two sources each; precedence is checked on one combination.",
 ["conf/conf.go", "conf/env.go", "conf/flag.go", "conf/yaml.go", "conf/reflect.go"], [("resolvers applied in order yaml, env, flag", "conf/conf.go Load")],
 ["struct contents after Load"])

prop("P27", "Flag and environment names follow the naming convention",
 "Every exported field of a supported type, at any nesting depth, is reachable under exactly one flag name and one environment name derived from its dotted path: words split before capitals and at dots, joined by '-' in lower case for flags and by '_' in upper case for the environment (Foo.BarBaz is -foo-bar-baz and FOO_BAR_BAZ). Embedded structs add no path element, and unexported or unsupported fields have no name and are never touched.",
 ["inputs", "configurations"], "all field paths up to a length over an alphabet of lower-case, capital and digit characters, and all nesting shapes (value, pointer, embedded) up to depth 3",
 "Tests list nine paths and a few shapes.",
 ["conf/string.go", "conf/reflect.go", "conf/flag.go", "conf/env.go"], [("path to name conversion", "conf/string.go"), ("reflection visitor", "conf/reflect.go visitExportedFields")],
 ["flags registered and environment variables honoured by Load"])

prop("P28", "Printing a configuration never reveals credentials",
 "For every value of their fields, the String form of each connection configuration (MySQL, PostgreSQL, Oracle, Redis, Elasticsearch, pprof) contains neither the password nor the user name it masks, and it shows every other setting it names with that setting's own value.",
 ["inputs", "configurations"], "all assignments of distinguishable values to the fields, varied one and two at a time",
 "No test calls String on these types.",
 ["confs/mysql.go", "confs/postgresql.go", "confs/oracle.go", "confs/redis.go", "confs/es.go", "confs/pprof.go"], [("String methods", "confs/*.go")],
 ["String() output"])

prop("P29", "Connections are opened with exactly the configured settings",
 "The MySQL, PostgreSQL, Oracle, Redis and Elasticsearch constructors open their client with exactly the configured address, credentials (whatever characters the password contains), database or service, timeouts, pool limits and extra parameters (URL-decoded; malformed ones ignored), with and without tracing, and a customizer's changes are honoured. Pool limits reach the client they are meant for: maximum open, idle and lifetime are never swapped.",
 ["configurations", "inputs"], "all pairwise field variations per constructor, passwords over an alphabet of URL-significant characters, parameter strings up to a length",
 "Unit tests cover one MySQL and one Redis configuration; the constructors that connect need servers and are skipped or disabled.",
 ["confs/mysql.go", "confs/postgresql.go", "confs/oracle.go", "confs/redis.go", "confs/es.go"], [("DSN/option building", "confs/*.go")],
 ["DSN handed to the SQL driver, client options, requests sent"])

prop("P30", "pprof endpoints are served only to the configured user",
 "Both pprof guards (gin filter and fasthttp-routing handler) let a request reach the profiling handlers exactly when a non-empty user name and password are configured and the request carries exactly these as HTTP Basic credentials. Every other request (no, malformed, partial or wrong credentials) gets no profiling data and, when credentials are configured, status 401; with no credentials configured nobody gets in.",
 ["inputs", "configurations"], "all combinations of configured credentials (including ':' in the password) and Authorization headers from a set of correct, near-miss and malformed ones",
 "There is no test for these handlers.",
 ["confs/pprof.go"], [("Basic-auth check before the pprof handler", "confs/pprof.go")],
 ["HTTP status and body"])

prop("P31", "The HTTP client verifies servers as its trust mode says",
 "The fasthttp client built from a configuration verifies server certificates against the system roots unless SslTrustMode is INSECURE (then it verifies nothing) or CUSTOM with certificates given (then exactly those certificates are trusted); a client certificate is presented exactly when configured. Verification is never disabled in any other configuration, timeouts and connection limits are taken over unchanged, and unreadable key or certificate files fail construction.",
 ["configurations"], "all combinations of trust mode, certificate files, client key pair and handshakes against servers with a trusted, another and no certificate authority",
 "One test builds a client in OS mode without certificates.",
 ["confs/fasthttpclient.go"], [("tls.Config construction", "confs/fasthttpclient.go NewFastHttpClient")],
 ["TLS handshake outcomes against loopback servers, client fields"])

prop("P32", "Redis tracing is transparent and closes every span",
 "With the tracing hook installed, every single or pipelined Redis command has the same result and error as without it, whatever options the hook was created with (also when no span can be created because no address was given). With an address given, each command or pipeline reports exactly one exit span naming the commands, ended exactly once, marked as error exactly when a command failed, and carrying command arguments or error text only if asked to.",
 ["configurations", "fault_sequences"], "all hook option combinations times command and pipeline outcomes (all succeed, each subset fails), with and without a parent span",
 "The package has no tests.",
 ["skywalking/redis/hook.go"], [("BeforeProcess/AfterProcess pairs", "skywalking/redis/hook.go")],
 ["command results, spans handed to the reporter"])

prop("P33", "HTTP tracing is transparent and closes every span",
 "With the tracing middleware installed, a handler's status, body and returned error reach the router exactly as without it; each request reports exactly one entry span ended once, tagged with method, URL and final status, marked as error exactly when the handler failed, panicked or answered 400 or above (a panic passes through unchanged), and its context is available to the handler. The client span helper likewise reports one exit span per request, injects the tracing header, changes nothing else in the request, and does nothing without a tracer.",
 ["configurations", "fault_sequences"], "all option combinations times handler outcomes (status classes, errors, HTTP errors) times incoming tracing headers",
 "The packages have no tests.",
 ["skywalking/fasthttp-routing/middleware.go", "skywalking/fasthttp/client_span.go"], [("span around Next()", "skywalking/fasthttp-routing/middleware.go NewMiddleware"), ("CreateSpan/EndSpan", "skywalking/fasthttp/client_span.go")],
 ["HTTP responses, spans handed to the reporter"])

prop("P34", "RSA key and certificate parsing is total and faithful",
 "Reading a private key, public key or certificate succeeds exactly for PEM (or bare base64, for the string forms) of that kind and yields the same key that was encoded; anything else (other PEM type, other key algorithm, damaged or truncated text, empty input) gives an error and never a panic, except in the Must variants, which panic exactly then. Extracting the public key of any private key and reading it back gives that key.",
 ["inputs"], "all combinations of reader, PEM kind, wrapping and damage (every truncation point, every single deleted line)",
 "Tests use one well-formed key of each kind.",
 ["util/rsa/util.go"], [("PEM type check and x509 parsing", "util/rsa/util.go")],
 ["returned keys and errors"])

prop("P35", "Client constructors never hand out a client of an unusable server",
 "The MySQL, PostgreSQL, Oracle, Redis and Elasticsearch constructors return a client exactly when the server can be reached with it: when connecting, authenticating or the first ping fails for good, when Elasticsearch answers with an error status, or when a setting cannot be used, the program panics or exits with a failure status instead of going on; a failure that the driver's own retries overcome does no harm, and no response is left open.",
 ["fault_sequences", "configurations"], "every sequence of server faults up to a depth, at each step of the opening, for every constructor with and without tracing",
 "Tests open connections to servers that answer, or not at all.",
 ["confs/mysql.go", "confs/postgresql.go", "confs/oracle.go", "confs/redis.go", "confs/es.go"], [("Ping after opening", "confs/*.go constructors")],
 ["exit status of the program, returned client"])

prop("P36", "Tracing reports to the configured server under the configured names",
 "A reporter and tracer built from a tracing configuration send every ended span exactly once to the configured server address, under the service namespace::service and the configured instance (or a generated one when it is empty). With no configuration or no address nothing is sent and no connection is made, and the application sees no difference. An unusable address gives an error and no reporter, and an unreachable server never makes a traced operation fail or wait.",
 ["configurations", "inputs"], "all combinations of names and instances, and all sequences of traced operations up to a depth, with no address, a reachable and an unreachable server",
 "The package has no tests.",
 ["skywalking/factory.go", "skywalking/conf.go"], [("reporter choice and tracer construction", "skywalking/factory.go NewGrpcOrNoopReporter, NewTracer")],
 ["segments received by a gRPC server, results of the traced operations"])

prop("P37", "Tasks are only made with usable arguments",
 "NewFixedDelayTask and NewFixedRateTask panic exactly when the name is blank (nothing but space characters), the interval or the timeout is not positive, or no job is given. In every other case they return a task that bears exactly the given name, is not started, runs nothing and has no goroutine until Start is called.",
 ["inputs"], "all names over an alphabet with several kinds of space up to a length, extreme and ordinary intervals and timeouts, with and without a job, both task kinds",
 "The tests try one bad value of each argument.",
 ["schedule/fixed_delay_task.go", "schedule/fixed_rate_task.go"], [("argument checks of the constructors", "schedule/fixed_delay_task.go NewFixedDelayTask, schedule/fixed_rate_task.go NewFixedRateTask")],
 ["panic of the constructor, Name, goroutines, job runs"])

prop("P38", "The TTL limiter leaves nothing behind in Redis",
 "Every Redis key the limiter writes carries an expiry, so that all of them are gone when no request has come for as long as the window plus twice the timeout and a minute. The requests remembered for a key never number more than the capacity in force when it last counted one. A request that finds its block active, IsBlocked, and a call with parameters that are not all positive change nothing in Redis, and keys of others are never touched. All this also holds when Redis fails during calls.",
 ["histories", "fault_sequences"], "all sequences of calls, clock advances, parameter changes and Redis faults up to a depth, both constructors",
 "The tests need a live Redis, are skipped otherwise, and look only at results.",
 ["ratelimiter/ttl_ratelimiter_redis.go"], [("EXPIRE after every push, SET with EX, trimming", "ratelimiter/ttl_ratelimiter_redis.go script1")],
 ["data held by Redis after every call"], [{"name": "_rl:KEY list, KEY:bl string", "meaning": "instants of passed requests, active block", "where": "Redis"}])

prop("P39", "Separate instances never affect each other",
 "Two semaphores, circuit breakers, limiters, stores, load policies, value processors, buses, tasks or task managers, of one kind or of different kinds and made with the same or different arguments, behave exactly as each would alone, whatever is done with the other and in whatever order they are made; limiters and stores that share a Redis server need different keys, hash tags or key roots for that. Using two instances from different goroutines is free of data races.",
 ["histories", "schedules"], "all pairs of components: all sequences of operations on two instances up to a depth against each instance alone, and all interleavings of two goroutines with an instance each up to a preemption bound",
 "Every test works with one instance at a time, so shared package state goes unnoticed.",
 ["concurrent/sema.go", "circuitbreaker/circuitbreaker.go", "ratelimiter/tokenbucket.go", "ratelimiter/fixedwindow.go", "ratelimiter/slidingwindow.go", "ratelimiter/ttl_ratelimiter.go", "ratelimiter/ttl_ratelimiter_redis.go", "confstore/store.go", "confstore/loader.go", "confstore/persister.go", "confstore/procs.go", "event/bus.go", "schedule/task_manager.go", "schedule/fixed_delay_task.go", "schedule/fixed_rate_task.go"], [("all state is kept in the instance", "constructors of all components")],
 ["results of the operations of each instance"])

prop("P40", "Clients, hooks and middlewares in one program keep to themselves",
 "Two database, Redis, Elasticsearch or HTTP clients made in one program, in whatever order they are made and used, each keep the address, credentials, limits, trusted certificates and client certificate of their own configuration and customizer. Two tracing middlewares, client span helpers or Redis hooks each keep their own options and tracer, and operations in flight at the same time through one or both of them each get exactly one span of their own, carrying only that operation's status, error, body and arguments, however their beginnings and ends interleave.",
 ["configurations", "schedules"], "all ordered pairs of client configurations (each setting changed alone and all together); all interleavings of the beginnings and ends of 2 and 3 operations in flight times option pairs, outcomes and assignments to instances",
 "Tests make one client or hook at a time and none keeps two operations in flight.",
 ["confs/mysql.go", "confs/postgresql.go", "confs/oracle.go", "confs/redis.go", "confs/es.go", "confs/fasthttpclient.go", "skywalking/redis/hook.go", "skywalking/fasthttp/client_span.go", "skywalking/fasthttp-routing/middleware.go"],
 [("settings and options live in the instance", "constructors in confs/ and skywalking/"), ("the span lives in the operation's context", "skywalking/redis/hook.go BeforeProcess/AfterProcess, skywalking/fasthttp-routing/middleware.go")],
 ["parsed DSNs and options, TLS handshakes, spans handed to the reporter"])

prop("P41", "JSON maps are read and written faithfully",
 "UnmarshalM accepts exactly the texts that are one JSON object, or null, with nothing else around them but white space; it returns the members of the object (the last of several of one name, numbers as float64, no map for null), gives an error and no map for any other text, does not change its input and keeps no part of it. MarshalM writes JSON that reads back as the same map without changing it, or gives an error when a value cannot be expressed in JSON.",
 ["inputs"], "all texts up to a length over alphabets of JSON's elements (delimiters, escapes, surrogates, bad UTF-8, number parts) as a whole and inside objects; all maps of up to 2 members over names and nested values",
 "The package has no tests.",
 ["dto/m.go"], [("decoding and encoding of M", "dto/m.go UnmarshalM, MarshalM")],
 ["returned maps, texts and errors"])

prop("P42", "Databases opened with a tracer act the same and report statements",
 "A database opened with NewMySqlDbWithTracer, NewPostgresqlDbWithTracer or NewOracleDbWithTracer gives the application the same results and errors and asks the server the same things as one opened without a tracer, whatever the application does with it, wherever the server fails, with or without a span of the caller and whether or not the tracer samples. Every statement that reaches the server is reported by an exit span of the given tracer, a child of the caller's span.",
 ["histories", "fault_sequences"], "all sequences of database operations up to a depth (statements, rows, prepared statements, transactions, single connections, cancelled requests), with a failure at each step, per database kind, tracer and caller's span",
 "Tests open no database with a tracer.",
 ["confs/mysql.go", "confs/postgresql.go", "confs/oracle.go"], [("sqlPlugin.Open with the tracer", "confs/*.go New*DbWithTracer")],
 ["results of database/sql calls, calls of the driver, spans handed to the reporter"])

prop("P43", "Memory and persistence agree after concurrent configuration changes",
 "When several goroutines register, update, batch-update, reset and deregister keys of one config store (without loading), then once all calls have returned the persistence layer holds for every registered key the value the store serves, nothing for a key that has its default or is not registered: a restart changes no value, in every interleaving of the calls and of the persistence layer's own delays. While nobody resets or deregisters a key, each update that returned is persisted already. A call the persistence layer refuses disturbs the keys only until they are next changed.",
 ["schedules", "fault_sequences"], "every interleaving of 2-3 goroutines with 1-3 changes each on two keys, the persistence being slow before and after each effect or refusing one call",
 "Tests are single-threaded and use the no-op persister; the window lies between changing the memory and persisting.",
 ["confstore/store.go"], [("one order of changes for memory and persister", "confstore/store.go Update, BatchUpdate, ResetKey, DeregisterKey")],
 ["persister contents and values served at quiescence"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
