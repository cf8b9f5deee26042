#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))

p("C01", "Every emission reaches every attached sink exactly once and in order",
  "Every event, error, timing, gauge and completion emitted through a stream or any of its jobs is delivered exactly once to each sink attached at that moment, with the emitter's job name ('general' when emitted on the stream itself), event name, number and status unchanged. Each sink sees the emissions of one goroutine in the order that goroutine made them. This holds for any number of sinks, jobs, streams and concurrent goroutines.",
  ["programs", "schedules", "inputs"], "all sequences of stream/job calls (plain and Kv forms), any sink list including none, repeats and sinks attached midway, any interleaving of goroutines with their own jobs",
  "Only TestRun-style single emissions to one sink are tested; no test attaches several sinks, mixes jobs, or runs goroutines.",
  ["health.go"], [("per-call loop over the sink list", "health.go Job.Event .. Job.CompleteKv")],
  [("Stream.Sinks", "attached sinks", "health.go")], ["custom Sink implementations attached to the stream"])

p("C02", "Key/values of call, job and stream are merged by precedence, without leaks",
  "Each emission carries exactly the union of its stream's, its job's and its own key/values as they stood when it was made; for a key set in several places the call's value wins over the job's, and the job's over the stream's. Emitting never changes the caller's map nor the key/values of the job or the stream, and a key/value added to one job never shows up on another job or stream.",
  ["inputs", "programs", "schedules"], "all key/value sets on the three levels (empty, disjoint, overlapping), all orders of adding keys and emitting, concurrent jobs on one stream",
  "Existing tests never combine the three levels; precedence, emptiness shortcuts and aliasing are untested.",
  ["health.go"], [("merge of the three maps, with a shortcut when at most one is non-empty", "health.go mergedKeyValues")],
  None, ["kvs argument received by sinks", "caller's maps after the call"])

p("C03", "A run job completes exactly once, with the right status, error and time",
  "Running a function under a job emits exactly one completion to each sink: Success if it returned nil, Error if it returned an error, Panic if it panicked; the function's own error is returned unchanged. A panic with any value never escapes: it comes back as an error whose text is the panic value's text, and it is logged once, before the completion, as a 'panic' error event carrying the stack at the point of the panic. Every completion, however made, reports the status given and the time elapsed since its job was created.",
  ["inputs", "programs", "schedules"], "all function outcomes (nil, any error value, any panic value, runtime errors), nested and concurrent runs, any job duration, all five statuses",
  "TestRun covers one success, one error and one panic with a single sink and no timing assertion.",
  ["health.go"], [("deferred recover in Run", "health.go Job.Run"), ("elapsed time since job start", "health.go Job.Complete")])

p("C04", "Errors are wrapped once, keep their message, root trace and mute state",
  "Logging an error returns an error with the same message, and sinks receive the very value that is returned. A plain error gets, the first time it is logged, the stack trace starting at that logging call; logging the returned error again, on any job and any number of times, returns the same value with that first trace, and sinks see it as not-yet-reported only the first time. A muted error is passed through as the same muted value and never gains a trace.",
  ["programs", "inputs"], "all error values, all chains of re-logging through plain and Kv calls, jobs, streams and sink counts",
  "Tests log one error once; re-logging identity, first-trace retention and the reported flag are not exercised across chains.",
  ["error.go", "health.go", "stack/stack.go"], [("wrapErr type switch", "error.go"), ("Emitted set after all sinks ran", "health.go EventErr, EventErrKv")])

p("C05", "Stack traces name the true call chain",
  "A captured stack trace lists, innermost first and starting at the requested caller, exactly the calls active at capture, each with its true file, line, function and package, cut off only by the configured maximum depth. Frames of the Go standard library are flagged as system frames and no others are; the printed form has one 'file:line function' line per frame. Reading a trace any number of times gives the same frames.",
  ["programs", "configurations"], "all call shapes (plain functions, methods, closures, generics, recursion, deferred calls, goroutines, panics), any skip count, any maximum depth, compiler inlining on or off",
  "Tests look at a handful of frames, only with inlining disabled.",
  ["stack/stack.go", "stack/frame.go"], [("program counters resolved per frame", "stack/frame.go NewFrame"), ("skip offset and depth limit", "stack/stack.go NewTrace")])

p("C06", "Bugsnag gets each unmuted error exactly once, faithfully",
  "With a Bugsnag sink attached and running, every unmuted error logged is posted to the configured endpoint exactly once, in the order logged, however often it is logged again on its way up; muted errors, events, timings, gauges and completions are never posted. The post is JSON in Bugsnag's payload version 2, naming the notifier, and carrying the API key, release stage, hostname, the job as context, the event as error class, the error's message, the frames of its first trace, and the key/values as they were when it was logged. A failing or slow endpoint affects only the report being posted: later errors are still reported and nothing is dropped for being queued.",
  ["histories", "fault_sequences", "schedules", "inputs"], "all histories of error logging and re-logging from concurrent jobs, all endpoint faults (refused, error status, wrong body, slow), bursts larger than any queue, any strings",
  "One test posts one error once and sleeps 1 ms to check a duplicate is not sent.",
  ["sinks/bugsnag/sink.go", "sinks/bugsnag/api.go"], [("Emitted and mute checks, bounded queue that blocks", "sinks/bugsnag/sink.go EmitEventErr"), ("payload construction and POST", "sinks/bugsnag/api.go")])

p("C07", "Polled metrics are the exact fold of everything emitted",
  "Once emissions have been processed, the JSON polling sink reports, both in total and per job, exactly the number of events, the number of errors, the count/sum/sum-of-squares/min/max of each timing, the latest value of each gauge, and for each job its completions by status with count/sum/sum-of-squares/min/max of their durations. Nothing is lost, duplicated or booked under another name, for any mix of concurrent emitters and bursts larger than the sink's buffer. An interval's serial number goes up by one with each emission and otherwise stays the same.",
  ["histories", "schedules", "inputs"], "all multisets of emissions, names and values (zero, negative, large), any number of concurrent emitters, any burst size",
  "Tests make one or two emissions of each kind from one goroutine.",
  ["aggregator.go", "interval_aggregation.go", "json_polling_sink.go"], [("single aggregating goroutine fed by a blocking queue", "aggregator.go startAggregator"), ("ingest", "interval_aggregation.go")])

p("C08", "Metrics fall into aligned intervals, of which the most recent are kept",
  "Each emission is counted in the interval containing its time; reported interval starts are multiples of the interval duration, strictly increasing, never repeated, and the last one contains the present. At most retain/interval intervals are reported; as time passes, with or without traffic, the oldest are dropped, and the ones kept still hold exactly what was emitted in them.",
  ["histories", "configurations"], "all timings of emissions and reads over any span of time, any interval and retention (retention at least one interval), idle gaps of any length",
  "TestRotation covers one emission pattern with five intervals and no idle gaps or reads.",
  ["aggregator.go", "json_polling_sink.go"], [("truncate to interval start, append or shift", "aggregator.go getIntervalAggregation, createIntervalAggregation"), ("one-second tick slides the window when idle", "aggregator.go startAggregator")])

p("C09", "A metrics snapshot is consistent and never changes afterwards",
  "What a metrics read returns never changes after it is returned, whatever is emitted later. Each snapshot is a single point in the sequence of emissions: the totals equal the sums over the jobs in the same snapshot, it contains for every emitting goroutine a prefix of what that goroutine emitted, and successive reads never go backwards.",
  ["schedules", "histories"], "all interleavings of emitters and readers, reads right before, at and after an interval change",
  "TestClone checks one clone against five later emissions; nothing reads while emitters run.",
  ["aggregator.go", "interval_aggregation_clone.go", "json_polling_sink.go"], [("copy of the current interval made by the aggregating goroutine", "aggregator.go memorySafeIntervals"), ("deep clone", "interval_aggregation_clone.go")])

p("C10", "The /health endpoint serves exactly the current metrics as valid JSON",
  "A request for /health answers 200 with content type JSON and a body that is valid JSON and decodes to the process's instance id, the interval duration and exactly the metrics a direct read gives, whatever characters occur in job, event and other names (bytes that are not valid UTF-8 come out as U+FFFD). Any other path answers 404 with a JSON error. Reading does not change the metrics, and concurrent requests each get a complete answer.",
  ["inputs", "schedules"], "all names (quotes, percent signs, control characters, any Unicode, invalid UTF-8, empty), all metric contents, concurrent requests",
  "One test with names 'myjob'/'myevent' and one 404 test.",
  ["json_polling_sink_http.go", "json_polling_sink.go", "interval_aggregation.go"], [("marshal and write", "json_polling_sink_http.go ServeHTTP")])

p("C11", "Merging aggregations equals aggregating everything together; clones are deep",
  "Merging any aggregations, in any order or grouping, gives the same event counts, error counts, status counts, and timing count/sum/sum-of-squares/min/max, in total and per job, as one aggregation of all the emissions would; a gauge takes the value of the last aggregation merged that has it. The merged-in aggregation is not modified, and after a merge or a clone, changing either side never affects the other.",
  ["inputs", "histories"], "all pairs and sequences of aggregations, including empty ones, jobs present on one side only, jobs with events but no completions, aggregations that came through JSON",
  "TestMerge merges two identical fixtures and spot-checks a few entries.",
  ["interval_aggregation_merge.go", "interval_aggregation_clone.go", "interval_aggregation.go"], [("map-wise merge, clone on first insertion", "interval_aggregation_merge.go")])

p("C12", "StatsD receives exactly the metrics emitted, correctly named and valued",
  "Every event, error, timing, gauge and completion produces exactly its StatsD lines, once each and in order: counter lines for events and '.error' counters for errors, ms lines for timings, gauge lines for gauges, each as prefix.event and prefix.job.event unless the options skip the one or the other, and one prefix.job.status ms line per completion. Values are those emitted: timings in milliseconds (whole from 10 ms up, two decimals below), gauges with two decimals, or full precision below 0.1 in magnitude. Name parts are passed through the sanitization function, which by default replaces every byte outside A-Z a-z 0-9 _ . by '$'.",
  ["inputs", "histories", "configurations"], "all histories of emissions over any names and values, all option combinations, custom sanitizers, repeated and interleaved keys, any number of emitters",
  "Tests send one emission per case; key reuse, buffer reuse between keys and mixed histories are untested.",
  ["statsd_sink.go"], [("per-key reusable prefix buffers", "statsd_sink.go getPrefixBuffer"), ("value formatting", "statsd_sink.go processGauge, writeNanosToTimingBuf")])

p("C13", "StatsD datagrams hold whole lines, stay within 1440 bytes and go out promptly",
  "Every datagram sent is at most 1440 bytes and consists of one or more complete newline-terminated metric lines, none split or merged; a line that alone exceeds the limit is left out without affecting any other metric. Without any explicit drain, whatever was emitted is sent no later than the next flush tick, about 100 ms after it was processed.",
  ["inputs", "histories"], "all sequences of line lengths around and above the limit, bursts, trickles, any timing of emissions relative to flushes",
  "TestStatsDSinkPacketLimit fills one packet with identical lines; the periodic flush is tested once.",
  ["statsd_sink.go"], [("flush before the buffer would exceed the limit", "statsd_sink.go writeStatsDMetric"), ("flush ticker", "statsd_sink.go loop")])

p("C14", "StatsD Drain delivers everything emitted before it, and Drain and Stop return",
  "When Drain returns, everything emitted before it was called, by any goroutine, has been sent, including bursts larger than the sink's queue. Any number of goroutines may call Drain at the same time, alongside emitters and with a later Stop, and every such call returns. Nothing is sent by the sink after Stop has returned.",
  ["schedules", "histories"], "all interleavings of concurrent Drain calls, emitters and a final Stop",
  "Every test calls Drain once from one goroutine.",
  ["statsd_sink.go"], [("control commands queued behind emissions", "statsd_sink.go Drain, Stop, loop")])

p("C15", "The log writer sink writes one complete, faithful line per emission",
  "Each emission makes exactly one Write of one newline-terminated line of the form '[time]: job:J event:E' (or 'status:S' for completions) followed by err:, time: or gauge: where applicable and, if there are key/values, 'kvs:[k:v ...]' with all pairs sorted by key; the time is the current UTC time in RFC 3339 form. Durations print in ms above 2,000,000 ns, in μs above 2,000 ns, and in ns otherwise; the same input always gives the same text. Concurrent emitters never mix or lose lines, and a failing writer never disturbs the program.",
  ["inputs", "schedules", "fault_sequences"], "all names, values and key/values, all numbers of concurrent emitters, failing or short writers",
  "Tests cover single emissions with at most two keys.",
  ["writer_sink.go"], [("line built in a local buffer and written once", "writer_sink.go"), ("sorted keys", "writer_sink.go writeMapConsistently")])

p("C16", "The JSON writer sink writes one faithful JSON object per emission",
  "Each emission makes exactly one Write of one complete JSON object carrying the job, the event or status, the current UTC timestamp, the error text, nanoseconds or value, and all key/values, which decode back to exactly what was emitted whatever characters they contain (bytes that are not valid UTF-8 come out as U+FFFD). Concurrent emitters never mix or lose objects, so the output is always a decodable stream.",
  ["inputs", "schedules"], "all strings, numbers and key/values, all numbers of concurrent emitters",
  "Tests cover one plain emission per kind.",
  ["json_writer_sink.go"], [("single marshal and single write", "json_writer_sink.go")])

p("C17", "Librato posts account for every emission exactly once",
  "Each emission is counted in exactly one periodic Librato post (every 15 seconds), under prefix.event and prefix.job.event names with suffix count, error.count, timing or gauge, and completions under prefix.job.status.timing: counts add up, and timings in milliseconds and gauges carry exact count, sum, min, max and sum of squares for the period; all are marked for aggregation, counts with the unit 'count' and timings with 'ms'. Names are restricted to the characters Librato accepts, periods without data post nothing, and posts carry the credentials, source and period. A failed post loses only its own period, and resources used per post are released so the sink can run indefinitely.",
  ["histories", "fault_sequences", "inputs", "schedules"], "all histories of emissions relative to flush ticks, any names and values, bursts larger than the queue, failing posts, any number of periods",
  "TestEmit inspects internal counters after a few emissions; no post is ever made in a test.",
  ["sinks/librato/sink.go"], [("fold into maps reset at each flush", "sinks/librato/sink.go purge, send, measure, inc")])

p("C18", "Runtime metrics report the enabled gauges, truthfully, until stopped",
  "After Start, once per interval, exactly the gauges of the enabled groups are reported, each once and none of a disabled group, with the true current values of the Go runtime and process. Stop returns, and after that nothing more is reported.",
  ["configurations", "schedules"], "all combinations of enabled groups, any interval, any moment of stopping",
  "The one test checks that all keys appear once with default options.",
  ["runtime_metrics/runtime_metrics.go", "runtime_metrics/fds_linux.go"], [("ticker loop", "runtime_metrics/runtime_metrics.go metricsPoller"), ("option checks", "runtime_metrics/runtime_metrics.go Report")])

p("C19", "healthd totals are the sum over hosts of what each last reported",
  "For every interval, healthd reports the combination over all monitored hosts and their process instances of the latest data each reported for that interval: counts and sums add, minima and maxima combine, a gauge is one of the reported values. Polling the same data again never counts it twice, a restarted process adds to what its predecessor reported, and intervals are matched by instant whatever time zone a host reports in. Data from failed responses or with a different interval duration is ignored.",
  ["histories", "fault_sequences", "schedules", "configurations"], "all sets of hosts, histories of their metrics, restarts, outages, orders and delays of responses, time zones",
  "One healthd test polls two hosts once; it cannot even be built in the offline environment.",
  ["healthd/healthd.go", "healthd/poll.go", "interval_aggregation_merge.go"], [("latest aggregation per (interval, instance, host), re-merged when it changes", "healthd/healthd.go consumePollResponse, recalculateIntervals")])

p("C20", "healthd keeps an ordered two-hour series that outlives its hosts' data",
  "healthd's series has one entry per interval, oldest first, never repeated, one for every interval that any host ever reported, limited to the most recent two hours' worth of them by number (2h divided by the interval duration). Once reported, an interval's totals stay available and never shrink until that many newer intervals have been reported, although hosts keep only the last five intervals and may stop, restart or disappear for any length of time.",
  ["histories", "fault_sequences", "configurations"], "all lengths of operation, interval durations, host outages and restarts",
  "No test runs healthd beyond one poll.",
  ["healthd/healthd.go"], [("insert-or-replace, sort, truncate", "healthd/healthd.go setAggregation"), ("purge of per-host data", "healthd/healthd.go purge")])

p("C21", "healthd's overall and jobs answers agree with its series",
  "The overall answer is the combination of all entries of the series (a gauge: its most recent value), and the jobs answer lists each job of it once with its counts and total/min/max/average/standard deviation. A sort parameter orders jobs by that field, largest first (names alphabetically); a positive limit keeps that many from the front; unknown sort fields and malformed or non-positive limits are ignored. Each answer carries the process's instance id and the interval duration and is 200 and valid JSON with JSON content type, whatever the names and however many, equal or long the timings; unknown paths answer 404 with a JSON error.",
  ["inputs", "histories"], "all series contents, names, counts and durations, all sort and limit parameters",
  "One test with a single job and no parameters.",
  ["healthd/api.go"], [("merge, stats, sort, limit, render", "healthd/api.go combineAggregations, filterJobs, renderJson")])

p("C22", "No host can take healthd down, and host statuses tell the truth",
  "The hosts answer lists exactly the monitored hosts, sorted, each with the outcome of its most recent finished poll: time, HTTP code, error text (empty if none), response time if there was a response, instance and interval duration (empty if the poll yielded none); the first success time never changes once set and the last success time is that of the latest successful poll. Whatever a host does - refuses, hangs, fails, sends malformed, incomplete or null-ridden JSON - healthd neither crashes nor stops, and the other hosts' data keeps being updated.",
  ["fault_sequences", "inputs", "histories"], "all response bodies and codes, transport failures and delays, in any sequence over any set of hosts",
  "The one test has two well-behaved hosts.",
  ["healthd/healthd.go", "healthd/poll.go"], [("poll with timeout, error captured in the response", "healthd/poll.go"), ("status update", "healthd/healthd.go consumePollResponse")])

p("C23", "healthd shows new data promptly, always answers, and stops",
  "Hosts are polled at startup and every 10 seconds, each host once per round, and what a host answered is visible through the API within 3 seconds of the answer arriving, for any number of hosts and any response timing. API requests are always answered. Stop returns, even while hosts hang, after which no new round of polling begins; requests racing Stop and requests after it are still answered.",
  ["schedules", "configurations", "fault_sequences"], "all numbers of hosts (well beyond any internal queue), all response delays up to the 5 second timeout, API requests and Stop at any moment",
  "One test with two immediate hosts; the debouncer is tested alone.",
  ["healthd/healthd.go", "healthd/debouncer.go"], [("select loop, debounced recalculation, bounded queues", "healthd/healthd.go pollAndAggregate, healthd/debouncer.go")])

p("C24", "Concurrent use of streams and sinks is free of data races and crashes",
  "Any number of goroutines may emit through a shared stream, each on its own job, adding key/values to it and logging and re-logging its own errors, with any combination of the provided sinks attached, while others read metrics, serve /health, merge or clone what they read, read traces of the errors they logged, and collect runtime metrics. No such use causes a data race, a panic or a runtime crash.",
  ["schedules", "programs"], "all interleavings of such uses over all sink combinations, with short intervals so that windows rotate during reads",
  "No test uses more than one goroutine on the caller's side and none runs under the race detector.",
  ["health.go", "error.go", "aggregator.go", "json_polling_sink.go", "json_polling_sink_http.go", "statsd_sink.go", "sinks/bugsnag/sink.go", "sinks/librato/sink.go", "runtime_metrics/runtime_metrics.go", "stack/stack.go"],
  [("one owning goroutine per sink, commands passed by value over channels", "json_polling_sink.go, statsd_sink.go, sinks/*")])

p("C25", "healthd is free of data races under concurrent polls, requests and stop",
  "While healthd polls any number of hosts and recalculates, any number of API requests of every kind may be served at the same time, from before the first poll answer until after Stop, without a data race, a panic or a runtime crash, and every answer is a complete document.",
  ["schedules"], "all interleavings of poll responses, recalculations, API requests and Stop",
  "healthd is not built or raced in the offline environment; its one test is sequential.",
  ["healthd/healthd.go", "healthd/api.go", "healthd/poll.go", "healthd/debouncer.go"], [("all state owned by the aggregating goroutine; copies handed to requests", "healthd/healthd.go memorySafeIntervals, memorySafeHosts")])

p("C26", "healthtop and the healthd command show exactly what is measured",
  "The healthd command polls every host named in its environment, plus itself, and serves their combined data. 'healthtop jobs' asks for the chosen sort and, unless filtering by name, as many jobs as fit the terminal; it prints one row per job received, in the order received, restricted to names containing the filter, with the job's counts and times; 'healthtop hosts' prints one row per host with its status; both show the first rows if not all fit the terminal, and follow changes. When healthd cannot be reached it says so and keeps showing the last data.",
  ["inputs", "configurations", "fault_sequences"], "all job and host lists, sort and name options, terminal sizes, healthd outages",
  "The commands have no tests and are not built in the offline environment.",
  ["cmd/healthd/main.go", "cmd/healthtop/main.go", "cmd/healthtop/jobs.go", "cmd/healthtop/hosts.go"], [("query, filter, print", "cmd/healthtop/jobs.go, hosts.go"), ("environment parsing", "cmd/healthd/main.go")])

p("C27", "healthd accounts on its own stream for every poll and every request",
  "Through the stream it is given, healthd reports each finished poll of each host as exactly one completion of a job 'poll', made when the poll finishes, carrying the host's host_port and the time the poll took: Success if the response could be used (or merely had a non-200 code or another interval duration), Error if the poll failed or its body was unusable, in which case exactly one error telling the cause is logged as well. Each API request is reported as exactly one 'starting_request' event and one completion of a job named after its path, carrying the path and the status code, and Success for code 200.",
  ["histories", "fault_sequences", "schedules"], "all sequences of poll outcomes of any number of hosts and all concurrent API requests",
  "No test attaches a sink to healthd's stream.",
  ["healthd/poll.go", "healthd/api.go"], [("one job per poll", "healthd/poll.go poll"), ("request middleware", "healthd/api.go HealthMiddleware")], None, ["a recording sink on the stream given to StartNewHealthD"])

p("C28", "Everything runs indefinitely without growing",
  "With a bounded set of job and event names, the memory held (after garbage collection), the number of goroutines and the number of open HTTP response bodies stay bounded however long the process runs and however many emissions, jobs, errors with ever new messages, posts, polls, host restarts and API requests there are: this holds for streams and jobs, for the polling, StatsD, writer, Bugsnag and Librato sinks with working or failing endpoints, for the runtime metrics, and for healthd.",
  ["histories", "fault_sequences"], "all steady workloads over any length of time, endpoint and host failures and restarts included",
  "Leaks show only over thousands of intervals, posts or polls; tests run for a second.",
  ["aggregator.go", "statsd_sink.go", "healthd/healthd.go", "sinks/librato/sink.go", "sinks/bugsnag/api.go"], [("window of kept intervals", "aggregator.go createIntervalAggregation"), ("purge of old host data", "healthd/healthd.go purge"), ("bodies closed after each post or poll", "sinks/librato/sink.go send, sinks/bugsnag/api.go Notify, healthd/poll.go poll"), ("bounded ring of error samples", "interval_aggregation.go")], None, ["runtime.MemStats after GC", "runtime.NumGoroutine", "bodies closed at the transport"])

p("C29", "Whatever can be stopped stops, falls silent and leaves nothing behind",
  "Stopping or shutting down a polling, StatsD, Bugsnag or Librato sink, the runtime metrics or healthd always returns, whatever is under way (posts, polls, requests, flush ticks) and whatever state the endpoints are in; it then sends, polls and reports nothing more, and once requests under way have ended it holds no goroutine, timer, open response or listening address, so that components may be made and stopped any number of times. Reads of a polling sink that was shut down are still answered, and no state of an endpoint keeps whoever emits waiting for good. A StatsD sink that cannot be made because its address is unusable reports an error and holds nothing either.",
  ["histories", "fault_sequences", "schedules"], "all combinations and numbers of components, all moments of stopping, all endpoint faults",
  "Tests stop some sinks once and never look at what remains.",
  ["statsd_sink.go", "healthd/healthd.go", "json_polling_sink.go", "runtime_metrics/runtime_metrics.go", "sinks/librato/sink.go", "sinks/bugsnag/sink.go"], [("Stop and ShutdownServer and the loops they end", "statsd_sink.go Stop, loop; healthd/healthd.go Stop, pollAndAggregate; healthd/debouncer.go; json_polling_sink.go ShutdownServer; runtime_metrics/runtime_metrics.go Stop; sinks/librato/sink.go Stop; sinks/bugsnag/sink.go ShutdownServer")], None, ["goroutine dump", "requests at the transport", "/proc/self/fd"])

p("C30", "Every process has one instance id of its own",
  "A process calls itself by the same non-empty instance id in everything it serves for as long as it lives, and no other process has that id that runs on another host (or container, with the same pid), at the same time on this host, or just before or after it.",
  ["configurations", "histories"], "all host names, pids and numbers of processes",
  "No test looks at the id; a test runs in one process.",
  ["identifier.go"], [("host name and pid", "identifier.go getIdentifier"), ("used to tell processes apart", "healthd/healthd.go hostAggregationKey")], None, ["processes in UTS and PID namespaces"])

for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    print(json.dumps(x, ensure_ascii=False))
