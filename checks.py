"""What each property's check runs. See DESIGN.md for the oracles."""
import os, shutil, subprocess

SEEDED = "cases are drawn from VERIF_SEED, workload and case number; "
PROCS = [8, 1, 2, 4]
VT = "runtime monitoring in virtual time: "



def build_commands(here, scratch, env, broken):
    """the real healthd and healthtop binaries, from /repo's working tree (only gocraft/web is a stand-in)"""
    mod = os.path.join(scratch, "cmd.mod")
    t = open("/repo/go.mod").read() + """
require github.com/gocraft/web v0.0.0
require github.com/braintree/manners v0.0.0-20150503212558-0b5e6b2c2843
require github.com/buger/goterm v1.0.4
require github.com/spf13/cobra v1.10.2
replace github.com/gocraft/web => %s/harness/shim/web
""" % here
    open(mod, "w").write(t)
    shutil.copy("/repo/go.sum", os.path.join(scratch, "cmd.sum"))
    out = {}
    for b in ("healthd", "healthtop"):
        out["VERIF_" + b.upper()] = os.path.join(scratch, b)
        p = subprocess.run(["go", "build", "-modfile=" + mod, "-o", os.path.join(scratch, b), "./cmd/" + b], cwd="/repo", env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise broken("build of cmd/%s failed:\n%s" % (b, p.stdout))
    return out


CHECKS = {
    "C01": dict(pkg="core", scale=3, runs=[dict(test="TestC01", shards=(8, 8), procs=PROCS)], observe=["deliveries_observed", "goroutine_switches_observed"],
                technique="runtime monitoring: recording sinks on every stream, online oracle over the delivery log (exactly once, order, content) under sequential and concurrent workloads",
                rule=SEEDED + "a case is a program of stream/job calls over random sinks (one is non-trivial if it makes deliveries); distinct by the emitted program"),
    "C02": dict(pkg="core", scale=3, runs=[dict(test="TestC02", shards=(8, 8))],
                technique="runtime monitoring: recording sinks compared with a key/value precedence model; caller, job and stream maps watched for changes",
                rule=SEEDED + "a case is a program that adds key/values on three levels and emits; distinct by program"),
    "C03": dict(pkg="core", scale=3, runs=[dict(test="TestC03", shards=(8, 8), procs=PROCS)],
                technique=VT + "completion log of nested, concurrent and panicking runs compared with the outcome each function was scripted to have",
                rule=SEEDED + "a case is a set of (nested, concurrent) runs with their outcomes; distinct by outcomes"),
    "C04": dict(pkg="core", scale=3, runs=[dict(test="TestC04", shards=(8, 8))],
                technique="runtime monitoring: identity, message, trace and reported flag of every logged error observed at each sink and compared with a history model",
                rule=SEEDED + "a case is a history of first logs, re-logs, wraps and mutes over several jobs; distinct by history"),
    "C05": dict(pkg="core", scale=3, runs=[dict(test="TestC05", shards=(4, 4)), dict(test="TestC05", variant="noinline", shards=(4, 4))],
                technique="runtime monitoring: captured traces compared with the call chain the workload really built and with runtime.CallersFrames at the same point, in inlined and non-inlined builds",
                rule=SEEDED + "a case is a random call chain (inlinable, closures, methods, generics, panics) and capture options; distinct by chain"),
    "C06": dict(pkg="core", scale=3, runs=[dict(test="TestC06", shards=(8, 8), procs=PROCS)],
                technique=VT + "a fake Bugsnag endpoint records posts, an offline checker matches them one to one with the log of unmuted errors, with slow and failing replies injected",
                rule=SEEDED + "a case is a set of concurrent error histories and a script of endpoint failures and delays; distinct by both"),
    "C07": dict(pkg="core", scale=3, runs=[dict(test="TestC07", shards=(8, 8), procs=PROCS)],
                technique=VT + "reported aggregations compared with a sequential fold of the emission log",
                rule=SEEDED + "a case is a multiset of emissions with their emitters; distinct by emissions"),
    "C08": dict(pkg="core", scale=3, runs=[dict(test="TestC08", shards=(8, 8))],
                technique=VT + "emission log with times compared with the reported interval series, over idle gaps, boundaries and overflow of the retention",
                rule=SEEDED + "a case is a timed emission history with an interval and retention; distinct by history"),
    "C09": dict(pkg="core", scale=2, runs=[dict(test="TestC09", shards=(8, 8), procs=PROCS)],
                technique="runtime monitoring: snapshots taken during concurrent emission are checked for internal consistency, per-emitter prefixes, monotonicity and later change (offline re-comparison)",
                rule=SEEDED + "a case is a set of emitters and readers; distinct by program"),
    "C10": dict(pkg="core", scale=2, runs=[dict(test="TestC10", shards=(8, 8))],
                technique="runtime monitoring: every /health answer decoded by an independent decoder and compared with the emission model and a direct read",
                rule=SEEDED + "a case is an emission history over hostile names followed by requests; distinct by history"),
    "C11": dict(pkg="core", scale=3, runs=[dict(test="TestC11", shards=(8, 8))],
                technique="runtime monitoring: merges in random orders and groupings compared with one fold of all emissions; operands re-compared after mutation of the result",
                rule=SEEDED + "a case is a set of aggregations and a merge tree; distinct by both"),
    "C12": dict(pkg="core", scale=2, runs=[dict(test="TestC12", shards=(8, 8), procs=PROCS)], observe=["lines_compared"],
                technique=VT + "a UDP receiver records datagrams, an offline checker compares the line log with the emission log",
                rule=SEEDED + "a case is an emission history with options, drains and pauses; distinct by history and options"),
    "C13": dict(pkg="core", scale=2, runs=[dict(test="TestC13", shards=(8, 8))], observe=["oversized_lines", "lines_checked"],
                technique=VT + "a UDP receiver checks the form of every datagram and the virtual time by which each line has been sent",
                rule=SEEDED + "a case is a timed emission history with name lengths around the datagram limit; distinct by history"),
    "C14": dict(pkg="core", scale=2, runs=[dict(test="TestC14", shards=(8, 8), procs=PROCS)], observe=["drains_compared", "stops_compared"],
                technique=VT + "online check at each Drain return that everything logged before its call has arrived; progress monitored in virtual time with the sink's consumer held back",
                rule=SEEDED + "a case is a set of emitters and drainers with a held or free consumer; distinct by parameters"),
    "C15": dict(pkg="core", scale=2, runs=[dict(test="TestC15", shards=(8, 8), procs=PROCS)], observe=["writes_checked"],
                technique=VT + "a recording, failing or short writer observes each Write, compared with an independent formatter",
                rule=SEEDED + "a case is a set of emissions; distinct by emissions"),
    "C16": dict(pkg="core", scale=2, runs=[dict(test="TestC16", shards=(8, 8), procs=PROCS)], observe=["writes_checked"],
                technique=VT + "a recording, failing or short writer observes each Write, decoded and compared with the emission",
                rule=SEEDED + "a case is a set of emissions; distinct by emissions"),
    "C17": dict(pkg="core", scale=2, runs=[dict(test="TestC17", shards=(8, 8), procs=PROCS)], observe=["periods_compared", "metrics_compared"],
                technique=VT + "a fake Librato endpoint records posts (with failures, delays and overruns injected); an offline checker balances them against the emission log, and response bodies are counted for leaks",
                rule=SEEDED + "a case is a timed emission history with a script of endpoint outcomes; distinct by both"),
    "C18": dict(pkg="core", runs=[dict(test="TestC18", shards=(4, 8))], observe=["values_checked", "stops_observed"],
                technique=VT + "a recording receiver checks names and times of every report and brackets each value between two readings of the runtime",
                rule=SEEDED + "a case is a set of options (all 64 and the default in turn), an interval and a stop time; distinct by these"),
    "C24": dict(pkg="core", runs=[dict(test="TestC24", variant="race", shards=(8, 8), procs=[8, 2, 4, 3])], observe=["uses", "reads", "drains"], parallel=6,
                technique="Go race detector (happens-before sanitizer) over a stress mix of all concurrent uses with all sinks",
                rule=SEEDED + "a case is a set of sinks and of goroutines with scripts of uses; distinct by these"),
    "C19": dict(pkg="hd", scale=4, runs=[dict(test="TestC19", shards=(8, 8), procs=PROCS)], observe=["intervals_compared", "restarts", "end_to_end_intervals"],
                technique=VT + "healthd over a scripted network; every delivered poll answer is logged and an online checker compares the served series with the fold of the latest data per host and instance",
                rule=SEEDED + "a case is a set of hosts with metric histories, zones, restarts and per-poll outcomes; distinct by emissions"),
    "C20": dict(pkg="hd", scale=2, runs=[dict(test="TestC20", shards=(8, 8), procs=PROCS)], observe=["series_overflowed", "outages", "intervals_compared"],
                technique=VT + "hours of healthd operation with dying and restarting hosts; the served series is compared with the log of everything ever reported",
                rule=SEEDED + "a case is hours of operation over a set of hosts with outages and restarts; distinct by these"),
    "C21": dict(pkg="hd", scale=3, runs=[dict(test="TestC21", shards=(8, 8))], observe=["jobs_compared", "sorted_answers", "overalls_compared", "not_found_answers"],
                technique=VT + "all API answers decoded independently and cross-checked with each other and with a model of merge, statistics, sort and limit",
                rule=SEEDED + "a case is a series (emitted, or synthetic with extreme counts) and a list of requests; distinct by both"),
    "C22": dict(pkg="hd", scale=3, runs=[dict(test="TestC22", shards=(8, 8))], observe=["failure_statuses_compared", "hostile_bodies_valid_json", "good_intervals_compared"],
                technique=VT + "fault injection on a scripted network (refusals, hangs, broken and hostile bodies); the hosts answer is compared with the log of poll outcomes and the good hosts' data with the model; crashes and leaked response bodies detected",
                rule=SEEDED + "a case is a script of poll outcomes and bodies over a set of hosts; distinct by script"),
    "C23": dict(pkg="hd", scale=3, runs=[dict(test="TestC23", shards=(8, 8), procs=PROCS)], observe=["visibility_checks", "stops", "requests_racing_stop"],
                technique=VT + "each delivered answer must be visible within 3 virtual seconds, each request and Stop must return within a virtual deadline, and the poll log must have one poll per host and round",
                rule=SEEDED + "a case is a number of hosts with a response timing pattern, or requests racing Stop; distinct by these"),
    "C25": dict(pkg="hd", runs=[dict(test="TestC25", variant="race", shards=(8, 8), procs=[8, 2, 4, 3])], observe=["api_answers", "polls", "stops", "second_rounds"],
                technique="Go race detector (happens-before sanitizer) over a stress mix of polls, recalculations, requests of every kind and Stop, in real time",
                rule=SEEDED + "a case is one life of a healthd with its hosts and requesters; distinct by parameters"),
    "C27": dict(pkg="hd", scale=4, runs=[dict(test="TestC27", shards=(8, 8), procs=PROCS)], observe=["polls_accounted_for", "failed_polls_accounted_for", "requests_accounted_for"],
                technique=VT + "a recording sink on healthd's own stream; its log is matched one to one with the log of polls at the scripted network and of the requests made",
                rule=SEEDED + "a case is a script of poll outcomes over a set of hosts and a list of concurrent requests; distinct by script"),
    "C28": dict(pkg="hd", runs=[dict(test="TestC28", shards=(8, 8))], observe=["work_units", "levels_measured"],
                technique=VT + "heap after collection, goroutines and open response bodies measured after equal chunks of steady work over hours of virtual time",
                rule=SEEDED + "a case is a steady workload on one component; distinct by its parameters"),
    "C29": dict(pkg="hd", scale=2, runs=[dict(test="TestC29", shards=(8, 8), procs=PROCS)], observe=["stopped", "actions_observed", "leftover_checks", "servers_shut_down"],
                technique=VT + "random sets of components are used, stopped at random moments (requests and posts under way) and watched: nothing may be done later, and no goroutine, socket or open response may stay behind",
                rule=SEEDED + "a case is a set of components with their uses, endpoint faults and stop times; distinct by these"),
    "C30": dict(pkg="core", scale=2, runs=[dict(test="TestC30", shards=(8, 8))], observe=["processes", "pairs_told_apart"],
                technique="runtime monitoring of many real processes, on this host and on hosts of their own (UTS and PID namespaces): every id each gives of itself is collected, and an offline checker looks for changes and collisions",
                rule=SEEDED + "a case is a set of hosts with their processes; distinct by these"),
    "C26": dict(pkg="cmdt", parallel=24, runs=[dict(test="TestC26", shards=(24, 24), prepare=build_commands)], observe=["screens_compared", "outages", "requests_checked", "chains_checked"],
                technique="runtime monitoring: the real commands run on a pseudo terminal against a scripted healthd and scripted hosts over loopback; every screen drawn and request made is parsed and compared with what was served",
                rule=SEEDED + "a case is a job or host list, options, terminal size and outage script; distinct by these"),
}
