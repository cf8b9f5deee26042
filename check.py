#!/usr/bin/env python3
"""Driver: builds a property's monitor from /repo's working tree, runs it, writes evidence.

  check.py C07                 run the check (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py --replay FILE       re-run the one case a violation names
exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not decide.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
ENV.pop("GORACE", None)
WATCHDOG = 150  # seconds a single case may take; the slowest takes a few


class Broken(Exception):
    pass


def ensure_gomod():
    for f in ("go.mod", "go.sum"):
        if not os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(HERE, "gomod", f), os.path.join(REPO, f))


def build(spec, variant, scratch):
    out = os.path.join(scratch, "%s-%s.test" % (spec["pkg"], variant))
    flags = {"plain": [], "noinline": ["-gcflags=all=-l"], "race": ["-race"]}[variant]
    # the harness's go.mod is copied so that a build can never rewrite a committed file
    mod = os.path.join(scratch, "go.mod")
    if not os.path.exists(mod):
        for f in ("go.mod", "go.sum"):
            t = open(os.path.join(HARNESS, f)).read().replace("=> ./", "=> %s/" % HARNESS)
            open(os.path.join(scratch, f), "w").write(t)
    cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + mod] + flags + ["-o", out, "./" + spec["pkg"]]
    p = subprocess.run(cmd, cwd=HARNESS, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("build failed:\n" + p.stdout)
    return out


def run_proc(binary, test, env, scratch, tag, extra_env):
    """one monitor process, watched for progress"""
    d = os.path.join(scratch, tag)
    os.makedirs(d, exist_ok=True)
    e = dict(ENV, **env)
    e.update(extra_env)
    e["VERIF_OUT"] = os.path.join(d, "result.json")
    e["VERIF_PROGRESS"] = os.path.join(d, "progress")
    e["VERIF_SCRATCH"] = d
    e["VERIF_HALT"] = os.path.join(scratch, "violated")
    e["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3 log_path=%s" % os.path.join(d, "race")
    e["GOTRACEBACK"] = "all"
    log = open(os.path.join(d, "log"), "wb")
    p = subprocess.Popen([binary, "-test.run=^%s$" % test, "-test.timeout=0"], cwd=d, env=e,
                         stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    last, since, hung = None, time.time(), False
    t0 = time.time()
    while p.poll() is None:
        time.sleep(0.05 if time.time() - t0 < 2 else 0.25)
        try:
            st = os.stat(e["VERIF_PROGRESS"]).st_mtime_ns
        except OSError:
            st = None
        if st != last:
            last, since = st, time.time()
        elif time.time() - since > float(os.environ.get("VERIF_WATCHDOG", WATCHDOG)):
            hung = True
            p.send_signal(signal.SIGQUIT)
            try:
                p.wait(10)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    log.close()
    text = open(os.path.join(d, "log"), errors="replace").read()
    res = None
    if os.path.exists(e["VERIF_OUT"]):
        try:
            res = json.load(open(e["VERIF_OUT"]))
        except ValueError:
            pass
    prog = ""
    try:
        prog = open(e["VERIF_PROGRESS"]).read().strip()
    except OSError:
        pass
    races = []
    for f in glob.glob(os.path.join(d, "race.*")):
        races += parse_races(open(f, errors="replace").read())
    return dict(rc=p.returncode, hung=hung, res=res, log=text, at=prog, races=races, tag=tag)


def parse_races(text):
    out = []
    for block in re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", text, re.S):
        # the two access stacks come first, then where the goroutines were created
        acc = re.split(r"\nGoroutine ", block)[0]
        stacks = re.split(r"\n\n", acc)
        names = []
        for s in stacks:
            fr = re.findall(r"^  (\S+?)\(", s, re.M)
            names.append(fr)
        mine = any("gocraft/health" in n for fr in names for n in fr)
        key = " <-> ".join(sorted((next((re.sub(r"\.func\d+.*", "", n) for n in fr if "gocraft/health" in n), fr[0] if fr else "?")) for fr in names[:2]))
        out.append(dict(mine=mine, key=key, block=block))
    return out


def crash_violation(r):
    """did the process die in the code under test?"""
    log = r["log"]
    if "HARNESS:" in log:
        return None
    m = re.search(r"^(panic: .*|fatal error: .*|unexpected fault address.*)$", log, re.M)
    if not m:
        return None
    tail = log[m.start():]
    # the first goroutine printed is the one that failed
    g = re.search(r"^goroutine \d+.*?(?=^\s*$)", tail, re.M | re.S)
    first = g.group(0) if g else tail[:4000]
    if "gocraft/health" in first or ("fatal error" in m.group(1) and "gocraft/health" in tail):
        return "%s\n%s" % (m.group(1), first[:3000])
    return None


def load_findings(prop):
    listed = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                listed[m.group(2)] = m.group(3).strip()
    return listed


def write_replay(prop, n, v, env):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    json.dump(dict(property=prop, seed=int(env["VERIF_SEED"]), tier=env["VERIF_TIER"], **v,
                   how="python3 %s/check.py --replay %s" % (HERE, path)), open(path, "w"), indent=1)
    return path


def main():
    args = sys.argv[1:]
    only = None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    if args and args[0] == "--replay":
        rp = json.load(open(args[1]))
        args = [rp["property"]]
        seed, tier = str(rp["seed"]), rp["tier"]
        only = rp
    prop = args[0]
    spec = CHECKS[prop]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    env = {"VERIF_SEED": seed, "VERIF_TIER": tier}
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return decide(prop, spec, env, tier, seed, only, scratch, t0)
    except Broken as ex:
        print("CHECK-ERROR property=%s %s" % (prop, ex))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, spec, env, tier, seed, only, scratch, t0):
    ensure_gomod()
    evidence = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    if not only:
        for f in glob.glob(os.path.join(HERE, "replays", prop + "-*.json")):
            os.unlink(f)

    jobs = []
    extra_stats = {}
    for run in spec["runs"]:
        if tier not in run.get("tiers", ("quick", "thorough")):
            continue
        variant = run.get("variant", "plain")
        if only and only.get("variant") not in (None, variant):
            continue
        binary = build(spec, variant, scratch)
        xenv = {}
        if run.get("prepare"):
            xenv = run["prepare"](HERE, scratch, ENV, Broken)
        shards = 1 if only else run.get("shards", (4, 8))[tier == "thorough"]
        reps = 1 if only else run.get("repeat", (1, 1))[tier == "thorough"]
        for rep in range(reps):
            for s in range(shards):
                ee = dict(xenv, VERIF_SHARD=str(s), VERIF_SHARDS=str(shards), VERIF_REP=str(rep))
                if run.get("procs"):
                    ee["GOMAXPROCS"] = str(run["procs"][(s + rep) % len(run["procs"])])
                if spec.get("scale"):
                    ee["VERIF_SCALE"] = str(spec["scale"])
                if run.get("env"):
                    ee.update(run["env"])
                if only and only.get("workload") and only.get("case", -1) >= 0:
                    ee["VERIF_ONLY"] = "%s:%d" % (only["workload"], only["case"])
                jobs.append((binary, run["test"], variant, "%s-%s-%d-%d" % (run["test"], variant, rep, s), ee))

    def go(j):
        return j, run_proc(j[0], j[1], env, scratch, j[3], j[4])

    violations, findings, inconclusive = [], {}, []
    counters, distinct, samples, cases = {}, set(), [], 0
    raceseen = {}
    with ThreadPoolExecutor(max_workers=spec.get("parallel", 8)) as ex:
        results = list(ex.map(go, jobs))
    for j, r in results:
        wl, cs = "", -1
        if ":" in r["at"]:
            wl, cs = r["at"].rsplit(":", 1)[0], int(r["at"].rsplit(":", 1)[1])
        res = r["res"] or {}
        for v in res.get("violations") or []:
            violations.append(dict(v, variant=j[2]))
        for k, v in (res.get("findings") or {}).items():
            findings[k] = v
        inconclusive += res.get("inconclusive") or []
        for k, v in (res.get("counters") or {}).items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
        distinct.update(res.get("distinct") or [])
        for s in res.get("samples") or []:
            if len(samples) < 3:
                samples.append(s)
        cases += res.get("cases") or 0
        for race in r["races"]:
            if race["mine"]:
                raceseen.setdefault(race["key"], (race, wl, cs, j[2]))
            else:
                inconclusive.append("race report without a frame of the code under test: " + race["key"])
        if r["hung"] and any(v["message"].startswith("no progress: the case") for v in violations):
            pass  # one confirmed hang is enough
        elif r["hung"]:
            # a watchdog firing decides nothing by itself: repeat that case alone
            again = run_proc(j[0], j[1], env, scratch, j[3] + "-again", dict(j[4], VERIF_ONLY=r["at"], VERIF_SHARD="0", VERIF_SHARDS="1"))
            stuck = again["hung"] and "gocraft/health" in again["log"] and "gocraft/health" in r["log"]
            if stuck:
                violations.append(dict(workload=wl, case=cs, variant=j[2], message="no progress: the case did not finish in %d s, twice" % WATCHDOG,
                                       trace=again["log"][-6000:].split("\n")))
            else:
                inconclusive.append("watchdog fired at %s" % r["at"])
        elif not res.get("done"):
            cv = crash_violation(r)
            if cv:
                violations.append(dict(workload=wl, case=cs, variant=j[2], message="crash: " + cv, trace=[]))
            else:
                inconclusive.append("monitor process ended early (rc %s at %s):\n%s" % (r["rc"], r["at"], r["log"][-3000:]))
    for key, (race, wl, cs, variant) in raceseen.items():
        violations.append(dict(workload=wl, case=cs, variant=variant, message="data race: " + key, trace=race["block"].split("\n")))

    listed = load_findings(prop)
    for fid, what in sorted(findings.items()):
        if fid in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, fid, what))
        else:
            violations.append(dict(workload=fid, case=-1, variant="", message="unlisted failing input %s: %s" % (fid, what), trace=[]))

    if only:
        for v in violations:
            print("reproduced: %s" % v["message"])
            for t in v.get("trace") or []:
                print("   ", t)
        print("replay: %d violation(s)" % len(violations))
        return 1 if violations else 0

    need = spec.get("observe", [])
    missing = [k for k in need if not counters.get(k)]
    if not violations and (cases == 0 or missing):
        inconclusive.append("observed nothing: cases=%d, missing %s" % (cases, missing))

    cov = dict(evaluations=cases, distinct_nontrivial=len(distinct), rule=spec["rule"], samples=samples,
               observed={k: counters[k] for k in sorted(counters)},
               builds=sorted({j[2] for j in jobs}), processes=len(jobs))
    json.dump(dict(property=prop, tier=tier, seed=int(seed), level=spec.get("level", "exploration"), coverage=cov,
                   assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2),
                   violations=len(violations)), open(evidence, "w"), indent=1)
    for n, v in enumerate(violations[:10]):
        path = write_replay(prop, n, v, env)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s" % v["message"].split("\n")[0][:600])
    if violations:
        return 1
    if inconclusive:
        print("CHECK-ERROR property=%s inconclusive: %s" % (prop, "\n".join(inconclusive[:5])))
        return 2
    print("OK property=%s cases=%d distinct=%d %s wall=%.1fs" % (prop, cases, len(distinct),
          " ".join("%s=%d" % (k, counters[k]) for k in sorted(counters) if not k.startswith("cases_"))[:300], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
