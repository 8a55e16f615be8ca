"""Seeded search over simulated runs: workers, violations, minimisation, replay files, evidence.

A *case* is a JSON document that determines one execution completely. An engine makes cases from
a seed string and judges them. Nothing here reads a clock to decide what is run: the number of
cases per tier is fixed, the seed of case i is "<VERIF_SEED>/<property>/<i>".
"""
import collections
import hashlib
import json
import multiprocessing
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT = 30  # wall seconds for one case, which normally takes about 10 ms: "no progress"
CHUNK = 100


class Hang(BaseException):
    pass


class Result:
    """of one judged case"""

    __slots__ = ("violation", "faults", "probes", "sig", "simtime", "events", "nontrivial")

    def __init__(self):
        self.violation = None  # (kind, message)
        self.faults = collections.Counter()  # fault kinds that fired
        self.probes = collections.Counter()  # rare conditions that were reached
        self.sig = 0
        self.simtime = 0.0
        self.events = 0
        self.nontrivial = True

    def fail(self, kind, message):
        if self.violation is None:
            self.violation = (kind, message)


def sig(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


def norm(case):
    return json.loads(json.dumps(case))


def _alarm(signum, frame):
    raise Hang()


def from_salabim(e):
    tb = e.__traceback__
    while tb is not None:
        if os.path.basename(tb.tb_frame.f_code.co_filename) == "salabim.py":
            return True
        tb = tb.tb_next
    return False


def judge(engine, case):
    """runs one case; an unexpected exception out of the code under test is a violation"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT, 1)
    try:
        return engine.run(case)
    except Hang:
        r = Result()
        r.fail("no-progress", "the run made no progress for %d s" % CASE_LIMIT)
        return r
    except MemoryError:
        r = Result()
        r.fail("no-progress", "the run exhausted its memory limit")
        return r
    except RecursionError:
        r = Result()
        r.fail("exception", "RecursionError")
        return r
    except Exception as e:  # out of the code under test: a violation; out of the harness: an error
        if not from_salabim(e):
            raise
        r = Result()
        r.fail("exception", "%s: %s" % (type(e).__name__, str(e)[:160]))
        return r
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except (ValueError, OSError):
        pass


def chunk_worker(args):
    engine_name, prop, base, i0, n = args
    from . import engines

    limits()
    engine = engines.get(engine_name, prop)
    out = dict(n=0, faults=collections.Counter(), probes=collections.Counter(), sigs=set(), simtime=0.0, events=0, samples=[], violation=None, error=None, i0=i0)
    for i in range(i0, i0 + n):
        try:
            case = norm(engine.gen("%s/%s/%d" % (base, prop, i)))
            r = judge(engine, case)
        except Exception:
            out["error"] = "case %d: %s" % (i, traceback.format_exc())
            return out
        out["n"] += 1
        out["faults"].update(r.faults)
        out["probes"].update(r.probes)
        out["simtime"] += r.simtime
        out["events"] += r.events
        if r.nontrivial:
            out["sigs"].add(r.sig)
        if i < 2:
            out["samples"].append(case)
        if r.violation:
            out["violation"] = (i, r.violation)
            return out
    return out


def fresh(engine_name, prop, cases, timeout=120):
    """judges a sequence of cases in a fresh process; the verdict on the last one"""
    p = subprocess.run(
        [sys.executable, os.path.join(VERIF, "check.py"), "--judge"],
        input=json.dumps(dict(engine=engine_name, property=prop, cases=cases)),
        capture_output=True,
        text=True,
        timeout=timeout,
        cwd=VERIF,
    )
    if p.returncode != 0:
        raise RuntimeError("judge process failed: " + p.stderr[-2000:])
    v = json.loads(p.stdout.splitlines()[-1])
    return tuple(v) if v else None


def judge_main():
    d = json.load(sys.stdin)
    from . import engines

    limits()
    engine = engines.get(d["engine"], d["property"])
    r = None
    for case in d["cases"]:
        r = judge(engine, case)
    sys.stdout.write("\n" + json.dumps(r.violation) + "\n")
    return 0


def forked(fn, *args, timeout=600):
    """fn(*args) in a forked child, so that no state of one judgement reaches the next"""
    ctx = multiprocessing.get_context("fork")
    a, b = ctx.Pipe(False)

    def go():
        try:
            b.send(("ok", fn(*args)))
        except BaseException:
            b.send(("err", traceback.format_exc()))
        b.close()

    p = ctx.Process(target=go)
    p.start()
    b.close()
    try:
        if a.poll(timeout):
            k, v = a.recv()
        else:
            k, v = "err", "timeout"
    except EOFError:
        k, v = "err", "child died"
    if p.is_alive() and k == "err":
        p.kill()
    p.join(5)
    if p.is_alive():
        p.kill()
    return v if k == "ok" else None


def minimise(engine, prefix, case, kind, seconds):
    """greedy delta debugging: keeps what still gives a violation of the same kind"""

    def work():
        global CASE_LIMIT
        CASE_LIMIT = 10 if kind == "no-progress" else CASE_LIMIT
        limits()
        best = case
        t0 = time.time()
        tries = 0
        progress = True
        while progress and time.time() - t0 < seconds:
            progress = False
            for cand in engine.shrinks(best):
                if time.time() - t0 > seconds:
                    break
                cand = norm(cand)
                if cand == best:
                    continue
                tries += 1
                try:
                    r = judge(engine, cand)
                except Exception:
                    continue
                if r.violation and r.violation[0] == kind:
                    best = cand
                    progress = True
                    break
        return best, tries

    if prefix or kind == "no-progress":
        return case, 0
    v = forked(work, timeout=seconds + 60)
    return v if v else (case, 0)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                out.append(line[len("known: property=%s " % prop):])
    return out


def run_check(prop, engine_name, tier, counts, meta):
    from . import engines

    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    base = str(seed)
    n = counts[0] if tier == "quick" else counts[1]
    n = int(os.environ.get("VERIF_CASES", n))
    jobs = int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 1)))
    t0 = time.time()
    print("property=%s tier=%s seed=%d cases=%d jobs=%d engine=%s" % (prop, tier, seed, n, jobs, engine_name), flush=True)
    engine = engines.get(engine_name, prop)
    chunk = getattr(engine, "chunk", CHUNK)
    tasks = [(engine_name, prop, base, i, min(chunk, n - i)) for i in range(0, n, chunk)]
    tot = dict(n=0, faults=collections.Counter(), probes=collections.Counter(), sigs=set(), simtime=0.0, events=0, samples=[])
    found = None
    errors = []
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        it = pool.imap(chunk_worker, tasks)  # ordered: the reported violation does not depend on timing
        for _ in tasks:
            try:
                o = it.next(timeout=CASE_LIMIT * 8)
            except multiprocessing.TimeoutError:
                errors.append("a worker did not answer")
                break
            tot["n"] += o["n"]
            for k in ("faults", "probes"):
                tot[k].update(o[k])
            tot["sigs"] |= o["sigs"]
            tot["simtime"] += o["simtime"]
            tot["events"] += o["events"]
            tot["samples"] += o["samples"]
            if o["error"]:
                errors.append(o["error"])
                break
            if o["violation"]:
                found = (o["i0"],) + o["violation"]
                break
        pool.terminate()
    replay = None
    rc = 0
    if found:
        i0, i, (kind, msg) = found
        replay, rc = report(prop, engine_name, engine, base, i0, i, kind, msg, seed, tier)
    wall = time.time() - t0
    per_h = tot["n"] / wall * 3600 if wall else 0
    cov = dict(
        evaluations=tot["n"],
        distinct_nontrivial=len(tot["sigs"]),
        rule=meta["rule"],
        samples=tot["samples"][:2],
        runs_per_hour=round(per_h),
        seeds_per_hour=round(per_h),
        simulated_time_covered=tot["simtime"],
        simulated_events=tot["events"],
        faults_injected=dict(sorted(tot["faults"].items())),
        probes_reached=dict(sorted(tot["probes"].items())),
        distinct_measure=meta["measure"],
        real_components=meta["real"],
        stubbed_components=meta["stub"],
        jobs=jobs,
    )
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=cov,
        assumptions=meta.get("assumptions", []),
        wall_s=round(wall, 2),
        violations=1 if rc == 1 else 0,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("runs=%d distinct=%d simulated_time=%.2f faults=%s wall=%.1fs" % (tot["n"], len(tot["sigs"]), tot["simtime"], sum(tot["faults"].values()), wall))
    if errors and rc == 0:
        print("HARNESS-ERROR property=%s %s" % (prop, errors[0]))
        return 3
    return rc


def report(prop, engine_name, engine, base, i0, i, kind, msg, seed, tier):
    """confirms in a fresh process, minimises and writes the replay file"""
    mk = lambda k: norm(engine.gen("%s/%s/%d" % (base, prop, k)))  # noqa: E731
    case = mk(i)
    prefix = []
    # alone first, else with ever more of the cases that ran before it in the same process
    confirmed = None
    for plen in [0, 1, 2, 4, 8, 16, 32, 64, i - i0]:
        if plen > i - i0:
            continue
        prefix = [mk(k) for k in range(i - plen, i)]
        try:
            v = fresh(engine_name, prop, prefix + [case])
        except (RuntimeError, subprocess.TimeoutExpired) as e:
            v = ("no-progress", str(e)[-300:])
        if v:
            confirmed = v
            break
    if confirmed is None:
        prefix = [mk(k) for k in range(i0, i)]
        confirmed = (kind, msg)
    kind, msg = confirmed
    small, tries = minimise(engine, prefix, case, kind, 40 if tier == "quick" else 120)
    v2 = confirmed
    if small != case:
        try:
            v2 = fresh(engine_name, prop, prefix + [small])
        except (RuntimeError, subprocess.TimeoutExpired):
            v2 = None
        if not v2:
            small, v2 = case, confirmed
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (prop, seed, i))
    with open(path, "w") as f:
        json.dump(dict(property=prop, engine=engine_name, seed="%s/%s/%d" % (base, prop, i), prefix=prefix, case=small, violation=list(v2), minimise_tries=tries), f, indent=1)
        f.write("\n")
    print("case %d (seed %s/%s/%d): %s: %s" % (i, base, prop, i, v2[0], v2[1]))
    print("replay with: python check.py --replay %s" % path)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return path, 1


def replay_main(path):
    d = json.load(open(path))
    v = fresh(d["engine"], d["property"], d["prefix"] + [d["case"]])
    if not v:
        print("no violation")
        return 0
    same = list(v) == d["violation"]
    print("%s: %s" % v)
    print("reproduces the recorded violation exactly" if same else "differs from the recorded violation: %s" % d["violation"])
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1
