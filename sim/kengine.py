"""Engine "kernel": a program on the real salabim against the reference model, entry by entry."""
import copy
import random

from . import kgen, kmodel, kreal, kstats
from .runner import Result, sig

OBS = {"trace", "gc", "info", "mon", "mreset", "rate"}


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


def first_diff(a, b, path=""):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, path + "[%d]" % i)
    return path, a, b


FIELDS = ["status", "scheduled_time", "remaining_duration", "interrupt_level", "failed", "claims", "requests", "mode", "mode_time", "scheduled_priority", "process", "from_store_item", "from_store_store", "to_store_store"]
RFIELDS = ["capacity", "claimed", "available", "occupancy", "requesters", "claimers"]
GROUP = ["now", "component", "resource", "state", "store", "queue"]


def describe(exp, act):
    """first difference of two log entries in words"""
    if exp[:-1] != act[:-1]:
        return "history", "expected %s, got %s" % (short(exp[:-1]), short(act[:-1]))
    path, x, y = first_diff(exp[-1], act[-1])
    idx = [int(i) for i in path[1:-1].split("][")] if path else []
    what = ""
    kind = "state"
    if idx:
        what = GROUP[idx[0]]
        if len(idx) > 1:
            what += " %d" % idx[1]
        if idx[0] == 1 and len(idx) > 2:
            what += " " + FIELDS[idx[2]]
        if idx[0] == 2 and len(idx) > 2:
            what += " " + RFIELDS[idx[2]]
        kind = GROUP[idx[0]]
    return kind, "after %s: %s expected %s, got %s" % (short(exp[:-1]), what, short(x), short(y))


def fault_names(log):
    for e in log:
        if e[0] == "op":
            yield e[2], e[3]
        elif e[0] == "main" and e[2] not in ("run", "till", "runall", "runinf"):
            yield "main:" + e[2], e[3]
        elif e[0] == "crash":
            yield "process-crash", "ok"


def run_real(prog, opts=None):
    """(log, Real, exception text or None)"""
    R = (opts or {}).get("real", kreal.Real)(prog, opts)
    try:
        return R.run(), R, None
    except (kmodel.Boom, Exception) as e:
        return R.log, R, "%s: %s" % (type(e).__name__, short(str(e)))


def compare_logs(res, ml, rl, exc, label=""):
    for i, (a, b) in enumerate(zip(ml, rl)):
        if a != b:
            k, m = describe(a, b)
            res.fail(k, "%sentry %d: %s" % (label, i, m))
            return False
    if exc:
        res.fail("exception", "%safter entry %d (%s): %s" % (label, len(rl), short(rl[-1][:-1]) if rl else "start", exc))
        return False
    if len(ml) != len(rl):
        res.fail("history", "%sexpected %d entries, got %d" % (label, len(ml), len(rl)))
        return False
    return True


DECIMAL = ("C04", "C05", "C06", "C07", "C08", "C10")


class Kernel:
    def __init__(self, prop):
        self.prop = prop
        self.profile = prop

    def gen(self, seed):
        prog = kgen.generate(self.profile, seed)
        if self.prop in DECIMAL and random.Random("decimal|%s|%s" % (self.prop, seed)).random() < 0.15:
            prog["dec"] = 0.1
        return prog

    def opts(self, prog):
        return {}

    def run(self, prog):
        res = Result()
        M = kmodel.Model(prog)
        ml = M.run()
        self.account(res, prog, ml, M)
        rl, R, exc = run_real(prog, self.opts(prog))
        if M.odd < len(ml):
            res.probes["order-unspecified"] += 1
            compare_logs(res, ml[: M.odd], rl[: M.odd], None)
            return res
        if compare_logs(res, ml, rl, exc):
            for name, exp, act in kstats.compare(R, M):
                res.fail("statistics", "%s expected %s, got %s" % (name, short(exp), short(act)))
                break
        if R.views is not None:
            self.view(res, R)
        if res.violation is None:
            self.extra(res, prog, M, ml, R, rl)
        return res

    def view(self, res, R):
        i, a, what, exp, act = R.views
        res.fail("views", "after entry %d %s: %s expected %s, got %s" % (i, short(a, 80), what, short(exp, 80), short(act, 80)))

    def extra(self, res, prog, M, ml, R, rl):
        for i, c in enumerate(prog["comps"]):
            if c.get("event") and R.comps[i] is not None and R.comps[i].action_taken() != M.comps[i].taken:
                res.fail("event", "action_taken of event %d expected %s, got %s" % (i, M.comps[i].taken, R.comps[i].action_taken()))

    def account(self, res, prog, ml, M):
        for k, out in fault_names(ml):
            if out != "skip":
                res.faults[k] += 1
                if out in ("ValueError", "QueueFullError", "IndexError"):
                    res.probes["refused:" + k] += 1
        for e in ml:
            if e[0] == "in":
                st = e[-1][1][e[1]]
                if st[4]:
                    res.probes["resumed-failed"] += 1
        res.events = len(ml)
        t = M.t
        res.simtime = t if t < kmodel.INF else 0.0
        res.sig = sig([(e[:-1], e[-1][0]) for e in ml])
        res.nontrivial = len(ml) >= 8

    def shrinks(self, prog):
        """smaller programs, biggest steps first"""
        for i in range(len(prog["main"]) - 1, -1, -1):
            p = copy.deepcopy(prog)
            del p["main"][i]
            if any(m[0] in ("run", "till", "runall", "runinf") for m in p["main"]):
                yield p
        for i, c in enumerate(prog["comps"]):
            if c.get("start") is not None and not c.get("late"):
                p = copy.deepcopy(prog)
                p["comps"][i].update(start=None, scripts=[[], []])
                yield p
        if prog["comps"] and len(prog["comps"]) > 1:  # last component altogether, if unused
            p = copy.deepcopy(prog)
            n = len(p["comps"]) - 1
            del p["comps"][n]
            if not uses_comp(p, n):
                yield p
        for i, c in enumerate(prog["comps"]):
            for k, s in enumerate(c.get("scripts", [])):
                if len(s) > 1:
                    for a, b in ((0, len(s) // 2), (len(s) // 2, len(s))):
                        p = copy.deepcopy(prog)
                        del p["comps"][i]["scripts"][k][a:b]
                        yield p
        for i, c in enumerate(prog["comps"]):
            for k, s in enumerate(c.get("scripts", [])):
                for j in range(len(s) - 1, -1, -1):
                    p = copy.deepcopy(prog)
                    del p["comps"][i]["scripts"][k][j]
                    yield p
        for i, c in enumerate(prog["comps"]):
            for key in ("at", "delay", "prio", "urgent", "skip"):
                if c.get(key):
                    p = copy.deepcopy(prog)
                    del p["comps"][i][key]
                    yield p
            for k, s in enumerate(c.get("scripts", [])):
                for j, op in enumerate(s):
                    for o2 in simpler(op):
                        p = copy.deepcopy(prog)
                        p["comps"][i]["scripts"][k][j] = o2
                        yield p
        for i, op in enumerate(prog["main"]):
            for o2 in simpler(op):
                p = copy.deepcopy(prog)
                p["main"][i] = o2
                yield p


def uses_comp(p, n):
    for ops in [p["main"]] + [s for c in p["comps"] for s in c.get("scripts", [])]:
        for op in ops:
            if (op[0] in kmodel.PI or op[0] in kmodel.TARGETED or op[0] == "create") and op[1] == n:
                return True
    return False


def simpler(op):
    if isinstance(op[-1], dict) and op[-1]:
        for k in op[-1]:
            o = copy.deepcopy(op)
            del o[-1][k]
            yield o
    if op[0] in ("req", "get", "put") and len(op[2]) > 1:
        for i in range(len(op[2])):
            o = copy.deepcopy(op)
            del o[2][i]
            yield o
    if op[0] == "hold":
        if op[3] or op[4] or op[5]:
            yield ["hold", op[1], op[2], 0, False, None]
        if op[2] not in (0, 1):
            yield ["hold", op[1], 1] + op[3:]


class Both(Kernel):
    """C21: every program in both process styles"""

    def run(self, prog):
        prog = dict(prog, yieldless=True)
        res = super().run(prog)
        return res

    def extra(self, res, prog, M, ml, R, rl):
        p2 = dict(prog, yieldless=False)
        rl2, R2, exc = run_real(p2)
        if compare_logs(res, rl, rl2, exc, "yield against yieldless, "):
            for name, exp, act in kstats.compare(R2, M):
                res.fail("statistics", "%s expected %s, got %s" % (name, short(exp), short(act)))
                break
