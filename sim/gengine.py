"""Engines "gens" (C24, C23) and "periods" (C29)."""
import copy
import random

from .load import sim
from .mengine import MM, check
from .runner import Result, sig

INF = float("inf")


class Seq:
    """callable that gives the elements of a list one after another, over and over"""

    def __init__(self, xs):
        self.xs = xs
        self.i = 0

    def __call__(self):
        x = self.xs[self.i % len(self.xs)]
        self.i += 1
        return x


def interp_l(self):
    for op in self.script:
        if op[0] == "hold":
            self.hold(op[1])
        else:
            self.ex.do(op)


def interp_y(self):
    for op in self.script:
        if op[0] == "hold":
            yield self.hold(op[1])
        else:
            self.ex.do(op)


class CtlL(sim.Component):
    def setup(self, ex, script):
        self.ex, self.script = ex, script

    process = interp_l


class CtlY(sim.Component):
    def setup(self, ex, script):
        self.ex, self.script = ex, script

    process = interp_y


class _XL(sim.Component):
    def setup(self, ex, tag):
        self.ex, self.tag = ex, tag
        ex.made.append((tag, type(self).__name__, ex.t, self.env is ex.env))

    def process(self):
        self.ex.started.append((self.tag, self.ex.t))


class _XY(sim.Component):
    def setup(self, ex, tag):
        self.ex, self.tag = ex, tag
        ex.made.append((tag, type(self).__name__, ex.t, self.env is ex.env))

    def process(self):
        self.ex.started.append((self.tag, self.ex.t))
        return
        yield


class XL1(_XL):
    pass


class XL2(_XL):
    pass


class XY1(_XY):
    pass


class XY2(_XY):
    pass


def expected(g, t0):
    """(start times, number, end time or None): what generator spec g, made at absolute time t0, has to do if left alone.

    Times are absolute. Each entry of the list: (moment of generating, moment of starting)."""
    start = t0 + g["delay"]
    till = INF if g["len"] is None else start + g["len"]
    number = INF if g["number"] is None else g["number"]
    out = []
    if number == 0:
        return out, None
    kind = g["kind"]
    if kind == "moments":
        ms = sorted(t0 + m for m in g["moments"])
        return [(m, m) for m in ms], ms[-1]
    if kind in ("equi", "equidist"):
        step = g["len"] / (number - 1)
        ds = Seq(g["dist"]) if kind == "equidist" else (lambda: 0)
        for k in range(number):
            out.append((start + k * step, start + k * step + ds()))
        return out, out[-1][0]
    iat = Seq(g["iat"])
    if kind == "iat":
        t = start if g["force_at"] else start + iat()
        if t > till:
            return out, till
        while len(out) < 200:
            out.append((t, t))
            if len(out) >= number:
                return out, t
            t += iat()
            if t > till:
                return out, till
        return out, None
    assert kind == "dist"
    ds = Seq(g["dist"])
    b = start
    while len(out) < 200:
        i, d = iat(), ds()
        at = b + d if g["force_at"] else b + i + d
        if at > till:
            return out, max(till, b)
        out.append((b, at))
        if len(out) >= number:
            return out, b
        b += i
    return out, None


class GenExec:
    def __init__(self, case, res):
        self.case, self.res = case, res
        yl = case["yieldless"]
        sim.yieldless(yl)
        self.env = self.default = sim.Environment(trace=False, yieldless=yl, random_seed=case["seed"])
        self.classes = (XL1, XL2) if yl else (XY1, XY2)
        self.off = 0.0
        self.made, self.started, self.ends = [], [], []
        self.gens = {}  # index -> (real generator, time made)
        self.inter = {}  # index -> [interrupted at, resumed at]
        self.cancelled = {}
        self.hist = []

    @property
    def t(self):
        return self.env.now() + self.off

    def do(self, op):
        n = op[0]
        self.hist.append((self.t, tuple(op)))
        self.res.faults[n] += 1
        if n == "rnow":
            t = self.t
            self.off = t - op[1]
            self.env.reset_now(op[1])
        elif n == "make":
            self.make(op[1])
        elif op[1] in self.gens:
            g = self.gens[op[1]][0]
            if n == "cancel":
                if not g.isdata():
                    g.cancel()
                    self.cancelled[op[1]] = self.t
            elif n == "int":
                if op[1] not in self.inter and not g.isdata():
                    g.interrupt()
                    self.inter[op[1]] = [self.t, INF]
            elif n == "res":
                if g.isinterrupted():
                    g.resume()
                    self.inter[op[1]][1] = self.t

    def make(self, i):
        g = self.case["gens"][i]
        env = self.env
        now = env.now()
        kw = {}
        if g["kind"] == "moments":
            ms = [now + m for m in g["moments"]]
            kw["moments"] = (lambda: ms) if g["callable"] else ms
        else:
            start = now + g["delay"]
            if g["how_start"] == "at":
                kw["at"] = start
            elif g["delay"]:
                kw["delay"] = g["delay"]
            if g["len"] is not None:
                if g["how_end"] == "till":
                    kw["till"] = start + g["len"]
                else:
                    kw["duration"] = g["len"]
            if g["number"] is not None:
                kw["number"] = (lambda: g["number"]) if g["callable"] else g["number"]
            if g["kind"] in ("iat", "dist"):
                kw["iat"] = Seq(g["iat"]) if len(g["iat"]) > 1 else (sim.Constant(g["iat"][0]) if g["callable"] else g["iat"][0])
            if g["kind"] in ("dist", "equidist"):
                kw["disturbance"] = g["dist"][0] if len(g["dist"]) == 1 and g["dist"][0] and not g["callable"] else Seq(g["dist"])
            if g["kind"] in ("equi", "equidist"):
                kw["equidistant"] = True
            if g["force_at"]:
                kw["force_at"] = True
            if g["force_till"]:
                kw["force_till"] = True
        A, B = self.classes
        cls = A
        if g["cls"] == "pdf" and g["kind"] not in ("dist", "equidist"):
            cls = sim.Pdf((A, B), (1, 1))
        elif g["cls"] == "func" and g["kind"] not in ("dist", "equidist"):
            cls = lambda **k: A(**k)  # noqa: E731
            cls.__name__ = "func"
        if self.case["two"]:
            self.default = sim.Environment(trace=False, yieldless=self.case["yieldless"])  # becomes the default environment
        self.gens[i] = (sim.ComponentGenerator(cls, at_end=lambda: self.ends.append((i, self.t)), env=env, ex=self, tag=i, **kw), self.t)

    def run(self):
        C = CtlL if self.case["yieldless"] else CtlY
        C(ex=self, script=self.case["maker"], env=self.env)
        C(ex=self, script=self.case["fault"], env=self.env)
        for d in self.case["runs"]:
            self.env.run(d)
        self.judge()

    def judge(self):
        T = self.t
        if sim.default_env() is not self.default:
            return self.res.fail("generator", "another default environment")
        for i, (real, t0) in self.gens.items():
            g = self.case["gens"][i]
            A, B = [c.__name__ for c in self.classes]
            made = [m for m in self.made if m[0] == i]
            started = [s[1] for s in self.started if s[0] == i]
            ends = [e[1] for e in self.ends if e[0] == i]
            what = "generator %d (%s)" % (i, g["kind"])
            for m in made:
                if not m[3]:
                    return self.res.fail("generator", "%s: component made in another environment" % what)
                if m[1] not in ((A, B) if g["cls"] == "pdf" else (A,)):
                    return self.res.fail("generator", "%s: made a %s" % (what, m[1]))
            if g["kind"] == "spread":
                start, till = t0 + g["delay"], t0 + g["delay"] + g["len"]
                if g["number"] == 0:
                    exp = 0
                else:
                    exp = g["number"]
                times = [m[2] for m in made]
                if i in self.cancelled:
                    if any(x > self.cancelled[i] for x in times) or len(times) > exp:
                        return self.res.fail("generator", "%s: made components at %s after cancel at %s" % (what, times, self.cancelled[i]))
                    continue
                eps = 1e-9
                if till < T and len(times) != exp or len(times) > exp:
                    return self.res.fail("generator", "%s: expected %d components, got %d" % (what, exp, len(times)))
                if any(not start - eps <= x <= till + eps for x in times):
                    return self.res.fail("generator", "%s: expected moments in %s..%s, got %s" % (what, start, till, times))
                if till < T and exp:
                    if g["force_at"] and abs(times[0] - start) > eps or g["force_till"] and abs(times[-1] - till) > eps:
                        return self.res.fail("generator", "%s: forced ends %s..%s, got %s" % (what, start, till, times))
                    if exp >= 3 and times[0] == times[-1] and till > start:
                        return self.res.fail("generator", "%s: not spread: %s" % (what, times))
                    if len(ends) != 1 or abs(ends[0] - times[-1]) > eps:
                        return self.res.fail("generator", "%s: expected at_end once at %s, got %s" % (what, times[-1], ends))
                if times != started:
                    return self.res.fail("generator", "%s: made at %s but started at %s" % (what, times, started))
                continue
            lst, end = expected(g, t0)
            if i in self.inter:
                a, b = self.inter[i]
                sh = lambda x: x if x < a else x + (b - a)  # noqa: E731
                lst = [(sh(m), s + (sh(m) - m)) for m, s in lst]
                end = None if end is None else sh(end)
            if i in self.cancelled:
                c = self.cancelled[i]
                lst = [x for x in lst if x[0] < c]
                if end is not None and end > c:
                    end = None
            em = [m for m, s in lst if m < T]
            es = sorted(s for m, s in lst if m < T and s < T)
            if em != [m[2] for m in made]:
                return self.res.fail("generator", "%s made at %s: expected components at %s, got %s" % (what, t0, em, [m[2] for m in made]))
            if es != sorted(started):
                return self.res.fail("generator", "%s made at %s: expected components to start at %s, got %s" % (what, t0, es, started))
            ee = [end] if end is not None and end < T else []
            if ee != ends:
                return self.res.fail("generator", "%s made at %s: expected at_end at %s, got %s" % (what, t0, ee, ends))
        self.res.simtime = T
        self.res.events = len(self.made)
        self.res.sig = sig((self.hist, self.made, self.ends))
        self.res.nontrivial = len(self.made) >= 2


class Gens:
    def __init__(self, prop):
        self.prop = prop

    def gen(self, seed):
        r = random.Random("gens|%s|%s" % (self.prop, seed))
        rx = random.Random("gens+|%s|%s" % (self.prop, seed))
        ch = lambda xs: xs[r.randrange(len(xs))]  # noqa: E731
        gens = []
        n = ch([1, 2, 3])
        faults = r.random() < 0.4
        for _ in range(n):
            k = ch(["iat", "iat", "iat", "dist", "equi", "equidist", "spread", "moments"])
            g = dict(kind=k, delay=ch([0, 0, 0.25, 1, 2.5]), len=ch([None, 0, 1, 2.5, 4]), number=ch([None, 0, 1, 2, 3, 5]), force_at=False, force_till=False)
            g.update(how_start=ch(["at", "delay"]), how_end=ch(["till", "duration"]), callable=r.random() < 0.3, cls=ch(["class", "class", "pdf", "func"]))
            if k == "moments":
                g["moments"] = [ch([0, 0, 0.25, 0.5, 1, 2, 3.25]) for _ in range(ch([1, 2, 4]))]
                g["delay"], g["len"], g["number"] = 0, None, None
            if k in ("iat", "dist"):
                g["iat"] = [ch([0.25, 0.5, 1, 2]) for _ in range(ch([1, 1, 2, 3]))] + ([0] if k == "iat" and r.random() < 0.2 else [])
            if k == "iat":
                g["force_at"] = r.random() < 0.5
            if k == "dist":
                g["dist"] = [ch([0, 0.25, 1, -0.25]) for _ in range(ch([1, 2, 3]))]
                g["force_at"] = min(g["dist"]) >= 0 and rx.random() < 0.5
            if k in ("equi", "equidist"):
                g["number"] = ch([2, 3, 5])
                g["len"] = (g["number"] - 1) * ch([0, 0.25, 0.5, 1])
                g["dist"] = [ch([0, 0.25, 1]) for _ in range(ch([1, 2]))]
            if k == "spread":
                g["number"] = ch([0, 1, 2, 3, 5])
                g["len"] = ch([0, 1, 2.5, 4])
                g["force_at"] = r.random() < 0.4
                g["force_till"] = r.random() < 0.4 and not (g["force_at"] and g["number"] == 1)
            gens.append(g)
        maker = []
        for i in range(n):
            maker += [["hold", ch([0, 0, 0.25, 1])], ["make", i]]
        fault = [["hold", 0.125]]
        rn = r.random() < (0.9 if self.prop == "C23" else 0.5)
        done = set()
        for _ in range(ch([1, 2, 4, 6])):
            x = r.random()
            i = r.randrange(n)
            if x < 0.5 and rn:
                fault.append(["rnow", ch([0, 1, 2.5, -3, 10]) + 0.125])
            elif faults and i not in done and x < 0.65:
                fault.append(["cancel", i])
                done.add(i)
            elif faults and x > 0.8 and i not in done and gens[i]["kind"] != "spread" and gens[i]["len"] is None:
                fault += [["int", i], ["hold", ch([0, 0.25, 1])], ["res", i]]
                done.add(i)
            fault.append(["hold", ch([0, 0.25, 0.5, 1])])
        return dict(
            yieldless=r.random() < 0.5, seed=r.randrange(1 << 30), two=r.random() < 0.3, gens=gens, maker=maker, fault=fault,
            runs=[ch([0, 0.5, 1, 2]) for _ in range(ch([0, 1, 3]))] + [15.0625],
        )

    def run(self, case):
        res = Result()
        ex = GenExec(case, res)
        try:
            ex.run()
        except Exception as e:
            guard(res, e, ex.hist)
        return res

    def shrinks(self, case):
        for i in range(len(case["gens"])):
            c = copy.deepcopy(case)
            c["maker"] = [o for o in c["maker"] if o != ["make", i]]
            yield c
        yield from shrink_lists(case, ["fault", "maker", "runs"], keep_last={"runs"})
        for k in ("two",):
            if case[k]:
                c = copy.deepcopy(case)
                c[k] = False
                yield c
        for i, g in enumerate(case["gens"]):
            for k, v in dict(delay=0, callable=False, cls="class", how_start="delay", how_end="till").items():
                if g[k] != v:
                    c = copy.deepcopy(case)
                    c["gens"][i][k] = v
                    yield c


def guard(res, e, hist):
    """an exception that comes out of the code under test is a violation; one of the harness is not"""
    import traceback

    tb = traceback.extract_tb(e.__traceback__)
    if any("salabim" in f.filename and "/verif/" not in f.filename for f in tb[-1:]):
        res.fail("exception", "%s: %s (after %s)" % (type(e).__name__, str(e)[:200], hist[-1:]))
    else:
        raise e


def shrink_lists(case, keys, keep_last=()):
    for k in keys:
        s = case[k]
        for a, b in ((0, len(s) // 2), (len(s) // 2, len(s))):
            if b - a > 1 and not (k in keep_last and b == len(s)):
                c = copy.deepcopy(case)
                del c[k][a:b]
                yield c
        for j in range(len(s) - 1, -1, -1):
            if k in keep_last and j == len(s) - 1:
                continue
            c = copy.deepcopy(case)
            del c[k][j]
            yield c


class PMM:
    """model of one PeriodMonitor"""

    def __init__(self, parent, periods, t):
        self.parent, self.periods = parent, periods
        self.mons = [MM(parent.level, t, 0, False) for _ in periods]
        self.i = 0
        self.next = t
        self.k = -1
        self.removed = False

    def advance(self, t):
        """all changes of period up to and including t"""
        while not self.removed and self.next <= t:
            self.mons[self.i].monitor(self.next, False)
            self.k += 1
            self.i = self.k % len(self.periods)
            m = self.mons[self.i]
            if self.parent.level:
                m.tally(self.next, self.parent.v)
            m.monitor(self.next, True)
            self.next += self.periods[self.i]


class PerExec:
    def __init__(self, case, res):
        self.case, self.res = case, res
        yl = case["yieldless"]
        sim.yieldless(yl)
        self.env = sim.Environment(trace=False, yieldless=yl, random_seed=1)
        self.off = 0.0
        self.mons = []
        for i, m in enumerate(case["mons"]):
            kw = dict(initial_tally=m["init"]) if m["level"] else {}
            self.mons.append((sim.Monitor("m%d" % i, level=m["level"], stats_only=m["so"], env=self.env, **kw), MM(m["level"], 0.0, m["init"], True)))
        self.pms = {}
        self.hist = []
        if case["two"]:
            sim.Environment(trace=False, yieldless=yl)

    @property
    def t(self):
        return self.env.now() + self.off

    def do(self, op):
        if self.res.violation:
            return
        n, t = op[0], self.t
        self.hist.append((t, tuple(op[:2])))
        self.res.faults[n] += 1
        # parent values in force at the boundaries passed since the last operation are the present ones
        for real, pm in self.pms.values():
            pm.advance(t)
        if n == "rnow":
            self.off = t - op[1]
            self.env.reset_now(op[1])
        elif n == "pm":
            i, k, periods, names = op[1:]
            kw = dict(period_monitor_names=["x%d" % j for j in range(len(periods))]) if names else {}
            self.pms[i] = (sim.PeriodMonitor(self.mons[k][0], periods=periods, env=self.env, **kw), PMM(self.mons[k][1], periods, t))
        elif n == "remove":
            if op[1] in self.pms and not self.pms[op[1]][1].removed:
                real, pm = self.pms[op[1]]
                real.remove()
                pm.removed = True
                pm.mons[pm.i].monitor(t, False)
        elif n == "tally":
            real, m = self.mons[op[1]]
            w = 1 if m.level else op[3]
            if w == 1:
                real.tally(op[2])
            else:
                real.tally(op[2], w)
            m.tally(t, op[2], w)
            for _, pm in self.pms.values():
                if pm.parent is m and not pm.removed:
                    pm.mons[pm.i].tally(t, op[2], w)
        elif n == "mon":
            real, m = self.mons[op[1]]
            real.monitor(op[2])
            m.monitor(t, op[2])
        elif n == "reset":
            real, m = self.mons[op[1]]
            real.reset(**({} if op[2] is None else dict(stats_only=op[2])))
            m.reset(t)
            for _, pm in self.pms.values():
                if pm.parent is m and not pm.removed:
                    for x in pm.mons:
                        x.reset(t)
        elif n == "read":
            self.check()

    def check(self):
        t = self.t
        for i, (real, m) in enumerate(self.mons):
            self.cmp("m%d" % i, real, m)
        for i, (real, pm) in self.pms.items():
            pm.advance(t)
            for k, m in enumerate(pm.mons):
                self.cmp("period %d of partition %d" % (k, i), real[k], m)

    def cmp(self, name, real, m):
        for what, e, g in check(name, real, m, self.t, self.off, current=m.on):  # the last value of a closed period is not defined
            self.res.fail("period", "at %r: %s expected %r, got %r" % (self.t, what, e, g))
            return

    def run(self):
        C = CtlL if self.case["yieldless"] else CtlY
        for s in self.case["scripts"]:
            C(ex=self, script=s, env=self.env)
        for d in self.case["runs"]:
            self.env.run(d)
        self.do(["read"])
        self.res.simtime = self.t
        self.res.events = len(self.hist)
        self.res.sig = sig(self.hist)
        self.res.nontrivial = len(self.pms) > 0 and len(self.hist) > 5


class Periods:
    def __init__(self, prop):
        self.prop = prop

    def gen(self, seed):
        r = random.Random("periods|%s|%s" % (self.prop, seed))
        ch = lambda xs: xs[r.randrange(len(xs))]  # noqa: E731
        nm = ch([1, 1, 2])
        mons = [dict(level=r.random() < 0.5, init=ch([0, 0, 2]), so=r.random() < 0.15) for _ in range(nm)]
        np = ch([1, 1, 2, 2, 3])
        alllevel = all(m["level"] for m in mons)
        maker = []
        for i in range(np):
            maker += [["hold", ch([0, 0, 0.5, 1])], ["pm", i, r.randrange(nm), [ch([0.5, 1, 1, 2, 3]) for _ in range(ch([1, 2, 3]))], r.random() < 0.3]]
        scripts = [maker]
        rn = r.random() < 0.3
        for _ in range(ch([1, 2])):
            tie = alllevel and r.random() < 0.5
            s = [["hold", 0 if tie else 0.125]]
            for _ in range(ch([4, 8, 14])):
                x = r.random()
                i = r.randrange(nm)
                if x < 0.6:
                    s.append(["tally", i, ch([0, 1, 2, 3.5, -1]), ch([1, 1, 2, 0.5])])
                elif x < 0.68:
                    s.append(["reset", i, ch([None, None, None, False, True])])
                elif x < 0.75:
                    s.append(["mon", i, r.random() < 0.6])
                elif x < 0.85 and not tie:
                    s.append(["read"])
                elif x < 0.92 and not tie:
                    s.append(["remove", r.randrange(np)])
                elif rn and not tie:
                    s.append(["rnow", ch([0, 2, 10]) + 0.125])
                s.append(["hold", ch([0, 0.25, 0.5, 1, 2])])
            scripts.append(s)
        return dict(yieldless=r.random() < 0.5, two=r.random() < 0.25, mons=mons, scripts=scripts, runs=[ch([0, 0.5, 1, 2]) for _ in range(ch([0, 1, 3]))] + [12.0625])

    def run(self, case):
        res = Result()
        ex = PerExec(case, res)
        try:
            ex.run()
        except Exception as e:
            guard(res, e, ex.hist)
        return res

    def shrinks(self, case):
        for i in range(len(case["scripts"])):
            c = copy.deepcopy(case)
            del c["scripts"][i]
            yield c
        yield from shrink_lists(case, ["runs"], keep_last={"runs"})
        for i, s in enumerate(case["scripts"]):
            for j in range(len(s) - 1, -1, -1):
                c = copy.deepcopy(case)
                del c["scripts"][i][j]
                yield c
