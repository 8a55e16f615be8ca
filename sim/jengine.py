"""Trajectories: where moving objects are at simulated moments, against kinematics computed from the specification."""
import copy
import math
import random

from .gengine import guard
from .load import sim
from .runner import Result, sig

INF = math.inf
DT = 1e-7


def profile(L, v):
    """(duration, distance as a function of elapsed time); None if not feasible; False if too close to call"""
    vmax = v.get("vmax", 1)
    v0, v1 = v.get("v0", vmax), v.get("v1", vmax)
    ia, id_ = [1 / v[k] if v.get(k) else 0 for k in ("acc", "dec")]
    need = lambda p: (p * p - v0 * v0) / 2 * ia + (p * p - v1 * v1) / 2 * id_  # noqa: E731
    p = vmax
    if L == 0 and need(vmax) > 0:  # nowhere to go: feasible without change of speed only
        if ia and id_ and v0 != v1:
            return False
        return 0.0, lambda t: 0.0
    if need(vmax) > L:
        lo, hi = max(v0 if ia else 0, v1 if id_ else 0), vmax
        if abs(need(lo) - L) < 1e-7:
            return False
        if need(lo) > L:
            return None
        for _ in range(200):
            m = (lo + hi) / 2
            if need(m) > L:
                hi = m
            else:
                lo = m
        p = lo
    if not ia:
        v0 = p
    if not id_:
        v1 = p
    ta, td = (p - v0) * ia, (p - v1) * id_
    la = (v0 + p) / 2 * ta
    T = ta + td + (L - la - (v1 + p) / 2 * td) / p

    def dist(t):
        if t <= 0:
            return 0.0
        if t >= T:
            return L
        if t < ta:
            return v0 * t + t * t / (2 * ia)
        if t > T - td:
            r = T - t
            return L - v1 * r - r * r / (2 * id_)
        return la + (t - ta) * p

    return T, dist


def spline(s):
    pts, res = s["pts"], s.get("res", 50)
    P = list(zip(pts[::2], pts[1::2]))
    out = []
    if s["spline"].lower().startswith("b"):
        n = len(P) - 1
        for k in range(res):
            u = k / (res - 1)
            b = [math.comb(n, i) * u**i * (1 - u) ** (n - i) for i in range(n + 1)]
            out.append((sum(x * w for (x, _), w in zip(P, b)), sum(y * w for (_, y), w in zip(P, b))))
        return out
    for i in range(len(P) - 1):
        y1, y2 = P[i][1], P[i + 1][1]
        y0 = P[i - 1][1] if i else 2 * y1 - y2
        y3 = P[i + 2][1] if i + 2 < len(P) else 2 * y2 - y1
        for k in range(res):
            u = k / res
            out.append((P[i][0] + u * (P[i + 1][0] - P[i][0]), 0.5 * (2 * y1 + (y2 - y0) * u + (2 * y0 - 5 * y1 + 4 * y2 - y3) * u * u + (3 * y1 - y0 - 3 * y2 + y3) * u**3)))
    return out + [P[-1]]


class Leaf:
    """specification of one part: at(elapsed) -> x, y, angle, length"""

    def __init__(self, s):
        self.s = s
        k = s["k"]
        self.ok = True
        self.angles = True
        if k == "still":
            self.T, self.L = s["dur"], 0.0
            return
        if k == "poly":
            P = spline(s) if s.get("spline") else list(zip(s["pts"][::2], s["pts"][1::2]))
            self.P = P
            self.cum = [0.0]
            for (x0, y0), (x1, y1) in zip(P, P[1:]):
                self.cum.append(self.cum[-1] + math.hypot(x1 - x0, y1 - y0))
                if self.cum[-1] - self.cum[-2] < 1e-6:
                    self.angles = False
            self.L = self.cum[-1]
        else:
            self.L = abs(s["a1"] - s["a0"]) * math.pi / 180 * s["r"]
        p = profile(self.L, s["v"])
        if not p:
            self.ok = p
            self.T = 0.0
            return
        self.T, self.dist = p

    def orient(self, a):
        o = self.s.get("ori")
        return a if o is None else a + 45 if o == "turn" else o

    def at(self, t):
        s = self.s
        if s["k"] == "still":
            o = s.get("ori")
            return s["x"], s["y"], (0 if o is None else 45 if o == "turn" else o), 0.0
        d = self.dist(t)
        if s["k"] == "circle":
            sgn = 1 if s["a0"] < s["a1"] else -1
            a = s["a0"] + sgn * math.degrees(d / s["r"])
            return s["x"] + s["r"] * math.cos(math.radians(a)), s["y"] + s["r"] * math.sin(math.radians(a)), self.orient(a + sgn * 90), d
        i = 0
        while i < len(self.P) - 2 and d > self.cum[i + 1]:
            i += 1
        (x0, y0), (x1, y1) = self.P[i], self.P[i + 1]
        w = self.cum[i + 1] - self.cum[i]
        f = 0 if not w else min(1, (d - self.cum[i]) / w)
        return x0 + f * (x1 - x0), y0 + f * (y1 - y0), self.orient(math.degrees(math.atan2(y1 - y0, x1 - x0))), d

    leaves = property(lambda self: [self])


class Sum:
    def __init__(self, parts):
        self.parts = [q for p in parts for q in p.leaves]
        self.T = sum(p.T for p in self.parts)
        self.L = sum(p.L for p in self.parts)
        oks = [p.ok for p in self.parts]
        self.ok = None if None in oks else all(oks)
        self.angles = all(p.angles for p in self.parts)

    leaves = property(lambda self: self.parts)

    def at(self, t):
        L = 0.0
        for i, p in enumerate(self.parts):
            if t <= p.T or i == len(self.parts) - 1:
                x, y, a, d = p.at(t)
                return x, y, a, L + d
            t -= p.T
            L += p.L


def near(a, b, tol):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


class MoverY(sim.Component):
    def setup(self, ex, i):
        self.ex, self.i = ex, i

    def process(self):
        yield self.hold(self.ex.case["movers"][self.i]["delay"])
        if self.ex.make(self.i):
            yield self.hold(self.ex.made[self.i][0].duration())
            self.ex.arrived(self.i)


class MoverL(MoverY):
    def process(self):
        self.hold(self.ex.case["movers"][self.i]["delay"])
        if self.ex.make(self.i):
            self.hold(self.ex.made[self.i][0].duration())
            self.ex.arrived(self.i)


class WatchY(sim.Component):
    def setup(self, ex):
        self.ex = ex

    def process(self):
        for d in self.ex.case["watch"]:
            yield self.hold(d)
            self.ex.look()


class WatchL(WatchY):
    def process(self):
        for d in self.ex.case["watch"]:
            self.hold(d)
            self.ex.look()


class Exec:
    def __init__(self, case, res):
        self.case, self.res = case, res
        yl = case["yieldless"]
        sim.yieldless(yl)
        self.env = sim.Environment(trace=False, yieldless=yl, random_seed=1)
        self.hist = []
        if case["pre"]:
            self.env.run(case["pre"][0])
            self.env.reset_now(case["pre"][1])
        self.made = {}
        self.pool = {}
        self.asks = random.Random(case["seed"])

    def run(self):
        Mv, Wt = (MoverL, WatchL) if self.case["yieldless"] else (MoverY, WatchY)
        for i, s in enumerate(self.case["pool"]):
            try:
                self.pool[i] = (self.build(s, None), Leaf(s), self.env.now())
            except ValueError:
                if Leaf(s).ok:
                    return self.res.fail("refused", "trajectory %s refused" % s)
        for i in range(len(self.case["movers"])):
            Mv(ex=self, i=i)
        Wt(ex=self)
        if self.case["other"]:
            self.default = sim.Environment(trace=False, yieldless=self.case["yieldless"])
        for d in self.case["runs"]:
            self.env.run(d)
        self.res.simtime = self.env.now()
        self.res.events = len(self.hist)
        self.res.sig = sig(self.hist)
        self.res.nontrivial = bool(self.made)

    def build(self, s, t0):
        """the real trajectory"""
        k = s["k"]
        kw = dict(env=self.env)
        if t0 is not None:
            kw["t0"] = t0
        if k == "ref":
            return self.pool[s["i"]][0]
        if k == "sum":
            parts = [self.build(p, t0 if j == 0 else None) for j, p in enumerate(s["parts"])]
            if s["how"] == "sum":
                return sum(parts)
            if s["how"] == "merged":
                return sim.TrajectoryMerged(parts)
            if s["how"] == "right":
                r = parts[-1]
                for p in parts[-2::-1]:
                    r = p + r
                return r
            r = parts[0]
            for p in parts[1:]:
                r = r + p
            return r
        o = s.get("ori")
        if o is not None:
            kw["orientation"] = (lambda a: a + 45) if o == "turn" else o
        if k == "still":
            return sim.TrajectoryStandstill((s["x"], s["y"]), s["dur"], **kw)
        kw.update(s["v"])
        if k == "poly":
            if s.get("spline"):
                kw["spline"] = s["spline"]
            if s.get("res"):
                kw["res"] = s["res"]
            return sim.TrajectoryPolygon(s["pts"], **kw)
        if (s["a0"], s["a1"]) != (0, 360):
            kw.update(angle0=s["a0"], angle1=s["a1"])
        return sim.TrajectoryCircle(s["r"], s["x"], s["y"], **kw)

    def spec(self, s):
        if s["k"] == "sum":
            return Sum([self.spec(p) for p in s["parts"]])
        if s["k"] == "ref":
            return self.pool[s["i"]][1] if s["i"] in self.pool else Leaf(self.case["pool"][s["i"]])
        return Leaf(s)

    def first(self, s):
        return self.first(s["parts"][0]) if s["k"] == "sum" else s

    def make(self, i):
        m = self.case["movers"][i]
        s = m["spec"]
        sp = self.spec(s)
        now = self.env.now()
        f = self.first(s)
        t0 = None if m["t0"] is None or f["k"] == "ref" else now + m["t0"]
        try:
            real = self.build(s, t0)
        except (ValueError, KeyError):
            if sp.ok:
                self.res.fail("refused", "trajectory %s refused" % s)
            self.res.probes["not feasible"] += 1
            return False
        if sp.ok is None:
            self.res.fail("accepted", "trajectory %s is not feasible, but accepted" % s)
        if not sp.ok:
            return False
        t0 = self.pool[f["i"]][2] if f["k"] == "ref" else now if t0 is None else t0
        self.made[i] = (real, sp, t0)
        self.hist.append((now, "make", i, s["k"]))
        self.res.probes["made:" + s["k"]] += 1
        if not near(real.duration(), sp.T, 1e-9):
            self.res.fail("duration", "duration of %s: expected %r, got %r" % (s, sp.T, real.duration()))
        if not near(real.length(), sp.L, 1e-9):
            self.res.fail("length", "length of %s: expected %r, got %r" % (s, sp.L, real.length()))
        if real.t0() != t0 or not near(real.t1(), t0 + sp.T, 1e-9):
            self.res.fail("time", "%s: expected to be from %r to %r, got %r to %r" % (s, t0, t0 + sp.T, real.t0(), real.t1()))
        if not (real.in_trajectory(real.t0()) and real.in_trajectory(real.t1())) or real.in_trajectory(t0 - 1e-3) or real.in_trajectory(t0 + sp.T + 1e-3) or not real.in_trajectory(t0 + sp.T / 2):
            self.res.fail("time", "%s: in_trajectory is wrong" % s)
        self.look()
        return True

    def arrived(self, i):
        real, sp, t0 = self.made[i]
        self.hist.append((self.env.now(), "arrived", i))
        if t0 is not None and self.case["movers"][i]["t0"] is None and self.first(self.case["movers"][i]["spec"])["k"] != "ref":
            self.ask(i, self.env.now())
            e = sp.at(sp.T + 1)
            g = (real.x(self.env.now()), real.y(self.env.now()))
            if sp.leaves[-1].T > 1e-6 and not (near(g[0], e[0], 1e-6) and near(g[1], e[1], 1e-6)):
                self.res.fail("arrival", "%s: at arrival expected at %r, got %r" % (self.case["movers"][i]["spec"], e[:2], g))

    def look(self):
        """all trajectories now, and at some other moments"""
        r = self.asks
        for i in self.made:
            real, sp, t0 = self.made[i]
            ts = [self.env.now()]
            for _ in range(r.randrange(4)):
                x = r.random()
                if x < 0.6:
                    ts.append(t0 + sp.T * (r.random() * 1.4 - 0.2))
                elif x < 0.7:
                    ts.append(t0)
                elif x < 0.8:
                    ts.append(real.t1())
                elif x < 0.9:
                    ts.append(t0 + sum(p.T for p in sp.leaves[: r.randrange(len(sp.leaves) + 1)]))
                else:
                    ts.append(t0 + r.choice([-3, sp.T + 3]))
            r.shuffle(ts)
            for t in ts:
                self.ask(i, t)
            if r.random() < 0.1 and sp.T < 100:
                self.rendered(i, r.choice([None, 0.25, 0.5, 3, 0.3]))

    def ask(self, i, t):
        if self.res.violation:
            return
        real, sp, t0 = self.made[i]
        self.res.faults["ask"] += 1
        exp = [sp.at(t - t0 + d) for d in (0, -DT, DT)]
        order = [0, 1, 2, 3]
        self.asks.shuffle(order)
        got = [None] * 4
        fs = (real.x, real.y, real.angle, real.length)
        for k in order:
            got[k] = fs[k](t)
        what = "%s from %r at %r" % (self.case["movers"][i]["spec"], t0, t)
        for k, name, tol in ((3, "length", 1e-6), (0, "x", 1e-5), (1, "y", 1e-5), (2, "angle", 1e-3)):
            if k == 2 and not sp.angles:
                continue
            if not any(near(got[k], e[k], tol) or (k == 2 and near((got[k] - e[k] + 180) % 360, 180, tol)) for e in exp):
                return self.res.fail(name, "%s of %s: expected %r, got %r" % (name, what, exp[0][k], got[k]))

    def rendered(self, i, step):
        real, sp, t0 = self.made[i]
        p = list(real.rendered_polygon() if step is None else real.rendered_polygon(step))
        step = step or 1
        n = len(p) // 2
        ts = [t0 + k * step for k in range(n - 1)] + [t0 + sp.T]
        ok = len(p) % 2 == 0 and n >= 1 and abs((n - 1) - math.ceil(sp.T / step - 1e-9)) <= 1
        for t, x, y in zip(ts, p[::2], p[1::2]):
            e = [sp.at(t - t0 + d) for d in (0, -DT, DT)]
            ok = ok and any(near(x, q[0], 1e-5) and near(y, q[1], 1e-5) for q in e)
        if not ok:
            self.res.fail("rendered", "rendered polygon of %s with step %r: %r" % (self.case["movers"][i]["spec"], step, p[:20]))


class Traject:
    def __init__(self, prop):
        self.prop = prop

    def gen(self, seed):
        r = random.Random("traject|%s|%s" % (self.prop, seed))
        ch = lambda xs: xs[r.randrange(len(xs))]  # noqa: E731

        def v():
            out = {}
            if r.random() < 0.7:
                out["vmax"] = ch([0.5, 1, 2, 3, 4])
            vm = out.get("vmax", 1)
            for k in ("v0", "v1"):
                if r.random() < 0.4:
                    out[k] = vm * ch([0, 0, 0.25, 0.5, 1])
            for k in ("acc", "dec"):
                if r.random() < 0.5:
                    out[k] = ch([0.125, 0.25, 1, 2, 5])
            return out

        def leaf():
            k = ch(["poly", "poly", "poly", "circle", "circle", "still"])
            s = dict(k=k)
            if r.random() < 0.3:
                s["ori"] = ch(["turn", 0, 30, -90])
            if k == "still":
                s.update(x=ch([0, 5, -2]), y=ch([0, 3, -7]), dur=ch([0.25, 0.5, 1, 3]))
                return s
            s["v"] = v()
            if k == "circle":
                a0 = ch([0, 0, 0, 90, -30, 200, 360])
                s.update(r=ch([0.5, 1, 2, 10]), x=ch([0, 1, -5]), y=ch([0, 2, -1]), a0=a0, a1=a0 + ch([360, 360, 90, -90, 45, -200, 400]))
                return s
            n = ch([2, 2, 3, 3, 4, 6])
            x, y, pts = ch([0, 1, -3]), ch([0, 2, 4]), []
            for j in range(n):
                pts += [x, y]
                dx, dy = ch([0, 1, 3, -2, 4]), ch([0, 1, -4, 3])
                if r.random() < 0.95 or j == 0:
                    if dx == dy == 0:
                        dx = 1
                x, y = x + dx, y + dy
            s["pts"] = pts
            if r.random() < 0.15:
                s["spline"] = ch(["bezier", "B", "catmull_rom", "c"])
                if s["spline"][0] == "c":
                    for j in range(2, len(pts), 2):
                        pts[j] = pts[j - 2] + abs(pts[j] - pts[j - 2]) + 0.5
                s["res"] = ch([5, 10, 12])
            return s

        def nowhere():
            if r.random() < 0.3:
                return dict(k="circle", v=v(), r=ch([1, 3]), x=0, y=1, a0=30, a1=30)
            return dict(k="poly", v=v(), pts=[2, 5] * ch([2, 3]))

        pool = [leaf() for _ in range(ch([0, 0, 1, 2]))]

        def spec(depth):
            if depth and r.random() < (0.6 if depth == 3 else 0.35):
                return dict(k="sum", how=ch(["sum", "merged", "add", "right"]), parts=[spec(depth - 1) for _ in range(ch([2, 2, 3]))])
            if pool and r.random() < 0.3:
                return dict(k="ref", i=r.randrange(len(pool)))
            return leaf()

        return dict(
            yieldless=r.random() < 0.5, seed=r.randrange(1 << 30), pool=pool, other=r.random() < 0.2,
            pre=[ch([0.5, 1, 4]), ch([0, 2, -3, 10])] if r.random() < 0.3 else None,
            movers=[dict(delay=ch([0, 0.25, 1, 2.5]), t0=ch([None, None, None, 0, 1.5, -1]), spec=nowhere() if r.random() < 0.03 else spec(3)) for _ in range(ch([1, 2, 3]))],
            watch=[ch([0, 0.25, 0.5, 1, 2.75]) for _ in range(ch([1, 3, 6]))],
            runs=[ch([0, 0.5, 2, 7]) for _ in range(ch([0, 1, 2]))] + [60],
        )

    def run(self, case):
        res = Result()
        ex = Exec(case, res)
        try:
            ex.run()
        except Exception as e:
            guard(res, e, ex.hist)
        return res

    def shrinks(self, case):
        def less(s):
            if s["k"] == "sum":
                yield from s["parts"]
                for j in range(len(s["parts"])):
                    if len(s["parts"]) > 2:
                        yield dict(s, parts=s["parts"][:j] + s["parts"][j + 1:])
                    for q in less(s["parts"][j]):
                        yield dict(s, parts=s["parts"][:j] + [q] + s["parts"][j + 1:])
                return
            if s.get("v"):
                for k in s["v"]:
                    yield dict(s, v={a: b for a, b in s["v"].items() if a != k})
            for k in ("ori", "spline"):
                if s.get(k) is not None:
                    yield {a: b for a, b in s.items() if a != k}
            if s["k"] == "poly" and len(s["pts"]) > 4:
                yield dict(s, pts=s["pts"][:-2])

        for k in ("movers", "watch", "runs"):
            for j in range(len(case[k])):
                if len(case[k]) > 1:
                    c = copy.deepcopy(case)
                    del c[k][j]
                    yield c
        for k, val in (("pre", None), ("other", False)):
            if case[k]:
                yield dict(copy.deepcopy(case), **{k: val})
        for j, m in enumerate(case["movers"]):
            for q in less(m["spec"]):
                c = copy.deepcopy(case)
                c["movers"][j]["spec"] = copy.deepcopy(q)
                yield c
            if m["t0"] is not None or m["delay"]:
                c = copy.deepcopy(case)
                c["movers"][j].update(t0=None, delay=0)
                yield c
