"""Engine "dists" (C31): distributions sampled by simulated processes from scripted random streams.

The stream is the seam: a stub stream returns chosen outputs (0, the largest float below 1, exact
cumulative boundaries, ...) before it goes on as an ordinary generator. Every stream has a twin that
only the reference implementation draws from.
"""
import copy
import math
import random

from .load import sim
from .runner import Result, sig

TOP = 1 - 2.0**-53
EXT = [0.0, TOP, 2.0**-53, 0.5, 0.25, 0.75, 0.125, 1e-300, 0.999999, 0.3333333333333333]
UNITS = {"years": 86400 * 365, "weeks": 86400 * 7, "days": 86400, "hours": 3600, "minutes": 60, "seconds": 1, "milliseconds": 1e-3, "microseconds": 1e-6}
OPS = {
    "add": lambda a, b: a + b,
    "sub": lambda a, b: a - b,
    "mul": lambda a, b: a * b,
    "div": lambda a, b: a / b,
    "fdiv": lambda a, b: a // b,
    "pow": lambda a, b: a**b,
}
FNS = {"neg": lambda x: -x, "sq": lambda x: x * x, "int": lambda x: int(x), "cap": lambda x: min(x, 2), "str": lambda x: "<%s>" % x}
BASE = sim.Uniform.__mro__[1]
NAN = float("nan")
INF = float("inf")


class Stub(random.Random):
    """a random stream with chosen first outputs"""

    script = ()
    pos = 0

    def random(self):
        if self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
            return v
        return super().random()

    def getrandbits(self, k):
        if self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
            return int(v * (1 << k))
        return super().getrandbits(k)


def stream(spec):
    if spec[0] == "stub":
        s = Stub(spec[2])
        s.script = list(spec[1])
        return s
    return random.Random(spec[1])


def state(s):
    return (s.pos, s.getstate()) if isinstance(s, Stub) else s.getstate()


# ---------------------------------------------------------------- generation
class G:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def ch(self, xs):
        return xs[self.r.randrange(len(xs))]

    def p(self, x):
        return self.r.random() < x

    def num(self, lo=-4, hi=9):
        return self.ch([self.r.randint(lo, hi), self.r.randint(lo * 4, hi * 4) / 4, round(self.r.uniform(lo, hi), 3)])

    def pos(self):
        return self.ch([1, 2, 3, 0.5, 0.25, 1.5, 5, 10, round(self.r.uniform(0.01, 8), 3)])

    def base(self, unit=True):
        k = self.ch(["exp", "norm", "int", "uni", "tri", "const", "poi", "wei", "gam", "beta", "erl", "cdf", "pdf", "pdf", "cumpdf", "ext"])
        d = dict(k=k, s=self.r.randrange(self.ns))
        if unit and self.p(0.35) and k not in ("poi", "beta"):
            d["u"] = self.ch(sorted(UNITS))
        if k == "exp":
            d["rate" if self.p(0.4) else "mean"] = self.pos()
        elif k == "norm":
            d["mean"] = self.num()
            if self.p(0.3):
                d["mean"] = self.pos()
                d["cv"] = self.ch([0.1, 0.5, 1])
            elif self.p(0.8):
                d["sd"] = self.ch([0, 0.5, 1, 2])
            d["gauss"] = self.p(0.4)
        elif k == "int":
            a, b = sorted([self.r.randint(-3, 9), self.r.randint(-3, 9)])
            d["a"], d["b"] = a, (b if self.p(0.9) else None)
            if self.p(0.15):
                d["a"], d["b"] = float(a), float(b)
        elif k == "uni":
            a, b = sorted([self.num(), self.num()])
            d["a"], d["b"] = a, (b if self.p(0.9) else None)
        elif k == "tri":
            a, m, b = sorted([self.num(), self.num(), self.num()])
            d["a"], d["b"], d["m"] = a, (b if self.p(0.95) else None), (m if self.p(0.6) else None)
            if d["b"] is None:
                d["m"] = None
        elif k == "const":
            d["v"] = self.num()
        elif k == "poi":
            d["mean"] = self.ch([0.1, 1, 2.5, 7, 30, 400, 800])
        elif k == "wei":
            d["scale"], d["shape"] = self.pos(), self.ch([0.5, 1, 1.5, 3])
        elif k == "gam":
            d["shape"] = self.ch([0.3, 0.5, 1, 1.5, 3])
            d["rate" if self.p(0.4) else "scale"] = self.pos()
        elif k == "beta":
            d["a"], d["b"] = self.ch([0.5, 1, 2, 3]), self.ch([0.5, 1, 2, 3])
        elif k == "erl":
            d["shape"] = self.ch([1, 2, 3])
            d["rate" if self.p(0.5) else "scale"] = self.pos()
        elif k == "cdf":
            n = self.ch([2, 2, 3, 4, 5])
            xs = sorted(self.num() for _ in range(n))
            if self.p(0.2):
                xs[1] = xs[0]
            cs = [0] + sorted(self.ch([0, 1, 1, 2, 2, 3, 4, 0.5]) for _ in range(n - 1))
            if cs[-1] == 0:
                cs[-1] = 4
            d["spec"] = [v for xc in zip(xs, cs) for v in xc]
        elif k in ("pdf", "cumpdf"):
            n = self.ch([1, 2, 2, 3, 3, 4, 5])
            xs = []
            for _ in range(n):
                z = self.r.random()
                if z < 0.5 or "u" in d:
                    xs.append(self.num())
                elif z < 0.7:
                    xs.append(self.ch(["red", "green", "blue", "x1"]))
                else:
                    xs.append(self.tree(0, False))
            if self.p(0.3):
                ps = [self.ch([1, 2, 0.5])] * n
            else:
                ps = [self.ch([0, 1, 1, 2, 3, 0.5, 4]) for _ in range(n)]
            if sum(ps) == 0:
                ps[-1] = 1
            d["xs"], d["ps"] = xs, ps
            d["pmf"] = self.p(0.5)
            d["form"] = self.ch(["flat", "two", "dict", "one"] if k == "pdf" else ["flat", "two"])
            if d["form"] == "dict" and (any(isinstance(x, dict) for x in xs) or len(set(xs)) != n):
                d["form"] = "flat"
            if d["form"] == "one":
                d["ps"] = [1] * n
        elif k == "ext":
            a, b = sorted([self.num(), self.num()])
            d["a"], d["b"] = a, b
        return d

    def tree(self, depth, unit=True):
        z = self.r.random()
        if depth >= 2 or z < 0.55:
            d = self.base(unit)
            if depth == 0 and unit and d["k"] in STRINGS and self.p(0.25):
                return dict(k="dist", d=d, s=self.r.randrange(self.ns), cut=self.r.randrange(3, 8), case=self.r.randrange(3), uat=self.ch([0, 1, 2]))
            return d
        if z < 0.7:
            a = self.numeric(depth + 1)
            b = self.numeric(depth + 1) if self.p(0.4) else self.num()
            op = self.ch(["add", "sub", "mul", "div", "fdiv", "add", "sub", "mul", "pow", "neg", "posx"])
            if op in ("div", "fdiv"):
                if isinstance(b, dict) or b == 0:
                    b = 2
            if op == "pow":
                b = self.ch([2, 3])
            elif self.p(0.3) and not isinstance(b, dict) and op not in ("div", "fdiv"):
                a, b = b, a
            return dict(k="expr", op=op, a=a, b=b)
        if z < 0.8:
            d = self.numeric(depth + 1)
            return dict(k="map", d=d, f=self.ch(sorted(FNS)))
        d = dict(k="bnd", d=self.tree(depth + 1, unit))
        d["lo"] = self.ch([None, self.num()])
        d["hi"] = self.ch([None, self.num()])
        if d["lo"] is not None and d["hi"] is not None and d["lo"] > d["hi"]:
            d["lo"], d["hi"] = d["hi"], d["lo"]
        if self.p(0.3):
            d["fail"] = self.ch([-99, 77])
        if self.p(0.4) or depth:
            d["n"] = self.ch([1, 2, 3])
        d["il"], d["iu"] = self.p(0.6), self.p(0.6)
        if unit and self.p(0.3):
            d["u"] = self.ch(sorted(UNITS))
        return d

    def numeric(self, depth):
        while True:
            t = self.tree(depth)
            if is_num(t):
                return t

    def make(self):
        self.ns = self.ch([1, 2, 2, 3])
        st = [["default", self.r.randrange(10**6)]]
        for _ in range(self.ns - 1):
            st.append(self.new_stream())
        if self.p(0.85):
            st.append(self.new_stream(True))
            self.ns += 1
        c = dict(streams=st, unit=self.ch(sorted(UNITS)), yieldless=self.p(0.6), dists=[], procs=[])
        nd = self.ch([1, 2, 3, 4, 5])
        for _ in range(nd):
            d = self.tree(0)
            c["dists"].append(d)
        for _ in range(self.ch([1, 2, 3])):
            ops = []
            for _ in range(self.ch([3, 6, 10, 20])):
                k = self.r.randrange(nd)
                z = self.r.random()
                if z < 0.5:
                    ops.append(["s", k])
                elif z < 0.58:
                    ops.append(["n", k, self.r.randrange(0, 6)])
                elif z < 0.68:
                    ops.append(["hold", self.ch([0, 0.5, 1, 1])])
                elif z < 0.75:
                    ops.append(["holdd", k])
                elif z < 0.8:
                    lo, hi = sorted([self.num(), self.num()])
                    ops.append(["b", k, self.ch([lo, None]), self.ch([hi, None]), self.ch([None, 5]), self.ch([None, 1, 2]), self.p(0.5), self.p(0.5)])
                elif z < 0.86:
                    ops.append(["mean", k])
                elif z < 0.9:
                    ops.append(["info", k])
                elif z < 0.93:
                    ops.append(["env", self.ch(["", None, 5])])
                elif z < 0.97:
                    ops.append(["seed", self.r.randrange(self.ns), self.ch([None, 1, 2, "abc", "", -5, 2**40, 1.5])])
                else:
                    ops.append(["comp"])
            c["procs"].append(dict(at=self.ch([0, 0, 0.5, 1]), ops=ops))
        return c

    def new_stream(self, stub=False):
        if stub or self.p(0.6):
            n = self.ch([1, 2, 4, 8, 16])
            return ["stub", [self.ch(EXT) if self.p(0.75) else self.r.random() for _ in range(n)], self.r.randrange(10**6)]
        return ["plain", self.r.randrange(10**6)]


STRINGS = {"exp": "Exponential", "norm": "Normal", "int": "IntUniform", "uni": "Uniform", "tri": "Triangular", "const": "Constant", "poi": "Poisson", "wei": "Weibull", "gam": "Gamma", "beta": "Beta", "erl": "Erlang", "cdf": "Cdf"}


def is_num(t):
    """all samples are numbers, small enough to compute with"""
    if not isinstance(t, dict):
        return not isinstance(t, str)
    k = t["k"]
    if k in ("pdf", "cumpdf"):
        return all(is_num(x) for x in t["xs"])
    if k in ("bnd", "dist"):
        return is_num(t["d"])
    if k == "map":
        return t["f"] != "str" and is_num(t["d"])
    return True


# ---------------------------------------------------------------- the real thing
def args_of(d):
    k = d["k"]
    if k == "exp":
        return [], {"mean": d["mean"]} if "mean" in d else {"rate": d["rate"]}
    if k == "norm":
        kw = {}
        if "sd" in d:
            kw["standard_deviation"] = d["sd"]
        if "cv" in d:
            kw["coefficient_of_variation"] = d["cv"]
        if d["gauss"]:
            kw["use_gauss"] = True
        return [d["mean"]], kw
    if k in ("int", "uni"):
        return ([d["a"]] if d["b"] is None else [d["a"], d["b"]]), {}
    if k == "tri":
        return [d["a"], d["b"], d["m"]] if d["m"] is not None else ([d["a"]] if d["b"] is None else [d["a"], d["b"]]), {}
    if k == "const":
        return [d["v"]], {}
    if k == "poi":
        return [d["mean"]], {}
    if k == "wei":
        return [d["scale"], d["shape"]], {}
    if k in ("gam", "erl"):
        return [d["shape"]], {x: d[x] for x in ("scale", "rate") if x in d}
    if k == "beta":
        return [d["a"], d["b"]], {}
    if k == "cdf":
        return [tuple(d["spec"])], {}
    raise KeyError(k)


def build(d, S):
    if not isinstance(d, dict):
        return d
    k = d["k"]
    if k == "expr":
        a, b = build(d["a"], S), build(d["b"], S)
        if d["op"] == "neg":
            return -(a if isinstance(a, BASE) else b)
        if d["op"] == "posx":
            return +(a if isinstance(a, BASE) else b)
        return OPS[d["op"]](a, b)
    if k == "map":
        return sim.Map(build(d["d"], S), FNS[d["f"]])
    if k == "bnd":
        kw = {}
        if "fail" in d:
            kw["fail_value"] = d["fail"]
        if "n" in d:
            kw["number_of_retries"] = d["n"]
        if "u" in d:
            kw["time_unit"] = d["u"]
        return sim.Bounded(build(d["d"], S), d["lo"], d["hi"], include_lowerbound=d["il"], include_upperbound=d["iu"], **kw)
    kw = {}
    st = S[d["s"]]
    if st is not None:
        kw["randomstream"] = st
    if k == "dist":
        i = d["d"]
        a, k2 = args_of(i)
        name = STRINGS[i["k"]][: d["cut"]]
        name = [name, name.upper(), name.lower()][d["case"]]
        parts = [repr(x) for x in a] + ["%s=%r" % kv for kv in k2.items()]
        if "u" in i:
            if d["uat"]:
                kw["time_unit"] = i["u"]
            if d["uat"] == 0:
                parts.append("time_unit=%r" % i["u"])
        spec = "%s(%s)" % (name, ", ".join(parts))
        if i["k"] in ("const", "uni", "tri") and d["case"] == 1 and None not in a and not k2 and len(a) == {"const": 1, "uni": 2, "tri": 3}[i["k"]] and ("u" not in i or d["uat"]):
            spec = ", ".join(repr(x) for x in ([a[0], a[1], a[2]] if len(a) == 3 else a))
            if d["cut"] % 2:
                spec = "(" + spec + ")"
        return sim.Distribution(spec, **kw)
    if "u" in d:
        kw["time_unit"] = d["u"]
    if k == "ext":
        kw.pop("randomstream", None)
        return sim.External((st if st is not None else random).uniform, d["a"], d["b"], **kw)
    if k == "pdf":
        C = sim.Pmf if d["pmf"] else sim.Pdf
        xs = [build(x, S) for x in d["xs"]]
        if d["form"] == "flat":
            return C(tuple(v for xp in zip(xs, d["ps"]) for v in xp), **kw)
        if d["form"] == "two":
            return C(xs, d["ps"], **kw)
        if d["form"] == "one":
            return C(xs, 1, **kw)
        return C(dict(zip(xs, d["ps"])), **kw)
    if k == "cumpdf":
        C = sim.CumPmf if d["pmf"] else sim.CumPdf
        xs = [build(x, S) for x in d["xs"]]
        cum, t = [], 0
        for p in d["ps"]:
            t += p
            cum.append(t)
        if d["form"] == "flat":
            return C(tuple(v for xp in zip(xs, cum) for v in xp), **kw)
        return C(xs, cum, **kw)
    a, k2 = args_of(d)
    kw.update(k2)
    return getattr(sim, STRINGS[k])(*a, **kw)


# ---------------------------------------------------------------- the reference
class Amb(Exception):
    """the stream output is exactly a boundary: more than one value is right"""


class Ref:
    def __init__(self, case, T):
        self.unit = UNITS[case["unit"]]
        self.T = T  # twin streams

    def f(self, d):
        return UNITS[d["u"]] / self.unit if "u" in d else 1

    def scale(self, d):
        """size of the numbers that rounding errors are relative to"""
        if not isinstance(d, dict):
            return 10.0
        return max([self.f(d) * 10] + [self.scale(x) for k in ("a", "b", "d") for x in [d.get(k)]] + [self.scale(x) for x in d.get("xs", [])])

    def sample(self, d, s=None):
        """value of the next sample of d"""
        if not isinstance(d, dict):
            return d
        k = d["k"]
        if k == "expr":
            a = self.inner(d["a"])
            b = self.inner(d["b"]) if d["op"] not in ("neg", "posx") or not isinstance(d["a"], dict) else None
            if d["op"] == "neg":
                return -(a if isinstance(d["a"], dict) else b)
            if d["op"] == "posx":
                return a if isinstance(d["a"], dict) else b
            if d["op"] == "fdiv":
                self.whole(a / b, d)
            return OPS[d["op"]](a, b)
        if k == "map":
            v = self.inner(d["d"])
            if d["f"] == "int":
                self.whole(v, d)
            return FNS[d["f"]](v)
        if k == "bnd":
            f = self.f(d)
            lo = -INF if d["lo"] is None else d["lo"] * f
            hi = INF if d["hi"] is None else d["hi"] * f
            return self.bounded(d["d"], lo, hi, d.get("fail"), d.get("n"), d["il"], d["iu"])
        if s is None:
            s = self.T[d["s"]]
        if k == "dist":
            return self.sample(d["d"], s)
        f = self.f(d)
        if k == "exp":
            return s.expovariate(1 / d["mean"] if "mean" in d else d["rate"]) * f
        if k == "norm":
            sd = d["sd"] if "sd" in d else (d["cv"] * d["mean"] if "cv" in d else 0.0)
            return (s.gauss if d["gauss"] else s.normalvariate)(d["mean"], sd) * f
        if k == "int":
            a = int(d["a"])
            return s.randint(a, a if d["b"] is None else int(d["b"])) * f
        if k == "uni":
            return s.uniform(d["a"], d["a"] if d["b"] is None else d["b"]) * f
        if k == "tri":
            hi = d["a"] if d["b"] is None else d["b"]
            return s.triangular(d["a"], hi, (d["a"] + hi) / 2 if d["m"] is None else d["m"]) * f
        if k == "const":
            return d["v"] * f
        if k == "poi":
            return poisson(d["mean"], s)
        if k == "wei":
            return s.weibullvariate(d["scale"], d["shape"]) * f
        if k in ("gam", "erl"):
            return s.gammavariate(d["shape"], d["scale"] if "scale" in d else 1 / d["rate"]) * f
        if k == "beta":
            return s.betavariate(d["a"], d["b"])
        if k == "ext":
            return s.uniform(d["a"], d["b"]) * f
        if k == "cdf":
            xs, cs = d["spec"][::2], d["spec"][1::2]
            u = s.random()
            for i in range(1, len(xs)):
                c0, c1 = cs[i - 1] / cs[-1], cs[i] / cs[-1]
                if u < c1:
                    return (xs[i - 1] + (xs[i] - xs[i - 1]) * (u - c0) / (c1 - c0)) * f
            return xs[-1] * f
        xs, ps = d["xs"], d["ps"]
        if k == "pdf" and all(p == ps[0] for p in ps):
            x = s.sample(xs, 1)[0]
        else:
            u = s.random()
            cum, t = [], 0
            for p in ps:
                t += p
                cum.append(t)
            ok = [i for i in range(len(xs)) if ps[i] > 0 and (cum[i - 1] / t if i else 0) <= u <= cum[i] / t]
            if len(ok) > 1 and any(isinstance(xs[i], dict) for i in ok):
                raise Amb()  # which one is drawn decides what else is drawn
            if len(ok) > 1:
                return OneOf([self.scaled(d, xs[i]) for i in ok])
            x = xs[ok[0]]
        return self.scaled(d, x)

    def whole(self, x, d):
        """rounding in unit conversion may decide"""
        if ("'u'" in repr(d) or isinstance(x, float)) and near(x, round(x)):
            raise Amb()

    def inner(self, d):
        v = self.sample(d)
        if isinstance(v, OneOf):
            raise Amb()
        return v

    def scaled(self, d, x):
        if isinstance(x, dict):
            return self.sample(x)
        return float(x) * self.f(d) if "u" in d else x

    def bounded(self, d, lo, hi, fail, n, il, iu):
        if lo == -INF and hi == INF:
            return self.sample(d)
        for _ in range(100 if n is None else n):
            v = self.sample(d)
            if isinstance(v, OneOf):
                raise Amb()
            try:
                x = float(v)
            except (TypeError, ValueError):
                return v
            if (near(x, lo) or near(x, hi)) and (x not in (lo, hi) or "'u'" in repr(d) or "expr" in repr(d) or "cdf" in repr(d)):
                raise Amb()
            if (x >= lo if il else x > lo) and (x <= hi if iu else x < hi):
                return v
        if fail is not None:
            return fail
        return hi if lo == -INF else lo

    def samples(self, d, n):
        s = self.T[d["s"]]
        xs = s.sample(d["xs"], min(n, len(d["xs"])))
        return [self.scaled(d, x) for x in xs]

    def mean(self, d):
        if not isinstance(d, dict):
            return d if not isinstance(d, str) else NAN
        k = d["k"]
        f = self.f(d)
        if k == "expr":
            a, b = self.mean(d["a"]), self.mean(d["b"])
            da, db = (isinstance(d[x], dict) and d[x]["k"] != "const" for x in "ab")
            op = d["op"]
            if op == "neg":
                return -(a if isinstance(d["a"], dict) else b)
            if op == "posx":
                return a if isinstance(d["a"], dict) else b
            if op == "add":
                return a + b
            if op == "sub":
                return a - b
            if op == "mul":
                return NAN if da and db else a * b
            if op == "div":
                return NAN if db else a / b
            return NAN
        if k == "map":
            return NAN
        if k == "bnd":
            return self.mean(d["d"]) if d["lo"] is None and d["hi"] is None else NAN
        if k == "dist":
            return self.mean(d["d"])
        if k == "exp":
            return (d["mean"] if "mean" in d else 1 / d["rate"]) * f
        if k in ("norm", "poi"):
            return d["mean"] * f
        if k in ("int", "uni"):
            return (d["a"] + (d["a"] if d["b"] is None else d["b"])) / 2 * f
        if k == "tri":
            hi = d["a"] if d["b"] is None else d["b"]
            return (d["a"] + hi + ((d["a"] + hi) / 2 if d["m"] is None else d["m"])) / 3 * f
        if k == "const":
            return d["v"] * f
        if k == "wei":
            return d["scale"] * math.gamma(1 + 1 / d["shape"]) * f
        if k in ("gam", "erl"):
            return d["shape"] * (d["scale"] if "scale" in d else 1 / d["rate"]) * f
        if k == "beta":
            return d["a"] / (d["a"] + d["b"])
        if k == "cdf":
            xs, cs = d["spec"][::2], d["spec"][1::2]
            return sum((xs[i] + xs[i - 1]) / 2 * (cs[i] - cs[i - 1]) for i in range(1, len(xs))) / cs[-1] * f
        if k in ("pdf", "cumpdf"):
            return sum(self.mean(x) * p for x, p in zip(d["xs"], d["ps"])) / sum(d["ps"]) * f
        return NAN


class OneOf:
    def __init__(self, vs):
        self.vs = vs


def near(x, y):
    return abs(x - y) <= 1e-9 * max(1, abs(x), abs(y)) if abs(y) < INF else False


def poisson(mean, s):
    t = math.exp(-mean)
    c = t
    k = 0
    u = s.random()
    last = None
    while c < u:
        k += 1
        t *= mean / k
        c += t
        if c == last:  # the sum does not grow any more: count exponential gaps
            n, t = 0, 0.0
            while True:
                u = s.random()
                t += INF if u == 0 else -math.log(u) / mean
                if t > 1:
                    return n
                n += 1
        last = c
    return k


def same(e, v, tol=0.0):
    if isinstance(e, OneOf):
        return any(same(x, v, tol) for x in e.vs)
    if isinstance(e, list):
        return isinstance(v, list) and len(e) == len(v) and all(same(a, b, tol) for a, b in zip(e, v))
    if isinstance(e, str) or isinstance(v, str):
        return type(e) is type(v) and (e == v or e.startswith("<"))
    if not isinstance(v, (int, float)):
        return False
    if e != e or v != v:
        return e != e and v != v
    return e == v or abs(e - v) <= 1e-9 * max(abs(e), abs(v)) + tol


class PL(sim.Component):
    def setup(self, ex, ops):
        self.ex, self.ops = ex, ops

    def process(self):
        for op in self.ops:
            d = self.ex.do(self, op)
            if d is not None:
                self.hold(d)
                self.ex.after()


class PY(sim.Component):
    setup = PL.setup

    def process(self):
        for op in self.ops:
            d = self.ex.do(self, op)
            if d is not None:
                yield self.hold(d)
                self.ex.after()


class Stop(Exception):
    pass


class Dists:
    def __init__(self, prop):
        self.prop = prop

    def gen(self, seed):
        return G(seed).make()

    def run(self, case):
        self.res = res = Result()
        self.case = case
        S, T = [], []
        for sp in case["streams"]:
            if sp[0] == "default":
                S.append(None)
                T.append(random.Random(sp[1]))
            else:
                S.append(stream(sp))
                T.append(stream(sp))
        self.S, self.T = S, T
        sim.yieldless(case["yieldless"])
        self.env = env = sim.Environment(time_unit=case["unit"], random_seed=case["streams"][0][1], yieldless=case["yieldless"])
        self.ref = Ref(case, T)
        self.D = [build(d, S) for d in case["dists"]]
        self.hist = []
        self.pend = None
        P = PL if case["yieldless"] else PY
        for p in case["procs"]:
            P(ex=self, ops=p["ops"], at=p["at"], env=env)
        try:
            try:
                env.run(till=INF)
            except (Stop, Amb) as e:
                if isinstance(e, Amb):
                    res.probes["undecided-boundary"] += 1
            else:
                self.streams("the end")
        finally:
            pass
        res.events = len(self.hist)
        t = env.now()
        res.simtime = min(t, 1e6) if t < INF else 0.0
        res.sig = sig([h[:3] for h in self.hist])
        res.nontrivial = sum(1 for h in self.hist if h[0] in ("s", "n", "b", "holdd")) >= 3
        for i, sp in enumerate(case["streams"]):
            if sp[0] == "stub":
                for v in sp[1][: S[i].pos]:
                    if v in (0.0, TOP, 2.0**-53):
                        res.faults["extreme-output"] += 1
                    elif v in EXT:
                        res.faults["boundary-output"] += 1
        return res

    def streams(self, what):
        for i, s in enumerate(self.S):
            a = random.getstate() if s is None else state(s)
            if a != state(self.T[i]):
                self.res.fail("stream", "random stream %d is not where it should be after %s" % (i, what))
                raise Stop()

    def judge(self, op, e, v):
        if not same(e, v, 1e-13 * self.ref.scale(self.case["dists"][op[1]])):
            x = e.vs if isinstance(e, OneOf) else e
            self.res.fail("sample", "%s of %s: expected %r, got %r" % (op[0], self.case["dists"][op[1]], x, v))
            raise Stop()

    def after(self):
        pass

    def do(self, comp, op):
        k = op[0]
        self.hist.append(tuple(op[:2]) + (self.env.now(),))
        if k == "hold":
            return op[1]
        ref, D, specs = self.ref, self.D, self.case["dists"]
        if k == "s":
            e = ref.sample(specs[op[1]])
            v = D[op[1]]() if (len(self.hist) % 2) else D[op[1]].sample()
            self.judge(op, e, v)
        elif k == "n":
            d = specs[op[1]]
            if d["k"] != "pdf":
                return None
            if any(p != d["ps"][0] for p in d["ps"]):
                try:
                    D[op[1]].sample(op[2])
                except ValueError:
                    pass
                else:
                    self.res.fail("sample", "sample(n) of %s with unequal probabilities not refused" % d)
                    raise Stop()
            else:
                self.judge(op, ref.samples(d, op[2]), D[op[1]].sample(op[2]))
        elif k == "b":
            d = specs[op[1]]
            lo, hi, fail, n, il, iu = op[2:]
            e = ref.bounded(d, -INF if lo is None else lo, INF if hi is None else hi, fail, n, il, iu)
            v = D[op[1]].bounded_sample(lo, hi, fail, n, il, iu)
            self.judge(op, e, v)
        elif k == "mean":
            e = ref.mean(specs[op[1]])
            v = D[op[1]].mean()
            self.judge(op, e, v)
        elif k == "info":
            repr(D[op[1]])
            if hasattr(D[op[1]], "print_info"):
                D[op[1]].print_info(as_str=True)
        elif k == "env":
            e2 = sim.Environment(random_seed=op[1], isdefault_env=False, yieldless=self.case["yieldless"])
            assert e2 is not None
            if op[1] != "":
                self.T[0].seed(1234567 if op[1] is None else op[1])
            self.res.faults["other-environment"] += 1
        elif k == "seed":
            s = self.S[op[1]]
            if isinstance(s, Stub) and op[2] != "":
                s.script = self.T[op[1]].script = ()
                s.pos = self.T[op[1]].pos = 0
            sim.random_seed(op[2], randomstream=s)
            if op[2] != "":
                self.T[op[1]].seed(1234567 if op[2] is None else op[2])
            self.res.faults["reseed"] += 1
        elif k == "comp":
            sim.Component(env=self.env)
        elif k == "holdd":
            d = specs[op[1]]
            if not is_num(d) or d["k"] not in ("exp", "wei", "gam", "erl", "beta", "poi"):
                return None
            e = ref.sample(d)
            t = self.env.now()
            if not e < 1e4:
                self.judge(op, e, D[op[1]].sample())
                return None
            x = type(comp)(ex=self, ops=[], at=INF, env=self.env)
            x.hold(D[op[1]])
            if not near(x.scheduled_time() - t, e):
                self.res.fail("sample", "hold(%s) scheduled after %r instead of %r" % (d, x.scheduled_time() - t, e))
                raise Stop()
            x.cancel()
        self.streams(k)
        return None

    def shrinks(self, case):
        for i in range(len(case["procs"])):
            if len(case["procs"]) > 1:
                c = copy.deepcopy(case)
                del c["procs"][i]
                yield c
            n = len(case["procs"][i]["ops"])
            for a, b in ((0, n // 2), (n // 2, n)):
                if n > 1:
                    c = copy.deepcopy(case)
                    del c["procs"][i]["ops"][a:b]
                    yield c
            for j in range(n - 1, -1, -1):
                c = copy.deepcopy(case)
                del c["procs"][i]["ops"][j]
                yield c
        for i, d in enumerate(case["dists"]):
            c = copy.deepcopy(case)
            c["dists"][i] = dict(k="const", v=1, s=0)
            yield c
            if d["k"] in ("bnd", "map", "dist"):
                c = copy.deepcopy(case)
                c["dists"][i] = d["d"]
                yield c
            for key in ("u", "fail", "n"):
                if key in d:
                    c = copy.deepcopy(case)
                    del c["dists"][i][key]
                    yield c
        for i, s in enumerate(case["streams"]):
            if s[0] == "stub":
                for j in range(len(s[1])):
                    c = copy.deepcopy(case)
                    del c["streams"][i][1][j]
                    yield c
