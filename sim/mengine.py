"""Engine "monitors" (C16, C17, C18): several processes tally, switch, reset, slice, merge, freeze ... monitors.

The order in which the operations happened is recorded with the simulated time; an exact model
(plain lists of (time, value) resp. (time, value, weight)) replays the recorded history and says
what every monitor has to report at every moment.
"""
import copy
import math
import random

from . import hengine
from .load import sim
from .runner import Result, sig

INF = float("inf")
OFF = "<off>"


def num(v):
    """numeric value of a tallied value"""
    if isinstance(v, (int, float)):
        return v
    try:
        f = float(v)
        i = int(v)
    except (ValueError, TypeError):
        return 0
    return i if i == f else f


def key(v):
    return (1, 0.0, v) if isinstance(v, str) else (0, float(v), "")


def close(a, b):
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= 1e-8 * max(1, abs(a), abs(b))


def collapse(h):
    out = []
    for t, v in h:
        if out and out[-1][0] == t:
            out.pop()
        if out and out[-1][1] == v:
            continue
        out.append((t, v))
    while out and out[0][1] == OFF:
        out.pop(0)
    return out


class MM:
    """model of a monitor; end is None for a live monitor, else the moment it was generated"""

    def __init__(self, level, t, v=0, on=True):
        self.level = level
        self.on = on
        self.v = v
        self.start = t
        self.end = None
        self.frozen = False
        self.foreign = False  # on another time axis (t_multiply)
        self.off = None  # a frozen monitor (and what is derived from it) keeps the clock of the moment of freezing
        self.rows = [(t, v if on else OFF)] if level else []  # level: (t, v); else (t, v, w)

    def put(self, t, v):
        if self.rows[-1][0] == t:
            self.rows[-1] = (t, v)
        else:
            self.rows.append((t, v))

    def tally(self, t, v, w=1):
        if self.level:
            self.v = v
            if self.on:
                self.put(t, v)
        elif self.on:
            self.rows.append((t, v, w))

    def monitor(self, t, on):
        self.on = on
        if self.level:
            self.put(t, self.v if on else OFF)

    def reset(self, t, on=None):
        if on is not None:
            self.on = on
        self.start = t
        self.rows = [(t, self.v if self.on else OFF)] if self.level else []

    # what it should report
    def segs(self, now):
        """(value, duration) with the zero duration current value included"""
        now = now if self.end is None else self.end
        ends = [r[0] for r in self.rows[1:]] + [now]
        return [(v, e - t) for (t, v), e in zip(self.rows, ends) if v != OFF]

    def xw(self, now):
        return self.segs(now) if self.level else [(v, w) for _, v, w in self.rows]

    def at(self, t):
        r = OFF
        for tt, v in self.rows:
            if tt <= t:
                r = v
        return r

    def gen(self, rows, end):
        m = MM(self.level, 0)
        m.rows = rows
        m.end = end
        m.on = False
        return m

    def slice(self, now, windows):
        """windows: list of (a, b, incl)"""
        now = now if self.end is None else min(now, self.end)
        if not self.level:
            return self.gen([r for r in self.rows if any(a <= r[0] < b for a, b in windows)], now)
        cuts = sorted({r[0] for r in self.rows} | {min(x, now) for w in windows for x in w if x > -INF} | {now})
        rows = []
        for t in cuts:
            inside = any(a <= t < b for a, b in windows) and t < now
            rows.append((t, self.at(t) if inside else OFF))
        return self.gen(rows or [(now, OFF)], now)

    @staticmethod
    def combine(ms, now, f):
        if not ms[0].level:
            raise AssertionError
        cuts = sorted({r[0] for m in ms for r in m.rows} | {m.end for m in ms if m.end is not None} | {now})
        rows = []
        for t in cuts:
            vals = [m.at(t) if m.end is None or t < m.end else OFF for m in ms]
            rows.append((t, OFF if OFF in vals or t >= now else f(*vals)))
        return ms[0].gen(rows, now)


def stats(m, now, ex0):
    s = [(num(v), w) for v, w in m.xw(now)]
    if ex0:
        s = [(v, w) for v, w in s if v != 0]
    tot = sum(w for _, w in s)
    mean = sum(v * w for v, w in s) / tot if tot else math.nan
    std = math.sqrt(sum(w * (v - mean) ** 2 for v, w in s) / tot) if tot else math.nan
    return dict(
        total=tot,
        mean=mean,
        std=std,
        minimum=min(v for v, _ in s) if s else math.nan,
        maximum=max(v for v, _ in s) if s else math.nan,
        n=len(s),
    )


def percentiles(m, now, q, ex0, weighted):
    """all acceptable values of the q-percentile (several only at exact ties)"""
    s = sorted([(num(v), w) for v, w in m.xw(now)], key=lambda r: r[0])
    if ex0:
        s = [r for r in s if r[0] != 0]
    if not s:
        return [math.nan]
    if q <= 0:
        return [s[0][0]]
    if q >= 100:
        return [s[-1][0]]
    if len(s) == 1:
        return [s[0][0]]
    tot = sum(w for _, w in s)
    if not tot:
        return [math.nan]
    p = q / 100
    if not weighted:
        pos = p * (len(s) - 1)
        k = min(int(pos), len(s) - 2)
        return [s[k][0] + (pos - k) * (s[k + 1][0] - s[k][0])]
    cum = 0
    tied = []
    for v, w in s:
        cum += w / tot
        if cum < p - 1e-9:
            continue
        tied.append(v)
        if cum > p + 1e-9:
            break
    # at an exact tie, any value between the neighbours is a percentile
    return [tied[0]] if len(tied) == 1 else [min(tied), max(tied)]


def check(name, real, m, now, off, deep=False, current=True):
    """yields (what, expected, got) for every difference between a real monitor and the model"""
    lev = m.level
    for ex0 in (False, True):
        e = stats(m, now, ex0)
        got = dict(mean=real.mean(ex0=ex0), std=real.std(ex0=ex0), minimum=real.minimum(ex0=ex0), maximum=real.maximum(ex0=ex0))
        got["total"] = real.duration(ex0=ex0) if lev else real.weight(ex0=ex0)
        if not lev:
            got["n"] = real.number_of_entries(ex0=ex0)
        for k, v in got.items():
            if not close(v, e[k]):
                yield ("%s.%s(ex0=%s)" % (name, k, ex0), e[k], v)
    z = stats(m, now, False)["total"] - stats(m, now, True)["total"]
    g = real.duration_zero() if lev else real.weight_zero()
    if not close(z, g):
        yield (name + ".zero", z, g)
    if real.stats_only():
        return
    # the recorded data itself
    if lev:
        xs, ts = real.xt(force_numeric=False, add_now=False)
        o = real.off
        rows = collapse([(t, OFF if x == o else x) for x, t in zip(xs, ts)])
        exp = collapse(m.rows + ([(m.end, OFF)] if m.end is not None and not m.frozen else []))
        if rows != exp:
            yield (name + ".xt", exp, rows)
            return
        xs, ws = real.xduration(force_numeric=False)
        d, dd = {}, {}
        for x, w in zip(xs, ws):
            d[x] = d.get(x, 0) + w
        for x, w in m.segs(now):
            dd[x] = dd.get(x, 0) + w
        d = {k: v for k, v in d.items() if v}
        dd = {k: v for k, v in dd.items() if v}
        if d != dd:
            yield (name + ".xduration", dd, d)
        for x in list(dd)[:3]:
            if not close(real.value_duration(x), dd[x]):
                yield (name + ".value_duration(%r)" % (x,), dd[x], real.value_duration(x))
        lo, hi = -0.5, 1
        e = sum(w for x, w in m.segs(now) if lo < num(x) <= hi)
        if not close(real.bin_duration(lo, hi), e):
            yield (name + ".bin_duration", e, real.bin_duration(lo, hi))
        if m.end is None:
            if current and real.get() != m.v:
                yield (name + ".value", m.v, real.get())
            for k in range(len(m.rows)):
                t = m.rows[k][0]
                t2 = m.rows[k + 1][0] if k + 1 < len(m.rows) else now
                for q in (t, (t + t2) / 2):
                    if q < now and q <= t2:
                        v = real.get(q - off)
                        if v != (o if m.at(q) == OFF else m.at(q)):
                            yield (name + ".get(%r)" % (q - off), m.at(q), v)
            q = m.rows[0][0] - 1
            if real.get(q - off) != o:
                yield (name + ".get before start", OFF, real.get(q - off))
            if current and real.get(now - off) != m.v:
                yield (name + ".get(now)", m.v, real.get(now - off))
    else:
        xs, ws = real.xweight(force_numeric=False)
        got = sorted((key(x), float(w)) for x, w in zip(xs, ws))
        exp = sorted((key(v), float(w)) for _, v, w in m.rows)
        if got != exp:
            yield (name + ".xweight", exp, got)
            return
        xt = real.xt(force_numeric=False)
        got = sorted((t, key(x)) for x, t in zip(*xt))
        exp = sorted((r[0], key(r[1])) for r in m.rows)
        if got != exp:
            yield (name + ".xt", exp, got)
        for x in sorted({r[1] for r in m.rows}, key=str)[:3]:
            e = (sum(1 for r in m.rows if r[1] == x), sum(r[2] for r in m.rows if r[1] == x))
            g = (real.value_number_of_entries(x), real.value_weight(x))
            if e[0] != g[0] or not close(e[1], g[1]):
                yield (name + ".value(%r)" % (x,), e, g)
        e = sum(1 for r in m.rows if -0.5 < num(r[1]) <= 1), sum(r[2] for r in m.rows if -0.5 < num(r[1]) <= 1)
        g = real.bin_number_of_entries(-0.5, 1), real.bin_weight(-0.5, 1)
        if e[0] != g[0] or not close(e[1], g[1]):
            yield (name + ".bin", e, g)
    if deep:
        weighted = lev or any(r[2] != 1 for r in m.rows)
        for q in (0, 10, 25, 50, 75, 90, 100):
            for ex0 in (False, True):
                e = percentiles(m, now, q, ex0, weighted)
                g = real.percentile(q, ex0=ex0)
                if not any(close(g, x) for x in e) and not e[0] <= g <= e[-1]:
                    yield (name + ".percentile(%d, ex0=%s)" % (q, ex0), e, g)


def look(name, real, m, now, off, k, env):
    """other ways of reading the same data: yields (what, expected, got)"""
    if real.stats_only():
        if not m.level and real.number_of_entries_zero() != real.number_of_entries() - real.number_of_entries(ex0=True):
            yield (name + ".number_of_entries_zero", real.number_of_entries() - real.number_of_entries(ex0=True), real.number_of_entries_zero())
        real.print_statistics(as_str=True)
        real.print_histogram(as_str=True)
        real.print_histogram(as_str=True, number_of_bins=3, lowerbound=-1, bin_width=2, graph_scale=20)
        return
    lev = m.level
    xs, ts = real.xt(force_numeric=False, add_now=False)
    xs, ts = list(xs), list(ts)
    o = real.off
    if k == 0:
        for ex0 in (False, True):
            for exoff in (False, True):
                keep = [(x, t) for x, t in zip(xs, ts) if not (ex0 and x == 0) and not (exoff and lev and x == o)]
                got = list(zip(*real.xt(ex0=ex0, exoff=exoff, force_numeric=False, add_now=False)))
                if got != keep:
                    yield (name + ".xt(ex0=%s, exoff=%s)" % (ex0, exoff), keep, got)
                got = [(x, t) for t, x in zip(*real.tx(ex0=ex0, exoff=exoff, add_now=False))]
                if got != keep:
                    yield (name + ".tx(ex0=%s, exoff=%s)" % (ex0, exoff), keep, got)
        if lev and m.end is None:
            got = tuple(list(v) for v in real.xt(force_numeric=False))
            if got != (xs + xs[-1:], ts + [now]):
                yield (name + ".xt(add_now)", (xs + xs[-1:], ts + [now]), got)
    elif k == 1:
        for ex0 in (False, True):
            e = [x for x, _ in m.xw(now) if not (ex0 and x == 0)]
            vs = real.values(ex0=ex0)
            if sorted(map(key, {key(x): x for x in e}.values())) != [key(v) for v in sorted(vs, key=key)] or [num(v) for v in vs if not isinstance(v, str)] != sorted(num(v) for v in vs if not isinstance(v, str)):
                yield (name + ".values(ex0=%s)" % ex0, sorted(set(e), key=key), vs)
            w = dict(sort_on_duration=True) if lev else dict(sort_on_weight=True)
            sv = real.values(ex0=ex0, **w)
            ws = [sum(w for x, w in m.xw(now) if x == v) for v in sv]
            if sorted(map(key, sv)) != sorted(map(key, vs)) or any(a < b - 1e-9 for a, b in zip(ws, ws[1:])):
                yield (name + ".values(%s)" % w, vs, (sv, ws))
            a, b = real.median(ex0=ex0), real.percentile(50, ex0=ex0)
            if not close(a, b):
                yield (name + ".median", b, a)
            for q, f in ((-5, real.minimum), (105, real.maximum)):
                if not close(real.percentile(q, ex0=ex0), f(ex0=ex0)):
                    yield (name + ".percentile(%d)" % q, f(ex0=ex0), real.percentile(q, ex0=ex0))
            if not lev:
                got = list(real.x(ex0=ex0, force_numeric=False))
                if got != [x for x in xs if not (ex0 and x == 0)]:
                    yield (name + ".x(ex0=%s)" % ex0, xs, got)
        if not lev and real.number_of_entries_zero() != sum(1 for r in m.rows if num(r[1]) == 0):
            yield (name + ".number_of_entries_zero", sum(1 for r in m.rows if num(r[1]) == 0), real.number_of_entries_zero())
    elif k == 2:
        cuts = [-INF, -1, 0, 0.5, 1, 2, 3, INF]
        f = real.bin_duration if lev else real.bin_weight
        t = real.duration() if lev else real.weight()
        b = [f(x, y) for x, y in zip(cuts, cuts[1:])]
        e = [sum(w for v, w in m.xw(now) if x < num(v) <= y) for x, y in zip(cuts, cuts[1:])]
        if not close(sum(b), t) or not all(map(close, b, e)):
            yield (name + ": sum of bins", (e, t), b)
        if not lev:
            b = [real.bin_number_of_entries(x, y) for x, y in zip(cuts, cuts[1:])]
            e = [sum(1 for r in m.rows if x < num(r[1]) <= y) for x, y in zip(cuts, cuts[1:])]
            if b != e:
                yield (name + ": entries in bins", e, b)
        vs = real.values()
        if vs:
            e = sum(w for v, w in m.xw(now) if v in vs[:2])
            g = real.value_duration(vs[:2]) if lev else real.value_weight(vs[:2])
            if not close(e, g):
                yield (name + ".value_%s(%r)" % ("duration" if lev else "weight", vs[:2]), e, g)
    elif k == 3:
        w = dict(sort_on_duration=True) if lev else dict(sort_on_weight=True)
        real.print_statistics(as_str=True)
        real.print_histogram(as_str=True)
        real.print_histogram(as_str=True, number_of_bins=3, lowerbound=-1, bin_width=2, graph_scale=20)
        real.print_histogram(as_str=True, values=True, ex0=True)
        real.print_histogram(as_str=True, values=(0, 1, 2))
        real.print_histogram(as_str=True, values=True, **w)
        real.print_histograms(as_str=True)
        real.histogram_autoscale()
        real.name(), real.base_name(), real.sequence_number(), repr(real), real.stats_only(), real.monitor()
    elif k == 4 and m.end is None:
        for dates in (False, True) if env.datetime0() else (False,):
            ax = (lambda t: env.t_to_datetime(t - off)) if dates else (lambda t: t)
            df = real.as_dataframe(use_datetime0=dates, force_numeric=False)
            got = [(a.to_pydatetime() if dates else a, x) for a, x in zip(df["t"], df[real.name() + ".x"])]
            e = [(ax(t), x) for x, t in zip(xs + (xs[-1:] if lev else []), ts + ([now] if lev else []))]
            if got != e:
                yield (name + ".as_dataframe(%s)" % dates, e, got)
            if lev:
                ax = (lambda t: env.t_to_datetime(t)) if dates else (lambda t: t)
                df = real.as_resampled_dataframe(delta_t=0.75, use_datetime0=dates)
                got = [(a.to_pydatetime() if dates else a, OFF if isinstance(x, type(_NA())) or x != x else x) for a, x in zip(df["t"], df[real.name() + ".x"])]
                t = m.rows[0][0]
                e = []
                while t < now:
                    e.append((ax(t - off), m.at(t)))
                    t += 0.75
                if got != e:
                    yield (name + ".as_resampled_dataframe(%s)" % dates, e, got)
    elif k == 5:
        if m.end is None and lev and real.start_time() != m.start - off:
            yield (name + ".start_time", m.start - off, real.start_time())
        if not lev and real.xtype == "float" and env.get_time_unit() != "n/a":
            f = dict(years=1 / (86400 * 365), weeks=1 / (86400 * 7), days=1 / 86400, hours=1 / 3600, minutes=1 / 60, seconds=1, milliseconds=1e3, microseconds=1e6)
            for u, c in f.items():
                for r in (getattr(real, "to_" + u)(), real.to_time_unit(u)):
                    e = [x * c / f[env.get_time_unit()] for x in real.x()]
                    if not all(map(close, e, r.x())) or len(e) != len(r.x()) or list(r.xweight()[1]) != list(real.xweight()[1]) or list(r.xt()[1]) != ts:
                        yield (name + ".to_" + u, e, list(r.x()))


def _NA():
    import pandas

    return pandas.NA


class _Y(sim.Component):
    def setup(self, ex, script):
        self.ex = ex
        self.script = script

    def process(self):
        for op in self.script:
            if op[0] == "hold":
                yield self.hold(op[1])
            else:
                self.ex.do(op)


class _L(sim.Component):
    def setup(self, ex, script):
        self.ex = ex
        self.script = script

    def process(self):
        for op in self.script:
            if op[0] == "hold":
                self.hold(op[1])
            else:
                self.ex.do(op)


class Exec:
    def __init__(self, case, res):
        self.case = case
        self.res = res
        sim.yieldless(case["yieldless"])
        kw = dict(datetime0="2024-02-28", time_unit=case["unit"]) if case.get("unit") else {}
        self.env = sim.Environment(trace=False, yieldless=case["yieldless"], random_seed=1, **kw)
        self.judge = True
        self.off = 0.0  # own bookkeeping of reset_now
        self.pairs = []  # (real, twin or None, model)
        self.gen = []  # (name, real, model)
        self.hist = []
        for i, m in enumerate(case["mons"]):
            kw = dict(level=m["level"], type=m["type"], monitor=m["on"], env=self.env)
            if m["level"]:
                kw["initial_tally"] = m["init"]
            real = sim.Monitor("m%d" % i, **kw)
            twin = sim.Monitor("s%d" % i, stats_only=True, **kw) if m.get("twin") else None
            self.pairs.append((real, twin, MM(m["level"], 0.0, m["init"], m["on"])))

    @property
    def t(self):
        return self.env.now() + self.off

    def do(self, op):
        if self.res.violation:
            return
        n = op[0]
        t = self.t
        self.hist.append((t, op[:2]))
        self.res.events += 1
        if n not in ("tally", "read", "look"):
            self.res.faults[n] += 1
        if n == "rnow":
            self.off = t - op[1]
            self.env.reset_now(op[1])
            return
        if n == "check":
            return self.check_all(deep=op[1])
        if n in ("merge", "xmap"):
            src = [self.source(k) for k in op[1]]
            src = [s for s in src if s is not None]
            if not src or any(s[1].level != src[0][1].level for s in src) or any(s[0].stats_only() or s[0].env is not src[0][0].env for s in src):
                return
            return self.derive(op, src)
        s = self.source(op[1])
        if s is None:
            return
        if n == "report":
            todo = [("monitor %d" % op[1], s[0])]
            if op[1] < len(self.pairs) and self.pairs[op[1]][1] is not None:
                todo.append(("stats_only twin of monitor %d" % op[1], self.pairs[op[1]][1]))
            for nm, x in todo:
                for what, e, g in hengine.report(nm, x, s[1], t, s[1].off if s[1].off is not None else self.off, op[2], num):
                    self.fail("at %r: %s expected %r, got %r" % (t, what, e, g))
            return
        if n in ("slice", "freeze", "mul", "tmul", "mod"):
            if not s[0].stats_only():
                self.derive(op, [s])
            return
        real, twin, m = self.pairs[op[1]] if op[1] < len(self.pairs) else (None, None, None)
        if real is None:
            return
        both = [real] + ([twin] if twin is not None else [])
        if n == "tally":
            w = 1 if m.level else op[3]
            for x in both:
                if m.level and op[4]:
                    x.value = op[2]
                elif w == 1:
                    x.tally(op[2])
                else:
                    x.tally(op[2], weight=w)
            m.tally(t, op[2], w)
        elif n == "mon":
            for x in both:
                x.monitor(op[2])
            m.monitor(t, op[2])
        elif n == "reset":
            for i, x in enumerate(both):
                kw = {}
                if op[2] is not None:
                    kw["monitor"] = op[2]
                if op[3] is not None and i == 0:
                    kw["stats_only"] = op[3]
                x.reset(**kw)
            m.reset(t, op[2])
        elif n == "look":
            for i, x in enumerate(both):
                nm = "m%d" % op[1] if i == 0 else "stats_only twin of m%d" % op[1]
                for what, e, g in look(nm, x, m, t, self.off, op[2], self.env):
                    self.fail("at %r: %s expected %r, got %r" % (t, what, e, g))
        elif n == "read":
            for i, x in enumerate(both):
                self.cmp("m%d" % op[1] if i == 0 else "stats_only twin of m%d" % op[1], x, m, deep=op[2])
            if op[2]:
                for x in both:
                    x.print_statistics(as_str=True)
                    if not x.stats_only():
                        x.print_histogram(as_str=True)
        else:
            raise AssertionError(n)

    def source(self, k):
        if k < len(self.pairs):
            return self.pairs[k][0], self.pairs[k][2]
        if self.gen:
            g = self.gen[k % len(self.gen)]
            return g[1], g[2]
        return None

    def cmp(self, name, real, m, deep=False):
        for what, e, g in check(name, real, m, self.t, self.off, deep=deep):
            self.fail("at %r: %s expected %r, got %r" % (self.t, what, e, g))
            return

    def fail(self, text):
        if self.judge and not self.res.violation:
            self.res.fail("monitor", text)

    def check_all(self, deep):
        for i, (real, twin, m) in enumerate(self.pairs):
            self.cmp("m%d" % i, real, m, deep)
            if twin is not None:
                self.cmp("stats_only twin of m%d" % i, twin, m)
        for name, real, m in self.gen:
            self.cmp(name, real, m, deep)

    def derive(self, op, src):
        n, now = op[0], self.t
        real, m = src[0]
        off = self.off if m.off is None else m.off
        if len(self.gen) >= 8 or any(s[1].foreign for s in src):
            return
        if n == "slice":
            a, b = op[2], op[3]
            r = real.slice(a, b) if not op[4] else real[a:b]
            m2 = m.slice(now, [(-INF if a is None else a + off, INF if b is None else b + off)])
        elif n == "mod":
            a, ln, mod = op[2], op[3], op[4]
            if ln >= mod:
                return
            r = real.slice(a, a + ln, mod) if len(self.gen) % 2 else real[a : a + ln : mod]
            lo = min([x[0] for x in m.rows] + [now]) - 2 * mod
            k = math.floor((lo - a - off) / mod)
            ws = []
            while a + off + k * mod <= now:
                ws.append((a + off + k * mod, a + off + k * mod + ln))
                k += 1
            m2 = m.slice(now, ws)
        elif n == "freeze":
            r = real.freeze()
            m2 = m.gen(list(m.rows), now if m.end is None else m.end)
        elif n == "mul":
            if m.level or real.xtype != "float":
                return
            k, f = len(self.gen) % 2, op[2]
            r = (real.multiply(f) if k else f * real) if op[3] else (real / (1 / f) if k and f != 3 else real * f)
            m2 = m.gen([(t, v * op[2], w) for t, v, w in m.rows], now)
        elif n == "tmul":
            if not m.level or off or m.end is not None:
                return
            r = real.t_multiply(op[2])
            m2 = m.gen([(t * op[2], v) for t, v in m.rows], now * op[2])
        elif n == "merge":
            rs = [s[0] for s in src]
            if not op[2]:
                r = real.merge(*rs[1:])
            elif len(src) == 2 and len(self.gen) % 2:
                r = real + rs[1]
            elif len(src) > 1:
                r = sum(rs)
            else:
                r = real.merge()
            if m.level:
                m2 = MM.combine([s[1] for s in src], now, lambda *x: sum(num(v) for v in x))
            else:
                m2 = m.gen([row for s in src for row in s[1].rows], now)
        elif n == "xmap":
            if m.level:
                r = real.x_map(lambda *x: 2 * sum(num(v) for v in x) + 1, [s[0] for s in src[1:]])
                m2 = MM.combine([s[1] for s in src], now, lambda *x: 2 * sum(num(v) for v in x) + 1)
            else:
                r = real.x_map(lambda x: 2 * num(x) + 1)
                m2 = m.gen([(t, 2 * num(v) + 1, w) for t, v, w in m.rows], now)
        name = "%s of %s" % (n, op[1])
        m2.foreign = n == "tmul"
        m2.off = off if n == "freeze" else m.off
        m2.frozen = n == "freeze" and (m.end is None or m.frozen)
        self.gen.append((name, r, m2))
        self.res.probes["derived:" + n] += 1
        self.cmp(name, r, m2)

    def run(self):
        K = _L if self.case["yieldless"] else _Y
        for c in self.case["comps"]:
            K(ex=self, script=c, env=self.env)
        for d in self.case["runs"]:
            self.env.run(d)
            self.check_all(deep=False)
        self.check_all(deep=True)
        self.res.simtime = self.t


class Monitors:
    def __init__(self, prop):
        self.prop = prop

    def gen(self, seed):
        r = random.Random("monitors|%s|%s" % (self.prop, seed))
        ch = lambda xs: xs[r.randrange(len(xs))]  # noqa: E731
        p = self.prop
        nm = ch([1, 2, 2, 3])
        alllevel = {"C16": 1.0}.get(p, 0.5)
        mons = []
        level0 = r.random() < alllevel
        for _ in range(nm):
            level = level0 if r.random() < 0.8 else r.random() < alllevel
            typ = ch(["any", "any", "float", "int8", "uint16", "int32", "bool"])
            mons.append(dict(level=level, type=typ, on=r.random() < 0.85, init=ch([0, 0, 1]), twin=p == "C17" or p in ("C27", "C35") and r.random() < 0.4))

        def val(i):
            t = mons[i]["type"]
            if t == "bool":
                return ch([0, 1, 1])
            if t == "any":
                return ch([0, 0, 1, 2, 3, -1, 0.5, 2.5] + (["a", "7"] if strs else []))
            if t == "float":
                return ch([0, 0, 1, 2, 3, -1, 0.5, 2.5] + ([40, 75.5, 1000, -20, 310] if wide else []))
            return ch([0, 0, 1, 2, 3, 5])

        strs = r.random() < 0.3
        wide = p == "C35" and r.random() < 0.3
        plain = p == "C35" and r.random() < 0.5  # no weights
        hasr = r.random() < 0.4
        comps = []
        T = 0
        for _ in range(ch([1, 2, 3])):
            s = []
            for _ in range(ch([4, 8, 12, 20])):
                x = r.random()
                i = r.randrange(nm)
                k = r.randrange(nm + 3)
                if x < 0.3:
                    s.append(["hold", ch([0, 0.25, 0.5, 1, 1, 2, 3])])
                elif x < 0.62:
                    s.append(["tally", i, val(i), 1 if plain else ch([1, 1, 1, 2, 0.5, 0, 3]), r.random() < 0.3])
                elif x < 0.7:
                    s.append(["mon", i, r.random() < 0.6])
                elif x < 0.74:
                    s.append(["reset", i, ch([None, None, True, False]), ch([None, None, True, False]) if p == "C17" else None])
                elif x < 0.76 and hasr:
                    s.append(["rnow", ch([0, 0, 10, -5, 2.5])])
                elif p == "C35" and x < 0.95:
                    s.append(["report", k, r.randrange(1 << 20)])
                elif x < 0.84 or p in ("C16", "C17") or p == "C27" and r.random() < 0.6:
                    s.append(["read", i, r.random() < 0.3] if r.random() < 0.6 else ["look", i, ch([0, 1, 2, 3, 5, 4 if r.random() < 0.2 else 0])])
                else:
                    n = ch(["slice", "slice", "slice", "mod", "mod", "merge", "merge", "freeze", "xmap", "mul", "tmul"])
                    if n == "slice":
                        a, b = ch([None, 0, 0.5, 1, 2, 3, -1]), ch([None, 1, 2, 2.5, 4, 6, 50])
                        s.append(["slice", k, a, b, r.random() < 0.3])
                    elif n == "mod":
                        s.append(["mod", k, ch([0, 0.5, 1, 2, 3]), ch([0.25, 0.5, 1, 2]), ch([1, 2, 3, 4, 5])])
                    elif n == "merge":
                        s.append(["merge", [r.randrange(nm + 2) for _ in range(ch([1, 2, 2, 3]))], r.random() < 0.4])
                    elif n == "xmap":
                        s.append(["xmap", [r.randrange(nm + 2) for _ in range(ch([1, 2]))]])
                    elif n == "freeze":
                        s.append(["freeze", k])
                    else:
                        s.append([n, k, ch([2, 0.5, 3]), r.random() < 0.5])
            comps.append(s)
        unit = ch(["years", "weeks", "days", "hours", "minutes", "seconds", "milliseconds"]) if r.random() < 0.2 else None
        if unit in ("years", "weeks", "milliseconds") and r.random() < 0.5:
            unit = "days"
        return dict(yieldless=r.random() < 0.5, unit=unit, mons=mons, comps=comps, runs=[ch([0, 0.5, 1, 2, 3, 5]) for _ in range(ch([1, 2, 4]))] + [ch([10, 30])])

    def run(self, case):
        if self.prop == "C27":
            return self.run_observed(case)
        res = Result()
        ex = Exec(case, res)
        try:
            ex.run()
        except Exception as e:
            import traceback

            tb = traceback.extract_tb(e.__traceback__)
            if tb and "salabim" in tb[-1].filename:
                res.fail("exception", "%s: %s (after %s)" % (type(e).__name__, e, ex.hist[-1:]))
            else:
                raise
        res.sig = sig(ex.hist)
        res.nontrivial = len(ex.hist) >= 6
        return res

    READS = ("read", "look", "report", "slice", "mod", "merge", "freeze", "xmap", "mul", "tmul", "check")

    def run_observed(self, case):
        """C27: the same tallies with and without everything that only reads"""
        res = Result()
        snaps = []
        for bare in (True, False):
            c = copy.deepcopy(case)
            if bare:
                c["comps"] = [[op for op in s if op[0] not in self.READS] for s in c["comps"]]
            r = Result() if bare else res
            ex = Exec(c, r)
            ex.judge = False
            K = _L if c["yieldless"] else _Y
            for s in c["comps"]:
                K(ex=ex, script=s, env=ex.env)
            snap = []
            try:
                for d in c["runs"]:
                    ex.env.run(d)
                    if not bare:
                        ex.check_all(deep=False)
                snap.append(("now", ex.env.now()))
                for real, twin, _ in ex.pairs:
                    for m in [real] + ([twin] if twin is not None else []):
                        e = [m.name(), m.mean(), m.std(), m.minimum(), m.maximum(), m.mean(ex0=True), m.minimum(ex0=True), m.maximum(ex0=True), m.monitor(), m.stats_only(), m.start_time()]
                        if m.stats_only():
                            e += [m.duration() if m._level else (m.weight(), m.number_of_entries())]
                        elif m._level:
                            e += [tuple(map(list, m.xt(force_numeric=False))), m.get(), m.t()]
                        else:
                            e += [tuple(map(list, m.xweight(force_numeric=False))), list(m.xt()[1])]
                        snap.append(tuple(e))
            except Exception as e:  # noqa: BLE001
                import traceback

                tb = traceback.extract_tb(e.__traceback__)
                if not tb or "salabim" not in tb[-1].filename:
                    raise
                snap.append("%s: %s (after %s)" % (type(e).__name__, e, ex.hist[-1:]))
            snaps.append(snap)
        for a, b in zip(snaps[0] + [None], snaps[1] + [None]):
            if repr(a) == repr(b):
                continue
            if a is not None and b is not None and len(a) == len(b) and isinstance(a, tuple) and "s" == a[0][0]:
                # reading a statistics-only level monitor may split the summation: rounding
                if all(x == y or (isinstance(x, float) and isinstance(y, float) and close(x, y)) for x, y in zip(a, b)):
                    continue
            res.fail("observed", "without reading: %r, with reading: %r" % (a, b))
            break
        res.simtime = snaps[0][0][1] if snaps[0] and snaps[0][0][0] == "now" else 0
        res.sig = sig(ex.hist)
        res.nontrivial = len(ex.hist) >= 6
        return res

    def shrinks(self, case):
        for i in range(len(case["comps"])):
            c = copy.deepcopy(case)
            del c["comps"][i]
            yield c
        for i in range(len(case["runs"]) - 1):
            c = copy.deepcopy(case)
            del c["runs"][i]
            yield c
        for i, s in enumerate(case["comps"]):
            for a, b in ((0, len(s) // 2), (len(s) // 2, len(s))):
                c = copy.deepcopy(case)
                del c["comps"][i][a:b]
                yield c
            for j in range(len(s) - 1, -1, -1):
                c = copy.deepcopy(case)
                del c["comps"][i][j]
                yield c
        for i, m in enumerate(case["mons"]):
            if not m["on"]:
                c = copy.deepcopy(case)
                c["mons"][i]["on"] = True
                yield c
