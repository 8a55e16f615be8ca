"""Engine "units" (C32): the same program with its times in other notations, with time units and dates.

Every duration and moment is given in a notation drawn from the seed (number, text, callable,
distribution, timedelta, datetime, date text, conversion from another unit). The reference model
knows numbers only. The wall clock, which the parsing of dates reads, is simulated and crosses midnight.
"""
import collections
import copy
import datetime
import random

from . import kgen, kreal
from .kengine import Kernel
from .load import sim

try:
    import dateutil.parser._parser as dparser
except ImportError:
    dparser = None

SECONDS = dict(years=86400 * 365, weeks=86400 * 7, days=86400, hours=3600, minutes=60, seconds=1, milliseconds=1e-3, microseconds=1e-6)
INF = float("inf")


class Clock(datetime.datetime):
    """datetime whose now() is the simulated wall clock"""

    current = None
    steps = None

    @classmethod
    def now(cls, tz=None):
        t = Clock.current
        Clock.current = t + datetime.timedelta(seconds=Clock.steps.choice([0, 0, 1, 20]))
        return datetime.datetime(t.year, t.month, t.day, t.hour, t.minute, t.second)

    @classmethod
    def today(cls):
        return cls.now()


class Module:
    datetime = Clock

    def __getattr__(self, name):
        return getattr(datetime, name)


class UReal(kreal.Real):
    def __init__(self, prog, opts=None):
        u = opts["u"]
        self.u = u
        self.rng = random.Random(u["seed"])
        self.env = None
        self.d0 = None if u["d0"] is None else datetime.datetime(1970, 1, 1) if u["d0"] is True else datetime.datetime.fromisoformat(u["d0"])
        self.per = SECONDS[u["unit"]] if u["unit"] else 1
        self.used = opts["used"]
        self.wrong = None
        kw = {}
        if u["unit"]:
            kw["time_unit"] = u["unit"]
        if u["d0"] is not None:
            kw["datetime0"] = u["d0"] if u["d0"] is True or u["d0text"] else self.d0
        if dparser is not None:
            Clock.current = datetime.datetime(2026, 3, 14, 23, 59, 40)
            Clock.steps = random.Random(u["seed"])
            dparser.datetime = Module()
        super().__init__(prog, dict(opts, env_kw=kw))

    def run(self):
        try:
            return super().run()
        finally:
            if dparser is not None:
                dparser.datetime = datetime

    def pick(self, kinds):
        k = kinds[self.rng.randrange(len(kinds))]
        self.used["notation:" + k] += 1
        return k

    def secs(self, v):
        return datetime.timedelta(seconds=v * self.per)

    def dur(self, v):
        if v is None or v == INF:
            return v
        kinds = ["number", "number", "callable", "text", "dist"]
        if self.u["unit"]:
            kinds += ["unit", "distunit"]
        if self.d0 is not None:
            kinds += ["timedelta", "timedelta"]
            if v * self.per < 86400 and v >= 0 and dparser is not None:
                kinds += ["hms", "hms"]
        k = self.pick(kinds)
        if k == "number":
            return v
        if k == "callable":
            return lambda: v
        if k == "text":
            return repr(v)
        if k == "dist":
            return sim.Constant(v, env=self.env)
        if k == "unit":
            o = self.rng.choice(["seconds", "minutes", "hours", "days", "weeks", "milliseconds", "microseconds", "years"])
            x = v * self.per / SECONDS[o]
            y = getattr(self.env, o)((lambda: x) if self.rng.random() < 0.5 else x)
            if abs(y - v) > 1e-9 * max(1, abs(v)):
                self.wrong = self.wrong or "%s(%r) is %r, expected %r" % (o, x, y, v)
            return v if y != v else y
        if k == "distunit":
            o = self.rng.choice(["seconds", "seconds", "milliseconds", "minutes"])
            d = sim.Constant(v * self.per / SECONDS[o], time_unit=o, env=self.env)
            y = d.sample()
            if abs(y - v) > 1e-9 * max(1, abs(v)):
                self.wrong = self.wrong or "a constant of %r %s is %r, expected %r" % (v * self.per / SECONDS[o], o, y, v)
            return v if y != v else d
        td = self.secs(v)
        if k == "timedelta":
            return td
        return str((datetime.datetime(2000, 1, 1) + td).time())

    def at(self, v):
        if v is None or v == INF:
            return v
        kinds = ["number", "number", "callable", "text"]
        if self.d0 is not None:
            kinds += ["datetime", "datetime", "dcallable"]
            if dparser is not None:
                kinds += ["dtext", "dtext"]
        k = self.pick(kinds)
        if k == "number":
            return v
        if k == "callable":
            return lambda: v
        if k == "text":
            return repr(v)
        d0 = self.env.datetime0()  # moves with a reset of the clock
        d = d0 + self.secs(v)
        if self.env.datetime_to_t(d) != v or self.env.t_to_datetime(v) != d:
            self.wrong = self.wrong or "datetime_to_t(%s) is %r, t_to_datetime(%r) is %s" % (d, self.env.datetime_to_t(d), v, self.env.t_to_datetime(v))
        if k == "datetime":
            return d
        if k == "dcallable":
            return lambda: d
        return d.isoformat(sep=self.rng.choice([" ", "T"]))

    def emit(self, *a):
        super().emit(*a)
        if self.wrong is None:
            self.check()

    def check(self):
        env = self.env
        t = env.now()
        if t == INF:
            return
        if self.u["unit"]:
            for o in SECONDS:
                x = getattr(env, "to_" + o)(t)
                y = getattr(env, o)(x if len(self.log) % 2 else lambda: x)
                if x != env.to_time_unit(o, lambda: t) or abs(x - t * self.per / SECONDS[o]) > 1e-9 * max(1, abs(x)) or abs(y - t) > 1e-9 * max(1, abs(t)):
                    self.wrong = "to_%s(%r) is %r, %s() of that is %r" % (o, t, x, o, y)
            if env.duration_to_timedelta(t) != self.secs(t):
                self.wrong = "duration_to_timedelta(%r) is %s" % (t, env.duration_to_timedelta(t))
        if self.d0 is not None:
            # the date never moves back or jumps: it is the elapsed simulated time, whatever was reset
            d = env.t_to_datetime(t)
            el = t + sum(self.shifts)
            if d != self.d0 + self.secs(el):
                self.wrong = "the date at elapsed time %r is %s, expected %s" % (el, d, self.d0 + self.secs(el))
            txt = env.time_to_str(t)
            if txt.split(None, 1) != [d.strftime("%a"), d.strftime("%Y-%m-%d %H:%M:%S")]:
                self.wrong = "the text of %s is %s" % (d, txt)
        elif abs(float(env.time_to_str(t)) - t) > 0.00051:
            self.wrong = "the text of time %r is %s" % (t, env.time_to_str(t))
        for v in (abs(t), abs(t) / 7, abs(t) * 40, 0.5, 90000.25 / self.per):
            txt = env.duration_to_str(v)
            if self.d0 is None:
                ok = abs(float(txt) - v) <= 0.00051
            else:
                *days, hms = txt.split()
                p = [int(x) for x in hms.split(":")]
                n = ((int(days[0]) if days else 0) * 24 + p[0]) * 3600 + p[1] * 60 + p[2]
                ok = abs(n - v * self.per) < 1.001 and p[0] < 24 and p[1] < 60 and p[2] < 60
            if not ok:
                self.wrong = "the text of duration %r is %s" % (v, txt)

    shifts = ()

    def exec1(self, c, op):
        if op[0] == "rnow":
            before = self.env.now()
            r = super().exec1(c, op)
            self.shifts = self.shifts + (before - op[1],)
            return r
        return super().exec1(c, op)


class Units(Kernel):
    def gen(self, seed):
        r = random.Random("units|" + str(seed))
        prog = kgen.generate("C32", seed)
        unit = r.choice([None, "seconds", "minutes", "hours", "days", "weeks", "years"])
        d0 = r.choice([None, True, "2024-02-28T22:00:00", "1999-12-31T23:59:30", "2026-03-29T01:30:00"])
        if unit is None and d0 is not None:
            unit = "seconds" if r.random() < 0.5 else r.choice(["minutes", "hours"])
        if d0 is None and r.random() < 0.2:
            unit = "milliseconds"
        prog["u"] = dict(seed=r.randrange(1 << 30), unit=unit, d0=d0, d0text=r.random() < 0.5 and dparser is not None)
        return prog

    def run(self, prog):
        self.R = None
        return super().run(prog)

    def opts(self, prog):
        self.used = collections.Counter()
        return dict(u=prog["u"], real=UReal, used=self.used)

    def extra(self, res, prog, M, ml, R, rl):
        for k, n in self.used.items():
            res.probes[k] += n
        res.faults["clock-crosses-midnight"] += any(k.endswith("hms") for k in self.used)
        if R.wrong:
            res.fail("conversion", R.wrong)
        super().extra(res, prog, M, ml, R, rl)

    def account(self, res, prog, ml, M):
        super().account(res, prog, ml, M)
        res.probes["unit:%s" % prog["u"]["unit"]] += 1

    def shrinks(self, prog):
        for k, v in (("d0", None), ("unit", "seconds")):
            if prog["u"][k] not in (None, "seconds"):
                p = copy.deepcopy(prog)
                p["u"][k] = v
                yield p
        yield from super().shrinks(prog)
