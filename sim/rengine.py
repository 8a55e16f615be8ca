"""Engine "determ" (C22): the same model with the same seeds, undisturbed, again, disturbed and under another hash seed.

No reference model is needed: the undisturbed run is the specification. What is compared is all
that can be observed: history, samples, names, statistics, printed information and the trace.
"""
import atexit
import copy
import gc
import hashlib
import io
import json
import os
import random
import re
import subprocess
import sys

from . import kgen, kreal, kviews
from .kengine import Kernel, short
from .kmodel import Boom
from .load import REPO, sim
from .runner import VERIF, Result, sig

try:
    import numpy
except ImportError:
    numpy = None

ADDR = re.compile(r"0x[0-9a-fA-F]+|\b\d{12,}\b")


class GItem(sim.Component):
    def setup(self, ex):
        self.kid = ("g", ex.ngen)
        ex.ngen += 1
        ex.emit("generated", self.name(), self.sequence_number(), self.kid)
        if ex.queues and ex.ngen % 2:
            try:
                self.enter(ex.queues[0])
            except sim.QueueFullError:
                pass


class Real(kreal.Real):
    def __init__(self, prog, spec, default, hook=None):
        self.ngen = 0
        self.periods = '"period"' in json.dumps(prog)
        self.hook = hook
        self.hooked = 0
        self.spec = spec
        self.log = []
        self.default = default
        super().__init__(prog, dict(default=default, trace=spec["trace"], env_kw=dict(name="model"), nopeek=True, noviews=True))
        if spec["trace"]:
            self.env.suppress_trace_linenumbers(True)
        e = self.env
        self.dists = []
        for k, (kind, stream) in enumerate(spec["dists"]):
            st = None if stream is None else sim.Random(stream)
            self.dists.append(
                {
                    "exp": lambda: sim.Exponential(2, randomstream=st, env=e),
                    "uni": lambda: sim.Uniform(0, 3, randomstream=st, env=e),
                    "nor": lambda: sim.Bounded(sim.Normal(2, 1, randomstream=st, env=e), lowerbound=0, env=e),
                    "pdf": lambda: sim.Pdf((0, 1, 1, 2, 5, 1), randomstream=st, env=e),
                    "poi": lambda: sim.Poisson(2, randomstream=st),
                    "tri": lambda: sim.Triangular(0, 4, 1, randomstream=st, env=e),
                    "int": lambda: sim.IntUniform(0, 4, randomstream=st, env=e),
                    "erl": lambda: sim.Erlang(2, 1, randomstream=st, env=e),
                    "bet": lambda: sim.Beta(2, 3, randomstream=st),
                    "wei": lambda: sim.Weibull(2, 3, randomstream=st, env=e),
                    "cdf": lambda: sim.Cdf((0, 0, 1, 50, 3, 100), randomstream=st, env=e),
                    "str": lambda: sim.Distribution("Uniform(1, 2)", randomstream=st),
                    "sum": lambda: sim.Uniform(0, 1, randomstream=st, env=e) + 1,
                    "pd": lambda: sim.Pdf({"1": 30, "2": 20, "3": 50}.keys(), 1, randomstream=st, env=e),
                }[kind]()
            )

    def exec(self, c, op):
        if self.hook:
            # run() is for the main level only (documented), and a yieldless process is not that
            self.hook(self, self.yl and c is not self.env.main())
        return super().exec(c, op)

    def run_op(self, i, op):
        # a period monitor keeps the event list filled forever
        return super().run_op(i, ["run", 20] if op[0] in ("runall", "runinf") and self.periods else op)

    def mons(self):
        out = [q.length for q in self.queues] + [q.length_of_stay for q in self.queues]
        out += [r.claimed_quantity for r in self.res] + [r.requesters().length for r in self.res] + [s.value for s in self.states] + [s.length for s in self.stores]
        out += [c.status for c in self.comps if c is not None]
        return out

    def exec1(self, c, op):
        n = op[0]
        if n == "samp":
            return ("samp", repr(self.dists[op[1]].sample()))
        if n == "holdr":
            v = self.dists[op[1]].sample()
            c.hold(float(v))
            return None
        if n == "gen":
            sim.ComponentGenerator(GItem, iat=self.dists[op[1]] if op[3] != 1 else None, number=op[2] + (op[3] == 1), duration=7 if op[3] == 1 else None, force_at=op[3] == 2, ex=self, env=self.env)
            return "ok"
        if n == "txt":
            return self.text(op[1])
        if n == "ms":
            return self.mop(op[1], op[2])
        return super().exec1(c, op)

    def text(self, k):
        out = []
        if k == 0:
            out = [c.print_info(as_str=True) for c in self.comps if c is not None]
        elif k == 1:
            out = [x.print_info(as_str=True) for x in self.res + self.states + self.queues + self.stores]
        elif k == 2:
            out = [x.print_statistics(as_str=True) for x in self.queues + self.res + self.states]
        elif k == 3:
            out = [x.print_histograms(as_str=True) for x in self.res + self.stores]
        elif k == 4:
            out = [c.status.print_histogram(as_str=True, values=True) for c in self.comps if c is not None]
        elif k == 5:
            out = [self.env.print_info(as_str=True)]
        else:
            out = [repr(x) + str(x) for x in self.comps + self.res + self.states + self.queues + self.stores]
        return ADDR.sub("#", "\n".join(map(str, out)))

    def mop(self, k, i):
        ms = self.mons()
        if not ms:
            return "skip"
        m = ms[i % len(ms)]
        now = self.env.now()
        if k == "slice":
            s = m.slice(now / 2, now) if now > 0 else m
            return ("slice", s.name(), repr(s.mean()), repr(s.duration()) if s._level else s.number_of_entries())
        if k == "merge":
            o = [x for x in ms if x._level == m._level and x.xtypecode == m.xtypecode]
            s = m.merge(*[x for x in o[:2] if x is not m]) if len([x for x in o[:2] if x is not m]) else m
            return ("merge", s.name(), repr(s.mean()))
        if k == "freeze":
            s = m.freeze()
            return ("freeze", s.name(), repr(s.mean()))
        if k == "map":
            s = m.x_map(lambda x: str(x))
            return ("map", s.name(), repr(s.values()) if not s._level else repr([(v, s.value_duration(v)) for v in s.values()]))
        if k == "pct":
            return ("pct", repr(m.percentile(50)), repr(m.maximum()), repr(m.std()))
        if k == "resample":
            return ("x", repr(m.xt(add_now=True)) if m._level else repr(m.x()))
        if k == "period":
            if m.name().startswith("status"):
                return "skip"
            pm = sim.PeriodMonitor(m, periods=(1, 2, 1), env=self.env)
            return ("period", [x.name() for x in pm])
        if k == "df":
            return ("hist", repr(m.bin_number_of_entries(0, 2)) if not m._level else repr(m.bin_duration(0, 2)))
        if k == "copy" and self.queues:
            q = self.queues[i % len(self.queues)].copy()
            return ("copy", q.name(), len(q))
        return "skip"

    def observe(self):
        """all that can be observed afterwards"""
        out = [tuple(e) for e in self.log]
        out.append(("names", [x.name() for x in self.comps + self.res + self.states + self.queues + self.stores + self.members if x is not None]))
        out.append(("seq", [x.sequence_number() for x in self.comps + self.res + self.states + self.queues + self.stores if x is not None]))
        for m in self.mons():
            out.append(("mon", m.name(), repr(m.mean()), repr(m.std()), repr(m.xt()) if m._level else repr(m.x())))
        out.append(("text", self.text(2), self.text(1)))
        out.append(("streams", [repr(d.sample()) for d in self.dists]))
        if self.spec["trace"]:
            for i, line in enumerate(self.trace_out.getvalue().splitlines()):
                out.append(("trace", i, ADDR.sub("#", line)))
        return out


def execute(case, default=True, hook=None):
    R = Real(case["prog"], case["spec"], default, hook)
    try:
        R.run()
    except (Exception, Boom) as e:
        R.log.append(("exception", type(e).__name__, ADDR.sub("#", str(e))))
    return R.observe(), R


class Disturb:
    """other environments, garbage collection and other streams at the drawn points"""

    def __init__(self, case, res):
        self.plan = case["plan"]
        self.others = []
        self.case = case
        self.n = 0
        self.due = []
        self.rng = sim.Random(5)
        self.res = res
        self.busy = False

    def __call__(self, R, nested):
        if self.busy:
            return
        self.n += 1
        self.due += self.plan.get(str(self.n), [])
        now = [a for a in self.due if not (nested and a[0] in ("env", "run", "plain"))]
        self.due = [a for a in self.due if nested and a[0] in ("env", "run", "plain")]
        for act in now:
            self.busy = True
            try:
                self.act(act)
            finally:
                self.busy = False

    def act(self, a):
        k = a[0]
        self.res.faults["disturb:" + k] += 1
        if k == "env":
            p = dict(self.case["others"][a[1] % len(self.case["others"])])
            p["seed"] = ""  # the default stream is left to the model
            o = kreal.Real(p, dict(default=bool(a[2]), trace=a[3]))
            o.pos = 0
            self.others.append(o)
        elif k == "run":
            if self.others:
                o = self.others[a[1] % len(self.others)]
                for _ in range(a[2]):
                    if o.pos >= len(o.prog["main"]) or o.budget <= 0:
                        break
                    o.pos += 1
                    o.run_op(o.pos - 1, o.prog["main"][o.pos - 1])
        elif k == "drop":
            if self.others:
                self.others.pop(a[1] % len(self.others))
                gc.collect()
        elif k == "gc":
            gc.collect()
        elif k == "draw":
            sim.Uniform(0, 1, randomstream=self.rng, env=sim.default_env()).sample()
            sim.Exponential(1, randomstream=sim.Random(a[1]), env=sim.default_env()).sample()
        elif k == "seed":
            sim.random_seed(a[1], randomstream=self.rng, set_numpy_random_seed=False)
        elif k == "yl":
            sim.yieldless(bool(a[1]))
        elif k == "plain":
            sim.Environment(random_seed="", isdefault_env=bool(a[1]))


class Watch:
    """inspections and trace switching at the drawn points"""

    def __init__(self, case, res):
        self.plan = case["plan"]
        self.n = 0
        self.res = res
        self.busy = False
        self.wrong = None
        self.files = [io.StringIO(), io.StringIO()]

    def __call__(self, R, nested):
        if self.busy:
            return
        self.n += 1
        for a in self.plan.get(str(self.n), []):
            self.busy = True
            try:
                self.act(R, a)
            except Exception as e:  # noqa: BLE001
                tb = e.__traceback__
                while tb.tb_next is not None and "rengine" in tb.tb_next.tb_frame.f_code.co_filename:
                    tb = tb.tb_next
                self.wrong = "%s (line %d) raised %s: %s" % (a, tb.tb_lineno, type(e).__name__, ADDR.sub("#", str(e)))
            finally:
                self.busy = False

    def act(self, R, a):
        k = a[0]
        env = R.env
        self.res.faults["observe:" + k] += 1
        if k == "trace":
            env.trace([False, True, self.files[0], self.files[1]][a[1]])
        elif k == "lines":
            env.suppress_trace_linenumbers(bool(a[1]))
        elif k == "stby":
            env.suppress_trace_standby(bool(a[1]))
        elif k == "comp":
            for c in R.comps[a[1] :: 2]:
                if c is not None:
                    c.suppress_trace(not c.suppress_trace())
        elif k == "block":
            before = env.trace()
            try:
                with env.suppress_trace():
                    self.look(R, a[1])
                    if a[2]:
                        raise Boom()
            except Boom:
                pass
            if env.trace() is not before:
                self.wrong = "trace() was %r before and %r after a block with suppressed trace" % (before, env.trace())
        else:
            self.look(R, a[1])

    def look(self, R, k):
        objs = [c for c in R.comps if c is not None] + R.res + R.states + R.queues + R.stores
        if k == 0:
            for i in range(7):
                R.text(i)
        elif k == 1:
            for x in objs:
                repr(x), str(x), x.name(), x.base_name(), x.sequence_number()
        elif k == 2:
            for what, exp, act in kviews.audit(R, self.n):
                self.wrong = "%s expected %s, got %s" % (what, exp, act)
        elif k == 3:
            now = R.env.now()
            for m in R.mons():
                m.mean(), m.std(), m.maximum(), m.minimum(), m.percentile(30), m.median(), m.duration() if m._level else m.number_of_entries()
                if m._level:
                    m.xt(), m.tx(), m(now), m.xduration(), m.duration_zero()
                else:
                    m.x(), m.xt(), m.tx(), m.xweight()
                m.print_histogram(as_str=True), m.print_histogram(as_str=True, values=True), m.print_statistics(as_str=True)
        elif k == 4:
            now = R.env.now()
            for m in R.mons():
                m.slice(now - 2, now - 1), m.freeze(), m.x_map(lambda x: (x, 1)), m.merge(), m * 2 if not m._level else 0
        elif k == 5:
            for q in R.queues + R.stores + [r.requesters() for r in R.res]:
                it = iter(q)
                next(it, None)  # never finished
                q.as_set(), q.as_list(), q[:], q[::-1], q.arrival_rate(), q.departure_rate(), q.all_monitors()
        elif k == 6:
            e = R.env
            e.peek(), e.now(), e.t(), e.current_component(), e.main(), e.trace(), e.datetime0(), e.get_time_unit(), e.speed(), e.animate(), e.paused(), e.synced()
            for c in R.comps:
                if c is not None:
                    c.queues(), c.count(), c.status(), c.creation_time(), c.running_process(), c.lineno_txt() if c.status() != "data" else 0
        else:
            for x in R.res + R.states + R.queues + R.stores:
                x.print_info(as_str=True), x.print_statistics(as_str=True), x.print_histograms(as_str=True)


class Helper:
    """a process with another hash seed"""

    def __init__(self):
        env = dict(os.environ, PYTHONHASHSEED="4711", VERIF_REPO=REPO)
        self.p = subprocess.Popen([sys.executable, "-B", os.path.join(VERIF, "check.py"), "--helper", "determ"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=VERIF)
        atexit.register(self.close)

    def ask(self, case):
        self.p.stdin.write(json.dumps(case) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("helper process ended")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def digest(obs):
    return [hashlib.blake2b(repr(e).encode(), digest_size=6).hexdigest() for e in obs]


def helper_main():
    out = sys.stdout
    sys.stdout = io.StringIO()
    while True:
        line = sys.stdin.readline()
        if not line:
            return 0
        obs, _ = execute(json.loads(line))
        out.write(json.dumps(digest(obs)) + "\n")
        out.flush()


class Determ(Kernel):
    chunk = 250

    def __init__(self, prop):
        super().__init__(prop)
        self.helper = None

    def gen(self, seed):
        r = random.Random("determ|" + str(seed))
        ch = lambda xs: xs[r.randrange(len(xs))]  # noqa: E731
        prog = kgen.generate("C22", seed)
        prog["seed"] = ch([1, 1234567, None, 77, r.randrange(1 << 30)])
        kinds = ["exp", "uni", "nor", "pdf", "poi", "tri", "int", "erl", "bet", "wei", "cdf", "str", "sum", "pd"]
        spec = dict(trace=r.random() < 0.25, dists=[[ch(kinds), ch([None, None, 1, 2, 3, 1 << 40])] for _ in range(6)])
        others = [kgen.generate(ch(["C01", "C04", "C09", "C11", "C15"]), "%s/o%d" % (seed, k)) for k in range(ch([1, 2]))]
        plan = {}
        n = 0
        for _ in range(ch([2, 4, 8, 12])):
            n += ch([1, 1, 2, 4, 8])
            a = ch(
                [
                    ["env", r.randrange(2), r.random() < 0.5, r.random() < 0.2],
                    ["env", r.randrange(2), r.random() < 0.5, False],
                    ["run", r.randrange(3), ch([1, 2, 5])],
                    ["run", r.randrange(3), ch([1, 2, 5])],
                    ["run", r.randrange(3), 20],
                    ["drop", r.randrange(3)],
                    ["gc"],
                    ["draw", r.randrange(5)],
                    ["seed", ch([1, None, "x"])],
                    ["yl", r.random() < 0.5],
                    ["plain", r.random() < 0.5],
                ]
            )
            plan.setdefault(str(n), []).append(a)
        return dict(prog=prog, spec=spec, others=others, plan=plan, default=r.random() < 0.5)

    def run(self, case):
        res = Result()
        stdout = sys.stdout
        sys.stdout = io.StringIO()
        try:
            self.seeding(res, case["prog"]["seed"], case["plan"])
            a, R = execute(case)
            res.events = len(a)
            res.simtime = R.env.now() if R.env.now() < 1e9 else 0
            res.sig = sig([e[:-1] for e in R.log])
            res.nontrivial = len(R.log) >= 8
            if any(e[0] == "exception" for e in a):
                res.probes["exception"] += 1
                e = [e for e in a if e[0] == "exception"][0]
                res.probes["exception:" + short(e, 60)] += 1
            b, _ = execute(case)
            self.same(res, a, b, "run again in the same interpreter")
            d = Disturb(case, res)
            c, _ = execute(case, case["default"], d)
            self.same(res, a, c, "with other environments and activities")
        finally:
            sys.stdout = stdout
        if res.violation is None:
            if self.helper is None:
                self.helper = Helper()
            h = self.helper.ask(case)
            res.faults["hash-seed"] += 1
            x = digest(a)
            if h != x:
                i = next((i for i, (p, q) in enumerate(zip(x, h)) if p != q), min(len(x), len(h)))
                res.fail("hash-seed", "observation %d differs in a process with another hash seed: %s" % (i, short(a[i][:-1] if i < len(a) else None)))
        return res

    def seeding(self, res, seed, plan):
        """a seed determines the stream, whatever was drawn before; no seed leaves it; other streams are separate"""
        random.seed("before%s" % sorted(plan))
        ref = random.Random(1234567 if seed is None else seed).getstate()
        sim.Environment(random_seed=seed, isdefault_env=False)
        if random.getstate() != ref:
            res.fail("seeding", "Environment(random_seed=%r) did not seed the default stream" % (seed,))
        env = sim.Environment(random_seed="", isdefault_env=False)
        st = sim.Random(9)
        sim.random_seed(seed, randomstream=st, set_numpy_random_seed=False)
        sim.Normal(0, 1, randomstream=st, env=env).sample()
        if random.getstate() != ref:
            res.fail("seeding", "the default stream changed by an environment without seed, or by another stream")
        sim.random_seed(seed, randomstream=st, set_numpy_random_seed=False)
        if st.getstate() != ref:
            res.fail("seeding", "random_seed(%r) did not seed the given stream" % (seed,))
        random.random()
        sim.random_seed(seed)
        if random.getstate() != ref:
            res.fail("seeding", "random_seed(%r) did not seed the default stream" % (seed,))
        if numpy is not None:
            x = sim.External(numpy.random.exponential, 2, env=env)
            y = sim.External(numpy.random.uniform, 1, 2, size=3, env=env)
            for sd in (seed, "s%s" % seed, -5 - len(plan), 2.5):
                a = []
                for k in range(2):
                    numpy.random.seed(k)
                    sim.random_seed(sd)
                    a.append([x.sample(), y.sample(), y.sample(), y.sample(), x.sample()])
                    sim.random_seed(7, randomstream=st, set_numpy_random_seed=False)
                    a[-1].append(x())
                if a[0] != a[1]:
                    res.fail("seeding", "samples of external distributions differ for seed %r: %s and %s" % (sd, a[0], a[1]))

    def same(self, res, a, b, label):
        if a == b:
            return
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y and isinstance(x[-1], str) and isinstance(y[-1], str) and "\n" in x[-1]:
                u, v = x[-1].splitlines(), y[-1].splitlines()
                for j, (p, q) in enumerate(zip(u + [None], v + [None])):
                    if p != q:
                        res.fail("determinism", "%s: observation %d: %s: line %d: %s became %s" % (label, i, short(x[:-1], 60), j, short(p, 80), short(q, 80)))
                        return
            if x != y:
                break
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                if x[:-1] != y[:-1] or not isinstance(x[-1], tuple):
                    res.fail("determinism", "%s: observation %d: %s became %s" % (label, i, short(x[:-1] if x[:-1] != y[:-1] else x, 100), short(y[:-1] if x[:-1] != y[:-1] else y, 100)))
                else:
                    from .kengine import describe

                    res.fail("determinism", "%s: observation %d: %s" % (label, i, describe(x, y)[1]))
                return
        res.fail("determinism", "%s: %d observations became %d" % (label, len(a), len(b)))

    def shrinks(self, case):
        for k in sorted(case["plan"], key=int):
            c = copy.deepcopy(case)
            del c["plan"][k]
            yield c
        if case["spec"]["trace"]:
            c = copy.deepcopy(case)
            c["spec"]["trace"] = False
            yield c
        for o in range(len(case["others"])):
            if len(case["others"]) > 1:
                c = copy.deepcopy(case)
                del c["others"][o]
                yield c
        for p in super().shrinks(case["prog"]):
            yield dict(copy.deepcopy(case), prog=p)
        for o in range(len(case["others"])):
            for p in super().shrinks(case["others"][o]):
                c = copy.deepcopy(case)
                c["others"][o] = p
                yield c


class Observe(Determ):
    """C27: the model with and without trace switching and inspections"""

    def gen(self, seed):
        case = super().gen(seed)
        P = case["prog"]  # what it prints itself would show the trace setting
        P["main"] = [o for o in P["main"] if o[0] != "txt"]
        for c in P["comps"]:
            c["scripts"] = [[o for o in s if o[0] != "txt"] for s in c["scripts"]]
        r = random.Random("observe|" + str(seed))
        plan = {}
        n = 0
        for _ in range([2, 4, 8, 16][r.randrange(4)]):
            n += [1, 1, 2, 3, 5][r.randrange(5)]
            k = ["trace", "trace", "lines", "stby", "comp", "block", "look", "look", "look"][r.randrange(9)]
            a = [k, r.randrange(8), r.random() < 0.5]
            if k == "trace":
                a[1] %= 4
            if k in ("lines", "stby", "comp"):
                a[1] %= 2
            plan.setdefault(str(n), []).append(a)
        return dict(prog=case["prog"], spec=dict(case["spec"], trace=r.random() < 0.3), others=[], plan=plan, default=True)

    def run(self, case):
        res = Result()
        stdout = sys.stdout
        sys.stdout = io.StringIO()
        try:
            a, R = execute(dict(case, spec=dict(case["spec"], trace=False)))
            res.events = len(a)
            res.simtime = R.env.now() if R.env.now() < 1e9 else 0
            res.sig = sig([e[:-1] for e in R.log])
            res.nontrivial = len(R.log) >= 8
            w = Watch(case, res)
            b, _ = execute(case, True, w)
        finally:
            sys.stdout = stdout
        if w.wrong:
            res.fail("observation", w.wrong)
        self.same(res, [e for e in a if e[0] != "trace"], [e for e in b if e[0] != "trace"], "with trace and inspections")
        return res
