"""Engine "names" (C34): objects made, renamed and registered by processes of several environments, against a counter model."""
import copy
import gc
import random

from .load import sim
from .runner import Result, sig


class Oops(Exception):
    """injected"""


def mk(base, *names):
    return [type(n, (base,), dict(setup=setup)) for n in names]


def setup(self, nest=None, boom=False, **kw):
    self.made_in_setup = nest() if nest else None
    if boom:
        raise Oops()


CLASSES = dict(
    component=[sim.Component] + mk(sim.Component, "Car", "BigTruck"),
    queue=[sim.Queue] + mk(sim.Queue, "Line", "Car"),
    store=[sim.Store] + mk(sim.Store, "Depot"),
    resource=[sim.Resource] + mk(sim.Resource, "Clerk"),
    state=[sim.State] + mk(sim.State, "Light"),
    monitor=[sim.Monitor] + mk(sim.Monitor, "Gauge"),
)
COUNTER = dict(component="component", queue="queue", store="queue", resource="resource", state="state", monitor="monitor")
NAMES = [None, None, None, "", ".", ",", "car.", "car.", "car,", "x", "x.y", "line.", "a b.", "z,", "longer name,"]
NEWNAMES = ["renamed", "other.", "q,", "car.0", "a b"]


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def ch(self, xs):
        return xs[self.r.randrange(len(xs))]

    def p(self, x):
        return self.r.random() < x

    def make(self, depth=0):
        kind = self.ch(["component", "component", "component", "queue", "queue", "store", "resource", "state", "monitor"])
        o = dict(op="make", kind=kind, cls=self.r.randrange(3), name=self.ch(NAMES), env=self.ch([0, 0, 1]), how=self.ch(["env", "env", "default"]))
        if depth < 2 and self.p(0.12):
            o["nest"] = self.make(depth + 1)
        if self.p(0.08):
            o["boom"] = True
        return o

    def op(self):
        z = self.r.random()
        if z < 0.5:
            return self.make()
        if z < 0.62:
            return dict(op="rename", obj=self.r.randrange(30), name=self.ch(NEWNAMES), chain=self.p(0.3))
        if z < 0.76:
            return dict(op="register", obj=self.r.randrange(30), reg=self.r.randrange(3))
        if z < 0.86:
            return dict(op="deregister", obj=self.r.randrange(30), reg=self.r.randrange(3))
        if z < 0.9:
            return dict(op="fill", obj=self.r.randrange(30), member=self.r.randrange(30))
        if z < 0.93:
            return dict(op="newenv", name=self.ch([None, "env.", "spare"]), default=self.p(0.3))
        if z < 0.96:
            return dict(op="gen", name=self.ch(NAMES), cls=self.r.randrange(3), n=self.ch([1, 2, 3]), env=self.ch([0, 1]))
        return dict(op=self.ch(["gc", "oops", "freeze"]), obj=self.r.randrange(30))

    def case(self):
        procs = []
        for _ in range(self.ch([1, 2, 3])):
            procs.append(dict(env=self.r.randrange(2), ops=[dict(self.op(), dt=self.ch([0, 0, 0.5, 1, 2])) for _ in range(self.ch([2, 4, 6, 8]))]))
        main = []
        for _ in range(self.ch([2, 3, 4, 5])):
            if self.p(0.5):
                main.append(dict(op="run", env=self.r.randrange(2), d=self.ch([0, 0.5, 1, 3])))
            else:
                main.append(self.op())
        main += [dict(op="run", env=0, d=20), dict(op="run", env=1, d=20)]
        return dict(yieldless=self.p(0.7), procs=procs, main=main)


class Rec:
    """what is expected of one object"""

    def __init__(self, obj, kind, name, base, seq):
        self.obj, self.kind, self.name, self.base, self.seq = obj, kind, name, base, seq


class Run:
    def __init__(self, case, res):
        self.case, self.res = case, res
        self.events = []
        self.bad = None
        sim.yieldless(case["yieldless"])
        self.envs = [sim.Environment(name="one", isdefault_env=True, yieldless=case["yieldless"]), sim.Environment(name="two", isdefault_env=False, yieldless=case["yieldless"])]
        self.default = 0
        self.extra_default = None
        self.count = [{}, {}]
        self.recs = []
        self.regs = [[], [], []]
        self.mregs = [[], [], []]
        self.envnames = set()
        self.spare = []
        run = self

        class Actor(sim.Component):
            def setup(self, ops):
                self.ops = ops

            if case["yieldless"]:

                def process(self):
                    for o in self.ops:
                        self.hold(o["dt"])
                        run.do(o)
            else:

                def process(self):
                    for o in self.ops:
                        yield self.hold(o["dt"])
                        run.do(o)

        for i, p in enumerate(case["procs"]):
            a = Actor(name="actor%d" % i, ops=p["ops"], env=self.envs[p["env"]])
            self.note(a, "component", "actor%d" % i, p["env"])

    def expected(self, kind, cls, name, env):
        if name is None or name == "":
            name = cls.__name__.lower() + "."
        elif name in (".", ","):
            name = cls.__name__.lower() + name
        if name[-1] in ".,":
            c = self.count[env]
            key = (COUNTER[kind], name)
            c[key] = c[key] + 1 if key in c else (1 if name[-1] == "," else 0)
            return name[:-1] + ".%d" % c[key], name, c[key]
        return name, name, 1

    def note(self, obj, kind, name, env):
        n, b, s = self.expected(kind, type(obj), name, env)
        self.recs.append(Rec(obj, kind, n, b, s))
        return self.recs[-1]

    def make(self, o):
        kind = o["kind"]
        clss = CLASSES[kind]
        cls = clss[o["cls"] % len(clss)]
        custom = cls is not clss[0]
        kw = {}
        env = o["env"]
        if o["how"] == "default":
            if self.extra_default is not None:
                return "skip"
            env = self.default
        else:
            kw["env"] = self.envs[env]
        if o["name"] is not None:
            kw["name"] = o["name"]
        nested = []
        if custom and o.get("nest"):
            kw["nest"] = lambda: nested.append(self.make(o["nest"]))
        if custom and o.get("boom"):
            kw["boom"] = True
        exp = self.expected(kind, cls, o["name"], env)  # counted first: what is made in setup comes later
        try:
            obj = cls(**kw)
        except Oops:
            self.res.faults["setup-raises"] += 1
            return "oops"
        if custom and o.get("nest"):
            self.res.probes["made-in-setup"] += 1
        self.recs.append(Rec(obj, kind, *exp))
        if obj.env is not self.envs[env]:
            self.fail("%s was made in another environment" % obj.name())
        return "ok"

    def fail(self, m):
        if self.bad is None:
            self.bad = m

    def pick(self, o, kinds=None):
        recs = [r for r in self.recs if kinds is None or r.kind in kinds]
        return recs[o["obj"] % len(recs)] if recs else None

    def do(self, o):
        k = o["op"]
        out = "ok"
        if k == "make":
            out = self.make(o)
        elif k == "rename":
            r = self.pick(o)
            if r is None:
                return
            if o["chain"] and r.kind in ("queue", "store", "monitor"):
                if r.obj.rename(o["name"]) is not r.obj:
                    self.fail("rename does not return the object")
            elif r.obj.name(o["name"]) != o["name"]:
                self.fail("name(value) does not return the new name")
            r.name = o["name"]
        elif k in ("register", "deregister"):
            r = self.pick(o)
            if r is None:
                return
            reg, mreg = self.regs[o["reg"]], self.mregs[o["reg"]]
            if any(x.kind != r.kind and "monitor" in (x.kind, r.kind) for x in mreg) or any(x.kind != r.kind and {x.kind, r.kind} - {"queue", "store"} for x in mreg):
                return  # registries are of one kind
            ok = (r not in mreg) if k == "register" else (r in mreg)
            try:
                if getattr(r.obj, k)(reg) is not r.obj:
                    self.fail("%s does not return the object" % k)
                out = "ok"
            except ValueError:
                out = "ValueError"
                self.res.faults["refused:" + k] += 1
            if out != ("ok" if ok else "ValueError"):
                self.fail("%s of %s expected %s, got %s" % (k, r.name, "ok" if ok else "ValueError", out))
            if ok:
                mreg.append(r) if k == "register" else mreg.remove(r)
        elif k == "fill":
            q = self.pick(o, ("queue",))
            c = self.pick(dict(obj=o["member"]), ("component",))
            if q is None or c is None or q.obj.env is not c.obj.env or c.obj in q.obj:
                return
            c.obj.enter(q.obj)
        elif k == "newenv":
            e = sim.Environment(name=o["name"], isdefault_env=o["default"], yieldless=self.case["yieldless"])
            self.res.faults["other-environment"] += 1
            if o["default"]:
                self.extra_default = e
            self.spare.append(e)
            for kind in ("component", "queue"):
                n = CLASSES[kind][1](env=e).name()
                if n != CLASSES[kind][1].__name__.lower() + ".0":
                    self.fail("the first object of a new environment is named %s" % n)
            if o["name"] == "env.":
                if e.name() in self.envnames:
                    self.fail("two environments are named %s" % e.name())
                self.envnames.add(e.name())
        elif k == "gen":
            cls = CLASSES["component"][o["cls"] % 3]
            run = self
            n, b, s = self.expected("component", sim.ComponentGenerator, None, o["env"])

            def factory(**kw):
                c = cls(**dict(kw, **({} if o["name"] is None else dict(name=o["name"]))))
                run.note(c, "component", o["name"], o["env"])
                return c

            g = sim.ComponentGenerator(factory, iat=1, number=o["n"], env=self.envs[o["env"]])
            # its name is that of the class of components it makes or its own; it only has to be unique
            self.unexpect(n, b, s, g, o["env"])
        elif k == "freeze":
            r = self.pick(o, ("monitor",))
            if r is not None:
                r.obj.freeze()
        elif k == "gc":
            gc.collect()
        elif k == "oops":
            self.res.faults["process-crash"] += 1
            self.events.append((k, out))
            raise Oops()
        self.events.append((k, out))
        self.verify(k)

    def unexpect(self, n, b, s, g, env):
        c = self.count[env]
        key = ("component", b)
        if g.base_name() != b:  # named after something else
            c[key] -= 1
            if c[key] < (1 if b[-1] == "," else 0):
                del c[key]
            b = g.base_name()
            if b[-1] in ".,":
                key = ("component", b)
                c[key] = c[key] + 1 if key in c else (1 if b[-1] == "," else 0)
                n, s = b[:-1] + ".%d" % c[key], c[key]
        self.recs.append(Rec(g, "component", n, b, s))

    def verify(self, after):
        for r in self.recs:
            act = (r.obj.name(), r.obj.base_name(), r.obj.sequence_number())
            if act != (r.name, r.base, r.seq):
                self.fail("after %s: (name, base_name, sequence_number) of a %s expected %s, got %s" % (after, r.kind, (r.name, r.base, r.seq), act))
            if r.name not in repr(r.obj) or r.kind != "monitor" and r.name not in r.obj.print_info(as_str=True):
                self.fail("after %s: %s is shown as %r" % (after, r.name, repr(r.obj)))
            for m in derived(r):
                if not m.name().endswith(" " + r.name):
                    self.fail("after %s: %r belongs to %s" % (after, m.name(), r.name))
        for reg, mreg in zip(self.regs, self.mregs):
            if [id(x) for x in reg] != [id(r.obj) for r in mreg]:
                self.fail("after %s: registry expected %s, got %s" % (after, [r.name for r in mreg], [x.name() for x in reg]))

    def run(self):
        for o in self.case["main"]:
            if o["op"] == "run":
                try:
                    self.envs[o["env"]].run(o["d"])
                except Oops:
                    pass
                self.events.append(("run", self.envs[o["env"]].now()))
                self.verify("run")
            else:
                try:
                    self.do(o)
                except Oops:
                    pass
            if self.bad:
                return


def derived(r):
    x = r.obj
    if r.kind in ("queue", "store"):
        return [x.length, x.length_of_stay, x.capacity, x.available_quantity]
    if r.kind == "resource":
        return [x.requesters(), x.claimers(), x.capacity, x.claimed_quantity, x.available_quantity, x.occupancy]
    if r.kind == "state":
        return [x.waiters(), x.value]
    return []


class Names:
    def __init__(self, prop):
        self.prop = prop

    def gen(self, seed):
        return G(seed).case()

    def run(self, case):
        res = Result()
        R = Run(case, res)
        try:
            R.run()
        except Exception as e:
            res.fail("exception", "%s: %s" % (type(e).__name__, str(e)[:200]))
        if R.bad:
            res.fail("names", R.bad)
        for k, _ in R.events:
            res.faults["op:" + k] += 1
        res.events = len(R.events)
        res.simtime = sum(e.now() for e in R.envs)
        res.sig = sig([R.events, [(r.kind, r.name) for r in R.recs]])
        res.nontrivial = len(R.events) >= 6
        return res

    def shrinks(self, case):
        for i in range(len(case["procs"])):
            c = copy.deepcopy(case)
            del c["procs"][i]
            yield c
        for i in range(len(case["main"]) - 1, -1, -1):
            c = copy.deepcopy(case)
            del c["main"][i]
            yield c
        for i, p in enumerate(case["procs"]):
            for j in range(len(p["ops"]) - 1, -1, -1):
                c = copy.deepcopy(case)
                del c["procs"][i]["ops"][j]
                yield c
