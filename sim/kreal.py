"""Executes a program (see kgen.py) on the real salabim and logs what is observable through its public interface."""
import gc
import io

from . import kviews
from .load import sim
from .kmodel import DOMS, PI, TARGETED, Boom

INF = float("inf")
PROCS = {"process": 0, "process_yield": 0, "p1": 1, "p2": 2, None: None}
PNAMES = ["process", "p1", "p2"]


BOOMS = [Boom] + [type("Boom" + t.__name__, (Boom, t), {}) for t in (ValueError, StopIteration, KeyError, RuntimeError, AttributeError, IndexError, TypeError, StopIteration)]


class KBase(sim.Component):
    def setup(self, kid, ex):
        self.kid = kid
        self.ex = ex
        self._lastfrom = False


class Item(sim.Component):
    def setup(self, kid):
        self.kid = kid


class KL(KBase):  # yieldless
    def process(self, arg=None):
        self.interp(0, arg)

    def p1(self, arg=None):
        self.interp(1, arg)

    def p2(self, arg=None):
        self.interp(2, arg)

    def interp(self, si, arg=None):
        ex = self.ex
        script = ex.prog["comps"][self.kid]["scripts"][si]
        ex.emit("in", self.kid, si, 0, arg)
        pc = 0
        while True:
            if pc >= len(script) or ex.budget <= 0:
                ex.emit("end", self.kid)
                return
            ex.budget -= 1
            op = script[pc]
            pc += 1
            try:
                out = ex.exec(self, op)
            except Boom:
                ex.emit("crash", self.kid)
                raise
            if out == "crash":
                ex.emit("crash", self.kid)
                raise ex.boom()
            if out is None:
                ex.emit("in", self.kid, si, pc, None)
            elif type(out) is Ret:
                ex.emit("in", self.kid, si, pc, out.v)
            else:
                ex.emit("op", self.kid, op[0], out)


class KE(sim.Event):  # the action is a script without process interaction of its own
    def setup(self, kid, ex):
        self.kid = kid
        self.ex = ex

    interp = KL.interp


class KN(KBase):  # an ordinary method as process, where others have yields
    taken = False

    restarted = False  # without arguments

    def process(self, extra=None):
        if extra != (None if self.restarted else (self.kid, "x")):
            self.ex.emit("extra", self.kid, extra)
        self.interp(0)
        self.taken = True

    def action_taken(self):
        return self.taken

    interp = KL.interp


class KY(KBase):  # with yields
    def process(self, arg=None):
        yield from self.interp(0, arg)

    def p1(self, arg=None):
        yield from self.interp(1, arg)

    def p2(self, arg=None):
        yield from self.interp(2, arg)

    def interp(self, si, arg=None):
        ex = self.ex
        script = ex.prog["comps"][self.kid]["scripts"][si]
        ex.emit("in", self.kid, si, 0, arg)
        pc = 0
        while True:
            if pc >= len(script) or ex.budget <= 0:
                ex.emit("end", self.kid)
                return
            ex.budget -= 1
            op = script[pc]
            pc += 1
            try:
                out = ex.exec(self, op)
            except Boom:
                ex.emit("crash", self.kid)
                raise
            if out == "crash":
                ex.emit("crash", self.kid)
                raise ex.boom()
            if out is None or type(out) is Ret:
                v = yield
                ex.emit("in", self.kid, si, pc, ex.uid(v) if op[0] == "from" else None)
            else:
                ex.emit("op", self.kid, op[0], out)


def nd(_defaults=(("priority", 0), ("urgent", False), ("mode", None), ("all", False), ("process", None), ("at", None), ("delay", None)), **kw):
    """arguments equal to their documented default are left out of the call, so that the defaults are under test as well"""
    for k, v in _defaults:
        if k in kw and type(kw[k]) is type(v) and kw[k] == v:
            del kw[k]
    return kw


RES_DEFAULTS = (("capacity", 1), ("anonymous", False), ("preemptive", False), ("honor_only_first", False), ("honor_only_highest_priority", False), ("initial_claimed_quantity", 0))
QUE_DEFAULTS = (("capacity", float("inf")),)
STA_DEFAULTS = (("value", False),)
NEW_DEFAULTS = (("priority", 0), ("urgent", False), ("at", None), ("delay", None), ("skip_standby", False), ("suppress_trace", False), ("process", "process"))


class Ret:
    def __init__(self, v):
        self.v = v


class Real:
    booms = BOOMS

    def __init__(self, prog, opts=None):
        self.opts = opts = opts or {}
        self.prog = P = prog
        self.log = []
        self.nboom = 0
        self.any_process = False
        self.last_boom = None
        self.views = None
        self.budget = P.get("budget", 300)
        self.dec = P.get("dec")
        self.yl = P.get("yieldless", True)
        sim.yieldless(self.yl)
        self.trace_out = self.make_trace()
        kw = {}
        if opts.get("env_kw"):
            kw.update(opts["env_kw"])
        self.env = sim.Environment(trace=self.trace_out, yieldless=self.yl, random_seed=P.get("seed", 1), isdefault_env=opts.get("default", True), **kw)
        env = self.env
        self.in_run = False
        self.K = KL if self.yl else KY
        self.res = []
        for r in P.get("res", []):
            self.res.append(
                sim.Resource(
                    env=env,
                    **nd(
                        RES_DEFAULTS,
                        capacity=self.qi(r["cap"]),
                        anonymous=r.get("anon", False),
                        preemptive=r.get("pre", False),
                        honor_only_first=r.get("hof", False),
                        honor_only_highest_priority=r.get("hhp", False),
                        initial_claimed_quantity=self.qi(r.get("init", 0)),
                    ),
                )
            )
        self.doms = [DOMS[s.get("dom", "int")] for s in P.get("states", [])]
        self.states = [sim.State(env=env, **nd(STA_DEFAULTS, value=d[s["value"] % len(d)])) for s, d in zip(P.get("states", []), self.doms)]
        self.nitems = 0
        self.stores = []
        for i, s in enumerate(P.get("stores", [])):
            items = [self.new_item() for _ in range(s.get("fill", 0))]
            kw = nd(QUE_DEFAULTS, capacity=s["cap"])
            if items and len(items) % 2:
                kw["fill"] = items
                items = []
            self.stores.append(sim.Store(name="st.", env=env, **kw))
            for it in items:
                it.enter(self.stores[i])
        self.queues = [sim.Queue(env=env, **nd(QUE_DEFAULTS, capacity=q["cap"])) for q in P.get("queues", [])]
        self.iters = {}
        self.members = [Item(kid=("m", i), env=env) for i in range(P.get("nmembers", 0))]
        self.comps = [None] * len(P["comps"])
        for i, c in enumerate(P["comps"]):
            if not c.get("late"):
                self.create(i)

    def make_trace(self):
        return io.StringIO() if self.opts.get("trace") else False

    def new_item(self):
        it = Item(kid=("i", self.nitems), env=self.env)
        self.nitems += 1
        return it

    def create(self, i):
        spec = self.prog["comps"][i]
        if spec.get("start") is None:
            self.comps[i] = self.K(kid=i, ex=self, process="", skip_standby=spec.get("skip", False), env=self.env)
            self.mute(i, spec)
            return
        kw = {}
        if spec.get("late"):
            kw["cap_now"] = True
        if spec.get("event"):
            if spec.get("plain") and not self.yl and self.any_process and not any(o[0] == "crash" for o in spec["scripts"][0]):
                K = KN
                kw["extra"] = (i, "x")
            else:
                K = KE
                kw["action"] = act = lambda: self.comps[i].interp(0)
                if i % 4 == 1:  # the action is given later
                    kw["action"] = lambda: self.emit("former action", i)
        else:
            K = self.K
            kw["process"] = PNAMES[spec["start"]]
        kw.update(
            at=self.at(spec.get("at")),
            delay=self.dur(spec.get("delay")),
            priority=spec.get("prio", 0),
            urgent=spec.get("urgent", False),
            skip_standby=spec.get("skip", False),
            suppress_trace=spec.get("mute", False) and i % 2 == 0,
        )
        self.comps[i] = K(kid=i, ex=self, env=self.env, **nd(NEW_DEFAULTS, **kw))
        self.any_process = True
        if K is KE and i % 4 == 1:
            if self.comps[i].action(act) is not act or self.comps[i].action() is not act:
                self.emit("action", i)
        self.mute(i, spec)

    def mute(self, i, spec):
        c = self.comps[i]
        if spec.get("mute"):
            if c.suppress_trace() is False:
                c.suppress_trace(True)
        elif i % 3 == 0 and self.opts.get("trace"):
            c.suppress_trace(True)
            c.suppress_trace(False)

    def dur(self, v):  # notation of a duration
        return v

    def at(self, v):  # notation of a moment
        return v

    def uid(self, c):
        return None if c is None else c.kid

    def emit(self, *a):
        self.log.append(a + (self.snap(),))
        if self.views is None and not self.opts.get("noviews"):
            for what, exp, act in kviews.audit(self, len(self.log)):
                self.views = (len(self.log) - 1, a, what, exp, act)
                break

    def snap(self):
        comps = []
        stores = self.stores
        ridx = {id(r): i for i, r in enumerate(self.res)}
        sidx = {id(s): i for i, s in enumerate(stores)}
        sidx[id(None)] = None
        for c in self.comps:
            if c is None:
                comps.append(None)
                continue
            it = c.from_store_item()
            comps.append(
                (
                    c.status(),
                    c.scheduled_time(),
                    c.remaining_duration(),
                    c.interrupt_level(),
                    c.failed(),
                    tuple(sorted([(ridx[id(r)], self.qo(c.claimed_quantity(r))) for r in c.claimed_resources()])),
                    tuple(sorted([(ridx[id(r)], self.qo(c.requested_quantity(r))) for r in c.requested_resources()])),
                    c.mode(),
                    c.mode_time(),
                    c.scheduled_priority(),
                    PROCS[c.running_process()],
                    None if it is None else it.kid,
                    sidx[id(c.from_store_store())],
                    sidx[id(c.to_store_store())],
                )
            )

        def qv(q):
            # with open iterations, look without iterating, as an iteration of ours might hide a clash of theirs
            return tuple([(c.kid, c.priority(q), c.enter_time(q)) for c in (q[:] if self.iters else q)])

        res = []
        for r in self.res:
            rq = r.requesters()
            cq = r.claimers()
            res.append(
                (
                    self.qo(r.capacity()),
                    self.qo(r.claimed_quantity()),
                    self.qo(r.available_quantity()),
                    self.occ(r),
                    tuple([(c.kid, c.priority(rq), c.enter_time(rq), self.qo(c.requested_quantity(r))) for c in rq]),
                    tuple([(c.kid, c.priority(cq), c.enter_time(cq), self.qo(c.claimed_quantity(r))) for c in cq]),
                )
            )
        st = tuple([(s.get(), qv(s.waiters())) for s in self.states])
        sto = tuple([(s.capacity(), s.available_quantity(), qv(s), qv(s.from_store_requesters()), qv(s.to_store_requesters())) for s in stores])
        qs = tuple([(q.capacity(), q.available_quantity(), qv(q)) for q in self.queues])
        return (self.env.now(), tuple(comps), tuple(res), st, sto, qs)

    def qi(self, q):
        """quantity to be given: in decimal programs all quantities are a tenth, so that sums of them have rounding errors"""
        return q * self.dec if self.dec else q

    def qo(self, q):
        return round(q / self.dec, 6) if self.dec else q

    def occ(self, r):
        o = r.occupancy()
        if self.dec:
            c, q = self.qo(r.capacity()), self.qo(r.claimed_quantity())
            e = 0 if c <= 0 else q / c
            if abs(o - e) < 1e-6:
                return e
        return o

    def boom(self):
        """an exception that the model raises: of several types, as user code does"""
        self.nboom += 1
        self.last_boom = self.booms[(self.nboom + len(self.log)) % len(self.booms)]("boom %d" % self.nboom)
        return self.last_boom

    def is_boom(self, e):
        """is it the very exception that was raised last? (Python turns a StopIteration that leaves a generator into a RuntimeError)"""
        b = self.last_boom
        return e is b or (isinstance(b, StopIteration) and type(e) is RuntimeError and e.__cause__ is b)

    def filt(self, f):
        if f is None:
            return lambda c: True
        if len(f) > 2:

            def bad(c):
                if c.kid[1] % 4 == f[2]:
                    raise self.boom()
                return c.kid[1] % f[0] == f[1]

            return bad
        return lambda c: c.kid[1] % f[0] == f[1]

    def cond(self, s, kind, val, o):
        """the condition on a state as value, expression or function"""
        d = self.doms[s]
        if kind == "eq":
            return d[val % len(d)]
        if kind == "boom":

            def bad(t, comp, state):
                if t == d[val] if val < len(d) else False:
                    raise self.boom()
                return False

            return bad
        ok = tuple(d[:val]) if kind == "lt" else tuple(d[i] for i in val if i < len(d))
        e = o.get("expr")
        if not e:
            return lambda t, comp, state: t in ok and state is self.states[s] and comp.kid >= 0
        if e == 2:
            return "$ in %r and state.get() == $ and self.kid >= 0" % (ok,)
        if kind == "lt" and val < len(d) and isinstance(d[0], (int, float)):
            return "$ < %r" % (d[val],)
        return "$ in %r" % (ok,)

    def exec(self, c, op):
        try:
            return self.exec1(c, op)
        except Boom:
            raise
        except sim.QueueFullError:
            return "QueueFullError"
        except ValueError:
            return "ValueError"
        except IndexError:
            return "IndexError"

    def fail(self, o):
        kw = {}
        f = o.get("fail")
        if f is not None:
            if o.get("fat"):
                kw["fail_at"] = self.at(self.env.now() + f)
            else:
                kw["fail_delay"] = self.dur(f)
        if o.get("mode") is not None:
            kw["mode"] = o["mode"]
        if f is not None and f < 0:
            kw["cap_now"] = True
        if o.get("rp"):
            kw["request_priority"] = None if o["rp"] == "tail" else o["rp"]
        if "urgent" in o:
            kw["urgent"] = o["urgent"]
        return kw

    def exec1(self, c, op):
        n = op[0]
        env = self.env
        if n in PI or n in TARGETED:
            if op[1] is None:
                x = c
            else:
                x = self.comps[op[1]]
                if x is None or x.iscurrent():
                    return "skip"
            a = op[2:]
            if n == "hold":
                x.hold(self.dur(a[0]), **nd(priority=a[1], urgent=a[2], mode=a[3]))
            elif n == "holdtill":
                x.hold(till=self.at(env.now() + a[0]))
            elif n == "past":
                kw = {} if a[2] is None else dict(cap_now=a[2])
                if a[1]:
                    x.hold(till=self.at(env.now() - a[0]), **nd(priority=a[3], **kw))
                else:
                    x.hold(-a[0], **nd(priority=a[3], **kw))
            elif n == "skipset":
                x.skip_standby(a[0])
                return "ok"
            elif n == "holdint":
                x.hold(self.dur(a[0]), interrupted=a[1])
            elif n == "pass":
                x.passivate(**nd(mode=a[0]))
            elif n == "stby":
                x.standby()
            elif n == "cancel":
                x.cancel()
            elif n == "act":
                if type(x) is KN and x.isdata():
                    x.restarted = True
                delay, prio, urgent, proc, at, mode = a[:6]
                o = a[6] if len(a) > 6 else {}
                p = None if proc is None or isinstance(x, (sim.Event, KN)) else PNAMES[proc]
                kw = {}
                if p is not None and o.get("arg") is not None:
                    kw["arg"] = o["arg"]
                if o.get("kreq"):
                    kw["keep_request"] = True
                if o.get("kwait"):
                    kw["keep_wait"] = True
                if o.get("cap") is not None:
                    kw["cap_now"] = o["cap"]
                if o.get("past"):
                    delay = -o["past"]
                if at:
                    x.activate(at=self.at(env.now() + delay), **nd(priority=prio, urgent=urgent, process=p, mode=mode, **kw))
                elif delay == 0:
                    x.activate(**nd(priority=prio, urgent=urgent, process=p, mode=mode, **kw))
                else:
                    x.activate(delay=self.dur(delay), **nd(priority=prio, urgent=urgent, process=p, mode=mode, **kw))
            elif n in ("req", "get", "put"):
                specs = []
                for r, q, prio in a[0]:
                    R = self.res[r]
                    if R.ispreemptive() and (x.isclaiming(R) or c.isclaiming(R)):
                        return "skip"
                    specs.append((R, self.qi(q)) if prio is None else (R, self.qi(q), prio))
                    if q == 1 and prio is None and not self.dec:
                        specs[-1] = R
                o = a[1]
                kw = self.fail(o)
                if o.get("prio"):
                    kw["priority"] = o["prio"]
                if o.get("oneof"):
                    kw["oneof"] = True
                getattr(x, {"req": "request", "get": "get", "put": "put"}[n])(*specs, **kw)
            elif n == "wait":
                specs = []
                for s, kind, val, prio in a[0]:
                    S = self.states[s]
                    v = self.cond(s, kind, val, a[1])
                    specs.append((S, v) if prio is None else (S, v, prio))
                    if v is True and prio is None:
                        specs[-1] = S
                kw = self.fail(a[1])
                if a[1].get("prio"):
                    kw["priority"] = a[1]["prio"]
                if a[1].get("all"):
                    kw["all"] = True
                x.wait(*specs, **kw)
            elif n == "waitfor":
                ss = [self.states[s] for s in a[0]]
                kw = self.fail(a[2])
                boom = a[2].get("boom")

                def cond():
                    v = sum(self.doms[s].index(self.states[s].get()) for s in a[0])
                    if v == boom:
                        raise self.boom()
                    return v >= a[1]

                if a[2].get("prio"):
                    kw["priority"] = a[2]["prio"]
                x.wait_for(cond, states=ss, **kw)
            elif n == "from":
                ss = [self.stores[s] for s in a[0]]
                kw = self.fail(a[3])
                if a[3].get("prio"):
                    kw["fail_priority"] = a[3]["prio"]
                if a[1] is not None:
                    kw["filter"] = self.filt(a[1])
                if a[2] is not None:
                    kw["key"] = {"id": lambda c: c.kid[1], "-id": lambda c: -c.kid[1], "mod3": lambda c: c.kid[1] % 3}[a[2]]
                v = x.from_store(ss[0] if len(ss) == 1 else ss, **kw)
                if x is c:
                    return Ret(self.uid(v))
            elif n == "to":
                if x.isdata():
                    raise ValueError
                ss = [self.stores[s] for s in a[0]]
                kw = self.fail(a[2])
                if a[2].get("prio"):
                    kw["fail_priority"] = a[2]["prio"]
                x.to_store(ss[0] if len(ss) == 1 else ss, self.new_item(), **kw, **nd(priority=a[1]))
            elif n == "int":
                x.interrupt(**nd(mode=a[0]))
                return "ok"
            elif n == "res":
                x.resume(**nd(all=a[0], priority=a[1], urgent=a[2], mode=a[3] if len(a) > 3 else None))
                return "ok"
            elif n == "rd":
                if x.isdata():
                    return "skip"
                x.remaining_duration(a[0], **nd(priority=a[1], urgent=a[2]))
                return "ok"
            elif n == "mode":
                if len(a) > 1 and a[1]:
                    x.mode.value = a[0]
                else:
                    x.set_mode(a[0])
                return "ok"
            elif n == "rel":
                x.release(*[self.res[r] if q is None else (self.res[r], self.qi(q)) for r, q in a[0]])
                return "ok"
            elif n == "filter":
                x.filter(self.filt(a[0]))
                return "ok"
            return None if x is c else "ok"
        if n == "rrel":
            r = self.res[op[1]]
            r.release() if op[2] is None else r.release(self.qi(op[2]))
        elif n == "cap":
            if len(op) > 3 and op[3]:
                self.res[op[1]].capacity.value = self.qi(op[2])
            else:
                self.res[op[1]].set_capacity(self.qi(op[2]))
        elif n in ("sset", "sreset"):
            S, d = self.states[op[1]], self.doms[op[1]]
            v = d[op[2] % len(d)]
            if len(op) > 3 and op[3]:
                S.value.value = v
            elif n == "sset":
                S.set() if v is True else S.set(v)
            else:
                S.reset() if v is False else S.reset(v)
        elif n == "strig":
            kw = {}
            d = self.doms[op[1]]
            v = d[op[2] % len(d)]
            if op[3] is not None:
                kw["value_after"] = d[op[3] % len(d)]
            if op[4] is not None:
                kw["max"] = op[4]
            if v is not True:
                kw["value"] = v
            self.states[op[1]].trigger(**kw)
        elif n == "senter":
            self.new_item().enter(self.stores[op[1]], *([] if op[2] is None else [op[2]]))
        elif n == "spop":
            S = self.stores[op[1]]
            if len(S) <= op[2]:
                return "skip"
            return self.uid(S.pop(op[2]))
        elif n == "scap":
            self.stores[op[1]].set_capacity(op[2])
        elif n == "rescan":
            self.stores[op[1]].rescan()
        elif n == "crash":
            return "crash"
        elif n == "stop":
            if not self.in_run:
                return "skip"
            env.main().activate()
        elif n == "create":
            if self.comps[op[1]] is not None:
                return "skip"
            self.create(op[1])
        elif n == "rnow":
            env.reset_now(self.at(op[1]))
        elif n in ("mreset", "mon"):
            x = self.stat_owner(op[1], op[2])
            if n == "mon":
                x.monitor(op[3])
            elif op[3] is None:
                x.reset_monitors()
            else:
                x.reset_monitors(monitor=op[3])
        elif n == "rate":
            q = self.stat_owner(op[1], op[2])
            q.arrival_rate(reset=True) if op[3] else q.departure_rate(reset=True)
        elif n == "stat":
            x = self.stat_owner(op[1], op[2])
            m = x.claimed_quantity if op[1] == "res" else x.value if op[1] == "state" else x.length
            v = m.mean()
            return ("nan" if v != v else round(v, 9), round(m.duration(), 9))
        elif n == "trace":
            if self.opts.get("trace"):
                env.trace(self.trace_out if op[1] else False)
        elif n == "gc":
            if not self.opts.get("nogc"):
                gc.collect()
        elif n == "info":
            if not self.opts.get("noinfo"):
                self.info()
        elif n == "q":
            return self.qop(op[1:])
        elif n == "it":
            if op[1] == "open":
                q = self.queues[op[3]]
                self.iters[op[2]] = reversed(q) if op[4] else iter(q)
                return "ok"
            it = self.iters.get(op[2])
            if it is None:
                return "skip"
            try:
                return self.uid(next(it))
            except StopIteration:
                return "stop"
        else:
            raise AssertionError(n)
        return "ok"

    def stat_owner(self, kind, i):
        if kind == "q":
            return self.queues[i]
        if kind == "rq":
            return self.res[i].requesters()
        if kind == "cq":
            return self.res[i].claimers()
        if kind == "res":
            return self.res[i]
        if kind == "wq":
            return self.states[i].waiters()
        if kind == "state":
            return self.states[i]
        S = self.stores[i]
        return {"sq": S, "fq": S.from_store_requesters(), "tq": S.to_store_requesters()}[kind]

    def info(self):
        for c in self.comps:
            if c is not None:
                c.print_info(as_str=True)
        for x in self.res + self.states + self.queues + self.stores:
            x.print_info(as_str=True)
            x.print_statistics(as_str=True)
            x.print_histograms(as_str=True)
        self.env.print_info(as_str=True)

    def qop(self, a):
        n, q = a[0], self.queues[a[1]]
        M = self.members
        how = a[-1]
        if n == "enter":
            x, p = M[a[2]], a[3]
            if how == 0:
                x.enter(q) if p is None else x.enter(q, p)
            elif how == 1:
                q.add(x) if p is None else q.add(x, p)
            elif how == 2:
                q.append(x) if p is None else q.append(x, p)
            else:
                x.enter(q) if p is None else (x.enter_sorted(q, p) if how == 3 else q.add_sorted(x, p))
        elif n == "head":
            M[a[2]].enter_at_head(q) if how else q.add_at_head(M[a[2]])
        elif n == "front":
            M[a[2]].enter_in_front_of(q, M[a[3]]) if how else q.add_in_front_of(M[a[2]], M[a[3]])
        elif n == "behind":
            M[a[2]].enter_behind(q, M[a[3]]) if how else q.add_behind(M[a[2]], M[a[3]])
        elif n == "insert":
            q.insert(a[3], M[a[2]])
        elif n == "leave":
            M[a[2]].leave(q) if how else q.remove(M[a[2]])
        elif n == "leaveall":
            M[a[2]].leave()
        elif n == "prio":
            M[a[2]].priority(q, a[3])
        elif n == "pop":
            return ("pop", self.uid(q.pop() if a[2] is None else q.pop(a[2])))
        elif n == "clear":
            q.clear() if how else q.remove()
        elif n == "cap":
            if how:
                q.capacity.value = a[2]
            else:
                q.set_capacity(a[2])
        elif n == "extend":
            src = self.queues[a[2]]
            if src is q:
                return "skip"
            q.extend(src, clear_source=a[3])
        elif n == "del":
            del q[slice(*a[2])]
        elif n == "delint":
            del q[a[2]]
        elif n == "extendl":
            q.extend([M[k] for k in a[2]])
        elif n == "fill":
            r = sim.Queue(fill=[M[k] for k in a[2]], env=self.env) if how else sim.Queue(fill=(M[k] for k in a[2]), env=self.env, monitor=False)
            v = tuple([(c.kid, c.priority(r)) for c in r])
            r.clear()
            return v
        elif n == "cmp":
            b = self.queues[a[2]]
            return (q == b, q != b, q < b, q <= b, q > b, q >= b)
        elif n == "slice":
            return tuple([c.kid for c in q[slice(*a[2])]])
        elif n in ("union", "inter", "diff", "symdiff", "copy", "move"):
            b = self.queues[a[2]]
            if n == "union":
                r = q.union(b) if how == 0 else q | b if how == 1 else q + b if how == 2 else sum([q, b])
            elif n == "inter":
                r = q.intersection(b) if how % 2 else q & b
            elif n == "diff":
                r = q.difference(b) if how % 2 else q - b
            elif n == "symdiff":
                r = q.symmetric_difference(b) if how % 2 else q ^ b
            elif how % 2:
                cap = q.capacity()
                r = (q.copy if n == "copy" else q.move)("c", copy_capacity=True, monitor=True)
                if not (r.capacity() == cap == r.capacity.value == r.capacity.xt()[0][-1] and q.capacity() == cap and r.available_quantity() == cap - len(r) and r.length() == len(r)):
                    return ("capacity of the copy", cap, r.capacity(), r.capacity.xt()[0][-1])
            else:
                r = (q.copy if n == "copy" else q.move)()
                if r.capacity() != INF:
                    return ("capacity of the copy", r.capacity())
            v = tuple([(c.kid, c.priority(r)) if n in ("copy", "move") else c.kid for c in r])
            r.clear()
            return v
        return "ok"

    def run(self):
        for i, op in enumerate(self.prog["main"]):
            if self.budget <= 0:
                break
            self.run_op(i, op)
        return self.log

    def run_op(self, i, op):
        env = self.env
        n = op[0]
        if n in ("run", "till", "runall", "runinf"):
            out = "ok"
            self.in_run = True
            try:
                kw = {}
                if len(op) > 2 and op[2] is not None:
                    kw["priority"] = op[2]
                if len(op) > 3:
                    kw["urgent"] = op[3]
                if n == "run":
                    env.run(self.dur(op[1]), **kw)
                elif n == "till":
                    env.run(till=self.at(env.now() + op[1]), **kw)
                elif n == "runall":
                    env.run()
                else:
                    env.run(INF)
            except (Boom, RuntimeError) as e:
                if not self.is_boom(e):
                    raise
                out = "Boom"
            self.in_run = False
        elif n == "step":
            out = "ok"
            try:
                for _ in range(op[1]):
                    if not any(c is not None and not c.isstandby() and c.scheduled_time() < INF for c in self.comps):
                        break
                    env.step()
            except (Boom, RuntimeError) as e:
                if not self.is_boom(e):
                    raise
                out = "Boom"
        else:
            self.budget -= 1
            try:
                out = self.exec(env.main(), op)
            except (Boom, RuntimeError) as e:
                if not self.is_boom(e):
                    raise
                out = "Boom"
        self.emit("main", i, n, out)
