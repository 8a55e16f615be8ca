"""Engine "blocks" (C30): nested temporary settings, entered, suspended in and left by exceptions at drawn points."""
import copy
import io
import random
import sys

from .load import sim
from .runner import Result, sig

INF = float("inf")


class Oops(Exception):
    """injected"""


class Fail(Exception):
    """a check failed"""


class BadFile(io.StringIO):
    """a file on a full disk: flushing fails from some point on"""

    bad = False

    def flush(self):
        if self.bad:
            raise OSError(28, "No space left on device")


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def ch(self, xs):
        return xs[self.r.randrange(len(xs))]

    def p(self, x):
        return self.r.random() < x

    def block(self, depth, susp):
        k = self.ch(["strace", "strace", "cap", "cap", "over", "capture", "capture", "redirect"])
        n = dict(op="block", kind=k, body=self.body(depth + 1, susp))
        if k == "strace":
            n["env"] = self.r.randrange(2)
        elif k in ("cap", "over"):
            n["val"] = self.ch([True, True, False, None])
        elif k == "capture":
            n["print"] = self.p(0.5)
            n["early"] = self.p(0.3)
        else:
            n["print"] = self.p(0.5)
            n["badflush"] = self.p(0.3)
        return n

    def body(self, depth, susp):
        out = []
        for _ in range(self.ch([1, 2, 3, 4])):
            z = self.r.random()
            if z < 0.3 and depth < 4:
                out.append(self.block(depth, susp))
            elif z < 0.4 and depth < 4:
                out.append(dict(op="try", body=self.body(depth + 1, susp)))
            elif z < 0.5 and susp:
                out.append(dict(op="hold", d=self.ch([0, 0.5, 1])))
            elif z < 0.6:
                out.append(dict(op="raise"))
            elif z < 0.7:
                out.append(dict(op="set", what=self.ch(["trace0", "trace1", "cap", "over"]), val=self.p(0.5)))
            else:
                out.append(dict(op=self.ch(["print", "print", "past", "past", "draw", "traced", "flush", "look"])))
        return out

    def make(self):
        c = dict(yieldless=self.p(0.6), trace=[self.p(0.6), self.p(0.4)], lines=self.p(0.03))
        c["susp"] = [dict(at=self.ch([0, 0.5]), body=[self.block(0, True) for _ in range(self.ch([1, 2]))])]
        c["other"] = [dict(at=self.ch([0, 0.25, 0.5]), step=self.ch([0.25, 0.5]), body=[self.block(1, False) if self.p(0.5) else dict(op="look") for _ in range(self.ch([1, 2, 4]))]) for _ in range(self.ch([0, 1, 2]))]
        c["main"] = []
        for _ in range(self.ch([1, 2])):
            k = self.ch(["plain", "block"])
            if k == "plain":
                c["main"].append(dict(op="run", d=self.ch([1, 2, 5])))
            else:
                b = self.block(2, False)
                b["body"].insert(self.r.randrange(len(b["body"]) + 1), dict(op="run", d=self.ch([1, 2])))
                c["main"].append(b)
        # a run inside a main block must not be split over a suspended block of the process: run it to its end
        c["main"] = c["main"][:1] if not any(x["op"] == "block" for x in c["main"]) else c["main"]
        return c


class Ctx:
    """a real context manager and its mirror"""

    def __init__(self, ex, n):
        self.ex, self.n = ex, n
        k = n["kind"]
        self.early = sim.capture_stdout(include_print=n["print"]) if k == "capture" and n.get("early") else None

    def __enter__(self):
        ex, n = self.ex, self.n
        k = n["kind"]
        m = ex.m
        if k == "strace":
            self.cm = ex.envs[n["env"]].suppress_trace()
            self.cm.__enter__()
            self.key, new = "trace%d" % n["env"], False
        elif k in ("cap", "over"):
            f = sim.cap_now if k == "cap" else sim.over3d
            self.cm = f() if n["val"] is None else f(n["val"])
            self.cm.__enter__()
            self.key, new = k, True if n["val"] is None else n["val"]
        elif k == "capture":
            self.cm = self.early or sim.capture_stdout(include_print=n["print"])
            self.cm.__enter__()
            self.key, new = "out", ("capture", n["print"], m["out"])
        else:
            self.file = BadFile()
            self.cm = sim.redirect_stdout(self.file, include_print=n["print"])
            self.cm.__enter__()
            self.key, new = "out", ("redirect", n["print"], m["out"], self)
            self.text = ""
        self.saved = m[self.key]
        m[self.key] = new
        ex.depth += 1
        ex.look("entering " + k)

    def __exit__(self, *a):
        ex, n = self.ex, self.n
        if n["kind"] == "redirect" and n["badflush"]:
            self.file.bad = True
            ex.res.faults["flush-error"] += 1
        err = None
        try:
            swallowed = self.cm.__exit__(*a)
        except OSError as e:
            if n["kind"] != "redirect" or not n["badflush"]:
                raise
            err, swallowed = e, False
        ex.m[self.key] = self.saved
        ex.depth -= 1
        if a[0] is not None:
            ex.res.faults["left-by-exception:" + n["kind"]] += 1
        else:
            ex.res.faults["left-normally:" + n["kind"]] += 1
        if a[0] is Fail:
            return False
        if swallowed:
            ex.bad("the block %s swallowed an exception" % n["kind"])
        ex.look("leaving " + n["kind"] + (" by an exception" if a[0] else ""))
        if n["kind"] == "redirect" and self.file.getvalue() != self.text:
            ex.bad("redirected output is %r instead of %r" % (self.file.getvalue(), self.text))
        if err is not None:
            raise err
        return False


class L(sim.Component):
    def setup(self, ex, spec, susp):
        self.ex, self.spec, self.susp = ex, spec, susp

    def process(self):
        for n in self.spec["body"]:
            try:
                self.walk([n])
            except (Oops, OSError):
                pass
            if not self.susp:
                self.hold(self.spec["step"])

    def walk(self, body):
        for n in body:
            k = n["op"]
            if k == "block":
                with Ctx(self.ex, n):
                    self.walk(n["body"])
            elif k == "try":
                try:
                    self.walk(n["body"])
                except (Oops, OSError):
                    self.ex.look("an exception was caught")
            elif k == "hold":
                self.ex.suspended(1)
                self.hold(n["d"])
                self.ex.suspended(-1)
                self.ex.look("resumed in a block")
            else:
                self.ex.do(n)


class Y(sim.Component):
    setup = L.setup

    def process(self):
        for n in self.spec["body"]:
            try:
                yield from self.walk([n])
            except (Oops, OSError):
                pass
            if not self.susp:
                yield self.hold(self.spec["step"])

    def walk(self, body):
        for n in body:
            k = n["op"]
            if k == "block":
                with Ctx(self.ex, n):
                    yield from self.walk(n["body"])
            elif k == "try":
                try:
                    yield from self.walk(n["body"])
                except (Oops, OSError):
                    self.ex.look("an exception was caught")
            elif k == "hold":
                self.ex.suspended(1)
                yield self.hold(n["d"])
                self.ex.suspended(-1)
                self.ex.look("resumed in a block")
            else:
                self.ex.do(n)


class Idle(sim.Component):
    def process(self):
        pass


class Blocks:
    def __init__(self, prop):
        self.prop = prop

    def gen(self, seed):
        return G(seed).make()

    def run(self, case):
        self.res = res = Result()
        self.base = io.StringIO()
        old, oldcap, oldover = sys.stdout, sim.default_cap_now(), sim.default_over3d()
        self.hist = []
        try:
            sys.stdout = self.base
            sim.clear_captured_stdout()
            sim.default_cap_now(False)
            sim.default_over3d(False)
            self.body(case)
        except Fail:
            pass
        finally:
            sys.stdout = old
            sim.default_cap_now(oldcap)
            sim.default_over3d(oldover)
            sim.clear_captured_stdout()
        res.events = len(self.hist)
        res.simtime = self.envs[0].now()
        res.sig = sig(self.hist)
        res.nontrivial = len(self.hist) >= 4
        return res

    def body(self, case):
        yl = case["yieldless"]
        sim.yieldless(yl)
        self.files = [io.StringIO(), io.StringIO()]
        self.envs = [sim.Environment(trace=False, yieldless=yl, isdefault_env=(i == 0)) for i in range(2)]
        for e in self.envs:
            e.suppress_trace_linenumbers(not case["lines"])
        self.m = dict(trace0=None, trace1=None, cap=False, over=False, out=("base",))
        for i in range(2):
            v = self.files[i] if case["trace"][i] else False
            self.envs[i].trace(v)
            self.m["trace%d" % i] = v
        self.captured = ""
        self.basetext = ""
        self.depth = 0
        self.nsusp = 0
        self.now = None
        K = L if yl else Y
        env = self.envs[0]
        with_susp = True
        procs = [K(ex=self, spec=p, susp=True, at=p["at"], env=env) for p in case["susp"]]
        for p in case["other"]:
            K(ex=self, spec=p, susp=False, at=p["at"], env=env)
        del with_susp, procs
        env.run(0.125)
        for n in case["main"]:
            if n["op"] == "run":
                env.run(n["d"])
            elif self.nsusp == 0:
                # all processes have to be out of their blocks, to nest properly
                try:
                    self.main([n])
                except (Oops, OSError):
                    pass
            self.look("main")
        env.run()
        self.look("the end")
        if self.depth:
            self.bad("a block was not left")

    def main(self, body):
        for n in body:
            if n["op"] == "block":
                with Ctx(self, n):
                    self.main(n["body"])
            elif n["op"] == "try":
                try:
                    self.main(n["body"])
                except (Oops, OSError):
                    self.look("an exception was caught")
            elif n["op"] == "run":
                self.envs[0].run()  # to the end: no process is left suspended in a block
            else:
                self.do(n)

    def suspended(self, d):
        self.nsusp += d
        if d > 0:
            self.res.faults["suspended-in-block"] += 1

    def bad(self, msg):
        self.res.fail("setting", msg)
        raise Fail()

    def look(self, when):
        self.hist.append((when, self.envs[0].now()))
        m = self.m
        for i in range(2):
            if self.envs[i].trace() is not m["trace%d" % i]:
                self.bad("after %s: trace of environment %d is %r instead of %r" % (when, i, self.envs[i].trace(), m["trace%d" % i]))
        if sim.default_cap_now() is not m["cap"]:
            self.bad("after %s: default_cap_now is %r instead of %r" % (when, sim.default_cap_now(), m["cap"]))
        if sim.default_over3d() is not m["over"]:
            self.bad("after %s: default_over3d is %r instead of %r" % (when, sim.default_over3d(), m["over"]))
        if m["out"][0] == "base" and sys.stdout is not self.base:
            self.bad("after %s: stdout is not restored" % when)
        self.outs(when)

    def outs(self, when):
        if sim.captured_stdout_as_str() != self.captured:
            self.bad("after %s: captured output is %r instead of %r" % (when, sim.captured_stdout_as_str(), self.captured))
        if self.base.getvalue() != self.basetext:
            self.bad("after %s: printed output is %r instead of %r" % (when, self.base.getvalue(), self.basetext))

    def write(self, out, s):
        if out[0] == "base":
            self.basetext += s
            return
        if out[0] == "capture":
            self.captured += s
        else:
            out[3].text += s
        if out[1]:
            self.write(out[2], s)

    def do(self, n):
        k = n["op"]
        m = self.m
        if k == "raise":
            self.hist.append(("raise", self.envs[0].now()))
            raise Oops()
        if k == "set":
            w, v = n["what"], n["val"]
            if w == "cap":
                sim.default_cap_now(v)
            elif w == "over":
                sim.default_over3d(v)
            else:
                v = self.files[int(w[5])] if v else False
                self.envs[int(w[5])].trace(v)
            m[w] = v
        elif k == "print":
            print("line %d\n" % len(self.hist), end="")
            self.write(m["out"], "line %d\n" % len(self.hist))
        elif k == "flush":
            print("f", end="", flush=True)
            self.write(m["out"], "f")
        elif k == "past":
            env = self.envs[0]
            if env.now() <= 0:
                return
            for how in range(3):
                err = False
                try:
                    if how == 0:
                        c = Idle(at=env.now() - 0.125, env=env)
                    elif how == 1:
                        c = Idle(at=INF, env=env)
                        c.activate(at=env.now() - 0.125)
                    else:
                        c = Idle(at=INF, env=env)
                        c.hold(till=env.now() - 0.125)
                except ValueError:
                    err = True
                if err is m["cap"]:
                    self.bad("a time in the past is %s with default_cap_now %s" % ("refused" if err else "accepted", m["cap"]))
                if not err:
                    if c.scheduled_time() != env.now():
                        self.bad("a time in the past is scheduled at %r instead of now" % c.scheduled_time())
                    c.cancel()
            c = Idle(at=env.now() - 0.125, cap_now=True, env=env)
            c.cancel()
        elif k == "draw":
            for C in (sim.AnimateText, sim.AnimateRectangle, sim.AnimateLine):
                an = C(env=self.envs[0])
                o = an.over3d
                an.remove()
                if o is not m["over"]:
                    self.bad("an animation object has over3d %r instead of %r" % (o, m["over"]))
        elif k == "traced":
            for i in range(2):
                n0 = len(self.files[i].getvalue())
                sim.Queue(env=self.envs[i])
                wrote = len(self.files[i].getvalue()) > n0
                if wrote != bool(m["trace%d" % i]):
                    self.bad("environment %d %s although the trace should be %s" % (i, "traces" if wrote else "does not trace", "on" if m["trace%d" % i] else "off"))
        self.look(k)

    def shrinks(self, case):
        def cuts(body):
            for i in range(len(body)):
                yield body[:i] + body[i + 1:]
                if "body" in body[i]:
                    yield body[:i] + body[i]["body"] + body[i + 1:] if body[i]["op"] != "run" else body
                    for b in cuts(body[i]["body"]):
                        yield body[:i] + [dict(body[i], body=b)] + body[i + 1:]

        for key in ("main", "other"):
            for i in range(len(case[key])):
                c = copy.deepcopy(case)
                del c[key][i]
                yield c
        for key in ("susp", "other"):
            for i, p in enumerate(case[key]):
                for b in cuts(p["body"]):
                    c = copy.deepcopy(case)
                    c[key][i]["body"] = b
                    yield c
        for i, p in enumerate(case["main"]):
            if "body" in p:
                for b in cuts(p["body"]):
                    c = copy.deepcopy(case)
                    c["main"][i]["body"] = b
                    yield c
