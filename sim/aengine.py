"""Engine "anim" (C28): a program of the kernel engine, animated under a simulated window system and wall clock.

The history has to be that of the reference model, which knows no animation. tkinter, ImageTk and
the clock are simulated: every frame (canvas.update) the simulated user and the simulated wall
clock do what the case says.
"""
import contextlib
import copy
import io
import json
import os
import random
import shutil
import sys
import tempfile
import types

import PIL

from . import kgen, kmodel, kreal, kstats
from .kengine import Kernel, compare_logs, short
from .runner import Hang, Result
from .load import sim

S = sys.modules[sim.Environment.__module__]
INF = float("inf")
FRAME_LIMIT = 3000


class TclError(Exception):
    pass


class W:
    """the window system: windows, pending callbacks and one user"""

    def __init__(self, clock, frame):
        self.clock = clock
        self.frame = frame  # called at each canvas.update
        self.roots = []
        self.after = []
        self.quit = False
        self.buttons = []
        self.errors = []

    def call(self, f, *args):
        """a callback, with tkinter's treatment of exceptions"""
        try:
            f(*args)
        except (SystemExit, Hang, Broken):
            raise
        except Exception as e:
            self.errors.append("%s: %s" % (type(e).__name__, short(str(e))))


class Broken(BaseException):
    """a bounded-progress rule was broken: ends the run"""


_w = None  # the window system of the present case


class Widget:
    def __init__(self, master=None, **kw):
        self.master = master
        self.kw = kw
        self.dead = False

    def check(self):
        x = self
        while x is not None:
            if x.dead:
                raise TclError("application has been destroyed")
            x = getattr(x, "master", None)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def nop(*args, **kw):
            self.check()

        return nop

    def destroy(self):
        self.dead = True


class Tk(Widget):
    def __init__(self, *args, **kw):
        super().__init__()
        self.bound = {}
        self.proto = {}
        self.state = "normal"
        _w.roots.append(self)

    def bind(self, ev, f):
        self.check()
        self.bound[ev] = f

    def protocol(self, name, f):
        self.check()
        self.proto[name] = f

    def after(self, ms, f=None, *args):
        self.check()
        _w.after.append((f, args))

    def destroy(self):
        self.dead = True
        if self in _w.roots:
            _w.roots.remove(self)

    def quit(self):
        _w.quit = True

    def wm_state(self):
        return self.state

    def withdraw(self):
        self.state = "withdrawn"

    def deiconify(self):
        self.state = "normal"

    def mainloop(self):
        self.check()
        _w.quit = False
        while not _w.quit and _w.roots:
            if not _w.after:
                raise Broken("the window is open, nothing is pending and the run does not end")
            f, args = _w.after.pop(0)
            _w.call(f, *args)

    def winfo_pointerx(self):
        return 10

    winfo_pointery = winfo_rootx = winfo_rooty = winfo_pointerx


class Canvas(Widget):
    n = 0

    def create_image(self, *args, **kw):
        self.check()
        Canvas.n += 1
        return Canvas.n

    create_window = create_image

    def update(self):
        self.check()
        _w.frame()


class Button(Widget):
    def __init__(self, master=None, **kw):
        super().__init__(master, **kw)
        self.text = kw.get("text")
        _w.buttons.append(self)

    def configure(self, **kw):
        self.check()
        if "text" in kw:
            self.text = kw["text"]

    config = configure

    def destroy(self):
        self.dead = True
        if self in _w.buttons:
            _w.buttons.remove(self)


fake = types.ModuleType("tkinter")
fake.Tk = fake.Toplevel = Tk
fake.Canvas = Canvas
fake.Button = Button
fake.Entry = fake.Scale = Widget
fake.TclError = TclError
for _n in ("SW", "NW", "NE", "CENTER", "FLAT", "HORIZONTAL"):
    setattr(fake, _n, _n.lower())
fake.font = types.ModuleType("tkinter.font")
fake.font.Font = Widget
fake_itk = types.ModuleType("PIL.ImageTk")
fake_itk.PhotoImage = lambda im, *a, **k: im


class Clock:
    """the wall clock: what is measured and what really passed"""

    def __init__(self, rng, jitter):
        self.t = 1.7e9
        self.rng = rng
        self.jitter = jitter
        self.pace = []  # called with the wall time that passed, before it passes

    def move(self, d):
        for f in self.pace:
            f(max(d, 0))
        self.t += d

    def time(self):
        if self.jitter:
            self.move(self.rng.choice([0, 0, 0.001, 0.004]))
        return self.t

    def sleep(self, d):
        if d < 0:
            raise ValueError("sleep length must be non-negative")
        self.move(d + (self.rng.choice([0, 0, 0.002]) if self.jitter else 0))


class FakeTime:
    """stands for the time module in salabim"""

    def __init__(self, clock):
        self.time = self.monotonic = self.perf_counter = clock.time
        self.sleep = clock.sleep

    def time_ns(self):
        return int(self.time() * 1e9)

    monotonic_ns = perf_counter_ns = time_ns

    def __getattr__(self, name):
        import time

        return getattr(time, name)


class Real(kreal.Real):
    booms = kreal.BOOMS[:1]  # reported by tkinter as text

    """the kernel interpreter with animation"""

    def __init__(self, prog, anim, clock, tmp):
        self.an = anim
        self.clock = clock
        self.tmp = tmp
        self.objs = []
        self.offset = 0.0  # of the clock resets
        self.limit = INF  # simulated time allowed by the wall clock, while synchronised
        self.last = -INF
        self.rules = []  # broken rules
        self.frozen = False  # paused from the previous frame on
        self.frames = 0
        self.stepping = False
        self.t1 = self.w0 = self.w1 = None
        self.joined = False  # synchronised in an event of an unsynchronised frame: that frame shows the time of the event
        self.ready = False
        clock.pace.append(self.pace)
        self.video = anim.get("video")
        kw = dict(anim["env"])
        if self.video:
            kw["video"] = os.path.join(tmp, "v." + self.video)
        super().__init__(prog, dict(env_kw=kw))
        self.ready = True
        self.start_pace()

    # what the property promises

    def synced(self):
        env = self.env
        return env.animate() and not self.an.get("blind") and (env.synced() or self.video)

    def raw(self):
        return self.env.now() + self.offset

    def start_pace(self):
        """(re)starts the bookkeeping; called after each change of a setting"""
        self.changed = True
        self.frozen = False
        if self.video:
            self.limit = INF
            return
        if not self.synced():
            if self.limit != INF:
                self.last = self.limit  # was granted in this frame
            self.limit = INF
        elif self.limit == INF:
            self.limit = max(self.raw(), self.last)

    def pace(self, d):
        if not self.ready:
            return
        if self.limit != INF and not self.env.paused():
            self.limit += d * self.env.speed()

    def emit(self, *a):
        super().emit(*a)
        if a[0] == "main":
            self.changed = True
        if not self.ready or not self.in_run or a[0] == "main" or self.stepping:
            return
        if self.synced() and self.limit != INF and self.raw() > self.limit + 1e-6 * max(1, abs(self.limit)):
            self.rules.append("at simulated time %r the wall clock allowed %r only" % (self.raw(), self.limit))
        if self.frozen:
            self.rules.append("event at %r in a frame that was paused from its start" % self.env.now())

    # what the simulated user, the processes and the wall clock do

    def frame(self):
        self.frames += 1
        if self.frames > FRAME_LIMIT:
            raise Broken("not finished after %d frames" % FRAME_LIMIT)
        an = self.an
        env = self.env
        self.frozen = False
        self.follow()
        d = an["clock"][self.frames % len(an["clock"])] if self.frames < 80 else 0.03  # the disturbances end
        self.clock.move(d)
        for act in an["user"].get(str(self.frames), []):
            self.user(act)
        if env.paused():
            self.npaused = getattr(self, "npaused", 0) + 1
            if self.npaused >= an["patience"]:  # at last, the user goes on
                self.npaused = 0
                if env.animate():
                    self.user(an["go"])
                    if env.paused():
                        env.paused(False)
                        self.changed = True
        else:
            self.npaused = 0
        if env.animate() and not self.video and env.synced() and env.speed() < 2:
            env.speed(8)
            self.changed = True
        self.w0 = self.clock.t
        self.frozen = env.paused() and env.animate() and not self.video and (env.synced() or not getattr(env, "_step_pressed", True))

    def follow(self):
        """at a frame: what was due has happened, and the displayed time went on with the clock"""
        env = self.env
        steady = self.synced() and not self.video and not env.paused() and not self.an["jitter"]
        t = env.t() + self.offset
        if steady and self.in_run:
            for c in self.comps:
                if c is not None and not c.isstandby() and c.scheduled_time() + self.offset < t - 1e-6 * max(1, abs(t)):
                    self.rules.append("frame at %r, but an event at %r has not happened yet" % (t, c.scheduled_time() + self.offset))
            if self.t1 is not None and self.w1 is not None and not self.changed:
                e = self.t1 + (self.w0 - self.w1) * env.speed()
                if abs(e - t) > 1e-5 * max(1, abs(t)):
                    self.rules.append("frame at %r, the clock says %r" % (t, e))
        self.w1 = self.w0
        self.t1 = t if steady and not self.joined else None
        self.changed = self.joined = False

    def user(self, act):
        env = self.env
        k = act[0]
        if k == "key":
            f = env.root.bound.get(act[1]) if env.root is not None else None
            if f:
                self.stepping = act[1] == "s"  # an explicit step goes ahead of the clock
                _w.call(f, None)
                if self.stepping and self.limit != INF:
                    self.limit = max(self.limit, self.raw())
                self.stepping = False
        elif k == "button":
            for b in list(_w.buttons):
                if b.text == act[1] and not b.dead:
                    _w.call(b.kw["command"])
                    break
        elif k == "close":
            if env.root is not None:
                _w.call(env.root.proto["WM_DELETE_WINDOW"])
        elif k == "call":
            _w.call(self.anop, None, act[1:])
        self.start_pace()

    def exec1(self, c, op):
        if op[0] == "an":
            before = self.synced()
            self.anop(c, op[1:])
            self.joined = self.joined or not before and self.synced()
            self.start_pace()
            return "ok"
        if op[0] == "rnow":
            t0 = self.env.now()
            out = super().exec1(c, op)
            self.offset += t0 - self.env.now()
            return out
        return super().exec1(c, op)

    def anop(self, c, a):
        env = self.env
        k = a[0]
        if k == "speed":
            env.speed(a[1])
        elif k == "animate":
            if not self.video:
                env.animate(a[1])
        elif k == "animate2":  # off and on again within one event
            if not self.video and env.animate():
                env.animate(False)
                env.animate(True)
        elif k == "synced":
            env.synced(a[1])
        elif k == "paused":
            if env.animate() and not self.an.get("blind"):
                env.paused(a[1])
        elif k == "size":
            if not self.video:
                env.animation_parameters(animate=None, width=a[1], height=a[2])
        elif k == "fps":
            if not self.video:
                env.fps(a[1])
        elif k == "snap":
            env.snapshot(os.path.join(self.tmp, "s.png"))
        elif k == "rmobj":
            if self.objs:
                self.objs.pop(0).remove()
        elif k == "obj":
            n = a[2]
            qs = self.queues + [r.requesters() for r in self.res] + [s.waiters() for s in self.states] + self.stores
            ms = [q.length for q in qs] + [r.claimed_quantity for r in self.res] + [s.value for s in self.states]
            if a[1] == "text":
                o = sim.AnimateText(text=lambda: str(env.now()), x=lambda t: t, y=10 * n, env=env)
            elif a[1] == "queue" and qs:
                o = sim.AnimateQueue(qs[n % len(qs)], x=10, y=10, direction="nesw"[n])
            elif a[1] == "mon" and ms:
                o = sim.AnimateMonitor(ms[n % len(ms)], x=1, y=1, width=30, height=20)
            elif a[1] == "rect":
                o = sim.AnimateRectangle((0, 0, 10, 10), x=lambda t: t, angle=lambda t: t * 10, layer=n, env=env)
            elif a[1] == "line":
                o = sim.AnimateLine((0, 0, 10, 5), layer=-n, visible=lambda t: int(t) % 2 == 0, env=env)
            elif a[1] == "button":
                o = sim.AnimateButton(x=20, y=20, text="b", action=lambda: None, env=env)
            else:
                return
            self.objs.append(o)


@contextlib.contextmanager
def world(case):
    """the simulated window system and clock in place of the real ones"""
    global _w
    rng = random.Random(case["anim"]["seed"])
    clock = Clock(rng, case["anim"]["jitter"])
    saved = {k: sys.modules.get(k) for k in ("tkinter", "tkinter.font", "PIL.ImageTk")}
    itk = getattr(PIL, "ImageTk", None)
    st = S.time
    tmp = None
    holder = []
    try:
        sys.modules["tkinter"] = fake
        sys.modules["tkinter.font"] = fake.font
        sys.modules["PIL.ImageTk"] = fake_itk
        PIL.ImageTk = fake_itk
        S.time = FakeTime(clock)
        S.g.animation_env = None
        _w = W(clock, lambda: holder[0].frame())
        if case["anim"].get("video") or '"snap"' in json.dumps(case):
            tmp = tempfile.mkdtemp(prefix="verif-anim-")
        yield clock, tmp, holder
    finally:
        S.time = st
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        if itk is None:
            if hasattr(PIL, "ImageTk"):
                del PIL.ImageTk
        else:
            PIL.ImageTk = itk
        S.g.animation_env = None
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


class Anim(Kernel):
    def gen(self, seed):
        prog = kgen.generate("C28", seed)
        r = random.Random("anim|" + str(seed))
        ch = lambda xs: xs[r.randrange(len(xs))]  # noqa: E731
        an = dict(seed=r.randrange(1 << 30), jitter=r.random() < 0.5)
        env = dict(width=60, height=40, show_menu_buttons=r.random() < 0.15, modelname="m" if r.random() < 0.05 else "", show_time=r.random() < 0.15)
        env["speed"] = ch([8, 16, 32, 50, 200, 1000])
        env["synced"] = r.random() < 0.7
        kind = r.random()
        if kind < 0.08:
            an["blind"] = True
            env["blind_animation"] = True
            env["animate"] = True
            env["synced"] = True
            an["video"] = "gif"
        elif kind < 0.13:
            an["video"] = "gif"
            env["animate"] = True
        else:
            env["animate"] = r.random() < 0.75
        an["env"] = env
        n = ch([1, 3, 7, 12])
        an["clock"] = [ch([0, 0.01, 0.03, 0.03, 0.03, 0.1, 0.5] if r.random() < 0.93 else [5, 100, 1e5, -0.1, -0.3, 0]) for _ in range(n)]
        user = {}
        if kind >= 0.08 and r.random() < 0.6:
            f = 0
            for _ in range(ch([1, 2, 4, 8])):
                f += ch([1, 1, 2, 3, 6, 15])
                a = r.random()
                if a < 0.4:
                    act = ["key", ch(["-", "+", "<space>", "<space>", "s", "s"])]
                elif a < 0.6:
                    act = ["button", ch(["Menu", "Go", "/2", "*2", "Step", "Step", "Synced", "b"])]
                elif a < 0.62:
                    act = ["close"]
                elif a < 0.65:
                    act = ["key", "<Control-c>"]
                elif a < 0.67:
                    act = ["button", "Stop"]
                else:
                    act = ["call"] + ch([["speed", ch([8, 16, 50, 1000])], ["synced", r.random() < 0.5], ["paused", r.random() < 0.6], ["animate", False], ["animate", False], ["obj", "text", 1], ["obj", "queue", 2], ["rmobj"], ["size", 70, 50]])
                user.setdefault(str(f), []).append(act)
        an["user"] = user
        an["patience"] = ch([1, 2, 5])
        an["go"] = ch([["key", "<space>"], ["button", "Go"], ["call", "paused", False]])
        prog["anim"] = an
        if an.get("blind"):
            prog["main"] = [m for m in prog["main"] if m[0] != "runall" and m[0] != "stby"]
            for c in prog["comps"]:
                c["scripts"] = [[o for o in s if o[0] not in ("stby", "crash")] for s in c["scripts"]]
        return prog

    def run(self, prog):
        res = Result()
        M = kmodel.Model(prog)
        ml = M.run()
        self.account(res, prog, ml, M)
        an = prog["anim"]
        stopped = exc = None
        rl = []
        R = None
        with world(prog) as (clock, tmp, holder), contextlib.redirect_stdout(io.StringIO()):
            try:
                R = Real.__new__(Real)
                holder.append(R)
                R.log = []
                R.__init__(prog, an, clock, tmp)
                R.run()
                if R.video and an["seed"] % 3 == 0:
                    R.env.video_close()
            except S.SimulationStopped:
                stopped = True
            except Broken as e:
                res.fail("no-progress", str(e))
            except Exception as e:
                exc = "%s: %s" % (type(e).__name__, short(str(e)))
                if os.environ.get("VERIF_TB"):
                    import traceback

                    traceback.print_exc()
            finally:
                rl = R.log if R is not None else []
                if S.g.animation_env is not None and not R.video:
                    with contextlib.suppress(Exception):
                        S.g.animation_env.animate(False)
        wanted = any(a[0] == "close" or a[-1] in ("<Control-c>", "Stop") for acts in an["user"].values() for a in acts)
        for acts in an["user"].values():
            for a in acts:
                res.faults["user:" + str(a[1] if a[0] != "close" else a[0])] += 1
        for d in an["clock"]:
            if d < 0 or d >= 5:
                res.faults["clock:" + ("back" if d < 0 else "stall")] += 1
        res.probes["frames"] += R.frames
        res.probes["blind" if an.get("blind") else "video" if R.video else "synced" if an["env"]["synced"] else "unsynced"] += 1
        crashed = any(e[0] == "crash" for e in rl)
        if crashed and not an.get("blind"):  # tkinter reports the exception, the run is stopped
            _w.errors = [e for e in _w.errors if "Boom" not in e]
            res.probes["crashed"] += 1
            wanted = True
        if _w.errors:
            res.violation = ("callback", "exception in a callback: " + _w.errors[0])
        if res.violation:
            return res
        if stopped and wanted:
            res.probes["stopped"] += 1
            n = min(len(rl), len(ml), M.odd)
            if crashed:
                n = min(n, [e[0] for e in rl].index("crash") + 1)
            compare_logs(res, ml[:n], rl[:n], None)
            if len(rl) > len(ml) and not crashed:
                res.fail("history", "expected %d entries at most, got %d" % (len(ml), len(rl)))
        else:
            if stopped:
                exc = "SimulationStopped, but nobody stopped the run"
            if M.odd < len(ml):
                compare_logs(res, ml[: M.odd], rl[: M.odd], None)
            elif crashed and not an.get("blind"):
                n = [e[0] for e in rl].index("crash") + 1
                compare_logs(res, ml[:n], rl[:n], None)
            elif compare_logs(res, ml, rl, exc):
                for name, exp, act in kstats.compare(R, M):
                    res.fail("statistics", "%s expected %s, got %s" % (name, short(exp), short(act)))
                    break
        if R.rules:
            res.fail("pace", R.rules[0])
        return res

    def shrinks(self, prog):
        an = prog["anim"]
        for f in sorted(an["user"], key=int):
            p = copy.deepcopy(prog)
            del p["anim"]["user"][f]
            yield p
        if an["clock"] != [0.03]:
            p = copy.deepcopy(prog)
            p["anim"]["clock"] = [0.03]
            yield p
        if an["jitter"]:
            p = copy.deepcopy(prog)
            p["anim"]["jitter"] = False
            yield p
        yield from super().shrinks(prog)
