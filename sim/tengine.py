"""Engine "trace": a kernel program with tracing on; the trace is replayed against what was observable at every step."""
import datetime
import random
import re
import sys

from . import kengine, kgen, kmodel, kreal
from .kmodel import INF

RUNS = ("run", "till", "runall", "runinf")
MOVE = re.compile(r"^(\S+)\s+(enter|leave) (.+)$")
CLEAR = re.compile(r"^(\S+) clear$")
EXTEND = re.compile(r"^(\S+) extend from ")
CLAIM = re.compile(r"^(\S+)\s+claim (\S+) from (\S+)")
RELEASE = re.compile(r"^(\S+)\s+release (\S+) from (\S+)")
BUMP = re.compile(r"^(\S+)\s+bumped from (\S+) by (\S+) \(release (\S+)\)")
SCHED = re.compile(r"^(\S+) (.*)scheduled for (inf|[A-Z][a-z]{2} [-0-9]+ [:0-9]+|[-0-9.]+)")
PLAIN = re.compile(r"^(\S+) (passivate|interrupt|ended)\b")
CANCEL = re.compile(r"^cancel (\S+)")
HANDED = re.compile(r"^(\S+) (to_store|from_store) \((\S+)\) honor")


D0 = datetime.datetime(2024, 2, 28, 12)
SECONDS = dict(minutes=60, hours=3600, days=86400)
WEEKDAYS = "Mon Tue Wed Thu Fri Sat Sun".split()


class Out:
    """the trace file: complete lines"""

    def __init__(self):
        self.lines = []
        self.part = ""

    def write(self, s):
        self.part += s
        while "\n" in self.part:
            line, self.part = self.part.split("\n", 1)
            self.lines.append(line)

    def flush(self):
        pass


class TReal(kreal.Real):
    def make_trace(self):
        self.out = Out()
        self.marks = []
        self.names = {}
        self.on = True
        self.stdout = self.prog["t"]["stdout"]
        if self.stdout:
            sys.stdout = self.out  # till the end of the run
            return True
        return self.out

    def create(self, i):
        if not any(self.comps):  # the very first component
            t = self.prog["t"]
            self.env.suppress_trace_linenumbers(not t["numbers"])
            self.env.suppress_trace_standby(t["quiet"])
        super().create(i)

    def new_item(self):
        it = super().new_item()
        self.names[it.kid] = it.name()
        return it

    def emit(self, *a):
        super().emit(*a)
        self.marks.append((len(self.out.lines), self.on))

    def exec1(self, c, op):
        if op[0] == "trace":
            self.on = bool(op[1])
            self.env.trace(self.trace_out if op[1] else False)
            return "ok"
        return super().exec1(c, op)


class Trace(kengine.Kernel):
    def __init__(self, prop):
        super().__init__(prop)
        self.profile = "C33"

    def gen(self, seed):
        prog = kgen.generate(self.profile, seed)
        r = random.Random("trace|%s" % seed)
        prog["t"] = dict(stdout=r.random() < 0.15, numbers=r.random() < 0.05, quiet=r.random() < 0.5, unit=r.choice([None, None, None, "minutes", "hours", "days"]))
        if r.random() < 0.3:
            for c in prog["comps"]:
                if r.random() < 0.3:
                    c["mute"] = True
        return prog

    def opts(self, prog):
        o = dict(real=TReal, noviews=True)
        if prog["t"]["unit"]:
            o["env_kw"] = dict(time_unit=prog["t"]["unit"], datetime0=D0)
        return o

    def run(self, prog):
        save = sys.stdout
        try:
            return super().run(prog)
        finally:
            sys.stdout = save

    def extra(self, res, prog, M, ml, R, rl):
        super().extra(res, prog, M, ml, R, rl)
        if res.violation is None:
            bad = Replay(prog, R, rl, res).check()
            if bad:
                res.fail("trace", bad)


class Replay:
    def __init__(self, prog, R, log, res):
        self.prog, self.R, self.log, self.res = prog, R, log, res
        self.cname = {c.name(): i for i, c in enumerate(R.comps) if c is not None}
        self.rname = {r.name(): i for i, r in enumerate(R.res)}
        self.qname = {}
        for i, s in enumerate(R.stores):
            self.qname[s.name()] = (4, i)
        for i, q in enumerate(R.queues):
            self.qname[q.name()] = (5, i)
        self.unit = prog["t"]["unit"]
        self.width = 23 if self.unit else 10
        self.offset = 0
        for m in R.members:
            R.names[m.kid] = m.name()

    def time(self, txt):
        """the simulated time in a trace line"""
        txt = txt.strip()
        if not self.unit or txt == "inf":
            return float(txt)
        day, txt = txt.split(" ", 1)
        d = datetime.datetime.strptime(txt, "%Y-%m-%d %H:%M:%S")
        if WEEKDAYS[d.weekday()] != day:
            raise ValueError
        return (d - D0).total_seconds() / SECONDS[self.unit] - self.offset

    def check(self):
        PRE = 7 + self.width + 1 + 20 + 1
        marks = self.R.marks
        lines = self.R.out.lines
        quiet = self.prog["t"]["quiet"]
        mute = [c.get("mute", False) for c in self.prog["comps"]]
        who = self.log[0][1] if self.log and self.log[0][0] == "in" else None  # current component, None = main
        crashed = set()
        shift = 0
        late = None  # standby component whose line is held back
        if self.log and self.log[0][0] == "main" and self.log[0][2] == "rnow":
            self.offset = -self.log[0][-1][0]
        for i in range(1, len(self.log)):
            e0, e1 = self.log[i - 1], self.log[i]
            if e0[0] == "crash":
                if mute[e0[1]]:
                    return None  # what is left of it may end later, unseen
                crashed.add(self.R.comps[e0[1]].name())
            on = marks[i - 1][1] and marks[i][1]
            L = lines[marks[i - 1][0] : marks[i][0]]
            self.offset += shift
            shift = e0[-1][0] - e1[-1][0] if e1[0] in ("op", "main") and e1[2] == "rnow" else 0  # holds for later lines
            if not marks[i - 1][1] and not marks[i][1] and L:
                return "entry %d: traced although trace is off: %s" % (i, L[0])
            if not on:
                late = None
                if e1[0] == "in":
                    who = e1[1]
                elif e1[0] == "main" and e1[2] in RUNS and e1[3] == "ok":
                    who = None
                continue
            muted = who is not None and mute[who]
            cur = []
            body = []
            for line in L:
                name = line[PRE - 21 : PRE - 1].strip()
                if name:
                    try:
                        t = self.time(line[7 : 7 + self.width])
                    except ValueError:
                        return "entry %d: no time in %r" % (i, line)
                    cur.append((name, t, line[PRE:].strip()))
                    body.append(("cur", name))
                else:
                    body.append(("txt", line[PRE:].rstrip()))
            if muted and body and body[0][0] != "cur":
                return "entry %d: %r is traced although the current component suppresses trace" % (i, L[0])
            self.res.probes["intervals"] += 1
            # who became current
            if late is not None and cur and cur[0][2] == "current (standby)" and cur[0][0] == late[0]:
                if cur[0][1] != late[1]:
                    return "entry %d: %r expected at %s" % (i, cur[0], late[1])
                cur.pop(0)
                late = None
            elif late is not None:
                k = late[2]
                if e1[-1][1][k][0] == "standby" or e1[0] == "in" and e1[1] == k:
                    late = None  # standby again without having done anything
                elif L:
                    return "entry %d: %s became current (standby), which is not in the trace before %r" % (i, late[0], L[0])
            expect = []
            now = e1[-1][0]
            nxt = late
            if e1[0] == "in":
                kid = e1[1]
                name = self.R.comps[kid].name()
                stby = e0[-1][1][kid] is not None and e0[-1][1][kid][0] == "standby" 
                if any(k == "txt" and SCHED.match(x) and SCHED.match(x).group(1) == name for k, x in body):
                    stby = False  # activated in the meantime
                elif stby and muted and cur and cur[-1][2] == "current":
                    stby = False  # activated by a component that suppresses trace
                nxt = None
                if not mute[kid]:
                    if stby:
                        self.res.probes["standby-current"] += 1
                    if stby and quiet and not (cur and cur[-1][0] == name):
                        nxt = (name, now, kid)
                    else:
                        expect = [(name, now, "current (standby)" if stby else "current")]
                who = kid
            elif e1[0] == "main" and e1[2] in RUNS:
                nxt = None
                if e1[3] == "ok":
                    who = None
                    expect = [("main", now, "current")]
            gone = [x for x in cur if x[0] in crashed and x not in expect]
            if gone:  # what was left of a crashed process ended; the component expected may have been in standby meanwhile
                return None
            if cur != expect:
                return "entry %d %s: became current: %s, according to the trace: %s" % (i, kengine.short(e1[:-1]), expect, cur)
            late = nxt
            if e1[0] in ("op", "main") and e1[2] == "trace":
                late = None  # setting trace forgets the line that is held back
            bad = None
            if not muted and not (e1[0] == "in" and mute[e1[1]]) and not (e1[0] == "op" and e1[2] == "rnow") and not (e1[0] == "main" and e1[2] == "rnow"):
                bad = self.deltas(i, e0, e1, body, mute)
            if bad:
                return bad
        return None

    def deltas(self, i, e0, e1, body, mute):
        s0, s1 = e0[-1], e1[-1]
        unknown = set()
        q = {}
        for name, (g, k) in self.qname.items():
            q[name] = set(self.uname(x[0]) for x in s0[g][k][2])
        claims = {}
        for k, c in enumerate(s0[1]):
            if c is not None:
                for r, n in c[5]:
                    claims[(self.R.comps[k].name(), self.R.res[r].name())] = n
        last = {}
        standby = handed = False
        for kind, txt in body:
            if kind == "cur":
                last[txt] = ("current", None)
                continue
            m = MOVE.match(txt)
            if m and m.group(1) not in self.cname:
                if m.group(3) in q:
                    x = q[m.group(3)]
                    if m.group(2) == "enter":
                        if m.group(1) in x:
                            return "entry %d: %r, but it is in there already" % (i, txt)
                        x.add(m.group(1))
                    else:
                        if m.group(1) not in x:
                            return "entry %d: %r, but it is not in there" % (i, txt)
                        x.remove(m.group(1))
                elif not (e1[0] in ("op", "main") and e1[2] == "q"):
                    return "entry %d: %r: unknown queue" % (i, txt)
                continue
            m = CLEAR.match(txt)
            if m:
                if m.group(1) in q:
                    q[m.group(1)].clear()
                continue
            m = EXTEND.match(txt)
            if m:
                unknown.add(m.group(1))
                continue
            m = CLAIM.match(txt)
            if m:
                key = (m.group(1), m.group(3))
                claims[key] = claims.get(key, 0) + float(m.group(2))
                continue
            m = RELEASE.match(txt)
            if m:
                key = (m.group(1), m.group(3))
                claims[key] = claims.get(key, 0) - float(m.group(2))
                continue
            m = BUMP.match(txt)
            if m:
                key = (m.group(1), m.group(2))
                claims[key] = claims.get(key, 0) - float(m.group(4))
                continue
            m = HANDED.match(txt)
            if m:  # an item may be handed over from and to a store without more lines
                for name, (g, k) in self.qname.items():
                    if g == 4:
                        unknown.add(name)
                handed = True
            m = SCHED.match(txt)
            if m:
                if "hold-interrupt" in m.group(2):
                    last[m.group(1)] = ("interrupt", None)
                else:
                    last[m.group(1)] = ("scheduled", self.time(m.group(3)))
                continue
            m = PLAIN.match(txt)
            if m:
                last[m.group(1)] = (m.group(2), None)
                continue
            m = CANCEL.match(txt)
            if m:
                last[m.group(1)] = ("cancel", None)
                continue
            if txt.startswith("standby"):
                standby = True
        if not (e1[0] in ("op", "main") and e1[2] == "q" and e1[3] in ("QueueFullError", "ValueError", "IndexError")):
            for name, (g, k) in self.qname.items():
                if name in unknown:
                    continue
                act = set(self.uname(x[0]) for x in s1[g][k][2])
                if act != q[name]:
                    return "entry %d %s: %s holds %s, according to the trace %s" % (i, kengine.short(e1[:-1]), name, sorted(act), sorted(q[name]))
        for k, c in enumerate(s1[1]):
            if c is None:
                continue
            name = self.R.comps[k].name()
            for r, R in enumerate(self.R.res):
                if self.prog["res"][r].get("anon"):
                    continue
                act = dict(c[5]).get(r, 0)
                exp = claims.get((name, R.name()), 0)
                if abs(act - exp) > 1e-6:
                    return "entry %d %s: %s claims %s from %s, according to the trace %s" % (i, kengine.short(e1[:-1]), name, act, R.name(), exp)
        for k, c in enumerate(s1[1]):
            if c is None or s0[1][k] is None:
                continue
            name = self.R.comps[k].name()
            status, t = c[0], c[1]
            if name not in last:
                if handed or (standby or self.prog["t"]["quiet"]) and status == "standby" or s0[1][k][0] == "standby":
                    continue
                if status != s0[1][k][0] or t != s0[1][k][1]:
                    if e0[0] != "crash":
                        return "entry %d %s: %s went from %s (%s) to %s (%s), which is not in the trace" % (i, kengine.short(e1[:-1]), name, s0[1][k][0], s0[1][k][1], status, t)
                continue
            kind, x = last[name]
            if kind == "scheduled":
                ok = (status in ("scheduled", "requesting", "waiting")) and (t == x or t < INF and abs(t - x) < 0.0006)
            elif kind == "current":
                ok = status == "current"
            else:
                ok = t == INF and status == dict(passivate="passive", interrupt="interrupted", ended="data", cancel="data")[kind]
            if status == "standby" and standby:
                ok = True
            if not ok:
                return "entry %d %s: %s is %s (%s), according to the trace %s %s" % (i, kengine.short(e1[:-1]), name, status, t, kind, "" if x is None else x)
        return None

    def uname(self, kid):
        return self.R.names[kid]
