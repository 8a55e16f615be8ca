"""Reference model of salabim's process interaction (events, processes, resources, states, stores, queues).

Written against the documentation, with plain lists and no shortcuts. It executes the same
program (see kgen.py) as the real executor (kreal.py) and produces the same kind of log.
Absolute time is kept in self.t; the user's clock is self.t - self.off.
"""
import bisect

INF = float("inf")
DATA, CUR, SCHED, PASS, REQ, WAIT, STBY, INT = "data", "current", "scheduled", "passive", "requesting", "waiting", "standby", "interrupted"


PI = {"hold", "holdtill", "past", "holdint", "pass", "stby", "cancel", "act", "req", "get", "put", "wait", "waitfor", "from", "to"}
TARGETED = {"skipset", "int", "res", "rd", "mode", "rel", "filter"}


class Boom(Exception):
    pass


# value types of states; programs contain indices only
DOMS = dict(int=[0, 1, 2, 3], bool=[False, True], str=["red", "green", "blue", ""], tup=[(), (1,), (1, 2), ("a",)], flt=[0.0, 0.5, 1.5, 2.5])


class QFull(Exception):
    pass


class C:  # component (or item, or main)
    def __init__(self, id):
        self.id = id
        self.status = DATA
        self.sched = INF
        self.rd = None
        self.lvl = 0
        self.failed = False
        self.claims = {}
        self.reqs = {}
        self.mode = ""
        self.mode_t = 0.0
        self.skip = False
        self.script = None
        self.pc = 0
        self.proc = None
        self.created = False
        self.oneof = False
        self.waits = []
        self.wall = False
        self.cond = None
        self.fs = []
        self.tos = []
        self.fs_filter = None
        self.fs_item = None
        self.fs_store = None
        self.ts_item = None
        self.ts_prio = 0
        self.ts_store = None
        self.crashed = False
        self.ret = None
        self.lastfrom = False
        self.qs = []
        self.taken = False
        self.arg = None


class Q:
    """queue: list of [member, priority, enter_time]"""

    def __init__(self, id, cap=INF, t=0.0, kind="q"):
        self.id = id
        self.m = []
        self.cap = cap
        self.hist = LM(t, 0)
        self.cap_hist = LM(t, cap)
        self.av_hist = LM(t, cap)
        self.stays = NM()
        self.arr = self.dep = 0
        self.arr_t0 = self.dep_t0 = t
        self.kind = kind


OFF = "off"


class LM:
    """level monitor: a step function, with stretches in which it was switched off"""

    def __init__(self, t, v):
        self.h = [(t, v)]
        self.v = v
        self.on = True

    def put(self, t, v):
        if self.h[-1][0] == t:
            self.h[-1] = (t, v)
        else:
            self.h.append((t, v))

    def tally(self, t, v):
        self.v = v
        if self.on:
            self.put(t, v)

    def stat(self, t):
        """mean and duration, up to t"""
        ends = [e for e, _ in self.h[1:]] + [t]
        seg = [(v, e - b) for (b, v), e in zip(self.h, ends) if v != OFF and e > b]
        w = sum(d for _, d in seg)
        return (round(sum(v * d for v, d in seg) / w, 9) if w else "nan", round(w, 9))

    def reset(self, t, on=None):
        if on is not None:
            self.on = on
        self.h = [(t, self.v if self.on else OFF)]

    def monitor(self, t, on):
        self.on = on
        self.put(t, self.v if on else OFF)


class NM:
    """non level monitor"""

    def __init__(self):
        self.x = []
        self.on = True

    def tally(self, t, v):
        if self.on:
            self.x.append(v)

    def reset(self, t, on=None):
        if on is not None:
            self.on = on
        self.x = []

    def monitor(self, t, on):
        self.on = on


def tl(lm, t, v):
    lm.tally(t, v)


class Model:
    def __init__(self, prog):
        self.prog = prog
        self.t = 0.0
        self.off = 0.0
        self.seq = 0
        self.ev = []  # sorted list of (t, prio, seq, comp)
        self.stby = []
        self.pend = []
        self.odd = 1 << 30
        self.log = []
        self.budget = prog.get("budget", 300)
        self.main = C("main")
        self.main.status = CUR
        self.main.created = True
        self.current = self.main
        self.end_empty = False
        self.nitems = 0
        self.stopping = False
        self.running = False
        self.snap_on = True
        P = prog
        self.res = []
        for i, r in enumerate(P.get("res", [])):
            R = type("R", (), {})()
            R.id = i
            R.cap = r["cap"]
            R.claimed = r.get("init", 0)
            R.anon = r.get("anon", False)
            R.pre = r.get("pre", False)
            R.hof = r.get("hof", False)
            R.hhp = r.get("hhp", False)
            R.rq = Q(("rq", i), kind="int")
            R.cq = Q(("cq", i), kind="int")
            R.trying = False
            R.hist = LM(0.0, R.claimed)
            R.cap_hist = LM(0.0, R.cap)
            R.av_hist = LM(0.0, R.cap - R.claimed)
            R.occ_hist = LM(0.0, 0 if R.cap <= 0 else R.claimed / R.cap)
            self.res.append(R)
        self.states = []
        for i, s in enumerate(P.get("states", [])):
            S = type("S", (), {})()
            S.id = i
            S.dom = DOMS[s.get("dom", "int")]
            S.v = s["value"] % len(S.dom)
            S.wq = Q(("wq", i), kind="int")
            S.hist = LM(0.0, S.dom[S.v])
            self.states.append(S)
        self.stores = []
        for i, s in enumerate(P.get("stores", [])):
            self.stores.append(StoreM(i, s["cap"]))
        for i, s in enumerate(P.get("stores", [])):
            for _ in range(s.get("fill", 0)):
                self.q_enter(self.stores[i].q, self.new_item(), None)
        self.queues = [Q(("q", i), cap=q["cap"]) for i, q in enumerate(P.get("queues", []))]
        self.iters = {}
        self.members = []
        for i in range(P.get("nmembers", 0)):
            m = C(("m", i))
            m.created = True
            self.members.append(m)
        self.comps = []
        for i, c in enumerate(P["comps"]):
            self.comps.append(C(i))
        self.shist = [LM(0.0, DATA) for _ in self.comps]
        self.mhist = [LM(0.0, "") for _ in self.comps]
        for i, c in enumerate(P["comps"]):
            if not c.get("late"):
                self.create(i)

    # ---------------------------------------------------------------- helpers
    def st(self, c, status):
        c.status = status
        if isinstance(c.id, int):
            tl(self.shist[c.id], self.t, status)

    def new_item(self):
        it = C(("i", self.nitems))
        it.created = True
        self.nitems += 1
        return it

    def create(self, i):
        spec = self.prog["comps"][i]
        c = self.comps[i]
        c.created = True
        c.skip = spec.get("skip", False)
        c.mode_t = self.t
        self.shist[i] = LM(self.t, DATA)
        self.mhist[i] = LM(self.t, "")
        if spec.get("start") is None:
            return
        c.script = spec["start"]
        c.pc = 0
        c.proc = spec["start"]
        self.st(c, SCHED)
        if spec.get("at") is None:
            t = self.t + spec.get("delay", 0.0)
        else:
            t = spec["at"] + self.off + spec.get("delay", 0.0)
            if t < self.t:
                t = self.t  # cap_now=True is passed for late components
        self.push(c, t, spec.get("prio", 0), spec.get("urgent", False))

    def push(self, c, t, prio, urgent):
        c.sched = t
        if t != INF:
            self.seq += 1
            bisect.insort(self.ev, (t, prio, -self.seq if urgent else self.seq, EvC(c)))

    def remove(self, c):
        for i, e in enumerate(self.ev):
            if e[3].c is c:
                del self.ev[i]
                return
        if c in self.stby:
            self.stby.remove(c)
        if c in self.pend:
            self.pend.remove(c)

    def evprio(self, c):
        for e in self.ev:
            if e[3].c is c:
                return e[1]
        return None

    # queues
    def q_find(self, q, c):
        for i, m in enumerate(q.m):
            if m[0] is c:
                return i
        return -1

    def q_has(self, q, c):
        return self.q_find(q, c) >= 0

    def q_insert(self, q, i, c, prio):
        if len(q.m) + 1 > q.cap:
            raise QFull()
        q.m.insert(i, [c, prio, self.t])
        c.qs.append(q)
        q.arr += 1
        tl(q.hist, self.t, len(q.m))
        tl(q.av_hist, self.t, q.cap - len(q.m))
        if q.kind == "store":
            self.store_arrival(q, c)

    def q_enter(self, q, c, prio):
        if self.q_has(q, c):
            raise ValueError
        if prio is None:
            prio = q.m[-1][1] if q.m else 0
            self.q_insert(q, len(q.m), c, prio)
        else:
            # behind the last one with priority <= prio, looking from the tail; in front of all if smaller than the first
            if q.m and prio < q.m[0][1]:
                i = 0
            else:
                i = len(q.m)
                while i > 0 and q.m[i - 1][1] > prio:
                    i -= 1
            self.q_insert(q, i, c, prio)

    def q_leave(self, q, c):
        i = self.q_find(q, c)
        if i < 0:
            raise ValueError
        m = q.m.pop(i)
        c.qs.remove(q)
        q.dep += 1
        q.stays.tally(self.t, self.t - m[2])
        tl(q.hist, self.t, len(q.m))
        tl(q.av_hist, self.t, q.cap - len(q.m))
        if q.kind == "store":
            self.store_departure(q)

    def q_cap(self, q, cap):
        q.cap = cap
        tl(q.cap_hist, self.t, cap)
        tl(q.av_hist, self.t, cap - len(q.m))

    def q_prio(self, q, c, prio):
        i = self.q_find(q, c)
        if i < 0:
            raise ValueError
        m = q.m[i]
        if m[1] != prio:
            q.m.pop(i)
            j = 0
            while j < len(q.m) and q.m[j][1] <= prio:
                j += 1
            m[1] = prio
            q.m.insert(j, m)

    # ------------------------------------------------------------- failing
    def check_fail(self, c):
        if c.reqs:
            rs = [self.res[r] for r in c.reqs]
            for r in rs:
                self.q_leave(r.rq, c)
            c.reqs = {}
            c.failed = True
            for r in rs:
                if r.hof or r.hhp:
                    self.retry(r)
        if c.waits:
            for s in c.waits:
                if self.q_has(self.states[s[0]].wq, c):
                    self.q_leave(self.states[s[0]].wq, c)
            c.waits = []
            c.failed = True
        if c.fs:
            for s in c.fs:
                self.q_leave(self.stores[s].fq, c)
            c.fs = []
            c.failed = True
        if c.tos:
            for s in c.tos:
                self.q_leave(self.stores[s].tq, c)
            c.tos = []
            c.failed = True

    def unschedule(self, c, nomain=True):
        """what every forced call on a non current component does first"""
        self.remove(c)
        self.check_fail(c)

    # ------------------------------------------------------------- process interaction. actor is the caller
    # every method returns True if c is now blocked
    def setmode(self, c, mode):
        if mode is not None:
            c.mode = mode
            c.mode_t = self.t
            if isinstance(c.id, int):
                tl(self.mhist[c.id], self.t, mode)

    def hold(self, c, d, prio=0, urgent=False, interrupted=0, mode=None):
        if c.status == DATA:
            raise ValueError
        if c.status not in (PASS, CUR):
            self.unschedule(c)
        self.setmode(c, mode)
        if interrupted:
            c.rd = (self.t + d) - self.t
            c.lvl = interrupted
            c.sched = INF
            self.st(c, INT)
        else:
            self.st(c, SCHED)
            self.push(c, self.t + d, prio, urgent)

    def passivate(self, c, mode=None):
        if c.status == DATA:
            raise ValueError
        if c.status == CUR:
            c.rd = 0.0
        else:
            old = c.status
            self.unschedule(c)
            if old != INT:
                c.rd = c.sched - self.t
        c.sched = INF
        self.setmode(c, mode)
        self.st(c, PASS)

    def interrupt(self, c, mode=None):
        if c.status not in (SCHED, INT):
            raise ValueError
        self.setmode(c, mode)
        if c.status == INT:
            c.lvl += 1
        else:
            self.remove(c)
            c.rd = c.sched - self.t
            c.sched = INF
            c.lvl = 1
            self.st(c, INT)

    def resume(self, c, all, prio=0, urgent=False, mode=None):
        if c.status != INT:
            raise ValueError
        self.setmode(c, mode)
        c.lvl -= 1
        if c.lvl and not all:
            return
        self.st(c, SCHED)
        self.push(c, self.t + c.rd, prio, urgent)

    def cancel(self, c, mode=None):
        if c.status == DATA:
            return
        if c.status != CUR:
            self.unschedule(c)
        for r in list(c.claims):
            self.release(c, self.res[r])
        c.proc = None
        c.script = None
        c.sched = INF
        self.setmode(c, mode)
        self.st(c, DATA)

    def standby(self, c, mode=None):
        if c.status == DATA:
            raise ValueError
        if c.status != CUR:
            self.unschedule(c)
        c.sched = self.t
        self.setmode(c, mode)
        self.stby.append(c)
        self.st(c, STBY)

    def activate(self, c, delay=0.0, at=None, prio=0, urgent=False, proc=None, mode=None, arg=None, kreq=False, kwait=False):
        if c.status == DATA and proc is None:
            proc = 0
        if proc is not None:
            c.script = proc
            c.proc = proc
            c.pc = 0
            c.lastfrom = False
            c.crashed = False
            c.arg = arg
        st = SCHED
        if proc is None and ((kreq and c.status == REQ) or (kwait and c.status == WAIT)):
            self.remove(c)  # just another fail time
            st = c.status
        elif c.status != CUR:
            self.unschedule(c)
        self.setmode(c, mode)
        t = self.t + delay if at is None else at + self.off + delay
        self.st(c, st)
        self.push(c, t, prio, urgent)

    def set_rd(self, c, v, prio=0, urgent=False):
        if c.status in (PASS, INT):
            c.rd = v
        elif c.status in (CUR, STBY):
            raise ValueError
        else:
            self.remove(c)
            self.push(c, self.t + v, prio, urgent)

    def rd_of(self, c):
        if c.status in (PASS, INT):
            return c.rd
        if c.status in (SCHED, WAIT, REQ):
            return c.sched - self.t
        return 0

    # resources
    def honorable_one(self, c, r):
        R = self.res[r]
        q = c.reqs[r]
        if R.hof and R.rq.m[0][0] is not c:
            return False
        if R.hhp:
            if R.rq.m[self.q_find(R.rq, c)][1] != R.rq.m[0][1]:
                return False
        if q > 0:
            return q <= R.cap - R.claimed + 1e-8
        return -q <= R.claimed + 1e-8

    def try_one(self, c):
        """honors c's request if possible"""
        if c.oneof:
            take = [r for r in c.reqs if self.honorable_one(c, r)][:1]
        else:
            take = list(c.reqs) if all(self.honorable_one(c, r) for r in c.reqs) else []
        if not take:
            return False
        again = []
        for r in list(c.reqs):
            R = self.res[r]
            if R.anon or R.hof or R.hhp:
                again.append(R)
            if r in take:
                R.claimed += c.reqs[r]
                if not R.anon:
                    c.claims[r] = c.claims.get(r, 0) + c.reqs[r]
                    if not self.q_has(R.cq, c):
                        self.q_enter(R.cq, c, R.rq.m[self.q_find(R.rq, c)][1])
                tl(R.hist, self.t, R.claimed)
                tl(R.av_hist, self.t, R.cap - R.claimed)
                tl(R.occ_hist, self.t, 0 if R.cap <= 0 else R.claimed / R.cap)
            self.q_leave(R.rq, c)
        c.reqs = {}
        self.remove(c)
        self.st(c, SCHED)
        self.push(c, self.t, 0, False)
        for R in again:
            self.retry(R)
        return True

    def retry(self, R):
        if R.trying:
            return
        R.trying = True
        again = True
        while again:
            again = False
            for c, prio in [(m[0], m[1]) for m in R.rq.m]:
                if R.hof and c is not R.rq.m[0][0]:
                    break
                if R.hhp and prio != R.rq.m[0][1]:
                    break
                through = c.oneof and self.honorable_one(c, R.id)
                if self.try_one(c):
                    if c.oneof and not through:
                        # served by another resource than the one that is rescanned: the order
                        # among those that become current now is not specified
                        self.odd = min(self.odd, len(self.log))
                    again = True
                    break
        R.trying = False

    def fail_time(self, o):
        f = o.get("fail")
        return INF if f is None else self.t + max(0, f)  # a negative one goes with cap_now

    def request(self, c, specs, o, sign=1):
        if c.status == DATA:
            raise ValueError
        c.oneof = bool(o.get("oneof"))
        if c.status != CUR:
            self.unschedule(c)
        t = self.fail_time(o)
        self.setmode(c, o.get("mode"))
        c.failed = False
        for r, q, prio in specs:
            R = self.res[r]
            if prio is None:
                prio = o.get("rp", 0)
            if prio == "tail":
                prio = None
            q = sign * q
            if r in c.reqs:
                c.reqs[r] += q
                continue
            c.reqs[r] = q
            self.q_enter(R.rq, c, prio)
            if R.pre:
                av = R.cap - R.claimed
                cand = []
                for m in reversed(R.cq.m):
                    if av >= q or prio >= m[1]:
                        break
                    av += m[0].claims[r]
                    cand.append(m[0])
                if av + 1e-8 >= q:
                    for b in cand:
                        self.release(b, R, bump=True)
                        self.activate(b)
        c.rd = t - self.t
        self.try_one(c)
        if c.reqs:
            self.st(c, REQ)
            self.push(c, t, o.get("prio", 0), o.get("urgent", False))

    def release(self, c, R, q=None, bump=False):
        if R.id not in c.claims:
            raise ValueError
        if q is None or q > c.claims[R.id]:
            q = c.claims[R.id]
        R.claimed -= q
        c.claims[R.id] -= q
        if c.claims[R.id] < 1e-8:
            self.q_leave(R.cq, c)
            if not R.cq.m:
                R.claimed = 0
            del c.claims[R.id]
        tl(R.hist, self.t, R.claimed)
        tl(R.av_hist, self.t, R.cap - R.claimed)
        tl(R.occ_hist, self.t, 0 if R.cap <= 0 else R.claimed / R.cap)
        if not bump:
            self.retry(R)

    def res_release(self, R, q):
        if R.anon:
            R.claimed -= R.claimed if q is None else q
            if R.claimed < 1e-8:
                R.claimed = 0
            tl(R.hist, self.t, R.claimed)
            tl(R.av_hist, self.t, R.cap - R.claimed)
            tl(R.occ_hist, self.t, 0 if R.cap <= 0 else R.claimed / R.cap)
            self.retry(R)
        else:
            if q is not None:
                raise ValueError
            for c in [m[0] for m in R.cq.m]:
                # a component honored meanwhile is not released, a released one may have claimed again
                if self.q_has(R.cq, c) and R.id in c.claims:
                    self.release(c, R)

    def set_cap(self, R, cap):
        R.cap = cap
        tl(R.cap_hist, self.t, cap)
        tl(R.av_hist, self.t, R.cap - R.claimed)
        tl(R.occ_hist, self.t, 0 if R.cap <= 0 else R.claimed / R.cap)
        self.retry(R)

    # states
    def cond_one(self, w):
        s, kind, val = w
        v = self.states[s].v
        if kind == "boom":
            if v == val:
                raise Boom()
            return False
        if kind == "eq":
            return v == val % len(self.states[s].dom)
        if kind == "lt":  # expression or function: value < val
            return v < val
        if kind == "in":
            return v in val
        raise AssertionError

    def try_wait(self, c):
        if c.cond is not None:
            h = sum(self.states[s].v for s in c.cond[0])
            if h == c.cond[2]:
                raise Boom()
            h = h >= c.cond[1]
        elif c.wall:
            h = all(self.cond_one(w) for w in c.waits)
        else:
            h = any(self.cond_one(w) for w in c.waits)
        if h:
            for w in c.waits:
                q = self.states[w[0]].wq
                if self.q_has(q, c):
                    self.q_leave(q, c)
            c.waits = []
            self.remove(c)
            self.st(c, SCHED)
            self.push(c, self.t, 0, False)
        return h

    def wait(self, c, specs, o, cond=None):
        if c.status == DATA:
            raise ValueError
        c.cond = cond
        if c.status != CUR:
            self.unschedule(c)
        c.wall = bool(o.get("all"))
        c.failed = False
        t = self.fail_time(o)
        self.setmode(c, o.get("mode"))
        for s, kind, val, prio in specs:
            if prio is None:
                prio = o.get("rp", 0)
            if prio == "tail":
                prio = None
            if not any(w[0] == s for w in c.waits):
                self.q_enter(self.states[s].wq, c, prio)
            c.waits.append((s, kind, tuple(val) if isinstance(val, list) else val))
        c.rd = t - self.t
        self.try_wait(c)
        if c.waits:
            self.st(c, WAIT)
            self.push(c, t, o.get("prio", 0), o.get("urgent", False))

    def s_retry(self, S, mx=INF):
        for c in [m[0] for m in S.wq.m]:
            if self.q_has(S.wq, c) and self.try_wait(c):
                mx -= 1
                if mx == 0:
                    return

    def s_set(self, S, v):
        v %= len(S.dom)
        if S.v != v:
            S.v = v
            tl(S.hist, self.t, S.dom[v])
            self.s_retry(S)

    def s_trigger(self, S, v, after, mx):
        if after is None:
            after = S.v
        S.v = v % len(S.dom)
        tl(S.hist, self.t, S.dom[S.v])
        self.s_retry(S, INF if mx is None else mx)
        S.v = after % len(S.dom)
        tl(S.hist, self.t, S.dom[S.v])
        self.s_retry(S)

    # stores
    def accepts(self, f, item):
        if f is None:
            return True
        if len(f) > 2 and item.id[1] % 4 == f[2]:
            raise Boom()
        return item.id[1] % f[0] == f[1]

    def store_arrival(self, q, item):
        S = q.store
        for c in [m[0] for m in S.fq.m]:
            if self.q_has(S.fq, c) and self.accepts(c.fs_filter, item):
                self.give(c, S, item)
                return

    def give(self, c, S, item):
        """item, in store S, is handed to waiting taker c"""
        for s in c.fs:
            self.q_leave(self.stores[s].fq, c)
        c.fs = []
        try:
            self.q_leave(S.q, item)
        finally:  # the filter of another taker may raise an exception
            c.fs_item = item
            c.fs_store = S.id
            self.remove(c)
            self.st(c, SCHED)
            c.ret = item
            self.push(c, self.t, 0, False)

    def store_departure(self, q):
        S = q.store
        if q.cap - len(q.m) > 0 and S.tq.m:
            self.admit(S.tq.m[0][0], S)

    def admit(self, c, S):
        for s in c.tos:
            self.q_leave(self.stores[s].tq, c)
        c.tos = []
        try:
            self.q_enter(S.q, c.ts_item, c.ts_prio)
        finally:
            self.remove(c)
            self.st(c, SCHED)
            self.push(c, self.t, 0, False)
            c.ts_item = None
            c.ts_store = S.id

    def from_store(self, c, ss, filt, key, o):
        if c.status == DATA:
            raise ValueError
        if c.status != CUR:
            self.unschedule(c)
        t = self.fail_time(o)
        self.setmode(c, o.get("mode"))
        c.failed = False
        cands = []
        for s, it in [(s, m[0]) for s in ss for m in self.stores[s].q.m]:
            if self.accepts(filt, it):
                cands.append((s, it))
                if key is None:
                    break
        if cands:
            if key is not None:
                k = {"id": lambda x: x[1].id[1], "-id": lambda x: -x[1].id[1], "mod3": lambda x: x[1].id[1] % 3}[key]
                best = min(cands, key=k)  # first of the smallest
            else:
                best = cands[0]
            S = self.stores[best[0]]
            self.q_leave(S.q, best[1])
            c.fs_item = best[1]
            c.fs_store = S.id
            self.remove(c)
            self.st(c, SCHED)
            c.ret = best[1]
            self.push(c, self.t, 0, False)
            return
        c.fs = list(ss)
        for s in ss:
            self.q_enter(self.stores[s].fq, c, o.get("rp", 0))
        self.st(c, REQ)
        c.ret = None
        c.fs_item = None
        c.fs_filter = filt
        self.push(c, t, o.get("prio", 0), o.get("urgent", True))

    def to_store(self, c, ss, item, prio, o):
        if c.status == DATA:
            raise ValueError
        if c.status != CUR:
            self.unschedule(c)
        t = self.fail_time(o)
        self.setmode(c, o.get("mode"))
        c.failed = False
        for s in ss:
            S = self.stores[s]
            if S.q.cap - len(S.q.m) > 0:
                self.q_enter(S.q, item, prio)
                c.ts_item = None
                c.ts_store = s
                self.remove(c)
                self.st(c, SCHED)
                self.push(c, self.t, 0, False)
                return
        for s in ss:
            self.q_enter(self.stores[s].tq, c, o.get("rp", 0))
        self.st(c, REQ)
        c.ts_item = item
        c.ts_prio = prio
        c.tos = list(ss)
        self.push(c, t, o.get("prio", 0), o.get("urgent", True))

    def rescan(self, S):
        for c in [m[0] for m in S.fq.m]:
            if self.q_has(S.fq, c):
                for item in [m[0] for m in S.q.m]:
                    if self.q_has(S.q, item) and self.accepts(c.fs_filter, item):
                        self.give(c, S, item)
                        break

    def set_filter(self, c, f):
        c.fs_filter = f
        for s in list(c.fs):
            if s in c.fs:
                self.rescan(self.stores[s])

    def store_cap(self, S, cap):
        old = S.q.cap
        self.q_cap(S.q, cap)
        if cap >= old:
            for c in [m[0] for m in S.tq.m]:
                if self.q_has(S.tq, c):
                    if S.q.cap - len(S.q.m) > 0:
                        self.admit(c, S)
                    else:
                        break

    # ------------------------------------------------------------- execution
    def snap(self):
        off = self.off
        u = self.uid

        def qv(q):
            return tuple((u(m[0]), m[1], m[2] - off) for m in q.m)

        comps = tuple(
            None
            if not c.created
            else (
                c.status,
                c.sched - off,
                self.rd_of(c),
                c.lvl if c.status == INT else 0,
                c.failed,
                tuple(sorted(c.claims.items())),
                tuple(sorted(c.reqs.items())),
                c.mode,
                c.mode_t - off,
                self.evprio(c),
                c.proc,
                u(c.fs_item),
                c.fs_store,
                c.ts_store,
            )
            for c in self.comps
        )
        res = tuple(
            (
                R.cap,
                R.claimed,
                R.cap - R.claimed,
                0 if R.cap <= 0 else R.claimed / R.cap,
                tuple((u(m[0]), m[1], m[2] - off, m[0].reqs[R.id]) for m in R.rq.m),
                tuple((u(m[0]), m[1], m[2] - off, m[0].claims[R.id]) for m in R.cq.m),
            )
            for R in self.res
        )
        states = tuple((S.dom[S.v], qv(S.wq)) for S in self.states)
        stores = tuple((S.q.cap, S.q.cap - len(S.q.m), qv(S.q), qv(S.fq), qv(S.tq)) for S in self.stores)
        queues = tuple((q.cap, q.cap - len(q.m), qv(q)) for q in self.queues)
        return (self.t - off, comps, res, states, stores, queues)

    def uid(self, c):
        return None if c is None else c.id

    def emit(self, *a):
        self.log.append(a + (self.snap(),))

    def run_comp(self, c):
        """c just became current; executes its script until it blocks or ends"""
        ret = self.uid(c.ret) if c.lastfrom else None
        if c.pc == 0:
            ret = c.arg
        c.ret = None
        c.lastfrom = False
        self.emit("in", c.id, c.script, c.pc, ret)
        while True:
            script = self.prog["comps"][c.id]["scripts"][c.script]
            if c.pc >= len(script) or self.budget <= 0:
                self.emit("end", c.id)
                c.taken = True
                break
            self.budget -= 1
            op = script[c.pc]
            c.pc += 1
            c.lastfrom = op[0] == "from" and op[1] is None
            try:
                outcome = self.exec(c, op)
            except Boom:
                outcome = "crash"
            if outcome == "crash":
                c.crashed = True
                self.emit("crash", c.id)
                raise Boom()
            if outcome is None:
                return  # blocked
            c.lastfrom = False
            self.emit("op", c.id, op[0], outcome)
        self.terminate(c)

    def is_event(self, c):
        return isinstance(c.id, int) and self.prog["comps"][c.id].get("event", False)

    def terminate(self, c):
        for r in list(c.claims):
            self.release(c, self.res[r])
        self.st(c, DATA)
        c.sched = INF
        c.proc = None
        c.script = None
        c.fs_item = None
        c.ts_item = None

    def step(self):
        cur = self.current
        if not cur.skip and self.pend:
            c = self.pend.pop(0)
            self.st(c, CUR)
            c.sched = INF
            self.current = c
            self.start(c)
            return
        self.pend.extend(self.stby)
        self.stby = []
        if self.ev:
            e = self.ev.pop(0)
            c = e[3].c
            self.t = e[0]
        else:
            c = self.main
            if not self.end_empty:
                self.t = INF
        self.current = c
        self.st(c, CUR)
        c.sched = INF
        if c is self.main:
            self.running = False
            return
        self.check_fail(c)
        self.start(c)

    def start(self, c):
        if c.crashed:  # its process is dead
            self.terminate(c)
            return
        self.run_comp(c)

    # one op; c is the acting component (or main). Returns None if the actor is blocked by it, otherwise the outcome
    def exec(self, c, op):
        try:
            return self.exec1(c, op)
        except ValueError:
            return "ValueError"
        except QFull:
            return "QueueFullError"
        except IndexError:
            return "IndexError"

    def exec1(self, c, op):
        n = op[0]
        if n in PI or n in TARGETED:
            if op[1] is None:
                x = c
            else:
                x = self.comps[op[1]]
                if not x.created or x.status == CUR:
                    return "skip"
            a = op[2:]
            if n == "hold":
                self.hold(x, a[0], a[1], a[2], mode=a[3])
            elif n == "holdtill":
                self.hold(x, a[0])
            elif n == "past":
                if not a[2] or x.status == DATA:
                    raise ValueError
                self.hold(x, 0, a[3])
            elif n == "skipset":
                x.skip = a[0]
                return "ok"
            elif n == "holdint":
                self.hold(x, a[0], interrupted=a[1])
            elif n == "pass":
                self.passivate(x, a[0])
            elif n == "stby":
                self.standby(x)
            elif n == "cancel":
                self.cancel(x)
            elif n == "act":
                delay, prio, urgent, proc, at, mode = a[:6]
                o = a[6] if len(a) > 6 else {}
                if self.is_event(x):
                    proc = None
                    o = dict(o, arg=None)
                if o.get("past"):
                    if not o.get("cap"):
                        raise ValueError
                    delay = 0
                kw = dict(prio=prio, urgent=urgent, proc=proc, mode=mode, arg=o.get("arg"), kreq=o.get("kreq"), kwait=o.get("kwait"))
                if at:
                    self.activate(x, at=(self.t - self.off) + delay, **kw)
                else:
                    self.activate(x, delay=delay, **kw)
            elif n in ("req", "get", "put"):
                if any(self.res[r].pre and (r in x.claims or r in c.claims) for r, _, _ in a[0]):
                    return "skip"
                self.request(x, a[0], a[1], -1 if n == "put" else 1)
            elif n == "wait":
                self.wait(x, a[0], a[1])
            elif n == "waitfor":
                self.wait(x, [(s, "none", None, None) for s in a[0]], a[2], cond=(a[0], a[1], a[2].get("boom")))
            elif n == "from":
                self.from_store(x, a[0], a[1], a[2], a[3])
            elif n == "to":
                if x.status == DATA:
                    raise ValueError
                self.to_store(x, a[0], self.new_item(), a[1], a[2])
            elif n == "int":
                self.interrupt(x, a[0])
                return "ok"
            elif n == "res":
                self.resume(x, a[0], a[1], a[2], a[3] if len(a) > 3 else None)
                return "ok"
            elif n == "rd":
                if x.status == DATA:
                    return "skip"
                self.set_rd(x, a[0], a[1], a[2])
                return "ok"
            elif n == "mode":
                self.setmode(x, a[0])
                return "ok"
            elif n == "rel":
                if a[0]:
                    for r, q in a[0]:
                        self.release(x, self.res[r], q)
                else:
                    for r in list(x.claims):
                        self.release(x, self.res[r])
                return "ok"
            elif n == "filter":
                self.set_filter(x, a[0])
                return "ok"
            return None if x is c else "ok"
        if n == "rrel":
            self.res_release(self.res[op[1]], op[2])
        elif n == "cap":
            self.set_cap(self.res[op[1]], op[2])
        elif n in ("sset", "sreset"):
            self.s_set(self.states[op[1]], op[2])
        elif n == "strig":
            self.s_trigger(self.states[op[1]], op[2], op[3], op[4])
        elif n == "senter":
            S = self.stores[op[1]]
            self.q_enter(S.q, self.new_item(), op[2])
        elif n == "spop":
            S = self.stores[op[1]]
            if len(S.q.m) <= op[2]:
                return "skip"
            it = S.q.m[op[2]][0]
            self.q_leave(S.q, it)
            return self.uid(it)
        elif n == "scap":
            self.store_cap(self.stores[op[1]], op[2])
        elif n == "rescan":
            self.rescan(self.stores[op[1]])
        elif n == "crash":
            return "crash"
        elif n == "stop":
            if self.running:
                self.activate(self.main)
            else:
                return "skip"
        elif n == "create":
            if self.comps[op[1]].created:
                return "skip"
            self.create(op[1])
        elif n == "rnow":
            self.off = self.t - op[1]
        elif n in ("mreset", "mon"):
            for m in self.monitors(op[1], op[2]):
                if n == "mon":
                    m.monitor(self.t, op[3])
                else:
                    m.reset(self.t, op[3])
        elif n == "rate":
            q = self.queue_of(op[1], op[2])
            if op[3]:
                q.arr, q.arr_t0 = 0, self.t
            else:
                q.dep, q.dep_t0 = 0, self.t
        elif n in ("trace", "gc", "info", "an"):
            pass
        elif n == "stat":
            o = self.res[op[2]] if op[1] == "res" else self.states[op[2]] if op[1] == "state" else self.queue_of(op[1], op[2])
            return o.hist.stat(self.t)
        elif n == "q":
            return self.qop(op[1:])
        elif n == "it":
            return self.iterate(op[1:])
        else:
            raise AssertionError(n)
        return "ok"

    def iterate(self, a):
        """an open iteration gives the first member (in queue order) that it did not give in this membership"""
        if a[0] == "open":
            self.iters[a[1]] = [self.queues[a[2]], a[3], []]
            return "ok"
        it = self.iters.get(a[1])
        if it is None:
            return "skip"
        q, rev, seen = it
        if q is not None:
            for e in reversed(q.m) if rev else q.m:
                if not any(e is x for x in seen):
                    seen.append(e)
                    return e[0].id
            it[0] = None  # exhausted for good
        return "stop"

    def queue_of(self, kind, i):
        if kind == "q":
            return self.queues[i]
        if kind in ("rq", "cq"):
            return getattr(self.res[i], kind)
        if kind == "wq":
            return self.states[i].wq
        return {"sq": self.stores[i].q, "fq": self.stores[i].fq, "tq": self.stores[i].tq}[kind]

    def monitors(self, kind, i):
        if kind == "res":
            R = self.res[i]
            return [R.rq.hist, R.rq.stays, R.cq.hist, R.cq.stays, R.hist, R.cap_hist, R.av_hist, R.occ_hist]
        if kind == "state":
            S = self.states[i]
            return [S.wq.hist, S.wq.stays, S.hist]
        q = self.queue_of(kind, i)
        return [q.hist, q.stays]

    def member(self, k):
        return self.members[k]

    def qop(self, a):
        n, q = a[0], self.queues[a[1]]
        m = self.member
        if n == "enter":
            self.q_enter(q, m(a[2]), a[3])
        elif n == "head":
            if self.q_has(q, m(a[2])):
                raise ValueError
            self.q_insert(q, 0, m(a[2]), q.m[0][1] if q.m else 0)
        elif n in ("front", "behind"):
            if self.q_has(q, m(a[2])):
                raise ValueError
            i = self.q_find(q, m(a[3]))
            if i < 0:
                raise ValueError
            self.q_insert(q, i + (n == "behind"), m(a[2]), q.m[i][1])
        elif n == "insert":
            if a[3] < 0 or a[3] > len(q.m):
                raise IndexError
            if self.q_has(q, m(a[2])):
                raise ValueError
            self.q_insert(q, a[3], m(a[2]), q.m[a[3]][1] if a[3] < len(q.m) else q.m[-1][1] if q.m else 0)
        elif n == "leave":
            self.q_leave(q, m(a[2]))
        elif n == "leaveall":
            for qq in list(m(a[2]).qs):
                self.q_leave(qq, m(a[2]))
        elif n == "prio":
            self.q_prio(q, m(a[2]), a[3])
        elif n == "pop":
            if a[2] is None:
                it = q.m[0][0] if q.m else None
            else:
                if not -len(q.m) <= a[2] < len(q.m):
                    raise IndexError
                it = q.m[a[2]][0]
            if it is not None:
                self.q_leave(q, it)
            return ("pop", self.uid(it))
        elif n == "clear":
            for e in list(q.m):
                self.q_leave(q, e[0])
        elif n == "cap":
            self.q_cap(q, a[2])
        elif n == "extend":
            src = self.queues[a[2]]
            if src is q:
                return "skip"
            for e in list(src.m):
                if not self.q_has(q, e[0]):
                    self.q_enter(q, e[0], None)
            if a[3]:
                for e in list(src.m):
                    self.q_leave(src, e[0])
        elif n == "del":
            sl = slice(*a[2])
            for e in q.m[sl]:
                self.q_leave(q, e[0])
        elif n == "delint":
            if not -len(q.m) <= a[2] < len(q.m):
                raise IndexError
            self.q_leave(q, q.m[a[2]][0])
        elif n == "extendl":
            for k in a[2]:
                if not self.q_has(q, m(k)):
                    self.q_enter(q, m(k), None)
        elif n == "fill":
            return tuple((m(k).id, 0) for k in a[2])
        elif n == "cmp":
            A, B = {e[0].id for e in q.m}, {e[0].id for e in self.queues[a[2]].m}
            return (A == B, A != B, A < B, A <= B, A > B, A >= B)
        elif n in ("union", "inter", "diff", "symdiff", "copy", "move", "slice"):
            A = [e[0].id for e in q.m]
            B = [e[0].id for e in self.queues[a[2]].m] if n != "slice" else None
            if n == "union":
                r = A + [x for x in B if x not in A]
            elif n == "inter":
                r = [x for x in A if x in B]
            elif n == "diff":
                r = [x for x in A if x not in B]
            elif n == "symdiff":
                r = [x for x in A if x not in B] + [x for x in B if x not in A]
            elif n == "slice":
                r = A[slice(*a[2])]
            else:
                r = [(e[0].id, e[1]) for e in q.m]
                if n == "move":
                    for e in list(q.m):
                        self.q_leave(q, e[0])
            return tuple(r)
        return "ok"

    def run(self):
        for i, op in enumerate(self.prog["main"]):
            n = op[0]
            if self.budget <= 0:
                break
            if n in ("run", "till", "runall", "runinf"):
                self.end_empty = False
                t = INF
                if n == "runall":
                    self.end_empty = True
                elif n in ("run", "till"):
                    t = self.t + op[1]
                self.remove(self.main)
                self.st(self.main, SCHED)
                self.push(self.main, t, INF if len(op) < 3 or op[2] is None else op[2], len(op) > 3 and op[3])
                out = "ok"
                try:
                    self.running = True
                    while self.running:
                        self.step()
                except Boom:
                    out = "Boom"
                self.running = False
            elif n == "step":
                out = "ok"
                try:
                    for _ in range(op[1]):
                        if not any(c.created and c.status != STBY and c.sched < INF for c in self.comps):
                            break
                        self.step()
                except Boom:
                    out = "Boom"
            else:
                self.budget -= 1
                try:
                    out = self.exec(self.main, op)
                except Boom:
                    out = "Boom"
            self.emit("main", i, n, out)
        return self.log


class EvC:
    """wrapper so that tuples in the event list never compare components"""

    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __lt__(self, other):
        return False


class StoreM:
    def __init__(self, i, cap):
        self.id = i
        self.q = Q(("st", i), cap=cap, kind="store")
        self.q.store = self
        self.fq = Q(("fq", i), kind="int")
        self.tq = Q(("tq", i), kind="int")

