"""Seeded generator of programs: models whose processes are op scripts, plus a main program with run slices and faults.

A program is plain JSON: the replay file of a violation is a (minimised) program.
All times are multiples of 1/4, so that all arithmetic is exact.
"""
import random

DUR = [0, 0.25, 0.5, 0.5, 1, 1, 1, 1.5, 2, 2, 3]
INF = float("inf")

# feature groups: op kind -> weight; a profile switches groups on
G = {
    "time": dict(hold=6, holdtill=1),
    "pi": {"pass": 1, "act": 1, "cancel": 0.3, "past": 0.1},
    "force": {"o:hold": 1, "o:act": 2, "o:pass": 1, "o:cancel": 0.6, "o:rd": 0.7, "mode": 0.3, "o:past": 0.2},
    "int": {"o:int": 2, "o:res": 2, "holdint": 0.4, "o:holdint": 0.3, "o:rd": 0.5},
    "stby": {"stby": 2, "o:stby": 0.6, "o:skipset": 0.2},
    "res": {"req": 4, "rel": 2, "rrel": 0.3, "cap": 0.6, "o:req": 0.25, "o:rel": 0.3},
    "anon": {"get": 3, "put": 3, "rrel": 0.4, "cap": 0.4},
    "state": {"wait": 4, "waitfor": 0.7, "sset": 4, "sreset": 0.7, "strig": 1.5, "o:wait": 0.3},
    "store": {"from": 4, "to": 4, "senter": 1.2, "spop": 0.8, "scap": 0.5, "filter": 0.7, "rescan": 0.2, "o:from": 0.2, "o:to": 0.2},
    "queue": {"q": 8},
    "iter": {"it": 8},
    "stop": {"stop": 0.4},
    "crash": {"crash": 0.5},
    "rnow": {"rnow": 0.6},
    "create": {"create": 0.8},
    "mon": {"mreset": 0.5, "mon": 0.7, "rate": 0.3, "stat": 0.8},
    "rand": {"samp": 1, "holdr": 2, "gen": 0.4, "txt": 0.4, "ms": 0.5},
    "an": {"an": 1.5, "stat": 0.7, "info": 0.1},
    "trace": {"trace": 1},
    "obs": {"trace": 0.5, "info": 0.2, "gc": 0.1, "stat": 0.4},
}

EVENT_OPS = {"sset", "sreset", "strig", "rrel", "cap", "crash", "q", "it"}
TGT = {"past", "skipset", "hold", "holdtill", "holdint", "pass", "stby", "cancel", "act", "req", "get", "put", "wait", "waitfor", "from", "to", "int", "res", "rd", "mode", "rel", "filter"}


class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random("%s|%s" % (prof["name"], seed))
        self.prof = prof
        self.seed = seed

    def ch(self, xs):
        return xs[self.r.randrange(len(xs))]

    def p(self, x):
        return self.r.random() < x

    def dur(self):
        return self.ch(DUR) if not self.tight else self.ch([0, 0, 0.5, 1, 1])

    def prio(self):
        return self.ch([0, 0, 0, 0, -1, 1, 2]) if self.prios else 0

    def comp(self):
        return self.r.randrange(self.nc)

    def fopts(self, kind):
        o = {}
        if self.p(self.pfail):
            o["fail"] = self.ch([0, 0.25, 0.5, 1, 1, 2, 3])
            if self.p(0.06):
                o["fail"] = self.ch([INF, -0.5, -1])
            if self.p(0.4):
                o["fat"] = True
        if self.prios and self.p(0.3):
            o["rp"] = self.ch([-1, 1, 2])
            if kind != "store" and self.p(0.1):
                o["rp"] = "tail"
        if self.p(0.15):
            o["prio"] = self.ch([-1, 1])
        if self.p(0.15):
            o["urgent"] = self.p(0.5)
        if self.p(0.08):
            o["mode"] = self.ch(["a", "b"])
        return o

    def mode(self):
        return self.ch(["a", "b"]) if self.p(0.1) else None

    def op(self, name, main=False):
        """one op; target None is the acting component itself"""
        r = self.r
        tgt = None
        if name.startswith("o:"):
            name = name[2:]
            tgt = self.comp()
            if tgt == self.me:
                if self.nc == 1:
                    return None
                tgt = (tgt + 1) % self.nc
        elif main and name in ("past", "skipset", "hold", "holdtill", "holdint", "pass", "stby", "cancel", "act", "req", "get", "put", "wait", "waitfor", "from", "to", "rel", "mode"):
            tgt = self.comp()
            if self.booms and name in ("wait", "waitfor", "from", "to"):
                return None
        P = self.prog
        if name == "hold":
            return ["hold", tgt, self.dur(), self.prio(), self.p(0.15), self.mode()]
        if name == "past":
            return ["past", tgt, self.ch([0.25, 1, 2]), self.p(0.5), self.ch([None, True, True, False]), self.prio()]
        if name == "skipset":
            return ["skipset", tgt, self.p(0.5)]
        if name == "holdtill":
            return ["holdtill", tgt, self.dur()]
        if name == "holdint":
            return ["holdint", tgt, self.dur(), self.ch([1, 1, 2])]
        if name == "pass":
            return ["pass", tgt, self.mode()]
        if name == "stby":
            return ["stby", tgt]
        if name == "cancel":
            return ["cancel", tgt]
        if name == "act":
            a = ["act", tgt, self.dur(), self.prio(), self.p(0.15), self.ch([None, None, None, 0, 1]) if self.p(0.5) else None, self.p(0.2), self.mode()]
            o = {}
            if a[5] is not None and self.p(0.4):
                o["arg"] = r.randrange(5)
            if self.p(0.1):
                o["kreq"] = True
            if self.p(0.1):
                o["kwait"] = True
            if self.p(0.06):
                o["past"] = self.ch([0.25, 1])
                o["cap"] = self.ch([None, True, True, False])
            return a + [o] if o else a
        if name == "int":
            return ["int", tgt, self.mode()]
        if name == "res":
            return ["res", tgt, self.p(0.3), self.prio(), self.p(0.1)] + ([self.ch(["m1", "m2", ""])] if self.p(0.2) else [])
        if name == "rd":
            return ["rd", tgt, self.dur(), self.prio(), self.p(0.1)]
        if name == "mode":
            return ["mode", tgt if tgt is not None or not main else self.comp(), self.ch(["a", "b", "c"]), self.p(0.3)]
        if name in ("req", "get", "put"):
            anon = [i for i, x in enumerate(P["res"]) if x.get("anon")]
            real = [i for i, x in enumerate(P["res"]) if not x.get("anon")]
            pool = anon if name != "req" else (real + anon if self.mixed else real)
            if not pool:
                return None
            pool = [i for i in pool if name == "req" or not P["res"][i].get("pre")]
            o = self.fopts(name)
            k = 1
            if self.multi and self.p(0.5):
                k = self.ch([2, 2, 3])
            rs = [self.ch(pool) for _ in range(k)]
            if any(P["res"][i].get("pre") for i in rs):
                rs = rs[:1]
            if not self.p(0.15):  # mostly distinct
                rs = list(dict.fromkeys(rs))
            specs = []
            if o.get("rp") == "tail" and any(P["res"][i].get("pre") for i in rs):
                del o["rp"]
            for i in rs:
                cap = P["res"][i]["cap"]
                specs.append([i, self.qty(cap), self.ch([None, None, -1, 0, 1, 2]) if self.prios else None])
            if len(set(rs)) > 1 and self.oneof and self.p(0.5):
                o["oneof"] = True
            return [name, tgt, specs, o]
        if name == "rel":
            real = [i for i, x in enumerate(P["res"]) if not x.get("anon")]
            if not real:
                return None
            if self.p(0.4):
                return ["rel", tgt, []]
            i = self.ch(real)
            return ["rel", tgt, [[i, self.ch([None, None, 1, 1, 0.5, 2])]]]
        if name == "rrel":
            if not P["res"]:
                return None
            i = r.randrange(len(P["res"]))
            return ["rrel", i, self.ch([None, 1, 1, 2]) if P["res"][i].get("anon") else None]
        if name == "cap":
            if not P["res"]:
                return None
            return ["cap", r.randrange(len(P["res"])), self.ch([0, 1, 2, 3, 4, 5]), self.p(0.2)]
        if name == "wait":
            if not P["states"]:
                return None
            k = self.ch([1, 1, 2, 2, 3])
            specs = []
            for _ in range(k):
                s = r.randrange(len(P["states"]))
                kind = self.ch(["eq", "eq", "lt", "in"])
                val = r.randrange(4) if kind != "in" else sorted({r.randrange(4), r.randrange(4)})
                if self.booms and self.p(0.15):
                    kind, val = "boom", r.randrange(4)
                specs.append([s, kind, val, self.ch([None, None, -1, 1]) if self.prios else None])
            o = self.fopts("wait")
            if self.p(0.4):
                o["all"] = True
            if self.p(0.4):
                o["expr"] = self.ch([1, 1, 2])
            return ["wait", tgt, specs, o]
        if name == "waitfor":
            if not P["states"]:
                return None
            ss = sorted({r.randrange(len(P["states"])), r.randrange(len(P["states"]))})
            o = self.fopts("wait")
            if self.booms and self.p(0.15):
                o["boom"] = r.randrange(5)
            return ["waitfor", tgt, ss, r.randrange(1, 6), o]
        if name in ("sset", "sreset"):
            if not P["states"]:
                return None
            return [name, r.randrange(len(P["states"])), r.randrange(4), self.p(0.1)]
        if name == "strig":
            if not P["states"]:
                return None
            return ["strig", r.randrange(len(P["states"])), r.randrange(4), self.ch([None, 0, 1, 2, 3]), self.ch([None, None, 1, 1, 2])]
        if name in ("from", "to", "senter", "spop", "scap", "rescan", "filter"):
            ns = len(P["stores"])
            if not ns:
                return None
            if name in ("from", "to"):
                ss = [r.randrange(ns)]
                if ns > 1 and self.multi and self.p(0.4):
                    ss = list(range(ns))
                    r.shuffle(ss)
                    ss = ss[: self.ch([2, ns])]
                o = self.fopts("store")
                if name == "from":
                    return ["from", tgt, ss, self.filt(), self.ch([None, None, None, "id", "-id", "mod3"]), o]
                return ["to", tgt, ss, self.prio(), o]
            if name == "senter":
                return ["senter", r.randrange(ns), self.ch([None, None, 0, 1, -1])]
            if name == "spop":
                return ["spop", r.randrange(ns), self.ch([0, 0, 1])]
            if name == "scap":
                return ["scap", r.randrange(ns), self.ch([1, 1, 2, 3, 4])]
            if name == "rescan":
                return ["rescan", r.randrange(ns)]
            return ["filter", self.comp(), self.filt()]
        if name == "crash":
            return ["crash"] if not main else None
        if name == "stop":
            return ["stop"] if not main else None
        if name == "create":
            late = [i for i, c in enumerate(P["comps"]) if c.get("late")]
            return ["create", self.ch(late)] if late else None
        if name == "rnow":
            return ["rnow", self.ch([0, 0, 0, 1, 5, 100, -3, 2.5])]
        if name in ("mreset", "mon", "rate", "stat"):
            kinds = [(k, i) for i in range(len(P["queues"])) for k in ("q",)]
            kinds += [(k, i) for i in range(len(P["res"])) for k in (("rq", "cq", "res") if name != "rate" else ("rq", "cq"))]
            num = [s.get("dom", "int") in ("int", "bool", "flt") for s in P["states"]]
            kinds += [(k, i) for i in range(len(P["states"])) for k in (("wq",) if name == "rate" or (name == "stat" and not num[i]) else ("wq", "state"))]
            kinds += [(k, i) for i in range(len(P["stores"])) for k in ("sq", "sq", "fq", "tq")]
            if not kinds:
                return None
            k, i = self.ch(kinds)
            if name == "stat":
                return [name, k, i]
            return [name, k, i, self.ch([None, None, True, False]) if name == "mreset" else self.p(0.6)]
        if name == "trace":
            return ["trace", self.p(0.5)]
        if name in ("info", "gc"):
            return [name]
        if name in ("samp", "holdr"):
            return None if main and name == "holdr" else [name, r.randrange(6)]
        if name == "gen":
            return [name, r.randrange(6), self.ch([1, 2, 3, 5]), self.ch([0, 1, 2])]
        if name == "txt":
            return [name, r.randrange(7)]
        if name == "ms":
            return [name, self.ch(["slice", "merge", "freeze", "map", "pct", "resample", "period", "copy", "df"]), r.randrange(8)]
        if name == "an":
            return ["an"] + self.anop()
        if name == "q":
            return self.qop()
        if name == "it":
            if not P["queues"]:
                return None
            if self.p(0.25):
                return ["it", "open", r.randrange(3), r.randrange(len(P["queues"])), self.p(0.4)]
            return ["it", "next", r.randrange(3)]
        raise AssertionError(name)

    def anop(self):
        k = self.ch(["speed", "speed", "animate", "animate", "synced", "synced", "paused", "obj", "obj", "rmobj", "size", "fps", "animate2", "snap"])
        if k == "speed":
            return [k, self.ch([4, 8, 16, 50, 200, 1000])]
        if k in ("animate", "synced", "paused"):
            return [k, self.p(0.6)]
        if k == "obj":
            return [k, self.ch(["text", "queue", "mon", "rect", "line", "button"]), self.r.randrange(4)]
        if k == "size":
            return [k, self.ch([60, 80, 100]), self.ch([40, 60])]
        if k == "fps":
            return [k, self.ch([5, 30, 60])]
        return [k]

    def filt(self):
        if self.p(0.35):
            return None
        m = self.ch([2, 2, 3])
        f = [m, self.r.randrange(m)]
        if self.booms and self.p(0.2):
            f.append(self.r.randrange(4))
        return f

    def qty(self, cap):
        c = max(1, int(cap))
        if self.p(0.1):
            return 0.5
        if self.p(0.05):
            return c + 1
        return self.ch([1, 1, 1] + list(range(1, c + 1)))

    def qop(self):
        r = self.r
        P = self.prog
        nq, nm = len(P["queues"]), P["nmembers"]
        if not nq:
            return None
        n = self.ch(
            ["enter"] * 8
            + ["head", "front", "behind", "insert"]
            + ["leave"] * 3
            + ["leaveall"]
            + ["prio"] * 3
            + ["pop"] * 2
            + ["clear", "cap", "cap", "extend", "del", "slice", "union", "inter", "diff", "symdiff", "copy", "move", "delint", "extendl", "fill", "cmp"]
        )
        q = r.randrange(nq)
        m = r.randrange(nm)
        how = r.randrange(5)
        if n == "enter":
            return ["q", n, q, m, self.ch([None, None, 0, 1, 1, 2, -1]), how]
        if n in ("head", "leave"):
            return ["q", n, q, m, how % 2]
        if n in ("front", "behind"):
            return ["q", n, q, m, r.randrange(nm), how % 2]
        if n == "insert":
            return ["q", n, q, m, r.randrange(-1, 5), 0]
        if n == "leaveall":
            return ["q", n, q, m, 0]
        if n == "prio":
            return ["q", n, q, m, self.ch([0, 1, 2, -1]), 0]
        if n == "pop":
            return ["q", n, q, self.ch([None, None, 0, 1, -1, 2]), 0]
        if n == "clear":
            return ["q", n, q, how % 2]
        if n == "delint":
            return ["q", n, q, self.ch([0, 1, -1, 2, -2, 4]), 0]
        if n in ("extendl", "fill"):
            ms = [r.randrange(nm) for _ in range(self.ch([0, 1, 2, 3]))]
            return ["q", n, q, ms if n == "extendl" else sorted(set(ms), reverse=True), how % 2]
        if n == "cmp":
            return ["q", n, q, r.randrange(nq), 0]
        if n == "cap":
            return ["q", n, q, self.ch([1, 2, 3, 4, INF]), how % 2]
        if n == "extend":
            return ["q", n, q, r.randrange(nq), self.p(0.3), 0]
        if n in ("del", "slice"):
            sl = [self.ch([None, 0, 1, 2, -1, -2]), self.ch([None, 1, 2, 3, -1]), self.ch([None, None, 1, 2, -1, -2])]
            return ["q", n, q, sl, 0]
        return ["q", n, q, r.randrange(nq), how % 4]

    def make(self):
        prof, r = self.prof, self.r
        groups = dict(prof["groups"])  # name -> multiplier
        opt = prof.get("optional", [])
        for g in opt:  # swarm testing: each run has its own subset of features
            if g in groups and self.p(0.4):
                del groups[g]
        self.tight = self.p(0.5)
        self.prios = self.p(0.6)
        self.multi = self.p(prof.get("multi", 0.4))
        self.oneof = self.p(prof.get("oneof", 0.4))
        self.mixed = self.p(prof.get("mixed", 0.3))
        self.pfail = self.ch(prof.get("pfail", [0, 0.3, 0.6]))
        self.booms = "crash" in groups and self.p(prof.get("booms", 0))
        W = {}
        for g, mult in groups.items():
            for k, w in G[g].items():
                if self.booms and k in ("o:wait", "o:from", "o:to"):
                    continue  # a call for another component with a condition that raises an exception is not covered
                W[k] = W.get(k, 0) + w * mult
        names = sorted(W)
        # per run random reweighing
        weights = [W[k] * self.ch([0.3, 1, 1, 2]) for k in names]
        nc = self.nc = self.ch(prof.get("nc", [2, 3, 3, 4, 4, 5, 6]))
        P = self.prog = dict(seed=r.randrange(1 << 30), yieldless=(self.p(0.7) if prof.get("yieldless") is None else prof["yieldless"]), budget=prof.get("budget", 120))
        P["res"], P["states"], P["stores"], P["queues"], P["comps"], P["nmembers"] = [], [], [], [], [], 0
        if "res" in groups:
            for _ in range(self.ch(prof.get("nres", [1, 1, 2, 2, 3]))):
                x = dict(cap=self.ch([1, 1, 2, 2, 3, 4]))
                rule = r.random()
                ph, pp = prof.get("p_hof", 0.25), prof.get("p_pre", 0.12)
                if rule < ph:
                    x[self.ch(["hof", "hhp"])] = True
                elif rule < ph + pp:
                    x["pre"] = True
                P["res"].append(x)
        if "anon" in groups:
            for _ in range(self.ch([1, 2, 2, 3])):
                cap = self.ch([1, 2, 3, 4])
                x = dict(cap=cap, anon=True, init=self.ch([0, cap, cap, 1]))
                if self.p(0.12):
                    x[self.ch(["hof", "hhp"])] = True
                P["res"].append(x)
        if "state" in groups:
            for _ in range(self.ch([1, 2, 2, 3])):
                P["states"].append(dict(value=r.randrange(3), dom=self.ch(["int", "int", "bool", "bool", "str", "tup", "flt"])))
        if "store" in groups:
            for _ in range(self.ch([1, 1, 2, 2, 3])):
                cap = self.ch([1, 1, 2, 3, INF])
                P["stores"].append(dict(cap=cap, fill=min(cap, self.ch([0, 0, 1, 2]))))
        if "queue" in groups:
            P["nmembers"] = self.ch([3, 4, 5, 6])
            for _ in range(self.ch([1, 2, 2, 3])):
                P["queues"].append(dict(cap=self.ch([INF, INF, 1, 2, 3, 4])))
        for i in range(nc):
            c = {}
            c["start"] = 0 if self.p(0.9) else None
            if self.p(0.7):
                c["at" if self.p(0.5) else "delay"] = self.ch([0, 0, 0.5, 1, 1, 2])
            if self.prios and self.p(0.3):
                c["prio"] = self.prio()
            if self.p(0.1):
                c["urgent"] = True
            if "stby" in groups and self.p(0.3):
                c["skip"] = True
            if "create" in groups and self.p(0.3):
                c["late"] = True
            if self.p(prof.get("p_event", 0)):
                c["event"] = True
                if not self.booms and self.p(0.5):
                    c["plain"] = True  # with yields: a process that is an ordinary method, in stead of an Event
                c["start"] = 0
            P["comps"].append(c)
        for i in range(nc):
            self.me = i
            ns = 2
            if P["comps"][i].get("event"):
                s = [o for o in self.script(names, weights, self.ch([0, 0, 1, 2])) if o[0] in EVENT_OPS or (len(o) > 1 and o[0] in TGT and o[1] is not None)]
                P["comps"][i]["scripts"] = [s, []]
                continue
            P["comps"][i]["scripts"] = [self.script(names, weights, self.ch(prof.get("len", [3, 5, 7, 9, 12])) if k == 0 else self.ch([1, 3, 5])) for k in range(ns)]
        self.me = -1
        main = []
        for _ in range(self.ch(prof.get("slices", [1, 2, 3, 4]))):
            for _ in range(self.ch([0, 0, 1, 2])):
                o = self.op(r.choices(names, weights)[0], main=True)
                if o is not None:
                    main.append(o)
            k = r.random()
            if k < 0.5:
                main.append(["run", self.ch([0, 0.5, 1, 1, 2, 3, 5])] + self.runopts())
            elif k < 0.85 or not prof.get("step"):
                main.append(["till", self.ch([0, 0.5, 1, 1, 2, 3, 5])] + self.runopts())
            else:
                if any(m[0] in ("run", "till") for m in main):
                    main.append(["step", self.ch([1, 1, 2, 3, 5])])
                else:
                    main.append(["run", 0])
        main.append(["run", 20])
        if self.p(0.3):
            o = self.op(r.choices(names, weights)[0], main=True)
            if o is not None:
                main.append(o)
            main.append(["runall"])
        P["main"] = main
        return P

    def runopts(self):
        return [self.ch([None, 0, -1, 1, 2]), self.p(0.2)] if self.p(0.1) else []

    def script(self, names, weights, n):
        out = []
        while len(out) < n:
            o = self.op(self.r.choices(names, weights)[0])
            if o is None:
                if self.p(0.1):
                    break
                continue
            out.append(o)
        return out


PROFILES = {
    "C01": dict(groups=dict(time=2, pi=0.7, force=1.0, int=0.5, create=1, res=0.3), optional=["pi", "int", "create", "res"], nc=[3, 4, 5, 6, 8]),
    "C02": dict(p_event=0.08, groups=dict(time=1, pi=2, force=2, int=0.7, stby=0.5, res=0.4, state=0.4, store=0.4, create=0.5), optional=["int", "stby", "res", "state", "store", "create"]),
    "C03": dict(groups=dict(time=1.5, pi=0.3, force=0.7, int=3, res=0.3, store=0.3), optional=["pi", "force", "res", "store"]),
    "C04": dict(groups=dict(time=1, pi=0.3, force=1, int=0.3, res=3, anon=0.3), optional=["force", "int", "anon", "pi"]),
    "C05": dict(groups=dict(time=1, pi=0.2, force=0.6, int=0.3, res=3, anon=0.2), optional=["force", "int", "anon", "pi"], p_hof=0.5, p_pre=0.05, nc=[3, 4, 5, 6, 7]),
    "C06": dict(groups=dict(time=1.2, pi=0.3, force=0.5, int=0.4, res=3), optional=["force", "int", "pi"], p_hof=0.05, p_pre=0.75, nres=[1, 1, 2], nc=[3, 4, 5, 6]),
    "C07": dict(groups=dict(time=1, pi=0.2, force=0.8, int=0.4, res=0.5, anon=3), optional=["force", "int", "res", "pi"], mixed=0.5),
    "C08": dict(groups=dict(time=1, pi=0.2, force=0.5, int=0.2, res=3, anon=1), optional=["force", "int", "anon", "pi"], multi=0.95, oneof=0.6, mixed=0.5, nres=[2, 3, 3, 4], p_pre=0.02),
    "C09": dict(groups=dict(time=1, pi=0.2, force=0.5, int=0.4, state=3), optional=["force", "int", "pi"]),
    "C10": dict(groups=dict(time=1, pi=0.2, force=1.2, int=0.3, res=1.5, anon=0.7, state=1.5, store=1.5), optional=["int", "res", "anon", "state", "store", "pi"], pfail=[0.5, 0.8], multi=0.6),
    "C11": dict(groups=dict(time=1, pi=0.2, force=0.7, int=0.4, store=3), optional=["force", "int", "pi"], multi=0.6),
    "C12": dict(groups=dict(time=0.8, pi=0.1, force=0.4, store=3), optional=["force", "pi"], multi=0.6, nc=[4, 5, 6, 7]),
    "C13": dict(groups=dict(time=0.5, queue=3), nc=[1, 2, 3], budget=80),
    "C14": dict(groups=dict(time=0.7, queue=1.5, iter=2), nc=[1, 2, 3, 4], budget=120, len=[6, 9, 12, 20]),
    "C25": dict(booms=0.3, groups=dict(time=1.2, pi=0.3, force=2, int=1.2, stby=0.4, state=0.4, res=0.3, create=1, crash=0.2), optional=["pi", "int", "stby", "state", "res", "create", "crash"], p_event=0.6, nc=[3, 4, 5, 6, 8]),
    "C15": dict(groups=dict(time=1.4, queue=1.2, res=1, state=0.6, store=0.8, force=0.4, mon=1.5), optional=["res", "state", "store", "force", "queue", "mon"], budget=100),
    "C19": dict(p_event=0.08, groups=dict(time=1.2, pi=0.4, force=0.8, int=0.3, stby=3, res=0.3, state=0.3), optional=["pi", "force", "int", "res", "state"], nc=[3, 4, 5, 6]),
    "C20": dict(groups=dict(time=1.5, pi=0.4, force=0.6, int=0.4, res=0.6, state=0.5, store=0.5, stop=2, stby=0.2), optional=["pi", "force", "int", "res", "state", "store", "stby"], step=True, slices=[3, 4, 6, 8]),
    "C21": dict(p_event=0.08, groups=dict(time=1, pi=0.6, force=1, int=0.6, stby=0.4, res=0.8, anon=0.5, state=0.8, store=1, create=0.4, stop=0.3), optional=["pi", "force", "int", "stby", "res", "anon", "state", "store", "create", "stop"]),
    "C23": dict(groups=dict(time=1.5, pi=0.4, force=0.6, int=0.4, res=0.6, state=0.6, store=0.6, rnow=3, create=1), optional=["pi", "force", "int", "res", "state", "store", "create"], pfail=[0.3, 0.7]),
    "C32": dict(groups=dict(time=1.5, pi=0.4, force=0.8, int=0.4, res=0.8, anon=0.3, state=0.6, store=0.6, rnow=1, create=1, stby=0.2), optional=["pi", "force", "int", "res", "anon", "state", "store", "create", "rnow", "stby"], pfail=[0.3, 0.7]),
    "C26": dict(booms=0.5, groups=dict(time=1.2, pi=0.4, force=0.7, int=0.4, stby=0.3, res=0.8, anon=0.3, state=0.5, store=0.6, crash=3), optional=["pi", "force", "int", "stby", "res", "anon", "state", "store"], slices=[3, 4, 5]),
    "C22": dict(booms=0.2, groups=dict(time=0.8, pi=0.4, force=0.7, int=0.4, stby=0.4, res=1, anon=0.4, state=0.6, store=0.7, queue=0.7, iter=0.2, create=0.4, mon=0.4, rnow=0.2, crash=0.1, rand=2), optional=["pi", "force", "int", "stby", "res", "anon", "state", "store", "queue", "iter", "create", "mon", "rnow", "crash"], nc=[2, 3, 4, 5, 6], multi=0.6, budget=100),
    "C28": dict(groups=dict(time=1.3, pi=0.4, force=0.6, int=0.4, stby=0.4, res=0.7, anon=0.3, state=0.5, store=0.5, queue=0.3, create=0.4, stop=0.5, rnow=0.4, an=1.5, crash=0.15), optional=["pi", "force", "int", "stby", "res", "anon", "state", "store", "queue", "create", "stop", "rnow", "an", "crash"], nc=[1, 2, 3, 4, 5], budget=90),
    "C27": dict(groups=dict(time=1, pi=0.5, force=0.8, int=0.5, stby=0.4, res=0.8, anon=0.4, state=0.6, store=0.8, queue=0.3, obs=3, create=0.3), optional=["pi", "force", "int", "stby", "res", "anon", "state", "store", "queue", "create"]),
}
PROFILES["C33"] = dict(booms=0.2, groups=dict(time=1, pi=0.6, force=1, int=0.6, stby=0.6, res=0.8, anon=0.4, state=0.6, store=0.8, queue=0.6, create=0.5, rnow=0.3, trace=0.3, crash=0.2, stop=0.3, mon=0.1), optional=["pi", "force", "int", "stby", "res", "anon", "state", "store", "queue", "create", "rnow", "trace", "crash", "stop", "mon"], p_event=0.05, budget=80)
PROFILES["C38"] = dict(booms=0.1, groups=dict(time=1.2, pi=0.4, force=0.6, int=0.4, stby=0.3, res=1, anon=0.5, state=1, store=0.7, queue=0.8, create=0.5, rnow=0.5, crash=0.1, mon=0.6), optional=["pi", "force", "int", "stby", "res", "anon", "state", "store", "queue", "create", "rnow", "crash", "mon"], multi=0.6, p_event=0.05, budget=80)
for _k, _v in PROFILES.items():
    _v["name"] = _k


def generate(profile, seed):
    return Gen(seed, PROFILES[profile]).make()
