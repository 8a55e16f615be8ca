"""Engine "printed" (C38): what the printed information of any object says, at any moment, against what the object is.

The programs and the reference model are those of the kernel engine: the state that is asked in other ways is compared with the model,
and the printed text is compared with that state.
"""
import io
import math
import re

from .kengine import Kernel
from .kreal import Real
from .load import sim


def fields(text):
    """({key: value}, {section: [line]}) of printed information"""
    f, sections, cur = {}, {}, None
    for line in text.split("\n")[1:]:
        if not line.strip():
            continue
        if not line.startswith("   "):
            m = re.match(r"\s*(\w+)=(.*)$", line)
            if m:
                f[m.group(1)] = m.group(2).strip()
                cur = None
            else:
                cur = sections.setdefault(line.strip().rstrip(":"), [])
        elif cur is not None:
            cur.append(line)
        else:
            f.setdefault("stray", line)
    return f, sections


def short(name):
    return name[:20].strip()


class Wrong(Exception):
    pass


def want(what, exp, act):
    if exp != act:
        raise Wrong(what, exp, act)


def num(x):
    try:
        return float(x)
    except ValueError:
        return x


def section(s, words):
    """lines of the section whose header has all words"""
    out = [v for k, v in s.items() if all(w in k for w in words)]
    return out[0] if out else []


def split(line, *keys):
    """values of 'name key=value key=value'"""
    pat = r"\s*(.*?)\s+" + r"\s+".join(k + r"\s*[=:]?\s*(.*?)" for k in keys) + r"\s*$"
    m = re.match(pat, line)
    if not m:
        raise Wrong("line with " + ", ".join(keys), keys, line)
    return tuple(m.groups())


def component(c, R):
    f, s = fields(c.print_info(as_str=True))
    ts = c.env.time_to_str
    want("name", c.name(), f.get("name"))
    want("status", c.status(), f.get("status"))
    want("mode", str(c.mode()), f.get("mode"))
    for k in ("mode_time", "creation_time", "scheduled_time"):
        want(k, ts(getattr(c, k)()).strip(), f.get(k))
    want("suppress_trace", str(c.suppress_trace()), f.get("suppress_trace"))
    exp = sorted((short(q.name()), ts(c.enter_time(q)).strip(), float(c.priority(q))) for q in c.queues())
    act = sorted((a, b, num(d)) for a, b, d in (split(x, "enter_time", "priority") for x in section(s, ["member"])))
    want("queues", exp, act)
    for word, rs, q in (("requesting", c.requested_resources(), c.requested_quantity), ("claiming", c.claimed_resources(), c.claimed_quantity)):
        exp = sorted((short(r.name()), float(q(r))) for r in rs)
        act = sorted((a, num(b)) for a, b in (split(x, "quantity") for x in section(s, [word])))
        want(word, exp, act)
    exp = sorted({short(x.name()) for x in R.states if c in x.waiters()})
    lines = section(s, ["waiting"])
    want("waiting for", exp, sorted({x[4:24].strip() for x in lines}))


def members(lines, q, *keys):
    return [split(x, *keys) for x in lines]


def queue(q, R):
    f, s = fields(q.print_info(as_str=True))
    want("name", q.name(), f.get("name"))
    ts = q.env.time_to_str
    exp = [(short(c.name()), ts(c.enter_time(q)).strip(), float(c.priority(q))) for c in q]
    act = [(a, b, num(d)) for a, b, d in (split(x, "enter_time", "priority") for x in section(s, ["component(s)"]))]
    want("members", exp, act)
    want("no components", not exp, any(k.startswith("no ") for k in s))


def resource(r, R):
    f, s = fields(r.print_info(as_str=True))
    want("name", r.name(), f.get("name"))
    want("capacity", r.capacity(), num(f.get("capacity")))
    want("claimed_quantity", r.claimed_quantity(), num(f.get("claimed_quantity")))
    exp = [(short(c.name()), float(c.requested_quantity(r))) for c in r.requesters()]
    act = [(a, num(b)) for a, b in (split(x, "quantity") for x in section(s, ["requesting component(s)"]))]
    want("requesters", exp, act)
    if not r._anonymous:
        exp = [(short(c.name()), float(c.claimed_quantity(r))) for c in r.claimers()]
        act = [(a, num(b)) for a, b in (split(x, "quantity") for x in section(s, ["claimed by"]))]
        want("claimers", exp, act)


def state(x, R):
    f, s = fields(x.print_info(as_str=True))
    want("name", x.name(), f.get("name"))
    want("value", str(x.get()), f.get("value"))
    exp = [short(c.name()) for c in x.waiters()]
    lines = [split(y, r"value\(s\)") for y in section(s, ["waiting component(s)"])]
    want("waiters", exp, [y[0] for y in lines])
    for c, (_, vs) in zip(x.waiters(), lines):  # the values have to be those that the waiting component shows for this state
        _, sc = fields(c.print_info(as_str=True))
        if not section(sc, ["waiting", "condition"]):
            own = [split(y, "value")[1] for y in section(sc, ["waiting"]) if y[4:24].strip() == short(x.name())]
            want("values waited for by " + c.name(), ", ".join(own).strip(), vs)


def environment(R):
    f, _ = fields(R.env.print_info(as_str=True))
    want("now", R.env.time_to_str(R.env.now()).strip(), f.get("now"))
    want("current_component", R.env.current_component().name(), f.get("current_component"))


def tidy(text):
    return [" ".join(x.split()) for x in text.split("\n") if x.strip()]


def within(what, block, lines, start):
    """index after block, which must be in lines from start on"""
    for i in range(start, len(lines) - len(block) + 1):
        if lines[i : i + len(block)] == block:
            return i + len(block)
    raise Wrong(what, block, lines[start : start + len(block)])


def parts(x):
    if isinstance(x, sim.Queue):
        return [x], [x.length, x.length_of_stay]
    if isinstance(x, sim.State):
        return [x.waiters()], [x.waiters().length, x.waiters().length_of_stay, x.value]
    a, b = x.requesters(), x.claimers()
    return [a, b], [a.length, a.length_of_stay, b.length, b.length_of_stay, x.capacity, x.available_quantity, x.claimed_quantity, x.occupancy]


def statistics(x, R):
    lines = tidy(x.print_statistics(as_str=True))
    want("name in " + lines[0], True, x.name() in lines[0])
    t = num(lines[0].split()[-1])
    want("time in " + lines[0], True, t == R.env.now() or abs(t - R.env.now()) < 1e-3 or not math.isfinite(R.env.now()))
    k = 1
    for m in parts(x)[1]:
        k = within("statistics of " + m.name(), tidy(m.print_statistics(show_header=False, show_legend=False, do_indent=True, as_str=True)), lines, k)


def histograms(x, R, n):
    qs, ms = parts(x)
    out = [y for i, y in enumerate(qs + ms) if n >> i & 1] if n % 3 == 0 and len(qs + ms) > 3 else [y for i, y in enumerate(ms) if n >> i & 1] if n % 3 == 1 else []
    gs = 10 if n % 2 else None
    lines = tidy(x.print_histograms(exclude=out, as_str=True, graph_scale=gs))
    k = 0
    for m in ms:
        gone = any(m is y for y in out) or any(y is q and m in (q.length, q.length_of_stay) for y in out for q in qs)
        if not gone:
            k = within("histogram of " + m.name(), tidy(m.print_histogram(as_str=True, graph_scale=gs)), lines, k)
    want("histograms of excluded monitors with " + repr(out), [], lines[k:])


def to_file(x, n):
    f = [x.print_info, getattr(x, "print_statistics", x.print_info)][n % 2]
    out = io.StringIO()
    r = f(file=out)
    want("text in the file", f(as_str=True).rstrip("\n"), out.getvalue().rstrip("\n"))
    want("returned if written to a file", None, r)


class PReal(Real):
    wrong = None

    def emit(self, *a):
        super().emit(*a)
        if self.wrong is not None:
            return
        k = len(self.log)
        xs = [c for c in self.comps if c is not None]
        ys = self.res + self.states + self.queues + self.stores
        x = None
        try:
            if xs:
                x = xs[k % len(xs)]
                component(x, self)
            if ys:
                x = ys[k % len(ys)]
                kind = resource if isinstance(x, sim.Resource) else state if isinstance(x, sim.State) else queue
                kind(x, self)
                if k % 7 == 0:
                    x = ys[k // 7 % len(ys)]
                    statistics(x, self)
                if k % 11 == 0:
                    x = ys[k // 11 % len(ys)]
                    histograms(x, self, k // 11)
                if k % 5 == 0:
                    to_file(x, k // 5)
            x = self.env
            environment(self)
        except Wrong as e:
            self.wrong = "after entry %d %s: printed information of %s: %s is %r, but shown as %r" % ((k, str(a)[:80], x.name()) + tuple(e.args))


class Printed(Kernel):
    def opts(self, prog):
        return dict(real=PReal)

    def extra(self, res, prog, M, ml, R, rl):
        if R.wrong:
            res.fail("printed", R.wrong)
        super().extra(res, prog, M, ml, R, rl)
