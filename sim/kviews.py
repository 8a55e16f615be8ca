"""Redundant views: whatever way the same fact is asked, the answer is the same.

The primary views (iteration, status, claimed_quantity, ...) are compared with the reference model;
here all other ways of asking are compared with the primary ones.
"""
from .load import sim

INF = float("inf")
PREDICATES = dict(ispassive="passive", iscurrent="current", isrequesting="requesting", iswaiting="waiting", isscheduled="scheduled", isstandby="standby", isinterrupted="interrupted", isdata="data")


def raises(exc, f, *a):
    try:
        f(*a)
    except exc:
        return True
    except Exception as e:  # noqa: BLE001
        return "raised " + type(e).__name__
    return False


def queue(q, outside):
    """q: queue, outside: components that may or may not be in it; yields (what, expected, actual)"""
    v = list(q)
    n = len(v)
    if len(q) != n:
        yield "len(queue)", n, len(q)
    if int(q.length()) != n:
        yield "length()", n, q.length()
    if q.length.value != n or q.length.get() != n:
        yield "length.value", n, q.length.value
    cap = q.capacity()
    if q.capacity.value != cap or not (q.available_quantity() == q.available_quantity.value == cap - n):
        yield "available_quantity()", cap - n, q.available_quantity()
    w = list(reversed(q))
    if w != v[::-1]:
        yield "reversed(queue)", names(v[::-1]), names(w)
    if q.head() is not (v[0] if v else None):
        yield "head()", names(v[:1]), q.head()
    if q.tail() is not (v[-1] if v else None):
        yield "tail()", names(v[-1:]), q.tail()
    for i, c in enumerate(v):
        if q[i] is not c:
            yield "queue[%d]" % i, c.name(), str(q[i])
        if q[i - n] is not c:
            yield "queue[%d]" % (i - n), c.name(), str(q[i - n])
        if c not in q or q.count(c) != 1 or c.count(q) != 1:
            yield "membership of " + c.name(), True, (c in q, q.count(c), c.count(q))
        if q.index(c) != i or c.index(q) != i:
            yield "index of " + c.name(), i, (q.index(c), c.index(q))
        nx, pv = (v[i + 1] if i + 1 < n else None), (v[i - 1] if i else None)
        if c.successor(q) is not nx or q.successor(c) is not nx:
            yield "successor of " + c.name(), nx, c.successor(q)
        if c.predecessor(q) is not pv or q.predecessor(c) is not pv:
            yield "predecessor of " + c.name(), pv, c.predecessor(q)
        if q not in set(c.queues()):
            yield "queues() of " + c.name(), q.name(), "not in"
        f = q.component_with_name(c.name())
        if f is None or f.name() != c.name():
            yield "component_with_name", c.name(), f
    ps = [c.priority(q) for c in v]
    if ps != sorted(ps):
        yield "order of priorities", sorted(ps), ps
    if raises(IndexError, q.__getitem__, n) is not True or raises(IndexError, q.__getitem__, -n - 1) is not True:
        yield "queue[out of range]", "IndexError", "none"
    if q.as_list() != v or q.as_set() != set(v):
        yield "as_list()", names(v), names(q.as_list())
    if q.component_with_name("no such name") is not None:
        yield "component_with_name(absent)", None, q.component_with_name("no such name")
    members = set(v)
    for c in outside:
        if c not in members:
            if c in q or q.count(c) or c.count(q) or c.index(q) != -1 or q in set(c.queues()):
                yield "absence of " + c.name(), "absent", "present"
            if raises(ValueError, c.enter_time, q) is not True or raises(ValueError, c.successor, q) is not True:
                yield "absence of " + c.name(), "ValueError", "none"
    if not (q == v and q <= v and not q < v and not q != v and q >= v):
        yield "set comparison of the queue with its members", True, False


def component(c, res, queues):
    st = c.status()
    for p, s in PREDICATES.items():
        if getattr(c, p)() != (st == s):
            yield p + "()", st == s, getattr(c, p)()
    cl = c.claimed_resources()
    if bool(c.isclaiming()) != bool(cl) or bool(c.isbumped()) == bool(cl):
        yield "isclaiming(), isbumped()", bool(cl), (c.isclaiming(), c.isbumped())
    for r in res:
        x = r in cl
        if c.isclaiming(r) != x or c.isbumped(r) == x or (c in r.claimers()) != x:
            yield "isclaiming, isbumped, claimers of " + r.name(), x, (c.isclaiming(r), c.isbumped(r), c in r.claimers())
        if not x and c.claimed_quantity(r):
            yield "claimed_quantity of unclaimed " + r.name(), 0, c.claimed_quantity(r)
        x = r in c.requested_resources()
        if (c in r.requesters()) != x or (not x and c.requested_quantity(r)):
            yield "requested_quantity, requesters of " + r.name(), x, (c in r.requesters(), c.requested_quantity(r))
    if c.status.value != st or c.status.get() != st or c.mode.value != c.mode():
        yield "status.value, mode.value", (st, c.mode()), (c.status.value, c.mode.value)
    if raises(ValueError, setattr, c.status, "value", "passive") is not True:
        yield "setting of status.value", "ValueError", "none"
    k = len([q for q in queues if c in q])
    if c.count() != k or len(c.queues()) != k:
        yield "number of queues", k, (c.count(), len(c.queues()))
    if st == "interrupted":
        if c.interrupted_status() != "scheduled":
            yield "interrupted_status()", "scheduled", c.interrupted_status()
    elif raises(ValueError, c.interrupted_status) is not True:
        yield "interrupted_status() if not interrupted", "ValueError", "none"


def resource(r, tol=0):
    n = sum(c.claimed_quantity(r) for c in r.claimers())
    if not r._anonymous and (abs(r.claimed_quantity() - n) > tol or (r.claimed_quantity() != 0 and not r.claimers())):
        yield "sum of claims", n, r.claimed_quantity()
    for m in (r.capacity, r.claimed_quantity, r.available_quantity, r.occupancy):
        if not m() == m.value == m.get():
            yield m.name(), m(), (m.value, m.get())


def state(s):
    v = s.get()
    if not (s() == v and s.value() == v and s.value.value == v and s.value.get() == v):
        yield "value", v, (s(), s.value(), s.value.value)


def names(v):
    return [c.name() for c in v]


def environment(R):
    env = R.env
    cs = [c for c in R.comps if c is not None]
    cur = [c for c in cs if c.iscurrent()]
    cc = env.current_component()
    if any(e[0] == "crash" or (e[0] == "main" and e[2] == "step") for e in R.log):
        return  # a process that ended with an exception stays current; step() leaves the component that it ran current
    if cur:
        if len(cur) > 1 or cc is not cur[0]:
            yield "current_component()", names(cur), cc.name()
    elif cc is not env.main():
        yield "current_component()", "main", cc.name()
    if cc is not env.main() and not any(c.isstandby() for c in cs) and not R.opts.get("nopeek"):
        ts = [c.scheduled_time() for c in cs + [env.main()] if c.status() in ("scheduled", "requesting", "waiting")]
        t = min(ts) if ts else INF
        if t < INF and env.peek() != t:
            yield "peek()", t, env.peek()


def audit(R, k):
    """all views of the environment; the queues in turn"""
    qs = R.queues + R.stores
    for r in R.res:
        qs = qs + [r.requesters(), r.claimers()]
    for s in R.states:
        qs = qs + [s.waiters()]
    for s in R.stores:
        qs = qs + [s.from_store_requesters(), s.to_store_requesters()]
    cs = [c for c in R.comps if c is not None]
    if qs:
        q = qs[k % len(qs)]
        for what, exp, act in queue(q, (cs + R.members)[:4]):
            yield q.name() + ": " + what, exp, act
    if cs:
        c = cs[k % len(cs)]
        for what, exp, act in component(c, R.res, qs):
            yield c.name() + ": " + what, exp, act
    if R.res:
        for what, exp, act in resource(R.res[k % len(R.res)], 1e-9 if R.dec else 0):
            yield R.res[k % len(R.res)].name() + ": " + what, exp, act
    if R.states:
        s = R.states[k % len(R.states)]
        for what, exp, act in state(s):
            yield s.name() + ": " + what, exp, act
    yield from environment(R)
