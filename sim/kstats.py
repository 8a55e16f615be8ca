"""Statistics at the end of a run: what the real monitors report against the exact step functions of the model."""
import math

from .kmodel import OFF

INF = float("inf")


def collapse(h):
    out = []
    for t, v in h:
        if out and out[-1][1] == v:
            continue
        out.append((t, v))
    return out


def close(a, b):
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def level(name, mon, lm, now, off, numeric=True):
    """compares one level monitor; yields (what, expected, actual)"""
    h = lm.h
    x, t = mon.xt(force_numeric=False, add_now=False)
    o = mon.off
    real = collapse([(tt, OFF if xx == o else xx) for xx, tt in zip(x, t)])
    exp = collapse(h)
    if real != exp:
        yield (name + ".xt", exp, real)
        return
    if mon.get() != lm.v:
        yield (name + ".value", lm.v, mon.get())
    ends = [tt for tt, _ in h[1:]] + [now]
    seg = [(v, e - tt) for (tt, v), e in zip(h, ends) if v != OFF]
    tot = sum(d for _, d in seg)
    if not close(mon.duration(), tot):
        yield (name + ".duration", tot, mon.duration())
    for (tt, v), e in zip(h, ends):
        if e > tt:
            m = (tt + e) / 2
            g = mon.get(m - off)
            if g != (o if v == OFF else v):
                yield (name + ".get(%r)" % (m - off), v, g)
    if numeric:
        for ex0 in (False, True):
            s = [(v, d) for v, d in seg if v != 0 or not ex0]
            w = sum(d for _, d in s)
            mean = sum(v * d for v, d in s) / w if w else math.nan
            std = math.sqrt(max(0, sum(d * (v - mean) ** 2 for v, d in s) / w)) if w else math.nan
            if any(abs(v) == INF for v, _ in s):
                continue
            if not close(mon.mean(ex0=ex0), mean):
                yield (name + ".mean(ex0=%r)" % ex0, mean, mon.mean(ex0=ex0))
            if not close(mon.std(ex0=ex0), std):
                yield (name + ".std(ex0=%r)" % ex0, std, mon.std(ex0=ex0))
    else:
        for v in sorted({v for v, _ in seg}, key=repr):
            d = sum(dd for vv, dd in seg if vv == v)
            if not close(mon.value_duration([v]), d):
                yield (name + ".value_duration(%r)" % (v,), d, mon.value_duration([v]))


def queue(name, q, mq, now, off):
    yield from level(name + ".length", q.length, mq.hist, now, off)
    yield from level(name + ".available_quantity", q.available_quantity, mq.av_hist, now, off)
    yield from level(name + ".capacity", q.capacity, mq.cap_hist, now, off)
    st = list(q.length_of_stay.x())
    if st != mq.stays.x:
        yield (name + ".length_of_stay", mq.stays.x, st)
    elif st and not close(q.length_of_stay.mean(), sum(st) / len(st)):
        yield (name + ".length_of_stay.mean", sum(st) / len(st), q.length_of_stay.mean())
    for what, got, n, t0 in (("arrival", q.arrival_rate(), mq.arr, mq.arr_t0), ("departure", q.departure_rate(), mq.dep, mq.dep_t0)):
        exp = n / (now - t0) if now > t0 else math.nan
        if not close(got, exp):
            yield ("%s.%s_rate" % (name, what), exp, got)
    if q.number_of_arrivals != mq.arr:
        yield (name + ".number_of_arrivals", mq.arr, q.number_of_arrivals)
    if q.number_of_departures != mq.dep:
        yield (name + ".number_of_departures", mq.dep, q.number_of_departures)


def compare(R, M):
    """R: Real, M: Model, both finished"""
    now, off = M.t, M.off
    if now == INF:
        return
    for i, (q, mq) in enumerate(zip(R.queues, M.queues)):
        yield from queue("queue%d" % i, q, mq, now, off)
    for i, (r, mr) in enumerate(zip(R.res, M.res)):
        yield from queue("res%d.requesters" % i, r.requesters(), mr.rq, now, off)
        yield from queue("res%d.claimers" % i, r.claimers(), mr.cq, now, off)
        if R.dec:
            continue
        yield from level("res%d.claimed_quantity" % i, r.claimed_quantity, mr.hist, now, off)
        yield from level("res%d.available_quantity" % i, r.available_quantity, mr.av_hist, now, off)
        yield from level("res%d.capacity" % i, r.capacity, mr.cap_hist, now, off)
        yield from level("res%d.occupancy" % i, r.occupancy, mr.occ_hist, now, off)
    for i, (s, ms) in enumerate(zip(R.states, M.states)):
        yield from queue("state%d.waiters" % i, s.waiters(), ms.wq, now, off)
        yield from level("state%d.value" % i, s.value, ms.hist, now, off, numeric=isinstance(ms.dom[0], (int, float)))
    for i, (s, ms) in enumerate(zip(R.stores, M.stores)):
        yield from queue("store%d" % i, s, ms.q, now, off)
        yield from queue("store%d.from" % i, s.from_store_requesters(), ms.fq, now, off)
        yield from queue("store%d.to" % i, s.to_store_requesters(), ms.tq, now, off)
    for i, c in enumerate(R.comps):
        if c is not None:
            yield from level("comp%d.status" % i, c.status, M.shist[i], now, off, numeric=False)
            yield from level("comp%d.mode" % i, c.mode, M.mhist[i], now, off, numeric=False)
