"""Reports (C35): percentiles, bins, printed statistics and printed histograms against the recorded data.

The tables are parsed, so that only their numbers count and not their layout. The data is that of the
model of the monitors engine: a list of (value, weight or duration).
"""
import io
import math
import random
from fractions import Fraction

INF = float("inf")
NAN = math.nan
LABELS = ("entries", "weight", "duration", "mean", "std.deviation", "minimum", "median", "90% percentile", "95% percentile", "maximum")


def same(a, b, tol=1e-9):
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= tol * max(1, abs(a), abs(b))


def shown(x, text, places):
    """is text a rendering of x in (at least) the given number of decimals, or significant digits for large numbers"""
    try:
        v = float(text)
    except ValueError:
        return False
    return v == x or abs(v - x) <= 0.6 * 10**-places or abs(v - x) <= 1e-3 * abs(x) and abs(x) >= 10000


def percentile(s, q, interpolation, weighted):
    """(lowest, highest) acceptable value"""
    s = sorted(s, key=lambda r: r[0])
    if not s:
        return NAN, NAN
    if q <= 0 or len(s) == 1:
        return s[0][0], s[0][0]
    if q >= 100:
        return s[-1][0], s[-1][0]
    p = Fraction(q) / 100
    if not weighted:
        h = p * (len(s) - 1)
        k = int(h)
        i = s[k][0]
        if h == k:
            return i, i
        j = s[k + 1][0]
        f = h - k
        if interpolation == "nearest" and f == Fraction(1, 2):
            return i, j
        r = {"linear": i + (j - i) * float(f), "lower": i, "higher": j, "midpoint": (i + j) / 2, "nearest": i if f < 0.5 else j}[interpolation]
        return r, r
    tot = sum(Fraction(w) for _, w in s)
    if not tot:
        return NAN, NAN
    cum = Fraction(0)
    for k, (v, w) in enumerate(s):
        cum += Fraction(w)
        if cum >= p * tot:
            break
    if cum != p * tot:
        return v, v
    z = [v for v, w in s[k + 1 :] if w > 0][0]
    if any(not w for _, w in s):  # values that never lasted might be in between
        return v, z
    r = {"linear": (v + z) / 2, "midpoint": (v + z) / 2, "lower": v, "higher": z}[interpolation]
    return r, r


def stat(s):
    tot = sum(w for _, w in s)
    mean = sum(v * w for v, w in s) / tot if tot else NAN
    std = math.sqrt(max(0, sum(w * (v - mean) ** 2 for v, w in s) / tot)) if tot else NAN
    return dict(total=tot, n=len(s), mean=mean, std=std, lo=min([v for v, _ in s], default=NAN), hi=max([v for v, _ in s], default=NAN))


def statistics(text, s, weighted, lev, full):
    """compares the lines of a statistics table: yields (what, expected, got)"""
    a, z = stat(s), stat([r for r in s if r[0] != 0])
    nz = [r for r in s if r[0] != 0]
    pc = lambda q: [percentile(x, q, "linear", weighted) for x in (s, nz)]  # noqa: E731
    pair = lambda k: [(a[k], a[k]), (z[k], z[k])]  # noqa: E731
    rows = {}
    for line in text.splitlines():
        for lab in LABELS:
            if line.strip().startswith(lab) and lab not in rows:
                rows[lab] = line.strip()[len(lab) :].split()
    exp = {"mean": pair("mean"), "std.deviation": pair("std"), "minimum": pair("lo"), "maximum": pair("hi")}
    k = "total" if weighted else "n"
    exp["duration" if lev else "weight" if weighted else "entries"] = [(x, x) for x in (a[k], z[k], a[k] - z[k])]
    if full:
        exp.update({"median": pc(50), "90% percentile": pc(90), "95% percentile": pc(95)})
    for lab, e in exp.items():
        e = [x for x in e if x[0] == x[0]]
        g = rows.get(lab)
        if g is None or len(g) != len(e):
            yield ("line %s of the statistics" % lab, e, g)
            continue
        for (lo, hi), t in zip(e, g):
            if not shown(lo, t, 3) and not (lo < hi and lo - 6e-4 <= float(t) <= hi + 6e-4):
                yield ("line %s of the statistics" % lab, e, g)
                break


def bar(cells, share, scale):
    """is the bar of stars as long as the share, up to rounding"""
    return abs(cells.count("*") - share * scale) <= 2


def table(text, head):
    out = None
    for line in text.splitlines():
        if out is not None:
            if not line.strip():
                break
            out.append(line)
        elif line.strip().startswith(head):
            out = []
    return out


def norm(label):
    label = label.strip()
    if label in ("True", "False"):
        return float(label == "True")
    try:
        return float(label)
    except ValueError:
        return label


def order(v):
    try:
        return (float(v), "")
    except (ValueError, TypeError):
        return (INF, str(v).lower())


def unique(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def report(name, real, m, now, off, seed, num):
    """yields (what, expected, got) for one report drawn from the seed"""
    r = random.Random("report|%s" % seed)
    ch = lambda xs: xs[r.randrange(len(xs))]  # noqa: E731
    lev = m.level
    raw = [(v, w) for v, w in m.xw(now)]
    s = [(num(v), w) for v, w in raw]
    ex0 = r.random() < 0.4
    weighted = lev or any(w != 1 for _, w in raw)
    if real.stats_only():
        text = ch([real.print_statistics, real.print_histogram])(as_str=True)
        for what, e, g in statistics(text, s, lev or bool(real._weight), lev, False):
            yield (name + ": " + what, e, g)
        return
    use = [x for x in s if x[0] != 0 or not ex0]
    kind = ch(["pct", "pct", "pct", "stats", "bins", "bins", "bins", "values", "values", "values", "api", "file"])
    if kind == "pct":
        for _ in range(3):
            q = ch([-3, 0, 5, 10, 12.5, 20, 25, 30, 40, 50, 50, 60, 70, 75, 80, 90, 95, 99, 100, 120])
            ip = ch(["linear", "linear", "lower", "higher", "midpoint", "nearest"])
            if ip == "nearest" and weighted:
                continue
            e = percentile(use, q, ip, weighted)
            g = real.percentile(q, ex0=ex0, interpolation=ip) if ip != "linear" or q != 50 else real.median(ex0=ex0)
            if not (same(e[0], g) or same(e[1], g) or e[0] <= g <= e[1]):
                yield (name + ".percentile(%s, ex0=%s, interpolation=%r)" % (q, ex0, ip), e, g)
        return
    if kind == "stats":
        text = real.print_statistics(as_str=True)
        for what, e, g in statistics(text, s, weighted, lev, True):
            yield (name + ": " + what, e, g)
        head = text.splitlines()[0]
        if real.name() not in head or m.end is None and not shown(now - off, head.split()[-1], 3):
            yield (name + ": first line of the statistics", (real.name(), now - off), head)
        return
    if kind == "file":
        f = io.StringIO()
        k = ch([0, 1, 2])
        fun = (real.print_statistics, real.print_histogram, real.print_histogram)[k]
        kw = dict(values=True) if k == 2 else {}
        ret = fun(file=f, **kw)
        if ret is not None or f.getvalue().rstrip() != fun(as_str=True, **kw).rstrip():
            yield (name + ": text in a file", fun(as_str=True, **kw), f.getvalue())
        return
    if kind == "api":
        lo, hi = ch([-INF, -1, 0, 0.5, 1]), ch([0, 1, 2, 2.5, INF])
        vs = ch([0, 1, "a", (0, 1), [1, 2, "a"], (3,), "7", []])
        lst = [vs] if isinstance(vs, (int, str)) else vs
        if lev:
            e = [sum(w for v, w in s if lo < v <= hi), sum(w for v, w in raw if v in lst)]
            g = [real.bin_duration(lo, hi), real.value_duration(vs)]
        else:
            e = [sum(w for v, w in s if lo < v <= hi), sum(w for v, w in raw if v in lst), sum(1 for v, _ in use if lo < v <= hi), sum(1 for v, _ in raw if v in lst)]
            g = [real.bin_weight(lo, hi), real.value_weight(vs), real.bin_number_of_entries(lo, hi, ex0=ex0), real.value_number_of_entries(vs)]
        if not all(map(same, e, g)):
            yield (name + ": bin (%s, %s] and values %r, ex0=%s" % (lo, hi, vs, ex0), e, g)
        return
    kw = dict(ex0=True) if ex0 else {}
    if r.random() < 0.4:
        kw["graph_scale"] = ch([1, 10, 30, 100])
    scale = kw.get("graph_scale", 80)
    column = "duration" if lev else "weight" if weighted else "entries"
    if kind == "bins":
        auto = r.random() < 0.4
        lb, bw, nb = 0, 1, 30
        if not auto:
            lb, bw, nb = ch([0, -1, 1, 0.5, -2.5]), ch([1, 0.5, 2, 0.25]), ch([0, 1, 3, 7, 30])
            kw.update(lowerbound=lb, bin_width=bw, number_of_bins=nb)
            for k, d in (("lowerbound", 0), ("bin_width", 1), ("number_of_bins", 30)):
                if kw[k] == d and len(kw) > 1 and r.random() < 0.5 and sum(x in kw for x in ("lowerbound", "bin_width", "number_of_bins")) > 1:
                    del kw[k]
        text = real.print_histogram(as_str=True, **kw)
        for what, e, g in statistics(text, s, weighted, lev, True):
            yield (name + ": " + what, e, g)
        lines = table(text, "<=") or []
        rows = [x.split()[:4] for x in lines]
        what = name + ": histogram(%s)" % kw
        if not rows or any(len(x) < 4 for x in rows) or rows[-1][0] != "inf":
            yield (what, "a complete table", rows)
            return
        ubs = [float(x[0]) for x in rows]
        if not auto and (len(ubs) != nb + 2 or any(abs(u - (lb + i * bw)) > 6e-4 for i, u in enumerate(ubs[:-1]))):
            yield (what + " bounds", [lb + i * bw for i in range(nb + 1)] + [INF], ubs)
            return
        if not [x for x in text.splitlines() if x.strip().startswith("<=") and column in x]:
            yield (what + " heading", column, text)
        if auto and len(ubs) > 33:
            yield (what + " number of bins", 30, len(ubs) - 2)
        if ubs != sorted(set(ubs)):
            yield (what + " bounds", "ascending", ubs)
            return
        val = (lambda w: w) if weighted else (lambda w: 1)
        tot = sum(val(w) for _, w in use)
        cum = 0
        last = -INF
        last_at = None
        for u, x, line in zip(ubs, rows, lines):
            e = sum(val(w) for v, w in use if last < v <= u)
            cum += e
            last = u
            if not (shown(e, x[1], 3) and shown(100 * e / (tot or 1), x[2], 1) and shown(100 * cum / (tot or 1), x[3], 1)):
                yield (what + " row <= %s" % u, (e, 100 * e / (tot or 1), 100 * cum / (tot or 1)), x)
                return
            cells = line.split(None, 4)[4] if len(line.split(None, 4)) > 4 else ""
            at = line.find("|")
            if not bar(cells, e / (tot or 1), scale) or at < 0 or last_at is not None and abs(at - last_at - e / (tot or 1) * scale) > 2:
                yield (what + " bar of row <= %s" % u, (e / (tot or 1), scale), line)
                return
            last_at = at
            if auto and u == INF and e:
                yield (what + " values above the bins", 0, e)
        return
    # values
    vs = True
    if r.random() < 0.5:
        vs = [v for v in (0, 1, 2, 3, "a", 9) if r.random() < 0.5]
        r.shuffle(vs)
        if r.random() < 0.5:
            vs = tuple(vs)
    srt = ch([None, None, "value", "weight"])
    if srt and any(isinstance(v, str) for v in vs or []) if vs is not True else False:
        srt = None  # values that do not occur are sorted with the others
    if srt:
        kw["sort_on_" + ("duration" if srt == "weight" and lev else srt)] = True
    text = real.print_histogram(as_str=True, values=vs, **kw)
    rows = table(text, "value ") or []
    what = name + ": histogram(values=%r, %s)" % (vs, kw)
    raw = [x for x in raw if x[0] != 0 or not ex0]
    tot = sum(w for _, w in raw)
    labels = sorted(unique([v for v, _ in raw]), key=order) if vs is True else list(vs)
    conds = [[v] for v in labels]
    rest = [v for v in unique([v for v, _ in raw]) if v not in labels]
    if rest:
        conds.append(rest)
    exp = []
    for i, c in enumerate(conds):
        w, n = sum(w for v, w in raw if v in c), sum(1 for v, _ in raw if v in c)
        exp.append((norm(str(labels[i])) if i < len(labels) else "<rest>", w, n))
    got = [(norm(x[:20]), x[20:].split()) for x in rows]
    ok = len(got) == len(exp)
    if not [x for x in text.splitlines() if x.startswith("value ") and column in x]:
        yield (what + " heading", column, text)
    tops = dict((x.split()[0], x.split()[1]) for x in text.splitlines()[1:4] if len(x.split()) == 2)
    for lab, v in ([(column, tot)] if weighted else []) + ([] if lev else [("entries", len(raw))]):
        if lab not in tops or not shown(v, tops[lab], 3):
            yield (what + " total of " + lab, v, tops)
    if not (weighted and not lev):
        for x, (_, cols) in zip(rows, got):
            if len(cols) >= 2 and not bar(x[20:], float(cols[1]) / 100, scale):
                yield (what + " bar", cols[1], x)
                break
    if ok:
        pool = list(got)
        for lab, w, n in exp:
            main, mt = (w, tot) if weighted else (n, len(raw))
            for i, (gl, cols) in enumerate(pool):
                if gl == lab and len(cols) >= 2 and shown(main, cols[0], 3) and shown(100 * main / (mt or 1), cols[1], 1):
                    if weighted and not lev and not (len(cols) >= 4 and cols[2] == str(n) and shown(100 * n / (len(raw) or 1), cols[3], 1)):
                        continue
                    del pool[i]
                    break
            else:
                ok = False
    if ok and rest and got[-1][0] != "<rest>":
        ok = False
    if ok:
        body = got[: len(labels)]
        if srt == "weight":
            cs = [float(c[0]) for _, c in body]
            if vs is True:
                ok = all(a >= b for a, b in zip(cs, cs[1:]))
            else:
                ok = all(a >= b for a, b in zip([c for c in cs if c], [c for c in cs if c][1:]))
        elif vs is True or srt == "value":
            present = [g[0] for g in body if vs is True or any(norm(str(v)) == g[0] for v, _ in raw)]
            ok = all(order(a) <= order(b) for a, b in zip(present, present[1:]))
        else:
            ok = [g[0] for g in body] == [norm(str(v)) for v in vs]
    if not ok:
        yield (what, exp, got)
