"""Item files: what processes read, at simulated moments, from files on a simulated (slow, failing) disk."""
import builtins
import copy
import io
import os
import random
import shutil
import sys
import tempfile

from .gengine import guard
from .load import sim
from .runner import Result, sig

MODS = [m for m in (sim, sys.modules.get(sim.__name__ + ".salabim")) if m is not None]


class Oops(Exception):
    """injected"""


class Raw(io.RawIOBase):
    """bytes that arrive in pieces of any size; a read error at a given offset"""

    def __init__(self, ex, data, sizes, bad):
        self.ex, self.data, self.sizes, self.bad, self.pos, self.n = ex, data, sizes, bad, 0, 0

    def readable(self):
        return True

    def readinto(self, b):
        if self.bad is not None and self.pos >= self.bad:
            self.ex.ioerror = True
            self.ex.res.faults["read error"] += 1
            raise OSError(5, "Input/output error")
        n = len(b)
        if self.sizes:
            n = min(n, self.sizes[self.n % len(self.sizes)])
            self.ex.res.faults["short read"] += 1
        if self.bad is not None:
            n = min(n, self.bad - self.pos)
        self.n += 1
        d = self.data[self.pos : self.pos + n]
        b[: len(d)] = d
        self.pos += len(d)
        return len(d)


class ReaderY(sim.Component):
    def setup(self, ex, i):
        self.ex, self.i = ex, i

    def process(self):
        for op in self.ex.case["readers"][self.i]:
            yield self.hold(op[0])
            self.ex.do(self.i, op)


class ReaderL(ReaderY):
    def process(self):
        for op in self.ex.case["readers"][self.i]:
            self.hold(op[0])
            self.ex.do(self.i, op)


def render(f):
    """(text, items) of a file: lines of (text, item or None) pieces"""
    items = [x for line in f["lines"] for _, x in line if x is not None]
    return f["nl"].join("".join(t for t, _ in line) for line in f["lines"]) + (f["nl"] if f["end"] else ""), items


class Exec:
    def __init__(self, case, res):
        self.case, self.res = case, res
        sim.yieldless(case["yieldless"])
        self.env = sim.Environment(trace=False, yieldless=case["yieldless"], random_seed=1)
        self.hist = []
        self.ioerror = False
        self.handles = {}
        self.dir = tempfile.mkdtemp(prefix="items_")
        self.files = []  # [ItemFile or None, items, next, usable]
        self.paths = {}

    def open(self, name, mode="r", *args, **kwargs):
        i = self.paths.get(os.fspath(name) if not isinstance(name, int) else name)
        if i is None or "r" not in mode or "b" in mode:
            return builtins.open(name, mode, *args, **kwargs)
        f = self.case["files"][i]
        raw = Raw(self, render(f)[0].encode(), f["sizes"], f["bad"])
        self.handles[i] = io.TextIOWrapper(io.BufferedReader(raw, f["buf"]), encoding="utf-8")
        return self.handles[i]

    def run(self):
        try:
            for m in MODS:
                m.open = self.open
            self.go()
        finally:
            for m in MODS:
                del m.open
            for f in self.files:
                if f[0] is not None:
                    try:
                        f[0].close()
                    except Exception:
                        pass
            shutil.rmtree(self.dir)

    def go(self):
        for i, f in enumerate(self.case["files"]):
            text, items = render(f)
            self.ioerror = False
            real = None
            if f["disk"]:
                path = os.path.join(self.dir, "f%d" % i)
                with builtins.open(path, "w", newline="") as o:
                    o.write(text)
                self.paths[path] = i
                text = path
            try:
                real = sim.ItemFile(text)
                if f["with"] and real.__enter__() is not real:
                    return self.res.fail("with", "with ItemFile(...) as f does not give the file")
            except OSError:
                if not self.ioerror:
                    raise
            self.files.append([real, items, 0, real is not None])
        Rd = ReaderL if self.case["yieldless"] else ReaderY
        for i in range(len(self.case["readers"])):
            Rd(ex=self, i=i)
        for d in self.case["runs"]:
            self.env.run(d)
        for i, f in enumerate(self.files):
            if f[0] is None:
                continue
            if f[3]:
                for _ in range(len(f[1]) - f[2] + 1):
                    self.read(i, "str", "main")
            if self.case["files"][i]["with"]:
                e = Oops()
                try:
                    r = f[0].__exit__(*((Oops, e, None) if self.case["files"][i]["with"] == "oops" else (None, None, None)))
                    if r and self.case["files"][i]["with"] == "oops":
                        self.res.fail("with", "an exception in a with ItemFile block disappears")
                finally:
                    self.res.faults["left by exception"] += self.case["files"][i]["with"] == "oops"
            else:
                f[0].close()
            if i in self.handles and not self.handles[i].closed:
                self.res.fail("close", "item file %d is still open after it was closed" % i)
        self.res.simtime = self.env.now()
        self.res.events = len(self.hist)
        self.res.sig = sig(self.hist)
        self.res.nontrivial = len(self.hist) > 2

    def do(self, who, op):
        self.read(op[1] % len(self.files), op[2], who)

    def read(self, i, kind, who):
        if self.res.violation:
            return
        f = self.files[i]
        if not f[3]:
            return
        real, items, n, _ = f
        item = items[n] if n < len(items) else None
        if kind == "bool" and item is not None and ("," in item or item != item.strip()):
            kind = "str"
        self.ioerror = False
        try:
            got = {"str": real.read_item, "int": real.read_item_int, "float": real.read_item_float, "bool": real.read_item_bool}[kind]()
        except EOFError:
            got = "EOF"
        except OSError:
            got = "OSError"
        except ValueError:
            got = "ValueError"
        self.hist.append((self.env.now(), who, i, kind, str(got)))
        if self.ioerror:
            self.res.probes["read error met"] += 1
            if got != "OSError":
                self.res.fail("error", "reading %s from item file %d: a read error was not reported, but %r" % (kind, i, got))
            f[3] = False  # what comes after an error is not specified
            return
        f[2] += 1
        if item is None:
            exp = "EOF"
            self.res.probes["end of file"] += 1
        elif kind == "str":
            exp = item
        elif kind == "bool":
            exp = True
            if item.lower() == "false" or item == "":
                exp = False
            else:
                try:
                    exp = float(item) != 0
                except ValueError:
                    pass
        else:
            try:
                exp = (int if kind == "int" else float)(item.replace(",", "."))
            except ValueError:
                exp = "ValueError"
                self.res.faults["not a number"] += 1
        if type(got) is not type(exp) or got != exp:
            self.res.fail("item", "%s nr %d of item file %d (%r): expected %r, got %r" % (kind, n, i, render(self.case["files"][i])[0][:300], exp, got))


class Items:
    def __init__(self, prop):
        self.prop = prop

    def gen(self, seed):
        r = random.Random("items|%s|%s" % (self.prop, seed))
        ch = lambda xs: xs[r.randrange(len(xs))]  # noqa: E731

        def word():
            return ch(["1", "12", "-3", "0", "1.5", "0.0", "1,25", "2e3", "True", "False", "FALSE", "abc", "a", "x_y", "item", "a:b", "-", "007"])

        def sep():
            return "".join(ch([" ", " ", "\t", "  "]) for _ in range(ch([1, 1, 2])))

        def brace():
            if r.random() < 0.3:
                return "{" + "".join(ch([" ", "\t", "'", '"', "a", "1"]) for _ in range(ch([1, 2, 3, 5]))) + "}"
            return "{" + ch(["", "comment", "'", '"', "a b", "it's", "1 2 \t3"]) + "}"

        def line():
            out, gap = [], True  # gap: white space or the start of the line precedes
            for _ in range(ch([0, 1, 1, 2, 3, 5])):
                x = r.random()
                if x < 0.5:
                    if not gap:
                        out.append([sep(), None])
                    w = word()
                    out.append([w, w])
                    gap = False
                elif x < 0.75:
                    if not gap:
                        out.append([sep(), None])
                    q = ch(["'", '"'])
                    w = ch(["", "", " ", "a b", "# no comment", "{no comment}", "\t", "1", "0", "other \" quote", "it's", "#", "}", "x {"])
                    if r.random() < 0.5:
                        w = "".join(ch([" ", "\t", "#", "{", "}", "'", '"', "a", "b c", "0", ",", "."]) for _ in range(ch([1, 2, 3, 5])))
                    w = w.replace(q, "")
                    out.append([q + w + q, w])
                    gap = False
                elif x < 0.9:
                    out.append([brace(), None])
                    gap = True
                else:
                    out.append([sep(), None])
                    gap = True
            x = r.random()
            if x < 0.2:
                out.append([ch(["", " "]) + "#" + ch(["", " comment", " it's", ' "', " { x", "#", " a 1"]), None])
            elif x < 0.25:
                out.append([ch([" ", "\t"]), None])
            elif x < 0.3:
                out.append([" {not closed 1", None])
            return out

        files = []
        for _ in range(ch([1, 1, 2, 3])):
            f = dict(lines=[line() for _ in range(ch([1, 2, 4, 8, 12]))], nl=ch(["\n", "\n", "\r\n"]), end=r.random() < 0.6, disk=r.random() < 0.7)
            f["with"] = ch(["", "plain", "oops"])
            f["sizes"] = [ch([1, 1, 2, 3, 7, 50]) for _ in range(ch([1, 2, 5]))] if r.random() < 0.5 else None
            f["buf"] = ch([1, 8, 64, 8192])
            text = render(f)[0]
            if "\n" not in text:
                f["disk"] = True
            f["bad"] = r.randrange(len(text) + 1) if r.random() < 0.15 else None
            files.append(f)
        readers = [
            [[ch([0, 0, 0.5, 1, 3]), r.randrange(len(files)), ch(["str", "str", "int", "float", "bool"])] for _ in range(ch([1, 3, 8, 16]))]
            for _ in range(ch([1, 2, 2, 3]))
        ]
        return dict(yieldless=r.random() < 0.5, files=files, readers=readers, runs=[ch([0, 1, 4]) for _ in range(ch([0, 1]))] + [100])

    def run(self, case):
        res = Result()
        ex = Exec(case, res)
        try:
            ex.run()
        except Exception as e:
            guard(res, e, ex.hist)
        return res

    def shrinks(self, case):
        for k in ("files", "readers", "runs"):
            for j in range(len(case[k])):
                if len(case[k]) > 1:
                    c = copy.deepcopy(case)
                    del c[k][j]
                    yield c
        for j, rd in enumerate(case["readers"]):
            for i in range(len(rd)):
                c = copy.deepcopy(case)
                del c["readers"][j][i]
                yield c
        for j, f in enumerate(case["files"]):
            for i in range(len(f["lines"])):
                c = copy.deepcopy(case)
                if len(f["lines"]) > 1:
                    del c["files"][j]["lines"][i]
                    c["files"][j]["disk"] = True
                    yield c
                for n in range(len(f["lines"][i])):
                    if f["lines"][i][n][0] == " ":
                        continue
                    c = copy.deepcopy(case)
                    c["files"][j]["disk"] = True
                    c["files"][j]["lines"][i][n] = [" ", None]
                    t, _ = render(c["files"][j])
                    if c["files"][j]["bad"] is None or c["files"][j]["bad"] <= len(t):
                        yield c
            for k, v in (("sizes", None), ("bad", None), ("with", "")):
                if f[k]:
                    c = copy.deepcopy(case)
                    c["files"][j][k] = v
                    yield c
