import random


class Mix:
    """several engines that look at different facets of one property: "mix:engine@profile=weight,..." """

    def __init__(self, spec, prop):
        self.prop = prop
        self.parts = []
        self.weights = []
        for part in spec.split(","):
            part, w = part.split("=")
            name, _, profile = part.partition("@")
            self.parts.append((part, name, profile or prop))
            self.weights.append(float(w))
        self.engines = {}
        self.chunk = min(getattr(self.engine(p[0]), "chunk", 1000) for p in self.parts)

    def engine(self, part):
        if part not in self.engines:
            _, name, profile = [p for p in self.parts if p[0] == part][0]
            self.engines[part] = get(name, profile)
        return self.engines[part]

    def gen(self, seed):
        part = random.Random("mix|%s" % seed).choices([p[0] for p in self.parts], self.weights)[0]
        return dict(part=part, case=self.engine(part).gen(seed))

    def run(self, case):
        res = self.engine(case["part"]).run(case["case"])
        res.probes["part:" + case["part"]] += 1
        return res

    def shrinks(self, case):
        for c in self.engine(case["part"]).shrinks(case["case"]):
            yield dict(part=case["part"], case=c)


def get(name, prop):
    if name.startswith("mix:"):
        return Mix(name[4:], prop)
    if name == "units":
        from .uengine import Units

        return Units(prop)
    if name == "kernel":
        from .kengine import Kernel

        return Kernel(prop)
    if name == "both":
        from .kengine import Both

        return Both(prop)
    if name == "monitors":
        from .mengine import Monitors

        return Monitors(prop)
    if name in ("gens", "periods"):
        from . import gengine

        return dict(gens=gengine.Gens, periods=gengine.Periods)[name](prop)
    if name == "dists":
        from .dengine import Dists

        return Dists(prop)
    if name == "anim":
        from .aengine import Anim

        return Anim(prop)
    if name == "determ":
        from .rengine import Determ

        return Determ(prop)
    if name == "observe":
        from .rengine import Observe

        return Observe(prop)
    if name == "trace":
        from .tengine import Trace

        return Trace(prop)
    if name == "traject":
        from .jengine import Traject

        return Traject(prop)
    if name == "printed":
        from .pengine import Printed

        return Printed(prop)
    if name == "items":
        from .iengine import Items

        return Items(prop)
    if name == "names":
        from .nengine import Names

        return Names(prop)
    if name == "blocks":
        from .bengine import Blocks

        return Blocks(prop)
    raise KeyError(name)
