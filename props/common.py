"""helpers shared by the harnesses"""
import os
import sys

import torch

REPO = os.environ.get("PYOPTMAT_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

CASES = {}  # property -> list of (name, fn, opts, tier)


def case(prop, name=None, tier="quick", **opts):
    def deco(fn):
        CASES.setdefault(prop, []).append((name or fn.__name__, fn, opts, tier))
        return fn

    return deco


def add(prop, name, fn, tier="quick", **opts):
    CASES.setdefault(prop, []).append((name, fn, opts, tier))


def CP(v, **k):
    from pyoptmat.temperature import ConstantParameter

    return ConstantParameter(v, **k)


class Probe:
    """compares the arguments a stand-in is called with to the ones the test
    used: zero when they agree, otherwise a generic value that spoils the result"""

    WEIGHT = dict(s=3.0, h=5.0, t=7.0, T=11.0, e=13.0, p=17.0, d=19.0, y=23.0)

    def __init__(self, **at):
        self.at = at

    def __call__(self, **got):
        z = torch.zeros(())
        for k, v in got.items():
            if k in self.at:
                d = v - self.at[k]
                if d.numel():
                    w = 1 + torch.arange(d.numel(), dtype=torch.float64).reshape(d.shape)
                    z = z + self.WEIGHT[k] * (w * d).sum()
        return z


class PT(torch.nn.Module):
    """a temperature dependent parameter: any value at the temperature of the
    test (`ctx.T0`, once known), another one elsewhere and before an update of
    the parameters (`ctx.before`)"""

    def __init__(self, ctx, v):
        super().__init__()
        self.ctx, self.v = ctx, v

    def value(self, T):
        T0 = getattr(self.ctx, "T0", None)
        v = self.v + 0.125 if getattr(self.ctx, "before", False) else self.v
        return v if T0 is None else v + Probe(T=T0)(T=T)

    def forward(self, T):
        return self.value(T)

    @property
    def device(self):
        return torch.device("cpu")

    @property
    def shape(self):
        return self.v.shape


def elsewhere(a, k):
    """other arguments of the same shape, positive and below one"""
    n = a.numel()
    return ((1 + (torch.arange(n, dtype=torch.float64) * 7 + 3 * k) % 6) / 8).reshape(a.shape)


class Restless:
    """a rate depends on its arguments and the current parameters alone: an
    evaluation gives the same after evaluations of all functions of the object
    at other arguments, of which some are the very tensors of the test, and at
    the very arguments with parameters updated since"""

    def __init__(self, ctx, m, sigs, keep):
        self.ctx, self.m, self.sigs = ctx, m, sigs
        self.keep = keep if getattr(ctx, "fixed", False) else keep + ("before",)
        self.busy = False

    def stir(self, k):
        keep = self.keep[k]
        self.busy = True
        for self.ctx.before in (False, True) if keep == "before" else (False,):
            for name, args in self.sigs.items():
                getattr(self.m, name)(*[v if self.ctx.before or n in keep else elsewhere(v, k + 2 * j) for j, (n, v) in enumerate(args.items())])
        self.busy = self.ctx.before = False

    def evaluate(self, name, a):
        f = getattr(self.m, name) if name else self.m
        if self.busy:
            return f(*a)
        r = None
        for k in range(len(self.keep)):
            self.stir(k)
            new = f(*a)
            if r is not None and all(x is y for x, y in zip(a, self.sigs[name or "forward"].values())):
                for x, y in zip(*((u if isinstance(u, (tuple, list)) else (u,)) for u in (new, r))):
                    self.ctx.eq("%s after other calls" % (name or "value"), x, y)
            r = new
        return r

    def __getattr__(self, name):
        if name not in self.sigs:
            return getattr(self.m, name)
        return lambda *a: self.evaluate(name, a)

    def __call__(self, *a):
        return self.evaluate(None, a)


def restless(ctx, m, names, st, other=None, keep=(("s", "h", "d"), ("t", "T", "e", "p"))):
    """names: functions called with the state st; other: with other arguments"""
    if not getattr(ctx, "restless", False):
        return m
    sigs = {n: st for n in names}
    sigs.update(other or {})
    return Restless(ctx, m, sigs, keep)


def rest(fn, fixed=False, last=None):
    """fixed: without updates of the parameters, last: which kind of other use comes last"""

    def g(ctx):
        ctx.restless = True
        ctx.fixed, ctx.last = fixed, last
        fn(ctx)

    return g


def restless_flow(ctx, m, s, h, t, T, e):
    return restless(ctx, m, ("flow_rate", "history_rate", "dflow_dhist", "dflow_derate", "dhist_dstress", "dhist_derate"), dict(s=s, h=h, t=t, T=T, e=e))


def restless_hard(ctx, m, s, h, t, p, T, e):
    return restless(ctx, m, ("history_rate", "dhistory_rate_dstress", "dhistory_rate_dhistory", "dhistory_rate_derate", "dhistory_rate_dtotalrate"),
                    dict(s=s, h=h, t=t, p=p, T=T, e=e), dict(value=dict(h=h), dvalue=dict(h=h)), (("s", "h"), ("t", "T", "e", "p"), ("h", "T")))


def restless_damage(ctx, m, s, d, t, T, e):
    return restless(ctx, m, ("damage_rate", "d_damage_rate_d_s", "d_damage_rate_d_e"), dict(s=s, d=d, t=t, T=T, e=e))
