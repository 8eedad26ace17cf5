"""C24 deterministic and statistical model wrappers"""
import math

import torch

from .common import add
from .exper import ref_column, DEFCYC, OTHER, NAMES


class Predict(torch.nn.Module):
    """stands for an integrated material model: an arbitrary affine function of
    the parameters and of the experimental data"""

    def __init__(self, log, w, args, kwargs):
        super().__init__()
        self.log, self.w, self.args = log, w, args
        log.append((args, kwargs))

    def solve_both(self, times, temperatures, idata, control):
        w = self.w
        p = w["c"] * (times * w["t"] + temperatures * w["T"] + idata * w["d"] + control * w["k"])
        for i, a in enumerate(self.args):
            if a.dim() and (a.dim() > 1 or a.shape[0] != times.shape[1] or w.get("vector", {}).get(i)):
                a = (a * torch.arange(1.0, 1.0 + a.shape[-1])).sum(-1)
            p = p + (i + 1.0) * a * (1.0 + 0.0 * times)
        return torch.stack([p, 2 * p + 1], -1)


def setup(ctx, types, nt, vector=()):
    ne = len(types)
    data = ctx.real("data", (3, nt, ne))
    cyc = [((DEFCYC if i % 2 else OTHER)[k] + [OTHER[k][-1]] * nt)[:nt] for i, k in enumerate(types)]
    cycles = torch.tensor(cyc).T.contiguous()
    ty = torch.tensor(types)
    control = torch.tensor([i % 2 for i in range(ne)])
    w = {k: ctx.real("w" + k) for k in ("c", "t", "T", "d", "k")}
    w["vector"] = {i: True for i in vector}
    log = []
    given = data.clone()

    def maker(*args, **kwargs):
        return Predict(log, w, args, kwargs)

    def expected(args, order=None):
        o = list(range(ne)) if order is None else order
        p = Predict([], w, args, {}).solve_both(given[0][:, o], given[1][:, o], given[2][:, o], control[o])[:, :, 0]
        return torch.stack([ref_column(types[k], cyc[k], p[:, j]) for j, k in enumerate(o)], 1)

    return data, cycles, ty, control, maker, expected, log


def deterministic(types, nt, shapes):
    def fn(ctx):
        from pyoptmat import optimize as op

        data, cycles, ty, control, maker, expected, log = setup(ctx, types, nt)
        names = ["p%d" % i for i in range(len(shapes))][::-1]
        ics = [ctx.real("ic%d" % i, s) for i, s in enumerate(shapes)]
        m = op.DeterministicModel(maker, names, [i.clone() for i in ics])
        out = m(data, cycles, ty, control)
        ctx.eq("predictions", out, expected(ics))
        ctx.true("one trainable parameter for each name", sorted(n for n, p in m.named_parameters() if p.requires_grad) == sorted(names))
        for n, i in zip(names, ics):
            ctx.eq("initial value of a parameter", getattr(m, n), i)
        new = [ctx.real("new%d" % i, s) for i, s in enumerate(shapes)]
        with torch.no_grad():
            for n, v in zip(names, new):
                setattr(m, n, torch.nn.Parameter(v.clone()))
            ctx.eq("predictions with the current parameters, without gradients", m(data, cycles, ty, control), expected(new))
        ctx.eq("predictions with the current parameters", m(data, cycles, ty, control), expected(new))
        with torch.no_grad():
            for n, i in zip(names, ics):
                getattr(m, n).copy_(i)
            ctx.eq("predictions after an update in place, without gradients", m(data, cycles, ty, control), expected(ics))
        ctx.eq("predictions after an update in place", m(data, cycles, ty, control), expected(ics))
        if len(types) > 1:
            # other data of the same size, in another order
            back = list(range(len(types)))[::-1]
            out = m(data[:, :, back], cycles[:, back], ty[back], control[back])
            ctx.eq("predictions of the experiments in another order", out, expected(ics, back))

    return fn


def lognormal(v, loc, scale):
    return -((v - loc) ** 2) / (2 * scale**2) - torch.log(scale) - 0.5 * math.log(2 * math.pi)


def loghalf(v, scale):
    return lognormal(v, torch.zeros_like(v), scale) + math.log(2.0)


def noise_of(ctx, noise, types, nt):
    """noise prior and the expected noise of each experiment"""
    if noise == "scalar":
        e = ctx.pos("eps")
        return e, e + torch.zeros(len(types))
    e = ctx.pos("eps", (7,))
    return e, torch.stack([e[k] for k in types])


def quiet_pyro():
    import pyro

    pyro.clear_param_store()
    pyro.enable_validation(False)
    return pyro


def single(types, nt, noise, observed, nan=False):
    def fn(ctx):
        from pyoptmat import optimize as op

        pyro = quiet_pyro()
        data, cycles, ty, control, maker, expected, log = setup(ctx, types, nt)
        ne = len(types)
        if nan:
            data = data.clone()
            data[0, 0, 0] = float("nan")
        locs, scales = [ctx.real("l%d" % i) for i in range(2)], [ctx.pos("s%d" % i) for i in range(2)]
        eps, full = noise_of(ctx, noise, types, nt)
        m = op.StatisticalModel(maker, ["b", "a"], locs, scales, eps, **(dict(nan_num=True) if nan else {}))
        vals = [ctx.real("v%d" % i) for i in range(2)]
        obs = ctx.real("obs", (nt, ne))
        cm = pyro.poutine.condition(m, data=dict(b=vals[0], a=vals[1]))
        tr = pyro.poutine.trace(cm).get_trace(data, cycles, ty, control, **(dict(exp_results=obs) if observed else {}))
        ctx.true("sampled sites", [n for n in tr.nodes if tr.nodes[n]["type"] == "sample" and n not in ("trials", "time")] == ["b", "a", "obs"])
        for n, l, s, v in zip("ba", locs, scales, vals):
            ctx.eq("prior location", tr.nodes[n]["fn"].loc, l)
            ctx.eq("prior scale", tr.nodes[n]["fn"].scale, s)
            ctx.eq("value handed to the model", log[0][0]["ba".index(n)], v)
        o = tr.nodes["obs"]
        pred = expected(vals)
        if not nan:
            again(ctx, pyro, cm, types, (data, cycles, ty, control), dict(exp_results=obs) if observed else {}, expected(vals, list(range(ne))[::-1]), full, torch.ones(ne), nt, [])
        if nan:
            p = Predict([], setup_w(ctx), vals, {}).solve_both(data[0], data[1], data[2], control)[:, :, 0]
            ref = p.clone()
            ref[0, 0] = 0.0
            pred = ref
        ctx.eq("predicted results", o["fn"].mean, pred)
        ctx.eq("noise of each experiment", o["fn"].stddev, full + torch.zeros(nt, ne))
        ctx.true("conditioned on the data", o["is_observed"] == observed)
        if observed:
            ctx.eq("observed data", o["value"], obs)
            if not nan and set(types) <= {0, 6}:
                lp = lognormal(obs, pred, full + torch.zeros(nt, ne)).sum() + sum(lognormal(v, l, s) for v, l, s in zip(vals, locs, scales))
                ctx.eq("joint log density", tr.log_prob_sum(), lp)

    return fn


def again(ctx, pyro, cm, types, args, kw, pred, full, we, nt, names):
    """the same model with the experiments in another order: nothing of the
    first evaluation is left over"""
    if len(types) < 2:
        return
    back = list(range(len(types)))[::-1]
    data, cycles, ty, control = args
    if kw:
        kw = dict(exp_results=kw["exp_results"][:, back])
    tr = pyro.poutine.trace(cm).get_trace(data[:, :, back], cycles[:, back], ty[back], control[back], **kw)
    o = tr.nodes["obs"]
    ctx.eq("predicted results of the experiments in another order", o["fn"].mean, pred)
    ctx.eq("noise of the experiments in another order", o["fn"].stddev, full[back] + torch.zeros(nt, len(types)))
    for n in names + ["obs"]:
        ctx.eq("weight of the experiments in another order", torch.as_tensor(tr.nodes[n]["scale"]) + torch.zeros(len(types)), we[back])


def setup_w(ctx):
    return {k: ctx.real("w" + k) for k in ("c", "t", "T", "d", "k")}


def hierarchical(types, nt, noise, include, weights, dims, observed=True, suffix=None):
    def fn(ctx):
        from pyoptmat import optimize as op

        pyro = quiet_pyro()
        vec = [i for i, d in enumerate(dims) if d]
        data, cycles, ty, control, maker, expected, log = setup(ctx, types, nt, vec)
        ne = len(types)
        names = ["q", "p", "r"][: len(dims)]
        sh = [(d,) if d else () for d in dims]
        ll = [ctx.real("ll%d" % i, s) for i, s in enumerate(sh)]
        ls = [ctx.pos("ls%d" % i, s) for i, s in enumerate(sh)]
        ss = [ctx.pos("ss%d" % i, s) for i, s in enumerate(sh)]
        eps, full = noise_of(ctx, noise, types, nt)
        wt = None
        if weights:
            # named weights: in any order, and only for the types at hand and one more
            use = [k for i, k in enumerate(NAMES) if i in types or i == 3 or len(set(types)) == 1]
            use = use[1::2] + use[0::2]
            wt = {k: ctx.pos("wt%d" % NAMES.index(k)) for k in use}
            we = torch.stack([wt[NAMES[k]] for k in types])
        else:
            we = torch.ones(ne)
        a, b, c = suffix or ("_loc", "_scale", "_param")
        kw = dict(loc_suffix=a, scale_suffix=b, param_suffix=c) if suffix else {}
        m = op.HierarchicalStatisticalModel(maker, names, ll, ls, ss, eps, include_noise=include, weights=wt, **kw)
        ctx.true("number of parameters", m.nparams == len(names))
        guide = m.make_guide()
        gt = pyro.poutine.trace(guide).get_trace(data, cycles, ty, control)
        for i, n in enumerate(names):
            ctx.eq("starting location", gt.nodes[n + a]["value"], ll[i])
            ctx.eq("starting scale", gt.nodes[n + b]["value"], ss[i])
            ctx.eq("starting value of each experiment", gt.nodes[n]["value"], ll[i] + torch.zeros((ne,) + sh[i]))
        if include:
            ctx.eq("starting noise", gt.nodes["eps"]["value"], eps)
        ctx.true("trainable parameters", sorted(pyro.get_param_store().keys()) == sorted(
            [n + s + c for n in names for s in (a, b, "")] + (["eps" + c] if include else [])))
        # the population model at arbitrary values of all its variables
        loc = [ctx.real("loc%d" % i, s) for i, s in enumerate(sh)]
        sc = [ctx.pos("sc%d" % i, s) for i, s in enumerate(sh)]
        val = [ctx.real("val%d" % i, (ne,) + s) for i, s in enumerate(sh)]
        cond = {n + a: loc[i] for i, n in enumerate(names)}
        cond.update({n + b: sc[i] for i, n in enumerate(names)})
        cond.update({n: val[i] for i, n in enumerate(names)})
        if include:
            en = ctx.pos("en", tuple(eps.shape))
            cond["eps"] = en
            full = torch.stack([en[k] if noise != "scalar" else en for k in types])
        obs = ctx.real("obs", (nt, ne))
        cm = pyro.poutine.condition(m, data=cond)
        tr = pyro.poutine.trace(cm).get_trace(data, cycles, ty, control, **(dict(exp_results=obs) if observed else {}))
        pred = expected(val)
        again(ctx, pyro, cm, types, (data, cycles, ty, control), dict(exp_results=obs) if observed else {}, expected(val, list(range(ne))[::-1]), full, we, nt, names)
        ctx.eq("returned predictions", tr.nodes["_RETURN"]["value"], pred)
        for i, n in enumerate(names):
            ctx.eq("value handed to the model", log[-1][0][i], val[i])
        ex = log[-1][1]["extra_params"]
        ctx.true("extra parameters for the adjoint pass", len(ex) == len(names) and all(
            e is pyro.get_param_store()._params[n + c] for e, n in zip(ex, names)))
        o = tr.nodes["obs"]
        ctx.eq("predicted results", o["fn"].mean, pred)
        ctx.eq("noise of each experiment", o["fn"].stddev, full + torch.zeros(nt, ne))
        ctx.true("conditioned on the data", o["is_observed"] == observed)
        for n in names + ["obs"]:
            ctx.eq("weight of each experiment", torch.as_tensor(tr.nodes[n]["scale"]) + torch.zeros(ne), we)
        if observed:
            ctx.eq("observed data", o["value"], obs)
        if observed and set(types) <= {0, 6}:
            lp = torch.zeros(())
            for i in range(len(names)):
                lp = lp + lognormal(loc[i], ll[i], ls[i]).sum() + loghalf(sc[i], ss[i]).sum()
                q = lognormal(val[i], loc[i], sc[i])
                if sh[i]:
                    q = q.sum(-1)
                lp = lp + (we * q).sum()
            if include:
                lp = lp + loghalf(en, eps).sum()
            lp = lp + (we * lognormal(obs, pred, full + torch.zeros(nt, ne))).sum()
            ctx.eq("joint log density", tr.log_prob_sum(), lp)

    return fn


for ty, nt in [((0,), 2), ((0, 6), 3), ((6, 0, 0), 2), ((0, 1, 2, 3, 4, 5, 6), 4), ((5, 2, 1), 4)]:
    tag = "".join(map(str, ty))
    for shp in ([()], [(), (len(ty),)], [(2,), (), (3,)]):
        if len(shp) == 3 and len(ty) in (2, 3):
            continue
        add("C24", "deterministic/%s/%s" % (tag, shp), deterministic(ty, nt, shp))
    for noise in ("scalar", "type"):
        for ob in (True, False):
            add("C24", "single level/%s/%s/%s" % (tag, noise, "observed" if ob else "free"), single(ty, nt, noise, ob), cost=2)
        for inc in (False, True):
            for we in (False, True):
                add("C24", "hierarchical/%s/%s/noise%d/weights%d" % (tag, noise, inc, we), hierarchical(ty, nt, noise, inc, we, (0, 0)), cost=4)
add("C24", "single level/not a number", single((0, 6), 2, "scalar", True, True))
add("C24", "hierarchical/vector parameters", hierarchical((0, 6), 2, "type", True, True, (3, 0, 2)), cost=4)
add("C24", "hierarchical/vector parameters/other experiments", hierarchical((0, 5, 2), 3, "scalar", False, True, (2, 2)), cost=4)
add("C24", "hierarchical/not conditioned", hierarchical((0, 6), 2, "type", False, False, (0, 0), False))
add("C24", "hierarchical/suffixes", hierarchical((0, 6), 2, "scalar", True, False, (0, 2), True, ("_L", "_S", "_P")))
