"""C30 what calibration differentiates: rates, parameters and predictions are
differentiable by torch.autograd and the gradients are exact"""
import torch

from .common import add, CP, PT, Probe
from .flow import pv, ik, km, kin_models, iso_models
from .hard import damage_models
from .models import LinT
from .params import affine, mono


def tensors(m):
    """every real tensor a module tree holds"""
    seen = set()
    for mod in m.modules():
        if isinstance(mod, Probe):
            continue
        for d in (vars(mod), mod._parameters, mod._buffers):
            for k, v in list(d.items()):
                if isinstance(v, torch.Tensor) and v.dtype.is_floating_point and v.numel() and (id(mod), k) not in seen:
                    seen.add((id(mod), k))
                    yield mod, k, v


def weighted(outs):
    z = torch.zeros(())
    for i, o in enumerate(outs):
        w = (1.0 + i + torch.arange(o.numel(), dtype=torch.float64)) / 4
        z = z + (w.reshape(o.shape) * o).sum()
    return z


def gradients(ctx, m, outs, leaves, skip=()):
    """outs(**leaves): results; compared with the symbolic derivatives of the
    executed code, where a result cut from the graph still shows its dependence"""
    held = [x for x in tensors(m) if x[1] not in skip] if m is not None else []
    refs, new = [], []
    for mod, k, v in held:
        def other(x, mod=mod, k=k, v=v):
            setattr(mod, k, x)
            try:
                return weighted(outs(**leaves))
            finally:
                setattr(mod, k, v)

        refs.append((k, ctx.jac(other, v)))
    for k, v in leaves.items():
        refs.append((k, ctx.jac(lambda x: weighted(outs(**{**leaves, k: x})), v)))
    for mod, k, v in held:
        p = v.detach().clone().requires_grad_(True)
        new.append(p)
        setattr(mod, k, p)
    lv = {k: v.detach().clone().requires_grad_(True) for k, v in leaves.items()}
    new += list(lv.values())
    z = weighted(outs(**lv))
    ctx.true("the results are connected to the parameters", z.requires_grad)
    if z.requires_grad:
        g = torch.autograd.grad(z, new, allow_unused=True)
        for (k, r), x, p in zip(refs, g, new):
            ctx.eq("gradient with respect to " + k, torch.zeros_like(p) if x is None else x, r, deriv=True)
    for mod, k, v in held:
        setattr(mod, k, v)


# ------------------------------------------------------------------ flow rules
def point(ctx, nh, B):
    s, h = ctx.real("s", B), ctx.real("h", B + (nh,))
    t, T, e = ctx.real("t", B, lo=0), ctx.pos("T", B), ctx.real("e", B)
    ctx.T0 = T
    return s, h, t, T, e


def flow_grad(build, B, nz=False):
    def fn(ctx):
        m = build(ctx)
        s, h, t, T, e = point(ctx, m.nhist, B)
        if nz:
            ctx.assume(torch.abs(e) > 1.0 / 64)

        def outs(s, e, h=h):
            r = [m.flow_rate(s, h, t, T, e)[0]]
            return r + ([m.history_rate(s, h, t, T, e)[0]] if m.nhist else [])

        gradients(ctx, m, outs, dict(s=s, h=h, e=e) if m.nhist else dict(s=s, e=e))

    return fn


def sup_flow(ctx):
    from pyoptmat import flowrules as fr

    return fr.SuperimposedFlowRule([pv(ctx), ik(ctx, "voce", "fanr")])


def ri_flow(ctx):
    from pyoptmat import flowrules as fr

    return fr.RateIndependentFlowRuleWrapper(pv(ctx), ctx.real("lmbda", lo=0, hi=1), ctx.pos("eref"))


def km_flow(soft):
    return lambda ctx: km(ctx, soft, pv(ctx, "a"), pv(ctx, "b"))


add("C30", "flow/perfect/b2", flow_grad(pv, (2,)))
for iso, kin, B in [("voce", "none", (2,)), ("voce", "fa", (1,)), ("theta", "fanr", (1, 1)), ("thetarec", "farec", ()), ("voce", "cb2", (1,)), ("theta", "cb2r", (1,))]:
    add("C30", "flow/isokin/%s+%s" % (iso, kin), flow_grad(lambda ctx, iso=iso, kin=kin: ik(ctx, iso, kin), B), cost=2)


def pv_each(ctx):
    """one set of parameters for each experiment"""
    from pyoptmat import flowrules as fr

    return fr.PerfectViscoplasticity(PT(ctx, ctx.real("n", (2,), lo=1, hi=12)), PT(ctx, ctx.pos("eta", (2,))))


add("C30", "flow/perfect/each/b2", flow_grad(pv_each, (2,)))
add("C30", "flow/superimposed", flow_grad(sup_flow, (1,)))
add("C30", "flow/rate independent", flow_grad(ri_flow, (2,), True))
add("C30", "flow/regime switch", flow_grad(km_flow(False), (1,), True))
add("C30", "flow/regime blend", flow_grad(km_flow(True), (1,), True))


def hard_grad(build, B):
    def fn(ctx):
        m = build(ctx)
        s, h, t, T, e = point(ctx, m.nhist, B)
        p = ctx.real("p", B)

        def outs(s, h, p):
            return [m.value(h), m.history_rate(s, h, t, p, T, e)]

        gradients(ctx, m, outs, dict(s=s, h=h, p=p))

    return fn


for k in ("voce", "theta", "thetarec"):
    add("C30", "hardening/" + k, hard_grad(lambda ctx, k=k: iso_models(ctx, k), (2,)))
for k in ("fa", "farec", "fanr", "cb1", "cb2", "cb2r", "sup"):
    add("C30", "hardening/" + k, hard_grad(lambda ctx, k=k: kin_models(ctx, k), (2,)))


# -------------------------------------------------------------------- models
def model_grad(kind, dk, B, E=None):
    def fn(ctx):
        from pyoptmat import models

        fr = ik(ctx, *kind) if kind else pv(ctx)
        Em = E(ctx) if E else PT(ctx, ctx.pos("E"))
        nh = fr.nhist
        y = ctx.real("y", B + (1 + nh,))
        if dk is None:
            m = models.InelasticModel(Em, fr)
        else:
            y = torch.cat([y, ctx.real("d", B, lo=0, hi=1, his=True)[..., None]], -1)
            m = models.DamagedInelasticModel(Em, fr, dmodel=damage_models(ctx, dk))
        if dk == "lm":
            ctx.assume(torch.abs(y[..., 0]) > 1.0 / 64)
        t, T, e = ctx.real("t", B, lo=0), ctx.pos("T", B), ctx.real("e", B)
        ctx.T0 = T
        gradients(ctx, m, lambda y, e: [m(t, y, e, T)[0]], dict(y=y, e=e))

    return fn


add("C30", "model/perfect", model_grad(None, None, (2,)))
add("C30", "model/perfect/temperature", model_grad(None, None, (1, 2), lambda ctx: LinT(ctx, "E")))
add("C30", "model/isokin", model_grad(("voce", "fa"), None, (1,)), cost=2)
add("C30", "model/isokin+const", model_grad(("theta", "fanr"), "const", (1,)), cost=2)
for dk in ("const", "hl", "lm"):
    add("C30", "model/perfect+" + dk, model_grad(None, dk, (1,)), cost=2)


# ------------------------------------------------------------ controlled models
def strain_grad(B):
    def fn(ctx):
        from pyoptmat import models

        m = models.InelasticModel(PT(ctx, ctx.pos("E")), pv(ctx, n=ctx.const(1.0)))
        y, t, T = ctx.real("y", B + (1,)), ctx.real("t", B, lo=0), ctx.pos("T", B)
        er = ctx.real("er", B)
        ctx.T0 = T
        c = models.StrainBasedModel(m, lambda t: er, lambda t: T)
        gradients(ctx, c, lambda y: [c(t, y)[0]], dict(y=y))

    return fn


def stress_grad(kind, B):
    def fn(ctx):
        from pyoptmat import models

        fr = ik(ctx, *kind) if kind else pv(ctx)
        E = PT(ctx, ctx.pos("E"))
        m = models.InelasticModel(E, fr)
        y, t, T = ctx.real("y", B + (1 + fr.nhist,)), ctx.real("t", B, lo=0), ctx.pos("T", B)
        sr, st = ctx.real("sr", B), ctx.real("st", B)
        ctx.T0 = T
        # the inner solve starts outside of its tolerance
        ctx.assume(torch.abs(sr + E(T) * fr.flow_rate(st, y[..., 1:], t, T, sr)[0]) > 1.0 / 65536)
        c = models.StressBasedModel(m, lambda t: sr, lambda t: st, lambda t: T)
        gradients(ctx, c, lambda y: [c(t, y)[0]], dict(y=y))

    return fn


add("C30", "strain control", strain_grad((2, 2)))
add("C30", "stress control/perfect", stress_grad(None, (1,)))
add("C30", "stress control/isokin", stress_grad(("voce", "fanr"), (1,)), cost=3)


# -------------------------------------------------------- temperature dependence
def temp_grad(kind, B, pb=()):
    def fn(ctx):
        from pyoptmat import temperature as tm

        T = ctx.pos("T", B)
        s, f, g = affine(ctx, "s"), affine(ctx, "f"), mono(ctx, "g")
        mu = LinT(ctx, "mu")
        k, b = ctx.pos("k"), ctx.pos("b")
        if kind == "constant":
            m = tm.ConstantParameter(ctx.real("p", pb), scaling=s, p_scale=f)
        elif kind == "mu":
            m = tm.ShearModulusScaling(ctx.real("A", pb), mu, scaling=s, A_scale=f)
        elif kind == "mu exp":
            m = tm.ShearModulusScalingExp(ctx.real("A", pb), mu, scaling=s, A_scale=f)
        elif kind == "mts":
            tau, g0, q, p = ctx.real("tau", pb), ctx.pos("g0", pb), ctx.pos("q", pb), ctx.pos("p", pb)
            m = tm.MTSScaling(tau, g0, q, p, k, b, mu, scaling=s, tau0_scale=f, g0_scale=g)
            ctx.assume(k * T * 2 < (mu.a + mu.b * T) * b * b * b * g(g0))
        elif kind == "km rate":
            m = tm.KMRateSensitivityScaling(ctx.real("A", pb, hi=0, his=True), mu, b, k, scaling=s, A_scale=g)
        elif kind == "km visc":
            m = tm.KMViscosityScaling(ctx.real("A", pb, hi=0, his=True), ctx.real("Bp", pb), mu, ctx.pos("e0"), b, k, scaling=s, A_scale=g, B_scale=f)
        elif kind == "poly":
            m = tm.PolynomialScaling(ctx.real("c", (3,) + pb), scaling=s, coef_scale_fn=f)
        elif kind == "piecewise":
            c = torch.tensor([1.0, 2.0, 4.0])
            ctx.assume((T >= 1) & (T <= 4))
            m = tm.PiecewiseScaling(c, ctx.real("v", pb + (3,)), scaling=s, values_scale_fn=f)
        elif kind == "arrhenius":
            m = tm.ArrheniusScaling(ctx.real("A", pb), ctx.pos("Q", pb), scaling=s, A_scale=f, Q_scale=g)
        else:
            m = tm.InverseArrheniusScaling(ctx.real("A", pb), ctx.pos("Q", pb), scaling=s, A_scale=f, Q_scale=g)
        # constants and the tables of control temperatures are not calibrated
        gradients(ctx, m, lambda: [m(T) + torch.zeros(B)], {}, skip=("control", "k", "b"))

    return fn


for kind in ("constant", "mu", "mu exp", "mts", "km rate", "km visc", "poly", "piecewise", "arrhenius", "inverse arrhenius"):
    for B, pb in [((2,), ()), ((2,), (2,))] + ([((2, 2), (2,))] if kind not in ("mts", "km visc", "km rate", "piecewise") else []):
        add("C30", "temperature/%s/T%s/p%s" % (kind, B, pb), temp_grad(kind, B, pb), cost=2 if kind in ("mts", "km visc") else 1)


# ------------------------------------------------------------- scaling functions
def scale_grad(kind, shape):
    def fn(ctx):
        from pyoptmat import scaling as sc, optimize as op

        x = ctx.real("x", shape)
        lo = ctx.pos("lo", shape)
        hi = lo + ctx.pos("w", shape)
        if kind == "simple":
            f = sc.SimpleScalingFunction(lo)
        elif kind == "bounded":
            f = sc.BoundedScalingFunction(lo, hi)
        elif kind == "bounded free":
            f = sc.BoundedScalingFunction(lo, hi, clamp=False)
        elif kind == "log":
            f = sc.LogBoundedScalingFunction(lo, hi)
        elif kind == "bounded scale":
            f = op.bounded_scale_function((lo, hi))
        elif kind == "factor":
            f = op.bound_factor(lo, ctx.real("fac", shape, lo=0, hi=1))
        elif kind == "clamp":
            f = op.clamp_scale_function((lo, hi))
        elif kind == "scale":
            f = op.bound_and_scale(ctx.pos("sc", shape), (lo, hi))
        else:
            f = op.log_bound_and_scale(ctx.pos("sc", shape), (lo, hi))
        gradients(ctx, None, lambda x: [f(x)], dict(x=x))

    return fn


for kind in ("simple", "bounded", "bounded free", "log", "bounded scale", "factor", "clamp", "scale", "log scale"):
    for sh in ((), (2,)):
        add("C30", "scaling/%s/%s" % (kind, sh), scale_grad(kind, sh))


# ----------------------------------------------------------------- predictions
def convert_grad(types, nt):
    """from the integrated history to what is compared with the measurement"""

    def fn(ctx):
        from pyoptmat import experiments as ex
        from .exper import DEFCYC, OTHER

        cyc = torch.tensor([((DEFCYC if i % 2 else OTHER)[k] + [OTHER[k][-1]] * nt)[:nt] for i, k in enumerate(types)]).T.contiguous()
        p = ctx.real("pred", (nt, len(types)))
        gradients(ctx, None, lambda p: [ex.convert_results(p, cyc, torch.tensor(types))], dict(p=p))

    return fn


def predict_grad(types, nt, shapes):
    def fn(ctx):
        from pyoptmat import optimize as op
        from .stats import setup

        data, cycles, ty, control, maker, expected, log = setup(ctx, types, nt)
        names = ["p%d" % i for i in range(len(shapes))]
        m = op.DeterministicModel(maker, names, [ctx.real("ic%d" % i, s) for i, s in enumerate(shapes)])
        vals = [getattr(m, n).detach().clone() for n in names]
        z = weighted([m(data, cycles, ty, control)])
        z.backward()
        for i, n in enumerate(names):
            ref = ctx.jac(lambda x: weighted([expected(vals[:i] + [x] + vals[i + 1:])]), vals[i])
            g = getattr(m, n).grad
            ctx.eq("gradient of a trainable parameter", torch.zeros_like(vals[i]) if g is None else g, ref, deriv=True)

    return fn


for ty in [(0,), (6, 0), (1, 2, 3), (4, 5, 6), (2, 0, 2)]:
    tag = "".join(map(str, ty))
    add("C30", "results/" + tag, convert_grad(ty, 3 if ty == (4, 5, 6) else 5), cost=3)
    add("C30", "deterministic/" + tag, predict_grad(ty, 4, [(), (len(ty),)]), cost=2)


# ------------------------------------------------------- the state of a new sample
def fresh(kind, r):
    """zero stress and zero internal variables: every simulation starts there.
    r: recovery exponent"""

    def fn(ctx):
        from pyoptmat import hardening as hd

        B = (2,)
        P = lambda k, s=(): PT(ctx, ctx.pos(k, s))
        if kind == "thetarec":
            m = hd.Theta0RecoveryVoceIsotropicHardeningModel(P("tau"), P("th"), PT(ctx, ctx.const(0.0)), P("r1"), PT(ctx, ctx.const(r)))
        elif kind == "farec":
            m = hd.FAKinematicHardeningModel(P("C"), P("g"), b=P("b"), r=PT(ctx, ctx.const(r)))
        else:
            m = hd.ChabocheHardeningModelRecovery(P("C", (2,)), P("g", (2,)), P("b", (2,)), PT(ctx, ctx.const([r, 1.0])))
        n = m.nhist
        t, T, e, p = ctx.real("t", B, lo=0), ctx.pos("T", B), ctx.real("e", B), ctx.real("p", B)
        ctx.T0 = T
        s, h = torch.zeros(B), torch.zeros(B + (n,))
        hard = ["tau", "th", "R0", "r1"] if kind == "thetarec" else ["C", "g", "b"]
        ps = {k: q.v for k, q in m.named_modules() if isinstance(q, PT)}
        leaves = {k: v.detach().clone().requires_grad_(True) for k, v in ps.items()}
        for k, q in m.named_modules():
            if isinstance(q, PT):
                q.v = leaves[k]
        hl = h.clone().requires_grad_(True)
        w = 1.0 + torch.arange(2 * n, dtype=torch.float64).reshape(B + (n,))
        rate = m.history_rate(s, hl, t, p, T, e)
        g = dict(zip(list(leaves) + ["h"], torch.autograd.grad((w * rate).sum(), list(leaves.values()) + [hl], allow_unused=True)))
        for k, q in m.named_modules():
            if isinstance(q, PT):
                q.v = ps[k]
        J = m.dhistory_rate_dhistory(s, h, t, p, T, e)
        lin = 1.0 if r == 1 else 0.0
        ap = torch.abs(p)
        ctx.eq("gradient with respect to the state", g["h"], (w[..., :, None] * J).sum(-2))
        if kind == "thetarec":
            ref = -ps["theta"] / ps["tau"] * ap - ps["r1"] * lin
            ctx.eq("history Jacobian", J[..., 0, 0], ref)
            ctx.eq("gradient with respect to R0", g["R0"], (w[..., 0] * ps["r1"] * lin).sum())
            ctx.eq("gradient with respect to theta", g["theta"], (w[..., 0] * ap).sum())
            ctx.eq("gradient with respect to r1", g["r1"], torch.zeros(()))
        else:
            lin = torch.tensor([lin, 1.0])[:n]
            ref = torch.diag_embed(-ps["g"] * ap[:, None] - ps["b"] * lin)
            ctx.eq("history Jacobian", J, ref)
            gc = (w * p[:, None]).sum(0)
            ctx.eq("gradient with respect to C", g["C"], gc if n > 1 else gc.sum())
            for k in ("g", "b"):
                ctx.eq("gradient with respect to " + k, g[k], torch.zeros_like(g[k]))

    return fn


for kind in ("thetarec", "farec", "cbr"):
    for r in (1.0, 1.5, 2.0, 3.0):
        add("C30", "fresh sample/%s/exponent %g" % (kind, r), fresh(kind, r))


def elastic(kind, n, at):
    """no flow: at zero stress, or anywhere inside the yield surface.  The
    derivatives the models report are differentiated by the plain integrator
    as well, so that those have to be defined there, too"""

    def fn(ctx):
        from pyoptmat import flowrules as fr, damage as dm

        B = (2,)
        t, e = ctx.real("t", B, lo=0), ctx.real("e", B)
        T = ctx.T0 = torch.ones(B)
        c = lambda v: PT(ctx, ctx.const(v))
        s = torch.zeros(B) + (1.0 if at else 0.0)
        d = ctx.real("d", B, lo=0, hi=1, his=True)
        if kind in ("hl", "lm"):
            if kind == "hl":
                m = dm.HayhurstLeckie(c(4.0), c(n), PT(ctx, ctx.pos("phi")))
            else:
                m = dm.LarsonMillerDamage(PT(ctx, ctx.real("C")), c(-n), PT(ctx, ctx.real("Bp")))
            lv = dict(s=s, d=d)
            rates = lambda s, d: [m.damage_rate(s, d, t, T, e)[0]]
            derivs = lambda s, d: [m.damage_rate(s, d, t, T, e)[1], m.d_damage_rate_d_s(s, d, t, T, e)]
            dr = dict(s=lambda: m.d_damage_rate_d_s(s, d, t, T, e), d=lambda: m.damage_rate(s, d, t, T, e)[1])
        elif kind == "perfect":
            m = fr.PerfectViscoplasticity(c(n), c(4.0))
            lv = dict(s=s)
            rates = lambda s: [m.flow_rate(s, s, t, T, e)[0]]
            derivs = lambda s: [m.flow_rate(s, s, t, T, e)[1]]
            dr = dict(s=lambda: derivs(s)[0])
        else:
            iso, kin = kind.split("+")
            m = fr.IsoKinViscoplasticity(c(n), c(4.0), c(3.0), iso_models(ctx, iso), kin_models(ctx, kin))
            h = torch.zeros(B + (m.nhist,)) + (0.25 if at else 0.0)
            lv = dict(s=s, h=h)
            rates = lambda s, h: [m.flow_rate(s, h, t, T, e)[0]]
            derivs = lambda s, h: [m.flow_rate(s, h, t, T, e)[1], m.dflow_dhist(s, h, t, T, e), m.history_rate(s, h, t, T, e)[1], m.dhist_dstress(s, h, t, T, e)]
            dr = dict(s=lambda: m.flow_rate(s, h, t, T, e)[1], h=lambda: m.dflow_dhist(s, h, t, T, e)[..., 0, :])
            ctx.eq("no flow", m.flow_rate(s, h, t, T, e)[0], torch.zeros(B))
            ctx.eq("no flow resistance", m.flow_rate(s, h, t, T, e)[1], torch.zeros(B))
        lf = {k: v.detach().clone().requires_grad_(True) for k, v in lv.items()}
        r = rates(**lf)
        w = (1.0 + torch.arange(2, dtype=torch.float64)) / 4
        g = torch.autograd.grad(weighted(r), list(lf.values()), allow_unused=True)
        for k, x in zip(lf, g):
            D = dr[k]()
            ctx.eq("gradient of the rate with respect to " + k, torch.zeros_like(lf[k]) if x is None else x,
                   w.reshape((2,) + (1,) * (D.dim() - 1)) * D)
        held = list(tensors(m))
        for mod, k, v in held:
            setattr(mod, k, v.detach().clone().requires_grad_(True))
        new = [getattr(mod, k) for mod, k, v in held] + list(lf.values())
        for what, f in (("rates", rates), ("derivatives", derivs)):
            z = weighted(f(**lf))
            for x, (k, p) in zip(torch.autograd.grad(z, new, allow_unused=True), [(k, v) for _, k, v in held] + list(lv.items())):
                if x is not None:
                    ctx.true("the gradient of the %s with respect to %s is defined" % (what, k), torch.isfinite(x))
        for mod, k, v in held:
            setattr(mod, k, v)

    return fn


for n in (1.0, 1.5, 2.0, 3.0):
    for at in (0, 1):
        add("C30", "no flow/isokin/exponent %g/%s" % (n, "inside" if at else "zero"), elastic("voce+fa", n, at))
        add("C30", "no flow/isokin recovery/exponent %g/%s" % (n, "inside" if at else "zero"), elastic("theta+cb2", n, at))
    add("C30", "zero stress/perfect/exponent %g" % n, elastic("perfect", n, 0))
    if n > 1:
        for k in ("hl", "lm"):
            add("C30", "zero stress/%s/exponent %g" % (k, n), elastic(k, n, 0))


# ------------------------------------------------------- a whole calibration step
def whole(ty, control, nt, adjoint, each, block):
    """experimental data to the gradient of a loss: wrapper, parameters with
    scaling, driver, integration and abstraction of the results of a linear
    viscous material"""

    def fn(ctx):
        from pyoptmat import optimize as op, models, flowrules as fr, temperature as tm, experiments as ex
        from .exper import DEFCYC
        from .odes import gen

        nb = len(ty)
        shape = (nb,) if each else ()
        times = torch.cumsum(gen((nt, nb), 3, 5, 64) + 0.25, 0)
        data = torch.stack([times, gen((nt, nb), 2, 5, 4) + 1.0, torch.cumsum(gen((nt, nb), 5, 7, 16) + 1.0, 0)])
        cyc = torch.tensor([(DEFCYC[k] + [DEFCYC[k][-1]] * nt)[:nt] for k in ty]).T.contiguous()
        ctl = torch.tensor(control)
        E, eta, a = ctx.real("E", shape, lo=1, hi=4), ctx.real("eta", shape, lo=1, hi=3), ctx.const(1.0)

        def maker(E, eta, extra_params=None):
            m = models.InelasticModel(tm.ConstantParameter(E, p_scale=lambda x: 2 * x + 1), fr.PerfectViscoplasticity(
                tm.ConstantParameter(a), tm.ConstantParameter(eta, scaling=lambda x: 3 * x)))
            return models.ModelIntegrator(m, use_adjoint=adjoint, block_size=block, rtol=-1.0, atol=-1.0, miter=1)

        w = gen((nt, nb), 7, 11, 8) + 0.0625

        def ref(E, eta):
            e_, n_ = (2 * E + 1).expand(nb), (3 * eta).expand(nb)
            v, out = torch.zeros(nb), []
            for i in range(nt):
                if i > 0:
                    dt, dx = times[i] - times[i - 1], data[2, i] - data[2, i - 1]
                    ve = (v + e_ * dx) / (1 + e_ * dt / n_)
                    vs = v + dx / e_ + data[2, i] * dt / n_
                    v = torch.where(ctl == 0, ve, vs)
                out.append(v)
            return (w * ex.convert_results(torch.stack(out), cyc, torch.tensor(ty))).sum()

        m = op.DeterministicModel(maker, ["E", "eta"], [E.clone(), eta.clone()])
        r = m(data, cyc, torch.tensor(ty), ctl)
        loss = (w * r).sum()
        ctx.eq("loss", loss, ref(E, eta))
        loss.backward()
        ctx.eq("gradient with respect to E", m.E.grad, ctx.jac(lambda x: ref(x, eta), E), deriv=True)
        ctx.eq("gradient with respect to eta", m.eta.grad, ctx.jac(lambda x: ref(E, x), eta), deriv=True)

    return fn


for j, (ty, ct) in enumerate([((0,), (0,)), ((1,), (1,)), ((0, 0), (0, 0)), ((6, 1), (0, 1)), ((5, 0), (1, 0))]):
    for adj in (True, False):
        for each in (False, True) if len(ty) > 1 else (False,):
            add("C30", "whole/%s/control%s/%s%s" % ("".join(map(str, ty)), "".join(map(str, ct)), "adjoint" if adj else "plain", "/each" if each else ""),
                whole(ty, ct, 4, adj, each, (2, 1, 5)[j % 3]), generic=True)
