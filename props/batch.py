"""C17: the entries of a batch never influence each other"""
import torch

from .common import add, CP
from .odes import Affine, EXACT, gen


class Get:
    """named symbolic inputs with a leading batch axis; `only(i)` gives the
    inputs of entry i as a batch of one"""

    def __init__(self, ctx, nb, i=None, store=None):
        self.ctx, self.nb, self.i = ctx, nb, i
        self.store = {} if store is None else store

    def __call__(self, name, trailing=(), lead=(), **k):
        key = name
        if key not in self.store:
            self.store[key] = (self.ctx.real(name, lead + (self.nb,) + trailing, **k), len(lead))
        v, ax = self.store[key]
        v = v.clone()
        return v if self.i is None else v.narrow(ax, self.i, 1).clone()

    def pos(self, name, trailing=(), lead=(), **k):
        return self(name, trailing, lead, lo=0, los=True, **k)

    def const(self, full, ax=0):
        return full.clone() if self.i is None else full.narrow(ax, self.i, 1).clone()

    def only(self, i):
        return Get(self.ctx, self.nb, i, self.store)

    @property
    def n(self):
        return self.nb if self.i is None else 1


def alone(nb, run, deriv=False):
    """run(get) returns {name: (tensor, batch axis)}"""

    def fn(ctx):
        g = Get(ctx, nb)
        full = run(ctx, g)
        for i in range(nb):
            one = run(ctx, g.only(i))
            for k, (v, ax) in full.items():
                w, _ = one[k]
                ctx.true("same shapes", tuple(v.shape[:ax]) == tuple(w.shape[:ax]) and w.shape[ax] == 1 and v.shape[ax] == nb and tuple(
                    v.shape[ax + 1:]) == tuple(w.shape[ax + 1:]))
                ctx.eq("%s of entry %d is what it is alone" % (k, i), v.narrow(ax, i, 1), w)

    return fn


# ------------------------------------------------------- constitutive models
def P(g, kind, name, trailing=()):
    """a parameter: one value for each entry, constant or temperature dependent"""
    from pyoptmat import temperature as tm

    if kind == "const":
        return CP(g.pos(name, trailing))
    if kind == "exp":
        return CP(g(name, trailing, lo=1, los=True, hi=6))
    if kind == "poly":
        return tm.PolynomialScaling(g.pos(name, (), (2,)))
    if kind == "piece":
        return tm.PiecewiseScaling(torch.tensor([0.0, 1.0, 4.0]), g.pos(name, (3,)))
    if kind == "arr":
        return tm.ArrheniusScaling(g.pos(name + "A"), g.pos(name + "Q"))
    raise ValueError(kind)


def iso(g, kind):
    from pyoptmat import hardening as h

    if kind == "voce":
        return h.VoceIsotropicHardeningModel(P(g, "poly", "R"), P(g, "const", "d"))
    if kind == "theta":
        return h.Theta0VoceIsotropicHardeningModel(P(g, "const", "tau"), P(g, "arr", "th"))
    return h.Theta0RecoveryVoceIsotropicHardeningModel(*[P(g, "const", k) for k in ("tau", "th", "R0", "r1")], P(g, "exp", "r2"))


def kin(g, kind, tag=""):
    from pyoptmat import hardening as h

    if kind == "none":
        return h.NoKinematicHardeningModel()
    if kind == "fa":
        return h.FAKinematicHardeningModel(P(g, "const", tag + "C"), P(g, "const", tag + "g"), b=P(g, "const", tag + "b"), r=P(g, "exp", tag + "r"))
    if kind == "fadef":
        return h.FAKinematicHardeningModel(P(g, "piece", tag + "C"), P(g, "const", tag + "g"))
    if kind == "fanr":
        return h.FAKinematicHardeningModelNoRecovery(P(g, "piece", tag + "C"), P(g, "const", tag + "g"))
    if kind.startswith("cb"):
        n = int(kind[2])
        if kind.endswith("r"):
            return h.ChabocheHardeningModelRecovery(*[P(g, "const", tag + k, (n,)) for k in "Cgb"], P(g, "exp", tag + "r", (n,)))
        return h.ChabocheHardeningModel(P(g, "const", tag + "C", (n,)), P(g, "const", tag + "g", (n,)))
    return h.SuperimposedKinematicHardening([kin(g, "cb2", "a"), kin(g, "fanr", "b")])


def flow(g, kind):
    from pyoptmat import flowrules as fr

    if kind == "perfect":
        return fr.PerfectViscoplasticity(P(g, "exp", "n"), P(g, "poly", "eta"))
    a, b = kind.split("+")
    return fr.IsoKinViscoplasticity(P(g, "exp", "n"), P(g, "const", "eta"), P(g, "const", "s0"), iso(g, a), kin(g, b))


def wrapped(ctx, g, kind, shared):
    from pyoptmat import flowrules as fr

    m1 = fr.PerfectViscoplasticity(P(g, "exp", "n1"), P(g, "const", "eta1"))
    if kind == "super":
        return fr.SuperimposedFlowRule([m1, flow(g, "voce+fa")])
    if kind == "ri":
        return fr.RateIndependentFlowRuleWrapper(m1, shared("lmbda", lo=0, hi=1), shared("eref", lo=0, los=True))
    m2 = fr.PerfectViscoplasticity(P(g, "exp", "n2"), P(g, "const", "eta2"))
    args = (m1, m2, shared("g0", lo=-3, hi=3), P(g, "poly", "mu"), shared("b", lo=0, los=True), shared("eps0", lo=0, los=True), shared("kb", lo=0, los=True))
    if kind == "soft":
        return fr.SoftKocksMeckingRegimeFlowRule(*args, shared("sf", lo=0, los=True), eps=torch.tensor(0.0))
    return fr.KocksMeckingRegimeFlowRule(*args, eps=torch.tensor(0.0))


def rate_state(ctx, g, nh, lead):
    s, h = g("s", (), lead), g("h", (nh,), lead)
    t, T, e = g("t", (), lead, lo=0), g.pos("T", (), lead, hi=4), g("e", (), lead)
    return s, h, t, T, e


def flow_rules(kind, lead=()):
    def run(ctx, g):
        ax = len(lead)
        shared = lambda n, **k: ctx.real(n, (), **k)
        m = flow(g, kind) if "+" in kind or kind == "perfect" else wrapped(ctx, g, kind, shared)
        st = rate_state(ctx, g, m.nhist, lead)
        if kind in ("km", "soft") and g.i is None:
            ctx.assume(torch.abs(st[-1]) > 1.0 / 64)
        f, df = m.flow_rate(*st)
        out = dict(rate=(f, ax), slope=(df, ax))
        h, dh = m.history_rate(*st)
        out["derivative with respect to the rate"] = (m.dflow_derate(*st), ax)
        if m.nhist:
            out["history rate"] = (h, ax)
            out["history slope"] = (dh, ax)
            out["derivative with respect to the history"] = (m.dflow_dhist(*st), ax)
            out["history derivative (stress)"] = (m.dhist_dstress(*st), ax)
            out["history derivative (rate)"] = (m.dhist_derate(*st), ax)
        return out

    return run


FL = ("perfect", "voce+none", "theta+fanr", "rec+fa", "voce+cb2", "theta+cb2r", "voce+cb1", "voce+fadef", "voce+sup", "super", "ri", "km", "soft")
for k in FL:
    for nb in (2, 3):
        if nb == 3 and k in ("soft", "km", "theta+cb2r"):
            continue
        slow = k == "voce+sup" or (nb == 3 and k in ("theta+fanr", "voce+fadef"))
        add("C17", "flow rule/%s/b%d" % (k, nb), alone(nb, flow_rules(k)), cost=9 if k in ("km", "theta+fanr", "voce+sup") else 2, tier="thorough" if slow else "quick")
    if k not in ("km", "soft"):
        add("C17", "flow rule/%s/steps" % k, alone(2, flow_rules(k, (2,))), cost=2, tier="quick" if k in ("voce+cb2", "rec+fa", "super", "perfect") else "thorough")


def damage_model(g, kind):
    from pyoptmat import damage as d

    if kind == "none":
        return d.NoDamage()
    if kind == "const":
        return d.ConstantDamage(P(g, "poly", "rate"))
    if kind == "hl":
        return d.HayhurstLeckie(P(g, "const", "A"), P(g, "exp", "xi"), P(g, "const", "phi"))
    return d.LarsonMillerDamage(P(g, "const", "LC"), P(g, "const", "LA"), P(g, "const", "LB"), eps=0.0)


def damages(kind, lead=()):
    def run(ctx, g):
        ax = len(lead)
        s, d = g("s", (), lead), g("d", (), lead, lo=0, hi=1, his=True)
        t, T, e = g("t", (), lead, lo=0), g.pos("T", (), lead, hi=4), g("e", (), lead)
        if kind == "lm" and g.i is None:
            ctx.assume(torch.abs(s) > 1.0 / 64)
        m = damage_model(g, kind)
        r, dr = m.damage_rate(s, d, t, T, e)
        return {"rate": (r, ax), "slope": (dr, ax), "stress slope": (m.d_damage_rate_d_s(s, d, t, T, e), ax), "rate slope": (m.d_damage_rate_d_e(s, d, t, T, e), ax)}

    return run


for k in ("none", "const", "hl", "lm"):
    add("C17", "damage/%s" % k, alone(3, damages(k)))
    add("C17", "damage/%s/steps" % k, alone(2, damages(k, (2,))))


def material(fk, dk, lead=(), stress=False):
    def run(ctx, g):
        from pyoptmat import models

        ax = len(lead)
        f = flow(g, fk)
        if dk is None:
            m = models.InelasticModel(P(g, "poly", "E"), f)
        else:
            m = models.DamagedInelasticModel(P(g, "poly", "E"), f, dmodel=damage_model(g, dk))
        n = m.nhist
        y = g("y", (n,), lead, lo=None if dk is None else 0, hi=None if dk is None else 1, his=True) if dk else g("y", (n,), lead)
        t, T, e = g("t", (), lead, lo=0), g.pos("T", (), lead, hi=4), g("e", (), lead)
        r, J, Je, JT = m(t, y, e, T)
        return {"rate": (r, ax), "Jacobian": (J, ax), "rate Jacobian": (Je, ax)}

    return run


for fk, dk in [("perfect", None), ("voce+fa", None), ("theta+cb2", None), ("perfect", "hl"), ("voce+cb1", "const"), ("perfect", "lm")]:
    add("C17", "material/%s/%s" % (fk, dk), alone(2, material(fk, dk)), cost=3)
    add("C17", "material/%s/%s/steps" % (fk, dk), alone(2, material(fk, dk, (2,))), cost=5, tier="quick" if fk == "perfect" else "thorough")


# ---------------------------------------------------------------- integration
def integration(method, nt, n, opts, adjoint, grad=False):
    def run(ctx, g):
        from pyoptmat import ode

        nb = g.nb
        times = g.const(torch.cumsum(gen((nt, nb), 3, 5, 64) + 0.25, 0), 1)
        c, y0 = g("c", (n,)), g("y0", (n,))
        c1, M, M1 = (g.const(gen(*a)) for a in (((nb, n), 3, 5, 4), ((nb, n, n), 5, 7, 8), ((nb, n, n), 3, 5, 16)))
        f = Affine(c, M - torch.eye(n), c1, M1)
        if not grad:
            y = (ode.odeint_adjoint if adjoint else ode.odeint)(f, y0, times, method=method, **EXACT, **opts)
            return {"history": (y, 1)}
        f.c = torch.nn.Parameter(c)
        y0.requires_grad_(True)
        y = (ode.odeint_adjoint if adjoint else ode.odeint)(f, y0, times, method=method, **EXACT, **opts)
        w = g.const(gen((nt, nb, n), 7, 11, 8) + 0.0625, 1)
        a, b = torch.autograd.grad((w * y * y).sum(), [f.c, y0])
        return {"parameter gradient": (a, 0), "initial condition gradient": (b, 0)}

    return run


for me in ("backward-euler", "forward-euler"):
    for j, (nt, bs, lin) in enumerate([(4, 1, "thomas"), (6, 3, "pcr"), (6, 5, "hybrid"), (5, 9, "thomas"), (7, 4, "pcr")]):
        for ad in (False, True):
            o = dict(block_size=bs, direct_solve_method=lin, direct_solve_min_size=2, guess_type=("zero", "previous")[j % 2])
            tag = "%s/%s/nt%d/block%d/%s" % ("adjoint" if ad else "plain", me.split("-")[0], nt, bs, lin)
            add("C17", "integration/%s" % tag, alone(3, integration(me, nt, 2, o, ad)), generic=True)
            add("C17", "gradients/%s" % tag, alone(2, integration(me, min(nt, 5), 2, o, ad, True)), generic=True, cost=2)


def bidiagonal(meth, n, k):
    def run(ctx, g):
        from pyoptmat import chunktime as ct

        nb = g.nb
        A = g.const(gen((n, nb, k, k), 5, 7, 8) + 2 * torch.eye(k), 1)
        B = g.const(gen((n - 1, nb, k, k), 3, 7, 8), 1)
        v = g("v", (k,), (n,))
        F = dict(thomas=ct.BidiagonalThomasFactorization, pcr=ct.BidiagonalPCRFactorization,
                 hybrid=ct.BidiagonalHybridFactorization)[meth]
        M = F(A, B, **(dict(min_size=2) if meth == "hybrid" else {}))
        op = ct.BidiagonalForwardOperator(A, B)
        # vectors are (batch, blocks * size)
        return {"solution": (M(v.transpose(0, 1).flatten(1).contiguous()), 0), "product": (op(v.transpose(0, 1).flatten(1).contiguous()), 0)}

    return run


for meth in ("thomas", "pcr", "hybrid"):
    for n in (3, 5, 8):
        add("C17", "bidiagonal/%s/%d" % (meth, n), alone(3, bidiagonal(meth, n, 2)))


def linear(which, n):
    def run(ctx, g):
        from pyoptmat import solvers

        nb = g.nb
        A = g.const(gen((nb, n, n), 5, 7, 16) + 2 * torch.eye(n))
        b = g("b", (n,))
        f = dict(lu=solvers.lu_linear_solve, jacobi=solvers.jacobi_iteration_linear_solve)[which]
        return {"solution": (f(A, b), 0)}

    return run


for n in (1, 2, 3):
    add("C17", "linear/lu/%d" % n, alone(3, linear("lu", n)))


# -------------------------------------------------------------- interpolation
def interpolation(npts, q):
    def run(ctx, g):
        from pyoptmat import utility

        nb = g.nb
        t = g.const(torch.cumsum(gen((npts, nb), 3, 5, 64) + 0.5, 0), 1)
        v = g("v", (), (npts,))
        x = t[0] + g("x", (), (q,), lo=0, hi=1) * (t[-1] - t[0])
        f = utility.ArbitraryBatchTimeSeriesInterpolator(t, v)
        return {"values": (f(x), 1), "values at one time": (f(x[0]), 0)}

    return run


for npts, q, nb in [(2, 1, 3), (3, 1, 2), (3, 2, 2)]:
    add("C17", "interpolation/%d points/%d times" % (npts, q), alone(nb, interpolation(npts, q)), cost=3)


# -------------------------------------------------------------------- drivers
def driver(kind, nt, bs, rep=False):
    """kind: strain, stress or both; rep: one of the experiments has a time
    point twice"""

    def run(ctx, g):
        from pyoptmat import models

        nb = g.nb
        full = torch.cumsum(torch.tensor([[((3 * i + 2 * j) % 5 - 2) / 64 + 0.25 for j in range(nb)] for i in range(nt)]), 0)
        hold = torch.zeros(nt, nb, dtype=torch.bool)
        if rep:
            full[2:, 1] = full[2:, 1] - (full[2, 1] - full[1, 1])
            hold[2, 1] = True
        times, hold = g.const(full, 1), g.const(hold, 1)
        data, temps = g("data", (), (nt,)), g("temps", (), (nt,))
        if rep:
            data[2] = torch.where(hold[2], data[1], data[2])
            temps[2] = torch.where(hold[2], temps[1], temps[2])
        p = {k: g.const(gen((nb, 2), *a)) for k, a in dict(c=(3, 5, 4), re=(2, 5, 4), rT=(4, 7, 8)).items()}
        p["re"] = p["re"] + 3.0
        p["ry"] = g.const(gen((nb, 2, 2), 5, 7, 16)) - torch.eye(2)

        def rate(y, e, T):
            return p["c"] + (p["ry"] * y[..., None, :]).sum(-1) + p["re"] * e[..., None] + p["rT"] * T[..., None]

        class M(torch.nn.Module):
            nhist = 2

            def forward(self, t, y, e, T):
                return rate(y, e, T), p["ry"].expand(y.shape + (2,)).clone(), p["re"].expand(y.shape).clone(), torch.zeros_like(y)

        mi = models.ModelIntegrator(M(), block_size=bs, method="backward-euler", rtol=-1.0, atol=-1.0, miter=1)
        if kind == "strain":
            return {"history": (mi.solve_strain(times, data, temps), 1)}
        # the rates of the problem handed to the integrator
        y = g("y", (2,))
        steps = [i for i in range(1, nt)]

        def spy(model, init, t, **kw):
            return torch.stack([model(times[i], y.clone())[0] for i in steps])

        mi.imethod = spy
        live = [torch.where(hold[i], torch.ones_like(times[i]), times[i] - times[i - 1]) for i in range(1, nt)]
        rts = [torch.where(hold[i], torch.zeros_like(times[i]), (data[i] - data[i - 1]) / live[i - 1]) for i in range(1, nt)]
        for i in steps:
            # the inner solve starts outside of its tolerance
            rt = torch.where(hold[i], rts[max(i - 2, 0)], rts[i - 1])
            for d in (data[i],):
                ctx.assume(rt - rate(torch.stack([d, y[..., 1]], -1), torch.zeros_like(rt), temps[i])[..., 0] > 1.0 / 65536)
        if kind == "stress":
            return {"rates": (mi.solve_stress(times, data, temps), 1)}
        control = g.const(torch.tensor([0, 1, 0, 1, 0][:nb]) if kind == "both" else torch.zeros(nb, dtype=torch.long))
        return {"rates": (mi.solve_both(times, temps, data, control), 1)}

    return run


for nt, bs in [(3, 1), (4, 2), (4, 7)]:
    add("C17", "strain driver/nt%d/block%d" % (nt, bs), alone(3, driver("strain", nt, bs)), generic=True)
for k in ("strain", "stress", "both", "both strain"):
    for rep in (False, True):
        if k != "strain" or rep:
            add("C17", "driver/%s%s" % (k, "/repeated time in one experiment" if rep else ""), alone(3, driver(k, 4, 2, rep)), generic=True)
