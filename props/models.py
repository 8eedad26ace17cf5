"""C14 model Jacobians, C15 stress control, C16 mixed control and drivers"""
import contextlib

import torch

from .common import add, PT, Probe, rest, restless, elsewhere
from .flow import JetFlow, ik, pv, BATCHES
from .hard import damage_models


class LinT(torch.nn.Module):
    """temperature dependent parameter a + b T, positive"""

    def __init__(self, ctx, name):
        super().__init__()
        self.ctx, self.a, self.b = ctx, ctx.pos(name + "_a"), ctx.pos(name + "_b")

    def value(self, T):
        v = self.a + self.b * T
        return v + 0.125 if getattr(self.ctx, "before", False) else v

    def forward(self, T):
        return self.value(T)

    @property
    def device(self):
        return torch.device("cpu")

    @property
    def shape(self):
        return self.a.shape


class JetDamage(torch.nn.Module):
    def __init__(self, ctx, at, tag="dm"):
        super().__init__()
        self.s0, self.d0, t0, T0, self.e0 = at
        self.pr = Probe(t=t0, T=T0)
        self.pd = Probe(s=self.s0, d=self.d0, t=t0, T=T0, e=self.e0)
        B = tuple(self.s0.shape)
        self.r0, self.rs, self.rd, self.re = (ctx.real(tag + x, B) for x in ("_r0", "_rs", "_rd", "_re"))

    def damage_rate(self, s, d, t, T, e):
        return (self.r0 + self.rs * (s - self.s0) + self.rd * (d - self.d0) + self.re * (e - self.e0) + self.pr(t=t, T=T), self.rd + self.pd(s=s, d=d, t=t, T=T, e=e))

    def d_damage_rate_d_s(self, s, d, t, T, e):
        return self.rs + self.pd(s=s, d=d, t=t, T=T, e=e)

    def d_damage_rate_d_e(self, s, d, t, T, e):
        return self.re + self.pd(s=s, d=d, t=t, T=T, e=e)


def ystate(ctx, n, B, damage=False):
    y = ctx.real("y", B + (n,))
    if damage:
        d = ctx.real("d", B, lo=0, hi=1, his=True)
        y = torch.cat([y, d[..., None]], -1)
    ctx.T0 = ctx.pos("T", B)
    return ctx.real("t", B, lo=0), y, ctx.real("e", B), ctx.T0


def check_model(ctx, m, t, y, e, T, n):
    m = restless(ctx, m, ("forward",), dict(t=t, y=y, e=e, T=T), None, (("y",), ("t", "e", "T")))
    nb = t.dim()
    ctx.true("number of state variables", m.nhist == n)
    r, J, Je, JT = m(t, y, e, T)
    ctx.true("rate shape", tuple(r.shape) == tuple(y.shape))
    ctx.eq("d rate / d state", J, ctx.jac(lambda x: m(t, x, e, T)[0], y, nb), deriv=True)
    ctx.eq("d rate / d strain rate", Je, ctx.jac(lambda x: m(t, y, x, T)[0], e, nb), deriv=True)
    return r


def inelastic(nh, B, temp):
    def fn(ctx):
        from pyoptmat import models

        t, y, e, T = ystate(ctx, 1 + nh, B)
        E = LinT(ctx, "E") if temp else PT(ctx, ctx.pos("E"))
        fr = JetFlow(ctx, nh, (y[..., 0], y[..., 1:], t, T, e), "fr")
        m = models.InelasticModel(E, fr)
        r = check_model(ctx, m, t, y, e, T, 1 + nh)
        ctx.eq("stress rate = E (strain rate - flow rate)", r[..., 0],
               E(T) * (e - fr.flow_rate(y[..., 0], y[..., 1:], t, T, e)[0]))
        ctx.eq("history rate", r[..., 1:], fr.history_rate(y[..., 0], y[..., 1:], t, T, e)[0])

    return fn


def damaged(nh, B, temp):
    def fn(ctx):
        from pyoptmat import models

        t, y, e, T = ystate(ctx, 1 + nh, B, True)
        s, h, d = y[..., 0], y[..., 1:-1], y[..., -1]
        E = LinT(ctx, "E") if temp else PT(ctx, ctx.pos("E"))
        se = s / (1 - d)
        fr = JetFlow(ctx, nh, (se, h, t, T, e), "fr")
        dm = JetDamage(ctx, (se, d, t, T, e))
        m = models.DamagedInelasticModel(E, fr, dmodel=dm)
        r = check_model(ctx, m, t, y, e, T, 2 + nh)
        ctx.eq("stress rate = (1-d) E (strain rate - flow rate)", r[..., 0],
               (1 - d) * E(T) * (e - fr.flow_rate(se, h, t, T, e)[0]))
        ctx.eq("history rate at the effective stress", r[..., 1:-1], fr.history_rate(se, h, t, T, e)[0])
        ctx.eq("damage rate at the effective stress", r[..., -1], dm.damage_rate(se, d, t, T, e)[0])

    return fn


def whole(kind, dk, B):
    """complete models from the library"""

    def fn(ctx):
        from pyoptmat import models

        fr = ik(ctx, *kind) if kind else pv(ctx)
        nh = fr.nhist
        t, y, e, T = ystate(ctx, 1 + nh, B, dk is not None)
        if dk is None:
            m = models.InelasticModel(PT(ctx, ctx.pos("E")), fr)
            check_model(ctx, m, t, y, e, T, 1 + nh)
        else:
            m = models.DamagedInelasticModel(PT(ctx, ctx.pos("E")), fr, dmodel=damage_models(ctx, dk))
            check_model(ctx, m, t, y, e, T, 2 + nh)

    return fn


def defdamage(ctx):
    """without an explicit damage model the damaged model is the undamaged one"""
    from pyoptmat import models

    nh, B = 2, (2,)
    t, y, e, T = ystate(ctx, 1 + nh, B)
    E = LinT(ctx, "E")
    fr = JetFlow(ctx, nh, (y[..., 0], y[..., 1:], t, T, e), "fr")
    a = models.InelasticModel(E, fr)
    b = models.DamagedInelasticModel(E, fr)
    yd = torch.cat([y, torch.zeros(B + (1,))], -1)
    ra, Ja, Jea, _ = a(t, y, e, T)
    rb, Jb, Jeb, _ = b(t, yd, e, T)
    ctx.eq("rate at zero damage", rb[..., :-1], ra)
    ctx.eq("no damage growth", rb[..., -1], torch.zeros(B))
    ctx.eq("jacobian at zero damage", Jb[..., :-1, :-1], Ja)
    ctx.eq("strain rate jacobian at zero damage", Jeb[..., :-1], Jea)


for nh, B, temp in [(0, (2,), False), (1, (2,), True), (2, (2,), True), (3, (2,), False), (2, (2, 2), True), (1, (), True)]:
    add("C14", "inelastic/nh%d/B%s/%s" % (nh, "x".join(map(str, B)), "T" if temp else "c"), inelastic(nh, B, temp))
    if B != ():
        add("C14", "damaged/nh%d/B%s/%s" % (nh, "x".join(map(str, B)), "T" if temp else "c"), damaged(nh, B, temp))
add("C14", "damaged/nh1/B0/T", damaged(1, (), True))
add("C14", "inelastic/between other states", rest(inelastic(2, (2,), True)))
add("C14", "damaged/between other states", rest(damaged(1, (2,), True)))
add("C14", "library/perfect+hl/between other states", rest(whole(None, "hl", (1,))))
add("C14", "library/perfect", whole(None, None, (2,)))
add("C14", "library/isokin", whole(("voce", "fa"), None, (2,)), cost=3)
add("C14", "library/perfect+hl", whole(None, "hl", (1,)))
add("C14", "library/isokin+hl", whole(("voce", "fanr"), "hl", (1,)), cost=5)
add("C14", "library/perfect+const", whole(None, "const", (2,)))
add("C14", "default damage", defdamage)


# ----------------------------------------------------------- stress control
class RateModel(torch.nn.Module):
    """arbitrary material model, to first order: state rates affine in the
    state and the strain rate"""

    def __init__(self, ctx, n, at, tag="mod"):
        super().__init__()
        self.n = n
        self.y0, t0, self.e0 = at
        self.pr = Probe(t=t0)
        B = tuple(self.e0.shape)
        self.r0 = ctx.real(tag + "_r0", B + (n,))
        self.ry = ctx.real(tag + "_ry", B + (n, n))
        self.re = ctx.real(tag + "_re", B + (n,))
        self.rT = ctx.real(tag + "_rT", B + (n,))

    @property
    def nhist(self):
        return self.n

    def forward(self, t, y, e, T):
        r = (self.r0 + (self.ry * (y - self.y0)[..., None, :]).sum(-1) + self.re * (e - self.e0)[..., None]
             + self.rT * T[..., None] + self.pr(t=t))
        J = self.ry.expand(y.shape + (self.n,)).clone()
        return r, J, self.re.expand(y.shape).clone(), torch.zeros_like(y)


class TimeFn:
    """a + b t"""

    def __init__(self, ctx, name, B):
        self.a, self.b = ctx.real(name + "_a", B), ctx.real(name + "_b", B)

    def __call__(self, t):
        return self.a + self.b * t


def stress_case(n, B, hist_rate=True):
    def fn(ctx):
        from pyoptmat import models

        t, y, e, _ = ystate(ctx, n, B)
        m = RateModel(ctx, n, (y, t, e))
        ctx.assume(torch.abs(m.re[..., 0]) > 1.0 / 16)
        srate, stress, temp = (TimeFn(ctx, k, B) for k in ("sr", "st", "te"))
        cs, csr, cT = stress(t), srate(t), temp(t)

        def exact(yy):
            yp = torch.cat([cs[..., None], yy[..., 1:]], -1)
            r = m(t, yp, torch.zeros(B), cT)[0]
            er = (csr - r[..., 0]) / m.re[..., 0]
            r = m(t, yp, er, cT)[0]
            return torch.cat([er[..., None], r[..., 1:]], -1)

        yp = torch.cat([cs[..., None], y[..., 1:]], -1)
        # an initial guess that is already within tolerance is returned as is
        ctx.assume(torch.abs(csr - m(t, yp, torch.zeros(B), cT)[0][..., 0]) > 1.0 / 65536)
        sm = models.StressBasedModel(m, srate, stress, temp)
        yc = y.clone()
        if getattr(ctx, "restless", False):
            # the same object used at other states before
            for t1, y1 in ((elsewhere(t, 1), elsewhere(y, 2)), (t, elsewhere(y, 3))):
                yp1 = torch.cat([stress(t1)[..., None], y1[..., 1:]], -1)
                ctx.assume(srate(t1) - m(t1, yp1, torch.zeros(B), temp(t1))[0][..., 0] > 1.0 / 65536)
                sm(t1, y1)
        r, J = sm(t, y)
        ctx.eq("strain rate / history rate under stress control", r, exact(y))
        ctx.eq("jacobian under stress control", J, ctx.jac(exact, y, len(B)), deriv=True)
        ctx.eq("state argument untouched", y, yc)
        # the model then produces the prescribed stress rate
        back = m(t, yp, r[..., 0], cT)[0]
        ctx.eq("prescribed stress rate is met", back[..., 0], csr)
        # calibration differentiates the rates with respect to the parameters
        w = 0.5 + torch.arange(r.numel(), dtype=torch.float64).reshape(r.shape)
        for k in ("r0", "re", "rT"):
            v = getattr(m, k)

            def other(x):
                setattr(m, k, x)
                z = (w * exact(y)).sum()
                setattr(m, k, v)
                return z

            ref = ctx.jac(other, v)
            p = v.detach().clone().requires_grad_(True)
            setattr(m, k, p)
            g = torch.autograd.grad((w * sm(t, y)[0]).sum(), p, allow_unused=True)[0]
            setattr(m, k, v)
            ctx.true("there is a gradient with respect to the parameters", g is not None)
            if g is not None:
                ctx.eq("gradient with respect to the parameters " + k, g, ref, deriv=True)

    return fn


add("C15", "affine model/n2/b2", stress_case(2, (2,)), cost=2)
add("C15", "affine model/n3/b1", stress_case(3, (1,)), cost=2)
add("C15", "affine model/n1/b2", stress_case(1, (2,)))
add("C15", "affine model/n2/b1x2", stress_case(2, (1, 2)), cost=2)
add("C15", "affine model/n2/b1/between other states", rest(stress_case(2, (1,))), cost=2)
add("C15", "affine model/n3/b3", stress_case(3, (3,)), tier="thorough")


def stress_lib(kind, B):
    """stress control of library models (flow independent of the total rate)"""

    def fn(ctx):
        from pyoptmat import models

        fr = ik(ctx, *kind) if kind else pv(ctx)
        n = 1 + fr.nhist
        t, y, _, _ = ystate(ctx, n, B)
        E = PT(ctx, ctx.pos("E"))
        m = models.InelasticModel(E, fr)
        srate, stress, temp = (TimeFn(ctx, k, B) for k in ("sr", "st", "te"))
        cs, csr, cT = stress(t), srate(t), temp(t)
        ctx.T0 = cT

        def exact(yy):
            er = csr / E(cT) + fr.flow_rate(cs, yy[..., 1:], t, cT, csr)[0]
            return torch.cat([er[..., None], fr.history_rate(cs, yy[..., 1:], t, cT, csr)[0]], -1)

        ctx.assume(torch.abs(E(cT) * exact(y)[..., 0]) > 1.0 / 65536)
        sm = models.StressBasedModel(m, srate, stress, temp)
        r, J = sm(t, y)
        ctx.eq("strain rate / history rate under stress control", r, exact(y))
        ctx.eq("jacobian under stress control", J, ctx.jac(exact, y, len(B)), deriv=True)

    return fn


add("C15", "library/perfect", stress_lib(None, (2,)))
add("C15", "library/isokin", stress_lib(("voce", "fanr"), (1,)), cost=3)


# -------------------------------------------------------------- mixed control
class FixedModel(torch.nn.Module):
    """a model with fixed generic coefficients (affine), different per
    experiment; the state, strain rate and temperature stay symbolic"""

    def __init__(self, n, B):
        super().__init__()
        self.n = n
        k = 1
        for b in B:
            k *= b
        j = torch.arange(1, k * n + 1, dtype=torch.float64).reshape(B + (n,))
        jj = torch.arange(1, k * n * n + 1, dtype=torch.float64).reshape(B + (n, n))
        self.r0, self.re, self.rT = j / 4, 1 + j / 2, j / 8 - 1
        self.ry = jj / 4 - 2

    nhist = property(lambda self: self.n)

    def forward(self, t, y, e, T):
        r = self.r0 + (self.ry * y[..., None, :]).sum(-1) + self.re * e[..., None] + self.rT * T[..., None]
        J = self.ry.expand(y.shape + (self.n,)).clone()
        return r, J, self.re.expand(y.shape).clone(), torch.zeros_like(y)


def both_case(n, B, which=None):
    def fn(ctx):
        from pyoptmat import models

        nb = B[-1]
        t, y, e, _ = ystate(ctx, n, B)
        m = FixedModel(n, B)
        csr, cs, cT = (ctx.real(k, B) for k in ("rate", "base", "temp"))
        rate, base, temp = (lambda tt: csr), (lambda tt: cs), (lambda tt: cT)
        yp = torch.cat([cs[..., None], y[..., 1:]], -1)
        ctx.assume(csr - m(t, yp, torch.zeros(B), cT)[0][..., 0] > 1.0 / 65536)
        if which is None:
            control = ctx.real("control", (nb,), lo=0, hi=1)
            ctx.assume((control == 0) | (control == 1))
        else:
            control = torch.tensor(which)
        bm = models.BothBasedModel(m, rate, base, temp, control)
        r, J = bm(t, y)
        re, Je = m(t, y, csr, cT)[:2]
        er = (csr - m(t, yp, torch.zeros(B), cT)[0][..., 0]) / m.re[..., 0]
        rs = torch.cat([er[..., None], m(t, yp, er, cT)[0][..., 1:]], -1)
        c = control.expand(B)[..., None]
        ctx.eq("each experiment follows its own control (rates)", r, torch.where(c == 0, re, rs))
        d = -m.ry[..., 0, 1:] / m.re[..., 0:1]
        Js = torch.cat([d[..., None, :], m.ry[..., 1:, 1:] + m.re[..., 1:, None] * d[..., None, :]], -2)
        Js = torch.cat([torch.zeros(B + (n, 1)), Js], -1)
        ctx.eq("each experiment follows its own control (jacobian)", J, torch.where((c == 0)[..., None], Je, Js))

    return fn


add("C16", "mixed/n2/b2", both_case(2, (2,)), cost=4)
add("C16", "mixed/n1/b3", both_case(1, (3,)), cost=4)
add("C16", "mixed/n2/b3", both_case(2, (3,)), cost=4, tier="thorough")
add("C16", "mixed/n2/b2x3", both_case(2, (2, 3), [1, 0, 1]), cost=4)
add("C16", "mixed/n2/b2x2", both_case(2, (2, 2), [1, 0]), cost=4)


def strain_case(n, B):
    def fn(ctx):
        from pyoptmat import models

        t, y, e, _ = ystate(ctx, n, B)
        m = RateModel(ctx, n, (y, t, e))
        rate, temp = TimeFn(ctx, "ra", B), TimeFn(ctx, "te", B)
        r, J = models.StrainBasedModel(m, rate, temp)(t, y)
        ctx.eq("strain control rate", r, m(t, y, rate(t), temp(t))[0])
        ctx.eq("strain control jacobian", J, m(t, y, rate(t), temp(t))[1])

    return fn


add("C16", "strain control/b2x2", strain_case(2, (2, 2)))


@contextlib.contextmanager
def captured():
    """what the drivers hand to the two integrators"""
    from pyoptmat import ode

    calls = []
    old = ode.odeint, ode.odeint_adjoint

    def rec(name):
        def f(model, init, times, **kw):
            calls.append((name, model, init, times, kw))
            return torch.zeros(times.shape + init.shape[-1:])

        return f

    ode.odeint, ode.odeint_adjoint = rec("plain"), rec("adjoint")
    try:
        yield calls
    finally:
        ode.odeint, ode.odeint_adjoint = old


def history(ctx, nt, nb, zero=()):
    dt = ctx.pos("dt", (nt - 1, nb))
    t0 = ctx.real("t0", (nb,), lo=0)
    data = ctx.real("data", (nt, nb))
    if zero:
        mask = torch.ones(nt - 1, nb)
        data = data.clone()
        for i in zero:
            # a repeated time carries a repeated value
            if isinstance(i, tuple):
                mask[i] = 0.0
                data[i[0] + 1, i[1]] = data[i]
            else:
                mask[i] = 0.0
                data[i + 1] = data[i]
        dt = dt * mask
    times = torch.cat([t0[None], t0[None] + torch.cumsum(dt, 0)], 0)
    return times, data, ctx.real("temps", (nt, nb))


def driver_case(kind, nt, nb, zero=(), adjoint=True, block=False):
    """the equations the drivers hand to the integrator"""

    def fn(ctx):
        from pyoptmat import models

        times, data, temps = history(ctx, nt, nb, zero)
        prescribed = [v.clone() for v in (times, data, temps)]
        y = ctx.real("y", (nb, 2))
        m = FixedModel(2, (nb,))
        control = torch.tensor([i % 2 for i in range(nb)])
        opts = dict(block_size=7, method="backward-euler")
        with captured() as calls:
            mi = models.ModelIntegrator(m, use_adjoint=adjoint, **opts)
            if getattr(ctx, "restless", False):
                # the same driver used for other histories before
                for n in (nt, nt + 2):
                    tb = torch.arange(1.0, n + 1)[:, None] * torch.arange(2.0, nb + 2)
                    mi.solve_strain(tb, tb * tb, 2 * tb)
                    mi.solve_stress(tb, tb * tb, 3 * tb)
                    mi.solve_both(tb, 4 * tb, tb * tb * tb, 1 - control)
                # ... some with the very same times, data, temperatures
                now = (times, data, temps)
                for k in sorted(range(3), key=lambda k: k == ctx.last):
                    a, b, c = [v if j == k else elsewhere(v, k).cumsum(0) for j, v in enumerate(now)]
                    mi.solve_strain(a, b, c)
                    mi.solve_stress(a, b, c)
                    mi.solve_both(a, c, b, 1 - control)
                    mi.solve_both(a, c, b, control)
                del calls[:]
            if kind == "strain":
                mi.solve_strain(times, data, temps)
            elif kind == "stress":
                mi.solve_stress(times, data, temps)
            else:
                mi.solve_both(times, temps, data, control)
        for what, v, w in zip(("times", "data", "temperatures"), (times, data, temps), prescribed):
            ctx.eq("prescribed %s untouched" % what, v, w)
        times, data, temps = prescribed
        if len(calls) != 1:
            ctx.unsupported("the drivers do not call the integrators through their module")
        name, model, init, ts, kw = calls[0]
        ctx.true("gradient mode", name == ("adjoint" if adjoint else "plain"))
        ctx.eq("initial state is zero", init, torch.zeros(nb, 2))
        ctx.eq("times are passed on", ts, times)
        ctx.true("options are passed on", kw == opts)
        stress = torch.tensor({"strain": [False] * nb, "stress": [True] * nb, "both": [bool(i % 2) for i in range(nb)]}[kind])
        steps = [i for i in range(nt) if (i - 1) not in zero and not (i == 0 and 0 in zero)]
        # entries whose time repeats within this step only have to stay defined
        keep = [torch.tensor([(i - 1, j) not in zero for j in range(nb)]) for i in range(nt)]
        rts = [torch.zeros(nb) if i == 0 else torch.where(
            keep[i], (data[i] - data[i - 1]) / torch.where(keep[i], times[i] - times[i - 1], torch.ones(nb)), torch.zeros(nb)
        ) for i in range(nt)]

        def ref(i, yy):
            z = torch.zeros(nb)
            re = m(times[i], yy, rts[i], temps[i])[0]
            yp = torch.cat([data[i][..., None], yy[..., 1:]], -1)
            er = (rts[i] - m(times[i], yp, z, temps[i])[0][..., 0]) / m.re[..., 0]
            rs = torch.cat([er[..., None], m(times[i], yp, er, temps[i])[0][..., 1:]], -1)
            return torch.where(stress[:, None], rs, re), m(times[i], yp, z, temps[i])[0][..., 0]

        if kind != "strain":
            for i in steps:
                # the inner solve starts outside of its tolerance
                rt = rts[i]
                if not bool(keep[i].all()):
                    rt = torch.where(keep[i], rt, (rts[i - 1]))
                ctx.assume(rt - ref(i, y)[1] > 1.0 / 65536)
        if block:
            r = model(torch.stack([times[i] for i in steps]), y.expand(len(steps), nb, 2).clone())[0]
            for k, i in enumerate(steps):
                ctx.eq("rates of the problem at step %d" % i, r[k], ref(i, y)[0])
        else:
            for i in steps:
                got = model(times[i].clone(), y.clone())[0]
                ctx.eq("rates of the problem at step %d" % i, got[keep[i]], ref(i, y)[0][keep[i]])
                if not bool(keep[i].all()):
                    ctx.true("defined where time repeats", torch.isfinite(got[~keep[i]]))

    return fn


for k in ("strain", "stress", "both"):
    nb = 1 if k == "stress" else 2
    add("C16", "driver/%s" % k, driver_case(k, 4, nb), generic=True)
    add("C16", "driver/%s/plain" % k, driver_case(k, 3, nb, adjoint=False), generic=True)
    add("C16", "driver/%s/block of steps" % k, driver_case(k, 3, nb, block=True), generic=True)
    add("C16", "driver/%s/repeated time" % k, driver_case(k, 4, nb, zero=(1,)), generic=True)
    add("C16", "driver/%s/repeated time of one experiment" % k, driver_case(k, 4, 2, zero=((1, 1),)), generic=True, cost=3)

    for last, what in enumerate(("times", "data", "temperatures")):
        add("C16", "driver/%s/after other histories with the same %s" % (k, what), rest(driver_case(k, 3, nb), last=last), generic=True)


def integrated(nt, nb, n, adjoint, bs):
    """the whole way: prescribed history in, discrete solution out"""

    def fn(ctx):
        from pyoptmat import models

        times = torch.cumsum(torch.tensor([[((3 * i + 2 * j) % 5 - 2) / 64 + 0.25 for j in range(nb)] for i in range(nt)]), 0)
        data, temps = ctx.real("data", (nt, nb)), ctx.real("temps", (nt, nb))
        m = FixedModel(n, (nb,))
        m.ry = m.ry / 16 - torch.eye(n)
        mi = models.ModelIntegrator(
            m, use_adjoint=adjoint, method="backward-euler", block_size=bs, rtol=-1.0, atol=-1.0, miter=1
        )
        y = mi.solve_strain(times, data, temps)
        ctx.true("shape", tuple(y.shape) == (nt, nb, n))
        ctx.eq("starts from zero", y[0], torch.zeros(nb, n))
        for i in range(1, nt):
            dt = times[i] - times[i - 1]
            rate = (data[i] - data[i - 1]) / dt
            ctx.eq("step %d" % i, y[i] - y[i - 1], dt[:, None] * m(times[i], y[i], rate, temps[i])[0])

    return fn


for ad in (True, False):
    for nt, bs in [(4, 1), (5, 3), (4, 9)]:
        add("C16", "integrated/strain/adjoint%d/nt%d/block%d" % (ad, nt, bs), integrated(nt, 2, 2, ad, bs), generic=True)
