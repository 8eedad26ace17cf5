"""C18 temperature dependent parameters, C19 scaling functions, C20 calibration bounds"""
import torch

from .common import add, CP, rest, elsewhere
from .models import LinT


def affine(ctx, name):
    """an arbitrary affine scaling function"""
    a, b = ctx.real(name + "_a"), ctx.real(name + "_b")
    return lambda x: a * x + b


def mono(ctx, name):
    """an arbitrary positive scaling"""
    a = ctx.pos(name + "_a")
    return lambda x: a * x


def finish(ctx, m, T, value, outer, shape=None):
    if shape is not None:
        ctx.true("shape of the parameter", tuple(m.shape) == tuple(shape))
    T0 = T.clone()
    v = m(T)
    full = torch.broadcast_to(v, T.shape) if v.shape != T.shape else v
    ctx.eq("value", full, torch.broadcast_to(outer(value), T.shape))
    ctx.eq("value before scaling", torch.broadcast_to(m.value(T), T.shape), torch.broadcast_to(value, T.shape))
    ctx.eq("second evaluation", torch.broadcast_to(m(T), T.shape), full)
    ctx.eq("temperature untouched", T, T0)


class Calibrated:
    """the coefficients of a parameter: at first some values, which are then
    updated in place as an optimizer does"""

    def __init__(self, ctx):
        self.on = getattr(ctx, "restless", False)
        self.raw = {}

    def __call__(self, make, name, *a, **k):
        if not self.on:
            return make(name, *a, **k)
        if name not in self.raw:
            self.raw[name] = make(name + "_old", *a, **k).clone(), (make, name, a, k)
        return self.raw[name][0]

    def update(self):
        for x, (make, name, a, k) in self.raw.values():
            x.copy_(make(name, *a, **k))


def temperature(kind, B, pb=()):
    """B batch shape of the temperatures, pb shape of the parameters"""

    def fn(ctx):
        par = Calibrated(ctx)
        m, T, v, s = build(ctx, par)
        if par.on:
            old = T
            T = elsewhere(T, 1).clone()
            m(T)
            T.copy_(old)
            m(T)
            par.update()
            v, s = build(ctx, par)[2:]
        finish(ctx, m, T, v, s, pb)

    def build(ctx, par):
        from pyoptmat import temperature as tm

        T = ctx.pos("T", B)
        s = affine(ctx, "s")
        mu = LinT(ctx, "mu")
        muT = mu.a + mu.b * T
        k, b = ctx.pos("k"), ctx.pos("b")
        if kind == "constant":
            p = par(ctx.real, "p", pb)
            f = affine(ctx, "f")
            m, v = tm.ConstantParameter(p, scaling=s, p_scale=f), f(p)
        elif kind == "constant default":
            p = par(ctx.real, "p", pb)
            m, v, s = tm.ConstantParameter(p), p, lambda x: x
        elif kind == "mu":
            A, f = par(ctx.real, "A", pb), affine(ctx, "f")
            m, v = tm.ShearModulusScaling(A, mu, scaling=s, A_scale=f), f(A) * muT
        elif kind == "mu exp":
            A, f = par(ctx.real, "A", pb), affine(ctx, "f")
            m, v = tm.ShearModulusScalingExp(A, mu, scaling=s, A_scale=f), torch.exp(f(A)) * muT
        elif kind == "mts":
            tau, g0, q, p = par(ctx.real, "tau", pb), par(ctx.pos, "g0", pb), par(ctx.pos, "q", pb), par(ctx.pos, "p", pb)
            ft, fg, fq, fp = affine(ctx, "ft"), mono(ctx, "fg"), mono(ctx, "fq"), mono(ctx, "fp")
            m = tm.MTSScaling(tau, g0, q, p, k, b, mu, scaling=s, tau0_scale=ft, g0_scale=fg, q_scale=fq, p_scale=fp)
            ctx.assume(k * T < muT * b * b * b * fg(g0))
            x = (k * T / (muT * b * b * b * fg(g0))) ** (1 / fq(q))
            ctx.assume(x < 1)
            v = ft(tau) * (1 - x) ** (1 / fp(p))
        elif kind == "km rate":
            A = par(ctx.real, "A", pb, hi=0, his=True)
            cut = ctx.real("cut", (), lo=1, los=True)
            f = mono(ctx, "f")
            c = 20.0 if ctx.opts_default else 30.0
            m = tm.KMRateSensitivityScaling(A, mu, b, k, scaling=s, A_scale=f, **({} if ctx.opts_default else dict(cutoff=c)))
            x = -muT * b * b * b / (k * T * f(A))
            v = torch.where(x < 1, torch.ones_like(x), torch.where(x > c, torch.full_like(x, c), x))
        elif kind == "km visc":
            A, Bp = par(ctx.real, "A", pb, hi=0, his=True), par(ctx.real, "Bp", pb)
            e0 = ctx.pos("e0")
            f, g = mono(ctx, "f"), affine(ctx, "g")
            m = tm.KMViscosityScaling(A, Bp, mu, e0, b, k, scaling=s, A_scale=f, B_scale=g)
            x = -muT * b * b * b / (k * T * f(A))
            n = torch.where(x < 1, torch.ones_like(x), torch.where(x > 1000.0, torch.full_like(x, 1000.0), x))
            v = torch.exp(g(Bp)) * muT * e0 ** (-1.0 / n)
        elif kind.startswith("poly"):
            n = int(kind[4:])
            c, f = par(ctx.real, "c", (n,) + pb), affine(ctx, "f")
            m = tm.PolynomialScaling(c, scaling=s, coef_scale_fn=f)
            v = torch.zeros(B)
            for i in range(n):
                t = torch.ones_like(T)
                for _ in range(n - 1 - i):
                    t = t * T
                v = v + f(c)[i] * t
        elif kind in ("arrhenius", "inverse arrhenius"):
            A, Q = par(ctx.real, "A", pb), par(ctx.pos, "Q", pb)
            f, g = affine(ctx, "f"), mono(ctx, "g")
            e = torch.exp(-g(Q) / T)
            if kind == "arrhenius":
                m, v = tm.ArrheniusScaling(A, Q, scaling=s, A_scale=f, Q_scale=g), f(A) * e
            else:
                m, v = tm.InverseArrheniusScaling(A, Q, scaling=s, A_scale=f, Q_scale=g), f(A) * (1 - e)
        else:
            raise ValueError(kind)
        return m, T, v, s

    return fn


def km_rate(default):
    def fn(ctx):
        ctx.opts_default = default
        temperature("km rate", (2,), ())(ctx)

    return fn


SH = [((), ()), ((2,), ()), ((2,), (2,)), ((2, 2), ()), ((2, 2), (2,))]
for kind in ("constant", "constant default", "mu", "mu exp", "mts", "km visc", "poly1", "poly2", "poly3", "poly4", "arrhenius", "inverse arrhenius"):
    for B, pb in SH:
        if kind in ("mts", "km visc") and len(B) > 1:
            continue
        add("C18", "%s/T%s/p%s" % (kind, B, pb), temperature(kind, B, pb), cost=2 if kind in ("mts", "km visc") else 1)
add("C18", "km rate/default cutoff", km_rate(True), cost=2)
add("C18", "km rate/cutoff", km_rate(False), cost=2)


def piecewise_case(B, npts, vb, where="segment"):
    """B temperatures, vb batch shape of the values"""

    def fn(ctx):
        par = Calibrated(ctx)
        m, T, v, s = build(ctx, par)
        if par.on:
            old = T
            T = old.flip(0).clone()
            m(T)
            T.copy_(old)
            m(T)
            par.update()
            v, s = build(ctx, par)[2:]
        finish(ctx, m, T, v, s, vb)

    def build(ctx, par):
        from pyoptmat import temperature as tm

        d = ctx.pos("d", (npts - 1,))
        c0 = ctx.pos("c0")
        c = torch.cat([c0[None], c0 + torch.cumsum(d, 0)])
        vals, f, s = par(ctx.real, "v", vb + (npts,)), affine(ctx, "f"), affine(ctx, "s")
        m = tm.PiecewiseScaling(c, vals, scaling=s, values_scale_fn=f)
        if where == "segment":
            T = ctx.pos("T", B)
            ctx.assume((T >= c[0]) & (T <= c[-1]))
        else:
            T = c[where] + torch.zeros(B)
        fv = f(vals)
        ref = fv[..., 0] + torch.zeros(B)
        for k in range(npts - 1):
            sl = (fv[..., k + 1] - fv[..., k]) / (c[k + 1] - c[k])
            ref = torch.where(T >= c[k], fv[..., k] + sl * (T - c[k]), ref)
        return m, T, ref, s

    return fn


for npts in (2, 3, 4):
    for B, vb in [((), ()), ((1,), ()), ((2,), ()), ((2,), (2,)), ((1, 2), (2,))]:
        if npts == 4 and B == (1, 2):
            continue
        add("C18", "piecewise/%d points/T%s/v%s" % (npts, B, vb), piecewise_case(B, npts, vb), cost=npts)
    for k in range(npts):
        add("C18", "piecewise/%d points/at point %d" % (npts, k), piecewise_case((3,), npts, (), k))
        add("C18", "piecewise/%d points/at point %d/batched" % (npts, k), piecewise_case((2, 3), npts, (3,), k))

# after an update of the coefficients in place
for kind in ("constant", "mu", "mu exp", "mts", "km visc", "poly3", "arrhenius", "inverse arrhenius"):
    add("C18", "%s/updated coefficients" % kind, rest(temperature(kind, (2,), (2,))))
    add("C18", "%s/updated coefficients/common" % kind, rest(temperature(kind, (2,), ())))
add("C18", "km rate/updated coefficients", rest(km_rate(False)), cost=2)
add("C18", "piecewise/updated coefficients", rest(piecewise_case((2,), 3, ())))
add("C18", "piecewise/updated coefficients/batch", rest(piecewise_case((2,), 3, (2,))))


# ------------------------------------------------------------------ C19
def scaling_case(kind, shape, clamp=True, default=False):
    def fn(ctx):
        from pyoptmat import scaling as sc

        x = ctx.real("x", shape)
        x0 = x.clone()
        loc, std = ctx.real("loc", shape), ctx.pos("std", shape)
        if kind == "simple":
            s = ctx.real("s", shape)
            ctx.assume(s != 0)
            f = sc.SimpleScalingFunction(s)
            f(elsewhere(x, 1)), f.unscale(elsewhere(x, 2))
            ctx.eq("value", f(x), s * x)
            ctx.eq("same as the scale method", f(x), f.scale(x))
            ctx.eq("inverse", f.unscale(f.scale(x)), x)
            ctx.eq("inverse the other way", f.scale(f.unscale(x)), x)
            ctx.eq("mean", f.scale_mean(loc, std), s * loc)
            return
        l = ctx.pos("l", shape) if kind == "log" else ctx.real("l", shape)
        if kind == "log":
            A = ctx.pos("A", shape)
            u = l * torch.exp(A)
        else:
            u = l + ctx.pos("A", shape)
        cls = sc.LogBoundedScalingFunction if kind == "log" else sc.BoundedScalingFunction
        f = cls(l, u) if default else cls(l, u, clamp=clamp)
        f(elsewhere(x, 1)), f.unscale(l + elsewhere(x, 2))
        cl = clamp or default
        xc = torch.where(x < 0, torch.zeros_like(x), torch.where(x > 1, torch.ones_like(x), x)) if cl else x
        ref = (lambda z: l * torch.exp(A * z)) if kind == "log" else (lambda z: l + z * (u - l))
        ctx.eq("value", f(x), ref(xc))
        ctx.eq("same as the scale method", f(x), f.scale(x))
        ctx.eq("lower end", f(torch.zeros_like(x)), l)
        ctx.eq("upper end", f(torch.ones_like(x)), u)
        ctx.eq("inverse", f.unscale(f.scale(x)), xc)
        a = ctx.real("a", shape, lo=0, hi=1)
        if kind == "log":
            y = l * torch.exp(A * a)
            ctx.eq("inverse the other way", f.scale(f.unscale(y)), y)
        else:
            y = l + a * (u - l)
            ctx.eq("inverse the other way", f.scale(f.unscale(y)), y)
            if cl:
                ctx.true("never below the lower bound", f(x) >= l)
                ctx.true("never above the upper bound", f(x) <= u)
        lc = torch.where(loc < 0, torch.zeros_like(loc), torch.where(loc > 1, torch.ones_like(loc), loc)) if cl else loc
        if kind != "log":
            ctx.eq("mean", f.scale_mean(loc, std), ref(lc))
        ctx.eq("argument untouched", x, x0)

    return fn


for sh in [(), (2,), (2, 2)]:
    add("C19", "simple/%s" % (sh,), scaling_case("simple", sh))
    for kind in ("bounded", "log"):
        add("C19", "%s/clamp/%s" % (kind, sh), scaling_case(kind, sh, True))
        add("C19", "%s/free/%s" % (kind, sh), scaling_case(kind, sh, False))
        add("C19", "%s/default/%s" % (kind, sh), scaling_case(kind, sh, True, True))


# ------------------------------------------------------------------ C20
def clampr(x, lo, hi):
    return torch.where(x > hi, hi, torch.where(x < lo, lo, x))


def bounds_case(kind, shape, bshape, minb=False):
    def fn(ctx):
        from pyoptmat import optimize as op

        x = ctx.real("x", shape)
        x0 = x.clone()
        lo = ctx.real("lo", bshape)
        hi = lo + ctx.pos("w", bshape)
        one, zero = torch.ones_like(x), torch.zeros_like(x)
        mb = ctx.real("mb", bshape) if minb else None
        ex = dict(min_bound=mb) if minb else {}
        if kind == "bounded":
            f = op.bounded_scale_function((lo, hi), **ex)
            v = lo + clampr(x, zero, one) * (hi - lo)
        elif kind == "factor":
            mean, fac = ctx.real("mean", bshape), ctx.real("fac", bshape, lo=0, hi=1)
            f = op.bound_factor(mean, fac, **ex)
            v = mean * (1 - fac) + clampr(x, zero, one) * (2 * mean * fac)
            lo, hi = torch.minimum(mean * (1 - fac), mean * (1 + fac)), torch.maximum(mean * (1 - fac), mean * (1 + fac))
        elif kind == "clamp":
            f = op.clamp_scale_function((lo, hi))
            v = clampr(x, lo + zero, hi + zero)
        elif kind == "scale":
            sc = ctx.real("sc", bshape)
            ctx.assume(sc != 0)
            f = op.bound_and_scale(sc, (lo, hi))
            v = clampr(x / sc, lo + zero, hi + zero)
        else:
            sc = ctx.real("sc", bshape)
            ctx.assume(sc != 0)
            f = op.log_bound_and_scale(sc, (lo, hi))
            v = clampr(torch.exp(x / sc), lo + zero, hi + zero)
        if minb:
            v = torch.where(v < mb, mb + zero, v)
        f(elsewhere(x, 1))
        y = f(x)
        ctx.eq("value", y, v)
        if not minb:
            ctx.true("never below the lower bound", y >= lo)
            ctx.true("never above the upper bound", y <= hi)
        else:
            ctx.true("never below the minimum", y >= mb)
        ctx.eq("argument untouched", x, x0)

    return fn


for sh, bs in [((), ()), ((2,), ()), ((2,), (2,)), ((2, 2), (2,))]:
    for kind in ("bounded", "factor", "clamp", "scale", "log"):
        add("C20", "%s/x%s/b%s" % (kind, sh, bs), bounds_case(kind, sh, bs))
        if kind in ("bounded", "factor"):
            add("C20", "%s/minimum/x%s/b%s" % (kind, sh, bs), bounds_case(kind, sh, bs, True))
