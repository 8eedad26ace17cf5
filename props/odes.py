"""C01 scheme equations, C02 option independence, C03 adjoint, C04 backprop"""
import torch

from .common import add, rest


class Affine(torch.nn.Module):
    """y' = c + M y (+ t (c1 + M1 y)): every problem in this family is solved
    exactly by one Newton step, so the result of the integrator is determined.
    Coefficients differ between experiments."""

    def __init__(self, c, M, c1=None, M1=None, params=()):
        super().__init__()
        self.c, self.M, self.c1, self.M1 = c, M, c1, M1

    def coef(self, t):
        c, M = self.c, self.M
        tt = t[..., None]
        c = c + tt * self.c1 if self.c1 is not None else c.expand(t.shape + c.shape[-1:])
        M = M + tt[..., None] * self.M1 if self.M1 is not None else M.expand(t.shape + M.shape[-2:])
        return c, M

    def rate(self, t, y):
        c, M = self.coef(t)
        return c + (M * y[..., None, :]).sum(-1)

    def forward(self, t, y):
        c, M = self.coef(t)
        return c + (M * y[..., None, :]).sum(-1), M.clone()


EXACT = dict(rtol=-1.0, atol=-1.0, miter=1)


def gen(shape, mul, mod, div):
    n = 1
    for s in shape:
        n *= s
    j = torch.arange(n, dtype=torch.float64).reshape(shape)
    return ((j * mul + 1) % mod - mod // 2) / div


EXACT2 = dict(rtol=-1.0, atol=-1.0, miter=2)


def problem(ctx, mode, nt, nb, n):
    """times, y0, func"""
    if mode == "sym":  # everything symbolic, small
        dt = ctx.real("dt", (nt - 1, nb), lo=0, los=True, hi=1)
        t0 = ctx.real("t0", (nb,), lo=0, hi=1)
        times = torch.cat([t0[None], t0[None] + torch.cumsum(dt, 0)], 0)
        M = ctx.real("M", (nb, n, n), lo=-1, hi=0) if n == 1 else gen((nb, n, n), 5, 7, 16) - torch.eye(n) / 2
        c = ctx.real("c", (nb, n))
        y0 = ctx.real("y0", (nb, n))
        return times, y0, Affine(c, M, gen((nb, n), 3, 5, 4), None)
    if mode == "state":  # fixed generic problem; initial state and forcing symbolic
        times = torch.cumsum(gen((nt, nb), 3, 5, 64) + 0.25, 0)
        c, y0 = ctx.real("c", (nb, n)), ctx.real("y0", (nb, n))
        return times, y0, Affine(c, gen((nb, n, n), 5, 7, 8) - torch.eye(n), gen((nb, n), 3, 5, 4), gen((nb, n, n), 3, 5, 16))
    if mode == "steps":  # fixed operator, symbolic step sizes
        dt = ctx.real("dt", (nt - 1, nb), lo=0, los=True, hi=1)
        times = torch.cat([torch.zeros(1, nb), torch.cumsum(dt, 0)], 0)
        y0 = gen((nb, n), 3, 7, 4) + 1
        return times, y0, Affine(gen((nb, n), 3, 5, 4), gen((nb, n, n), 5, 7, 16) - torch.eye(n) / 2, gen((nb, n), 3, 5, 8), None)
    if mode == "nil":
        times = torch.cumsum(gen((nt, nb), 3, 5, 64) + 0.25, 0)
        c, y0 = ctx.real("c", (nb, n)), ctx.real("y0", (nb, n))
        return times, y0, Nil(c, gen((nb,), 3, 5, 8) - 0.5, gen((nb,), 1, 3, 2) + 0.25, gen((nb,), 5, 7, 8) - 1, gen((nb,), 2, 3, 4))
    raise ValueError(mode)


class Nil(torch.nn.Module):
    """y1' = c1 + m y1 + d t, y2' = c2 + a y1^2 + k y2: nonlinear, Jacobian
    depends on the state, two Newton steps are exact"""

    def __init__(self, c, m, a, k, d):
        super().__init__()
        self.c, self.m, self.a, self.k, self.d = c, m, a, k, d

    def forward(self, t, y):
        y1, y2 = y[..., 0], y[..., 1]
        r = torch.stack([self.c[..., 0] + self.m * y1 + self.d * t, self.c[..., 1] + self.a * y1 * y1 + self.k * y2], -1)
        z = torch.zeros_like(y1)
        J = torch.stack([torch.stack([self.m + z, z], -1), torch.stack([2 * self.a * y1, self.k + z], -1)], -2)
        return r, J

    def rate(self, t, y):
        return self.forward(t, y)[0]


def residual(func, times, y, method):
    dt = times[1:] - times[:-1]
    r = func.rate(times, y)
    r = r[1:] if method == "backward-euler" else r[:-1]
    return y[1:] - y[:-1], dt[..., None] * r


def scheme_case(mode, method, nt, nb, n, opts, fn_name="odeint"):
    def fn(ctx):
        from pyoptmat import ode

        times, y0, func = problem(ctx, mode, nt, nb, n)
        t0, y00 = times.clone(), y0.clone()
        if getattr(ctx, "restless", False):
            # the same function integrated from elsewhere before
            for me, bs in ((SCHEMES[0], 2), (SCHEMES[1], 3), (method, opts["block_size"])):
                getattr(ode, fn_name)(func, gen((nb, n), 3, 5, 4), torch.cumsum(gen((nt, nb), 5, 7, 64) + 0.5, 0), method=me, **(EXACT2 if mode == "nil" else EXACT), block_size=bs)
        y = getattr(ode, fn_name)(func, y0, times, method=method, **(EXACT2 if mode == "nil" else EXACT), **opts)
        ctx.true("result shape", tuple(y.shape) == (nt, nb, n))
        ctx.eq("the first state is the initial condition", y[0], y00)
        a, b = residual(func, t0, y, method)
        ctx.eq("every step satisfies the scheme", a, b)
        ctx.eq("times untouched", times, t0)
        ctx.eq("initial condition untouched", y0, y00)

    return fn


def tolerance_case(method, nt, nb, rtol, atol, bs, throw=False, prob="affine", miter=4, entry="odeint", **opts):
    """the tolerances given to the integrator are the ones of its solves: an
    unreported solution satisfies every block of scheme equations within the
    absolute tolerance or the relative one (first residual: at the guess)"""

    def fn(ctx):
        import warnings
        from pyoptmat import ode

        if prob == "affine":
            times = torch.cumsum(gen((nt, nb), 3, 5, 64) + 0.25, 0)
            c, y0 = ctx.real("c", (nb, 1)), gen((nb, 1), 3, 7, 4)
            func = Affine(c, gen((nb, 1, 1), 5, 7, 8) - 1)
        else:
            times = torch.cumsum(gen((nt, nb), 3, 5, 64) + 0.25, 0)
            z = torch.zeros
            c = ctx.real("c", (nb, 1))
            func = Nil(torch.cat([c, z(nb, 1)], -1), z(nb), z(nb) + 0.5, z(nb), z(nb))
            y0 = z(nb, 2)
        raised = False
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                y = getattr(ode, entry)(func, y0.clone(), times, method=method, rtol=rtol, atol=atol, miter=miter, block_size=bs, throw_on_fail=throw, **opts)
            except RuntimeError as e:
                if "did not succeed" not in str(e):
                    raise
                raised = True
        warned = any("did not succeed" in str(m.message) for m in w)
        if raised or warned:
            ctx.true("failures raise exactly on request", raised == throw)
            return
        for k in range(0, nt - 1, bs):
            tb = times[k : k + bs + 1]
            yb = y[k : k + bs + 1]
            a, b = residual(func, tb, yb, method)
            g0, g1 = residual(func, tb, yb[:1].expand(yb.shape), method)
            r2, g2 = ((a - b) ** 2).sum((0, 2)), ((g0 - g1) ** 2).sum((0, 2))
            ctx.true("an unreported block meets the requested tolerances", (r2 <= atol**2) | (r2 <= rtol**2 * g2))

    return fn


def limit_case(method, nt, bs, miter, entry="odeint"):
    """the iteration limit given to the integrator bounds the work of every
    block (the rate is never evaluated more than miter + 1 times per block)"""

    def fn(ctx):
        from pyoptmat import ode

        times = torch.cumsum(gen((nt, 1), 3, 5, 64) + 0.25, 0)
        f = Affine(ctx.real("c", (1, 1)), gen((1, 1, 1), 5, 7, 8) - 1)
        calls = []

        class Count(torch.nn.Module):
            def forward(self, t, y):
                calls.append(1)
                if len(calls) > 40:
                    raise RuntimeError("the integrator does not stop")
                return f(t, y)

        with ctx.quiet():
            getattr(ode, entry)(Count(), gen((1, 1), 3, 7, 4), times, method=method, rtol=-1.0, atol=-1.0, miter=miter, block_size=bs)
        # (room for an implementation which evaluates residual and Jacobian apart)
        ctx.true("the iteration limit is respected", len(calls) <= -(-(nt - 1) // bs) * 2 * (miter + 1))

    return fn


SCHEMES = ("backward-euler", "forward-euler")
for me in SCHEMES:
    for nt, bs, mi in ((3, 1, 1), (4, 2, 2), (2, 1, 0)):
        for en in ("odeint", "odeint_adjoint"):
            add("C08", "integrator %s/iteration limit/%s/nt%d/block%d/miter%d" % (me.split("-")[0], en, nt, bs, mi), limit_case(me, nt, bs, mi, en), generic=True)
for me in SCHEMES:
    for bs, nt in ((1, 2), (1, 3), (2, 3)):
        for rt, at in ((0.25, 0.0625), (0.0625, 0.25)):
            add("C01", "%s/tolerances/%g %g/nt%d/block%d" % (me.split("-")[0], rt, at, nt, bs), tolerance_case(me, nt, 1, rt, at, bs), generic=True)
    for throw in (False, True):
        add("C08", "integrator %s/failures reported/throw %s" % (me.split("-")[0], throw), tolerance_case(me, 2, 1, 2.0**-10, 2.0**-12, 1, throw, "nil", 1))
for me in SCHEMES:
    tag = me.split("-")[0]
    for bs in (1, 2, 3, 4):
        add("C01", "%s/sym/nt4/n1/block%d" % (tag, bs), scheme_case("sym", me, 4, 1, 1, dict(block_size=bs)), cost=2, generic=True)
        add("C01", "%s/steps/nt4/n2/block%d" % (tag, bs), scheme_case("steps", me, 4, 1, 2, dict(block_size=bs)), cost=3, generic=True)
        add("C01", "%s/sym/nt4/n1/block%d/previous" % (tag, bs), scheme_case("sym", me, 4, 1, 1, dict(block_size=bs, guess_type="previous")), cost=2, generic=True)
    for nt, bs in [(2, 1), (2, 3), (5, 2), (6, 3), (7, 4), (8, 3), (9, 9), (10, 4), (3, 20)]:
        add("C01", "%s/state/nt%d/nb2/n2/block%d" % (tag, nt, bs), scheme_case("state", me, nt, 2, 2, dict(block_size=bs)), cost=2, generic=True)
        add("C01", "%s/state/nt%d/nb3/n1/block%d/previous" % (tag, nt, bs), scheme_case("state", me, nt, 3, 1, dict(block_size=bs, guess_type="previous")), cost=2, generic=True)
    add("C01", "%s/sym/nt3/nb2/n1/block2" % tag, scheme_case("sym", me, 3, 2, 1, dict(block_size=2)), cost=2, generic=True)
    add("C01", "%s/adjoint forward/nt6/block4" % tag, scheme_case("state", me, 6, 2, 2, dict(block_size=4), "odeint_adjoint"), generic=True)
    add("C01", "%s/adjoint forward/sym/nt3/block2" % tag, scheme_case("sym", me, 3, 1, 1, dict(block_size=2), "odeint_adjoint"), generic=True)
    for nt, bs in [(4, 1), (4, 2), (5, 3), (6, 6)]:
        add("C01", "%s/nonlinear/nt%d/block%d" % (tag, nt, bs), scheme_case("nil", me, nt, 2, 2, dict(block_size=bs)), cost=3, generic=True)
        add("C01", "%s/nonlinear/nt%d/block%d/previous" % (tag, nt, bs), scheme_case("nil", me, nt, 2, 2, dict(block_size=bs, guess_type="previous")), cost=3, generic=True)
    for fn_name in ("odeint", "odeint_adjoint"):
        add("C01", "%s/after other problems/%s" % (tag, fn_name), rest(scheme_case("state", me, 5, 2, 2, dict(block_size=2), fn_name)), generic=True)
        add("C01", "%s/after other problems/nonlinear/%s" % (tag, fn_name), rest(scheme_case("nil", me, 4, 2, 2, dict(block_size=3), fn_name)), generic=True)


class Lent(torch.nn.Module):
    """rates and Jacobians which are not the integrator's to change: the state
    itself, or views of tensors which the function keeps"""

    def __init__(self, kind, c, n):
        super().__init__()
        self.kind, self.c, self.I, self.O = kind, c, torch.eye(n), torch.zeros(n, n)

    def rate(self, t, y):
        return y if self.kind == "state" else self.c.expand(y.shape)

    def forward(self, t, y):
        J = self.I if self.kind == "state" else self.O
        return self.rate(t, y), J.expand(y.shape + y.shape[-1:])


def lent_case(kind, method, nt, nb, n, opts, entry):
    def fn(ctx):
        from pyoptmat import ode

        times = torch.cumsum(gen((nt, nb), 3, 5, 64) + 0.25, 0)
        c, y0 = ctx.real("c", (nb, n)), ctx.real("y0", (nb, n))
        f = Lent(kind, c.clone(), n)
        y = getattr(ode, entry)(f, y0.clone(), times, method=method, **EXACT, **opts)
        a, b = residual(f, times, y, method)
        ctx.eq("every step satisfies the scheme", a, b)
        ctx.eq("the function keeps its own tensors", f.c, c)
        ctx.true("the function keeps its own matrices", bool((f.I == torch.eye(n)).all()) and bool((f.O == 0).all()))

    return fn


for me in SCHEMES:
    for kind in ("state", "kept"):
        for entry in ("odeint", "odeint_adjoint"):
            for bs, o in ((1, {}), (2, {}), (3, dict(direct_solve_method="pcr")), (3, dict(linear_solve_method="dense"))):
                if entry == "odeint_adjoint" and bs == 1:
                    continue
                add("C01", "%s/%s rates/%s/block%d%s" % (me.split("-")[0], kind, entry, bs, "/" + list(o.values())[0] if o else ""),
                    lent_case(kind, me, 5, 2, 2, dict(block_size=bs, **o), entry), generic=True)


# ------------------------------------------------------------------ C02
def same_case(mode, method, nt, nb, n, opts, base=None):
    def fn(ctx):
        from pyoptmat import ode

        times, y0, func = problem(ctx, mode, nt, nb, n)
        ex = EXACT2 if mode == "nil" else EXACT
        ref = ode.odeint(func, y0.clone(), times.clone(), method=method, **ex, **(base or {}))
        y = ode.odeint(func, y0, times, method=method, **ex, **opts)
        ctx.eq("same result as the one step at a time solution", y, ref)
        ya = ode.odeint_adjoint(func, y0, times, method=method, **ex, **opts)
        ctx.eq("same result from the adjoint integrator", ya, ref)

    return fn


LIN = [("dense", dict(linear_solve_method="dense")), ("thomas", dict(direct_solve_method="thomas")), ("pcr", dict(direct_solve_method="pcr"))] + [
    ("hybrid%d" % k, dict(direct_solve_method="hybrid", direct_solve_min_size=k)) for k in (0, 1, 2, 3, 4, 6, 8)
]
for me in SCHEMES:
    tag = me.split("-")[0]
    for ln, lo in LIN:
        sizes = [(5, 4), (6, 2), (7, 3), (8, 8), (9, 5), (10, 9), (4, 7), (8, 6)]
        if ln.startswith("hybrid"):
            sizes = [(5, 4), (7, 3), (8, 7), (9, 8), (8, 5), (12, 11)]
        for j, (nt, bs) in enumerate(sizes):
            g = ("zero", "previous")[j % 2]
            add("C02", "%s/%s/nt%d/block%d/%s" % (tag, ln, nt, bs, g), same_case("state", me, nt, 2, 2, dict(block_size=bs, guess_type=g, **lo)), generic=True)
        add("C02", "%s/%s/sym steps/nt4/block3" % (tag, ln), same_case("sym", me, 4, 1, 1, dict(block_size=3, **lo)), cost=3, generic=True)
        add("C02", "%s/%s/nonlinear/nt5/block4" % (tag, ln), same_case("nil", me, 5, 1, 2, dict(block_size=4, guess_type="previous", **lo)), cost=2, generic=True)
        add("C02", "%s/%s/nonlinear/nt6/block2" % (tag, ln), same_case("nil", me, 6, 1, 2, dict(block_size=2, guess_type="previous", **lo)), cost=2, generic=True)
    # however a block is solved, what is returned silently meets the same requested tolerances
    for nm, lo in [("thomas", {}), ("dense", dict(linear_solve_method="dense")), ("pcr", dict(direct_solve_method="pcr")), ("hybrid", dict(direct_solve_method="hybrid", direct_solve_min_size=2)),
                   ("adjoint", dict(entry="odeint_adjoint"))]:
        for nt, bs, rt, at in ((4, 3, 0.0625, 0.25), (5, 4, 0.25, 0.0625), (3, 1, 0.0625, 0.25)):
            add("C02", "%s/tolerances/%s/nt%d/block%d" % (tag, nm, nt, bs), tolerance_case(me, nt, 1, rt, at, bs, **lo), generic=True)


# -------------------------------------------------------------- C03, C04
class Par(torch.nn.Module):
    """problem with parameters: what is differentiable is chosen by the case"""

    def __init__(self, kind, p, reg):
        super().__init__()
        self.kind = kind
        self.names = list(p)
        for k, v in p.items():
            if k in reg:
                setattr(self, k, torch.nn.Parameter(v) if not isinstance(v, torch.nn.Parameter) else v)
            else:
                self.__dict__[k] = v

    def forward(self, t, y):
        if self.kind == "affine":
            return Affine(self.c, self.M, self.c1, self.M1)(t, y)
        return Nil(self.c, self.m, self.a, self.k, self.d)(t, y)


def pvalues(kind, nb, n):
    """generic values; the case replaces the differentiated ones by symbols"""
    if kind == "affine":
        return dict(
            c=gen((nb, n), 3, 5, 4) + 0.5, M=gen((nb, n, n), 5, 7, 8) - torch.eye(n), c1=gen((nb, n), 2, 5, 4) + 0.125, M1=gen((nb, n, n), 3, 5, 16) - torch.eye(n) / 8
        )
    return dict(c=gen((nb, n), 3, 5, 4) + 0.5, m=gen((nb,), 3, 5, 8) - 0.5, a=gen((nb,), 1, 3, 2) + 0.25, k=gen((nb,), 5, 7, 8) - 1, d=gen((nb,), 2, 3, 4) + 0.25)


RANGE = dict(m=(-2, 0), k=(-2, 0), M=(-1, 0))


def grad_case(kind, method, nt, nb, n, opts, sym, extra=(), y0grad=True, adjoint=True, shared=(), steps=False, select=None, again=False, frozen=(), unused=False, inter=False, seen=None, ahead=False, y0par=False, twice=False, perm=None):
    """gradient of sum w y with respect to the parameters in `sym`, those in
    `extra` passed as extra_params, and the initial condition"""

    def fn(ctx):
        from pyoptmat import ode

        p = pvalues(kind, nb, n)
        for k in sym:
            lo, hi = RANGE.get(k, (None, None))
            shp = tuple(p[k].shape)[1:] if k in shared else tuple(p[k].shape)
            p[k] = ctx.real(k, shp, lo=lo, hi=hi)
        y0 = ctx.real("y0", (nb, n)) if y0grad else gen((nb, n), 3, 7, 4) + 1
        if steps:
            dt = ctx.real("dt", (nt - 1, nb), lo=0, los=True, hi=1)
            times = torch.cat([torch.zeros(1, nb), torch.cumsum(dt, 0)], 0)
        else:
            times = torch.cumsum(gen((nt, nb), 3, 5, 64) + 0.25, 0)
        w = gen((nt, nb, n), 7, 11, 8) + 0.0625 if select is None else ctx.real("w", (nt, nb, n))
        if seen is not None:
            # only some of the results enter the loss
            keep = torch.zeros(nt, nb, n)
            keep[seen] = 1.0
            w = w * keep
        ex = EXACT if kind == "affine" else EXACT2

        def plain(k, v):
            q = dict(p)
            yy = y0 * 2 if y0par == "scaled" else y0
            if k == "y0":
                yy = v * 2 if y0par == "scaled" else v
            else:
                q[k] = v
            f = Par(kind, q, ())
            with torch.no_grad():
                return (w * ode.odeint(f, yy.clone(), times, method=method, **ex, **dict(opts, direct_solve_method="thomas"))).sum()

        ref = {k: ctx.jac(lambda v, k=k: plain(k, v), p[k].detach()) for k in sym}
        if y0grad:
            ref["y0"] = ctx.jac(lambda v: plain("y0", v), y0.detach())
        func = Par(kind, p, [k for k in sym if k not in extra])
        for k in frozen:
            v = func.__dict__.pop(k)
            setattr(func, k, torch.nn.Parameter(v.clone(), requires_grad=False))
        if unused:
            func.idle = torch.nn.Parameter(gen((nb, n), 3, 5, 4))
        ev = []
        for k in extra:
            v = p[k].detach().clone().requires_grad_(True)
            func.__dict__[k] = v
            ev.append(v)
        y00 = y0.detach().clone().requires_grad_(y0grad)
        if y0par:
            # the initial condition is a parameter of the function, too
            func.start = torch.nn.Parameter(y00.detach().clone())
            y00 = func.start
        names = [k for k in sym if k not in extra] + list(extra)
        leaves = [getattr(func, k) for k in names]
        if twice:
            # everything is listed as an extra parameter, parameters of the function included
            ev = leaves + ev
        f = ode.odeint_adjoint if adjoint else ode.odeint
        if ahead:
            # an optimizer step before: other values, integrated, differentiated and updated in place
            true = [l.detach().clone() for l in leaves]
            with torch.no_grad():
                for l in leaves:
                    l.copy_(gen(tuple(l.shape), 5, 3, 8) - 0.25)
            if ahead == "thaw":
                leaves[0].requires_grad_(False)
            z = f(func, y00, times, method=method, **(dict(extra_params=ev) if ev else {}), **ex, **opts)
            z.sum().backward()
            for l in leaves:
                l.requires_grad_(True)
            with torch.no_grad():
                for l, v in zip(leaves, true):
                    l.copy_(v)
        y = f(func, y00 * 2 if y0par == "scaled" else y00, times, method=method, **(dict(extra_params=ev) if ev else {}), **ex, **opts)
        if inter:
            # another problem with the same function object before going back
            t2, y2 = times[: nt - 1] * 2 + 0.5, (gen((nb, n), 5, 3, 8) + 0.25).requires_grad_(y0grad)
            z = f(func, y2, t2, method=method, **(dict(extra_params=ev) if ev else {}), **ex, **dict(opts, block_size=opts["block_size"] % 3 + 1))
        # a loss on the results in another order hands back gradients stored in that order
        loss = (w * y).sum() if perm is None else (w.permute(perm).contiguous() * y.permute(perm)).sum()
        if unused and not sym:
            loss.backward()
            ctx.true("a parameter without influence gets no or a zero gradient", func.idle.grad is None or not bool((func.idle.grad != 0).any()))
            if y0grad:
                ctx.eq("gradient with respect to y0", y00.grad, ref["y0"], deriv=True)
            return
        g = torch.autograd.grad(loss, leaves + ([y00] if y0grad else []) + ([func.idle] if unused else []), allow_unused=unused, retain_graph=again)
        if unused:
            ctx.true("a parameter without influence gets no or a zero gradient", g[-1] is None or not bool((g[-1] != 0).any()))
        for k, gi in zip(names + (["y0"] if y0grad else []), g):
            ctx.eq("gradient with respect to " + k, gi, ref[k], deriv=True)
        if inter:
            v = gen(tuple(z.shape), 7, 11, 8) + 0.0625
            g2 = torch.autograd.grad((v * z).sum(), leaves)
            for k, gi in zip(names, g2):

                def other(x, k=k):
                    fo = Par(kind, dict(p, **{k: x}), ())
                    with torch.no_grad():
                        return (v * ode.odeint(fo, y2.detach().clone(), t2.clone(), method=method, **ex, **dict(opts, direct_solve_method="thomas"))).sum()

                ctx.eq("gradient of the other problem with respect to " + k, gi, ctx.jac(other, p[k].detach()), deriv=True)
        if again:
            # going back a second time
            g2 = torch.autograd.grad(loss, leaves + ([y00] if y0grad else []))
            for k, gi in zip(names + (["y0"] if y0grad else []), g2):
                ctx.eq("gradient of a second backward pass with respect to " + k, gi, ref[k], deriv=True)
            # the same objects integrated a second time
            y = f(func, y00, times, method=method, **(dict(extra_params=ev) if ev else {}), **ex, **opts)
            for p2 in leaves + [y00]:
                p2.grad = None
            (w * y).sum().backward()
            for k, l in zip(names + (["y0"] if y0grad else []), leaves + ([y00] if y0grad else [])):
                ctx.eq("accumulated gradient of a second integration with respect to " + k, l.grad, ref[k], deriv=True)
            ctx.true("the list of extra parameters is left alone", len(ev) == len(extra) + (len(leaves) if twice else 0))

    return fn


class Decay(torch.nn.Module):
    """y' = k (y - s)"""

    def __init__(self, k, s):
        super().__init__()
        self.k, self.s = torch.nn.Parameter(k), torch.nn.Parameter(s)

    def forward(self, t, y):
        return self.k * (y - self.s), self.k[..., None] * torch.ones(y.shape + (1,))


def steady_case(method, nt, nb, bs, guess, adjoint):
    """starting from a stationary state, where the initial guess of the solver
    is the solution already"""

    def fn(ctx):
        from pyoptmat import ode

        times = torch.cumsum(gen((nt, nb), 3, 5, 64) + 0.25, 0)
        k, s = ctx.real("k", (nb, 1), lo=-3, hi=-1), ctx.real("s", (nb, 1))
        func = Decay(k.clone(), s.clone())
        y0 = s.clone().requires_grad_(True)
        f = ode.odeint_adjoint if adjoint else ode.odeint
        y = f(func, y0, times, method=method, block_size=bs, guess_type=guess)
        ctx.eq("stays where it is", y, s.expand(nt, nb, 1))
        w = gen((nt, nb, 1), 7, 11, 8) + 0.0625
        g = torch.autograd.grad((w * y).sum(), [y0, func.s, func.k], allow_unused=True)
        prod, d0 = torch.ones(nb, 1), w[0].clone()
        for i in range(1, nt):
            dt = (times[i] - times[i - 1])[:, None]
            prod = prod / (1 - dt * k) if method == "backward-euler" else prod * (1 + dt * k)
            d0 = d0 + w[i] * prod
        for nm, v, r in zip(("y0", "s", "k"), g, (d0, w.sum(0) - d0, torch.zeros(nb, 1))):
            ctx.true("there is a gradient with respect to " + nm, v is not None)
            if v is not None:
                ctx.eq("gradient with respect to " + nm, v, r, deriv=True)

    return fn


for prop, adj in (("C03", True), ("C04", False)):
    for me in SCHEMES:
        for nb, bs, gu in ((1, 1, "zero"), (2, 2, "zero"), (2, 3, "zero"), (1, 2, "previous")):
            add(prop, "%s/stationary/nb%d/block%d/%s" % (me.split("-")[0], nb, bs, gu), steady_case(me, 4, nb, bs, gu, adj))
for prop, adj in (("C03", True), ("C04", False)):
    for me in SCHEMES:
        tag = me.split("-")[0]
        # forcing and initial state of a generic time dependent linear system
        for j, (nt, bs) in enumerate([(3, 1), (4, 2), (5, 3), (6, 5), (6, 4), (4, 9), (9, 8), (8, 3)]):
            dm, mn = [("thomas", 0), ("pcr", 0), ("hybrid", 2)][j % 3]
            o = dict(block_size=bs, direct_solve_method=dm, direct_solve_min_size=mn)
            add(prop, "%s/forcing/nt%d/block%d/%s" % (tag, nt, bs, dm), grad_case("affine", me, nt, 2, 2, o, ("c", "c1"), adjoint=adj), generic=True)
            add(prop, "%s/operator/nt%d/block%d/%s" % (tag, min(nt, 5), bs, dm), grad_case("affine", me, min(nt, 5), 2, 1, o, ("M1", "c"), adjoint=adj), generic=True, cost=2)
            add(prop, "%s/nonlinear/nt%d/block%d/%s" % (tag, min(nt, 5), bs, dm), grad_case("nil", me, min(nt, 5), 2, 2, o, ("c", "a", "d"), adjoint=adj), generic=True, cost=4)
        for bs in (1, 2, 3):
            o = dict(block_size=bs)
            add(prop, "%s/shared parameter/block%d" % (tag, bs), grad_case("affine", me, 4, 3, 1, o, ("c", "M"), adjoint=adj, shared=("c", "M")), generic=True, cost=3)
            add(prop, "%s/extra parameters/block%d" % (tag, bs), grad_case("affine", me, 4, 2, 2, o, ("c", "c1"), extra=("c1",), adjoint=adj), generic=True)
            add(prop, "%s/extra parameters/second integration/block%d" % (tag, bs), grad_case("affine", me, 4, 2, 1, o, ("c", "c1"), extra=("c1",), adjoint=adj, again=True), generic=True)
            add(prop, "%s/fixed initial condition/block%d" % (tag, bs), grad_case("affine", me, 4, 2, 2, o, ("c",), y0grad=False, adjoint=adj), generic=True)
            add(prop, "%s/initial condition only/block%d" % (tag, bs), grad_case("affine", me, 4, 2, 2, o, (), adjoint=adj), generic=True)
            add(prop, "%s/symbolic steps/block%d" % (tag, bs), grad_case("affine", me, 3, 1, 1, o, ("c", "c1"), adjoint=adj, steps=True, select=1), generic=True, cost=4)
            add(prop, "%s/frozen parameter/block%d" % (tag, bs), grad_case("affine", me, 4, 2, 2, o, ("c",), frozen=("c1", "M"), adjoint=adj), generic=True)
            add(prop, "%s/parameter without influence/block%d" % (tag, bs), grad_case("affine", me, 4, 2, 1, o, ("c",), unused=True, frozen=("M",), adjoint=adj), generic=True)
            add(prop, "%s/only parameters without influence/block%d" % (tag, bs), grad_case("affine", me, 4, 2, 1, o, (), unused=True, adjoint=adj), generic=True)
            add(prop, "%s/after an update of the parameters/block%d" % (tag, bs), grad_case("affine", me, 4, 2, 1, o, ("c", "M"), ahead=True, adjoint=adj), generic=True, cost=2)
            add(prop, "%s/after thawing a parameter/block%d" % (tag, bs), grad_case("affine", me, 4, 2, 1, o, ("c", "M"), ahead="thaw", adjoint=adj), generic=True, cost=2)
            add(prop, "%s/parameters of the function listed as extra parameters/block%d" % (tag, bs), grad_case("affine", me, 4, 2, 1, o, ("c", "c1"), twice=True, adjoint=adj), generic=True)
            add(prop, "%s/extra parameters listed twice/block%d" % (tag, bs), grad_case("affine", me, 3, 1, 2, o, ("c", "c1"), extra=("c1",), twice=True, adjoint=adj), generic=True)
            add(prop, "%s/after an update of the extra parameters/block%d" % (tag, bs), grad_case("affine", me, 4, 2, 1, o, ("c", "c1"), extra=("c1",), ahead=True, adjoint=adj), generic=True)
            for yp in ("itself", "scaled"):
                add(prop, "%s/initial condition from a parameter/%s/block%d" % (tag, yp, bs), grad_case("affine", me, 4, 2, 2, o, ("c",), y0par=yp, adjoint=adj), generic=True)
            add(prop, "%s/two problems/block%d" % (tag, bs), grad_case("affine", me, 4, 2, 1, o, ("c", "c1"), inter=True, adjoint=adj), generic=True)
            add(prop, "%s/two problems/nonlinear/block%d" % (tag, bs), grad_case("nil", me, 4, 1, 2, o, ("c", "a"), inter=True, adjoint=adj), generic=True)
        for j, perm in enumerate([(1, 0, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0)]):
            for i, bs in enumerate((2, 4, 5)):
                o = dict(block_size=bs, direct_solve_method=("hybrid", "pcr", "pcr")[(j + i) % 3], direct_solve_min_size=1)
                add(prop, "%s/loss on the results in order %s/block%d" % (tag, "".join(map(str, perm)), bs), grad_case("affine", me, 6, 2, 2, o, ("c", "c1"), adjoint=adj, perm=perm), generic=True)
        # losses which only look at a few of the results
        for j, (nm, seen) in enumerate([("last", (-1,)), ("first", (1,)), ("middle", (3,)), ("initial", (0,)), ("one entry", (slice(None), 1)), ("one variable", (slice(None), slice(None), 0)), ("single value", (4, 0, 1))]):
            for bs in (1, 2, 4):
                o = dict(block_size=bs, direct_solve_method=("thomas", "pcr", "hybrid")[(j + bs) % 3], direct_solve_min_size=2)
                add(prop, "%s/observed %s/block%d" % (tag, nm, bs), grad_case("affine", me, 6, 2, 2, o, ("c", "c1"), adjoint=adj, seen=seen), generic=True)
