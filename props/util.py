"""C10 interpolators, C27 numerical differentiation, C28 automatic Jacobians
and neural ODEs, C29 tensor helpers"""
import torch

from .common import add, rest, elsewhere


# ------------------------------------------------------------------ C10
def series(ctx, nt, nb):
    dt = ctx.pos("dt", (nt - 1, nb), hi=4)
    t0 = ctx.real("t0", (nb,), lo=-1, hi=1)
    times = torch.cat([t0[None], t0[None] + torch.cumsum(dt, 0)], 0)
    return times, ctx.real("v", (nt, nb))


def piecewise(times, values, t):
    """linear on every segment: times, values (nt, nb), t (..., nb)"""
    ref = values[0].expand(t.shape)
    for k in range(times.shape[0] - 1):
        s = (values[k + 1] - values[k]) / (times[k + 1] - times[k])
        ref = torch.where(t >= times[k], values[k] + s * (t - times[k]), ref)
    return ref


def interp_case(kind, nt, nb, extra=()):
    def fn(ctx):
        from pyoptmat import utility as u

        times, v = series(ctx, nt, nb)
        if kind == "single":
            times = times[:, 0].clone()
            t = ctx.real("t", (), lo=-1)
            ctx.assume((t >= times[0]) & (t <= times[-1]))
            y = u.timeseries_interpolate_single_times(times.clone(), v.clone(), t)
            ctx.eq("linear interpolation", y, piecewise(times[:, None].expand(nt, nb), v, t.expand(nb)))
            return
        shape = tuple(extra) + (nb,)
        if kind == "cheater":
            # the structured problems this class is for: the same relative
            # position in the time grid for every experiment
            k = len(extra)
            a = ctx.real("a", (), lo=0, hi=1)
            t = times[k] + a * (times[k + 1] - times[k])
            f = u.CheaterBatchTimeSeriesInterpolator(times.clone(), v.clone())
            if getattr(ctx, "restless", False):
                for j in range(nt):
                    f(times[j].clone())
            y = f(t)
            ctx.eq("linear interpolation", y, v[k] + a * (v[k + 1] - v[k]))
            return
        t = ctx.real("t", shape, lo=-1)
        ctx.assume(((t >= times[0]) & (t <= times[-1])))
        if kind == "function":
            y = u.timeseries_interpolate_batch_times(times.clone(), v.clone(), t)
        else:
            f = (u.BatchTimeSeriesInterpolator if kind == "batch" else u.ArbitraryBatchTimeSeriesInterpolator)(times.clone(), v.clone())
            if getattr(ctx, "restless", False):
                # the same interpolator used at other times before
                for k in range(nt):
                    f(times[k].expand(shape).clone())
            y = f(t.clone())
        ctx.true("shape", tuple(y.shape) == shape)
        ctx.eq("linear interpolation", y, piecewise(times, v, t))

    return fn


def node_case(kind, nt, nb, k):
    """exactly the data at the data points"""

    def fn(ctx):
        from pyoptmat import utility as u

        times, v = series(ctx, nt, nb)
        t = times[k].clone()
        if kind == "batch":
            y = u.BatchTimeSeriesInterpolator(times.clone(), v.clone())(t)
        elif kind == "function":
            y = u.timeseries_interpolate_batch_times(times.clone(), v.clone(), t)
        elif kind == "cheater":
            y = u.CheaterBatchTimeSeriesInterpolator(times.clone(), v.clone())(t)
        else:
            y = u.ArbitraryBatchTimeSeriesInterpolator(times.clone(), v.clone())(t)
        ctx.eq("the data point itself", y, v[k])

    return fn


KINDS = ("batch", "function", "arbitrary")
for kind in KINDS:
    for nt, nb in [(2, 1), (3, 1), (4, 1), (2, 2), (3, 2)]:
        add("C10", "%s/nt%d/nb%d" % (kind, nt, nb), interp_case(kind, nt, nb), cost=nt * nb)
    add("C10", "%s/nt4/nb2" % kind, interp_case(kind, 4, 2), tier="thorough")
for kind in ("batch", "arbitrary"):
    for nt, nb in [(3, 1), (2, 2)]:
        add("C10", "%s/after other times/nt%d/nb%d" % (kind, nt, nb), rest(interp_case(kind, nt, nb)), cost=nt * nb)
for nt, nb in [(2, 1), (3, 1), (3, 2), (4, 2), (5, 1)]:
    add("C10", "single/nt%d/nb%d" % (nt, nb), interp_case("single", nt, nb))
for ex, nt, nb in [((2,), 2, 1), ((2,), 3, 1), ((1, 2), 3, 1), ((2,), 2, 2), ((3,), 2, 2)]:
    add("C10", "arbitrary/%s/nt%d/nb%d" % ("x".join(map(str, ex)), nt, nb), interp_case("arbitrary", nt, nb, ex), cost=4)
for nt, nb in [(3, 1), (3, 2), (4, 2), (5, 2), (4, 3)]:
    for k in range(nt - 1):
        add("C10", "cheater/nt%d/nb%d/segment%d" % (nt, nb, k), interp_case("cheater", nt, nb, (1,) * k))
for k in range(3):
    add("C10", "cheater/after other times/segment%d" % k, rest(interp_case("cheater", 4, 2, (1,) * k)))
for kind in KINDS + ("cheater",):
    for k in range(4):
        add("C10", "%s/node%d" % (kind, k), node_case(kind, 4, 2, k))


# ------------------------------------------------------------------ C27
def fd_case(which, bs, s1, s2, zero=False):
    """exact on affine functions, for any point and coefficients"""

    def fn(ctx):
        from pyoptmat import utility as u

        x0 = ctx.real("x", bs + s2)
        if zero:
            x0 = x0.clone()
            x0[(0,) * len(bs)] = 0.0
        C, c0 = ctx.real("C", bs + s1 + s2), ctx.real("c0", bs + s1)

        def f(x):
            xx = x.reshape(bs + (1,) * len(s1) + s2)
            p = C * xx
            if s2:
                p = p.flatten(len(bs) + len(s1)).sum(-1)
            return p + c0

        k = dict(eps=2.0**-20)
        if which == "batch_differentiate":
            k["nbatch_dim"] = len(bs)
        xx = x0.clone()
        d = getattr(u, which)(f, xx, **k)
        if which == "new_differentiate":
            C = C.reshape(bs + (s1 or (1,)) + (s2 or (1,)))
        ctx.eq("derivative of an affine function", d, C, allow_undef=False)
        ctx.eq("the point is left alone", xx, x0)

    return fn


def fd_view(which, bs, s1, s2, f, D):
    def fn(ctx):
        from pyoptmat import utility as u

        x0 = ctx.real("x", bs + s2)
        xx = x0.clone()
        d = getattr(u, which)(f, xx)
        D1 = torch.tensor(D).reshape(s1 + s2).expand(bs + s1 + s2)
        if which == "new_differentiate":
            D1 = D1.reshape(bs + (s1 or (1,)) + (s2 or (1,)))
        ctx.eq("derivative", d, D1, allow_undef=False)
        ctx.eq("the point is left alone", xx, x0)

    return fn


for which in ("batch_differentiate", "new_differentiate", "differentiate"):
    for s1 in ((), (1,), (2,), (3,)):
        for s2 in ((), (1,), (2,), (3,)):
            for bs in ((1,), (2,), (2, 2)) if which == "batch_differentiate" else ((1,), (3,)):
                if len(s1) * len(s2) and s1[0] * s2[0] > 6 and bs != (1,):
                    continue
                add("C27", "%s/%s/%s/%s" % (which, bs, s1, s2), fd_case(which, bs, s1, s2))
    # results which are (views of) the argument itself
    for nm, s1, s2, f, D in [
        ("itself", (), (), lambda x: x, [1.0]),
        ("itself", (2,), (2,), lambda x: x, [[1.0, 0.0], [0.0, 1.0]]),
        ("component", (), (3,), lambda x: x[..., 1], [0.0, 1.0, 0.0]),
        ("components", (2,), (3,), lambda x: x[..., 1:], [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
        ("copies", (3,), (), lambda x: x[..., None].expand(x.shape + (3,)), [1.0, 1.0, 1.0]),
        ("reversed", (2,), (2,), lambda x: x.flip(-1), [[0.0, 1.0], [1.0, 0.0]]),
        ("constant", (2,), (2,), lambda x: torch.ones_like(x), [[0.0, 0.0], [0.0, 0.0]]),
    ]:
        add("C27", "%s/%s/%s/%s" % (which, nm, s1, s2), fd_view(which, (2,), s1, s2, f, D))
    add("C27", "%s/zero/scalar" % which, fd_case(which, (2,), (), (), True))
    add("C27", "%s/zero/vector" % which, fd_case(which, (2,), (2,), (2,), True))


# ------------------------------------------------------------------ C28
def jacobianize_case(bs, narg, argnums, nx, ny):
    def fn(ctx):
        from pyoptmat import utility as u

        xs = [ctx.real("x%d" % i, bs + (nx,)) for i in range(narg)]
        A = [ctx.real("A%d" % i, (ny, nx)) for i in range(narg)]

        def f(*x):
            r = 0.0
            for i, xi in enumerate(x):
                r = r + ((A[i] * xi[..., None, :]).sum(-1)) * (1.0 + 0.5 * x[0][..., :1])
            return r

        g = u.jacobianize(argnums)(f) if argnums is not None else u.jacobianize()(f)
        if getattr(ctx, "restless", False):
            # used before for other batches and other arguments
            for b in ((), (3,), (1, 2), bs):
                g(*[elsewhere(torch.zeros(b + (nx,)), i) for i in range(narg)])
            g(*xs, argnums=(0,))
            y, J = g(*xs, argnums=narg - 1)
            ctx.eq("Jacobian of arguments chosen in the call", J, ctx.jac(lambda v: f(*xs[:-1], v), xs[-1], batch=len(bs)), deriv=True)
        y, J = g(*xs)
        ctx.eq("value", y, f(*xs))
        which = range(narg) if argnums is None else argnums if isinstance(argnums, tuple) else (argnums,)
        Js = J if isinstance(J, (tuple, list)) else (J,)
        ctx.true("one Jacobian for each requested argument", len(Js) == len(list(which)))
        for j, i in enumerate(which):

            def h(v, i=i):
                z = list(xs)
                z[i] = v
                return f(*z)

            ctx.eq("Jacobian %d" % i, Js[j], ctx.jac(h, xs[i], batch=len(bs)), deriv=True)

    return fn


def neural_case(bs, n, s, hidden):
    def fn(ctx):
        from pyoptmat import neuralode

        W1, b1 = ctx.real("W", (hidden, n + s)), ctx.real("b", (hidden,))
        W2 = ctx.real("V", (n, hidden))

        def model(x):
            z = (W1 * x[..., None, :]).sum(-1) + b1
            return (W2 * (z * z)[..., None, :]).sum(-1)

        t = ctx.real("t", bs)
        y = ctx.real("y", bs + (n,))
        force = lambda t: torch.stack([t * (k + 1) + k for k in range(s)], -1)
        m = neuralode.NeuralODE(model, force)
        if getattr(ctx, "restless", False):
            for b in ((3,), (1, 2), bs):
                m(elsewhere(torch.zeros(b), 1), elsewhere(torch.zeros(b + (n,)), 2))
        r, J = m(t, y)
        rate = lambda v: model(torch.cat([v, force(t)], -1))
        ctx.eq("rate is the model of state and forcing", r, rate(y))
        ctx.eq("Jacobian with respect to the state", J, ctx.jac(rate, y, batch=len(bs)), deriv=True)

    return fn


for bs in ((), (2,), (2, 2), (3, 2)):
    for narg, an in [(1, None), (2, None), (2, 0), (2, 1), (2, (0,)), (2, (1,)), (3, (0, 2))]:
        add("C28", "jacobianize/%s/%d/%s" % (bs, narg, an), jacobianize_case(bs, narg, an, 2, 2))
    add("C28", "jacobianize/%s/rectangular" % (bs,), jacobianize_case(bs, 1, None, 3, 2))
    add("C28", "jacobianize/%s/after other calls" % (bs,), rest(jacobianize_case(bs, 2, None, 2, 2)))
    if bs:
        add("C28", "neural/%s/after other calls" % (bs,), rest(neural_case(bs, 2, 1, 2)))
        for n, s in [(1, 1), (2, 1), (2, 2), (1, 3), (3, 1)]:
            add("C28", "neural/%s/n%d/s%d" % (bs, n, s), neural_case(bs, n, s, 2))


# ------------------------------------------------------------------ C29
def mbmm_case(bs, i, k, j):
    def fn(ctx):
        from pyoptmat import utility as u

        a, b = ctx.real("a", bs + (i, k)), ctx.real("b", bs + (k, j))
        ctx.eq("matrix product", u.mbmm(a, b), (a[..., :, :, None] * b[..., None, :, :]).sum(-2))

    return fn


def mbmm_broadcast(ba, bb):
    def fn(ctx):
        from pyoptmat import utility as u

        a, b = ctx.real("a", ba + (2, 3)), ctx.real("b", bb + (3, 2))
        ctx.eq("matrix product", u.mbmm(a, b), (a[..., :, :, None] * b[..., None, :, :]).sum(-2))

    return fn


def step_case(shape):
    def fn(ctx):
        from pyoptmat import utility as u

        x = ctx.real("x", shape)
        one, z, h = torch.ones(shape), torch.zeros(shape), torch.full(shape, 0.5)
        ctx.eq("step function", u.heaviside(x), torch.where(x > 0, one, torch.where(x < 0, z, h)))
        ctx.eq("positive part", u.macaulay(x), torch.where(x > 0, x, z))
        ctx.true("positive part is non-negative", u.macaulay(x) >= 0)

    return fn


def id_case(nb, n):
    def fn(ctx):
        from pyoptmat import utility as u

        a = ctx.real("a", (nb, n, n))
        a0 = a.clone()
        ctx.eq("plus identity", u.add_id(a), a0 + torch.eye(n))
        ctx.eq("operand untouched", a, a0)

    return fn


def compose_case(ctx):
    from pyoptmat import utility as u

    x = ctx.real("x", (3,))
    f, g = (lambda v: v * v + 1.0), (lambda v: 2.0 * v)
    ctx.eq("function composition", u.compose(x, f), f(x))
    ctx.eq("function composition twice", u.compose(u.compose(x, f), g), g(f(x)))


for bs in ((), (2,), (2, 3), (1, 2, 2)):
    for i, k, j in [(1, 1, 1), (2, 3, 1), (1, 2, 3), (2, 2, 2), (3, 1, 2)]:
        add("C29", "mbmm/%s/%d%d%d" % (bs, i, k, j), mbmm_case(bs, i, k, j))
for ba, bb in [((1, 2), (3, 2)), ((2,), (3, 2)), ((3, 2), ()), ((2, 1), (1, 2)), ((), (2,))]:
    add("C29", "mbmm/%s by %s" % (ba, bb), mbmm_broadcast(ba, bb))
for sh in ((), (4,), (2, 3)):
    add("C29", "step/%s" % (sh,), step_case(sh))
for nb, n in [(1, 1), (2, 3), (3, 2), (1, 4)]:
    add("C29", "add_id/%d/%d" % (nb, n), id_case(nb, n))
add("C29", "compose", compose_case)
