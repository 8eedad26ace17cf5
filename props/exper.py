"""C21 conversion of results, C22 load history builders, C23 loading of data"""
import contextlib
import itertools

import torch

from .common import add
from vlib.dag import Unsupported

NAMES = ("tensile", "relaxation", "strain_cyclic", "creep", "stress_cyclic", "abstract_tensile", "direct_data")


# ------------------------------------------------------------------ C21
def ref_column(kind, cyc, p):
    """documented abstraction of one experiment: cyc list of ints, p (ntime,)"""
    n = len(cyc)
    out = []
    for i in range(n):
        if kind in (0, 6):
            out.append(p[i])
        elif kind in (1, 3):
            out.append(p[i] - p[cyc.index(1)] if cyc[i] == 1 else torch.zeros(()))
        elif kind in (2, 4):
            m = None
            for j in range(n):
                if cyc[j] == cyc[i]:
                    m = p[j] if m is None else torch.where(p[j] > m, p[j], m)
            out.append(m)
        else:
            m = p[0]
            for j in range(1, n):
                m = torch.where(p[j] > m, p[j], m)
            out.append(torch.zeros(()) if cyc[i] == 0 else p[cyc.index(1)] if cyc[i] == 1 else m)
    return torch.stack(out)


def convert_case(types, cycles):
    """cycles: one list per experiment"""

    def fn(ctx):
        from pyoptmat import experiments as ex

        nt, ne = len(cycles[0]), len(types)
        r = ctx.real("r", (nt, ne))
        cy = torch.tensor(cycles, dtype=torch.int64).T.contiguous()
        ty = torch.tensor(types)
        r0, cy0 = r.clone(), cy.clone()
        out = ex.convert_results(r, cy, ty)
        ref = torch.stack([ref_column(k, list(c), r0[:, j]) for j, (k, c) in enumerate(zip(types, cycles))], 1)
        ctx.eq("abstracted results", out, ref)
        ctx.eq("predictions untouched", r, r0)
        ctx.true("cycles untouched", bool((cy == cy0).all()))

    return fn


def named(k, cyc):
    def fn(ctx):
        from pyoptmat import experiments as ex

        r = ctx.real("r", (len(cyc), 1))
        c = torch.tensor(cyc)[:, None]
        ctx.eq("by name", ex.exp_fns[NAMES[k]](c, r), ref_column(k, cyc, r[:, 0])[:, None])
        ctx.true("code of the test type", ex.exp_map[NAMES[k]] == k)
        ctx.eq("by number", ex.exp_fns_num[k](c, r), ref_column(k, cyc, r[:, 0])[:, None])

    return fn


DEFCYC = {0: [0, 0, 0, 0], 1: [0, 1, 1, 1], 2: [0, 0, 1, 1], 3: [0, 0, 1, 1], 4: [0, 1, 1, 2], 5: [0, 1, 2, 2], 6: [0, 0, 0, 0]}
OTHER = {0: [0, 0, 0, 0], 1: [0, 0, 0, 1], 2: [0, 1, 2, 2], 3: [0, 1, 1, 1], 4: [0, 0, 0, 1], 5: [0, 0, 1, 2], 6: [0, 0, 0, 0]}
for k in range(7):
    add("C21", "%s/one" % NAMES[k], convert_case([k], [DEFCYC[k]]))
    add("C21", "%s/two alike" % NAMES[k], convert_case([k, k], [DEFCYC[k]] * 2))
    add("C21", "%s/two with different counts" % NAMES[k], convert_case([k, k], [DEFCYC[k], OTHER[k]]))
    add("C21", "%s/names" % NAMES[k], named(k, DEFCYC[k]))
for j, ty in enumerate([(0, 1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1, 0), (2, 0, 2, 5), (3, 1, 3, 1), (5, 4, 5, 4, 0), (1, 6, 1), (4, 2, 4, 2)]):
    add("C21", "mixture/%s" % "".join(map(str, ty)), convert_case(ty, [(DEFCYC if i % 2 else OTHER)[k] for i, k in enumerate(ty)]), cost=3)
for cyc in ([0, 0, 0, 0, 0], [0, 1, 2, 3, 4], [0, 0, 0, 1, 1], [0, 1, 1, 1, 2], [0, 0, 1, 1, 2], [0]):
    add("C21", "strain_cyclic/%s" % "".join(map(str, cyc)), convert_case([2], [cyc]))
    add("C21", "stress_cyclic/%s" % "".join(map(str, cyc)), convert_case([4], [cyc]))
for cyc in ([1, 1, 1], [0, 0, 1], [0, 1, 1, 1, 1]):
    add("C21", "relaxation/%s" % "".join(map(str, cyc)), convert_case([1, 0], [cyc, [0] * len(cyc)]))
    add("C21", "creep/%s" % "".join(map(str, cyc)), convert_case([0, 3], [[0] * len(cyc), cyc]))
for cyc in ([0, 1, 2], [0, 0, 1, 1, 2, 2], [1, 2], [0, 1, 1, 2, 2]):
    add("C21", "abstract_tensile/%s" % "".join(map(str, cyc)), convert_case([5], [cyc]))


# ------------------------------------------------------------------ C22
class NumpyStandIn:
    """numpy on symbolic values: the documented behaviour of numpy's functions,
    most of them carried out by the torch function of the same meaning;
    anything else has no encoding"""

    pi = 3.141592653589793
    newaxis = None
    inf, nan = float("inf"), float("nan")
    float64, int64, double, int_, bool_ = float, int, float, int, bool
    # numpy name -> torch name where they differ
    OTHER = dict(absolute="abs", fabs="abs", power="pow", concatenate="cat", multiply="mul", subtract="sub", negative="neg", equal="eq", not_equal="ne",
                 greater="gt", less="lt", greater_equal="ge", less_equal="le", true_divide="true_divide", divide="div", ravel="flatten", invert="logical_not",
                 transpose="t", broadcast_to="broadcast_to", expand_dims="unsqueeze", max="amax", min="amin")
    SAME = ("abs sign sqrt exp log log10 log2 square add where maximum minimum logical_and logical_or logical_not stack hstack vstack column_stack outer diff sum prod "
            "mean any all cumsum cumprod flatten reshape roll flip squeeze isfinite isnan full_like zeros_like ones_like empty_like tile dot matmul einsum triu tril clip").split()

    def __init__(self, maxq):
        self.maxq = maxq

    def ten(self, x):
        """argument of a numpy function as torch takes it"""
        if isinstance(x, Arr):
            return x.t
        if isinstance(x, (list, tuple)) and x and any(isinstance(i, (Arr, torch.Tensor, list, tuple)) for i in x):
            x = [torch.as_tensor(self.ten(i)) for i in x]
            if any(i.dtype.is_floating_point for i in x):
                x = [i.to(torch.float64) for i in x]
            return torch.stack(x)
        return x

    def tensor(self, x):
        x = self.ten(x)
        return x if isinstance(x, torch.Tensor) else torch.as_tensor(x, dtype=torch.float64 if isinstance(x, float) else None)

    @staticmethod
    def kind(dtype):
        return {int: torch.int64, bool: torch.bool, "int": torch.int64, "bool": torch.bool}.get(dtype, torch.float64)

    @staticmethod
    def shp(shape):
        return (shape,) if isinstance(shape, int) else tuple(shape)

    def linspace(self, a, b, num=50, endpoint=True):
        a, b = (self.tensor(v).to(torch.float64) for v in (a, b))
        if not endpoint:
            return Arr(torch.linspace(a, b, num + 1)[:-1], self)
        return Arr(torch.linspace(a, b, num), self)

    def logspace(self, a, b, num=50):
        return Arr(10.0 ** self.linspace(a, b, num).t, self)

    def arange(self, *a, dtype=None):
        if any(isinstance(i, Arr) for i in a):
            raise Unsupported("numpy.arange of computed values")
        return Arr(torch.arange(*a, dtype=self.kind(dtype) if dtype else torch.float64 if any(isinstance(i, float) for i in a) else torch.int64), self)

    def zeros(self, shape, dtype=float):
        return Arr(torch.zeros(self.shp(shape), dtype=self.kind(dtype)), self)

    empty = zeros

    def zeros_like(self, x, dtype=None):
        x = self.tensor(x)
        return Arr(torch.zeros(tuple(x.shape), dtype=self.kind(dtype) if dtype else x.dtype), self)

    empty_like = zeros_like

    def ones_like(self, x, dtype=None):
        return Arr(self.zeros_like(x, dtype).t + 1, self)

    def ones(self, shape, dtype=float):
        return Arr(1 + self.zeros(shape, dtype).t, self)

    def full(self, shape, v, dtype=None):
        v = self.tensor(v)
        return Arr(torch.zeros(self.shp(shape), dtype=self.kind(dtype) if dtype else v.dtype) + v, self)

    def full_like(self, x, v, dtype=None):
        return self.full(x.shape, v, dtype)

    def array(self, x, dtype=None):
        t = self.tensor(x).clone()
        return Arr(t.to(self.kind(dtype)) if dtype else t, self)

    def asarray(self, x, dtype=None):
        return x if isinstance(x, Arr) and dtype is None else self.array(x, dtype)

    def copy(self, x):
        return self.array(x)

    def cumsum(self, x, axis=0, dtype=None):
        return Arr(torch.cumsum(self.tensor(x), axis), self)

    def cumprod(self, x, axis=0):
        return Arr(torch.cumprod(self.tensor(x), axis), self)

    def diff(self, x, prepend=None, append=None):
        x = self.tensor(x)
        one = lambda v: [] if v is None else [torch.atleast_1d(self.tensor(v)).to(x.dtype)]
        x = torch.cat(one(prepend) + [x] + one(append))
        return Arr(x[1:] - x[:-1], self)

    def cat(self, x, axis=0):
        x = [torch.atleast_1d(self.tensor(i)) for i in x]
        if any(i.dtype.is_floating_point for i in x):
            x = [i.to(torch.float64) for i in x]
        return Arr(torch.cat(x, axis), self)

    concatenate = cat

    def hstack(self, x):
        return self.cat(x)

    def append(self, a, b):
        return self.cat([a, b])

    def insert(self, a, k, v):
        a = self.tensor(a)
        return self.cat([Arr(a[:k], self), v, Arr(a[k:], self)])

    @property
    def r_(self):
        np = self

        class R:
            def __getitem__(self, k):
                return np.cat(k if isinstance(k, tuple) else (k,))

        return R()

    def repeat(self, x, n, axis=0):
        x = torch.atleast_1d(self.tensor(x))
        if not isinstance(n, int):
            n = torch.as_tensor([int(i) for i in (n.t if isinstance(n, Arr) else n)])
        return Arr(torch.repeat_interleave(x, n, axis), self)

    def tile(self, x, reps):
        return Arr(torch.tile(torch.atleast_1d(self.tensor(x)), self.shp(reps)), self)

    def piecewise(self, x, conds, fns):
        x = self.tensor(x)
        out = torch.zeros_like(x)
        conds = [self.tensor(c) for c in conds]
        if len(fns) == len(conds) + 1:
            out = out + self.tensor(fns[-1](Arr(x, self)) if callable(fns[-1]) else fns[-1])
        for c, f in zip(conds, fns):
            out = torch.where(c, self.tensor(f(Arr(x, self)) if callable(f) else f) + torch.zeros_like(x), out)
        return Arr(out, self)

    def select(self, conds, vals, default=0.0):
        conds, vals = [self.tensor(c) for c in conds], [self.tensor(v) for v in vals]
        out = torch.zeros_like(conds[0], dtype=torch.float64) + self.tensor(default)
        for c, v in reversed(list(zip(conds, vals))):
            out = torch.where(c, v + torch.zeros_like(out), out)
        return Arr(out, self)

    def interp(self, x, xp, fp):
        x, xp, fp = (self.tensor(v).to(torch.float64) for v in (x, xp, fp))
        out = fp[0] + torch.zeros_like(x)
        for i in range(xp.shape[0] - 1):
            d = xp[i + 1] - xp[i]
            flat = d == 0
            v = fp[i] + torch.where(flat, torch.zeros_like(d), (fp[i + 1] - fp[i]) / torch.where(flat, torch.ones_like(d), d)) * (x - xp[i])
            out = torch.where(x >= xp[i], v, out)
        return Arr(torch.where(x >= xp[-1], fp[-1] + torch.zeros_like(x), out), self)

    def searchsorted(self, a, v, side="left"):
        a, v = self.tensor(a), self.tensor(v)
        return Arr(((a < v.unsqueeze(-1)) if side == "left" else (a <= v.unsqueeze(-1))).sum(-1), self)

    def digitize(self, x, bins, right=False):
        return self.searchsorted(bins, x, "left" if right else "right")

    def floor(self, x):
        """for values from 0 to maxq (a stated bound of the harness)"""
        x = self.tensor(x)
        out = torch.zeros_like(x)
        for q in range(1, self.maxq + 1):
            out = torch.where(x >= q, torch.full_like(out, q), out)
        return Arr(out, self)

    def floor_divide(self, a, b):
        return self.array(a) // b

    def mod(self, a, b):
        return self.array(a) % b

    remainder = fmod = mod

    def divmod(self, a, b):
        return self.floor_divide(a, b), self.mod(a, b)

    def clip(self, x, a=None, b=None, **k):
        x = self.tensor(x)
        a, b = k.get("a_min", a), k.get("a_max", b)
        if a is not None:
            x = torch.maximum(x, self.tensor(a).to(x.dtype) + torch.zeros_like(x))
        if b is not None:
            x = torch.minimum(x, self.tensor(b).to(x.dtype) + torch.zeros_like(x))
        return Arr(x, self)

    def maximum(self, a, b):
        a, b = self.tensor(a), self.tensor(b)
        return Arr(torch.maximum(a.to(torch.float64), b.to(torch.float64)), self)

    def minimum(self, a, b):
        a, b = self.tensor(a), self.tensor(b)
        return Arr(torch.minimum(a.to(torch.float64), b.to(torch.float64)), self)

    def float(self, x):
        return x

    def __getattr__(self, k):
        name = self.OTHER.get(k, k)
        if k not in self.OTHER and k not in self.SAME:
            raise Unsupported("numpy.%s has no encoding" % k)
        f = getattr(torch, name)

        def call(*a, **kw):
            kw = {("dim" if n == "axis" else n): self.ten(v) for n, v in kw.items()}
            a = [self.ten(v) for v in a]
            a[0] = self.tensor(a[0]) if not isinstance(a[0], str) else a[0]
            if k == "where":
                a[1:] = [self.tensor(v) for v in a[1:]]
            out = f(*a, **kw)
            return Arr(out, self) if isinstance(out, torch.Tensor) else out

        return call


class Arr:
    """array of symbolic values with numpy's operators"""

    __array_priority__ = 1000

    def __init__(self, t, np):
        self.t, self.np = t, np

    @staticmethod
    def un(x):
        return x.t if isinstance(x, Arr) else x

    @property
    def shape(self):
        return tuple(self.t.shape)

    @property
    def T(self):
        return Arr(self.t.T, self.np)

    @property
    def size(self):
        return self.t.numel()

    ndim = property(lambda self: self.t.dim())
    dtype = property(lambda self: bool if self.t.dtype == torch.bool else float if self.t.dtype.is_floating_point else int)

    def __len__(self):
        return self.t.shape[0]

    def __iter__(self):
        return iter([Arr(i, self.np) for i in self.t])

    @classmethod
    def index(cls, k):
        return tuple(cls.index(i) for i in k) if isinstance(k, tuple) else cls.un(k)

    def __getitem__(self, k):
        return Arr(self.t[self.index(k)], self.np)

    def __setitem__(self, k, v):
        self.t[self.index(k)] = self.np.tensor(v).to(self.t.dtype) if isinstance(v, (Arr, list, tuple)) else v

    def __mod__(self, p):
        """remainder for quotients up to maxq (a stated bound of the harness)"""
        p = Arr.un(p)
        out = self.t
        for q in range(1, self.np.maxq + 1):
            out = torch.where(self.t >= q * p, self.t - q * p, out)
        return Arr(out, self.np)

    def __floordiv__(self, p):
        p = Arr.un(p)
        out = torch.zeros_like(self.t)
        for q in range(1, self.np.maxq + 1):
            out = torch.where(self.t >= q * p, torch.full_like(out, q), out)
        return Arr(out, self.np)

    def __divmod__(self, p):
        return self // p, self % p

    def __neg__(self):
        return Arr(-self.t, self.np)

    def __abs__(self):
        return Arr(self.t.abs(), self.np)

    def __invert__(self):
        return Arr(~self.t, self.np)

    def astype(self, dtype):
        if dtype is int and self.t.dtype.is_floating_point:
            return Arr(self.np.floor(self).t.to(torch.int64), self.np)
        return Arr(self.t.to(self.np.kind(dtype)), self.np)

    def copy(self):
        return Arr(self.t.clone(), self.np)

    def tolist(self):
        return [i.tolist() if i.t.dim() else i for i in self]

    def fill(self, v):
        self.t[...] = Arr.un(v)

    def __bool__(self):
        return bool(self.t)

    def __int__(self):
        return int(self.t)

    __index__ = __int__

    def __getattr__(self, k):
        if k.startswith("_") or k in ("t", "np"):
            raise AttributeError(k)
        if k in ("max", "min", "sum", "prod", "mean", "any", "all", "cumsum", "cumprod", "flatten", "ravel", "squeeze", "clip", "repeat", "dot"):
            return lambda *a, **kw: getattr(self.np, k)(self, *a, **kw)
        if k == "reshape":
            return lambda *a: Arr(self.t.reshape(*a), self.np)
        raise Unsupported("array.%s has no encoding" % k)


def _bin(name):
    def f(self, o):
        o = Arr.un(o)
        if not isinstance(o, torch.Tensor):
            if not isinstance(o, (int, float, list, tuple, bool)) and not hasattr(o, "__array__"):
                return NotImplemented
            o = self.np.tensor(o)
        r = getattr(self.t, name)(o)
        return Arr(r, self.np)

    return f


for nm in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "rpow", "ge", "gt", "le", "lt", "eq", "ne", "and", "or", "xor"):
    setattr(Arr, "__%s__" % nm, _bin("__%s__" % nm))


class Stub:
    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []

    def uniform(self, lo=0.0, hi=1.0):
        k = len(self.calls)
        u = self.ctx.real("u%d" % k, (), lo=0, hi=1)
        self.calls.append((lo, hi))
        v = Arr.un(lo) + u * (Arr.un(hi) - Arr.un(lo))
        return v if self.ctx.sym else float(v)

    def __getattr__(self, k):
        raise Unsupported("numpy.random.%s has no encoding" % k)


@contextlib.contextmanager
def numpy_stub(ctx, maxq=4, random=False):
    """symbolic runs see the stand-in, concrete runs the real numpy; random
    numbers are arbitrary values of their range in both"""
    from pyoptmat import experiments as ex

    old, oldra = ex.np, getattr(ex, "ra", None)
    st = Stub(ctx)
    try:
        if ctx.sym:
            ex.np = NumpyStandIn(maxq)
        if random and oldra is not None:
            ex.ra = st
        yield st
    finally:
        ex.np = old
        if oldra is not None:
            ex.ra = oldra


def num(ctx, t):
    """scalar handed to the numpy code"""
    return Arr(t, NumpyStandIn(4)) if ctx.sym else float(t)


def back(ctx, a):
    return Arr.un(a) if ctx.sym else torch.as_tensor(a)


def tension(n, nsteps):
    def fn(ctx):
        from pyoptmat import experiments as ex

        rate, temp, lim = ctx.pos("rate", (n,)), ctx.pos("temp", (n,)), ctx.real("lim", (n,))
        t, s, T, c = ex.make_tension_tests(rate, temp, lim, nsteps)
        w = torch.arange(nsteps, dtype=torch.float64)[:, None] / (nsteps - 1)
        ctx.eq("strains", s, w * lim)
        ctx.eq("times", t, w * lim / rate)
        ctx.eq("constant strain rate", s[1:] - s[:-1], rate * (t[1:] - t[:-1]))
        ctx.eq("temperatures", T, temp + torch.zeros(nsteps, n))
        ctx.true("cycles", tuple(c.shape) == (nsteps, n) and bool((c == 0).all()) and c.dtype == torch.int64)

    return fn


def creep(n, nl, nh, log):
    def fn(ctx):
        from pyoptmat import experiments as ex

        s, T, rate = ctx.pos("s", (n,)), ctx.pos("T", (n,)), ctx.pos("rate", (n,))
        hold = s / rate * (1 + ctx.pos("hold", (n,)))
        t, st, te, cy = ex.make_creep_tests(s, T, rate, hold, nl, nh, **(dict(logspace=True) if log else {}))
        w = torch.arange(nl, dtype=torch.float64)[:, None] / (nl - 1)
        one = torch.ones(nh, 1)
        ctx.eq("loading stress", st[:nl], w * s)
        ctx.eq("hold stress", st[nl:], one * s)
        ctx.eq("loading times", t[:nl], w * s / rate)
        ctx.eq("temperatures", te, T + torch.zeros(nl + nh, n))
        v = torch.arange(1, nh + 1, dtype=torch.float64)[:, None] / nh
        t0 = s / rate
        if log:
            ctx.eq("hold times", t[nl:], t0 ** (1 - v) * hold**v)
        else:
            ctx.eq("hold times", t[nl:], t0 + v * (hold - t0))
        ctx.eq("end of the test", t[-1], hold)
        ctx.true("cycles", tuple(cy.shape) == (nl + nh, n) and bool((cy[:nl] == 0).all()) and bool((cy[nl:] == 1).all()))

    return fn


for n, k in [(1, 2), (2, 3), (3, 5), (1, 9)]:
    add("C22", "tension/%d tests/%d steps" % (n, k), tension(n, k))
for n, nl, nh in [(1, 2, 1), (1, 3, 4), (2, 2, 3), (3, 4, 2)]:
    add("C22", "creep/%d tests/%d+%d steps" % (n, nl, nh), creep(n, nl, nh, False))
    add("C22", "creep log/%d tests/%d+%d steps" % (n, nl, nh), creep(n, nl, nh, True))


def sample_tension(nsteps):
    def fn(ctx):
        from pyoptmat import experiments as ex

        e, r = ctx.real("e"), ctx.pos("r")
        with numpy_stub(ctx):
            t, s = ex.sample_tension(dict(max_strain=num(ctx, e), strain_rate=num(ctx, r)), **({} if nsteps is None else dict(nsteps=nsteps)))
        n = nsteps or 50
        w = torch.arange(n, dtype=torch.float64) / (n - 1)
        ctx.eq("times", back(ctx, t), w * e / r)
        ctx.eq("strains", back(ctx, s), w * e)

    return fn


for k in (None, 2, 3, 7):
    add("C22", "sampled tension/%s" % k, sample_tension(k))


def cycle_ref(emax, R, rate, th, ch, N, nload, nhold):
    emin = R * emax
    ph = [(torch.zeros(()), emax, torch.abs(emax) / rate, nload), (emax, emax, th, nhold), (emax, emin, torch.abs(emax - emin) / rate, 2 * nload),
          (emin, emin, ch, nhold), (emin, torch.zeros(()), torch.abs(emin) / rate, nload)]
    t, s, c = [torch.zeros(())], [torch.zeros(())], [0]
    t0 = torch.zeros(())
    for k in range(N):
        for a, b, d, n in ph:
            for i in range(1, n + 1):
                w = i / n
                t.append(t0 + w * d)
                s.append(a + w * (b - a))
                c.append(k)
            t0 = t0 + d
    return torch.stack(t), torch.stack(s), torch.tensor(c)


def cyclic(N, nload, nhold, sign, special=None):
    def fn(ctx):
        from pyoptmat import experiments as ex

        emax = ctx.real("emax", (), lo=0, los=True, hi=2) if sign[0] > 0 else ctx.real("emax", (), lo=-2, hi=0, his=True)
        R = ctx.real("R", (), lo=-1, hi=0, his=True) if sign[1] < 0 else ctx.real("R", (), lo=0, los=True, hi=1, his=True)
        rate, th, ch = ctx.pos("rate"), ctx.pos("th"), ctx.pos("ch")
        z = torch.zeros(())
        if special == "zero R":
            R = z
        elif special == "no tension hold":
            th = z
        elif special == "no compression hold":
            ch = z
        elif special == "no holds":
            th = ch = z
        kw = {} if special == "default steps" else dict(nload=nload, nhold=nhold)
        with numpy_stub(ctx, maxq=N):
            t, s, c = ex.sample_cycle_normalized_times(
                dict(max_strain=num(ctx, emax), R=num(ctx, R), strain_rate=num(ctx, rate), tension_hold=num(ctx, th), compression_hold=num(ctx, ch)), N, **kw)
        rt, rs, rc = cycle_ref(emax, R, rate, th, ch, N, kw.get("nload", 10), kw.get("nhold", 10))
        t, s, c = back(ctx, t), back(ctx, s), back(ctx, c)
        ctx.eq("times", t, rt)
        ctx.eq("strains", s, rs)
        ctx.true("cycles", bool((c == rc).all()))

    return fn


for N, nl, nh in [(1, 1, 1), (1, 2, 3), (2, 1, 1), (2, 2, 1), (3, 1, 1)]:
    for sg in [(1, -1), (1, 1), (-1, -1), (-1, 1)]:
        add("C22", "cyclic/N%d/%d+%d/%s" % (N, nl, nh, sg), cyclic(N, nl, nh, sg), cost=N * (nl + nh))
for sp in ("zero R", "no tension hold", "no compression hold", "no holds"):
    add("C22", "cyclic/%s" % sp, cyclic(1, 2, 1, (1, -1), sp))
    add("C22", "cyclic/%s/N2" % sp, cyclic(2, 1, 1, (1, -1), sp), cost=3)
add("C22", "cyclic/default steps", cyclic(1, 0, 0, (1, -1), "default steps"), cost=8)


def random_tests(kind):
    def fn(ctx):
        from pyoptmat import experiments as ex

        a, b = ctx.pos("a"), ctx.pos("b")
        ln = [ctx.real("l%d" % i) for i in range(10)]
        V = lambda t: num(ctx, t)
        U = lambda k: ctx.real("u%d" % k, (), lo=0, hi=1)
        mix = lambda lo, hi, u: lo + u * (hi - lo)
        with numpy_stub(ctx, random=True) as st:
            if kind == "tension":
                d = ex.generate_random_tension(strain_rate=[V(a), V(b)], max_strain=V(ln[0]))
                exp = dict(max_strain=ln[0], strain_rate=a ** (1 - U(0)) * b ** U(0))
                order = ["strain_rate"]
            else:
                d = ex.generate_random_cycle(max_strain=[V(ln[0]), V(ln[1])], R=[V(ln[2]), V(ln[3])], strain_rate=[V(a), V(b)],
                                             tension_hold=[V(ln[4]), V(ln[5])], compression_hold=[V(ln[6]), V(ln[7])])
                exp = dict(max_strain=mix(ln[0], ln[1], U(0)), R=mix(ln[2], ln[3], U(1)), strain_rate=a ** (1 - U(2)) * b ** U(2),
                           tension_hold=mix(ln[4], ln[5], U(3)), compression_hold=mix(ln[6], ln[7], U(4)))
        ctx.true("entries", sorted(d) == sorted(exp))
        for k in exp:
            ctx.eq(k, torch.as_tensor(back(ctx, d[k])).reshape(()), exp[k])

    return fn


add("C22", "random tension", random_tests("tension"))
add("C22", "random cycle", random_tests("cycle"))


# ------------------------------------------------------------------ C23
class Col:
    def __init__(self, v):
        self.values = v


def load_case(types, control, nt, counts=(0, 1, 2)):
    def fn(ctx):
        from pyoptmat import experiments as ex

        ne = len(types)
        d = {k: ctx.real(k, (nt, ne)) for k in ("time", "temperature", "strain", "stress")}
        cyc = torch.tensor(counts)[torch.arange(nt * ne).reshape(nt, ne) % len(counts)]
        x = {k: Col(v.clone() if ctx.sym else v.numpy().copy()) for k, v in d.items()}
        x["cycle"] = Col(cyc.numpy().copy())
        x["type"] = Col(list(types))
        x["control"] = Col(list(control))
        data, res, cy, ty, co = ex.load_results(x)
        st = torch.tensor([c == "stress" for c in control])
        ctx.true("shapes", tuple(data.shape) == (3, nt, ne) and tuple(res.shape) == (nt, ne))
        ctx.eq("times", data[0], d["time"])
        ctx.eq("temperatures", data[1], d["temperature"])
        ctx.eq("controlled quantity", data[2], torch.where(st, d["stress"], d["strain"]))
        ctx.eq("results", res, torch.where(st, d["strain"], d["stress"]))
        ctx.true("cycles", bool((cy == cyc).all()))
        ctx.true("types", ty.tolist() == [NAMES.index(t) for t in types])
        ctx.true("control", co.tolist() == [int(c == "stress") for c in control])

    return fn


for j, ty in enumerate([NAMES, NAMES[::-1], NAMES[:1], NAMES[2:5], ("creep", "tensile", "creep")]):
    n = len(ty)
    for nm, co in [("strain", ["strain"] * n), ("stress", ["stress"] * n), ("mixed", [("strain", "stress")[(i + j) % 2] for i in range(n)]),
                   ("mixed2", [("stress", "strain", "strain")[i % 3] for i in range(n)])]:
        for nt in (1, 3):
            add("C23", "%d/%s/nt%d" % (j, nm, nt), load_case(ty, co, nt))
    # fatigue tests run for many cycles
    add("C23", "%d/many cycles" % j, load_case(ty, co, 4, (0, 127, 128, 255, 256, 32768, 65536, 1000003, 2**24 + 1, 2**31 + 7)))
