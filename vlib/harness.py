"""
Harness contexts.  A harness is a function `case(ctx)` that builds inputs with
`ctx.real`, runs the real code and states obligations with `ctx.eq`,
`ctx.true`...  The same function runs
  * symbolically (SymCtx): inputs are symbolic, every path through the real
    code is explored, every obligation is decided by the solver;
  * concretely (ConCtx): inputs come from a solver assignment, the unpatched
    code runs on ordinary float64 tensors; used to replay counterexamples and
    to validate the encoding.
"""

import contextlib
import math
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction

import torch

from . import dag, nf, symt
from .dag import Unsupported
from .symt import SymT, getids

torch.set_default_dtype(torch.float64)


class PathAbort(BaseException):
    """this path ends (infeasible)"""


class Invalid(Exception):
    """concrete environment violates an assumption"""


class CodeError(Exception):
    pass


def _t(x):
    return x if isinstance(x, torch.Tensor) else torch.as_tensor(x)


class BaseCtx:
    sym = False

    def const(self, x):
        """a float tensor of constants"""
        return torch.tensor(x, dtype=torch.float64)


class SymCtx(BaseCtx):
    sym = True

    def __init__(self, prefix, opts):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []
        self.pc = []
        self.known = {}
        self.decls = {}
        self.cands = []
        self.unknowns = []
        self.nobl = 0
        self.nskip = 0
        self.outputs = []  # (name, ids) in order, for encoding validation
        self.opts = opts
        self.seen = set()
        self._leaf = None
        self.forks = 0
        self.alias = {}
        self.njac = 0

    # ----------------------------------------------------------- inputs
    def real(self, name, shape=(), lo=None, hi=None, los=False, his=False, grad=False):
        n = 1
        for s in shape:
            n *= s
        ids = []
        for i in range(n):
            nm = "%s[%d]" % (name, i) if shape != () else name
            v = dag.var(nm)
            nf.DOMAIN[v] = (
                None if lo is None else Fraction(lo), int(los),
                None if hi is None else Fraction(hi), int(his),
            )
            self.decls[nm] = v
            ids.append(v)
        t = SymT(torch.tensor(ids, dtype=torch.int64).reshape(shape))
        if grad:
            t.requires_grad_(True)
        return t

    def pos(self, name, shape=(), hi=None, grad=False):
        return self.real(name, shape, lo=0, los=True, hi=hi, grad=grad)

    def param(self, name, shape=(), **k):
        return torch.nn.Parameter(self.real(name, shape, **k))

    # -------------------------------------------------------- path condition
    @property
    def leaf(self):
        if self._leaf is None:
            l = nf.Leaf()
            try:
                for c in self.pc:
                    if not l.assume(c):
                        raise PathAbort()
            except nf.NeedSplit:
                pass
            self._leaf = l
        return self._leaf

    def addpc(self, n):
        n = self.unalias(n)
        if n == 1 or n in self.known:
            return
        self.known[n] = True
        self.known[dag.mk_not(n)] = False
        self.pc.append(n)
        if self._leaf is not None:
            try:
                if not self._leaf.assume(n):
                    raise PathAbort()
            except nf.NeedSplit:
                pass

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathAbort()
            return
        for n in getids(cond).reshape(-1).tolist():
            if n == 0:
                raise PathAbort()
            self.addpc(n)

    def decide(self, n):
        n = self.unalias(n)
        if n in (0, 1):
            return bool(n)
        if n in self.known:
            return self.known[n]
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.taken.append(v)
            self.addpc(n if v else dag.mk_not(n))
            return v
        # determined?
        t = nf.walk_possible(self.pc, n, True, self.leaf)
        f = nf.walk_possible(self.pc, n, False, self.leaf)
        if not t and not f:
            raise PathAbort()
        if t and f:
            self.forks += 1
            self.alts.append(self.taken + [False])
            v = True
        else:
            v = t
        self.taken.append(v)
        self.addpc(n if v else dag.mk_not(n))
        return v

    def decide_int(self, n):
        vals = symt.int_values(n)
        if vals is None:
            raise Unsupported("symbolic integer without finite range")
        for v in vals[:-1]:
            if self.decide(dag.mk_eq(n, dag.const(v))):
                return v
        return vals[-1]

    def constant_real(self, n):
        n = self.unalias(n)
        try:
            r = self.leaf.real(n)
        except (nf.NeedSplit, nf.Undef):
            return None
        if not r.n:
            return 0
        if not r.d and len(r.n) == 1 and () in r.n:
            return r.n[()]
        return None

    def unsupported(self, msg):
        """the harness cannot observe this version of the code"""
        raise Unsupported(msg)

    # ---------------------------------------------------------- obligations
    def _pair(self, name, a, b):
        a, b = _t(a), _t(b)
        if tuple(a.shape) != tuple(b.shape):
            self.cands.append(
                dict(name=name, idx=None, kind="shape", pc=list(self.pc), leaf=None,
                     a=None, b=None, why="shape %s, expected %s" % (tuple(a.shape), tuple(b.shape)))
            )
            return None
        return getids(a), getids(b)

    def eq(self, name, a, b, deriv=False, allow_undef=True):
        """every element of a (code) equals the element of b (reference)"""
        p = self._pair(name, a, b)
        if p is None:
            return
        ia, ib = p
        a = _t(a)
        if isinstance(a, torch.Tensor) and a.dtype == torch.bool:
            for k, (x, y) in enumerate(zip(ia.reshape(-1).tolist(), ib.reshape(-1).tolist())):
                self._true(name, k, dag.mk_beq(x, y))
            return
        self.outputs.append((name, ia.clone()))
        for k, (x, y) in enumerate(zip(ia.reshape(-1).tolist(), ib.reshape(-1).tolist())):
            self.nobl += 1
            if x == y and dag.OPS[x] in ("c", "v"):
                nf.Stats.trivial += 1
                continue
            key = (x, y, deriv, tuple(self.pc))
            if key in self.seen:
                continue
            self.seen.add(key)
            q0 = nf.Stats.queries
            try:
                bad, cnt = nf.check_eq(self.pc, x, y, deriv, self.leaf, allow_undef)
                self.nskip += cnt[1]
            except nf.Budget as e:
                self.cands.append(dict(name=name, idx=k, kind="eq", pc=list(self.pc), leaf=None, a=x, b=y, why="budget: %s" % e, unk=True))
                continue
            if not bad and nf.Stats.queries == q0:
                if nf.smt_confirm(self.pc, x, y) == "sat-exact":
                    self.cands.append(dict(name=name, idx=k, kind="eq", pc=list(self.pc), leaf=None, a=x, b=y,
                                           why="the solver disagrees with the normal form", unk=True))
            for r in bad:
                self.cands.append(
                    dict(name=name, idx=k, kind="eq", pc=list(self.pc), leaf=r.leaf, a=x, b=y, why=r.why, d=r.model, unk=r.status == "unknown")
                )

    def same(self, name, a, b):
        """bit identical values (undefined ones included)"""
        p = self._pair(name, a, b)
        if p is None:
            return
        if bool((p[0] == p[1]).all()):
            self.nobl += p[0].numel()
            nf.Stats.trivial += p[0].numel()
            return
        self.eq(name, a, b, allow_undef=False)

    def _true(self, name, k, n):
        self.nobl += 1
        try:
            bad, cnt = nf.check_true(self.pc, n, self.leaf)
        except nf.Budget as e:
            self.cands.append(dict(name=name, idx=k, kind="true", pc=list(self.pc), leaf=None, a=n, b=None, why="budget: %s" % e, unk=True))
            return
        for r in bad:
            self.cands.append(
                dict(name=name, idx=k, kind="true", pc=list(self.pc), leaf=r.leaf, a=n, b=None, why=r.why, unk=r.status == "unknown")
            )

    def true(self, name, cond):
        if isinstance(cond, bool):
            self.nobl += 1
            if not cond:
                self.cands.append(dict(name=name, idx=None, kind="pyfalse", pc=list(self.pc), leaf=None, a=None, b=None, why="false"))
            return
        for k, n in enumerate(getids(cond).reshape(-1).tolist()):
            self._true(name, k, n)

    def le(self, name, a, b, slack=0.0):
        self.true(name, _t(a) <= _t(b))

    def defined(self, name, a):
        """no element is NaN / infinite"""
        for k, n in enumerate(getids(_t(a)).reshape(-1).tolist()):
            self.eqself(name, k, n)

    def eqself(self, name, k, n):
        self.nobl += 1
        bad = []

        def visit(leaf):
            try:
                leaf.real(n)
            except nf.Undef as u:
                if leaf.sat(ms=nf.GOAL_MS) != "unsat":
                    bad.append((leaf, u.kind))
                    return True
            return False

        nf.walk(self.pc, visit, base=self.leaf)
        for l, kind in bad:
            self.cands.append(dict(name=name, idx=k, kind="defined", pc=list(self.pc), leaf=l, a=n, b=None, why="undefined (%s)" % kind))

    # ---------------------------------------------------------- references
    def jac(self, f, x, batch=0):
        """derivative of f(x) with respect to x.  x: B + xs, f(x): B + os,
        result B + os + xs"""
        xi = getids(x)
        flat = xi.reshape(-1).tolist()
        new = []
        for k, n in enumerate(flat):
            self.njac += 1
            v = dag.var("~%d" % self.njac)
            self.alias[v] = n
            if dag.OPS[n] == "v":
                nf.DOMAIN[v] = nf.DOMAIN.get(n, (None, 0, None, 0))
            new.append(v)
        xp = SymT(torch.tensor(new, dtype=torch.int64).reshape(x.shape))
        out = f(xp)
        J = self.jac_of(out, xp, batch)
        memo = {}
        ids = [dag.substitute(n, self.alias, memo) for n in J.ids.reshape(-1).tolist()]
        return SymT(torch.tensor(ids, dtype=torch.int64).reshape(J.shape))

    def unalias(self, n):
        return dag.substitute(n, self.alias) if self.alias else n

    def jac_of(self, out, x, batch=0):
        oi, xi = getids(out), getids(x)
        bs = oi.shape[:batch]
        os_, xs = oi.shape[batch:], xi.shape[batch:]
        res = torch.zeros(tuple(bs) + tuple(os_) + tuple(xs), dtype=torch.int64)
        import itertools

        for b in itertools.product(*[range(s) for s in bs]):
            for o in itertools.product(*[range(s) for s in os_]):
                for k in itertools.product(*[range(s) for s in xs]):
                    res[b + o + k] = dag.diff(int(oi[b + o]), int(xi[b + k]))
        return SymT(res)

    @contextlib.contextmanager
    def quiet(self):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield


class ConCtx(BaseCtx):
    sym = False

    def __init__(self, env, rtol=1e-6, atol=1e-9):
        self.env = env
        self.salt = env.get("__salt__", "")
        self.fails = []
        self.outputs = []
        self.rtol, self.atol = rtol, atol
        self.ncheck = 0

    def real(self, name, shape=(), lo=None, hi=None, los=False, his=False, grad=False):
        n = 1
        for s in shape:
            n *= s
        vals = []
        for i in range(n):
            nm = "%s[%d]" % (name, i) if shape != () else name
            vals.append(float(self.env.get(nm, default_value(nm + self.salt, lo, hi))))
        t = torch.tensor(vals, dtype=torch.float64).reshape(shape)
        if grad:
            t.requires_grad_(True)
        return t

    def pos(self, name, shape=(), hi=None, grad=False):
        return self.real(name, shape, lo=0, los=True, hi=hi, grad=grad)

    def param(self, name, shape=(), **k):
        return torch.nn.Parameter(self.real(name, shape, **k))

    def unsupported(self, msg):
        raise Invalid()

    def assume(self, cond):
        if isinstance(cond, bool):
            ok = cond
        else:
            ok = bool(torch.all(cond))
        if not ok:
            raise Invalid()

    def eq(self, name, a, b, deriv=False, allow_undef=True):
        a, b = _t(a).detach(), _t(b).detach()
        self.ncheck += 1
        if tuple(a.shape) != tuple(b.shape):
            self.fails.append((name, None, str(tuple(a.shape)), str(tuple(b.shape)), "shape"))
            return
        if a.dtype == torch.bool:
            for k, (x, y) in enumerate(zip(a.reshape(-1).tolist(), b.reshape(-1).tolist())):
                if bool(x) != bool(y):
                    self.fails.append((name, k, x, y, "bool"))
            return
        a, b = a.to(torch.float64), b.to(torch.float64)
        self.outputs.append((name, a.clone()))
        fb = b[torch.isfinite(b)]
        sc = float(fb.abs().max()) if fb.numel() else 0.0
        rt = 2e-4 if deriv else self.rtol
        for k, (x, y) in enumerate(zip(a.reshape(-1).tolist(), b.reshape(-1).tolist())):
            if not math.isfinite(y):
                if not allow_undef and math.isfinite(x):
                    self.fails.append((name, k, x, y, "undef"))
                continue
            if not math.isfinite(x) or abs(x - y) > rt * (abs(x) + abs(y)) + (
                1e-6 if deriv else 1e-8
            ) * sc + (1e-6 if deriv else self.atol):
                self.fails.append((name, k, x, y, "value"))

    def same(self, name, a, b):
        a, b = _t(a).detach(), _t(b).detach()
        self.ncheck += 1
        if tuple(a.shape) != tuple(b.shape):
            self.fails.append((name, None, str(tuple(a.shape)), str(tuple(b.shape)), "shape"))
        elif not torch.allclose(a, b, rtol=self.rtol, atol=self.atol, equal_nan=True):
            self.fails.append((name, None, a.tolist(), b.tolist(), "value"))

    def true(self, name, cond):
        self.ncheck += 1
        if isinstance(cond, bool):
            if not cond:
                self.fails.append((name, None, False, True, "bool"))
            return
        for k, x in enumerate(cond.reshape(-1).tolist()):
            if not x:
                self.fails.append((name, k, False, True, "bool"))

    def le(self, name, a, b, slack=1e-8):
        a, b = _t(a).detach(), _t(b).detach()
        self.true(name, a <= b + slack * (1 + b.abs()))

    def defined(self, name, a):
        self.true(name, torch.isfinite(_t(a).detach()))

    def clear_fail(self, tol=1e-2, name=None):
        """the first failure which is certainly not round-off"""
        for x in sorted(self.fails, key=lambda x: x[0] != name):
            if x[4] != "value" or not isinstance(x[2], float):
                return x
            if not math.isfinite(x[2]) or abs(x[2] - x[3]) > tol * (abs(x[2]) + abs(x[3])) + 1e-3 * tol:
                return x
        return None

    def jac(self, f, x, batch=0):
        x0 = x.detach().clone()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f0 = f(x0).detach()
        xs = tuple(x0.shape[batch:])
        os_ = tuple(f0.shape[batch:])
        res = torch.zeros(tuple(f0.shape[:batch]) + os_ + xs)
        import itertools

        fm = f0.abs().reshape(f0.shape[:batch] + (-1,)).amax(-1) if f0.numel() else torch.zeros(f0.shape[:batch])
        for k in itertools.product(*[range(s) for s in xs]):
            sl = (slice(None),) * batch + k
            h = torch.zeros_like(x0)
            h[sl] = 1e-4 * torch.clamp(x0[sl].abs(), min=1e-2)
            hh = h[sl].reshape(tuple(h[sl].shape) + (1,) * len(os_))
            p2, p1, m1, m2 = (f(x0 + j * h).detach() for j in (2, 1, -1, -2))
            ph, mh = f(x0 + h / 2).detach(), f(x0 - h / 2).detach()
            d = (8 * (p1 - m1) - (p2 - m2)) / 12.0 / hh
            dh = (8 * (ph - mh) - (p1 - m1)) / 6.0 / hh
            # no reference where the differences are not accurate: round-off,
            # strong curvature, kinks
            sc = d.abs().amax() if d.numel() else 0.0
            err = (d - dh).abs() + 1e-15 * fm.reshape(fm.shape + (1,) * len(os_)) / hh
            bad = err > 5e-5 * d.abs() + 5e-7 * sc + 5e-7
            c1, ch = (p1 - 2 * f0 + m1).abs() / hh, (ph - 2 * f0 + mh).abs() / hh * 2
            bad |= (ch > 0.75 * c1) & (ch > 1e-3 * d.abs() + 1e-4 * sc + 1e-6)
            res[(slice(None),) * (batch + len(os_)) + k] = torch.where(bad, torch.full_like(d, math.nan), d)
        return res

    @contextlib.contextmanager
    def quiet(self):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield


def default_value(nm, lo, hi):
    r = random.Random(nm)
    a = 0.25 if lo is None else float(lo)
    b = a + 1.0 if hi is None else float(hi)
    return a + (b - a) * (0.2 + 0.6 * r.random())


# ------------------------------------------------------------------ driver
def run_concrete(fn, env, rtol=1e-6):
    ctx = ConCtx(env, rtol)
    err = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            torch.manual_seed(0)
            fn(ctx)
        except Invalid:
            # checks made before the assumption do not rely on it
            return (True if ctx.fails else None), ctx
        except Exception as e:  # the real code raised
            err = "%s: %s" % (type(e).__name__, e)
            ctx.trace = traceback.format_exc()
            ctx.fails.append(("exception", None, err, "no exception", "exception"))
    return (len(ctx.fails) > 0), ctx


def nice_value(rng, lo, hi, los, k):
    """random values on a coarse grid, inside the domain"""
    if lo is not None and hi is not None:
        lo, hi = float(lo), float(hi)
        v = lo + (hi - lo) * rng.randint(1, 31) / 32.0
    elif lo is not None:
        v = float(lo) + rng.randint(1, 48) / 16.0
    elif hi is not None:
        v = float(hi) - rng.randint(1, 48) / 16.0
    else:
        v = rng.randint(-40, 40) / 16.0 + 1.0 / 64
    return Fraction(v)


def env_candidates(ctx, cand, seed, tries=40, solver_tries=6):
    """yield float environments that should expose cand"""
    rng = random.Random(seed)
    decl = {nm: (v,) + tuple(nf.DOMAIN.get(v, (None, 0, None, 0))) for nm, v in ctx.decls.items()}
    pc = cand["pc"]
    a, b = cand.get("a"), cand.get("b")

    def good(env):
        memo = {}
        dag.evaluate(pc + [n for n in (a, b) if n is not None], env, memo)
        if not all(memo[c] for c in pc):
            return False
        if cand["kind"] == "eq":
            x, y = memo[a], memo[b]
            if y != y or abs(y) == math.inf:
                return False
            return not (abs(x - y) <= 1e-5 * (abs(x) + abs(y)) + 1e-7)
        if cand["kind"] == "true":
            return not memo[a]
        if cand["kind"] == "defined":
            return memo[a] != memo[a] or abs(memo[a]) == math.inf
        return True

    n = 0
    # bool vars are not used by harnesses; reals only
    for t in range(tries):
        env = {nm: float(nice_value(rng, d[1], d[3], d[2], t)) for nm, d in decl.items()}
        try:
            if good(env):
                yield env
                n += 1
                if n >= 4:
                    break
        except Exception:
            continue
    leaf = cand.get("leaf")
    if leaf is None:
        found = []

        def visit(l):
            if l.sat(ms=nf.GOAL_MS) != "unsat":
                found.append(l)
                return True
            return False

        try:
            nf.walk(pc, visit, maxleaves=300)
        except nf.Budget:
            pass
        if not found:
            return
        leaf = found[0]
    extra = []
    if cand["kind"] == "eq" and cand.get("d") is not None:
        extra = [(cand["d"].n, nf.NONZERO)]
    # a difference which stands out of round-off on the real code
    gap = None
    if extra:
        for K in (1, Fraction(1, 1000)):
            if leaf.sat(extra, ms=4000, gap=(cand["d"], K)) == "sat":
                gap = (cand["d"], K)
                break
    for t in range(solver_tries):
        pins = []
        order = list(decl.items())
        rng.shuffle(order)
        r, m = leaf.sat(extra, ms=4000, want_model=True, gap=gap)
        if m is None:
            break
        t0 = time.time()
        if t > 0 or True:
            for nm, d in order:
                if time.time() - t0 > 20:
                    break
                val = nice_value(rng, d[1], d[3], d[2], t)
                if nf.atom(("v", d[0])) is None:
                    continue
                r2, m2 = leaf.sat(extra, ms=800, want_model=True, pins=pins + [(d[0], val)], gap=gap)
                if r2 == "sat":
                    pins.append((d[0], val))
                    m = m2
        env = {}
        for nm, d in decl.items():
            if nm in m:
                env[nm] = float(m[nm])
            else:
                env[nm] = float(nice_value(rng, d[1], d[3], d[2], t))
        yield env


def pc_env(ctx, seed, pc=None, tries=60):
    """environments satisfying the path condition (for validation)"""
    cand = dict(kind="pc", pc=list(ctx.pc if pc is None else pc), a=None, b=None, leaf=None)
    for env in env_candidates(ctx, cand, seed, tries=tries, solver_tries=2):
        memo = {}
        dag.evaluate(cand["pc"], env, memo)
        if all(memo[c] for c in cand["pc"]):
            yield env


def run_case(fn, opts=None, seed=1, deadline=None, maxpaths=400):
    """explore one harness symbolically.  Returns a result dict."""
    opts = opts or {}
    symt.reset()
    nf.reset()
    for k in ("queries", "sat", "unsat", "unknown", "leaves", "trivial", "confirmed", "confirm_open"):
        setattr(nf.Stats, k, 0)
    nf.Stats.time = 0.0
    nf.Stats.confirm_time = 0.0
    nf.Stats.maxq = 0.0
    symt.OPCOUNT.clear()
    t0 = time.time()
    stack = [[]]
    res = dict(
        paths=0, aborted=0, obligations=0, skipped=0, violations=[], inconclusive=[],
        validated=0, reach=0, sample=None,
    )
    dag.GENERIC[0] = opts.get("generic", False)
    nf.CHECK_DEFINED[0] = opts.get("check_defined", True)
    nf.MAXLEAVES = opts.get("maxleaves", 4000)
    nf.GOAL_MS = opts.get("goal_ms", 20000)
    nvalid = opts.get("validate", 2)
    tracefiles = set()
    while stack:
        if res["paths"] + res["aborted"] >= maxpaths:
            res["inconclusive"].append("path budget exhausted")
            break
        if deadline and time.time() > deadline:
            res["inconclusive"].append("time budget exhausted")
            break
        prefix = stack.pop()
        ctx = SymCtx(prefix, opts)
        symt.CURRENT[0] = ctx
        symt.FRESH[0] = 0
        err = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with symt.SymMode():
                    torch.manual_seed(0)
                    fn(ctx)
        except PathAbort:
            stack.extend(ctx.alts)
            res["aborted"] += 1
            continue
        except (Unsupported, nf.Budget) as e:
            stack.extend(ctx.alts)
            res["inconclusive"].append("%s: %s" % (type(e).__name__, e))
            if opts.get("debug"):
                traceback.print_exc()
            res["paths"] += 1
            # the rest of this path has no encoding: the solver's witnesses of
            # its beginning still have to satisfy the property
            if len(res["violations"]) < 3:
                try:
                    for env in pc_env(ctx, seed + res["paths"]):
                        bad, cc = run_concrete(fn, env, rtol=1e-5)
                        if bad and cc.clear_fail():
                            res["violations"].append(witness(cc, env, "solver witness of the path fails on the real code", cc.clear_fail()))
                            break
                except (Unsupported, nf.Budget):
                    pass
            continue
        except MemoryError:
            raise
        except Exception as e:
            # the real code (or the harness) raised on this path
            if opts.get("debug"):
                traceback.print_exc()
            err = "%s: %s" % (type(e).__name__, e)
            tb = traceback.format_exc()
            ctx.cands.append(dict(name="exception", idx=None, kind="exception", pc=list(ctx.pc), leaf=None, a=None, b=None, why=err, tb=tb))
        finally:
            symt.CURRENT[0] = None
        stack.extend(ctx.alts)
        res["paths"] += 1
        res["obligations"] += ctx.nobl
        res["skipped"] += ctx.nskip
        # ---- candidates -> replay on the real code
        done = set()
        for c in ctx.cands:
            if (c["name"],) in done:
                continue
            ok = False
            for env in env_candidates(ctx, c, seed):
                bad, cc = run_concrete(fn, env)
                f = cc.clear_fail(1e-4, c["name"]) if bad else None
                if f is not None:
                    res["violations"].append(witness(cc, env, c["why"], f))
                    ok = True
                    done.add((c["name"],))
                    break
            if not ok:
                res["inconclusive"].append(
                    "%s[%s]: %s (not reproduced on the real code)" % (c["name"], c["idx"], c["why"])
                )
                done.add((c["name"],))
                if opts.get("debug"):
                    print(c.get("tb", ""))
            if len(res["violations"]) >= 3:
                break
        # ---- reachability + validation of the encoding
        if res["validated"] < nvalid and not ctx.cands and not opts.get("novalidate"):
            tried = 0
            okv = None
            seen = []
            for env in pc_env(ctx, seed + res["paths"]):
                bad, cc = run_concrete(fn, env, rtol=1e-5)
                if bad is None:
                    continue
                tried += 1
                msg = compare_outputs(ctx, cc, env)
                if not bad and not msg:
                    okv = True
                    break
                f = cc.clear_fail() if bad else None
                if f is not None and f[4] != "value":
                    # the real code fails where the encoding does not show it
                    res["violations"].append(witness(cc, env, "solver witness of the path fails on the real code", f))
                    okv = None
                    break
                if f is not None and msg:
                    # the real code computes something else than the encoding,
                    # and what it computes violates the property
                    seen.append((cc, env, f))
                    if len(seen) >= 2:
                        res["violations"].append(witness(cc, env, "solver witnesses of the path fail on the real code", f))
                        okv = None
                        break
                # a proven equality whose two sides agree with the encoding can
                # only fail here through round-off: try the next witness
                okv = msg or "replayed value %s" % (cc.fails[0],)
                if opts.get("debug"):
                    print("VALDBG", okv, env)
                if tried >= 4:
                    break
            if okv is True:
                res["validated"] += 1
                res["reach"] += 1
                if res["sample"] is None:
                    res["sample"] = {k: env[k] for k in list(env)[:12]}
            elif okv is not None:
                res["inconclusive"].append("encoding validation: %s" % okv)
        if len(res["violations"]) >= 3:
            break
    if res["obligations"] == 0 and not res["inconclusive"] and not res["violations"]:
        res["inconclusive"].append("vacuous: no obligation reached")
    if res["reach"] == 0 and not res["inconclusive"] and not res["violations"] and not opts.get("novalidate"):
        res["inconclusive"].append("vacuous: no concrete witness reaches the obligations")
    res["stats"] = nf.Stats.dump()
    res["ops"] = dict(symt.OPCOUNT)
    res["wall"] = time.time() - t0
    res["nodes"] = len(dag.OPS)
    return res


def witness(cc, env, why, f=None):
    f = f or cc.fails[0]
    return dict(check=f[0], index=f[1], got=str(f[2])[:300], expected=str(f[3])[:300], why=why, env=env)


def compare_outputs(ctx, cc, env):
    if len(ctx.outputs) != len(cc.outputs):
        return "different number of outputs on the replayed path (%d vs %d)" % (len(ctx.outputs), len(cc.outputs))
    memo = {}
    for (n1, ids), (n2, val) in zip(ctx.outputs, cc.outputs):
        if n1 != n2 or tuple(ids.shape) != tuple(val.shape):
            return "output %s/%s shape mismatch" % (n1, n2)
        l = ids.reshape(-1).tolist()
        dag.evaluate(l, env, memo)
        sc = max([abs(memo[i]) for i in l if math.isfinite(memo[i])] + [0.0])
        for i, v in zip(l, val.reshape(-1).tolist()):
            e = memo[i]
            if not math.isfinite(e) or not math.isfinite(v):
                if math.isfinite(e) != math.isfinite(v):
                    return "output %s: encoded %s real %s" % (n1, e, v)
                continue
            if abs(e - v) > 1e-5 * (abs(e) + abs(v)) + 1e-7 * sc + 1e-9:
                return "output %s: encoded %s real %s" % (n1, e, v)
    return None
