"""C08 Newton contract, C09 linear solvers"""
import warnings

import torch

from .common import add

NAN, INF = float("nan"), float("inf")


class Script:
    """a residual function whose value at the k-th evaluation is an arbitrary
    (symbolic) vector and whose Jacobian is an arbitrary diagonal: stands for
    every function along every iteration history"""

    def __init__(self, ctx, nb, n, special=None, jconst=False):
        self.ctx, self.nb, self.n, self.special, self.jconst = ctx, nb, n, special or {}, jconst
        self.x, self.R, self.J = [], [], []

    def __call__(self, x):
        k = len(self.R)
        R = self.ctx.real("R%d" % k, (self.nb, self.n)).clone()
        for b, v in self.special.get(k, {}).items():
            R[b, 0] = v
        J = torch.diag_embed(2.0 + torch.zeros(self.nb, self.n) if self.jconst else self.ctx.real("J%d" % k, (self.nb, self.n), lo=1, hi=3))
        self.x.append(x.clone())
        self.R.append(R)
        self.J.append(J)
        return R.clone(), J.clone()


class Diag:
    """stands for the linear solver context of the chunked solver"""

    def solve(self, J, R):
        return R / torch.diagonal(J, dim1=-2, dim2=-1)


def run(which, f, x0, rtol, atol, miter, throw):
    from pyoptmat import solvers, chunktime

    msgs, raised = [], False
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            if which == "reuse":
                old = solvers.gmres
                # any iteration count the linear solver may report
                solvers.gmres = lambda A, b, **k: (Diag().solve(A, b), len(f.R) % 3)
                try:
                    s = solvers.PreconditionerReuseNonlinearSolver()
                    x, J = s.solve(f, x0, rtol=rtol, atol=atol, miter=miter)
                finally:
                    solvers.gmres = old
            elif which == "chunk":
                x = chunktime.newton_raphson_chunk(f, x0, Diag(), rtol=rtol, atol=atol, miter=miter, throw_on_fail=throw)
                J = None
            elif which == "bt":
                x, J = solvers.newton_raphson_bt(f, x0, linsolver="diag", rtol=rtol, atol=atol, miter=miter, max_bt=0)
            else:
                x, J = solvers.newton_raphson(f, x0, linsolver="diag", rtol=rtol, atol=atol, miter=miter)
        except RuntimeError as e:
            if "did not succeed" not in str(e):
                raise
            raised, x, J = True, None, None
    msgs = [str(m.message) for m in w if "did not succeed" in str(m.message)]
    return x, J, bool(msgs), raised


def contract_case(which, nb, n, miter, rtol=0.25, atol=0.125, throw=False, special=None, jconst=False):
    def fn(ctx):
        f = Script(ctx, nb, n, special, jconst)
        x0 = ctx.real("x0", (nb, n))
        x, J, warned, raised = run(which, f, x0.clone(), rtol, atol, miter, throw)
        nR = torch.sqrt((f.R[-1] ** 2).sum(-1)) if n > 1 else f.R[-1][:, 0].abs()
        n0 = torch.sqrt((f.R[0] ** 2).sum(-1)) if n > 1 else f.R[0][:, 0].abs()
        if not throw:
            ctx.true("no exception unless asked for", not raised)
        if raised:
            ctx.true("an exception only on request", throw)
            return
        if throw:
            ctx.true("a failed solve raises instead of warning", not warned)
        ctx.same("the returned point is the last one evaluated", x, f.x[-1])
        if J is not None:
            ctx.same("the returned Jacobian belongs to the returned point", J, f.J[-1])
        ctx.same("the first point evaluated is the guess", f.x[0], x0)
        if which != "bt":
            ctx.true("the iteration limit is respected", len(f.R) <= miter + 1)
        if which != "bt" or nb == 1:
            ctx.true("a converged starting point is not changed", True if len(f.R) == 1 else (n0 > atol).any())
        if not warned:
            ctx.true("a silently returned point meets the absolute or the relative tolerance", (nR <= atol) | (nR <= rtol * n0))

    return fn


def newton_case(which, nb, n, mode="lu"):
    """exact on linear systems"""

    def fn(ctx):
        from pyoptmat import solvers

        A = ctx.real("A", (nb, n, n)) if (n == 1 or mode == "diag") else None
        if A is None:
            k = torch.arange(nb * n * n, dtype=torch.float64).reshape(nb, n, n)
            A = ((k * 5 + 1) % 7 - 3) / 4 + 2 * torch.eye(n)
        if mode == "diag":
            A = torch.diag_embed(torch.diagonal(A, dim1=-2, dim2=-1))
        if n == 1 or mode == "diag":
            d = torch.diagonal(A, dim1=-2, dim2=-1)
            ctx.assume((d > 0.125) | (d < -0.125))
        b, x0 = ctx.real("b", (nb, n)), ctx.real("x0", (nb, n))

        def f(x):
            return (A * x[:, None, :]).sum(-1) - b, A.clone()

        s = {"bt": solvers.newton_raphson_bt, "plain": solvers.newton_raphson}[which]
        with ctx.quiet():
            x, J = s(f, x0, linsolver="diag" if mode == "diag" else "lu", rtol=-1.0, atol=-1.0, miter=1)
        ctx.eq("one Newton step solves a linear system", (A * x[:, None, :]).sum(-1), b)
        ctx.eq("Jacobian", J, A)

    return fn


def bt_case(nb, n):
    def fn(ctx):
        from pyoptmat import solvers

        k = torch.arange(nb * n * n, dtype=torch.float64).reshape(nb, n, n)
        A = ((k * 5 + 1) % 7 - 3) / 4 + 2 * torch.eye(n)
        b = ctx.real("b", (nb, n), lo=1, hi=9)
        with ctx.quiet():
            x, J = solvers.newton_raphson_bt(lambda x: ((A * x[:, None, :]).sum(-1) - b, A.clone()), torch.zeros(nb, n), rtol=2.0**-20, atol=2.0**-20, miter=3)
        ctx.eq("Newton with line search solves a linear system", (A * x[:, None, :]).sum(-1), b)

    return fn


def square_case(nb):
    """Newton step for x^2 - a: reference formula"""

    def fn(ctx):
        from pyoptmat import solvers

        a, x0 = ctx.real("a", (nb, 1), lo=1, hi=4), ctx.real("x0", (nb, 1), lo=1, hi=3)
        with ctx.quiet():
            x, J = solvers.newton_raphson(lambda x: (x**2 - a, 2 * x[..., None]), x0.clone(), rtol=-1.0, atol=-1.0, miter=2)
        x1 = x0 - (x0**2 - a) / (2 * x0)
        x2 = x1 - (x1**2 - a) / (2 * x1)
        ctx.eq("two Newton steps", x, x2)
        ctx.eq("Jacobian at the returned point", J[..., 0], 2 * x2)

    return fn


for which in ("chunk", "plain", "bt", "reuse"):
    for nb in (1, 2):
        for miter in (0, 1, 2):
            if which == "bt" and nb == 2 and miter == 2:
                continue
            add("C08", "%s/contract/nb%d/miter%d" % (which, nb, miter), contract_case(which, nb, 1, miter, jconst=nb * miter > 1 or which == "bt"), cost=miter)
    add("C08", "%s/contract/nb1/n2/miter1" % which, contract_case(which, 1, 2, 1, jconst=True))
    add("C08", "%s/contract/nb3/miter1" % which, contract_case(which, 3, 1, 1, jconst=True), cost=2)
    add("C08", "%s/contract/tight relative" % which, contract_case(which, 2 if which != "bt" else 1, 1, 1, rtol=2.0**-20, atol=2.0**-27, jconst=True))
    for nm, sp in [
        ("nan from the start", {0: {0: NAN}}),
        ("nan after one step", {1: {0: NAN}}),
        ("nan in the second entry", {1: {1: NAN}}),
        ("infinite from the start", {0: {0: INF}}),
        ("infinite after one step", {1: {0: INF}}),
    ]:
        for nb in (1, 2):
            if any(max(d) >= nb for d in sp.values()) or (which == "bt" and nb == 2):
                continue
            add("C08", "%s/%s/nb%d" % (which, nm, nb), contract_case(which, nb, 1, 2, special=dict(list(sp.items()) + [(j, sp[max(sp)]) for j in range(max(sp) + 1, 14)]), jconst=True), cost=3)
for miter in (0, 1, 2):
    add("C08", "chunk/throw/nb2/miter%d" % miter, contract_case("chunk", 2, 1, miter, throw=True, jconst=True))
add("C08", "chunk/throw/nan", contract_case("chunk", 2, 1, 2, throw=True, special={k: {0: NAN} for k in range(1, 6)}, jconst=True))
add("C08", "plain/linear/n1", newton_case("plain", 2, 1), generic=True)
add("C08", "plain/linear/n2", newton_case("plain", 1, 2), generic=True)
add("C08", "plain/linear/n3", newton_case("plain", 2, 3, "num"), generic=True)
add("C08", "plain/linear/diag", newton_case("plain", 2, 2, "diag"), generic=True)
add("C08", "bt/linear/n1", bt_case(1, 1))
add("C08", "bt/linear/n2", bt_case(1, 2))
add("C08", "plain/quadratic", square_case(1), generic=True)


# ------------------------------------------------------------------ C09
def num(shape, a=5, m=7, d=4.0, diag=2.0):
    n = 1
    for s in shape:
        n *= s
    k = torch.arange(n, dtype=torch.float64).reshape(shape)
    A = ((k * a + 1) % m - m // 2) / d
    return A + diag * torch.eye(shape[-1]) if diag else A


def matrix(ctx, nb, n, symbolic):
    if not symbolic:
        return num((nb, n, n))
    A = ctx.real("A", (nb, n, n), lo=-2, hi=2)
    if n == 1:
        ctx.assume((A[:, 0, 0] > 0.125) | (A[:, 0, 0] < -0.125))
    else:
        ctx.assume(A[:, 0, 0] * A[:, 1, 1] - A[:, 0, 1] * A[:, 1, 0] > 0.125)
    return A


def mv(A, x):
    return (A * x[:, None, :]).sum(-1)


def direct_case(what, nb, n, symbolic):
    def fn(ctx):
        from pyoptmat import solvers

        A, b = matrix(ctx, nb, n, symbolic), ctx.real("b", (nb, n))
        if what in ("jacobi", "jacobi preconditioner"):
            d = torch.diagonal(A, dim1=-2, dim2=-1)
            if symbolic:
                ctx.assume((d > 0.125) | (d < -0.125))
        A0, b0 = A.clone(), b.clone()
        if what == "lu":
            x = solvers.lu_linear_solve(A, b)
        elif what == "jacobi":
            x = solvers.jacobi_iteration_linear_solve(A, b)
        elif what == "lu preconditioner":
            x = solvers.LUPreconitionerOperator(A).dot(b)
        elif what == "jacobi preconditioner":
            x = solvers.JacobiPreconitionerOperator(A).dot(b)
        elif what == "none":
            x = solvers.NoOp().dot(b)
        if what == "none":
            ctx.eq("identity operator", x, b0)
        elif what.startswith("jacobi"):
            ctx.eq("diag(A) x = b", torch.diagonal(A0, dim1=-2, dim2=-1) * x, b0)
        else:
            ctx.eq("A x = b", mv(A0, x), b0)
        ctx.eq("operands untouched: matrix", A, A0)
        ctx.eq("operands untouched: right hand side", b, b0)

    return fn


def gmres_case(kind, nb, n, symbolic, guess, check=1, maxiter=None):
    """eps = 0, tolerance 0: the last Krylov space is the whole space, the
    answer is exact"""

    def fn(ctx):
        from pyoptmat import solvers

        A = matrix(ctx, nb, n, symbolic)
        b = ctx.real("b", (nb, n), lo=1, hi=5)
        x0 = None if not guess else ctx.real("x0", (nb, n), lo=-1, hi=1)
        r = b if x0 is None else b - mv(A, x0)
        if guess:
            ctx.assume(r[:, 0] > 0.125)
        if n == 2 and kind != "lu":
            # the Krylov space does not break down before it is complete
            z = mv(A, r if kind == "plain" else r / torch.diagonal(A, dim1=-2, dim2=-1))
            d = r[:, 0] * z[:, 1] - r[:, 1] * z[:, 0]
            ctx.assume((d > 0.125) | (d < -0.125))
        k = dict(tol=0.0, maxiter=maxiter or (2 if kind == "lu" else n + 1), eps=0.0)
        if x0 is not None:
            k["x0"] = x0.clone()
        if kind == "plain":
            x = solvers.gmres(A, b, check=check, **k)
        elif kind == "jacobi":
            x = solvers.jacobi_gmres(A, b, check=check, **k)
        elif kind == "lu":
            x = solvers.lu_gmres(A, b, **k)
        ctx.eq("A x = b", mv(A, x), b)

    return fn


def gmres_contract(nb, n, tol):
    """whatever the iteration does, a result returned before the iteration
    limit meets the tolerance"""

    def fn(ctx):
        from pyoptmat import solvers

        A = num((nb, n, n))
        b = ctx.real("b", (nb, n), lo=-4, hi=4)
        x, k = solvers.gmres(A, b, tol=tol, maxiter=n + 2, check=1, return_iters=True)
        r = b - mv(A, x)
        ctx.true("no more iterations than unknowns", k <= n)
        if k < n + 1:
            ctx.true("a result returned early meets the tolerance", (r * r).sum(-1) <= tol * tol)

    return fn


for what in ("lu", "jacobi", "lu preconditioner", "jacobi preconditioner", "none"):
    for nb, n, s in [(1, 1, True), (2, 1, True), (1, 2, True), (2, 2, True), (2, 3, False), (3, 4, False)]:
        add("C09", "%s/nb%d/n%d%s" % (what, nb, n, "/symbolic" if s else ""), direct_case(what, nb, n, s))
for kind in ("plain", "jacobi", "lu"):
    for guess in (False, True):
        add("C09", "gmres %s/nb1/n1%s" % (kind, "/guess" if guess else ""), gmres_case(kind, 1, 1, True, guess))
        add("C09", "gmres %s/nb2/n1%s" % (kind, "/guess" if guess else ""), gmres_case(kind, 2, 1, True, guess))
        add("C09", "gmres %s/nb1/n2%s" % (kind, "/guess" if guess else ""), gmres_case(kind, 1, 2, False, guess))
        add("C09", "gmres %s/nb2/n2%s" % (kind, "/guess" if guess else ""), gmres_case(kind, 2, 2, False, guess))


def gmres_zero(kind, nb, n, zero):
    """entries whose right hand side is zero do not disturb the others"""

    def fn(ctx):
        from pyoptmat import solvers

        A = num((nb, n, n))
        b = ctx.real("b", (nb, n), lo=1, hi=5).clone()
        b[zero] = 0.0
        f = {"plain": solvers.gmres, "jacobi": solvers.jacobi_gmres}.get(kind, solvers.lu_gmres)
        k = {} if kind == "lu" else dict(check=1)
        x = f(A, b, tol=0.0, maxiter=2, eps=2.0**-50, **k)
        ctx.le("A x close to b", (mv(A, x) - b).abs(), torch.full((nb, n), 2.0**-20))

    return fn


for kind in ("plain", "jacobi", "lu"):
    for z in (0, 1):
        add("C09", "gmres %s/zero right hand side in entry %d" % (kind, z), gmres_zero(kind, 2, 1, z))
add("C09", "gmres contract/nb1/n1", gmres_contract(1, 1, 2.0**-10))
add("C09", "gmres contract/nb2/n1", gmres_contract(2, 1, 2.0**-10))


def reuse_case(nb):
    def fn(ctx):
        from pyoptmat import solvers

        A = num((nb, 1, 1))
        b, x0 = ctx.real("b", (nb, 1), lo=4, hi=9), ctx.real("x0", (nb, 1), lo=-1, hi=1)
        s = solvers.PreconditionerReuseNonlinearSolver()
        with ctx.quiet():
            x, J = s.solve(lambda x: (mv(A, x) - b, A.clone()), x0.clone(), rtol=-1.0, atol=-1.0, miter=1, ltol=2.0**-30)
        ctx.le("solves a linear system", (mv(A, x) - b).abs(), torch.full((nb, 1), 2.0**-20))
        ctx.eq("Jacobian", J, A)

    return fn


add("C09", "preconditioner reuse/nb1", reuse_case(1), generic=True)
add("C09", "preconditioner reuse/nb2", reuse_case(2), generic=True)
