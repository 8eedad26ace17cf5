"""C05 bidiagonal solves, C06 operators and conversions, C07 repeatability"""
import itertools

import torch

from .common import add, rest, elsewhere

# generic rational blocks: well conditioned, no symmetry
def fixed_blocks(n, bat, k, shift):
    j = torch.arange(n * bat * k * k, dtype=torch.float64).reshape(n, bat, k, k)
    f = ((j * 7 + shift) % 11 - 5) / 8
    return f


def blocks(ctx, nblk, bat, k, mode):
    """mode 's' fully symbolic, 'v' fixed generic blocks (only the right hand
    side symbolic), 'b' fixed diagonal blocks and symbolic off diagonals in the
    first batch entry"""
    if mode == "s":
        A = ctx.real("A", (nblk, bat, k, k))
        B = ctx.real("B", (nblk - 1, bat, k, k))
        if k == 1:
            ctx.assume(torch.abs(A) > 1.0 / 16)
        elif k == 2:
            ctx.assume(torch.abs(A[..., 0, 0] * A[..., 1, 1] - A[..., 0, 1] * A[..., 1, 0]) > 1.0 / 16)
            ctx.assume(torch.abs(A[..., 0, 0]) > 1.0 / 16)
    else:
        A = fixed_blocks(nblk, bat, k, 3) + 4 * torch.eye(k)
        B = fixed_blocks(nblk - 1, bat, k, 1)
        if mode == "b":
            w = ctx.real("B", (nblk - 1,))
            B = B.clone()
            B[:, 0, 0, 0] = w
    v = ctx.real("v", (bat, nblk * k))
    return A, B, v


def apply(A, B, x):
    """dense reference product"""
    n, bat, k = A.shape[0], A.shape[1], A.shape[2]
    xs = x.reshape(bat, n, k)
    out = []
    for i in range(n):
        r = (A[i] * xs[:, i, None, :]).sum(-1)
        if i:
            r = r + (B[i - 1] * xs[:, i - 1, None, :]).sum(-1)
        out.append(r)
    return torch.stack(out, 1).reshape(bat, n * k)


def methods(ms=None):
    from pyoptmat import chunktime as c

    m = {"thomas": c.BidiagonalThomasFactorization, "pcr": c.BidiagonalPCRFactorization}
    for s in (0, 1, 2, 3, 4, 5, 8, 9):
        m["hybrid%d" % s] = lambda A, B, s=s: c.BidiagonalHybridFactorization(A, B, min_size=s)
    return m


def solve_case(meth, nblk, bat, k, mode):
    def fn(ctx):
        from pyoptmat import chunktime as c

        A, B, v = blocks(ctx, nblk, bat, k, mode)
        v0 = v.clone()
        op = c.BidiagonalForwardOperator(A.clone(), B.clone(), inverse_operator=methods()[meth])
        x = op.inverse()(v)
        ctx.true("solution shape", tuple(x.shape) == (bat, nblk * k))
        ctx.eq("the solution satisfies the system", apply(A, B, x), v0)

    return fn


for meth in ("thomas", "pcr", "hybrid0", "hybrid1", "hybrid2", "hybrid4"):
    for nblk in (1, 2, 3, 4, 5):
        if meth.startswith("hybrid") and nblk in (1, 4):
            continue
        add("C05", "%s/nblk%d/sblk1" % (meth, nblk), solve_case(meth, nblk, 1, 1, "s"), cost=nblk)
    add("C05", "%s/nblk2/sblk2" % meth, solve_case(meth, 2, 1, 2, "s"), cost=3)
    add("C05", "%s/nblk3/sblk2/bat2/off diagonal" % meth, solve_case(meth, 3, 2, 2, "b"), cost=3)
    for nblk in (4, 6, 7, 8, 9, 11, 12):
        add("C05", "%s/nblk%d/sblk2/bat2/rhs" % (meth, nblk), solve_case(meth, nblk, 2, 2, "v"), cost=2)
for meth in ("hybrid3", "hybrid5", "hybrid8", "hybrid9"):
    for nblk in (5, 7, 8, 9, 13):
        add("C05", "%s/nblk%d/sblk1/bat2/rhs" % (meth, nblk), solve_case(meth, nblk, 2, 1, "v"))
for meth in ("thomas", "pcr", "hybrid3"):
    for nblk in range(10, 67):
        add("C05", "%s/nblk%d/sblk1/rhs" % (meth, nblk), solve_case(meth, nblk, 1, 1, "v"), tier="quick" if nblk < 34 else "thorough")
    for nblk in (6, 7, 8):
        add("C05", "%s/nblk%d/sblk1" % (meth, nblk), solve_case(meth, nblk, 1, 1, "s"), tier="thorough", cost=9)


def layout_case(meth, nblk, bat, k, perm):
    """the right hand side is stored in another order than its dimensions"""

    def fn(ctx):
        A, B, v = blocks(ctx, nblk, bat, k, "v")
        v0 = v.clone()
        rhs = v.reshape(bat, nblk, k, 1).transpose(0, 1)
        back = [perm.index(i) for i in range(4)]
        x = methods()[meth](A.clone(), B.clone()).matvec(rhs.permute(perm).contiguous().permute(back))
        ctx.true("solution shape", tuple(x.shape) == (nblk, bat, k, 1))
        ctx.eq("the solution satisfies the system", apply(A, B, x.transpose(0, 1).reshape(bat, nblk * k)), v0)

    return fn


for j, perm in enumerate([(1, 0, 2, 3), (2, 1, 0, 3), (1, 2, 0, 3), (0, 2, 1, 3)]):
    for meth in ("thomas", "pcr", "hybrid1", "hybrid2"):
        for nblk in (4, 5, 8):
            add("C05", "%s/nblk%d/right hand side stored in order %s" % (meth, nblk, "".join(map(str, perm))), layout_case(meth, nblk, 2, 2, perm))


# ------------------------------------------------------------- C06 operators
def dense_ref(A, B):
    n, bat, k = A.shape[0], A.shape[1], A.shape[2]
    D = torch.zeros(bat, n * k, n * k)
    for i in range(n):
        D[:, i * k:(i + 1) * k, i * k:(i + 1) * k] = A[i]
        if i:
            D[:, i * k:(i + 1) * k, (i - 1) * k:i * k] = B[i - 1]
    return D


def op_case(nblk, bat, k, perm=None):
    def fn(ctx):
        from pyoptmat import chunktime as c

        A = ctx.real("A", (nblk, bat, k, k))
        B = ctx.real("B", (nblk - 1, bat, k, k))
        v = ctx.real("v", (bat, nblk * k))
        v0 = v.clone()
        if perm:
            A, B, v = A.permute(perm).contiguous().permute([perm.index(i) for i in range(4)]), B.mT.contiguous().mT, v.T.contiguous().T
        op = c.BidiagonalForwardOperator(A, B)
        ctx.true("shape", tuple(op.shape) == (bat, nblk * k, nblk * k) and op.n == nblk * k)
        op(elsewhere(v, 1))
        ctx.eq("operator product", op(v), apply(A, B, v0))
        D = dense_ref(A, B)
        ctx.eq("product with the dense matrix", (D * v0[:, None, :]).sum(-1), op(v))
        if nblk > 1:
            ctx.eq("dense conversion", op.to_diag().to_dense(), D)
        ctx.eq("operands untouched", v, v0)

    return fn


for nblk, bat, k in [(1, 1, 1), (1, 2, 2), (2, 1, 2), (2, 2, 2), (3, 2, 1), (4, 2, 2), (5, 1, 3), (7, 2, 1)]:
    add("C06", "operator/nblk%d/bat%d/sblk%d" % (nblk, bat, k), op_case(nblk, bat, k))
for perm in ((1, 0, 2, 3), (3, 2, 1, 0), (0, 1, 3, 2), (2, 0, 3, 1)):
    add("C06", "operator/stored in order %s" % "".join(map(str, perm)), op_case(3, 2, 2, perm))


def diag_case(nblk, diags, bat, k):
    def fn(ctx):
        from pyoptmat import chunktime as c

        data = [ctx.real("d%d" % i, (nblk - abs(d), bat, k, k)) for i, d in enumerate(diags)]
        M = c.SquareBatchedBlockDiagonalMatrix(data, list(diags))
        n = nblk * k
        D = torch.zeros(bat, n, n)
        for d, x in zip(diags, data):
            for q in range(nblk - abs(d)):
                i, j = (q - d, q) if d < 0 else (q, q + d)
                D[:, i * k:(i + 1) * k, j * k:(j + 1) * k] = x[q]
        ctx.true("size", M.n == n and tuple(M.shape) == (bat, n, n) and M.nblk == nblk and M.sbat == bat and M.sblk == k)
        ctx.true("number of non-zeros", M.nnz == sum(nblk - abs(d) for d in diags) * k * k)
        ctx.eq("dense", M.to_dense(), D)
        ctx.eq("COO", M.to_batched_coo().to_dense(), D.permute(1, 2, 0))
        csr = M.to_unrolled_csr()
        ctx.true("one CSR matrix per batch entry", len(csr) == bat)
        for i, x in enumerate(csr):
            ctx.eq("CSR of batch entry", x.to_dense(), D[i])

    return fn


for nblk, diags, bat, k in [
    (1, (0,), 2, 2), (2, (0, -1), 2, 2), (3, (0, -1), 1, 2), (3, (-1, 0, 1), 2, 2), (3, (1, 0, -1), 2, 1),
    (3, (2, -2, 0), 2, 1), (3, (-2, 1), 1, 2), (3, (1,), 2, 1), (3, (-1,), 2, 1), (3, (2,), 1, 1), (4, (3, 0, -3, 1), 1, 1),
    (4, (0, -2), 2, 2), (2, (1, -1, 0), 1, 3),
]:
    add("C06", "diagonals/nblk%d/%s/bat%d/sblk%d" % (nblk, ",".join(map(str, diags)), bat, k), diag_case(nblk, diags, bat, k))


def context_case(which, meth, nblk, bat, k, mode):
    def fn(ctx):
        from pyoptmat import chunktime as c

        A, B, v = blocks(ctx, nblk, bat, k, mode)
        v0 = v.clone()
        op = c.BidiagonalForwardOperator(A.clone(), B.clone(), inverse_operator=methods()[meth])
        sc = c.ChunkTimeOperatorSolverContext(which)
        if getattr(ctx, "restless", False):
            # the same front end used for other systems before
            for n in (nblk + 1, nblk):
                E = torch.eye(k).expand(n, bat, k, k)
                sc.solve(c.BidiagonalForwardOperator(3 * E, -E[1:], inverse_operator=methods()[meth]), elsewhere(torch.zeros(bat, n * k), n))
        x = sc.solve(op, v)
        ctx.eq("the solution satisfies the system", apply(A, B, x), v0)

    return fn


add("C06", "context/dense/nblk3/sblk1", context_case("dense", "thomas", 3, 1, 1, "s"))
for w in ("dense", "direct"):
    add("C06", "context/%s/after other systems" % w, rest(context_case(w, "thomas", 4, 2, 2, "v")))
add("C06", "context/dense/nblk4/sblk2/rhs", context_case("dense", "thomas", 4, 2, 2, "v"))
add("C06", "context/direct/nblk3/sblk1", context_case("direct", "thomas", 3, 1, 1, "s"))
add("C06", "context/direct/nblk4/sblk2/rhs", context_case("direct", "pcr", 4, 2, 2, "v"))


def bad_context(ctx):
    from pyoptmat import chunktime as c

    try:
        c.ChunkTimeOperatorSolverContext("other")
        ok = False
    except ValueError:
        ok = True
    ctx.true("unknown solver rejected", ok)


add("C06", "context/unknown", bad_context, novalidate=True)


# ------------------------------------------------------ C07 repeated solves
def stored(v, perm):
    """the same values stored in another order of the dimensions"""
    return v.permute(perm).contiguous().permute([perm.index(i) for i in range(v.dim())])


def repeat_case(meth, nblk, bat, k, mode, perm=None):
    def fn(ctx):
        from pyoptmat import chunktime as c

        A, B, v = blocks(ctx, nblk, bat, k, mode)
        w = ctx.real("w", (bat, nblk * k))
        A0, B0, v0, w0 = A.clone(), B.clone(), v.clone(), w.clone()
        if perm:
            A, B = stored(A, perm), stored(B, perm)
            v, w = stored(v, (1, 0)), stored(w, (1, 0))
        op = c.BidiagonalForwardOperator(A, B, inverse_operator=methods()[meth])
        M = op.inverse()
        x1 = M(v)
        x1c = x1.clone()
        y = M(w)
        ctx.eq("first result survives the second solve", x1, x1c)
        x2 = M(v)
        ctx.eq("diagonal blocks untouched", A, A0)
        ctx.eq("off diagonal blocks untouched", B, B0)
        ctx.eq("right hand side untouched", v, v0)
        ctx.eq("second right hand side untouched", w, w0)
        ctx.eq("first solve", apply(A0, B0, x1), v0)
        ctx.eq("second solve with the same factorization", apply(A0, B0, y), w0)
        ctx.eq("repeated solve", x2, x1)
        ctx.eq("operator after the solves", op(v0), apply(A0, B0, v0))

    return fn


for meth in ("thomas", "pcr", "hybrid0", "hybrid1", "hybrid2", "hybrid3"):
    for nblk, bat, k, mode in [(1, 1, 2, "v"), (2, 1, 1, "s"), (3, 1, 1, "s"), (3, 2, 2, "v"), (5, 1, 2, "v"), (6, 2, 1, "v"), (8, 1, 1, "v"), (9, 2, 2, "v")]:
        add("C07", "%s/nblk%d/bat%d/sblk%d/%s" % (meth, nblk, bat, k, mode), repeat_case(meth, nblk, bat, k, mode))
    for perm in ((0, 1, 3, 2), (1, 0, 2, 3), (3, 2, 1, 0)):
        for nblk in (1, 4, 5):
            add("C07", "%s/nblk%d/blocks stored in order %s" % (meth, nblk, "".join(map(str, perm))), repeat_case(meth, nblk, 2, 2, "v", perm))
