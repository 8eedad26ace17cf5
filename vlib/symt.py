"""
Symbolic torch tensors.

`SymT` is a wrapper subclass: a real torch tensor (shape, strides, storage
offset, dtype, requires_grad) without data, plus `ids`, an int64 tensor with the
same geometry whose elements are DAG node ids.  `SymMode` intercepts every aten
operation the real code reaches (composite operators are decomposed by torch
itself, autograd runs unmodified above it).  Views and data movement run on the
`ids` tensors directly, so aliasing and in-place updates behave exactly as in
torch; arithmetic creates DAG nodes element by element.
"""

import builtins
import itertools
import math
from fractions import Fraction

import torch
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map

from . import dag
from .dag import Unsupported

aten = torch.ops.aten
CURRENT = [None]  # current exploration context (provides fork decisions)

_const_cache = {}


def cid(x):
    """constant -> node id"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return dag.const(x)
    return dag.const(float(x) if not isinstance(x, Fraction) else x)


class SymT(torch.Tensor):
    @staticmethod
    def __new__(cls, ids, dtype=torch.float64, rg=False):
        return torch.Tensor._make_wrapper_subclass(
            cls,
            ids.shape,
            strides=ids.stride(),
            storage_offset=ids.storage_offset(),
            dtype=dtype,
            device="cpu",
            requires_grad=rg,
        )

    def __init__(self, ids, dtype=torch.float64, rg=False):
        self.ids = ids

    def __repr__(self):
        return "SymT%s" % (tuple(self.shape),)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def tolist(self):
        r = getids(self).tolist()

        def f(x):
            return [f(y) for y in x] if isinstance(x, list) else scalar(x, self.dtype)

        return f(r)

    def numpy(self, *a, **k):
        conc = to_concrete(self)
        if conc is None:
            raise Unsupported("numpy() of a symbolic tensor")
        return conc.numpy()

    def __deepcopy__(self, memo):
        r = SymT(getids(self).clone(), self.dtype)
        r.requires_grad_(self.requires_grad)
        return r

    def __reduce_ex__(self, p):
        raise Unsupported("pickling a symbolic tensor")

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        m = MODE[0]
        if m is None:
            raise Unsupported("symbolic tensor used outside the engine: %s" % func)
        return m.__torch_dispatch__(func, types, args, kwargs)


MODE = [None]


def scalar(n, dtype):
    """node -> python scalar, forking on booleans/ints"""
    if dtype == torch.bool:
        if n in (0, 1):
            return bool(n)
        return CURRENT[0].decide(n)
    if dag.is_const(n):
        v = dag.cval(n)
        if isinstance(v, str):
            return float(v)
        if dtype.is_floating_point:
            return float(v)
        return int(v)
    if not dtype.is_floating_point:
        return CURRENT[0].decide_int(n)
    v = CURRENT[0].constant_real(n)
    if v is not None:
        return float(v)
    raise Unsupported("concrete value of a symbolic real requested: " + dag.show(n, 4))


def getids(x):
    """ids tensor of a tensor or scalar"""
    if isinstance(x, SymT):
        return x.ids
    if isinstance(x, torch.Tensor):
        if type(x) is not torch.Tensor and hasattr(x, "ids"):
            return x.ids
        t = x.detach() if x.requires_grad else x
        if t.dtype == torch.bool:
            return t.to(torch.int64)
        out = torch.empty_strided(t.shape, t.stride(), dtype=torch.int64)
        vals = [cid(v) for v in t.reshape(-1).tolist()]
        out.copy_(torch.tensor(vals, dtype=torch.int64).reshape(t.shape))
        return out
    return torch.tensor(cid(x), dtype=torch.int64)


def is_sym(x):
    return isinstance(x, SymT)


def to_concrete(x):
    """plain tensor if every element is constant, else None"""
    if not isinstance(x, SymT):
        return x
    l = x.ids.reshape(-1).tolist()
    if x.dtype == torch.bool:
        if any(i not in (0, 1) for i in l):
            return None
        return torch.tensor([bool(i) for i in l], dtype=torch.bool).reshape(x.shape)
    vals = []
    for i in l:
        if not dag.is_const(i):
            return None
        v = dag.cval(i)
        vals.append(float(v) if x.dtype.is_floating_point else int(v))
    return torch.tensor(vals, dtype=x.dtype).reshape(x.shape)


def force_concrete(x):
    """plain tensor of an int/bool symbolic tensor, forking when needed"""
    c = to_concrete(x)
    if c is not None:
        return c
    if x.dtype.is_floating_point:
        raise Unsupported("concretising symbolic reals")
    l = [scalar(i, x.dtype) for i in x.ids.reshape(-1).tolist()]
    return torch.tensor(l, dtype=x.dtype).reshape(x.shape)


# ------------------------------------------------------------ element helpers
def emap(fn, *ts):
    ts = torch.broadcast_tensors(*ts)
    shape = ts[0].shape
    ls = [t.reshape(-1).tolist() for t in ts]
    cache = {}
    out = []
    for k in zip(*ls):
        r = cache.get(k)
        if r is None:
            r = fn(*k)
            cache[k] = r
        out.append(r)
    return torch.tensor(out, dtype=torch.int64).reshape(shape)


def fold(fn, init, ids, dims, keepdim):
    nd = ids.dim()
    if dims is None or (isinstance(dims, (list, tuple)) and len(dims) == 0):
        dims = list(range(nd))
    if isinstance(dims, int):
        dims = [dims]
    dims = sorted({d % nd if nd else 0 for d in dims})
    if nd == 0:
        return torch.tensor(fn([int(ids)], init), dtype=torch.int64)
    keep = [d for d in range(nd) if d not in dims]
    p = ids.permute(keep + dims)
    ks = [ids.shape[d] for d in keep]
    n = 1
    for d in dims:
        n *= ids.shape[d]
    m = 1
    for k in ks:
        m *= k
    flat = p.reshape(m, n).tolist() if m * n else [[] for _ in range(m)]
    out = torch.tensor([fn(r, init) for r in flat], dtype=torch.int64).reshape(ks)
    if keepdim:
        for d in dims:
            out = out.unsqueeze(d)
    return out


def _chain(op):
    def f(l, init):
        r = init
        for x in l:
            r = x if r is None else op(r, x)
        return r

    return f


def sum_ids(l):
    r = 0
    for x in l:
        r = dag.mk_add(r, x)
    return r


def matmul2(A, B):
    """lists of lists"""
    n, k = len(A), len(B)
    m = len(B[0]) if k else 0
    out = []
    for i in range(n):
        row = []
        for j in range(m):
            s = 0
            for t in range(k):
                a = A[i][t]
                if a == 0:
                    continue
                b = B[t][j]
                if b == 0:
                    continue
                s = dag.mk_add(s, dag.mk_mul(a, b))
            row.append(s)
        out.append(row)
    return out


def bmm_ids(a, b):
    out = torch.zeros(a.shape[0], a.shape[1], b.shape[2], dtype=torch.int64)
    for i in range(a.shape[0]):
        r = matmul2(a[i].tolist(), b[i].tolist())
        if a.shape[1] and a.shape[2] and b.shape[2]:
            out[i] = torch.tensor(r, dtype=torch.int64)
    return out


# ---- determinants / linear solves
def det_ids(M):
    n = len(M)
    memo = {}

    def rec(r, cols):
        if r == n:
            return 1
        k = (r, cols)
        if k in memo:
            return memo[k]
        s = 0
        sg = 1
        for idx, c in enumerate(cols):
            a = M[r][c]
            if a != 0:
                sub = rec(r + 1, cols[:idx] + cols[idx + 1 :])
                t = dag.mk_mul(a, sub)
                s = dag.mk_add(s, t if sg > 0 else dag.mk_neg(t))
            sg = -sg
        memo[k] = s
        return s

    if n > 12:
        raise Unsupported("determinant of a %d x %d symbolic matrix" % (n, n))
    return rec(0, tuple(range(n)))


_adj_cache = {}


def adj_det(M):
    key = tuple(tuple(r) for r in M)
    r = _adj_cache.get(key)
    if r is not None:
        return r
    n = len(M)
    d = det_ids(M)
    adj = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            sub = [[M[a][b] for b in range(n) if b != j] for a in range(n) if a != i]
            c = det_ids(sub) if n > 1 else 1
            if (i + j) % 2:
                c = dag.mk_neg(c)
            adj[j][i] = c
    _adj_cache[key] = (adj, d)
    return adj, d


def solve_mat(M, B):
    """M^-1 B, lists; the determinant is assumed non-zero"""
    n = len(M)
    # block structure: permuted triangular systems are solved by substitution
    comp = _blocks(M)
    if comp is not None:
        return _solve_blocks(M, B, comp)
    adj, d = adj_det(M)
    X = matmul2(adj, B)
    return [[dag.mk_div(x, d, True) for x in r] for r in X]


def _scc(M):
    n = len(M)
    reach = [[M[i][j] != 0 or i == j for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            if reach[i][k]:
                for j in range(n):
                    if reach[k][j]:
                        reach[i][j] = True
    seen = set()
    comps = []
    for i in range(n):
        if i in seen:
            continue
        c = [j for j in range(n) if reach[i][j] and reach[j][i]]
        seen.update(c)
        comps.append(c)
    # order: a component comes after every component it depends on
    comps.sort(key=lambda c: sum(reach[c[0]]))
    return comps


def _blocks(M):
    """strongly connected components in solve order, or None"""
    n = len(M)
    if n <= 1 or any(M[i][i] == 0 for i in range(n)):
        return None
    c = _scc(M)
    return c if len(c) > 1 else None


def _solve_blocks(M, B, comps):
    n = len(M)
    m = len(B[0]) if B else 0
    X = [None] * n
    done = []
    for c in comps:
        rhs = []
        for i in c:
            row = list(B[i])
            for j in done:
                if M[i][j] != 0:
                    for k in range(m):
                        row[k] = dag.mk_sub(row[k], dag.mk_mul(M[i][j], X[j][k]))
            rhs.append(row)
        sub = [[M[i][j] for j in c] for i in c]
        adj, d = adj_det(sub)
        Y = matmul2(adj, rhs)
        for k, i in enumerate(c):
            X[i] = [dag.mk_div(x, d, True) for x in Y[k]]
        done.extend(c)
    return X


def batched(f, *mats):
    """apply f on the trailing 2 dims of broadcast batches"""
    bs = torch.broadcast_shapes(*[m.shape[:-2] for m in mats])
    ex = [m.expand(bs + m.shape[-2:]).reshape((-1,) + m.shape[-2:]) for m in mats]
    outs = [f(*[e[i].tolist() for e in ex]) for i in range(ex[0].shape[0])]
    return bs, outs


def solve_ids(A, B, left=True):
    if not left:
        return solve_ids(A.transpose(-1, -2), B.transpose(-1, -2)).transpose(-1, -2)
    bs, outs = batched(solve_mat, A, B)
    n, m = B.shape[-2:]
    return torch.tensor(outs, dtype=torch.int64).reshape(bs + (n, m))


FRESH = [0]


def fresh(prefix):
    FRESH[0] += 1
    return dag.var("%s#%d" % (prefix, FRESH[0]))


# ------------------------------------------------------------- op tables
D = dag


def _int_div(a, b, rounding):
    if dag.is_const(a) and dag.is_const(b):
        q = Fraction(dag.cval(a)) / Fraction(dag.cval(b))
        if rounding == "floor":
            return dag.const(math.floor(q))
        return dag.const(math.trunc(q))
    raise Unsupported("rounded division of symbolic values")


def _rem(a, b):
    if dag.is_const(a) and dag.is_const(b):
        x, y = Fraction(dag.cval(a)), Fraction(dag.cval(b))
        return dag.const(x - y * math.floor(x / y))
    if dag.is_const(b) and isinstance(dag.cval(b), int) and dag.cval(b) > 0:
        vals = int_values(a)
        if vals is not None and len(vals) <= 64:
            m = dag.cval(b)
            r = vals[-1] % m
            for v in vals[:-1]:
                r = dag.mk_ite(dag.mk_eq(a, dag.const(v)), dag.const(v % m), r)
            return r
    if dag.is_const(b):
        fl = dag.mk_fn("floor", dag.mk_div(a, b))
        return dag.mk_sub(a, dag.mk_mul(b, fl))
    fl = dag.mk_fn("floor", dag.mk_div(a, b))
    return dag.mk_sub(a, dag.mk_mul(b, fl))


def _cfun(f):
    def g(a):
        if dag.is_const(a):
            return dag.const(f(Fraction(dag.cval(a))))
        if f is math.floor:
            return dag.mk_fn("floor", a)
        if f is math.ceil:
            return dag.mk_neg(dag.mk_fn("floor", dag.mk_neg(a)))
        raise Unsupported("rounding a symbolic value")

    return g


def _trunc(a):
    if dag.is_const(a):
        return dag.const(math.trunc(Fraction(dag.cval(a))))
    fl = dag.mk_fn("floor", a)
    return dag.mk_ite(dag.mk_le(0, a), fl, dag.mk_neg(dag.mk_fn("floor", dag.mk_neg(a))))


UNARY = {
    "neg": D.mk_neg,
    "negative": D.mk_neg,
    "positive": lambda a: a,
    "abs": D.mk_abs,
    "sign": D.mk_sign,
    "sgn": D.mk_sign,
    "exp": D.mk_exp,
    "expm1": lambda a: D.mk_sub(D.mk_exp(a), 1),
    "exp2": lambda a: D.mk_pow(D.const(2), a),
    "log": D.mk_log,
    "log1p": lambda a: D.mk_log(D.mk_add(a, 1)),
    "log2": lambda a: D.mk_div(D.mk_log(a), D.mk_log(D.const(2)), True),
    "log10": lambda a: D.mk_div(D.mk_log(a), D.mk_log(D.const(10)), True),
    "sqrt": D.mk_sqrt,
    "rsqrt": lambda a: D.mk_div(1, D.mk_sqrt(a)),
    "square": lambda a: D.mk_mul(a, a),
    "reciprocal": lambda a: D.mk_div(1, a),
    "tanh": D.mk_tanh,
    "cosh": D.mk_cosh,
    "sinh": D.mk_sinh,
    "sigmoid": D.mk_sigmoid,
    "relu": lambda a: D.mk_max(a, 0),
    "sin": lambda a: D.mk_fn("sin", a),
    "cos": lambda a: D.mk_fn("cos", a),
    "floor": _cfun(math.floor),
    "ceil": _cfun(math.ceil),
    "trunc": lambda a: _trunc(a),
    "fix": lambda a: _trunc(a),
    "round": _cfun(round),
    "isnan": D.mk_isnan,
    "frac": lambda a: D.mk_sub(a, _trunc(a)),
}


def _spow(a, b):
    if dag.is_const(b):
        e = dag.cval(b)
        if isinstance(e, int) and 0 < e <= 8:
            if dag.is_const(a):
                return dag.mk_pow(a, b)
            r = a
            for _ in range(e - 1):
                r = dag.mk_mul(r, a)
            return r
        if isinstance(e, int) and -8 <= e < 0 and not dag.is_const(a):
            return dag.mk_div(1, _spow(a, dag.const(-e)))
    return dag.mk_pow(a, b)


BINARY = {
    "mul": D.mk_mul,
    "multiply": D.mk_mul,
    "maximum": D.mk_max,
    "minimum": D.mk_min,
    "fmax": D.mk_max,
    "fmin": D.mk_min,
    "pow": _spow,
    "heaviside": lambda a, v: D.mk_ite(
        D.mk_lt(0, a), 1, D.mk_ite(D.mk_eq(a, 0), v, 0)
    ),
    "hypot": lambda a, b: D.mk_sqrt(D.mk_add(D.mk_mul(a, a), D.mk_mul(b, b))),
    "xlogy": lambda a, b: D.mk_mul(a, D.mk_log(b)),
    "copysign": lambda a, b: D.mk_ite(
        D.mk_lt(b, 0), D.mk_neg(D.mk_abs(a)), D.mk_abs(a)
    ),
    "remainder": _rem,
    "logaddexp": lambda a, b: D.mk_log(D.mk_add(D.mk_exp(a), D.mk_exp(b))),
}

CMP = {
    "lt": D.mk_lt,
    "le": D.mk_le,
    "gt": lambda a, b: D.mk_lt(b, a),
    "ge": lambda a, b: D.mk_le(b, a),
    "less": D.mk_lt,
    "less_equal": D.mk_le,
    "greater": lambda a, b: D.mk_lt(b, a),
    "greater_equal": lambda a, b: D.mk_le(b, a),
    "eq": D.mk_eq,
    "ne": lambda a, b: D.mk_not(D.mk_eq(a, b)),
}

LOGIC = {
    "logical_and": D.mk_and,
    "bitwise_and": D.mk_and,
    "__and__": D.mk_and,
    "logical_or": D.mk_or,
    "bitwise_or": D.mk_or,
    "__or__": D.mk_or,
    "logical_xor": lambda a, b: D.mk_not(D.mk_beq(a, b)),
    "bitwise_xor": lambda a, b: D.mk_not(D.mk_beq(a, b)),
}

# run on the ids themselves (views alias, the others move data)
MOVE = {
    "view", "_unsafe_view", "reshape", "_reshape_alias", "slice", "select",
    "as_strided", "permute", "expand", "transpose", "t", "squeeze", "unsqueeze",
    "cat", "clone", "alias", "detach", "split", "split_with_sizes", "chunk",
    "unbind", "diagonal", "flip", "roll", "repeat", "stack", "unfold",
    "diag_embed", "narrow", "movedim", "hstack", "vstack", "contiguous",
    "repeat_interleave", "tril", "triu", "diag", "lift_fresh", "lift",
    "lift_fresh_copy", "view_as", "swapaxes", "rot90", "tile", "resolve_conj",
    "resolve_neg", "select_backward", "slice_backward", "diagonal_backward",
    "trace_backward", "expand_copy", "view_copy", "unsafe_split", "view_as_real",
    "block_diag", "unfold_backward", "permute_copy", "select_copy", "slice_copy",
    "slice_scatter", "select_scatter", "diagonal_scatter", "_conj", "conj",
    "_neg_view", "channel_shuffle", "new_empty_strided_", "unsafe_chunk",
    "constant_pad_nd_", "squeeze_copy", "unsqueeze_copy", "transpose_copy",
    "t_copy", "as_strided_copy", "diagonal_copy", "alias_copy", "detach_copy",
    "unsafe_split_with_sizes", "masked_select_", "take_along_dim_", "pixel_",
    "index_select", "gather", "take", "masked_select",
}
INPLACE_MOVE = {"squeeze_", "unsqueeze_", "transpose_", "t_", "as_strided_"}


class SymSparse:
    """recorded sparse tensor: indices/values are kept symbolically"""

    def __init__(self, layout, size, idx, vals):
        self.layout = layout
        self.shape = torch.Size(size)
        self.idx = idx
        self.vals = vals

    def _coords(self):
        """list of ((i, j), value ids of the dense part)"""
        v = getids(self.vals)
        n, m = self.shape[0], self.shape[1]
        out = []
        if self.layout == "coo":
            ij = self.idx.to(torch.int64).tolist()
            if len(ij) != 2 or v.shape[0] != len(ij[0]) or tuple(v.shape[1:]) != tuple(self.shape[2:]):
                raise RuntimeError("inconsistent COO arrays")
            for k, (i, j) in enumerate(zip(ij[0], ij[1])):
                if not (0 <= i < n and 0 <= j < m):
                    raise RuntimeError("sparse index out of range")
                out.append(((i, j), v[k]))
        else:
            crow, col = self.idx
            crow, col = crow.tolist(), col.tolist()
            if len(crow) != n + 1 or crow[-1] != v.shape[0] or len(col) != v.shape[0]:
                raise RuntimeError("inconsistent CSR arrays")
            for i in range(n):
                for k in range(crow[i], crow[i + 1]):
                    if not 0 <= col[k] < m:
                        raise RuntimeError("CSR column out of range")
                    out.append(((i, col[k]), v[k]))
        return out

    def _summed(self):
        tab = {}
        for ij, v in self._coords():
            if ij in tab:
                p = tab[ij].reshape(-1).tolist()
                q = v.reshape(-1).tolist()
                tab[ij] = torch.tensor([dag.mk_add(x, y) for x, y in zip(p, q)], dtype=torch.int64).reshape(v.shape)
            else:
                tab[ij] = v
        return tab

    def to_dense(self):
        dn = torch.zeros(tuple(self.shape), dtype=torch.int64)
        for (i, j), v in self._summed().items():
            dn[i, j] = v
        return SymT(dn)

    def coalesce(self):
        tab = self._summed()
        keys = sorted(tab)
        idx = torch.tensor(keys, dtype=torch.int64).reshape(-1, 2).t()
        vals = torch.stack([tab[k] for k in keys]) if keys else getids(self.vals)[:0]
        return SymSparse("coo", self.shape, idx, SymT(vals))

    def is_coalesced(self):
        return True

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    @property
    def dtype(self):
        return self.vals.dtype

    @property
    def device(self):
        return torch.device("cpu")

    def indices(self):
        return self.idx

    def values(self):
        return self.vals

    def crow_indices(self):
        return self.idx[0]

    def col_indices(self):
        return self.idx[1]

    def to_sparse_csr(self):
        if self.layout == "csr":
            return self
        if len(self.shape) != 2:
            raise Unsupported("CSR of a hybrid tensor")
        c = self.coalesce()
        crow = [0] * (self.shape[0] + 1)
        for i in c.idx[0].tolist():
            crow[i + 1] += 1
        for i in range(self.shape[0]):
            crow[i + 1] += crow[i]
        return SymSparse("csr", self.shape, (torch.tensor(crow), c.idx[1].clone()), c.vals)

    def to_sparse_coo(self):
        if self.layout == "coo":
            return self
        ks = [ij for ij, _ in self._coords()]
        return SymSparse("coo", self.shape, torch.tensor(ks, dtype=torch.int64).reshape(-1, 2).t(), self.vals)

    def t(self):
        if self.layout == "coo":
            return SymSparse("coo", self.shape[::-1], self.idx.flip(0), self.vals)
        return self.to_sparse_coo().t().to_sparse_csr()


def as_sym_data(data):
    """nested python data with symbolic tensors inside -> ids tensor"""
    if isinstance(data, (list, tuple)):
        parts = [as_sym_data(d) for d in data]
        return torch.stack(parts) if parts else torch.zeros(0, dtype=torch.int64)
    return getids(data).clone()


def has_sym(x):
    if isinstance(x, (list, tuple)):
        return builtins.any(has_sym(y) for y in x)
    if isinstance(x, dict):
        return builtins.any(has_sym(y) for y in x.values())
    return isinstance(x, SymT)


class FnMode(TorchFunctionMode):
    """python-level torch functions that never reach aten with tensors"""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = getattr(func, "__name__", "")
        if func in (torch.tensor, torch.as_tensor, torch.asarray):
            if has_sym(args[0] if args else kwargs.get("data")):
                data = args[0] if args else kwargs["data"]
                if isinstance(data, SymT):
                    return data.clone() if func is torch.tensor else data
                return SymT(as_sym_data(data), kwargs.get("dtype") or torch.float64)
            return func(*args, **kwargs)
        if func in (torch.linalg.lu_factor, torch.linalg.lu_factor_ex):
            A = args[0] if args else kwargs["A"]
            if isinstance(A, SymT):
                # (the factors come column by column)
                LU = A.mT.clone(memory_format=torch.contiguous_format).mT
                piv = SymT(_pivots(A.ids), torch.int32)
                if kwargs.get("out") is not None:
                    o = kwargs["out"]
                    if not isinstance(o[0], SymT) or o[0].shape != LU.shape:
                        raise Unsupported("factorization into other tensors")
                    o[0].copy_(LU)
                    LU = o[0]
                if func is torch.linalg.lu_factor:
                    return torch.return_types.linalg_lu_factor((LU, piv))
                info = torch.zeros(A.shape[:-2], dtype=torch.int32)
                return torch.return_types.linalg_lu_factor_ex((LU, piv, info))
        if func in (torch.linalg.lu_solve,):
            LU, piv, B = args[:3]
            left = kwargs.get("left", True)
            adj = kwargs.get("adjoint", False)
            if has_sym([LU, B]):
                return _lu_solve(LU, piv, B, left, adj)
        if func in (torch.lu_solve, torch.Tensor.lu_solve):
            B, LU, piv = args[:3]
            if has_sym([LU, B]):
                return _lu_solve(LU, piv, B, True, False)
        if func in (torch.sparse_coo_tensor,):
            idx, vals = args[0], args[1]
            size = kwargs.get("size") or (args[2] if len(args) > 2 else None)
            if has_sym([vals]):
                idx = idx if isinstance(idx, torch.Tensor) else torch.tensor(idx)
                idx = force_concrete(idx) if isinstance(idx, SymT) else idx
                if size is None:
                    size = [int(idx[0].max()) + 1, int(idx[1].max()) + 1]
                return SymSparse("coo", size, idx, vals)
        if func in (torch.sparse_csr_tensor,):
            crow, col, vals = args[:3]
            size = kwargs.get("size") or (args[3] if len(args) > 3 else None)
            if has_sym([vals]):
                f = lambda i: force_concrete(i) if isinstance(i, SymT) else torch.as_tensor(i)
                crow, col = f(crow), f(col)
                if size is None:
                    size = [len(crow) - 1, int(col.max()) + 1]
                return SymSparse("csr", size, (crow, col), vals)
        if func in (torch.Tensor.item, torch.Tensor.tolist):
            x = args[0]
            if isinstance(x, SymT) and x.dtype.is_floating_point and to_concrete(x) is None:
                # python numbers cannot be symbolic: hand out zero-dimensional tensors instead
                y = x.detach().clone()
                nest = lambda z: z if z.dim() == 0 else [nest(q) for q in z.unbind(0)]
                return y.reshape(()) if func is torch.Tensor.item else nest(y)
        if func in (torch.full, torch.full_like, torch.Tensor.new_full):
            # a number handed out by item() above
            a = list(args)
            pos = 2 if func is torch.Tensor.new_full else 1
            v = a[pos] if len(a) > pos else kwargs.get("fill_value")
            if isinstance(v, SymT) and v.numel() == 1 and to_concrete(v) is None:
                size = a[0].shape if func is torch.full_like else (a[1] if pos == 2 else (a[0] if a else kwargs["size"]))
                dt = kwargs.get("dtype") or (v.dtype if func is torch.full else a[0].dtype)
                return v.detach().reshape(()).expand(tuple(size)).clone(memory_format=torch.contiguous_format).to(dt)
        if func is torch.allclose and has_sym(args):
            return bool(torch.isclose(*args, **kwargs).all())
        if func is torch.Tensor.allclose and has_sym(args):
            return bool(torch.isclose(*args, **kwargs).all())
        if func is torch.triangular_solve and has_sym(args):
            B, A = args[:2]
            up, tr = kwargs.get("upper", True), kwargs.get("transpose", False)
            A = A.triu() if up else A.tril()
            return torch.return_types.triangular_solve((torch.linalg.solve(A.mT if tr else A, B), A))
        if func is torch.linalg.lstsq:
            A, B = args[:2]
            if has_sym([A, B]):
                vec = A.dim() > 1 and B.dim() == A.dim() - 1 and B.shape == A.shape[:-1]
                if vec:
                    B = B.unsqueeze(-1)
                if A.shape[-1] == 0:
                    sol = torch.zeros(tuple(A.shape[:-2]) + (0, B.shape[-1]))
                else:
                    At = A.transpose(-1, -2)
                    sol = torch.linalg.solve(torch.matmul(At, A), torch.matmul(At, B))
                if vec:
                    sol = sol.squeeze(-1)
                return torch.return_types.linalg_lstsq(
                    (sol, torch.zeros(0), torch.zeros(0, dtype=torch.int64), torch.zeros(0))
                )
        return func(*args, **kwargs)


def _pivots(A):
    n = A.shape[-1]
    fl = A.reshape(-1, n, n).tolist()
    out = []
    for M in fl:
        flat = [x for r in M for x in r]
        out.append([dag.mk_fn("piv%d" % i, *flat) for i in range(n)])
    return torch.tensor(out, dtype=torch.int64).reshape(A.shape[:-1])


def _lu_solve(LU, piv, B, left, adj):
    pi = getids(piv)
    want = _pivots(getids(LU))
    if want.shape != pi.shape or not torch.equal(want, pi):
        # pivots of another matrix: the answer is unconstrained
        shp = torch.broadcast_shapes(LU.shape[:-2], B.shape[:-2]) + B.shape[-2:]
        n = 1
        for s in shp:
            n *= s
        ids = torch.tensor([fresh("badlu") for _ in range(n)], dtype=torch.int64)
        return SymT(ids.reshape(shp))
    if adj:
        LU = LU.transpose(-1, -2)
    if left:
        return torch.linalg.solve_ex(LU, B)[0]
    return torch.linalg.solve_ex(
        LU.transpose(-1, -2), B.transpose(-1, -2)
    )[0].transpose(-1, -2)


OPCOUNT = {}


class SymMode(TorchDispatchMode):
    def __enter__(self):
        MODE[0] = self
        self.fm = FnMode()
        r = super().__enter__()
        self.fm.__enter__()
        return r

    def __exit__(self, *a):
        self.fm.__exit__(*a)
        MODE[0] = None
        return super().__exit__(*a)

    # ---------------------------------------------------------------
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func._schema.name.split("::")[1]
        OPCOUNT[name] = OPCOUNT.get(name, 0) + 1
        anysym = [False]
        anyfloat = [False]

        def look(x):
            if isinstance(x, SymT):
                anysym[0] = True
            elif isinstance(x, torch.Tensor) and (
                x.dtype.is_floating_point or x.dtype == torch.bool
            ):
                anyfloat[0] = True
            return x

        tree_map(look, (args, kwargs))
        if not anysym[0]:
            return self.plain(func, name, args, kwargs, anyfloat[0])
        return self.sym(func, name, args, kwargs)

    def plain(self, func, name, args, kwargs, anyfloat):
        mut = func._schema.is_mutable
        if mut:
            return func(*args, **kwargs)
        if name in ("lift_fresh", "detach", "alias") or name in MOVE or (
            name in ("_to_copy", "to") and anyfloat
        ):
            # keep plain tensors plain only for ints; wrap floats/bools
            pass
        if anyfloat and name not in MOVE and name not in (
            "lift_fresh", "detach", "alias", "_local_scalar_dense", "item",
        ):
            conv = lambda x: (
                SymT(getids(x).clone(), x.dtype)
                if isinstance(x, torch.Tensor)
                and (x.dtype.is_floating_point or x.dtype == torch.bool)
                else x
            )
            try:
                return self.sym(
                    func, name, tree_map(conv, args), tree_map(conv, kwargs)
                )
            except Unsupported:
                pass
        out = func(*args, **kwargs)
        if name == "_local_scalar_dense":
            return out

        def wrap(o):
            if isinstance(o, torch.Tensor) and not isinstance(o, SymT):
                if o.dtype.is_floating_point or o.dtype == torch.bool:
                    if name in ("empty", "empty_like", "new_empty", "empty_strided", "new_empty_strided", "empty_permuted"):
                        ids = torch.empty_strided(o.shape, o.stride(), dtype=torch.int64)
                        ids.fill_(dag.const("nan") if o.dtype.is_floating_point else 0)
                        return SymT(ids, o.dtype)
                    return SymT(getids(o).clone() if o.dtype == torch.bool else getids(o), o.dtype)
            return o

        return tree_map(wrap, out)

    # ---------------------------------------------------------------
    def dummy(self, func, args, kwargs):
        """run the operator on placeholder data for geometry and dtype"""

        def f(x):
            if isinstance(x, SymT):
                d = torch.empty_strided(x.shape, x.stride(), dtype=x.dtype)
                d.fill_(1 if x.dtype != torch.bool else 0)
                return d
            return x

        return func(*tree_map(f, args), **tree_map(f, kwargs))

    def ids_args(self, args, kwargs):
        f = lambda x: (
            getids(x)
            if isinstance(x, torch.Tensor)
            and (isinstance(x, SymT) or x.dtype.is_floating_point or x.dtype == torch.bool)
            else x
        )
        return tree_map(f, args), tree_map(f, kwargs)

    def finish(self, ids, shape_like=None, dtype=None):
        """value -> SymT with the geometry of shape_like"""
        if shape_like is None:
            return SymT(ids.contiguous(), dtype or torch.float64)
        dt = dtype or shape_like.dtype
        out = torch.empty_strided(shape_like.shape, shape_like.stride(), dtype=torch.int64)
        if tuple(ids.shape) != tuple(out.shape):
            ids = ids.expand(out.shape)
        out.copy_(ids)
        if dt != torch.bool and not dt.is_floating_point:
            # integer results: plain tensor when constant
            s = SymT(out, dt)
            c = to_concrete(s)
            if c is not None:
                r = torch.empty_strided(out.shape, out.stride(), dtype=dt)
                r.copy_(c)
                return r
            return s
        return SymT(out, dt)

    def convert(self, ids, src, dst):
        if src == dst:
            return ids
        if src == torch.bool:
            return emap(dag.bool_to_real, ids)
        if dst == torch.bool:
            return emap(dag.real_to_bool, ids)
        if src.is_floating_point and not dst.is_floating_point:

            def tr(n):
                if dag.is_const(n):
                    v = dag.cval(n)
                    if isinstance(v, str):
                        raise Unsupported("non-finite to int")
                    return dag.const(math.trunc(v))
                if all_int(n):
                    return n
                raise Unsupported("truncating a symbolic real")

            return emap(tr, ids)
        return ids

    def write(self, dst, ids, src_dtype):
        """dst.copy_(ids)"""
        ids = self.convert(ids, src_dtype, dst.dtype)
        if isinstance(dst, SymT):
            dst.ids.copy_(ids)
            return dst
        # plain destination: only constants fit
        s = SymT(ids.expand(dst.shape).contiguous(), dst.dtype)
        c = to_concrete(s)
        if c is None:
            raise Unsupported("symbolic value stored into a concrete tensor")
        dst.copy_(c)
        return dst

    def sym(self, func, name, args, kwargs):
        schema = func._schema
        # ---- in-place / out variants
        if schema.is_mutable and name not in INPLACE_MOVE:
            return self.mutable(func, name, args, kwargs)
        if name in INPLACE_MOVE:
            t = args[0]
            raise Unsupported("metadata-changing in-place op " + name)
        if name in MOVE:
            r = self.move(func, name, args, kwargs)
            if r is not NotImplemented:
                return r
        h = getattr(self, "op_" + name, None)
        if h is not None:
            r = h(func, args, kwargs)
            if r is not NotImplemented:
                return r
        r = self.elementwise(func, name, args, kwargs)
        if r is not NotImplemented:
            return r
        return self.fallback(func, name, args, kwargs)

    def fallback(self, func, name, args, kwargs):
        from torch._decomp import decomposition_table, core_aten_decompositions

        dec = decomposition_table.get(func)
        if dec is not None:
            with self:
                return dec(*args, **kwargs)
        try:
            with self:
                r = func.decompose(*args, **kwargs)
            if r is not NotImplemented:
                return r
        except (NotImplementedError, RuntimeError):
            pass
        # all constant?
        cs = []

        def f(x):
            if isinstance(x, SymT):
                c = to_concrete(x)
                if c is None:
                    raise Unsupported("operator aten.%s on symbolic values" % name)
                return c
            return x

        a, k = tree_map(f, args), tree_map(f, kwargs)
        return self.plain_wrap(func(*a, **k))

    def plain_wrap(self, out):
        def wrap(o):
            if isinstance(o, torch.Tensor) and not isinstance(o, SymT):
                if o.dtype.is_floating_point or o.dtype == torch.bool:
                    return SymT(getids(o).clone(), o.dtype)
            return o

        return tree_map(wrap, out)

    # ------------------------------------------------------------ mutation
    def mutable(self, func, name, args, kwargs):
        if "out" in kwargs and kwargs["out"] is not None:
            out = kwargs["out"]
            kw = {k: v for k, v in kwargs.items() if k != "out"}
            base = self.base_op(func, name, args, kw)
            r = self.call_base(base, args, kw)
            self.write(out, getids(r), r.dtype)
            return out
        t = args[0]
        if name == "copy_":
            src = args[1]
            return self.write(t, getids(src), src.dtype)
        if name == "fill_":
            v = args[1]
            ids = getids(v)
            dt = v.dtype if isinstance(v, torch.Tensor) else (
                torch.bool if isinstance(v, bool) else t.dtype
            )
            return self.write(t, ids, dt if dt == torch.bool else t.dtype)
        if name == "zero_":
            return self.write(t, torch.tensor(0), t.dtype)
        if name in ("index_put_", "_index_put_impl_"):
            return self.index_put(*args, **kwargs)
        if name in ("requires_grad_", "set_", "resize_", "_resize_output_"):
            raise Unsupported(name)
        if name == "detach_":
            return t
        if not name.endswith("_"):
            raise Unsupported("mutating operator " + name)
        b = name[:-1]
        ov = self.base_op(func, b, args, kwargs)
        r = self.call_base(ov, args, kwargs)
        return self.write(t, getids(r), r.dtype)

    def base_op(self, func, b, args, kwargs):
        if b.endswith("_") and not hasattr(aten, b):
            b = b[:-1]
        pk = getattr(aten, b)
        on = func._overloadname
        for cand in (on, on.replace("_out", ""), "default"):
            if cand in pk.overloads() and not getattr(pk, cand)._schema.is_mutable:
                return getattr(pk, cand)
        if on in ("out",):
            for cand in ("Tensor", "default"):
                if cand in pk.overloads():
                    return getattr(pk, cand)
        return getattr(pk, pk.overloads()[0])

    def call_base(self, ov, args, kwargs):
        conv = lambda x: (
            SymT(getids(x), x.dtype)
            if isinstance(x, torch.Tensor)
            and not isinstance(x, SymT)
            and (x.dtype.is_floating_point or x.dtype == torch.bool)
            else x
        )
        return self.sym(ov, ov._schema.name.split("::")[1], tree_map(conv, args), tree_map(conv, kwargs))

    def index_put(self, t, indices, values, accumulate=False, unsafe=False):
        if not isinstance(t, SymT):
            raise Unsupported("index_put into a concrete tensor")
        vals = self.convert(getids(values), values.dtype, t.dtype)
        # a single boolean mask with a broadcastable single value: element-wise
        if (
            len(indices) == 1
            and isinstance(indices[0], SymT)
            and indices[0].dtype == torch.bool
            and to_concrete(indices[0]) is None
            and vals.numel() == 1
            and not accumulate
        ):
            m = indices[0].ids
            mm = m.reshape(m.shape + (1,) * (t.dim() - m.dim()))
            f = dag.mk_ite if t.dtype != torch.bool else dag.mk_bite
            t.ids.copy_(emap(lambda c, a, b: f(c, b, a), mm, t.ids, vals.reshape(())))
            return t
        idx = [
            None if i is None else (force_concrete(i) if isinstance(i, SymT) else i)
            for i in indices
        ]
        if accumulate:
            # x[idx] += v, duplicates accumulate
            lin = torch.arange(t.numel()).reshape(t.shape)
            pos = aten.index.Tensor(lin, idx)
            flat = t.ids.reshape(-1).tolist()
            vv = vals.expand(pos.shape).reshape(-1).tolist()
            for p, v in zip(pos.reshape(-1).tolist(), vv):
                flat[p] = dag.mk_add(flat[p], v)
            t.ids.copy_(torch.tensor(flat, dtype=torch.int64).reshape(t.shape))
            return t
        aten.index_put_(t.ids, idx, vals)
        return t

    def op_index_put(self, func, args, kwargs):
        t = SymT(getids(args[0]).clone(), args[0].dtype)
        return self.index_put(t, *args[1:], **kwargs)

    op__unsafe_index_put = op_index_put

    def _scatter(self, func, args, kwargs, fn):
        t, dim, idx, src = args[:4]
        if isinstance(idx, SymT):
            idx = force_concrete(idx)
        out = getids(t).clone().contiguous()
        if not isinstance(src, torch.Tensor):
            src = torch.full(idx.shape, src, dtype=t.dtype)
        vals = self.convert(getids(src), src.dtype, t.dtype)
        if t.dim() == 0:
            out, idx, vals = out.reshape(1), idx.reshape(1), vals.reshape(1)
        vals = vals[tuple(slice(0, n) for n in idx.shape)]
        pos = torch.stack(torch.meshgrid(*[torch.arange(n) for n in idx.shape], indexing="ij"), -1).reshape(-1, idx.dim())
        for p, i, v in zip(pos.tolist(), idx.reshape(-1).tolist(), vals.reshape(-1).tolist()):
            q = list(p)
            q[dim % len(q)] = i
            out[tuple(q)] = fn(int(out[tuple(q)]), v)
        return self.finish(out.reshape(t.shape), t)

    def op_scatter(self, func, args, kwargs):
        r = kwargs.get("reduce") or (args[4] if len(args) > 4 else None)
        return self._scatter(func, args, kwargs, {"add": dag.mk_add, "multiply": dag.mk_mul}.get(r, lambda a, b: b))

    def op_scatter_add(self, func, args, kwargs):
        return self._scatter(func, args, kwargs, dag.mk_add)

    def op_scatter_reduce(self, func, args, kwargs):
        t, dim, idx, src, how = args[:5]
        own = args[5] if len(args) > 5 else kwargs.get("include_self", True)
        fn = {"sum": dag.mk_add, "mean": dag.mk_add, "prod": dag.mk_mul, "amax": dag.mk_max, "amin": dag.mk_min}[how]
        if isinstance(idx, SymT):
            idx = force_concrete(idx)
        hits = torch.full(tuple(t.shape), 1.0 if own else 0.0).scatter_add(dim, idx, torch.ones(tuple(idx.shape)))
        start = t
        if not own:
            # entries which are written forget their own value
            neutral = {"sum": 0, "mean": 0, "prod": 1, "amax": dag.const(-math.inf), "amin": dag.const(math.inf)}[how]
            neutral = dag.const(neutral) if how in ("sum", "mean", "prod") else neutral
            ids = getids(t).clone().contiguous()
            ids[hits > 0] = neutral
            start = SymT(ids, t.dtype)
        r = self._scatter(func, (start, dim, idx, src), kwargs, fn)
        if how == "mean":
            n = emap(lambda a, b: dag.mk_div(a, b), getids(r), torch.tensor([dag.const(int(max(k, 1))) for k in hits.reshape(-1).tolist()], dtype=torch.int64).reshape(hits.shape))
            return self.finish(n, t)
        return r

    def op_outer(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        a, b = getids(args[0]), getids(args[1])
        return self.finish(emap(dag.mk_mul, a[:, None], b[None, :]), like)

    op_ger = op_outer

    def op_real(self, func, args, kwargs):
        return args[0]

    def op_masked_scatter(self, func, args, kwargs):
        x, m, src = args
        m = force_concrete(m) if isinstance(m, SymT) else m
        out = getids(x).expand(torch.broadcast_shapes(x.shape, m.shape)).clone()
        m = m.expand(out.shape)
        out[m] = self.convert(getids(src), src.dtype, x.dtype).reshape(-1)[: int(m.sum())]
        return SymT(out, x.dtype)

    def op_var(self, func, args, kwargs, root=False):
        like = self.dummy(func, args, kwargs)
        x = args[0]
        if func.namespace == "prims":
            dims, corr = args[1], kwargs.get("correction")
            corr = 1 if corr is None else corr
        elif func._overloadname == "default":
            dims, un = None, (args[1] if len(args) > 1 else kwargs.get("unbiased", True))
            corr = 1 if un else 0
        elif "correction" in func._overloadname:
            dims = args[1] if len(args) > 1 else kwargs.get("dim")
            corr = kwargs.get("correction")
            corr = 1 if corr is None else corr
        else:
            dims = args[1] if len(args) > 1 else kwargs.get("dim")
            un = args[2] if len(args) > 2 else kwargs.get("unbiased", True)
            corr = 1 if un else 0

        def f(l, init):
            mu = dag.mk_div(sum_ids(l), dag.const(len(l)))
            d = [dag.mk_sub(a, mu) for a in l]
            v = dag.mk_div(sum_ids([dag.mk_mul(a, a) for a in d]), dag.const(Fraction(len(l)) - Fraction(corr)))
            return dag.mk_sqrt(v) if root else v

        return self.finish(fold(f, 0, getids(x), dims, kwargs.get("keepdim", False)), like)

    def op_std(self, func, args, kwargs):
        return self.op_var(func, args, kwargs, True)

    def _sorted(self, x, dim, desc, stable=True):
        """values and positions in order, as compare-exchange expressions (ties keep the order)"""
        ids = getids(x)
        if x.dim() == 0:
            return ids, torch.full((), dag.const(0), dtype=torch.int64)
        p = ids.movedim(dim, -1)
        vs, js = [], []
        for row in p.reshape(-1, p.shape[-1]).tolist():
            l = [(v, dag.const(k)) for k, v in enumerate(row)]
            n = len(l)
            for i in range(n):
                for k in range(n - 1 - i):
                    a, b = l[k], l[k + 1]
                    c = dag.mk_lt(a[0], b[0]) if desc else dag.mk_lt(b[0], a[0])
                    l[k] = (dag.mk_ite(c, b[0], a[0]), dag.mk_ite(c, b[1], a[1]))
                    l[k + 1] = (dag.mk_ite(c, a[0], b[0]), dag.mk_ite(c, a[1], b[1]))
            vs.append([v for v, _ in l])
            js.append([j for _, j in l])
        mk = lambda q: torch.tensor(q, dtype=torch.int64).reshape(p.shape).movedim(-1, dim)
        return mk(vs), mk(js)

    def op_sort(self, func, args, kwargs):
        x = args[0]
        rest = [a for a in args[1:]]
        if func._overloadname == "stable":
            dim, desc = kwargs.get("dim", -1), kwargs.get("descending", False)
        else:
            dim = rest[0] if rest else kwargs.get("dim", -1)
            desc = rest[1] if len(rest) > 1 else kwargs.get("descending", False)
        like = self.dummy(func, args, kwargs)
        v, j = self._sorted(x, dim, desc)
        return (self.finish(v, like[0]), self.finish(j, like[1]))

    def op_topk(self, func, args, kwargs):
        x, k = args[:2]
        dim = args[2] if len(args) > 2 else kwargs.get("dim", -1)
        largest = args[3] if len(args) > 3 else kwargs.get("largest", True)
        like = self.dummy(func, args, kwargs)
        v, j = self._sorted(x, dim, largest)
        return (self.finish(v.narrow(dim, 0, k), like[0]), self.finish(j.narrow(dim, 0, k), like[1]))

    def op_median(self, func, args, kwargs):
        x = args[0]
        like = self.dummy(func, args, kwargs)
        if func._overloadname == "default":
            v, _ = self._sorted(SymT(getids(x).reshape(-1), x.dtype), 0, False)
            return self.finish(v[(x.numel() - 1) // 2], like)
        dim = args[1] if len(args) > 1 else kwargs["dim"]
        keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
        v, j = self._sorted(x, dim, False)
        k = (x.shape[dim] - 1) // 2
        g = lambda q: q.narrow(dim, k, 1) if keep else q.select(dim, k)
        return (self.finish(g(v), like[0]), self.finish(g(j), like[1]))

    def _cumext(self, func, args, kwargs, better):
        x = args[0]
        dim = args[1] if len(args) > 1 else kwargs["dim"]
        like = self.dummy(func, args, kwargs)
        ids = getids(x)
        p = ids.movedim(dim, 0)
        v, j = [p[0]], [torch.full_like(p[0], dag.const(0))]
        for i in range(1, p.shape[0]):
            c = emap(lambda a, b: dag.mk_not(better(b, a)), p[i], v[-1])
            j.append(emap(dag.mk_ite, c, torch.full_like(p[i], dag.const(i)), j[-1]))
            v.append(emap(dag.mk_ite, c, p[i], v[-1]))
        return (self.finish(torch.stack(v).movedim(0, dim), like[0]), self.finish(torch.stack(j).movedim(0, dim), like[1]))

    def op_cummax(self, func, args, kwargs):
        return self._cumext(func, args, kwargs, lambda a, b: dag.mk_lt(b, a))

    def op_cummin(self, func, args, kwargs):
        return self._cumext(func, args, kwargs, dag.mk_lt)

    def op_fmod(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        f = lambda a, b: dag.mk_sub(a, dag.mk_mul(b, _trunc(dag.mk_div(a, b))))
        return self.finish(emap(f, getids(args[0]), getids(args[1])), like)

    # ------------------------------------------------------------- movement
    def move(self, func, name, args, kwargs):
        if name == "constant_pad_nd":
            return NotImplemented
        if name in ("gather", "index_select", "take", "masked_select"):
            idx = args[2] if name in ("gather", "index_select") else args[1]
            if isinstance(idx, SymT):
                if to_concrete(idx) is None and name == "gather":
                    return self.sym_gather(args[0], args[1], idx)
                idx = force_concrete(idx)
                args = list(args)
                args[2 if name in ("gather", "index_select") else 1] = idx
            if not isinstance(args[0], SymT) and not args[0].dtype.is_floating_point:
                return func(*args, **kwargs)
            rest = args[1:]
            out = func(getids(args[0]), *rest, **kwargs)
            return SymT(out, args[0].dtype)
        if name == "repeat_interleave" and (
            func._overloadname == "Tensor" or isinstance(args[0], int)
        ):
            return NotImplemented
        if name == "stack" or name == "cat":
            ts = args[0]
            dts = {t.dtype for t in ts}
            if len(dts) > 1:
                res = ts[0].dtype
                for t in ts[1:]:
                    res = torch.promote_types(res, t.dtype)
                ids = [self.convert(getids(t), t.dtype, res) for t in ts]
            else:
                res = ts[0].dtype
                ids = [getids(t) for t in ts]
            out = func(ids, *args[1:], **kwargs)
            return SymT(out, res)
        if kwargs.get("dtype") is not None:
            raise Unsupported(name + " with dtype")
        dt = None
        for x in itertools.chain(args, kwargs.values()):
            if isinstance(x, torch.Tensor):
                dt = x.dtype
                break
        a, k = self.ids_args(args, kwargs)
        out = func(*a, **k)
        return tree_map(lambda o: SymT(o, dt) if isinstance(o, torch.Tensor) else o, out)

    def sym_gather(self, t, dim, idx):
        ids = getids(t)
        dim = dim % max(t.dim(), 1)
        n = t.shape[dim]
        out = torch.empty(idx.shape, dtype=torch.int64)
        for pos in itertools.product(*[range(s) for s in idx.shape]):
            i = int(idx.ids[pos])
            out[pos] = self.pick(
                i, [int(ids[pos[:dim] + (k,) + pos[dim + 1 :]]) for k in range(n)]
            )
        return SymT(out, t.dtype)

    def pick(self, i, cands):
        """cands[i] for a symbolic integer node i (range checked)"""
        if dag.is_const(i):
            k = int(dag.cval(i))
            if not -len(cands) <= k < len(cands):
                raise IndexError("index out of range")
            return cands[k]
        vals = int_values(i)
        if vals is None:
            vals = range(len(cands))
        r = None
        for k in vals:
            if not 0 <= k < len(cands):
                if -len(cands) <= k < 0:
                    v = cands[k]
                else:
                    v = dag.const("nan")
            else:
                v = cands[k]
            r = v if r is None else dag.mk_ite(dag.mk_eq(i, dag.const(k)), v, r)
        return r

    def op_index(self, func, args, kwargs):
        t, indices = args
        idx = []
        symint = []
        for k, i in enumerate(indices):
            if isinstance(i, SymT):
                c = to_concrete(i)
                if c is None and i.dtype != torch.bool:
                    symint.append(k)
                    idx.append(i)
                    continue
                idx.append(force_concrete(i))
            else:
                idx.append(i)
        if not symint:
            if isinstance(t, SymT):
                return SymT(func(t.ids, idx), t.dtype)
            return self.plain_wrap(func(t, idx))
        # symbolic integer indices: enumerate their values by ITE
        ids = getids(t)
        choices = []
        for k in symint:
            vals = set()
            for n in set(idx[k].ids.reshape(-1).tolist()):
                iv = int_values(n)
                vals |= set(iv) if iv is not None else set(range(t.shape[k]))
            choices.append(sorted(vals))
        res = None
        for combo in itertools.product(*choices):
            ii = list(idx)
            conds = None
            shp = torch.broadcast_shapes(*[x.shape for x in idx if x is not None])
            oob = False
            for k, v in zip(symint, combo):
                vv = v
                if not -t.shape[k] <= v < t.shape[k]:
                    oob = True
                    vv = 0
                ii[k] = torch.full(tuple(idx[k].shape), vv, dtype=torch.int64)
                c = emap(lambda n: dag.mk_eq(n, dag.const(v)), idx[k].ids)
                conds = c if conds is None else emap(dag.mk_and, conds, c)
            val = func(ids, ii)
            if oob:
                val = torch.full_like(val, dag.const("nan"))
            # position of the broadcast index dims in the result
            nn = [k for k, x in enumerate(idx) if x is not None]
            first = nn[0] if nn == list(range(nn[0], nn[0] + len(nn))) else 0
            c = conds.expand(shp)
            c = c.reshape((1,) * first + tuple(shp) + (1,) * (val.dim() - first - len(shp)))
            res = val if res is None else emap(dag.mk_ite, c.expand(val.shape), val, res)
        return SymT(res, t.dtype)

    # ------------------------------------------------------------ elementwise
    def elementwise(self, func, name, args, kwargs):
        if name in UNARY:
            like = self.dummy(func, args, kwargs)
            x = args[0]
            if name == "isnan" or True:
                ids = self.pre(x, like if name != "isnan" else x)
            return self.finish(emap(UNARY[name], ids), like)
        if name in BINARY:
            like = self.dummy(func, args, kwargs)
            a = self.pre(args[0], like)
            b = self.pre(args[1], like)
            return self.finish(emap(BINARY[name], a, b), like)
        if name in CMP:
            like = self.dummy(func, args, kwargs)
            x, y = args[0], args[1]
            bx = isinstance(x, torch.Tensor) and x.dtype == torch.bool
            by = isinstance(y, torch.Tensor) and y.dtype == torch.bool or isinstance(y, bool)
            if bx and by and name in ("eq", "ne"):
                f = dag.mk_beq if name == "eq" else lambda a, b: dag.mk_not(dag.mk_beq(a, b))
                return self.finish(emap(f, getids(x), getids(y)), like)
            a = emap(dag.bool_to_real, getids(x)) if bx else getids(x)
            b = emap(dag.bool_to_real, getids(y)) if by else getids(y)
            return self.finish(emap(CMP[name], a, b), like)
        if name in LOGIC:
            like = self.dummy(func, args, kwargs)
            return self.finish(
                emap(LOGIC[name], self.asbool(args[0]), self.asbool(args[1])), like
            )
        return NotImplemented

    def asbool(self, x):
        ids = getids(x)
        if isinstance(x, bool) or (isinstance(x, torch.Tensor) and x.dtype == torch.bool):
            return ids
        return emap(dag.real_to_bool, ids)

    def pre(self, x, like):
        """operand ids converted to the computation dtype"""
        ids = getids(x)
        isb = isinstance(x, bool) or (isinstance(x, torch.Tensor) and x.dtype == torch.bool)
        if isb and like.dtype != torch.bool:
            return emap(dag.bool_to_real, ids)
        return ids

    def op_add(self, func, args, kwargs, sign=1):
        like = self.dummy(func, args, kwargs)
        alpha = kwargs.get("alpha", 1)
        if len(args) > 2:
            alpha = args[2]
        a, b = self.pre(args[0], like), self.pre(args[1], like)
        k = cid(alpha)
        if sign < 0:
            k = dag.mk_neg(k)
        return self.finish(
            emap(lambda x, y: dag.mk_add(x, dag.mk_mul(k, y)) if k != dag._NEG1() else dag.mk_sub(x, y), a, b), like
        )

    def op_sub(self, func, args, kwargs):
        return self.op_add(func, args, kwargs, -1)

    def op_rsub(self, func, args, kwargs):
        return self.op_add(func, (args[1], args[0]) + tuple(args[2:]), kwargs, -1) if isinstance(
            args[1], torch.Tensor
        ) else self._rsub_scalar(func, args, kwargs)

    def _rsub_scalar(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        alpha = cid(kwargs.get("alpha", 1) if len(args) < 3 else args[2])
        a, b = self.pre(args[0], like), self.pre(args[1], like)
        return self.finish(
            emap(lambda x, y: dag.mk_sub(y, dag.mk_mul(alpha, x)), a, b), like
        )

    def op_div(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        a, b = self.pre(args[0], like), self.pre(args[1], like)
        rm = kwargs.get("rounding_mode")
        if rm:
            return self.finish(emap(lambda x, y: _int_div(x, y, rm), a, b), like)
        return self.finish(emap(dag.mk_div, a, b), like)

    op_true_divide = op_div
    op_divide = op_div

    def op_floor_divide(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        a, b = self.pre(args[0], like), self.pre(args[1], like)
        return self.finish(emap(lambda x, y: _int_div(x, y, "floor"), a, b), like)

    def op_logical_not(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        return self.finish(emap(dag.mk_not, self.asbool(args[0])), like)

    op_bitwise_not = op_logical_not

    def op_isinf(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        f = lambda n: int(dag.is_const(n) and dag.cval(n) in ("inf", "-inf"))
        return self.finish(emap(f, getids(args[0])), like)

    def op_isfinite(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        f = lambda n: int(dag.cval(n) not in dag.SPECIAL) if dag.is_const(n) else dag.mk_not(dag.mk_isnan(n))
        return self.finish(emap(f, getids(args[0])), like)

    def op_nan_to_num(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        nan = args[1] if len(args) > 1 else kwargs.get("nan")
        k = cid(nan or 0.0)
        return self.finish(
            emap(lambda n: dag.mk_ite(dag.mk_isnan(n), k, n), getids(args[0])), like
        )

    def op_where(self, func, args, kwargs):
        if len(args) == 1:
            return NotImplemented
        like = self.dummy(func, args, kwargs)
        c = self.asbool(args[0])
        a, b = self.pre(args[1], like), self.pre(args[2], like)
        f = dag.mk_ite if like.dtype != torch.bool else dag.mk_bite
        return self.finish(emap(f, c, a, b), like)

    def op_masked_fill(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        x, m, v = args
        f = dag.mk_ite if like.dtype != torch.bool else dag.mk_bite
        return self.finish(emap(lambda c, a, b: f(c, b, a), getids(m), getids(x), self.pre(v, like)), like)

    def op_clamp(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        lo = args[1] if len(args) > 1 else kwargs.get("min")
        hi = args[2] if len(args) > 2 else kwargs.get("max")
        x = self.pre(args[0], like)
        if lo is not None:
            x = emap(dag.mk_max, x, self.pre(lo, like))
        if hi is not None:
            x = emap(dag.mk_min, x, self.pre(hi, like))
        return self.finish(x, like)

    op_clip = op_clamp

    def op_clamp_min(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        return self.finish(emap(dag.mk_max, self.pre(args[0], like), self.pre(args[1], like)), like)

    def op_clamp_max(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        return self.finish(emap(dag.mk_min, self.pre(args[0], like), self.pre(args[1], like)), like)

    def op_threshold_backward(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        g, x, t = args
        k = cid(t)
        return self.finish(emap(lambda a, b: dag.mk_ite(dag.mk_le(b, k), 0, a), getids(g), getids(x)), like)

    def op_tanh_backward(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        g, o = args
        return self.finish(
            emap(lambda a, b: dag.mk_mul(a, dag.mk_sub(1, dag.mk_mul(b, b))), getids(g), getids(o)), like
        )

    def op_sigmoid_backward(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        g, o = args
        return self.finish(
            emap(lambda a, b: dag.mk_mul(a, dag.mk_mul(b, dag.mk_sub(1, b))), getids(g), getids(o)), like
        )

    def op_addcmul(self, func, args, kwargs, div=False):
        like = self.dummy(func, args, kwargs)
        v = cid(kwargs.get("value", 1))
        op = dag.mk_div if div else dag.mk_mul
        return self.finish(
            emap(lambda a, b, c: dag.mk_add(a, dag.mk_mul(v, op(b, c))), *[getids(x) for x in args[:3]]), like
        )

    def op_addcdiv(self, func, args, kwargs):
        return self.op_addcmul(func, args, kwargs, True)

    def op_lerp(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        return self.finish(
            emap(lambda a, b, w: dag.mk_add(a, dag.mk_mul(w, dag.mk_sub(b, a))), *[getids(x) for x in args[:3]]), like
        )

    # ------------------------------------------------------------ conversions
    def op__to_copy(self, func, args, kwargs):
        x = args[0]
        dt = kwargs.get("dtype") or x.dtype
        ids = self.convert(getids(x), x.dtype, dt)
        out = torch.empty_strided(x.shape, x.stride(), dtype=torch.int64)
        out.copy_(ids)
        return self.finish(out, out, dt)

    op_to = op__to_copy

    def op__local_scalar_dense(self, func, args, kwargs):
        x = args[0]
        if isinstance(x, SymT):
            return scalar(int(x.ids.reshape(-1)[0]), x.dtype)
        return func(x)

    op_item = op__local_scalar_dense

    def op_is_nonzero(self, func, args, kwargs):
        x = args[0]
        n = int(x.ids.reshape(-1)[0])
        if x.dtype != torch.bool:
            n = dag.real_to_bool(n)
        return scalar(n, torch.bool)

    def op_equal(self, func, args, kwargs):
        x, y = args
        if x.shape != y.shape:
            return False
        bx = x.dtype == torch.bool
        f = dag.mk_beq if bx else dag.mk_eq
        r = 1
        for n in emap(f, getids(x), getids(y)).reshape(-1).tolist():
            r = dag.mk_and(r, n)
        return scalar(r, torch.bool)

    def op_nonzero(self, func, args, kwargs):
        x = args[0]
        if x.dtype != torch.bool:
            x = SymT(emap(dag.real_to_bool, getids(x)), torch.bool)
        return func(force_concrete(x))

    # -------------------------------------------------------------- factories
    def _like(self, func, args, kwargs, val):
        d = self.dummy(func, args, kwargs)
        if d.dtype.is_floating_point or d.dtype == torch.bool:
            ids = torch.empty_strided(d.shape, d.stride(), dtype=torch.int64)
            ids.fill_(val)
            return SymT(ids, d.dtype)
        if val == dag.const("nan"):
            val = 0
        d.fill_(int(dag.cval(val)))
        return d

    def op_zeros_like(self, func, args, kwargs):
        return self._like(func, args, kwargs, 0)

    op_new_zeros = op_zeros_like

    def op_ones_like(self, func, args, kwargs):
        return self._like(func, args, kwargs, 1)

    op_new_ones = op_ones_like

    def op_empty_like(self, func, args, kwargs):
        return self._like(func, args, kwargs, dag.const("nan"))

    op_new_empty = op_empty_like
    op_new_empty_strided = op_empty_like

    def op_full_like(self, func, args, kwargs):
        return self._like(func, args, kwargs, cid(args[1]))

    def op_new_full(self, func, args, kwargs):
        return self._like(func, args, kwargs, cid(args[2]))

    def op_rand_like(self, func, args, kwargs):
        raise Unsupported("random numbers")

    op_randn_like = op_rand_like

    def op_constant_pad_nd(self, func, args, kwargs):
        v = args[2] if len(args) > 2 else kwargs.get("value", 0)
        return SymT(func(args[0].ids, args[1], cid(v)), args[0].dtype)

    def op_linspace(self, func, args, kwargs):
        a, b, n = args[:3]
        a, b = int(getids(a).reshape(())), int(getids(b).reshape(()))
        out = []
        for i in range(n):
            w = dag.const(Fraction(i, n - 1)) if n > 1 else 0
            out.append(dag.mk_add(a, dag.mk_mul(w, dag.mk_sub(b, a))))
        return SymT(torch.tensor(out, dtype=torch.int64))

    def op_logspace(self, func, args, kwargs):
        base = args[3] if len(args) > 3 else kwargs.get("base", 10.0)
        r = self.op_linspace(func, args[:3], {})
        b = dag.const(Fraction(base))
        return SymT(emap(lambda n: dag.mk_pow(b, n), r.ids))

    # ------------------------------------------------------------- reductions
    def red(self, func, args, kwargs, fn, init, real=True):
        like = self.dummy(func, args, kwargs)
        x = args[0]
        dims = args[1] if len(args) > 1 else kwargs.get("dim")
        keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
        ids = self.pre(x, like) if real else getids(x)
        if real and like.dtype == torch.int64 and x.dtype == torch.bool:
            ids = emap(dag.bool_to_real, getids(x))
        return self.finish(fold(fn, init, ids, dims, keep), like)

    def op_sum(self, func, args, kwargs):
        return self.red(func, args, kwargs, _chain(dag.mk_add), 0)

    def op_mean(self, func, args, kwargs):
        def f(l, init):
            return dag.mk_div(sum_ids(l), dag.const(len(l)))

        return self.red(func, args, kwargs, f, None)

    def op_prod(self, func, args, kwargs):
        return self.red(func, args, kwargs, _chain(dag.mk_mul), 1)

    def op_amax(self, func, args, kwargs):
        return self.red(func, args, kwargs, _chain(dag.mk_max), None)

    def op_amin(self, func, args, kwargs):
        return self.red(func, args, kwargs, _chain(dag.mk_min), None)

    def _minmax(self, func, args, kwargs, fn, better):
        if len(args) == 1 and not kwargs:
            return self.red(func, args, kwargs, _chain(fn), None)
        if len(args) > 1 and isinstance(args[1], torch.Tensor):
            like = self.dummy(func, args, kwargs)
            return self.finish(emap(fn, getids(args[0]), getids(args[1])), like)
        like = self.dummy(func, args, kwargs)
        x = args[0]
        dim = args[1] if len(args) > 1 else kwargs["dim"]
        keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
        v = fold(_chain(fn), None, getids(x), dim, keep)
        i = fold(self._arg(better), None, getids(x), dim, keep)
        return type(like)((self.finish(v, like[0]), self.finish(i, like[1])))

    @staticmethod
    def _arg(better):
        def f(l, init):
            best, bi = l[0], dag.const(0)
            for k, v in enumerate(l[1:], 1):
                c = better(v, best)
                bi = dag.mk_ite(c, dag.const(k), bi)
                best = dag.mk_ite(c, v, best)
            return bi

        return f

    def op_max(self, func, args, kwargs):
        return self._minmax(func, args, kwargs, dag.mk_max, lambda a, b: dag.mk_lt(b, a))

    def op_min(self, func, args, kwargs):
        return self._minmax(func, args, kwargs, dag.mk_min, dag.mk_lt)

    def op_argmax(self, func, args, kwargs, better=None):
        better = better or (lambda a, b: dag.mk_lt(b, a))
        like = self.dummy(func, args, kwargs)
        x = args[0]
        dim = args[1] if len(args) > 1 else kwargs.get("dim")
        keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
        ids = getids(x)
        if x.dtype == torch.bool:
            ids = emap(dag.bool_to_real, ids)
        return self.finish(fold(self._arg(better), None, ids, dim, keep), like)

    def op_argmin(self, func, args, kwargs):
        return self.op_argmax(func, args, kwargs, dag.mk_lt)

    def op_any(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        dims = args[1] if len(args) > 1 else kwargs.get("dim")
        keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
        return self.finish(fold(_chain(dag.mk_or), 0, self.asbool(args[0]), dims, keep), like)

    def op_all(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        dims = args[1] if len(args) > 1 else kwargs.get("dim")
        keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
        return self.finish(fold(_chain(dag.mk_and), 1, self.asbool(args[0]), dims, keep), like)

    def op_count_nonzero(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        dims = args[1] if len(args) > 1 else kwargs.get("dim")
        ids = emap(dag.bool_to_real, self.asbool(args[0]))
        return self.finish(fold(_chain(dag.mk_add), 0, ids, dims, False), like)

    def _cum(self, func, args, kwargs, fn):
        like = self.dummy(func, args, kwargs)
        x = args[0]
        dim = args[1] if len(args) > 1 else kwargs["dim"]
        ids = self.pre(x, like)
        if x.dim() == 0:
            return self.finish(ids, like)
        dim %= x.dim()
        p = ids.movedim(dim, 0)
        out = [p[0]] if p.shape[0] else []
        for i in range(1, p.shape[0]):
            out.append(emap(fn, out[-1], p[i]))
        r = torch.stack(out).movedim(0, dim) if out else ids
        return self.finish(r, like)

    def op_cumsum(self, func, args, kwargs):
        return self._cum(func, args, kwargs, dag.mk_add)

    def op_cumprod(self, func, args, kwargs):
        return self._cum(func, args, kwargs, dag.mk_mul)

    def op_linalg_vector_norm(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        x = args[0]
        p = args[1] if len(args) > 1 else kwargs.get("ord", 2)
        dims = args[2] if len(args) > 2 else kwargs.get("dim")
        keep = args[3] if len(args) > 3 else kwargs.get("keepdim", False)

        def f(l, init):
            if p == 2:
                if len(l) == 1:
                    return dag.mk_abs(l[0])
                return dag.mk_sqrt(sum_ids([dag.mk_mul(a, a) for a in l]))
            if p == 1:
                return sum_ids([dag.mk_abs(a) for a in l])
            if p == float("inf"):
                return _chain(dag.mk_max)([dag.mk_abs(a) for a in l], None)
            raise Unsupported("norm order %s" % p)

        return self.finish(fold(f, None, getids(x), dims, keep), like)

    def op_norm(self, func, args, kwargs):
        x = args[0]
        p = args[1] if len(args) > 1 else kwargs.get("p", 2)
        if p is None:
            p = 2
        dims = args[2] if len(args) > 2 else kwargs.get("dim")
        keep = args[3] if len(args) > 3 else kwargs.get("keepdim", False)
        return self.op_linalg_vector_norm(
            aten.linalg_vector_norm.default, (x, p, dims, keep), {}
        )

    # ---------------------------------------------------------------- linalg
    def op_mm(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        a, b = getids(args[0]), getids(args[1])
        return self.finish(bmm_ids(a[None], b[None])[0], like)

    def op_bmm(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        return self.finish(bmm_ids(getids(args[0]), getids(args[1])), like)

    def op_mv(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        return self.finish(bmm_ids(getids(args[0])[None], getids(args[1])[None, :, None])[0, :, 0], like)

    def op_dot(self, func, args, kwargs):
        like = self.dummy(func, args, kwargs)
        return self.finish(bmm_ids(getids(args[0])[None, None], getids(args[1])[None, :, None])[0, 0, 0], like)

    op_vdot = op_dot

    def _addm(self, func, args, kwargs, prod):
        like = self.dummy(func, args, kwargs)
        beta, alpha = cid(kwargs.get("beta", 1)), cid(kwargs.get("alpha", 1))
        p = prod(getids(args[1]), getids(args[2]))
        return self.finish(
            emap(lambda c, x: dag.mk_add(dag.mk_mul(beta, c), dag.mk_mul(alpha, x)), getids(args[0]), p), like
        )

    def op_addmm(self, func, args, kwargs):
        return self._addm(func, args, kwargs, lambda a, b: bmm_ids(a[None], b[None])[0])

    def op_baddbmm(self, func, args, kwargs):
        return self._addm(func, args, kwargs, bmm_ids)

    def op_addmv(self, func, args, kwargs):
        return self._addm(func, args, kwargs, lambda a, b: bmm_ids(a[None], b[None, :, None])[0, :, 0])

    def op__linalg_solve_ex(self, func, args, kwargs):
        A, B = args[0], args[1]
        left = kwargs.get("left", True)
        Ai, Bi = getids(A), getids(B)
        like = self.dummy(func, (A, B), {**kwargs, "check_errors": False})
        vec = Bi.dim() == 1 or (
            Ai.dim() - 1 == Bi.dim() and tuple(Ai.shape[:-1]) == tuple(Bi.shape)
        )
        if vec:
            r = solve_ids(Ai, Bi.unsqueeze(-1), left).squeeze(-1)
        else:
            r = solve_ids(Ai, Bi, left)
        LU = SymT(Ai.clone(), A.dtype)
        piv = SymT(_pivots(Ai), torch.int32)
        info = torch.zeros(Ai.shape[:-2], dtype=torch.int32)
        return (self.finish(r, like[0]), LU, piv, info)

    def op_linalg_solve_ex(self, func, args, kwargs):
        r = self.op__linalg_solve_ex(aten._linalg_solve_ex.default, args, kwargs)
        return r[0], r[3]

    def op_linalg_lu_solve(self, func, args, kwargs):
        LU, piv, B = args[:3]
        left = kwargs.get("left", True)
        Ai = getids(LU)
        want = _pivots(Ai)
        pi = getids(piv)
        if want.shape != pi.shape or not torch.equal(want, pi):
            shp = torch.broadcast_shapes(LU.shape[:-2], B.shape[:-2]) + B.shape[-2:]
            n = 1
            for s in shp:
                n *= s
            ids = torch.tensor([fresh("badlu") for _ in range(n)], dtype=torch.int64)
            return SymT(ids.reshape(shp))
        if kwargs.get("adjoint", False):
            Ai = Ai.transpose(-1, -2)
        r = solve_ids(Ai, getids(B), left)
        return SymT(r.contiguous(), B.dtype)

    def op_linalg_lu_factor_ex(self, func, args, kwargs):
        A = getids(args[0])
        return (
            # (the factors come column by column)
            SymT(A.mT.clone(memory_format=torch.contiguous_format).mT, args[0].dtype),
            SymT(_pivots(A), torch.int32),
            torch.zeros(A.shape[:-2], dtype=torch.int32),
        )

    def op_linalg_inv_ex(self, func, args, kwargs):
        A = getids(args[0])
        n = A.shape[-1]
        eye = torch.eye(n, dtype=torch.int64).expand(A.shape)
        r = solve_ids(A, eye)
        return SymT(r.contiguous(), args[0].dtype), torch.zeros(A.shape[:-2], dtype=torch.int32)

    def op_linalg_inv(self, func, args, kwargs):
        return self.op_linalg_inv_ex(func, args, kwargs)[0]

    op_inverse = op_linalg_inv

    def op__linalg_det(self, func, args, kwargs):
        A = getids(args[0])
        n = A.shape[-1]
        o = [det_ids(m) for m in A.reshape(-1, n, n).tolist()]
        r = SymT(torch.tensor(o, dtype=torch.int64).reshape(A.shape[:-2]), args[0].dtype)
        return r, SymT(A.clone(), args[0].dtype), SymT(_pivots(A), torch.int32)

    def op_linalg_solve_triangular(self, func, args, kwargs):
        A, B = getids(args[0]), getids(args[1])
        up = kwargs["upper"]
        A = torch.triu(A) if up else torch.tril(A)
        if kwargs.get("unitriangular"):
            A = A.clone()
            A.diagonal(dim1=-2, dim2=-1).fill_(1)
        return SymT(solve_ids(A, B, kwargs.get("left", True)).contiguous(), args[1].dtype)

    def op_searchsorted(self, func, args, kwargs):
        s, v = args[0], args[1]
        right = kwargs.get("right", False) or kwargs.get("side") == "right"
        si, vi = getids(s), getids(v)
        f = (lambda x, y: dag.mk_le(x, y)) if right else (lambda x, y: dag.mk_lt(x, y))
        if si.dim() == 1:
            flat = si.tolist()
            o = [sum_ids([dag.bool_to_real(f(x, y)) for x in flat]) for y in vi.reshape(-1).tolist()]
            return self.finish(torch.tensor(o, dtype=torch.int64).reshape(vi.shape), torch.empty(vi.shape, dtype=torch.int64))
        S = si.reshape(-1, si.shape[-1]).tolist()
        V = vi.reshape(-1, vi.shape[-1]).tolist()
        o = [[sum_ids([dag.bool_to_real(f(x, y)) for x in a]) for y in b] for a, b in zip(S, V)]
        return self.finish(torch.tensor(o, dtype=torch.int64).reshape(vi.shape), torch.empty(vi.shape, dtype=torch.int64))

    def op_bucketize(self, func, args, kwargs):
        return self.op_searchsorted(func, (args[1], args[0]), kwargs)


def all_int(n):
    return int_values(n) is not None


_IV = {}


def int_values(n):
    """finite set of integer values a symbolic node may take, or None"""
    if n in _IV:
        return _IV[n]
    op, a = dag.OPS[n], dag.ARGS[n]
    r = None
    if op == "c":
        v = a[0]
        r = [v] if isinstance(v, int) else None
    elif op == "ite":
        x, y = int_values(a[1]), int_values(a[2])
        if x is not None and y is not None:
            r = sorted(set(x) | set(y))
    elif op in ("+", "*"):
        x, y = int_values(a[0]), int_values(a[1])
        if x is not None and y is not None and len(x) * len(y) < 2000:
            if op == "+":
                r = sorted({p + q for p in x for q in y})
            else:
                r = sorted({p * q for p in x for q in y})
    _IV[n] = r
    return r


def reset():
    dag.reset()
    _adj_cache.clear()
    _IV.clear()
    FRESH[0] = 0
