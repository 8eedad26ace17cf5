"""
Hash-consed expression DAG over the reals (and booleans).

Node ids are plain ints.  id 0 is the constant 0 (or False when it is read as a
boolean), id 1 the constant 1 (or True).  All other nodes are created by the
``mk_*`` functions, which fold constants and apply a handful of exact local
simplifications.  Every constant is a rational (fractions.Fraction / int) or
one of the three IEEE specials, kept as the strings "inf", "-inf", "nan".
"""

import math
from fractions import Fraction

OPS = []
ARGS = []
_TAB = {}


def _mk(op, *args):
    k = (op,) + args
    r = _TAB.get(k)
    if r is None:
        r = len(OPS)
        OPS.append(op)
        ARGS.append(args)
        _TAB[k] = r
    return r


def reset():
    OPS.clear()
    ARGS.clear()
    _TAB.clear()
    _DIFF.clear()
    assert _mk("c", 0) == 0
    assert _mk("c", 1) == 1


class Unsupported(Exception):
    """The engine cannot encode this construct (never a verdict)."""


_DIFF = {}
# harness assumption: a norm divided by itself is not 0/0
GENERIC = [False]

SPECIAL = ("inf", "-inf", "nan")


def norm_num(v):
    """int / Fraction -> canonical python number"""
    if isinstance(v, Fraction):
        return v.numerator if v.denominator == 1 else v
    return v


_RATC = {}


def rat(x):
    """Read a python float as the real number it stands for."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return norm_num(x)
    x = float(x)
    r = _RATC.get(x)
    if r is not None and x != 0.0:
        return r
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    if x == int(x) and abs(x) < 1e15:
        return int(x)
    f = Fraction(x).limit_denominator(1000)
    if f.numerator and float(f) == x:
        r = norm_num(f)
    else:
        r = norm_num(Fraction(repr(x)))
    _RATC[x] = r
    return r


def _square_rational(x):
    """x is (to the last bit or two) sqrt of a simple rational: return it"""
    x = float(x)
    if not math.isfinite(x) or x == 0:
        return None
    f = Fraction(x * x).limit_denominator(60)
    if f.numerator == 0:
        return None
    if abs(math.sqrt(f) - abs(x)) <= 4e-16 * abs(x):
        return norm_num(f)
    return None


LN10 = math.log(10.0)


def const(x):
    if isinstance(x, float):
        r = rat(x)
        if isinstance(r, Fraction) and r.denominator > 10**6:
            if x == LN10:
                return mk_log(_mk("c", 10))
            q = _square_rational(x)
            if q is not None:
                s = mk_pow(_mk("c", q), _mk("c", Fraction(1, 2)))
                return s if x > 0 else mk_mul(_mk("c", -1), s)
        return _mk("c", r)
    return _mk("c", norm_num(x))


def is_const(n):
    return OPS[n] == "c"


def cval(n):
    return ARGS[n][0]


def var(name, sort="R"):
    return _mk("v" if sort == "R" else "bv", name)


def _sp(v):
    return isinstance(v, str)


def _sign_num(v):
    if v == "inf":
        return 1
    if v == "-inf":
        return -1
    return (v > 0) - (v < 0)


def mk_add(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    ca, cb = OPS[a] == "c", OPS[b] == "c"
    if ca and cb:
        x, y = ARGS[a][0], ARGS[b][0]
        if _sp(x) or _sp(y):
            if x == "nan" or y == "nan":
                return _mk("c", "nan")
            if _sp(x) and _sp(y):
                return _mk("c", x if x == y else "nan")
            return a if _sp(x) else b
        return _mk("c", norm_num(x + y))
    # specials dominate finite symbolic values
    if ca and _sp(ARGS[a][0]):
        return a
    if cb and _sp(ARGS[b][0]):
        return b
    if OPS[a] == "*" and ARGS[a] == (_NEG1(), b):
        return 0
    if OPS[b] == "*" and ARGS[b] == (_NEG1(), a):
        return 0
    if a > b:
        a, b = b, a
    return _mk("+", a, b)


def _NEG1():
    return _mk("c", -1)


def mk_neg(a):
    return mk_mul(_NEG1(), a)


def mk_sub(a, b):
    if a == b and not (OPS[a] == "c" and _sp(ARGS[a][0])):
        return 0
    return mk_add(a, mk_neg(b))


def mk_mul(a, b):
    ca, cb = OPS[a] == "c", OPS[b] == "c"
    if ca and cb:
        x, y = ARGS[a][0], ARGS[b][0]
        if _sp(x) or _sp(y):
            if x == "nan" or y == "nan" or x == 0 or y == 0:
                return _mk("c", "nan")
            return _mk("c", "inf" if _sign_num(x) * _sign_num(y) > 0 else "-inf")
        return _mk("c", norm_num(x * y))
    if cb:
        a, b = b, a
        ca = True
    if ca:
        x = ARGS[a][0]
        if x == 0:
            return 0
        if x == 1:
            return b
        if x == "nan":
            return a
        if not _sp(x) and OPS[b] == "*" and OPS[ARGS[b][0]] == "c":
            y = ARGS[ARGS[b][0]][0]
            if not _sp(y):
                return mk_mul(_mk("c", norm_num(x * y)), ARGS[b][1])
        return _mk("*", a, b)
    for x, y in ((a, b), (b, a)):
        if OPS[y] == "/" and OPS[ARGS[y][0]] == "c" and ARGS[ARGS[y][0]][0] == 1 and (GENERIC[0] or _is_norm(ARGS[y][1])):
            return mk_div(x, ARGS[y][1])
    if a > b:
        a, b = b, a
    return _mk("*", a, b)


def mk_div(a, b, assumed=False):
    """assumed=True: the divisor is non-zero by assumption (determinants)"""
    if OPS[b] == "c":
        y = ARGS[b][0]
        if y == "nan":
            return b
        if y in ("inf", "-inf"):
            if OPS[a] == "c" and _sp(ARGS[a][0]):
                return _mk("c", "nan")
            return 0
        if y == 0:
            if OPS[a] == "c":
                x = ARGS[a][0]
                if x == 0 or x == "nan":
                    return _mk("c", "nan")
                return _mk("c", "inf" if _sign_num(x) > 0 else "-inf")
            return _mk("/", a, b)
        return mk_mul(_mk("c", norm_num(Fraction(1) / Fraction(y))), a)
    if assumed:
        if a == 0:
            return 0
        if a == b:
            return 1
        return _mk("/x", a, b)
    if GENERIC[0] and a == 0 and _is_norm(b):
        return 0
    if a == b and _is_norm(a):
        if GENERIC[0]:
            return 1
        return mk_ite(mk_eq(a, 0), _mk("c", "nan"), 1)
    return _mk("/", a, b)


def _abs_arg(n):
    """x if n is |x|"""
    if OPS[n] == "ite":
        c, x, y = ARGS[n]
        if OPS[c] == "le" and ARGS[c][0] == 0 and ARGS[c][1] == x and y == mk_neg(x):
            return x
    return None


def _is_norm(n):
    return (OPS[n] == "pow" and ARGS[n][1] == _mk("c", HALF)) or _abs_arg(n) is not None


def _sq_terms(n, out):
    """True if n is a sum of squares; collects the squared terms"""
    if OPS[n] == "+":
        return _sq_terms(ARGS[n][0], out) and _sq_terms(ARGS[n][1], out)
    if OPS[n] == "*" and ARGS[n][0] == ARGS[n][1]:
        out.append(ARGS[n][0])
        return True
    if OPS[n] == "*" and OPS[ARGS[n][0]] == "c" and not _sp(ARGS[ARGS[n][0]][0]) and ARGS[ARGS[n][0]][0] > 0:
        return _sq_terms(ARGS[n][1], out)
    if OPS[n] == "pow" and ARGS[n][1] == _mk("c", 2):
        out.append(ARGS[n][0])
        return True
    return False


def mk_pow(a, b):
    if OPS[b] == "c":
        e = ARGS[b][0]
        if e == 0:
            return 1
        if e == 1:
            return a
        if not _sp(e):
            if OPS[a] == "c":
                x = ARGS[a][0]
                if not _sp(x):
                    if isinstance(e, int) and abs(e) < 10000:
                        if x == 0:
                            return 0 if e > 0 else _mk("c", "inf")
                        return _mk("c", norm_num(Fraction(x) ** e))
                    if x == 0:
                        return 0 if e > 0 else _mk("c", "inf")
                    if x == 1:
                        return 1
                    if x < 0:
                        return _mk("c", "nan")
                    if e == Fraction(1, 2):
                        x = Fraction(x)
                        p, q = math.isqrt(x.numerator), math.isqrt(x.denominator)
                        if p * p == x.numerator and q * q == x.denominator:
                            return _mk("c", norm_num(Fraction(p, q)))
                elif x == "inf":
                    return a if e > 0 else 0
            if e == Fraction(1, 2) and OPS[a] == "*" and ARGS[a][0] == ARGS[a][1]:
                return mk_abs(ARGS[a][0])
            if e == Fraction(1, 2) and OPS[a] == "pow" and ARGS[a][1] == _mk("c", 2):
                return mk_abs(ARGS[a][0])
    if a == 1:
        return 1
    return _mk("pow", a, b)


HALF = Fraction(1, 2)


def mk_sqrt(a):
    return mk_pow(a, _mk("c", HALF))


def mk_exp(a):
    if a == 0:
        return 1
    if OPS[a] == "c":
        if ARGS[a][0] == "-inf":
            return 0
        if _sp(ARGS[a][0]):
            return a
    if OPS[a] == "log":
        return ARGS[a][0]
    return _mk("exp", a)


def mk_log(a):
    if a == 1:
        return 0
    if OPS[a] == "c":
        v = ARGS[a][0]
        if v == 0:
            return _mk("c", "-inf")
        if _sp(v):
            return a if v == "inf" else _mk("c", "nan")
        if v < 0:
            return _mk("c", "nan")
    if OPS[a] == "exp":
        return ARGS[a][0]
    return _mk("log", a)


def mk_fn(name, *args):
    """opaque real function of real arguments (sin, cos, ..., or uninterpreted)"""
    return _mk("fn", name, *args)


# ---------------------------------------------------------------- booleans


def mk_not(a):
    if a == 0:
        return 1
    if a == 1:
        return 0
    if OPS[a] == "not":
        return ARGS[a][0]
    return _mk("not", a)


def mk_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a == b:
        return a
    if a > b:
        a, b = b, a
    return _mk("and", a, b)


def mk_or(a, b):
    return mk_not(mk_and(mk_not(a), mk_not(b)))


def _cmpc(a, b):
    x, y = ARGS[a][0], ARGS[b][0]
    if x == "nan" or y == "nan":
        return None
    if _sp(x) or _sp(y):
        vx = float(x) if _sp(x) else 0.0
        vy = float(y) if _sp(y) else 0.0
        return (vx > vy) - (vx < vy)
    return (x > y) - (x < y)


def _special_cmp(a, b):
    """finite symbolic vs special constant: -1/0/1, or None/'nan'"""
    if OPS[a] == "c" and _sp(ARGS[a][0]):
        v = ARGS[a][0]
        return {"inf": 1, "-inf": -1, "nan": "nan"}[v]
    if OPS[b] == "c" and _sp(ARGS[b][0]):
        v = ARGS[b][0]
        return {"inf": -1, "-inf": 1, "nan": "nan"}[v]
    return None


def _gsign(n, memo):
    """sign of an expression built from norms (taken as non-zero) and constants: 1, -1, 0 or None"""
    if n in memo:
        return memo[n]
    o, r = OPS[n], None
    if o == "c":
        v = ARGS[n][0]
        r = None if v == "nan" else 1 if v == "inf" else -1 if v == "-inf" else (v > 0) - (v < 0)
    elif _is_norm(n):
        r = 1
    elif o in ("*", "/", "+", "ite"):
        p, q = (_gsign(k, memo) for k in ARGS[n][-2:])
        if p is not None and q is not None:
            if o in ("*", "/"):
                r = p * q if o == "*" or q else None
            elif o == "+":
                r = p if q == 0 or p == q else q if p == 0 else None
            else:
                r = p if p == q else None
    memo[n] = r
    return r


def _generic_less(a, b):
    """a < b decided by signs alone (only called when norms are generic)"""
    memo = {}
    p = _gsign(a, memo)
    if p is None:
        return None
    q = _gsign(b, memo)
    if q is None:
        return None
    # a comparison of zero with a lone norm asks whether something vanished: leave it open
    if p < q and (p < 0 or OPS[b] == "c" or not _is_norm(b)):
        return 1
    if p > q and (q < 0 or OPS[a] == "c" or not _is_norm(a)):
        return 0
    return None


def mk_lt(a, b):
    if OPS[a] == "c" and OPS[b] == "c":
        c = _cmpc(a, b)
        return int(c is not None and c < 0)
    if a == b:
        return 0
    s = _special_cmp(a, b)
    if s is not None:
        return int(s == -1)
    if GENERIC[0]:
        v = _generic_less(a, b)
        if v is not None:
            return v
    return _mk("lt", a, b)


def mk_le(a, b):
    if OPS[a] == "c" and OPS[b] == "c":
        c = _cmpc(a, b)
        return int(c is not None and c <= 0)
    if a == b:
        return 1
    s = _special_cmp(a, b)
    if s is not None:
        return int(s == -1)
    if GENERIC[0]:
        v = _generic_less(a, b)
        if v is not None:
            return v
    return _mk("le", a, b)


def mk_eq(a, b):
    if OPS[a] == "c" and OPS[b] == "c":
        c = _cmpc(a, b)
        return int(c == 0)
    if a == b:
        return 1
    s = _special_cmp(a, b)
    if s is not None:
        return 0
    if a > b:
        a, b = b, a
    if a == 0:
        if OPS[b] == "pow" and ARGS[b][1] == _mk("c", HALF):
            return mk_eq(ARGS[b][0], 0)
        x = _abs_arg(b)
        if x is not None:
            return mk_eq(x, 0)
        sq = []
        if _sq_terms(b, sq):
            r = 1
            for x in sq:
                r = mk_and(r, mk_eq(x, 0))
            return r
        if OPS[b] == "*" and OPS[ARGS[b][0]] == "c" and ARGS[ARGS[b][0]][0] not in (0, "inf", "-inf", "nan"):
            return mk_eq(ARGS[b][1], 0)
    return _mk("eq", a, b)


def is_boolop(n):
    return OPS[n] in ("lt", "le", "eq", "not", "and", "bv", "isnan")


def mk_beq(a, b):
    """boolean equality"""
    return mk_or(mk_and(a, b), mk_and(mk_not(a), mk_not(b)))


def mk_isnan(a):
    if OPS[a] == "c":
        return int(ARGS[a][0] == "nan")
    if OPS[a] == "v":
        return 0
    return _mk("isnan", a)


def mk_ite(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    if a == b:
        return a
    if OPS[c] == "not":
        return mk_ite(ARGS[c][0], b, a)
    return _mk("ite", c, a, b)


def mk_bite(c, a, b):
    """ite on booleans"""
    if c == 1:
        return a
    if c == 0:
        return b
    if a == b:
        return a
    return mk_or(mk_and(c, a), mk_and(mk_not(c), b))


def mk_abs(a):
    if OPS[a] == "c":
        v = ARGS[a][0]
        if v == "-inf":
            return _mk("c", "inf")
        return a if v == "nan" or _sp(v) or v >= 0 else _mk("c", -v)
    return mk_ite(mk_le(0, a), a, mk_neg(a))


def mk_sign(a):
    return mk_ite(mk_lt(0, a), 1, mk_ite(mk_lt(a, 0), _NEG1(), 0))


def mk_max(a, b):
    if a == b:
        return a
    return mk_ite(mk_le(b, a), a, b)


def mk_min(a, b):
    if a == b:
        return a
    return mk_ite(mk_le(a, b), a, b)


def bool_to_real(b):
    return mk_ite(b, 1, 0)


def real_to_bool(a):
    return mk_not(mk_eq(a, 0))


def mk_tanh(a):
    if a == 0:
        return 0
    e = mk_exp(a)
    f = mk_exp(mk_neg(a))
    return mk_div(mk_sub(e, f), mk_add(e, f), assumed=True)


def mk_cosh(a):
    return mk_mul(_mk("c", HALF), mk_add(mk_exp(a), mk_exp(mk_neg(a))))


def mk_sinh(a):
    return mk_mul(_mk("c", HALF), mk_sub(mk_exp(a), mk_exp(mk_neg(a))))


def mk_sigmoid(a):
    return mk_div(1, mk_add(1, mk_exp(mk_neg(a))), assumed=True)


# ------------------------------------------------------------- traversal


def topo(roots):
    """ids reachable from roots, children first (ids are already topological)"""
    seen = set()
    stack = list(roots)
    while stack:
        n = stack.pop()
        if n in seen:
            continue
        seen.add(n)
        op = OPS[n]
        if op in ("c", "v", "bv"):
            continue
        a = ARGS[n]
        stack.extend(a[1:] if op == "fn" else a)
    return sorted(seen)


def free_vars(roots):
    return [n for n in topo(roots) if OPS[n] in ("v", "bv")]


FN_NUM = {
    "sin": math.sin,
    "cos": math.cos,
    "tan": math.tan,
    "atan": math.atan,
    "floor": math.floor,
    "erf": math.erf,
    "lgamma": math.lgamma,
}


def evaluate(roots, env, memo=None):
    """Numeric (double) evaluation; env: var name -> float/bool"""
    memo = {} if memo is None else memo
    nan = float("nan")
    for n in topo(roots):
        if n in memo:
            continue
        op = OPS[n]
        a = ARGS[n]
        try:
            if op == "c":
                v = float(a[0])
            elif op in ("v", "bv"):
                v = env[a[0]]
            elif op == "+":
                v = memo[a[0]] + memo[a[1]]
            elif op == "*":
                v = memo[a[0]] * memo[a[1]]
            elif op in ("/", "/x"):
                x, y = memo[a[0]], memo[a[1]]
                if y == 0:
                    v = nan if (x == 0 or x != x) else math.copysign(math.inf, x)
                else:
                    v = x / y
            elif op == "pow":
                x, y = memo[a[0]], memo[a[1]]
                if x == 0 and y < 0:
                    v = math.inf
                elif x < 0 and y != int(y):
                    v = nan
                else:
                    v = math.pow(x, y)
            elif op == "exp":
                v = math.exp(memo[a[0]])
            elif op == "log":
                x = memo[a[0]]
                v = math.log(x) if x > 0 else (-math.inf if x == 0 else nan)
            elif op == "ite":
                v = memo[a[1]] if memo[a[0]] else memo[a[2]]
            elif op == "lt":
                v = memo[a[0]] < memo[a[1]]
            elif op == "le":
                v = memo[a[0]] <= memo[a[1]]
            elif op == "eq":
                v = memo[a[0]] == memo[a[1]]
            elif op == "not":
                v = not memo[a[0]]
            elif op == "and":
                v = bool(memo[a[0]]) and bool(memo[a[1]])
            elif op == "isnan":
                v = memo[a[0]] != memo[a[0]]
            elif op == "fn":
                if a[0] in FN_NUM:
                    v = FN_NUM[a[0]](*[memo[x] for x in a[1:]])
                else:
                    v = nan
            else:
                raise Unsupported("evaluate " + op)
        except OverflowError:
            v = math.inf
        except ValueError:
            v = nan
        memo[n] = v
    return memo


def diff(root, v):
    """Symbolic derivative of a real node with respect to the variable node v.
    Piecewise definitions are differentiated branch by branch."""
    for n in topo([root]):
        k = (n, v)
        if k in _DIFF:
            continue
        op = OPS[n]
        a = ARGS[n]
        D = lambda m: _DIFF[(m, v)]
        if n == v:
            r = 1
        elif op in ("c", "v") or is_boolop(n):
            r = 0
        elif op == "+":
            r = mk_add(D(a[0]), D(a[1]))
        elif op == "*":
            r = mk_add(mk_mul(D(a[0]), a[1]), mk_mul(a[0], D(a[1])))
        elif op in ("/", "/x"):
            asm = op == "/x"
            da, db = D(a[0]), D(a[1])
            r = mk_div(da, a[1], asm)
            if db != 0:
                r = mk_sub(r, mk_div(mk_mul(n, db), a[1], asm))
        elif op == "pow":
            da, db = D(a[0]), D(a[1])
            r = 0
            if da != 0:
                r = mk_mul(mk_mul(a[1], mk_pow(a[0], mk_sub(a[1], 1))), da)
            if db != 0:
                # d/db a^b: 0 at a == 0
                t = mk_mul(mk_mul(n, mk_log(a[0])), db)
                r = mk_add(r, mk_ite(mk_eq(a[0], 0), 0, t))
        elif op == "exp":
            r = mk_mul(n, D(a[0]))
        elif op == "log":
            r = mk_div(D(a[0]), a[0])
        elif op == "ite":
            r = mk_ite(a[0], D(a[1]), D(a[2]))
        elif op == "fn":
            ds = [D(x) for x in a[1:]]
            if all(d == 0 for d in ds):
                r = 0
            elif a[0] == "sin":
                r = mk_mul(mk_fn("cos", a[1]), ds[0])
            elif a[0] == "cos":
                r = mk_neg(mk_mul(mk_fn("sin", a[1]), ds[0]))
            elif a[0] == "floor":
                r = 0
            else:
                raise Unsupported("diff fn " + a[0])
        else:
            raise Unsupported("diff " + op)
        _DIFF[k] = r
    return _DIFF[(root, v)]


def substitute(root, mp, memo=None):
    memo = {} if memo is None else memo
    for n in topo([root]):
        if n in memo:
            continue
        if n in mp:
            memo[n] = mp[n]
            continue
        op = OPS[n]
        a = ARGS[n]
        if op in ("c", "v", "bv"):
            memo[n] = n
            continue
        f = {
            "+": mk_add,
            "*": mk_mul,
            "/": mk_div,
            "/x": lambda x, y: mk_div(x, y, True),
            "pow": mk_pow,
            "exp": mk_exp,
            "log": mk_log,
            "ite": mk_ite,
            "lt": mk_lt,
            "le": mk_le,
            "eq": mk_eq,
            "not": mk_not,
            "and": mk_and,
            "isnan": mk_isnan,
        }
        if op == "fn":
            memo[n] = mk_fn(a[0], *[memo[x] for x in a[1:]])
        else:
            memo[n] = f[op](*[memo[x] for x in a])
    return memo[root]


def show(n, depth=6):
    op = OPS[n]
    a = ARGS[n]
    if op == "c":
        return str(a[0])
    if op in ("v", "bv"):
        return a[0]
    if depth == 0:
        return "…"
    s = [show(x, depth - 1) for x in (a[1:] if op == "fn" else a)]
    if op in ("+", "*", "/", "/x"):
        return "(" + (" " + op[0] + " ").join(s) + ")"
    return (a[0] if op == "fn" else op) + "(" + ", ".join(s) + ")"


reset()
