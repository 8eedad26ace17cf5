"""
Deciding obligations over DAG nodes.

`Leaf` is one sign context: a conjunction of sign facts about polynomials.  In a
leaf every node has a normal form: a rational function whose numerator is a
(Laurent) polynomial over atoms and whose denominator is a product of
polynomial factors.  Piecewise nodes ask the leaf for the sign of the polynomial
behind their condition; when it is not determined the leaf is split and z3
decides which of the sub-leaves are satisfiable.  An obligation `a == b`
becomes, per leaf, the query "constraints and numerator(a-b) != 0" to z3.
"""

import math
import time
from fractions import Fraction

import z3

from . import dag
from .dag import Unsupported, norm_num

OPS = dag.OPS
ARGS = dag.ARGS


class Undef(Exception):
    def __init__(self, kind="nan"):
        self.kind = kind


class NeedSplit(Exception):
    def __init__(self, poly, parts):
        self.poly = poly
        self.parts = parts


class Budget(Exception):
    pass


class Stats:
    queries = 0
    sat = 0
    unsat = 0
    unknown = 0
    time = 0.0
    leaves = 0
    trivial = 0
    confirmed = 0
    confirm_open = 0
    confirm_time = 0.0
    maxq = 0.0

    @classmethod
    def dump(cls):
        return {
            k: getattr(cls, k)
            for k in (
                "queries",
                "sat",
                "unsat",
                "unknown",
                "time",
                "leaves",
                "trivial",
                "confirmed",
                "confirm_open",
                "maxq",
            )
        }


# --------------------------------------------------------------- atoms
# atom descriptors:
#   ("v", node)                    variable
#   ("E", mono, den, unit)         exp(unit * mono / den)   (> 0)
#   ("L", polykey)                 log |F|
#   ("R", q, polykey)              |F|^(1/q)                (>= 0)
#   ("fn", name, argkeys)          opaque function value
ATOMS = []
_ATAB = {}
_FAC = []
_FTAB = {}
DOMAIN = {}  # var node -> (lo, lo_strict, hi, hi_strict)


def reset():
    ATOMS.clear()
    _ATAB.clear()
    _FAC.clear()
    _FTAB.clear()
    DOMAIN.clear()
    _MM.clear()


def atom(desc):
    r = _ATAB.get(desc)
    if r is None:
        r = len(ATOMS)
        ATOMS.append(desc)
        _ATAB[desc] = r
    return r


# --------------------------------------------------------------- polys
# monomial: tuple of (-atom, exp), atoms ascending.  max() is lex leading.
_MM = {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _MM.get(k)
    if r is None:
        if len(_MM) > 2000000:
            _MM.clear()
        d = dict(a)
        for x, e in b:
            d[x] = d.get(x, 0) + e
        r = tuple(sorted(((x, e) for x, e in d.items() if e), reverse=True))
        _MM[k] = r
    return r


def mpow(m, k):
    return tuple((x, e * k) for x, e in m) if k else ()


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m, 0) + c
        if s == 0:
            del r[m]
        else:
            r[m] = norm_num(s)
    return r


def pscale(p, c):
    if c == 1:
        return p
    return {m: norm_num(v * c) for m, v in p.items()}


MAXTERMS = 60000


def pmul(p, q):
    if len(p) < len(q):
        p, q = q, p
    if len(q) == 0:
        return {}
    if len(q) == 1:
        ((m, c),) = q.items()
        if not m:
            return pscale(p, c)
        return {mmul(m, n): norm_num(v * c) for n, v in p.items()}
    if len(p) * len(q) > 3000000:
        raise Budget("polynomial product too large")
    r = {}
    for n, v in q.items():
        for m, c in p.items():
            k = mmul(m, n)
            s = r.get(k, 0) + c * v
            r[k] = s
    r = {m: norm_num(c) for m, c in r.items() if c != 0}
    if len(r) > MAXTERMS:
        raise Budget("polynomial too large")
    return r


def ppow(p, k):
    r = {(): 1}
    b = p
    while k:
        if k & 1:
            r = pmul(r, b)
        k >>= 1
        if k:
            b = pmul(b, b)
    return r


def pconst(c):
    return {(): norm_num(c)} if c != 0 else {}


def pkey(p):
    return tuple(sorted(p.items(), key=lambda t: t[0]))


def pcontent(p):
    """(mono, rest): largest Laurent monomial dividing p (min exponents)"""
    it = iter(p)
    mn = dict(next(it))
    for m in it:
        d = dict(m)
        for x in list(mn):
            e = d.get(x, 0)
            if e < mn[x]:
                mn[x] = e
        for x, e in d.items():
            if x not in mn and e < 0:
                mn[x] = e
    mn = {x: e for x, e in mn.items() if e}
    if not mn:
        return (), p
    mono = tuple(sorted(mn.items(), reverse=True))
    inv = mpow(mono, -1)
    return mono, {mmul(m, inv): c for m, c in p.items()}


def pdivexact(p, f, maxsteps=2000):
    """p / f when exact, both without negative exponents; else None"""
    lf = max(f)
    cf = f[lf]
    ilf = mpow(lf, -1)
    q = {}
    p = dict(p)
    steps = 0
    while p:
        lm = max(p)
        t = mmul(lm, ilf)
        for _, e in t:
            if e < 0:
                return None
        c = norm_num(Fraction(p[lm]) / cf)
        q[t] = c
        for m, v in f.items():
            k = mmul(m, t)
            s = p.get(k, 0) - v * c
            if s == 0:
                p.pop(k, None)
            else:
                p[k] = norm_num(s)
        steps += 1
        if steps > maxsteps or len(p) > 4000:
            return None
    return q


def pgcd_num(p):
    """scaling so that the coefficients are coprime integers, leading > 0"""
    lead = p[max(p)]
    den = 1
    for c in p.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for c in p.values():
        g = math.gcd(g, int(c * den))
    s = Fraction(g, den)
    if lead < 0:
        s = -s
    return s


def pcanon(p):
    """p = scale * mono * canonical"""
    mono, r = pcontent(p)
    s = pgcd_num(r)
    if s != 1:
        r = {m: norm_num(c / s) for m, c in r.items()}
    return norm_num(s), mono, r


def factor_id(p):
    """id of a canonical (non-constant, content free) polynomial"""
    k = pkey(p)
    r = _FTAB.get(k)
    if r is None:
        r = len(_FAC)
        _FAC.append(p)
        _FTAB[k] = r
    return r


# ------------------------------------------------------- rational functions
class RF:
    __slots__ = ("n", "d")

    def __init__(self, n, d=()):
        self.n = n  # poly
        self.d = d  # tuple of (factor id, exp) sorted

    def key(self):
        return (pkey(self.n), self.d)


RF0 = RF({})
RF1 = RF({(): 1})


def rf_const(c):
    return RF(pconst(c))


def dmerge(a, b):
    d = dict(a)
    for f, e in b:
        d[f] = d.get(f, 0) + e
    return tuple(sorted(d.items()))


def fexpand(items):
    r = {(): 1}
    for f, e in items:
        r = pmul(r, ppow(_FAC[f], e))
    return r


def rf_cancel(r):
    if not r.d or not r.n:
        return RF({}) if not r.n else r
    if len(r.n) == 1:
        return r
    if len(r.n) > 600:
        return r
    mono, n = pcontent(r.n)
    out = []
    changed = False
    for f, e in r.d:
        F = _FAC[f]
        while e > 0 and len(n) >= 1 and len(F) <= len(n) * 4:
            q = pdivexact(n, F)
            if q is None:
                break
            n = q
            e -= 1
            changed = True
        if e:
            out.append((f, e))
    if not changed:
        return r
    return RF({mmul(m, mono): c for m, c in n.items()}, tuple(out))


def rf_add(a, b):
    if not a.n:
        return b
    if not b.n:
        return a
    if a.d == b.d:
        n = padd(a.n, b.n)
        if not n:
            return RF0
        return rf_cancel(RF(n, a.d))
    da, db = dict(a.d), dict(b.d)
    l = dict(da)
    for f, e in db.items():
        l[f] = max(l.get(f, 0), e)
    ma = [(f, e - da.get(f, 0)) for f, e in l.items() if e > da.get(f, 0)]
    mb = [(f, e - db.get(f, 0)) for f, e in l.items() if e > db.get(f, 0)]
    n = padd(pmul(a.n, fexpand(ma)), pmul(b.n, fexpand(mb)))
    if not n:
        return RF0
    return rf_cancel(RF(n, tuple(sorted(l.items()))))


def rf_neg(a):
    return RF(pscale(a.n, -1), a.d)


def rf_mul(a, b):
    if not a.n or not b.n:
        return RF0
    if not a.d and not b.d:
        return RF(pmul(a.n, b.n))
    # cancel equal factors before expanding
    an, ad = a.n, dict(a.d)
    bn, bd = b.n, dict(b.d)

    def strip(n, d):
        if len(n) < 2:
            return n
        s, mono, r = pcanon(n)
        f = _FTAB.get(pkey(r))
        if f is not None and d.get(f):
            d[f] -= 1
            if not d[f]:
                del d[f]
            return {mono: s}
        return n

    an = strip(an, bd)
    bn = strip(bn, ad)
    n = pmul(an, bn)
    return rf_cancel(RF(n, dmerge(tuple(ad.items()), tuple(bd.items()))))


# --------------------------------------------------------------- leaves
NEG, ZERO, POS = -1, 0, 1
ALL = frozenset((-1, 0, 1))
NONNEG = frozenset((0, 1))
NONPOS = frozenset((-1, 0))
NONZERO = frozenset((-1, 1))


def sflip(s):
    return frozenset(-x for x in s)


def smul(a, b):
    return frozenset(x * y for x in a for y in b)


FEAS_MS = 3000
GOAL_MS = 20000


def _primes(n):
    out = []
    p = 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            out.append(p)
            n //= p
        p += 1 if p == 2 else 2
    if n > 1:
        out.append(n)
    return out


class Leaf:
    def __init__(self):
        self.signs = {}  # factor id -> allowed sign set
        self.subst = {}  # var node -> RF
        self.rm = {}
        self.bm = {}
        self.cons = []  # list of (poly, rel) with rel a sign set; z3 facts
        self.zero_split = 0
        self.depth = 0
        self.split_log = []

    def fork(self):
        l = Leaf()
        l.signs = dict(self.signs)
        l.subst = dict(self.subst)
        l.rm = dict(self.rm)
        l.bm = dict(self.bm)
        l.cons = list(self.cons)
        l.zero_split = self.zero_split
        l.depth = self.depth + 1
        l.split_log = list(self.split_log)
        return l

    # -------------------------------------------------------- sign oracle
    def atom_sign(self, a):
        d = ATOMS[a]
        if d[0] == "v":
            lo, ls, hi, hs = DOMAIN.get(d[1], (None, 0, None, 0))
            if lo is not None and (lo > 0 or (lo == 0 and ls)):
                return frozenset((1,))
            if hi is not None and (hi < 0 or (hi == 0 and hs)):
                return frozenset((-1,))
        elif d[0] == "E":
            return frozenset((1,))
        elif d[0] == "R":
            F = dict(d[2])
            if not any(m for m in F):
                return frozenset((1,))
            s = self.poly_sign(F, ask=False)
            if 0 not in s:
                return frozenset((1,))
            return NONNEG & self.signs.get(factor_id({((-a, 1),): 1}), NONNEG)
        return self.factor_sign({((-a, 1),): 1})

    def atom_nonzero(self, a):
        return 0 not in self.atom_sign(a)

    def factor_sign(self, F, ask=True):
        """F canonical"""
        f = factor_id(F)
        s = self.signs.get(f)
        if s is not None and (len(s) == 1 or not ask):
            return s
        if s is None:
            # quick syntactic bound
            s = self.quick(F)
            if len(s) == 1 or not ask:
                return s
            self.signs[f] = s
        key = ("asked", f)
        if key in self.signs:
            return s
        ok = set()
        for t in sorted(s):
            if self.sat(extra=[(F, frozenset((t,)))], ms=FEAS_MS) != "unsat":
                ok.add(t)
        s = frozenset(ok)
        self.signs[f] = s
        self.signs[key] = True
        return s

    def quick(self, F):
        tot = None
        for m, c in F.items():
            s = frozenset((1 if c > 0 else -1,))
            for na, e in m:
                d = ATOMS[-na]
                if len(m) == 1 and e == 1 and len(F) == 1:
                    if d[0] == "R":
                        return NONNEG
                    if d[0] == "v":
                        lo, ls, hi, hs = DOMAIN.get(d[1], (None, 0, None, 0))
                        if lo is not None and lo >= 0:
                            return NONNEG if not (lo > 0 or ls) else frozenset((1,))
                        if hi is not None and hi <= 0:
                            return NONPOS if not (hi < 0 or hs) else frozenset((-1,))
                    return ALL
                asn = self.signs.get(_FTAB.get((((( na, 1),), 1),)))
                if d[0] == "E":
                    asn = frozenset((1,))
                elif d[0] == "R":
                    asn = NONNEG
                elif d[0] == "v":
                    lo, ls, hi, hs = DOMAIN.get(d[1], (None, 0, None, 0))
                    if lo is not None and (lo > 0 or (lo == 0 and ls)):
                        asn = frozenset((1,))
                    elif lo is not None and lo == 0:
                        asn = NONNEG
                if asn is None:
                    asn = ALL
                if e % 2 == 0:
                    asn = frozenset(x * x for x in asn)
                s = smul(s, asn)
            if tot is None:
                tot = s
            else:
                # sum of sign sets
                r = set()
                for x in tot:
                    for y in s:
                        if x == 0 or y == 0:
                            r.add(x + y)
                        elif x == y:
                            r.add(x)
                        else:
                            r |= {-1, 0, 1}
                tot = frozenset(r)
            if tot == ALL:
                return ALL
        return tot

    def poly_sign(self, p, ask=True):
        if not p:
            return frozenset((0,))
        s, mono, F = pcanon(p)
        r = frozenset((1 if s > 0 else -1,))
        for na, e in mono:
            if e % 2 == 0:
                x = self.atom_sign(-na)
                x = frozenset(t * t for t in x)
            else:
                x = self.atom_sign(-na)
            r = smul(r, x)
        if any(m for m in F):
            r = smul(r, self.factor_sign(F, ask))
        return r

    def split_poly(self, p, parts):
        """raise NeedSplit on an undetermined component of p.
        parts: partition of {-1,0,1} the caller needs"""
        s, mono, F = pcanon(p)
        sgn = 1 if s > 0 else -1
        comps = []
        for na, e in mono:
            comps.append(({((na, 1),): 1}, self.atom_sign(-na)))
        if any(m for m in F):
            comps.append((F, self.factor_sign(F)))
        und = [(q, t) for q, t in comps if len(t) > 1]
        if len(comps) == 1 and mono == ():
            q, t = comps[0]
            pr = [frozenset(x * sgn for x in pt) & t for pt in parts]
            pr = [x for x in pr if x]
            raise NeedSplit(q, pr)
        for q, t in und:
            pr = [frozenset((x,)) for x in sorted(t)]
            raise NeedSplit(q, pr)
        raise Unsupported("split_poly: nothing to split")

    def add_sign(self, p, rel, split=False):
        """assume sign(p) in rel. False when syntactically impossible"""
        if not p:
            return 0 in rel
        s, mono, F = pcanon(p)
        if not any(m for m in F) and not mono:
            return (1 if s > 0 else -1) in rel
        self.cons.append((p, rel))
        q = p
        sg = 1 if s > 0 else -1
        single = None
        # drop positive atoms of the content
        left = []
        for na, e in mono:
            x = self.atom_sign(-na) if ATOMS[-na][0] != "v" or True else ALL
            if x == frozenset((1,)):
                continue
            left.append((na, e))
        if not left and any(m for m in F):
            single = F
        elif len(left) == 1 and not any(m for m in F):
            na, e = left[0]
            if e % 2 == 1 or rel == frozenset((0,)):
                single = {((na, 1),): 1}
        if single is not None:
            r = frozenset(x * sg for x in rel)
            f = factor_id(single)
            old = self.signs.get(f, ALL)
            new = old & r
            if not new:
                return False
            self.signs[f] = new
            self.signs.pop(("asked", f), None)
            if new == frozenset((0,)):
                if split:
                    self.zero_split += 1
                self.eliminate(single)
        return True

    def eliminate(self, F):
        """F == 0: solve for a variable that appears linearly"""
        best = None
        occ = {}
        for m in F:
            for na, e in m:
                occ.setdefault(na, []).append((m, e))
        for na, l in occ.items():
            d = ATOMS[-na]
            if d[0] != "v" or d[1] in self.subst:
                continue
            if any(e != 1 for _, e in l):
                continue
            # coefficient
            coef = {}
            for m, _ in l:
                coef[tuple(t for t in m if t[0] != na)] = F[m]
            if len(coef) == 1 and () in coef:
                cost = 0
            else:
                s = self.poly_sign(coef, ask=False)
                if 0 in s:
                    continue
                cost = len(coef)
            # avoid eliminating a variable hidden inside another atom of F
            if best is None or (cost, na) < (best[0], best[1]):
                best = (cost, na, coef)
        if best is None:
            return
        _, na, coef = best
        rest = {m: c for m, c in F.items() if not any(x == na for x, _ in m)}
        v = ATOMS[-na][1]
        if any(self._mentions(x, v) for m in F for x, _ in m if x != na):
            return
        try:
            val = rf_mul(RF(pscale(rest, -1)), self.inv(RF(coef)))
        except (Undef, NeedSplit):
            return
        self.subst[v] = val
        self.rm = {}
        self.bm = {}

    def _mentions(self, na, v):
        d = ATOMS[-na]
        if d[0] == "v":
            return d[1] == v
        if d[0] == "E":
            ms = [x for x, _ in d[1]] + [
                x for f, _ in d[2] for m in _FAC[f] for x, _ in m
            ]
        elif d[0] == "L":
            ms = [x for m, _ in d[1] for x, _ in m]
        elif d[0] == "R":
            ms = [x for m, _ in d[2] for x, _ in m]
        else:
            ms = [x for k in d[2] for m, _ in k[0] for x, _ in m]
            ms += [x for k in d[2] for f, _ in k[1] for m in _FAC[f] for x, _ in m]
        return any(self._mentions(x, v) for x in ms)

    # -------------------------------------------------------------- z3
    def sat(self, extra=(), ms=FEAS_MS, want_model=False, pins=None, gap=None):
        """'sat' / 'unsat' / 'unknown' of constraints and extra; gap=(r, K)
        asks for |r| >= K as well"""
        tr = Z3Tr(self)
        es = []
        if gap is not None:
            q = pscale(fexpand(gap[0].d), Fraction(gap[1]))
            hi, lo = padd(gap[0].n, pscale(q, Fraction(-1))), padd(gap[0].n, q)
            es.append(z3.Or(z3.And(tr.sign(hi, NONNEG), tr.sign(lo, NONNEG)), z3.And(tr.sign(hi, NONPOS), tr.sign(lo, NONPOS))))
        for p, rel in list(self.cons) + list(extra):
            es.append(tr.sign(p, rel))
        side = tr.side()
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", int(ms))
        s.add(*side)
        s.add(*es)
        if pins:
            for (n, val) in pins:
                s.add(tr.atomvar(atom(("v", n))) == z3.RealVal(str(val)))
        r = str(s.check())
        dt = time.time() - t0
        Stats.queries += 1
        Stats.time += dt
        Stats.maxq = max(Stats.maxq, dt)
        setattr(Stats, r, getattr(Stats, r) + 1)
        if want_model:
            m = None
            if r == "sat":
                m = {}
                mod = s.model()
                for a, zv in tr.vars.items():
                    d = ATOMS[a]
                    if d[0] == "v":
                        val = mod.eval(zv, model_completion=True)
                        m[ARGS[d[1]][0]] = z3num(val)
            return r, m
        return r

    # ---------------------------------------------------------- normal forms
    def inv(self, r, assumed=False):
        if not r.n:
            raise Undef("inf")
        s, mono, F = pcanon(r.n)
        inv_m = []
        den = []
        hasF = any(m for m in F)
        for na, e in mono:
            a = -na
            if e < 0:
                inv_m.append((na, -e))
                continue
            if self.atom_nonzero(a):
                inv_m.append((na, -e))
            else:
                F1 = {((na, 1),): 1}
                self._nonzero(F1, assumed)
                if self.atom_nonzero(a):
                    inv_m.append((na, -e))
                else:
                    den.append((factor_id(F1), e))
        if hasF:
            self._nonzero(F, assumed)
            den.append((factor_id(F), 1))
        n = {tuple(sorted(inv_m, reverse=True)): norm_num(1 / Fraction(s))}
        num = pmul(n, fexpand(r.d))
        return rf_cancel(RF(num, tuple(sorted(den))))

    def _nonzero(self, F, assumed):
        if assumed or not CHECK_DEFINED[0]:
            f = factor_id(F)
            s = self.signs.get(f, ALL)
            if s == frozenset((0,)):
                raise Undef("inf")
            if 0 in s:
                self.signs[f] = s - {0}
                self.cons.append((F, NONZERO))
            return
        s = self.factor_sign(F)
        if 0 in s:
            if len(s) == 1:
                raise Undef("inf")
            raise NeedSplit(F, [s - {0}, frozenset((0,))])

    def decompose(self, r):
        """r = c * prod F_i^e_i ; list of (poly F_i canonical, e_i)"""
        s, mono, F = pcanon(r.n)
        items = [({((na, 1),): 1}, e) for na, e in mono]
        if any(m for m in F):
            items.append((F, 1))
        for f, e in r.d:
            items.append((_FAC[f], -e))
        return s, items

    def rf_sign(self, r, ask=True):
        s = self.poly_sign(r.n, ask)
        for f, e in r.d:
            if e % 2:
                s = smul(s, self.factor_sign(_FAC[f], ask) - {0})
        return s

    def rf_split(self, r, parts):
        """make sign of r determined w.r.t. parts"""
        for f, e in r.d:
            if e % 2:
                t = self.factor_sign(_FAC[f]) - {0}
                if len(t) > 1:
                    raise NeedSplit(_FAC[f], [frozenset((x,)) for x in sorted(t)])
        sg = 1
        for f, e in r.d:
            if e % 2:
                (t,) = self.factor_sign(_FAC[f]) - {0}
                sg *= t
        self.split_poly(r.n, [frozenset(x * sg for x in p) for p in parts])

    def logabs(self, r):
        """log|r| as RF; requires r != 0"""
        c, items = self.decompose(r)
        out = RF0
        c = abs(Fraction(c))
        for k, sg in ((c.numerator, 1), (c.denominator, -1)):
            for p in _primes(k):
                a = atom(("L", (((), p),)))
                out = rf_add(out, RF({((-a, 1),): sg}))
        for F, e in items:
            out = rf_add(out, rf_mul(rf_const(e), self.logfactor(F)))
        return out

    def logfactor(self, F):
        if len(F) == 1:
            ((m, c),) = F.items()
            if len(m) == 1 and m[0][1] == 1:
                d = ATOMS[-m[0][0]]
                if d[0] == "E":
                    return rf_mul(RF({d[1]: d[3]}), RF({(): 1}, d[2]))
                if d[0] == "R":
                    G = dict(d[2])
                    return rf_mul(rf_const(Fraction(1, d[1])), self.logabs(RF(G)))
        a = atom(("L", pkey(F)))
        return RF({((-a, 1),): 1})

    def powrat(self, r, e):
        """r ** e, e a rational constant that is not an integer"""
        if not r.n:
            if e > 0:
                return RF0
            raise Undef("inf")
        s = self.rf_sign(r)
        if -1 in s:
            if s == frozenset((-1,)):
                raise Undef("nan")
            self.rf_split(r, [NONNEG, frozenset((-1,))])
        c, items = self.decompose(r)
        out = RF1
        c = abs(Fraction(c))
        for k, sg in ((c.numerator, 1), (c.denominator, -1)):
            ps = _primes(k)
            for p in sorted(set(ps)):
                out = rf_mul(out, self.fpow({(): p}, e * sg * ps.count(p)))
        for F, k in items:
            out = rf_mul(out, self.fpow(F, e * k))
        return out

    def fpow(self, F, e):
        """|F| ** e for canonical F, rational e"""
        e = Fraction(e)
        const = not any(m for m in F)
        if len(F) == 1 and not const:
            ((m, c),) = F.items()
            if len(m) == 1 and m[0][1] == 1:
                d = ATOMS[-m[0][0]]
                if d[0] == "E":
                    return self.exp(rf_mul(rf_const(e), self.logfactor(F)))
                if d[0] == "R":
                    return self.fpow(dict(d[2]), e / d[1])
        k = e.numerator // e.denominator
        fr = e - k
        out = RF1
        if k or e.denominator != 1:
            if const:
                FF = RF(F)
            else:
                s = self.factor_sign(F)
                if s <= NONNEG:
                    FF = RF(F)
                elif s <= NONPOS:
                    FF = RF(pscale(F, -1))
                elif fr == 0 and k % 2 == 0:
                    FF = RF(F)
                else:
                    raise NeedSplit(F, [NONNEG & s, frozenset((-1,)) & s])
                if k < 0 and 0 in s:
                    raise NeedSplit(F, [s - {0}, frozenset((0,))])
                if e > 0 and s == frozenset((0,)):
                    return RF0
        if fr:
            a = atom(("R", fr.denominator, pkey(F)))
            out = self._rpow(a, fr.numerator)
        if k > 0:
            out = rf_mul(out, RF(ppow(FF.n, k)))
        elif k < 0:
            inv = self.inv(FF)
            for _ in range(-k):
                out = rf_mul(out, inv)
        return out

    def _rpow(self, a, p):
        return RF({((-a, p),): 1})

    def reduce_roots(self, r):
        """rewrite S^k, k >= q, for root atoms S = F^(1/q)"""
        todo = False
        for m in r.n:
            for na, e in m:
                d = ATOMS[-na]
                if d[0] == "R" and (e >= d[1] or e < 0):
                    todo = True
                    break
            if todo:
                break
        if not todo:
            return r
        out = RF0
        groups = {}
        for m, c in r.n.items():
            extra = []
            base = []
            for na, e in m:
                d = ATOMS[-na]
                if d[0] == "R" and (e >= d[1] or e < 0):
                    k = e // d[1]
                    if e - k * d[1]:
                        base.append((na, e - k * d[1]))
                    extra.append((na, k))
                else:
                    base.append((na, e))
            groups.setdefault(tuple(extra), {})
            g = groups[tuple(extra)]
            b = tuple(base)
            g[b] = g.get(b, 0) + c
        for extra, g in groups.items():
            g = {m: c for m, c in g.items() if c != 0}
            t = RF(g)
            for na, k in extra:
                t = rf_mul(t, self.fpow(dict(ATOMS[-na][2]), k))
            out = rf_add(out, t)
        return rf_mul(self.reduce_roots(out), RF({(): 1}, r.d))

    def exp(self, r):
        """exp of an RF"""
        out = RF1
        for m, c in r.n.items():
            if not m and not r.d:
                pass
            if len(m) == 1 and m[0][1] == 1 and not r.d and ATOMS[-m[0][0]][0] == "L":
                F = dict(ATOMS[-m[0][0]][1])
                c_ = Fraction(c)
                if c_.denominator <= 64 and abs(c_) <= 200:
                    out = rf_mul(out, self.fpow(F, c_))
                    continue
            c = Fraction(c)
            a = atom(("E", m, r.d, norm_num(Fraction(1, c.denominator))))
            out = rf_mul(out, RF({((-a, c.numerator),): 1}))
        return out

    def intpow(self, r, k):
        if k == 0:
            return RF1
        if k < 0:
            r = self.inv(r)
            k = -k
        return RF(ppow(r.n, k), tuple((f, e * k) for f, e in r.d))

    def real(self, node):
        m = self.rm.get(node)
        if m is not None:
            if isinstance(m, Undef):
                raise m
            return m
        # iterative over plain arithmetic to limit recursion is not needed:
        # callers run with a large recursion limit and thread stack
        try:
            r = self._real(node)
            r = self.reduce_roots(r)
        except Undef as u:
            self.rm[node] = Undef(u.kind)
            raise
        self.rm[node] = r
        return r

    def _real(self, node):
        op = OPS[node]
        a = ARGS[node]
        if op == "c":
            v = a[0]
            if isinstance(v, str):
                raise Undef(v)
            return rf_const(v)
        if op == "v":
            s = self.subst.get(node)
            if s is not None:
                return self.resubst(node, s)
            return RF({((-atom(("v", node)), 1),): 1})
        if op == "+":
            return rf_add(self.real(a[0]), self.real(a[1]))
        if op == "*":
            return rf_mul(self.real(a[0]), self.real(a[1]))
        if op in ("/", "/x"):
            x = self.real(a[0])
            try:
                y = self.real(a[1])
            except Undef as u:
                if u.kind in ("inf", "-inf"):
                    return RF0
                raise
            if not y.n:
                if not x.n:
                    raise Undef("nan")
                s = self.rf_sign(x)
                if s == frozenset((1,)):
                    raise Undef("inf")
                if s == frozenset((-1,)):
                    raise Undef("-inf")
                raise Undef("unk")
            return rf_mul(x, self.inv(y, assumed=op == "/x"))
        if op == "pow":
            b = self.real(a[0])
            e = self.real(a[1])
            if not e.n:
                return RF1
            if not e.d and len(e.n) == 1 and () in e.n:
                c = e.n[()]
                if isinstance(c, int) and abs(c) <= 60:
                    return self.intpow(b, c)
                if isinstance(c, Fraction) and c.denominator <= 64 and abs(c) < 100:
                    return self.powrat(b, c)
                if isinstance(c, int):
                    return self._genpow(b, e)
            return self._genpow(b, e)
        if op == "exp":
            try:
                x = self.real(a[0])
            except Undef as u:
                if u.kind == "-inf":
                    return RF0
                raise
            return self.exp(x)
        if op == "log":
            x = self.real(a[0])
            if not x.n:
                raise Undef("-inf")
            s = self.rf_sign(x)
            if s != frozenset((1,)):
                if s == frozenset((-1,)):
                    raise Undef("nan")
                if s == frozenset((0,)):
                    raise Undef("-inf")
                self.rf_split(x, [frozenset((1,)), frozenset((0,)), frozenset((-1,))])
            return self.logabs(x)
        if op == "ite":
            return self.real(a[1] if self.bool(a[0]) else a[2])
        if op == "fn":
            ks = tuple(self.real(x).key() for x in a[1:])
            return RF({((-atom(("fn", a[0], ks)), 1),): 1})
        raise Unsupported("nf of " + op)

    def resubst(self, node, s):
        """value of an eliminated variable, itself free of later eliminations"""
        todo = set()
        for m in s.n:
            for na, _ in m:
                todo.add(na)
        for f, _ in s.d:
            for m in _FAC[f]:
                for na, _ in m:
                    todo.add(na)
        if not any(
            self._mentions(x, v) for x in todo for v in self.subst if v != node
        ):
            return s

        def sub_poly(p):
            out = RF0
            for m, c in p.items():
                t = rf_const(c)
                for na, e in m:
                    d = ATOMS[-na]
                    if d[0] == "v":
                        b = self.real(d[1])
                    elif any(self._mentions(na, v) for v in self.subst):
                        raise Unsupported("nested elimination inside an atom")
                    else:
                        b = RF({((na, 1),): 1})
                    t = rf_mul(t, self.intpow(b, e))
                out = rf_add(out, t)
            return out

        r = sub_poly(s.n)
        for f, e in s.d:
            r = rf_mul(r, self.intpow(sub_poly(_FAC[f]), -e))
        return r

    def _genpow(self, b, e):
        if not b.n:
            s = self.rf_sign(e)
            if s == frozenset((1,)):
                return RF0
            if s == frozenset((0,)):
                return RF1
            if s == frozenset((-1,)):
                raise Undef("inf")
            self.rf_split(e, [frozenset((1,)), frozenset((0,)), frozenset((-1,))])
        s = self.rf_sign(b)
        if s == frozenset((-1,)):
            raise Undef("nan")
        if s == frozenset((0,)):
            # base is zero through a constraint the normal form cannot see
            t = self.rf_sign(e)
            if t == frozenset((1,)):
                return RF0
            raise Undef("nan")
        if s != frozenset((1,)):
            self.rf_split(b, [frozenset((1,)), frozenset((0,)), frozenset((-1,))])
        return self.exp(rf_mul(e, self.logabs(b)))

    # ------------------------------------------------------------- booleans
    def bool(self, node):
        if node in (0, 1):
            return bool(node)
        m = self.bm.get(node)
        if m is not None:
            return m
        op = OPS[node]
        a = ARGS[node]
        if op == "and":
            # evaluate the cheaper / decided side first
            r = None
            try:
                r = self.bool(a[0])
            except NeedSplit as ns:
                if self.bool(a[1]) is False:
                    r = False
                else:
                    raise ns
            if r:
                r = self.bool(a[1])
        elif op == "not":
            r = not self.bool(a[0])
        elif op in ("lt", "le", "eq"):
            r = self._cmp(op, a[0], a[1])
        elif op == "isnan":
            try:
                self.real(a[0])
                r = False
            except Undef as u:
                if u.kind == "unk":
                    raise Unsupported("isnan of an unknown special")
                r = u.kind == "nan"
        elif op == "bv":
            v = dag.var(a[0] + "?bool")
            DOMAIN.setdefault(v, (0, 0, 1, 0))
            r = self._cmp("lt", dag.const(Fraction(1, 2)), v)
        elif op == "ite":
            r = self.bool(a[1] if self.bool(a[0]) else a[2])
        else:
            # a real node read as boolean
            r = not self._cmp("eq", node, 0)
        self.bm[node] = r
        return r

    def _cmp(self, op, x, y):
        sx = sy = None
        try:
            rx = self.real(x)
        except Undef as u:
            sx = u.kind
        try:
            ry = self.real(y)
        except Undef as u:
            sy = u.kind
        if sx or sy:
            if "nan" in (sx, sy):
                return False
            if "unk" in (sx, sy):
                raise Unsupported("comparison of an unknown special")
            v = {"inf": 1, "-inf": -1, None: 0}
            d = v[sx] - v[sy]
            return {"lt": d < 0, "le": d <= 0, "eq": d == 0}[op]
        d = rf_add(rx, rf_neg(ry))
        if not d.n:
            return op != "lt"
        d = self.reduce_roots(d)
        if not d.n:
            return op != "lt"
        want = {"lt": frozenset((-1,)), "le": NONPOS, "eq": frozenset((0,))}[op]
        s = self.rf_sign(d)
        if s <= want:
            return True
        if not (s & want):
            return False
        self.rf_split(d, [want, ALL - want])

    # ------------------------------------------------------------ assumptions
    def assume(self, node, val=True):
        """assert a boolean node without splitting when possible.
        Returns False when it is refuted."""
        if node in (0, 1):
            return bool(node) == val
        if node in self.bm:
            return self.bm[node] == val
        op = OPS[node]
        a = ARGS[node]
        if op == "not":
            return self.assume(a[0], not val)
        if op == "and" and val:
            return self.assume(a[0]) and self.assume(a[1])
        if op in ("lt", "le", "eq"):
            try:
                rx, ry = self.real(a[0]), self.real(a[1])
            except Undef:
                return self.bool(node) == val
            d = self.reduce_roots(rf_add(rx, rf_neg(ry)))
            want = {"lt": frozenset((-1,)), "le": NONPOS, "eq": frozenset((0,))}[op]
            if not val:
                want = ALL - want
            if not d.n:
                return 0 in want
            if not d.d:
                r = self.add_sign(d.n, want)
                if r:
                    self.bm[node] = val
                return r
        return self.bool(node) == val


CHECK_DEFINED = [True]


def z3num(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return z3num(v.approx(20))
    try:
        return Fraction(v.as_string())
    except Exception:
        return Fraction(0)


class Z3Tr:
    """translate polynomials over atoms to z3"""

    def __init__(self, leaf):
        self.leaf = leaf
        self.vars = {}
        self._side = []
        self.sidedone = set()
        self.gcds = {}

    def atomvar(self, a):
        v = self.vars.get(a)
        if v is None:
            v = z3.Real("a%d" % a)
            self.vars[a] = v
        return v

    def poly(self, p):
        """polynomial without negative exponents -> z3"""
        ts = []
        for m, c in p.items():
            t = z3.RealVal(str(c))
            fs = []
            for na, e in m:
                x = self.atomvar(-na)
                if e > 40:
                    raise Budget("exponent too large for the solver")
                fs.extend([x] * e)
            if fs:
                pr = fs[0]
                for f in fs[1:]:
                    pr = pr * f
                t = pr if c == 1 else t * pr
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def clear(self, p):
        """p * positive monomial without negative exponents (exponents of
        exp atoms reduced by their gcd is left to z3)"""
        neg = {}
        for m in p:
            for na, e in m:
                if e < 0 and -e > neg.get(na, 0):
                    neg[na] = -e
        if not neg:
            return p, []
        # multiply by even powers when the sign is unknown
        mul = []
        for na, e in neg.items():
            s = self.leaf.atom_sign(-na)
            if s != frozenset((1,)) and e % 2:
                e += 1
            mul.append((na, e))
        mono = tuple(sorted(mul, reverse=True))
        return {mmul(m, mono): c for m, c in p.items()}, mul

    def sign(self, p, rel):
        q, mul = self.clear(p)
        # drop common positive content
        if q:
            mono, r = pcontent(q)
            keep = []
            for na, e in mono:
                if ATOMS[-na][0] == "E":
                    continue
                keep.append((na, e))
            k = tuple(keep)
            q = {mmul(m, k): c for m, c in r.items()} if k else r
        z = self.poly(q)
        rel = frozenset(rel)
        zero = z3.RealVal(0)
        return {
            frozenset((-1,)): z < zero,
            frozenset((0,)): z == zero,
            frozenset((1,)): z > zero,
            NONNEG: z >= zero,
            NONPOS: z <= zero,
            NONZERO: z != zero,
            ALL: z3.BoolVal(True),
            frozenset(): z3.BoolVal(False),
        }[rel]

    def side(self):
        out = []
        while True:
            todo = [a for a in self.vars if a not in self.sidedone]
            if not todo:
                break
            for a in todo:
                self.sidedone.add(a)
                out.extend(self.atom_side(a))
        # monotonicity / functional lemmas between exp atoms
        out.extend(self.pair_lemmas())
        return out

    def rfz(self, n, d):
        """z3 term of sign-equivalent numerator for the RF n/d (d>0 unknown)"""
        return None

    def atom_side(self, a):
        d = ATOMS[a]
        x = self.atomvar(a)
        out = []
        if d[0] == "v":
            lo, ls, hi, hs = DOMAIN.get(d[1], (None, 0, None, 0))
            if lo is not None:
                out.append(x > str(lo) if ls else x >= str(lo))
            if hi is not None:
                out.append(x < str(hi) if hs else x <= str(hi))
        elif d[0] == "E":
            out.append(x > 0)
            if LEMMAS[0]:
                p = {d[1]: 1}
                if d[2]:
                    for f, e in d[2]:
                        if e % 2:
                            p = pmul(p, _FAC[f])
                q, _ = self.clear(p)
                z = self.poly(q)
                out.append(z3.Implies(z > 0, x > 1))
                out.append(z3.Implies(z < 0, x < 1))
                out.append(z3.Implies(z == 0, x == 1))
        elif d[0] == "R":
            out.append(x >= 0)
            F = dict(d[2])
            z = self.poly(F)
            xq = x
            for _ in range(d[1] - 1):
                xq = xq * x
            out.append(z3.Or(xq == z, xq == -z))
        elif d[0] == "L":
            if LEMMAS[0]:
                F = dict(d[1])
                if not any(m for m in F):
                    c = F[()]
                    lg = Fraction(math.log(c)).limit_denominator(10**6)
                    out.append(x > z3.RealVal(str(lg - Fraction(1, 10**5))))
                    out.append(x < z3.RealVal(str(lg + Fraction(1, 10**5))))
                else:
                    z = self.poly(F)
                    out.append(z3.Implies(z > 1, x > 0))
                    out.append(z3.Implies(z == 1, x == 0))
                    out.append(z3.Implies(z3.And(z > 0, z < 1), x < 0))
        elif d[0] == "fn" and d[1] in ("sin", "cos"):
            out += [x <= 1, x >= -1]
        return out

    def pair_lemmas(self):
        return []


LEMMAS = [True]


# --------------------------------------------------------------- obligations
class Result:
    def __init__(self, status, leaf=None, why="", model=None):
        self.status = status  # ok / cex / unknown / skip
        self.leaf = leaf
        self.why = why
        self.model = model


MAXLEAVES = 4000


def walk(pc, visit, maxleaves=None, base=None):
    """DFS over leaves of pc; visit(leaf) may raise NeedSplit; visit returns
    True to stop.  base: an already prepared Leaf for pc."""
    n = [0]
    lim = maxleaves or MAXLEAVES

    def rec(leaf):
        n[0] += 1
        if n[0] > lim:
            raise Budget("too many leaves")
        try:
            for c in pc:
                if not leaf.assume(c):
                    return False
            r = visit(leaf)
            Stats.leaves += 1
            return r
        except NeedSplit as ns:
            parts = [p for p in ns.parts if p]
            for p in parts:
                ch = leaf.fork()
                if not ch.add_sign(ns.poly, p, split=True):
                    continue
                if len(parts) > 1 and ch.sat(ms=FEAS_MS) == "unsat":
                    continue
                if rec(ch):
                    return True
            return False

    return rec(base.fork() if base is not None else Leaf())


def possible(pc, cond, val=True):
    """is there a leaf of pc where cond has value val?  ('maybe' counts)"""
    found = [False]

    def visit(leaf):
        if leaf.bool(cond) == val:
            if leaf.sat() != "unsat":
                found[0] = True
                return True
        return False

    walk(pc, visit)
    return found[0]


def check_eq(pc, a, b, deriv=False, base=None, allow_undef_ref=True):
    """b is the reference.  Returns list of non-ok Results (empty = proved) and
    the number of leaf obligations."""
    bad = []
    cnt = [0, 0]

    def visit(leaf):
        try:
            rb = leaf.real(b)
        except Undef as u:
            cnt[1] += 1
            if allow_undef_ref:
                return False
            # both must be the same special
            try:
                leaf.real(a)
                bad.append(Result("cex", leaf, "reference %s, code finite" % u.kind))
                return True
            except Undef as u2:
                return False
        cnt[0] += 1
        try:
            ra = leaf.real(a)
        except Undef as u:
            if leaf.sat(ms=GOAL_MS) != "unsat":
                bad.append(Result("cex", leaf, "code value is undefined (%s)" % u.kind))
                return True
            return False
        if deriv and leaf.zero_split:
            cnt[1] += 1
            return False
        if ra is rb:
            Stats.trivial += 1
            return False
        d = leaf.reduce_roots(rf_add(ra, rf_neg(rb)))
        if not d.n:
            # the solver sees the (now trivial) disequality 0 != 0
            Stats.trivial += 1
            return False
        try:
            r = leaf.sat([(d.n, NONZERO)], ms=GOAL_MS)
        except Budget as e:
            r = "unknown"
        if r == "unsat":
            return False
        bad.append(Result("cex" if r == "sat" else "unknown", leaf, "differs", d))
        return True

    walk(pc, visit, base=base)
    return bad, cnt


def check_true(pc, node, base=None):
    bad = []
    cnt = [0, 0]

    def visit(leaf):
        cnt[0] += 1
        if leaf.bool(node):
            return False
        r = leaf.sat(ms=GOAL_MS)
        if r == "unsat":
            return False
        bad.append(Result("cex" if r == "sat" else "unknown", leaf, "false"))
        return True

    walk(pc, visit, base=base)
    return bad, cnt


def walk_possible(pc, cond, val, base):
    if cond in (0, 1):
        return bool(cond) == val
    found = [False]

    def visit(leaf):
        if leaf.bool(cond) == val:
            if leaf.sat() != "unsat":
                found[0] = True
                return True
        return False

    walk(pc, visit, base=base)
    return found[0]


# ------------------------------------------------- second opinion on identities
CONFIRM_BUDGET = 4.0


def smt_confirm(pc, x, y, ms=250, maxnodes=500):
    """an identity that normalisation reduced to 0 = 0 is put to the solver once
    more, straight from the expression graph (no normalisation of ours): is
    there an assignment with x != y?  Transcendental nodes are uninterpreted.
    Returns "unsat" (confirmed), "unknown" or "sat-exact" (a real disagreement)."""
    if Stats.confirm_time > CONFIRM_BUDGET:
        return None
    t0 = time.time()
    memo = {}
    side = []
    opaque = [False]
    zero = z3.RealVal(0)

    def tr(n):
        r = memo.get(n)
        if r is not None:
            return r
        if len(memo) > maxnodes:
            raise Budget("big")
        op, a = dag.OPS[n], dag.ARGS[n]
        if op == "c":
            v = a[0]
            if not isinstance(v, (int, Fraction)) or isinstance(v, bool):
                raise Budget("special")
            r = z3.RealVal(str(Fraction(v)))
        elif op == "v":
            r = z3.Real("v%d" % n)
            lo, los, hi, his = DOMAIN.get(n, (None, 0, None, 0))
            if lo is not None:
                side.append(r > z3.RealVal(str(lo)) if los else r >= z3.RealVal(str(lo)))
            if hi is not None:
                side.append(r < z3.RealVal(str(hi)) if his else r <= z3.RealVal(str(hi)))
        elif op == "+":
            r = tr(a[0]) + tr(a[1])
        elif op == "*":
            r = tr(a[0]) * tr(a[1])
        elif op in ("/", "/x"):
            d = tr(a[1])
            side.append(d != zero)
            r = tr(a[0]) / d
        elif op == "pow" and dag.OPS[a[1]] == "c" and isinstance(dag.ARGS[a[1]][0], (int, Fraction)) \
                and Fraction(dag.ARGS[a[1]][0]).denominator == 1 and 0 <= dag.ARGS[a[1]][0] <= 8:
            b = tr(a[0])
            r = z3.RealVal(1)
            for _ in range(int(dag.ARGS[a[1]][0])):
                r = r * b
        elif op == "ite":
            r = z3.If(trb(a[0]), tr(a[1]), tr(a[2]))
        else:
            opaque[0] = True
            r = z3.Real("o%d" % n)
        memo[n] = r
        return r

    def trb(n):
        op, a = dag.OPS[n], dag.ARGS[n]
        if n in (0, 1):
            return z3.BoolVal(bool(n))
        if op == "lt":
            return tr(a[0]) < tr(a[1])
        if op == "le":
            return tr(a[0]) <= tr(a[1])
        if op == "eq":
            return tr(a[0]) == tr(a[1])
        if op == "not":
            return z3.Not(trb(a[0]))
        if op == "and":
            return z3.And(*[trb(q) for q in a])
        opaque[0] = True
        return z3.Bool("b%d" % n)

    try:
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", ms)
        goal = tr(x) != tr(y)
        for c in pc:
            s.add(trb(c))
        for c in side:
            s.add(c)
        s.add(goal)
        r = str(s.check())
    except Budget:
        return None
    except z3.Z3Exception:
        return None
    finally:
        dt = time.time() - t0
        Stats.confirm_time += dt
    Stats.queries += 1
    Stats.time += dt
    if r == "unsat":
        Stats.confirmed += 1
        return r
    if r == "sat" and not opaque[0]:
        return "sat-exact"
    Stats.confirm_open += 1
    return "unknown"
