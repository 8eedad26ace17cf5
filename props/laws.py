"""C25 composition rules, C26 constitutive laws"""
import math

import torch

from .common import add, CP, PT, rest, restless_flow, restless_hard, restless_damage
from .flow import JetFlow
from .hard import JetHard
from .models import LinT


def st(ctx, nh, B):
    return (ctx.real("s", B), ctx.real("h", B + (nh,)), ctx.real("t", B, lo=0), ctx.pos("T", B), ctx.real("e", B))


# ---------------------------------------------------------------- composition
def same_all(ctx, name, m, ref, a, nh):
    """m and the function table ref agree in everything a flow rule provides"""
    m = restless_flow(ctx, m, *a)
    f, df = m.flow_rate(*a)
    rf, rdf = ref["flow"]
    ctx.eq(name + ": flow rate", f, rf)
    ctx.eq(name + ": d flow / d stress", df, rdf)
    r, dr = m.history_rate(*a)
    ctx.eq(name + ": history rate", r, ref["hist"][0])
    ctx.eq(name + ": d history / d history", dr, ref["hist"][1])


def super_flow(B, parts):
    def fn(ctx):
        from pyoptmat import flowrules as fr

        nh = sum(parts)
        a = s, h, t, T, e = st(ctx, nh, B)
        off = [sum(parts[:i]) for i in range(len(parts))]
        ms = [JetFlow(ctx, n, (s, h[..., o:o + n], t, T, e), "m%d" % i) for i, (o, n) in enumerate(zip(off, parts))]
        m = fr.SuperimposedFlowRule(ms)
        ctx.true("history count", m.nhist == nh)
        sub = [(x, (s, h[..., o:o + n], t, T, e)) for x, o, n in zip(ms, off, parts)]
        f = sum(x.flow_rate(*q)[0] for x, q in sub)
        df = sum(x.flow_rate(*q)[1] for x, q in sub)
        hr = torch.cat([x.history_rate(*q)[0] for x, q in sub], -1)
        hh = torch.zeros(B + (nh, nh))
        for (x, q), o, n in zip(sub, off, parts):
            hh[..., o:o + n, o:o + n] = x.history_rate(*q)[1]
        same_all(ctx, "superposition", m, dict(flow=(f, df), hist=(hr, hh)), a, nh)

    return fn


add("C25", "superimposed flow 2+1/b2", super_flow((2,), (2, 1)))
add("C25", "superimposed flow 1+0+2/b12", super_flow((1, 2), (1, 0, 2)))


def regime(soft, B, nh=1, mus=False, g0s=False, eps=False):
    def fn(ctx):
        from pyoptmat import flowrules as fr

        a = s, h, t, T, e = st(ctx, nh, B)
        m1 = JetFlow(ctx, nh, (s, h, t, T, e), "m1")
        m2 = JetFlow(ctx, nh, (s, h, t, T, e), "m2")
        g0, b, eps0, k = ctx.real("g0", (), lo=-3, hi=3), ctx.pos("b"), ctx.pos("eps0"), ctx.pos("kb")
        mu = LinT(ctx, "mu")
        muv = mu(T)
        if mus:
            sc = ctx.pos("sc")
            mu = CP(ctx.pos("mu0"), scaling=lambda x: x * sc)
            muv = mu.pvalue * sc
        ep = ctx.pos("eps", (), hi=1) if eps else ctx.const(0.0)
        if not eps:
            ctx.assume(torch.abs(e) > 1.0 / 64)
        g0sc = (lambda x: 2 * x + 1) if g0s else (lambda x: x)
        args = (m1, m2, g0, mu, b, eps0, k)
        kw = dict(eps=ep, g0_scale=g0sc)
        g = k * T / (muv * b**3) * torch.log(eps0 / (torch.abs(e) + ep))
        if soft:
            sf = ctx.pos("sf")
            m = fr.SoftKocksMeckingRegimeFlowRule(*args, sf, **kw)
            w = (torch.tanh(sf * (g - g0sc(g0))) + 1) / 2
            mix = lambda x, y, n: (1 - w[(...,) + (None,) * n]) * x + w[(...,) + (None,) * n] * y
        else:
            m = fr.KocksMeckingRegimeFlowRule(*args, **kw)
            c = g > g0sc(g0)
            mix = lambda x, y, n: torch.where(c[(...,) + (None,) * n], y, x)
        ctx.true("history count", m.nhist == nh)
        p, q = m1.flow_rate(*a), m2.flow_rate(*a)
        r, u = m1.history_rate(*a), m2.history_rate(*a)
        same_all(ctx, "blend" if soft else "switch", m, dict(
            flow=(mix(p[0], q[0], 0), mix(p[1], q[1], 0)), hist=(mix(r[0], u[0], 1), mix(r[1], u[1], 2))), a, nh)

    return fn


add("C25", "regime switch/b2", regime(False, (2,)), cost=3)
add("C25", "regime switch/b1/scaled shear modulus", regime(False, (1,), mus=True), cost=2)
add("C25", "regime switch/b1/scaled activation", regime(False, (1,), g0s=True), cost=2)
add("C25", "regime switch/b1/eps", regime(False, (1,), eps=True), cost=2)
add("C25", "regime blend/b2", regime(True, (2,)), cost=2)
add("C25", "regime blend/b12", regime(True, (1, 2), nh=2), cost=2)
add("C25", "regime blend/b1/scaled shear modulus", regime(True, (1,), mus=True))
add("C25", "regime blend/b1/scaled activation", regime(True, (1,), g0s=True))
add("C25", "regime blend/b1/eps", regime(True, (1,), eps=True))


def ri(B, nh=1):
    def fn(ctx):
        from pyoptmat import flowrules as fr

        a = s, h, t, T, e = st(ctx, nh, B)
        m1 = JetFlow(ctx, nh, (s, h, t, T, e), "m1")
        lam, er = ctx.real("lmbda", lo=0, hi=1), ctx.pos("eref")
        m = fr.RateIndependentFlowRuleWrapper(m1, lam, er)
        sc = 1 - lam + lam * torch.abs(e) / er
        f, df = m1.flow_rate(*a)
        r, dr = m1.history_rate(*a)
        ctx.true("history count", m.nhist == nh)
        same_all(ctx, "rate scaling", m, dict(flow=(sc * f, sc * df), hist=(sc[..., None] * r, sc[..., None, None] * dr)), a, nh)

    return fn


add("C25", "rate independent/b2", ri((2,)))
add("C25", "rate independent/b12", ri((1, 2), 2))


def rejects(ctx):
    from pyoptmat import flowrules as fr

    a = s, h, t, T, e = st(ctx, 1, (1,))
    m1 = JetFlow(ctx, 1, (s, h, t, T, e), "m1")
    m2 = JetFlow(ctx, 2, (s, torch.cat([h, h], -1), t, T, e), "m2")
    for c, extra in ((fr.KocksMeckingRegimeFlowRule, ()), (fr.SoftKocksMeckingRegimeFlowRule, (ctx.pos("sf"),))):
        try:
            c(m1, m2, ctx.real("g0"), CP(ctx.pos("mu")), ctx.pos("b"), ctx.pos("eps0"), ctx.pos("kb"), *extra)
            ok = False
        except ValueError:
            ok = True
        ctx.true("models with different history are rejected", ok)


add("C25", "mismatched regimes", rejects, novalidate=True)


def isokin_compose(B, ni, nk):
    """the flow rule built from arbitrary hardening models"""

    def fn(ctx):
        from pyoptmat import flowrules as fr

        s, h, t, T, e = st(ctx, ni + nk, B)
        p = ctx.real("p0", B)
        iso = JetHard(ctx, ni, (s, h[..., :ni], t, p, T, e), "iso")
        kin = JetHard(ctx, nk, (s, h[..., ni:], t, p, T, e), "kin")
        n, eta, s0 = ctx.real("n", lo=1, los=True, hi=12), LinT(ctx, "eta"), LinT(ctx, "s0")
        m = restless_flow(ctx, fr.IsoKinViscoplasticity(PT(ctx, n), eta, s0, iso, kin), s, h, t, T, e)
        X = s - kin.value(h[..., ni:])
        over = (torch.abs(X) - s0(T) - iso.value(h[..., :ni])) / eta(T)
        ref = torch.where(over > 0, torch.abs(over) ** n * torch.sign(X), torch.zeros(B))
        f, _ = m.flow_rate(s, h, t, T, e)
        ctx.eq("flow rate = <overstress / viscosity>^n in the direction of the effective stress", f, ref)
        iso.around(ref)
        kin.around(ref)
        r, _ = m.history_rate(s, h, t, T, e)
        rr = torch.cat([iso.history_rate(s, h[..., :ni], t, ref, T, e), kin.history_rate(s, h[..., ni:], t, ref, T, e)], -1)
        ctx.eq("each hardening model sees its own history and the flow rate", r, rr)
        ctx.true("history count", m.nhist == ni + nk)

    return fn


add("C25", "isokin/1+2/b2", isokin_compose((2,), 1, 2), cost=2)
add("C25", "isokin/2+1/b12", isokin_compose((1, 2), 2, 1), cost=2)


# --------------------------------------------------------------------- laws
def law_pv(B):
    def fn(ctx):
        from pyoptmat import flowrules as fr

        s, h, t, T, e = st(ctx, 0, B)
        n, eta = ctx.real("n", lo=1, los=True, hi=12), LinT(ctx, "eta")
        m = restless_flow(ctx, fr.PerfectViscoplasticity(PT(ctx, n), eta), s, h, t, T, e)
        f, df = m.flow_rate(s, h, t, T, e)
        ctx.eq("flow rate", f, (torch.abs(s) / eta(T)) ** n * torch.sign(s))
        ctx.eq("odd in the stress", m.flow_rate(-s, h, t, T, e)[0], -f)
        ctx.true("dissipation is not negative", f * s >= 0)
        ctx.true("flow resistance is not negative", df >= 0)
        r, dr = m.history_rate(s, h, t, T, e)
        ctx.true("no history", m.nhist == 0 and tuple(r.shape) == B + (0,) and tuple(dr.shape) == B + (0, 0))

    return fn


def law_ik(B):
    def fn(ctx):
        from pyoptmat import flowrules as fr, hardening as hd

        s, h, t, T, e = st(ctx, 2, B)
        n, eta, s0 = ctx.real("n", lo=1, los=True, hi=12), LinT(ctx, "eta"), LinT(ctx, "s0")
        iso = hd.VoceIsotropicHardeningModel(PT(ctx, ctx.pos("R")), PT(ctx, ctx.pos("d")))
        kin = hd.FAKinematicHardeningModel(PT(ctx, ctx.pos("C")), PT(ctx, ctx.pos("g")))
        m = restless_flow(ctx, fr.IsoKinViscoplasticity(PT(ctx, n), eta, s0, iso, kin), s, h, t, T, e)
        f, df = m.flow_rate(s, h, t, T, e)
        R, X = h[..., 0], h[..., 1]
        elastic = torch.abs(s - X) <= s0(T) + R
        ctx.true("no flow inside the yield surface", ~elastic | (f == 0))
        ctx.true("flow outside the yield surface", elastic | (s == X) | (f * (s - X) > 0))
        ctx.true("dissipation is not negative", f * (s - X) >= 0)
        ctx.true("flow resistance is not negative", df >= 0)
        hm = torch.stack([R, -X], -1)
        ctx.eq("odd symmetry", m.flow_rate(-s, hm, t, T, e)[0], -f)
        r = m.history_rate(s, h, t, T, e)[0]
        rm = m.history_rate(-s, hm, t, T, e)[0]
        ctx.eq("isotropic hardening ignores the sign of loading", rm[..., 0], r[..., 0])
        ctx.eq("backstress follows the sign of loading", rm[..., 1], -r[..., 1])
        ctx.true("hardening toward saturation only", (R > iso.R(T)) | (r[..., 0] >= 0))

    return fn


def hstate(ctx, nh, B):
    return (ctx.real("s", B), ctx.real("h", B + (nh,)), ctx.real("t", B, lo=0), ctx.real("ep", B), ctx.pos("T", B), ctx.real("e", B))


def law_hard(kind, B):
    def fn(ctx):
        from pyoptmat import hardening as hd

        L = lambda n: LinT(ctx, n)
        n = int(kind[2]) if kind.startswith("cb") else 1
        a = s, h, t, p, T, e = hstate(ctx, n, B)
        x = h[..., 0]
        ap = torch.abs(p)
        if kind == "voce":
            P = L("R"), L("d")
            m = hd.VoceIsotropicHardeningModel(*P)
            ref = P[1](T) * (P[0](T) - x) * ap
        elif kind == "theta":
            P = L("tau"), L("th")
            m = hd.Theta0VoceIsotropicHardeningModel(*P)
            ref = P[1](T) * (1 - x / P[0](T)) * ap
        elif kind == "thetarec":
            r2 = ctx.real("r2", lo=1, los=True, hi=6)
            P = L("tau"), L("th"), L("R0"), L("r1"), PT(ctx, r2)
            m = hd.Theta0RecoveryVoceIsotropicHardeningModel(*P)
            ref = P[1](T) * (1 - x / P[0](T)) * ap + P[3](T) * (P[2](T) - x) * torch.abs(P[2](T) - x) ** (r2 - 1)
        elif kind == "fa":
            P = L("C"), L("g")
            m = hd.FAKinematicHardeningModel(*P)
            ref = P[0](T) * p - P[1](T) * x * ap
        elif kind == "fanr":
            P = L("C"), L("g")
            m = hd.FAKinematicHardeningModelNoRecovery(*P)
            ref = P[0](T) * p - P[1](T) * x * ap
        elif kind == "farec":
            r = ctx.real("r", lo=1, los=True, hi=6)
            P = L("C"), L("g"), L("b")
            m = hd.FAKinematicHardeningModel(P[0], P[1], b=P[2], r=PT(ctx, r))
            ref = P[0](T) * p - P[1](T) * x * ap - P[2](T) * torch.abs(x) ** (r - 1) * x
        else:
            C, g = ctx.pos("C", (n,)), ctx.pos("g", (n,))
            ref = C * p[..., None] - g * h * ap[..., None]
            if kind.endswith("r"):
                b, r = ctx.pos("b", (n,)), ctx.real("r", (n,), lo=1, los=True, hi=6)
                m = hd.ChabocheHardeningModelRecovery(PT(ctx, C), PT(ctx, g), PT(ctx, b), PT(ctx, r))
                ref = ref - b * torch.abs(h) ** (r - 1) * h
            else:
                m = hd.ChabocheHardeningModel(PT(ctx, C), PT(ctx, g))
        if not kind.startswith("cb"):
            ref = ref[..., None]
        m = restless_hard(ctx, m, *a)
        ctx.eq("evolution equation", m.history_rate(*a), ref)
        ctx.eq("value", m.value(h), h.sum(-1))
        ctx.true("history count", m.nhist == n)
        if kind in ("voce", "theta"):
            sat = P[0](T)
            rs = m.history_rate(s, sat[..., None], t, p, T, e)
            ctx.eq("no hardening at saturation", rs, torch.zeros(B + (1,)))
            ctx.true("moves toward saturation", m.history_rate(*a)[..., 0] * (sat - x) >= 0)
        if kind in ("fa", "fanr"):
            ctx.true("bounded backstress", (torch.abs(x) < P[0](T) / P[1](T)) | (m.history_rate(*a)[..., 0] * x <= 0))
        if kind in ("fa", "fanr", "farec") or kind.startswith("cb"):
            ctx.eq("odd symmetry", m.history_rate(s, -h, t, -p, T, e), -m.history_rate(*a))
        if kind in ("voce", "theta", "fa", "fanr") or kind in ("cb2",):
            ctx.eq("no static evolution", m.history_rate(s, h, t, torch.zeros(B), T, e), torch.zeros(B + (n,)))

    return fn


def law_nokin(ctx):
    from pyoptmat import hardening as hd

    m = hd.NoKinematicHardeningModel()
    a = s, h, t, p, T, e = hstate(ctx, 0, (1, 2))
    ctx.eq("zero value", m.value(h), torch.zeros(1, 2))
    ctx.true("empty shapes", m.nhist == 0 and tuple(m.history_rate(*a).shape) == (1, 2, 0)
             and tuple(m.dvalue(h).shape) == (1, 2, 0) and tuple(m.dhistory_rate_dhistory(*a).shape) == (1, 2, 0, 0)
             and tuple(m.dhistory_rate_derate(*a).shape) == (1, 2, 0, 1))


def law_chaboche_T(rec):
    """backstress parameters that differ between experiments through temperature"""

    def fn(ctx):
        from pyoptmat import hardening as hd

        B, n = (2,), 2
        a = s, h, t, p, T, e = hstate(ctx, n, B)

        class V(torch.nn.Module):
            def __init__(self, k):
                super().__init__()
                self.a, self.b = ctx.pos(k + "a", (n,)), ctx.pos(k + "b", (n,))
                self.shape = (n,)

            def forward(self, TT):
                return self.a + self.b * TT[..., None]

        C, g = V("C"), V("g")
        ref = C(T) * p[..., None] - g(T) * h * torch.abs(p)[..., None]
        if rec:
            b, r = V("b"), PT(ctx, ctx.const([2.0, 3.0]))
            m = hd.ChabocheHardeningModelRecovery(C, g, b, r)
            ref = ref - b(T) * torch.abs(h) ** (r(T) - 1) * h
        else:
            m = hd.ChabocheHardeningModel(C, g)
        ctx.eq("evolution equation", m.history_rate(*a), ref)

    return fn


def law_damage(kind, B):
    def fn(ctx):
        from pyoptmat import damage as dm

        s = ctx.real("s", B)
        if kind == "lm":
            ctx.assume(torch.abs(s) > 1.0 / 64)
        d = ctx.real("d", B, lo=0, hi=1, his=True)
        a = (s, d, ctx.real("t", B, lo=0), ctx.pos("T", B), ctx.real("e", B))
        T = a[3]
        if kind == "none":
            m = dm.NoDamage()
            ref = torch.zeros(B)
        elif kind == "const":
            R = LinT(ctx, "R")
            m = dm.ConstantDamage(R)
            ref = R(T)
        elif kind == "hl":
            A, xi, phi = LinT(ctx, "A"), ctx.real("xi", lo=1, los=True, hi=12), ctx.pos("phi")
            m = dm.HayhurstLeckie(A, PT(ctx, xi), PT(ctx, phi))
            ref = (torch.abs(s) / A(T)) ** xi * (1 - d) ** (xi - phi)
        else:
            C, A, Bq = ctx.real("C"), ctx.real("A"), ctx.real("Bq")
            m = dm.LarsonMillerDamage(PT(ctx, C), PT(ctx, A), PT(ctx, Bq))
            ref = 10.0 ** (C - Bq / T) * (torch.abs(s) * (1 - d)) ** (-A / T)
        m = restless_damage(ctx, m, *a)
        r = m.damage_rate(*a)[0]
        ctx.eq("damage rate", r, ref)
        ctx.true("damage never heals", r >= 0)
        ctx.eq("damage ignores the sign of the stress", m.damage_rate(-s, *a[1:])[0], r)

    return fn


for b in ((2,), (1, 2)):
    tag = "b" + "x".join(map(str, b))
    add("C26", "perfect viscoplasticity/" + tag, law_pv(b))
    for k in ("voce", "theta", "thetarec", "fa", "fanr", "farec", "cb1", "cb2", "cb2r", "cb3"):
        add("C26", "hardening %s/%s" % (k, tag), law_hard(k, b))
    for k in ("none", "const", "hl", "lm"):
        add("C26", "damage %s/%s" % (k, tag), law_damage(k, b))
add("C26", "isokin viscoplasticity/b2", law_ik((2,)), cost=3)
add("C26", "isokin viscoplasticity/b1x1", law_ik((1, 1)), cost=3)
add("C26", "no kinematic hardening", law_nokin)
add("C26", "chaboche temperature/b2", law_chaboche_T(False))
add("C26", "chaboche recovery temperature/b2", law_chaboche_T(True))

# evaluated at one state after the other
add("C25", "superimposed flow/between other states", rest(super_flow((2,), (2, 1))))
add("C25", "regime switch/between other states", rest(regime(False, (1,)), fixed=True), cost=2)
add("C25", "regime blend/between other states", rest(regime(True, (2,))), cost=2)
add("C25", "rate independent/between other states", rest(ri((2,))))
add("C25", "isokin/between other states", rest(isokin_compose((2,), 1, 2)), cost=2)
add("C26", "perfect viscoplasticity/between other states", rest(law_pv((2,))))
for k in ("voce", "theta", "thetarec", "fa", "fanr", "farec", "cb2", "cb2r"):
    add("C26", "hardening %s/between other states" % k, rest(law_hard(k, (2,))))
for k in ("none", "const", "hl", "lm"):
    add("C26", "damage %s/between other states" % k, rest(law_damage(k, (2,))))
add("C26", "isokin viscoplasticity/between other states", rest(law_ik((2,))), cost=3)
