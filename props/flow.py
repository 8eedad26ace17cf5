"""C11, C12, C13: constitutive building blocks - rates and their derivatives"""
import torch

from .common import add, PT, Probe, rest, restless_flow

BATCHES = {"b0": (), "b2": (2,), "b12": (1, 2)}


# ------------------------------------------------------------------ builders
def pv(ctx, tag="pv", n=None):
    from pyoptmat import flowrules

    n = ctx.real(tag + "_n", (), lo=1, hi=12) if n is None else n
    return flowrules.PerfectViscoplasticity(PT(ctx, n), PT(ctx, ctx.pos(tag + "_eta")))


def iso_models(ctx, kind, tag="iso"):
    from pyoptmat import hardening as h

    if kind == "voce":
        return h.VoceIsotropicHardeningModel(PT(ctx, ctx.real(tag + "_R")), PT(ctx, ctx.pos(tag + "_d")))
    if kind == "theta":
        return h.Theta0VoceIsotropicHardeningModel(PT(ctx, ctx.pos(tag + "_tau")), PT(ctx, ctx.pos(tag + "_th")))
    if kind == "thetarec":
        return h.Theta0RecoveryVoceIsotropicHardeningModel(
            PT(ctx, ctx.pos(tag + "_tau")), PT(ctx, ctx.pos(tag + "_th")), PT(ctx, ctx.pos(tag + "_R0")),
            PT(ctx, ctx.pos(tag + "_r1")), PT(ctx, ctx.real(tag + "_r2", lo=1, los=True, hi=6)))
    raise ValueError(kind)


def kin_models(ctx, kind, tag="kin"):
    from pyoptmat import hardening as h

    if kind == "none":
        return h.NoKinematicHardeningModel()
    if kind == "fa":
        return h.FAKinematicHardeningModel(PT(ctx, ctx.pos(tag + "_C")), PT(ctx, ctx.pos(tag + "_g")))
    if kind == "farec":
        return h.FAKinematicHardeningModel(
            PT(ctx, ctx.pos(tag + "_C")), PT(ctx, ctx.pos(tag + "_g")), b=PT(ctx, ctx.pos(tag + "_b")),
            r=PT(ctx, ctx.real(tag + "_r", lo=1, los=True, hi=6)))
    if kind == "fanr":
        return h.FAKinematicHardeningModelNoRecovery(PT(ctx, ctx.pos(tag + "_C")), PT(ctx, ctx.pos(tag + "_g")))
    if kind.startswith("cb"):
        n = int(kind[2])
        if kind.endswith("r"):
            return h.ChabocheHardeningModelRecovery(
                PT(ctx, ctx.pos(tag + "_C", (n,))), PT(ctx, ctx.pos(tag + "_g", (n,))), PT(ctx, ctx.pos(tag + "_b", (n,))),
                PT(ctx, ctx.real(tag + "_r", (n,), lo=1, los=True, hi=6)))
        return h.ChabocheHardeningModel(PT(ctx, ctx.pos(tag + "_C", (n,))), PT(ctx, ctx.pos(tag + "_g", (n,))))
    if kind == "sup":
        return h.SuperimposedKinematicHardening(
            [kin_models(ctx, "cb2", tag + "a"), kin_models(ctx, "fanr", tag + "b"), kin_models(ctx, "farec", tag + "c")])
    raise ValueError(kind)


def ik(ctx, iso, kin, tag="ik", n=None):
    from pyoptmat import flowrules

    return flowrules.IsoKinViscoplasticity(
        PT(ctx, ctx.real(tag + "_n", lo=1, hi=12) if n is None else n), PT(ctx, ctx.pos(tag + "_eta")),
        PT(ctx, ctx.real(tag + "_s0", lo=0)), iso_models(ctx, iso, tag + "_iso"), kin_models(ctx, kin, tag + "_kin"))


def state(ctx, nh, B):
    s = ctx.real("s", B)
    h = ctx.real("h", B + (nh,))
    t = ctx.real("t", B, lo=0)
    T = ctx.T0 = ctx.pos("T", B)
    e = ctx.real("e", B)
    return s, h, t, T, e


class JetFlow(torch.nn.Module):
    """an arbitrary flow rule, known at one state through its value and first
    derivatives: every smooth rule agrees with one of these to first order"""

    def __init__(self, ctx, nh, at, tag, rate=True):
        super().__init__()
        self.nhist = nh
        self.s0, self.h0, self.t0, self.T0, self.e0 = at
        # rates: other times or temperatures; derivatives: any other argument
        self.pr = Probe(t=self.t0, T=self.T0)
        self.pd = Probe(s=self.s0, h=self.h0, t=self.t0, T=self.T0, e=self.e0)
        B = tuple(self.s0.shape)
        self.f0 = ctx.real(tag + "_f0", B)
        self.fs = ctx.real(tag + "_fs", B)
        self.fh = ctx.real(tag + "_fh", B + (nh,))
        self.fe = ctx.real(tag + "_fe", B) if rate else torch.zeros(B)
        self.h_0 = ctx.real(tag + "_h0", B + (nh,))
        self.hs = ctx.real(tag + "_hs", B + (nh,))
        self.hh = ctx.real(tag + "_hh", B + (nh, nh))
        self.he = ctx.real(tag + "_he", B + (nh,)) if rate else torch.zeros(B + (nh,))

    def flow_rate(self, s, h, t, T, e):
        f = (self.f0 + self.fs * (s - self.s0) + (self.fh * (h - self.h0)).sum(-1)
             + self.fe * (e - self.e0) + self.pr(t=t, T=T))
        return f, self.fs + self.pd(s=s, h=h, t=t, T=T, e=e)

    def history_rate(self, s, h, t, T, e):
        r = (self.h_0 + self.hs * (s - self.s0)[..., None]
             + (self.hh * (h - self.h0)[..., None, :]).sum(-1)
             + self.he * (e - self.e0)[..., None] + self.pr(t=t, T=T))
        return r, self.hh + self.pd(s=s, h=h, t=t, T=T, e=e)

    def dflow_dhist(self, s, h, t, T, e):
        return (self.fh + self.pd(s=s, h=h, t=t, T=T, e=e))[..., None, :]

    def dflow_derate(self, s, h, t, T, e):
        return self.fe + self.pd(s=s, h=h, t=t, T=T, e=e)

    def dhist_dstress(self, s, h, t, T, e):
        return self.hs + self.pd(s=s, h=h, t=t, T=T, e=e)

    def dhist_derate(self, s, h, t, T, e):
        return self.he + self.pd(s=s, h=h, t=t, T=T, e=e)


# ------------------------------------------------------------ flow rule checks
def check_flow(ctx, m, s, h, t, T, e, deriv=True):
    m = restless_flow(ctx, m, s, h, t, T, e)
    nb = s.dim()
    f, dfs = m.flow_rate(s, h, t, T, e)
    r, drh = m.history_rate(s, h, t, T, e)
    B = tuple(s.shape)
    nh = m.nhist
    ctx.true("flow rate shape", tuple(f.shape) == B)
    ctx.true("history rate shape", tuple(r.shape) == B + (nh,))
    fl = lambda **k: m.flow_rate(k.get("s", s), k.get("h", h), t, T, k.get("e", e))[0]
    hr = lambda **k: m.history_rate(k.get("s", s), k.get("h", h), t, T, k.get("e", e))[0]
    ctx.eq("d flow / d stress", dfs, ctx.jac(lambda x: fl(s=x), s, nb), deriv=True)
    ctx.eq("d flow / d total rate", m.dflow_derate(s, h, t, T, e), ctx.jac(lambda x: fl(e=x), e, nb), deriv=True)
    if nh:
        for name, v, sh in (
            ("d flow / d history", m.dflow_dhist(s, h, t, T, e), (1, nh)), ("d history rate / d history", drh, (nh, nh)),
            ("d history rate / d stress", m.dhist_dstress(s, h, t, T, e), (nh,)), ("d history rate / d total rate", m.dhist_derate(s, h, t, T, e), (nh,)),
        ):
            ctx.true("shape of " + name, tuple(v.shape) == B + sh)
        ctx.eq("d flow / d history", m.dflow_dhist(s, h, t, T, e)[..., 0, :], ctx.jac(lambda x: fl(h=x), h, nb), deriv=True)
        ctx.eq("d history rate / d history", drh, ctx.jac(lambda x: hr(h=x), h, nb), deriv=True)
        ctx.eq("d history rate / d stress", m.dhist_dstress(s, h, t, T, e), ctx.jac(lambda x: hr(s=x), s, nb), deriv=True)
        ctx.eq("d history rate / d total rate", m.dhist_derate(s, h, t, T, e), ctx.jac(lambda x: hr(e=x), e, nb), deriv=True)


def flow_case(build, B):
    def fn(ctx):
        m = build(ctx)
        st = state(ctx, m.nhist, B)
        check_flow(ctx, m, *st)

    return fn


add("C11", "perfect/b2", flow_case(pv, (2,)))
for iso, kin, bt, tier in [
    ("voce", "none", "b2", "quick"), ("voce", "fa", "b2", "quick"), ("theta", "fanr", "b12", "quick"),
    ("thetarec", "farec", "b0", "quick"), ("voce", "cb2", "b2", "quick"), ("theta", "cb2r", "b2", "quick"),
    ("thetarec", "sup", "b2", "thorough"), ("voce", "cb3", "b12", "thorough"),
]:
    add("C11", "isokin/%s+%s/%s" % (iso, kin, bt),
        flow_case(lambda ctx, iso=iso, kin=kin: ik(ctx, iso, kin), BATCHES[bt]), tier=tier)


# linear viscous flow: the exponent of the derivatives vanishes
add("C11", "perfect/linear", flow_case(lambda ctx: pv(ctx, n=ctx.const(1.0)), (2,)))
add("C11", "isokin/linear", flow_case(lambda ctx: ik(ctx, "voce", "fa", n=ctx.const(1.0)), (2,)))


def km(ctx, soft, m1, m2, opts=()):
    from pyoptmat import flowrules as fr

    args = (m1, m2, ctx.real("g0", (), lo=-3, hi=3), PT(ctx, ctx.pos("mu")), ctx.pos("b"), ctx.pos("eps0"), ctx.pos("kb"))
    kw = dict(eps=ctx.pos("eps", (), hi=1) if "eps" in opts else ctx.const(0.0))
    if "scaled" in opts:
        kw["g0_scale"] = lambda x: 1.5 * x + 0.125
    if soft:
        return fr.SoftKocksMeckingRegimeFlowRule(*args, ctx.pos("sf"), **kw)
    return fr.KocksMeckingRegimeFlowRule(*args, **kw)


def wrapper_case(kind, B, nh=2, opts=(), parts=None):
    def fn(ctx):
        from pyoptmat import flowrules as fr

        s = ctx.real("s", B)
        ns = parts if parts is not None else (nh, nh)
        h = ctx.real("h", B + (sum(ns) if kind == "super" else nh,))
        t = ctx.real("t", B, lo=0)
        T = ctx.T0 = ctx.pos("T", B)
        e = ctx.real("e", B)
        if kind != "ri":
            ctx.assume(torch.abs(e) > 1.0 / 64)
        if kind == "super":
            m = fr.SuperimposedFlowRule([
                JetFlow(ctx, n, (s, h[..., sum(ns[:i]):sum(ns[:i]) + n], t, T, e), "m%d" % (i + 1)) for i, n in enumerate(ns)
            ])
        elif kind == "ri":
            m1 = JetFlow(ctx, nh, (s, h, t, T, e), "m1")
            m = fr.RateIndependentFlowRuleWrapper(m1, ctx.real("lmbda", lo=0, hi=1), ctx.pos("eref"))
        else:
            m1 = JetFlow(ctx, nh, (s, h, t, T, e), "m1")
            m2 = JetFlow(ctx, nh, (s, h, t, T, e), "m2")
            m = km(ctx, kind == "soft", m1, m2, opts)
        check_flow(ctx, m, s, h, t, T, e)

    return fn


add("C11", "superimposed/b2", wrapper_case("super", (2,)))
# parts of different sizes, also without internal variables of their own
for ns in ((0, 2), (1, 0, 1), (0, 0), (1, 2, 1)):
    add("C11", "superimposed/%s" % "+".join(map(str, ns)), wrapper_case("super", (1, 2) if 0 in ns[:1] else (2,), parts=ns))
# wrapped rules without internal variables
add("C11", "rate-independent/no history", wrapper_case("ri", (2,), 0))
for k in ("hard", "soft"):
    add("C11", "km-%s/no history" % k, wrapper_case(k, (1,), 0))
add("C11", "superimposed/b12", wrapper_case("super", (1, 2), 1), tier="thorough")
add("C11", "rate-independent/b2", wrapper_case("ri", (2,)))
add("C11", "km-switch/b2", wrapper_case("hard", (2,), 1))
add("C11", "km-soft/b0", wrapper_case("soft", (), 1))
for o in ("scaled", "eps"):
    add("C11", "km-switch/b1/%s" % o, wrapper_case("hard", (1,), 1, (o,)))
    add("C11", "km-soft/b1/%s" % o, wrapper_case("soft", (1,), 1, (o,)))
add("C11", "km-soft/b2", wrapper_case("soft", (2,), 2), tier="thorough")

# evaluated at one state after the other
add("C11", "perfect/between other states", rest(flow_case(pv, (2,))))
for iso, kin in (("voce", "fa"), ("theta", "cb2r")):
    add("C11", "isokin/%s+%s/between other states" % (iso, kin), rest(flow_case(lambda ctx, iso=iso, kin=kin: ik(ctx, iso, kin), (2,))))
for k, n in (("super", 2), ("ri", 2), ("hard", 1), ("soft", 1)):
    add("C11", "%s/between other states" % k, rest(wrapper_case(k, (1,) if k == "hard" else (2,), n), fixed=k == "hard"))
