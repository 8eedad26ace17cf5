"""C12: hardening models - exact derivatives; C13: damage models - exact derivatives"""
import torch

from .common import add, PT, Probe, rest, restless_hard, restless_damage
from .flow import iso_models, kin_models, BATCHES


class JetHard(torch.nn.Module):
    """an arbitrary hardening model to first order around one state"""

    def __init__(self, ctx, nh, at, tag):
        super().__init__()
        self.n = nh
        self.s0, self.h0, t0, self.p0, T0, self.e0 = at
        self.pr = Probe(t=t0, T=T0)
        self.pd = Probe(s=self.s0, h=self.h0, t=t0, p=self.p0, T=T0, e=self.e0)
        B = tuple(self.s0.shape)
        self.v0 = ctx.real(tag + "_v0", B)
        self.vh = ctx.real(tag + "_vh", B + (nh,))
        self.r0 = ctx.real(tag + "_r0", B + (nh,))
        self.rs = ctx.real(tag + "_rs", B + (nh,))
        self.rh = ctx.real(tag + "_rh", B + (nh, nh))
        self.rp = ctx.real(tag + "_rp", B + (nh,))
        self.re = ctx.real(tag + "_re", B + (nh,))

    def around(self, p):
        """expand around another inelastic rate"""
        self.p0 = self.pd.at["p"] = p

    @property
    def nhist(self):
        return self.n

    def value(self, h):
        return self.v0 + (self.vh * (h - self.h0)).sum(-1)

    def dvalue(self, h):
        return self.vh + Probe(h=self.h0)(h=h)

    def history_rate(self, s, h, t, ep, T, e):
        return (self.r0 + self.rs * (s - self.s0)[..., None]
                + (self.rh * (h - self.h0)[..., None, :]).sum(-1)
                + self.rp * (ep - self.p0)[..., None] + self.re * (e - self.e0)[..., None] + self.pr(t=t, T=T))

    def dhistory_rate_dstress(self, s, h, t, ep, T, e):
        return self.rs + self.pd(s=s, h=h, t=t, p=ep, T=T, e=e)

    def dhistory_rate_dhistory(self, s, h, t, ep, T, e):
        return self.rh + self.pd(s=s, h=h, t=t, p=ep, T=T, e=e)

    def dhistory_rate_derate(self, s, h, t, ep, T, e):
        return (self.rp + self.pd(s=s, h=h, t=t, p=ep, T=T, e=e))[..., None]

    def dhistory_rate_dtotalrate(self, s, h, t, ep, T, e):
        return self.re + self.pd(s=s, h=h, t=t, p=ep, T=T, e=e)


def hstate(ctx, nh, B):
    ctx.T0 = ctx.pos("T", B)
    return (ctx.real("s", B), ctx.real("h", B + (nh,)), ctx.real("t", B, lo=0), ctx.real("ep", B),
            ctx.T0, ctx.real("e", B))


def check_hard(ctx, m, st):
    s, h, t, p, T, e = st
    m = restless_hard(ctx, m, *st)
    nb = s.dim()
    B, nh = tuple(s.shape), m.nhist
    r = m.history_rate(s, h, t, p, T, e)
    v = m.value(h)
    ctx.true("value shape", tuple(v.shape) == B)
    ctx.true("rate shape", tuple(r.shape) == B + (nh,))
    ctx.true("d value / d history shape", tuple(m.dvalue(h).shape) == B + (nh,))
    f = lambda **k: m.history_rate(k.get("s", s), k.get("h", h), t, k.get("p", p), T, k.get("e", e))
    a = (s, h, t, p, T, e)
    for name, v, sh in (
        ("stress", m.dhistory_rate_dstress(*a), (nh,)), ("history", m.dhistory_rate_dhistory(*a), (nh, nh)),
        ("inelastic rate", m.dhistory_rate_derate(*a), (nh, 1)), ("total rate", m.dhistory_rate_dtotalrate(*a), (nh,)),
    ):
        ctx.true("shape of d rate / d " + name, tuple(v.shape) == B + sh)
    ctx.eq("d value / d history", m.dvalue(h), ctx.jac(m.value, h, nb), deriv=True)
    ctx.eq("d rate / d stress", m.dhistory_rate_dstress(s, h, t, p, T, e), ctx.jac(lambda x: f(s=x), s, nb), deriv=True)
    ctx.eq("d rate / d history", m.dhistory_rate_dhistory(s, h, t, p, T, e), ctx.jac(lambda x: f(h=x), h, nb), deriv=True)
    ctx.eq("d rate / d inelastic rate", m.dhistory_rate_derate(s, h, t, p, T, e)[..., 0], ctx.jac(lambda x: f(p=x), p, nb), deriv=True)
    ctx.eq("d rate / d total rate", m.dhistory_rate_dtotalrate(s, h, t, p, T, e), ctx.jac(lambda x: f(e=x), e, nb), deriv=True)


def hcase(build, B):
    def fn(ctx):
        m = build(ctx)
        check_hard(ctx, m, hstate(ctx, m.nhist, B))

    return fn


for k in ("voce", "theta", "thetarec"):
    for b in ("b2", "b12"):
        add("C12", "isotropic/%s/%s" % (k, b), hcase(lambda ctx, k=k: iso_models(ctx, k), BATCHES[b]))
for k in ("fa", "farec", "fanr", "cb1", "cb2", "cb3", "cb1r", "cb2r", "sup"):
    for b in ("b2",) + (("b12",) if k not in ("sup", "cb3") else ()):
        add("C12", "kinematic/%s/%s" % (k, b), hcase(lambda ctx, k=k: kin_models(ctx, k), BATCHES[b]))


def sup_jets(B):
    def fn(ctx):
        from pyoptmat import hardening

        st = hstate(ctx, 4, B)
        s, h, t, p, T, e = st
        ms = [JetHard(ctx, n, (s, h[..., o:o + n], t, p, T, e), "m%d" % i)
              for i, (o, n) in enumerate([(0, 1), (1, 2), (3, 1)])]
        m = hardening.SuperimposedKinematicHardening(ms)
        check_hard(ctx, m, st)
        ctx.eq("superimposed value", m.value(h), ms[0].value(h[..., :1]) + ms[1].value(h[..., 1:3]) + ms[2].value(h[..., 3:]))
        ctx.eq("superimposed rate", m.history_rate(*st), torch.cat(
            [ms[0].history_rate(s, h[..., :1], t, p, T, e), ms[1].history_rate(s, h[..., 1:3], t, p, T, e),
             ms[2].history_rate(s, h[..., 3:], t, p, T, e)], -1))

    return fn


add("C12", "superimposed arbitrary/b2", sup_jets((2,)))
add("C12", "superimposed arbitrary/b12", sup_jets((1, 2)))


def isokin_jets(B, ni=1, nk=2):
    """IsoKin flow rule around arbitrary hardening models (used by C11)"""

    def fn(ctx):
        from pyoptmat import flowrules
        from .flow import check_flow

        s, h, t, p, T, e = hstate(ctx, ni + nk, B)
        iso = JetHard(ctx, ni, (s, h[..., :ni], t, p, T, e), "iso")
        kin = JetHard(ctx, nk, (s, h[..., ni:], t, p, T, e), "kin")
        m = flowrules.IsoKinViscoplasticity(
            PT(ctx, ctx.real("n", lo=1, hi=12)), PT(ctx, ctx.pos("eta")), PT(ctx, ctx.real("s0", lo=0)), iso, kin)
        p = m.flow_rate(s, h, t, T, e)[0].clone()
        iso.around(p)
        kin.around(p)
        check_flow(ctx, m, s, h, t, T, e)

    return fn


add("C11", "isokin arbitrary hardening/b2", isokin_jets((2,)), cost=3)
add("C11", "isokin arbitrary hardening 2+1/b0", isokin_jets((), 2, 1))


for k in ("voce", "theta", "thetarec"):
    add("C12", "isotropic/%s/between other states" % k, rest(hcase(lambda ctx, k=k: iso_models(ctx, k), (2,))))
for k in ("fa", "farec", "fanr", "cb2", "cb2r", "sup"):
    add("C12", "kinematic/%s/between other states" % k, rest(hcase(lambda ctx, k=k: kin_models(ctx, k), (2,))))


# ------------------------------------------------------------------- damage
def damage_models(ctx, kind):
    from pyoptmat import damage as d

    if kind == "none":
        return d.NoDamage()
    if kind == "hl":
        return d.HayhurstLeckie(PT(ctx, ctx.pos("A")), PT(ctx, ctx.real("xi", lo=1, los=True, hi=12)), PT(ctx, ctx.pos("phi")))
    if kind == "const":
        return d.ConstantDamage(PT(ctx, ctx.pos("R")))
    if kind == "lm":
        return d.LarsonMillerDamage(PT(ctx, ctx.real("C")), PT(ctx, ctx.real("A")), PT(ctx, ctx.real("Bp")), eps=0.0)
    raise ValueError(kind)


def check_damage(ctx, m, s, d, t, T, e):
    m = restless_damage(ctx, m, s, d, t, T, e)
    nb = s.dim()
    r, dr = m.damage_rate(s, d, t, T, e)
    ctx.true("damage rate shape", tuple(r.shape) == tuple(s.shape))
    f = lambda **k: m.damage_rate(k.get("s", s), k.get("d", d), t, T, k.get("e", e))[0]
    for v in (dr, m.d_damage_rate_d_s(s, d, t, T, e), m.d_damage_rate_d_e(s, d, t, T, e)):
        ctx.true("shape of the derivatives", tuple(v.shape) == tuple(s.shape))
    ctx.eq("d damage rate / d damage", dr, ctx.jac(lambda x: f(d=x), d, nb), deriv=True)
    ctx.eq("d damage rate / d stress", m.d_damage_rate_d_s(s, d, t, T, e), ctx.jac(lambda x: f(s=x), s, nb), deriv=True)
    ctx.eq("d damage rate / d inelastic rate", m.d_damage_rate_d_e(s, d, t, T, e), ctx.jac(lambda x: f(e=x), e, nb), deriv=True)


def dstate(ctx, B, nz):
    s = ctx.real("s", B)
    if nz:
        ctx.assume(torch.abs(s) > 1.0 / 64)
    d = ctx.real("d", B, lo=0, hi=1, his=True)
    ctx.T0 = ctx.pos("T", B)
    return s, d, ctx.real("t", B, lo=0), ctx.T0, ctx.real("e", B)


def dcase(kind, B):
    def fn(ctx):
        m = damage_models(ctx, kind)
        check_damage(ctx, m, *dstate(ctx, B, kind == "lm"))

    return fn


for k in ("none", "const", "hl", "lm"):
    for b in ("b0", "b2", "b12"):
        add("C13", "%s/%s" % (k, b), dcase(k, BATCHES[b]))

    add("C13", "%s/between other states" % k, rest(dcase(k, (2,))))


def lm_zero(B):
    """at zero stress, with a stress exponent above one, the rate and all its
    derivatives vanish (with the default regularisation)"""

    def fn(ctx):
        from pyoptmat import damage

        s, d, t, T, e = dstate(ctx, B, False)
        s = torch.zeros(B)
        A = -T * ctx.real("p", B, lo=1.25, hi=9)
        m = damage.LarsonMillerDamage(PT(ctx, ctx.real("C")), PT(ctx, A), PT(ctx, ctx.real("Bp")))
        z = torch.zeros(B)
        r, dr = m.damage_rate(s, d, t, T, e)
        ctx.eq("damage rate at zero stress", r, z)
        ctx.eq("d damage rate / d damage at zero stress", dr, z)
        ctx.eq("d damage rate / d stress at zero stress", m.d_damage_rate_d_s(s, d, t, T, e), z)

    return fn


add("C13", "lm/zero stress/b2", lm_zero((2,)))


def lm_default(B):
    """the default regularisation does not spoil the derivative away from zero"""

    def fn(ctx):
        from pyoptmat import damage

        s, d, t, T, e = dstate(ctx, B, True)
        p = [PT(ctx, ctx.real(k)) for k in ("C", "A", "Bp")]
        got = damage.LarsonMillerDamage(*p).d_damage_rate_d_s(s, d, t, T, e)
        ref = damage.LarsonMillerDamage(*p, eps=0.0).d_damage_rate_d_s(s, d, t, T, e)
        ctx.le("default regularisation", (got - ref).abs(), ref.abs() / 2**20)

    return fn


add("C13", "lm/default regularisation/b2", lm_default((2,)))
