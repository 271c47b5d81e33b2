"""C30: every model of a single coupler has exactly the transfer its settings prescribe."""
import cmath
import math
import numpy as np
from harness.core import Impl, tlc, dec, decm, close, err
from harness import circuits as cz

META = dict(level='model_checking', technique='TLA+ (Coupler.tla): couplers put together part by part with exact settings, compared with the real models',
            note='TLC places the parts of every coupler model (all settings of small alphabets exhaustively, random ones of larger alphabets and placements), proving power accounting, unitarity, straight other rails, and the crossed fraction with its attainable range; the real matrices, embedded and bare, and the inverse from fractions to phases must be exactly those.',
            rule='one behaviour per coupler and setting',
            assumptions=['phase from a fraction: both splitters split at all'])
TOL = 1e-9
INV = ['Accounted', 'Unitary', 'Others', 'Crossed', 'Attainable', 'Ratio', 'Emit']
ANGLE = lambda r: cmath.phase(dec(r))


def turns(rng):
    return 2 * math.pi * rng.choice([0, 0, 0, 1, -1])


def real(r, plan, rng, CouplingNode):
    """(node, the matrices the real models give for these settings, the bare one)"""
    n, t, b = r['place']
    p = [x - 1 for x in r['parts']]
    ph = lambda i: ANGLE(plan['phases'][p[i]]) + turns(rng)
    ang = lambda i: math.atan2(dec(plan['splits'][p[i]][1]).real, dec(plan['splits'][p[i]][0]).real)
    db = lambda i: 20 * math.log10(dec(plan['amps'][p[i]]).real)
    kind = r['kind']
    kw = dict(n=n, top=t - 1, bottom=b - 1, node_id=rng.choice([0, 5]), column=rng.choice([0, 3]))
    if kind == 'mzi':
        e = (ang(2) - math.pi / 4, ang(5) - math.pi / 4)
        nd = CouplingNode(loss=(db(4), db(1)), bs_error=e[0] if e[0] == e[1] and rng.random() < .5 else e, **kw)
        th, phi = ph(3), ph(0)
        return nd, lambda **k: nd.mzi_node_matrix(th, phi, **k), dict(theta=th, phi=phi)
    if kind == 'mmi':
        e = rng.choice([0., .3, -1.1])
        nd = CouplingNode(loss=(db(2), 0.), bs_error=(e, rng.choice([0., .2])), **kw)
        th, phi = 2 * ang(1) - e, ph(0)
        return nd, lambda **k: nd.mmi_node_matrix(th, phi, **k), dict(theta=th, phi=phi)
    e = (rng.uniform(-.3, .3), rng.uniform(-.3, .3))
    if kind == 'ideal':
        nd = CouplingNode(bs_error=e, loss=(-1., -2.), **kw)          # ideal: whatever the imperfections
        s, phi = dec(plan['splits'][p[0]][1]).real ** 2, ph(1)
        return nd, lambda: nd.ideal_node(min(s, 1.), phi), dict(s=s, phi=phi)
    if kind == 'phase':
        nd = CouplingNode(bs_error=e, loss=(-1., -2.), **kw)
        a, c = ph(0), ph(1)
        return nd, lambda: nd.phase_matrix(a, c), dict(top=a, bottom=c)
    a = ang(0) - math.pi / 4
    nd = CouplingNode(bs_error=(a, e[1]) if kind == 'left' else (e[0], a), loss=(-1., 0.), **kw)
    return nd, lambda: nd.dc(right=kind == 'right'), {}


def run(ctx):
    from simphox.circuit import CouplingNode, ForwardMesh
    from simphox.circuit.coupling import transmissivity_to_phase, direct_transmissivity
    rng = ctx.rng
    J = lambda xs: [list(x) for x in xs]
    splits = [cz.SPLIT_IDEAL[1:]] + [x[1:] for x in cz.SPLIT_PY] + [x[1:] for x in cz.SPLIT_OM[:2]]
    signed = splits + [cz.SPLIT_OM[2][1:], ((-3, 0, 0, 0, 0, 1), (4, 0, 0, 0, 0, 1)), ((4, 0, 0, 0, 0, 1), (-3, 0, 0, 0, 0, 1))]
    amps = [cz.ONE] + [a[0] for a in cz.AMPS]
    kinds = ['mzi', 'mmi', 'ideal', 'phase', 'left', 'right']
    pl = lambda **k: dict({'phases': J(k['phases']), 'splits': [J(x) for x in k['splits']], 'amps': J(k['amps'])}, places=k['places'], kinds=k['kinds'])
    k = 2 if ctx.quick else 5
    small = pl(phases=[cz.OM[0], cz.OM[3], cz.OM[4], cz.PY[0]], splits=splits[:3] + splits[4:], amps=amps[:k], places=[[2, 1, 2]], kinds=['mzi'])
    other = pl(phases=cz.OM + cz.PY[:2], splits=splits, amps=amps, places=[[2, 1, 2], [2, 2, 1], [4, 2, 4], [5, 4, 1]], kinds=kinds[1:3] + kinds[4:])
    pairs = pl(phases=cz.OM[:3] + cz.PY, splits=splits, amps=amps, places=[[2, 1, 2], [2, 2, 1], [3, 1, 3]], kinds=['phase'])
    wide = pl(phases=cz.OM + cz.PY, splits=signed, amps=amps, kinds=['mzi', 'mzi', 'mmi'],
              places=[[n, t, b] for n in (2, 3, 4, 6, 9) for t in range(1, n + 1) for b in range(1, n + 1) if t != b])
    jobs = [(small, {}), (other, {}), (pairs, {}), (wide, dict(simulate=400 if ctx.quick else 6000, depth=8, seed=ctx.seed, workers=1))]
    for plan, opt in jobs:
        for r in tlc('Coupler', plan, invariants=INV, timeout=800, **opt)[0]:
            n, t, b = r['place']; i = [t - 1, b - 1]
            want = decm(r['m'])
            d = dict(kind=r['kind'], n=n, top=t - 1, bottom=b - 1, parts=r['parts'])
            ctx.count(r['kind']); ctx.count('behaviours'); ctx.sample(d)
            with Impl(ctx, 'the matrix of a coupler', d):
                nd, f, how = real(r, plan, rng, CouplingNode)
                d = dict(d, **how, error=nd.bs_error, loss=nd.loss)
                bare = want[np.ix_(i, i)]
                if r['kind'] in ('left', 'right'):
                    got = np.asarray(f())
                    if not close(got, bare, TOL):
                        ctx.violate('a splitter has exactly its angle', dict(d, err=err(got, bare)))
                    continue
                got = np.asarray(f())
                if not close(got, want, TOL):
                    ctx.violate('a coupler has exactly the transfer of its settings', dict(d, got=got, expected=want))
                if r['kind'] in ('mzi', 'mmi'):
                    got = np.asarray(f(embed=False))
                    if not close(got, bare, TOL):
                        ctx.violate('a bare coupler has the transfer of its own rails', dict(d, got=got, expected=bare))
                if r['kind'] == 'mzi':
                    inverse(ctx, r, nd, how, d, rng, transmissivity_to_phase, direct_transmissivity, want, i)
                    if rng.random() < (.03 if ctx.quick else .2):
                        nd = CouplingNode(n=n, top=t - 1, bottom=b - 1, bs_error=nd.bs_error, loss=nd.loss)
                        got = np.asarray(ForwardMesh([nd]).matrix(params=(np.array([how['theta']]), np.array([how['phi']]), np.zeros(n))))
                        ctx.count('circuits')
                        if not close(got, want, 1e-5):
                            ctx.violate('a circuit of one coupler has its transfer', dict(d, got=got, expected=want))
            if ctx.full:
                return


def inverse(ctx, r, nd, how, d, rng, to_phase, direct, want, i):
    terms = [dec(x).real for x in r['terms']]
    if not close(nd.mzi_terms, terms, TOL):
        ctx.violate('the splitting terms of a coupler are those of its splitters', dict(d, got=nd.mzi_terms, expected=terms))
        return
    cs, sc = terms[1], terms[2]
    if abs(cs * sc) < 1e-3:
        return
    ideal = abs(cs - .5) < 1e-12 and abs(sc - .5) < 1e-12
    lo, hi = sorted(dec(x).real for x in r['ends'])
    s = dec(r['fraction']).real
    asked = np.array([s, lo, hi, rng.random(), 0., 1., (lo + hi) / 2])
    args = (None,) if ideal and rng.random() < .5 else (nd.mzi_terms,)
    for a in (asked, float(asked[rng.randrange(len(asked))]), asked.reshape(1, -1)):
        th = np.asarray(to_phase(a, *args) if args[0] is not None or rng.random() < .5 else to_phase(a))
        ctx.count('inverses')
        got = cs ** 2 + sc ** 2 + 2 * cs * sc * np.cos(th)
        if th.shape != np.shape(a) or not np.all(np.isfinite(th)) or np.min(th) < -TOL or np.max(th) > math.pi + TOL:
            ctx.violate('a phase between no and half a turn is given for every fraction', dict(d, fractions=a, got=th))
        elif not close(got, np.clip(a, lo, hi), TOL):
            ctx.violate('the phase given for a fraction makes the coupler cross it, or the nearest attainable one', dict(d, fractions=a, got=th))
    th = float(to_phase(s, nd.mzi_terms))
    if abs(math.cos(th) - math.cos(how['theta'])) > 1e-7:
        ctx.violate('the phase of a crossed fraction is recovered', dict(d, fraction=s, got=th))
    # the fraction of two fields on the rails
    x = want[:, i[0]] if n_power(want[:, i[0]]) > 1e-6 else want[:, i[1]]
    top, bot = x[i[0]], x[i[1]]
    k = rng.choice([1, 1e-3, 1e4])
    got = direct(np.array([k * top, 1, 0]), np.array([k * bot, 0, 2j]))
    p = abs(top) ** 2 + abs(bot) ** 2
    if p > 1e-6 and not close(got, [abs(top) ** 2 / p, 1, 0], 1e-8):
        ctx.violate('the fraction of a field on the top rail', dict(d, top=top, bottom=bot, got=got))


def n_power(x):
    return float(np.sum(np.abs(x) ** 2))
