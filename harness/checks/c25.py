"""C25: the random settings of meshes are drawn without bias."""
import numpy as np
from harness.core import Impl, tlc

META = dict(level='model_checking', technique='TLA+ (Haar.tla) exact first and second power moments of randomly initialised meshes: TLC proves that the specified split-ratio distributions give Haar moments; random settings of the real meshes are tested against those distributions and moments',
            note='TLC proves, in exact rationals and for every size up to the bound and every input rail, that trees, chains, tree cascades, triangular and rectangular meshes with the specified Beta distributions end with the moments of Haar-random vectors / unitaries. Settings drawn from the real meshes (stored, redrawn, with reachable and unreachable splitter errors, any node order) are compared coupler by coupler with these distributions (Kolmogorov distance, correlations) and the resulting transfer powers with the proven moments; thresholds at about 6.5 standard deviations.',
            rule='one behaviour per mesh structure and input rail, crossing its couplers',
            assumptions=['samples are statistics: deviations below about 3% in distribution are not seen'])

Z = 6.5


def run(ctx):
    from scipy.special import betainc
    from simphox.circuit.forward import ForwardMesh
    from simphox.circuit.coupling import CouplingNode
    from simphox.circuit.vector import tree, balanced_tree, unbalanced_tree, vector_unit
    from simphox.circuit.matrix import tree_cascade, triangular
    from simphox.circuit.rectangular import rectangular
    from scipy.stats import unitary_group
    rng = ctx.rng
    np.random.seed(ctx.seed)
    top = 8 if ctx.quick else 12
    out, _ = tlc('Haar', None, invariants=['Conserved', 'Consistent', 'HaarAtEnd', 'Positive'], constants={'MaxN': top}, timeout=600)
    spec = {(o['kind'], o['n']): o for o in out}
    R = 6000 if ctx.quick else 40000
    KS = 3.3 / np.sqrt(R)                 # P(D > 3.3 / sqrt(R)) = 7e-10

    def ks(u):
        """Kolmogorov distance of samples (rows) from the uniform distribution, per column"""
        u = np.sort(u, axis=0)
        r = u.shape[0]
        lo, hi = np.arange(r)[:, None] / r, (np.arange(r)[:, None] + 1) / r
        return np.maximum(np.abs(u - lo), np.abs(u - hi)).max(axis=0)

    def cdf(s, ab):
        return np.stack([betainc(a, b, np.clip(s[:, i], 0, 1)) for i, (a, b) in enumerate(ab)], axis=1)

    def compare(what, o, s, detail):
        """samples s (draws x couplers by id) against the specified distributions"""
        ab = [(c['a'], c['b']) for c in sorted(o['nodes'], key=lambda c: c['id'])]
        if s.shape[1] != len(ab):
            ctx.violate(what + ': one draw per coupler', dict(detail, got=s.shape[1], want=len(ab)))
            return
        if not np.all(np.isfinite(s)) or s.min() < -1e-9 or s.max() > 1 + 1e-9:
            ctx.violate(what + ': split ratios in [0, 1]', detail)
            return
        lim = 3.3 / np.sqrt(len(s))
        d = ks(cdf(s, ab))
        key = None
        if o['kind'] in ('chain', 'triangular') and d.max() > lim:
            # recorded finding: the distributions of a chain are assigned in reverse order
            rev = []
            for i, (a, b) in enumerate(ab):
                run_ = max(c['a'] for c in o['nodes'] if sub(o, c) == sub(o, byid(o, i)))
                rev.append((run_ + 1 - a, 1))
            if ks(cdf(s, rev)).max() <= lim:
                key = 'split ratios of linear chains in reverse order'
        if d.max() > lim:
            i = int(d.argmax())
            ctx.violate(what + ': distribution of split ratios', dict(detail, coupler=i, want=f'Beta{ab[i]}', distance=float(d[i]),
                                                                        mean=float(s[:, i].mean()), want_mean=ab[i][0] / sum(ab[i])), key=key)
        if s.shape[1] > 1:
            c = np.corrcoef(s.T) - np.eye(s.shape[1])
            if np.abs(c).max() > Z / np.sqrt(len(s)):
                ctx.violate(what + ': couplers draw independently', dict(detail, correlation=float(np.abs(c).max())))
        # successive draws are independent
        c = [np.corrcoef(s[:-1, i], s[1:, i])[0, 1] for i in range(s.shape[1])]
        if not np.max(np.abs(c)) < Z / np.sqrt(len(s)):
            ctx.violate(what + ': successive draws are independent', dict(detail, correlation=float(np.max(np.abs(c)))))
        ctx.count('distributions', s.shape[1])

    def byid(o, i):
        return next(c for c in o['nodes'] if c['id'] == i)

    def sub(o, c):
        """number of the chain a coupler belongs to"""
        if o['kind'] == 'chain':
            return 0
        i, k, left = c['id'], 0, o['n'] - 1
        while i >= left:
            i -= left; left -= 1; k += 1
        return k

    def phases(what, p, detail):
        if p.min() < 0 or p.max() > 2 * np.pi + 1e-9:
            ctx.violate(what + ': phases within one turn', detail)
            return
        d = ks(p / (2 * np.pi))
        if d.max() > 3.3 / np.sqrt(len(p)):
            ctx.violate(what + ': phases uniform', dict(detail, distance=float(d.max())))
        if p.shape[1] > 1:
            c = np.corrcoef(p.T) - np.eye(p.shape[1])
            if np.abs(c).max() > Z / np.sqrt(len(p)):
                ctx.violate(what + ': phases are independent', dict(detail, correlation=float(np.abs(c).max())))
        ctx.count('phase distributions', p.shape[1])

    def shuffled(mesh):
        nodes = list(mesh.nodes)
        rng.shuffle(nodes)
        return ForwardMesh(nodes, phase_style=mesh.phase_style)

    build = dict(tree=lambda n: tree(n), chain=lambda n: tree(n, balanced=False), cascade=lambda n: tree_cascade(unitary_group.rvs(n)),
                 triangular=lambda n: triangular(unitary_group.rvs(n)), rectangular=lambda n: rectangular(unitary_group.rvs(n)))
    other = dict(tree=[('embedded', lambda n: tree(n, n_rails=n + 2)), ('vector unit', lambda n: vector_unit(np.ones(n) + 0j)[0]),
                       ('vector unit of a size', lambda n: vector_unit(n)[0]),
                       ('balanced tree', lambda n: balanced_tree(np.arange(1, n + 1) + 1j)[0] if isinstance(balanced_tree(np.arange(1, n + 1) + 1j), tuple) else balanced_tree(np.arange(1, n + 1) + 1j))],
                 chain=[('vector unit', lambda n: vector_unit(np.ones(n) + 0j, balanced=False)[0])],
                 cascade=[], triangular=[], rectangular=[])
    for (kind, n), o in sorted(spec.items()):
        if n > top or (kind in ('cascade', 'triangular', 'rectangular') and n > (6 if ctx.quick else 9)):
            continue
        variants = [(kind, lambda: build[kind](n)), ('column-ordered ' + kind, lambda: build[kind](n).column_ordered),
                    ('shuffled ' + kind, lambda: shuffled(build[kind](n)))]
        variants += [(f'{w} {kind}', (lambda f: lambda: f(n))(f)) for w, f in other[kind]]
        if ctx.quick:
            variants = variants[:1] + rng.sample(variants[1:], 1)
        for what, mk in variants:
            with Impl(ctx, f'random settings of {what}', dict(n=n)):
                mesh = mk()
                s = np.array([mesh.rand_s() for _ in range(R)])
                compare(what + ', rand_s', o, s, dict(n=n))
                th = np.array([mesh.rand_theta() for _ in range(R)])
                if th.min() < 0 or th.max() > np.pi + 1e-9:
                    ctx.violate(what + ': coupling phases within half a turn', dict(n=n))
                compare(what + ', rand_theta', o, np.cos(th / 2) ** 2, dict(n=n))
                ctx.count('behaviours')
    # freshly built circuits: stored settings, transfer powers
    R2 = 1500 if ctx.quick else 8000
    for kind, n in [('tree', rng.choice([3, 4, 5])), ('tree', rng.choice([6, 7])), ('chain', rng.choice([3, 4])), ('cascade', rng.choice([3, 4])),
                    ('triangular', 3), ('rectangular', rng.choice([3, 5])), ('rectangular', 4)]:
        o = spec[kind, n]
        with Impl(ctx, f'fresh {kind}', dict(n=n)):
            nodes = build[kind](n).nodes
            meshes = []
            for i in range(R2):
                meshes.append(build[kind](n) if kind in ('tree', 'chain') else ForwardMesh(nodes))
            compare(f'fresh {kind}', o, np.cos(np.array([x.thetas for x in meshes]) / 2) ** 2, dict(n=n))
            phases(f'fresh {kind}, phis', np.array([x.phis for x in meshes]), dict(n=n))
            phases(f'fresh {kind}, gammas', np.array([x.gammas for x in meshes]), dict(n=n))
            P = np.array([np.abs(x.matrix()) ** 2 for x in meshes])
            if kind in ('tree', 'chain'):
                P = P[:, n - 1:, :]
            key = 'split ratios of linear chains in reverse order' if kind in ('chain', 'triangular') else None
            mean, sq = o['mean'][0] / o['mean'][2], o['square'][0] / o['square'][2]
            var2 = 24 / (n * (n + 1) * (n + 2) * (n + 3)) - sq ** 2
            z1 = np.abs(P.mean(0) - mean).max() / np.sqrt((sq - mean ** 2) / R2)
            z2 = np.abs((P ** 2).mean(0) - sq).max() / np.sqrt(var2 / R2)
            if z1 > Z:
                ctx.violate(f'fresh {kind}: mean transferred powers', dict(n=n, mean=P.mean(0), want=mean), key=key)
            if z2 > Z + 2:
                ctx.violate(f'fresh {kind}: mean square transferred powers', dict(n=n, square=(P ** 2).mean(0), want=sq), key=key)
            ctx.count('ensembles')
    # imperfect couplers: the split ratio itself has the distribution wherever it can be reached
    for kind, n in [('tree', 2), ('tree', 5), ('cascade', 3), ('rectangular', 4), ('tree', rng.choice([3, 4, 6]))]:
        o = spec[kind, n]
        with Impl(ctx, f'imperfect {kind}', dict(n=n)):
            base = build[kind](n)
            for d in base.nodes:
                d.bs_error = (rng.choice([-.2, -.1, .05, .1, .3]), rng.choice([-.3, -.1, .1, .2]))
            mesh = ForwardMesh(base.nodes)
            th = np.array([mesh.rand_theta() for _ in range(R)])
            for c in o['nodes']:
                d = next(d for d in mesh.nodes if d.node_id == c['id'])
                e1, e2 = d.bs_error
                # power crossing from top to bottom at phase theta: lies between cos^2 (phase pi) and cos^2 (phase 0) limits
                f = lambda t: np.abs(np.array([[x.mzi_node_matrix(v, 0., embed=False)[1, 0] for v in t] for x in [d]][0])) ** 2
                grid = np.linspace(0, np.pi, 1025)
                g = f(grid)
                s = np.interp(th[:, c['id']], grid, g)
                lo, hi = g.min(), g.max()
                u = betainc(c['a'], c['b'], s)
                inside = (s > lo + 1e-4) & (s < hi - 1e-4)
                us = np.sort(u)
                F = (np.arange(R) + 1) / R
                order = np.argsort(u)
                D = np.abs(us - F)[inside[order]]
                if len(D) and D.max() > KS + .002:
                    ctx.violate(f'imperfect {kind}: distribution of split ratios', dict(n=n, coupler=c['id'], errors=[e1, e2], distance=float(D.max())))
                ctx.count('imperfect couplers')
    ensembles(ctx, rng, spec, R, ks, build, shuffled)
    ctx.sample(out[:3])


def ensembles(ctx, rng, spec, R, ks, build, shuffled):
    """noise on settings and couplers, random vectors, tensors and unitaries"""
    from scipy.special import ndtr
    from simphox.utils import random_vector, random_tensor, random_unitary

    def normal(what, x, std, detail):
        """columns of x: independent normal variables of mean zero"""
        x = np.asarray(x) / std
        if not np.all(np.isfinite(x)) or ks(ndtr(x)).max() > 3.3 / np.sqrt(len(x)):
            ctx.violate(what + ': normal with the requested deviation', dict(detail, std=x.std(0) * std, mean=x.mean(0) * std, want=std))
        if x.shape[1] > 1:
            c = np.corrcoef(x.T) - np.eye(x.shape[1])
            if np.abs(c).max() > Z / np.sqrt(len(x)):
                ctx.violate(what + ': independent', dict(detail, correlation=float(np.abs(c).max())))
        ctx.count('noise distributions', x.shape[1])

    Q = R // 4
    for kind, n in [('tree', rng.choice([3, 4, 5])), ('rectangular', 4), ('cascade', 3)]:
        for wrap in (lambda m: m, shuffled):
            d = dict(circuit=kind, n=n, shuffled=wrap is shuffled)
            with Impl(ctx, 'noisy settings', d):
                m = wrap(build[kind](n))
                p0 = [x.copy() for x in m.params]
                if any(not np.array_equal(a, b) for a, b in zip(m.phases(), p0)):
                    ctx.violate('settings without noise are the stored ones', d)
                c = rng.choice([.25, -.125])
                a = m.phases(c, constant=True); b = m.phases(c, constant=True, gamma_error=True)
                if not all(np.allclose(x, y + s, atol=1e-12) for x, y, s in zip(a, p0, (c, c, 0))) or not all(np.allclose(x, y + c, atol=1e-12) for x, y in zip(b, p0)):
                    ctx.violate('a constant error shifts every requested phase by itself', dict(d, error=c))
                std = rng.choice([.01, .5, 2])
                g = rng.random() < .5
                x = [m.phases(std, gamma_error=g) for _ in range(Q)]
                th, ph, ga = (np.array([v[i] for v in x]) - p0[i] for i in range(3))
                normal('noise of the coupling phases', th, std, d)
                normal('noise of the differential phases', ph, std, d)
                if g:
                    normal('noise of the output phases', ga, std, d)
                elif np.any(ga):
                    ctx.violate('output phases have noise only on request', d)
                if any(not np.array_equal(a, b) for a, b in zip(m.params, p0)):
                    ctx.violate('reading noisy settings leaves the stored ones unchanged', d)
            with Impl(ctx, 'imperfect copies', d):
                m = wrap(build[kind](n))
                std, ls = rng.choice([.05, .2]), rng.choice([0, .3])
                eq = rng.random() < .5
                # every drawn circuit is matched coupler by coupler (by node id) with its source
                src = {x.node_id: (np.array(x.bs_error, float), np.array(x.loss, float)) for x in m.nodes}
                e, l = [], []
                for _ in range(Q // 6):
                    c = m.add_error_variance(std, ls, equal_splitter_error=eq)
                    nd = sorted(c.nodes, key=lambda x: x.node_id)
                    e.append(np.concatenate([np.array(x.bs_error) - src[x.node_id][0] for x in nd]))
                    l.append(np.concatenate([np.array(x.loss) - src[x.node_id][1] for x in nd]))
                e, l = np.array(e), np.array(l)
                if eq:
                    if np.any(e[:, ::2] != e[:, 1::2]):
                        ctx.violate('equal splitter errors are equal', d)
                    e = e[:, ::2]
                normal('splitter errors of imperfect copies', e, std, dict(d, equal=eq))
                if ls:
                    normal('losses of imperfect copies', l, ls, d)
                elif np.any(l):
                    ctx.violate('losses vary only on request', d)
    for n in (1, 2, 5):
        d = dict(n=n)
        with Impl(ctx, 'random vectors', d):
            v = np.array([random_vector(n) for _ in range(Q)])
            if v.shape != (Q, n):
                ctx.violate('random vectors have the requested size', d); continue
            normal('components of random vectors', np.hstack((v.real, v.imag)), .5, d)
            v = np.array([random_vector(n, is_complex=False) for _ in range(Q)])
            if np.iscomplexobj(v):
                ctx.violate('real random vectors are real', d)
            normal('components of real random vectors', v.real, 1, d)
            v = np.array([random_vector(n, normed=True) for _ in range(Q)])
            if not np.allclose(np.linalg.norm(v, axis=1), 1):
                ctx.violate('normed random vectors have norm one', d)
            if n > 1:
                haar('normed random vectors', np.abs(v) ** 2, n, spec, ks, ctx)
            uniform('phases of random vectors', np.mod(np.angle(v), 2 * np.pi), ks, ctx, d)
    sh = rng.choice([(2, 3), (4,), (2, 1, 2)])
    with Impl(ctx, 'random tensors', dict(shape=sh)):
        v = np.array([random_tensor(sh) for _ in range(Q)])
        if v.shape != (Q, *sh) or random_tensor(3).shape != (3,) or random_tensor(sh, is_complex=False).shape != sh:
            ctx.violate('random tensors have the requested shape', dict(shape=sh))
        v = v.reshape(Q, -1)
        normal('components of random tensors', np.hstack((v.real, v.imag)), .5, dict(shape=sh))
    for n in (2, 3, 4):
        with Impl(ctx, 'random unitaries', dict(n=n)):
            u = np.array([random_unitary(n) for _ in range(Q)])
            if not np.allclose(u @ np.conj(np.swapaxes(u, 1, 2)), np.eye(n)):
                ctx.violate('random unitaries are unitary', dict(n=n))
            haar('entries of random unitaries', np.abs(u.reshape(Q, -1)) ** 2, n, spec, ks, ctx)
            uniform('phases of random unitaries', np.mod(np.angle(u.reshape(Q, -1)), 2 * np.pi), ks, ctx, dict(n=n))


def haar(what, p, n, spec, ks, ctx):
    """powers (draws x entries): the distribution and TLC's moments of Haar-random directions"""
    o = spec['tree', n]
    mean, sq = o['mean'][0] / o['mean'][2], o['square'][0] / o['square'][2]
    R = len(p)
    if ks(1 - (1 - p) ** (n - 1)).max() > 3.3 / np.sqrt(R) or np.abs(p.mean(0) - mean).max() > Z * np.sqrt((sq - mean ** 2) / R) \
            or np.abs((p ** 2).mean(0) - sq).max() > (Z + 2) * np.sqrt((24 / (n * (n + 1) * (n + 2) * (n + 3)) - sq ** 2) / R):
        ctx.violate(what + ': powers of Haar-random directions', dict(n=n, mean=p.mean(0), want=mean))
    ctx.count('ensembles')


def uniform(what, x, ks, ctx, d):
    if ks(x / (2 * np.pi)).max() > 3.3 / np.sqrt(len(x)):
        ctx.violate(what + ': uniform over a turn', d)
