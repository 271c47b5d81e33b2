"""C28: cosine-sine decompositions, chain matrices and single-coupler nullification are exact for every input."""
import numpy as np
from harness.core import Impl, tlc, decm, dec, close, err

META = dict(level='model_checking', technique='TLA+ (CosSin.tla over Unitary.tla; Route.tla): exact unitaries with the power sums of their sines and exact chain matrices of vectors, compared with the real decompositions and constructions',
            note='TLC enumerates all histories of elementary operations up to a length (identities, permutations, blocks included) and all short vectors over a Gaussian alphabet with zeros, proving complementary blocks and normalised, orthogonal outputs; the real decompositions must recombine exactly, have unitary factors, sorted-range angles and the exact power sums, the chain matrices must be unitary with the exact squared entries, and a coupler must null its bottom rail.',
            rule='one behaviour per unitary or vector',
            assumptions=['entries of a chain matrix before the first non-zero entry of the vector are free', 'ideal couplers for single-coupler nullification'])
TOL = 1e-9


def run(ctx):
    from simphox.circuit.matrix import cs, csinv, dirichlet_matrix
    from simphox.circuit import CouplingNode
    rng = ctx.rng
    inv = ['IsUnitary', 'Complement', 'Balanced']
    recs = tlc('CosSin', spec='CSpec', invariants=inv, view='View', constants={'MaxLen': 3, 'Sizes': '{2, 3}', 'EmitAll': 'TRUE', 'Budget5': 1})[0]
    recs += tlc('CosSin', spec='CSpec', invariants=inv, view='View', constants={'MaxLen': 1 if ctx.quick else 2, 'Sizes': '{4, 5, 6}', 'EmitAll': 'TRUE', 'Budget5': 1})[0]
    recs += tlc('CosSin', spec='CSpec', invariants=inv, constants={'MaxLen': 8, 'Sizes': '{4, 5, 7}', 'EmitAll': 'FALSE', 'Budget5': 1},
                simulate=24 if ctx.quick else 1500, depth=12, seed=ctx.seed, workers=1)[0]
    for k, r in enumerate(recs):
        u = decm(r['m']); n = r['n']; h = n // 2
        if not np.any(u.imag) and k % 2:
            u = u.real.copy()
        if k % 7 == 3:
            u = np.asfortranarray(u)
        d = dict(n=n, target=u)
        ctx.count('behaviours'); ctx.sample(d)
        with Impl(ctx, 'a cosine-sine decomposition', d):
            u0 = u.copy()
            l0, l1, r0, r1, th = cs(u)
            if not np.array_equal(u, u0):
                ctx.violate('the matrix is left unchanged', d)
            th = np.asarray(th)
            if [np.shape(x) for x in (l0, l1, r0, r1, th)] != [(h, h), (n - h, n - h), (h, h), (n - h, n - h), (h,)]:
                ctx.violate('the factors have the sizes of the blocks', dict(d, shapes=[np.shape(x) for x in (l0, l1, r0, r1, th)]))
                continue
            if not all(close(x @ np.conj(x).T, np.eye(len(x)), TOL) for x in (l0, l1, r0, r1)):
                ctx.violate('the factors are unitary', d)
            if not (np.all(np.isfinite(th)) and th.min() > -TOL and th.max() < np.pi / 2 + TOL):
                ctx.violate('the angles are between 0 and a quarter turn', dict(d, angles=th))
            s2 = np.sin(th) ** 2
            if not all(abs(np.sum(s2 ** (p + 1)) - dec(r['sums'][p])) < TOL for p in (0, 1)):
                ctx.violate('the sines are the singular values of the first block', dict(d, angles=th))
            v = csinv(l0, l1, r0, r1, th)
            if not close(v, u, TOL):
                ctx.violate('the decomposition recombines to the matrix', dict(d, err=err(v, u)))
        if ctx.full:
            return
    # recombining arbitrary factors gives a unitary with exactly that decomposition
    byn = {}
    for r in recs:
        byn.setdefault(r['n'], []).append(decm(r['m']))
    for _ in range(60 if ctx.quick else 600):
        h = rng.choice([x for x in (2, 3, 4) if x in byn]); hh = h + rng.choice([0, 1])
        if hh not in byn:
            continue
        l0, r0, l1, r1 = rng.choice(byn[h]), rng.choice(byn[h]), rng.choice(byn[hh]), rng.choice(byn[hh])
        th = np.array([rng.choice([0, np.pi / 2, np.arctan2(3, 4), np.pi / 4]) for _ in range(h)])
        d = dict(h=h, hh=hh, angles=th)
        with Impl(ctx, 'recombining factors', d):
            u = csinv(l0, l1, r0, r1, th)
            s, c = np.diag(np.sin(th)), np.diag(np.cos(th))
            want = np.zeros((h + hh, h + hh), complex)
            want[:h, :h] = l0 @ s @ r0
            want[:h, h:] = l0 @ np.hstack((c, np.zeros((h, hh - h)))) @ r1
            want[h:, :h] = l1 @ np.vstack((c, np.zeros((hh - h, h)))) @ r0
            want[h:, h:] = l1 @ np.block([[-s, np.zeros((h, hh - h))], [np.zeros((hh - h, h)), np.eye(hh - h)]]) @ r1
            ctx.count('recombined')
            if not close(u, want, TOL):
                ctx.violate('factors recombine block by block', dict(d, err=err(u, want)))
        if ctx.full:
            return
    plan = [dict(n=3, alphabet=[[0, 0], [1, 0], [0, 2], [-3, 4], [-1, 0]]), dict(n=4, alphabet=[[0, 0], [1, 1], [12, 5]]),
            dict(n=4 if ctx.quick else 6, alphabet=[[0, 0], [2, -1], [5, 0], [0, -1]])]
    recs, _ = tlc('Route', plan, invariants=['Gathered', 'Normal', 'Orthogonal', 'Emit'])
    for k, r in enumerate(recs):
        v = np.array([complex(*x) for x in r['v']])
        n = len(v)
        scale = rng.choice([1, 1, .5, 1e-3, 100, 2.0 ** -40, 2.0 ** -200, 2.0 ** 200, 2.0 ** 60])
        v = v * scale
        if not np.any(v.imag) and k % 2:
            v = v.real.copy()
        emb = rng.choice([None, n, n + 1, n + 3])
        d = dict(vector=v, embedded=emb)
        ctx.count('behaviours')
        with Impl(ctx, 'the chain matrix of a vector', d):
            v0 = v.copy()
            u = np.asarray(dirichlet_matrix(v) if emb is None else dirichlet_matrix(v, emb))
            N = emb or n
            if not np.array_equal(v, v0):
                ctx.violate('the vector is left unchanged', d)
            if not (u.shape == (N, N) and close(u @ u.conj().T, np.eye(N), TOL)):
                ctx.violate('a chain matrix is unitary', dict(d, matrix=u)); continue
            w = np.zeros(N, complex); w[:n] = v
            want = np.zeros(N, complex); want[n - 1] = np.linalg.norm(v)
            if not close(w @ u / scale, want / scale, TOL * 20):
                ctx.violate('a chain matrix gathers its vector on the last rail', dict(d, got=w @ u))
            if not (close(u[n:, n:], np.eye(N - n), TOL) and not np.any(np.abs(u[:n, n:]) > TOL) and not np.any(np.abs(u[n:, :n]) > TOL)):
                ctx.violate('rails beyond the vector are untouched', dict(d, matrix=u))
            for c, col in enumerate(r['cols']):
                if np.any(np.abs(u[c + 2:n, c]) > TOL):
                    ctx.violate('output k only takes from the rails gathered so far', dict(d, column=c, got=u[:, c]))
                if col[0] and not close(np.abs(u[:c + 2, c]) ** 2, [x[0] / x[1] for x in col], TOL):
                    ctx.violate('outputs of a chain matrix take the exact fractions', dict(d, column=c, got=np.abs(u[:, c]) ** 2, expected=[x[0] / x[1] for x in col]))
        if n >= 2:
            i = rng.randrange(n - 1)
            with Impl(ctx, 'nullification by one coupler', dict(d, rail=i)):
                nv, mat, th, ph = CouplingNode(n=n, top=i, bottom=i + 1).nullify(v.astype(complex), i)
                ref = CouplingNode(n=n, top=i, bottom=i + 1).mzi_node_matrix(th, ph)
                want = v.astype(complex).copy(); p = np.hypot(abs(v[i]), abs(v[i + 1]))
                ctx.count('couplers')
                if not (abs(nv[i + 1]) <= TOL * max(scale, p) and abs(abs(nv[i]) - p) <= TOL * max(scale, p) and close(np.delete(nv, [i, i + 1]) / scale, np.delete(want, [i, i + 1]) / scale, TOL)):
                    ctx.violate('a nullifying coupler sends the whole power of its rails to the top one', dict(d, rail=i, got=nv))
                if not (close(mat @ v / scale, nv / scale, TOL * 20) and close(ref, mat, TOL) and 0 <= th < 2 * np.pi + TOL and 0 <= ph < 2 * np.pi + TOL):
                    ctx.violate('the returned matrix and phases are those of the nullification', dict(d, rail=i))
        if ctx.full:
            return
