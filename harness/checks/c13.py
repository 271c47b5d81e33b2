"""C13: the discrete Yee operators obey vector calculus and agree with each other."""
import numpy as np
from harness.core import Impl, tlc, close, err
from harness import em

META = dict(level='model_checking', technique='TLA+ (Calculus.tla over Yee.tla) exact operators: identities as invariants, operator values as oracle for the matrices and matrix-free curls',
            note='TLC proves the identities exactly on each planned grid (1-3 dimensions, unequal pixels, Bloch factors) and emits the exact value of every operator on given fields; sparse matrices, NumPy and JAX matrix-free forms and the 2D electromagnetic operators of the real code must reproduce them, which carries the identities over. Fields are generic integer samples (linear operators of these small sizes are pinned by them up to coincidence).',
            rule='one behaviour per grid and field pair',
            assumptions=['the restriction of the Hz operator is recorded as a known finding: its forward and backward differences are exchanged'])


def run(ctx):
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as jnp
    from simphox.grid import YeeGrid
    from simphox.sim import SimGrid
    from simphox.fdfd import FDFD
    from simphox.utils import d2curl_op
    rng = ctx.rng
    plan, info = [], []
    per = 8 if ctx.quick else 60
    for ndim in (1, 2, 2, 3):
        for k in range(per):
            g, gi = em.grid(rng, ndim, bloch=k % 3 != 0)
            if ndim == 2 and k % 4 == 3:        # one-pixel axes
                g, gi = em.grid(rng, 2, shape=rng.choice([(1, 5, 1), (5, 1, 1), (2, 5, 1), (6, 2, 1)]), bloch=k % 8 == 3)
            if ndim == 3 and k % 4 == 3:
                g, gi = em.grid(rng, 3, shape=rng.choice([(1, 3, 4), (4, 1, 3), (3, 4, 1), (2, 2, 5)]), bloch=k % 8 == 3)
            N = em.size_of(g)
            ops = ['df', 'db', 'ce', 'ch', 'ceb', 'chb', 'cc', 'mx', 'et'] + (['ez', 'hz', 'hzx'] if ndim == 2 else [])
            rec = dict(g=g, p=em.ints(rng, N), f=[em.ints(rng, N) for _ in range(3)], f2=[em.ints(rng, N) for _ in range(3)],
                       eps=em.eps_cells(rng, g['n'], lossy=rng.random() < .3), beta=em.qf(rng.choice([1, 2, em.Fr(3, 2)])), k0=em.qf(rng.choice([1, 2, em.Fr(1, 2), em.Fr(5, 4)])), ops=ops)
            plan.append(rec); info.append(gi)
    # grids with absorbing layers: their operators agree with each other everywhere, and with the exact ones outside the layers
    for k in range(6 if ctx.quick else 40):
        nd = rng.choice([1, 2, 2])
        g, gi = em.grid(rng, nd, shape=(rng.randint(10, 13), *([rng.randint(10, 12)] if nd == 2 else [1]), 1), bloch=False)
        N = em.size_of(g)
        plan.append(dict(g=g, p=em.ints(rng, N), f=[em.ints(rng, N) for _ in range(3)], f2=[em.ints(rng, N) for _ in range(3)], eps=[em.Q1] * N, beta=em.qf(rng.choice([1, 2, em.Fr(3, 2)])), k0=em.q(rng.choice([1, 2])), ops=['df', 'db']))
        info.append(dict(gi, layers=[4] * nd))
    recs, _ = tlc('Calculus', plan, invariants=['Adjoint', 'Commute', 'CurlGrad', 'DivCurl', 'Constants', 'CurlAdjoint', 'Restriction'], timeout=800)
    got = {}
    for r in recs:
        got.setdefault(r['pi'], {})[r['op']] = em.dqs(r['v'])
    assert len(got) == len(plan)
    for k, (rec, gi) in enumerate(zip(plan, info)):
        E = got[k + 1]
        sh = tuple(rec['g']['n'])
        p = em.arr(rec['p'], sh)
        f = em.dqs(rec['f']).reshape(3, *sh)
        beta, k0 = em.dq(rec['beta']).real, em.dq(rec['k0']).real
        eps = em.real_if(em.dqs(rec['eps'])).reshape(gi['shape'])
        d = dict(grid=gi, beta=beta, k0=k0)
        ctx.count('behaviours'); ctx.sample(d)
        if 'layers' in gi:
            with Impl(ctx, 'operators with layers', d):
                layered(ctx, rng, gi, E, p, f, beta, k0, eps, d, FDFD, jnp, d2curl_op)
            continue
        cls = rng.choice([YeeGrid, SimGrid, FDFD, FDFD])
        kw = em.kwargs(gi, rng)
        with Impl(ctx, 'building a grid', d):
            G = cls(eps=eps, **kw)
            F = FDFD(eps=eps, wavelength=2 * np.pi / k0, **kw)

            def same(clause, v, e, tol=1e-9):
                v = np.asarray(v).reshape(np.shape(e)) if np.size(v) == np.size(e) else np.asarray(v)
                if not close(v, e, tol * (1 + np.max(np.abs(e), initial=0))):
                    ctx.violate(clause, dict(d, err=err(v, e)))
                ctx.count('operator values')
            with Impl(ctx, 'derivative matrices', d):
                for back, key in ((False, 'df'), (True, 'db')):
                    D = G.deriv(back)
                    for a in range(3):
                        same(f'the {"backward" if back else "forward"} derivative matrices', D[a] @ p.ravel(), E[key][a])
                same('the forward derivative matrices', np.stack([m @ p.ravel() for m in G.deriv_forward]), E['df'])
                same('the backward derivative matrices', np.stack([m @ p.ravel() for m in G.deriv_backward]), E['db'])
            if rng.random() < .5:
                with Impl(ctx, 'adjointness of the matrices', d):
                    for a, b in zip(G.deriv_forward, G.deriv_backward):
                        x = abs(a + b.conj().T)
                        if x.nnz and x.max() > 1e-12:
                            ctx.violate('the backward derivative is minus the adjoint of the forward derivative', d)
            for jx in (False, True):
                xp = jnp if jx else np
                with Impl(ctx, 'matrix-free operators', dict(d, jax=jx)):
                    for of_h, kd, kc, kb in ((False, 'df', 'ce', 'ceb'), (True, 'db', 'ch', 'chb')):
                        df = G.diff_fn(of_h=of_h, use_jax=jx)
                        for a in range(3):
                            if sh[a] > 1:
                                same('matrix-free derivatives equal the matrices', df(xp.array(p), a), E[kd][a])
                        x = xp.array(f)
                        same('matrix-free curls equal the matrices', G.curl_fn(of_h=of_h, use_jax=jx)(x), E[kc])
                        same('matrix-free curls with a propagation constant', G.curl_fn(beta=beta, of_h=of_h, use_jax=jx)(x), E[kb])
                        if not np.array_equal(np.asarray(x), f):
                            ctx.violate('curls leave the field unchanged', d)
            with Impl(ctx, 'curl matrices', d):
                ce, ch = d2curl_op(G.deriv_forward), d2curl_op(G.deriv_backward)
                same('curl matrices equal the matrix-free curls', ce @ f.ravel(), E['ce'])
                same('curl matrices equal the matrix-free curls', ch @ f.ravel(), E['ch'])
                same('the double curl', ch @ (ce @ f.ravel()), E['cc'])
            with Impl(ctx, 'the averaged permittivity', d):
                same('the averaged permittivity', F.eps_t, E['et'])
            with Impl(ctx, 'Maxwell operators', d):
                same('the full electromagnetic operator', F.mat @ f.ravel(), E['mx'])
                if gi['ndim'] == 2:
                    same('the Ez operator is the restriction of the full operator', F.mat_ez @ p.ravel(), E['ez'][0])
                    v = F.mat_hz @ p.ravel()
                    if not close(v, E['hz'][0], 1e-9 * (1 + np.abs(E['hz']).max())):
                        same('the Hz operator is the restriction of the full operator', v, E['hzx'][0])
                        if close(v, E['hzx'][0], 1e-9 * (1 + np.abs(E['hzx']).max())):
                            ctx.violate('the Hz operator is the restriction of the full operator', d, key='hz operator with exchanged differences')
        if ctx.full:
            return


def layered(ctx, rng, gi, E, p, f, beta, k0, eps, d, FDFD, jnp, d2curl_op):
    """grids with absorbing layers"""
    F = FDFD(eps=eps, wavelength=2 * np.pi / k0, pml=tuple(t * s for t, s in zip(gi['layers'], gi['spacing'])), pml_params=rng.choice([(4, -16., 1.), (3, -9., 1.), (2, -25., 2.)]), **em.kwargs(gi, rng, bloch=False))
    nd, sh = gi['ndim'], p.shape
    near = lambda a, b: close(np.asarray(a).ravel(), np.asarray(b).ravel(), 1e-9 * (1 + np.abs(b).max(initial=0)))
    D = {h: F.deriv(h) for h in (False, True)}
    for h, key in ((False, 'df'), (True, 'db')):
        for a in range(3):
            co, t = np.indices(sh)[a], gi['layers'][a] if a < nd else 0
            out = (co > t) & (co < sh[a] - t - 1) if a < nd else np.ones(sh, bool)
            v = (D[h][a] @ p.ravel()).reshape(sh)
            if not near(v[out], E[key][a].reshape(sh)[out]):
                ctx.violate('differences outside the layers are the exact ones', dict(d, axis=a, of_h=h))
            ctx.count('operator values')
    curl = {h: d2curl_op(D[h]) for h in (False, True)}
    for h in (False, True):
        if not near(curl[h] @ np.concatenate([D[h][a] @ p.ravel() for a in range(3)]), np.zeros(3 * p.size)):
            ctx.violate('the curl of a gradient vanishes', dict(d, of_h=h))
        v = (curl[h] @ f.ravel()).reshape(3, -1)
        if not near(sum(D[h][a] @ v[a] for a in range(3)), np.zeros(p.size)):
            ctx.violate('the divergence of a curl vanishes', dict(d, of_h=h))
        vb = v + np.stack([1j * beta * f[1].ravel(), -1j * beta * f[0].ravel(), 0 * f[0].ravel()])
        for jx in (False, True):
            x = (jnp if jx else np).array(f)
            if not near(F.curl_fn(of_h=h, use_jax=jx)(x), v):
                ctx.violate('matrix-free curls equal the matrices', dict(d, of_h=h, jax=jx))
            if not near(F.curl_fn(beta=beta, of_h=h, use_jax=jx)(x), vb):
                ctx.violate('matrix-free curls with a propagation constant', dict(d, of_h=h, jax=jx))
            for a in range(nd):
                if not near(F.diff_fn(of_h=h, use_jax=jx)((jnp if jx else np).array(p), a), D[h][a] @ p.ravel()):
                    ctx.violate('matrix-free derivatives equal the matrices', dict(d, of_h=h, jax=jx, axis=a))
    et = np.asarray(F.eps_t).ravel()
    if not near(F.mat @ f.ravel(), curl[True] @ (curl[False] @ f.ravel()) - k0 ** 2 * et * f.ravel()):
        ctx.violate('the full electromagnetic operator', d)
    if nd == 2:
        u = np.zeros((3, p.size), complex); u[2] = p.ravel()
        if not near(F.mat_ez @ p.ravel(), (F.mat @ u.ravel()).reshape(3, -1)[2]):
            ctx.violate('the Ez operator is the restriction of the full operator', d)
