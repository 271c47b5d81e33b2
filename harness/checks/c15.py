"""C15: frequency-domain solves satisfy the discrete Maxwell equations."""
import numpy as np
from harness.core import Impl, tlc, close, err
from harness import em

META = dict(level='model_checking', technique='TLA+ (Manufacture.tla over Yee.tla) exact manufactured solutions: TLC checks Maxwell\'s equations on them and emits the sources, the real solvers must return the fields',
            note='For each planned grid (1-3 dimensions, unequal pixels, Bloch phases, absorbing layers, non-uniform permittivity, both 2D polarisations) TLC chooses fields, computes the source exactly and verifies both curl equations; FDFD.solve (direct, other solver, iterative), the differentiable get_fields_fn and the e2h / h2e conversions must reproduce the fields. Ill-conditioned draws (condition above 1e8) are skipped and counted. With absorbing layers the manufactured fields are constant across the layers.',
            rule='one behaviour per grid, permittivity, wavelength and polarisation',
            assumptions=['known finding: TM solves use exchanged differences for non-uniform permittivity'])


def layered(rng, n, t, m=3):
    """values along an axis that do not change inside the layers (periodically)"""
    mid = [rng.randint(-m, m) for _ in range(n - 2 * t - 1)]
    return [0] * (t + 1) + mid + [0] * t


def run(ctx):
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as jnp
    import scipy.sparse.linalg as spl
    from simphox.fdfd import FDFD
    rng = ctx.rng
    plan, info = [], []
    Fr = em.Fr

    def add(kind, g, gi, eps, k0, f, **kw):
        N = em.size_of(g)
        plan.append(dict(g=g, kind=kind, eps=eps, k0=em.qf(k0), f=f, f3=[em.ints(rng, N, 2) for _ in range(3)], beta=em.qf(rng.choice([1, 2, Fr(1, 2)]))))
        info.append(dict(gi, kind=kind, k0=float(k0), **kw))
    per = 6 if ctx.quick else 40
    k0s = [1, 2, Fr(1, 2), Fr(5, 4), Fr(7, 4), 3]
    for ndim in (1, 2, 2, 3):
        for k in range(per):
            g, gi = em.grid(rng, ndim, bloch=k % 3 == 1, winv=(1, 2, Fr(1, 2)))
            N = em.size_of(g)
            for kind in (('full',) if ndim == 3 else ('tm', 'te')):
                eps = em.eps_cells(rng, g['n'], (1, 2, 4) if kind != 'tm' else (1, 3), rng.random() < .3) if k % 4 else [em.q(2)] * N
                k0 = rng.choice(k0s) if ndim < 3 or k % 2 else rng.choice([6, 8])
                add(kind, g, gi, eps, k0, [em.ints(rng, N, 3) for _ in range(3 if kind == 'full' else 1)])
    for k in range(2 if ctx.quick else 10):
        t = rng.choice([4, 4, 5])
        n = (2 * t + rng.choice([2, 3]), 2 * t + rng.choice([2, 4]), 1)
        iso = rng.random() < .5
        g, gi = em.grid(rng, 2, shape=n, bloch=False, iso=iso, winv=(1, 2))
        base = em.q(rng.randint(-2, 2), 1)
        fx, fy = layered(rng, n[0], t), layered(rng, n[1], t)
        f = [em.q(base[0] + a * b, base[1] + a - b) for a in fx for b in fy]
        for kind in ('tm', 'te'):
            eps = em.eps_cells(rng, g['n'], (1, 2) if kind == 'te' else (1, 3), rng.random() < .3)
            add(kind, g, gi, eps, rng.choice([1, 2, Fr(3, 2)]), [f], pml=tuple(t * s for s in gi['spacing']), pml_params=rng.choice([(4, -16, 1.0), (3, -25, 1.0), (2, -10, 2.0)]))
    recs, _ = tlc('Manufacture', plan, invariants=['Ampere', 'Faraday', 'Exchange', 'Linear'], timeout=800)
    sol = {r['pi']: r for r in recs if r['what'] == 'solution'}
    conv = {r['pi']: r for r in recs if r['what'] == 'convert'}
    assert len(sol) == len(conv) == len(plan)
    refused = 0
    for i, (rec, gi) in enumerate(zip(plan, info)):
        s, cv = sol[i + 1], conv[i + 1]
        kind, k0 = gi['kind'], gi['k0']
        sh = tuple(rec['g']['n'])
        eps = em.real_if(em.dqs(rec['eps'])).reshape(gi['shape'])
        d = dict(grid=gi, eps=eps)
        e, h, src = (em.dqs(s[x]).reshape(-1, *sh) for x in ('e', 'h', 'src'))
        srcx = em.dqs(s['srcx']).reshape(-1, *sh) if s['srcx'] else None
        kw = em.kwargs(gi, rng)
        if 'pml' in gi:
            kw.update(pml=gi['pml'], pml_params=gi['pml_params'])
        ctx.sample(d)
        with Impl(ctx, 'building a simulation', d):
            F = FDFD(eps=em.layout(rng, eps), wavelength=2 * np.pi / k0, **kw)
            A = dict(full=F.mat, te=F.mat_ez, tm=F.mat_hz)[kind].toarray()
            cond = np.linalg.cond(A)
        if 'F' not in dir():
            continue
        if not cond < 1e8:
            ctx.count('ill-conditioned draws skipped')
            continue
        try:
            F.solve(src.ravel() + 0j, tm_2d=kind == 'tm')
        except RuntimeError as ex:
            if 'perturbed pivot' in str(ex):      # the direct solver refuses (loudly) matrices with vanishing pivots
                refused += 1
                ctx.count('draws refused by the direct solver')
                if refused > max(2, len(plan) // 10):
                    ctx.violate('solving: refuses regular matrices', dict(d, exception=repr(ex)))
                continue
        except Exception:
            pass                                  # reported below
        ctx.count('behaviours')
        tol = 1e-12 * max(cond, 10) * (1 + np.abs(src).max() + np.abs(e).max() + np.abs(h).max())

        def check(clause, res, S, tol=tol):
            """compare to the manufactured fields (source S produced by the proper operator)"""
            res = np.asarray(res)
            if res.shape != (2, 3, *sh):
                ctx.violate(clause, dict(d, shape=res.shape)); return
            ctx.count('solves')
            if not (close(res[0], e, tol) and close(res[1], h, tol)):
                ctx.violate(clause, dict(d, err=[err(res[0], e), err(res[1], h)], tol=tol))
        variants = [src]
        if kind == 'tm' and not np.allclose(src, srcx):
            # which of the two operators does the simulator solve?
            with Impl(ctx, 'solving', d):
                r = F.solve(src.ravel() + 0j, tm_2d=True)
                if not (close(r[0], e, tol) and close(r[1], h, tol)):
                    ctx.violate('the solve satisfies the discrete Maxwell equations', d, key='hz operator with exchanged differences')
                    variants = [srcx]
        S = variants[0]
        flat = S.ravel() + 0j
        kws = {} if kind == 'full' else dict(tm_2d=kind == 'tm')
        with Impl(ctx, 'solving', d):
            a = S if kind == 'full' else S[0].reshape(gi['shape'])
            a0 = a.copy()
            check('the solve satisfies the discrete Maxwell equations', F.solve(em.layout(rng, rng.choice([a, flat])), **kws), S)
            if kind == 'tm':
                check('TM is the default polarisation', F.solve(a), S)
            if not np.array_equal(a, a0) or not np.array_equal(F.eps, eps):
                ctx.violate('solving leaves source and permittivity unchanged', d)
            if rng.random() < .4:
                f = (2 - 3j) * 2.0 ** rng.choice([0, -40, 30])
                check('the solve is linear in the source', F.solve(em.layout(rng, f * a), **kws) / f, S)
                if kind != 'full':
                    check('the differentiable function is linear in the source', np.asarray(F.get_fields_fn(f * flat, **kws)(jnp.array(eps))) / f, S)
            if rng.random() < .3:
                check('a solve with another solver', F.solve(flat, solver_fn=lambda m, b: spl.spsolve(m.tocsc(), b), **kws), S)
        if rng.random() < .3:
            with Impl(ctx, 'a real source', d):
                re, im = F.solve(flat.real.copy(), **kws), F.solve(flat.imag.copy(), **kws)
                check('real sources', np.asarray(re) + 1j * np.asarray(im), S)
                if kind != 'full':
                    fn = F.get_fields_fn(flat.real.copy(), **kws), F.get_fields_fn(jnp.array(flat.imag) if rng.random() < .5 else flat.imag.copy(), **kws)
                    check('real sources of the differentiable function', np.asarray(fn[0](jnp.array(eps))) + 1j * np.asarray(fn[1](jnp.array(eps))), S)
                whole = np.round(flat.real).astype(int)
                if kind != 'full':
                    a, b, c = F.solve(whole, **kws), F.get_fields_fn(whole, **kws)(jnp.array(eps)), F.solve(whole + 0j, **kws)
                    sc = tol * (1 + np.abs(c).max())
                    if not (close(a, c, sc) and (variants[0] is not src or close(np.asarray(b), c, sc))):
                        ctx.violate('integer sources', d)
        if kind == 'full' and k0 >= 6:
            for it in (1, 2):
                with Impl(ctx, 'iterative solve', d):
                    check('iterative solves return the fields', F.solve(flat, iterative=it), S, 1e-3 * (1 + np.abs(e).max() + np.abs(h).max()))
        if rng.random() < .2:
            try:
                F.solve(flat[:-1], **kws)
                ctx.violate('a source of the wrong size is rejected', d)
            except ValueError:
                pass
            except Exception as ex:
                ctx.violate('a source of the wrong size is rejected', dict(d, exception=repr(ex)))
        if kind != 'full' or k0 >= 6:
            with Impl(ctx, 'differentiable fields', d):
                scale = rng.choice([None, 2.0])
                fn = F.get_fields_fn(flat if rng.random() < .5 else em.layout(rng, S), None if scale is None else (lambda r: scale * r), tm_2d=kind != 'te')
                rho = jnp.array(eps if scale is None else eps / scale)
                check('the differentiable function returns the same fields', fn(rho), S, tol if kind != 'full' else 2e-4 * (1 + np.abs(e).max() * 3))
        if 'pml' not in gi:
            with Impl(ctx, 'field conversion', d):
                f3 = em.dqs(rec['f3']).reshape(3, *sh)
                beta = em.dq(rec['beta']).real
                et = em.dqs(cv['et']).reshape(3, *sh)
                for nm, fn, x, kk in (('e2h', F.e2h, f3, {}), ('e2hb', F.e2h, f3, dict(beta=beta)), ('h2ed', F.h2e, f3, {}), ('h2edb', F.h2e, f3, dict(beta=beta))):
                    ex = em.dqs(cv[nm]).reshape(3, *sh) / (et if nm.startswith('h2e') else 1)
                    r = fn(em.layout(rng, rng.choice([x, x.ravel()])), **kk)
                    ctx.count('conversions')
                    if not close(r, ex, 1e-10 * (1 + np.abs(ex).max())):
                        ctx.violate('conversion between electric and magnetic fields follows the Maxwell equations', dict(d, which=nm, err=err(r, ex)))
        if ctx.full:
            return
