"""C17: gradients of frequency-domain simulations."""
import numpy as np
from harness.core import Impl, tlc, close, err
from harness import em

META = dict(level='model_checking', technique='TLA+ (Adjoint.tla over Yee.tla): exact adjoint problems with manufactured forward and adjoint fields; TLC proves the gradient formulas against tangents and emits costs, gradients and interleavings; the real fields functions are differentiated',
            note='For each planned problem (1-3 dimensions, both 2D polarisations, unequal pixels, Bloch phases, layers, non-uniform permittivity, chains of affine / square / mirror / diagonal / mask / box transforms) TLC computes the source, the cost and its gradient exactly, checks that the adjoint field is one, that averaging is transposed, that the gradient agrees with tangents along directions and that tangents agree with exact increments; jax.grad of linear, quadratic, exponential and normalised costs of the real fields function must return that gradient. World 0 enumerates all interleavings of forward simulations and pull-backs in one process; each is replayed and every pull-back must yield its own gradient.',
            rule='one behaviour per problem, cost and interleaving',
            assumptions=['TM problems are differentiated with the operator the forward simulation uses (known finding of C13/C15)', 'ill-conditioned draws (condition above 1e6) and draws refused loudly by the direct solver are skipped and counted', '3D gradients to the tolerance of the iterative solver'])


def layered(rng, n, t, m=2):
    mid = [rng.randint(-m, m) for _ in range(n - 2 * t - 1)]
    return [0] * (t + 1) + mid + [0] * t


def run(ctx):
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as jnp
    from simphox.fdfd import FDFD
    from simphox.transform import get_symmetry_fn, get_mask_fn
    from simphox.utils import Box
    rng = ctx.rng
    Fr = em.Fr
    probs, info = [], []

    def chain_for(g, gi, N, kind):
        """parameters, transform steps of the specification, and the real transform (built later from the simulation)"""
        n = g['n']
        sq = gi['ndim'] == 2 and n[0] == n[1]
        vals = [1, 3] if kind in ('tm',) else [1, 2, 4]
        pick = rng.choice(['none', 'none', 'affine', 'square', 'mirror', 'mask', 'boxes', 'long', 'copy', 'boxmask', 'diag'])
        if pick in ('mirror', 'long', 'copy', 'boxmask', 'diag') and gi['ndim'] != 2:
            pick = 'square'
        if pick == 'diag' and not sq:
            pick = 'affine'
        rho = [rng.choice(vals) for _ in range(N)]
        bits = lambda: [rng.choice([0, 1, 1]) for _ in range(N)]
        st = []
        if pick == 'affine':
            rho = [rng.choice([0, 1]) for _ in range(N)]; st = [dict(t='affine', c=1, m=2)]
        elif pick == 'square':
            rho = [rng.choice([0, 1, -1]) for _ in range(N)]; st = [dict(t='square', c=1, m=2)]
        elif pick == 'mirror':
            rho = [rng.choice([1, 3, 5]) for _ in range(N)]; st = [dict(t='mirror', a=a) for a in rng.choice([[1], [2]])]
        elif pick == 'copy':
            st = [dict(t='copy', a=a) for a in rng.choice([[1], [2], [2, 1]])]
        elif pick == 'diag':
            rho = [rng.choice([1, 3]) for _ in range(N)]; st = [dict(t='diag')]
        elif pick == 'mask':
            st = [dict(t='mask', m=bits(), c=[rng.choice(vals) for _ in range(N)])]
        elif pick == 'boxmask':          # a box of whole cells
            while True:                  # known finding of C11: odd boxes centred in odd pixels
                x0, y0 = rng.randrange(n[0] - 1), rng.randrange(n[1] - 1)
                x1, y1 = rng.randrange(x0 + 1, n[0] + 1), rng.randrange(y0 + 1, n[1] + 1)
                if (x0 + x1) % 4 != 3 and (y0 + y1) % 4 != 3:
                    break
            m = np.zeros(n[:2], int); m[x0:x1, y0:y1] = 1
            st = [dict(t='mask', m=m.ravel().tolist(), c=[rng.choice(vals) for _ in range(N)], box=(x0, y0, x1, y1))]
        elif pick == 'boxes':
            k = rng.choice([1, 2, 3])
            rho = [rng.choice([0, 1, 2]) for _ in range(k)]
            st = [dict(t='boxes', c=1, m=[bits() for _ in range(k)])]
        elif pick == 'long':
            rho = [rng.choice([0, 1, -1]) for _ in range(N)]
            st = [dict(t='square', c=0, m=1), dict(t='copy', a=rng.choice([1, 2])), dict(t='affine', c=1, m=2), dict(t='mask', m=bits(), c=[rng.choice([1, 3]) for _ in range(N)])]
        if N > 50 and kind == 'tm':
            rho, st, pick = [rng.choice([1, 3]) for _ in range(N)], [], 'none'
        lossy = rng.random() < .35
        if lossy:                        # absorbing or amplifying materials
            m, c = rng.choice([(1 + 1j, 0), (1 - 1j, 0), (1j, 0)] + [(1, 1j), (1, -1j)] * (pick not in ('mirror', 'boxes', 'diag')) if kind == 'tm' else [(1, 1j), (1, -2j), (1 + 1j, 0), (2 - 1j, 1j), (1j, 1)])
            st = st + [dict(t='affine', c=c, m=m)]
            pick += ' lossy'
        out = []
        for s in st:
            o = dict(t=s['t'])
            for k2, v in s.items():
                if k2 in ('c', 'm'):
                    o[k2] = [[em.q(y) for y in x] if isinstance(x, list) else em.q(x) for x in v] if isinstance(v, list) else em.q(v.real, v.imag)
                elif k2 == 'a':
                    o[k2] = v
            out.append(o)
        return rho, st, out, pick

    def real_transform(F, gi, st):
        sh = gi['shape']

        def one(s):
            if s['t'] == 'affine':
                return lambda r: s['c'] + s['m'] * r
            if s['t'] == 'square':
                return lambda r: s['c'] + s['m'] * r ** 2
            if s['t'] in ('mirror', 'copy'):
                return get_symmetry_fn(**{('ortho_x', 'ortho_y')[s['a'] - 1]: True}, avg=s['t'] == 'mirror')
            if s['t'] == 'diag':
                return get_symmetry_fn(diag_p=True)
            if s['t'] == 'boxes':
                M = jnp.array(np.array(s['m'], float).reshape(-1, *sh))
                return lambda r: s['c'] + jnp.tensordot(r, M, 1)
            c = np.array(s['c'], float).reshape(sh)
            if 'box' in s:
                x0, y0, x1, y1 = s['box']
                dx, dy = gi['spacing']
                if dx == dy and rng.random() < .5:
                    b = Box(((x1 - x0) * dx, (y1 - y0) * dy), spacing=dx)
                    return get_mask_fn(c, b.align(((x0 + x1) * dx / 2, (y0 + y1) * dy / 2)))
                F.eps = c.copy()
                return F.mask_fn(size=((x1 - x0) * dx, (y1 - y0) * dy, 0), center=((x0 + x1) * dx / 2, (y0 + y1) * dy / 2, 0))
            m = jnp.array(np.array(s['m'], float).reshape(sh))
            return lambda r: c * (1 - m) + r * m
        fs = [one(s) for s in st]

        def T(r):
            for f in fs:
                r = f(r)
            return r
        return T if fs else None

    def add(kind, ndim, g, gi, f, lam, gs, **kw):
        N = em.size_of(g)
        rho, st, chain, pick = chain_for(g, gi, N, kind)
        k0 = kw.pop('k0')
        dirs = []
        for j in range(2):
            d = [0] * len(rho)
            for _ in range(2):
                d[rng.randrange(len(rho))] = rng.choice([1, -1, 2])
            dirs.append([em.q(x) for x in d])
        probe = [[em.ints(rng, N, 1) for _ in f]]
        probs.append(dict(kind=kind, g=g, k0=em.qf(k0), rho=[em.q(x) for x in rho], chain=chain, f=f, lam=lam, gs=gs, probe=probe, dirs=dirs))
        info.append(dict(gi, kind=kind, k0=float(k0), rho=rho, steps=st, transform=pick, **kw))

    def second(kind, N, zero=lambda i: False):
        z = [em.q(0)] * N
        v = lambda: [em.q(0) if zero(i) else x for i, x in enumerate(em.ints(rng, N, 2))]
        if rng.random() < .25:
            return [z, z, z]
        return [v(), v(), v() if kind == 'full' else z]
    per = dict(te=8, tm=8, full=4, one=2) if ctx.quick else dict(te=60, tm=60, full=16, one=10)
    k0s = [1, 2, Fr(1, 2), 3, Fr(3, 2)]
    for kind in ('te', 'tm'):
        for k in range(per[kind] + per['one']):
            ndim = 1 if k >= per[kind] else 2
            shape = rng.choice([(4, 1, 1), (5, 1, 1)]) if ndim == 1 else rng.choice([(3, 3, 1), (4, 4, 1), (3, 4, 1), (4, 3, 1), (5, 3, 1)])
            g, gi = em.grid(rng, ndim, shape=shape, bloch=k % 2 == 1, winv=(1, 2) if kind == 'te' else (1, 2))
            N = em.size_of(g)
            add(kind, ndim, g, gi, [em.ints(rng, N, 2)], [em.ints(rng, N, 2)], second(kind, N), k0=rng.choice(k0s))
    for k in range(per['full']):
        g, gi = em.grid(rng, 3, shape=rng.choice([(2, 3, 2), (3, 2, 2), (2, 2, 3), (3, 3, 2)]), bloch=k % 2 == 1, winv=(1, 2))
        N = em.size_of(g)
        add('full', 3, g, gi, [em.ints(rng, N, 1) for _ in range(3)], [em.ints(rng, N, 1) for _ in range(3)], second('full', N), k0=rng.choice([6, 8]))
    for k in range(2 if ctx.quick else 8):              # absorbing layers: the field is constant, the adjoint field vanishes across them
        t = 4
        n = (2 * t + rng.choice([3, 4]), 2 * t + rng.choice([3, 4]), 1)
        kind = ('te', 'tm')[k % 2]
        g, gi = em.grid(rng, 2, shape=n, bloch=False, iso=rng.random() < .5, winv=(1, 2))
        fx, fy = layered(rng, n[0], t), layered(rng, n[1], t)
        f = [em.q(a * b + 1, a - b) for a in fx for b in fy]
        inside = lambda i: min(i // n[1], n[0] - 1 - i // n[1], i % n[1], n[1] - 1 - i % n[1]) >= t + 1
        lam = [x if inside(i) else em.q(0) for i, x in enumerate(em.ints(rng, n[0] * n[1], 2))]
        add(kind, 2, g, gi, [f], [lam], second(kind, n[0] * n[1], zero=lambda i: not inside(i)), k0=rng.choice([1, 2, 3]),
            pml=tuple(t * s for s in gi['spacing']), pml_params=rng.choice([(4, -16, 1.0), (3, -25, 1.0)]))
    R = 3
    recs, _ = tlc('Adjoint', dict(probs=probs, reqs=R, depth=5 if ctx.quick else 6), invariants=['Adjoint', 'Averages', 'Tangent', 'Secant', 'SecantR', 'Pending'], timeout=800)
    ans = {}
    for r in recs:
        if 'pi' in r:
            ans.setdefault(r['pi'], {})[r['kind']] = r
    hists = [r['hist'] for r in recs if 'hist' in r]
    assert len(ans) == len(probs) and hists

    COST = {
        'linear': lambda F, G, F0, c: jnp.sum(G * F).real,
        'quadratic': lambda F, G, F0, c: jnp.sum(jnp.abs(F - (F0 - jnp.conj(G) / 2)) ** 2),
        'exponential': lambda F, G, F0, c: jnp.exp(jnp.sum(G * F).real - c),
        'normalised': lambda F, G, F0, c: jnp.sum(G * F).real / jnp.sqrt(1 + jnp.sum(G * F).real ** 2) * (1 + c ** 2) ** 1.5,
        'masked': lambda F, G, F0, c: jnp.sum((G.real * F.real)[0]) + jnp.sum((G.real * F.real)[1]) - jnp.sum(G.imag * jnp.imag(F)),
    }
    ready, refused = [], 0
    for i, gi in enumerate(info):
        rec, kind, k0 = probs[i], gi['kind'], gi['k0']
        d = dict(grid={k: gi[k] for k in ('shape', 'spacing', 'bloch')}, kind=kind, k0=k0, transform=gi['transform'], steps=[s['t'] for s in gi['steps']], pml='pml' in gi)
        ctx.sample(d)
        sh = tuple(rec['g']['n'])
        kw = em.kwargs(gi, rng)
        if 'pml' in gi:
            kw.update(pml=gi['pml'], pml_params=gi['pml_params'])
        F = None
        with Impl(ctx, 'building a simulation', d):
            p = em.dqs(ans[i + 1][kind]['p']).reshape(gi['shape'])
            p = p if p.imag.any() else p.real
            F = FDFD(eps=p.copy(), wavelength=2 * np.pi / k0, **kw)
            A = dict(full=lambda: F.mat, te=lambda: F.mat_ez, tm=lambda: F.mat_hz)[kind]().toarray()
            cond = np.linalg.cond(A)
            if rng.random() < .4:       # the fields are those of the given parameters, whatever the simulation holds
                F.eps = rng.choice([np.ones(gi['shape']), np.abs(p[::-1]) + .5, np.full(gi['shape'], 2 + .5j)])
        if F is None:
            continue
        if not cond < 1e6:
            ctx.count('ill-conditioned draws skipped'); continue
        T = fn = None
        with Impl(ctx, 'building transforms', d):
            T = real_transform(F, gi, gi['steps'])
        if T is None and gi['steps']:
            continue
        sol = None
        rho = np.array(gi['rho'], float)
        rho = jnp.array(rho.reshape(gi['shape']) if not gi['transform'].startswith('boxes') else rho)
        for kd in (['tmx', 'tm'] if kind == 'tm' else [kind]):
            a = ans[i + 1][kd]
            src = em.dqs(a['src'])
            f, sec, gp, gs = em.dqs(rec['f']).reshape(-1, *sh), em.dqs(a['sec']).reshape(3, *sh), em.dqs(a['gp']).reshape(-1, *sh), em.dqs(rec['gs']).reshape(3, *sh)
            Z = np.zeros_like(f[0])
            F0, G = np.zeros((2, 3, *sh), complex), np.zeros((2, 3, *sh), complex)
            pr = 1 if kind == 'tm' else 0
            F0[1 - pr], G[1 - pr] = sec, gs
            if kind == 'full':
                F0[0], G[0] = f, gp
            else:
                F0[pr, 2], G[pr, 2] = f[0], gp[0]
            tol = 1e-11 * max(cond, 100) * (1 + np.abs(F0).max())
            if kind == 'full':
                tol = 2e-3 * (1 + np.abs(F0).max())
            S = src.reshape(-1) if rng.random() < .5 else (src.reshape(3, *sh) if kind == 'full' else src.reshape(gi['shape']))
            opt = {} if kind == 'full' or (kind == 'tm' and rng.random() < .5) else dict(tm_2d=kind == 'tm')
            try:
                fn = F.get_fields_fn(S, T, **opt) if T or rng.random() < .5 else F.get_fields_fn(S, **opt)
                got = np.asarray(fn(rho))
            except Exception as ex:
                if 'perturbed pivot' in str(ex):
                    sol = 'refused'
                    break
                ctx.violate('simulating: raises', dict(d, exception=repr(ex)[:400]))
                sol = 'refused'; refused -= 1
                break
            if got.shape == F0.shape and close(got, F0, tol):
                sol = kd
                break
        if sol == 'refused':
            refused += 1
            ctx.count('draws refused by the direct solver')
            if refused > max(2, len(probs) // 10):
                ctx.violate('simulating: refuses regular problems', d)
            continue
        if sol is None:
            ctx.violate('the differentiable simulation returns the fields', dict(d, err=err(got, F0) if got.shape == F0.shape else got.shape, tol=tol)); continue
        a = ans[i + 1][sol]
        want = em.dqs(a['grad']).real.reshape(rho.shape)
        c0 = float(em.dq(a['cost']).real)
        scale = 1 + np.abs(G).max() * np.abs(F0).max() + np.abs(em.dqs(rec['lam'])).max() * (1 + k0 ** 2) + np.abs(want).max()
        gtol = (1e-10 * max(cond, 100) if kind != 'full' else 4e-3) * scale
        names = list(COST) if not ctx.quick else ['linear'] + rng.sample(list(COST)[1:], 2)
        for nm in names:
            cost = COST[nm]
            if nm == 'exponential' and (kind == 'full' or tol * np.abs(G).max() * G.size > 1e-3):
                continue
            if nm == 'normalised' and (kind == 'full' or abs(c0) > 100):
                continue
            ctx.count('gradients')
            gt = gtol * (10 if nm in ('exponential',) else 1 + abs(c0) if nm == 'normalised' else 1)
            with Impl(ctx, 'differentiating', d):
                fun = lambda r: cost(fn(r), G, F0, c0)
                mode = rng.choice(['grad', 'value', 'vjp', 'jit'])
                if mode == 'grad':
                    g_ = jax.grad(fun)(rho)
                elif mode == 'jit':
                    g_ = jax.jit(jax.grad(fun))(rho)
                elif mode == 'value':
                    v, g_ = jax.value_and_grad(fun)(rho)
                    if nm == 'linear' and not close(v, c0, tol * (1 + np.abs(G).sum())):
                        ctx.violate('the cost is that of the fields', dict(d, got=float(v), want=c0))
                else:
                    _, pb = jax.vjp(fun, rho)
                    g_ = pb(jnp.array(-2.0))[0] / -2
                g_ = np.asarray(g_)
                if g_.shape != want.shape or g_.dtype.kind != 'f' or not close(g_, want, gt):
                    ctx.violate('the gradient is the exact derivative of the cost', dict(d, cost=nm, mode=mode, err=err(g_, want) if g_.shape == want.shape else g_.shape, got=g_, want=want, tol=gt))
        ctx.count('behaviours')
        if kind != 'full' and 'pml' not in gi:
            ready.append((fn, rho, G, F0, c0, want, gtol, d))
        if ctx.full:
            return
    # interleavings in one process
    by = {}
    for r in ready:
        by.setdefault((r[3].shape, r[7]['kind']), []).append(r)
    groups = [v[:R] for v in by.values() if len(v) >= R]
    while len(groups) < (2 if ctx.quick else 6) and len(ready) >= R:
        groups.append(rng.sample(ready, R))
    rng.shuffle(groups)
    for grp in groups[:2 if ctx.quick else 8]:
        hs = hists if not ctx.quick else rng.sample(hists, min(len(hists), 60))
        for h in hs:
            pend = {}
            ctx.count('behaviours')
            for pos, (ev, r) in enumerate(h):
                fn, rho, G, F0, c0, want, gt, d = grp[r - 1]
                dd = dict(d, history=[f'{e}{x}' for e, x in h[:pos + 1]])
                with Impl(ctx, 'differentiating in a history', dd):
                    if ev == 'F':
                        _, pend[r] = jax.vjp(lambda x: COST['linear'](fn(x), G, F0, c0), rho)
                    elif r in pend:
                        g_ = np.asarray(pend[r](jnp.array(1.0))[0])
                        if not close(g_, want, gt):
                            ctx.violate('a gradient does not depend on other simulations', dict(dd, err=err(g_, want)))
            if ctx.full:
                return
