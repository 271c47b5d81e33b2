"""C19: absorbing layers act only inside the layer and only absorb."""
import numpy as np
from harness.core import Impl, tlc, close, err
from harness import em

META = dict(level='model_checking', technique='TLA+ (Layers.tla over Yee.tla) exact layers: acceptance, strengths, stretched differences and the convolutional time update, with locality, mirror symmetry, monotonicity and passivity as invariants; real operators, steps and recorded energies are compared',
            note='TLC enumerates which thicknesses fit, computes the exact strengths and stretched differences of planned frequency-domain layers (several orders, reflectivities, wavelengths, unequal thicknesses and pixels, Bloch phases) and exact leapfrog steps with recursive convolutions (layer strengths chosen so that every decay factor is a power of one half), proving that cells away from the layers do not know them; the real derivative matrices, curls, Maxwell operators and FDTD steps (NumPy and JAX) must reproduce them. Longer real runs are compared with and without layers for exactly the number of steps TLC grants, and their recorded energies are judged by TLC.',
            rule='one behaviour per grid and layer',
            assumptions=['thicknesses are multiples of the pixel (or clearly between)', 'energies: of the whole grid, source-free outgoing waves; bounded by the initial energy at all times (energy stored in the convolutions may return, so it is not monotone)', 'known finding: frequency-domain strengths at cell centres'])


def run(ctx):
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as jnp
    from simphox.fdfd import FDFD
    from simphox.fdtd import FDTD
    from simphox.grid import YeeGrid
    from simphox.sim import SimGrid
    rng = ctx.rng
    Fr = em.Fr
    plan, info = [], []
    # --- which sizes fit
    sizes = [([n], [t]) for n in range(4, 18) for t in range(0, 9)]
    for _ in range(60 if ctx.quick else 400):
        nd = rng.choice([2, 2, 3])
        sizes.append(([rng.choice([9, 10, 11, 12, 13, 8, 20]) for _ in range(nd)], [rng.choice([3, 4, 4, 4, 5, 6]) for _ in range(nd)]))
    for n, t in sizes:
        plan.append(dict(w='size', n=n, t=t)); info.append(None)
    # --- placement
    for _ in range(40 if ctx.quick else 300):
        n = [rng.randint(24, 40), rng.randint(24, 40)]
        t = [rng.choice([4, 5]), rng.choice([4, 6])] if rng.random() < .8 else []
        plan.append(dict(w='place', n=n, t=t, sep=rng.choice([1, 3, 5]), x=[rng.randint(-8, 4 * n[0] + 8), rng.randint(-8, 4 * n[1] + 8)])); info.append(None)
    # --- frequency domain
    for k in range(20 if ctx.quick else 150):
        nd = (1, 2, 2, 3)[k % 4]
        t = [rng.choice([4, 5] if nd < 3 else [4]) for _ in range(nd)] + [0] * (3 - nd)
        n = [2 * t[a] + rng.choice([2, 3, 4]) if a < nd else 1 for a in range(3)]
        if nd == 3:
            n = [10, 10, 10] if rng.random() < .5 else [10, 11, 10]
        m = rng.choice([1, 2, 3])
        g, gi = em.grid(rng, nd, shape=tuple(n), bloch=k % 3 == 1 and m < 3, winv=(1, 2, 4) if m < 3 else (1, 2))
        pe, k0 = rng.choice([1, 2]), rng.choice([1, 2, Fr(1, 2)] if m < 2 else [1, 2])
        R = -rng.choice([4, 8, 16] if m == 1 else [4, 8] if m == 2 else [4])
        plan.append(dict(w='freq', g=g, nd=nd, t=t, m=m, R=em.q(R), c=em.qf(k0 * pe), f=em.ints(rng, em.size_of(g), 2)))
        info.append(dict(gi, t=t[:nd], params=(m, float(R), float(pe)), k0=float(k0)))
    # --- time domain, exact
    for k in range(8 if ctx.quick else 60):
        nd = (1, 2)[k % 2] if k != 6 else 3
        if nd == 3:
            n, t, w, halves = (10, 10, 10), [4, 4, 4], 1, 2
        elif nd == 2:
            n, t, w, halves = rng.choice([(11, 12, 1), (10, 14, 1), (13, 10, 1)]), [4, 4, 0], rng.choice([1, 2]), None
        else:
            n, t, w, halves = (rng.choice([10, 13, 17]), 1, 1), [4, 0, 0], rng.choice([1, 2]), None
        g, gi = em.grid(rng, nd, shape=n, bloch=False, iso=True, winv=(w,))
        N = em.size_of(g)
        only = rng.choice(['e', 'h', 'both'])
        near = rng.random() < .3                      # a small source in the middle
        idx = np.indices(n).reshape(3, N)
        mid = np.array([x // 2 for x in n])[:, None]
        far = (np.abs(idx - mid) > 1).any(0)
        f = lambda on: [[em.q(0) if not on or (near and far[i]) else x for i, x in enumerate(em.ints(rng, N, 1))] for _ in range(3)]
        e, h = f(only != 'h'), f(only != 'e')
        T = Fr(1, nd * w * w)
        plan.append(dict(w='time', g=g, nd=nd, t=t, T=em.qf(T), e=e, h=h, eps=[em.q(rng.choice([1, 2]) if nd < 3 else 1)] * N, halves=halves or (4 if only == 'e' else 3)))
        info.append(dict(gi, t=t[:nd], T=float(T)))
    # --- waves on their way to the layers
    for k in range(6 if ctx.quick else 40):
        nd = (2, 1, 3, 2)[k % 4]
        t = [rng.choice([4, 5, 6]) for _ in range(nd)]
        n = [2 * t[a] + rng.randint(9, 16 if nd < 3 else 10) for a in range(nd)]
        lo = [rng.randint(t[a] + 3, n[a] - t[a] - 5) for a in range(nd)]
        hi = [lo[a] + rng.randint(0, 1) for a in range(nd)]
        plan.append(dict(w='reach', n=n, t=t, lo=lo, hi=hi))
        info.append(dict(shape=tuple(n), t=t, lo=lo, hi=hi))
    # --- energies recorded from the real stepper
    for k in range(5 if ctx.quick else 24):
        nd = (1, 2, 3)[k % 3]
        record(ctx, FDTD, jnp, nd, plan, info, rng)
    recs, _ = tlc('Layers', plan, invariants=['Mirrored', 'Shape', 'OutsideF', 'OutsideT', 'Auxiliary', 'Arrive', 'Placed'], timeout=800)
    got = {}
    for r in recs:
        got.setdefault(r['pi'], []).append(r)
    assert len(got) == len(plan)
    for i, (p, gi) in enumerate(zip(plan, info), 1):
        r = got[i]
        ctx.count('behaviours')
        if p['w'] == 'size':
            size(ctx, p, r[0]['ok'], (YeeGrid, SimGrid, FDFD, FDTD), rng)
        elif p['w'] == 'place':
            place(ctx, p, r[0]['at'], (YeeGrid, FDFD, FDTD), rng)
        elif p['w'] == 'freq':
            freq(ctx, p, gi, r[0], FDFD, jnp, rng)
        elif p['w'] == 'time':
            time(ctx, p, gi, {x['k']: x for x in r}, FDTD, jnp, rng)
        elif p['w'] == 'reach':
            reach(ctx, p, gi, r[0]['steps'], FDTD, jnp, rng)
        elif gi:
            if not r[0]['bounded']:
                ctx.violate('the energy never exceeds its value when sources stopped', dict(gi, energies=p['en'][:400]))
            if not r[0]['decays']:
                ctx.violate('outgoing waves decay', dict(gi, last=p['en'][-1], goal=p['goal']))
        if ctx.full:
            return


def size(ctx, p, ok, classes, rng):
    nd = len(p['n'])
    sp = rng.choice([1., .5, .25, .1, .05, .03])
    sp = tuple(sp * rng.choice([1, 2]) for _ in range(nd)) if rng.random() < .5 else (sp,) * nd
    cls = rng.choice(classes)
    part = rng.choice([0, 0, .25])         # a fraction of a pixel does not count
    pml = tuple(round((t + part) * s, 9) for t, s in zip(p['t'], sp))
    d = dict(cls=cls.__name__, shape=p['n'], cells=p['t'], spacing=sp, pml=pml)
    kw = dict(pml=pml) if len(set(sp)) > 1 or len(set(p['t'])) > 1 or rng.random() < .8 or nd == 1 else dict(pml=pml[0])
    size_ = tuple(round(n * s, 9) for n, s in zip(p['n'], sp))
    try:
        F = cls(size_, sp, **kw)
        acc = True
    except AttributeError:
        acc = False
    except Exception as ex:
        ctx.violate('layers are accepted or rejected', dict(d, exception=repr(ex)[:300]))
        return
    ctx.count('sizes')
    if acc and not ok:
        ctx.violate('layers that do not fit are rejected', d)
    elif ok and not acc:
        ctx.violate('layers that fit are accepted', d)
    elif acc and list(F.pml_shape) != p['t']:
        ctx.violate('layers have the requested thickness', dict(d, got=F.pml_shape))


def place(ctx, p, at, classes, rng):
    s = (rng.choice([.5, 1.]), rng.choice([.5, .25]))
    d = dict(shape=p['n'], layers=p['t'], sep=p['sep'], spacing=s, at=p['x'])
    with Impl(ctx, 'placing sources', d):
        cls = rng.choice(classes)
        F = cls(tuple(n * x for n, x in zip(p['n'], s)), s, pml=tuple(t * x for t, x in zip(p['t'], s)) or None, pml_sep=p['sep'])
        z = rng.choice([0, 1.5])
        r = F.pml_safe_placement((p['x'][0] / 4 * s[0], p['x'][1] / 4 * s[1], z))
        if not (close(r[0], at[0] / 4 * s[0], 1e-9) and close(r[1], at[1] / 4 * s[1], 1e-9) and r[2] == z):
            ctx.violate('sources are placed away from the layers', dict(d, got=r, expected=at))


def freq(ctx, p, gi, r, FDFD, jnp, rng):
    nd = gi['ndim']
    sh = tuple(p['g']['n'])
    d = dict({x: gi[x] for x in ('shape', 'spacing', 'bloch', 't', 'params', 'k0')})
    ctx.sample(d)
    f = em.dqs(p['f']).reshape(sh)
    kw = em.kwargs(gi, rng)
    kw.update(pml=tuple(t * s for t, s in zip(gi['t'], gi['spacing'])), pml_params=gi['params'])
    with Impl(ctx, 'frequency-domain layers', d):
        eps = np.array([rng.choice([1., 2., 4.]) for _ in range(int(np.prod(gi['shape'])))]).reshape(gi['shape'])
        lam = 2 * np.pi / gi['k0']
        F = FDFD(eps=eps.copy(), wavelength=lam if rng.random() < .7 else 1., **kw)
        F.wavelength = lam
        sn = [em.dqs(x) for x in r['sn']]
        df, db = [m @ f.ravel() for m in F.deriv_forward], [m @ f.ravel() for m in F.deriv_backward]
        key = 'sc'
        for a in range(nd):
            if not close(db[a], em.dqs(r['db'][a]), 1e-10 * (1 + np.abs(db[a]).max())):
                ctx.violate('backward differences with layers are exact', dict(d, axis=a, err=err(db[a], em.dqs(r['db'][a]))))
            c, x = em.dqs(r['dc'][a]), em.dqs(r['dx'][a])
            if not close(df[a], c, 1e-10 * (1 + np.abs(df[a]).max())):
                if close(df[a], x, 1e-10 * (1 + np.abs(df[a]).max())):
                    key = 'sx'
                    ctx.violate('layers at opposite faces mirror each other', dict(d, axis=a), key='frequency-domain layer strengths at cell centres')
                else:
                    ctx.violate('forward differences with layers are exact', dict(d, axis=a, err=[err(df[a], c), err(df[a], x)]))
            ctx.count('differences')
            if sh[a] > 1:
                for jx in (False, True):
                    xp = jnp if jx else np
                    for of_h, v in ((False, df[a]), (True, db[a])):
                        if not close(np.asarray(F.diff_fn(of_h=of_h, use_jax=jx)(xp.array(f), a)).ravel(), v, 1e-10 * (1 + np.abs(v).max())):
                            ctx.violate('matrix-free differences with layers equal the matrices', dict(d, axis=a, jax=jx, of_h=of_h))
                se, shh = F.scpml(a)
                if not (close(se, em.dqs(r[key][a]), 1e-10) and close(shh, sn[a], 1e-10)):
                    ctx.violate('the stretch is that of the layers', dict(d, axis=a))
        # exact operators from the exact strengths
        N = f.size
        DFm, DBm = [], []
        I = np.arange(N).reshape(sh)
        for a in range(3):
            if a >= nd or sh[a] == 1:
                DFm.append(np.zeros((N, N))); DBm.append(np.zeros((N, N))); continue
            w, b = em.dq(p['g']['w'][a]), em.dq(p['g']['b'][a])
            nx, pv = np.roll(I, -1, a).ravel(), np.roll(I, 1, a).ravel()
            co = np.indices(sh)[a].ravel()
            A, B = np.zeros((N, N), complex), np.zeros((N, N), complex)
            rows = np.arange(N)
            sc = em.dqs(r[key][a])[co]
            A[rows, nx] += np.where(co == sh[a] - 1, b, 1) * w / sc
            A[rows, rows] -= w / sc
            B[rows, rows] += w / sn[a][co]
            B[rows, pv] -= np.where(co == 0, np.conj(b), 1) * w / sn[a][co]
            DFm.append(A); DBm.append(B)
            if not close(A @ f.ravel(), df[a], 1e-9 * (1 + np.abs(df[a]).max())):
                return
        k2 = gi['k0'] ** 2
        if nd < 3 and N <= 500:
            et = np.asarray(F.eps_t).reshape(3, -1)
            ez = -DBm[0] @ DFm[0] - DBm[1] @ DFm[1] - k2 * np.diag(et[2])
            hz = -DFm[0] @ np.diag(1 / et[1]) @ DBm[0] - DFm[1] @ np.diag(1 / et[0]) @ DBm[1] - k2 * np.eye(N)
            hzx = -DBm[0] @ np.diag(1 / et[1]) @ DFm[0] - DBm[1] @ np.diag(1 / et[0]) @ DFm[1] - k2 * np.eye(N)
            if not close(F.mat_ez.toarray(), ez, 1e-9 * np.abs(ez).max()):
                ctx.violate('the Ez operator with layers', dict(d, err=err(F.mat_ez.toarray(), ez)))
            m = F.mat_hz.toarray()
            if not (close(m, hz, 1e-9 * np.abs(hz).max()) or close(m, hzx, 1e-9 * np.abs(hz).max())):
                ctx.violate('the Hz operator with layers', dict(d, err=[err(m, hz), err(m, hzx)]))
            if nd == 2:
                for src, tm, A in ((f, False, ez), (f, True, m)):
                    if np.linalg.cond(A) < 1e8:
                        try:
                            s = F.solve(src.ravel() + 0j, tm_2d=tm)
                        except RuntimeError as ex:
                            if 'perturbed pivot' in str(ex):
                                ctx.count('refused'); continue
                            raise
                        v = (s[1] if tm else s[0])[2].ravel()
                        if not close(A @ v, gi['k0'] * f.ravel(), 1e-7 * (1 + np.abs(A).max() * np.abs(v).max())):
                            ctx.violate('a solve with layers satisfies its equation', dict(d, tm=tm))
        v3 = np.random.default_rng(rng.randrange(10 ** 6)).normal(size=(3, N))
        CE = lambda u: np.stack([DFm[1] @ u[2] - DFm[2] @ u[1], DFm[2] @ u[0] - DFm[0] @ u[2], DFm[0] @ u[1] - DFm[1] @ u[0]])
        CH = lambda u: np.stack([DBm[1] @ u[2] - DBm[2] @ u[1], DBm[2] @ u[0] - DBm[0] @ u[2], DBm[0] @ u[1] - DBm[1] @ u[0]])
        ce, ch = CE(v3), CH(v3)
        full = CH(ce) - k2 * np.asarray(F.eps_t).reshape(3, -1) * v3
        sc_ = 1e-9 * (1 + np.abs(full).max())
        if not close(F.curl_fn()(v3.reshape(3, *sh)).reshape(3, -1), ce, sc_) or not close(F.curl_fn(of_h=True)(v3.reshape(3, *sh)).reshape(3, -1), ch, sc_):
            ctx.violate('curls with layers', d)
        if not close(F.mat @ v3.ravel(), full.ravel(), sc_):
            ctx.violate('the full operator with layers', dict(d, err=err(F.mat @ v3.ravel(), full.ravel())))


def decay_params(t, dt, rng):
    """layer parameters whose decay factors are powers of one half"""
    corr = rng.choice([1., 2.])
    return 1, -2 * t * np.log(2) * corr / dt, corr


def time(ctx, p, gi, st, FDTD, jnp, rng):
    sh = tuple(p['g']['n'])
    dt = np.sqrt(gi['T'])
    d = dict(shape=gi['shape'], spacing=gi['spacing'], layers=gi['t'], halves=p['halves'])
    ctx.sample(d)
    for jx in (False, True):
        with Impl(ctx, 'time-domain layers', dict(d, jax=jx)):
            kw = em.kwargs(gi, rng, bloch=False)
            F = FDTD(eps=em.dqs(p['eps']).real.reshape(gi['shape']), pml=tuple(t * s for t, s in zip(gi['t'], gi['spacing'])), pml_params=decay_params(gi['t'][0], dt, rng), use_jax=jx, **kw)
            xp = jnp if jx else np
            z = F.zero_state
            s = (xp.array(em.dqs(p['e']).reshape(3, *sh)), xp.array(dt * em.dqs(p['h']).reshape(3, *sh)), z[2], z[3])
            for n in range(1, p['halves'] // 2 + p['halves'] % 2 + 1):
                keep = [np.array(x) for x in (s[0], s[1], *s[2], *s[3])]
                s2 = F.step(s, [])
                if not all(np.array_equal(a, b) for a, b in zip(keep, (s[0], s[1], *s[2], *s[3]))):
                    ctx.violate('stepping leaves the given state unchanged', d)
                s = s2
                ctx.count('steps')
                e = em.dqs(st[2 * n - 1]['e']).reshape(3, *sh)
                if not close(s[0], e, 1e-6 * (1 + np.abs(e).max())):
                    ctx.violate('electric updates with layers are exact', dict(d, jax=jx, step=n, err=err(s[0], e), where=np.argwhere(np.abs(np.asarray(s[0]) - e) > 1e-6)[:5]))
                    break
                if 2 * n in st:
                    h = dt * em.dqs(st[2 * n]['h']).reshape(3, *sh)
                    if not close(s[1], h, 1e-6 * (1 + np.abs(h).max())):
                        ctx.violate('magnetic updates with layers are exact', dict(d, jax=jx, step=n, err=err(s[1], h), where=np.argwhere(np.abs(np.asarray(s[1]) - h) > 1e-6)[:5]))
                        break


def reach(ctx, p, gi, steps, FDTD, jnp, rng):
    nd = len(gi['shape'])
    sp = rng.choice([.1, .5, 1.])
    jx = rng.random() < .5 and nd < 3
    xp = jnp if jx else np
    d = dict(shape=gi['shape'], layers=gi['t'], lo=gi['lo'], hi=gi['hi'], steps=steps, spacing=sp)
    r = np.random.default_rng(rng.randrange(10 ** 6))
    eps = np.where(r.random(gi['shape']) < .5, 1., 2.5)
    par = rng.choice([(3, -25., 1.), (4, -16., 1.), (1, -60., .5), (2.5, -10., 2.)])
    with Impl(ctx, 'waves before the layers', d):
        size_ = tuple(n * sp for n in gi['shape'])
        A = FDTD(size_, sp, eps=eps.copy(), use_jax=jx)
        B = FDTD(size_, sp, eps=eps.copy(), use_jax=jx, pml=tuple((t + .25) * sp for t in gi['t']), pml_params=par)
        a, b = A.zero_state, B.zero_state
        reg = (slice(None),) + tuple(slice(l, h + 1) for l, h in zip(gi['lo'], gi['hi'])) + (slice(None),) * (3 - nd)
        v = lambda: r.normal(size=np.zeros(A.field_shape)[reg].shape) + 1j * r.normal(size=np.zeros(A.field_shape)[reg].shape)
        differ = False
        for n in range(1, steps + 1):
            S = [(v(), v(), reg)] if n < 3 else []
            a, b = A.step(a, S), B.step(b, S)
            ctx.count('steps')
            if not (close(a[0], b[0], 1e-13 * (1 + np.abs(np.asarray(a[0])).max())) and close(a[1], b[1], 1e-13 * (1 + np.abs(np.asarray(a[1])).max()))):
                ctx.violate('fields are those without layers until a wave reaches a layer', dict(d, step=n, err=[err(a[0], b[0]), err(a[1], b[1])]))
                break


def record(ctx, FDTD, jnp, nd, plan, info, rng):
    """energies of a source-free wave leaving the middle of a grid"""
    t = [rng.choice([4, 5]) for _ in range(nd)]
    n = tuple(2 * x + rng.randint(6, 10) if nd < 3 else 2 * x + 5 for x in t)
    sp = rng.choice([.05, .1, .5])
    par = rng.choice([(3, -25., 1.), (4, -16., 1.), (2, -25., 1.)])
    seed = rng.randrange(10 ** 6)
    d = dict(shape=n, layers=t, spacing=sp, params=par, seed=seed)
    r = np.random.default_rng(seed)
    with Impl(ctx, 'runs with layers', d):
        F = FDTD(tuple(x * sp for x in n), sp, eps=1., pml=tuple((x + .25) * sp for x in t), pml_params=par, use_jax=False)
        c = (slice(None),) + tuple(slice(x // 2 - 1, x // 2 + 1) for x in n)
        a, b = np.zeros(F.field_shape, complex), np.zeros(F.field_shape, complex)
        a[c] = r.normal(size=a[c].shape); b[c] = r.normal(size=a[c].shape)
        z = F.zero_state
        G = FDTD(tuple(x * sp for x in n), sp, eps=1., use_jax=False)     # outgoing waves: derivatives of potentials
        s = (G.curl_fn(of_h=True)(a) * sp, G.curl_fn()(b) * sp, z[2], z[3])
        E = []
        T = dict(quick=[0, 500, 500, 250], thorough=[0, 4000, 3000, 800])['quick' if ctx.quick else 'thorough'][nd]
        for _ in range(T):
            hp = s[1]
            s = F.step(s, [])
            E.append(float(np.sum(np.abs(s[0]) ** 2) + np.sum((np.conj(s[1]) * hp).real)))
            ctx.count('steps')
        E = np.array(E) / E[0]
        goal = [0, .6, .1, .05][nd]
        en = [int(min(x, 2000) * 1e6) if np.isfinite(x) else 2 * 10 ** 9 for x in E]
        plan.append(dict(w='trace', en=en, goal=int(goal * 1e6)))
        info.append(d)
