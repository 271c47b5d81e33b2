"""C20: waveguide modes are the sorted guided eigenmodes of the cross-section."""
import numpy as np
from harness.core import Impl, tlc, close, err
from harness import em

META = dict(level='model_checking', technique='TLA+ (Modes.tla over Yee.tla): TLC computes the exact mode operator of each cross-section column by column, checks that its solutions solve Maxwell\'s equations, its bounds and exactly manufactured fundamental modes; the real solver\'s operator, spectra, profiles, indices, sweeps and rejections are replayed against it',
            note='Line and plane cross-sections of up to 20 pixels, uniform or not, unequal pixels. The expected spectrum is the dense eigen-decomposition of TLC\'s exact operator; fundamental modes of manufactured lines are exact numbers. Profiles are compared by the exact difference operators TLC emits.',
            rule='one behaviour per cross-section, wavelength and request',
            assumptions=['sections whose requested eigenvalues are complex or numerically zero are skipped; equal eigenvalues may be listed less often than their multiplicity'])


def section(rng, kind):
    ndim = 1 if kind.startswith('line') else 2
    shape = rng.choice([(4, 1, 1), (5, 1, 1), (6, 1, 1), (7, 1, 1), (9, 1, 1)] if ndim == 1 else [(3, 4, 1), (4, 3, 1), (3, 3, 1), (5, 3, 1), (3, 5, 1), (4, 4, 1), (4, 5, 1)])
    g, gi = em.grid(rng, ndim, shape=shape, bloch=False, winv=(1, 2) if ndim == 1 else (1, 2, 4))
    N = em.size_of(g)
    k0 = em.q(*rng.choice([(1, 0, 1), (2, 0, 1), (3, 0, 1), (3, 0, 2), (1, 0, 2)]))
    p = dict(g=g, ndim=ndim, k0=k0, made=False, uniform=False, profile=[], beta2=em.q(0), beta=em.q(rng.choice([1, 2, 3]), 0, rng.choice([1, 2])), f=[em.ints(rng, N, 3) for _ in range(2)])
    if kind == 'line-made':
        Fr = em.Fr
        w = Fr(g['w'][0][0], g['w'][0][2])
        kk = Fr(k0[0], k0[2]) ** 2
        f = [Fr(rng.randint(1, 6)) for _ in range(N)]
        lap = [w * w * (f[(i + 1) % N] + f[i - 1] - 2 * f[i]) for i in range(N)]
        low = max(lap[i] / f[i] for i in range(N))
        b2 = Fr(int(low) + rng.randint(2, 5))
        p.update(made=True, profile=[em.qf(x) for x in f], beta2=em.qf(b2), eps=[em.qf((b2 - lap[i] / f[i]) / kk) for i in range(N)])
    elif kind.endswith('uniform'):
        p.update(uniform=True, eps=[em.q(rng.choice([1, 2, 4]))] * N)
    else:
        p['eps'] = em.eps_cells(rng, g['n'], rng.choice([(1, 4), (1, 2, 4), (2, 12), (1, 3)]))
    p['emax'] = max(p['eps'], key=lambda x: x[0] / x[2])
    return p, dict(gi, kind=kind)


def run(ctx):
    from simphox.mode import ModeSolver, ModeLibrary
    rng = ctx.rng
    kinds = ['line', 'line', 'line-made', 'plane', 'plane', 'plane', 'line-uniform', 'plane-uniform']
    plan, info = [], []
    for k in range(160 if ctx.quick else 900):
        p, i = section(rng, kinds[k % len(kinds)])
        plan.append(p); info.append(i)
    # the recorded case of highly degenerate modes
    two, half = em.q(2), em.Fr(1, 2)
    plan.append(dict(plan[3], g=dict(n=[4, 5, 1], w=[em.q(4), em.q(2), em.q(1)], b=[em.Q1] * 3), ndim=2, k0=two, eps=[two] * 20, emax=two, f=[[em.Q1] * 20] * 2, uniform=True, made=False))
    info.append(dict(ndim=2, shape=(4, 5), spacing=(.25, .5), bloch=(0., 0.), kind='plane-uniform', modes=6))
    recs, _ = tlc('Modes', plan, invariants=['ModeIsMaxwell', 'NoDivergence', 'Symmetric', 'Bounded', 'Uniform', 'Manufactured'], timeout=800)
    cols, dif, ets = {}, {}, {}
    for r in recs:
        cols[r['pi'], r['col']] = em.dqs(r['v'])
        if r['d']:
            dif[r['pi'], r['col']] = r['d']
        if r['et']:
            ets[r['pi']] = em.dqs(r['et']).real
    for k, (p, gi) in enumerate(zip(plan, info), 1):
        N = em.size_of(p['g'])
        nd = p['ndim']
        dim = N * nd
        C = np.stack([cols[k, j] for j in range(1, dim + 1)], 1)
        D = {s: [np.stack([em.dqs(dif[k, j][s][a]) for j in range(1, N + 1)], 1).real for a in range(nd)] for s in ('df', 'db')}
        one(ctx, p, gi, C, D, ets[k], ModeSolver, ModeLibrary)
        if ctx.full:
            return


def spectrum(C):
    w = np.linalg.eigvals(C)
    w = w[np.argsort(-w.real)]
    return w, np.abs(w).max()


def one(ctx, p, gi, C, D, et, ModeSolver, ModeLibrary):
    rng = ctx.rng
    nd, N = p['ndim'], em.size_of(p['g'])
    k0 = em.dq(p['k0']).real
    eps = em.dqs(p['eps']).real.reshape(gi['shape'])
    sh3 = (3, *p['g']['n'])
    d = dict(kind=gi['kind'], shape=gi['shape'], spacing=gi['spacing'], eps=eps, k0=k0)
    ctx.count('behaviours'); ctx.sample(d)
    w, sc = spectrum(C)
    K2, DF, DB = k0 * k0, D['df'], D['db']

    def curl(f, d_, beta):
        dx = lambda u: d_[0] @ u
        dy = (lambda u: d_[1] @ u) if nd == 2 else (lambda u: 0 * u)
        f = f.reshape(3, N)
        return np.stack([dy(f[2]) + 1j * beta * f[1], -1j * beta * f[0] - dx(f[2]), dx(f[1]) - dy(f[0])])

    def check_modes(betas, modes, w, sc, C, m, dd, want=None):
        """the m largest eigenvalues, sorted, positive, with their own eigenvectors"""
        ctx.count('solves')
        if np.any(np.abs(w[:m].imag) > 1e-7 * sc) or np.any(np.abs(w[:m + 1].real) < 1e-7 * sc):
            ctx.count('complex or vanishing eigenvalues skipped')
            return False
        ex = np.sqrt(w[:m].real[w[:m].real > 0])
        b = np.asarray(betas)
        if b.dtype.kind == 'f' and b.ndim == 1 and 0 < len(b) < len(ex):
            # copies of a highly degenerate eigenvalue missing
            left = list(ex)
            for x in b:
                j = int(np.argmin(np.abs(np.array(left) - x)))
                if abs(left[j] - x) < 1e-6 * ex[0]:
                    left.pop(j)
            if len(left) == len(ex) - len(b) and all(np.sum(np.abs(w - x ** 2) < 1e-6 * sc) > 2 and np.any(np.abs(b - x) < 1e-6 * ex[0]) for x in left):
                ctx.violate('every requested propagating mode is returned, and no other', dict(dd, betas=b, expected=ex), key='copies of an eigenvalue of multiplicity above two')
                return False
        if b.dtype.kind != 'f' or b.shape != ex.shape:
            ctx.violate('every requested propagating mode is returned, and no other', dict(dd, betas=b, expected=ex))
            return False
        if np.any(b <= 0) or np.any(np.diff(b) > 1e-9 * b[:1]):
            ctx.violate('propagation constants are positive and decreasing', dict(dd, betas=b))
        tol = 1e-6
        if np.abs(b - ex).max(initial=0) > tol * ex.max(initial=1):
            gaps = np.abs(np.diff(w.real))
            if np.any(gaps[:m] < 1e-5 * sc):      # degenerate: still eigenvalues, and the largest
                if b.size and (abs(b[0] - ex[0]) > tol * ex[0] or any(np.abs(np.sqrt(np.maximum(w.real, 0)) - x).min() > tol * ex[0] for x in b)):
                    ctx.violate('propagation constants are the largest of the spectrum', dict(dd, betas=b, expected=ex))
                    return False
            else:
                ctx.violate('propagation constants are the largest of the spectrum', dict(dd, betas=b, expected=ex))
                return False
        M = np.asarray(modes)
        if M.shape != (len(b), N * (3 if nd == 2 else 1)):
            ctx.violate('one profile per mode', dict(dd, shape=M.shape))
            return False
        for i in range(len(b)):
            t = M[i][:C.shape[0]]
            res = np.abs(C @ t - b[i] ** 2 * t).max()
            if not (np.abs(t).max() > 1e-3 and res < 2e-5 * sc * np.abs(t).max()):
                ctx.violate('each mode is an eigenvector paired with its own propagation constant', dict(dd, mode=i, residual=res, betas=b))
            if nd == 2:
                hz = (DF[0] @ t[:N] + DF[1] @ t[N:]) / (1j * b[i])
                if not close(M[i][2 * N:], hz, 1e-6 * (1 + np.abs(hz).max())):
                    ctx.violate('the longitudinal magnetic field belongs to the mode', dict(dd, mode=i, err=err(M[i][2 * N:], hz)))
        return True

    with Impl(ctx, 'a mode solve', d):
        lam = 2 * np.pi / k0
        kw = em.kwargs(gi, rng, bloch=False)
        s = ModeSolver(wavelength=lam, eps=eps.copy(), **kw)
        if not close(s.C.toarray(), C, 1e-9 * (1 + sc)) or not close(s.waveguide_mode_matrix.toarray(), C, 1e-9 * (1 + sc)):
            ctx.violate('the waveguide operator is the exact one', dict(d, err=err(s.C.toarray(), C)))
            return
        mmax = min(C.shape[0] - 2, 6)
        m = gi.get('modes') or rng.randint(1, mmax)
        b, M = s.solve(m)
        ok = check_modes(b, M, w, sc, C, m, dict(d, m=m))
        if p['made'] and not (abs(b[0] ** 2 - em.dq(p['beta2']).real) < 1e-6 * b[0] ** 2 and same_ray(M[0], em.dqs(p['profile']))):
            ctx.violate('a manufactured fundamental mode is found', dict(d, beta2=b[0] ** 2, expected=p['beta2']))
        if not np.array_equal(s.eps, eps):
            ctx.violate('solving leaves the permittivity unchanged', d)
        if rng.random() < .5 and len(b):      # a guess selects the mode next to it
            j = rng.randrange(len(b))
            gaps = np.abs(np.delete(w.real, j) - w.real[j]) if ok else np.zeros(1)
            if ok and gaps.min() > 1e-3 * sc:
                b1, M1 = s.solve(1, beta_guess=float(b[j] * (1 + 1e-5)))
                ctx.count('guesses')
                if not (len(b1) == 1 and abs(b1[0] - b[j]) < 1e-6 * b[j] and same_ray(M1[0], M[j])):
                    ctx.violate('a guess selects the mode next to it', dict(d, guess=b[j], got=b1))
        if nd == 1 and ok and rng.random() < .6:      # a range selects the modes within it
            pos = w.real[w.real > 1e-3 * sc]
            i, j = sorted(rng.sample(range(len(pos) + 1), 2))      # wanted: pos[i:j]
            top = pos[0] * 1.3 if i == 0 else (pos[i - 1] + pos[i]) / 2
            low = pos[-1] / 2 if j == len(pos) else (pos[j - 1] + pos[j]) / 2
            if min(np.abs(w.real - top).min(), np.abs(w.real - low).min()) > 1e-3 * sc:
                k = rng.randint(min(j - i + 2, N), N)
                try:
                    br, Mr = s.solve(k, beta_guess=(float(low ** .5), float(top ** .5)))
                except RuntimeError as e:      # FEAST now and then fails to converge, and says so
                    if 'Feast returned' not in str(e):
                        raise
                    ctx.count('ranges refused')
                    br, Mr = pos[i:j] ** .5, None
                ctx.count('ranges')
                dd = dict(d, range=(low ** .5, top ** .5), asked=k, betas=br, expected=pos[i:j] ** .5)
                if np.shape(br) != (j - i,) or np.abs(br - pos[i:j] ** .5).max() > 1e-6 * sc ** .5:
                    ctx.violate('a range selects the modes within it', dd)
                elif Mr is not None and (np.shape(Mr) != (j - i, N) or any(not np.abs(t).max() > 1e-6 or np.abs(C @ t - x ** 2 * t).max() > 2e-5 * sc * np.abs(t).max() for x, t in zip(br, Mr))):
                    ctx.violate('each mode is an eigenvector paired with its own propagation constant', dd)
        if not ok:
            return
        lib = ModeLibrary(s, m) if rng.random() < .5 else ModeLibrary(solver=ModeSolver(wavelength=lam, eps=eps.copy(), **kw), max_num_modes=m)
        gapok = [min([abs(w.real[i] - w.real[j]) for j in range(len(w)) if j != i]) > 1e-4 * sc for i in range(len(b))]
        library(ctx, lib, b, M, gapok, d, p, K2, k0, N, nd, sh3, et, DF, DB, curl)
        # sweeps and updates
        lams = [lam * x for x in rng.sample([.5, 1, 1.3, 2, .8], 3)]
        lap = C - K2 * np.diag(np.concatenate([et.reshape(3, -1)[1], et.reshape(3, -1)[0]]) if nd == 2 else eps.ravel())
        seen = []
        sw = s.dispersion_sweep(np.array(lams) if rng.random() < .5 else lams, m, **({} if rng.random() < .5 else dict(pbar=lambda x: (seen.append(1), x)[1])))
        if len(sw) != len(lams):
            ctx.violate('a sweep has one entry per wavelength', dict(d, got=len(sw)))
        if abs(s.wavelength - lam) > 1e-12 or abs(s.k0 - k0) > 1e-12 * k0:
            ctx.violate('a sweep leaves the wavelength', dict(d, wavelength=s.wavelength))
        for l2, (b2, M2) in zip(lams, sw):
            k2 = 2 * np.pi / l2
            C2 = lap + k2 * k2 * (C - lap) / K2
            w2, sc2 = spectrum(C2)
            ok2 = check_modes(b2, M2, w2, sc2, C2, m, dict(d, m=m, sweep=l2))
            r = lib.update_wavelength(l2)
            ctx.count('wavelength updates')
            if r is not lib:
                ctx.violate('a wavelength update returns the library', d)
            if ok2:
                many = any(np.sum(np.abs(w2 - x ** 2) < 1e-5 * sc2) > 2 for x in b2)      # copies may be missing (see above)
                if many:
                    if not (len(lib.betas) == lib.m == lib.num_modes and all(np.abs(w2 - x ** 2).min() < 1e-6 * sc2 for x in lib.betas)):
                        ctx.violate('an updated library is that of the new wavelength', dict(d, wavelength=l2, betas=lib.betas, expected=b2))
                elif not (len(lib.betas) == lib.m == lib.num_modes == len(b2) and close(lib.betas, b2, 1e-6 * sc2 ** .5) and all(abs(lib.n(i) - b2[i] / k2) < 1e-6 * sc2 ** .5 for i in range(lib.m))):
                    ctx.violate('an updated library is that of the new wavelength', dict(d, wavelength=l2, betas=lib.betas, expected=b2))
                else:
                    g2 = [min([abs(w2.real[i] - w2.real[j]) for j in range(len(w2)) if j != i]) > 1e-4 * sc2 for i in range(len(b2))]
                    library(ctx, lib, b2, M2, g2, dict(d, updated=l2), p, k2 * k2, k2, N, nd, sh3, et, DF, DB, curl)


def same_ray(a, b):
    a, b = np.asarray(a).ravel(), np.asarray(b).ravel()
    return abs(abs(np.vdot(a, b)) - np.linalg.norm(a) * np.linalg.norm(b)) < 1e-6 * np.linalg.norm(a) * np.linalg.norm(b)


def library(ctx, lib, b, M, gapok, d, p, K2, k0, N, nd, sh3, et, DF, DB, curl):
    rng = ctx.rng
    ctx.count('libraries')
    m = len(b)
    if not (lib.m == lib.num_modes == m and close(lib.betas, b, 1e-6 * b.max())):
        ctx.violate('a library holds the solver\'s modes', dict(d, betas=lib.betas, expected=b))
        return
    ets = et.reshape(3, N)
    H = []
    for i in range(m):
        if abs(lib.beta(i) - b[i]) > 1e-6 * b[0] or abs(lib.n(i) - b[i] / k0) > 1e-6 * b[0] / k0 or abs(lib.ns[i] - b[i] / k0) > 1e-6 * b[0] / k0:
            ctx.violate('constants and indices belong to the mode', dict(d, mode=i))
        if abs(lib.phase(1.5, i) - 1.5 * b[i]) > 1e-5 * b[0]:
            ctx.violate('the phase delay is that of the mode', dict(d, mode=i))
        for tm in ((True, False) if nd == 1 else (True,)):
            h, e = np.asarray(lib.h(i, tm_2d=tm)), np.asarray(lib.e(i, tm_2d=tm))
            if h.shape != sh3 or e.shape != sh3:
                ctx.violate('profiles are grid shaped', dict(d, mode=i, shape=[h.shape, e.shape]))
                return
            h, e = h.reshape(3, N), e.reshape(3, N)
            prof = np.asarray(lib.modes[i])
            if nd == 1:
                same = close((h if tm else e)[1], prof, 1e-12) and not np.any((h if tm else e)[[0, 2]])
            else:
                same = close(h.ravel(), prof, 1e-12)
            if not same:
                ctx.violate('profiles are those of the mode', dict(d, mode=i, tm=tm))
            if gapok[i] and not same_ray(prof, M[i]):
                ctx.violate('profiles belong to their mode', dict(d, mode=i))
            beta = lib.betas[i]
            if tm:
                ex = curl(h, DB, beta) / (1j * k0 * ets)
                if not close(e, ex, 1e-9 * (1 + np.abs(ex).max())):
                    ctx.violate('electric profiles follow from the magnetic ones', dict(d, mode=i, err=err(e, ex)))
            if nd == 2 or not tm:
                hx = curl(e, DF, beta) / (-1j * k0)
                if not close(h, hx, (1e-9 if nd == 1 else 1e-4) * (1 + np.abs(hx).max())):
                    ctx.violate('magnetic profiles follow from the electric ones', dict(d, mode=i, tm=tm, err=err(h, hx)))
            H.append(h)
        if nd == 2:
            e, h = np.asarray(lib.e(i)), np.asarray(lib.h(i))
            av = lambda u, a: (u + np.roll(u, 1, a)) / 2
            sz = av(e[0], 1) * av(h[1], 1).conj() - av(e[1], 0) * av(h[0], 0).conj()
            if not close(np.asarray(lib.sz(i)).squeeze(), sz.squeeze(), 1e-9 * (1 + np.abs(sz).max())):
                ctx.violate('power belongs to the mode', dict(d, mode=i, err=err(np.asarray(lib.sz(i)).squeeze(), sz.squeeze())))
            t = np.abs(h[0]) ** 2, np.abs(h[1]) ** 2
            if abs(float(lib.te_ratio(i)) - t[0].sum() / (t[0].sum() + t[1].sum())) > 1e-9:
                ctx.violate('the polarisation ratio belongs to the mode', dict(d, mode=i))
    if m > 1:
        if abs(lib.dbeta - (b[0] - b[1])) > 1e-5 * b[0] or abs(lib.dn - (b[0] - b[1]) / k0) > 1e-5 * b[0] / k0:
            ctx.violate('index differences are those of the first two modes', d)
        if b[0] - b[1] > 1e-2 * b[0] and abs(lib.beat_length() * (lib.betas[0] - lib.betas[1]) - 2 * np.pi) > 1e-6:
            ctx.violate('the beat length is that of the first two modes', d)
    # superpositions along the waveguide
    wts = tuple(rng.choice([1, .5, -2, 1j]) for _ in range(rng.randint(1, m)))
    L = rng.choice([0., .7, 2.])
    for use_h in (True, False):
        F = [np.asarray(lib.h(i) if use_h else lib.e(i)) for i in range(len(wts))]
        got = np.asarray(lib.evolve(L, wts, use_h=use_h))
        cand = [sum(f * x * np.exp(sgn * 1j * lib.betas[i] * L) for i, (f, x) in enumerate(zip(F, wts))) for sgn in (1, -1)]
        if not any(close(got.reshape(c.shape) if got.size == c.size else got, c, 1e-9 * (1 + np.abs(c).max())) for c in cand):
            ctx.violate('an evolved superposition adds its modes with their own constants', dict(d, weights=wts, length=L))
    # requests beyond the available modes
    for j in (m, m + 2):
        for name, fn in (('h', lib.h), ('e', lib.e), ('beta', lib.beta), ('n', lib.n), ('sz', lib.sz), ('measure', lib.measure_fn), ('phase', lambda x: lib.phase(1., x))):
            ctx.count('requests beyond the modes')
            try:
                fn(j)
            except (ValueError, IndexError):
                continue
            except Exception as e:
                ctx.violate('requests beyond the modes are rejected', dict(d, request=name, mode=j, available=m, exception=repr(e)[:200]))
            else:
                ctx.violate('requests beyond the modes are rejected', dict(d, request=name, mode=j, available=m))
