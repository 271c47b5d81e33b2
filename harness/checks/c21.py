"""C21: port sources and measurements follow the requested ports and modes."""
import json
import os
import subprocess
import sys
from math import lcm
import numpy as np
from harness.core import Impl, tlc, close, err, VERIF
from harness import em

Fr = em.Fr
META = dict(level='model_checking', technique='TLA+ (Ports.tla over Yee.tla): sections, frames and orientations of ports, exact amplitudes of manufactured modes and every sequence of requests; the real measurements, sources and scattering parameters are replayed against them',
            note='Plane simulations (both polarisations, ports facing all four directions, with and without absorbing layers) with exactly known modes at every port; TLC enumerates all request sequences up to three pairs. Volume simulations and unmanufactured modes use TLC\'s sections, frames and orientations with the solver\'s own profiles. Scattering parameters are compared with the ratio of measured amplitudes, straight waveguides with unit transmission, and measurements with those of processes with other hash seeds.',
            rule='one behaviour per request sequence or source',
            assumptions=['overall phases of modes are a gauge', 'profiles are compared only where modes are not degenerate'])


def made_port(rng, axis, pos, c, n, k0, w):
    """a section with an exactly known mode"""
    for _ in range(200):
        f = [Fr(rng.choice([1, 2, -1, -2, 1, 2])) for _ in range(n)]
        if f[0] < 0:
            f = [-x for x in f]
        lap = [w * w * (f[(i + 1) % n] + f[i - 1] - 2 * f[i]) for i in range(n)]
        b = rng.choice([x for x in (2, 3, 4, 5, 6) if x * x > max(lap[i] / f[i] for i in range(n))] or [0])
        if not b:
            continue
        eps = [(b * b - lap[i] / f[i]) / (k0 * k0) for i in range(n)]
        if min(eps) <= Fr(1, 2) or lcm(*[e.numerator for e in eps]) > 400 or len(set(eps)) == 1:
            continue
        C = np.diag([float(e * k0 * k0) for e in eps]) + float(w * w) * (np.roll(np.eye(n), 1, 0) + np.roll(np.eye(n), -1, 0) - 2 * np.eye(n))
        v = np.sort(np.linalg.eigvalsh(C))[::-1]
        r = int(np.argmin(np.abs(v - b * b)))
        if np.min(np.abs(np.diff(v))[:r + 1]) < .05 or r > n - 3:
            continue
        avail = int(np.sum(v[:n - 2] > .05))
        gaps = [min(abs(v[i] - v[j]) for j in range(n) if j != i) for i in range(avail)]
        while gaps and gaps[-1] < .05:
            gaps.pop()
        if r >= len(gaps) or min(gaps) < .05:
            continue
        return dict(axis=axis, pos=pos, c=list(c) + [0], n=n, m=0, f=[em.qf(x) for x in f], beta=em.q(b), eps=[em.qf(e) for e in eps], rank=r), len(gaps)
    return None


def world2(rng):
    while True:
        n = [rng.choice([10, 11, 12]), rng.choice([10, 11, 12])]
        keep = rng.choice([0, 0, 0, 5])
        if keep:
            n = [x + 6 for x in n]
        k0 = Fr(rng.choice([1, 2]))
        w = [Fr(rng.choice([1, 2])), Fr(rng.choice([1, 2]))]
        ports, avail, used = [], [], {}
        dirs = [(1, True), (1, False), (2, True), (2, False)]
        rng.shuffle(dirs)
        for axis, pos in dirs[:rng.choice([2, 2, 3, 4])]:
            N = rng.choice([3, 4, 4, 5])
            c = [rng.randrange(n[0]), rng.randrange(n[1])]
            a, t = axis - 1, 2 - axis
            c[t] = rng.randint(N // 2, n[t] - (N - N // 2))
            cc = [min(max(c[i], keep), n[i] - 1 - keep) for i in (0, 1)]
            r = made_port(rng, axis, pos, c, N, k0, w[t])
            lo = cc[t] - N // 2
            cells = [(cc[0], lo + i) if axis == 1 else (lo + i, cc[1]) for i in range(N)]
            if r is None or any(x in used for x in cells) or min(lo, n[t] - lo - N) < 0 or not keep == 0 and cc[t] != c[t] and rng.random() < .5:
                continue
            for x, e in zip(cells, r[0]['eps']):
                used[x] = e
            ports.append(r[0]); avail.append(r[1])
        if len(ports) < 2:
            continue
        N = n[0] * n[1]
        eps = [used.get((i // n[1], i % n[1]), em.q(rng.choice([1, 2, 3]))) for i in range(N)]
        pairs = [[i + 1, m] for i in range(len(ports)) for m in range(avail[i])]
        rng.shuffle(pairs)
        pairs = pairs[:5]
        g = dict(n=n + [1], w=[em.qf(x) for x in w] + [em.Q1], b=[em.Q1] * 3)
        return dict(g=g, ports=ports, pairs=pairs, k0=em.qf(k0), eps=eps, e=[em.ints(rng, N, 3) for _ in range(3)], h=[em.ints(rng, N, 3) for _ in range(3)], tm=rng.random() < .6, exact=True,
                    keep=keep, amp=[em.q(2, 1), em.q(-1, 3)], depth=3), dict(ndim=2, spacing=[float(1 / x) for x in w], avail=avail, names=names(rng, len(ports)))


def names(rng, k):
    return rng.sample(['a0', 'b0', 'a1', 'b1', 'in', 'z9', 'cross', 'through', 'o1', 'Q'], k)


def world3(rng):
    n = [rng.choice([7, 8]), rng.choice([7, 8]), rng.choice([6, 7])]
    ports = []
    dirs = [(1, True), (1, False), (2, True), (2, False)]
    rng.shuffle(dirs)
    for axis, pos in dirs[:2]:
        N, M = rng.choice([(3, 4), (4, 3), (4, 5), (5, 3)])
        c = [rng.randrange(1, n[0] - 1), rng.randrange(1, n[1] - 1), rng.randint(M // 2, n[2] - (M - M // 2))]
        t = 2 - axis
        c[t] = rng.randint(N // 2, n[t] - (N - N // 2))
        ports.append(dict(axis=axis, pos=pos, c=c, n=N, m=M, f=[], beta=em.q(0), eps=[], rank=0))
    N = int(np.prod(n))
    w = [Fr(rng.choice([1, 1, 2])) for _ in range(3)]
    g = dict(n=n, w=[em.qf(x) for x in w], b=[em.Q1] * 3)
    return dict(g=g, ports=ports, pairs=[[1, 0], [2, 0], [1, 1], [2, 1]], k0=em.q(2), eps=[em.q(rng.choice([2, 5, 9, 12])) for _ in range(N)], e=[], h=[], tm=True, exact=False, keep=0, amp=[em.Q1] * 2, depth=2), \
        dict(ndim=3, spacing=[float(1 / x) for x in w], avail=[2, 2], names=names(rng, 2))


def world_s(rng):
    """sections across any axis of a volume"""
    p, i = world3(rng)
    n = p['g']['n']
    p['ports'] = []
    for axis in (1, 2, 3):
        N, M = rng.choice([(3, 4), (4, 3), (4, 5), (5, 3)])
        a, u = [(2, 3), (1, 3), (1, 2)][axis - 1]
        c = [rng.randrange(x) for x in n]
        c[axis - 1] = rng.randint(3, n[axis - 1] - 4) if n[axis - 1] > 6 else 3
        c[a - 1] = rng.randint(N // 2, n[a - 1] - (N - N // 2))
        c[u - 1] = rng.randint(M // 2, n[u - 1] - (M - M // 2))
        p['ports'].append(dict(axis=axis, pos=True, c=c, n=N, m=M, f=[], beta=em.q(0), eps=[], rank=0))
    return dict(p, pairs=[[1, 0]], depth=0), i


def sim_of(rng, p, i, kind):
    from simphox.sim import SimGrid
    from simphox.fdfd import FDFD
    from simphox.fdtd import FDTD
    from simphox.grid import Port
    nd, s = i['ndim'], np.array(i['spacing'] + [1.])
    n = p['g']['n'][:nd]
    lam = 2 * np.pi / em.dq(p['k0']).real
    kw = dict(size=tuple(n * s[:nd]), spacing=tuple(s[:nd]), eps=em.dqs(p['eps']).real.reshape(n))
    if p['keep']:
        kw.update(pml=tuple(4 * s[:nd]), pml_sep=p['keep'] - 4)
    sim = FDFD(wavelength=lam, **kw) if kind == 'fdfd' else FDTD(**kw) if kind == 'fdtd' else SimGrid(**kw)
    fac = rng.choice([1, 2, 3])
    ang = {(1, True): [0, 360, -360], (1, False): [180, -180, 540], (2, True): [90, -270], (2, False): [270, -90]}
    sim.port = {nm: Port(q['c'][0] * s[0], q['c'][1] * s[1], rng.choice(ang[q['axis'], q['pos']]), q['n'] * s[2 - q['axis']] / fac, q['c'][2] * s[2], q['m'] * s[2] / fac) for nm, q in zip(i['names'], p['ports'])}
    return sim, fac, lam


def spell(rng, pairs):
    """a notation for a list of pairs"""
    how = rng.choice(['pairs', 'lists', 'names', 'dict', 'tuple'])
    if how == 'dict':
        d = {}
        for nm, m in pairs:
            d.setdefault(nm, []).append(m)
        if [(nm, m) for nm in d for m in d[nm]] == list(pairs):
            return d
    if how == 'names':
        return [nm if m == 0 else (nm, m) for nm, m in pairs]
    if how == 'lists':
        return [list(x) for x in pairs]
    if how == 'tuple' and not (len(pairs) == 2):
        return tuple(pairs)
    if len(pairs) == 1 and rng.random() < .3:
        return pairs[0] if pairs[0][1] or rng.random() < .5 else pairs[0][0]
    return [tuple(x) for x in pairs]


def avg(u, a):
    return (u + np.roll(u, 1, a)) / 2


def flow(e1, e2, h1, h2):
    return np.sum(avg(e1, 1) * avg(h2, 1).conj() - avg(e2, 0) * avg(h1, 0).conj())


def column(p, q, geo, lib, m, E, H, tm):
    """amplitudes out of and into the device at a port, from TLC's section, frame and orientation"""
    here, fr = np.array(geo['here']) - 1, geo['frame']
    sh = (q['n'], max(q['m'], 1))
    e = [E.reshape(3, -1)[c - 1][here].reshape(sh) for c in fr[:2]]
    h = [H.reshape(3, -1)[c - 1][here].reshape(sh) for c in fr[:2]]
    em_, hm = np.asarray(lib.e(m, tm_2d=tm)).reshape(3, *sh), np.asarray(lib.h(m, tm_2d=tm)).reshape(3, *sh)
    sm = flow(em_[0], em_[1], hm[0], hm[1])
    a = flow(e[0], e[1], hm[0], hm[1]) / sm / 2
    b = np.conj(flow(em_[0], em_[1], h[0], h[1]) / sm) / 2
    return np.array([a + b, a - b] if geo['leaves'] else [a - b, a + b])


def ray(a, b, tol):
    """equal up to a phase"""
    a, b = np.asarray(a).ravel(), np.asarray(b).ravel()
    if a.shape != b.shape:
        return False
    z = np.vdot(b, a)
    z = z / abs(z) if abs(z) else 1
    return bool(np.all(np.isfinite(a))) and close(a, z * b, tol * (1 + np.abs(b).max(initial=0)))


def run(ctx):
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as jnp
    rng = ctx.rng
    ws = [world2(rng) for _ in range(24 if ctx.quick else 150)] + [world3(rng) for _ in range(6 if ctx.quick else 30)]
    ws += [world_s(rng) for _ in range(3 if ctx.quick else 15)]
    plan = [w[0] for w in ws]
    recs, _ = tlc('Ports', plan, invariants=['Independent', 'Made', 'Recovers', 'Turned', 'Sections'], timeout=800)
    geo = {r['pi']: r['ports'] for r in recs if r['what'] == 'geometry'}
    asks = {}
    for r in recs:
        if r['what'] == 'request':
            asks.setdefault(r['pi'], []).append(r)
    for k, (p, i) in enumerate(ws, 1):
        nd = i['ndim']
        kind = rng.choice(['grid', 'fdfd', 'fdfd', 'fdtd'])
        d = dict(kind=kind, ndim=nd, n=p['g']['n'][:nd], spacing=i['spacing'], ports=[(nm, q['axis'], q['pos'], q['c'], q['n'], q['m']) for nm, q in zip(i['names'], p['ports'])], keep=p['keep'], tm=p['tm'])
        ctx.sample(d)
        if not p['depth']:
            with Impl(ctx, 'sections', d):
                sections(ctx, rng, p, i, geo[k], d)
            continue
        with Impl(ctx, 'ports', d):
            sim, fac, lam = sim_of(rng, p, i, kind)
            sh3 = (3, *p['g']['n'])
            nprng = np.random.default_rng(rng.randrange(10 ** 6))
            if p['exact']:
                E, H = em.dqs(p['e']).reshape(sh3), em.dqs(p['h']).reshape(sh3)
            else:
                E, H = [nprng.normal(size=sh3) + 1j * nprng.normal(size=sh3) for _ in range(2)]
            wl = {} if kind == 'fdfd' else dict(wavelength=lam)
            nmodes = {}
            for a, m in p['pairs']:
                nmodes[a] = max(nmodes.get(a, 0), m)
            libs = sim.port_modes([(i['names'][a - 1], m) for a, m in nmodes.items()], fac, **wl)
            if list(libs) != [i['names'][a - 1] for a in nmodes]:
                ctx.violate('port modes are keyed by the requested ports in order', dict(d, got=list(libs)))
            lib = {a: libs[i['names'][a - 1]].io for a in nmodes}
            if nd == 3:      # only modes that exist and are not degenerate
                bad = set()
                for a, l in lib.items():
                    C = np.sort(np.linalg.eigvals(l.solver.C.toarray()).real)[::-1]
                    if np.min(np.abs(np.diff(C[:4]))) < 1e-3 * np.abs(C).max() or C[1] < 1e-3 * np.abs(C).max():
                        bad.add(a)
            else:
                bad = set()
            one = {}
            todo = asks.get(k, [])
            long = [r for r in todo if len(r['req']) > 1]
            rng.shuffle(long)
            for r in [r for r in todo if len(r['req']) == 1] + long[:25 if ctx.quick else 80]:
                pairs = [tuple(c['pair']) for c in r['cols']]
                if any(a in bad for a, _ in pairs):
                    ctx.count('degenerate modes skipped')
                    continue
                req = [(i['names'][a - 1], m) for a, m in pairs]
                note = spell(rng, req)
                jx = rng.random() < .4
                if nd == 2 and not p['tm']:
                    kw = dict(tm_2d=False)
                else:
                    kw = {} if rng.random() < .5 else dict(tm_2d=True)
                fn = sim.get_measure_fn(note, profile_size_factor=fac, use_jax=jx, **kw, **wl)
                e0, h0 = E.copy(), H.copy()
                got = np.asarray(fn((jnp.array(E), jnp.array(H)) if jx else (E, H)))
                ctx.count('behaviours')
                dd = dict(d, request=repr(note), jax=jx)
                if got.shape != (2, len(pairs)):
                    ctx.violate('a measurement has one pair of amplitudes per request', dict(dd, shape=got.shape))
                    continue
                if not (np.array_equal(E, e0) and np.array_equal(H, h0)):
                    ctx.violate('measuring leaves the fields unchanged', dd)
                for j, (c, (a, m)) in enumerate(zip(r['cols'], pairs)):
                    q = p['ports'][a - 1]
                    want = column(p, q, geo[k][a - 1], lib[a], m, E, H, p['tm'])
                    if not ray(got[:, j], want, 1e-6):
                        ctx.violate('each request is answered by its own port, mode and orientation', dict(dd, column=j, got=got[:, j], expected=want))
                    if c['exact']:
                        f = em.dqs(q['f'])
                        mode = np.asarray(lib[a].modes[m])
                        amp = em.dqs(c['s']) / (np.vdot(f, mode) / np.vdot(f, f))
                        ctx.count('exact amplitudes')
                        if not ray(got[:, j], amp, 1e-6):
                            ctx.violate('measured amplitudes of a known mode are exact', dict(dd, column=j, got=got[:, j], expected=amp))
            if kind == 'fdtd' or nd == 2 or rng.random() < .5:
                default = np.asarray(sim.get_measure_fn(profile_size_factor=fac, tm_2d=p['tm'], **wl)((E, H))) if not bad else None
                if default is not None:
                    want = [column(p, q, geo[k][a], sim.port_modes([nm], fac, **wl)[nm].io, 0, E, H, p['tm']) for a, (nm, q) in enumerate(zip(i['names'], p['ports']))]
                    if not (default.shape == (2, len(want)) and all(ray(default[:, j], want[j], 1e-6) for j in range(len(want)))):
                        ctx.violate('the default request is mode 0 of every port in order', dict(d, got=default, expected=want))
            placed(ctx, rng, sim, p, i, geo[k], lib, bad, fac, wl, d, nd)
        if kind == 'fdfd' and nd == 2 and not p['keep']:
            for _ in range(2):
                with Impl(ctx, 'scattering parameters', d):
                    sparams(ctx, rng, sim, p, i, fac, d)
        if ctx.full:
            return
    straight(ctx, rng)
    seeds(ctx, rng)


def sections(ctx, rng, p, i, geo, d):
    """a cross-section's modes are those of its own permittivity, and live at its pixels in its frame"""
    from simphox.sim import SimGrid
    from simphox.fdfd import FDFD
    from simphox.mode import ModeSolver, ModeLibrary
    s = np.array(i['spacing'])
    n = p['g']['n']
    lam = 2 * np.pi / em.dq(p['k0']).real
    eps = em.dqs(p['eps']).real.reshape(n)
    fd = rng.random() < .5
    kw = dict(size=tuple(n * s), spacing=tuple(s), eps=eps)
    sim = FDFD(wavelength=lam, **kw) if fd else SimGrid(**kw)
    for q, g in zip(p['ports'], geo):
        a, u = [(1, 2), (0, 2), (0, 1)][q['axis'] - 1]
        size = np.zeros(3)
        size[a], size[u] = q['n'] * s[a], q['m'] * s[u]
        center = np.array(q['c']) * s
        dd = dict(d, axis=q['axis'], center=center, size=size)
        sec = sim.modes(tuple(center), tuple(size), num_modes=2, **({} if fd and rng.random() < .5 else dict(wavelength=lam)))
        here = np.array(g['here']) - 1
        sh = (q['n'], q['m'])
        own = eps.ravel()[here].reshape(sh)
        ref = ModeLibrary(ModeSolver(tuple(np.array(sh) * s[[a, u]]), tuple(s[[a, u]]), eps=own, wavelength=lam), 2)
        ctx.count('behaviours'); ctx.count('sections')
        if not close(np.sort_complex(np.asarray(sec.io.betas)), np.sort_complex(np.asarray(ref.betas)), 1e-6 * (1 + np.abs(ref.betas).max())):
            ctx.violate("a section's modes are those of the permittivity at its pixels", dict(dd, got=sec.io.betas, expected=ref.betas))
            continue
        if sec.prop_axis != q['axis'] - 1:
            ctx.violate('a section is crossed along its own axis', dict(dd, got=sec.prop_axis))
        F = np.random.default_rng(rng.randrange(10 ** 6)).normal(size=(3, *n))
        if not close(np.sort(np.asarray(F[sec.slice(sim)]).ravel()), np.sort(F.reshape(3, -1)[:, here].ravel()), 1e-12):
            ctx.violate('a section slices its own pixels', dd)
        for m in (0, 1):
            prof = np.asarray(sec.io.e(m)).reshape(3, -1)
            want = np.zeros((3, int(np.prod(n))), complex)
            for c in range(3):
                want[g['frame'][c] - 1, here] = prof[c]
            got = np.asarray(sec.place(m, sim))
            if got.size != want.size or not close(got.reshape(3, -1), want, 1e-12 + 1e-9 * np.abs(want).max()):
                ctx.violate("a section's mode is placed at its pixels in its frame", dict(dd, mode=m))
                continue
            for jx in (False, True):
                back = np.asarray(sim.view_fn(tuple(center), tuple(size), use_jax=jx)(got)).reshape(3, -1)
                if back.shape != prof.shape or not close(back, prof, 1e-9 + 1e-6 * np.abs(prof).max()):
                    ctx.violate('viewing a placed mode gives the mode back', dict(dd, mode=m, jax=jx))


def placed(ctx, rng, sim, p, i, geo, lib, bad, fac, wl, d, nd):
    """sources are weighted sums of the ports' own sources, at their places"""
    s = i['spacing']
    N = int(np.prod(p['g']['n']))
    okp = [(a, m) for a, m in p['pairs'] if a not in bad]

    def source(a, m, uni):
        l = lib[a]
        q, g = p['ports'][a - 1], geo[a - 1]
        fr = g['frame']
        out = np.zeros((3, N) if nd == 3 else (1, N), complex)
        prof = np.asarray(l.e(m)).reshape(3, -1) if nd == 3 else np.asarray(l.modes[m])[None]
        if p['exact'] and m == q['rank']:      # the exact profile, with the solver's normalisation
            f = em.dqs(q['f'])
            prof = (np.vdot(f, prof[0]) / np.vdot(f, f) * f)[None]
        for c in range(3 if nd == 3 else 1):
            out[fr[c] - 1 if nd == 3 else 0, np.array(g['near']) - 1] += prof[c]
            if uni:
                out[fr[c] - 1 if nd == 3 else 0, np.array(g['far']) - 1] -= prof[c] * np.exp(-1j * s[q['axis'] - 1] * l.betas[m])
        return out
    for _ in range(8 if ctx.quick else 25):
        if not okp:
            return
        uni = rng.random() < .7
        how = rng.choice(['one', 'dict', 'dict', 'names', 'tuple', 'default'])
        if how == 'default':
            terms, arg = [(1, 0, 1)], None
        elif how == 'tuple':
            wts = tuple(rng.choice([1, 2, -.5, 1j]) for _ in p['ports'])
            terms, arg = [(a + 1, 0, x) for a, x in enumerate(wts)], wts
        elif how == 'names':
            ps = rng.sample(range(1, len(p['ports']) + 1), rng.randint(1, len(p['ports'])))
            terms = [(a, 0, rng.choice([1, -2, .5j])) for a in ps]
            arg = {i['names'][a - 1]: x for a, _, x in terms}
        else:
            ps = rng.sample(okp, 1 if how == 'one' else rng.randint(1, len(okp)))
            terms = [(a, m, rng.choice([1, 1, -2, .5j, 3 + 1j])) for a, m in ps]
            arg = {(i['names'][a - 1], m): x for a, m, x in terms}
        if any(a in bad or a not in lib or m >= lib[a].m for a, m, _ in terms):
            continue
        kw = {} if uni else dict(unidirectional=False)
        src = np.asarray(sim.port_source(arg, profile_size_factor=fac, **kw, **wl))
        ctx.count('behaviours'); ctx.count('sources')
        dd = dict(d, source=repr(arg), unidirectional=uni)
        if src.size != (3 if nd == 3 else 1) * N:
            ctx.violate('sources have the simulation\'s shape', dict(dd, shape=src.shape))
            continue
        A = np.stack([x * source(a, m, uni).ravel() for a, m, x in terms], 1)
        if np.any(src.ravel()[~np.any(A, 1)]):
            ctx.violate('sources are nonzero only at their ports', dd)
        ph, *_ = np.linalg.lstsq(A, src.ravel(), rcond=None)
        if np.linalg.cond(A) < 1e3 and np.abs(np.abs(ph) - 1).max() > 1e-5 or np.abs(A @ ph - src.ravel()).max() > 1e-6 * np.abs(A).max():
            ctx.violate('a source is the weighted sum of its ports\' sources', dict(dd, phases=ph, err=np.abs(A @ ph - src.ravel()).max()))


def sparams(ctx, rng, sim, p, i, fac, d):
    import jax.numpy as jnp
    import re
    okp = [(i['names'][a - 1], m) for a, m in p['pairs']]
    req = rng.sample(okp, rng.randint(1, len(okp)))
    src = rng.choice(req)
    note = spell(rng, req)
    try:
        f = sim.solve(sim.port_source({src: 1}, profile_size_factor=fac))
        o, n = sim.get_measure_fn(req, profile_size_factor=fac)(f)
        j = req.index(src)
        want = o / n[j]
        got, fields = sim.get_sim_sparams_fn(src[0], mode_idx=src[1], profile_size_factor=fac, measure_info=note)(jnp.array(sim.eps))
    except Exception as e:
        if 'perturbed pivot' in str(e):
            ctx.count('resonances skipped')
            return
        raise
    ctx.count('behaviours'); ctx.count('scattering parameters')
    dd = dict(d, source=src, request=repr(note))
    if np.abs(n[j]) < 1e-3 * np.abs([o, n]).max() or np.abs(f).max() > 1e4:
        ctx.count('resonances skipped')
        return
    if not (np.shape(got) == (len(req),) and close(np.abs(got), np.abs(want), 1e-5 * (1 + np.abs(want).max()))):
        ctx.violate('scattering parameters are outgoing amplitudes divided by the incident one, in order', dict(dd, got=np.abs(got), expected=np.abs(want)))
    if not ray(np.asarray(fields), f, 1e-5):
        ctx.violate('the simulated fields are those of the source', dict(dd, err=err(np.abs(fields), np.abs(f))))
    if abs(got[j] - want[j]) > 1e-5 * (1 + abs(want[j])):
        ctx.violate('the reflection of the source mode has no arbitrary phase', dict(dd, got=got[j], expected=want[j]))
    # the default source is the first of the measured pairs
    f1 = sim.get_sim_sparams_fn(profile_size_factor=fac, measure_info=note)
    if j:
        f = sim.solve(sim.port_source({req[0]: 1}, profile_size_factor=fac))
        o, n = sim.get_measure_fn(req, profile_size_factor=fac)(f)
    if np.abs(n[0]) > 1e-3 * np.abs([o, n]).max() and np.abs(f).max() < 1e4:
        got1 = np.asarray(f1(jnp.array(sim.eps))[0])
        ctx.count('default sources')
        if not (got1.shape == (len(req),) and close(np.abs(got1), np.abs(o / n[0]), 1e-5 * (1 + np.abs(o / n[0]).max()))):
            ctx.violate('scattering parameters are outgoing amplitudes divided by the incident one, in order', dict(dd, got=np.abs(got1), expected=np.abs(o / n[0]), source='default'))
    # FDFD.sparams uses the default profile size: rescale the ports instead
    from simphox.grid import Port
    old = sim.port
    sim.port = {k: Port(x.x, x.y, x.a, x.w * fac / 3) for k, x in old.items()}
    got2 = np.asarray(sim.sparams(src[0], src[1], spell(rng, req)))
    meas, field = sim.get_sim_fn(sim.port_source({src: 1}))(jnp.array(sim.eps))
    f2 = sim.solve(sim.port_source({src: 1}))
    m2 = np.asarray(sim.get_measure_fn()(f2))
    sim.port = old
    if np.abs(f2).max() < 1e4 and not (np.shape(meas) == m2.shape and close(np.abs(meas), np.abs(m2), 1e-5 * (1 + np.abs(m2).max())) and ray(np.asarray(field), f2, 1e-5)):
        ctx.violate('a simulation function measures mode 0 of every port in order', dict(dd, got=np.abs(meas), expected=np.abs(m2)))
    if not (got2.shape == (len(req),) and close(np.abs(got2), np.abs(want), 1e-5 * (1 + np.abs(want).max()))):
        ctx.violate('scattering parameters are outgoing amplitudes divided by the incident one, in order', dict(dd, got=np.abs(got2), expected=np.abs(want), fn='sparams'))


def straight(ctx, rng):
    """a straight waveguide passes its modes on, whichever way and along whichever axis"""
    from simphox.fdfd import FDFD
    from simphox.grid import Port
    for along in (0, 1):
        for core, w in rng.sample([(2., .6), (2., .8), (4., .5), (4., .8)], 1 if ctx.quick else 4):
            lam = rng.choice([1.55, 1.2, 2.])
            s = lam / 1.55 * .0775
            w *= lam / 1.55
            nx, ny = 84, 66
            eps = np.ones((nx, ny))
            c, hw = ny // 2, int(round(w / s / 2))
            eps[:, c - hw:c + hw] = core
            ports = dict(a=Port(0, c * s, 180, w), b=Port(nx * s, c * s, 0, w))
            if along:
                eps = eps.T.copy()
                ports = dict(a=Port(c * s, 0, 270, w), b=Port(c * s, nx * s, 90, w))
            d = dict(core=core, width=w, wavelength=lam, along=along)
            with Impl(ctx, 'a straight waveguide', d):
                sim = FDFD(tuple(np.array(eps.shape) * s), s, wavelength=lam, eps=eps, pml=(10 * s + 1e-9,) * 2)
                sim.port = ports
                order = rng.choice([['a', 'b'], ['b', 'a']])
                for src in 'ab':
                    m = sim.get_measure_fn(order)(sim.solve(sim.port_source({src: 2.})))
                    o, i = np.abs(m) / np.abs(m[1][order.index(src)])
                    far = 1 - order.index(src)
                    ctx.count('straight waveguides')
                    if not (.8 < o[far] < 1.2 and o[1 - far] < .3 and i[far] < .3):
                        ctx.violate('a straight waveguide passes on the mode its source excites', dict(d, source=src, outgoing=o, incoming=i))
                    sp = np.abs(sim.sparams(src, 0, order))
                    if not close(sp, o, 1e-4):
                        ctx.violate('scattering parameters are outgoing amplitudes divided by the incident one, in order', dict(d, source=src, got=sp, expected=o))


def seeds(ctx, rng):
    """measurements do not depend on the hash seed of the process"""
    outs = {}
    for seed in ('1', '2', '77') if ctx.quick else map(str, range(1, 9)):
        env = dict(os.environ, PYTHONHASHSEED=seed)
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'harness', 'seeded_ports.py')], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        if r.returncode:
            ctx.violate('measuring: raises', dict(seed=seed, stderr=r.stderr[-400:]))
            return
        outs[seed] = json.loads(r.stdout.strip().split('\n')[-1])
        ctx.count('processes')
    first = next(iter(outs.values()))
    for s, o in outs.items():
        for k in first:
            if not (k in o and close(np.array(o[k]), np.array(first[k]), 1e-6 * (1 + np.abs(first[k]).max()))):
                ctx.violate('measurements are independent of the hash seed', dict(seed=s, what=k, got=o.get(k), expected=first[k]))
