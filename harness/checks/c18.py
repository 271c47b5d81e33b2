"""C18: time stepping is the exact leapfrog of Maxwell's equations."""
import numpy as np
from harness.core import Impl, tlc, close, err
from harness import em

META = dict(level='model_checking', technique='TLA+ (Leap.tla over Yee.tla) exact leapfrog: charge, magnetic divergence, energy, light cone and reversibility as invariants of every step; each state is replayed by the real stepper (NumPy and JAX)',
            note='TLC steps planned grids (1-3 dimensions, unequal pixels, non-uniform permittivity) exactly, with scheduled electric and magnetic sources on regions, and checks the conservation laws on its own behaviours; FDTD.step must reproduce every state from the previous one and from the start, in pieces or in one run, leaving its arguments unchanged. Steps of non-uniform permittivity are bounded by TLC\'s 32-bit integers (2 steps), uniform ones run 5.',
            rule='one behaviour per grid, initial state and source schedule',
            assumptions=['boundaries are periodic: the FDTD constructor takes no Bloch phase'])


def regions(rng, sh):
    """a random region of the field array (3, *sh) as a tuple of slices / integers"""
    out = []
    for n in (3, *sh):
        k = rng.random()
        if k < .25:
            out.append(slice(None))
        elif k < .5:
            out.append(rng.randrange(n))
        else:
            a = rng.randrange(n)
            out.append(slice(a, rng.randint(a + 1, n)))
    return tuple(out)


def run(ctx):
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as jnp
    from simphox.fdtd import FDTD
    rng = ctx.rng
    Fr = em.Fr
    plan, info = [], []
    per = 7 if ctx.quick else 50
    for ndim in (1, 2, 3):
        for k in range(per):
            shape = rng.choice({1: [(5, 1, 1), (8, 1, 1), (3, 1, 1), (2, 1, 1)], 2: [(3, 4, 1), (4, 3, 1), (5, 5, 1), (1, 5, 1), (2, 3, 1)], 3: [(3, 2, 3), (2, 3, 4), (3, 3, 3), (1, 3, 4), (3, 4, 1), (4, 1, 3)]}[ndim])
            g, gi = em.grid(rng, ndim, shape=shape, bloch=False, winv=(1, 2))
            w = [Fr(x[0], x[2]) for x in g['w'][:ndim]]
            T = 1 / sum(x * x for x in w)
            N = em.size_of(g)
            uniform = k % 3 == 0
            eps = [em.q(rng.choice([1, 2, 4]))] * N if uniform else em.eps_cells(rng, g['n'], (1, 3))
            m = 2
            cone = k % 4 == 1
            if cone:
                z = rng.randrange(3 * N)
                e = [[em.q(0)] * N for _ in range(3)]
                h = [[em.q(0)] * N for _ in range(3)]
                (e if rng.random() < .6 else h)[z // N][z % N] = em.q(1, 1)
            else:
                e, h = [em.ints(rng, N, m) for _ in range(3)], [em.ints(rng, N, m) for _ in range(3)]
            steps = (4 if ctx.quick else 5) if uniform and T.denominator < 6 else (3 if uniform else 2)
            sched, regs = [], []
            idx = np.arange(3 * N).reshape(3, *g['n'])
            quiet = cone or k % 4 == 3
            for s in range(steps):
                ss, rr = [], []
                for _ in range(0 if quiet else rng.choice([0, 1, 1, 2, 3])):
                    reg = regions(rng, g['n'])
                    at = idx[reg].reshape(-1)
                    kind = rng.choice(['j', 'm', 'jm', 'jm'])
                    ss.append(dict(at=[[int(x) // N + 1, int(x) % N + 1] for x in at], j=em.ints(rng, at.size, m) if 'j' in kind else [], m=em.ints(rng, at.size, m) if 'm' in kind else []))
                    rr.append(reg)
                sched.append(ss); regs.append(rr)
            plan.append(dict(g=g, ndim=ndim, eps=eps, e=e, h=h, T=em.qf(T), sched=sched, cone=cone, edepth=3 if uniform and T.denominator < 6 else 1, bdepth=2 if uniform else 1))
            info.append(dict(gi, T=float(T), regs=regs))
    recs, _ = tlc('Leap', plan, invariants=['Courant', 'ChargeKept', 'MagneticKept', 'EnergyKept', 'LightCone', 'Reversible'], properties=['Balance'], timeout=800)
    states = {(r['pi'], r['n']): r for r in recs}
    for k, (p, gi) in enumerate(zip(plan, info)):
        sh = tuple(p['g']['n'])
        dt = np.sqrt(gi['T'])
        eps = em.dqs(p['eps']).real.reshape(gi['shape'])
        d = dict(grid={x: gi[x] for x in ('shape', 'spacing')}, eps=eps, steps=len(p['sched']))
        ctx.count('behaviours'); ctx.sample(d)
        exact = [(em.dqs(p['e']).reshape(3, *sh), dt * em.dqs(p['h']).reshape(3, *sh))]
        for n in range(1, len(p['sched']) + 1):
            r = states[k + 1, n]
            exact.append((em.dqs(r['e']).reshape(3, *sh), dt * em.dqs(r['h']).reshape(3, *sh)))
        for jx in (False, True):
            dd = dict(d, jax=jx)
            with Impl(ctx, 'building a simulation', dd):
                kw = em.kwargs(gi, rng, bloch=False)
                if rng.random() < .3:       # reach the permittivity by edits, after stepping once
                    F = FDTD(eps=np.ones(gi['shape']), use_jax=jx, **kw)
                    F.step(F.zero_state, [])
                    F.eps[...] = eps
                else:
                    F = FDTD(eps=eps.copy(), use_jax=jx, **kw)
                if abs(F.dt - dt) > 1e-12 * dt:
                    ctx.violate('the time step is the Courant limit', dict(dd, dt=F.dt, expected=dt))
                    continue
                xp = jnp if jx else np
                z = F.zero_state
                if not (np.shape(z[0]) == np.shape(z[1]) == (3, *sh) and not np.any(z[0]) and not np.any(z[1]) and z[2] is None and z[3] is None):
                    ctx.violate('the initial state is empty', dd)
                # a source-free empty simulation stays empty
                z1 = F.step(z, [])
                if np.any(z1[0]) or np.any(z1[1]):
                    ctx.violate('nothing appears without sources', dd)

                def sources(n):
                    out = []
                    for s, reg in zip(p['sched'][n], gi['regs'][n]):
                        shape = np.empty((3, *sh))[reg].shape
                        val = lambda key, c: c * em.dqs(s[key]).reshape(shape) if s[key] else None
                        J, M = val('j', dt), val('m', 1 / 1)
                        # H' = H - M and h = dt H: h loses dt M
                        how = rng.choice(['plain', 'squeezed', 'xp'])
                        if how != 'plain':
                            J, M = (None if x is None else (np.squeeze(x) if how == 'squeezed' else xp.array(x)) for x in (J, M))
                        out.append((J, M, reg))
                    return out
                chain = (xp.array(exact[0][0]), xp.array(exact[0][1]), None, None)
                for n in range(len(p['sched'])):
                    single = (xp.array(exact[n][0]), xp.array(exact[n][1]), None, None)
                    S = sources(n)
                    before = [np.array(x) for s in S for x in s[:2] if x is not None]
                    for what, st in (('one step', single), ('a run of steps', chain)):
                        s0 = (np.array(st[0]), np.array(st[1]))
                        r = F.step(st, S)
                        ctx.count('steps')
                        scale = 1 + max(np.abs(exact[n + 1][0]).max(), np.abs(exact[n + 1][1]).max())
                        if not (close(r[0], exact[n + 1][0], 1e-11 * scale) and close(r[1], exact[n + 1][1], 1e-11 * scale)):
                            ctx.violate(f'{what} is the leapfrog update', dict(dd, step=n, err=[err(r[0], exact[n + 1][0]), err(r[1], exact[n + 1][1])], sources=len(S)))
                        if not (np.array_equal(st[0], s0[0]) and np.array_equal(st[1], s0[1])):
                            ctx.violate('stepping leaves the given state unchanged', dd)
                        if what == 'one step' and rng.random() < .3:
                            r2 = F.step(st, S)
                            if not (np.array_equal(r[0], r2[0]) and np.array_equal(r[1], r2[1])):
                                ctx.violate('stepping depends only on the state and the sources', dd)
                        if what == 'one step' and rng.random() < .3:     # linear: a power of two factors out exactly
                            f = 2.0 ** rng.choice([-60, -30, 30])
                            r2 = F.step((st[0] * f, st[1] * f, None, None), [(None if j is None else j * f, None if m is None else m * f, reg) for j, m, reg in S])
                            if not (close(r2[0] / f, exact[n + 1][0], 1e-11 * scale) and close(r2[1] / f, exact[n + 1][1], 1e-11 * scale)):
                                ctx.violate('one step of faint or strong fields is the leapfrog update', dict(dd, step=n, times=f, sources=len(S)))
                        if what != 'one step':
                            chain = r
                    after = [np.array(x) for s in S for x in s[:2] if x is not None]
                    if not all(np.array_equal(a, b) for a, b in zip(before, after)):
                        ctx.violate('stepping leaves the sources unchanged', dd)
                if not np.array_equal(F.eps, eps):
                    ctx.violate('stepping leaves the permittivity unchanged', dd)
        if ctx.full:
            return
    for k in range(4 if ctx.quick else 20):
        cw_run(ctx, FDTD, xp=(np, jnp)[k % 2])


def cw_run(ctx, FDTD, xp):
    """Runs with a harmonic port source are sequences of steps: linear, local, harmonic, and reported after every step."""
    from simphox.grid import Port
    rng = ctx.rng
    nd = rng.choice([2, 2, 3])
    sh = (rng.choice([12, 14]), rng.choice([10, 12])) if nd == 2 else (9, 9, 8)
    s = rng.choice([.25, .2, .5])
    core = rng.choice([4., 6., 12.])
    eps = np.ones(sh)
    mid = sh[1] // 2
    if nd == 2:
        eps[:, mid - 1:mid + 1] = core
    else:
        eps[:, mid - 2:mid + 1, 3:5] = core
    lam = rng.choice([1.55, 1.2, 2.]) * s * 4
    port = dict(a0=Port(3 * s, mid * s, 180, 2 * s, 4 * s, 2 * s if nd == 3 else 0), b0=Port((sh[0] - 3) * s, mid * s, 0, 2 * s, 4 * s, 2 * s if nd == 3 else 0))
    tm = nd == 3 or bool(rng.getrandbits(1))
    d = dict(shape=sh, spacing=s, core=core, wavelength=lam, jax=xp is not np, tm=tm)
    with Impl(ctx, 'a run with a port source', d):
        F = FDTD(tuple(n * s for n in sh), s, eps=eps, use_jax=xp is not np)
        F.port = port
        kw = dict(wavelength=lam, profile_size_factor=2, source_port=rng.choice(['a0', ['a0'], [('a0', 0)], {'a0': 1.0}]), tm_2d=tm)
        N = 4
        runs = [F.run_cw_port(n, **kw) for n in range(N + 1)]
        st = [tuple(np.asarray(x) for x in r[1][:2]) for r in runs]
        fl = [np.asarray(r[0]) for r in runs]
        ctx.count('steps of port runs', N)
        sc = max(np.abs(st[N][0]).max(), np.abs(st[N][1]).max())
        if not sc > 0:
            ctx.violate('a port source excites fields', d)
        if nd == 2:      # two uncoupled polarisations: (Ex, Ey, Hz) and (Ez, Hx, Hy)
            other = [st[N][0][2], st[N][1][0], st[N][1][1]] if tm else [st[N][0][0], st[N][0][1], st[N][1][2]]
            if max(np.abs(x).max() for x in other) > 1e-12 * sc:
                ctx.violate('a port source excites the requested polarisation only', d)
        fa = [np.abs(f) for f in fl]        # every run solves the modes anew, up to a phase
        if [len(f) for f in fa] != list(range(1, N + 2)) or not all(close(fa[n], fa[N][:n + 1], 1e-7 * (1 + fa[N].max())) for n in range(N)):
            ctx.violate('a run reports the fluxes before the first and after every step', d)
        if not fa[N].max() > 1e-9 * sc:
            ctx.violate('a run measures the polarisation it excites', dict(d, fluxes=fa[N]))
        w = 2 * np.pi / lam
        arr = lambda x: (xp.array(x[0]), xp.array(x[1]), None, None)
        flat = lambda x: np.concatenate([np.asarray(x[0]).ravel(), np.asarray(x[1]).ravel()])
        acc = 1
        for n in range(1, N):
            A = np.stack([flat(F.step(arr(st[n]), [])), flat(st[1])], 1)
            (u, v), *_ = np.linalg.lstsq(A, flat(st[n + 1]), rcond=None)
            acc *= u
            res = np.abs(A @ np.array([u, v]) - flat(st[n + 1])).max()
            if not (res < 1e-7 * sc and abs(abs(u) - 1) < 1e-5 and abs(v / acc - np.exp(1j * n * w * F.dt)) < 1e-5):
                ctx.violate('a harmonic run is a sequence of steps with the oscillating source', dict(d, step=n, residual=res, u=u, v=v / acc))
                break
        cs = (slice(None),) + F.slice(port['a0'].xyz, tuple(port['a0'].size * 2))
        mask = np.zeros(F.field_shape, bool)
        mask[cs] = True
        if np.any(st[1][0][~mask]):
            ctx.violate('sources act at their locations', d)
        r = np.random.default_rng(ctx.rng.randrange(10 ** 6))
        ini = tuple(r.normal(size=F.field_shape) + 1j * r.normal(size=F.field_shape) for _ in range(2))
        a0 = arr(ini)
        f1, s1 = F.run_cw_port(2, initial_state=a0, **kw)
        free = F.step(F.step(arr(ini), []), [])
        x, y = flat(s1) - flat(free), flat(st[2])
        kap = np.vdot(y, x) / np.vdot(y, y)
        if not (abs(abs(kap) - 1) < 1e-5 and np.abs(x - kap * y).max() < 1e-7 * (sc + 10)):
            ctx.violate('a run from an intermediate state continues it', d)
        if not all(np.array_equal(np.asarray(a0[i]), ini[i]) for i in (0, 1)):
            ctx.violate('a run leaves its initial state unchanged', d)
        m = F.get_measure_fn(wavelength=lam, profile_size_factor=2, use_jax=xp is not np, tm_2d=tm)
        if not close(np.abs(f1[0]), np.abs(m(arr(ini)[:2])), 1e-7 * (1 + np.abs(np.asarray(f1[0])).max())):
            ctx.violate('the first reported flux is that of the initial state', d)
        mid_h = [(st[n - 1][1] + st[n][1]) / 2 for n in range(1, N + 1)]
        if not all(close(fa[N][n], np.abs(m((xp.array(st[n][0]), xp.array(mid_h[n - 1])))), 1e-7 * (1 + fa[N].max())) for n in range(1, N + 1)):
            ctx.violate('fluxes are measured on synchronised fields', d)
