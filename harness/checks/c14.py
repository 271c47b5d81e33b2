"""C14: every derived quantity reflects the current permittivity and wavelength."""
import numpy as np
from harness.core import Impl, tlc, close, err
from harness import em

META = dict(level='model_checking', technique='TLA+ (Fresh.tla): TLC enumerates the interleavings of permittivity and wavelength edits with queries, with the exact permittivity and exact answers after each; the real simulation replays every interleaving and is compared with them and with a freshly built simulation',
            note='Worlds are 2D and 3D frequency-domain simulations (with and without absorbing layers), 1D-3D time-domain ones and 1D/2D mode solvers. All interleavings of the shape query-edit-query and shorter are replayed, longer ones by TLC simulation. Exact answers cover grid-averaged permittivity, operators, field conversions and update rates; solves, modes, port sources, measurements and s-parameters are compared with a simulation built from the exact permittivity.',
            rule='one behaviour per interleaving of edits and queries',
            assumptions=['mode profiles are compared up to a phase, and only when the mode is not degenerate'])


class Q:
    """canonical answers of a simulation; each is a list of (kind, array)"""

    def __init__(self, sim, w):
        self.s, self.w = sim, w

    def rand(self, n, seed=7):
        r = np.random.default_rng(seed)
        return r.normal(size=n) + 1j * r.normal(size=n)

    def ask(self, what):
        from simphox.mode import ModeLibrary, ModeSolver
        from simphox.fdfd import FDFD
        import jax.numpy as jnp
        s, w = self.s, self.w
        F = w['f']
        if what == 'eps_t':
            return [('=', s.eps_t)]
        if what == 'mat_ez':
            return [('=', s.mat_ez @ F[2].ravel())]
        if what == 'mat_hz':
            return [('=', s.mat_hz @ F[2].ravel())]
        if what == 'mat':
            return [('=', s.mat @ F.ravel())]
        if what == 'A':
            return [('=', s.A @ F.ravel())]
        if what == 'h2e':
            return [('=', s.h2e(F))]
        if what == 'e2h':
            return [('=', s.e2h(F))]
        if what == 'rate':
            st = s.step((s.xp.zeros(s.field_shape, complex), s.xp.array(F), None if s.pml_shape is None else s.zero_state[2], None if s.pml_shape is None else s.zero_state[3]), [])
            return [('=', np.asarray(st[0]) / s.dt)]
        if what == 'stepping':
            z = s.zero_state
            st = (s.xp.array(F), s.xp.array(F[::-1]), z[2], z[3])
            for _ in range(3):
                st = s.step(st, [])
            return [('=', np.asarray(st[0])), ('=', np.asarray(st[1]))]
        if what == 'mode':
            return [('=', s.C @ np.concatenate([F[c].ravel() for c in range(s.ndim)]))]
        if what in ('solve_tm', 'solve_te'):
            return [('=', s.solve(self.rand(s.n), tm_2d=what == 'solve_tm'))]
        if what == 'solve':
            return [('=', s.solve(self.rand(3 * s.n)))]
        if what in ('fields_tm', 'fields_te'):
            return [('=', np.asarray(s.get_fields_fn(self.rand(s.n), tm_2d=what == 'fields_tm')(jnp.array(s.eps))))]
        if what == 'modesolve':
            b, m = s.solve(1)
            return [('=', b), ('~', m[0])]
        if what == 'library':
            l = ModeLibrary(s, 1)
            return [('=', l.betas), ('=', l.n(0)), ('~', l.h(0)), ('~', l.e(0)), ('abs', l.sz(0) if s.ndim == 2 else l.beta(0))]
        if what == 'kept':        # a library made with the simulation, refreshed
            l = s.kept.update_wavelength(s.wavelength)
            return [('=', l.betas), ('~', l.h(0)), ('~', l.e(0)), ('=', l.n(0))]
        if what == 'sweep':
            return [('=', b) for b, _ in s.dispersion_sweep([1.5, 1.9], 1)] + [('=', s.wavelength)]
        kw = dict(profile_size_factor=w['factor'])
        if what == 'modes':
            p = s.port['a']
            m = s.modes(p.xyz, tuple(p.size * w['factor']), num_modes=1)
            return [('=', m.io.betas), ('~', m.io.h(0))]
        if what == 'port_modes':
            ms = s.port_modes(['b', 'a'], w['factor'])
            return [('=', m.io.betas) for m in ms.values()] + [('~', m.io.e(0)) for m in ms.values()]
        if what == 'port_source':
            return [('~', s.port_source({'a': 1.5}, **kw)), ('~', s.port_source({'b': 1j}, **kw))]
        if what == 'measure':
            return [('abs', np.asarray(s.get_measure_fn(**kw)((F, F[::-1]))))]
        if what == 'sim_fn':
            m, f = s.get_sim_fn(self.rand(s.n))(jnp.array(s.eps))
            return [('=', np.asarray(f))]
        if what == 'sparams':
            return [('abs', np.asarray(s.get_sim_sparams_fn('a', profile_size_factor=w['factor'])(jnp.array(s.eps))[0]))]
        if what == 'derived':
            d = FDFD.from_simgrid(s, w['lams'][1])
            r = [('=', d.eps_t), ('=', d.mat @ F.ravel())]
            d.eps[...] = 3.
            d.fill(0, 2.)
            return r
        if what == 'copy':
            return [('=', np.asarray(s.eps).copy())]
        raise KeyError(what)


def ask(sim, w, what):
    import re
    try:
        return Q(sim, w).ask(what)
    except Exception as e:
        if re.search('perturbed pivot', str(e)):      # the solver refuses resonant problems
            return [('refused', np.zeros(1))]
        raise


def same(kind, a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    sc = 1e-7 * (1 + np.abs(b).max(initial=0))
    if kind == '=':
        return close(a, b, sc)
    if kind == 'abs':
        return close(np.abs(a), np.abs(b), sc)
    z = np.vdot(b, a)
    z = z / abs(z) if abs(z) > 0 else 1
    return close(a, z * b, 20 * sc)


def worlds(rng, quick):
    from simphox.grid import Port
    out = []
    for kind in ('fdfd2', 'fdfd2pml', 'fdfd3', 'fdtd', 'fdtdpml', 'mode1', 'mode2', 'fdfd2b', 'fdtd3', 'fdfd2l'):
        ndim = {'fdfd3': 3, 'fdtd3': 3, 'mode1': 1}.get(kind, 2)
        shape = {'fdfd2': (6, 8, 1), 'fdfd2b': (7, 6, 1), 'fdfd2l': (6, 5, 1), 'fdfd2pml': (12, 10, 1), 'fdfd3': (5, 4, 4), 'fdtd': (6, 7, 1), 'fdtdpml': (11, 10, 1), 'fdtd3': (4, 4, 3), 'mode1': (7, 1, 1), 'mode2': (5, 4, 1)}[kind]
        iso = kind not in ('mode2', 'fdtd3')
        g, gi = em.grid(rng, ndim, shape=shape, bloch=kind == 'fdfd2b', iso=iso, winv=(2, 4) if not kind.startswith('mode') else (1, 2))
        N = em.size_of(g)
        eps = em.eps_cells(rng, g['n'], (1, 3, 5))
        lo, hi = [], []
        for n in g['n']:
            a = rng.randrange(n)
            lo.append(a); hi.append(rng.randint(a + 1, n))
        pk = [rng.randrange(n) for n in g['n']]
        lo2, hi2 = [], []
        for n in g['n']:
            a = rng.randrange(n)
            lo2.append(a); hi2.append(rng.randint(a + 1, n))
        edits = [dict(op='box', lo=lo, hi=hi, v=em.q(rng.choice([2, 4, 7]))),
                 dict(op='poke', lo=pk, hi=[x + 1 for x in pk], v=em.q(rng.choice([6, 9]))),
                 dict(op='assign', eps=em.eps_cells(rng, g['n'], (2, 3, 8))),
                 dict(op='fill', rows=rng.randint(1, shape[ndim - 1] - 1), v=em.q(rng.choice([2, 5]))),
                 dict(op='slice', lo=lo2, hi=hi2, v=em.q(3, 0, 2)),
                 dict(op='scale', v=em.q(2)),
                 dict(op='writeall', eps=em.eps_cells(rng, g['n'], (1, 4, 6))),
                 dict(op='fillall', v=em.q(2)),
                 dict(op='roll', axis=rng.randint(1, ndim))]
        if kind == 'fdfd2l':                 # edits with lossy materials, in a simulation that begins without
            for ed in edits:
                if ed['op'] in ('box', 'fill', 'fillall'):
                    ed['v'] = em.q(em.dq(ed['v']).real.__int__(), rng.choice([-1, 1]))
                elif ed['op'] == 'assign':
                    ed['eps'] = [em.q(int(em.dq(x).real), rng.choice([0, -1, 1])) for x in ed['eps']]
        k0 = [em.q(rng.choice([4, 5])), em.q(6), em.q(7, 0, 2)]
        if not kind.startswith('fdtd'):
            edits += [dict(op='wavelength', k=2), dict(op='wavelength', k=3), dict(op='wavelength', k=1)]
        queries = {'fdfd2': ['eps_t', 'mat_ez', 'mat_hz', 'mat', 'h2e', 'e2h', 'solve_tm', 'solve_te', 'fields_tm', 'fields_te', 'modes', 'port_modes', 'port_source', 'measure', 'sparams', 'derived', 'A', 'sim_fn'],
                   'fdfd2b': ['eps_t', 'mat_ez', 'mat_hz', 'mat', 'h2e', 'solve_tm', 'solve_te', 'derived'],
                   'fdfd2l': ['eps_t', 'mat_ez', 'mat_hz', 'mat', 'h2e', 'solve_tm', 'solve_te', 'fields_tm', 'fields_te', 'derived'],
                   'fdfd2pml': ['eps_t', 'mat_ez', 'mat_hz', 'mat', 'h2e', 'solve_tm', 'solve_te', 'fields_tm', 'fields_te', 'derived'],
                   'fdfd3': ['eps_t', 'mat', 'h2e', 'solve', 'modes', 'port_source'],
                   'fdtd': ['eps_t', 'rate', 'stepping', 'modes', 'measure', 'port_source', 'derived'],
                   'fdtd3': ['eps_t', 'rate', 'stepping', 'derived'],
                   'fdtdpml': ['eps_t', 'stepping', 'rate'],
                   'mode1': ['eps_t', 'mode', 'modesolve', 'library', 'sweep', 'copy', 'kept'],
                   'mode2': ['eps_t', 'mode', 'modesolve', 'library', 'sweep', 'h2e', 'kept']}[kind]
        f = [em.ints(rng, N, 3) for _ in range(3)]
        s = gi['spacing'][0]
        port = {}
        if ndim == 2:
            port = dict(a=Port(2 * s, 3 * s, 180, 2 * s), b=Port(4 * s, 4 * s, 0, 2 * s))
        if ndim == 3:
            port = dict(a=Port(2 * s, 2 * s, 180, 2 * s, 2 * s, 1 * s), b=Port(3 * s, 2 * s, 0, 2 * s, 2 * s, 1 * s))
        out.append((dict(g=g, ndim=ndim, eps=eps, edits=edits, queries=queries, k0=k0, f=f, depth=3),
                    dict(gi, kind=kind, port=port, factor=2 if ndim == 2 else 1.5, lams=[2 * np.pi / em.dq(k).real for k in k0], f=em.dqs(f).reshape(3, *g['n']),
                         pml=4 * s if kind.endswith('pml') else None, jax=rng.random() < .5)))
    return out


def build(p, w, eps, lam):
    from simphox.fdfd import FDFD
    from simphox.fdtd import FDTD
    from simphox.mode import ModeSolver
    kw = em.kwargs(w, None, bloch=w['kind'] == 'fdfd2b')
    kw['eps'] = eps.copy()
    if w['pml']:
        kw['pml'] = (w['pml'],) * p['ndim']
    if w['kind'].startswith('fdfd'):
        sim = FDFD(wavelength=lam, **kw)
    elif w['kind'].startswith('fdtd'):
        sim = FDTD(use_jax=w['jax'], **kw)
    else:
        from simphox.mode import ModeLibrary
        sim = ModeSolver(wavelength=lam, **kw)
        sim.kept = ModeLibrary(sim, 1)
        return sim
    sim.port = dict(w['port'])
    return sim


def value(x):
    x = np.complex128(em.dq(x))
    return x if x.imag else float(x.real)


def edit(sim, p, w, ed):
    sp = np.array(list(w['spacing']) + [1.] * (3 - p['ndim']))
    op = ed['op']
    shape = tuple(w['shape'])
    if op == 'box':
        lo, hi = np.array(ed['lo']), np.array(ed['hi'])
        n = hi - lo
        sim.set_eps(tuple((lo + n // 2) * sp), tuple(n * sp), value(ed['v']))
    elif op == 'poke':
        sim.eps[tuple(ed['lo'][:p['ndim']])] = em.dq(ed['v']).real
    elif op == 'slice':
        sim.eps[tuple(slice(a, b) for a, b in zip(ed['lo'][:p['ndim']], ed['hi']))] = em.dq(ed['v']).real
    elif op == 'assign':
        sim.eps = em.real_if(em.dqs(ed['eps'])).reshape(shape)
    elif op == 'roll':       # the same values elsewhere: no total changes
        sim.eps[...] = np.roll(sim.eps, 1, ed['axis'] - 1)
    elif op == 'writeall':
        sim.eps[...] = em.dqs(ed['eps']).real.reshape(shape)
    elif op == 'scale':
        sim.eps *= em.dq(ed['v']).real
    elif op == 'fill':
        sim.fill(ed['rows'] * sp[p['ndim'] - 1], value(ed['v']))
    elif op == 'fillall':
        sim.fill(0, value(ed['v']))
    elif op == 'wavelength':
        sim.wavelength = w['lams'][ed['k'] - 1]


def run(ctx):
    import jax
    jax.config.update('jax_enable_x64', True)
    rng = ctx.rng
    ws = worlds(rng, ctx.quick)
    if not ctx.quick:
        for _ in range(2):
            ws += worlds(rng, False)
    plan = [w[0] for w in ws]
    recs, _ = tlc('Fresh', plan, invariants=['LastEdits', 'LastWavelength', 'Averages'], properties=['QueriesPure'], timeout=800)
    long = [dict(p, depth=8) for p in plan]
    recs2, _ = tlc('Fresh', long, invariants=['LastEdits', 'LastWavelength'], simulate=60 if ctx.quick else 400, depth=9, seed=ctx.seed, timeout=800, workers=1)
    exact = {}        # exact answers and permittivity after each history
    for r in recs + recs2:
        exact[r['pi'], tuple(r['hist'])] = r
    short = {}
    for r in recs:
        short.setdefault(r['pi'], []).append(tuple(r['hist']))
    maxi = {h for (i, h) in [(r['pi'], tuple(r['hist'])) for r in recs2] for h in [(i, h)]}
    prefixes = {(i, h[:m]) for i, h in maxi for m in range(1, len(h))}
    maxi = sorted(maxi - prefixes)
    todo = []
    for i, hs in sorted(short.items()):
        qe = sorted(h for h in hs if len(h) == 3 and h[0] < 0 and h[1] > 0)        # a query, an edit, a query
        ee = sorted(h for h in hs if len(h) == 3 and h[0] > 0 and h[1] > 0)
        same_q = [h for h in qe if h[0] == h[2]]
        rest = [h for h in qe if h[0] != h[2]]
        rng.shuffle(rest); rng.shuffle(ee)
        todo += [(i, h) for h in same_q + rest[:60 if ctx.quick else 400] + ee[:25 if ctx.quick else 150]]
    todo += maxi
    fresh = {}

    def answer(i, eps, k, what):
        key = (i, eps.tobytes(), k, what)
        if key not in fresh:
            p, w = ws[i - 1]
            if what == 'derived':        # a conversion is the simulation one would build directly
                sim = build(p, dict(w, kind=w['kind'].replace('fdtd', 'fdfd')), eps, w['lams'][1])
                fresh[key] = [('=', sim.eps_t), ('=', sim.mat @ w['f'].ravel())]
            else:
                sim = build(p, w, eps, w['lams'][k - 1])
                fresh[key] = ask(sim, w, what)
        return fresh[key]

    def degenerate(i, eps, k):
        """is some mode of the ports (or of the cross-section) close to another one?"""
        p, w = ws[i - 1]
        key = (i, eps.tobytes(), k, 'gap')
        if key not in fresh:
            sim = build(p, w, eps, w['lams'][k - 1])
            bad = False
            for m in ([(sim, None)] if w['kind'].startswith('mode') else [(sim, x) for x in sim.port.values()]):
                if m[1] is None:
                    C = m[0].C
                else:
                    from simphox.mode import ModeSolver
                    e = sim.eps.reshape(sim.shape3)[sim.slice(m[1].xyz, tuple(m[1].size * w['factor']))].squeeze()
                    C = ModeSolver(tuple(np.array(e.shape) * sim.spacing[0]), sim.spacing[0], getattr(sim, 'wavelength', 1.55), e).C
                v = np.sort(np.linalg.eigvals(C.toarray()).real)[::-1]
                bad = bad or v[0] - v[1] < 1e-3 * (abs(v[0]) + v[0] - v[-1])
            fresh[key] = bad
        return fresh[key]
    MODAL = {'modesolve', 'library', 'kept', 'modes', 'port_modes', 'port_source', 'measure', 'sparams'}
    SOLVES = {'solve_tm', 'solve_te', 'solve', 'fields_tm', 'fields_te', 'sim_fn', 'sparams'}
    for i, h in todo:
        p, w = ws[i - 1]
        names = [p['edits'][x - 1]['op'] if x > 0 else p['queries'][-x - 1] for x in h]
        d = dict(kind=w['kind'], history=names, shape=w['shape'], spacing=w['spacing'])
        with Impl(ctx, 'edits and queries', d):
            eps = em.dqs(p['eps']).real.reshape(w['shape'])
            sim = build(p, w, eps, w['lams'][0])
            for m, x in enumerate(h):
                if x > 0:
                    edit(sim, p, w, p['edits'][x - 1])
                    continue
                r = exact.get((i, h[:m + 1]))
                what = p['queries'][-x - 1]
                if r is None:
                    continue
                want = em.real_if(em.dqs(r['eps'])).reshape(w['shape'])
                if what in MODAL and degenerate(i, want, r['k']):
                    ctx.count('degenerate modes skipped')
                    continue
                got = ask(sim, w, what)
                ctx.count('queries after edits')
                if not np.array_equal(sim.eps, want):
                    ctx.violate('queries leave the permittivity unchanged, edits change what they cover', dict(d, at=m, query=what, err=err(sim.eps, want)), key='permittivity')
                    break
                ref = answer(i, want, r['k'], what)
                if ref[0][0] == 'refused' or (what in SOLVES and max(np.abs(b[1]).max() for b in ref) > 1e4):
                    ctx.count('resonances skipped')
                elif not all(a[0] == b[0] and same(a[0], a[1], b[1]) for a, b in zip(got, ref)):
                    ctx.violate(f'{what} is that of a freshly built simulation', dict(d, at=m, err=[err(a[1], b[1]) for a, b in zip(got, ref)]))
                if r['ans'] and not (what == 'rate' and w['pml']) and not (what in ('mat', 'mat_ez', 'h2e', 'e2h') and w['pml']):
                    ex = em.dqs(r['ans'])
                    val = np.asarray(got[0][1])
                    if not close(val.ravel(), ex.ravel(), 1e-9 * (1 + np.abs(ex).max())):
                        ctx.violate(f'{what} is the exact one of the current permittivity and wavelength', dict(d, at=m, err=err(val.ravel(), ex.ravel())))
        ctx.count('behaviours')
        if ctx.full:
            return
