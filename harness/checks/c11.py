"""C11: every cell's permittivity is the last edit that covers it; masks, slices and views agree."""
import numpy as np
from harness.core import Impl, tlc, close
from harness import core

META = dict(level='model_checking', technique='TLA+ (Grid.tla) exhaustive edit histories to a depth bound, replayed on real grids',
            note='TLC explores all histories of edits up to the depth bound over several grids (1-3 dimensions, unequal pixel sizes, one-pixel axes, boxes reaching over the edges) with the last-writer invariant; every history is replayed on the real grid and compared cell by cell; boxes are compared through mask, mask_fn, slice and view_fn. Rounding ties are excluded from the exact comparison and checked for consistency between these functions only.',
            rule='one behaviour per edit history; boxes compared per plan',
            assumptions=['component masks come from a duck-typed component (dphox is not installed)'])


class FakePattern:
    """stand-in for a dphox component: bounds, an xy mask and ports"""
    def __init__(self, mask, bounds, port):
        self._m, self.bounds, self.port = mask, bounds, port

    def mask(self, shape, spacing):
        out = np.zeros(tuple(shape))
        for i, j in self._m:
            out[i, j] = 1
        return out


class FakePort:
    def __init__(self, x, y, a, w):
        self.x, self.y, self.a, self.w = x, y, a, w
        self.xya = (x, y, a)


def lit(v, q):
    """the length a user would write down: the decimal nearest to v units"""
    return round(v * q, 9)


def tie(v, s):
    return (2 * v + s) % (2 * s) == 0


def bad_tie(c, z, s):
    return tie(z, s) or (tie(c, s) and rnd(z, s) > 0 and rnd(z, s) % 2 == 0)


def rnd(v, s):
    return (2 * v + s) // (2 * s)


def box(rng, g, inside=False, ties=False):
    c, z = [], []
    for a in range(3):
        if a >= g['ndim']:
            c.append(0); z.append(0); continue
        s, n = g['sp'][a], g['shape'][a]
        while True:
            zz = rng.choice([0, 0, rng.randrange(0, (n + 2) * s), rng.randrange(0, (n + 1) * s)])
            cc = rng.randrange(0, n * s) if inside or rng.random() < .7 else rng.randrange(-2 * s, (n + 2) * s)
            if ties and rng.random() < .3:        # whole pixels
                lo = rng.randrange(0, n); k = rng.randrange(1, n + 2 - lo)
                zz, cc = k * s, lo * s + k * s // 2
            if bad_tie(cc, zz, s) or not ties and tie(cc, s):
                continue
            if rnd(zz, s) == 0 and not (0 <= (2 * cc + s - 1) // (2 * s) < n and rnd(cc, s) < n):
                continue
            break
        c.append(cc); z.append(zz)
    return dict(c=c, z=z)


def shapes(ctx):
    base = [(1, (6, 1, 1)), (1, (7, 1, 1)), (2, (4, 3, 1)), (2, (3, 5, 1)), (2, (5, 1, 1)), (2, (1, 4, 1)), (3, (3, 2, 3)), (3, (2, 3, 2)),
            (3, (3, 1, 2)), (3, (2, 4, 1)), (2, (6, 4, 1)), (3, (4, 3, 3))]
    return base


def run(ctx):
    from simphox.grid import Grid, YeeGrid
    from simphox.sim import SimGrid
    from simphox.fdfd import FDFD
    rng = ctx.rng
    plan, info = [], []
    for rep in range(5 if ctx.quick else 12):
        for ndim, shape in shapes(ctx):
            sp = rng.choice([[4, 8, 6], [6, 4, 8], [8, 6, 4], [8, 4, 6]])[:ndim] if rng.random() < .7 else [rng.choice([4, 8])] * ndim
            g = dict(ndim=ndim, shape=list(shape), sp=sp + [1] * (3 - ndim), depth=3 if ctx.quick else 4)
            q = rng.choice([.25, .125, 1, .05, .1, .025])
            ops = [dict(op='set', v=10 + i, **box(rng, g)) for i in range(3)]
            s, n = g['sp'][ndim - 1], shape[ndim - 1]
            for i in range(2):
                h = rng.choice([0, -s, rng.randrange(1, (n + 2) * s), rng.randrange(1, n * s + 1)]) if i else rng.randrange(1, n * s + 1)
                ops.append(dict(op='fill', h=h, v=13 + i))
            if ndim > 1:
                m = [[i, j] for i in range(shape[0]) for j in range(shape[1]) if rng.random() < .5]
                sz, nz = g['sp'][2], shape[2]
                zmin = rng.choice([rng.randrange(0, nz) * sz, rng.randrange(0, nz * sz)]); t = rng.choice([rng.randrange(0, nz + 1) * sz, rng.randrange(0, (nz + 1) * sz)])
                ops.append(dict(op='add', mask=m, zmin=zmin, t=t, v=16))
            ops.append(dict(op='assign'))
            rng.shuffle(ops)
            g['ops'] = ops if ctx.quick else ops[:6]
            g['boxes'] = [box(rng, g, ties=q in (.25, .125, 1)) for _ in range(8)]
            plan.append(g); info.append(q)
    recs, _ = tlc('Grid', plan, invariants=['LastWriter', 'NoTies', 'Aligned', 'Emit'], timeout=800)

    def mk(g, q, eps):
        size = tuple(lit(n * s, q) for n, s in zip(g['shape'][:g['ndim']], g['sp']))
        spc = [lit(s, q) for s in g['sp'][:g['ndim']]]
        spacing = float(spc[0]) if len(set(spc)) == 1 and rng.random() < .7 else tuple(spc)
        cls = rng.choice([Grid, Grid, YeeGrid, SimGrid, FDFD])
        return cls(size, spacing, eps=eps)

    def do(grid, g, q, o, ini):
        if o['op'] == 'set':
            return grid.set_eps(tuple(lit(x, q) for x in o['c']), tuple(lit(x, q) for x in o['z']), o['v'])
        if o['op'] == 'fill':
            return grid.fill(lit(o['h'], q), o['v'])
        if o['op'] == 'add':
            port = {'a0': FakePort(0., .5 * q, 180, .3), 'b0': FakePort(1., .5 * q, 0, .2)}
            pat = FakePattern(o['mask'], (0, 0, *(grid.size[:2])), port)
            if g['ndim'] == 2 and rng.random() < .5:
                r = grid.add(pat, o['v'])
                zc, th = 0, 0
            else:
                r = grid.add(pat, o['v'], lit(o['zmin'], q), lit(o['t'], q))
                zc, th = (o['zmin'] + o['t'] / 2) * q, o['t'] * q
            if set(grid.port) != {'a0', 'b0'} or any(
                    not np.allclose((grid.port[k].x, grid.port[k].y, grid.port[k].a, grid.port[k].w, grid.port[k].z, grid.port[k].h),
                                    (p.x, p.y, p.a, p.w, zc, th)) for k, p in port.items()):
                ctx.violate("adding a component exposes its ports at their positions and the component's height", dict(ports=repr(grid.port)))
            return r
        grid.eps = (ini + 20).copy()
        return grid

    def fine(o):      # values of edits are not integers
        return dict(o, v=o['v'] + half) if 'v' in o else o

    for r in recs:
        half = rng.choice([0, .5, .5, np.complex128(.5 - .25j)])      # values of edits: whole, fractional, of lossy materials
        g, q = plan[r['pi'] - 1], info[r['pi'] - 1]
        ops = [g['ops'][i - 1] for i in r['hist']]
        d = dict(shape=g['shape'][:g['ndim']], pixel=[s * q for s in g['sp'][:g['ndim']]], unit=q,
                 history=[{k: v for k, v in o.items() if k != 'mask'} for o in ops])
        sh = tuple(g['shape'][:g['ndim']])
        I = np.indices(g['shape']); ini = (1 + (I[0] + 2 * I[1] + 3 * I[2]) % 4).astype(float).reshape(sh)
        caller = ini.astype(rng.choice([float, float, int]))
        ctx.count('behaviours'); ctx.sample(dict(d, eps=r['eps']))
        with Impl(ctx, 'editing a grid', d):
            grid = mk(g, q, caller)
            for o in ops:
                if do(grid, g, q, fine(o), ini) is not grid:
                    ctx.violate('an edit returns the grid for chaining', d)
            want = np.array(r['eps'], dtype=complex).reshape(sh)
            want[(want.real >= 10) & (want.real < 20)] += half
            if not (np.shape(grid.eps) == sh and np.array_equal(grid.eps, want)):
                ctx.violate('every cell holds the value of the last edit covering it', dict(d, shape_got=list(np.shape(grid.eps)),
                            cells=np.argwhere(np.asarray(grid.eps) != want)[:5] if np.shape(grid.eps) == sh else None))
            if not np.array_equal(caller, ini):
                ctx.violate('the array given by the caller is left unchanged', d)
            if rng.random() < .1:
                queries(ctx, grid, g, q, rng, d)
        if r['hist'] == []:
            with Impl(ctx, 'grid geometry', d):
                geometry(ctx, mk(g, q, rng.choice([ini, 1.5])), g, q, d)
            for b, cells, even in zip(g['boxes'], r['boxes'], r['boxesk']):
                if cells != even:        # known deviation of centres in the middle of odd pixels; nothing but it is accepted
                    m = None
                    with Impl(ctx, 'box queries', d):
                        m = mk(g, q, ini).mask(tuple(x * q for x in b['c']), tuple(x * q for x in b['z']))
                    if m is not None and np.array_equal(np.ravel(m), even):
                        ctx.violate('mask covers the cells of the box', dict(d, box=b), key='odd boxes centred in the middle of odd pixels')
                        cells = even
                compare_box(ctx, mk(g, q, ini), g, q, b, np.array(cells).reshape(g['shape']), dict(d, box=b), rng)
        if ctx.full:
            return
    # rounding ties: mask, mask_fn, slice, view and set_eps must still agree with each other
    for _ in range(60 if ctx.quick else 600):
        g = rng.choice(plan); q = .25
        b = dict(c=[0] * 3, z=[0] * 3)
        for a in range(g['ndim']):
            s, n = g['sp'][a], g['shape'][a]
            b['c'][a] = rng.randrange(0, n) * s + rng.choice([0, s // 2])
            b['z'][a] = rng.randrange(0, n + 1) * s + rng.choice([0, s // 2])
        I = np.indices(g['shape']); ini = (1 + (I[0] + 2 * I[1] + 3 * I[2]) % 4).astype(float).reshape(g['shape'][:g['ndim']])
        grid = mk(g, q, ini)
        c, z = tuple(x * q for x in b['c']), tuple(x * q for x in b['z'])
        try:
            m = np.zeros(g['shape']); m[grid.slice(c, z)] = 1
        except IndexError:
            continue
        if m.sum():
            compare_box(ctx, grid, g, q, b, m, dict(shape=g['shape'], tie=True, box=b, unit=q), rng)
        if ctx.full:
            return


def geometry(ctx, grid, g, q, d):
    nd, sh = g['ndim'], g['shape']
    sp = [s * q for s in g['sp'][:nd]]
    ok = (list(grid.shape) == sh[:nd] and list(grid.shape3) == sh and tuple(grid.field_shape) == (3, *sh) and grid.n == np.prod(sh)
          and np.allclose(grid.spacing, sp) and np.allclose(grid.spacing3, sp + [np.inf] * (3 - nd))
          and np.allclose(grid.size3, [n * s for n, s in zip(sh, sp)] + [0] * (3 - nd)) and np.allclose(grid.center, np.array(grid.size3) / 2)
          and len(grid.cells) == 3 and len(grid.pos) == 3 and np.shape(grid.eps) == tuple(sh[:nd]))
    for a in range(3):
        if a < nd:
            ok = ok and np.allclose(grid.cells[a], sp[a] * np.ones(sh[a]))
            if sh[a] > 1:
                ok = ok and np.allclose(grid.pos[a], np.arange(sh[a] + 1) * sp[a])
        else:
            ok = ok and np.size(grid.cells[a]) == 1 and np.size(grid.pos[a]) == 1
    v = np.arange(3 * grid.n)
    ok = ok and np.array_equal(grid.reshape(v), v.reshape((3, *sh)))
    ctx.count('geometries')
    if not ok:
        ctx.violate('grid shape, positions, sizes and cells are consistent', d)


def queries(ctx, grid, g, q, rng, d):
    before = grid.eps.copy()
    b = rng.choice(g['boxes'])
    c, z = tuple(x * q for x in b['c']), tuple(x * q for x in b['z'])
    grid.mask(c, z); grid.slice(c, z); f = grid.mask_fn(z, c); f(np.full(grid.eps.shape, 9.))
    if hasattr(grid, 'eps_t'):
        grid.eps_t
    if not np.array_equal(before, grid.eps):
        ctx.violate('queries never change the permittivity', d)


def compare_box(ctx, grid, g, q, b, cells, d, rng):
    c, z = tuple(x * q for x in b['c']), tuple(x * q for x in b['z'])
    sh = tuple(g['shape'][:g['ndim']]); ini = grid.eps.copy()
    want = cells.reshape(sh)
    ctx.count('boxes')
    with Impl(ctx, 'box queries', d):
        m = grid.mask(c, z)
        if not (np.shape(m) == sh and np.array_equal(m, want)):
            ctx.violate('mask covers the cells of the box', d)
        for sq in (True, False):
            x = np.zeros(g['shape']); x[grid.slice(c, z, squeezed=sq)] = 1
            if not np.array_equal(x, cells):
                ctx.violate('slice covers the cells of the box', dict(d, squeezed=sq))
        rho = np.random.RandomState(1).rand(*sh) + 5
        rho0 = rho.copy()
        out = np.asarray(grid.mask_fn(size=z, center=c)(rho))
        if not close(out, np.where(want == 1, rho, ini), 1e-5):
            ctx.violate('a masked update passes the new values inside the box and keeps the permittivity outside', d)
        out = np.asarray(grid.mask_fn(size=z)(rho)); w2 = grid.mask(tuple(grid.center), z)
        if not close(out, np.where(w2 == 1, rho, ini), 1e-5):
            ctx.violate('a masked update defaults to the centre of the grid', d)
        if not (np.array_equal(rho, rho0) and np.array_equal(grid.eps, ini)):
            ctx.violate('queries never change the permittivity', d)
        # views: exactly one zero-size axis among the grid's axes (and none elsewhere)
        zero = [a for a in range(g['ndim']) if z[a] == 0]
        if len(zero) == 1 and cells.sum() and g['ndim'] > 1:
            ax = [(1, 2, 0), (0, 2, 1), (0, 1, 2)][zero[0]]
            field = np.arange(3 * cells.size, dtype=float).reshape((3, *g['shape'])) + 1
            idx = [sorted(set(np.nonzero(cells)[a])) for a in range(3)]
            for jx in (False, True):
                v = np.asarray(grid.view_fn(c, z, use_jax=jx)(field))
                ctx.count('views')
                exp = np.stack([field[k][np.ix_(*idx)] for k in ax]).transpose((0, *(1 + a for a in ax)))
                if not close(v, exp, 1e-6):
                    ctx.violate('a view shows exactly the cells of the box, transverse components first', dict(d, jax=jx))
        z3 = tuple(max(s, 1) * q for s in g['sp'])
        if g['ndim'] == 3:
            try:
                grid.view_fn(c, z3)
                ctx.violate('a view of a full 3D box is rejected', d)
            except ValueError:
                pass
        before = grid.eps
        grid.set_eps(c, z, 77.)
        if not (np.shape(grid.eps) == sh and np.array_equal(np.asarray(grid.eps) == 77., want == 1) and np.array_equal(grid.eps[want == 0], ini[want == 0])):
            ctx.violate('set_eps assigns exactly the cells of the box', d)
    with Impl(ctx, 'malformed grids', d):
        from simphox.grid import Grid
        for bad in (lambda: Grid((3, 4), (1, 1, 1)), lambda: Grid((3, 4), 1, np.ones((4, 3)))):
            try:
                bad()
                ctx.violate('mismatched sizes, spacings or permittivities are rejected', d)
            except AttributeError:
                pass
