"""C29: moving phase shifts through a grid, and reading the power at its shifters, follow every path of the grid."""
import numpy as np
from harness.core import Impl, tlc, decm, close, err
from harness import circuits as cz

META = dict(level='model_checking', technique='TLA+ (Flow.tla): every path of every sampled grid is followed before and after each push of common phases; the real rearrangement must give the unique pushed phases, and with Light.tla the exact powers at the phase shifters of rectangular circuits',
            note='TLC proves for each grid (any number of rails and layers, phases in parts of a turn) that no path through the pairs changes its phase and that pushed layers are differential, which fixes them uniquely; the real rearrangement is compared as phasors, with and without a given screen, and re-multiplied with random couplers. Powers at theta, phi and screen phase shifters come from the exact layer-by-layer fields.',
            rule='one behaviour per grid or circuit',
            assumptions=['phases are compared modulo a turn', 'the shifter-power reader is defined for even rectangular circuits of at least four rails'])
M = 48


def grids(ctx):
    rng = ctx.rng
    out = []
    for k in range(60 if ctx.quick else 600):
        n = rng.choice([2, 3, 4, 5, 6, 7])
        L = rng.choice([1, 2, 3, n, n, n, 2 * n - 3 if n > 2 else 2, n + 1])
        dense = rng.random() < .7
        p = [[rng.randrange(-2 * M, 2 * M) if dense or rng.random() < .3 else 0 for _ in range(n)] for _ in range(L + 1)]
        out.append(dict(n=n, L=L, M=M, p=p, none=rng.random() < .3))
        if out[-1]['none']:
            p[L] = [0] * n
    return out


def function(phases, gamma, blocks):
    """the grid's matrix for given 2x2 blocks on its pairs"""
    n, L = phases.shape
    u = np.eye(n, dtype=complex)
    for i in range(L):
        u = np.exp(1j * phases[:, i])[:, None] * u
        for a in range(i % 2, n - 1, 2):
            u[a:a + 2] = blocks[i, a] @ u[a:a + 2]
    return np.exp(1j * gamma)[:, None] * u


def run(ctx):
    from simphox.circuit.rectangular import grid_common_mode_flow
    rng = ctx.rng
    nprng = np.random.default_rng(ctx.seed)
    plan = grids(ctx)
    recs, _ = tlc('Flow', plan, invariants=['SamePaths', 'Differential', 'Emit'], properties=['KeepsDifference'], timeout=600)
    assert len(recs) == len(plan)
    for r in recs:
        q = plan[r['pi'] - 1]
        n, L = q['n'], q['L']
        old, new = [np.array(x, float).T * 2 * np.pi / M for x in (q['p'], r['p'])]
        ext, gam = old[:, :L].copy(), old[:, L].copy()
        if not q['none'] and not np.any(np.array(q['p']) % M) or rng.random() < .1:
            ext = np.asfortranarray(ext)
        d = dict(rails=n, layers=L, phases=q['p'], screen=not q['none'])
        ctx.count('behaviours'); ctx.sample(d)
        with Impl(ctx, 'moving phases through a grid', d):
            e0, g0 = ext.copy(), gam.copy()
            if q['none']:
                got = grid_common_mode_flow(ext) if rng.random() < .5 else grid_common_mode_flow(external_phases=ext, gamma=None)
            else:
                got = grid_common_mode_flow(ext, gam) if rng.random() < .5 else grid_common_mode_flow(external_phases=ext, gamma=gam)
            p, g = np.asarray(got[0]), np.asarray(got[1])
            if not (np.array_equal(ext, e0) and np.array_equal(gam, g0)):
                ctx.violate('the given phases are left unchanged', d)
            if p.shape != (n, L) or g.shape != (n,):
                ctx.violate('the moved phases have the shapes of the given ones', dict(d, shapes=(p.shape, g.shape)))
                continue
            if not close(np.exp(1j * p), np.exp(1j * new[:, :L]), 1e-9):
                ctx.violate('only the difference of a pair stays, on its upper rail', dict(d, got=p, expected=new[:, :L]))
            if not close(np.exp(1j * g), np.exp(1j * new[:, L]), 1e-9):
                ctx.violate('the common phases end on the screen', dict(d, got=g, expected=new[:, L]))
            blocks = nprng.normal(size=(L, n, 2, 2)) + 1j * nprng.normal(size=(L, n, 2, 2))
            a, b = function(old[:, :L], old[:, L], blocks), function(p, g, blocks)
            if not close(b, a, 1e-9 * max(1, np.abs(a).max())):
                ctx.violate('moving phases keeps the function of the grid for any couplers', dict(d, err=err(b, a)))
            again = grid_common_mode_flow(p, g)
            if not (close(np.exp(1j * np.asarray(again[0])), np.exp(1j * p), 1e-9) and close(np.exp(1j * np.asarray(again[1])), np.exp(1j * g), 1e-9)):
                ctx.violate('moved phases stay where they are when moved again', d)
        if ctx.full:
            return
    with Impl(ctx, 'whole phases', None):       # integers are phases too
        x = nprng.integers(-9, 9, (4, 4))
        y = nprng.integers(-9, 9, 4)
        args = [(x,), (x, y)][ctx.seed % 2]
        a, b = grid_common_mode_flow(*args), grid_common_mode_flow(*[z.astype(float) for z in args])
        if not (close(np.asarray(a[0]), np.asarray(b[0]), 1e-12) and close(np.asarray(a[1]), np.asarray(b[1]), 1e-12)):
            ctx.violate('integer phases are moved like any others', dict(phases=x, got=a, expected=b))
    powers(ctx)


def powers(ctx):
    from simphox.circuit.rectangular import rectangular_phase_shift_powers
    import jax.numpy as jnp
    rng = ctx.rng
    cs = []
    for k in range(6 if ctx.quick else 60):
        with Impl(ctx, 'building a circuit', None):
            c = cz.make_case(rng, 'rectangular', rng.choice([4, 4, 6]), 'top', rng.choice(['none', 'sym', 'asym']), rng.choice(['none', 'random']), ctx, 1, True)
            if c:
                cs.append(c)
    recs, _ = tlc('Light', [c['plan'] for c in cs], timeout=600)
    for r in recs:
        c = cs[r['ci'] - 1]
        n, mesh, d = c['n'], c['mesh'], c['desc']
        fwd = np.array([decm(f) for f in r['fwd']])
        k = rng.randrange(fwd.shape[2])
        X = np.hstack([np.eye(n), np.array(c['inputs']).T])[:, k]
        y = np.abs(fwd[:, :, k]) ** 2
        y = y / y.sum(1, keepdims=True)
        nodes = sorted(c['nodes'], key=lambda nd: nd['id'])
        col = {nd['id']: nd['col'] for nd in nodes} if 'col' in nodes[0] else {int(x.node_id): int(x.column) for x in mesh.nodes}
        want = (np.array([y[4 * col[nd['id']] + 2, nd['top']] for nd in nodes]), np.array([y[4 * col[nd['id']], nd['top']] for nd in nodes]), y[-1])
        ctx.count('behaviours'); ctx.count('powers')
        for jx in (False, True):
            with Impl(ctx, 'powers at phase shifters', d):
                prop = mesh.propagate(X)
                got = rectangular_phase_shift_powers(jnp.array(prop), use_jax=True) if jx else rectangular_phase_shift_powers(prop)
                for name, a, b in zip(('theta', 'phi', 'gamma'), got, want):
                    if not close(np.asarray(a), b, 1e-4):
                        ctx.violate(f'the power at every {name} shifter is that of its rail there', dict(d, jax=jx, got=a, expected=b))
