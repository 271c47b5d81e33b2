"""C01: transfer matrix = column-ordered product of the couplers' physical responses."""
import numpy as np
from harness.core import Impl, tlc, decm, close, err
from harness import circuits as cz

META = dict(level='model_checking', technique='TLA+ (Light.tla, Rails.tla) exhaustive TLC behaviours over exact arithmetic, replayed into the real circuits',
            note='TLC crosses every physical layer of each sampled circuit in exact arithmetic and checks linearity, power and reciprocity; the real NumPy and JAX transfer functions must give the same matrix. Circuits (up to 8 rails; hundreds in Rails.tla, whose splitters are at their extremes), settings and imperfections are a seeded sample of an exact alphabet; comparison tolerance 3e-5.',
            rule='a behaviour = one circuit with exact settings crossing every layer in Light.tla; replayed through the NumPy and JAX transfer functions',
            assumptions=['the numerical answer is compared at tolerance 3e-5 x field size (the library computes default matrices in complex64)'])
INV = ['TypeOK', 'PowerConserved', 'Reciprocal', 'Linear']


def cases(ctx, ninputs=2, snaps=False, styles=cz.STYLES, sizes=None, reps=None):
    out = []
    rng = ctx.rng
    reps = reps or (1 if ctx.quick else 6)
    for rep in range(reps):
        for arch in cz.ARCHS + ['random', 'random']:
            for style in styles:
                n = rng.choice(sizes or ([2, 3, 4, 5] if ctx.quick else [2, 3, 4, 5, 6, 7]))
                if arch == 'embedded':
                    n = max(n, 3)
                errors = rng.choice(['none', 'sym', 'asym', 'asym'])
                loss = rng.choice(['none', 'some'])
                with Impl(ctx, 'building a circuit', dict(arch=arch, n=n, style=style)):
                    c = cz.make_case(rng, arch, n, style, errors, loss, ctx, ninputs, snaps)
                    if c:
                        out.append(c)
        # a single coupler and a deep one
        for style in styles:
            out.append(cz.make_case(rng, 'random', 2, style, 'asym', 'some', ctx, ninputs, snaps, N=1))
    with Impl(ctx, 'building a circuit', 'n=8'):
        for arch in (['tree', 'rectangular', 'butterfly'] if ctx.quick else ['tree', 'rectangular', 'butterfly', 'cascade', 'triangular', 'chain']):
            c = cz.make_case(rng, arch, 8, rng.choice(styles), 'asym', 'some', ctx, ninputs, snaps, budget=2)
            if c:
                out.append(c)
    return out


def run(ctx):
    cs = cases(ctx)
    recs, _ = tlc('Light', [c['plan'] for c in cs], invariants=INV, timeout=800)
    assert len(recs) == len(cs)
    for r in recs:
        c = cs[r['ci'] - 1]
        n, mesh, d = c['n'], c['mesh'], c['desc']
        F = decm(r['fwd'][-1])
        M, outs = F[:, :n], F[:, n:]
        tol = 3e-5
        ctx.count('behaviours'); ctx.sample(dict(d, theta=c['st'].theta, phi=c['st'].phi, transfer=M))
        params = mesh.params
        X = np.array(c['inputs']).T
        with Impl(ctx, 'transfer matrix', d):
            A = mesh.matrix()
            if not close(A, M, tol):
                ctx.violate('transfer matrix is the ordered product', dict(d, err=err(A, M)))
            A = mesh.matrix(tuple(p.copy() for p in params))
            if not close(A, M, tol):
                ctx.violate('transfer matrix for passed-in phases', dict(d, err=err(A, M)))
            other = cz.build(c['nodes'], n, d['style'])      # different stored phases
            A = other.matrix(params)
            if not close(A, M, tol):
                ctx.violate('transfer matrix for passed-in phases ignores stored ones', dict(d, err=err(A, M)))
        with Impl(ctx, 'transfer of an input block', d):
            f = mesh.matrix_fn()
            x0 = X.copy()
            y = f(params, X)
            if not close(y, outs, tol * 5):
                ctx.violate('input block is multiplied by the transfer matrix', dict(d, err=err(y, outs)))
            if not np.array_equal(X, x0) or any(not np.array_equal(p, q) for p, q in zip(params, mesh.params)):
                ctx.violate('inputs are left unchanged', d)
            v = X[:, 1].copy(); v0 = v.copy()
            y = f(params, v)
            if not close(np.ravel(y), outs[:, 1], tol * 5):
                ctx.violate('input vector is multiplied by the transfer matrix', dict(d, err=err(np.ravel(y), outs[:, 1])))
            if not np.array_equal(v, v0):
                ctx.violate('inputs are left unchanged', d)
            y2 = f(params, X)
            if not close(y2, outs, tol * 5):
                ctx.violate('repeated application gives the same answer', dict(d, err=err(y2, outs)))
        with Impl(ctx, 'transfer of faint and of strong inputs', d):      # linear: a power of two factors out exactly
            for k in (-40, 30):
                y = np.asarray(mesh.matrix_fn()(params, X * 2.0 ** k)) * 2.0 ** -k
                if not close(y, outs, tol * 5):
                    ctx.violate('input block is multiplied by the transfer matrix', dict(d, inputs_times=2.0 ** k, err=err(y, outs)))
                y = np.asarray(mesh.matrix_fn(use_jax=True)(params, (X * 2.0 ** k).astype(np.complex64))) * 2.0 ** -k
                if not close(y, outs, tol * 10):
                    ctx.violate('JAX: input block is multiplied by the transfer matrix', dict(d, inputs_times=2.0 ** k, err=err(y, outs)))
            for name, Z in (('column order', np.asfortranarray(X)), ('a view', np.repeat(X, 2, axis=1)[:, ::2]), ('one column', X[:, 1:2])):
                y = np.asarray(mesh.matrix_fn()(params, Z))
                w = outs[:, 1:2] if Z.shape[1] == 1 and X.shape[1] > 1 else outs
                if not close(y.reshape(w.shape) if y.size == w.size else y, w, tol * 5):
                    ctx.violate('input block is multiplied by the transfer matrix', dict(d, memory_layout=name, err=err(y, w)))
        with Impl(ctx, 'transfer of a real input', d):
            xr = X[:, 0].real.copy(); xr0 = xr.copy()
            y = mesh.matrix_fn()(params, xr)
            if not close(np.ravel(y), outs[:, 0], tol * 5):
                ctx.violate('real input vector is multiplied by the transfer matrix', dict(d, err=err(np.ravel(y), outs[:, 0])))
            if not np.array_equal(xr, xr0):
                ctx.violate('inputs are left unchanged', d)
            for dt in (int, np.int8, np.float32, np.complex64):
                for name, g in (('NumPy', mesh.matrix_fn()), ('JAX', mesh.matrix_fn(use_jax=True))):
                    y = np.asarray(g(params, X[:, :1].real.astype(dt)))
                    if not close(np.ravel(y), outs[:, 0], tol * 10):
                        ctx.violate('input of any numeric type is multiplied by the transfer matrix', dict(d, dtype=np.dtype(dt).name, how=name, err=err(np.ravel(y), outs[:, 0])))
        with Impl(ctx, 'JAX transfer', d):
            fj = mesh.matrix_fn(use_jax=True)
            A = np.asarray(fj(params))
            if not close(A, M, tol):
                ctx.violate('JAX transfer matrix is the ordered product', dict(d, err=err(A, M)))
            y = np.asarray(fj(params, X.astype(np.complex64)))
            if not close(y, outs, tol * 10):
                ctx.violate('JAX: input block is multiplied by the transfer matrix', dict(d, err=err(y, outs)))
            y = np.asarray(fj(params, X[:, 1].astype(np.complex64)))
            if not close(np.ravel(y), outs[:, 1], tol * 10):
                ctx.violate('JAX: input vector is multiplied by the transfer matrix', dict(d, err=err(np.ravel(y), outs[:, 1])))
        with Impl(ctx, 'explicit imperfections passed to the transfer function', d):
            e, l = cz.errors_of(sorted(c['nodes'], key=lambda nd: nd['id']))
            ideal = cz.build([{k: v for k, v in nd.items() if k not in ('err', 'loss')} for nd in c['nodes']], n, d['style'])
            y = ideal.matrix_fn()(params, X, e, l)
            if not close(y, outs, tol * 5):
                ctx.violate('imperfections passed to the transfer function act on their own couplers', dict(d, err=err(y, outs)))
        # one coupler's own matrix (top style): composed by hand from the couplers' embedded matrices
        if d['style'] == 'top':
            with Impl(ctx, 'single coupler matrix', d):
                A = np.eye(n, dtype=complex)
                for nd in sorted(mesh.nodes, key=lambda nd: nd.column):
                    A = nd.mzi_node_matrix(c['st'].theta[nd.node_id], c['st'].phi[nd.node_id]) @ A
                    small = nd.mzi_node_matrix(c['st'].theta[nd.node_id], c['st'].phi[nd.node_id], embed=False)
                    if small.shape != (2, 2):
                        ctx.violate('single coupler matrix is 2x2', d)
                A = np.exp(1j * c['st'].gamma)[:, None] * A
                if not close(A, M, tol):
                    ctx.violate("product of the couplers' own matrices is the transfer matrix", dict(d, err=err(A, M)))
        if ctx.full:
            return
    wide(ctx)


SIZES = ([257, 150, 136, 67, 131], [300, 200, 139, 260, 140, 516, 33, 64, 128, 65])


def sizes(ctx):
    return [n + ctx.rng.randrange(0, 9) for n in SIZES[0 if ctx.quick else 1]]


def wide(ctx):
    """Circuits of hundreds of rails or of columns (Rails.tla)."""
    for c, fwd, _ in cz.wide(ctx, sizes=sizes(ctx)):
        mesh, d, X = c['mesh'], c['desc'], c['inputs']
        want, M = cz.wide_field(fwd[-1], X), cz.wide_field(fwd[-1], np.eye(c['n']) + 0j)
        tol = 1e-4
        with Impl(ctx, 'transfer of a wide circuit', d):
            for what, A in (('', mesh.matrix()), (' for passed-in phases', mesh.matrix(mesh.params)), ('JAX', np.asarray(mesh.matrix_fn(use_jax=True)(mesh.params)))):
                if not close(A, M, tol):
                    ctx.violate(f'transfer matrix of a wide circuit {what}', dict(d, err=err(A, M)))
            for what, y in (('', mesh.matrix_fn()(mesh.params, X)), ('JAX', np.asarray(mesh.matrix_fn(use_jax=True)(mesh.params, X.astype(np.complex64))))):
                if not close(y, want, tol * 5):
                    ctx.violate(f'inputs of a wide circuit are multiplied by the transfer matrix {what}', dict(d, err=err(y, want)))
        if ctx.full:
            return
