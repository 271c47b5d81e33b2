"""C03: step-resolved propagation records the field after every layer / column."""
import numpy as np
from harness.core import Impl, tlc, decm, close, err
from harness import circuits as cz
from harness.checks.c01 import cases, sizes, INV

META = dict(level='model_checking', technique='TLA+ (Light.tla) layer-by-layer behaviours, every state replayed against the real propagated fields',
            note='TLC gives the exact field after each physical layer forward and backward; each field recorded by the real propagation (NumPy, JAX, layer- or column-resolved, every cutoff) must equal the specified one, in number and order. Sampled circuits, exact settings, tolerance 3e-5.',
            rule='a behaviour = all layer states of one circuit, forward and backward; one comparison per recorded field block',
            assumptions=['numerical comparison at 3e-5 x field size', 'layer-resolved propagation is defined for top and bottom phase styles only (others are rejected by the library)'])


def rows(p, n, k):
    p = np.asarray(p)
    return p.reshape(-1, n, k)


def compare(ctx, clause, got, want, d, tol):
    if got.shape[0] != want.shape[0]:
        ctx.violate(clause + ': number of recorded fields', dict(d, got=got.shape, want=want.shape))
    elif not close(got, want, tol * max(1, np.max(np.abs(want)))):
        bad = [i for i in range(len(want)) if not close(got[i], want[i], tol * max(1, np.max(np.abs(want))))]
        ctx.violate(clause, dict(d, first_bad_step=bad[:1], steps=len(want)))


def run(ctx):
    styles = cz.STYLES
    cs = [c for c in cases(ctx, ninputs=2, snaps=True, styles=styles) if c]
    recs, _ = tlc('Light', [c['plan'] for c in cs], invariants=INV, timeout=800)
    assert len(recs) == len(cs)
    for r in recs:
        c = cs[r['ci'] - 1]
        n, mesh, d, tol, nc = c['n'], c['mesh'], c['desc'], 3e-5, c['ncols']
        labels = c['labels']                      # labels of the occupied columns
        L = labels[-1] + 1
        below = lambda cut: sum(x < cut for x in labels)
        fwd = np.array([decm(f) for f in r['fwd']])          # input, 4 per column, screen
        back = np.array([decm(f) for f in r['back']])        # input, screen, 4 per column
        X = np.hstack([np.eye(n), np.array(c['inputs']).T])
        k = X.shape[1]
        explicit_ok = d['style'] in ('top', 'bottom')
        fcol = np.concatenate([fwd[0:1], fwd[4:-1:4], fwd[-1:]])
        bcol = np.concatenate([back[0:2], back[5::4]])
        x0, p0 = X.copy(), mesh.params
        ctx.count('behaviours'); ctx.sample(dict(d, steps=len(fwd)))
        ctx.count('fields', 2 * len(fwd))
        with Impl(ctx, 'column-resolved propagation', d):
            compare(ctx, 'forward column-resolved propagation', rows(mesh.propagate(X, explicit=False), n, k), fcol, d, tol)
            compare(ctx, 'backward column-resolved propagation', rows(mesh.propagate(X, back=True, explicit=False), n, k), bcol, d, tol)
            for cut in range(L):
                compare(ctx, 'forward column-resolved propagation up to a cutoff',
                        rows(mesh.propagate(X, explicit=False, column_cutoff=cut), n, k), fcol[:below(cut) + 1], dict(d, cutoff=cut), tol)
            v = X[:, -1].copy()
            compare(ctx, 'column-resolved propagation of one vector', rows(mesh.propagate(v, explicit=False), n, 1), fcol[:, :, -1:], d, tol)
        with Impl(ctx, 'propagation of faint and of strong inputs', d):   # linear: a power of two factors out exactly
            for q in (2.0 ** -40, 2.0 ** 30):
                compare(ctx, 'forward column-resolved propagation', rows(mesh.propagate(X * q, explicit=False), n, k) / q, fcol, dict(d, inputs_times=q), tol)
                compare(ctx, 'backward column-resolved propagation', rows(mesh.propagate(X * q, back=True, explicit=False), n, k) / q, bcol, dict(d, inputs_times=q), tol)
                if explicit_ok:
                    compare(ctx, 'forward layer-resolved propagation', rows(mesh.propagate(X * q), n, k) / q, fwd, dict(d, inputs_times=q), tol)
                    compare(ctx, 'backward layer-resolved propagation', rows(mesh.propagate(X * q, back=True), n, k) / q, back, dict(d, inputs_times=q), tol)
        # backward from a cutoff: the light enters at column (columns - cutoff) and crosses columns down to the first
        with Impl(ctx, 'backward propagation from a cutoff', d):
            for cut in range(1, L + 1):
                start = below(L - cut + 1) - 1        # columns labelled up to L - cut are crossed
                if start < 0:
                    continue
                got = rows(mesh.propagate(X[:, -2:], back=True, explicit=False, column_cutoff=cut), n, 2)
                full = rows(mesh.propagate(X[:, :n], back=True, explicit=False), n, n)   # compared with the spec above
                if got.shape[0] != start + 2:
                    ctx.violate('backward propagation from a cutoff: number of recorded fields', dict(d, cutoff=cut, got=got.shape))
                    continue
                # transfer of columns start..0 from the spec: B_all = T(rest) after columns > start
                pre = bcol[1 + (nc - 1 - start), :, :n]                 # after screen and columns nc-1..start+1
                want = [X[:, -2:]] + [bcol[1 + (nc - 1 - start) + s, :, :n] @ np.linalg.solve(pre, X[:, -2:]) for s in range(1, start + 2)]
                want = np.array(want)
                if np.linalg.cond(pre) < 1e3:
                    compare(ctx, 'backward propagation from a cutoff', got, want, dict(d, cutoff=cut), tol * 30)
        if explicit_ok:
            with Impl(ctx, 'layer-resolved propagation', d):
                compare(ctx, 'forward layer-resolved propagation', rows(mesh.propagate(X), n, k), fwd, d, tol)
                compare(ctx, 'backward layer-resolved propagation', rows(mesh.propagate(X, back=True), n, k), back, d, tol)
                for cut in range(L):
                    compare(ctx, 'forward layer-resolved propagation up to a cutoff',
                            rows(mesh.propagate(X, column_cutoff=cut), n, k), fwd[:4 * below(cut) + 1], dict(d, cutoff=cut), tol)
                v = X[:, n].real.copy()
                compare(ctx, 'layer-resolved propagation of a real vector', rows(mesh.propagate(v), n, 1), fwd[:, :, n:n + 1], d, tol)
        with Impl(ctx, 'propagation of inputs of any numeric type', d):
            for dt in (int, np.float32):
                v = X[:, n].real.astype(dt)          # (the first extra input is real)
                compare(ctx, 'column-resolved propagation of inputs of any numeric type', rows(mesh.propagate(v, explicit=False), n, 1), fcol[:, :, n:n + 1], dict(d, dtype=np.dtype(dt).name), tol * 5)
                compare(ctx, 'backward column-resolved propagation of inputs of any numeric type', rows(mesh.propagate(v, back=True, explicit=False), n, 1), bcol[:, :, n:n + 1], dict(d, dtype=np.dtype(dt).name), tol * 5)
                if explicit_ok:
                    compare(ctx, 'layer-resolved propagation of inputs of any numeric type', rows(mesh.propagate(v), n, 1), fwd[:, :, n:n + 1], dict(d, dtype=np.dtype(dt).name), tol * 5)
        with Impl(ctx, 'default inputs', d):
            compare(ctx, 'propagation of the default (identity) input', rows(mesh.propagate(explicit=False), n, n), fcol[:, :, :n], d, tol)
        with Impl(ctx, 'JAX propagation', d):
            Xj = X.astype(np.complex64)
            pj = mesh.params
            if explicit_ok:
                compare(ctx, 'JAX forward layer-resolved propagation', rows(mesh.propagate_matrix_fn(use_jax=True)(pj, Xj), n, k), fwd, d, tol)
                compare(ctx, 'JAX backward layer-resolved propagation', rows(mesh.propagate_matrix_fn(use_jax=True, back=True)(pj, Xj), n, k), back, d, tol)
            if not explicit_ok or ctx.rng.random() < .5:
                compare(ctx, 'JAX forward column-resolved propagation', rows(mesh.propagate_matrix_fn(use_jax=True, explicit=False)(pj, Xj), n, k), fcol, d, tol)
                compare(ctx, 'JAX backward column-resolved propagation', rows(mesh.propagate_matrix_fn(use_jax=True, explicit=False, back=True)(pj, Xj), n, k), bcol, d, tol)
        with Impl(ctx, 'propagation with passed-in phases and imperfections', d):
            e, l = cz.errors_of(sorted(c['nodes'], key=lambda nd: nd['id']))
            ideal = cz.build([{a: b for a, b in nd.items() if a not in ('err', 'loss')} for nd in c['nodes']], n, d['style'])
            got = ideal.propagate_matrix_fn(explicit=explicit_ok)(p0, X, e, l)
            compare(ctx, 'propagation with passed-in phases and imperfections', rows(got, n, k), fwd if explicit_ok else fcol, d, tol)
            got = ideal.propagate_matrix_fn(explicit=explicit_ok, back=True)(p0, X, e, l)
            compare(ctx, 'backward propagation with passed-in phases and imperfections', rows(got, n, k), back if explicit_ok else bcol, d, tol)
        if not np.array_equal(X, x0) or any(not np.array_equal(a, b) for a, b in zip(p0, mesh.params)):
            ctx.violate('propagation leaves inputs and phases unchanged', d)
        if ctx.full:
            return
    for c, fwd, back in cz.wide(ctx, sizes=sizes(ctx)):            # circuits of hundreds of rails or of columns
        mesh, d, X, n, nc, tol = c['mesh'], c['desc'], c['inputs'], c['n'], c['ncols'], 1e-4
        F = np.array([cz.wide_field(f, X) for f in fwd]); B = np.array([cz.wide_field(f, X) for f in back])
        fcol, bcol = np.concatenate([F[0:1], F[4:-1:4], F[-1:]]), np.concatenate([B[0:2], B[5::4]])
        ctx.count('fields', len(F) + len(B))
        with Impl(ctx, 'propagation through a wide circuit', d):
            compare(ctx, 'column-resolved propagation through a wide circuit', rows(mesh.propagate(X, explicit=False), n, 3), fcol, d, tol)
            compare(ctx, 'backward column-resolved propagation through a wide circuit', rows(mesh.propagate(X, back=True, explicit=False), n, 3), bcol, d, tol)
            for cut in sorted(set([0, nc // 2, nc - 1])):
                compare(ctx, 'column-resolved propagation through a wide circuit up to a cutoff',
                        rows(mesh.propagate(X, explicit=False, column_cutoff=cut), n, 3), fcol[:cut + 1], dict(d, cutoff=cut), tol)
            if d['style'] in ('top', 'bottom'):
                compare(ctx, 'layer-resolved propagation through a wide circuit', rows(mesh.propagate(X), n, 3), F, d, tol)
                compare(ctx, 'backward layer-resolved propagation through a wide circuit', rows(mesh.propagate(X, back=True), n, 3), B, d, tol)
            if nc < 20:
                Xj = X.astype(np.complex64)
                compare(ctx, 'JAX column-resolved propagation through a wide circuit',
                        rows(mesh.propagate_matrix_fn(use_jax=True, explicit=False)(mesh.params, Xj), n, 3), fcol, d, tol)
                compare(ctx, 'JAX backward column-resolved propagation through a wide circuit',
                        rows(mesh.propagate_matrix_fn(use_jax=True, explicit=False, back=True)(mesh.params, Xj), n, 3), bcol, d, tol)
        if ctx.full:
            return
