"""C02: backward transfer is the transpose of the forward one; lossless circuits conserve power everywhere."""
import numpy as np
from harness.core import Impl, tlc, decm, close, err
from harness import circuits as cz
from harness.checks.c01 import cases, sizes, INV

META = dict(level='model_checking', technique='TLA+ (Light.tla) forward and backward behaviours with TLC invariants Reciprocal / PowerConserved, replayed into the real circuits',
            note='TLC proves, for every behaviour, that sending the identity backward through the layers gives exactly the transpose and that lossless layers conserve power at every step; the real backward transfer (NumPy, JAX, passed-in imperfections) and every observed field must agree. Sampled circuits and exact settings; tolerance 3e-5.',
            rule='a behaviour = one circuit crossed forward then backward in Light.tla, compared with the real backward matrices and with observed powers',
            assumptions=['numerical comparison at 3e-5 x field size'])


def run(ctx):
    cs = cases(ctx)
    recs, _ = tlc('Light', [c['plan'] for c in cs], invariants=INV, timeout=800)
    assert len(recs) == len(cs)
    for r in recs:
        c = cs[r['ci'] - 1]
        n, mesh, d, tol = c['n'], c['mesh'], c['desc'], 3e-5
        B = decm(r['back'][-1])
        MT, outs = B[:, :n], B[:, n:]
        X = np.array(c['inputs']).T
        params = mesh.params
        lossless = all(nd['loss'] == (0.0, 0.0) for nd in c['nodes'])
        scale = max(1, np.max(np.abs(outs)))
        ctx.count('behaviours'); ctx.sample(dict(d, theta=c['st'].theta, phi=c['st'].phi, backward=MT))
        with Impl(ctx, 'backward transfer matrix', d):
            A = mesh.matrix(back=True)
            if not close(A, MT, tol):
                ctx.violate('backward transfer is the transpose of the forward one', dict(d, err=err(A, MT)))
            A = mesh.matrix(tuple(p.copy() for p in params), back=True)
            if not close(A, MT, tol):
                ctx.violate('backward transfer for passed-in phases is the transpose', dict(d, err=err(A, MT)))
            if not close(mesh.matrix(back=True), mesh.matrix().T, tol):
                ctx.violate('backward matrix equals the transposed forward matrix', d)
        with Impl(ctx, 'backward transfer of inputs', d):
            x0 = X.copy()
            y = mesh.matrix_fn(back=True)(params, X)
            if not close(y, outs, tol * scale):
                ctx.violate('inputs sent backward are multiplied by the transpose', dict(d, err=err(y, outs)))
            if not np.array_equal(X, x0):
                ctx.violate('inputs are left unchanged', d)
            e, l = cz.errors_of(sorted(c['nodes'], key=lambda nd: nd['id']))
            ideal = cz.build([{k: v for k, v in nd.items() if k not in ('err', 'loss')} for nd in c['nodes']], n, d['style'])
            y = ideal.matrix_fn(back=True)(params, X, e, l)
            if not close(y, outs, tol * scale):
                ctx.violate('imperfections passed to the backward transfer act on their own couplers', dict(d, err=err(y, outs)))
        with Impl(ctx, 'JAX backward transfer', d):
            fj = mesh.matrix_fn(use_jax=True, back=True)
            A = np.asarray(fj(params))
            if not close(A, MT, tol):
                ctx.violate('JAX backward transfer is the transpose of the forward one', dict(d, err=err(A, MT)))
            y = np.asarray(fj(params, X.astype(np.complex64)))
            if not close(y, outs, tol * scale * 3):
                ctx.violate('JAX: inputs sent backward are multiplied by the transpose', dict(d, err=err(y, outs)))
        pin = np.sum(np.abs(X) ** 2, axis=0)
        for back in (False, True):
            with Impl(ctx, 'power of propagated fields', dict(d, back=back)):
                views = [('column', mesh.propagate(X, back=back, explicit=False))]
                if d['style'] in ('top', 'bottom'):
                    views.append(('layer', mesh.propagate(X, back=back)))
                for name, p in views:
                    p = np.asarray(p).reshape(-1, n, X.shape[1])
                    pw = np.sum(np.abs(p) ** 2, axis=1)
                    ctx.count('power observations', pw.shape[0])
                    if lossless and np.max(np.abs(pw / pin - 1)) > 1e-4:
                        ctx.violate('a lossless circuit conserves power at every observed point',
                                    dict(d, back=back, view=name, worst=float(np.max(np.abs(pw / pin - 1)))))
                    if not lossless and np.any(pw > pin * (1 + 1e-4)):
                        ctx.violate('a lossy circuit never gains power', dict(d, back=back, view=name))
                    if back and not close(p[-1], outs, tol * scale):
                        ctx.violate('backward propagation ends at the transposed transfer', dict(d, view=name, err=err(p[-1], outs)))
        if ctx.full:
            return
    for c, fwd, back in cz.wide(ctx, sizes=sizes(ctx)):            # circuits of hundreds of rails or of columns
        mesh, d, X, n = c['mesh'], c['desc'], c['inputs'], c['n']
        want, MT = cz.wide_field(back[-1], X), cz.wide_field(back[-1], np.eye(n) + 0j)
        with Impl(ctx, 'backward transfer of a wide circuit', d):
            for what, A in (('', mesh.matrix(back=True)), ('JAX', np.asarray(mesh.matrix_fn(use_jax=True, back=True)(mesh.params)))):
                if not close(A, MT, 1e-4):
                    ctx.violate(f'backward transfer of a wide circuit is the transpose of the forward one {what}', dict(d, err=err(A, MT)))
            y = mesh.matrix_fn(back=True)(mesh.params, X)
            if not close(y, want, 5e-4):
                ctx.violate('inputs sent backward through a wide circuit are multiplied by the transpose', dict(d, err=err(y, want)))
            pin = np.sum(np.abs(X) ** 2, axis=0)
            for b in (False, True):
                pw = np.sum(np.abs(np.asarray(mesh.propagate(X, back=b, explicit=False)).reshape(-1, n, 3)) ** 2, axis=1)
                ctx.count('power observations', pw.shape[0])
                if (c['lossless'] and np.max(np.abs(pw / pin - 1)) > 1e-4) or np.any(pw > pin * (1 + 1e-4)):
                    ctx.violate('a lossless circuit conserves power at every observed point', dict(d, back=b, worst=float(np.max(np.abs(pw / pin - 1)))))
        if ctx.full:
            return
