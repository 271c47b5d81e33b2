"""C10: the analytic Hessian of a vector unit equals the exact second derivatives."""
import numpy as np
from harness.core import Impl, tlc, decm, decv, close, err
from harness import circuits as cz

META = dict(level='model_checking', technique='TLA+ (Hess.tla) exact second-order tangents at the programmed point as oracle for the analytic Hessian',
            note='TLC computes every second derivative exactly for vectors given by exact settings of the real tree / chain structures (invariants: zero error, stationarity, symmetry); the analytic Hessian of the real unit for that vector must equal it entry by entry. Seeded sample plus all settings for two inputs; tolerance 1e-5.',
            rule='one behaviour per vector and architecture',
            assumptions=['top phase style, as the function documents'])
UP = [(1, 0, 0, 0, 0, 0), (0, 1, 0, 0, 0, 0), (0, 0, 1, 0, 0, 0), (0, 0, 0, 1, 0, 0), (-1, 0, 0, 0, 0, 0)]      # 0 .. pi
PYUP = [(3, 0, 4, 0, 0, 1), (4, 0, 3, 0, 0, 1), (-3, 0, 4, 0, 0, 1), (-4, 0, 3, 0, 0, 1)]


def run(ctx):
    from simphox.circuit.vector import tree, hessian_vector_unit, hessian_fd, hessian_distribution
    rng = ctx.rng
    np.random.seed(ctx.seed)
    plan, info = [], []

    def add(n, bal, thetas, phis):
        with Impl(ctx, 'building a vector unit', dict(n=n, balanced=bal)):
            m = tree(n, balanced=bal)
            nodes = cz.structure(m)
            bad = cz.structure_problem(nodes, n)
            if bad:
                ctx.violate('the unit is well formed', dict(n=n, balanced=bal, problem=bad)); return
            R = cz.R2RING
            plan.append(dict(n=n, ncols=max(nd['col'] for nd in nodes) + 1, style='top',
                             nodes=[dict(id=nd['id'], top=nd['top'] + 1, bottom=nd['bottom'] + 1, col=nd['col'], cl=R, sl=R, cr=R, sr=R, ht=cz.ONE, hp=cz.ONE,
                                         et=thetas[nd['id']], ep=phis[nd['id']], at=cz.ONE, ap=cz.ONE) for nd in nodes]))
            info.append(dict(n=n, balanced=bal))
    for t in UP + PYUP:
        for p in cz.OM[::2] + cz.PY[:1]:
            add(2, True, [t], [p]); add(2, False, [t], [p])
    for k in range(60 if ctx.quick else 500):
        n = rng.choice([3, 3, 4, 4, 5, 6, 7, 8])
        b = 2 if n < 6 else 1
        th, ph = [], []
        for _ in range(n - 1):
            if b and rng.random() < .5:
                b -= 1; th.append(rng.choice(PYUP))
            else:
                th.append(rng.choice(UP if rng.random() < .3 else UP[1:4]))
            if b and rng.random() < .2:
                b -= 1; ph.append(rng.choice(cz.PY))
            else:
                ph.append(rng.choice(cz.OM))
        add(n, bool(k % 2), th, ph)
    recs, _ = tlc('Hess', plan, invariants=['Programmed', 'Symmetric'], timeout=800)
    assert len(recs) == len(plan)
    for r in recs:
        d = info[r['hi'] - 1]
        v, H = decv(r['v']), decm(r['h']).real
        scale = rng.choice([1, 1, 2.5, 1e-3, 1e-9, 1e9, 1e-60])
        dd = dict(d, v=v * scale)
        ctx.count('behaviours'); ctx.sample(dict(dd, hessian=H))
        x = v * scale; x0 = x.copy()
        with Impl(ctx, 'Hessian of a vector unit', dd):
            h = hessian_vector_unit(x, balanced=d['balanced'])
            if not close(h, H, 1e-5):
                e = np.abs(np.asarray(h) - H) if np.shape(h) == H.shape else None
                ctx.violate('the Hessian equals the exact second derivatives', dict(dd, worst=None if e is None else [int(i) for i in np.unravel_index(np.argmax(e), e.shape)], err=err(h, H)))
            elif not np.allclose(h, np.transpose(h)):
                ctx.violate('the Hessian is symmetric', dd)
            if not np.array_equal(x, x0):
                ctx.violate('the vector is left unchanged', dd)
        if d['n'] <= 4 and rng.random() < .15:
            with Impl(ctx, 'finite-difference Hessian', dd):
                h = hessian_fd(v, error=.01, balanced=d['balanced'])
                ctx.count('finite-difference Hessians')
                if not close(np.real(h), H, 2e-2):
                    ctx.violate('the finite-difference Hessian approximates the exact one', dict(dd, err=err(h, H)))
        if ctx.full:
            return
