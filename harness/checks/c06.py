"""C06: programming a vector unit routes the whole target vector to the last rail with zero phase."""
import itertools
import numpy as np
from harness.core import Impl, tlc, close, err
from harness import circuits as cz

META = dict(level='model_checking', technique='TLA+ (Vector.tla) exact integer power routing through the recorded unit, column-by-column replay on the programmed circuit',
            note='TLC routes the exact integer powers of every vector through the structure of the real unit and proves that all power ends on the last rail; the programmed real circuit must carry exactly these powers after every column, and the last output must be the norm with zero phase. Vectors: all over a small Gaussian-integer alphabet for n=2,3 plus seeded larger, scaled, real and imperfect ones.',
            rule='one behaviour per (vector, architecture, style, splitter error)',
            assumptions=['amplitudes are compared at 1e-5 of the norm'])
AMP = 1e-5


def run(ctx):
    from simphox.circuit import vector_unit, balanced_tree, unbalanced_tree
    rng = ctx.rng
    np.random.seed(ctx.seed)
    jobs = []
    alpha = [0, 1, -1, 1j, 2 - 1j]
    vecs = [v for n in (2, 3) for v in itertools.product(alpha, repeat=n) if any(v)]
    if ctx.quick:
        vecs = [v for v in vecs if len(v) == 2] + rng.sample([v for v in vecs if len(v) == 3], 60)
    for k, v in enumerate(vecs):
        jobs.append((v, bool(k % 2), ['top', 'bottom', 'differential'][k % 3], 0, 0, 1.0))
    for k in range(90 if ctx.quick else 900):
        n = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 11] if ctx.quick else [2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31])
        kind = rng.choice(['any', 'sparse', 'real', 'equal', 'one', 'tail', 'mixed', 'mixed'])
        g = lambda: complex(rng.randrange(-6, 7), rng.randrange(-6, 7))
        if kind == 'any':
            v = [g() for _ in range(n)]
        elif kind == 'sparse':
            v = [g() if rng.random() < .4 else 0 for _ in range(n)]
        elif kind == 'real':
            v = [float(rng.randrange(-6, 7)) for _ in range(n)]
        elif kind == 'equal':
            v = [1] * n
        elif kind == 'mixed':                # components of very different sizes
            v = [rng.choice([1, 1j, 1 - 1j, 2, -3, 30j, 700, 5000, -4000j]) for _ in range(n)]
        elif kind == 'one':
            v = [0] * n; v[rng.randrange(n)] = g() or 1
        else:
            v = [0] * (n - 1) + [g() or 1]
        if not any(v):
            v[0] = 1
        mean = rng.choice([0, 0, .1, -.15, .3]); std = rng.choice([0, 0, .05])
        jobs.append((tuple(v), rng.random() < .5, rng.choice(['top', 'bottom', 'differential']), mean, std,
                     rng.choice([1.0, 1.0, 1e-9, 1e-5, 1e4, 1e-60, 1e60])))
    for n, bal in ([(rng.randrange(129, 140), True), (rng.randrange(129, 140), False), (rng.randrange(257, 266), True), (rng.randrange(40, 70), False)]
                   if ctx.quick else [(n + rng.randrange(3), b) for n in (40, 64, 127, 129, 255, 257) for b in (True, False)] + [(512, True)]):    # many rails
        v = [complex(rng.randrange(-6, 7), rng.randrange(-6, 7)) if rng.random() < .9 else 0 for _ in range(n - 1)] + [rng.choice([0, 1j, 2])]
        jobs.append((tuple(v), bal, rng.choice(['top', 'bottom', 'differential']), rng.choice([0, .1]), rng.choice([0, .05]), 1.0))
    plan, real = [], []
    for v, bal, style, mean, std, scale in jobs:
        how = rng.choice(['vector_unit', 'vector_unit', 'tree', 'matrix', 'embedded'])
        n = len(v)
        x = np.array(v) * scale
        if how != 'embedded' and all(isinstance(a, float) for a in v):
            x = x.real
        d = dict(v=v, scale=scale, balanced=bal, style=style, errors=(mean, std), how=how)
        with Impl(ctx, 'programming a vector unit', d):
            x0 = x.copy()
            kw = dict(phase_style=style, bs_error_mean_std=(mean, std))
            if how == 'tree':
                net = (balanced_tree if bal else unbalanced_tree)(x, **kw); send = x.conj()
            elif how == 'matrix':
                V = np.random.randn(n, 3) + 1j * np.random.randn(n, 3); V[:, -1] = x
                x, x0 = V, V.copy()
                net, out = vector_unit(V, balanced=bal, **kw); send = V[:, -1]
            elif how == 'embedded':
                net, out = vector_unit(x, n_rails=n + 2, balanced=bal, **kw); send = np.concatenate([x, [0, 0]])
            else:
                net, out = vector_unit(x, balanced=bal, **kw); send = x
            if not np.array_equal(x, x0):
                ctx.violate('the target vector is left unchanged', d)
            nodes = cz.structure(net)
            if cz.structure_problem(nodes, net.n):
                ctx.violate('the unit is well formed', dict(d, problem=cz.structure_problem(nodes, net.n))); continue
            e = np.array([o.bs_error for o in net.nodes])
            if (not std and not close(e, mean + 0 * e, 1e-12)) or (std and (np.abs(e - mean).max() == 0 or np.abs(e - mean).max() > 20 * std)):
                ctx.violate('the unit has the requested splitter errors', dict(d, errors_of_couplers=e))
            pn = []
            for nd, o in zip(nodes, net.nodes):
                l, r = o.bs_error
                pn.append(dict(id=nd['id'], top=nd['top'] + 1, bot=nd['bottom'] + 1, col=nd['col'],
                               lo=int(np.ceil(10000 * np.sin(l - r) ** 2)) if abs(np.sin(l - r)) > 1e-9 else 0,
                               hi=int(np.floor(10000 * np.cos(l + r) ** 2)) if abs(np.sin(l + r)) > 1e-9 else 10000))
            pw = [int(round(abs(a) ** 2)) for a in v] + [0] * (net.n - n)
            plan.append(dict(n=n, ncols=int(net.num_columns), pw=pw, nodes=pn)); real.append((net, send, d))
    recs, _ = tlc('Vector', plan, invariants=['PowerKept', 'Routed'])
    assert len(recs) == len(plan)
    for r in recs:
        net, send, d = real[r['pi'] - 1]
        ctx.count('behaviours')
        if not r['feas']:
            ctx.count('unreachable split ratios (skipped)')
            continue
        ctx.sample(dict(d, powers=r['log']))
        n = len(d['v'])
        norm = np.linalg.norm(send)
        with Impl(ctx, 'using a programmed vector unit', d):
            f = net.propagate(send / norm, explicit=False)[..., 0]
            got = np.abs(f) ** 2
            want = np.array(r['log'], dtype=float); want /= want[0].sum()
            want = np.concatenate([want, want[-1:]])
            if got.shape != want.shape:
                ctx.violate('one field per column', dict(d, got=got.shape)); continue
            if not close(np.sqrt(got), np.sqrt(want), AMP):
                bad = int(np.argmax(np.max(np.abs(np.sqrt(got) - np.sqrt(want)), axis=1) > AMP))
                ctx.violate('every coupler routes its power to its bottom rail', dict(d, column=bad, got=got[bad], want=want[bad]))
            out = net.matrix() @ (send / norm)
            e = np.zeros(net.n); e[n - 1] = 1
            if not close(out, e, 3 * AMP):
                ctx.violate('the programmed unit sends the vector to the last rail with zero phase', dict(d, out=out))
            ph = np.angle(out[n - 1])
            if abs(ph) > 3e-5:
                ctx.violate('the last output has zero phase', dict(d, phase=ph))
        if ctx.full:
            return
