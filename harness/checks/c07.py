"""C07: programming a unitary realises exactly that unitary."""
import numpy as np
from harness.core import Impl, tlc, decm, close, err
from harness import circuits as cz

META = dict(level='model_checking', technique='TLA+ (Unitary.tla) exact unitaries from all short histories of elementary operations, compiled by the real constructions and compared exactly',
            note='TLC enumerates all histories of elementary operations up to a length (and samples long ones), checks exact unitarity, and emits the matrices; each real construction, style and correctable error must realise them, and SVDs of products of them must recombine. Sampled from the enumerated set in quick; tolerance 2e-5.',
            rule='one behaviour per target matrix; several constructions compared per target',
            assumptions=['unit sizes 2..9, larger ones built from them', 'a splitter error is correctable when every required split ratio is reachable'])
TOL = 3e-5


def required(mesh):
    return np.cos(mesh.thetas / 2) ** 2


def run(ctx):
    from simphox.circuit import cascade, rectangular
    from simphox.circuit.matrix import triangular, tree_cascade, psvd
    rng = ctx.rng
    np.random.seed(ctx.seed)
    recs, _ = tlc('Unitary', invariants=['IsUnitary'], view='View',
                  constants={'MaxLen': 3, 'Sizes': '{2, 3}', 'EmitAll': 'TRUE', 'Budget5': 1})
    short = [decm(r['m']) for r in recs]
    recs, _ = tlc('Unitary', invariants=['IsUnitary'], constants={'MaxLen': 4, 'Sizes': '{3, 4, 5, 6}', 'EmitAll': 'FALSE', 'Budget5': 1},
                  simulate=30 if ctx.quick else 400, depth=8, seed=ctx.seed, workers=1)
    mid = [decm(r['m']) for r in recs]
    recs, _ = tlc('Unitary', invariants=['IsUnitary'], constants={'MaxLen': 14, 'Sizes': '{2, 3, 4, 5, 7, 9}', 'EmitAll': 'FALSE', 'Budget5': 2},
                  simulate=30 if ctx.quick else 600, depth=20, seed=ctx.seed, workers=1)
    longer = [decm(r['m']) for r in recs]
    ctx.cover['targets enumerated'] = len(short)
    if ctx.quick:
        n2 = [u for u in short if len(u) == 2]; n3 = [u for u in short if len(u) == 3]
        short = rng.sample(n2, min(40, len(n2))) + rng.sample(n3, min(50, len(n3)))
    # always: identity and permutations of 4, of real and of integer dtype
    fixed = [np.eye(n) for n in range(2, 8)] + [np.eye(4, dtype=int)[list(p)] for p in ((1, 0, 3, 2), (3, 2, 1, 0), (1, 2, 3, 0), (3, 0, 1, 2), (0, 2, 1, 3))]
    # large targets: Kronecker products and blocks of specified ones, permutations with quarter-turn phases
    large = []
    for q in range(4 if ctx.quick else 24):
        a, b = rng.choice(longer), rng.choice(mid)
        if q % 4 == 0:
            large.append(np.kron(a, b)[:40, :40] if len(a) * len(b) <= 40 else np.kron(a, rng.choice(short)))
        elif q % 4 == 1:
            z = np.zeros((len(a) + len(b),) * 2, dtype=complex); z[:len(a), :len(a)] = a; z[len(a):, len(a):] = b
            large.append(z[rng.sample(range(len(z)), len(z))])
        else:
            n = rng.randrange(10, 18 if ctx.quick else 34)
            z = np.zeros((n, n), dtype=complex)
            z[np.arange(n), rng.sample(range(n), n)] = [rng.choice([1, -1, 1j, -1j]) for _ in range(n)]
            large.append(z)
    large = [u for u in large if np.allclose(u @ u.conj().T, np.eye(len(u)))]
    for k, u in enumerate(fixed + short + mid + longer + large):
        n = len(u)
        ctx.count('behaviours'); ctx.sample(dict(n=n, target=u))
        if np.iscomplexobj(u) and not np.any(u.imag) and k % 2:
            u = u.real.copy()
        u0 = u.copy()
        styles = ['top', 'bottom', 'differential']
        st = styles[k % 3]
        for name, f in (('tree cascade', lambda: cascade(u, phase_style=st)),
                        ('tree cascade (function)', lambda: tree_cascade(u, phase_style=st) if k % 2 else cascade(u, phase_style=styles[(k + 1) % 3])),
                        ('triangular', lambda: triangular(u, phase_style=st) if k % 2 else cascade(u, balanced=False, phase_style=st)),
                        ('rectangular', lambda: rectangular(u))):
            d = dict(n=n, construction=name, style=st, target=u)
            with Impl(ctx, f'programming a {name} circuit', d):
                m = f()
                A = m.matrix()
                ctx.count('constructions')
                if not close(A, u, TOL):
                    ctx.violate('the programmed circuit realises the target unitary', dict(d, err=err(A, u)))
                if not np.array_equal(u, u0):
                    ctx.violate('the target is left unchanged', d); u = u0.copy()
        # fewer basis vectors than rails: the last outputs realise them, whatever the other outputs do
        if n > 2:
            q = 1 + (k + k // 7) % (n - 1)
            rows = sorted(rng.sample(range(n), q)) if k % 2 else list(range(n - q, n))
            v = u[rows].copy() if k % 3 else u[rows]
            v0 = v.copy()
            bal = bool(rng.getrandbits(1))
            for name, f in (('cascade', lambda: cascade(v, balanced=bal, phase_style=st)),
                            ('tree_cascade', lambda: tree_cascade(v, phase_style=st)),
                            ('triangular', lambda: triangular(v, phase_style=st))):
                d = dict(n=n, basis_vectors=q, construction=name, balanced=bal, style=st, target=v)
                with Impl(ctx, 'programming a set of orthogonal basis vectors', d):
                    A = f().matrix()
                    ctx.count('partial targets')
                    if A.shape != (n, n) or not close(A[n - q:], v, TOL):
                        ctx.violate('the last outputs of the circuit realise the basis vectors', dict(d, got=A)); continue
                    if not close(A @ A.conj().T, np.eye(n), TOL):
                        ctx.violate('the programmed circuit is unitary', dict(d, err=err(A @ A.conj().T, np.eye(n))))
                    if not np.array_equal(v, v0):
                        ctx.violate('the target is left unchanged', d); v = v0.copy()
        # correctable splitter errors
        bal = bool(rng.getrandbits(1))
        mean, std = rng.choice([(.1, 0), (-.2, 0), (0, .08), (.05, .05), (.4, 0)])
        d = dict(n=n, construction='cascade with splitter errors', balanced=bal, style=st, errors=(mean, std), target=u)
        with Impl(ctx, 'programming a cascade with splitter errors', d):
            ideal = cascade(u, balanced=bal, phase_style=st)
            s = required(ideal)
            m = cascade(u, balanced=bal, phase_style=st, error_mean_std=(mean, std))
            e, l = cz.errors_of([dict(err=x.bs_error, loss=x.loss) for x in sorted(m.nodes, key=lambda x: x.node_id)])
            if np.max(np.abs(e)) == 0:
                ctx.violate('requested splitter errors are applied', d)
            lo, hi = np.sin(e[:, 0] - e[:, 1]) ** 2, np.cos(e[:, 0] + e[:, 1]) ** 2
            if np.all((s <= hi - 1e-4) & (s >= np.where(lo < 1e-12, -1, lo + 1e-4))):
                ctx.count('correctable errors')
                A = m.matrix()
                if not close(A, u, 3 * TOL):
                    ctx.violate('correctable splitter errors do not change the realised unitary', dict(d, err=err(A, u)))
                # the same circuit rebuilt coupler by coupler carries exactly those errors
                ref = cz.build([dict(id=x.node_id, top=x.top, bottom=x.bottom, col=x.column, err=x.bs_error, loss=x.loss) for x in m.nodes], n, st)
                if not close(ref.matrix(m.params), u, 3 * TOL):
                    ctx.violate('the circuit with errors is made of its own couplers', dict(d, err=err(ref.matrix(m.params), u)))
        if ctx.full:
            return
    # photonic SVD
    byn = {}
    for u in mid + longer + short:
        byn.setdefault(len(u), []).append(u)
    for k in range(40 if ctx.quick else 300):
        n = rng.choice(sorted(byn))
        a, b = rng.choice(byn[n]), rng.choice(byn[n])
        D = [rng.choice([0, 1, 1, 2, .5, 3]) for _ in range(n)]
        mat = a @ np.diag(D) @ b
        if k % 5 == 0:
            mat = np.random.randn(n, n) + (1j * np.random.randn(n, n) if k % 2 else 0)
        if k % 4 == 0 and n > 2:                 # more outputs than inputs or the other way round
            mat = mat[:rng.randrange(2, n)] if k % 8 else mat[:, :rng.randrange(2, n)]
        p, q = mat.shape
        d = dict(shape=(p, q), matrix=mat)
        with Impl(ctx, 'photonic SVD', d):
            m0 = mat.copy()
            l, s, r = psvd(mat)
            if (l.n, r.n) != (p, q):
                ctx.violate('the photonic SVD has one circuit for the outputs and one for the inputs', dict(d, got=(l.n, r.n))); continue
            S = np.zeros((p, q)); S[np.arange(min(p, q)), np.arange(min(p, q))] = s
            got = l.matrix() @ S @ r.matrix()
            ctx.count('svd')
            if not close(got, mat, 2e-4 * max(1, np.max(np.abs(mat)))):
                ctx.violate('the photonic SVD recombines to the target', dict(d, err=err(got, mat)))
            if not np.array_equal(mat, m0):
                ctx.violate('the target is left unchanged', d)
            if np.any(np.asarray(s) < 0):
                ctx.violate('singular values are non-negative', d)
        if ctx.full:
            return
