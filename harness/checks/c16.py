"""C16: a direct sparse solve never depends on earlier solves."""
import numpy as np
from harness.core import Impl, tlc, close, err
from harness import em

META = dict(level='model_checking', technique='TLA+ (Solve.tla) enumeration of all short histories of solves with a cached factorization; every history is replayed in one process',
            note='TLC enumerates every history (depth 3; thorough adds a deeper sweep over fewer requests) over a catalogue of related Gaussian-integer systems (same pattern with one entry changed, transposes, conjugates, equal-sized patterns, scaled, singular, other sizes), checks by Cramer\'s rule that the planned solutions are the only ones, and that the cache model answers every request with them; each history is replayed through spsolve_pardiso, the JAX spsolve and its gradients in random formats.',
            rule='one behaviour per history of requests',
            assumptions=['a singular system may fail in any way but must not affect later solves', 'real matrices given to the complex solver may be rejected with ValueError'])


def catalogue(rng):
    """related matrices (lists of lists of exact values)"""
    n = rng.choice([3, 4])
    dens = .6
    A = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i == j:
                A[i][j] = rng.choice([1, -1]) * complex(rng.choice([7, 8, 9]), rng.choice([0, 1, 2]))
            elif rng.random() < dens:
                A[i][j] = complex(rng.choice([1, -1, 2]), rng.choice([0, 1, -1]))
    A[0][n - 1] = A[0][n - 1] or 1 + 0j
    A[n - 1][0] = 0
    one = [r[:] for r in A]; one[0][n - 1] += 1 + 1j
    last = [r[:] for r in A]; last[n - 1][n - 1] += 2
    two = [r[:] for r in A]; two[0][0] += 1; two[n - 1][n - 1] -= 1            # equal sum of entries
    conj = [[complex(x).conjugate() for x in r] for r in A]
    neg = [[-x for x in r] for r in A]
    swap = [r[:] for r in A]; swap[0][n - 1], swap[n - 1][0] = swap[n - 1][0], swap[0][n - 1]   # other pattern, same number
    perm = A[1:] + A[:1]
    sing = [r[:] for r in A]; sing[1] = sing[0][:]
    zero = [r[:] for r in A]; zero[n - 1] = [0] * n
    real = [[complex(int(complex(x).real) or (3 if i == j else 0)) for j, x in enumerate(r)] for i, r in enumerate(A)]
    m = n - 1
    small = [r[:m] for r in A[:m]]
    tiny = [[2 * x for x in r] for r in A]
    return dict(base=A, one=one, last=last, two=two, conj=conj, neg=neg, swap=swap, perm=perm, sing=sing, zero=zero, real=real, small=small, twice=tiny)


def structured(rng, kind):
    """related matrices of a structure a solver may be made for"""
    n = rng.choice([3, 4])
    cx = kind in ('symmetric', 'hermitian')
    big = 20 if kind in ('hermitian', 'real symmetric') else 9      # positive definite where a solver asks for it
    A = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i == j:
                A[i][j] = complex(rng.choice([big, big + 1, big + 2]), rng.choice([0, 1, 2]) if kind == 'symmetric' else 0)
            elif i < j or kind == 'real':
                A[i][j] = complex(rng.choice([1, -1, 2, 0]), rng.choice([0, 1, -1]) if cx else 0)
                if kind != 'real':
                    A[j][i] = A[i][j].conjugate() if kind == 'hermitian' else A[i][j]
    def edit(B, i, j, v):
        B = [r[:] for r in B]
        B[i][j] += v
        if i != j:
            B[j][i] += v.conjugate() if kind == 'hermitian' else v
        return B
    if kind == 'real':
        A[0][n - 1] = A[0][n - 1] or 1 + 0j
    sing = [[0 if n - 1 in (i, j) else x for j, x in enumerate(r)] for i, r in enumerate(A)]
    return dict(base=A, one=edit(A, 0, n - 1, 1 + 1j if cx else 1 + 0j), last=edit(A, n - 1, n - 1, 2 + 0j),
                two=edit(edit(A, 0, 0, 1 + 0j), n - 1, n - 1, -1 + 0j), twice=[[2 * x for x in r] for r in A], sing=sing,
                small=[r[:n - 1] for r in A[:n - 1]])


MTYPES = {'any': (13,), 'real': (11,), 'symmetric': (6,), 'real symmetric': (2, -2), 'hermitian': (4, -4)}


def det(A):
    return np.linalg.det(np.array(A, complex))


def run(ctx):
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as jnp
    import scipy.sparse as sp
    from simphox.mkl import spsolve_pardiso, Pardiso
    from simphox.primitives import spsolve
    rng = ctx.rng
    npr = np.random.default_rng(rng.randrange(10 ** 6))

    def to_sparse(A, fmt):
        A = np.array(A, complex)
        r, c = np.nonzero(A)
        v = A[r, c]
        if fmt == 'coo':
            p = npr.permutation(len(r))
            return sp.coo_matrix((v[p], (r[p], c[p])), shape=A.shape)
        if fmt == 'csr-unsorted':
            o = np.concatenate([npr.permutation(np.nonzero(r == i)[0]) for i in range(len(A))]).astype(int)
            m = sp.csr_matrix((v[o], c[o], np.concatenate([[0], np.cumsum(np.bincount(r, minlength=len(A)))])), shape=A.shape)
            return m
        if fmt == 'csr-duplicates':
            r2 = np.concatenate([r, r]); c2 = np.concatenate([c, c]); v2 = np.concatenate([v - 2 - 1j, np.full(len(v), 2 + 1j)])
            o = np.concatenate([np.nonzero(r2 == i)[0] for i in range(len(A))]).astype(int)
            return sp.csr_matrix((v2[o], c2[o], np.concatenate([[0], np.cumsum(np.bincount(r2, minlength=len(A)))])), shape=A.shape)
        if fmt == 'csr-strided':
            m = sp.csr_matrix(A)
            return sp.csr_matrix((np.repeat(m.data, 2)[::2], np.repeat(m.indices, 3)[::3], m.indptr), shape=A.shape)
        if fmt == 'csr-wide':
            m = sp.csr_matrix(A)
            m.indices, m.indptr = m.indices.astype(np.int64), m.indptr.astype(np.int64)
            return m
        if fmt == 'explicit-zeros':
            return sp.csr_matrix((A.ravel(), np.tile(np.arange(len(A)), len(A)), np.arange(len(A) + 1) * len(A)), shape=A.shape)
        return {'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'lil': sp.lil_matrix}[fmt](A)
    FMT = ['csr', 'csr', 'csc', 'coo', 'csr-unsorted', 'csr-duplicates', 'explicit-zeros', 'lil', 'csr-strided', 'csr-wide']

    def sweep(names, depth, tag, kinds=()):
        """requests "matrix:options"; matrices of the k-th structured solver are named "k.matrix" """
        singular = lambda k: k.split('.')[-1] in ('sing', 'zero')
        while True:
            cat = catalogue(rng)
            for a, kind in enumerate(kinds):
                cat.update({f'{a + 2}.{k}': v for k, v in structured(rng, kind).items()})
            if all((abs(det(cat[k])) < 1e-9) == singular(k) for k in cat) and all(abs(det(cat[k])) > .5 for k in cat if not singular(k)):
                break
        cq = lambda z: em.q(round(complex(z).real), round(complex(z).imag))
        mats = [[[cq(x) for x in row] for row in cat[k]] for k in cat]
        keys = list(cat)
        reqs, how = [], []
        for nm in names:
            k, *opt = nm.split(':')
            n = len(cat[k])
            sv = int(k.split('.')[0]) if '.' in k else 1
            r = dict(m=keys.index(k) + 1, x=em.ints(rng, n, 3), t='t' in opt, u=em.ints(rng, n, 3), sing=singular(k), s=sv, op='factor' if 'factor' in opt else 'free' if 'free' in opt else 'solve')
            if sv > 1 and 'real' in kinds[sv - 2]:
                r['x'] = [em.q(v[0]) for v in r['x']]
            if 'same' in opt:
                r['x'] = reqs[0]['x']
            reqs.append(r)
            how.append((k, 'vjp' if 'vjp' in opt else 'multi' if 'multi' in opt else 'solve'))
        recs, _ = tlc('Solve', dict(mats=mats, reqs=reqs, kinds=['any'] + list(kinds), depth=depth), invariants=['Own', 'CacheIsLast', 'Systems'], timeout=600)
        B = {r['k']: r for r in recs if 'k' in r}
        hists = [r for r in recs if 'h' in r]
        assert (len(hists) == len(reqs) ** depth or kinds) and hists and len(B) == len(reqs)
        A = [np.array(cat[k], complex).T if r['t'] else np.array(cat[k], complex) for r, (k, _) in zip(reqs, how)]
        rng.shuffle(hists)
        own = {1: Pardiso(13)} if tag == 'private' else {}
        own.update({a + 2: Pardiso(rng.choice(MTYPES[kind])) for a, kind in enumerate(kinds)})
        if kinds:
            rng.shuffle(hists)
            hists = hists[:800 if ctx.quick else 6000]
        for hrec in hists:
            ctx.count('behaviours')
            trace = []
            for pos, (k, sol) in enumerate(zip(hrec['h'], hrec['sol'])):
                r, (nm, op) = reqs[k - 1], how[k - 1]
                a, x, b = A[k - 1], em.dqs(r['x']), em.dqs(B[k]['b'])
                fmt = rng.choice(FMT)
                d = dict(history=trace + [f'{nm}{"^T" if r["t"] else ""}/{op}/{fmt}'], matrix=a, position=pos)
                trace = d['history']
                m = to_sparse(a, fmt)
                private = own.get(r['s'])
                if r['s'] > 1 and 'real' in kinds[r['s'] - 2]:
                    m, b = m.real, b.real.copy()
                if r['s'] > 1:
                    m = m.tocsr()
                    d['solver'] = private.mtype
                if r['op'] == 'free':
                    with Impl(ctx, 'dropping a factorization', d):
                        private.free(rng.random() < .5)
                    continue
                if r['op'] == 'factor':
                    if not sol:
                        try:
                            private.factor(m.tocsr())
                        except Exception:
                            pass
                        continue
                    with Impl(ctx, 'factorizing ahead', d):
                        private.factor(m.tocsr())
                    continue
                tol = 1e-9 * (1 + np.abs(x).max())
                if rng.random() < .3:      # systems are linear: tiny and huge right-hand sides (scaled exactly)
                    f = 2. ** rng.choice([-60, -45, -20, 40])
                    x, b, tol = f * x, f * b, f * tol
                    d['scale'] = f
                ctx.count('solves')
                ms = m.toarray().copy()
                if not sol:
                    try:
                        (private.solve(m.tocsr(), b) if private else spsolve_pardiso(m, b))
                    except Exception:
                        pass
                    continue
                with Impl(ctx, 'solving', d):
                    if op == 'multi':
                        f = (1 - 2j if np.iscomplexobj(b) else -2.) * rng.choice([1, 2. ** -45, 1])
                        rhs = np.stack([b, f * b, 0 * b], 1)
                        rhs = np.asfortranarray(rhs) if rng.random() < .5 else rhs
                        keep = rhs.copy()
                        got = private.solve(m.tocsr(), rhs) if private else spsolve_pardiso(m, rhs)
                        if not (close(got, np.stack([x, f * x, 0 * x], 1), tol * 3) and close(got[:, 1], f * x, tol * abs(f))):
                            ctx.violate('a solve returns the solution of its own system', d)
                        if not np.array_equal(rhs, keep):
                            ctx.violate('right-hand sides are left unchanged', d)
                    elif op == 'vjp':
                        rr, cc = np.nonzero(a)
                        u, g = em.dqs(r['u']), em.dqs(B[k]['g'])
                        sol_, back = jax.vjp(lambda v, w: spsolve(v, w, jnp.array([rr, cc])), jnp.array(a[rr, cc]), jnp.array(b))
                        gv, gb = back(jnp.array(g))
                        if not close(sol_, x, tol):
                            ctx.violate('the JAX solve returns the solution of its own system', d)
                        if not (close(gb, u, 1e-8 * (1 + np.abs(u).max())) and close(gv, -u[rr] * x[cc], 1e-7 * (tol / 1e-9 + np.abs(u).max() * np.abs(x).max()))):
                            ctx.violate('gradients of a solve are those of its own system', d)
                    else:
                        keep = b.copy()
                        got = private.solve(m.tocsr(), b) if private else spsolve_pardiso(m, b)
                        if not close(got, x, tol):
                            ctx.violate('a solve returns the solution of its own system', dict(d, err=err(got, x)))
                        if not np.array_equal(b, keep):
                            ctx.violate('right-hand sides are left unchanged', d)
                        got[:] = 0          # results belong to the caller
                if not np.array_equal(m.toarray(), ms):
                    ctx.violate('matrices are left unchanged', d)
                if nm == 'real' and rng.random() < .3 and r['s'] == 1:
                    try:
                        g2 = spsolve_pardiso(sp.csr_matrix(a.real), b)
                        if not close(g2, x, tol):
                            ctx.violate('a real matrix is solved or rejected', d)
                    except (ValueError, TypeError):
                        pass
                if op == 'solve' and rng.random() < .05 and fmt in ('csr', 'coo', 'csc') and not private:
                    with Impl(ctx, 'solving a matrix edited in place', d):
                        m2 = m.tocsr().copy()
                        spsolve_pardiso(m2, b)
                        m2.data *= 2
                        if not close(spsolve_pardiso(m2, b), x / 2, tol):
                            ctx.violate('a matrix edited in place is solved anew', d)
            if ctx.full:
                return
        ctx.sample(dict(requests=how, example=hists[0]['h']))
    sweep(['base', 'one', 'base:t', 'last', 'sing', 'swap', 'conj', 'base:multi', 'two:same', 'small'], 3, 'shared')
    sweep(['base', 'base:vjp', 'base:t:vjp', 'zero', 'real', 'perm', 'one:vjp'], 2 if ctx.quick else 3, 'shared')
    sweep(['base', 'last', 'sing', 'neg', 'base:t'], 4 if ctx.quick else 5, 'private')
    mix = lambda a: [f'{a}.base', f'{a}.one', f'{a}.sing', f'{a}.two:factor', f'{a}.base:factor', f'{a}.base:free', f'{a}.last:multi', f'{a}.small']
    todo = [('symmetric', 'real'), ('real symmetric', 'hermitian')]
    for kinds in todo if ctx.quick else todo * 3:
        sweep(['base', 'base:t'] + mix(2) + mix(3), 3, 'shared', kinds)
    sweep(['base', 'one:factor', 'base:factor', 'base:free', 'sing:factor', 'last', '2.base', '2.base:factor', '2.base:free'], 4 if ctx.quick else 5, 'private', (rng.choice(['real', 'symmetric', 'hermitian', 'real symmetric']),))
    if not ctx.quick:
        for _ in range(6):
            sweep(['base', 'one:same', 'base:t:same', 'last:same', 'sing', 'zero', 'swap', 'conj:multi', 'base:multi', 'two:same', 'small', 'twice:same', 'real'], 3, 'shared')
        sweep(['base', 'one:same', 'zero', 'base:t', 'two:multi', 'small'], 5, 'shared')
