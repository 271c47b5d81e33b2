"""C09: in-situ (optical) differentiation yields the true gradient."""
import numpy as np
from harness.core import Impl, tlc, decm, decv, close, err
from harness import circuits as cz

META = dict(level='model_checking', technique='TLA+ (Grad.tla) exact tangent propagation as oracle for the in-situ and ordinary JAX gradients',
            note='TLC propagates exact tangents for every phase and the exact adjoint for every input of each sampled circuit, cost and input block (invariants: real gradients, Euler identity, screen independence); gradients from the optical rule, all-analog and digital, and from plain differentiation must match entry by entry. Tolerance 2e-4 relative (single precision).',
            rule='one behaviour per (circuit, inputs, quadratic cost)',
            assumptions=['costs are weighted squared distances of the outputs, any real cost reduces to its output sensitivities by the chain rule', 'noise switched off'])


def run(ctx):
    import jax
    import jax.numpy as jnp
    rng = ctx.rng
    np.random.seed(ctx.seed)
    cs = []
    archs = cz.ARCHS + ['random', 'random']
    jobs = [(a, s) for a in archs for s in ('top', 'bottom')]
    if ctx.quick:
        jobs = [(a, ('top', 'bottom')[(i + ctx.seed) % 2]) for i, a in enumerate(rng.sample(cz.ARCHS, 5))] + [('random', 'top'), ('random', 'bottom'), ('random', 'top')]
    for rep in range(1 if ctx.quick else 4):
        for arch, style in jobs:
            n = rng.choice([2, 3, 4, 4] if ctx.quick else [2, 3, 4, 5])
            if arch == 'embedded':
                n = max(n, 3)
            with Impl(ctx, 'building a circuit', dict(arch=arch, n=n, style=style)):
                c = cz.make_case(rng, arch, n, style, rng.choice(['none', 'sym', 'asym']), 'none', ctx, 0, False, budget=2)
                if not c:
                    continue
                K = rng.choice([1, 1, 2, 3])
                c['X'] = np.array([[complex(rng.randrange(-2, 3), rng.randrange(-2, 3)) for _ in range(K)] for _ in range(n)])
                for k in range(K):
                    if not np.any(c['X'][:, k]):
                        c['X'][0, k] = 1
                c['W'] = np.array([[rng.randrange(0, 3) for _ in range(K)] for _ in range(n)])
                c['W'][rng.randrange(n)] += 1
                if len(cs) % 8 == 3:
                    c['W'][:] = 0            # vanishing output gradient
                if len(cs) % 8 == 6:
                    c['X'][:] = 0            # dark inputs
                c['T'] = np.array([[complex(rng.randrange(-2, 3), rng.randrange(-2, 3)) if rng.random() < .6 else 0 for _ in range(K)] for _ in range(n)])
                g = lambda z: (int(z.real), 0, int(z.imag), 0, 0, 0)
                p = c['plan']
                p['x'] = [[g(c['X'][r, k]) for r in range(n)] for k in range(K)]
                p['w'] = c['W'].tolist()
                p['t'] = [[g(complex(c['T'][r, k])) for k in range(K)] for r in range(n)]
                cs.append(c)
    recs, _ = tlc('Grad', [c['plan'] for c in cs], invariants=['GradsReal', 'ScreenFree', 'Euler'], timeout=800)
    assert len(recs) == len(cs)
    for r in recs:
        c = cs[r['gi'] - 1]
        n, mesh, d = c['n'], c['mesh'], c['desc']
        N = len(c['nodes'])
        g = decv(r['grads']).real
        want = (g[:N], g[N:2 * N], g[2 * N:])
        gin = decm(r['gin'])
        out = decm(r['out'])
        K = out.shape[1]
        scale = max(1., np.max(np.abs(g)), np.max(np.abs(gin)))
        tol = 2e-4 * scale * max(1, np.linalg.norm(c['X'])) 
        # fields of any magnitude: the cost is quadratic in (inputs, target), so a power of two factors out exactly
        amp = 2.0 ** rng.choice([0, 0, -14, 12])
        W, T = jnp.array(c['W'], dtype=jnp.float32), jnp.array(c['T'] * amp, dtype=jnp.complex64)
        X = jnp.array(c['X'] * amp, dtype=jnp.complex64)
        ctx.count('behaviours'); ctx.sample(dict(d, gradient=want, inputs=c['X']))
        dd = dict(d, inputs=c['X'], weights=c['W'], target=c['T'], **{'inputs and target times': amp})
        params = tuple(jnp.array(p, dtype=jnp.float32) for p in mesh.params)
        if K == 1 and rng.random() < .5:
            X, vec = X[:, 0], True
        else:
            vec = False

        def cost(f):
            def fn(params, x):
                y = f(params, x, *given)
                return jnp.sum(W * jnp.abs(y.reshape(n, K) - T) ** 2)
            return fn

        def compare(name, grads, gx):
            for label, a, b in zip(('theta', 'phi', 'gamma'), grads, want):
                a = np.asarray(a) / amp ** 2
                ctx.count('gradients')
                if a.shape != b.shape:
                    ctx.violate(f'{name}: one {label} derivative per phase', dict(dd, got=a.shape)); continue
                if not close(a, b, tol):
                    j = int(np.argmax(np.abs(a - b)))
                    ctx.violate(f'{name}: derivative with respect to every {label} phase', dict(dd, index=j, got=a, want=b))
            gx = np.asarray(gx) / amp
            gx = gx.reshape(-1) if gx.size == n * K else gx
            if gx.shape != (n * K,) or not close(gx.reshape(n, K), gin, tol):
                ctx.violate(f'{name}: derivative with respect to the inputs', dict(dd, got=gx, want=gin))
        # the errors of the couplers: those of the circuit, or passed in (to the circuit or to one with other errors)
        use, given = mesh, ()
        how = rng.choice(['own', 'own', 'omitted', 'other'])
        if how == 'other':
            with Impl(ctx, 'a circuit with other errors', dd):
                use = mesh.add_error_mean(error=np.array([[rng.choice([0, .1, -.2]) for _ in 'lr'] for _ in range(N)]), loss_db=0)
        if how != 'omitted':
            given = (jnp.array(mesh.all_errors), jnp.array(mesh.all_losses))
        dd['errors passed'] = how
        forms = [('plain differentiation', lambda: use.matrix_fn(use_jax=True), False)]
        forms += [('in-situ, all analog', lambda: use.in_situ_matrix_fn(), True), ('in-situ, digital subtraction', lambda: use.in_situ_matrix_fn(all_analog=False), True)]
        if ctx.quick and rng.random() < .7:
            forms = forms[1:]
        for name, mk, _ in forms:
            with Impl(ctx, name, dd):
                f = mk()
                y = np.asarray(f(params, X, *given)).reshape(n, K) / amp
                if not close(y, out, 1e-4 * max(1, np.max(np.abs(out)))):
                    ctx.violate(f'{name}: value of the transfer', dict(dd, err=err(y, out)))
                gp, gx = jax.grad(cost(f), argnums=(0, 1))(params, X)
                compare(name, gp, gx)
        if ctx.full:
            return
    # a trained layer uses the circuit's gradient
    with Impl(ctx, 'differentiable layer', None):
        layer_check(ctx, cs, recs)


def layer_check(ctx, cs, recs):
    import haiku as hk, jax, jax.numpy as jnp
    from simphox.circuit.forward import InSituBackpropLayer
    pick = [r for r in recs if cs[r['gi'] - 1]['desc']['errors'] != 'x'][:(1 if ctx.quick else 4)]
    for r in pick:
        c = cs[r['gi'] - 1]
        n, N, d = c['n'], len(c['nodes']), c['desc']
        mesh = c['mesh']
        th, ph, ga = mesh.params
        K = c['X'].shape[1]

        def net(x):
            return InSituBackpropLayer(mesh, set_gammas_zero=False, use_jit=False)(x)
        tr = hk.without_apply_rng(hk.transform(net))
        x = jnp.array(c['X'].T, dtype=jnp.complex64)
        p = tr.init(jax.random.PRNGKey(0), x)
        out = decm(r['out'])
        y = np.asarray(tr.apply(p, x)).T
        ctx.count('layers')
        if not close(y, out, 1e-4 * max(1, np.max(np.abs(out)))):
            ctx.violate('a layer applies its circuit', dict(d, err=err(y, out)))
            continue
        W, T = jnp.array(c['W'], dtype=jnp.float32), jnp.array(c['T'], dtype=jnp.complex64)
        g = jax.grad(lambda p: jnp.sum(W * jnp.abs(tr.apply(p, x).T - T) ** 2))(p)
        g = list(g.values())[0]
        want = decv(r['grads']).real
        got = np.concatenate([np.asarray(g[k]) for k in ('theta', 'phi', 'gamma')])
        if not close(got, want, 2e-4 * max(1, np.max(np.abs(want))) * max(1, np.linalg.norm(c['X']))):
            ctx.violate("a layer's parameter gradient is the true gradient", dict(d, got=got, want=want))
