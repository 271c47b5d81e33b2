"""C26: design objectives score exactly the mismatch; matrix optimisation descends it."""
import math
import numpy as np
from harness.core import Impl, tlc, decm, decv, close, err
from harness import circuits as cz

META = dict(level='model_checking', technique='TLA+ (Objective.tla) exact scores of histories of transformed measurements with Cauchy-Schwarz bounds as invariants, and (Grad.tla) exact gradients of the transfer overlap; replayed by the real objectives and optimiser updates',
            note='TLC enumerates histories of phases, scales, exchanges, matches and single-entry changes of measured scattering parameters and matrices, proves that scores are bounded, that the bound is attained exactly by multiples of the target and that phases do not matter, and emits the exact scores; SimGrid.fidelity and normalized_error (NumPy, JAX) must return them. For sampled circuits with splitter errors and losses TLC computes transfer matrix and exact derivatives of its overlap and norm, from which the value and first Adam step of matrix_opt follow; later steps are compared with an independent Adam on the differentiated circuit.',
            rule='one behaviour per (objective, history) and per (circuit, target)',
            assumptions=['gradients are not compared where the error or a derivative vanishes (Adam divides by its size)'])


def run(ctx):
    rng = ctx.rng
    np.random.seed(ctx.seed)
    objectives(ctx, rng)
    if not ctx.full:
        matrix_opt(ctx, rng)


def val(z):
    return complex(z[0], z[1]) / z[2]


def objectives(ctx, rng):
    import jax, jax.numpy as jnp
    from simphox.sim import SimGrid
    from simphox.grid import Port
    from simphox.utils import normalized_error
    plan, info = [], []
    gz = lambda k=2: [rng.randrange(-k, k + 1), rng.randrange(-k, k + 1)]

    def nz(n, k=2):
        while True:
            v = [gz(k) if rng.random() < .8 else [0, 0] for _ in range(n)]
            if any(map(any, v)):
                return v
    depth = 2 if ctx.quick else 3
    for i in range(14 if ctx.quick else 30):
        n = rng.choice([1, 2, 3, 4])
        w = rng.choice([[0, 1], [0, 1], [1, 4], [1, 2], [1, 1]])
        plan.append(dict(kind='fid', d=nz(n) if i % 4 else [[abs(a), 0] for a, b in nz(n)], x=nz(n), w=w, z=rng.choice([[2, 0], [1, 1], [0, -1], [2, 1]]), bump=rng.randrange(n) + 1, depth=depth, swap=True))
        if not any(map(any, plan[-1]['d'])):
            plan[-1]['d'][0] = [1, 0]
        info.append((n,))
    for i in range(14 if ctx.quick else 30):
        n = rng.choice([1, 2, 3]) if i % 3 else 2
        p = list(range(n)); rng.shuffle(p)
        units = [[1, 0], [0, 1], [-1, 0], [0, -1]]
        if n == 2 and rng.random() < .5:
            u = rng.choice([[[[1, 0], [1, 0]], [[1, 0], [-1, 0]]], [[[1, 0], [0, 1]], [[0, 1], [1, 0]]], [[[1, 1], [1, -1]], [[1, -1], [1, 1]]]])      # multiples of unitaries
        else:
            u = [[rng.choice(units) if p[r] == c else [0, 0] for c in range(n)] for r in range(n)]
        plan.append(dict(kind='mat', d=[z for row in u for z in row], x=nz(n * n), w=[0, 1], z=rng.choice([[2, 0], [1, 1], [3, 0]]), bump=rng.randrange(n * n) + 1, depth=depth, swap=False))
        info.append((n,))
    for i in range(8 if ctx.quick else 20):
        x = nz(4)
        if not any(x[1]) and not any(x[2]):
            x[1 + i % 2] = [1, -1]
        plan.append(dict(kind='split', d=nz(4), x=x, w=[0, 1], z=rng.choice([[2, 0], [1, 1]]), bump=rng.randrange(4) + 1, depth=depth, swap=False))
        if not any(map(any, plan[-1]['d'][1:3])):
            plan[-1]['d'][1] = [2, 1]
        info.append((4,))
    out, _ = tlc('Objective', plan, invariants=['Bounded', 'Attained'], properties=['Invariance'], timeout=600)
    lim = 700 if ctx.quick else 6000
    if len(out) > lim:
        out = rng.sample(out, lim)
    for o in out:
        p, (n,) = plan[o['gi'] - 1], info[o['gi'] - 1]
        d, x = np.array([val(z) for z in o['d']]), np.array([val(z) for z in o['x']])
        want = o['score'][0] / o['score'][2]
        ctx.count('behaviours')
        ctx.sample(o)
        if p['kind'] == 'fid':
            dd = dict(desired=d, measured=x, insertion_weight=p['w'][0] / p['w'][1], history=o['hist'])
            with Impl(ctx, 'fidelity of scattering parameters', dd):
                names = ['a0', 'a1', 'b0', 'b1'][:n]
                sim = SimGrid((2., 2.), .5)
                ports = names[:]
                rng.shuffle(ports)
                multi = rng.random() < .5
                pairs = [(a, rng.choice([0, 1]) if multi else 0) for a in names]
                if multi or rng.random() < .5:
                    sim.port = {a: Port(1, 1, 0, 1) for a in ports + ['z9']}
                    kw = dict(measure_info=pairs)
                else:
                    sim.port = {a: Port(1, 1, 0, 1) for a in names}
                    kw = {}
                items = [((a if m == 0 and rng.random() < .5 else (a, m)), z) for (a, m), z in zip(pairs, d)
                         if abs(z) > 0 or rng.random() < .5]
                rng.shuffle(items)
                if all(z.imag == 0 for _, z in items):
                    items = [(k, z.real) for k, z in items]
                desired = dict(items)
                # the scale of the desired parameters does not matter
                f = rng.choice([1, 1, .5, 3])
                desired = {k: z * f for k, z in desired.items()}
                obj = sim.fidelity(desired, insertion_weight=p['w'][0] / p['w'][1], **kw)
                fields = jnp.ones((2, 3, 2, 2, 1))
                cost, rest = obj((jnp.array(x), fields))
                if not abs(float(cost) + want) <= 2e-5 * max(1, abs(want)):
                    ctx.violate('fidelity scores the power in the desired combination', dict(dd, desired_given=desired, got=float(cost), want=-want))
                if not close(rest[0], x, 1e-6) or np.shape(rest[1]) != np.shape(fields):
                    ctx.violate('fidelity passes the measurement through', dict(dd, got=rest[0]))
                ctx.count('fidelities')
        elif p['kind'] == 'split':
            dd = dict(measured=x, history=o['hist'])
            with Impl(ctx, 'splitter metrics', dd):
                import xarray as xr
                from simphox.utils import splitter_metrics
                order = [0, 1, 2, 3]
                rng.shuffle(order)
                names = ['a0', 'b0', 'b1', 'a1']
                got = splitter_metrics(xr.DataArray(x[order], dims=['port'], coords={'port': [names[i] for i in order]}))
                q = [z[0] / z[2] for z in o['powers']]
                exp = dict(reflectivity=want, transmissivity=1 - want, reflection=q[0], insertion=o['total'][0] / o['total'][2], upper=q[1], lower=q[2])
                if set(got) != set(exp) or any(abs(float(got[k]) - v) > 1e-12 * max(1, v) for k, v in exp.items()):
                    ctx.violate('splitter metrics are the shares of the measured powers', dict(dd, got={k: float(v) for k, v in got.items()}, want=exp))
                ctx.count('splitters')
        else:
            u, v = d.reshape(n, n), x.reshape(n, n)
            u = u / math.sqrt((np.abs(u[0]) ** 2).sum())
            dd = dict(target=u, matrix=v, history=o['hist'])
            for use_jax in (False, True):
                with Impl(ctx, 'normalised error of matrices', dict(dd, use_jax=use_jax)):
                    u0, v0 = u.copy(), v.copy()
                    got = float(normalized_error(u0, use_jax=use_jax)(jnp.array(v0) if use_jax else v0))
                    # single precision square root of rounding errors near zero
                    if not (np.isfinite(got) and abs(got ** 2 - want) <= (5e-6 if use_jax else 1e-12) * 10 and got >= 0):
                        ctx.violate('normalised error of a matrix', dict(dd, use_jax=use_jax, got=got, want=math.sqrt(max(want, 0))))
                    if not (np.array_equal(u, u0) and np.array_equal(v, v0)):
                        ctx.violate('scoring leaves the matrices unchanged', dd)
                    ctx.count('errors')
        if ctx.full:
            return


def matrix_opt(ctx, rng):
    import jax, jax.numpy as jnp
    g = lambda z: (int(z.real), 0, int(z.imag), 0, 0, 0)
    cases, plans = [], []
    jobs = [(a, s) for a in cz.ARCHS + ['random'] for s in ('top', 'bottom', 'differential', 'symmetric')]
    for arch, style in (rng.sample(jobs, 7) if ctx.quick else jobs + jobs):
        n = rng.choice([2, 3, 3, 4])
        if arch == 'embedded':
            n = max(n, 3)
        with Impl(ctx, 'building a circuit', dict(arch=arch, n=n, style=style)):
            c = cz.make_case(rng, arch, n, style, rng.choice(['none', 'sym', 'asym']), rng.choice(['none', 'some']), ctx, 0, False, budget=2)
            if not c:
                continue
            N = len(c['plan']['gam']) if 'gam' in c['plan'] else n
            n = c['n'] = c['plan']['n']
            p = list(range(n)); rng.shuffle(p)
            U = np.zeros((n, n), complex)
            for r in range(n):
                U[r, p[r]] = rng.choice([1, 1j, -1, -1j])
            c['U'] = U
            k = len(cases)
            for t in (U, 1j * U, 0 * U):
                q = dict(c['plan'])
                q['x'] = [[g(complex(r == k2)) for r in range(n)] for k2 in range(n)]
                q['w'] = np.ones((n, n), int).tolist()
                q['t'] = [[g(complex(t[r, k2])) for k2 in range(n)] for r in range(n)]
                plans.append(q)
            cases.append(c)
    recs, _ = tlc('Grad', plans, invariants=['GradsReal', 'ScreenFree', 'Euler'], timeout=800)
    by = {r['gi'] - 1: r for r in recs}
    for k, c in enumerate(cases):
        n, mesh, U, desc = c['n'], c['mesh'], c['U'], dict(c['desc'], target=c['U'])
        rr = [by[3 * k + i] for i in range(3)]
        V = decm(rr[0]['out'])
        gs = [decv(r['grads']).real for r in rr]
        t = np.trace(U.conj().T @ V)
        q = np.sum(np.abs(V) ** 2)
        dq = gs[2]
        # d |v - T|^2 = dq - 2 d Re <T, v>
        dre, dim = (dq - gs[0]) / 2, (dq - gs[1]) / 2
        # Re <iU, V> = Im <U, V>
        d2 = -(2 * (t.real * dre + t.imag * dim) / (n * q) - abs(t) ** 2 * dq / (n * q * q))
        e = math.sqrt(max(0., 1 - abs(t) ** 2 / (n * q)))
        N = mesh.num_nodes
        with Impl(ctx, 'matrix optimisation', desc):
            step = rng.choice([.1, .01, .03])
            start = mesh.params
            given = None
            use = mesh
            if rng.random() < .5:
                import copy
                use = copy.deepcopy(mesh)
                use.params = tuple(np.random.rand(*p.shape) for p in start)      # starts from the parameters passed in
                given = tuple(np.array(p) for p in start)
            state, update, get = use.matrix_opt(U, given, step_size=step, use_jit=rng.random() < .3)
            p0 = [np.asarray(a) for a in get(state)]
            if not all(close(a, b, 1e-5) for a, b in zip(p0, start)):
                ctx.violate('optimisation starts from the given parameters', desc)
                continue
            v, s1 = update(0, state)
            ctx.count('behaviours')
            if not abs(float(v) ** 2 - e ** 2) <= 1e-4:
                ctx.violate('an update returns the error of the current settings', dict(desc, got=float(v), want=e))
                continue
            p1 = np.concatenate([np.asarray(a).ravel() for a in get(s1)])
            if not np.all(np.isfinite(p1)):
                ctx.violate('an update keeps finite settings', dict(desc, error=e))
                continue
            if e > .05:
                grad = d2 / (2 * e)
                delta = p1 - np.concatenate([a.ravel() for a in p0])
                clear = np.abs(grad) > 2e-3
                # Adam's first step has the size of the rate and the sign of the slope
                if not close(delta[clear], -step * np.sign(grad[clear]), 2e-3 * step):
                    j = np.where(clear)[0][int(np.argmax(np.abs(delta[clear] + step * np.sign(grad[clear]))))]
                    ctx.violate('an update is one Adam step down the true gradient', dict(desc, index=int(j), moved=float(delta[j]), slope=float(grad[j]), rate=step))
                    continue
                ctx.count('first steps', int(clear.sum()))
            # later steps: an independent Adam on the differentiated circuit
            fn = use.matrix_fn(use_jax=True)

            def cost(ps):
                y = fn(ps)
                r = 1 - jnp.abs(jnp.sum(jnp.array(U).conj() * y)) ** 2 / (n * jnp.sum(jnp.abs(y) ** 2))
                return jnp.sqrt(jnp.maximum(r, 1e-30))
            vg = jax.value_and_grad(cost)
            ps = [jnp.array(a, dtype=jnp.float64) if False else jnp.array(a) for a in p0]
            m = [0 * np.asarray(a, float) for a in ps]; s = [0 * np.asarray(a, float) for a in ps]
            st = state
            for i in range(3 if ctx.quick else 6):
                val_, gr = vg(tuple(ps))
                v, st = update(i, st)
                if float(val_) < .05:
                    break
                if abs(float(v) - float(val_)) > 2e-3:
                    ctx.violate('every update returns the error of the current settings', dict(desc, iteration=i, got=float(v), want=float(val_)))
                    break
                gr = [np.asarray(a, float) for a in gr]
                if min(np.abs(a).min() for a in gr) < 1e-4:
                    # follow the optimiser where a slope vanishes
                    ps = [jnp.array(a) for a in get(st)]
                    m = [.9 * a + .1 * b for a, b in zip(m, gr)]; s = [.999 * a + .001 * b * b for a, b in zip(s, gr)]
                    continue
                m = [.9 * a + .1 * b for a, b in zip(m, gr)]; s = [.999 * a + .001 * b * b for a, b in zip(s, gr)]
                new = [np.asarray(p, float) - step * (a / (1 - .9 ** (i + 1))) / (np.sqrt(b / (1 - .999 ** (i + 1))) + 1e-8) for p, a, b in zip(ps, m, s)]
                got = [np.asarray(a, float) for a in get(st)]
                if not all(close(a, b, 5e-2 * step) for a, b in zip(got, new)):
                    ctx.violate('later updates continue the same Adam run', dict(desc, iteration=i))
                    break
                ps = [jnp.array(a) for a in got]
                ctx.count('later steps')
        if ctx.full:
            return
