"""C24: optimisation runs record exactly what they computed."""
import numpy as np
from harness.core import Impl, tlc, close, err

META = dict(level='model_checking', technique='TLA+ (Opt.tla) state machine of a run (which parameter version every record comes from), enumerated over configurations; each is replayed by opt_run',
            note='TLC enumerates iterations, intervals, problem sets and observers, checks that histories are sampled at exactly the multiples of their interval, from the right parameter version, and independently of progress bars and visualisation, and emits the expected record; opt_run must return it, with the values recomputed from the parameter versions of an independent Adam replay. Problems use a subclass of SimGrid with linear fields, plus real FDFD simulations.',
            rule='one behaviour per configuration', assumptions=['the update rule is Adam with the documented step size'])


class Pipe:
    def __init__(self):
        self.got = []

    def send(self, x):
        self.got.append(x)


class Bar:
    def __init__(self, it):
        self.it, self.said = it, []

    def __iter__(self):
        return iter(self.it)

    def set_description(self, s):
        self.said.append(s)


def adam(x, grads, step):
    """independent replay of Adam; grads(x) -> gradient; yields the versions"""
    x = np.array(x, float)
    m = np.zeros_like(x)
    v = np.zeros_like(x)
    i = 0
    while True:
        yield x
        g = grads(x)
        m = .9 * m + .1 * g
        v = .999 * v + .001 * g * g
        i += 1
        x = x - step * (m / (1 - .9 ** i)) / (np.sqrt(v / (1 - .999 ** i)) + 1e-8)


def run(ctx):
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as jnp
    import xarray as xr
    from simphox.opt import opt_run, OptProblem, OptViz
    from simphox.sim import SimGrid
    from simphox.fdfd import FDFD
    from simphox.grid import Port
    rng = ctx.rng
    npr = np.random.default_rng(rng.randrange(10 ** 6))
    SH = (3, 2)

    class LinSim(SimGrid):
        """fields and scattering parameters linear in the permittivity"""

        def __init__(self, name, k):
            super().__init__((3., 2.), 1., name=name)
            self.port = {'a0': Port(0, 1, 180, 1), 'b0': Port(3, 1, 0, 1)}
            self.k = k

        def fields_np(self, eps):
            e = np.stack([self.k * eps, eps + 1, 0 * eps]).reshape(3, *SH, 1)
            return e, np.stack([eps * 0, eps, (self.k + 1j) * eps]).reshape(3, *SH, 1)

        def s_np(self, eps):
            return np.array([eps.sum() * self.k, (1j + self.k) * eps[0, 0] + eps[1, 1]])

        def get_sim_sparams_fn(self, port_name=None, transform_fn=None, *a, **kw):
            t = transform_fn or (lambda x: x)

            def fn(rho):
                eps = t(rho)
                e = jnp.stack([self.k * eps, eps + 1, 0 * eps]).reshape(3, *SH, 1)
                h = jnp.stack([eps * 0, eps, (self.k + 1j) * eps]).reshape(3, *SH, 1)
                return jnp.stack([eps.sum() * self.k + 0j, (1j + self.k) * eps[0, 0] + eps[1, 1]]), jnp.stack((e + 0j, h))
            return fn
    # the kinds of problems: (simulation?, metrics, transform?, zero gradient?)
    KINDS = dict(a=(True, ['p', 'q'], 'scale'), b=(True, ['p'], None), c=(True, [], 'shift'), d=(False, [], None), e=(False, [], 'scale'), z=(True, ['p', 'q'], 'zero'),
                 n=('unsolved', [], 'scale'), m=('unsolved', [], None))        # a simulation without a source only holds the design
    problems = ['a', 'd', 'ab', 'ca', 'ada', 'e', 'z', 'de', 'c', 'aa', 'n', 'na', 'm', 'amd']
    T = dict(scale=lambda r: 2 * r + 1, shift=lambda r: r - .5, zero=lambda r: r * r)

    def problem(kind, idx, names):
        sim, metrics, tr = KINDS[kind]
        t = T.get(tr)
        tt = t or (lambda r: r)
        k = 1 + idx
        if sim is True:
            s = LinSim(names[idx], k)
            if kind == 'z':
                cost = lambda sf: (0 * jnp.abs(sf[0][0]) ** 2 + 7., jax.lax.stop_gradient(sf))
                c_np, g_np = (lambda x: 7.), (lambda x: 0 * x)
            else:
                # |s_0|^2 + |s_1|^2 / 4, by hand in terms of the permittivity
                cost = lambda sf: (jnp.abs(sf[0][0]) ** 2 + jnp.abs(sf[0][1]) ** 2 / 4, jax.lax.stop_gradient(sf))
                c_np = lambda x: np.abs(s.s_np(tt(x))[0]) ** 2 + np.abs(s.s_np(tt(x))[1]) ** 2 / 4

                def g_np(x):
                    eps = tt(x)
                    g = np.full(SH, 2 * k * k * eps.sum())
                    # |(k + i) e00 + e11|^2 / 4
                    re, im = k * eps[0, 0] + eps[1, 1], eps[0, 0]
                    g[0, 0] += (2 * re * k + 2 * im) / 4
                    g[1, 1] += 2 * re / 4
                    return g * (2 if tr == 'scale' else 1)
            met = None if not metrics else (lambda sp: {m: float(np.abs(sp.loc['b0' if m == 'p' else 'a0'])) for m in metrics})
            m_np = lambda x: {m: abs(s.s_np(tt(x))[1 if m == 'p' else 0]) for m in metrics}
            return OptProblem(t, cost, s, 'a0', met), c_np, g_np, m_np, (lambda x: tt(x)), s
        w = npr.integers(1, 4, SH).astype(float)
        cost = lambda r: (jnp.sum(w * r ** 2), r)
        sc = 2 if tr == 'scale' else 1
        s = LinSim(names[idx], k) if sim else None
        return OptProblem(t, cost, s, None), (lambda x: np.sum(w * tt(x) ** 2)), (lambda x: 2 * w * tt(x) * sc), None, (lambda x: tt(x)), s
    plan = dict(iters=[0, 1, 2, 3, 5] if ctx.quick else [0, 1, 2, 3, 4, 6, 7], intervals=[0, 1, 2, 3],
                problems=[[dict(sim=KINDS[c][0] is True, has=bool(KINDS[c][0]), metrics=KINDS[c][1]) for c in p] for p in problems])
    recs, _ = tlc('Opt', plan, invariants=['Sampled', 'Versions', 'Blind', 'Final'], timeout=800)
    rng.shuffle(recs)
    recs = recs[:130 if ctx.quick else 1500]
    for r in recs:
        cfg, rec = r['cfg'], r['rec']
        kinds = problems[cfg['p'] - 1]
        n = cfg['n']
        names = [f'sim{k}' for k in range(len(kinds))] if rng.random() < .7 else ['same'] * len(kinds)
        use_viz = cfg['viz'] and len(set(names)) == len(names)
        # the visualisation shows the same metrics for all simulations
        if use_viz and cfg['m'] and any(KINDS[c][0] is True and KINDS[c][1] != ['p', 'q'] for c in kinds):
            use_viz = False
        d = dict(config=cfg, kinds=kinds, names=names)
        ctx.count('behaviours'); ctx.sample(d)
        ps = [problem(c, k, names) for k, c in enumerate(kinds)]
        x0 = npr.integers(-2, 3, SH).astype(float)
        step = rng.choice([.1, .5, 1.])
        ver = adam(x0, lambda x: sum(p[2](x) for p in ps) / len(ps), step)
        V = [next(ver) for _ in range(n + 1)]
        sims = [p for p, c in zip(ps, kinds) if KINDS[c][0] is True]
        with Impl(ctx, 'running an optimisation', d):
            kw = dict(step_size=step, metric_interval=cfg['m'], eps_interval=cfg['e'], field_interval=cfg['f'])
            bars = []
            if cfg['pbar']:
                kw['pbar'] = lambda it: bars.append(Bar(it)) or bars[-1]
            if use_viz:
                viz = OptViz(None, {}, Pipe(), {p[5].name: (Pipe(), Pipe(), Pipe()) for p in sims}, {'powers': ['p', 'q']}, {},
                             {p[5].name: {'powers': Pipe()} for p in sims})
                kw.update(viz=viz, viz_interval=rng.choice([0, 1, 2]))
            elif rng.random() < .3:
                kw['viz_interval'] = 2
            ops = [p[0] for p in ps]
            x0_ = x0.copy()
            R = opt_run(ops[0] if len(ops) == 1 and rng.random() < .7 else ops, rng.choice([x0_, jnp.array(x0_)]), n, **kw)
            if not np.array_equal(x0_, x0):
                ctx.violate('the initial parameters are left unchanged', d)
            exp = [sum(p[1](V[v]) for p in ps) / len(ps) for v in rec['costs']]
            if not close(R.costs, exp, 1e-8 * (1 + np.abs(exp).max(initial=0))):
                ctx.violate('costs are those of every iteration', dict(d, got=np.asarray(R.costs), expected=exp))
            if not close(R.params, V[rec['final']], 1e-9):
                ctx.violate('the requested number of gradient steps on the average cost', dict(d, err=err(R.params, V[rec['final']])))
            if kinds == 'z' and not np.array_equal(R.params, x0):
                ctx.violate('a cost without gradient leaves the parameters unchanged', d)
            for p, v in zip(ps, r['held']):
                if v >= 0 and not close(p[5].eps, p[4](V[v]), 1e-8):
                    ctx.violate('simulations are left with the final design', d)
            nm = [p[5].name for p in sims]
            for what, got, ex, val in (('permittivities', R.eps, rec['eps'], lambda p, v: p[4](v)),
                                       ('fields', R.fields, rec['field'], lambda p, v: p[5].fields_np(p[4](v))[1][2].reshape(SH))):
                if not ex:
                    if not (isinstance(got, list) and not got) and np.size(got):
                        ctx.violate(f'no {what} recorded unless requested', d)
                    continue
                lab = [a for a, _ in ex]
                if not (list(got.coords['iteration'].values) == lab and list(got.coords['name'].values) == nm and got.dims == ('name', 'iteration', 'x', 'y')):
                    ctx.violate(f'{what} are labelled by iteration and simulation', dict(d, got=[got.dims, got.coords['iteration'].values], expected=lab))
                    continue
                e = np.array([[val(p, V[v]) for _, v in ex] for p in sims])
                if not close(got.values, e, 1e-8 * (1 + np.abs(e).max())):
                    ctx.violate(f'{what} are sampled at the requested intervals', dict(d, err=err(got.values, e)))
            if not rec['metric']:
                if np.size(R.metrics):
                    ctx.violate('no metrics recorded unless requested', d)
            else:
                lab = [a for a, _ in rec['metric']]
                M = R.metrics
                if not (list(M.coords['iteration'].values) == lab and list(M.coords['name'].values) == nm and sorted(M.coords['metric'].values) == sorted(rec['names'])
                        and M.dims == ('name', 'metric', 'iteration')):
                    ctx.violate('metrics are labelled by iteration and simulation', dict(d, iteration=M.coords['iteration'].values, expected=lab))
                else:
                    for a, p in enumerate(sims):
                        for b, mn in enumerate(M.coords['metric'].values):
                            vals = [p[3](V[v]).get(mn, np.nan) for _, v in rec['metric']]
                            g = M.values[a, b].astype(float)
                            if not (np.all(np.isnan(g)) if np.all(np.isnan(vals)) else close(g, vals, 1e-8 * (1 + np.abs(vals).max()))):
                                ctx.violate('metrics are sampled at the requested intervals', dict(d, got=g, expected=vals))
            if bars and not (len(bars) == 1 and len(list(bars[0].it)) == n):
                ctx.violate('progress is reported over the iterations', d)
            if use_viz:
                if [len(x) for x in viz.costs_pipe.got] != r['sent'] or (viz.costs_pipe.got and not close(viz.costs_pipe.got[-1], R.costs, 1e-9)):
                    ctx.violate('the visualisation shows the costs so far', d)
        if ctx.full:
            return
    real(ctx, FDFD, Port, opt_run, OptProblem, jax, jnp)


def real(ctx, FDFD, Port, opt_run, OptProblem, jax, jnp):
    """a real simulation: the record is recomputed from the parameter versions"""
    rng = ctx.rng
    for k in range(2 if ctx.quick else 8):
        n, sh, s = rng.choice([2, 3]), (16, 12), .25
        npr = np.random.default_rng(rng.randrange(10 ** 6))
        base = npr.uniform(-1, 1, sh)
        base[:, 5:7] += 2
        d = dict(case='FDFD', iterations=n)
        with Impl(ctx, 'optimising a simulation', d):
            def mk():
                f = FDFD((4., 3.), s, eps=np.ones(sh), wavelength=1.5, name='dev')
                f.port = {'a0': Port(.75, 1.5, 180, 1, 0), 'b0': Port(3.25, 1.5, 0, 1, 0)}
                f.eps[:, 5:7] = 6
                return f
            t = lambda r: 1 + 5 * jax.nn.sigmoid(r)
            f = mk()
            op = OptProblem(t, f.fidelity({'b0': 1}), f, 'a0', lambda sp: {'T': float(np.abs(sp.loc['b0'])) ** 2})
            fn = op.fn
            cost = lambda r: op.cost_fn(fn(r))[0]
            ver = adam(base, lambda x: np.asarray(jax.grad(cost)(jnp.array(x))), .1)
            V = [next(ver) for _ in range(n + 1)]
            C = [float(cost(jnp.array(v))) for v in V[:n]]
            R = opt_run(op, base, n, step_size=.1, metric_interval=1, eps_interval=2, field_interval=1)
            ctx.count('optimised simulations')
            if not (close(R.costs, C, 1e-7) and close(R.params, V[n], 1e-6)):
                ctx.violate('costs are those of every iteration', dict(d, got=R.costs, expected=C))
            if not close(R.metrics.values[0, 0], [-c for c in C], 1e-7):
                ctx.violate('metrics are sampled at the requested intervals', d)
            if not close(R.eps.values[0], np.array([t(V[i + 1]) for i in range(0, n, 2)]), 1e-5):
                ctx.violate('permittivities are sampled at the requested intervals', d)
            F = np.array([np.asarray(fn(jnp.array(v))[1])[1][2].squeeze() for v in V[:n]])
            if not close(R.fields.values[0], F, 1e-6 * (1 + np.abs(F).max())):
                ctx.violate('fields are sampled at the requested intervals', d)
            if not close(f.eps, np.asarray(t(V[n])), 1e-5):
                ctx.violate('simulations are left with the final design', d)
