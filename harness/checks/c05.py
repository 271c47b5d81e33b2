"""C05: derived circuits keep the optical function and never disturb their source."""
import numpy as np
from harness.core import Impl, tlc, close, err
from harness import circuits as cz

META = dict(level='model_checking', technique='TLA+ (Derived.tla) store-of-circuits histories (exhaustive to depth 2, random deeper), replayed on real circuits',
            note='TLC enumerates histories of deriving / assigning operations over a store of circuits and checks that deriving disturbs nothing; each history is replayed on real objects and afterwards every circuit of the store must have the specified style, couplers, imperfections, phases, and the transfer matrix of a freshly built circuit with those (whose correctness C01 decides).',
            rule='one behaviour per history; all circuits of the store compared after it',
            assumptions=['circuits being aggregated have distinct coupler ids, as the library requires'])


def make(rng, arch, n, style):
    mesh = cz.library(arch, n, style) if arch != 'random' else None
    nodes = cz.structure(mesh) if mesh else cz.random_structure(rng, n, rng.randrange(3, 7))
    for nd in nodes:
        nd['err'] = (rng.uniform(-.3, .3), rng.uniform(-.3, .3)); nd['loss'] = (-rng.uniform(0, 3), -rng.uniform(0, 3))
    return nodes


class World:
    def __init__(self, rng, arch, n, style):
        self.n, self.style, self.arch = n, style, arch
        self.nodes = make(rng, arch, n, style)
        self.by_id = {nd['id']: nd for nd in self.nodes}
        N = len(self.nodes)
        rs = np.random.RandomState(rng.randrange(2**31))
        self.phases = {p: (rs.rand(N) * 6.28, rs.rand(N) * 6.28, rs.rand(n) * 6.28) for p in ('p0', 'p1', 'p2')}
        self.scal = {k: (rs.uniform(-.3, .3), -rs.uniform(0, 2)) for k in (1, 2)}
        self.arr = {k: (rs.uniform(-.3, .3, (N, 2)), -rs.uniform(0, 2, (N, 2))) for k in (1, 2)}
        self.plan = dict(N=N, style=style, order=[nd['id'] + 1 for nd in self.nodes],
                         cols=[self.by_id[i]['col'] for i in range(N)])

    def fresh(self):
        m = cz.build([dict(nd) for nd in self.nodes], self.n, self.style)
        m.params = tuple(x.copy() for x in self.phases['p0'])
        return m


def apply(w, store, op, ctx, d, rand):
    from simphox.circuit import ForwardMesh
    o, s = op['op'], op['s'] - 1
    c = store[s]
    if o == 'column_ordered':
        store.append(c.column_ordered)
    elif o == 'aggregate_columns':
        store.append(ForwardMesh.aggregate(c.columns))
    elif o == 'aggregate_self':
        store.append(ForwardMesh.aggregate([c]))
    elif o == 'aggregate_nodes':
        store.append(ForwardMesh.aggregate(list(c.nodes)))
    elif o == 'aggregate_mixed':
        cols = c.columns
        store.append(ForwardMesh.aggregate([cols[0]] + [nd for v in cols[1:] for nd in v.nodes]))
    elif o == 'mean_scalar':
        e, l = w.scal[op['k']]
        store.append(c.add_error_mean(e, l))
    elif o == 'mean_array':
        e, l = (x.copy() for x in w.arr[op['k']])
        store.append(c.add_error_mean(error=e, loss_db=l))
        if not (np.array_equal(e, w.arr[op['k']][0]) and np.array_equal(l, w.arr[op['k']][1])):
            ctx.violate("the caller's arrays of errors are left unchanged", d)
    elif o == 'mean_sides':
        e, l = w.scal[op['k']]
        store.append(c.add_error_mean(e, l, error_right=w.scal[3 - op['k']][0]))
    elif o == 'mean_columns':
        e, l = (x.copy() for x in w.arr[op['k']])
        left = e[:, 0].copy() if op['k'] == 1 else e[:, [0, 0]]
        store.append(c.add_error_mean(left, l, e[:, 1]))
    elif o == 'variance_zero':
        store.append(c.add_error_variance(0))
    elif o == 'variance':
        new = c.add_error_variance(.05)
        store.append(new)
        old = {nd.node_id: np.array(nd.bs_error) for nd in c.nodes}
        now = {nd.node_id: np.array(nd.bs_error) for nd in new.nodes}
        rand[len(store)] = {k: v.copy() for k, v in now.items()}
        if set(old) == set(now):
            diff = np.array([now[k] - old[k] for k in sorted(old)])
            if not (np.all(np.isfinite(diff)) and np.allclose(diff[:, 0], diff[:, 1], atol=1e-9)):
                ctx.violate('equal random splitter errors are added on both sides', dict(d, diff=diff))
            if np.max(np.abs(diff)) > 1 or np.max(np.abs(diff)) == 0 or (len(diff) > 1 and np.ptp(diff[:, 0]) == 0):
                ctx.violate('random splitter errors are drawn per coupler with the requested deviation', dict(d, diff=diff))
    elif o == 'set_params':
        c.params = tuple(x.copy() for x in w.phases[op['p']])
    elif o == 'write_phases':
        th, ph, ga = w.phases[op['p']]
        c.thetas[:] = th; c.phis[:] = ph; c.gammas[:] = ga
    elif o == 'copy_params':
        store[op['t'] - 1].params = c.params
    elif o == 'columns':
        vs = c.columns
        got = [[nd.node_id for nd in v.nodes] for v in vs]
        want = {}
        for nd in w.nodes:
            want.setdefault(nd['col'], []).append(nd['id'])
        if [sorted(g) for g in got] != [sorted(want[k]) for k in sorted(want)]:
            ctx.violate('column views partition the couplers by column', dict(d, got=got))
        for v in vs:
            if str(getattr(v.phase_style, 'value', v.phase_style)) != str(getattr(c.phase_style, 'value', c.phase_style)):
                ctx.violate('column views keep the phase style', d)


def expected(w, e, rand):
    """node records and phases the specification prescribes for one circuit"""
    nodes = []
    for i in e['order']:
        nd = dict(w.by_id[i - 1])
        for fld, j in (('err', 0), ('loss', 1)):
            t = e[fld][i - 1]
            if t[0] == 'scalar':
                nd[fld] = (w.scal[t[1]][j],) * 2
            elif t[0] == 'sides':
                nd[fld] = (w.scal[t[1]][0], w.scal[3 - t[1]][0])
            elif t[0] == 'array':
                nd[fld] = tuple(w.arr[t[1]][j][t[2] - 1])
            elif t[0] == 'random':
                nd[fld] = tuple(rand[t[1]][i - 1])
        nodes.append(nd)
    return nodes


def verify(ctx, w, store, exp, rand, d):
    if len(store) != len(exp):
        ctx.violate('each deriving operation returns one circuit', d)
        return
    for k, (m, e) in enumerate(zip(store, exp)):
        dd = dict(d, circuit=k + 1)
        want = expected(w, e, rand)
        style = str(getattr(m.phase_style, 'value', m.phase_style))
        if style != e['style']:
            ctx.violate('the phase style is preserved', dict(dd, got=style, want=e['style']))
            continue
        got = [dict(id=int(x.node_id), top=int(x.top), bottom=int(x.bottom), col=int(x.column)) for x in m.nodes]
        if got != [{a: b for a, b in x.items() if a in ('id', 'top', 'bottom', 'col')} for x in want]:
            if sorted(map(str, got)) != sorted(str({a: b for a, b in x.items() if a in ('id', 'top', 'bottom', 'col')}) for x in want):
                ctx.violate('couplers keep their identity and placement', dict(dd, got=got))
                continue
        have = {int(x.node_id): x for x in m.nodes}
        for x in want:
            if not np.allclose(have[x['id']].bs_error, x['err'], atol=1e-9):
                ctx.violate("couplers carry the expected splitter errors (and a source's are undisturbed)", dict(dd, coupler=x['id'], got=have[x['id']].bs_error, want=x['err']))
                break
            if not np.allclose(have[x['id']].loss, x['loss'], atol=1e-9):
                ctx.violate("couplers carry the expected losses (and a source's are undisturbed)", dict(dd, coupler=x['id'], got=have[x['id']].loss, want=x['loss']))
                break
        ref = cz.build(want, w.n, e['style'])
        ph = w.phases['p0' if e['ph'] == 'none' else e['ph']]
        if e['ph'] != 'none':
            if not all(np.allclose(a, b, atol=1e-12) for a, b in zip(m.params, ph)):
                ctx.violate("a circuit keeps its own phases", dict(dd, phases=e['ph']))
                continue
            A = m.matrix()
        else:
            A = m.matrix(tuple(x.copy() for x in ph))
        R = ref.matrix(tuple(x.copy() for x in ph))
        ctx.count('circuits compared')
        if not close(A, R, 3e-5):
            ctx.violate('a derived circuit with the same phases has the same transfer', dict(dd, err=err(A, R)))


def replay(ctx, w, r):
    d = dict(arch=w.arch, n=w.n, style=w.style, history=r['hist'])
    ctx.count('behaviours')
    with Impl(ctx, 'deriving circuits', d):
        store, rand = [w.fresh()], {}
        for op in r['hist']:
            apply(w, store, op, ctx, d, rand)
        verify(ctx, w, store, r['store'], rand, d)
        return store


def run(ctx):
    rng = ctx.rng
    np.random.seed(ctx.seed)
    worlds = []
    with Impl(ctx, 'building circuits', None):
        worlds = [World(rng, 'random', 4, 'bottom')]
    recs = []
    if worlds:
        recs, _ = tlc('Derived', [w.plan for w in worlds], invariants=['Complete'], properties=['Undisturbed', 'OnePhase'],
                      constants={'MaxOps': 2 if ctx.quick else 3, 'MaxStore': 4, 'EmitAll': 'TRUE'})
    for r in recs:
        ctx.sample(r['hist'])
        replay(ctx, worlds[r['pi'] - 1], r)
        if ctx.full:
            return
    deep = []
    for arch in cz.ARCHS + ['random', 'random']:
        for style in (cz.STYLES if not ctx.quick else [rng.choice(cz.STYLES)]):
            with Impl(ctx, 'building circuits', dict(arch=arch, style=style)):
                deep.append(World(rng, arch, rng.choice([3, 4, 5]), style))
    recs, _ = tlc('Derived', [w.plan for w in deep], invariants=['Complete'], properties=['Undisturbed', 'OnePhase'],
                  constants={'MaxOps': 8, 'MaxStore': 6, 'EmitAll': 'FALSE'}, simulate=60 if ctx.quick else 1500, depth=12,
                  seed=ctx.seed, workers=1)
    for r in recs:
        replay(ctx, deep[r['pi'] - 1], r)
        if ctx.full:
            return
    # imperfections given at construction, and one-coupler circuits
    for w in deep:
        with Impl(ctx, 'random losses', dict(arch=w.arch)):
            m = w.fresh()
            v = m.add_error_variance(.03, .5, equal_splitter_error=False)
            e0, l0 = cz.errors_of(w.nodes)
            e1 = np.array([nd.bs_error for nd in v.nodes]); l1 = np.array([nd.loss for nd in v.nodes])
            ref = cz.build([dict(nd, err=tuple(a), loss=tuple(b)) for nd, a, b in zip(w.nodes, e1, l1)], w.n, w.style)
            if not close(v.matrix(), ref.matrix(w.phases['p0']), 3e-5):
                ctx.violate('a randomly perturbed copy has exactly the drawn imperfections', dict(arch=w.arch, style=w.style))
            if np.max(np.abs(e1 - e0)) == 0 or np.max(np.abs(l1 - l0)) == 0 or np.max(np.abs(e1 - e0)) > .5 or np.max(np.abs(l1 - l0)) > 6:
                ctx.violate('random imperfections have the requested deviation', dict(arch=w.arch, style=w.style))
            if not close(m.matrix(), cz.build(w.nodes, w.n, w.style).matrix(w.phases['p0']), 3e-5):
                ctx.violate("a source's transfer is undisturbed", dict(arch=w.arch, style=w.style))
            ctx.count('random copies')
