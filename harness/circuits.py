"""Circuits: building real meshes, exact settings, plan records for Light.tla."""
import math, cmath
import numpy as np
from harness.core import dec

R2 = math.sqrt(.5)
# ------------------------------------------------------------ exact alphabets
OM = [(1,0,0,0,0,0),(0,1,0,0,0,0),(0,0,1,0,0,0),(0,0,0,1,0,0),(-1,0,0,0,0,0),(0,-1,0,0,0,0),(0,0,-1,0,0,0),(0,0,0,-1,0,0)]
PY = [(3,0,4,0,0,1),(4,0,3,0,0,1),(-3,0,4,0,0,1),(4,0,-3,0,0,1),(-4,0,-3,0,0,1)]      # unit phases (+-3+-4i)/5
ONE = OM[0]
ZERO = (0,0,0,0,0,0)
R2RING = (0,1,0,-1,1,0)


def rmul(x, y):
    a = [0]*7
    for i in range(4):
        for j in range(4):
            a[i+j] += x[i]*y[j]
    c = [a[0]-a[4], a[1]-a[5], a[2]-a[6], a[3]]
    k2, k5 = x[4]+y[4], x[5]+y[5]
    return rnorm(c, k2, k5)


def rnorm(c, k2, k5):
    c = list(c)
    if not any(c):
        return ZERO
    while k2 > 0 and all(v % 2 == 0 for v in c):
        c = [v//2 for v in c]; k2 -= 1
    while k5 > 0 and all(v % 5 == 0 for v in c):
        c = [v//5 for v in c]; k5 -= 1
    return (*c, k2, k5)


# splitter: (error angle, cos ring, sin ring) of pi/4 + error
def _split(c, s):
    ang = math.atan2(dec(s).real, dec(c).real)
    return (ang - math.pi/4, c, s)


RT = lambda a, b: ((a,0,0,0,0,1), (b,0,0,0,0,1))
SPLIT_IDEAL = (0.0, R2RING, R2RING)
SPLIT_PY = [_split(*RT(3,4)), _split(*RT(4,3))]
SPLIT_OM = [_split(ONE, ZERO), _split(ZERO, ONE), _split(R2RING, tuple(-v if i < 4 else v for i, v in enumerate(R2RING)))]
AMPS = [((1,0,0,0,1,0), .5), ((4,0,0,0,0,1), .8), ((3,0,0,0,0,1), .6)]


def k5of(*xs):
    return sum(x[5] for x in xs)


class Settings:
    """Exact phases / imperfections for every node slot of a circuit."""
    def __init__(self, mesh_nodes, n, style, rng, errors='none', loss='none', phases='mixed', budget=4, extreme=True):
        # errors: none | sym | asym ; loss: none | some
        self.style = style
        N = len(mesh_nodes)
        self.nodes, self.theta, self.phi = [], np.zeros(N), np.zeros(N)
        self.err = np.zeros((N, 2)); self.loss = np.zeros((N, 2))
        self.budget = budget
        half = style in ('symmetric', 'differential')

        def phase():
            if phases != 'om' and self.budget >= (2 if half else 1) and rng.random() < .35:
                self.budget -= 2 if half else 1
                h = rng.choice(PY)
            else:
                h = OM[rng.randrange(8)]
            if half:
                ang = 2 * cmath.phase(dec(h)) + 4 * math.pi * rng.choice([0, 0, 1])
                return ang, h, rmul(h, h)
            return cmath.phase(dec(h)) + 2 * math.pi * rng.choice([0, 0, 1]), ONE, h

        def split():
            if errors == 'none':
                return SPLIT_IDEAL
            x = rng.random()
            if x < .45 and self.budget > 0:
                self.budget -= 1
                return rng.choice(SPLIT_PY)
            return rng.choice(SPLIT_OM) if x < .75 and extreme else SPLIT_IDEAL

        def amp():
            if loss == 'none' or rng.random() < .4:
                return ONE, 0.0
            r, a = rng.choice(AMPS[:1] if self.budget <= 0 else AMPS)
            self.budget -= r[5]
            return r, 20 * math.log10(a)

        for nd in mesh_nodes:
            j = nd['id']
            th, ht, et = phase(); ph, hp, ep = phase()
            l = split(); r = l if errors == 'sym' else split()
            (at, lt), (ap, lp) = amp(), amp()
            self.theta[j], self.phi[j] = th, ph
            self.nodes.append(dict(id=j, top=nd['top'] + 1, bottom=nd['bottom'] + 1, col=nd['col'], cl=l[1], sl=l[2], cr=r[1], sr=r[2],
                                   ht=ht, hp=hp, et=et, ep=ep, at=at, ap=ap))
            nd['err'], nd['loss'] = (l[0], r[0]), (lt, lp)
        self.gring = [OM[rng.randrange(8)] for _ in range(n)]
        self.gamma = np.array([cmath.phase(dec(g)) for g in self.gring])


def structure(mesh):
    """The structure of a real circuit: list of nodes in list order."""
    return [dict(id=int(nd.node_id), top=int(nd.top), bottom=int(nd.bottom), col=int(nd.column)) for nd in mesh.nodes]


def structure_problem(nodes, n):
    ids = sorted(nd['id'] for nd in nodes)
    if ids != list(range(len(nodes))):
        return f'node ids {ids}'
    seen = set()
    for nd in nodes:
        if nd['top'] == nd['bottom'] or not (0 <= nd['top'] < n and 0 <= nd['bottom'] < n):
            return f'rails of {nd}'
        for r in (nd['top'], nd['bottom']):
            if (nd['col'], r) in seen:
                return f'column {nd["col"]} uses rail {r} twice'
            seen.add((nd['col'], r))
    cols = {nd['col'] for nd in nodes}
    if cols != set(range(max(cols) + 1)):
        return f'columns {sorted(cols)}'
    return None


def random_structure(rng, n, N):
    """A random feed-forward circuit: couplers on arbitrary rail pairs, packed into columns; node ids permuted."""
    nodes, depth = [], [0]*n
    for _ in range(N):
        t, b = rng.sample(range(n), 2)
        c = max(depth[t], depth[b])
        depth[t] = depth[b] = c + 1
        nodes.append(dict(top=t, bottom=b, col=c))
    ids = list(range(N)); rng.shuffle(ids)
    for nd, i in zip(nodes, ids):
        nd['id'] = i
    nodes.sort(key=lambda d: (d['col'], rng.random()))
    return nodes


def build(nodes, n, style):
    """Hand-build the real circuit with its imperfections from node records (public constructors)."""
    from simphox.circuit import CouplingNode, ForwardMesh
    return ForwardMesh([CouplingNode(node_id=nd['id'], n=n, top=nd['top'], bottom=nd['bottom'], column=nd['col'],
                                     bs_error=tuple(nd.get('err', (0., 0.))), loss=tuple(nd.get('loss', (0., 0.))))
                        for nd in nodes], phase_style=style)


def library(arch, n, style):
    """A mesh from the library's own constructors (target content irrelevant: phases are overwritten)."""
    from simphox.circuit import ForwardMesh
    from simphox.circuit.vector import tree, butterfly
    from simphox.circuit.matrix import cascade
    from simphox.circuit.rectangular import rectangular
    if arch == 'tree':
        return tree(n, balanced=True, phase_style=style)
    if arch == 'chain':
        return tree(n, balanced=False, phase_style=style)
    if arch == 'embedded':
        return tree(n - 1, n_rails=n, phase_style=style)
    if arch == 'butterfly':
        m = butterfly(n); m.phase_style = style; return m
    st = 'top' if style == 'symmetric' else style
    if arch == 'cascade':
        m = cascade(np.eye(n) + 0j, balanced=True, phase_style=st); m.phase_style = style; return m
    if arch == 'triangular':
        m = cascade(np.eye(n) + 0j, balanced=False, phase_style=st); m.phase_style = style; return m
    if arch == 'rectangular':
        m = rectangular(np.eye(n) + 0j); m.phase_style = style; return m
    raise KeyError(arch)


ARCHS = ['tree', 'chain', 'embedded', 'butterfly', 'cascade', 'triangular', 'rectangular']
STYLES = ['top', 'bottom', 'differential', 'symmetric']


def errors_of(nodes):
    return np.array([nd['err'] for nd in nodes]), np.array([nd['loss'] for nd in nodes])


def make_case(rng, arch, n, style, errors, loss, ctx=None, ninputs=2, snaps=False, phases='mixed', budget=None, N=None, extreme=True):
    """Returns dict(mesh, nodes, settings, plan) or None (structure violation already reported)."""
    if arch == 'random':
        nodes = random_structure(rng, n, N or rng.randrange(2, 2 * n + 1))
    else:
        m = library(arch, n, style)
        nodes = structure(m)
        bad = structure_problem(nodes, n)
        if bad:
            ctx.violate('circuit structure is malformed', {'arch': arch, 'n': n, 'problem': bad})
            return None
    ncols = max(nd['col'] for nd in nodes) + 1
    if budget is None:
        budget = max(0, min(5, int((24 - ncols) / 2.4)))
    st = Settings(nodes, n, style, rng, errors, loss, phases, budget, extreme)
    labels = list(range(ncols))
    if arch == 'random' and rng.random() < .4:       # some column labels are not used by any coupler
        labels = sorted(rng.sample(range(ncols + rng.randrange(1, 4)), ncols))
        for nd in nodes:
            nd['col'] = labels[nd['col']]            # (the plan keeps the order of the occupied columns)
    if arch == 'random' or rng.random() < .5:
        mesh = build(nodes, n, style)
    else:
        e, l = errors_of(nodes)
        mesh = m.add_error_mean(error=e, loss_db=l)
    mesh.params = st.theta.copy(), st.phi.copy(), st.gamma.copy()
    xs, xr = [], []
    for j in range(ninputs):
        re = [rng.randrange(-2, 3) for _ in range(n)]
        im = [rng.randrange(-2, 3) for _ in range(n)] if j else [0] * n     # the first extra input is real
        if not any(re):
            re[rng.randrange(n)] = 1
        xs.append([(a, 0, b, 0, 0, 0) for a, b in zip(re, im)])
        xr.append(np.array(re) + 1j * np.array(im))
    k5 = sum(k5of(nd['cl'], nd['cr'], nd['et'], nd['ep'], nd['at'], nd['ap']) for nd in st.nodes)
    plan = dict(n=n, ncols=ncols, style=style, nodes=st.nodes, gam=st.gring, inputs=xs, snaps=snaps,
                power=bool(2 * (ncols + 3) + 4.7 * k5 <= 29))
    desc = dict(arch=arch, n=n, style=style, errors=errors, loss=loss, ncols=ncols, nodes=len(nodes))
    if labels != list(range(ncols)):
        desc['columns'] = labels
    return dict(mesh=mesh, nodes=nodes, st=st, plan=plan, inputs=xr, desc=desc, n=n, ncols=ncols, labels=labels)


# ---------------------------------------------------------------- wide circuits (Rails.tla)
def wide_cases(rng, sizes, archs=('bricks', 'random', 'tree', 'butterfly', 'chain'), styles=STYLES):
    """Circuits of many rails whose splitters are at their extremes: dict(mesh, plan, nodes, desc, inputs)."""
    out = []
    for q, n in enumerate(sizes):
        arch = archs[q % len(archs)] if q < len(archs) else rng.choice(archs)
        style = rng.choice(styles)
        if arch in ('bricks', 'random'):
            nodes = []
            for c in range(rng.randrange(3, 6)):
                if arch == 'bricks':
                    pairs = [(r, r + 1) for r in range(c % 2, n - 1, 2)]
                else:
                    rails = rng.sample(range(n), n)
                    pairs = [(rails[2 * i], rails[2 * i + 1]) for i in range(rng.randrange(1, n // 2 + 1))]
                nodes += [dict(top=t, bottom=b, col=c) for t, b in pairs]
            ids = rng.sample(range(len(nodes)), len(nodes))
            for nd, i in zip(nodes, ids):
                nd['id'] = i
        else:
            nodes = structure(library(arch, n, style))
        out.append(_wide(rng, nodes, n, style, arch))
    return out


def _wide(rng, nodes, n, style, arch):
    N = len(nodes)
    half = style in ('symmetric', 'differential')
    theta, phi = np.zeros(N), np.zeros(N)
    plan = []
    lossy = rng.random() < .5
    for nd in nodes:
        l, r, th, ph = rng.randrange(2), rng.randrange(2), rng.randrange(16), rng.randrange(16)
        at, ap = (rng.randrange(2) if lossy and rng.random() < .3 else 0 for _ in range(2))
        theta[nd['id']], phi[nd['id']] = th * math.pi / 4, ph * math.pi / 4
        nd['err'] = tuple(math.pi / 4 if s else -math.pi / 4 for s in (l, r))
        nd['loss'] = (20 * math.log10(.5) * at, 20 * math.log10(.5) * ap)
        plan.append(dict(top=nd['top'] + 1, bottom=nd['bottom'] + 1, col=nd['col'], l=l, r=r, th=th, ph=ph, at=at, ap=ap))
    gam = [rng.randrange(8) for _ in range(n)]
    mesh = build(nodes, n, style)
    mesh.params = theta, phi, np.array(gam) * math.pi / 4
    nc = max(nd['col'] for nd in nodes) + 1
    X = np.array([[complex(rng.randrange(-3, 4), rng.randrange(-3, 4)) for _ in range(3)] for _ in range(n)])
    return dict(mesh=mesh, nodes=nodes, plan=dict(n=n, ncols=nc, style=style, nodes=plan, gam=gam), n=n, ncols=nc, inputs=X,
                lossless=not lossy, desc=dict(arch=arch, n=n, style=style, ncols=nc, nodes=N, lossy=lossy))


def wide_field(snap, X):
    """The field of inputs X at a snapshot of Rails.tla."""
    s = np.array(snap)
    y = np.zeros_like(X)
    y[s[:, 0] - 1] = (np.exp(2j * math.pi / 16 * s[:, 1]) * .5 ** s[:, 2])[:, None] * X
    return y


def wide(ctx, **kw):
    """Run Rails.tla on circuits of many rails; yields (case, forward snapshots, backward snapshots)."""
    from harness.core import Impl, tlc
    cs = []
    with Impl(ctx, 'building a wide circuit', kw):
        cs = wide_cases(ctx.rng, **kw)
    if not cs:
        return
    recs, _ = tlc('Rails', [c['plan'] for c in cs], invariants=['OneEach', 'Reciprocal', 'Emit'], properties=['Fades'], timeout=800)
    assert len(recs) == len(cs)
    for r in recs:
        ctx.count('wide behaviours')
        yield cs[r['ci'] - 1], r['fwd'], r['back']
