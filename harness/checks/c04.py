"""C04: generated mesh architectures are well formed for every size."""
import numpy as np
from harness.core import Impl, tlc

META = dict(level='model_checking', technique='TLA+ (Mesh.tla) light-cone trace validation of recorded mesh structures; reference architectures model-checked for every size',
            note='TLC checks the reference architectures of the specification for all sizes up to the bound (RefOK) and gives a total verdict for every structure recorded from the real constructors: well-formedness, depth, coupler count, funnelling / full connectivity and descendants computed by crossing the columns. Sizes are enumerated up to 17 (33 thorough) plus larger samples; nothing is compared to fixed lists.',
            rule='one behaviour per recorded structure, crossing its columns',
            assumptions=['structures are read through the public node attributes'])


def record(mesh, kind, n):
    cols = [[] for _ in range(int(mesh.num_columns))]
    for view in mesh.columns:
        at = sorted({int(d.column) for d in view.nodes})
        if len(at) == 1 and 0 <= at[0] < len(cols):
            cols[at[0]] += [int(d.node_id) for d in view.nodes]
        else:
            cols.append([int(d.node_id) for d in view.nodes])      # not a column: reported by the specification
    return dict(kind=kind, n=n, rails=int(mesh.n), ncols=int(mesh.num_columns), num=int(mesh.num_nodes), ref=False,
                nodes=[dict(id=int(d.node_id), top=int(d.top), bot=int(d.bottom), col=int(d.column),
                            td=[int(x) for x in d.top_descendants], bd=[int(x) for x in d.bot_descendants]) for d in mesh.nodes],
                tab=[[int(t), int(b), int(i), int(c)] for t, b, i, c in zip(mesh.top, mesh.bottom, mesh.node_idxs, mesh.column_by_node)],
                cols=cols)


def run(ctx):
    from simphox.circuit.forward import ForwardMesh
    from simphox.circuit.vector import tree, butterfly, vector_unit, balanced_tree, unbalanced_tree
    from simphox.circuit.matrix import cascade, triangular, tree_cascade
    from simphox.circuit.rectangular import rectangular, rectangular_rows
    rng = ctx.rng
    np.random.seed(ctx.seed)
    recs, desc = [], []

    def add(what, kind, n, f, rails=None):
        with Impl(ctx, f'building {what}', dict(n=n, rails=rails)):
            m = f()
            recs.append(record(m, kind, n)); desc.append(dict(what=what, n=n, rails=rails))
            if rails is not None and m.n != rails:
                ctx.violate('embedding in more rails', dict(what=what, n=n, rails=rails, got=int(m.n)))
            return m
    top = 17 if ctx.quick else 33
    big = [rng.randrange(18, 41), 32] if ctx.quick else [40, 47, 64, 65]
    for n in list(range(2, top + 1)) + big:
        add('tree', 'tree', n, lambda: tree(n))
        add('chain', 'chain', n, lambda: tree(n, balanced=False))
        add('butterfly', 'butterfly', n, lambda: butterfly(n))
        r = n + rng.randrange(1, 4)
        add('embedded tree', 'tree', n, lambda: tree(n, n_rails=r), r)
        add('embedded chain', 'chain', n, lambda: tree(n, n_rails=r, balanced=False), r)
        v = np.random.randn(n) + 1j * np.random.randn(n)
        if n <= 12:
            add('vector unit', 'tree', n, lambda: vector_unit(v)[0])
            add('vector unit from a size', 'tree', n, lambda: vector_unit(n)[0])
            add('balanced tree of a vector', 'tree', n, lambda: balanced_tree(v))
            add('chain of a vector', 'chain', n, lambda: unbalanced_tree(v))
            add('column-ordered tree', 'tree', n, lambda: tree(n).column_ordered)
            add('inverted twice', 'tree', n, lambda: tree(n).invert_columns().invert_columns())
    for n in ([rng.randrange(129, 140), rng.randrange(257, 266)] if ctx.quick else [128, 129, 143, 256, 257, 270, 513]):    # beyond small integer types
        add('tree', 'tree', n, lambda: tree(n))
        add('embedded tree', 'tree', n, lambda: tree(n, n_rails=n + 3), n + 3)
        add('butterfly', 'butterfly', n, lambda: butterfly(n))
        if n < 150:
            add('chain', 'chain', n, lambda: tree(n, balanced=False))
    for n in range(2, (9 if ctx.quick else 14)):
        q = np.linalg.qr(np.random.randn(n, n) + 1j * np.random.randn(n, n))[0]
        add('tree cascade', 'cascade', n, lambda: cascade(q))
        add('tree cascade (function)', 'cascade', n, lambda: tree_cascade(q))
        add('tree cascade from a size', 'cascade', n, lambda: tree_cascade(n))
        add('chain cascade', 'triangular', n, lambda: cascade(q, balanced=False))
        add('triangular', 'triangular', n, lambda: triangular(q))
        m = add('rectangular', 'rectangular', n, lambda: rectangular(q))
        add('column-ordered triangular', 'triangular', n, lambda: triangular(q).column_ordered)
        if m is None:
            continue
        with Impl(ctx, 'rows of a rectangle', dict(n=n)):
            rows = rectangular_rows(m)
            if len(rows) != n - 1:
                ctx.violate('a rectangle on n rails has n-1 rows', dict(n=n, got=len(rows)))
            nodes = []
            for i, row in enumerate(rows):
                recs.append(record(row, 'row', n)); desc.append(dict(what=f'row {i}', n=n))
                if row.num_nodes != i + 1:
                    ctx.violate('row i of a rectangle has i+1 couplers', dict(n=n, row=i, got=row.num_nodes))
                for k, d in enumerate(row.nodes):
                    nodes.append(dict(id=len(nodes), top=int(d.top), bot=int(d.bottom), col=int(d.column), td=[], bd=[]))
            nc = max(d['col'] for d in nodes) + 1
            recs.append(dict(kind='rows', n=n, rails=n, ncols=nc, num=len(nodes), ref=False, nodes=nodes, tab=[[d['top'], d['bot'], d['id'], d['col']] for d in nodes],
                             cols=[[d['id'] for d in nodes if d['col'] == c] for c in range(nc)]))
            desc.append(dict(what='all rows of a rectangle', n=n))
            if nc != (n if n > 2 else 1):
                ctx.violate('the rows of a rectangle fill n columns', dict(n=n, got=nc))
    out, _ = tlc('Mesh', recs, invariants=['RefOK'], properties=['Grow'], constants={'MaxN': 9 if ctx.quick else 14}, timeout=800)
    assert len(out) == len(recs), (len(out), len(recs))
    for o in out:
        ctx.count('behaviours')
        for b in o['bad']:
            ctx.violate(b, dict(desc[o['i'] - 1], structure=recs[o['i'] - 1]['nodes'][:12]))
    ctx.sample(recs[0]); ctx.sample(desc)
