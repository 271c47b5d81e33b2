"""C22: all notations for an excitation mean the same thing."""
import numpy as np
from harness.core import Impl, tlc
from harness import em

META = dict(level='model_checking', technique='TLA+ (Parse.tla) grammar and meaning of the notations, enumerated exhaustively; every notation is parsed by the real code',
            note='TLC enumerates every notation up to three entries (thorough: more names and modes), checks that order, defaults and spelling obey the laws, and emits the meaning; parse_excitation, parse_source_port and SimGrid.parse_excitation must return it. Parsing must not change its argument.',
            rule='one behaviour per notation', assumptions=['port names are strings', 'keys of one mapping name distinct port-mode pairs'])


def build(r):
    st = dict(tuple=tuple, list=list)

    def entry(x):
        return x['n'] if x['k'] == 'name' else st[x['s']]((x['n'], x['m']))
    if r['kind'] in ('name', 'pair'):
        return entry(r['es'][0])
    if r['kind'] == 'seq':
        return st[r['style']](entry(x) for x in r['es'])
    if r['kind'] == 'modes':
        return {x['n']: st[x['s']](x['ms']) for x in r['es']}
    return {x['n'] if x['k'] == 'wname' else (x['n'], x['m']): x['w'] for x in r['es']}


def run(ctx):
    from simphox.parse import parse_excitation, parse_source_port
    from simphox.sim import SimGrid
    from simphox.grid import Port
    import copy
    G = SimGrid((4., 3.), 1.)
    ports = ['b0', 'a0', 'c1']
    G.port = {p: Port(1, 1, 0, 1) for p in ports}
    plan = dict(names=['a0', 'b0'] if ctx.quick else ['a0', 'b0', 'long name'], modes=[0, 1, 2] if ctx.quick else [0, 1, 2, 7],
                weights=[1, -2, 3], modelists=[[0], [1], [0, 1], [2, 0], [1, 0, 2], [5, 5], []], depth=3)
    recs, _ = tlc('Parse', plan, invariants=['Emitted', 'Ordered', 'Restyled', 'Normal', 'Defaults'], timeout=800)
    seen = set()
    for r in recs:
        key = (r['kind'], r['style'], repr(r['es']))
        if key in seen:
            continue
        seen.add(key)
        x = build(r)
        d = dict(notation=repr(x))
        ctx.count('behaviours'); ctx.sample(d)
        pairs = [tuple(p) for p in r['pairs']]
        src = {(a, m): w for a, m, w in r['source']}
        y = copy.deepcopy(x)
        if r['kind'] != 'weights':
            for nm, fn in (('parse_excitation', parse_excitation), ('SimGrid.parse_excitation', G.parse_excitation)):
                with Impl(ctx, nm, d):
                    got = fn(x)
                    if not (isinstance(got, list) and got == pairs and all(type(g) is tuple for g in got)):
                        ctx.violate('a notation denotes the port-mode pairs it reads as', dict(d, fn=nm, got=repr(got), expected=repr(pairs)))
        if r['kind'] != 'modes':
            with Impl(ctx, 'parse_source_port', d):
                got = parse_source_port(x)
                if not (isinstance(got, dict) and got == src and list(got) == list(src)):
                    ctx.violate('a source notation denotes the weighted port-mode pairs it reads as', dict(d, got=repr(got), expected=repr(src)))
        if x != y:
            ctx.violate('parsing leaves its argument unchanged', d)
        if ctx.full:
            return
    with Impl(ctx, 'no notation', {}):
        if G.parse_excitation(None) != [(p, 0) for p in ports] or G.parse_excitation() != [(p, 0) for p in ports]:
            ctx.violate('no notation means mode 0 of every port in order', {})
    # weights that are not integers
    rng = ctx.rng
    for _ in range(50):
        ks = rng.sample([(p, m) for p in ports for m in range(3)], rng.randint(1, 4))
        ws = [rng.choice([.5, 1j, 2 - 1j, 0, -1.25, np.float64(3)]) for _ in ks]
        x = {k if (k[1] or rng.random() < .5) else k[0]: w for k, w in zip(ks, ws)}
        with Impl(ctx, 'parse_source_port', repr(x)):
            ctx.count('weights')
            if list(parse_source_port(x).items()) != list(zip(ks, ws)):
                ctx.violate('a source notation denotes the weighted port-mode pairs it reads as', dict(notation=repr(x)))
    # longer notations: by the Ordered law the meaning is that of the entries in turn
    single = [(build(r)[0], [tuple(p) for p in r['pairs']]) for r in recs if r['kind'] == 'seq' and len(r['es']) == 1 and r['style'] == 'list']
    for _ in range(200 if ctx.quick else 2000):
        k = [rng.choice(single) for _ in range(rng.randint(4, 9))]
        x = rng.choice([list, tuple])(a for a, _ in k)
        pairs = [p for _, m in k for p in m]
        with Impl(ctx, 'parse_excitation', repr(x)):
            ctx.count('long notations')
            if parse_excitation(x) != pairs:
                ctx.violate('a notation denotes the port-mode pairs it reads as', dict(notation=repr(x), expected=pairs))
            if list(parse_source_port(x).items()) != [(p, 1) for p in dict.fromkeys(pairs)]:
                ctx.violate('a source notation denotes the weighted port-mode pairs it reads as', dict(notation=repr(x)))
