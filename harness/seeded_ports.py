"""Measurements and sources of a fixed simulation, printed as JSON (run with different hash seeds)."""
import json
import warnings
import numpy as np
warnings.filterwarnings('ignore')
from simphox.fdfd import FDFD
from simphox.grid import Port

rng = np.random.default_rng(5)
eps = rng.choice([1., 2., 4.], size=(12, 11))
sim = FDFD((12., 11.), 1., wavelength=np.pi, eps=eps)
names = ['alpha', 'b0', 'gamma', 'd1']
for nm, (x, y, a) in zip(names, [(2, 5, 180), (9, 4, 0), (5, 8, 90), (6, 2, 270)]):
    sim.port[nm] = Port(x, y, a, 2)
f = rng.normal(size=(2, 3, 12, 11, 1)) + 1j * rng.normal(size=(2, 3, 12, 11, 1))
out = {}
for k, req in enumerate([None, ['gamma', 'alpha', 'd1', 'b0'], [('d1', 0), ('alpha', 1), ('b0', 0)], {'b0': [1, 0], 'gamma': [0]}]):
    out[f'm{k}'] = np.abs(sim.get_measure_fn(req)(f)).tolist()
out['s'] = np.abs(sim.port_source({'d1': 1, 'alpha': 2j, 'gamma': -1})).tolist()
out['modes'] = list(sim.port_modes(['d1', 'alpha', 'gamma']).values()) and [m.io.betas.tolist() for m in sim.port_modes(['d1', 'alpha', 'gamma']).values()]
out['order'] = [names.index(x) for x in sim.port_modes(['d1', 'alpha', 'gamma', 'b0'])]
print(json.dumps(out))
