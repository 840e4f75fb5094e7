from contracts.base import C
from specs.tables import GROUND, MASSES, SATELLITE

U = 'pyrtlib.utils:'
S = 'specs.tables:'
C('frequencies_ground', ['C21'], U + 'get_frequencies', S + 'ground', lambda d, v: dict(args=[d.text('name', GROUND)]), fresh=True)
C('frequencies_default', ['C21'], U + 'get_frequencies', S + 'ground', lambda d, v: dict(args=[]), fresh=True, weight=0.3)
C('frequencies_satellite', ['C21'], U + 'get_frequencies_sat', S + 'satellite', lambda d, v: dict(args=[d.text('name', SATELLITE)]), fresh=True)
# every id: the listed ones one by one, all the others together
C('gas_mass', ['C21'], U + 'gas_mass', S + 'gas_mass', lambda d, v: dict(args=[v]), variants=[i for i in MASSES if i != 31] + [99], tol=1e-12, weight=0.1)
C('gas_mass_unknown', ['C21'], U + 'gas_mass', S + 'gas_mass', lambda d, v: dict(args=[d.int('gasid', rng=(-40, 140))]), requires=S + 'unlisted', weight=0.3)
C('gas_mass_ccl3f', ['C21'], U + 'gas_mass', S + 'gas_mass', lambda d, v: dict(args=[31]), tol=1e-12)
