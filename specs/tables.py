"""Instrument channels and molecular masses."""
import numpy as np
from specs.dsl import Array

# ground-based radiometers (GHz)
GROUND = {
    'hat': (22.24, 23.04, 23.84, 25.44, 26.24, 27.84, 31.4, 51.26, 52.28, 53.86, 54.94, 56.66, 57.3, 58.0),
    'mp3': (22.234, 22.5, 23.034, 23.834, 25.0, 26.234, 28.0, 30.0, 51.248, 51.76, 52.28, 52.804, 53.336, 53.848, 54.4, 54.94, 55.5,
            56.02, 56.66, 57.288, 57.964, 58.8),
    'arm': (22.235, 23.035, 23.835, 26.235, 30.0, 51.25, 52.28, 53.85, 54.94, 56.66, 57.29, 58.8),
    'tem': (51.25, 51.75, 52.25, 52.85, 53.35, 53.85, 54.4, 54.9, 55.4, 56.0, 56.5, 57.0),
    'k2w': (23.84, 31.4, 72.5, 82.5, 90.0, 150.0),
}


def pairs(centre, *offsets):
    """double-sideband channels of one centre, widest first: all lower sidebands, then all upper ones, by frequency"""
    return [centre - o for o in offsets] + [centre + o for o in reversed(offsets)]


def each(*channels):
    """double-sideband channels one after the other"""
    return [centre + s for centre, o in channels for s in (-o, o)]


def quads(centre, first, *seconds):
    """channels of four sidebands: centre -+ first -+ second"""
    return [centre + s * first + t * second for second in seconds for s in (-1, 1) for t in (-1, 1)]


W, O, V = 183.31, 57.290344, 165.5
SATELLITE = {
    'SAPHIR': pairs(W, 11, 6.8, 4.2, 2.8, 1.1, 0.2),
    'AMSU': [89.0, 150.0] + pairs(W, 7, 3, 1),
    'ATMS': [88.2, 165.5] + pairs(W, 7, 4.5, 3, 1.8, 1),
    'MWI': [18.7, 23.8, 31.4, 50.3, 52.61, 53.24, 53.75, 89] + pairs(118.7503, 3.2, 2.1, 1.4, 1.2) + pairs(V, 0.725) +
    pairs(W, 8.4, 6.1, 4.9, 3.4, 2),
    'MWS': [23.8, 31.4, 50.3, 52.8] + each((53.246, 0.08), (53.596, 0.115), (53.948, 0.081)) + [54.4, 54.94, 55.5, O] + pairs(O, 0.217) +
    quads(O, 0.3222, 0.048, 0.022, 0.010, 0.0045) + [89] + pairs(V, 0.725) + pairs(W, 7, 4.5, 3, 1.8, 1) + [229],
    'ICI': pairs(W, 7, 3.4, 2, 0.2) + pairs(243.2, 2.5) + pairs(325.15, 9.5, 3.5, 1.5) + pairs(448, 7.2, 3, 1.4) + pairs(664, 4.2),
}


def listed(table, name):
    for k in table:
        if name == k:
            v = table[k]
            return Array(len(v), lambda i: np.array(v)[i])
    raise ValueError(name)


def ground(instrument='hat'):
    return listed(GROUND, instrument.lower())


def satellite(instrument):
    return listed(SATELLITE, instrument.upper())


# mass numbers of the most abundant isotopes and formulas of the molecules, by gas id
NUCLEONS = {'H': 1, 'C': 12, 'N': 14, 'O': 16, 'F': 19, 'P': 31, 'S': 32, 'Cl': 35, 'Br': 80, 'I': 127}
FORMULA = {0: 'H2 O', 1: 'C O2', 2: 'O3', 3: 'N2 O', 4: 'C O', 5: 'C H4', 6: 'O2', 7: 'N O', 8: 'S O2', 9: 'N O2', 10: 'N H3', 11: 'H N O3',
           12: 'O H', 13: 'H F', 14: 'H Cl', 15: 'H Br', 16: 'H I', 17: 'Cl O', 18: 'O C S', 19: 'H2 C O', 20: 'H O Cl', 21: 'N2',
           22: 'H C N', 23: 'C H3 Cl', 24: 'H2 O2', 25: 'C2 H2', 26: 'C2 H6', 27: 'P H3', 28: 'C O F2', 29: 'S F6', 30: 'H2 S',
           31: 'C Cl3 F'}


def nucleons(formula):
    n = 0
    for part in formula.split():
        atom = part.rstrip('0123456789')
        n = n + NUCLEONS[atom] * int(part[len(atom):] or '1')
    return n


MASSES = {i: nucleons(FORMULA[i]) for i in FORMULA}
PROTON = 1.6726485e-27
AIR = 28.9402753669


def gas_mass(gasid):
    """mass of the molecule in kg, from the mass numbers of its atoms; air has its mean mass"""
    for i in MASSES:
        if gasid == i:
            return PROTON * MASSES[i]
    if gasid == 99:
        return PROTON * AIR
    raise ValueError(gasid)


def unlisted(gasid):
    for i in MASSES:
        if gasid == i:
            return False
    return gasid != 99
