"""Generate MANIFEST.json: every property that has contracts is claimed, the others carry a reason."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from contracts import base  # noqa: E402
base.load_all()
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
claimed = {p for c in base.REGISTRY.values() for p in c.props}
DRIVERS = {'specs.wyoming:request': 'WyomingUpperAir.request_data', 'specs.wyoming:stations': 'WyomingUpperAir.get_stations',
           'specs.era5:read': 'ERA5Reanalysis.read_data', 'specs.era5:ask': 'ERA5Reanalysis.request_data',
           'specs.igra2:request': 'IGRAUpperAir.request_data', 'specs.igra2:fields': 'IGRAUpperAir._get_fwf_params', 'specs.igra2:station': 'IGRAUpperAir.request_data, _get_data, _get_data_raw', 'specs.igra2:absent': 'IGRAUpperAir.request_data (absent station)',
           'specs.web:get': 'HTTPEndPoint._get_path', 'specs.web:query': 'HTTPEndPoint._get_query', 'specs.web:session': 'HTTPSessionManager.create_session'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed and i not in NA:
        cs = [c for c in base.REGISTRY.values() if i in c.props]
        tg = sorted({DRIVERS.get(c.target, c.target.split(':')[1]) for c in cs if c.prove and (c.target in DRIVERS or not c.target.startswith('specs.'))})
        bd = sorted({c.id for c in cs if not c.prove})
        if not tg:
            checks.append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'python3-vt check.py %s --thorough' % i,
                           'technique': 'bounded check of executable contracts (specification functions) on the real code; not proved',
                           'level': 'exploration',
                           'level_note': 'bounded stand-in, never counted as proved: the contracts %s compare the real code with its specification on '
                                         'generated inputs; no obligation is discharged for this property' % ', '.join(bd)})
            continue
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'python3-vt check.py %s --thorough' % i,
                       'technique': 'contract-based deductive verification of the Python source: symbolic execution of the real functions '
                                    'against their contracts, loops summarised by invariants (closed forms), obligations discharged by a '
                                    'rational-function rewriter and z3',
                       'level': 'proof',
                       'level_note': 'functions under contract: %s. Real arithmetic instead of floating point; NumPy/pandas primitives by '
                                     'modelled contracts%s' % (', '.join(tg), '; bounded only (not counted as proved): ' + ', '.join(bd) if bd else '')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'contracts for this property are not written yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, mpmath"', 'checks': checks, 'not_applicable': na,
     'notes': 'see DESIGN.md; known findings in known_findings.json'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
