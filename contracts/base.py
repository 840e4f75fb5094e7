"""Contract registry.  A contract binds one function of /repo to its specification:

  target    module:function or module:Class.method (or module:Class for a constructor)
  spec      specs module:function: the specification function, receives the same arguments plus the ghosts
  build     build(d, variant) -> dict(args=[...], kwargs={...}, ghost=[...]) using the domain object d, which yields
            logical variables in the verifier and random values in the CPython cross-check
  requires  optional specs module:function giving the precondition on the same arguments
  variants  finite enumeration of configurations (model names, flags, ...), each verified separately
  fresh     the result must not share storage with anything that outlives the call
  opaque    callees used through their contract only: qualname -> result descriptor
"""
REGISTRY = {}


class Contract:
    def __init__(self, id, props, target, spec, build, variants=(None,), requires=None, opaque=None, tol=1e-7,
                 weight=1.0, note='', preload=(), split=8, inline_note='', scale=None, prove=True, atol=0.0, hist=True,
                 call=None, thorough_variants=None, frame=True, fresh=False):
        self.id = id
        self.props = tuple(props)
        self.target = target
        self.spec = spec
        self.build = build
        self.variants = tuple(variants)
        self.requires = requires
        self.opaque = dict(opaque or {})
        self.tol = tol
        self.atol = atol
        self.weight = weight
        self.note = note
        self.preload = tuple(preload)
        self.scale = scale
        self.prove = prove
        self.hist = hist
        self.call = call
        self.frame = frame
        self.fresh = fresh
        if id in REGISTRY:
            raise ValueError('duplicate contract ' + id)
        REGISTRY[id] = self


def C(*a, **k):
    return Contract(*a, **k)


MODULES = []


def load_all():
    import importlib
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.endswith('.py') and f not in ('__init__.py', 'base.py', 'domreal.py'):
            importlib.import_module('contracts.' + f[:-3])
    return REGISTRY
