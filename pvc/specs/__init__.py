"""The contracts, one module per property."""
import importlib
import os
from ..harness import REGISTRY


def available():
    d = os.path.dirname(__file__)
    return sorted(f[:-3].upper() for f in os.listdir(d) if f[0] == 'p' and f[1:-3].isdigit() and f.endswith('.py'))


def load(prop):
    n = len(REGISTRY)
    importlib.import_module('pvc.specs.%s' % prop.lower())
    cons = [c for c in REGISTRY if c.prop == prop]
    names = [c.name for c in cons]
    assert len(set(names)) == len(names), 'duplicate contract names'
    return cons
