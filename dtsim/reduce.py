"""Generic reductions of a case: shorter lists first, then simpler values."""
import copy, json
from . import core


def generic(case):
    for key in ('ops', 'particles', 'faults', 'species'):
        v = case.get(key)
        if isinstance(v, list) and v:
            lo = case.get('_min', {}).get(key, 0)
            for sub in core.list_reductions(v):
                if len(sub) < lo:
                    continue
                c = copy.deepcopy(case)
                c[key] = copy.deepcopy(sub)
                yield c
