import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import *


def uniq(items):
    """(key, decl, body[, nobs]) tuples -> Items; '_@' in the text becomes a unique suffix"""
    out = []
    for k, t in enumerate(items):
        key, decl, body = t[:3]
        n = t[3] if len(t) > 3 else 1
        out.append(Item('/'.join(map(str, key)) if isinstance(key, tuple) else key, body.replace('_@', f'_{k}'), decl.replace('_@', f'_{k}'), n))
    return out
