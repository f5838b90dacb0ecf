"""serialising environments"""
import numpy as _np
from .vcbase import ArrGen


def ser_env(env):
    out = {}
    for k, v in env.items():
        if '!' in k and not k.startswith('at!'):
            continue
        if isinstance(v, ArrGen):
            out[k] = {'arrseed': v.seed}
        elif isinstance(v, (bool, int, float)):
            out[k] = v
        elif isinstance(v, (_np.floating, _np.integer)):
            out[k] = v.item()
    return out
