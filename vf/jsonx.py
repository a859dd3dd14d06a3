"""Exact JSON encoding of cases (numpy arrays, complex, bytes, tuples, int keys)."""
import base64
import json
import math
import numpy as np


def enc(o):
    if isinstance(o, (bool, type(None), str)):
        return o
    if isinstance(o, np.ndarray):
        return {'__nd__': str(o.dtype), 'shape': list(o.shape), 'v': [enc(v) for v in o.ravel().tolist()],
                **({'flav': 2 if o.ndim == 1 and o.strides[0] < 0 else 1} if not o.flags.c_contiguous else {}), **({'ro': 1} if not o.flags.writeable else {})}
    if isinstance(o, np.generic):
        return {'__np__': str(o.dtype), 'v': enc(o.item())}
    if isinstance(o, int):
        return o
    if isinstance(o, float):
        return o if math.isfinite(o) else {'__f__': repr(o)}
    if isinstance(o, complex):
        return {'__c__': [enc(o.real), enc(o.imag)]}
    if isinstance(o, bytes):
        return {'__b__': base64.b64encode(o).decode()}
    if isinstance(o, tuple):
        return {'__t__': [enc(v) for v in o]}
    if isinstance(o, list):
        return [enc(v) for v in o]
    if isinstance(o, dict):
        if all(isinstance(k, str) and not k.startswith('__') for k in o):
            return {k: enc(v) for k, v in o.items()}
        return {'__d__': [[enc(k), enc(v)] for k, v in o.items()]}
    if type(o) is object:
        return {'__obj__': 1}
    raise TypeError(repr(type(o)))


def dec(o):
    if isinstance(o, list):
        return [dec(v) for v in o]
    if isinstance(o, dict):
        if '__nd__' in o:
            vals = [dec(v) for v in o['v']]
            a = np.array(vals, dtype=o['__nd__']).reshape(o['shape'])
            if o.get('flav') == 2:
                b = np.zeros(len(a), a.dtype)[::-1]
                b[:] = a
                a = b
            elif o.get('flav'):
                b = np.zeros((2,) + a.shape[:-1] + (a.shape[-1] * 2,), a.dtype)[0]
                b[..., ::2] = a
                a = b[..., ::2]
            if o.get('ro'):
                a.setflags(write=False)
            return a
        if '__np__' in o:
            return np.dtype(o['__np__']).type(dec(o['v']))
        if '__c__' in o:
            return complex(*map(dec, o['__c__']))
        if '__f__' in o:
            return float(o['__f__'])
        if '__b__' in o:
            return base64.b64decode(o['__b__'])
        if '__t__' in o:
            return tuple(dec(v) for v in o['__t__'])
        if '__d__' in o:
            return {dec(k): dec(v) for k, v in o['__d__']}
        if '__obj__' in o:
            return object()
        return {k: dec(v) for k, v in o.items()}
    return o


def dumps(o):
    return json.dumps(enc(o))


def loads(s):
    return dec(json.loads(s))
