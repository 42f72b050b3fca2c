"""Thin access layer to the public ahkab API."""
import os
import tempfile

import numpy as np

_n = [0]


def outname(tag='o'):
    _n[0] += 1
    return os.path.join(os.environ.get('VF_SCRATCH', tempfile.gettempdir()),
                        '%s_%d_%d' % (tag, os.getpid(), _n[0]))


def cleanup(base):
    d, b = os.path.split(base)
    for f in os.listdir(d):
        if f.startswith(b + '.'):
            try:
                os.remove(os.path.join(d, f))
            except OSError:
                pass


def api():
    import ahkab
    from ahkab import ahkab as A
    return A


def op(circ, **kw):
    A = api()
    o = outname('op')
    try:
        return A.run(circ, A.new_op(outfile=o, **kw))['op']
    finally:
        cleanup(o)


def label(k):
    return ('V%s' % k[1]) if k[0] == 'v' else ('I(%s)' % k[1])


def get(r, k):
    """value of unknown k in a results object (None if absent)"""
    lab = label(k)
    try:
        v = r[lab]
    except KeyError:
        return None
    v = np.asarray(v)
    if v.size == 1:
        v = v.reshape(-1)[0]
        return complex(v) if np.iscomplexobj(v) else float(v)
    return v
