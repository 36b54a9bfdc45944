"""The known findings: the specific inputs that fail, and the file listing them."""
import os
import re

import base
import data
import gen
import numpy as np

FILE = os.path.join(base.VERIF, 'known_findings.txt')


def _opts(**kw):
    o = gen.base_options()
    o.update(dict(mc=False, act='ignore', spm=True, strct=False, ssfe=False, at2d=False, rev=False, b16=False, s16=False, bu8=False, comp=False, cn=[[114], [105]]))
    o.update(kw)
    return o


def _objects(*vs):
    a = np.zeros(len(vs), [('a', object)])
    for i, v in enumerate(vs):
        a['a'][i] = v
    return a


def probes():
    """name: [(value, options)]"""
    return {
        'empty-struct-group': [(np.zeros(0, [('a', 'i4')]), _opts(strct=True)), (np.zeros(0, [('a', 'i4')]), _opts(ssfe=True))],
        'object-field-same-type': [(_objects(np.int32(1), np.int32(2)), _opts(strct=True))],
        'matrix-in-object-field': [(_objects(np.matrix([[1, 2]]), np.matrix([[3, 4]])), _opts(strct=True))],
        'nested-r-i': [(np.zeros(2, [('q', [('r', 'f8'), ('i', 'f8')])]), _opts())],
    }


def listed(prop):
    """[(probe, text)] of the known findings of a property."""
    out = []
    for line in open(FILE):
        m = re.match(r'known: property=(\S+) probe=(\S+) (.*)', line)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


def cases(prop):
    """[(probe, text, case)]: the inputs, written and read with the real code."""
    out = []
    ps = probes()
    for name, text in listed(prop):
        for v, o in ps[name]:
            fn = os.path.join(base.scratch_base(), 'hvknown%d.h5' % os.getpid())
            try:
                c = data.run_case(v, o, fn, dict(data.CHK, round=True, dec=True, exact=True))
            finally:
                if os.path.exists(fn):
                    os.unlink(fn)
            c['src'] = text
            out.append((name, text, c))
    return out
