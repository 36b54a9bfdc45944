"""Histories generated from the specification (spec/MCStore.tla), for the real code to go through."""
import json
import os
import random
import re
import shutil
import tempfile

import base
import data
import gen
import store
import terms
import tlc

import numpy as np


def opts(**kw):
    o = gen.base_options()
    if kw.pop('mat', False):
        gen.set_matlab(o)
    o.update(cn=[[ord(c) for c in n] for n in ('real', 'imag')], rev=True, refs='/#refs#', spm=True, oned='row', act='error')
    o.update(kw)
    return o


P = dict(a=('/a', [47, 97]), b=('b', [98]), ab=('/a/b', [47, 97, 47, 98]), ac=('a/c', [97, 47, 99]), root=('/', [47]),
         refs=('/#refs#', list(b'/#refs#')), rb=('/#refs#/b', list(b'/#refs#/b')), abd=('a/b/d', list(b'a/b/d')))


def path(k):
    p, u = P[k]
    return p, dict(f='text', u=u)


def W(p, v):
    return dict(op='write', ps=[p], vs=[v])


def WS(*pv):
    return dict(op='writes', ps=[p for p, v in pv], vs=[v for p, v in pv])


def rd(p):
    return dict(op='read', ps=[p])


def alphabets(prop):
    return faulty(prop) if prop == 'faults' else alphabet(prop)


def alphabet(prop):
    """(options, values, operations)"""
    st = np.zeros((2,), [('p', 'i4'), ('q', 'f8')])
    s1 = np.zeros((1,), [('a', 'O'), ('b', 'i4')])
    s1['a'][0] = [4]
    vals = dict(i=3, s1=s1, s='txt', l=[1, 'x', [2.5]], d={'k': 1, 'b': 'y'}, n=np.arange(6.0).reshape(2, 3), m=np.arange(6.0).astype('>f8').reshape(2, 3), e=[], o=np.array([None, 1], dtype=object),
                st=st, sw=st.astype(st.dtype.newbyteorder()), z=np.zeros((0, 2)), bad=[1, np.float16(2)], f16={'k': np.float16(1), 'b': 2}, u=np.uint16(7), nn=None,
                big=np.zeros((12, 20)), c=np.array([1 + 2j]), un={1: 2}, b8=np.array([True, False]))
    mat, plain, keep = opts(mat=True), opts(), opts(dele=False)
    disc = opts(mat=True, act='discard')
    O = dict(C05=[opts(mat=True, thr=0), opts(thr=0, alg='lzf', comp=False, uf32=True), opts(thr=16, strct=True, alg='lzf', shf=False)], C06=[mat, keep], C08=[mat, plain], C09=[mat, plain], C16=[mat, disc], C19=[mat, plain])[prop]
    ro = lambda o: dict(op='open', o=o, wr=False)
    rw = lambda o: dict(op='open', o=o, wr=True)
    close = dict(op='close')
    dl = lambda p: dict(op='del', ps=[p])
    ops = dict(
        C05=[W('a', v) for v in ('i', 's', 'l', 'd', 'n', 'm', 'st', 'sw', 'z', 'o', 'big', 'c', 'un', 'b8')] + [close, rw(1), rw(2), rw(3)],
        C06=[W('a', 'd'), W('ab', 'l'), W('b', 'l'), W('ac', 'i'), W('ab', 'bad'), WS(('b', 'i'), ('ac', 'f16'), ('a', 's')), WS(('abd', 'i'), ('b', 'o')), dl('a'), dl('b'), dl('ab'),
             W('refs', 'i'), W('rb', 'i'), close, rw(1), rw(2)],
        C08=[W('a', 'd'), W('b', 'l'), W('ab', 'i'), W('root', 'd'), dl('a'), dl('ab'), dl('b'), dl('root'), rd('a'), rd('b'), rd('ab'), dict(op='iter'), dict(op='len'),
             dict(op='in', ps=['a']), dict(op='in', ps=['refs']), dict(op='popitem'), close, rw(1), rw(2)],
        C09=[W('a', 'l'), W('b', 'i'), rd('a'), dict(op='flush'), dict(op='closed'), dict(op='len'), close, rw(1), rw(2), ro(1), ro(2), dict(op='in', ps=['b']), dl('a'), W('a', 'bad')],
        C16=[W('a', 'l'), W('a', 'o'), W('b', 'l'), W('b', 'e'), W('a', 'bad'), W('ab', 'l'), WS(('a', 'o'), ('b', 'o')), dl('a'), dl('b'), W('rb', 'i'), dl('rb'), rd('rb'), W('a', 'nn'), W('root', 's1'), W('root', 'd'), close, rw(1), rw(2)],
        C19=[W('a', 'bad'), W('a', 'd'), W('ab', 'bad'), W('b', 'l'), WS(('b', 'i'), ('a', 'bad'), ('ac', 'i')), WS(('a', 'f16'), ('b', 'l')), W('refs', 'i'), WS(('b', 'l'), ('rb', 'i')),
             rd('a'), rd('b'), dl('ab'), close, rw(1), rw(2)])[prop]
    return O, vals, ops


def faulty(prop):
    """The operations with errors forced at each place of a write."""
    O, vals, ops = alphabet('C19')
    vals = dict(vals)
    writes = [W('a', 'd'), W('a', 'l'), W('a', 'st'), W('a', 's'), W('b', 'o'), WS(('b', 'i'), ('a', 'e'))]
    after = [W('a', 'l'), W('a', 'i'), W('b', 'd'), rd('a')]
    ops = [dict(op='open', o=1, wr=True), dict(op='open', o=2, wr=True)] + writes + after
    ops += [dict(w, op='fault', at=k * s) for w in writes for k in range(1, 26) for s in (1, -1)]
    return O, vals, ops


def table(prop):
    O, vals, ops = alphabets(prop)
    names = list(vals)
    out = []
    for e in ops:
        out.append(dict(op=e['op'], qs=[path(p)[1] for p in e.get('ps', [])], vs=[names.index(v) + 1 for v in e.get('vs', [])], o=e.get('o', 1), wr=e.get('wr', False)))
    return dict(ops=out, vals=[terms.term(vals[n]) for n in names], opts=O)


def generate(prop, depth, workers=6, timeout=600):
    """The model check and the histories."""
    d = tempfile.mkdtemp(prefix='hops')
    try:
        p = os.path.join(d, 'ops.json')
        with open(p, 'w') as f:
            json.dump(table(prop), f)
        # -lncheck: the properties are about steps
        r = tlc.run('MCStore', env=dict(VOPS=p), workers=workers, mem='6g', timeout=timeout, check=True,
                    cfg_text='CONSTANT Depth = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Refines Sound Latest Listed Show\nPROPERTIES Kept Frame Guarded\n' % depth)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    hs = [tuple(map(int, re.findall(r'\d+', x))) for x in re.findall(r'HIST <<(.*?)>>', r.out)]
    return r, sorted(set(hs))


def replay(prop, hists, scratch):
    O, vals, ops = alphabets(prop)
    d = tempfile.mkdtemp(prefix='hvh', dir=scratch)
    out = []
    for n, h in enumerate(hists):
        fn, mfn = os.path.join(d, 'f%d.h5' % n), os.path.join(d, 'm.h5')
        random.seed(str(h))
        rec = store.Recorder(fn, mfn)
        rec.reseed = str(h)
        rec.start()
        try:
            for i in h:
                do(rec, ops[i - 1], O, vals)
                if rec.hung:
                    break
            if not rec.hung and rec.f is not None:
                if not rec.f.closed:
                    rec.close()
                rec.open(O[0], False)
                rec.mapping('items')
                rec.close()
        finally:
            if rec.f is not None and not rec.hung:
                try:
                    rec.f.close()
                except Exception:
                    pass
            elif rec.hung:
                store.LEAKED.append(rec.f)
        out.append((rec.case(), store.summary(rec)))
        for x in (fn, mfn):
            try:
                os.unlink(x)
            except OSError:
                pass
        if rec.hung:
            break
    shutil.rmtree(d, ignore_errors=True)
    return out


def do(rec, e, O, vals):
    ps = [path(p) for p in e.get('ps', [])]
    if e['op'] == 'open':
        rec.open(O[e['o'] - 1], e['wr'])
    elif e['op'] == 'close':
        rec.close()
    elif e['op'] in ('write', 'writes'):
        rec.write(ps, [vals[v] for v in e['vs']], e['op'])
    elif e['op'] == 'fault':
        rec.write(ps, [vals[v] for v in e['vs']], 'writes', fault=e['at'])
    elif e['op'] == 'read':
        rec.reads(ps, 'read')
    elif e['op'] in ('flush', 'closed'):
        getattr(rec, e['op'])()
    elif e['op'] in ('in', 'del'):
        rec.mapping(e['op'], ps[0])
    else:
        rec.mapping(e['op'])
