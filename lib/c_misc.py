"""Checks of options, marshallers and MATLAB files: C11."""
import collections
import copy
import itertools
import os
import random
import tempfile

import base
import c_store
import c_text
import coll
import conc
import data
import gen
import store
import terms

import numpy as np

# ---------------------------------------------------------------------- C11

ORDER = ['store_python_metadata', 'matlab_compatible', 'action_for_matlab_incompatible', 'delete_unused_variables', 'structured_numpy_ndarray_as_struct',
         'make_atleast_2d', 'convert_numpy_bytes_to_utf16', 'convert_numpy_str_to_utf16', 'convert_bools_to_uint8', 'reverse_dimension_order', 'structs_as_dicts',
         'store_shape_for_empty', 'complex_names', 'group_for_references', 'oned_as', 'dict_like_keys_name', 'dict_like_values_name', 'compress',
         'compress_size_threshold', 'compression_algorithm', 'gzip_compression_level', 'shuffle_filter', 'compressed_fletcher32_filter',
         'uncompressed_fletcher32_filter', 'marshaller_collection']
GOVERNED = dict(delete_unused_variables=True, structured_numpy_ndarray_as_struct=True, make_atleast_2d=True, convert_numpy_bytes_to_utf16=True,
                convert_numpy_str_to_utf16=True, convert_bools_to_uint8=True, reverse_dimension_order=True, store_shape_for_empty=True,
                complex_names=('real', 'imag'), group_for_references='/#refs#', compression_algorithm='gzip')


class Pair(tuple):
    pass


Named = collections.namedtuple('Named', 'a b')
JUNK = [None, 5.0, 1j, b'gzip', b'/x', [], {}, {'a'}, object(), ('a',), ('a', 'b', 'c'), ('a', 5), (5, 'a'), (b'r', b'i'), ['r', 'i'], np.bool_(True), np.bool_(False),
        np.int64(5), np.float64(1), np.array([True]), np.array(['r', 'i']), lambda: 1, int, bool, bytearray(b'row')]
TEXTS = ['', 'row', 'column', 'gzip', 'lzf', 'szip', 'error', 'ignore', 'discard', 'GZIP', 'row ', '/', '//', '/x', '/x/y', '/#refs#', '//#refs#', '/#refs#/', '/a/../#refs#',
         '/#refs#/.', '/./#refs#', '/..', '/../x', '/a//b', 'x', 'x/y', './x', '/x/', '/é', '/a\\x2fb', '/ ', 'ri', 'é', 'keys', 'values', 'a/b', '/../../#refs#', '/#refs#/..', '///x', '/#refs', '/#refs#2']
PAIRS = [('real', 'imag'), ('r', 'i'), ('real', 'i'), ('imag', 'real'), ('a', 'a'), ('', ''), ('é', '日'), Pair(('real', 'imag')), Pair(('p', 'q')), Named('real', 'imag'), Named('r', 'i'),
         (np.str_('real'), np.str_('imag'))]
INTS = [0, 1, 2, 5, 6, 7, 8, 9, 10, 11, -1, -5, 16384, 16385, 10**6, 2**31 - 1, -2**31 + 1]


class Values:
    """The values that are assigned and observed, as terms."""

    def __init__(self, h, colls):
        self.h = h
        self.colls = colls

    def term(self, v):
        if isinstance(v, bool):
            return dict(k='bool', b=v)
        if isinstance(v, int):
            return dict(k='int', n=v)
        if isinstance(v, str):
            return dict(k='str', u=terms.cps(v))
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and isinstance(v[1], str):
            return dict(k='pair', a=terms.cps(v[0]), b=terms.cps(v[1]))
        if isinstance(v, self.h.MarshallerCollection):
            for i, c in enumerate(self.colls):
                if c is v:
                    return dict(k='coll', i=i + 1)
        return dict(k='other')

    def some(self, r, o):
        """A value for an option: mostly of the right type."""
        z = r.random()
        if z < 0.12:
            return r.choice(JUNK)
        if z < 0.22:
            return r.choice([True, False, r.choice(TEXTS), r.choice(INTS), r.choice(PAIRS), r.choice(self.colls)])
        if z < 0.5 and o in GOVERNED:
            return GOVERNED[o]
        if o == 'complex_names':
            return r.choice(PAIRS)
        if o in ('compress_size_threshold', 'gzip_compression_level'):
            return r.choice(INTS + [True, False])
        if o == 'marshaller_collection':
            return r.choice(self.colls)
        if o == 'action_for_matlab_incompatible':
            return r.choice(['error', 'ignore', 'discard', r.choice(TEXTS)])
        if o == 'oned_as':
            return r.choice(['row', 'column', r.choice(TEXTS)])
        if o == 'compression_algorithm':
            return r.choice(['gzip', 'lzf', 'szip', 'gzip', r.choice(TEXTS)])
        if o == 'group_for_references':
            return r.choice(TEXTS + ['/#refs#', '/x'] * 5)
        if o.startswith('dict_like'):
            return r.choice(TEXTS)
        return r.random() < 0.5


class OptionHistory:
    def __init__(self, r, h, fn):
        self.r, self.h, self.fn = r, h, fn
        self.colls = [h.get_default_marshaller_collection(), h.MarshallerCollection(lazy_loading=True)]
        self.v = Values(h, self.colls)
        self.os, self.ev, self.last = [], [], []

    def snap(self, o):
        out = []
        for n in dir(type(o)):
            if isinstance(getattr(type(o), n), property):
                v = getattr(o, n)
                t = self.v.term(v)
                if t['k'] == 'int' and abs(t['n']) >= 2**31:
                    t = dict(k='other')
                out.append(dict(o=n, v=t))
        return out

    def event(self, op, go, **k):
        st, er = 'ok', []
        try:
            go()
        except Exception as e:
            st, er = 'err', store.classes(e)
        e = dict(op=op, st=st, er=er, x=0, o='', v=dict(k='other'), kw=[], c=0)
        e.update(k)
        all_ = [self.snap(o) for o in self.os]
        e['n'] = len(all_)
        e['d'] = [dict(t, x=i + 1) for i, a in enumerate(all_) for t in a if i >= len(self.last) or t not in self.last[i]]
        if any(len(a) != len(b) for a, b in zip(all_, self.last)):
            raise AssertionError('options appear or vanish')
        self.last = all_
        self.ev.append(e)

    def new(self, kw):
        r = self.r
        names = list(kw)
        args = []
        if r.random() < 0.2:                     # the first ones by position
            k = r.choice([1, 2, 3, 8, 20, 25])
            for o in ORDER[:k]:
                if o not in kw:
                    kw[o] = self.v.some(r, o)
                args.append(kw[o])
            pairs = list(zip(ORDER[:k], args)) + [(o, kw[o]) for o in names if o not in ORDER[:k]]
            named = {o: kw[o] for o in names if o not in ORDER[:k]}
        else:
            items = list(kw.items())
            r.shuffle(items)
            pairs, named = items, dict(items)
        if r.random() < 0.1:
            named['not_an_option'] = r.choice(JUNK)
        self.event('new', lambda: self.os.append(self.h.Options(*args, **named)), kw=[dict(o=o, v=self.v.term(v)) for o, v in pairs])

    def set(self, x, o, v):
        def go():
            setattr(self.os[x], o, v)
        self.event('set', go, x=x + 1, o=o, v=self.v.term(v))

    def use(self, x):
        h, o, fn = self.h, self.os[x], self.fn

        def go():
            if os.path.exists(fn):
                os.unlink(fn)
            with h.File(fn, writable=True, options=o) as f:
                f.write({'a': [1, 'x']}, path='/d')
                f.write(np.arange(3), path='/n')
            h.write(2.5, path='/q', filename=fn, options=o)
            h.read(path='/n', filename=fn, options=o)

        def tried():
            try:
                go()
            except Exception:
                pass                     # szip may not be there
        self.event('use', tried, x=x + 1)

    def default(self):
        def go():
            self.h.make_new_default_marshaller_collection(lazy_loading=True)
            self.colls.append(self.h.get_default_marshaller_collection())
        self.event('default', go, c=len(self.colls) + 1)

    def step(self):
        r = self.r
        z = r.random()
        if not self.os or z < 0.1:
            y = r.random()
            kw = {}
            if y < 0.25:
                kw = dict(GOVERNED)               # an Options that is MATLAB compatible by chance
                for o in r.sample(sorted(kw), r.choice([0, 0, 1, 1, 2])):
                    kw[o] = self.v.some(r, o)
                if r.random() < 0.8:
                    kw['matlab_compatible'] = r.choice([False, None, 1, 'x', np.bool_(True)])
            elif y < 0.9:
                for o in r.sample(ORDER, r.choice([0, 1, 1, 2, 4, 10, 25])):
                    kw[o] = self.v.some(r, o)
                if r.random() < 0.4:
                    kw['matlab_compatible'] = r.choice([False, False, True, None])
            self.new(kw)
            return
        x = r.randrange(len(self.os))
        if z < 0.14:
            self.event('copy', lambda: self.os.append(copy.copy(self.os[x])), x=x + 1)
        elif z < 0.17:
            self.default()
        elif z < 0.2:
            self.use(x)
        else:
            y = r.random()
            o = 'matlab_compatible' if y < 0.25 else r.choice(sorted(GOVERNED)) if y < 0.7 else r.choice(ORDER)
            self.set(x, o, self.v.some(r, o))


def chunk11(seed, k, j, n, steps, scratch):
    h = data.lib()
    r = random.Random(seed)
    d = tempfile.mkdtemp(prefix='hvo', dir=scratch)
    out = []

    def fresh():
        h.make_new_default_marshaller_collection(lazy_loading=True)
        return OptionHistory(r, h, os.path.join(d, 'f.h5'))
    # each option set to each value, from MATLAB compatible, incompatible and nearly compatible Options
    i = 0
    for o in ORDER:
        for how in ('mc', 'plain', 'near', 'kw', 'kwoff', 'all'):
            i += 1
            if i % k != j:
                continue
            for val in JUNK + TEXTS + PAIRS + INTS + [True, False]:
                t = fresh()
                if how == 'kw':
                    t.new({o: val})
                elif how == 'kwoff':
                    t.new({o: val, 'matlab_compatible': val if o == 'matlab_compatible' else False})
                elif how == 'all':
                    kw = dict(GOVERNED, matlab_compatible=None)
                    kw[o] = val
                    t.new(kw)
                else:
                    t.new({} if how == 'mc' else {'matlab_compatible': False} if how == 'plain' else dict(GOVERNED, matlab_compatible=False))
                    t.set(0, o, val)
                    if r.random() < 0.2:
                        t.set(0, 'matlab_compatible', True)
                out.append(dict(ev=t.ev))
    for _ in range(n):
        t = fresh()
        for _ in range(r.choice(steps)):
            t.step()
        out.append(dict(ev=t.ev))
    return out


FOCUS = ['matlab_compatible', 'delete_unused_variables', 'store_shape_for_empty', 'complex_names', 'group_for_references', 'compression_algorithm',
         'oned_as', 'compress_size_threshold']


def c11(ck):
    foc = [FOCUS] if ck.quick else [FOCUS, ['matlab_compatible', 'make_atleast_2d', 'convert_numpy_bytes_to_utf16', 'convert_numpy_str_to_utf16', 'convert_bools_to_uint8',
                                            'reverse_dimension_order', 'structured_numpy_ndarray_as_struct', 'complex_names', 'store_python_metadata', 'gzip_compression_level'],
                                    ['matlab_compatible', 'group_for_references', 'marshaller_collection', 'dict_like_keys_name', 'dict_like_values_name',
                                     'action_for_matlab_incompatible', 'structs_as_dicts', 'compress', 'shuffle_filter']]
    for x in foc:
        ck.start_model('MCOptions', 'CONSTANTS Focus = {%s}\n' % ', '.join('"%s"' % o for o in x) + c_text.INV + 'Always Takes Alone Turns\n',
                       'all histories of assignments to ' + ', '.join(x))
    k = base.NPROC * 2
    cases = c_text.gather(ck, chunk11, [('%s/C11/%d' % (ck.seed, j), k, j, ck.n(60, 1500), [6, 15, 40], ck.dir) for j in range(k)])
    c_text.run_judge(ck, cases, 'HOptionsJudge', batch=12000, show=lambda c: dict(ev=[{k: e[k] for k in ('op', 'x', 'o', 'v', 'kw', 'st', 'er', 'd')} for e in c['ev']][:60]))
    recs = c_store.collect(ck, 'isolated', ck.n(400, 5000), [5, 8])
    c_store.judge(ck, recs, lambda x, e, i, c: x.startswith(('target:', 'outcome:', 'close:', 'open:', 'read:', 'map:', 'refs:') + c_store.ALWAYS))


# ---------------------------------------------------------------------- C12

def c12(ck):
    ck.start_model('MCColl', 'CONSTANTS Depth = %d\n' % ck.n(5, 7) + c_text.INV + 'Same Imports First Lazy Sorted\n', 'histories of a collection kept as tables')
    k = base.NPROC * 2
    cases = c_text.gather(ck, coll.chunk, [('%s/C12/%d' % (ck.seed, j), ck.n(180, 1600), [8, 15, 30], ck.dir) for j in range(k)])

    def show(c):
        return dict(ms=list(enumerate(c['ms'], 1))[len(c['bi']):], ev=[{k: v for k, v in e.items() if v not in ([], '', 0, False) }
                                                                     for e in c['ev']])
    c_text.run_judge(ck, cases, 'HCollJudge', show=show, batch=2500)
    ck.cov['events'] = sum(len(c['ev']) for c in cases)


# ---------------------------------------------------------------------- C10

def c10(ck):
    for n, m in ([(2, 2), (3, 1)] if ck.quick else [(2, 3), (3, 1), (4, 1)]):
        ck.start_model('MCConc', 'CONSTANTS Threads = {%s} Count = %d Locked = TRUE\nINIT Init\nNEXT Next\nINVARIANTS Sequential InStep Exclusive\n' %
                       (', '.join(map(str, range(1, n + 1))), m), '%d threads, each with %d operations' % (n, m))
    k = base.NPROC * 2
    cases = c_text.gather(ck, conc.chunk, [('%s/C10/%d' % (ck.seed, j), ck.n(300, 2500), ck.n(110, 800), ck.dir) for j in range(k)], timeout=700)
    whole = [c for c in cases if not c['hang']]
    for c in cases:
        if c['hang']:
            ck.violation(['hang'], c)
    for at in range(0, len(whole), 10000):
        some = whole[at:at + 10000]
        bad, states = conc.judge(some, base.NPROC)
        ck.cov['states'] += states
        ck.cov['transitions'] += states
        for i in bad:
            ck.violation(['no-sequential-order'], some[i])
    ck.traces(len(cases))
    ck.cov['events'] = sum(len(c['ops']) for c in cases)
    ck.cov['overlapping'] = sum(any(a['c'] < b['r'] and b['c'] < a['r'] for a, b in itertools.combinations(c['ops'], 2)) for c in cases)
    for c in cases[:2] + cases[-1:]:
        ck.sample([dict(op=e['op'], c=e['c'], r=e['r'], st=e['st'], out=e['out']) for e in c['ops']])


CHECKS = dict(C10=c10, C11=c11, C12=c12)
