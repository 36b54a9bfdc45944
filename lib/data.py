"""Writes values with the real code, looks at the files with h5py, reads them back."""
import datetime
import fractions
import os
import random
import sys
import warnings

import base

sys.path.insert(0, os.path.join(base.REPO, 'src'))

import gen
import numpy as np
import terms

warnings.simplefilter('ignore')
NONE = dict(t='none')


def lib():
    import hdf5storage
    import numpy as np
    if not hasattr(lib, 'done'):
        np.seterr(all='ignore')
        lib.done = True
    return hdf5storage


def dump_path(fn, o, path):
    import h5py
    try:
        with h5py.File(fn, 'r') as f:
            if path not in f:
                return None
            return terms.Dumper(f, o['refs']).dump(f[path])
    except Exception as e:
        return dict(t='unreadable', why=repr(e)[:200])


def swapped(dt):
    """Whether there is anything of the other byte order in a dtype."""
    if dt.fields is not None:
        return any(swapped(dt.fields[n][0]) for n in dt.names)
    return not dt.base.isnative


def has_swapped(fn):
    """Whether a file has data of the other byte order."""
    import h5py
    found = []
    with h5py.File(fn, 'r') as f:
        f.visititems(lambda name, x: found.append(1) if isinstance(x, h5py.Dataset) and swapped(x.dtype) else None)
    return bool(found)


def run_case(v, o, fn, chk, path='/x', how='oneshot'):
    """One write and one read; the case for HAllJudge."""
    h = lib()
    c = dict(v=terms.term(v), o=o, st='ok', er='', nd=NONE, rok=False, w=dict(k='bad'), chk=chk)
    O = h.Options(**gen.options_kwargs(o))
    try:
        if how == 'oneshot':
            h.write(v, path=path, filename=fn, options=O)
        elif how == 'writes':
            h.writes({path: v}, filename=fn, options=O)
        else:
            with h.File(fn, writable=True, options=O) as f:
                if how == 'item':
                    f[path] = v
                else:
                    f.write(v, path)
    except Exception as e:
        c['st'] = 'err'
        c['er'] = type(e).__name__
        c['msg'] = str(e)[:200]
    if c['st'] == 'ok':
        if not os.path.exists(fn):
            c['st'] = 'nofile'
            return c
        nd = dump_path(fn, o, path)
        if nd is None:
            c['st'] = 'none'
        else:
            c['nd'] = nd
            c['swap'] = chk['dec'] and has_swapped(fn)
            if chk['dec'] or chk['round']:
                try:
                    if how in ('oneshot', 'item'):
                        w = h.read(path, filename=fn, options=O)
                    elif how == 'writes':
                        w = h.reads([path], filename=fn, options=O)[0]
                    else:
                        with h.File(fn, writable=False, options=O) as f:
                            w = f[path]
                    c['w'] = terms.term(w)
                    c['rok'] = True
                except Exception as e:
                    c['rok'] = False
                    c['rmsg'] = repr(e)[:200]
                c['rd'] = True
    return c


def describe(c):
    return dict(options={k: v for k, v in c['o'].items()}, value=c.get('src'), written=c['v'], outcome=c['st'], error=c.get('msg'),
                read=c['w'], read_error=c.get('rmsg'), found=c['nd'])


def chunk(seed, n, prof, base):
    """n cases of a profile: function (rng, i) -> (value, options, chk)."""
    import tempfile
    r = random.Random(seed)
    d = tempfile.mkdtemp(prefix='hvc', dir=base)
    make = PROFILES[prof]
    cases = []
    for i in range(n):
        v, o, chk = make(r, i)
        random.seed(r.random())       # names of references
        fn = os.path.join(d, 'f%d.h5' % i)
        how = r.choice(['oneshot', 'oneshot', 'writes', 'file', 'item'])
        path = r.choice(['/x', '/x', '/x', '/g/x', '/g/é/h/x', '/a\\x2fb'])
        if isinstance(v, GROUPED) and (not isinstance(v, (np.ndarray, np.generic)) or v.dtype.fields is not None) and o['refs'].count('/') == 1 and r.random() < 0.12:
            path = '/'
        try:
            if path != '/' and r.random() < 0.15:
                # there are other objects and references already
                try:
                    lib().write([1, [2, 'x'], None], path='/w', filename=fn, options=lib().Options(**gen.options_kwargs(o)))
                except Exception:
                    pass
            c = run_case(v, o, fn, chk, path=path, how=how)
            if path == '/' and c['st'] == 'err' and c['er'] == 'ValueError':
                # was stored as a Dataset
                os.unlink(fn)
                c = run_case(v, o, fn, chk, how=how)
            c['src'] = path + ': ' + repr(v)[:400]
            cases.append(c)
        finally:
            try:
                os.unlink(fn)
            except OSError:
                pass
    os.rmdir(d)
    return cases


GROUPED = (dict, slice, range, datetime.date, datetime.time, datetime.timedelta, fractions.Fraction, np.ndarray, np.void)
CHK = dict(enc=False, dec=False, round=False, mat=False, exact=False)

# ------------------------------------------------------------ systematic values


def systematic():
    """A fixed list of values: every type in every shape and container."""
    import collections
    import datetime
    import fractions
    import numpy as np
    out = [None, Ellipsis, NotImplemented, True, False, 0, 1, -1, 2**31, -2**31, 2**63 - 1, -2**63, 2**63, 2**64, -2**63 - 1,
           10**40, -10**40, 0.0, -0.0, 1.5, float('inf'), float('-inf'), float('nan'), 5e-324, 1j, complex(-0.0, 2.5), complex(float('nan'), 1),
           '', 'a', 'abc', 'aé', '日本', '\U0001f600', 'a\U0001f600b', '\0', 'a\0', '\0a', 'a\0b\0\0', '\ufeff', '\ufeffa', '\ud800', 'a\udc00',
           '\ud83d\ude00', '\uffff', '\x7f\x80\xff', ' a ', 'x' * 40, '\u4e00', '\u0100', 'a\n\t', '\U0010ffff',
           b'', b'a', b'abc', b'\0', b'a\0', b'\0a', b'\xff', b'a\xc3\xa9', b'x' * 40, b'\x7f\x80', bytearray(b''), bytearray(b'abc'), bytearray(b'a\xff\0'),
           [], [1], [1, 'a', None], [[1], [2, []]], (), (1,), ((), (1, 2)), set(), {1, 'a'}, frozenset(), frozenset([(1,), b'a']),
           collections.deque(), collections.deque([1, [2]]), collections.ChainMap({'a': 1}, {'b': 2}), collections.ChainMap(),
           {}, {'a': 1}, {'a': {'b': {'c': 1}}}, {1: 2}, {'a': 1, 2: 3}, {'': 1}, {b'a': 1, 'b': 2}, {'a': 1, b'a': 2}, {'/': 1, '.': 2, '..': 3, '\\': 4, '\0': 5},
           {'é': 1, '日': 2, '\U0001f600': 3}, {'\ud800': 1}, {b'\xff': 1}, {(1, 'a'): 1, None: 2}, {'z': 1, 'a': 2, 'm': 3}, {'keys': 1, 'values': 2},
           {np.str_('a'): 1, np.bytes_(b'b'): 2}, {'a': []}, {'a': None}, {'x' * 40: 1}, {True: 1, 'a': 2}, {1.5: 'a'},
           collections.OrderedDict(), collections.OrderedDict([('z', 1), ('a', 2)]), collections.OrderedDict([(2, 1), (1, 2)]),
           collections.Counter(), collections.Counter('abca'), collections.Counter([1, 1, 2]),
           slice(None), slice(1, 2, 3), slice(None, 5), range(0), range(1, 10, 3), range(5, -5, -2), range(2**70),
           datetime.timedelta(), datetime.timedelta(-1, 5, 7), datetime.date(1, 1, 1), datetime.date(9999, 12, 31), datetime.time(), datetime.time(23, 59, 59, 999999, fold=1),
           datetime.datetime(2000, 2, 29, 1, 2, 3, 4), datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=-5, minutes=30)),
           datetime.timezone(datetime.timedelta(hours=2), 'Xé'), datetime.datetime(1999, 1, 1, tzinfo=datetime.timezone.utc, fold=1),
           datetime.time(1, 2, tzinfo=datetime.timezone(datetime.timedelta(hours=1))),
           fractions.Fraction(1, 3), fractions.Fraction(-10**30, 7), fractions.Fraction(0),
           np.dtype('i4'), np.dtype('>f8'), np.dtype('S5'), np.dtype('U3'), np.dtype('bool'), np.dtype('object'), np.dtype([('a', 'i4'), ('b', 'S2', (2,))]), np.dtype(('f4', (2,)))]
    shapes = [(), (1,), (3,), (1, 1), (1, 3), (3, 1), (2, 3), (2, 1, 3), (0,), (0, 0), (0, 3), (2, 0), (2, 0, 3), (1, 2, 2, 2)]
    rr = random.Random('systematic')
    g = gen.Gen(rr)
    for t in gen.NUMT:
        for sh in shapes:
            n = int(np.prod(sh))
            if np.dtype(t).kind == 'b':
                a = (np.arange(n) % 2).astype(t)
            else:
                a = (np.arange(n) + 1).astype(t)
                if np.dtype(t).kind == 'c':
                    a.imag = np.arange(n)[::-1]
            out.append(a.reshape(sh))
        out.append(out[-1].ravel()[1])
        if np.dtype(t).itemsize > 1:
            out.append((np.arange(4) + 1).astype(np.dtype(t).newbyteorder()).reshape(2, 2))
        out.append(np.asfortranarray((np.arange(6) + 1).astype(t).reshape(2, 3)))
        out.append((np.arange(8) + 1).astype(t)[::2])
    out.append(np.matrix([[1, 2, 3]]))
    out.append(np.matrix([[1.5], [2.5]]))
    out.append(np.matrix([[True, False]]))
    for sh in shapes:
        n = int(np.prod(sh))
        for items in (['a', 'bc', 'def'], ['é', '日本', ''], ['\U0001f600', 'x', ''], ['', '', ''], ['\ufeff', '\ud800', 'q']):
            a = np.array([items[i % 3] for i in range(n)], dtype='U3').reshape(sh)
            out.append(a)
        for items in ([b'a', b'bc', b'def'], [b'\xff', b'a\xc3\xa9', b''], [b'', b'', b'']):
            out.append(np.array([items[i % 3] for i in range(n)], dtype='S3').reshape(sh))
        o = np.empty(sh, dtype=object)
        for i in range(n):
            o.reshape(-1)[i] = [1, 'a', [2], None, {'a': 1}, b''][i % 6]
        out.append(o)
        s = np.zeros(sh, dtype=[('b', 'i4'), ('a', 'f8')])
        s['b'] = np.arange(n).reshape(sh) + 5
        s['a'] = np.arange(n).reshape(sh) / 2
        out.append(s)
        s = np.zeros(sh, dtype=[('x', object), ('y', 'S3'), ('z', 'U2'), ('w', 'i2', (2,)), ('v', [('p', 'f4'), ('q', '?')])])
        for i in range(n):
            s.reshape(-1)[i] = ([1, 'a', [2], None][i % 4], b'abc', 'é日', (i, -i), (1.5, True))
        out.append(s)
    a = np.array(['a', 'bb', '\u65e5\u672c'])
    out += [a.astype('>U3'), np.array([['ab', 'c'], ['d', 'ef']]).view(np.chararray), np.array([b'a', b'bc']).view(np.chararray),
            np.array(['a b ', 'c'], dtype='U6'), np.str_(''), np.str_('ab'), np.str_('\U0001f600'), np.bytes_(b''), np.bytes_(b'a\xff'), np.str_('a\0'), np.bytes_(b'a\0'),
            np.array([b'a\0b', b'c'])]
    s = np.zeros((2,), dtype=[('a', 'i4'), ('é', 'f8')])
    out += [s, s[0], s.view(np.recarray), s.reshape(1, 2), np.zeros((0,), dtype=s.dtype), np.zeros((3, 0), dtype=s.dtype)]
    s = np.zeros((2, 2), dtype=[('a/b', 'c16'), ('.', 'u1'), ('c\\', '?')])
    s['a/b'] = [[1 + 2j, 3], [4, 5j]]
    out += [s, s[0, 1], s.view(np.recarray)]
    s = np.zeros((1,), dtype=[('a', 'O'), ('b', 'O')])
    s[0] = ([1, 2], 'x')
    out += [s, s[0], s.view(np.recarray)]
    s = np.zeros((3,), dtype=[('n', [('m', 'i4'), ('o', 'f4', (2, 2))]), ('z', 'i8', (0,))])
    out += [s, s[:1], s[1]]
    s = np.zeros((2,), dtype=[('a\0', 'i4'), ('b', 'i4')])
    out += [s, s[0]]
    s = np.zeros((2,), dtype=[('a', 'S2'), ('b', 'S4')])
    s['a'] = [b'ab', b'c']
    s['b'] = [b'', b'zzzz']
    out += [s, s[0]]
    nested = np.empty((2, 2), dtype=object)
    nested[0, 0] = np.zeros((0, 3))
    nested[0, 1] = np.array([[1, 2, 3]], dtype='f4')
    nested[1, 0] = nested[0, 1].astype(object)
    nested[1, 1] = {'a': nested[0, 1], 'b': ['c', (np.int8(3),)]}
    out += [nested, [nested, nested], {'k': nested, 'l': (nested[0], 'q')}]
    return out


_SYS = []


def system_value(i):
    if not _SYS:
        _SYS.extend(systematic())
    return _SYS[i % len(_SYS)]


def n_systematic():
    system_value(0)
    return len(_SYS)


def value(r, mat=None, p_sys=0.35, **kw):
    if r.random() < p_sys:
        return system_value(r.randrange(n_systematic()))
    g = gen.Gen(r, mat=r.random() < 0.3 if mat is None else mat, maxdepth=r.choice([1, 2, 2, 3]), **kw)
    return g.value()


# ----------------------------------------------------------------- profiles

def p_round(r, i):
    v = value(r)
    o = gen.gen_options(r)
    o['spm'] = True
    if o['mc'] and o['act'] != 'ignore':
        o['act'] = 'ignore'
    return v, o, dict(CHK, round=True)


def p_matlab(r, i):
    o = gen.gen_options(r, 'matlab')
    o['spm'] = r.random() < 0.4
    return value(r, mat=r.random() < 0.8), o, dict(CHK, enc=True, mat=True)


def p_form(r, i):
    o = gen.gen_options(r)
    o['spm'] = r.random() < 0.75
    return value(r), o, dict(CHK, enc=True)


def p_nometa(r, i):
    o = gen.gen_options(r)
    o['spm'] = False
    o['sd'] = r.random() < 0.3
    return value(r), o, dict(CHK, dec=True)


def p_meta(r, i):
    o = gen.gen_options(r)
    o['spm'] = r.random() < 0.5
    o['sd'] = r.random() < 0.2
    return value(r), o, dict(CHK, dec=True)


def p_filters(r, i):
    o = gen.gen_options(r)
    o['thr'] = r.choice([0, 1, 2, 4, 8, 16, 24, 32, 64, 128, 16384])
    return value(r, p_sys=0.5), o, dict(CHK, enc=True, round=o['spm'] and not o['mc'])


def p_dicts(r, i):
    g = gen.Gen(r, maxdepth=1)
    o = gen.gen_options(r)
    o['spm'] = r.random() < 0.85
    o['act'] = 'ignore'
    v = g.dictlike(0 if r.random() < 0.3 else 1)
    return v, o, dict(CHK, enc=True, round=o['spm'])


def p_incompatible(r, i):
    """Values with incompatible or unsupported parts somewhere."""
    import numpy as np
    g = gen.Gen(r, mat=True, maxdepth=2)
    bad = r.choice([lambda: np.float16(1.5), lambda: np.zeros((2, 2), 'f2'), lambda: object(), lambda: np.float16(2), lambda: np.zeros((0,), 'f2'),
                    lambda: np.datetime64('2000-01-01'), lambda: {'a': np.float16(1)}, lambda: [np.float16(1), 2], lambda: type('X', (dict,), {})(),
                    lambda: 3, lambda: np.zeros(2, dtype=[('a', 'f2'), ('b', 'i4')]), lambda: (x for x in ()), lambda: [object()]])
    depth = r.choice([0, 1, 1, 2, 2, 3])

    def wrap(v, d):
        if d == 0:
            return v
        k = r.choice(['list', 'tuple', 'dict', 'obj', 'struct1', 'struct2', 'odict', 'deque'])
        others = [g.value(2) for _ in range(r.choice([0, 1, 2]))]
        pos = r.randint(0, len(others))
        if k in ('list', 'tuple', 'deque'):
            others.insert(pos, v)
            import collections
            return wrap({'list': list, 'tuple': tuple, 'deque': collections.deque}[k](others), d - 1)
        if k in ('dict', 'odict'):
            others.insert(pos, v)
            import collections
            t = dict if k == 'dict' else collections.OrderedDict
            keys = list('abc') if r.random() < 0.8 else [1, 2, 3]
            return wrap(t(zip(keys, others)), d - 1)
        if k == 'obj':
            others.insert(pos, v)
            a = np.empty((len(others),), dtype=object)
            for j, x in enumerate(others):
                a[j] = x
            return wrap(a, d - 1)
        a = np.zeros((1,) if k == 'struct1' else (2,), dtype=[('p', object), ('q', 'i4')])
        a['p'][r.randrange(a.size)] = v
        return wrap(a, d - 1)
    v = wrap(bad(), depth)
    o = gen.gen_options(r, r.choice(['matlab', 'matlab', 'matlab', 'any', 'plain']))
    o['spm'] = r.random() < 0.5
    return v, o, dict(CHK, enc=True, mat=o['mc'])


PROFILES = dict(round=p_round, matlab=p_matlab, form=p_form, nometa=p_nometa, meta=p_meta, filters=p_filters, dicts=p_dicts,
                incompatible=p_incompatible)
