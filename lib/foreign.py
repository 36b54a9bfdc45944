"""Files as other programs write them (made with h5py alone), read with the real code."""
import hashlib
import os
import random

import data
import gen
import terms
from data import CHK, lib

NUM = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'float32', 'float64']
CLASS = {'float32': 'single', 'float64': 'double', 'bool': 'logical'}


class Foreign:
    def __init__(self, rng, f, refs):
        self.r = rng
        self.f = f
        self.refs = refs
        self.k = 0
        self.g = gen.Gen(rng, mat=True, surrogates=False)

    def part(self, t):
        """A number that can be any of the types."""
        k = self.np.dtype(t).kind
        v = self.r.choice([0, 1, 2, 3, 5, 7, 100, 127])
        if k != 'u':
            v *= self.r.choice([1, -1])
        if k == 'f':
            v = self.r.choice([v, v / 8, v * 1024 % 60000, float('inf'), v + 0.5])
        elif self.np.dtype(t).itemsize > 1:
            v *= self.r.choice([1, 200])
        return v

    def attr(self, obj, name, s, form=None):
        import numpy as np
        form = form or self.r.choice(['fixed', 'fixed', 'str', 'bytes'])
        obj.attrs[name] = np.bytes_(s.encode()) if form in ('fixed', 'bytes') else s

    def fields(self, obj, names):
        import h5py
        import numpy as np
        dt = h5py.special_dtype(vlen=np.dtype('S1'))
        fs = np.empty((len(names),), dtype=dt)
        for i, s in enumerate(names):
            fs[i] = np.array([c.encode() for c in s], dtype='S1')
        obj.attrs.create('MATLAB_fields', fs, dtype=dt)

    def shape(self, lo=0):
        r = self.r
        return tuple(r.choice([1, 1, 2, 3]) for _ in range(r.choice([2, 2, 2, 3] if lo else [0, 1, 2, 2, 3])))

    def ref(self, depth):
        import h5py
        g = self.f.require_group(self.refs)
        self.k += 1
        n = 'r%d' % self.k
        x = self.r.random()
        if x < 0.1:
            o = g.create_dataset(n, data=[0, 0], dtype='u8')
            self.attr(o, 'MATLAB_class', 'canonical empty')
            o.attrs['MATLAB_empty'] = self.np.uint8(1)
        else:
            o = self.make(g, n, depth + 1)
        return o.ref

    @property
    def np(self):
        import numpy as np
        return np

    def name(self):
        r = self.r
        x = r.random()
        if x < 0.75:
            return ''.join(r.choice('abcdXY_1') for _ in range(r.choice([1, 2, 3])))
        if x < 0.9:
            return r.choice(['a\\x2fb', '\\x2e', 'a\\\\b', '\\x00q', 'é', '日\\u0041', 'a\\x41'])
        return r.choice(['bad\\q', '\\x4', 'ok', '\\U0001f600', 'z\\'])

    def make(self, grp, name, depth=0):
        import h5py
        np = self.np
        r = self.r
        kinds = ['mnum', 'mnum', 'mchar', 'mchar', 'mlogical', 'mcomplex', 'mempty', 'num', 'complex', 'bytes', 'vlen', 'comp', 'bool', 'mweird', 'pyweird', 'text']
        if depth < 3:
            kinds += ['mcell', 'mcell', 'mstruct', 'mstruct', 'mstructarr', 'group', 'refs', 'mstructempty', 'groupnamed']
        k = r.choice(kinds)
        if k == 'mnum':
            t = r.choice(NUM)
            d = grp.create_dataset(name, data=self.g.numbers(t, self.shape(1)).astype(t))
            self.attr(d, 'MATLAB_class', CLASS.get(t, t))
            return d
        if k == 'num':
            t = r.choice(NUM + ['float16'])
            return grp.create_dataset(name, data=self.g.numbers(t, self.shape()))
        if k == 'bool':
            return grp.create_dataset(name, data=self.g.numbers('bool', self.shape()))
        if k in ('mchar', 'text'):
            t = r.choice(['uint16', 'uint16', 'uint32', 'uint8'])
            sh = self.shape(1) if k == 'mchar' or r.random() < 0.5 else self.shape()
            n = int(np.prod(sh))
            x = r.random()
            if x < 0.6:
                u = [r.choice([97, 98, 48, 32]) for _ in range(n)]
            elif t == 'uint8':
                u = [r.choice([97, 0, 0xc3, 0xa9, 0x80, 127]) for _ in range(n)]
            elif t == 'uint16':
                u = [r.choice([97, 0, 0xe9, 0x65e5, 0xd83d, 0xde00, 0xfeff]) for _ in range(n)]
            else:
                u = [r.choice([97, 0, 0xe9, 0x65e5, 0x1f600, 0xd800] + ([0x110000] if r.random() < 0.2 else [])) for _ in range(n)]
            if x > 0.9 and t == 'uint16' and n % 2 == 0:
                u = [0xd83d, 0xde00] * (n // 2)
            a = np.array(u, dtype=t).reshape(sh)
            if r.random() < 0.1:
                a = a.astype(a.dtype.newbyteorder())
            # MATLAB stores the rows of characters as columns
            d = grp.create_dataset(name, data=a.T if r.random() < 0.8 else a)
            if k == 'mchar':
                self.attr(d, 'MATLAB_class', 'char')
                if r.random() < 0.8:
                    d.attrs['MATLAB_int_decode'] = np.int32(a.itemsize)
            return d
        if k == 'mlogical':
            t = r.choice(['uint8', 'uint8', 'int8', 'uint32'])
            sh = self.shape(1)
            a = np.array([r.choice([0, 1, 1, 2]) for _ in range(int(np.prod(sh)))], dtype=t).reshape(sh)
            d = grp.create_dataset(name, data=a)
            self.attr(d, 'MATLAB_class', 'logical')
            d.attrs['MATLAB_int_decode'] = np.int32(1)
            return d
        if k in ('mcomplex', 'complex'):
            ft = r.choice(['float32', 'float64'])
            names = r.choice([('real', 'imag'), ('real', 'imag'), ('r', 'i'), ('Re', 'Im'), ('imag', 'real'), ('a', 'b'), ('real', 'imaginary'), ('re', 'real'), ('x', 'imag')])
            fs = [ft, ft]
            if r.random() < 0.3:
                fs = [r.choice(['f2', 'f4', 'f8', 'f8', 'i1', 'u1', '<i2', '>u2', 'i4', 'u8']) for _ in fs]
            a = np.zeros(self.shape(1), dtype=[(names[0], fs[0]), (names[1], fs[1])])
            for nm, t in zip(names, fs):
                if fs[0] == fs[1] == ft:
                    a[nm] = self.g.numbers(ft, a.shape)
                else:
                    a[nm] = np.array([self.part(t) for _ in range(a.size)], dtype=t).reshape(a.shape)
            d = grp.create_dataset(name, data=a)
            if k == 'mcomplex':
                self.attr(d, 'MATLAB_class', 'single' if ft == 'float32' else 'double')
            return d
        if k == 'mempty':
            dims = [r.choice([0, 0, 1, 2]) for _ in range(r.choice([2, 2, 3]))]
            if all(dims):
                dims[0] = 0
            d = grp.create_dataset(name, data=np.array(dims, dtype=r.choice(['u8', 'u8', 'u4'])))
            self.attr(d, 'MATLAB_class', r.choice(NUM + ['single', 'double', 'char', 'logical', 'cell', 'struct', 'canonical empty']).replace('float32', 'single').replace('float64', 'double'))
            d.attrs['MATLAB_empty'] = np.uint8(1)
            return d
        if k == 'mstructempty':
            d = grp.create_dataset(name, data=np.array([r.choice([0, 1, 2]), 0], dtype='u8'))
            self.attr(d, 'MATLAB_class', 'struct')
            d.attrs['MATLAB_empty'] = np.uint8(1)
            if r.random() < 0.8:
                self.fields(d, sorted({''.join(r.choice('abc') for _ in range(2)) for _ in range(2)}))
            return d
        if k == 'bytes':
            sh = self.shape()
            n = int(np.prod(sh))
            a = np.array([r.choice([b'a', b'bc', b'\xff', b'a\xc3\xa9', b'']) for _ in range(n)], dtype='S3').reshape(sh)
            d = grp.create_dataset(name, data=a)
            if r.random() < 0.3:
                self.attr(d, 'MATLAB_class', 'char')
            return d
        if k == 'vlen':
            n = r.choice([1, 2])
            return grp.create_dataset(name, data=[self.g.text(3, list('aé日')) for _ in range(n)], dtype=h5py.string_dtype())
        if k == 'comp':
            dt = [('f%d' % i, r.choice(NUM)) + (((2,),) if r.random() < 0.2 else ()) for i in range(r.choice([1, 2, 3]))]
            if r.random() < 0.3:
                dt.append(('s', 'S2'))
            if r.random() < 0.3:
                dt.append(('n', [('p', 'f4'), ('q', 'i2')]))
            a = np.zeros(self.shape(), dtype=dt)
            for nm in a.dtype.names:
                if a.dtype[nm].kind in 'iuf':
                    a[nm] = self.g.numbers(a.dtype[nm], a.shape)
            d = grp.create_dataset(name, data=a)
            if r.random() < 0.2:
                self.attr(d, 'MATLAB_class', r.choice(['double', 'struct', 'int8']))
            return d
        if k == 'mweird':
            t = r.choice(NUM)
            d = grp.create_dataset(name, data=np.arange(6).reshape(2, 3).astype(t))
            self.attr(d, 'MATLAB_class', r.choice(['function_handle', 'table', 'string', 'int8', 'cell', 'struct', 'double', 'char', 'FileWrapper__']))
            return d
        if k == 'pyweird':
            d = grp.create_dataset(name, data=self.g.numbers(r.choice(NUM), self.shape(1)))
            self.attr(d, 'Python.Type', r.choice(['my.own.Type', 'numpy.ndarray', 'numpy.longdouble', 'list', 'numpy.int32', 'dict']))
            if r.random() < 0.4:
                self.attr(d, 'MATLAB_class', r.choice(['double', 'int8', 'char']))
            if r.random() < 0.3:
                self.attr(d, 'Python.numpy.UnderlyingType', 'float64')
            return d
        if k in ('mcell', 'refs'):
            sh = self.shape(1)
            a = np.empty(sh, dtype=h5py.special_dtype(ref=h5py.Reference))
            fl = a.reshape(-1)
            for i in range(fl.size):
                fl[i] = self.ref(depth)
            d = grp.create_dataset(name, data=a, dtype=h5py.special_dtype(ref=h5py.Reference))
            if k == 'mcell':
                self.attr(d, 'MATLAB_class', 'cell')
            return d
        if k in ('mstruct', 'group', 'groupnamed'):
            g = grp.create_group(name)
            names = []
            for _ in range(r.choice([0, 1, 2, 3])):
                n = self.name() if r.random() < 0.4 else r.choice('pqrs')
                if n not in names and '/' not in n and n != '.':
                    self.make(g, n, depth + 1)
                    names.append(n)
            if k == 'mstruct':
                self.attr(g, 'MATLAB_class', 'struct')
                if r.random() < 0.6 and all(ord(c) < 128 for n in names for c in n) and not any('\\' in n for n in names) and names:
                    r.shuffle(names)
                    self.fields(g, names)
            elif k == 'groupnamed':
                self.attr(g, 'Python.Type', r.choice(['dict', 'my.Type', 'collections.OrderedDict']))
            return g
        if k == 'mstructarr':
            g = grp.create_group(name)
            sh = self.shape(1)
            names = r.sample(['a', 'b', 'cc', 'z'], r.choice([1, 2]))
            same = r.random() < 0.5
            for n in names:
                a = np.empty(sh, dtype=h5py.special_dtype(ref=h5py.Reference))
                fl = a.reshape(-1)
                for i in range(fl.size):
                    if same:
                        gg = self.f.require_group(self.refs)
                        self.k += 1
                        o = gg.create_dataset('r%d' % self.k, data=np.array([[i * 1.5]]))
                        self.attr(o, 'MATLAB_class', 'double')
                        fl[i] = o.ref
                    else:
                        fl[i] = self.ref(depth)
                g.create_dataset(n, data=a, dtype=h5py.special_dtype(ref=h5py.Reference))
            self.attr(g, 'MATLAB_class', 'struct')
            if r.random() < 0.5:
                self.fields(g, names)
            return g
        raise ValueError(k)


def sha(fn):
    with open(fn, 'rb') as f:
        return hashlib.sha1(f.read()).hexdigest()


def chunk(seed, n, base):
    import tempfile
    import h5py
    h = lib()
    r = random.Random(seed)
    d = tempfile.mkdtemp(prefix='hvf', dir=base)
    cases = []
    for i in range(n):
        fn = os.path.join(d, 'f%d.h5' % i)
        o = gen.gen_options(r)
        o['spm'] = r.random() < 0.5
        o['sd'] = r.random() < 0.4
        ub = r.choice([0, 512])
        with h5py.File(fn, 'w', userblock_size=ub) as f:
            Foreign(r, f, o['refs']).make(f, 'x')
        c = dict(v=dict(k='bad'), o=o, st='ok', er='', nd=data.dump_path(fn, o, '/x'), rok=False, w=dict(k='bad'), chk=dict(CHK, dec=True), src='foreign file')
        before = sha(fn)
        how = r.choice(['oneshot', 'file', 'writable'])
        try:
            O = h.Options(**gen.options_kwargs(o))
            if how == 'oneshot':
                w = h.read('/x', filename=fn, options=O)
            elif how == 'file':
                with h.File(fn, writable=False, options=O) as f:
                    w = f['/x']
            else:
                before = None
                with h.File(fn, writable=True, options=O) as f:
                    w = f.read('/x')
            c['w'] = terms.term(w)
            c['rok'] = True
        except Exception as e:
            c['rmsg'] = repr(e)[:200]
        c['swap'] = data.has_swapped(fn)
        c['modified'] = bool(before is not None and sha(fn) != before) or data.dump_path(fn, o, '/x') != c['nd']
        cases.append(c)
        os.unlink(fn)
    os.rmdir(d)
    return cases
