"""Seeded generation of values and option settings (no hdf5storage in here)."""
import collections
import datetime
import fractions

import numpy as np

NUMT = ['bool', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64',
        'float16', 'float32', 'float64', 'complex64', 'complex128']
MATNUMT = [t for t in NUMT if t != 'float16']
CHARS = list('ab.') + ['/', '\\', '\0', 'é', '日', '\u4e00', '\ufeff', '\U0001f600', 'x', '0', '\xff', '\u2028', ' ', '\ud800', '\udc00']
NAMECHARS = list('abcxyz_019') + ['/', '\\', '.', 'é', '日', '\U0001f600', ' ', '#', '-']


class Gen:
    """rng: random.Random.  mat: only values MATLAB supports."""

    def __init__(self, rng, mat=False, surrogates=True, maxdepth=2, nul_fields=True):
        self.r = rng
        self.mat = mat
        self.surrogates = surrogates
        self.maxdepth = maxdepth
        self.nul_fields = nul_fields

    def pick(self, *a):
        return self.r.choice(a)

    def text(self, n=None, chars=None):
        r = self.r
        if n is None:
            n = r.choice([0, 1, 1, 2, 3, 5])
        mode = r.random()
        if chars is None:
            if mode < 0.45:
                chars = list('abcXYZ 09')
            elif mode < 0.75:
                chars = list('aé日\u4e00\xff\ufeff/\\.') + ['\0']
            else:
                chars = CHARS
        s = ''.join(r.choice(chars) for _ in range(n))
        if not self.surrogates:
            s = ''.join(c if not 0xd800 <= ord(c) < 0xe000 else '?' for c in s)
        return s

    def name(self):
        r = self.r
        n = r.choice([1, 1, 2, 3])
        if r.random() < 0.6:
            return ''.join(r.choice('abcdefgh') for _ in range(n))
        return ''.join(r.choice(NAMECHARS) for _ in range(n))

    def data(self, n=None):
        r = self.r
        if n is None:
            n = r.choice([0, 1, 2, 3, 6])
        if r.random() < 0.5:
            return bytes(r.choice(b'abcz 09') for _ in range(n))
        return bytes(r.choice([0, 1, 65, 127, 128, 200, 255]) for _ in range(n))

    def shape(self, small=False):
        r = self.r
        nd = r.choice([0, 1, 1, 2, 2, 3] if not small else [1, 1, 2])
        return tuple(r.choice([0, 1, 1, 2, 3] if r.random() < 0.4 else [1, 2, 3]) for _ in range(nd))

    def numbers(self, dt, shape):
        r = self.r
        n = int(np.prod(shape))
        dt = np.dtype(dt)
        if dt == bool:
            a = np.array([r.random() < 0.5 for _ in range(n)], dtype=bool)
        elif dt.kind in 'iu':
            ii = np.iinfo(dt)
            a = np.array([r.choice([0, 1, ii.max, ii.min, r.randint(0, 100), r.randint(ii.min, ii.max)]) for _ in range(n)], dtype=dt)
        elif dt.kind == 'f':
            a = np.array([r.choice([0.0, -0.0, 1.5, float('inf'), float('-inf'), float('nan'), r.uniform(-9, 9)]) for _ in range(n)], dtype=dt)
        else:
            f = np.float32 if dt == np.complex64 else np.float64
            a = np.zeros(n, dtype=dt)
            a.real = self.numbers(f, (n,))
            a.imag = self.numbers(f, (n,))
        a = a.reshape(shape)
        if r.random() < 0.15 and dt.kind in 'iufc' and dt.itemsize > 1:
            a = a.astype(dt.newbyteorder())
        if r.random() < 0.2:
            a = np.asfortranarray(a)
        elif r.random() < 0.1 and a.ndim > 0:
            a = np.repeat(a, 2, axis=0)[::2]
        return a

    def numt(self):
        return self.r.choice(MATNUMT if self.mat else NUMT)

    def strings(self, shape, kind):
        r = self.r
        n = int(np.prod(shape))
        if kind == 'U':
            it = [self.text().rstrip('\0') for _ in range(n)]
            ln = max([len(x) for x in it] + [1]) + r.choice([0, 0, 1])
            a = np.array(it, dtype='U%d' % ln).reshape(shape)
            if r.random() < 0.15:
                a = a.astype(a.dtype.newbyteorder())
            return a
        it = [self.data().rstrip(b'\0') for _ in range(n)]
        ln = max([len(x) for x in it] + [1]) + r.choice([0, 0, 1])
        return np.array(it, dtype='S%d' % ln).reshape(shape)

    def array(self, depth):
        r = self.r
        x = r.random()
        sh = self.shape()
        if x < 0.5:
            a = self.numbers(self.numt(), sh)
        elif x < 0.65:
            a = self.strings(sh, r.choice('US'))
        elif x < 0.8:
            a = self.objarray(self.shape(), depth)
        else:
            a = self.struct(self.shape(), depth)
        y = r.random()
        if y < 0.08 and a.ndim == 2 and a.dtype.fields is None and a.dtype != object:
            return np.asmatrix(a)
        if y < 0.2 and a.dtype.kind in 'SU' and a.ndim > 0 and a.dtype.isnative:
            return a.view(np.chararray)
        if y < 0.2 and a.dtype.fields is not None and a.ndim > 0:
            return a.view(np.recarray)
        return a

    def alike(self, depth):
        """A maker of values that have much in common, but not all."""
        r = self.r
        k = r.choice(['shapes', 'shapes', 'kinds', 'strings', 'bytes', 'scalars', 'sizes', 'arrays', 'same'])
        t = self.numt()
        nd = r.choice([1, 1, 2])
        sh = tuple(r.choice([1, 2, 3]) for _ in range(nd))
        one = self.value(depth + 1)
        return dict(
            shapes=lambda: self.numbers(t, tuple(r.choice([0, 1, 2, 3, 4]) for _ in range(nd))),
            kinds=lambda: self.numbers(self.numt(), sh),
            strings=lambda: np.str_(self.text()),
            bytes=lambda: np.bytes_(self.data()),
            scalars=lambda: self.numbers(t, (1,)).astype(np.dtype(t))[0],
            sizes=lambda: self.numbers(t, r.choice([(), (1,), (1, 1), (2,), (2, 1)])),
            arrays=lambda: self.numbers(t, sh),
            same=lambda: one)[k]

    def objarray(self, shape, depth):
        a = np.zeros(shape, dtype=object)
        flat = a.reshape(-1)
        make = self.alike(depth) if self.r.random() < 0.3 else lambda: self.value(depth + 1)
        for i in range(flat.size):
            flat[i] = make()
        return flat.reshape(shape)

    def sdtype(self, depth):
        r = self.r
        names = []
        for _ in range(r.choice([1, 1, 2, 3])):
            n = self.name()
            if self.nul_fields and r.random() < 0.05:
                n += '\0' + 'q'
            if n not in names and not n.startswith('.') and n:
                names.append(n)
        if not names:
            names = ['a']
        fs = []
        for n in names:
            x = r.random()
            if x < 0.5:
                t = self.numt()
            elif x < 0.6:
                t = r.choice(['S3', 'U2', 'S1', 'U1'])
            elif x < 0.75:
                t = 'object'
            elif x < 0.85 and depth < self.maxdepth:
                t = self.sdtype(depth + 1)
            else:
                fs.append((n, self.numt(), r.choice([(2,), (1,), (2, 2), (0,)] if r.random() < 0.2 else [(2,), (1, 2)])))
                continue
            fs.append((n, t))
        return fs

    def fill(self, dt, depth):
        r = self.r
        if dt.fields is not None:
            return tuple(self.fill(dt.fields[n][0], depth) for n in dt.names)
        if dt.subdtype is not None:
            return self.numbers(dt.subdtype[0], dt.shape).tolist() if dt.subdtype[0].kind not in 'c' else self.numbers(dt.subdtype[0], dt.shape)
        if dt == object:
            return self.value(depth + 1)
        if dt.kind == 'S':
            return self.data(r.choice([0, 1, dt.itemsize]))
        if dt.kind == 'U':
            return self.text(r.choice([0, 1, dt.itemsize // 4]))
        return self.numbers(dt, ())[()]

    def struct(self, shape, depth):
        dt = np.dtype(self.sdtype(depth))
        if self.r.random() < 0.05:
            part = self.r.choice(['f4', 'f8', 'f8', 'i4'])
            dt = np.dtype(list(zip(self.r.choice([('r', 'i'), ('r', 'i'), ('i', 'r'), ('real', 'imag')]), (part, part))))
        a = np.zeros(shape, dtype=dt)
        flat = a.reshape(-1)
        for n in dt.names:
            make = self.alike(depth) if dt.fields[n][0] == object and self.r.random() < 0.5 else lambda: self.fill(dt.fields[n][0], depth)
            for i in range(flat.size):
                v = make()
                if isinstance(v, np.ndarray) and not v.dtype.isnative and dt.fields[n][0] == object:
                    v = v.astype(v.dtype.newbyteorder('='))     # one byte order in a field
                flat[n][i] = v
        return a

    def npscalar(self, depth):
        r = self.r
        x = r.random()
        if x < 0.6:
            a = self.numbers(self.numt(), (1,))
            return a.astype(a.dtype.newbyteorder('='))[0]
        if x < 0.75:
            return np.str_(self.text())
        if x < 0.9:
            return np.bytes_(self.data())
        v = self.struct((1,), depth)
        return v[0]

    def integer(self):
        r = self.r
        return r.choice([0, 1, -1, 2**31, 2**63 - 1, -2**63, 2**63, -2**63 - 1, 10**30, -10**25, r.randint(-1000, 1000), r.randint(-2**80, 2**80)])

    def pyscalar(self):
        r = self.r
        k = r.choice(['none', 'ell', 'ni', 'bool', 'int', 'int', 'float', 'complex', 'str', 'str', 'bytes', 'bytearray', 'dtype'])
        if k == 'none':
            return None
        if k == 'ell':
            return Ellipsis
        if k == 'ni':
            return NotImplemented
        if k == 'bool':
            return r.random() < 0.5
        if k == 'int':
            return self.integer()
        if k == 'float':
            return float(self.numbers('float64', (1,))[0])
        if k == 'complex':
            return complex(self.numbers('complex128', (1,))[0])
        if k == 'str':
            return self.text()
        if k == 'bytes':
            return self.data()
        if k == 'bytearray':
            return bytearray(self.data())
        return r.choice([np.dtype('int32'), np.dtype('float64'), np.dtype('U7'), np.dtype('S3'), np.dtype([('a', 'i4'), ('b', 'f8', (2,))]),
                         np.dtype('bool'), np.dtype('>i2'), np.dtype('object'), np.dtype([('é', 'u1')]), np.dtype(('i4', (2, 3)))])

    def hashable(self, depth=0):
        r = self.r
        x = r.random()
        if x < 0.35:
            return self.text()
        if x < 0.5:
            return self.integer()
        if x < 0.6:
            return self.data()
        if x < 0.65:
            return r.choice([None, Ellipsis, True, False])
        if x < 0.72:
            return float(r.choice([0.5, 1.25, -3.0, float('inf')]))
        if x < 0.78:
            return np.str_(self.text())
        if x < 0.84:
            return np.bytes_(self.data())
        if x < 0.88:
            return np.int16(r.randint(-9, 9))
        if x < 0.94 and depth < 2:
            return tuple(self.hashable(depth + 1) for _ in range(r.choice([0, 1, 2])))
        if depth < 2:
            return frozenset(self.hashable(depth + 1) for _ in range(r.choice([0, 1, 2])))
        return 7

    def misc(self):
        r = self.r
        k = r.choice(['slice', 'range', 'td', 'tz', 'date', 'time', 'dt', 'frac'])
        io = [None, 0, 1, -3, 10, 2**70]
        if k == 'slice':
            return slice(r.choice(io), r.choice(io), r.choice(io))
        if k == 'range':
            return range(r.randint(-9, 9), r.choice([5, -5, 2**65]), r.choice([1, 2, -3]))
        if k == 'td':
            return datetime.timedelta(r.randint(-999, 999), r.randint(0, 86399), r.randint(0, 999999))
        if k == 'tz':
            return self.tz()
        if k == 'date':
            return datetime.date(r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28))
        if k == 'time':
            return datetime.time(r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.randint(0, 999999), tzinfo=r.choice([None, self.tz()]), fold=r.choice([0, 0, 1]))
        if k == 'dt':
            return datetime.datetime(r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.randint(0, 999999),
                                     tzinfo=r.choice([None, self.tz()]), fold=r.choice([0, 0, 1]))
        return fractions.Fraction(self.integer(), r.choice([1, 2, 3, 7, 10**30 + 1]))

    def tz(self):
        r = self.r
        off = datetime.timedelta(hours=r.randint(-12, 12), minutes=r.choice([0, 30]))
        if r.random() < 0.3:
            return datetime.timezone.utc
        if r.random() < 0.5:
            return datetime.timezone(off)
        return datetime.timezone(off, self.text(3, list('ABé')))

    def dictlike(self, depth, strkeys=None):
        r = self.r
        if strkeys is None:
            strkeys = r.random() < 0.6
        n = r.choice([0, 1, 2, 3])
        items = []
        for _ in range(n):
            if strkeys:
                k = self.name()
                z = r.random()
                if z < 0.12:
                    k = k.encode()
                elif z < 0.2:
                    k = np.str_(k)
                elif z < 0.28:
                    k = np.bytes_(k.encode())
                elif z < 0.33:
                    k = self.text()
            else:
                k = self.hashable()
            items.append((k, self.value(depth + 1)))
        t = r.random()
        if t < 0.65:
            return dict(items)
        if t < 0.88:
            return collections.OrderedDict(items)
        return collections.Counter({k: self.r.randint(-5, 5) for k, v in items})

    def seq(self, depth):
        r = self.r
        k = r.choice(['list', 'list', 'tuple', 'set', 'frozenset', 'deque', 'chainmap'])
        n = r.choice([0, 1, 2, 3])
        if k in ('set', 'frozenset'):
            it = [self.hashable() for _ in range(n)]
            return set(it) if k == 'set' else frozenset(it)
        if k == 'chainmap':
            return collections.ChainMap(*[self.dictlike(depth + 1) for _ in range(r.choice([1, 2]))])
        make = self.alike(depth) if r.random() < 0.2 else lambda: self.value(depth + 1)
        it = [make() for _ in range(n)]
        return {'list': list, 'tuple': tuple, 'deque': collections.deque}[k](it)

    def value(self, depth=0, kind=None):
        r = self.r
        if kind is None:
            if depth >= self.maxdepth:
                kind = r.choice(['py', 'py', 'np', 'num'])
            else:
                kind = r.choice(['py', 'py', 'np', 'array', 'array', 'array', 'seq', 'dict', 'misc'])
        if kind == 'py':
            return self.pyscalar()
        if kind == 'np':
            return self.npscalar(depth)
        if kind == 'num':
            return self.numbers(self.numt(), self.shape(True))
        if kind == 'array':
            return self.array(depth)
        if kind == 'seq':
            return self.seq(depth)
        if kind == 'dict':
            return self.dictlike(depth)
        if kind == 'misc':
            return self.misc()
        raise ValueError(kind)


BOOLOPTS = dict(dele='delete_unused_variables', strct='structured_numpy_ndarray_as_struct', at2d='make_atleast_2d',
                b16='convert_numpy_bytes_to_utf16', s16='convert_numpy_str_to_utf16', bu8='convert_bools_to_uint8',
                rev='reverse_dimension_order', ssfe='store_shape_for_empty')


def base_options():
    """Options term with the values of Options(matlab_compatible=False)."""
    o = dict(spm=True, mc=False, act='error', sd=False, cn=[[114], [105]], refs='/#refs#', oned='row',
             kn=[ord(c) for c in 'keys'], vn=[ord(c) for c in 'values'], comp=True, thr=16384, alg='gzip', lv=7,
             shf=True, cf32=True, uf32=False)
    o.update({k: False for k in BOOLOPTS})
    return o


def set_matlab(o):
    o.update(mc=True, cn=[[ord(c) for c in 'real'], [ord(c) for c in 'imag']], refs='/#refs#', alg='gzip')
    o.update({k: True for k in BOOLOPTS})
    return o


def gen_options(r, mode=None):
    """mode: 'matlab', 'plain', 'any' or None (one of them)."""
    o = base_options()
    if mode is None:
        mode = r.choice(['matlab', 'matlab', 'plain', 'any', 'any', 'any'])
    if mode == 'matlab':
        set_matlab(o)
    elif mode == 'any':
        for k in BOOLOPTS:
            o[k] = r.random() < 0.5
        o['cn'] = [[ord(c) for c in n] for n in r.choice([('r', 'i'), ('real', 'imag'), ('a', 'b'), ('i', 'r'), ('Re', 'Im'), ('é', 'x')])]
        o['refs'] = r.choice(['/#refs#', '/#refs#', '/rfs', '/deep/refs'])
        o['alg'] = r.choice(['gzip', 'gzip', 'lzf'])
        # with all of them as MATLAB wants these are not MATLAB options only if one differs
    o['oned'] = r.choice(['row', 'row', 'column'])
    o['kn'], o['vn'] = [[ord(c) for c in n] for n in r.choice([('keys', 'values'), ('keys', 'values'), ('k', 'v'), ('a/b', '.'), ('é', '..')])]
    o['act'] = r.choice(['ignore', 'error', 'discard'])
    z = r.random()
    o['comp'] = z < 0.8
    o['thr'] = r.choice([0, 1, 8, 16, 64, 16384])
    o['lv'] = r.randint(0, 9)
    o['shf'] = r.random() < 0.5
    o['cf32'] = r.random() < 0.5
    o['uf32'] = r.random() < 0.3
    return o


def options_kwargs(o):
    s = lambda u: ''.join(map(chr, u))
    kw = {v: o[k] for k, v in BOOLOPTS.items()}
    kw.update(store_python_metadata=o['spm'], matlab_compatible=o['mc'], action_for_matlab_incompatible=o['act'],
              structs_as_dicts=o['sd'], complex_names=tuple(s(x) for x in o['cn']), group_for_references=o['refs'],
              oned_as=o['oned'], dict_like_keys_name=s(o['kn']), dict_like_values_name=s(o['vn']), compress=o['comp'],
              compress_size_threshold=o['thr'], compression_algorithm=o['alg'], gzip_compression_level=o['lv'],
              shuffle_filter=o['shf'], compressed_fletcher32_filter=o['cf32'], uncompressed_fletcher32_filter=o['uf32'])
    return kw
