"""Values and raw HDF5 objects as the terms of spec/HData.tla.

Nothing in here uses hdf5storage: files are looked at with h5py only."""
import collections
import datetime
import fractions
import re
import sys

import h5py
import numpy as np

# ----------------------------------------------------------------- values


def _hex(x):
    """Big endian hex of a NumPy scalar."""
    b = x.tobytes()
    if x.dtype.byteorder == '<' or (x.dtype.byteorder in '=|' and sys.byteorder == 'little'):
        b = b[::-1]
    return b.hex()


def _hexdec(i):
    return '%016x' % (i & 0xffffffffffffffff)


def cps(s):
    return [ord(c) for c in s]


def dtype_term(dt):
    if dt.fields is not None:
        f = []
        for n in dt.names:
            fd = dt.fields[n][0]
            sh = []
            if fd.subdtype is not None:
                fd, sh = fd.subdtype[0], list(fd.shape)
            f.append(dict(nm=cps(n), d=dtype_term(fd), sh=sh))
        return dict(n='struct', l=0, f=f)
    if dt.type == np.bytes_:
        return dict(n='bytes', l=dt.itemsize, f=[])
    if dt.type == np.str_:
        return dict(n='str', l=dt.itemsize // 4, f=[])
    if h5py.check_ref_dtype(dt) is not None:
        return dict(n='ref', l=0, f=[])
    return dict(n=dt.name, l=0, f=[])


def elements(a):
    """The elements of an array (any dimensions) in C order."""
    dt = a.dtype
    a = np.asarray(a)
    if dt.fields is not None:
        cols = []
        for n in dt.names:
            fd = dt.fields[n][0]
            col = np.asarray(a[n])
            if fd.subdtype is not None:
                base, sh = fd.subdtype[0], fd.shape
                k = int(np.prod(sh))
            else:
                base, k = fd, 1
            cols.append((elements(col), k))
        return [dict(r=[c[i * k:(i + 1) * k] for c, k in cols]) for i in range(a.size)]
    if dt.type == np.bytes_:
        n = dt.itemsize
        raw = np.ascontiguousarray(a).tobytes()
        return [dict(b=list(raw[i * n:(i + 1) * n])) for i in range(a.size)]
    if dt.type == np.str_:
        n = dt.itemsize // 4
        raw = np.frombuffer(np.ascontiguousarray(a).astype(dt.newbyteorder('<')).tobytes(), '<u4')
        return [dict(u=[int(c) for c in raw[i * n:(i + 1) * n]]) for i in range(a.size)]
    if dt == object:
        return [dict(o=term(x)) for x in a.ravel()]
    if dt.kind == 'c':
        return [dict(re=_hex(x.real), im=_hex(x.imag)) for x in a.ravel()]
    return [dict(x=_hex(x)) for x in a.ravel()]


def term(v, depth=0):
    t = type(v)
    if depth > 40:
        return dict(k='bad')
    if v is None:
        return dict(k='none')
    if v is Ellipsis:
        return dict(k='ellipsis')
    if v is NotImplemented:
        return dict(k='notimpl')
    if t is bool:
        return dict(k='pybool', x='01' if v else '00')
    if t is int:
        if -2**63 <= v < 2**63:
            return dict(k='int', x=_hexdec(v), b=[])
        return dict(k='int', x='', b=list(str(v).encode()))
    if t is float:
        return dict(k='float', x=_hex(np.float64(v)))
    if t is complex:
        return dict(k='complex', re=_hex(np.float64(v.real)), im=_hex(np.float64(v.imag)))
    if t is str:
        return dict(k='pystr', u=cps(v))
    if t is bytes:
        return dict(k='pybytes', b=list(v))
    if t is bytearray:
        return dict(k='bytearray', b=list(v))
    if isinstance(v, np.dtype):
        s = str(v)
        if s[0] not in '([{':
            s = "'" + s + "'"
        return dict(k='npdtype', b=list(s.encode('utf-8', 'surrogatepass')))
    if t in (list, tuple, set, frozenset, collections.deque):
        return dict(k=t.__name__, os=[term(x, depth + 1) for x in v])
    if t is collections.ChainMap:
        return dict(k='chainmap', os=[term(x, depth + 1) for x in v.maps])
    if t in (dict, collections.OrderedDict, collections.Counter):
        return dict(k={dict: 'dict', collections.OrderedDict: 'odict'}.get(t, 'counter'),
                    ks=[term(x, depth + 1) for x in v.keys()], os=[term(x, depth + 1) for x in v.values()])
    if t in (slice, range):
        return _obj(t.__name__, v, ('start', 'stop', 'step'))
    if t is datetime.timedelta:
        return _obj('datetime.timedelta', v, ('days', 'seconds', 'microseconds'))
    if t is datetime.date:
        return _obj('datetime.date', v, ('year', 'month', 'day'))
    if t is datetime.time:
        return _obj('datetime.time', v, ('hour', 'minute', 'second', 'microsecond', 'tzinfo')
                    + (('fold',) if v.fold else ()))
    if t is datetime.datetime:
        return _obj('datetime.datetime', v, ('year', 'month', 'day', 'hour', 'minute', 'second',
                                             'microsecond', 'tzinfo') + (('fold',) if v.fold else ()))
    if t is datetime.timezone:
        init = v.__getinitargs__()
        return dict(k='obj', ty='datetime.timezone', an=[cps('offset'), cps('name')][:len(init)],
                    os=[term(x) for x in init])
    if t is fractions.Fraction:
        return _obj('fractions.Fraction', v, ('numerator', 'denominator'))
    if isinstance(v, np.ndarray) and t in (np.ndarray, np.matrix, np.chararray, np.recarray):
        c = {np.ndarray: 'ndarray', np.matrix: 'matrix', np.chararray: 'chararray', np.recarray: 'recarray'}[t]
        return dict(k='arr', c=c, d=dtype_term(v.dtype), sh=list(v.shape), da=elements(v))
    if t is np.str_:
        n = v.dtype.itemsize // 4
        return dict(k='arr', c='scalar', d=dict(n='str', l=n, f=[]), sh=[], da=[dict(u=cps(str(v).ljust(n, '\0')))])
    if t is np.bytes_:
        n = v.dtype.itemsize
        return dict(k='arr', c='scalar', d=dict(n='bytes', l=n, f=[]), sh=[], da=[dict(b=list(bytes(v).ljust(n, b'\0')))])
    if isinstance(v, np.generic) and t in NPSCALARS:
        return dict(k='arr', c='scalar', d=dtype_term(v.dtype), sh=[], da=elements(np.array(v)))
    return dict(k='bad')


NPSCALARS = (np.bool_, np.void, np.uint8, np.uint16, np.uint32, np.uint64, np.int8, np.int16, np.int32, np.int64,
             np.float16, np.float32, np.float64, np.complex64, np.complex128)


def _obj(ty, v, names):
    return dict(k='obj', ty=ty, an=[cps(n) for n in names], os=[term(getattr(v, n)) for n in names])


# ------------------------------------------------------------- HDF5 objects

_under = re.compile(r'^(bytes|str|void|record)(\d*)$')


def attr_term(name, obj, parent):
    """The value of an attribute."""
    try:
        v = obj.attrs[name]
    except Exception as e:       # unreadable
        return dict(bad=repr(e)[:80])
    if isinstance(v, h5py.Empty):
        return dict(s='') if v.dtype.kind in 'SO' else dict(bad='empty')
    if isinstance(v, np.ndarray) and v.shape == () and v.dtype.kind in 'SU':
        v = v[()]
    if isinstance(v, bytes):
        v = v.decode('utf-8', 'surrogateescape')
    if isinstance(v, str):
        v = str(v)
        if name == 'H5PATH':
            return dict(s='@parent' if v == parent else 'not the parent: ' + ascii(v))
        if name == 'Python.numpy.UnderlyingType':
            m = _under.match(v)
            if m is not None:
                return dict(s=m.group(1), w=int(m.group(2) or 0))
            return dict(s=v, w=0)
        return dict(s=v)
    if isinstance(v, np.ndarray) and v.ndim == 1 and v.dtype.kind in 'OS':
        out = []
        for x in v:
            if isinstance(x, np.ndarray):
                x = x.tobytes()
            if isinstance(x, bytes):
                x = x.decode('utf-8', 'surrogateescape')
            if not isinstance(x, str):
                return dict(bad=repr(v)[:80])
            out.append(cps(x))
        return dict(vs=out)
    v = np.asarray(v)
    if v.dtype.kind in 'iufb':
        return dict(n=v.dtype.name, sh=list(v.shape), xs=[_hex(x) for x in v.ravel()])
    return dict(bad=repr(v)[:80])


def attrs_term(obj, parent):
    return [dict(nm=n, av=attr_term(n, obj, parent)) for n in sorted(obj.attrs.keys())]


def h5_complex(d):
    """h5py gives pairs named r and i as complex numbers: back to pairs."""
    if d['n'] in ('complex64', 'complex128'):
        f = dict(n='float32' if d['n'] == 'complex64' else 'float64', l=0, f=[])
        return dict(n='struct', l=0, f=[dict(nm=[114], d=f, sh=[]), dict(nm=[105], d=f, sh=[])])
    return dict(d, f=[dict(x, d=h5_complex(x['d'])) for x in d['f']])


def h5_el(e):
    if 're' in e:
        return dict(r=[[dict(x=e['re'])], [dict(x=e['im'])]])
    if 'r' in e:
        return dict(r=[[h5_el(y) for y in f] for f in e['r']])
    return e


def parent_of(path):
    return path.rsplit('/', 1)[0] or '/'


class Dumper:
    """Dumps HDF5 objects; notes each reference that is followed."""

    def __init__(self, f, refs='/#refs#'):
        self.f = f
        self.refs = refs
        self.followed = []      # (path of referencing dataset, path of target)
        self.errors = []

    def dump(self, obj, depth=0):
        path = obj.name
        parent = parent_of(path)
        at = attrs_term(obj, parent)
        if depth > 40:
            return dict(t='none')
        if isinstance(obj, h5py.Dataset):
            fl = dict(c=obj.compression or 'none',
                      lv=obj.compression_opts if obj.compression == 'gzip' else -1,
                      sf=bool(obj.shuffle), f32=bool(obj.fletcher32))
            d = dtype_term(obj.dtype)
            if obj.shape is None:
                return dict(t='D', d=d, sh=[], da=[], at=at, fl=fl)
            data = obj[()]
            data = np.asarray(data) if not isinstance(data, (bytes, str)) else np.asarray(data, dtype=obj.dtype)
            if d['n'] == 'ref':
                da = []
                for r in data.ravel():
                    if not r:
                        da.append(dict(rf=dict(t='null')))
                        continue
                    tgt = self.f[r]
                    self.followed.append((path, tgt.name))
                    nd = self.dump(tgt, depth + 1)
                    if tgt.name is None or parent_of(tgt.name) != self.refs:
                        nd = dict(t='outside', nd=nd)
                    da.append(dict(rf=nd))
            elif obj.dtype.kind == 'O':
                da = [dict(b=list(x) if isinstance(x, bytes) else list(str(x).encode())) for x in data.ravel()]
                d = dict(n='vlen', l=0, f=[])
            else:
                da = [h5_el(e) for e in elements(data)]
                d = h5_complex(d)
            return dict(t='D', d=d, sh=list(obj.shape), da=da, at=at, fl=fl)
        if isinstance(obj, h5py.Group):
            it = []
            for n in obj:
                if path == '/' and ('/' + n) == self.refs:
                    continue
                it.append(dict(nm=cps(n), nd=self.dump(obj[n], depth + 1)))
            return dict(t='G', it=it, at=at)
        return dict(t='none')
