"""Records histories of operations on a file: cases for spec/HStoreJudge.tla.

The operations are done with the real code; after each of them the file is
looked at with h5py."""
import collections
import hashlib
import json
import os
import pathlib
import random
import shutil
import signal
import sys
import tempfile
import threading

import base
import data
import gen
import terms

import h5py
import numpy as np

# -------------------------------------------------------------- observations


def comps_of(name):
    return [terms.cps(x) for x in name.split('/') if x]


class Shallow:
    """Dumps a file; references are the paths of their objects."""

    def __init__(self, f):
        self.f = f
        self.addr = {}

    def dump(self, obj, path='/', depth=0):
        if depth > 40:
            return dict(t='none')
        at = terms.attrs_term(obj, terms.parent_of(path))
        if isinstance(obj, h5py.Group):
            it = []
            for n in obj:
                try:
                    sub = obj[n]
                except Exception:
                    it.append(dict(nm=terms.cps(n), nd=dict(t='none')))
                    continue
                it.append(dict(nm=terms.cps(n), nd=self.dump(sub, path.rstrip('/') + '/' + n, depth + 1)))
            return dict(t='G', it=it, at=at)
        if not isinstance(obj, h5py.Dataset):
            return dict(t='none')
        fl = dict(c=obj.compression or 'none', lv=obj.compression_opts if obj.compression == 'gzip' else -1,
                  sf=bool(obj.shuffle), f32=bool(obj.fletcher32))
        d = terms.dtype_term(obj.dtype)
        bo = data.swapped(obj.dtype)
        if obj.shape is None:
            return dict(t='D', d=d, bo=bo, sh=[], da=[], at=at, fl=fl)
        raw = obj[()]
        raw = np.asarray(raw) if not isinstance(raw, (bytes, str)) else np.asarray(raw, dtype=obj.dtype)
        if d['n'] == 'ref':
            da = []
            for r in raw.ravel():
                if not r:
                    da.append(dict(rf=dict(t='null')))
                    continue
                try:
                    name = self.f[r].name
                except Exception:
                    name = None
                da.append(dict(rf=dict(t='dangling') if not name else dict(t='ref', p=comps_of(name))))
        elif obj.dtype.kind == 'O':
            da = [dict(b=list(x) if isinstance(x, bytes) else list(str(x).encode())) for x in raw.ravel()]
            d = dict(n='vlen', l=0, f=[])
        else:
            da = [terms.h5_el(e) for e in terms.elements(raw)]
            d = terms.h5_complex(d)
        return dict(t='D', d=d, bo=bo, sh=list(obj.shape), da=da, at=at, fl=fl)


EMPTY = dict(t='G', it=[], at=[])


def observe(fn, ub_only=False):
    o = dict(ex=os.path.isfile(fn), h5=False, ub=0, h128=[0] * 128, hrest='', sha='', tr=EMPTY)
    if not o['ex']:
        return o
    with open(fn, 'rb') as f:
        raw = f.read()
    o['sha'] = hashlib.sha256(raw).hexdigest()[:16]
    try:
        f = h5py.File(fn, 'r')
    except Exception:
        return o
    try:
        o['h5'] = True
        o['ub'] = f.userblock_size
        head = raw[:o['ub']]
        o['h128'] = list(head[:128].ljust(128, b'\0'))
        o['hrest'] = hashlib.sha256(head[128:]).hexdigest()[:16]
        o['tr'] = Shallow(f).dump(f)
    except Exception as e:
        o['h5'] = False
        o['why'] = repr(e)[:200]
    finally:
        f.close()
    return o


def classes(e):
    return [c.__name__ for c in type(e).__mro__]


# -------------------------------------------------------------------- paths

NAMES = ['a', 'b', 'c', 'é', 'x']
ODD = ['a/b', '.', '..', '.h', '...', 'a\\', '\\x2f', 'a\0b', '\\\\', '/', ' ', '日本', '\U0001f600', 'n' * 70, '\\x00']


def seps(r, odd=0.15):
    """A literal path: names of nested groups."""
    n = r.choice([1, 1, 1, 2, 2, 3])
    return tuple(r.choice(NAMES) if r.random() >= odd else r.choice(ODD) for _ in range(n))


def path_form(r, comps, esc):
    """A path (and its term) with the given literal names in some form.

    esc is the escape function of the specification's kind, see escape()."""
    k = r.choice(['text', 'text', 'text', 'bytes', 'pure', 'sep', 'sep', 'list'])
    if k in ('sep', 'list'):
        cs, parts = [], []
        for c in comps:
            z = r.random()
            if z < 0.2:
                parts.append(c.encode())
            elif z < 0.3 and '/' not in c and c not in ('.', '..') and '\0' not in c and c:
                parts.append(pathlib.PurePosixPath(c))
            else:
                parts.append(c)
            cs.append(terms.cps(c))
        return (tuple(parts) if k == 'sep' else list(parts)), dict(f='sep', cs=cs)
    t = '/'.join(escape(c) for c in comps)
    z = r.random()
    if z < 0.5:
        t = '/' + t
    elif z < 0.55:
        t = '//' + t
    elif z < 0.6:
        t = '/./' + t + '/'
    elif z < 0.65:
        t = './q/../' + t
    elif z < 0.7:
        t = '../' + t
    elif z < 0.75:
        t = t.replace('/', '//')
    if k == 'bytes':
        b = t.encode()
        return b, dict(f='bytes', b=list(b))
    if k == 'pure':
        return r.choice([pathlib.PurePosixPath, pathlib.PosixPath])(t), dict(f='text', u=terms.cps(t))
    return t, dict(f='text', u=terms.cps(t))


def escape(c):
    n = len(c) - len(c.lstrip('.'))
    return '\\x2e' * n + c[n:].replace('\\', '\\\\').replace('/', '\\x2f').replace('\0', '\\x00')


BADPATHS = [(5, dict(f='bad')), (None, dict(f='bad')), (('a', 5), dict(f='bad')), (3.5, dict(f='bad')), ((), dict(f='sep', cs=[])),
            ('a\0b', dict(f='text', u=[97, 0, 98])), ('\ud800', dict(f='text', u=[0xd800])), (b'a\xff', dict(f='bytes', b=[97, 255])),
            (('a', '\udc00'), dict(f='sep', cs=[[97], [0xdc00]])), (b'\0', dict(f='bytes', b=[0])), (('a', b'\xff'), dict(f='undec'))]


# ------------------------------------------------------------------- values

def swap(v):
    """The structured array v with the other byte order."""
    return v.astype(v.dtype.newbyteorder())


def rename(r, v):
    """The structured array v with its fields renamed or in another order."""
    ns = list(v.dtype.names)
    if len(ns) > 1 and r.random() < 0.5:
        return np.array(v[ns[::-1]], dtype=[(n, v.dtype[n]) for n in ns[::-1]])
    w = v.copy()
    w.dtype.names = [n if i else n + 'q' for i, n in enumerate(ns)]
    return w


def vary(r, g, v):
    """A value much like v."""
    try:
        if isinstance(v, np.ndarray) and v.dtype.kind in 'iufcb' and type(v) is np.ndarray:
            z = r.random()
            if z < 0.12:
                return v.astype(v.dtype.newbyteorder())
            if z < 0.4:
                return g.numbers(v.dtype, v.shape)
            if z < 0.6:
                return g.numbers(v.dtype, g.shape())
            if z < 0.8:
                return g.numbers(g.numt(), v.shape)
            return v.T
        if isinstance(v, np.ndarray) and v.dtype == object:
            w = v.copy().reshape(-1)
            if w.size:
                w[r.randrange(w.size)] = g.value(1)
            return w.reshape(v.shape) if r.random() < 0.7 else w[:1]
        if isinstance(v, np.ndarray) and v.dtype.fields is not None:
            return r.choice([lambda: v.reshape(-1)[:1], lambda: np.repeat(v.reshape(-1), 2), lambda: v.copy(), lambda: swap(v), lambda: rename(r, v)])()
        if type(v) in (dict, collections.OrderedDict):
            w = collections.OrderedDict(v)
            z = r.random()
            ks = list(w)
            if ks and z < 0.35:
                del w[r.choice(ks)]
            elif z < 0.6:
                w[r.choice(NAMES)] = g.value(1)
            elif ks:
                k = r.choice(ks)
                w[k] = vary(r, g, w[k])
            if r.random() < 0.1:
                w[5] = 'x'
            return type(v)(w)
        if type(v) in (list, tuple):
            w = list(v)
            z = r.random()
            if w and z < 0.4:
                w.pop(r.randrange(len(w)))
            elif z < 0.6:
                w.insert(r.randint(0, len(w)), g.value(1))
            elif w:
                w[r.randrange(len(w))] = g.value(1)
            return r.choice([list, tuple])(w)
        if type(v) is str:
            return g.text()
        if type(v) is bytes:
            return g.data()
        if type(v) is int:
            return g.integer()
    except Exception:
        pass
    return g.value(1)


def incompatible(r):
    if r.random() < 0.4:
        # some elements are left out
        w = [r.choice([1.5, 'a', [2.0], np.float16(3), np.float16(4)]) for _ in range(r.choice([2, 3, 4]))]
        return r.choice([w, tuple(w), {'k': w}, [w, 1]])
    return r.choice([np.float16(1.5), np.zeros((2,), 'f2'), {'a': np.float16(1), 'b': 2}, [1, np.float16(2)], object(), [1, object()],
                     {'a': [1, 2], 'z': object()}, {'a': object(), 'b': [3]}, {'b': np.zeros((2,), 'f2'), 'c': 'x'},
                     np.zeros((2,), [('p', 'f2'), ('q', 'i4')]), np.zeros((1,), [('p', 'f2'), ('q', 'i4')])])


def spoil(r, v):
    """v with a part of it being incompatible with MATLAB."""
    bad = r.choice([np.float16(2.5), np.zeros((2,), 'f2'), np.float16(0), object()])
    if isinstance(v, dict) and v:
        out = type(v)(v) if type(v) is not dict else dict(v)
        out[r.choice(list(v))] = bad
        return out
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple) and v:
        out = list(v)
        out[r.randrange(len(out))] = bad
        return type(v)(out)
    if isinstance(v, np.ndarray) and v.dtype.names and type(v) is np.ndarray:
        f = r.choice(v.dtype.names)
        return v.astype(np.dtype([(n, 'f2' if n == f and v.dtype[n].kind in 'biuf' and v.dtype[n].shape == () else v.dtype[n]) for n in v.dtype.names]))
    return bad


# ---------------------------------------------------------------- the tables


DUMMY = dict(wr=False, trunc=False, tinv=False, o=1, refs=[], bad='')


LEAKED = []


class Hang(Exception):
    pass


class Limit:
    """Raises Hang if something takes far too long (it waits for a lock)."""

    def __init__(self, seconds=25):
        self.seconds = seconds

    def fire(self, *a):
        raise Hang('no end')

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self.fire)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Recorder:
    """Does operations on one file and records them."""

    def __init__(self, fn, mfn):
        self.fn = fn
        self.mfn = mfn          # for values written alone
        self.h = data.lib()
        self.obs = []
        self.keys = {}
        self.opts = []
        self.okeys = {}
        self.ev = []
        self.f = None
        self.note = []
        self.reseed = None
        self.rr = None          # decides how arguments are given
        self.fresh_values = True
        self.freshed = {}
        self.cur = None

    def look(self, fn=None):
        o = observe(fn or self.fn)
        k = json.dumps(o)
        if k not in self.keys:
            self.obs.append(o)
            self.keys[k] = len(self.obs)
        return self.keys[k]

    def opt(self, o):
        k = json.dumps(o)
        if k not in self.okeys:
            self.opts.append(dict(o))
            self.okeys[k] = len(self.opts)
        return self.okeys[k]

    def event(self, op, call, qs=(), vals=(), a=None, **kw):
        """call() gives a dict of results."""
        e = dict(op=op, st='ok', er=[], pre=self.now, post=0, qs=list(qs), vals=[terms.term(v) for v in vals], res=[], names=[], n=0,
                 dflt=False, hasd=False, same=False, fresh=[], frefs=[], done=0, a=a or DUMMY)
        e.update(kw)
        if self.reseed is not None:
            random.seed(self.reseed)            # the same random names will be tried as before
        try:
            with Limit():
                e.update(call() or {})
        except BaseException as x:
            e['st'] = 'err'
            e['er'] = classes(x)
            e['msg'] = str(x)[:120]
            self.hung = self.hung or 'Hang' in e['er']
        self.now = e['post'] = self.look()
        self.ev.append(e)
        return e

    def start(self):
        self.now = self.look()

    def case(self, refs0=()):
        slim = ('op', 'st', 'er', 'pre', 'post', 'qs', 'vals', 'res', 'names', 'n', 'dflt', 'hasd', 'same', 'fresh', 'frefs', 'done', 'a')
        obs = [{k: v for k, v in o.items() if k != 'why'} for o in self.obs]
        return dict(obs=obs, o=self.opts, ev=[{k: e[k] for k in slim} for e in self.ev], refs0=[comps_of(x) for x in refs0])

    def sopt(self, o):
        """The options the specification's store uses."""
        return dict(o)

    # ------------------------------------------------------------ operations

    def arg(self, o, wr, trunc=False, tinv=False, bad=''):
        return dict(wr=wr, trunc=trunc, tinv=tinv, o=self.opt(o), refs=comps_of(o['refs']), bad=bad)

    def given(self, o, via, mat=True, **more):
        """The arguments for a file: some that have their default value are left out (mat: the default of matlab_compatible)."""
        r = self.rr
        leave = lambda: r is not None and r.random() < 0.3
        kw = dict(filename=self.fn, **more)
        if self.fn == os.path.abspath('data.h5') and leave():
            del kw['filename']
        for k in ('truncate_existing', 'truncate_invalid_matlab', 'writable'):
            if kw.get(k) is False and leave():
                del kw[k]
        if via == 'options':
            kw['options'] = self.h.Options(**gen.options_kwargs(o))
            return kw
        d = gen.base_options()
        if o['mc']:
            gen.set_matlab(d)
        names = gen.options_kwargs(o)
        default = gen.options_kwargs(d)
        kw.update({k: v for k, v in names.items() if v != default[k] or k == 'matlab_compatible' or not leave()})
        if o['mc'] == mat and leave():
            del kw['matlab_compatible']
        if leave():
            kw['options'] = None
        return kw

    def open(self, o, wr, trunc=False, tinv=False, via='options'):
        a = self.arg(o, wr, trunc, tinv)
        kw = self.given(o, via, writable=wr, truncate_existing=trunc, truncate_invalid_matlab=tinv)
        args = ()
        if self.rr is not None and self.rr.random() < 0.2 and len(kw) >= 4:
            args = tuple(kw.pop(k, d) for k, d in (('filename', 'data.h5'), ('writable', False), ('truncate_existing', False), ('truncate_invalid_matlab', False)))

        def go():
            self.f = self.h.File(*args, **kw)
            self.cur = o
            if via == 'options' and self.after_open is not None:
                self.after_open(kw['options'])
        return self.event('open', go, a=a)

    def tamper(self, r):
        """Something else changes the userblock."""
        o = self.obs[self.now - 1]
        if o['h5'] and o['ub'] >= 128:
            n = r.choice([1, 3, 12, 40, 128, 200])
            at = r.choice([0, 0, 30, 110, 115, 116, 122, 124, 125, 126, 127, 128, 300])
            with open(self.fn, 'r+b') as f:
                f.seek(at)
                f.write(bytes(r.choice([0, 1, 32, 65, 255]) for _ in range(min(n, o['ub'] - at))))
            self.now = self.look()

    after_open = None
    hung = False

    def open_bad(self, kind, o):
        opt = self.h.Options(**gen.options_kwargs(o))
        args = dict(filename=dict(filename=5), pathlike=dict(filename=pathlib.Path(self.fn)), writable=dict(filename=self.fn, writable=1),
                    trunc=dict(filename=self.fn, truncate_existing=None, writable=True), tinv=dict(filename=self.fn, truncate_invalid_matlab='x', writable=True),
                    options=dict(filename=self.fn, writable=True, truncate_existing=True, options=5),
                    both=dict(filename=self.fn, writable=True, truncate_existing=True, options=opt, oned_as='row'))[kind]
        a = self.arg(o, False, bad='ValueError' if kind == 'both' else 'TypeError')

        def go():
            self.h.File(**args)
        return self.event('open', go, a=a)

    def close(self, how='close'):
        def go():
            if how == 'exit':
                self.f.__exit__(None, None, None)
            elif how == 'with':
                with self.f:
                    pass
            elif how == 'raise':
                x = [KeyError, KeyboardInterrupt, SystemExit, GeneratorExit, OSError][len(self.ev) % 5]
                try:
                    with self.f:
                        raise x('x')
                except x:
                    pass
            else:
                self.f.close()
            return dict(n=1 if self.f.closed else 0)
        return self.event('close', go)

    def closed(self):
        return self.event('closed', lambda: dict(n=1 if self.f.closed else 0))

    def flush(self):
        return self.event('flush', lambda: self.f.flush() and None)

    def alone(self, v, o):
        """The observation of v written alone to a new file."""
        if not self.fresh_values:
            return 0
        k = (id(v), json.dumps(o))
        if k in self.freshed:
            return self.freshed[k][0]
        try:
            os.unlink(self.mfn)
        except OSError:
            pass
        i = 0
        try:
            self.h.write(v, path='/x', filename=self.mfn, options=self.h.Options(**gen.options_kwargs(o)))
            i = self.look(self.mfn)
        except Exception:
            pass
        self.freshed[k] = (i, v)
        return i

    def write(self, paths, vals, how='writes', fault=None):
        """paths: [(path, term)]"""
        qs = [t for p, t in paths]
        fr = [self.alone(v, self.cur) if self.cur else 0 for v in vals]
        kw = dict(fresh=fr, frefs=comps_of(self.cur['refs']) if self.cur else [])
        def go():
            if how == 'write':
                if type(paths[0][0]) is str and paths[0][0] == '/' and self.rr is not None:
                    self.f.write(vals[0])
                else:
                    self.f.write(vals[0], paths[0][0])
            elif how == 'setitem':
                self.f[paths[0][0]] = vals[0]
            else:
                self.f.writes({p: v for (p, t), v in zip(paths, vals)})
        if fault is not None:
            def go2(n=fault):
                with Faults(n, KINDS[len(self.ev) % len(KINDS)]) as fl:
                    try:
                        go()
                    finally:
                        self.hits = fl
                return None
            e = self.event('write', go2, qs, vals, **kw)
            if self.hits.fired:
                e['op'] = 'fault'
            return e
        return self.event('setitem' if how == 'setitem' else how, go, qs, vals, **kw)

    def reads(self, paths, how='reads'):
        qs = [t for p, t in paths]

        def go():
            if how == 'read':
                r = [self.f.read(paths[0][0])]
            elif how == 'getitem':
                r = [self.f[paths[0][0]]]
            else:
                r = self.f.reads([p for p, t in paths])
            return dict(res=[terms.term(x) for x in r])
        return self.event(how, go, qs)

    def oneshot(self, kind, paths, vals, o, trunc=False, tinv=False):
        qs = [t for p, t in paths]
        via = 'options' if self.rr is None else self.rr.choice(['options', 'kw'])
        # without a path it is the root
        path = {} if paths and type(paths[0][0]) is str and paths[0][0] == '/' else dict(path=paths[0][0]) if paths else {}
        if kind.endswith('write') or kind.endswith('writes'):
            kw = self.given(o, via, truncate_existing=trunc, truncate_invalid_matlab=tinv)
            a = self.arg(o, True, trunc, tinv)
            fr = [self.alone(v, o) for v in vals]

            def go():
                if kind == 'write':
                    self.h.write(vals[0], **path, **kw)
                else:
                    self.h.writes({p: v for (p, t), v in zip(paths, vals)}, **kw)
            return self.event('owrite', go, qs, vals, a=a, fresh=fr, frefs=comps_of(o['refs']))
        a = self.arg(o, False)
        kw = self.given(o, via, False)

        def go():
            r = [self.h.read(**path, **kw)] if kind == 'read' else self.h.reads([p for p, t in paths], **kw)
            return dict(res=[terms.term(x) for x in r])
        return self.event('oread', go, qs, a=a)

    def elsewhere(self):
        """The length, asked for in another thread: the lock has to be free."""
        def go():
            r, bad = [], []

            def ask():
                try:
                    r.append(len(self.f))
                except Exception as x:
                    bad.append(x)
            t = threading.Thread(target=ask, daemon=True)
            t.start()
            t.join(20)
            if t.is_alive():
                raise Hang('no end in another thread')
            if bad:
                raise bad[0]
            return dict(n=r[0])
        return self.event('len', go)

    def mapping(self, op, path=None, val=None, default=False, paths=(), vals=()):
        f = self.f
        mark = object()
        qs = [path[1]] if path is not None else [t for p, t in paths]
        p = path[0] if path is not None else None

        def go():
            if op == 'in':
                return dict(n=1 if p in f else 0)
            if op == 'len':
                return dict(n=len(f))
            if op == 'iter':
                return dict(names=[terms.cps(x) for x in f])
            if op == 'keys':
                return dict(names=[terms.cps(x) for x in list(f.keys())])
            if op == 'items':
                r = list(f.items())
                return dict(names=[terms.cps(k) for k, v in r], res=[terms.term(v) for k, v in r])
            if op == 'values':
                return dict(res=[terms.term(v) for v in f.values()])
            if op == 'get':
                v = f.get(p, mark)
                return dict(dflt=v is mark, res=[] if v is mark else [terms.term(v)])
            if op == 'setdefault':
                v = f.setdefault(p, val)
                return dict(same=v is val, res=[terms.term(v)])
            if op == 'pop':
                v = f.pop(p, mark) if default else f.pop(p)
                return dict(dflt=v is mark, res=[] if v is mark else [terms.term(v)])
            if op == 'popitem':
                k, v = f.popitem()
                return dict(names=[terms.cps(k)], res=[terms.term(v)])
            if op == 'clear':
                f.clear()
            elif op == 'del':
                del f[p]
            elif op == 'update':
                f.update([(q[0], v) for q, v in zip(paths, vals)])
        kw = {}
        if op == 'setdefault':
            vals = (val,)
        return self.event(op, go, qs, vals, hasd=default, **kw)


# ------------------------------------------------------------------- faults

class Fault(OSError):
    pass


class FaultMemory(MemoryError):
    pass


class FaultInterrupt(KeyboardInterrupt):
    pass


class FaultValue(ValueError):
    pass


KINDS = [Fault, Fault, FaultInterrupt, FaultMemory, FaultValue]


class Faults:
    """Makes the n-th change of a file fail (after it is made if n is negative)."""

    TARGETS = [(h5py.Group, 'create_dataset'), (h5py.Group, 'create_group'), (h5py.Group, 'require_group'), (h5py.Group, '__delitem__'),
               (h5py.Group, '__setitem__'), (h5py.Group, 'move'), (h5py.Group, 'require_dataset'),
               (h5py.Dataset, '__setitem__'), (h5py.Dataset, 'write_direct'), (h5py.Dataset, 'resize'),
               (h5py.AttributeManager, 'create'), (h5py.AttributeManager, 'modify'), (h5py.AttributeManager, '__setitem__'),
               (h5py.AttributeManager, '__delitem__')]

    def __init__(self, n, kind=Fault):
        self.n = abs(n)
        self.kind = kind
        self.after = n < 0
        self.count = 0
        self.fired = False
        self.depth = 0

    def wrap(self, fn):
        def g(*a, **k):
            if self.depth:
                return fn(*a, **k)
            self.count += 1
            hit = self.count == self.n
            if hit and not self.after:
                self.fired = True
                raise self.kind('forced')
            self.depth += 1
            try:
                r = fn(*a, **k)
            finally:
                self.depth -= 1
            if hit:
                self.fired = True
                raise self.kind('forced')
            return r
        return g

    def __enter__(self):
        self.old = [(c, n, c.__dict__[n]) for c, n in self.TARGETS if n in c.__dict__]
        for c, n, f in self.old:
            setattr(c, n, self.wrap(f))
        return self

    def __exit__(self, *a):
        for c, n, f in self.old:
            setattr(c, n, f)


# ------------------------------------------------------------------ histories

def foreign_file(r, fn):
    """A file that was not made by hdf5storage."""
    k = r.choice(['junk', 'h5', 'h5', 'refs', 'refs'])
    if k == 'junk':
        with open(fn, 'wb') as f:
            f.write(bytes(r.randrange(256) for _ in range(r.choice([3, 600]))))
    else:
        ub = r.choice([0, 512, 512, 1024])
        with h5py.File(fn, 'w', userblock_size=ub) as f:
            f['a'] = np.arange(3.0)
            g = f.create_group('b')
            g['c'] = b'text'
            g.attrs['MATLAB_class'] = np.bytes_(b'struct')
            f['n'] = np.array([[1, 2], [3, 4]], 'i2')
            f['n'].attrs['unknown'] = 'é'
            if k == 'refs':
                q = f.create_group('#refs#')
                q['b'] = np.arange(2)
                q['0'] = 1.5
                q['q'] = b'x'
                if r.random() < 0.5:
                    # an element that has the name of the canonical empty
                    if r.random() < 0.3:
                        q.create_group('a')['e'] = 5
                    else:
                        q['a'] = r.choice([np.arange(2.0), np.float32(7), np.arange(2), np.zeros((2, 1), 'u8'), np.zeros(2, 'u4')] + [np.zeros(2, 'u8')] * 6)
                    # and is almost one
                    almost = isinstance(q['a'], h5py.Dataset) and q['a'].dtype.kind == 'u' and q['a'].ndim == 1
                    if almost and r.random() < 0.6:
                        q['a'].attrs['MATLAB_class'] = np.bytes_(r.choice([b'canonical empty'] * 4 + [b'double']))
                    if almost and r.random() < 0.5:
                        q['a'].attrs['MATLAB_empty'] = r.choice([np.uint8(1), np.uint8(1), np.uint8(0)])
                    q.create_dataset('own', data=np.array([q['a'].ref, q['b'].ref], dtype=h5py.special_dtype(ref=h5py.Reference)),
                                                                  dtype=h5py.special_dtype(ref=h5py.Reference))
        if ub:
            with open(fn, 'r+b') as f:
                f.write(bytes(r.randrange(1, 256) for _ in range(r.choice([100, ub]))))
    return k


WEIGHTS = dict(again=0.2, spoiled=0.15, write=6, writes=3, setitem=3, rewrite=5, read=2, reads=1, getitem=1, bad=1, refspath=1, incompat=1, fault=0, root=0.5,
               close=2, flush=0.3, closed=0.3, delete=2, pop=0.6, popitem=0.3, clear=0.15, update=0.6, setdefault=0.6, get=0.6,
               item=0.4, values=0.3, iter=0.5, keys=0.2, len=0.5, contains=1)


class History:
    def __init__(self, r, fn, mfn, prof):
        self.r = r
        self.rec = Recorder(fn, mfn)
        self.rec.rr = r
        self.w = dict(WEIGHTS)
        self.w.update(prof.get('weights', {}))
        self.prof = prof
        if prof.get('mutate'):
            self.rec.after_open = self.mutate
        self.used = []
        self.pool = []
        self.at = {}                # what was last given for a path
        if r.random() < 0.3:
            self.rec.reseed = r.random()
        self.g = gen.Gen(r, mat=r.random() < 0.3, maxdepth=r.choice([1, 1, 2]))
        self.refs = r.choice(['/#refs#', '/#refs#', '/#refs#', '/rfs', '/deep/refs'])
        self.mats = self.refs == '/#refs#' and r.random() < 0.7     # whether there are MATLAB sessions
        self.cn = gen.gen_options(r, 'any')['cn']      # reading with other names than were written is not specified
        self.rev = r.random() < 0.5                     # nor with another order of dimensions
        self.mode = r.choice(['matlab', 'plain', 'any', 'any', None])
        if prof.get('discard') and r.random() < 0.4:
            self.mats, self.refs, self.mode = True, '/#refs#', 'matlab'
        if prof.get('mat'):
            self.mats, self.refs, self.mode = True, '/#refs#', r.choice(['matlab', 'matlab', None])

    def mutate(self, given):
        """Changes the Options a file was opened with: the file must not notice."""
        r = self.r
        for _ in range(r.choice([1, 2, 5])):
            o = r.choice(['matlab_compatible', 'matlab_compatible', 'store_python_metadata', 'delete_unused_variables', 'make_atleast_2d', 'reverse_dimension_order',
                          'structured_numpy_ndarray_as_struct', 'convert_numpy_str_to_utf16', 'convert_bools_to_uint8', 'store_shape_for_empty', 'compress',
                          'shuffle_filter', 'structs_as_dicts'])
            setattr(given, o, not getattr(given, o))
        for o, v in (('complex_names', ('x', 'y')), ('group_for_references', '/elsewhere'), ('oned_as', 'column' if given.oned_as == 'row' else 'row'),
                     ('dict_like_keys_name', 'K'), ('compress_size_threshold', 3), ('gzip_compression_level', 1), ('action_for_matlab_incompatible', 'ignore')):
            if r.random() < 0.3:
                setattr(given, o, v)

    def options(self):
        r = self.r
        z = r.random()
        if z < 0.3 and self.rec.opts:
            return self.near(dict(r.choice(self.rec.opts)))
        o = gen.gen_options(r, self.mode)
        if z < 0.65 and self.rec.opts:
            o = dict(r.choice(self.rec.opts))
        if o['mc'] and not self.mats:
            o.update(gen.gen_options(r, 'any'), mc=False)
        o['refs'] = self.refs
        o['rev'] = self.mats or self.rev
        if o['rev'] and not o['mc'] and all(o[k] for k in gen.BOOLOPTS):
            o['ssfe'] = False
        o['cn'] = [[ord(c) for c in n] for n in ('real', 'imag')] if self.mats else self.cn
        o['thr'] = r.choice([0, 16, 64, 16384, 16384])
        if self.prof.get('discard') and r.random() < 0.7:
            o['act'] = 'discard'
        return o

    def near(self, o):
        """o with one or two options changed."""
        r = self.r
        ks = ['comp', 'thr', 'lv', 'shf', 'cf32', 'uf32', 'oned', 'sd', 'act']
        if not o['mc']:
            ks += ['alg', 'spm'] + [k for k in gen.BOOLOPTS if k != 'rev']       # reading in another order is not specified
        for k in r.sample(ks, r.choice([1, 1, 2])):
            if k == 'thr':
                o[k] = r.choice([0, 16, 64, 16384])
            elif k == 'lv':
                o[k] = (o[k] + r.randrange(1, 10)) % 10
            elif k == 'oned':
                o[k] = 'column' if o[k] == 'row' else 'row'
            elif k == 'alg':
                o[k] = 'gzip' if o[k] == 'lzf' else 'lzf'
            elif k == 'act':
                o[k] = r.choice(['error', 'discard', 'ignore'])
            else:
                o[k] = not o[k]
        if not o['mc'] and o['rev'] and all(o[k] for k in gen.BOOLOPTS):
            o['ssfe'] = False
        return o

    def comps(self, near=0.55):
        r = self.r
        if self.used and r.random() < near:
            c = r.choice(self.used)
            z = r.random()
            if z < 0.15 and len(c) > 1:
                return c[:-1]
            if z < 0.3 and len(c) < 4:
                return c + (r.choice(NAMES),)
            return c
        c = seps(r, self.prof.get('odd', 0.15))
        if c[0] == 'deep' or c[0] == 'rfs':
            c = ('a',)
        elif r.random() < (0.15 if self.refs == '/deep/refs' else 0.03):
            # named like the Group for references, but elsewhere
            n = self.refs.split('/')[-1]
            c = (n,) if self.refs == '/deep/refs' else ('b', n) if r.random() < 0.5 else (n + r.choice('ab/'),)
        self.used.append(c)
        return c

    def path(self, near=0.55):
        return path_form(self.r, self.comps(near), escape)

    def value(self):
        r = self.r
        z = r.random()
        if self.prof.get('simple'):
            k = len(self.pool)
            v = r.choice([k, float(k), 'v%d' % k, np.arange(k % 5), {'q': k}, {'a': k, '..': {'/': 1}}, None])
        elif self.pool and z < 0.35:
            v = vary(r, self.g, r.choice(self.pool))
        elif self.pool and z < 0.45:
            v = r.choice(self.pool)
        elif z < 0.95 and self.prof.get('kind'):
            v = self.g.value(0, kind=self.prof['kind'])
        elif z < 0.65:
            v = self.g.value(0, kind=r.choice(['seq', 'dict', 'array', 'array']))
        elif z < 0.8 and self.prof.get('sys', True):
            v = data.system_value(r.randrange(data.n_systematic()))
        else:
            v = self.g.value(0)
        self.pool.append(v)
        return v

    def refspath(self):
        r = self.r
        c = tuple(x for x in self.refs.split('/') if x)
        z = r.random()
        if z < 0.3:
            c = c + ('a',)
        elif z < 0.4:
            c = c + ('b', 'c')
        return path_form(r, c, escape)

    def step(self):
        r, rec = self.r, self.rec
        h = rec.f
        isopen = h is not None and not h.closed
        if not isopen and (h is None or r.random() < 0.85):
            z = r.random()
            if r.random() < self.prof.get('tamper', 0.05):
                rec.tamper(r)
            o = self.options()
            if z < 0.65:
                wr = r.random() < self.prof.get('wr', 0.8)
                rec.open(o, wr, r.random() < 0.07, r.random() < 0.3, r.choice(['options', 'kw', 'options'] if self.prof.get('mutate') else ['options', 'kw']))
            elif z < 0.82:
                k = r.choice(['write', 'writes'])
                n = 1 if k == 'write' else r.choice([0, 1, 2])
                ps = self.some(n)
                if r.random() < 0.1:
                    ps = ps[:1] + [r.choice(BADPATHS)] if k == 'writes' else [r.choice(BADPATHS)]
                vals = [self.value() if r.random() < 0.85 else incompatible(r) for _ in ps]
                rec.oneshot(k, ps, vals, o, r.random() < 0.05, r.random() < 0.3)
            elif z < 0.92 or self.prof.get('bad_open', 0) == 0:
                k = r.choice(['read', 'reads'])
                rec.oneshot(k, self.some(1 if k == 'read' else r.choice([0, 1, 2]), 0.9), [], o)
            else:
                rec.open_bad(r.choice(['filename', 'pathlike', 'writable', 'trunc', 'tinv', 'options', 'both']), o)
            return
        ops, ws = zip(*self.w.items())
        op = r.choices(ops, ws)[0]
        if op in ('write', 'setitem'):
            c, v = self.comps(), self.value()
            self.at[c] = v
            rec.write([path_form(r, c, escape)], [v], op)
        elif op == 'rewrite':
            c = self.comps(0.9)
            # what is there once more, perhaps with other options
            v = self.at[c] if c in self.at and r.random() < self.prof.get('same', 0.1) else self.value()
            self.at[c] = v
            rec.write([path_form(r, c, escape)], [v], r.choice(['write', 'setitem']))
        elif op == 'again':
            # the same or something much like it, in a session whose options differ a little
            if not self.at:
                return
            c = r.choice(sorted(self.at))
            z = r.random()
            v = self.at[c] if z < 0.6 else spoil(r, self.at[c]) if z < 0.75 else vary(r, self.g, self.at[c])
            o = self.near(dict(rec.cur))
            rec.close()
            p = path_form(r, c, escape)
            if r.random() < 0.3:
                rec.oneshot('write', [p], [v], o)
            else:
                rec.open(o, True)
                rec.write([p], [v], r.choice(['write', 'setitem']))
            self.at[c] = v
        elif op == 'spoiled':
            # parts of what is there already are to be left out
            c = self.comps()
            if c not in self.at or r.random() < 0.5:
                v = r.choice([lambda: self.g.struct((r.choice([1, 1, 2]),), 1), lambda: self.g.dictlike(1), lambda: [self.g.value(1) for _ in range(3)],
                              lambda: np.zeros((r.choice([1, 2]),), [('b', 'i4'), ('a', 'f8')])])()
                self.at[c] = v
                rec.write([path_form(r, c, escape)], [v], 'write')
            if self.mats:
                o = dict(rec.cur, act='discard')
                if r.random() < 0.5:
                    o = dict(gen.gen_options(r, 'matlab'), act='discard', refs=self.refs, cn=o['cn'])
                rec.close()
                v = spoil(r, self.at[c])
                rec.oneshot('write', [path_form(r, c, escape)], [v], o)
        elif op == 'writes':
            ps = self.some(r.choice([0, 1, 2, 2, 3]))
            rec.write(ps, [self.value() for _ in ps])
        elif op == 'bad':
            ps = self.some(r.choice([0, 1, 2]))
            ps.insert(r.randint(0, len(ps)), r.choice(BADPATHS))
            ps = self.hashable(ps)
            k = r.choice(['writes', 'reads', 'write', 'get', 'in', 'del', 'setdefault', 'pop', 'update'])
            p = r.choice(BADPATHS)
            if k == 'writes':
                rec.write(ps, [self.value() for _ in ps])
            elif k == 'reads':
                rec.reads(ps)
            elif k == 'write':
                rec.write([p], [self.value()], 'write')
            elif k == 'update':
                rec.mapping('update', paths=ps, vals=[self.value() for _ in ps])
            else:
                rec.mapping(k, p, val=1)
        elif op == 'refspath':
            p = self.refspath()
            k = r.choice(['write', 'writes', 'reads', 'get', 'del', 'pop', 'setdefault'])
            if k == 'write':
                rec.write([p], [self.value()], 'write')
            elif k in ('writes', 'reads'):
                ps = self.some(r.choice([1, 2]))
                ps.insert(r.randint(0, len(ps)), p)
                ps = self.hashable(ps)
                if k == 'writes':
                    rec.write(ps, [self.value() for _ in ps])
                else:
                    rec.reads(ps)
            else:
                rec.mapping(k, p, val=1)
        elif op == 'incompat':
            ps = self.some(r.choice([1, 1, 2, 3]))
            vals = [self.value() for _ in ps]
            vals[r.randrange(len(vals))] = incompatible(r)
            if self.at and r.random() < 0.4:
                c = r.choice(sorted(self.at))
                ps = self.hashable(ps + [path_form(r, c, escape)])
                vals = (vals + [spoil(r, self.at[c])])[-len(ps):]
            rec.write(ps, vals)
        elif op == 'fault':
            ps = self.some(r.choice([1, 1, 2]), 0.7)
            vals = [self.value() for _ in ps]
            rec.write(ps, vals, fault=r.choice([1, 1, 2, 3, 4, 5, 6, 8, 11, 15, 20]) * r.choice([1, 1, -1]))
            z = r.random()
            if r.random() < 0.5 and not rec.hung:
                rec.elsewhere()
            if z < 0.35:
                rec.write(ps, vals)
            elif z < 0.6 and ps:
                rec.write(ps[:1], [self.value()], 'write')
            elif z < 0.7:
                rec.reads(self.some(2, 0.95))
        elif op == 'root':
            rec.write([path_form(r, (), escape) if r.random() < 0.6 else ('/', dict(f='text', u=[47]))],
                      [r.choice([lambda: self.g.dictlike(0), lambda: self.g.struct((1,), 1), self.value])()], 'write')
        elif op == 'read':
            rec.reads([self.path(0.9)], 'read')
        elif op == 'getitem':
            rec.reads([self.path(0.9)], 'getitem')
        elif op == 'reads':
            rec.reads(self.some(r.choice([0, 1, 2, 3]), 0.95))
        elif op == 'close':
            rec.close(r.choice(['close', 'exit', 'with', 'raise']))
        elif op == 'flush':
            rec.flush()
        elif op == 'closed':
            rec.closed()
        elif op == 'delete':
            rec.mapping('del', self.path(0.9))
        elif op == 'pop':
            rec.mapping('pop', self.path(0.9), default=r.random() < 0.5)
        elif op in ('popitem', 'clear', 'iter', 'keys', 'len', 'values'):
            rec.mapping(op)
        elif op == 'item':
            rec.mapping('items')
        elif op == 'update':
            ps = self.some(r.choice([0, 1, 2, 3]))
            rec.mapping('update', paths=ps, vals=[self.value() for _ in ps])
        elif op == 'setdefault':
            rec.mapping('setdefault', self.path(), val=self.value())
        elif op == 'get':
            rec.mapping('get', self.path(0.9))
        elif op == 'contains':
            rec.mapping('in', self.path(0.9) if r.random() < 0.9 else self.refspath())

    def hashable(self, ps):
        """No lists, and nothing twice: they are the keys of a dict."""
        out, seen = [], set()
        for p, t in ps:
            if isinstance(p, list):
                p = tuple(p)
            if p not in seen:
                seen.add(p)
                out.append((p, t))
        return out

    def some(self, n, near=0.55):
        return self.hashable([self.path(near) for _ in range(n)])

    def run(self, n):
        r, rec = self.r, self.rec
        refs0 = []
        if r.random() < self.prof.get('foreign', 0.15):
            if foreign_file(r, rec.fn) == 'refs':
                refs0 = ['/#refs#']
            self.used += [('a',), ('b',), ('n',), ('b', 'c')]
        rec.start()
        try:
            for _ in range(n):
                self.step()
                if rec.hung:
                    return rec, refs0
            if rec.f is not None and not rec.f.closed:
                rec.close()
            # the file is still good and can be read
            if r.random() < 0.5:
                o = self.options()
                rec.open(o, False)
                if rec.f is not None and not rec.f.closed:
                    rec.mapping('iter')
                    rec.mapping('items')
                    rec.close()
        finally:
            if rec.f is not None:
                try:
                    if rec.hung:
                        LEAKED.append(rec.f)        # closing it might hang too
                    else:
                        rec.f.close()
                except Exception:
                    pass
        return rec, refs0


def summary(rec):
    return [dict(op=e['op'], paths=[show(q) for q in e['qs']], st=e['st'], er=e['er'][:1], msg=e.get('msg', ''), src=e.get('src')) for e in rec.ev]


def show(q):
    if q['f'] == 'text':
        return ''.join(map(chr, q['u']))
    if q['f'] == 'bytes':
        return repr(bytes(q['b']))
    if q['f'] == 'sep':
        return tuple(''.join(map(chr, c)) for c in q['cs'])
    return q['f']


def chunk(seed, n, profname, steps, scratch):
    """n recorded histories: [(case, summary)]"""
    r = random.Random(seed)
    d = tempfile.mkdtemp(prefix='hvs', dir=scratch)
    out = []
    cwd = os.getcwd()
    os.chdir(d)
    for i in range(n):
        fn, mfn = os.path.join(d, r.choice(['f%d.h5' % i, 'data.h5'])), os.path.join(d, 'm.h5')
        random.seed(r.random())
        h = History(random.Random(r.random()), fn, mfn, PROFILES[profname])
        rec, refs0 = h.run(r.choice(steps))
        out.append((rec.case(refs0), summary(rec)))
        for x in (fn, mfn):
            try:
                os.unlink(x)
            except OSError:
                pass
        if rec.hung:
            break
    os.chdir(cwd)
    shutil.rmtree(d, ignore_errors=True)
    return out


PROFILES = dict(
    all={},
    overwrite=dict(weights=dict(rewrite=15, write=4, root=1.5, incompat=2, again=8, spoiled=1.5), same=0.3),
    frame=dict(weights=dict(incompat=2, bad=2)),
    mapping=dict(weights=dict(delete=4, pop=2, popitem=1, clear=0.4, update=2, setdefault=3, get=3, item=1.5, values=1, iter=3, keys=1, len=4, contains=4,
                              rewrite=2, write=4, writes=1), foreign=0.3),
    life=dict(weights=dict(close=8, closed=3, flush=2, write=4, rewrite=2), foreign=0.5, bad_open=1, wr=0.6, tamper=0.3),
    refs=dict(weights=dict(refspath=3, rewrite=8, writes=4, incompat=8, close=5, root=2, spoiled=2), foreign=0.35, discard=True),
    paths=dict(weights=dict(bad=3, contains=5, get=3, delete=3, read=3, getitem=2, reads=2, setdefault=1.5, pop=1.5, values=0, item=0, incompat=0, clear=0.05, root=0.2),
               odd=0.6, simple=True),
    isolated=dict(weights=dict(write=8, rewrite=4, refspath=2, close=4, read=6, getitem=4, iter=3, len=2), mutate=True, wr=0.6),
    overmat=dict(weights=dict(rewrite=12, write=4, root=1.5, again=6, spoiled=2), same=0.3, mat=True),
    overdict=dict(weights=dict(rewrite=12, write=4, root=1.5, again=6), same=0.2, kind='dict'),
    batches=dict(weights=dict(bad=5, refspath=4, incompat=10, writes=5), discard=True),
    faults=dict(weights=dict(fault=12, incompat=4, rewrite=3), foreign=0.1),
)
