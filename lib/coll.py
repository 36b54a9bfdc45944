"""Records histories of collections of marshallers: cases for spec/HCollJudge.tla."""
import collections
import fractions
import os
import random
import sys
import tempfile
import traceback

import base
import store

import h5py
import numpy as np

MODS = dict(hvg=([], True), hvh=([], True), hvpk=([], True), hvbr=([], False), hvim=([], False), hvbp=([], False))
SUBS = {'hvpk.sub': (['hvpk'], True), 'hvpk.bad': (['hvpk'], False), 'hvbp.sub': (['hvbp'], True), 'hvpk.inner': (['hvpk'], True), 'hvpk.inner.leaf': (['hvpk', 'hvpk.inner'], True),
        'hvpk.none': (['hvpk'], False)}
ALLMODS = dict(MODS, **SUBS)
PARENTS = ['hvg', 'hvh', 'hvpk', 'hvbr', 'hvim', 'hvbp', 'hvnone', 'hvnone2']
REQS = list(ALLMODS) + ['hvnone', 'hvnone.sub']
BODY = {'hvbr': 'raise RuntimeError("broken")', 'hvim': 'import hv_is_not_there', 'hvpk.bad': 'x = 1\n1 / 0', 'hvbp': 'raise ValueError(5)'}
PLUGINS = [('hvplug_a', 'get', '1.0'), ('hvplug_b', 'get', '1.0'), ('hvplug_c', 'get', '2.0'), ('hvplug_d', 'get', '0.9'), ('hvplug_missing', 'get', '1.0'),
           ('hvplug_e', 'notcallable', '1.0'), ('hvplug_f', 'get', '1.0'), ('hvplug_g', 'nosuch', '1.0')]


def setup(d):
    """Makes the modules and the plugins in d and puts it on the path."""
    pk = {'hvpk', 'hvbp', 'hvpk.inner'}
    for m in ALLMODS:
        if m == 'hvpk.none':
            continue
        p = os.path.join(d, *m.split('.'))
        if m in pk:
            os.makedirs(p, exist_ok=True)
            p = os.path.join(p, '__init__')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p + '.py', 'w') as f:
            f.write(BODY.get(m, 'x = 1') + '\n')
    for name, attr, ver in PLUGINS:
        di = os.path.join(d, '%s-1.0.dist-info' % name)
        os.makedirs(di)
        with open(os.path.join(di, 'METADATA'), 'w') as f:
            f.write('Metadata-Version: 2.1\nName: %s\nVersion: 1.0\n' % name)
        with open(os.path.join(di, 'entry_points.txt'), 'w') as f:
            f.write('[hdf5storage.marshallers.plugins]\n%s = %s:%s\n' % (ver, name, attr))
        if name == 'hvplug_missing':
            continue
        with open(os.path.join(d, name + '.py'), 'w') as f:
            if name == 'hvplug_f':
                f.write('raise OSError("no")\n')
            f.write('import hv_plan\nnotcallable = 5\n\n\ndef get(version):\n    return hv_plan.call(%r, version)\n' % name)
    with open(os.path.join(d, 'hv_plan.py'), 'w') as f:
        f.write('call = None\n')
    sys.path.insert(0, d)
    if 'pkg_resources' in sys.modules:
        sys.modules['pkg_resources'].working_set.add_entry(d)


def thing(name):
    return type(name, (), dict(__module__='hvt'))


class SubInt(int):
    pass


SubInt.__module__ = 'hvt'
A, A2, B, C = thing('A'), thing('A'), thing('B'), thing('C')
TYPES = [int, str, collections.deque, fractions.Fraction, np.uint8, np.float64, list, A, B, C, SubInt, np.dtype, dict]


def tname(t):
    return t if isinstance(t, str) else t.__module__ + '.' + t.__name__


TS = ['int', 'str', 'list', 'collections.deque', 'numpy.uint8', 'numpy.float64', 'hvA', 'hvB', 'dict', 'numpy.ndarray']
MC = ['double', 'struct', 'cell', 'uint8', 'hvclass', 'char', 'int8']
DATA = [lambda: 5, lambda: 'x', lambda: collections.deque(), lambda: np.uint8(1), lambda: np.float64(2), lambda: [], A, A2, B, C,
        lambda: SubInt(4), lambda: np.dtype('f8'), lambda: {}]
ELEMS = [lambda: 5, lambda: 'x', lambda: np.float64(2), A, B, lambda: np.uint8(1), lambda: True]


class World:
    """What is shared by the histories of one process."""

    def __init__(self, d):
        setup(d)
        import hdf5storage
        from hdf5storage import Marshallers
        import inspect
        self.h = hdf5storage
        self.T = Marshallers.TypeMarshaller
        self.plan = __import__('hv_plan')
        self.depth = 0
        self.log = []
        cls = [c for n, c in sorted(inspect.getmembers(Marshallers, inspect.isclass)) if issubclass(c, self.T)]
        self.builtin = [c.__name__ for c in cls]
        self.bms = [self.describe(c()) for c in cls]
        self.ids = {}
        for c in cls:
            for n in ('write', 'read', 'read_approximate'):
                if n in c.__dict__:
                    setattr(c, n, self.wrap(c.__dict__[n], n))
        W = self

        class User(self.T):
            def __init__(self, ty, ts, mc, par, req):
                super().__init__()
                self.types, self.python_type_strings, self.matlab_classes = tuple(ty), tuple(ts), tuple(mc)
                self.required_parent_modules, self.required_modules = tuple(par), tuple(req)
                self.token = object()
                self.update_type_lookups()

            def write(self, f, grp, name, data, type_string):
                W.users.append(W.idof(self))
                if name in grp:
                    del grp[name]
                d = grp.create_dataset(name, data=7)
                d.attrs['Python.Type'] = np.bytes_(b'int')
                return d

            def read(self, f, dsetgrp, attributes):
                return self.token

            def read_approximate(self, f, dsetgrp, attributes):
                return self.token
        for n in ('write', 'read', 'read_approximate'):
            setattr(User, n, self.wrap(User.__dict__[n], n))
        self.User = User

    def wrap(self, fn, n):
        def g(m, *a, **k):
            if self.depth == 0:
                self.log.append((self.idof(m), n))
            self.depth += 1
            try:
                return fn(m, *a, **k)
            finally:
                self.depth -= 1
        return g

    def idof(self, m):
        if m is None:
            return 0
        if id(m) in self.ids:
            return self.ids[id(m)]
        return self.builtin.index(type(m).__name__) + 1 if type(m).__name__ in self.builtin else -1

    def describe(self, m):
        # the modules of Python itself are always there
        return dict(own=hasattr(m, 'token'), ty=[tname(t) for t in m.types], ts=list(m.python_type_strings), mc=list(m.matlab_classes), par=[x for x in m.required_parent_modules if x.startswith('hv')], req=[x for x in m.required_modules if x.startswith('hv')])


class Collections:
    """One history."""

    def __init__(self, r, w, fn):
        self.r, self.w, self.fn = r, w, fn
        w.ids, w.log, w.users = {}, [], []
        self.ms = list(w.bms)
        self.keep = []                 # everything that has an id
        self.insts = []                # the user marshallers there are
        self.cs, self.ev = [], []
        self.shared = r.random() < 0.5
        w.plan.call = self.plugin
        self.plans = {}
        for m in list(sys.modules):
            if m.split('.')[0].startswith(('hvg', 'hvh', 'hvpk', 'hvb', 'hvim')):
                del sys.modules[m]
        w.h.make_new_default_marshaller_collection()
        self.cs.append(w.h.get_default_marshaller_collection())
        self.first = dict(lp='F', lz='T', pk='seq', pr=['builtin', 'plugin', 'user'], mk='some', ms=[], pg=[])

    # marshallers

    def marshaller(self, pool=None):
        r, w = self.r, self.w
        z = r.random()
        if pool is None and z < 0.1:
            from hdf5storage import Marshallers
            m = r.choice([Marshallers.PythonListMarshaller, Marshallers.PythonDictMarshaller, Marshallers.PythonScalarMarshaller])()
        else:
            ty = r.sample(TYPES[:-2] + TYPES[:9], r.choice([0, 1, 1, 2, 3]))
            ty = [tname(t) if r.random() < 0.5 else t for t in ty]
            ts = r.sample(TS, r.choice([0, 1, 1, 2]))
            mc = r.sample(MC, r.choice([0, 0, 1, 2]))
            if pool is not None:
                ty, ts, mc = ([x for x in xs if hash(tname(x)) % 2 == pool or self.alone] for xs in (ty, ts, mc))
            y = r.random()
            if y < 0.45:
                par, req = [], []
            else:
                req = r.sample(REQS, r.choice([1, 1, 2, 3]))
                par = sorted({x.split('.')[0] for x in req}) if r.random() < 0.8 else r.sample(PARENTS, r.choice([0, 1, 2]))
                r.shuffle(par)
            m = w.User(ty, ts, mc, par, req)
        self.ms.append(w.describe(m))
        w.ids[id(m)] = len(self.ms)
        self.keep.append(m)
        return m

    def plugin(self, name, version):
        p = self.plans.get(name, dict(how='ok', ret=[]))
        if p['how'] == 'raise':
            raise p['exc']
        if p['how'] == 'none':
            return None
        if p['how'] == 'gen':
            def g():
                yield from p['ret']
                raise KeyError('late')
            return g()
        return p['form'](p['ret']) if 'form' in p else p['ret']

    def plan_plugins(self):
        r = self.r
        pg = []
        self.plans = {}
        self.alone = r.random() < 0.6
        only = r.choice(['hvplug_a', 'hvplug_b'])
        for i, (name, attr, ver) in enumerate(PLUGINS):
            ret = []
            if name not in ('hvplug_a', 'hvplug_b') or not self.alone or name == only:
                for _ in range(r.choice([0, 1, 2, 3])):
                    ret.append(self.marshaller(i % 2) if r.random() < 0.85 else r.choice([5, None, 'x', self.w.User, int]))
            how = r.choice(['ok'] * 6 + ['raise', 'none', 'gen'])
            self.plans[name] = dict(how=how, ret=ret, exc=r.choice([ValueError(1), ImportError('x'), KeyError()]), form=r.choice([list, tuple, iter]))
            works = how == 'ok' and name in ('hvplug_a', 'hvplug_b')
            pg.append(dict(v=ver, works=works, ret=[self.w.ids.get(id(m), 0) for m in ret]))
        return pg

    # operations

    def event(self, op, go, **k):
        w = self.w
        w.log, w.users, w.depth = [], [], 0
        e = dict(op=op, x=0, st='ok', er=[], m=0, has=False, pr=[], by='type', key='', calls=[], user=[], els=[], same=False)
        e.update(k)
        try:
            e.update(go() or {})
        except Exception as x:
            e['st'], e['er'] = 'err', store.classes(x)
        e['calls'] = [dict(m=m, f=f) for m, f in w.log]
        e['user'] = list(w.users)
        e['ld'] = [m for m in ALLMODS if m in sys.modules]
        d = w.h.get_default_marshaller_collection()
        e['df'] = next((i + 1 for i, c in enumerate(self.cs) if c is d), 0)
        e['n'] = len(self.cs)
        self.ev.append(e)

    def some(self, n=None, bad=0.0):
        """Arguments for the user marshallers: value, their ids, whether some are none."""
        r = self.r
        ms = []
        for _ in range(r.choice([0, 1, 1, 2, 3]) if n is None else n):
            if self.insts and r.random() < 0.4:
                ms.append(r.choice(self.insts))
            else:
                ms.append(self.marshaller())
                self.insts.append(ms[-1])
        ids = [self.w.ids[id(m)] for m in ms]
        if r.random() < bad:
            z = r.random()
            if z < 0.3:
                return r.choice([5, None, 1.5, self.w.User, 'abc', b'x', {'a': 1}]), [], 'bad'
            ms.insert(r.randint(0, len(ms)), r.choice([5, None, 'x', self.w.User, object()]))
            return r.choice([list, tuple, iter])(ms), ids, 'bad'
        if len(ms) == 1 and r.random() < 0.5:
            return ms[0], ids, 'some'
        return r.choice([list, tuple, iter, lambda x: (y for y in x)])(ms), ids, 'some'

    def new(self, default=False):
        r, w = self.r, self.w
        kw, a = {}, dict(self.first)
        if r.random() < 0.5:
            lp = r.random() < 0.7
            kw['load_plugins'], a['lp'] = lp, 'T' if lp else 'F'
        elif r.random() < 0.1:
            kw['load_plugins'], a['lp'] = r.choice([1, None, 'x', 0]), 'bad'
        a['pg'] = self.plan_plugins() if a['lp'] == 'T' else []
        if r.random() < 0.6:
            z = r.random() < 0.4
            kw['lazy_loading'], a['lz'] = z, 'T' if z else 'F'
        elif r.random() < 0.1:
            kw['lazy_loading'], a['lz'] = r.choice([1, None, 'x', 0]), 'bad'
        z = r.random()
        if z < 0.75:
            p = ['builtin', 'plugin', 'user']
            r.shuffle(p)
            kw['priority'], a['pr'] = r.choice([list, tuple])(p), p
        elif z < 0.85:
            p = r.choice([['builtin', 'plugin'], ['builtin', 'user', 'user'], ['builtin', 'plugin', 'user', 'user'], [], ['builtin', 'plugin', 'x'], ['user'] * 3, ['BUILTIN', 'plugin', 'user']])
            kw['priority'], a['pr'] = r.choice([list, tuple])(p), p
        elif z < 0.9:
            kw['priority'], a['pk'], a['pr'] = r.choice([None, 5, {'builtin', 'plugin', 'user'}, {'builtin': 1, 'plugin': 2, 'user': 3}]), 'bad', []
        if r.random() < 0.6:
            kw['marshallers'], a['ms'], a['mk'] = self.some(bad=0.1)
        args = ()
        if r.random() < 0.2 and 'load_plugins' in kw:
            args = (kw.pop('load_plugins'),)

        def go():
            if default:
                w.h.make_new_default_marshaller_collection(*args, **kw)
                c = w.h.get_default_marshaller_collection()
            else:
                c = w.h.MarshallerCollection(*args, **kw)
            self.cs.append(c)
            return dict(pr=list(c.priority))
        self.event('default' if default else 'new', go, a=a)

    def file(self, x, mode):
        w = self.w
        if self.cs[x] is w.h.get_default_marshaller_collection() and self.r.random() < 0.4:
            return w.h.File(self.fn, writable=mode, matlab_compatible=False)
        return w.h.File(self.fn, writable=mode, options=w.h.Options(matlab_compatible=False, marshaller_collection=self.cs[x]))

    def step(self):
        r, w = self.r, self.w
        z = r.random()
        x = r.randrange(len(self.cs))
        c = self.cs[x]
        if z < 0.12 and len(self.cs) < 6:
            self.new(r.random() < 0.3)
        elif z < 0.27:
            v, ids, k = self.some(bad=0.2)
            self.event('add', lambda: c.add_marshaller(v) and None, x=x + 1, a=dict(self.first, ms=ids, mk=k))
        elif z < 0.35:
            ms = r.sample(self.insts, min(len(self.insts), r.choice([0, 1, 1, 2])))
            ids = [w.ids[id(m)] for m in ms]
            if r.random() < 0.3:
                ms.append(r.choice([5, None, 'x', w.User]))
            v = ms[0] if len(ms) == 1 and ids and r.random() < 0.6 else r.choice([list, tuple, iter])(ms)
            self.event('remove', lambda: c.remove_marshaller(v) and None, x=x + 1, a=dict(self.first, ms=ids))
        elif z < 0.38:
            self.event('clear', lambda: c.clear_marshallers() and None, x=x + 1)
        elif z < 0.7:
            by = r.choice(['type', 'type', 'string', 'class'])
            if by == 'type':
                k = r.choice(TYPES + [A2, bytes, type(None), 'no.such', 'hvt.A', 'numpy.bool_', object, type])
                if r.random() < 0.3:
                    k = tname(k)
                f = lambda: c.get_marshaller_for_type(k)
            elif by == 'string':
                k = r.choice(TS + ['nope', 'A', 'tuple', 'builtins.int'])
                f = lambda: c.get_marshaller_for_type_string(k)
            else:
                k = r.choice(MC + ['nope', 'logical', 'function_handle'])
                f = lambda: c.get_marshaller_for_matlab_class(k)

            def go():
                m, has = f()
                return dict(m=w.idof(m), has=has)
            self.event('look', go, x=x + 1, by=by, key=tname(k))
        elif z < 0.82:
            v = r.choice(DATA)()
            with self.file(x, True) as f:
                self.event('write', lambda: f.write(v, path='/w') and None, x=x + 1, key='numpy.dtype' if isinstance(v, np.dtype) else tname(type(v)))
        elif z < 0.88:
            vs = [r.choice(ELEMS)() for _ in range(r.choice([1, 2, 3, 5]))]
            with self.file(x, True) as f:
                self.event('nest', lambda: f.write(vs, path='/n') and None, x=x + 1, els=[tname(type(v)) for v in vs])
        else:
            q = dict(ts=r.choice(TS + ['nope'] * 2 + [''] * 12), mc=r.choice(MC + ['nope'] + [''] * 6), dt=r.choice(['', 'numpy.float64', 'numpy.uint8', 'numpy.int16']))
            with h5py.File(self.fn, 'a') as f:
                if 'q' in f:
                    del f['q']
                o = f.create_group('q') if not q['dt'] else f.create_dataset('q', data=np.ones(2, q['dt'].split('.')[1]))
                for a, n in (('ts', 'Python.Type'), ('mc', 'MATLAB_class')):
                    if q[a]:
                        o.attrs[n] = np.bytes_(q[a].encode()) if r.random() < 0.7 else q[a]
            with self.file(x, False) as f:
                def go():
                    v = f.read('/q')
                    return dict(same=any(v is getattr(m, 'token', w) for m in self.keep if w.log and w.ids[id(m)] == w.log[0][0]))
                self.event('read', go, x=x + 1, q=q)

    def case(self):
        return dict(ms=self.ms, bi=list(range(1, len(self.w.bms) + 1)), mods={m: dict(anc=a, good=g) for m, (a, g) in ALLMODS.items()}, first=self.first, ev=self.ev)


def chunk(seed, n, steps, scratch):
    d = tempfile.mkdtemp(prefix='hvc', dir=scratch)
    w = World(d)
    r = random.Random(seed)
    out = []
    for i in range(n):
        fn = os.path.join(d, 'f%d.h5' % i)
        t = Collections(random.Random(r.random()), w, fn)
        for _ in range(r.choice(steps)):
            t.step()
        out.append(t.case())
        if os.path.exists(fn):
            os.unlink(fn)
    return out
