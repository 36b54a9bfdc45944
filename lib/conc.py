"""Records what threads that share an open file do to it: cases for spec/HConcJudge.tla.

The threads are held up at chosen or random points: at calls of h5py, and
before and after a lock is taken."""
import itertools
import json
import os
import random
import re
import shutil
import tempfile
import threading
import time

import data
import store
import tlc

import h5py
import numpy as np

ITEMS = [('', 'a'), ('', 'b'), ('', 'c'), ('g', 'x'), ('g', 'y'), ('h', 'x')]
GROUPS = [('g', ''), ('h', '')]
REAL = threading.Lock
LIMIT = 20.0


class Local(threading.local):
    depth = 0
    plan = None
    count = 0


local = Local()


def point():
    """A point at which a thread may be held up."""
    p = local.plan
    if p is not None:
        local.count += 1
        p(local.count)


class Lock:
    """A lock with points before it is taken and after it is given back."""

    def __init__(self, real):
        self.real = real

    def acquire(self, *a, **k):
        point()
        return self.real.acquire(*a, **k)

    def release(self):
        self.real.release()
        point()

    def locked(self):
        return self.real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, n):
        return getattr(self.real, n)


POINTS = [(h5py.Group, n) for n in ('__getitem__', 'get', '__setitem__', '__delitem__', '__contains__', '__len__', '__iter__', 'create_group', 'require_group', 'create_dataset',
                                    'require_dataset', 'keys', 'items', 'values', 'move')] + \
         [(h5py.Dataset, n) for n in ('__getitem__', '__setitem__', 'write_direct', 'read_direct', 'resize')] + \
         [(h5py.AttributeManager, n) for n in ('__getitem__', '__setitem__', '__delitem__', 'create', 'modify')] + \
         [(h5py.File, n) for n in ('close', 'flush')]


def install():
    if getattr(install, 'done', False):
        return
    install.done = True

    def wrap(fn):
        def g(*a, **k):
            if local.depth or local.plan is None:
                return fn(*a, **k)
            point()
            local.depth += 1
            try:
                return fn(*a, **k)
            finally:
                local.depth -= 1
        return g
    for c, n in POINTS:
        if n in c.__dict__:
            setattr(c, n, wrap(c.__dict__[n]))


class Opening:
    """Locks made meanwhile have points."""

    def __enter__(self):
        self.old = threading.Lock, threading.RLock
        threading.Lock = lambda: Lock(self.old[0]())
        threading.RLock = lambda *a: Lock(self.old[1]())

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.old


def pterm(p):
    return dict(g=p[0], n=p[1])


class Scenario:
    def __init__(self, r, d):
        self.r = r
        self.h = data.lib()
        self.fn = os.path.join(d, 'f.h5')
        if os.path.exists(self.fn):
            os.unlink(self.fn)
        self.values = []
        self.clock = itertools.count(1)
        self.ops = []
        self.threads = []
        self.kw = dict(matlab_compatible=r.random() < 0.6, delete_unused_variables=True, compress=r.random() < 0.5, compress_size_threshold=0)

    def value(self):
        """A new value and its number."""
        r = self.r
        k = len(self.values) + 1
        v = r.choice([lambda: k, lambda: 'v%d' % k, lambda: [k, 'x' * (k % 4), [k]], lambda: {'k': k, 'l': [k, k]}, lambda: np.full((4, 5), k), lambda: (k, None, {'d': k}),
                      lambda: np.full(2000, float(k)), lambda: {1: k, 'z': 'v%d' % k}, lambda: np.array([k, 'x'], object), lambda: k * 1.0 + 1j])()
        self.values.append(v)
        return v, k

    def number(self, v):
        for i, w in enumerate(self.values):
            if same(v, w):
                return i + 1
        return 10**6                 # nothing that was ever written

    def path(self, p):
        r = self.r
        if not p[1]:
            return r.choice(['/' + p[0], p[0]])
        if not p[0]:
            return r.choice([p[1], '/' + p[1], (p[1],)])
        return r.choice(['/%s/%s' % p, p, b'%s/%s' % (p[0].encode(), p[1].encode())])

    # an operation: [its name, paths, what to call]

    def write(self, n=None, bad=False):
        r = self.r
        ps = r.sample(ITEMS, n or r.choice([1, 1, 2, 2, 3, 4]))
        vals = [self.value() for _ in ps]
        if bad:
            vals[r.randrange(len(vals))] = (object(), 0)
        md = {self.path(p): v for p, (v, k) in zip(ps, vals)}
        op = dict(op='writes', ps=[pterm(p) for p in ps], vs=[k for v, k in vals])
        if len(ps) == 1 and r.random() < 0.5:
            (q, v), = md.items()
            if r.random() < 0.5:
                return op, lambda f: f.write(v, q)
            return op, lambda f: f.__setitem__(q, v)
        return op, lambda f: f.writes(md)

    def make(self, kind):
        r = self.r
        if kind == 'writes':
            return self.write()
        if kind == 'batch':
            return self.write(r.choice([2, 3, 4]))
        if kind == 'failing':
            return self.write(r.choice([1, 2, 3]), True)
        if kind in ('reads', 'read'):
            ps = r.sample(ITEMS, 1 if kind == 'read' else r.choice([1, 2, 3]))
            if r.random() < 0.6:
                ps = [p for p in ps if p in self.known] or [r.choice(self.known or ITEMS)]
            qs = [self.path(p) for p in ps]
            op = dict(op='reads', ps=[pterm(p) for p in ps], vs=[])
            if len(ps) == 1 and r.random() < 0.6:
                g = r.choice([lambda f: [f.read(qs[0])], lambda f: [f[qs[0]]]])
            else:
                g = lambda f: f.reads(qs)
            return op, lambda f: [self.number(v) for v in g(f)]
        if kind in ('del', 'in'):
            p = r.choice(ITEMS + GROUPS + (self.known * 2))
            q = self.path(p)
            op = dict(op=kind, ps=[pterm(p)], vs=[])
            if kind == 'del':
                return op, lambda f: f.__delitem__(q)
            return op, lambda f: [int(q in f)]
        op = dict(op=kind, ps=[], vs=[])
        if kind == 'len':
            return op, lambda f: [len(f)]
        if kind == 'close':
            return op, r.choice([lambda f: f.close(), lambda f: f.__exit__(None, None, None)])
        if kind == 'closed':
            return op, lambda f: [int(f.closed)]
        if kind == 'flush':
            return op, lambda f: f.flush()
        if kind == 'badwrite':
            return op, lambda f: f.writes({'/ok': 1, '/#refs#/a': 5})

    def do(self, op, go):
        """Does one operation and records it."""
        e = dict(op, st='ok', er=[], out=[])
        e['c'] = next(self.clock)
        try:
            e['out'] = go(self.f) or []
        except BaseException as x:
            e['st'], e['er'], e['msg'] = 'err', store.classes(x), str(x)[:100]
        e['r'] = next(self.clock)
        self.ops.append(e)

    def start(self):
        r = self.r
        self.known = r.sample(ITEMS, r.choice([1, 2, 3, 4]))
        with Opening():
            self.f = self.h.File(self.fn, writable=True, **self.kw)
        self.init = []
        for p in self.known:
            v, k = self.value()
            self.f.write(v, self.path(p))
            self.init.append(dict(p=pterm(p), x=k))
        local.plan = None

    def thread(self, ops, plan):
        def run():
            local.plan, local.count = plan, 0
            try:
                for op, go in ops:
                    self.do(op, go)
            finally:
                local.plan = None
                done.set()
        done = threading.Event()
        t = threading.Thread(target=run, daemon=True)
        t.done = done
        self.threads.append(t)
        return t

    def finish(self):
        """Waits for all threads and looks at the file; gives the case."""
        end = time.time() + LIMIT
        for t in self.threads:
            t.join(max(0.01, end - time.time()))
        hang = [t for t in self.threads if t.is_alive()]
        case = dict(v=self.init)
        if hang:
            LEAKED.append(self)
            return dict(case, ops=list(self.ops), hang=True)
        e = dict(op='dump', ps=[pterm(p) for p in ITEMS], vs=[], st='ok', er=[], out=[])
        e['c'] = next(self.clock)
        t = threading.Thread(target=lambda: self.f.close(), daemon=True)
        t.start()
        t.join(LIMIT)
        if t.is_alive():
            LEAKED.append(self)
            return dict(case, ops=list(self.ops), hang=True)
        try:
            with self.h.File(self.fn, **self.kw) as f:
                for p in ITEMS:
                    q = '/' + '/'.join(x for x in p if x)
                    e['out'].append(self.number(f.read(q)) if q in f else 0)
        except Exception as x:
            e['st'], e['er'], e['msg'] = 'err', store.classes(x), str(x)[:100]
        e['r'] = next(self.clock)
        self.ops.append(e)
        return dict(case, ops=list(self.ops), hang=False)


LEAKED = []


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and all(same(x, y) if isinstance(x, (list, tuple, dict)) else x == y for x, y in zip(a.ravel(), b.ravel()))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


KINDS = ['writes', 'batch', 'batch', 'failing', 'reads', 'reads', 'read', 'del', 'in', 'len', 'flush', 'close', 'closed', 'badwrite']


def held_up(r, d, a, b, k):
    """One thread is held up at its k-th point while others are at work."""
    s = Scenario(r, d)
    s.start()
    there, go = threading.Event(), threading.Event()

    def plan(n):
        if n == k:
            there.set()
            go.wait(5)
    one = s.make(a)
    other = [[s.make(b)] + [s.make(r.choice(KINDS)) for _ in range(r.choice([0, 0, 1]))]]
    if r.random() < 0.5:
        other.append([s.make(r.choice(['reads', 'read', 'len', 'in', 'reads', 'writes']))])
    t = s.thread([one] + ([s.make(r.choice(KINDS))] if r.random() < 0.3 else []), plan)
    us = [s.thread(o, lambda n: None) for o in other]
    t.start()
    while not there.is_set() and not t.done.is_set():
        there.wait(0.002)
    reached = there.is_set()
    for u in us:
        u.start()
    end = time.time() + 0.012
    for u in us:
        u.done.wait(max(0, end - time.time()))
    go.set()
    return s.finish(), reached


def shaken(r, d):
    """Several threads, each held up a little now and then."""
    s = Scenario(r, d)
    s.start()
    n = r.choice([2, 3, 3, 4])
    m = r.choice([2, 3, 4]) if n < 4 else 2
    ts = []
    kinds = KINDS if r.random() < 0.6 else [k for k in KINDS if k != 'close']
    for i in range(n):
        q = random.Random(r.random())
        p = r.choice([0.02, 0.1, 0.3])
        ts.append(s.thread([s.make(r.choice(kinds)) for _ in range(m)], lambda n, q=q, p=p: time.sleep(q.choice([0, 0.0002, 0.001])) if q.random() < p else None))
    for t in ts:
        t.start()
    return s.finish()


def chunk(seed, n, m, scratch):
    """n histories with one thread held up, m with all shaken."""
    install()
    d = tempfile.mkdtemp(prefix='hvt', dir=scratch)
    r = random.Random(seed)
    out = []
    a, b = r.sample(KINDS, len(KINDS)), r.sample(KINDS, len(KINDS))
    i = k = 0
    for j in range(n):
        if k == 0:
            i += 1
            pair = r.choice(a), r.choice(b)
            k = r.choice([1, 2, 3])
        c, reached = held_up(random.Random(r.random()), d, pair[0], pair[1], k)
        out.append(c)
        k = (k + r.choice([1, 1, 2, 3, 5, 8])) if reached and k < 200 else 0
        if c['hang']:
            return out
    for j in range(m):
        out.append(shaken(random.Random(r.random()), d))
        if out[-1]['hang']:
            return out
    shutil.rmtree(d, ignore_errors=True)
    return out


def judge(cases, workers=8):
    """The numbers of the cases that have no sequential order, and how many states there were."""
    d = tempfile.mkdtemp(prefix='cases')
    try:
        p = os.path.join(d, 'cases.json')
        with open(p, 'w') as f:
            json.dump(dict(cases=cases), f)
        r = tlc.run('HConcJudge', env=dict(VCASES=p), workers=workers, mem='6g', check=True, cfg_text='INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n')
        found = {int(x) for x in re.findall(r'^"?FOUND (\d+)', r.out, re.M)}
        return [i for i in range(len(cases)) if i + 1 not in found], r.distinct
    finally:
        shutil.rmtree(d, ignore_errors=True)
