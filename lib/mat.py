"""Records histories of savemat and loadmat in a directory: cases for spec/HSaveJudge.tla."""
import json
import os
import random
import shutil
import sys
import tempfile
import types

import data
import gen
import store
import terms

NAMES = ['x', 'x.mat', 'x', 'y', 'y.h5', 'x.mat.mat', 'z.MAT', 'é.mat', '.mat', 'mat', 'xmat', 'y.mat ', 'x.ma']
NODISP = dict(n=0, nm=[], app=False, args=False, kw=False, ret=False)
REFS = store.comps_of('/#refs#')


class Used:
    """A marshaller collection that tells whether it was used."""

    def __init__(self, h):
        self.n = 0
        outer = self

        class Watched(h.MarshallerCollection):
            def get_marshaller_for_type(self, *a, **k):
                outer.n += 1
                return super().get_marshaller_for_type(*a, **k)

            def get_marshaller_for_type_string(self, *a, **k):
                outer.n += 1
                return super().get_marshaller_for_type_string(*a, **k)

            def get_marshaller_for_matlab_class(self, *a, **k):
                outer.n += 1
                return super().get_marshaller_for_matlab_class(*a, **k)
        self.coll = Watched(load_plugins=True, lazy_loading=True)


class SciPy:
    """A stand-in for SciPy (or its absence)."""

    def __init__(self, present):
        self.calls = []
        io = types.ModuleType('scipy.io')
        self.ret = object()

        def savemat(*a, **k):
            self.calls.append((a, k))

        def loadmat(*a, **k):
            self.calls.append((a, k))
            return self.ret
        io.savemat, io.loadmat = savemat, loadmat
        sp = types.ModuleType('scipy')
        sp.io = io
        self.mods = {'scipy': sp, 'scipy.io': io} if present else {'scipy': None, 'scipy.io': None}

    def __enter__(self):
        self.old = {m: sys.modules.get(m, self) for m in self.mods}
        sys.modules.update(self.mods)
        return self

    def __exit__(self, *a):
        for m, x in self.old.items():
            if x is self:
                sys.modules.pop(m, None)
            else:
                sys.modules[m] = x


class Rec(store.Recorder):
    def __init__(self, d, mfn):
        super().__init__(None, mfn)
        self.d = d
        self.keylist, self.keyterms = [], []
        self.hung = False
        self.coll = Used(self.h)

    def key(self, p, t):
        for i, q in enumerate(self.keylist):
            if q == p and type(q) is type(p) or (q == p and hash(q) == hash(p)):
                return i + 1
        self.keylist.append(p)
        self.keyterms.append(dict(str=isinstance(p, str), q=t))
        return len(self.keylist)

    def files(self):
        return [dict(nm=terms.cps(n), o=self.look(os.path.join(self.d, n))) for n in sorted(os.listdir(self.d))]

    def go(self, e, call, disp=None):
        e['st'], e['er'] = 'ok', []
        e['pre'] = self.here
        try:
            with store.Limit():
                call()
        except BaseException as x:
            e['st'], e['er'], e['msg'] = 'err', store.classes(x), str(x)[:150]
            self.hung = 'Hang' in e['er']
        e['post'] = self.here = self.files()
        self.ev.append(e)
        return e

    def begin(self):
        self.none = self.look(os.path.join(self.d, 'there/is/none'))
        self.here = self.files()

    def save(self, name, app, items, o, extra, scipy, fmt, bad, kwargs, omit):
        """items: [(path, term, value)]; omit: arguments left to their defaults."""
        md = {p: v for p, t, v in items}
        was = [(k, id(v)) for k, v in md.items()]
        full = os.path.join(self.d, name)
        a = dict(appendmat=app, format=fmt, oned_as=o['oned'], store_python_metadata=o['spm'], action_for_matlab_incompatible=o['act'],
                 truncate_existing=extra['trunc'], truncate_invalid_matlab=extra['tinv'])
        if extra['coll']:
            a['marshaller_collection'] = self.coll.coll
        for k in omit:
            a.pop(k)
        a.update(kwargs)
        fresh = [self.alone(v, o) for p, t, v in items]
        e = dict(op='save', nm=terms.cps(name), app=app, qs=[t for p, t, v in items], vals=[terms.term(v) for p, t, v in items],
                 fresh=fresh, frefs=REFS, a=dict(wr=True, trunc=extra['trunc'], tinv=extra['tinv'], o=self.opt(o), refs=REFS, bad=''),
                 bad=bad, fmt=fmt, scipy=scipy, disp=NODISP, coll=extra['coll'], used=False)
        n = self.coll.n
        with SciPy(scipy) as sp:
            self.go(e, lambda: self.h.savemat(full if bad != 'TypeError' else 5, md, **a))
        e['used'] = self.coll.n > n
        e['same'] = was == [(k, id(v)) for k, v in md.items()]
        if sp.calls:
            (ar, kw) = sp.calls[0]
            want = {k: v for k, v in a.items() if k in ('appendmat', 'format', 'oned_as') or k in kwargs}
            want.setdefault('appendmat', True)
            want.setdefault('oned_as', 'row')
            ar = list(ar) + [kw.pop(k) for k in ('file_name', 'mdict') if k in kw]
            got = ar[0] if ar else ''
            e['disp'] = dict(n=len(sp.calls), nm=terms.cps(os.path.relpath(got, self.d)) if isinstance(got, str) else [], app=bool(kw.get('appendmat')),
                             args=len(ar) == 2 and ar[1] is md, kw=kw == want, ret=True)
        return e

    def load(self, name, app, o, before, asked, use, scipy, kwargs, appdef):
        """before: [(key, term)] or None; asked: [(path, term)] or None; use: 'options', 'collection' or ''."""
        full = os.path.join(self.d, name)
        a = dict(kwargs)
        if not appdef:
            a['appendmat'] = app
        md = None
        marks = {}
        if before is not None:
            md = {p: object() for p, t in before}
            marks = dict(md)
            a['mdict'] = md
        if asked is not None:
            a['variable_names'] = [p for p, t in asked]
        if 'options' in use:
            a['options'] = self.h.Options(**gen.options_kwargs(o))
        if 'collection' in use:
            a['marshaller_collection'] = self.coll.coll
        e = dict(op='load', nm=terms.cps(name), app=app, a=dict(o=self.opt(o), refs=REFS, wr=False, trunc=False, tinv=False, bad=''),
                 before=sorted({self.key(p, t) for p, t in before or []}), all=asked is None, ks=[self.key(p, t) for p, t in asked or []],
                 given=before is not None, options='options' in use, coll='collection' in use, used=False, scipy=scipy, disp=NODISP, res=[], same=False)
        n = self.coll.n
        out = []
        with SciPy(scipy) as sp:
            self.go(e, lambda: out.append(self.h.loadmat(full, **a)))
        e['used'] = self.coll.n > n
        if out and out[0] is not sp.ret:
            e['same'] = out[0] is md
        r = out[0] if out and isinstance(out[0], dict) else md or {}
        for k, v in r.items():
            kept = k in marks and v is marks[k]
            e['res'].append(dict(k=self.key(k, dict(f='text', u=terms.cps(k)) if isinstance(k, str) else dict(f='bad')), kept=kept, v=store.data.NONE if kept else terms.term(v)))
        if sp.calls:
            (ar, kw) = sp.calls[0]
            ar = list(ar)
            for k in ('file_name', 'mdict'):
                if k in kw:
                    ar.append(kw.pop(k))
            rest = {k: v for k, v in kw.items() if k not in ('appendmat', 'variable_names')}
            got = ar[0] if ar else ''
            e['disp'] = dict(n=len(sp.calls), nm=terms.cps(os.path.relpath(got, self.d)) if isinstance(got, str) else [], app=bool(kw.get('appendmat')),
                             args=len(ar) == 2 and ar[1] is md and kw.get('variable_names') is a.get('variable_names'), kw=rest == kwargs,
                             ret=bool(out) and out[0] is sp.ret)
        return e

    def case(self, refs0):
        slim = ('op', 'st', 'er', 'nm', 'app', 'pre', 'post', 'qs', 'vals', 'fresh', 'frefs', 'a', 'bad', 'fmt', 'scipy', 'disp', 'coll', 'used', 'same',
                'res', 'before', 'all', 'ks', 'given', 'options')
        obs = [{k: v for k, v in o.items() if k != 'why'} for o in self.obs]
        return dict(obs=obs, none=self.none, o=self.opts, keys=self.keyterms, ev=[{k: e[k] for k in slim if k in e} for e in self.ev],
                    refs0=[store.comps_of(x) for x in refs0])


class History(store.History):
    def __init__(self, r, d, mfn):
        super().__init__(r, None, mfn, dict())
        self.rec = Rec(d, mfn)
        self.g = gen.Gen(r, mat=r.random() < 0.6, maxdepth=r.choice([1, 1, 2]))
        self.names = r.sample(NAMES, 4) + ['x', 'x']

    def key(self, near=0.6):
        """A path that can be a key."""
        while True:
            p, t = self.path(near)
            if not isinstance(p, list):
                return p, t

    def keys(self, n, near=0.6, bad=0.06):
        r = self.r
        ps = [self.key(near) if r.random() < 0.75 else self.top() for _ in range(n)]
        if r.random() < bad:
            ps.insert(r.randint(0, len(ps)), r.choice(store.BADPATHS + [self.refspath()]))
        return self.hashable(ps)

    def top(self):
        c = self.comps(0.7)[0]
        return store.escape(c), dict(f='text', u=terms.cps(store.escape(c)))

    def save(self):
        r = self.r
        o = gen.set_matlab(gen.base_options())
        z = r.random()
        o['oned'] = r.choice(['row', 'column'])
        o['spm'] = r.random() < 0.6
        o['act'] = r.choice(['ignore', 'discard', 'error', 'error'])
        omit = []
        for k, f, dv in (('oned_as', 'oned', 'row'), ('store_python_metadata', 'spm', True), ('action_for_matlab_incompatible', 'act', 'error')):
            if r.random() < 0.25:
                o[f] = dv
                omit.append(k)
        extra = dict(trunc=r.random() < 0.15, tinv=r.random() < 0.3, coll=r.random() < 0.3)
        for k, f in (('truncate_existing', 'trunc'), ('truncate_invalid_matlab', 'tinv')):
            if not extra[f] and r.random() < 0.5:
                omit.append(k)
        app = r.random() < 0.65
        if app and r.random() < 0.6:
            omit.append('appendmat')
        fmt = '7.3' if r.random() < 0.92 else r.choice(['4', '5'])
        if fmt == '7.3' and r.random() < 0.7:
            omit.append('format')
        ps = self.keys(r.choice([0, 1, 1, 2, 2, 3]))
        if r.random() < 0.04:
            ps = ps[:1] + [('/', dict(f='text', u=[47]))]
            ps = self.hashable(ps)
        items = [(p, t, self.value() if r.random() < 0.9 else store.incompatible(r)) for p, t in ps]
        if r.random() < 0.05:
            items = [(p, t, self.g.dictlike(0)) if p == '/' else (p, t, v) for p, t, v in items]
        bad, kwargs = '', {}
        if r.random() < 0.06 and fmt == '7.3':
            bad, kwargs = r.choice([('ValueError', dict(format='v')), ('TypeError', {}), ('TypeError', dict(truncate_existing=None)),
                                    ('TypeError', dict(truncate_invalid_matlab='x'))])
        elif r.random() < 0.05 and fmt == '7.3':
            # values an option cannot have are not taken
            k, f, v, dv = r.choice([('oned_as', 'oned', 'rows', 'row'), ('action_for_matlab_incompatible', 'act', 'no', 'error'), ('store_python_metadata', 'spm', 1, True)])
            o[f] = dv
            kwargs = {k: v}
        elif fmt != '7.3' and r.random() < 0.5:
            kwargs = dict(long_field_names=True, do_compression=False)
        self.rec.save(r.choice(self.names), app, items, o, extra, r.random() < 0.5, fmt, bad, kwargs, omit)

    def load(self):
        r = self.r
        use = r.choice(['', '', '', 'collection', 'options', 'options', 'options collection'])
        o = gen.set_matlab(gen.base_options())
        o['cn'] = [[114], [105]]
        if 'options' in use:
            o = gen.gen_options(r, r.choice(['any', 'matlab', 'plain']))
            o['rev'], o['refs'] = True, '/#refs#'
            o['ssfe'] = o['ssfe'] and o['mc']
        o['cn'] = [[ord(c) for c in n] for n in ('real', 'imag')]
        before = None if r.random() < 0.5 else self.hashable([self.top() if r.random() < 0.5 else self.key(0.8) for _ in range(r.choice([0, 1, 2, 3]))])
        asked = None
        if r.random() < 0.5:
            asked = self.keys(r.choice([0, 1, 2, 3, 4]), 0.9, 0.2)
            if asked and r.random() < 0.1:
                asked.append(r.choice(asked))
            if r.random() < 0.05:
                asked.append(('/', dict(f='text', u=[47])))
        app = r.random() < 0.65
        kwargs = dict(struct_as_record=False, chars_as_strings=True) if r.random() < 0.1 else {}
        self.rec.load(r.choice(self.names), app, o, before, asked, use, r.random() < 0.5, kwargs, app and r.random() < 0.6)

    def run(self, n):
        r, rec = self.r, self.rec
        refs0 = []
        if r.random() < 0.25:
            name = r.choice(self.names)
            if store.foreign_file(r, os.path.join(rec.d, name if name.endswith('.mat') else name + r.choice(['', '.mat', '.mat']))) == 'refs':
                refs0 = ['/#refs#']
            self.used += [('a',), ('b',), ('n',), ('b', 'c')]
        rec.begin()
        for _ in range(n):
            if r.random() < 0.5:
                self.save()
            else:
                self.load()
            if rec.hung:
                break
        return rec, refs0


def summary(rec):
    tx = lambda u: ''.join(map(chr, u))
    return [dict(op=e['op'], file=tx(e['nm']), app=e['app'], paths=[store.show(q) for q in e.get('qs', [])], st=e['st'], er=e['er'][:1], msg=e.get('msg', ''),
                 asked=[str(rec.keylist[k - 1]) for k in e['ks']] if not e.get('all', True) else None) for e in rec.ev]


def chunk(seed, n, profname, steps, scratch):
    """n recorded histories: [(case, summary)]"""
    r = random.Random(seed)
    base = tempfile.mkdtemp(prefix='hvm', dir=scratch)
    out = []
    for i in range(n):
        random.seed(r.random())
        d = os.path.join(base, 'd%d' % i)
        os.mkdir(d)
        rec, refs0 = History(random.Random(r.random()), d, os.path.join(base, 'm.h5')).run(r.choice(steps))
        out.append((rec.case(refs0), summary(rec)))
        shutil.rmtree(d, ignore_errors=True)
        if rec.hung:
            break
    shutil.rmtree(base, ignore_errors=True)
    return out
