"""Checks of names, paths and text: C13, C14, C20."""
import itertools
import pathlib
import random
import warnings

import base
import c_store
import data
import store
import terms
import tlc

import numpy as np

INV = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS '


def run_judge(ck, cases, module, keep=lambda x: True, show=lambda c: c, batch=30000):
    fails, states = tlc.judge(module, cases, batch=batch, workers=base.NPROC, mem='6g')
    ck.cov['states'] += states
    ck.cov['transitions'] += max(states - 1, 0)
    ck.traces(len(cases))
    errors = fails.pop('errors', [])
    for i, cl in sorted(fails.items()):
        bad = [x for x in cl if keep(x)]
        if bad:
            ck.violation(bad, show(cases[i - 1]))
    if errors:
        ck.cov['undefined'] = errors[:3]
    for c in cases[:2] + cases[len(cases) // 2:][:2]:
        ck.sample(c)


def gather(ck, fn, argss, timeout=400):
    out = []
    for j, (ok, r) in enumerate(base.pmap(fn, argss, timeout=timeout)):
        if ok:
            out.extend(r)
        else:
            ck.violation(['process:' + r], dict(chunk=j))
    return out


def call(fn, arg):
    try:
        return dict(st='ok', er=[], out=fn(arg))
    except Exception as e:
        return dict(st='err', er=store.classes(e), out='')


# ---------------------------------------------------------------------- C13

ESC = ['\0', '.', '/', '\\', 'x', '2', 'f', 'é', 'a']
UNESC = ['\\', 'x', 'u', 'U', '0', 'F', 'g', '/', '\\x2f', '\\\\']
WILD = [chr(c) for c in list(range(0, 130)) + [0x85, 0xa0, 0xff, 0x100, 0x2028, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xfffd,
                                              0xffff, 0x10000, 0x1f600, 0x10ffff]]
PIECES = ['\\\\', '\\', '\\x', '\\x2f', '\\x2F', '\\x5c', '\\x5C', '\\x00', '\\x2e', '\\u', '\\u002f', '\\u00e9', '\\uD800', '\\udc00', '\\u005c', '\\U', '\\U0000002f',
          '\\U0010ffff', '\\U0010FFFF', '\\U00110000', '\\Uffffffff', '\\U0000005c', '\\X2f', '\\a', '\\n', '\\N', '\\0', '\\/', '\\.', 'x2f', 'u002f', '..', '.', '/', '\0', 'a', 'é', 'g',
          '\\xg0', '\\x0g', '\\u12', '\\u123g', '\\U1234567', '\\x２０', '\\u٠٠٢f', '\\x 2', '\\x+2', '\\x-1', '\\x_2', '\\x2_', '\\u0x2f', '\n', '\\\n']


def texts13(r, n, fn):
    """The strings tried: all short ones of special characters, and random ones."""
    al = ESC if fn == 'escape' else UNESC
    for k in range(0, 5 if fn == 'escape' else 5):
        for t in itertools.product(al, repeat=k):
            yield ''.join(t)
    for p in PIECES:
        for q in PIECES:
            yield p + q
    for c in WILD:
        for p in ('', '.', 'a', '\\', '\\x', '\\x2', '\\u002'):
            yield p + c
            yield c + p
            yield p + c + 'f'
    for _ in range(n):
        k = r.choice([2, 3, 4, 6, 10, 40])
        z = r.random()
        if z < 0.5:
            yield ''.join(r.choice(PIECES) for _ in range(k))
        elif z < 0.8:
            yield ''.join(r.choice(WILD) for _ in range(k))
        else:
            yield ''.join(chr(r.choice([r.randrange(128), r.randrange(0x3000), r.randrange(0x110000)])) for _ in range(k))


NOTTEXT = [None, 5, 1.5, ('a',), ['a'], bytearray(b'a'), memoryview(b'a'), pathlib.PurePosixPath('a'), True, {'a': 1}, object()]
BADBYTES = [b'\xff', b'a\xc3', b'\x80', b'\xed\xa0\x80', b'\xc0\xaf', b'\xf4\x90\x80\x80', b'\\x2f\xe9', b'\xf8\x88\x80\x80\x80']


def chunk13(seed, k, j, n):
    data.lib()
    from hdf5storage.pathesc import escape_path, unescape_path
    r = random.Random(seed)
    out = []
    for fn, f in (('escape', escape_path), ('unescape', unescape_path)):
        for i, t in enumerate(texts13(r, n, fn)):
            if i % k != j and i < 20000:
                continue
            if r.random() < 0.15:
                try:
                    arg = t.encode()
                    q = dict(f='bytes', b=list(arg))
                except UnicodeEncodeError:
                    arg, q = t, dict(f='text', u=terms.cps(t))
            else:
                arg, q = t, dict(f='text', u=terms.cps(t))
            if r.random() < 0.02:
                arg = np.str_(arg) if isinstance(arg, str) else np.bytes_(arg)
                q = dict(f='text', u=terms.cps(arg)) if isinstance(arg, str) else dict(f='bytes', b=list(arg))
            out.append(case13(fn, f, arg, q))
        if j == 0:
            for x in NOTTEXT:
                out.append(case13(fn, f, x, dict(f='bad')))
            for b in BADBYTES:
                out.append(case13(fn, f, b, dict(f='bytes', b=list(b))))
        # what escaping gives can be unescaped, by the functions themselves
        if fn == 'unescape':
            for _ in range(n // 4):
                t = ''.join(r.choice(WILD) for _ in range(r.choice([1, 2, 3, 5, 9])))
                e = call(escape_path, t)
                if e['st'] == 'ok':
                    c = case13('unescape', f, e['out'], dict(f='text', u=terms.cps(e['out'])))
                    out.append(c)
    return out


def case13(fn, f, arg, q):
    c = call(f, arg)
    o = c['out']
    return dict(fn=fn, q=q, st=c['st'], er=c['er'], out=terms.cps(o) if type(o) is str else [-1], grp=[], tgt=[])


def c13(ck):
    ck.start_model('MCPath', 'CONSTANTS Part = "escape" Bound = %d\n' % ck.n(5, 6) + INV + 'Lossless Safe\n', 'escaping of all short names')
    ck.start_model('MCPath', 'CONSTANTS Part = "tokens" Bound = %d\n' % ck.n(3, 4) + INV + 'Decodes Refuses\n', 'unescaping of all sequences of escapes')
    k = base.NPROC * 2
    cases = gather(ck, chunk13, [('%s/C13/%d' % (ck.seed, j), k, j, ck.n(1200, 8000)) for j in range(k)])
    run_judge(ck, cases, 'HPathJudge', lambda x: x.startswith(('escape:', 'unescape:', 'undefined')))


# ---------------------------------------------------------------------- C14

PATHAL = ['.', '/', '\\', 'a', '..', '\0', 'é']
COMPS = ['a', 'b', '.', '..', '...', '.h', 'a.', '/', 'a/b', '/a', 'a/', '\\', '\\\\', '\\x2f', '\\x2e', '\0', 'a\0b', '', ' ', 'é', '日本', '\U0001f600', '\n', '*', '~', 'C:', 'a' * 300,
         '\ud800', '\\u', '..\\', '//', './', '../a']


def as_pure(r, t):
    return r.choice([pathlib.PurePosixPath, pathlib.PosixPath])(t)


def some_path(r):
    """A path in some form and its term."""
    z = r.random()
    if z < 0.4:
        t = ''.join(r.choice(PATHAL + ['/', 'b', '\\x2f', '\\\\', '/../', '/./', '//']) for _ in range(r.choice([1, 2, 3, 5, 8])))
        return text_form(r, t)
    n = r.choice([0, 1, 1, 2, 2, 3, 4])
    cs, parts = [], []
    undec = bad = False
    for _ in range(n):
        c = r.choice(COMPS)
        y = r.random()
        if y < 0.25:
            try:
                parts.append(c.encode())
            except UnicodeEncodeError:
                parts.append(c)
        elif y < 0.4 and '\0' not in c:
            p = r.choice([pathlib.PurePosixPath, pathlib.PosixPath, pathlib.PureWindowsPath])(c)
            c = str(p)
            parts.append(p)
        elif y < 0.44:
            parts.append(r.choice([5, None, 1.5, ('a',), bytearray(b'a'), ['a']]))
            bad = True
        elif y < 0.47:
            parts.append(r.choice(BADBYTES))
            undec = True
        elif y < 0.5:
            parts.append(np.str_(c))
        else:
            parts.append(c)
        cs.append(terms.cps(c))
    p = r.choice([tuple, list])(parts)
    if n == 0 and r.random() < 0.7:
        return r.choice([(5, dict(f='bad')), (None, dict(f='bad')), (1.5, dict(f='bad')), ({'a'}, dict(f='bad')), ({'a': 1}, dict(f='bad')), (iter('ab'), dict(f='bad')), (object(), dict(f='bad'))])
    if bad and undec:
        return some_path(r)
    return p, dict(f='bad') if bad else dict(f='undec') if undec else dict(f='sep', cs=cs)


def text_form(r, t):
    z = r.random()
    q = dict(f='text', u=terms.cps(t))
    if z < 0.45:
        return (np.str_(t) if r.random() < 0.1 else t), q
    if z < 0.75:
        b = t.encode()
        if r.random() < 0.1:
            b += r.choice(BADBYTES)
        return b, dict(f='bytes', b=list(b))
    return as_pure(r, t), q


def chunk14(seed, k, j, n):
    data.lib()
    from hdf5storage.pathesc import process_path
    r = random.Random(seed)
    out = []

    def add(p, q):
        c = call(process_path, p)
        o = c['out']
        good = isinstance(o, tuple) and len(o) == 2 and all(type(x) is str for x in o)
        out.append(dict(fn='path', q=q, st=c['st'], er=c['er'], out=[], grp=terms.cps(o[0]) if good else [-1], tgt=terms.cps(o[1]) if good else [-1]))
    i = 0
    for m in range(0, 6):
        for t in itertools.product(PATHAL[:4] if m > 4 else PATHAL, repeat=m):
            i += 1
            if i % k == j:
                add(*text_form(r, ''.join(t)))
    for a in COMPS:
        for b in [None] + COMPS:
            i += 1
            if i % k == j:
                cs = [a] if b is None else [a, b]
                add(r.choice([tuple, list])(cs), dict(f='sep', cs=[terms.cps(c) for c in cs]))
    # Windows paths: without drive they have the parts of the path with slashes
    for t in ('a\\b', 'a/b\\c', '..\\a', '.\\a\\.\\b', '\\a\\b', '/a', 'c:\\a\\b', 'c:/x', 'a\\..\\b', '', '.', '\\', 'c:\\'):
        add(pathlib.PureWindowsPath(t), dict(f='text', u=terms.cps(t.replace('c:', '').replace('\\', '/'))))
    for _ in range(n):
        add(*some_path(r))
    return out


def c14(ck):
    ck.start_model('MCPath', 'CONSTANTS Part = "escape" Bound = %d\n' % ck.n(4, 5) + INV + 'Literal\n', 'literal components')
    ck.start_model('MCPath', 'CONSTANTS Part = "paths" Bound = %d\n' % ck.n(6, 8) + INV + 'Redundant\n', 'redundant forms of all short paths')
    k = base.NPROC * 2
    cases = gather(ck, chunk14, [('%s/C14/%d' % (ck.seed, j), k, j, ck.n(1200, 8000)) for j in range(k)])
    run_judge(ck, cases, 'HPathJudge', lambda x: x.startswith(('path:', 'undefined')))
    recs = c_store.collect(ck, 'paths', ck.n(900, 10000), [6, 9, 13])
    c_store.judge(ck, recs, lambda x, e, i, c: x in ('target:missing', 'target:extra', 'reject:path', 'reject-error:path', 'rejected-modified:path')
                  or x.startswith(('frame:', 'outcome:', 'error:', 'read:', 'map:in', 'map:get', 'map:value', 'map:outcome', 'map:del', 'map:pop', 'map:setdefault', 'del:')
                                  + c_store.ALWAYS))


# ---------------------------------------------------------------------- C20

CPS = [0x41, 0x61, 0x7a, 0x30, 0x20, 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x17f, 0x7ff, 0x800, 0x4e00, 0x3100, 0xd7ff, 0xe000, 0xf000, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x20000,
       0x2fe00, 0x10ff00, 0x10ffff]
RARE = [0, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xfeff]


def text20(r, rare=0.08, n=None):
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 8]) if n is None else n
    z = r.random()
    al = CPS[:6] if z < 0.3 else CPS[:10] if z < 0.45 else CPS
    return ''.join(chr(r.choice(RARE) if r.random() < rare else r.choice(al)) for _ in range(n))


SHAPES = [(), (1,), (2,), (3,), (4,), (6,), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3, 2), (0,), (0, 2), (2, 0), (1, 1, 1), (2, 1, 3)]


def strange(r, a):
    """The array with the same elements, laid out in another way."""
    z = r.random()
    if z < 0.5 or a.size == 0:
        return a
    if z < 0.6:
        return np.asfortranarray(a)
    if z < 0.7 and a.ndim:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if z < 0.8 and a.ndim:
        return np.array(a[::-1])[::-1]
    if z < 0.9:
        b = a.copy()
        b.flags.writeable = False
        return b
    b = np.zeros((3,) + a.shape, a.dtype)
    b[1] = a
    return b[1]


def valid_units(r, bits, n):
    """n code units, of text if that is possible."""
    out = []
    while len(out) < n:
        t = text20(r, 0.02, 1).encode({8: 'utf-8', 16: 'utf-16-le', 32: 'utf-32-le'}[bits], 'surrogatepass')
        u = np.frombuffer(t, {8: 'u1', 16: '<u2', 32: '<u4'}[bits])
        if len(out) + len(u) <= n:
            out.extend(int(x) for x in u)
        elif r.random() < 0.3:
            out.append(r.choice([0, 97]))
    return out


def units20(r):
    """An array of code units and a length for its rows."""
    bits = r.choice([8, 16, 16, 32, 32])
    dt = np.dtype('u%d' % (bits // 8))
    if r.random() < 0.3:
        dt = dt.newbyteorder()
    sh = r.choice(SHAPES)
    ln = 0
    if sh and r.random() < 0.85 and 0 not in sh:
        per = r.choice([1, 2, 3, 4, 5])
        ln = r.choice([per, per, per, 0])
        sh = sh[:-1] + (sh[-1] * per,)
        step = per if ln else sh[-1]
    else:
        step = sh[-1] if sh else 1
    n = int(np.prod(sh))
    xs = []
    while len(xs) < n:
        z = r.random()
        if z < 0.85:
            part = valid_units(r, bits, step)
            if r.random() < 0.3:           # padding
                part = part[:r.randrange(len(part) + 1)]
                part = part + [0] * (step - len(part))
        elif z < 0.95:
            part = [r.randrange(2 ** bits) if r.random() < 0.3 else r.choice([c for c in CPS + RARE + [0x110000, 0xffffffff, 0xc3, 0xa9, 0xe4, 0xbd, 0xa0] if c < 2 ** bits]) for _ in range(step)]
        else:
            part = [0] * step
        xs.extend(part)
    a = np.array(xs[:n], 'u8').astype(dt).reshape(sh)
    return strange(r, a), ln


def value20(r):
    z = r.random()
    if z < 0.08:
        return text20(r), 0
    if z < 0.16:
        return np.str_(text20(r)), 0
    if z < 0.3:
        b = text20(r).encode('utf-8', 'surrogatepass')
        if r.random() < 0.2:
            b = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3])))
        return r.choice([bytes, bytearray, np.bytes_])(b), 0
    if z < 0.38:
        bits = r.choice([8, 16, 32])
        c = r.choice([c for c in CPS + RARE + [0x110000, 0xffffffff, 0x80] if c < 2 ** bits])
        return np.dtype('u%d' % (bits // 8)).type(c), 0
    if z < 0.5:
        sh = r.choice(SHAPES)
        a = np.array([text20(r) for _ in range(int(np.prod(sh)))] + ['x'], dtype='U%d' % r.choice([0, 1, 8, 9]))[:-1].reshape(sh)
        if r.random() < 0.3:
            a = a.astype(a.dtype.newbyteorder())
        return strange(r, a), 0
    if z < 0.6:
        sh = r.choice(SHAPES)
        a = np.array([text20(r, 0.03).encode('utf-8', 'surrogatepass') for _ in range(int(np.prod(sh)))] + [b'x'], dtype='S%d' % r.choice([0, 1, 24, 32]))[:-1].reshape(sh)
        return strange(r, a), 0
    if z < 0.64:
        return r.choice([None, 5, 1.5, True, ['a'], ('a',), {'a': 1}, np.int32(5), np.float64(1.5), np.uint64(97), np.array([1, 2]), np.array([1.5]), np.array([97], 'u8'),
                         np.array([True]), np.array([97], 'i1'), np.array(['a'], object), np.bool_(True), object(), memoryview(b'a')]), 0
    return units20(r)


def form20(x):
    t = type(x)
    if t is str:
        return dict(k='str', u=terms.cps(x))
    if t in (bytes, bytearray):
        return dict(k='bytes', b=list(x))
    if t is np.str_:
        return dict(k='npstr', u=terms.cps(x))
    if t is np.bytes_:
        return dict(k='npbytes', b=list(x))
    if t in (np.uint8, np.uint16, np.uint32, np.uint64):
        return dict(k='uint', n=x.dtype.itemsize * 8, x=big(x))
    if t is np.ndarray:
        d = {'uint8': 'u8', 'uint16': 'u16', 'uint32': 'u32'}.get(x.dtype.name, x.dtype.kind)
        if d[0] == 'u' and d != 'u':
            return dict(k='arr', d=d, l=0, sh=list(x.shape), da=[big(e) for e in x.ravel()])
        if d in 'SU':
            k = {'S': 'b', 'U': 'u'}[d]
            return dict(k='arr', d=d, l=x.dtype.itemsize // (4 if d == 'U' else 1), sh=list(x.shape), da=[e[k] for e in terms.elements(x)])
    return dict(k='other')


def big(x):
    """TLC has 32 bit integers; all above 2^31 are the same to it."""
    return min(int(x), 2 ** 31 - 1)


def chunk20(seed, n):
    data.lib()
    warnings.simplefilter('ignore')
    import hdf5storage.utilities as u
    r = random.Random(seed)
    fns = dict(str=lambda x, n: u.convert_to_str(x), npstr=lambda x, n: u.convert_to_numpy_str(x, **({'length': n} if n else {})),
               npbytes=lambda x, n: u.convert_to_numpy_bytes(x, **({'length': n} if n else {})),
               u16=lambda x, n: u.convert_numpy_str_to_uint16(x), u32=lambda x, n: u.convert_numpy_str_to_uint32(x))
    out = []

    def add(fn, x, ln):
        v = form20(x)
        c = call(lambda y: fns[fn](y, ln), x)
        w = form20(c['out']) if c['st'] == 'ok' else dict(k='other')
        if form20(x) != v:
            w = dict(k='changed')
        out.append(dict(fn=fn, x=v, len=ln, st=c['st'], er=c['er'], v=w))
        return c['out'] if c['st'] == 'ok' else None
    for _ in range(n):
        x, ln = value20(r)
        isu = isinstance(x, np.str_) or isinstance(x, np.ndarray) and x.dtype.kind == 'U'
        fs = ['str', 'npstr', 'npbytes'] + (['u16', 'u32'] * 2 if isu else [])
        fn = r.choice(fs)
        y = add(fn, x, ln)
        # and back, as readers do
        if isinstance(y, np.ndarray) and y.size and fn in ('u16', 'u32') and isinstance(x, np.ndarray) and x.size:
            add(r.choice(['npstr', 'npstr', 'npbytes']), y, y.size // x.size)
        elif y is not None and r.random() < 0.5:
            add(r.choice(['str', 'npstr', 'npbytes']), y, 0)
    return out


def c20(ck):
    ck.start_model('MCConv', 'CONSTANTS Bound = %d\n' % ck.n(5, 6) + INV + 'Via32 Via16 ViaBytes Singles Exact\n', 'conversions of all short arrays of text')
    k = base.NPROC * 2
    cases = gather(ck, chunk20, [('%s/C20/%d' % (ck.seed, j), ck.n(2500, 9000)) for j in range(k)])
    run_judge(ck, cases, 'HConvJudge')


CHECKS = dict(C13=c13, C14=c14, C20=c20)
