"""Runs TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


class Result:
    def __init__(self, out, rc, wall=0):
        self.out = out
        self.rc = rc
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0


def run(module, cfg=None, env=None, workers=4, extra=(), timeout=800, mem='3g', check=False, cfg_text=None):
    """Runs TLC on spec/<module>.tla; returns a Result."""
    work = tempfile.mkdtemp(prefix='tlc')
    try:
        if cfg_text is not None:
            cfgp = os.path.join(work, 'm.cfg')
            with open(cfgp, 'w') as f:
                f.write(cfg_text)
        else:
            cfgp = os.path.join(SPEC, cfg or module + '.cfg')
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4', '-Xss64m', '-Xmx' + mem, '-cp', JARS, 'tlc2.TLC', '-metadir', work, '-noGenerateSpecTE',
               '-workers', str(workers), '-config', cfgp] + list(extra) + [os.path.join(SPEC, module + '.tla')]
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode('utf-8', 'replace')
        r = Result(out, p.returncode)
        if check and p.returncode != 0:
            raise TLCError(out[-3000:])
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


_verd = re.compile(r'^"?VERDICT (\d+) (.*?)"?$', re.M)


def batches(cases, batch, size):
    """Ranges of cases: not too many, nor too long together as JSON."""
    at, total = 0, 0
    for i, c in enumerate(cases):
        n = len(json.dumps(c))
        if i > at and (i - at >= batch or total + n > size):
            yield at, i
            at, total = i, 0
        total += n
    if at < len(cases):
        yield at, len(cases)


def judge(module, cases, batch=30000, size=60e6, **kw):
    """Has TLC judge cases, not too many at a time; see judge_some.

    Those that fail are judged once more by a TLC of one thread with more
    memory (at most 300 of them): only what fails again does."""
    fails, states = {}, 0
    for a, b in batches(cases, batch, size):
        f, n = judge_some(module, cases[a:b], **kw)
        f.pop('errors', None)
        fails.update({i + a: c for i, c in f.items()})
        states += n
    out = dict(errors=[])
    ks = sorted(fails)
    if ks:
        f, n = judge_some(module, [cases[k - 1] for k in ks[:300]], **dict(kw, workers=1, mem='8g'))
        out['errors'] = f.pop('errors', [])
        out.update({ks[i - 1]: c for i, c in f.items()})
        if len(out) == 301:
            out.update({k: fails[k] for k in ks[300:]})
    return out, states


def judge_some(module, cases, workers=4, timeout=800, mem='4g', env=None, inv='Inv'):
    """Has TLC judge each case: returns ({index: [clauses]}, states).

    The module has the constant operator Judge; its invariant prints
    "VERDICT i clauses" for each case i (1-based) that fails.  A case
    on which the specification cannot be evaluated at all fails too."""
    fails = {}
    skip = []
    states = 0
    if not cases:
        return fails, 0
    d = tempfile.mkdtemp(prefix='cases')
    try:
        p = os.path.join(d, 'cases.json')
        while True:
            with open(p, 'w') as f:
                json.dump(dict(cases=cases, skip=skip), f)
            e = dict(env or {})
            e['VCASES'] = p
            r = run(module, env=e, workers=workers, timeout=timeout, mem=mem,
                    cfg_text='INIT Init\nNEXT Next\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n' % inv)
            fails.update({int(m.group(1)): m.group(2).split() for m in _verd.finditer(r.out)})
            states = max(states, r.distinct)
            if r.rc == 0:
                return fails, r.distinct
            ms = re.findall(r'^(?:/\\ )?case = (\d+)', r.out, re.M)
            if not ms:
                ms = re.findall(r'"CASE", (\d+)', r.out)
            if not ms or len(skip) > 20:
                raise TLCError(r.out[r.out.find("Starting..."):][:1500])
            i = int(ms[-1])
            if i in skip:
                raise TLCError(r.out[r.out.find("Starting..."):][:1500])
            skip.append(i)
            err = re.search(r'Error: (.*(?:\n.*){0,6})', r.out)
            fails[i] = ['undefined']
            fails.setdefault('errors', []).append(err.group(0)[:600] if err else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)
