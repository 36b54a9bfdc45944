"""Checks of histories of operations on files: C05, C06, C08, C09, C16, C19."""
import base
import hist
import mat
import store
import tlc


def collect(ck, prof, n, steps, timeout=400):
    k = base.NPROC * 2
    per = -(-n // k)
    out = []
    for j, (ok, r) in enumerate(base.pmap(store.chunk, [('%s/%s/%s/%d' % (ck.seed, ck.prop, prof, j), per, prof, steps, ck.dir) for j in range(k)], timeout=timeout)):
        if ok:
            out.extend(r)
        else:
            ck.violation(['process:' + r], dict(profile=prof, chunk=j))
    return out


def judge(ck, recs, keep, module='HStoreJudge', inv='Inv'):
    cases = [c for c, s in recs]
    fails, states = tlc.judge(module, cases, workers=base.NPROC, mem='6g', inv=inv)
    ck.cov['states'] += states
    ck.cov['transitions'] += sum(len(c['ev']) for c in cases)
    ck.cov['events'] = ck.cov.get('events', 0) + sum(len(c['ev']) for c in cases)
    ck.traces(len(cases))
    errors = fails.pop('errors', [])
    other = {}
    for k, cl in sorted(fails.items()):
        c, s = recs[k - 1]
        bad = []
        for x in cl:
            name, _, at = x.partition('@')
            i = int(at or 0)
            if keep(name, c['ev'][i - 1] if at else None, i, c):
                bad.append(x)
            else:
                other[name] = other.get(name, 0) + 1
        if bad:
            ck.violation(bad, dict(history=s, case=c))
    if errors:
        ck.cov['undefined'] = errors[:3]
    if other:
        ck.cov['clauses_of_other_properties'] = other
    for c, s in recs[:2]:
        ck.sample(s)


def first_error(c):
    for i, e in enumerate(c['ev']):
        if e['st'] == 'err' and e['op'] in ('write', 'writes', 'setitem', 'fault', 'update', 'setdefault', 'owrite'):
            return i + 1
    return 10 ** 9


ALWAYS = ('hang', 'undefined')


def exhaustive(ck, prop, keep, depth, cap):
    """Histories generated by the model MCStore, gone through by the real code: all of them, or cap of them."""
    r, hs = hist.generate(prop, depth, workers=base.NPROC)
    ck.model(r, 'MCStore %s, all histories of %d operations' % (prop, depth))
    n = len(hs)
    if n > cap:
        hs = ck.rng('histories').sample(hs, cap)
    ck.cov.setdefault('generated_histories', []).append('%s: %d of %d replayed' % (prop, len(hs), n))
    k = base.NPROC * 4
    recs = []
    for ok, x in base.pmap(hist.replay, [(prop, hs[j::k], ck.dir) for j in range(k)], timeout=400):
        if ok:
            recs.extend(x)
        else:
            ck.violation(['process:' + x], dict(profile=prop))
    judge(ck, recs, keep)


def random_and_exhaustive(prof, prop, keep, n=(1100, 14000), steps=(5, 8, 11), more=()):
    def run(ck):
        judge(ck, collect(ck, prof, ck.n(*n), list(steps)), keep)
        exhaustive(ck, prop, keep, ck.n(3, 4), ck.n(900, 8000))
        for p, cap in more:
            exhaustive(ck, p, keep, ck.n(3, 4), ck.n(*cap))
    return run


c05 = random_and_exhaustive('overwrite', 'C05', lambda x, e, i, c: x.startswith(('target:', 'read:value', 'read:outcome', 'outcome:') + ALWAYS))
c06 = random_and_exhaustive('frame', 'C06', lambda x, e, i, c: x.startswith(('frame:', 'refs:', 'rejected-modified:', 'read:modified') + ALWAYS) or x.endswith('-modified'))
c08 = random_and_exhaustive('mapping', 'C08', lambda x, e, i, c: x.startswith(('map:', 'del:', 'read:', 'target:missing', 'target:extra') + ALWAYS), steps=(6, 9, 12))
c09 = random_and_exhaustive('life', 'C09', lambda x, e, i, c: x.startswith(('open:', 'close:', 'life:') + ALWAYS) or x.endswith((':closed', ':readonly')), steps=(6, 9, 12))
c16 = random_and_exhaustive('refs', 'C16', lambda x, e, i, c: x.startswith(('ref:', 'refs:', 'target:ref', 'fresh:ref') + ALWAYS) or x.endswith(':refs'))
c19 = random_and_exhaustive('faults', 'C19', lambda x, e, i, c: i >= first_error(c) and not x.startswith('fresh:'), more=[('faults', (700, 6000))])


def c18(ck):
    ck.start_model('MCSave', 'CONSTANT Depth = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Ending Loaded Absent\n' % ck.n(3, 4),
                   'MCSave', mem='4g')
    recs = []
    k = base.NPROC * 2
    for j, (ok, r) in enumerate(base.pmap(mat.chunk, [('%s/%s/%d' % (ck.seed, ck.prop, j), ck.n(2200, 24000) // k, '', [4, 6, 8], ck.dir) for j in range(k)], timeout=500)):
        if ok:
            recs.extend(r)
        else:
            ck.violation(['process:' + r], dict(chunk=j))
    judge(ck, recs, lambda x, e, i, c: True, 'HSaveJudge', 'InvDir')


CHECKS = dict(C05=c05, C06=c06, C08=c08, C09=c09, C16=c16, C18=c18, C19=c19)
