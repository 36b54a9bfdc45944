"""Checks of how values are stored and read: C01, C02, C03, C04, C07, C15, C17."""
import json

import base
import c_store
import data
import foreign
import known
import tlc


def collect(ck, prof, n, timeout=400):
    """n cases of a profile, made in parallel; crashes and hangs are violations."""
    k = base.NPROC * 2
    per = -(-n // k)
    cases = []
    for j, (ok, r) in enumerate(base.pmap(data.chunk, [('%s/%s/%s/%d' % (ck.seed, ck.prop, prof, j), per, prof, ck.dir) for j in range(k)], timeout=timeout)):
        if ok:
            cases.extend(r)
        else:
            ck.violation(['process:' + r], dict(profile=prof, chunk=j))
    return cases


def judge(ck, cases, keep, rule='', module='HAllJudge'):
    """Has TLC judge cases; clauses for which keep(clause, case) are violations."""
    slim = [{k: c[k] for k in ('v', 'o', 'st', 'er', 'nd', 'rok', 'w', 'chk')} | dict(swap=bool(c.get('swap'))) for c in cases]
    fails, states = tlc.judge(module, slim, workers=base.NPROC)
    ck.cov['states'] += states
    ck.cov['transitions'] += max(states - 1, 0)
    ck.traces(len(cases))
    errors = fails.pop('errors', [])
    other = {}
    for i, cl in sorted(fails.items()):
        c = cases[i - 1]
        bad = [x for x in cl if keep(x, c)]
        if bad:
            ck.violation(bad, data.describe(c))
        for x in cl:
            if x not in bad:
                other[x] = other.get(x, 0) + 1
    if errors:
        ck.cov['undefined'] = errors[:3]
    if other:
        ck.cov['clauses_of_other_properties'] = other
    for c in cases[:2] + cases[-1:]:
        ck.sample(dict(value=c.get('src'), outcome=c['st'], options={k: c['o'][k] for k in ('spm', 'mc', 'strct', 'at2d', 'rev', 'act')}))


def enc_clause(x):
    return x.split(':')[0] in ('attr-missing', 'attr-extra', 'attr-value', 'kind', 'dtype', 'shape', 'length', 'data', 'items', 'ref', 'outcome', 'error', 'undefined')


def python_attr(x):
    return x.startswith('attr-') and x.split(':', 1)[1].startswith('Python.')


def model(ck, *parts):
    """Model checks the storage format over all small values (in the background)."""
    for part in parts if ck.quick else ('text', 'arrays', 'containers', 'dicts', 'incompatible'):
        ck.start_model('MCData', 'CONSTANTS Part = "%s" Wide = %s\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS RoundTrip Readable '
                       'MatlabForm MetadataOnlyAdds Policy KeysKept FilterForm\n' % (part, 'FALSE' if ck.quick else 'TRUE'),
                       'storage format, %s, %s options' % (part, 'some' if ck.quick else 'all'), workers=3)


def known_findings(ck):
    """Runs the listed inputs: what they give is not what was written but what the specification of reading says."""
    cs = known.cases(ck.prop)
    if not cs:
        return
    slim = [{k: c[k] for k in ('v', 'o', 'st', 'er', 'nd', 'rok', 'w', 'chk')} | dict(swap=False) for _, _, c in cs]
    fails, states = tlc.judge('HAllJudge', slim, workers=2)
    ck.cov['states'] += states
    ck.traces(len(cs))
    fails.pop('errors', None)
    told = set()
    for i, (name, text, c) in enumerate(cs, 1):
        cl = fails.get(i, [])
        other = [x for x in cl if x != 'exact' and not x.startswith('round:')]
        if other or c['st'] != 'ok':
            ck.violation(other or ['outcome'], data.describe(c))
        elif cl and name not in told:
            told.add(name)
            ck.known(text)


def overwritten(ck, prof, prefixes, n=(240, 4000)):
    """The same of what is written over something else: histories judged with HStore."""
    c_store.judge(ck, c_store.collect(ck, prof, ck.n(*n), [5, 8]), lambda x, e, i, c: x.startswith(prefixes + c_store.ALWAYS))


def c01(ck):
    model(ck, 'arrays')
    cases = collect(ck, 'round', ck.n(7000, 60000))
    judge(ck, cases, lambda x, c: x.startswith(('round:', 'undefined')))
    overwritten(ck, 'overwrite', ('read:value', 'read:outcome'))
    known_findings(ck)


def c02(ck):
    model(ck, 'text')
    cases = collect(ck, 'matlab', ck.n(7000, 60000))
    judge(ck, cases, lambda x, c: x.startswith('matlab:') or (enc_clause(x) and not python_attr(x)))
    overwritten(ck, 'overmat', ('target:',))


def c03(ck):
    model(ck, 'arrays')
    cases = collect(ck, 'form', ck.n(7000, 60000))
    judge(ck, cases, lambda x, c: enc_clause(x))
    overwritten(ck, 'overwrite', ('target:',))


def c04(ck):
    model(ck, 'containers')
    cases = collect(ck, 'nometa', ck.n(4500, 40000)) + collect(ck, 'meta', ck.n(2400, 20000))
    k = base.NPROC * 2
    for ok, r in base.pmap(foreign.chunk, [('%s/%s/foreign/%d' % (ck.seed, ck.prop, j), ck.n(300, 3000), ck.dir) for j in range(k)], timeout=400):
        if ok:
            cases.extend(r)
        else:
            ck.violation(['process:' + r], dict(profile='foreign'))
    for c in cases:
        if c.get('modified'):
            ck.violation(['read-modified-file'], data.describe(c))
    judge(ck, cases, lambda x, c: x.startswith(('decode:', 'undefined')))


def c07(ck):
    model(ck, 'incompatible')
    cases = collect(ck, 'incompatible', ck.n(7000, 40000))
    judge(ck, cases, lambda x, c: enc_clause(x) and not python_attr(x) or x.startswith('matlab:'))
    overwritten(ck, 'batches', ('rejected-modified', 'outcome:', 'target:', 'error:'))


def c15(ck):
    model(ck, 'dicts')
    cases = collect(ck, 'dicts', ck.n(7000, 40000))
    judge(ck, cases, lambda x, c: enc_clause(x) or x.startswith('round:'))
    overwritten(ck, 'overdict', ('target:', 'read:value', 'read:outcome'))


def c17(ck):
    model(ck, 'arrays')
    cases = collect(ck, 'filters', ck.n(7000, 40000))
    judge(ck, cases, lambda x, c: x.startswith(('filter:', 'round:')) or x in ('data', 'length', 'shape', 'undefined'))
    overwritten(ck, 'overwrite', ('target:filter', 'target:data', 'target:layout', 'read:value'))


CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C07=c07, C15=c15, C17=c17)
