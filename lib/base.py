"""What all checks share: parameters, evidence, verdicts, parallel execution."""
import json
import multiprocessing
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, 'evidence')
REPO = os.environ.get('HV_REPO', '/repo')     # another tree: only for developing the checks
NPROC = max(2, min(8, os.cpu_count() or 2))


def scratch_base():
    return '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []       # (clauses, replay data)
        self.models = []
        self.dir = tempfile.mkdtemp(prefix='hv' + prop, dir=scratch_base())

    @property
    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *what):
        return random.Random('%s/%s/%s' % (self.seed, self.prop, '/'.join(map(str, what))))

    def model(self, r, what):
        """Adds a finished TLC run of a model (lib.tlc.Result)."""
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        self.cov.setdefault('models', []).append('%s: %d distinct states' % (what, r.distinct))

    def start_model(self, module, cfg_text, what, workers=3, mem='3g', timeout=800):
        """Model checks the specification itself while the check goes on."""
        import threading
        import tlc
        res = {}

        def go():
            try:
                res['r'] = tlc.run(module, cfg_text=cfg_text, workers=workers, mem=mem, timeout=timeout, check=True)
            except BaseException:
                res['err'] = traceback.format_exc()
        t = threading.Thread(target=go)
        t.start()
        self.models.append((t, res, what))

    def join_models(self):
        for t, res, what in self.models:
            t.join()
            if 'err' in res:
                raise WorkerFailed('model %s: %s' % (what, res['err']))
            self.model(res['r'], what)
        self.models = []

    def traces(self, n):
        self.cov['traces_validated_against_impl'] += n

    def sample(self, s):
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(s if len(str(s)) < 1500 else str(s)[:1500])

    def violation(self, clauses, data):
        self.violations.append((sorted(clauses), data))

    def known(self, what):
        print('KNOWN-FINDING: property=%s %s' % (self.prop, what), flush=True)

    def done(self):
        self.join_models()
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        if not self.violations:
            print('%s: held (%d traces, %d states, %.1f s)' % (self.prop, self.cov['traces_validated_against_impl'],
                                                          self.cov['states'], time.time() - self.t0))
            return 0
        path = os.path.join(EVID, 'replay-%s.json' % self.prop)
        with open(path, 'w') as f:
            json.dump([dict(clauses=c, case=d) for c, d in self.violations[:20]], f, indent=1, default=repr)
        for c, d in self.violations[:5]:
            print('  clauses: %s\n    %s' % (' '.join(c), str(d)[:600].replace('\n', ' ')))
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
        return 1


# ------------------------------------------------------------ parallel work

def _child(fn, args, q, k):
    try:
        import warnings
        warnings.simplefilter('ignore')
        q.put((k, True, fn(*args)))
    except BaseException:
        q.put((k, False, traceback.format_exc()))


class WorkerFailed(Exception):
    pass


def pmap(fn, argss, timeout=600, nproc=None):
    """Runs fn(*args) for each of argss in processes of their own.

    Returns a list of (ok, result); ok is False if the process crashed or
    hung, the result is then 'crash' or 'hang'.  Errors of the machinery
    itself (exceptions of fn) raise WorkerFailed."""
    ctx = multiprocessing.get_context('fork')
    nproc = nproc or NPROC
    res = [None] * len(argss)
    todo = list(range(len(argss)))[::-1]
    run = {}
    q = ctx.Queue()
    end = time.time() + timeout
    got = set()
    err = None
    while todo or run:
        while todo and len(run) < nproc:
            k = todo.pop()
            p = ctx.Process(target=_child, args=(fn, argss[k], q, k), daemon=False)
            p.start()
            run[k] = [p, None]
        try:
            k, ok, r = q.get(timeout=0.05)
            got.add(k)
            if not ok:
                err = r
            res[k] = (True, r)
            run.pop(k)[0].join()
            continue
        except Exception as e:
            import queue
            if not isinstance(e, queue.Empty):
                raise
        now = time.time()
        for k in list(run):
            p, dead = run[k]
            if not p.is_alive():
                if dead is None:
                    run[k][1] = now
                elif now - dead > 2:        # nothing will come any more
                    res[k] = (False, 'crash')
                    run.pop(k)
            elif now > end:
                p.kill()
                p.join()
                res[k] = (False, 'hang')
                run.pop(k)
    if err is not None:
        raise WorkerFailed(err)
    return res


def main(checks):
    """checks: {property: function(Check)}"""
    prop = sys.argv[1]
    try:
        ck = Check(prop)
        try:
            checks[prop](ck)
        except BaseException:
            shutil.rmtree(ck.dir, ignore_errors=True)
            raise
        rc = ck.done()
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
