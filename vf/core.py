"""Verdicts, evidence and known findings, common to every check."""
import hashlib
import json
import os
import random
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken.  kind 'safety': the witness is conclusive.
    kind 'progress': something did not happen within a generous bound, which is
    believed only if it happens again when the case is repeated."""

    def __init__(self, key, msg, kind='safety', witness=None):
        Exception.__init__(self, '%s: %s' % (key, msg))
        self.key, self.msg, self.kind, self.witness = key, msg, kind, witness


class Inconclusive(Exception):
    pass


class Stop(Exception):
    pass


def load_known(prop):
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as fp:
            data = json.load(fp)
    except OSError:
        return []
    return [f for f in data.get('findings', []) if f.get('property') == prop]


class Check:
    def __init__(self, prop, level='exploration', rule='', assumptions=()):
        self.prop, self.level, self.rule = prop, level, rule
        self.assumptions = list(assumptions)
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random('%d:%s:%s' % (self.seed, prop, self.tier))
        self.t0 = time.monotonic()
        self.budget = 3000.0 if self.thorough else 240.0
        self.fill = float(os.environ.get('VERIF_FILL', '30'))
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.observed = {}
        self.inconclusive = 0
        self.violations = []
        self.known_hit = {}
        self.known = load_known(prop)
        self.min_eval = 1
        self.lock = threading.RLock()

    # -- accounting --------------------------------------------------------
    def count(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.observed[k] = self.observed.get(k, 0) + v

    def maxi(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.observed[k] = max(self.observed.get(k, v), v)

    def case(self, sig, nontrivial=True, sample=None):
        with self.lock:
            self.evaluations += 1
        if nontrivial:
            self.distinct.add(hashlib.sha1(repr(sig).encode()).digest()[:10])
        if sample is not None and len(self.samples) < 8:
            self.samples.append(sample)

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 10) if self.thorough else quick

    def left(self):
        return self.budget - (time.monotonic() - self.t0)

    # -- verdicts ----------------------------------------------------------
    def report(self, key, msg, witness=None):
        for f in self.known:
            if f['key'] == key:
                self.known_hit.setdefault(key, f.get('what', key))
                return
        with self.lock:
            if self.violations:
                raise Stop()
            self.violations.append((key, msg))
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d-%d.json' % (self.prop, self.seed, len(self.violations) - 1))
        with open(path, 'w') as fp:
            json.dump({'property': self.prop, 'key': key, 'message': msg, 'seed': self.seed,
                       'tier': self.tier, 'witness': witness,
                       'how': 'VERIF_SEED=%d VERIF_TIER=%s ./check %s' % (self.seed, self.tier, self.prop)},
                      fp, indent=1, default=repr)
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        print('  %s: %s' % (key, msg[:2000]))
        sys.stdout.flush()
        raise Stop()

    def run_case(self, fn, *args, **kw):
        """Runs one case; decides about progress violations by repetition."""
        tries = kw.pop('tries', 4)
        if self.left() <= 0:
            self.count(cases_skipped_out_of_time=1)
            return False
        first = None
        for i in range(tries):
            try:
                fn(*args, **kw)
                if first is None:
                    return True
                continue
            except Violation as v:
                if v.kind == 'safety':
                    self.report(v.key, v.msg, {'case': args, 'kw': kw, 'detail': v.witness})
                    return False
                if first is not None:
                    self.report(v.key, '%s (repeated; first: %s)' % (v.msg, first.msg),
                                {'case': args, 'kw': kw, 'detail': v.witness})
                    return False
                first = v
                sys.stderr.write('note: %s; repeating the case\n' % v)
            except Inconclusive as e:
                sys.stderr.write('inconclusive: %s\n' % e)
                self.inconclusive += 1
                return False
        self.inconclusive += 1
        return False

    def run_many(self, cases, workers=4):
        """Runs cases (fn, args...) several at a time; each must use a network of its own."""
        todo = list(cases)[::-1]
        lk = threading.Lock()
        errs = []

        def work():
            while not errs:
                with lk:
                    if not todo:
                        return
                    c = todo.pop()
                try:
                    self.run_case(c[0], *c[1:])
                except BaseException as e:
                    errs.append(e)
        ts = [threading.Thread(target=work, daemon=True) for _ in range(workers)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for e in errs:
            if not isinstance(e, Stop):
                raise e
        if errs:
            raise errs[0]

    def finish(self):
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.distinct),
               'rule': self.rule, 'samples': self.samples or ['none'],
               'observed': self.observed, 'inconclusive': self.inconclusive}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.monotonic() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (self.prop, os.getpid()))
        with open(tmp, 'w') as fp:
            json.dump(ev, fp, indent=1, default=repr)
            fp.write('\n')
        os.rename(tmp, os.path.join(VERIF, 'evidence', self.prop + '.json'))
        for k in sorted(self.known_hit):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known_hit[k]))
        if self.violations:
            return 1
        if self.evaluations < self.min_eval:
            print('ERROR: observed too little (%d evaluations)' % self.evaluations)
            return 2
        print('ok property=%s evaluations=%d distinct=%d inconclusive=%d wall=%.1fs %s' % (
            self.prop, self.evaluations, len(self.distinct), self.inconclusive,
            time.monotonic() - self.t0, json.dumps(self.observed)))
        return 0


def main(check, body):
    rc = 2
    try:
        try:
            # a quick check which is done early goes on with other choices
            while True:
                t = time.monotonic()
                body(check)
                check.count(rounds=1)
                now = time.monotonic()
                if check.thorough or now - check.t0 + (now - t) > check.fill:
                    break
        except Stop:
            pass
        rc = check.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
