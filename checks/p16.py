"""P16: shared/exclusive locks and condition waits give mutual exclusion."""
from vf.core import Check, main, Violation
from vf.build import build
from vf.unit import Oneshot

PROGRESS = {'stuck', 'lost-wake', 'wake-all', 'wake-one', 'no-overlap', 'wait-holds-lock', 'timeout-stuck'}


def run(ck, exe, flavor, seed, threads, iters, vf):
    u = Oneshot(exe, [seed, threads, iters], vf, what='lock harness (%s, %d threads)' % (flavor, threads))
    if u.viol:
        k, t = u.viol[0]
        raise Violation(k, '%s [%s, %d threads, seed %d; %d violations in all]' % (t, flavor, threads, seed, len(u.viol)),
                        kind='progress' if k in PROGRESS else 'safety')
    for ln in u.lines:
        if ln.startswith('T '):
            ck.case(ln, sample='%s %d threads %s' % (flavor, threads, vf))
    ck.evaluations += sum(u.stat.get(k, 0) for k in ('exclusive', 'shared', 'waits', 'timed_waits', 'queue_items'))
    ck.count(runs=1, **u.stat)


def body(ck):
    r = ck.rng
    built = {f: build(f) for f in ('asan', 'tsan', 'plain')}
    for rep in range(ck.n(2, 20)):
        for f, threads, iters, vf in (('plain', 2, 3000, {}), ('plain', 8, 3000, {}), ('plain', 8, 1000, {'delay': 200, 'delay_us': 100}),
                                      ('plain', 24, 500, {'delay': 20, 'delay_us': 500}), ('tsan', 6, 1500, {}),
                                      ('tsan', 6, 500, {'delay': 100, 'delay_us': 200}), ('asan', 4, 1500, {}), ('plain', 3, 4000, {'delay': 500, 'delay_us': 20})):
            ck.run_case(run, ck, built[f].unit_lock, f, r.randrange(1, 1 << 30), threads, iters * ck.n(1, 3), dict(vf, seed=r.randrange(1, 99999)))


ck = Check('P16', rule='one evaluation is one lock acquisition, wait or queue item watched by the holder-count monitor; a distinct case is one thread history '
           '(operations together with the holder counts seen before each)')
ck.min_eval = 10000
main(ck, body)
