"""P17: background workers run once per burst of wakes and never lose one."""
from vf.core import Check, main, Violation
from vf.build import build
from vf.unit import Oneshot

PROGRESS = {'join-stuck', 'wait-idle-stuck', 'no-period'}


def run(ck, exe, flavor, seed, rounds, cycles, vf):
    u = Oneshot(exe, [seed, rounds, cycles], vf, what='worker harness (%s)' % flavor)
    if u.viol:
        k, t = u.viol[0]
        raise Violation(k, '%s [%s, seed %d; %d violations in all]' % (t, flavor, seed, len(u.viol)), kind='progress' if k in PROGRESS else 'safety')
    for ln in u.lines:
        if ln.startswith('T '):
            ck.case(ln, sample='%s %s history %s' % (flavor, vf, ln))
    ck.evaluations += sum(u.stat.get(k, 0) for k in ('wakes', 'idle_waits', 'joins', 'executions'))
    ck.count(runs=1, **u.stat)


def body(ck):
    r = ck.rng
    built = {f: build(f) for f in ('asan', 'tsan', 'plain')}
    for rep in range(ck.n(2, 20)):
        for f, rounds, cycles, vf in (('plain', 6, 30, {}), ('plain', 6, 15, {'delay': 200, 'delay_us': 200}), ('tsan', 4, 10, {}),
                                      ('tsan', 3, 8, {'delay': 100, 'delay_us': 300}), ('asan', 5, 15, {}), ('plain', 4, 15, {'delay': 600, 'delay_us': 60}),
                                      ('plain', 4, 10, {'delay': 30, 'delay_us': 2000})):
            ck.run_case(run, ck, built[f].unit_worker, f, r.randrange(1, 1 << 28), rounds, cycles * ck.n(1, 2), dict(vf, seed=r.randrange(1, 99999)))


ck = Check('P17', rule='one evaluation is one wake, execution, idle wait or join of a recorded history, judged offline; a distinct case is one history',
           assumptions=['start is only called by one thread at a time; joins, wakes and idle waits come from several'])
ck.min_eval = 2000
main(ck, body)
