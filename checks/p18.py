"""P18: the connection layer transfers exactly the bytes given."""
from vf.core import Check, main, Violation
from vf.build import build
from vf.unit import Oneshot
from vf.sim import Net

PROGRESS = {'accept-stuck', 'stream-stuck', 'send-stuck', 'recv-stuck', 'end-stuck', 'op-stuck', 'not-ended', 'connect', 'listen', 'accept', 'send-error',
            'stream-count', 'dgram-data', 'reuse', 'timeout'}


def run(ck, exe, flavor, net, seed, rounds, vf):
    u = Oneshot(exe, [seed, net.base, rounds], vf, what='connection harness (%s)' % flavor)
    if u.viol:
        k, t = u.viol[0]
        if k == 'harness':
            raise RuntimeError(t)
        raise Violation(k, '%s [%s, %s, seed %d; %d violations in all]' % (t, flavor, vf, seed, len(u.viol)), kind='progress' if k in PROGRESS else 'safety')
    for ln in u.lines:
        if ln.startswith('T '):
            ck.case(ln, sample='%s %s %s' % (flavor, vf, ln))
        elif ln.startswith('N '):
            ck.count(**{ln[2:].replace('-', '_'): 1})
    ck.count(runs=1, **u.stat)


def body(ck):
    r = ck.rng
    built = {f: build(f) for f in ('asan', 'tsan', 'plain')}
    net = Net()
    cut = {'short_send': 700, 'short_recv': 500, 'short_max': 200}
    tiny = {'short_send': 900, 'short_recv': 900, 'short_max': 9}
    for rep in range(ck.n(2, 25)):
        for f, rounds, vf in (('asan', 2, {}), ('asan', 1, cut), ('asan', 1, tiny), ('plain', 3, dict(cut, delay=50, delay_us=200)),
                              ('tsan', 1, cut), ('asan', 2, {'delay': 200, 'delay_us': 300}), ('tsan', 1, {'delay': 100, 'delay_us': 300})):
            ck.run_case(run, ck, built[f].unit_conn, f, net, r.randrange(1, 1 << 28), rounds, dict(vf, seed=r.randrange(1, 99999)))


ck = Check('P18', rule='one evaluation is one stream direction (position-coded, random call sizes), one interrupted blocking call, one failing operation or one batch of datagrams; '
           'a distinct case is a distinct sequence of transfer sizes, interruption or failure kind')
ck.min_eval = 200
main(ck, body)
