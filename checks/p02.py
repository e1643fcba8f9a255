"""P02: fresh challenge per connection; answers to other challenges are refused."""
import re

from vf.core import Check, main, Violation
from vf.build import build
from vf.scen import *

BAD_PW = bytes([7, 0, 0, 0, 0, 1, 0, 0, 0, 1])


def challenged(px, timeout=WAIT):
    """A connection which has received a challenge (retrying while all slots are taken)."""
    end = time.monotonic() + timeout
    while True:
        c = px.client()
        n = c.nonce()
        if n is not None:
            if not re.fullmatch(rb'[0-9a-f]{8}', n):
                raise Violation('challenge-format', 'challenge is %r' % n)
            return c
        c.close()
        if time.monotonic() > end:
            raise Violation('no-service', 'no challenge although slots are free', kind='progress')
        time.sleep(0.005)


def judge_sequence(ck, vals, what):
    """Statistical oracle over challenges of one running proxy (false alarm < 1e-9)."""
    n = len(vals)
    if n < 8:
        return
    seen, dup = {}, 0
    for v in vals:
        dup += v in seen
        seen[v] = 1
    # 31 random bits: expected repetitions n^2 / 2^32
    if dup > 3 + n * n / (1 << 28):
        raise Violation('repeated-challenges', '%d repetitions among %d challenges of %s' % (dup, n, what), witness=vals[:50])
    for a, b, c in zip(vals, vals[1:], vals[2:]):
        if a == b == c:
            raise Violation('repeated-challenges', 'three equal challenges in a row: %08x' % a)
    steps = {}
    for a, b in zip(vals, vals[1:]):
        steps[(b - a) & 0xffffffff] = steps.get((b - a) & 0xffffffff, 0) + 1
    d, k = max(steps.items(), key=lambda x: x[1])
    if k > 3 + n * n / (1 << 28):
        raise Violation('constant-step', 'challenges of %s follow the step %08x %d times in %d' % (what, d, k, n), witness=vals[:50])
    if n >= 64:
        ones = [sum((v >> b) & 1 for v in vals) for b in range(31)]
        for b in range(31):
            if ones[b] in (0, n):
                raise Violation('constant-bit', 'bit %d of the challenge is %d in all of %d challenges' % (b, ones[b] // n, n))
    # small distances between consecutive challenges: clock- or counter-like
    small = sum(1 for a, b in zip(vals, vals[1:]) if min((a - b) & 0xffffffff, (b - a) & 0xffffffff) < 1 << 16)
    if small > 4 + n * (1 << 17) / (1 << 28):
        raise Violation('counter-like', '%d of %d consecutive challenges of %s are close to each other' % (small, n, what), witness=vals[:50])


def sequential(ck, b, net, seed):
    r = random.Random(seed)
    with Proxy(b.host, net, slots=1, vf={'seed': seed % 100000, 'short_recv': 100}) as px:
        node = Node(net.node(0))
        try:
            vals, old = [], []
            for i in range(ck.n(300, 1500)):
                c = challenged(px)
                n = bytes(c.raw[:8])
                k = r.choice(['good', 'stale', 'stale', 'stale', 'prev', 'drop'])
                if n.decode() in [x.decode() for x in old]:
                    k = 'drop'      # an actual repetition: judged below
                if k == 'good':
                    c.greet('W1AW', resp=answer(n, px.password))
                    probe(c, node, 'P02')
                elif k in ('stale', 'prev') and old:
                    o = old[-1] if k == 'prev' else r.choice(old)
                    c.greet('W1AW', resp=answer(o, px.password), extra=msg(UDP_DATA, node.addr, b'stale'))
                    if not c.wait_eof():
                        raise Violation('stale-not-dropped', 'a client answering an earlier challenge stays connected', kind='progress')
                    if c.rest() != BAD_PW:
                        raise Violation('stale-answer', 'the answer to %s was met with %s on a connection challenged with %s' % (
                            o.decode(), c.rest().hex() or 'silence', n.decode()))
                    ck.count(stale_refused=1)
                ck.case(('seq', k, n), k != 'drop' or i > 0, sample='%s %s' % (n.decode(), k))
                vals.append(int(n, 16))
                old.append(n)
                c.close(rst=r.random() < 0.3)
            judge_sequence(ck, vals, 'sequential connections')
            if any(d[3] == b'stale' for d in node.dgrams):
                raise Violation('stale-had-effect', 'a client answering a stale challenge used the network')
        finally:
            node.close()


def concurrent(ck, b, net, seed, slots):
    r = random.Random(seed)
    with Proxy(b.host, net, slots=slots, vf={'seed': seed % 100000, 'delay': r.choice([0, 100, 300]), 'delay_us': 1500}) as px:
        node = Node(net.node(0))
        try:
            vals = []
            for rnd in range(ck.n(12, 60)):
                cs = [None] * slots

                def go(i):
                    cs[i] = challenged(px)
                parallel([lambda i=i: go(i) for i in range(slots)])
                ns = [bytes(c.raw[:8]) for c in cs]
                vals += [int(n, 16) for n in ns]
                if len(set(ns)) < len(ns):
                    ck.count(concurrent_equal=1)
                    if ck.observed['concurrent_equal'] > 2:
                        raise Violation('repeated-challenges', 'concurrent connections were given the same challenge: %s' % ns)
                    for c in cs:
                        c.close()
                    continue
                # some answer their own challenge, the others a neighbour's
                perm = list(range(slots))
                if r.random() < 0.7:
                    r.shuffle(perm)
                order = list(range(slots))
                r.shuffle(order)
                for i in order:
                    cs[i].greet('K%d' % i, resp=answer(ns[perm[i]], px.password))
                for i in order:
                    if perm[i] == i:
                        probe(cs[i], node, 'P02c')
                        if any(m[0] == SYSTEM for m in cs[i].msgs):
                            raise Violation('right-answer-refused', 'right answer refused among concurrent logins')
                        ck.count(own_admitted=1)
                    else:
                        if not cs[i].wait_eof():
                            raise Violation('swapped-not-dropped', 'a client answering a concurrent challenge stays connected', kind='progress')
                        if cs[i].rest() != BAD_PW:
                            raise Violation('swapped-answer', 'the answer to another concurrent challenge was met with %s' % (cs[i].rest().hex() or 'silence'))
                        ck.count(swapped_refused=1)
                    ck.case(('conc', slots, ns[i], perm[i] == i))
                for c in cs:
                    c.close(rst=r.random() < 0.5)
            judge_sequence(ck, vals, 'concurrent connections')
        finally:
            node.close()


def reopened(ck, b, net, seed):
    """One running process, several open/close cycles: challenges must not start over."""
    with Proxy(b.host, net, slots=2) as px:
        runs = []
        for i in range(ck.n(4, 12)):
            vals = []
            for _ in range(12):
                c = challenged(px)
                vals.append(int(bytes(c.raw[:8]), 16))
                c.close()
            runs.append(vals)
            px.down()
            px.up()
        flat = [v for x in runs for v in x]
        judge_sequence(ck, flat, 'reopened proxy')
        for i in range(1, len(runs)):
            if set(runs[i]) & set(sum(runs[:i], [])) and len(set(runs[i]) & set(sum(runs[:i], []))) > 1:
                raise Violation('repeated-challenges', 'challenges of an earlier opening come again after reopening')
        ck.case(('reopen', tuple(flat)))
        ck.count(reopened_challenges=len(flat))


def several(ck, b, net, seed):
    """Other proxies come and go in the process, in quick succession; and the proxy itself is created anew."""
    r = random.Random(seed)
    with Proxy(b.host, net, slots=2) as px:
        vals, marks = [], []

        def some(n):
            for _ in range(n):
                c = challenged(px)
                vals.append(int(bytes(c.raw[:8]), 16))
                c.close()
        for i in range(ck.n(16, 60)):
            how = r.choice(['other', 'other', 'reopen', 'anew'])
            if how == 'other':
                h = r.choice('123')
                px.must(h + ':init')
                some(r.randrange(1, 4))
                px.cmd(h + ':free')
                px.cmd(h + ':zero')
            elif how == 'reopen':
                px.down()
                px.up()
            else:
                px.down()
                px.cmd('free')
                px.cmd('zero')
                px.must('init')
                px.configure()
                px.up()
            some(r.randrange(1, 4))
            marks.append((how, len(vals)))
        judge_sequence(ck, vals, 'a process with several proxies %r' % marks)
        ck.case(('several', tuple(vals)))
        ck.count(reinitialised_challenges=len(vals), initialisations=sum(1 for m in marks if m[0] != 'reopen'))


def body(ck):
    b = build('asan')
    net = Net()
    r = ck.rng
    ck.run_case(sequential, ck, b, net, r.randrange(1 << 30))
    for s in (4, 8):
        ck.run_case(concurrent, ck, b, net, r.randrange(1 << 30), s)
    ck.run_case(reopened, ck, b, net, r.randrange(1 << 30))
    for _ in range(ck.n(2, 20)):
        ck.run_case(several, ck, b, net, r.randrange(1 << 30))
    if ck.thorough:
        for i in range(10):
            ck.run_case(sequential, ck, b, net, r.randrange(1 << 30))
            ck.run_case(concurrent, ck, b, net, r.randrange(1 << 30), r.choice([2, 3, 8, 16, 32]))


ck = Check('P02', rule='one evaluation is one challenged connection; distinct by the challenge and by what was answered (own, an earlier '
           'or a concurrent challenge)',
           assumptions=['randomness is judged by repetition, step, bit-constancy and distance statistics with false-alarm probability below 1e-9',
                        'challenges of separate processes are not compared (the generator is seeded with the time of day)'])
ck.min_eval = 100
main(ck, body)
