"""P04: a returning callsign gets its address back; others the longest idle one."""
from vf.core import Check, main, Violation
from vf.build import build
from vf.scen import *
from vf.unit import Unit


def buckets(b, r):
    """Groups of callsigns which collide in the callsign hash."""
    cand = set()
    while len(cand) < 3000:
        cand.add(r.choice('KWNA') + r.choice(['', 'A', 'X']) + str(r.randrange(10)) + ''.join(r.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ') for _ in range(r.randrange(1, 4))) +
                 r.choice(['', '', '-L', '-R']))
    cand = sorted(cand)
    try:
        with Unit(b.unit_enc) as u:
            hs = u.batch(['pearson ' + c.encode().hex() for c in cand])
    except (OSError, Violation):
        hs = [str(i % 200) for i in range(len(cand))]
    g = {}
    for c, h in zip(cand, hs):
        g.setdefault(h, []).append(c)
    return [x for x in g.values() if len(x) >= 4]


def alike(b, r):
    """Groups of similar callsigns (one begins with the other, differs in case or in one character) which collide in the callsign hash."""
    L = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
    cand = []
    for _ in range(400):
        base = r.choice('KWNA') + str(r.randrange(10)) + ''.join(r.choice(L) for _ in range(r.randrange(1, 5)))
        v = {base}
        v |= {base + x for x in ['-L', '-R', 'X'] + [a + c for a in '-/' + L for c in L[:20]]}
        v |= {base[:k] for k in range(1, len(base))}
        v |= {''.join(ch.lower() if m >> k & 1 else ch for k, ch in enumerate(base)) for m in range(1 << len(base))}
        v |= {base[:k] + c + base[k + 1:] for k in range(len(base)) for c in L}
        cand.append((base, sorted(x for x in v if len(x) <= 10)))
    try:
        with Unit(b.unit_enc) as u:
            hs = iter(u.batch(['pearson ' + c.encode().hex() for _, v in cand for c in v]))
    except (OSError, Violation):
        return []
    out = []
    for base, v in cand:
        h = dict(zip(v, [next(hs) for _ in v]))
        same = [c for c in v if c != base and h[c] == h[base]]
        for kind in (lambda c: c.startswith(base), lambda c: c.lower() == base.lower(), lambda c: base.startswith(c), lambda c: len(c) == len(base)):
            k = [c for c in same if kind(c)]
            if k:
                out.append([base] + r.sample(k, min(3, len(k))))
    return out


KINDS = (lambda a, c: c.startswith(a), lambda a, c: a.startswith(c), lambda a, c: c.lower() == a.lower(), lambda a, c: len(a) == len(c))


class Model:
    def __init__(self, exts):
        self.idle = list(exts)            # longest idle first
        self.last = {}                    # address -> callsign of its last session
        self.began = {}                   # address -> number of the session
        self.n = 0

    def expect(self, call):
        """Permitted addresses for a new session of call."""
        mine = [a for a in self.idle if self.last.get(a) == call]
        busy = [a for a in self.last if self.last[a] == call and a not in self.idle]
        if not mine:
            return [self.idle[0]], 'oldest'
        mine.sort(key=lambda a: -self.began[a])
        if busy and max(self.began[a] for a in busy) > self.began[mine[0]]:
            # its most recent session is still in progress
            return sorted(set(mine + [self.idle[0]])), 'either'
        return [mine[0]], 'return'

    def begin(self, call, a):
        self.idle.remove(a)
        self.last[a] = call
        self.n += 1
        self.began[a] = self.n

    def end(self, a):
        self.idle.append(a)


def history(ck, b, net, seed, slots, groups, few=False, most=0):
    r = random.Random(seed)
    g = r.choice(groups)
    calls = g[:r.randrange(2, 5)]
    if few:
        calls = g[:4]
    base = calls[0]
    extra = [base + 'X', base[:-1] or 'Q', base.lower(), base + '-L', '', 'ABCDEFGHIJ', 'ABCDEFGHI', 'K1RFD', 'AK8V'] + [r.choice(x) for x in groups[:6]]
    calls += r.sample(extra, 0 if few else r.randrange(2, 6))
    if most:
        calls += [c for x in r.sample(groups, min(len(groups), 8)) + groups[-1:] for c in x]
        r.shuffle(calls)
        calls = calls[:most]
    calls = [c[:10] for c in calls]
    with Proxy(b.host, net, slots=slots, vf={'seed': seed % 99991}) as px:
        node = Node(net.node(0))
        m = Model([net.ext(i) for i in range(slots)])
        live = []
        trace = []
        leaving = 0.5
        try:
            for step in range(ck.n(30, 60) if few else ck.n(60, 120) + 3 * slots):
                if step % (5 + slots) == 0 and not few:
                    leaving = r.choice([0.15, 0.5, 0.5, 0.85])
                if live and (len(live) == slots or r.random() < leaving):
                    c, call, a = live.pop(r.randrange(len(live)))
                    c.close(rst=r.random() < 0.4)
                    m.end(a)
                    trace.append('-%s@%s' % (call, a.rsplit('.', 1)[1]))
                    if not px.quiesce():
                        raise Violation('not-quiescent', 'the proxy does not come to rest after a disconnect\n' + px.stacks(), kind='progress')
                    if r.random() < 0.15:
                        # refused connections take no address
                        x = px.client()
                        if x.nonce() is not None:
                            x.greet(r.choice(calls), 'wrong')
                            x.wait_eof()
                        x.close()
                        px.quiesce()
                        trace.append('refused')
                else:
                    call = r.choice(calls)
                    exp, why = m.expect(call)
                    c = px.session(call)
                    src = probe(c, node, 'P04')
                    trace.append('+%s@%s' % (call, src.rsplit('.', 1)[1]))
                    ck.case((slots, tuple(trace[-12:]), why), why != 'oldest' or len(m.idle) > 1,
                            sample='%s idle=%s expect=%s (%s)' % (call, m.idle, exp, why))
                    ck.count(**{'assigned_' + why: 1})
                    if src not in m.idle:
                        raise Violation('busy-address', 'callsign %r was given %s, which is in use' % (call, src), witness=trace)
                    if src not in exp:
                        raise Violation('wrong-address:' + why, 'callsign %r was given %s instead of %s (%s); idle, longest first: %s, last used by %s; history %s' % (
                            call, src, exp, {'return': 'its previous address', 'oldest': 'the longest idle', 'either': 'previous or oldest'}[why],
                            m.idle, {a: m.last.get(a) for a in m.idle}, ' '.join(trace[-30:])), witness=trace)
                    m.begin(call, src)
                    live.append((c, call, src))
                    if len(m.idle) == 0:
                        ck.count(all_in_use=1)
                for c, call, a in live:
                    if c.eof:
                        raise Violation('session-ended', 'session of %r ended without cause' % call)
        finally:
            for c, _, _ in live:
                c.close()
            node.close()


def drop_and_reopen(ck, b, net, seed, slots):
    """After reopening nobody is remembered; the addresses are all idle in configured order."""
    r = random.Random(seed)
    with Proxy(b.host, net, slots=slots) as px:
        node = Node(net.node(0))
        try:
            for rnd in range(3):
                order = []
                cs = []
                for i in range(slots):
                    c = px.session('W%dRR' % i)
                    order.append(probe(c, node, 'P04r'))
                    cs.append(c)
                if order != [net.ext(i) for i in range(slots)]:
                    raise Violation('wrong-address:fresh', 'a fresh proxy assigned %s' % order)
                ck.case(('fresh', rnd, slots))
                # end in a random order: the queue follows it, with other callsigns
                perm = list(range(slots))
                r.shuffle(perm)
                for i in perm:
                    cs[i].close()
                    px.quiesce()
                # known callsigns return wherever they were
                i = r.randrange(slots)
                c = px.session('W%dRR' % i)
                if probe(c, node, 'P04k') != order[i]:
                    raise Violation('wrong-address:return', 'W%dRR did not return to %s' % (i, order[i]))
                c.close()
                px.quiesce()
                perm.remove(i)
                perm.append(i)
                cs, got = [], []
                for k in range(slots):
                    c = px.session('N%dNEW' % k)
                    got.append(probe(c, node, 'P04n'))
                    cs.append(c)
                if got != [order[j] for j in perm]:
                    raise Violation('wrong-address:oldest', 'new callsigns got %s instead of %s (order of release)' % (got, [order[j] for j in perm]))
                ck.case(('queue', slots, tuple(perm)))
                for c in cs:
                    c.close()
                px.down()
                px.up()
        finally:
            node.close()


def body(ck):
    b = build('asan')
    net = Net()
    r = ck.rng
    groups = buckets(b, r)
    similar = alike(b, r)
    ck.count(colliding_groups=len(groups), similar_groups=len(similar))
    crowd = [x[:30] for x in groups] + [['%s%d%s' % (a, i, c) for a in ('W', 'KA', 'N') for i in range(10) for c in ('AA', 'B-L')]]
    for slots in (12, 40):
        for _ in range(ck.n(2, 12)):
            ck.run_case(history, ck, b, net, r.randrange(1 << 30), slots, crowd, False, r.choice([10, 25, 60]))
        ck.run_case(drop_and_reopen, ck, b, net, r.randrange(1 << 30), slots)
    for slots in (2, 3, 4, 6):
        for _ in range(ck.n(5, 40)):
            ck.run_case(history, ck, b, net, r.randrange(1 << 30), slots, groups)
        for k in range(ck.n(6, 40)):
            sim = [[g for g in similar if kind(g[0], g[1])] for kind in KINDS][k % len(KINDS)]
            if sim:
                ck.run_case(history, ck, b, net, r.randrange(1 << 30), slots, sim, True)
        for _ in range(ck.n(1, 5)):
            ck.run_case(drop_and_reopen, ck, b, net, r.randrange(1 << 30), slots)


ck = Check('P04', rule='one evaluation is one admitted session whose external address is compared with the reference model of idle order and '
           'remembered callsigns; distinct by number of slots, recent history and rule applied; trivial if only one address was idle and no callsign was remembered',
           assumptions=['operations are separated until the process is quiescent, so that the order of releases is known'])
ck.min_eval = 100
main(ck, body)
