"""P05: UDP relaying is exact in both directions."""
import errno

from vf.core import Check, main, Violation
from vf.build import build
from vf.scen import *

TYPE = {5198: UDP_DATA, 5199: UDP_CONTROL}
SIZES = [1, 2, 3, 8, 9, 100, 508, 1400, 1472, 1473, 2048, 4078, 4079, 4080, 4085, 4086, 4087]
UPSIZES = SIZES + [4088, 4094, 4095, 4096]


def payload(r, n, tag_):
    body = r.randbytes(n) if r.random() < 0.7 else bytes([r.choice([0, 1, 7, 255])]) * n
    return (tag_ + body)[:n] if n >= len(tag_) + 4 else body


class Extra:
    """A UDP endpoint with an arbitrary source port at some address."""

    def __init__(self, addr, port=0):
        self.s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind((addr, port))
        self.addr = addr

    def close(self):
        self.s.close()


def settle(c, node_list, up, down, what):
    """Waits until as much arrived as was sent, then a little more; compares."""
    def got_up():
        return all(len([d for d in n.dgrams if d[0] == p and d[1] == c.src]) >= len(up[(n.addr, p)]) for n in node_list for p in TYPE)

    def got_down():
        return all(len([m for m in c.msgs if m[0] == TYPE[p]]) >= len(down[p]) for p in TYPE)
    wait(lambda: (got_up() and got_down()) or c.eof or c.malformed)
    if c.malformed:
        raise Violation('malformed-stream', c.malformed)
    if c.eof:
        if c.host and not c.host.alive():
            c.host.p.wait(30)
            raise c.host.died(what)
        raise Violation('session-ended', 'the session ended while relaying: %s\n%s' % (c.eof, c.host.log_text()[-1500:]))


def compare(c, nodes, up, down, what):
    settle(c, nodes, up, down, what)
    for n in nodes:
        for p in TYPE:
            got = [d for d in n.dgrams if d[0] == p and d[1] == c.src]
            exp = up[(n.addr, p)]
            for i, (g, e) in enumerate(zip(got, exp)):
                if g[3] != e:
                    raise Violation('upstream-payload', 'datagram %d of %d bytes to %s:%d arrived as %d bytes (%s... instead of %s...)%s' % (
                        i, len(e), n.addr, p, len(g[3]), g[3][:24].hex(), e[:24].hex(), ' - which was sent earlier or later' if g[3] in exp else ''))
                if g[2] != p:
                    raise Violation('upstream-port', 'a datagram to port %d left from port %d' % (p, g[2]))
            if len(got) > len(exp):
                raise Violation('upstream-extra', '%d datagrams arrived at %s:%d for %d sent; first extra: %s' % (
                    len(got), n.addr, p, len(exp), got[len(exp)][3][:60]))
            if len(got) < len(exp):
                raise Violation('upstream-lost', '%d of %d datagrams did not arrive at %s:%d' % (len(exp) - len(got), len(exp), n.addr, p), kind='progress')
    for p in TYPE:
        got = [m for m in c.msgs if m[0] == TYPE[p]]
        exp = down[p]
        for i, (g, e) in enumerate(zip(got, exp)):
            if (g[1], g[2]) != e:
                raise Violation('downstream', 'message %d of type %d: from %s %d bytes (%s...) instead of from %s %d bytes (%s...)%s' % (
                    i, TYPE[p], g[1], len(g[2]), g[2][:24].hex(), e[0], len(e[1]), e[1][:24].hex(), ' - out of order' if (g[1], g[2]) in exp else ''))
        if len(got) > len(exp):
            raise Violation('downstream-extra', '%d messages of type %d for %d datagrams' % (len(got), TYPE[p], len(exp)))
        if len(got) < len(exp):
            raise Violation('downstream-lost', '%d of %d datagrams to port %d did not reach the client\n%s' % (
                len(exp) - len(got), len(exp), p, c.host.stacks()), kind='progress')
    other = [m for m in c.msgs if m[0] not in TYPE.values()]
    if other:
        raise Violation('stray-message', 'unexpected message %r' % (other[0],))


def session(ck, px, nodes, extras, seed, call, rounds):
    r = random.Random(seed)
    c = px.session(call)
    try:
        up = {(n.addr, p): [] for n in nodes for p in TYPE}
        down = {p: [] for p in TYPE}
        c.src = None
        t = tag('P05')
        c.src = probe(c, nodes[0], 'P05', data=t)
        for n in nodes:
            n.dgrams = [d for d in n.dgrams if d[1] != c.src or d[3] == t]
        up[(nodes[0].addr, 5198)].append(t)
        if c.src not in {px.net.ext(i) for i in range(px.slots)}:
            raise Violation('upstream-source', 'datagram left from %s' % c.src)
        for rnd in range(rounds):
            # a batch small enough for every socket buffer on the way
            buf, budget_up, budget_down = b'', 60000, {p: 60000 for p in TYPE}
            nops = r.choice([1, 3, 8, 20, 40])
            ops = []
            for _ in range(nops):
                op = r.choice(['up', 'up', 'down', 'down', 'empty', 'zero', 'junk', 'nowhere', 'other', 'trunc'])
                p = r.choice([5198, 5199])
                n = r.choice(nodes)
                ck.count(**{'op_' + op: 1})
                if op == 'up':
                    size = r.choice(UPSIZES) if r.random() < 0.6 else r.randrange(1, 4097)
                    if budget_up < size:
                        continue
                    budget_up -= size + 700
                    d = payload(r, size, tag('u'))
                    buf += msg(TYPE[p], n.addr, d)
                    up[(n.addr, p)].append(d)
                    ck.case(('up', p, size, seed, rnd), sample='up port=%d size=%d' % (p, size))
                    if r.random() < 0.3:
                        c.send(buf, pieces=r.choice([None, 2, 7]) if len(buf) > 10 else None, rng=r)
                        buf = b''
                elif op in ('down', 'other'):
                    size = r.choice(SIZES) if r.random() < 0.6 else r.randrange(1, 4088)
                    if budget_down[p] < size:
                        continue
                    budget_down[p] -= size + 1200
                    d = payload(r, size, tag('d'))
                    ck.case((op, p, size, seed, rnd), sample='%s port=%d size=%d' % (op, p, size))
                    if op == 'down':
                        n.sendto(p, d, c.src)
                        down[p].append((n.addr, d))
                    else:
                        x = r.choice(extras)
                        x.s.sendto(d, (c.src, p))
                        down[p].append((x.addr, d))
                elif op == 'empty':
                    r.choice([n.udp[p], r.choice(extras).s]).sendto(b'', (c.src, p))
                    ck.case(('empty', p, seed, rnd))
                elif op == 'zero':
                    buf += msg(TYPE[p], n.addr)
                elif op == 'junk':
                    # other traffic at the external address
                    r.choice(extras).s.sendto(r.randbytes(20), (c.src, r.choice([5197, 5200, 5201, 8100])))
                elif op == 'nowhere':
                    # nobody listens there, or the address cannot be sent to
                    buf += msg(TYPE[p], r.choice([px.net(77), '255.255.255.255', '240.0.0.1']), b'x' * r.choice([1, 500, 4096]))
                elif op == 'trunc':
                    # larger than the protocol can relay: only its effect on others is judged
                    pass
            if buf:
                c.send(buf, pieces=r.choice([None, None, 3]) if len(buf) > 10 else None, rng=r)
            compare(c, nodes, up, down, 'relaying')
        # a large datagram may be cut, but must not stop the relaying
        for p in TYPE:
            nodes[0].sendto(p, b'L' * r.choice([4088, 4096, 9000, 65507]), c.src)
            d = payload(r, 64, tag('after'))
            nodes[0].sendto(p, d, c.src)
            if not c.wait_msgs(lambda m: any(x[2] == d for x in m), 'a datagram after a large one'):
                raise Violation('stopped-by-large', 'no datagram is relayed on port %d after a large one' % p, kind='progress')
            k = [i for i, m in enumerate(c.msgs) if m[0] == TYPE[p]]
            if c.msgs[k[-1]][1:] != (nodes[0].addr, d) or any(set(c.msgs[i][2]) != {76} for i in k[len(down[p]):-1]):
                raise Violation('downstream', 'wrong messages around a large datagram')
        ck.count(sessions=1, datagrams_up=sum(map(len, up.values())), datagrams_down=sum(map(len, down.values())))
    finally:
        c.close(rst=r.random() < 0.3)


REFUSALS = [errno.EACCES, errno.EPERM, errno.EINVAL, errno.ENETUNREACH, errno.EHOSTUNREACH, errno.ENETDOWN, errno.EHOSTDOWN, errno.ECONNREFUSED, errno.ENOBUFS,
            errno.ENOMEM, errno.EMSGSIZE, errno.EADDRNOTAVAIL, errno.EIO, errno.EAFNOSUPPORT, errno.EPIPE, errno.ECONNRESET, errno.ENOTCONN, errno.ETIMEDOUT]


def refused(ck, b, net, seed):
    """The system refuses to send some datagrams, for any reason: those are lost, and nothing else."""
    r = random.Random(seed)
    with Proxy(b.host, net, slots=1, vf={'seed': seed % 99991}) as px:
        n = Node(net.node(0), tcp=False)
        c = px.session('RE1FX')
        try:
            c.src = probe(c, n, 'P05r')
            n.dgrams = []
            up = {(n.addr, p): [] for p in TYPE}
            down = {p: [] for p in TYPE}
            todo = [(p, e) for p in TYPE for e in REFUSALS]
            r.shuffle(todo)
            lost = 0
            for p, e in todo:
                px.cmd('vf err_no %d' % e)
                px.cmd('vf err_mask %d' % (1 << 15))
                px.cmd('vf err 1000')
                k = r.choice([1, 1, 2, 5])
                c.send(b''.join(msg(TYPE[p], n.addr, payload(r, r.choice([1, 500, 4096]), tag('lost'))) for _ in range(k)))
                # the client's messages are taken in order: these are dealt with once this is answered
                c.send(msg(TCP_DATA, n.addr, b'x'))
                if not c.wait_msgs(lambda m: any(x[0] == TCP_CLOSE for x in m), 'an answer'):
                    compare(c, [n], up, down, 'datagrams refused with %s' % errno.errorcode[e])
                    raise Violation('stopped', 'the session makes no progress after a datagram was refused with %s\n%s' % (errno.errorcode[e], px.stacks()), kind='progress')
                c.msgs[:] = [m for m in c.msgs if m[0] != TCP_CLOSE]
                px.cmd('vf err 0')
                lost += k
                ck.case(('refused', p, e), sample='refused')
                for q in TYPE:
                    d = payload(r, r.choice(SIZES), tag('u'))
                    up[(n.addr, q)].append(d)
                    c.send(msg(TYPE[q], n.addr, d))
                    d = payload(r, r.choice(SIZES), tag('d'))
                    down[q].append((n.addr, d))
                    n.sendto(q, d, c.src)
                compare(c, [n], up, down, 'datagrams refused with %s' % errno.errorcode[e])
            got = px.cmd('counters').get('n_err')
            ck.count(refused=lost, refusals=got or 0)
        finally:
            if px.alive():
                px.cmd('vf err 0')
            c.close()
            n.close()


def scenario(ck, b, net, seed, slots, vf):
    r = random.Random(seed)
    with Proxy(b.host, net, slots=slots, vf=vf) as px:
        groups = []
        try:
            for i in range(slots):
                nodes = [Node(net.node(i * 4 + k), tcp=False) for k in range(3)]
                extras = [Extra(net(180 + i * 2)), Extra(net(180 + i * 2), 20000 + i), Extra(net.node(i * 4))]
                groups.append((nodes, extras))
            seeds = [r.randrange(1 << 30) for _ in range(slots * 4)]
            for k in range(ck.n(2, 6)):
                parallel([lambda i=i: session(ck, px, groups[i][0], groups[i][1], seeds[i] + k, 'K%dX' % i, ck.n(14, 60)) for i in range(slots)])
        finally:
            for nodes, extras in groups:
                for n in nodes:
                    n.close()
                for x in extras:
                    x.close()


def body(ck):
    b = build('asan')
    net = Net()
    r = ck.rng
    for _ in range(ck.n(2, 20)):
        ck.run_case(refused, ck, b, net, r.randrange(1 << 30))
    for rep in range(ck.n(2, 8)):
        for slots, vf in ((1, {}), (1, {'short_send': 200, 'short_recv': 300}), (3, {'short_recv': 100, 'delay': 30, 'delay_us': 300}), (5, {})):
            vf = dict(vf, seed=r.randrange(1, 99999))
            ck.run_case(scenario, ck, b, net, r.randrange(1 << 30), slots, vf)


ck = Check('P05', rule='one evaluation is one relayed (or ignorable empty) datagram, judged by exact comparison of the datagram sequences at nodes and client; '
           'distinct by direction, port, size and scenario step',
           assumptions=['bursts are kept below the socket buffers, where the kernel itself would drop datagrams'])
ck.min_eval = 300
main(ck, body)
