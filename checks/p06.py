"""P06: the relayed TCP stream is exact, announced first and closed last."""
import errno

from vf.core import Check, main, Violation
from vf.build import build
from vf.scen import *

SIZES = [1, 2, 8, 9, 100, 1400, 4086, 4087, 4088, 4095, 4096, 4097, 8192, 20000]


class Hub:
    """Shares the nodes among sessions: connections are told apart by source address."""

    def __init__(self, nodes):
        self.nodes = nodes
        self.lk = threading.Lock()
        self.by_src = {}
        self.hooks = {}
        self.stray = []
        for n in nodes:
            n.on_accept = self.accept

    def accept(self, nc):
        src = nc.peer[0]
        with self.lk:
            self.by_src.setdefault(src, []).append(nc)
            h = self.hooks.get(src)
        if h:
            h(nc)


class Ep:
    def __init__(self, k, target, ok):
        self.k, self.target, self.ok = k, target, ok
        self.up, self.down = b'', b''
        self.up_exact = self.down_exact = True
        self.closes = (1, 1)
        self.nc = None
        self.kind = ''


def tcp_msgs(c):
    return [m for m in c.msgs if m[0] in (TCP_DATA, TCP_CLOSE, TCP_STATUS)]


def statuses(c):
    return sum(1 for m in c.msgs if m[0] == TCP_STATUS)


def block(r, size, t):
    return (t + r.randbytes(size))[:size]


def script(ck, px, hub, dead, seed, call, neps, others):
    r = random.Random(seed)
    c = px.session(call)
    eps = []
    try:
        src = probe(c, hub.nodes[0], 'P06')
        conns0 = len(hub.by_src.get(src, []))
        seen = conns0

        def need(cond, key, what, kind='progress'):
            ok = wait(lambda: cond() or c.eof or c.malformed)
            if c.malformed:
                raise Violation('malformed-stream', c.malformed)
            if cond():
                return
            if not px.alive():
                px.p.wait(30)
                raise px.died(what)
            if c.eof:
                raise Violation('session-ended', 'the session ended (%s) during %s\n%s' % (c.eof, what, px.log_text()[-1500:]))
            raise Violation(key, '%s did not happen (%s)\n%s' % (what, ok, px.stacks()), kind=kind)

        def tx(b):
            c.send(b, pieces=r.choice([None, None, None, 2, 5]) if len(b) > 12 else None, rng=r)

        def connected():
            """The node-side connection of the episode just opened."""
            need(lambda: len(hub.by_src.get(src, [])) > seen, 'no-connection', 'the connection arriving at the host')
            return hub.by_src[src][seen]

        def down_len():
            return sum(len(m[2]) for m in c.msgs[mark:] if m[0] == TCP_DATA)

        for k in range(neps):
            if r.random() < 0.25:
                probe(c, r.choice(hub.nodes), 'P06u', r.choice([5198, 5199]))
            bad = r.random() < 0.2
            e = Ep(k, r.choice(dead) if bad else r.choice(hub.nodes).addr, not bad)
            eps.append(e)
            mark = len(c.msgs)
            nst = sum(1 for x in eps[:-1])
            hub.hooks[src] = None
            if bad:
                e.kind = r.choice(['refused', 'refused+data', 'refused+close'])
                b = msg(TCP_OPEN, e.target)
                if e.kind == 'refused+data':
                    b += msg(TCP_DATA, e.target, block(r, r.choice(SIZES), tag('lost')))
                    e.closes = (0, 1)
                elif e.kind == 'refused+close':
                    b += msg(TCP_CLOSE)
                    e.closes = (0, 0)
                else:
                    e.closes = (0, 0)
                tx(b)
                need(lambda: statuses(c) > nst, 'no-status', 'a status for a refused open')
                ck.case((e.kind, seed, k), sample=e.kind)
                continue
            e.kind = r.choice(['client-close', 'host-close', 'host-half', 'host-rst', 'both', 'reopen', 'pipelined', 'instant', 'instant-close',
                               'fat-client', 'fat-host', 'duplex', 'empty'])
            ck.case((e.kind, seed, k, call), sample=e.kind)
            ck.count(**{'kind_' + e.kind: 1})
            t = tag('%s-%d' % (call, k))
            if e.kind in ('instant', 'instant-close'):
                e.down = block(r, r.choice(SIZES + [60000]), t)

                def hook(nc, d=e.down, close=e.kind == 'instant-close'):
                    nc.send(d)
                    if close:
                        nc.half_close()
                hub.hooks[src] = hook
            if e.kind == 'pipelined':
                parts = [block(r, r.choice(SIZES), t) for _ in range(r.randrange(0, 4))]
                e.up = b''.join(parts)
                b = msg(TCP_OPEN, e.target) + b''.join(msg(TCP_DATA, '1.2.3.4', p) for p in parts)
                if r.random() < 0.7:
                    b += msg(TCP_CLOSE)
                    tx(b)
                    need(lambda: statuses(c) > nst, 'no-status', 'a status')
                    e.nc = connected()
                    seen += 1
                    need(lambda: e.nc.eof, 'host-no-end', 'the end of the connection at the host after TCP_CLOSE')
                else:
                    tx(b)
                    need(lambda: statuses(c) > nst, 'no-status', 'a status')
                    e.nc = connected()
                    seen += 1
                    e.kind = 'pipelined+reopen'
                continue
            tx(msg(TCP_OPEN, e.target))
            need(lambda: statuses(c) > nst, 'no-status', 'a status')
            st = [m for m in c.msgs if m[0] == TCP_STATUS][-1]
            if st[2] != b'\0\0\0\0':
                raise Violation('wrong-status', 'opening a connection to a listening host reported %s\n%s' % (st[2].hex(), px.log_text()[-800:]), kind='progress')
            mark = max(i for i, m in enumerate(c.msgs) if m[0] == TCP_STATUS)
            e.nc = connected()
            seen += 1
            nc = e.nc
            if e.kind == 'instant-close':
                need(lambda: any(m[0] == TCP_CLOSE for m in c.msgs[mark:]), 'no-close', 'TCP_CLOSE after the host closed')
                need(lambda: nc.eof, 'host-no-end', 'the end of the connection at the host')
                continue
            # exchange
            if e.kind == 'duplex':
                ups = [block(r, r.choice(SIZES), t) for _ in range(r.randrange(1, 12))]
                downs = [block(r, r.choice(SIZES), t) for _ in range(r.randrange(1, 12))]

                def dn():
                    for d in downs:
                        nc.send(d)
                th = threading.Thread(target=dn, daemon=True)
                th.start()
                for u in ups:
                    tx(msg(TCP_DATA, '0.0.0.0', u))
                th.join(WAIT)
                e.up, e.down = b''.join(ups), b''.join(downs)
            elif e.kind == 'fat-client':
                nc.pause()
                big = [block(r, 65536, t) for _ in range(r.randrange(10, 60))]
                e.up = b''.join(big)
                th = threading.Thread(target=lambda: [c.send(msg(TCP_DATA, '0.0.0.0', x)) for x in big], daemon=True)
                th.start()
                time.sleep(0.03)
                # the other direction is unaffected meanwhile
                e.down = block(r, 3000, t)
                nc.send(e.down)
                need(lambda: down_len() >= len(e.down), 'down-blocked', 'relaying to the client while the host does not read')
                nc.resume()
                th.join(WAIT)
            elif e.kind == 'fat-host':
                c.pause()
                e.down = b''.join(block(r, 65536, t) for _ in range(r.randrange(10, 60)))
                th = threading.Thread(target=lambda: nc.send(e.down), daemon=True)
                th.start()
                time.sleep(0.03)
                e.up = block(r, 3000, t)
                tx(msg(TCP_DATA, '0.0.0.0', e.up))
                need(lambda: len(nc.data) >= len(e.up), 'up-blocked', 'relaying to the host while the client does not read')
                c.resume()
                th.join(WAIT)
            elif e.kind != 'empty':
                for _ in range(r.randrange(0, 6)):
                    if r.random() < 0.5:
                        u = block(r, r.choice(SIZES), t)
                        e.up += u
                        tx(msg(TCP_DATA, '0.0.0.0', u) + (msg(TCP_DATA) if r.random() < 0.2 else b''))
                    else:
                        d = block(r, r.choice(SIZES), t)
                        e.down += d
                        nc.send(d)
            # ending
            end = e.kind if e.kind in ('client-close', 'host-close', 'host-half', 'host-rst', 'both', 'reopen') else \
                r.choice(['client-close', 'host-close', 'host-half', 'reopen'])
            rush = r.random() < 0.3 and end in ('client-close', 'reopen', 'host-rst', 'both', 'host-half')
            if rush:
                # do not wait for the data: what arrives must still be a prefix
                if end in ('client-close', 'reopen'):
                    e.down_exact = False
                    e.up_exact = not e.down
                else:
                    e.up_exact = not e.up
                    e.down_exact = end == 'host-half' and not e.up
                    if e.up:
                        e.closes = (1, 1000)
            else:
                need(lambda: len(nc.data) >= len(e.up), 'up-lost', 'arrival of %d bytes at the host (%d arrived)' % (len(e.up), len(nc.data)))
                need(lambda: down_len() >= len(e.down), 'down-lost', 'arrival of %d bytes at the client (%d arrived)' % (len(e.down), down_len()))
            if any(m[0] == TCP_CLOSE for m in c.msgs[mark:]) or nc.eof:
                if not (rush and end not in ('client-close', 'reopen')):
                    raise Violation('closed-early', 'connection closed although neither side closed it (episode %s, host end %s)\n%s' % (
                        e.kind, nc.eof, px.log_text()[-1200:]))
            if end == 'client-close':
                tx(msg(TCP_CLOSE))
                need(lambda: nc.eof, 'host-no-end', 'the end of the connection at the host after TCP_CLOSE')
                need(lambda: any(m[0] == TCP_CLOSE for m in c.msgs[mark:]), 'no-close', 'TCP_CLOSE answering TCP_CLOSE')
            elif end in ('host-close', 'host-half', 'host-rst'):
                if end == 'host-half' or rush and end != 'host-rst':
                    nc.half_close()
                else:
                    nc.close(rst=end == 'host-rst')
                need(lambda: any(m[0] == TCP_CLOSE for m in c.msgs[mark:]), 'no-close', 'TCP_CLOSE after the host closed')
                if end == 'host-half':
                    need(lambda: nc.eof, 'host-no-end', 'the end of the connection at the host after it half-closed')
                if r.random() < 0.2:
                    n = r.randrange(1, 4)
                    tx(b''.join(msg(TCP_DATA, '0.0.0.0', block(r, r.choice(SIZES), tag('late'))) for _ in range(n)))
                    e.closes = (1, e.closes[1] + n)
            elif end == 'both':
                b = msg(TCP_CLOSE)
                if r.random() < 0.5:
                    nc.half_close()
                    tx(b)
                else:
                    tx(b)
                    nc.half_close()
                need(lambda: any(m[0] == TCP_CLOSE for m in c.msgs[mark:]), 'no-close', 'TCP_CLOSE after both sides closed')
                need(lambda: nc.eof, 'host-no-end', 'the end of the connection at the host')
        # barrier: everything the proxy has to say about the last connection
        final = r.choice(['open', 'half-close', 'drop'])
        hub.hooks[src] = None
        last_up = b''
        nlast = None
        mark = len(c.msgs)
        tx(msg(TCP_OPEN, dead[0]) if final == 'open' else msg(TCP_OPEN, hub.nodes[0].addr))
        need(lambda: statuses(c) > len(eps), 'no-status', 'a final status')
        if final != 'open':
            nlast = connected()
            seen += 1
            last_up = b''.join(block(r, 4096, tag('final')) for _ in range(r.randrange(1, 8)))
            tx(msg(TCP_DATA, '0.0.0.0', last_up))
            if final == 'drop':
                need(lambda: len(nlast.data) >= len(last_up), 'up-lost', 'arrival at the host')
                c.close(rst=True)
            else:
                c.s.shutdown(socket.SHUT_WR)
            if not wait(lambda: nlast.eof):
                raise Violation('host-no-end', 'the host still has its connection although the session ended\n%s' % px.stacks(), kind='progress')
            if bytes(nlast.data) != last_up:
                raise Violation('up-wrong', '%d of %d bytes sent before the client left arrived' % (len(nlast.data), len(last_up)))
        # judge: split the client's view at the statuses
        if c.malformed:
            raise Violation('malformed-stream', c.malformed)
        groups, cur = [], None
        for m in tcp_msgs(c):
            if m[0] == TCP_STATUS:
                cur = [m, b'', 0]
                groups.append(cur)
            elif cur is None:
                raise Violation('before-status', 'message of type %d before the first status' % m[0])
            elif m[0] == TCP_DATA:
                if cur[2] and eps and len(groups) <= len(eps) and eps[len(groups) - 1].closes[1] == 1:
                    raise Violation('data-after-close', 'TCP_DATA follows the TCP_CLOSE of its connection')
                cur[1] += m[2]
            else:
                cur[2] += 1
        for e, g in zip(eps, groups):
            what = 'episode %d (%s): ' % (e.k, e.kind)
            if (g[0][2] == b'\0\0\0\0') != e.ok:
                raise Violation('wrong-status', what + 'status %s for a connection which was %s' % (g[0][2].hex(), 'established' if e.ok else 'refused'))
            if not e.down.startswith(g[1]) or (e.down_exact and g[1] != e.down):
                i = next((i for i, (x, y) in enumerate(zip(g[1], e.down)) if x != y), min(len(g[1]), len(e.down)))
                raise Violation('down-wrong', what + 'client got %d bytes of %d sent by the host, first difference at %d: %r instead of %r' % (
                    len(g[1]), len(e.down), i, g[1][i:i + 40], e.down[i:i + 40]))
            if e.nc is not None:
                got = bytes(e.nc.data)
                if not e.up.startswith(got) or (e.up_exact and got != e.up):
                    i = next((i for i, (x, y) in enumerate(zip(got, e.up)) if x != y), min(len(got), len(e.up)))
                    raise Violation('up-wrong', what + 'host got %d bytes of %d sent by the client, first difference at %d: %r instead of %r' % (
                        len(got), len(e.up), i, got[i:i + 40], e.up[i:i + 40]))
                if e.nc.node.addr != e.target:
                    raise Violation('wrong-host', what + 'connection to %s instead of %s' % (e.nc.node.addr, e.target))
            if not e.closes[0] <= g[2] <= e.closes[1]:
                raise Violation('close-count', what + '%d TCP_CLOSE messages, expected %d to %d' % (g[2], e.closes[0], e.closes[1]))
        if len(groups) != len(eps) + 1:
            raise Violation('status-count', '%d statuses for %d opens' % (len(groups), len(eps) + 1))
        n = len(hub.by_src.get(src, [])) - conns0
        if n != sum(1 for e in eps if e.ok) + (nlast is not None):
            raise Violation('connection-count', '%d connections for %d opens of listening hosts' % (n, sum(1 for e in eps if e.ok) + (nlast is not None)))
        ck.count(sessions=1, connections=n, bytes_up=sum(len(e.up) for e in eps), bytes_down=sum(len(e.down) for e in eps))
    finally:
        c.close()


def scenario(ck, b, net, seed, slots, vf):
    r = random.Random(seed)
    with Proxy(b.host, net, slots=slots, vf=vf) as px:
        nodes = [Node(net.node(i)) for i in range(3)]
        half = Node(net.node(3), tcp=False)
        hub = Hub(nodes)
        dead = [half.addr, net(78)]
        try:
            for _ in range(ck.n(2, 8)):
                seeds = [r.randrange(1 << 30) for _ in range(slots)]
                parallel([lambda i=i: script(ck, px, hub, dead, seeds[i], 'K%dX' % i, ck.n(25, 60), None) for i in range(slots)])
        finally:
            for n in nodes + [half]:
                n.close()
        for k in ('close_ebadf', 'io_ebadf'):
            if px.cmd('counters')[k]:
                raise Violation('descriptor-misuse', '%s: a descriptor was used after being closed' % k)


# what keeps a connection from being made, by the call which fails
FAULTS = {
    8: [errno.ETIMEDOUT, errno.ECONNREFUSED, errno.ENETUNREACH, errno.EHOSTUNREACH, errno.ECONNRESET, errno.ENETDOWN, errno.EHOSTDOWN, errno.EADDRNOTAVAIL,
        errno.EADDRINUSE, errno.EACCES, errno.EPERM, errno.ENOBUFS, errno.ENOMEM, errno.EPROTO, errno.ENOPROTOOPT, errno.EINVAL, errno.EAFNOSUPPORT,
        errno.ECONNABORTED, errno.EIO],
    5: [errno.EADDRINUSE, errno.EADDRNOTAVAIL, errno.EACCES, errno.EPERM, errno.EINVAL, errno.ENOMEM],
    3: [errno.EMFILE, errno.ENFILE, errno.ENOBUFS, errno.ENOMEM, errno.EACCES, errno.EAFNOSUPPORT],
    9: [0],
    4: [0],
}


def failing(ck, b, net, seed):
    """Whatever makes an attempt fail, the status says so, nothing of it lingers and the next attempt works."""
    r = random.Random(seed)
    with Proxy(b.host, net, slots=1, vf={'seed': seed % 99991}) as px:
        node = Node(net.node(1))
        hub = Hub([node])
        c = px.session('FA1LX')
        try:
            src = probe(c, node, 'P06f')
            hub.hooks[src] = None

            def until(cond, key, what):
                if not wait(lambda: cond() or c.eof or c.malformed) or not cond():
                    if not px.alive():
                        px.p.wait(30)
                        raise px.died(what)
                    raise Violation(key, '%s did not happen (%s)\n%s' % (what, c.malformed or c.eof, px.log_text()[-1500:]), kind='progress')

            def ncon():
                return len(hub.by_src.get(src, []))
            todo = [(k, e) for k, v in FAULTS.items() for e in v]
            r.shuffle(todo)
            for cls, e in todo:
                what = 'a connection attempt whose call of class %d fails with %s' % (cls, errno.errorcode.get(e, e))
                n0, s0, mark = ncon(), statuses(c), len(c.msgs)
                px.cmd('vf err_no %d' % e)
                px.cmd('vf err_mask %d' % (1 << cls))
                px.cmd('vf err 1000')
                c.send(msg(TCP_OPEN, node.addr))
                until(lambda: statuses(c) > s0, 'no-status', 'a status for ' + what)
                px.cmd('vf err 0')
                st = [m for m in c.msgs[mark:] if m[0] == TCP_STATUS][0][2]
                ck.case(('failing', cls, e), sample='failing')
                if st == b'\0\0\0\0':
                    # then there is one
                    if not wait(lambda: ncon() > n0, 3):
                        raise Violation('wrong-status', what + ' was reported as established')
                    ck.count(fault_avoided=1)
                    c.send(msg(TCP_CLOSE))
                    until(lambda: any(m[0] == TCP_CLOSE for m in c.msgs[mark:]), 'no-close', 'TCP_CLOSE')
                else:
                    ck.count(fault_reported=1)
                    if r.random() < 0.5:
                        c.send(msg(TCP_DATA, '0.0.0.0', tag('lost')))
                        until(lambda: any(m[0] == TCP_CLOSE for m in c.msgs[mark:]), 'no-close', 'TCP_CLOSE for data without a connection')
                    if ncon() != n0:
                        raise Violation('wrong-status', 'status %s for a connection which arrived' % st.hex())
                if r.random() < 0.5:
                    # and now it works
                    n0, s0, mark = ncon(), statuses(c), len(c.msgs)
                    t, d = tag('up'), tag('down')
                    c.send(msg(TCP_OPEN, node.addr) + msg(TCP_DATA, '0.0.0.0', t))
                    until(lambda: statuses(c) > s0, 'no-status', 'a status after ' + what)
                    st = [m for m in c.msgs[mark:] if m[0] == TCP_STATUS][0][2]
                    if st != b'\0\0\0\0':
                        raise Violation('wrong-status', 'after %s, opening a connection to a listening host reported %s\n%s' % (what, st.hex(), px.log_text()[-800:]),
                                        kind='progress')
                    until(lambda: ncon() > n0, 'no-connection', 'the connection after ' + what)
                    nc = hub.by_src[src][n0]
                    until(lambda: len(nc.data) >= len(t), 'up-lost', 'arrival at the host')
                    nc.send(d)
                    until(lambda: b''.join(m[2] for m in c.msgs[mark:] if m[0] == TCP_DATA) == d, 'down-lost', 'arrival at the client')
                    if bytes(nc.data) != t:
                        raise Violation('up-wrong', 'host got %r instead of %r after %s' % (bytes(nc.data), t, what))
                    if r.random() < 0.5:
                        c.send(msg(TCP_CLOSE))
                        until(lambda: nc.eof, 'host-no-end', 'the end of the connection')
                        until(lambda: any(m[0] == TCP_CLOSE for m in c.msgs[mark:]), 'no-close', 'TCP_CLOSE')
            probe(c, node, 'P06g')
        finally:
            px.cmd('vf err 0') if px.alive() else None
            c.close()
            node.close()


def body(ck):
    b = build('asan')
    net = Net()
    r = ck.rng
    for _ in range(ck.n(2, 20)):
        ck.run_case(failing, ck, b, net, r.randrange(1 << 30))
    for rep in range(ck.n(2, 10)):
        for slots, vf in ((1, {}), (1, {'short_send': 300, 'short_recv': 300, 'short_max': 300}), (2, {'delay': 40, 'delay_us': 400}),
                          (4, {'short_recv': 50, 'delay': 20, 'delay_us': 200}), (1, {'delay': 300, 'delay_us': 600})):
            ck.run_case(scenario, ck, b, net, r.randrange(1 << 30), slots, dict(vf, seed=r.randrange(1, 99999)))


ck = Check('P06', rule='one evaluation is one relayed TCP connection attempt, judged by exact comparison of the byte streams at both ends and the number and '
           'position of status and close messages; distinct by kind of ending and scenario step',
           assumptions=['bytes in flight when a connection is reset or closed against unread data may be lost, as TCP itself allows'])
ck.min_eval = 200
main(ck, body)
