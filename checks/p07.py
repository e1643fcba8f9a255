"""P07: the byte stream to a client is always a sequence of whole messages."""
from vf.core import Check, main, Violation
from vf.build import build
from vf.scen import *

TYPE = {5198: UDP_DATA, 5199: UDP_CONTROL}


class Flood:
    """One source of datagrams towards a session; remembers what it sent."""

    def __init__(self, node, port, dest, seed, count, gap):
        self.node, self.port, self.dest, self.count, self.gap = node, port, dest, count, gap
        self.r = random.Random(seed)
        self.sent = {}
        self.order = []

    def __call__(self):
        for i in range(self.count):
            head = b'%s:%d:%d|' % (self.node.addr.encode(), self.port, i)
            n = self.r.choice([0, 1, 20, 200, 1400, 4000 if self.r.random() < 0.3 else 700])
            d = head + self.r.randbytes(n)
            self.sent[head] = (d, i)
            self.node.sendto(self.port, d, self.dest)
            if self.gap and self.r.random() < 0.5:
                time.sleep(self.r.random() * self.gap)


def verify(ck, c, floods, streams, what):
    if c.malformed:
        raise Violation('malformed-stream', '%s: %s; around: %s' % (what, c.malformed, bytes(c.raw[max(8, c.parsed - 40):c.parsed + 60])))
    heads = {}
    for f in floods:
        heads.update({h: (f, v) for h, v in f.sent.items()})
    last = {}
    seen = set()
    cur = -1
    got = []
    for i, m in enumerate(c.msgs):
        if m[0] in TYPE.values():
            k = m[2].find(b'|')
            h = heads.get(m[2][:k + 1])
            if h is None or h[1][0] != m[2]:
                raise Violation('foreign-content', '%s: message %d of type %d (%d bytes) has content nobody sent: %r... (before it: %r)' % (
                    what, i, m[0], len(m[2]), m[2][:60], c.msgs[i - 1][2][-30:] if i else b''))
            f, (d, seq) = h
            if m[0] != TYPE[f.port] or m[1] != f.node.addr:
                raise Violation('wrong-header', '%s: message %d has type %d and address %s, but was sent by %s to port %d' % (
                    what, i, m[0], m[1], f.node.addr, f.port))
            if m[2][:k + 1] in seen:
                raise Violation('duplicated', '%s: message %d delivers a datagram again' % (what, i))
            seen.add(m[2][:k + 1])
            if last.get(f, -1) > seq:
                raise Violation('reordered', '%s: datagram %d after %d of the same source' % (what, seq, last[f]))
            last[f] = seq
        elif m[0] == TCP_STATUS:
            cur += 1
            got.append(b'')
        elif m[0] == TCP_DATA:
            if cur < 0:
                raise Violation('before-status', 'TCP_DATA before a status')
            got[cur] += m[2]
    for g, s in zip(got, streams):
        if not s.startswith(g):
            i = next((i for i, (x, y) in enumerate(zip(g, s)) if x != y), len(s))
            raise Violation('tcp-content', '%s: relayed TCP stream differs at %d of %d' % (what, i, len(g)))
    return len(seen), got


def scenario(ck, b, net, seed, vf, shape):
    r = random.Random(seed)
    with Proxy(b.host, net, slots=1, vf=vf, loglevel=1) as px:
        nodes = [Node(net.node(i)) for i in range(3)]
        try:
            for k in range(ck.n(3, 12)):
                c = px.session('N0CALL', rcvbuf=r.choice([None, 4096, 8192]))
                src = probe(c, nodes[0], 'P07')
                blob = random.Random(seed + k).randbytes(ck.n(400000, 3000000))
                streams = []
                stop = threading.Event()

                def serve(nc):
                    def go():
                        for i in range(0, len(blob), 30000):
                            if not nc.send(blob[i:i + 30000]):
                                break
                        nc.half_close()
                    threading.Thread(target=go, daemon=True).start()
                nodes[0].on_accept = serve
                count = ck.n(400, 3000)
                floods = [Flood(n, p, src, r.randrange(1 << 30), count, r.choice([0, 0.001])) for n in nodes for p in TYPE]

                def reader():
                    """An irregular reader."""
                    q = random.Random(seed * 7 + k)
                    while not stop.is_set():
                        if shape != 'fast':
                            c.pause()
                            time.sleep(q.random() * (0.02 if shape == 'slow' else 0.15))
                            c.resume()
                        time.sleep(q.random() * 0.01)
                    c.resume()

                def opener():
                    """Statuses and closes in between."""
                    q = random.Random(seed * 11 + k)
                    for i in range(ck.n(6, 20)):
                        streams.append(blob)
                        c.send(msg(TCP_OPEN, nodes[0].addr))
                        n = len(streams)
                        if not wait(lambda: sum(1 for m in c.msgs if m[0] == TCP_STATUS) >= n or c.eof or c.malformed, 40):
                            raise Violation('no-status', 'no status while traffic arrives\n' + px.stacks(), kind='progress')
                        if q.random() < 0.5:
                            wait(lambda: c.msgs and c.msgs[-1][0] == TCP_CLOSE or c.eof or c.malformed, q.random() * 2)
                        c.send(msg(UDP_DATA, nodes[1].addr, b'up') + (msg(TCP_CLOSE) if q.random() < 0.6 else b''))
                        if c.eof or c.malformed:
                            return

                rt = threading.Thread(target=reader, daemon=True)
                rt.start()
                try:
                    parallel(floods + [opener])
                finally:
                    stop.set()
                    rt.join(5)
                # markers end the session's traffic; they are repeated as datagrams may be lost in a full buffer
                c.send(msg(TCP_OPEN, net(79)))
                streams.append(b'')
                nst = len(streams)
                wait(lambda: sum(1 for m in c.msgs if m[0] == TCP_STATUS) >= nst or c.eof or c.malformed, 60)
                px.quiesce()
                what = 'session %d (%s)' % (k, shape)
                nd, got = verify(ck, c, floods + [], streams, what)
                if c.eof:
                    if not px.alive():
                        px.p.wait(30)
                        raise px.died(what)
                    raise Violation('session-ended', '%s ended by itself: %s\n%s' % (what, c.eof, px.log_text()[-800:]))
                if len(got) != nst:
                    raise Violation('no-status', '%d of %d statuses' % (len(got), nst), kind='progress')
                if not wait(lambda: c.parsed == len(c.raw), 5):
                    raise Violation('truncated', '%s: %d bytes of an incomplete message although nothing is going on: %r' % (
                        what, len(c.raw) - c.parsed, bytes(c.raw[c.parsed:c.parsed + 40])))
                sw = sum(1 for x, y in zip(c.msgs, c.msgs[1:]) if x[0] != y[0])
                ck.case((seed, k, shape, len(c.msgs)), sw > 10, sample='%s: %d messages, %d changes of type' % (shape, len(c.msgs), sw))
                ck.evaluations += len(c.msgs) - 1
                ck.count(sessions=1, messages=len(c.msgs), datagrams=nd, tcp_bytes=sum(map(len, got)), type_switches=sw)
                c.close(rst=r.random() < 0.5)
                for n in nodes:
                    for nc in n.conns:
                        nc.close(rst=True)
                    n.conns = []
        finally:
            for n in nodes:
                n.close()
        try:
            k = px.cmd('counters')
            ck.count(short_transfers=k['n_short'], delays=k['n_delay'])
        except Violation:
            pass


def control(ck, b, net, seed, vf):
    """Many short messages (statuses and closes of every origin) amid datagrams from all sides."""
    r = random.Random(seed)
    with Proxy(b.host, net, slots=1, vf=vf, loglevel=1) as px:
        nodes = [Node(net.node(i)) for i in range(3)]
        try:
            for k in range(ck.n(2, 10)):
                c = px.session('N0CALL', rcvbuf=r.choice([None, 16384]))
                src = probe(c, nodes[0], 'P07')
                small = [random.Random(seed + i).randbytes(40) for i in range(4)]
                q = random.Random(seed * 5 + k)

                def serve(nc):
                    d = small[len(nodes[0].conns) % 4]
                    if q.random() < 0.7:
                        nc.send(d)
                    x = q.random()
                    if x < 0.5:
                        nc.close(rst=q.random() < 0.3)
                    elif x < 0.7:
                        nc.half_close()
                nodes[0].on_accept = serve
                floods = [Flood(n, p, src, r.randrange(1 << 30), ck.n(500, 2500), r.choice([0.001, 0.003])) for n in nodes for p in TYPE]
                nst = [0]

                def opener():
                    z = random.Random(seed * 13 + k)
                    for i in range(ck.n(80, 400)):
                        x = z.random()
                        if x < 0.4:
                            # data without a connection is answered by closes
                            c.send(msg(TCP_CLOSE) + msg(TCP_DATA, payload=b'lost') * z.randrange(1, 6))
                        else:
                            c.send(msg(TCP_OPEN, nodes[0].addr if x < 0.8 else net(79)))
                            nst[0] += 1
                            if not wait(lambda: sum(1 for m in c.msgs if m[0] == TCP_STATUS) >= nst[0] or c.eof or c.malformed, 40):
                                raise Violation('no-status', 'no status while traffic arrives\n' + px.stacks(), kind='progress')
                        if c.eof or c.malformed:
                            return
                        time.sleep(z.random() * 0.01)
                parallel(floods + [opener])
                c.send(msg(TCP_OPEN, net(79)))
                nst[0] += 1
                wait(lambda: sum(1 for m in c.msgs if m[0] == TCP_STATUS) >= nst[0] or c.eof or c.malformed, 60)
                px.quiesce()
                what = 'session %d (control)' % k
                # the content of the small streams is not this property's business
                nd, got = verify(ck, c, floods, [], what)
                if c.eof:
                    if not px.alive():
                        px.p.wait(30)
                        raise px.died(what)
                    raise Violation('session-ended', '%s ended by itself: %s\n%s' % (what, c.eof, px.log_text()[-800:]))
                if len(got) != nst[0]:
                    raise Violation('no-status', '%d of %d statuses' % (len(got), nst[0]), kind='progress')
                for g in got:
                    if g and g not in small:
                        raise Violation('tcp-content', '%s: a host sent %r' % (what, g))
                if not wait(lambda: c.parsed == len(c.raw), 5):
                    raise Violation('truncated', '%s: %d bytes of an incomplete message although nothing is going on: %r' % (
                        what, len(c.raw) - c.parsed, bytes(c.raw[c.parsed:c.parsed + 40])))
                sw = sum(1 for x, y in zip(c.msgs, c.msgs[1:]) if x[0] != y[0])
                ck.case((seed, k, 'control', len(c.msgs)), sw > 10, sample='control: %d messages, %d changes of type' % (len(c.msgs), sw))
                ck.evaluations += len(c.msgs) - 1
                ck.count(sessions=1, messages=len(c.msgs), datagrams=nd, type_switches=sw, closes=sum(1 for m in c.msgs if m[0] == TCP_CLOSE), statuses=nst[0])
                c.close(rst=r.random() < 0.5)
                for n in nodes:
                    for nc in n.conns:
                        nc.close(rst=True)
                    n.conns = []
        finally:
            for n in nodes:
                n.close()


def body(ck):
    b = build('asan')
    net = Net()
    r = ck.rng
    for rep in range(ck.n(1, 6)):
        for vf in ({'short_send': 700, 'short_max': 2000, 'send_delay_us': 300}, {'short_send': 900, 'short_max': 40, 'send_delay_us': 100}, {'delay': 100, 'delay_us': 300}):
            ck.run_case(control, ck, b, net, r.randrange(1 << 30), dict(vf, seed=r.randrange(1, 99999)))
        for vf, shape in (({}, 'fast'), ({}, 'slow'), ({'short_send': 500, 'short_max': 40, 'send_delay_us': 200}, 'fast'),
                          ({'short_send': 500, 'short_max': 2000, 'send_delay_us': 300, 'short_recv': 200}, 'slow'),
                          ({'delay': 100, 'delay_us': 300}, 'stall'), ({'short_send': 900, 'short_max': 9, 'short_recv': 400}, 'fast')):
            ck.run_case(scenario, ck, b, net, r.randrange(1 << 30), dict(vf, seed=r.randrange(1, 99999)), shape)


ck = Check('P07', rule='one evaluation is one message at the client, judged for header, content, source, order and uniqueness; a distinct case is one session '
           'with traffic from three relays interleaved (more than ten changes of type)',
           assumptions=['datagrams dropped by a full socket buffer are not counted as lost'])
ck.min_eval = 1000
main(ck, body)
