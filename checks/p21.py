"""P21: sessions are isolated from one another and from their predecessors."""
from vf.core import Check, main, Violation, Inconclusive
from vf.build import build
from vf.scen import *

REC = 32
SLOW = 8.0        # a round trip of an undisturbed session which takes longer is a delay


class World:
    def __init__(self, ck, b, net, seed, slots, vf, nnodes=2):
        self.ck, self.net, self.r, self.slots = ck, net, random.Random(seed), slots
        self.px = Proxy(b.host, net, slots=slots, loglevel=self.r.choice([2, 4]), vf=dict(vf, seed=seed % 99991 + 1))
        self.nodes = [Node(net.node(i)) for i in range(nnodes)]
        for n in self.nodes:
            n.on_accept = self.accepted
        self.lk = threading.Lock()
        self.sent = {}          # payload -> (sid, seq, direction, port, node address, time sent, external address)
        self.ext = {}           # sid -> external address
        self.begin = {}
        self.open_nodes = {}    # sid -> connections opened
        self.nsid = 0
        self.exts = [net.ext(i) for i in range(slots)]
        self.stop = threading.Event()

    def accepted(self, c):
        c.sid = None

    def sid(self):
        with self.lk:
            self.nsid += 1
            return self.nsid

    def payload(self, r, sid, seq, direction, port, node, ext=None, size=None):
        head = ('%s%d.%d.%d.%s|' % (direction, sid, seq, port, node.addr[-3:])).encode()
        p = head + r.randbytes(min(size if size is not None else r.choice([0, 1, 10, 100, 900, 1400, 3000]), 3900))
        with self.lk:
            self.sent[p] = (sid, seq, direction, port, node.addr, None, ext)
        return p

    def stamp(self, p):
        with self.lk:
            x = self.sent[p]
            self.sent[p] = x[:5] + (time.monotonic(),) + x[6:]

    def close(self):
        self.px.cleanup()
        for n in self.nodes:
            n.close()

    # -- the oracle -----------------------------------------------------------------
    def judge_client(self, s):
        c = s.c
        if c.malformed:
            raise Violation('malformed-stream', 'session %d: %s' % (s.sid, c.malformed))
        last = {}
        tcp = b''
        for t, a, p in list(c.msgs):
            if t in (UDP_DATA, UDP_CONTROL):
                x = self.sent.get(p)
                what = 'session %d on %s received %r... (%d bytes) from %s' % (s.sid, s.ext, p[:40], len(p), a)
                if x is None:
                    raise Violation('foreign-bytes', what + ', which nobody sent', witness=p)
                sid, seq, d, port, node, when, ext = x
                if d != 'h':
                    raise Violation('foreign-bytes', what + ', which a client sent')
                if a != node or (port == 5198) != (t == UDP_DATA):
                    raise Violation('wrong-origin', what + ', sent by %s port %d' % (node, port))
                if ext != s.ext and s.ext is not None:
                    raise Violation('crossed', what + ', sent to %s for session %d' % (ext, sid))
                if sid != s.sid:
                    # only what the host still sent to the address since then
                    if when is not None and when < s.t0:
                        raise Violation('predecessor', what + ', sent to session %d %.1f ms before this one began' % (sid, 1000 * (s.t0 - when)))
                    self.ck.count(late_datagrams=1)
                k = (sid, node, port)
                if seq <= last.get(k, -1):
                    raise Violation('order', what + ' after number %d' % last[k])
                last[k] = seq
                self.ck.count(received_by_clients=1)
            elif t == TCP_DATA:
                tcp += p
                self.records(s.sid, tcp, 'session %d' % s.sid)
                if len(tcp) > 4 * REC:
                    tcp = tcp[len(tcp) // REC * REC:] if len(tcp) % REC else b''
            elif t in (TCP_STATUS, TCP_CLOSE):
                if not s.tcp_used:
                    raise Violation('predecessor', 'session %d, which has opened nothing, received message type %d %r' % (s.sid, t, p))
                tcp = b''
                self.ck.count(tcp_events=1)

    def records(self, sid, data, who):
        for i in range(0, len(data) - REC + 1, REC):
            rec = data[i:i + REC]
            if not re.fullmatch(rb's%d\.\d+\.\d+\|x*' % sid, rec):
                raise Violation('stream-mixed', '%s received stream bytes %r' % (who, rec))
            self.ck.count(stream_records=1)
        tail = data[len(data) // REC * REC:]
        head = b's%d.' % sid
        if tail and not head.startswith(tail[:len(head)]) and not tail.startswith(head):
            raise Violation('stream-mixed', '%s received stream bytes %r' % (who, tail))

    def judge_nodes(self):
        for n in self.nodes:
            cur, done, last = {}, set(), {}
            for port, src, sport, p in list(n.dgrams):
                x = self.sent.get(p)
                what = 'host %s received %r... (%d bytes) from %s:%d' % (n.addr, p[:40], len(p), src, sport)
                if x is None:
                    raise Violation('foreign-bytes', what + ', which nobody sent', witness=p)
                sid, seq, d, want, node, when, ext = x
                if d != 'c' or want != port or node != n.addr or sport != port:
                    raise Violation('misdelivered', what + ', sent by %s %d for %s port %d' % (d, sid, node, want))
                if src not in self.exts:
                    raise Violation('wrong-source', what)
                e = self.ext.setdefault(sid, src)
                if e != src:
                    raise Violation('crossed', what + ', but the session has %s' % e)
                k = (src, port)
                if cur.get(k) != sid:
                    if (k, sid) in done:
                        raise Violation('predecessor', what + ' through the session %s which followed' % cur.get(k))
                    if k in cur:
                        done.add((k, cur[k]))
                    cur[k] = sid
                kk = (sid, port)
                if seq <= last.get(kk, -1):
                    raise Violation('order', what + ' after number %d' % last[kk])
                last[kk] = seq
                self.ck.count(received_by_hosts=1)
            for c in list(n.conns):
                d = bytes(c.data)
                if not d:
                    continue
                m = re.match(rb's(\d+)\.', d)
                if not m:
                    if len(d) >= 4 and not re.match(rb's\d+$', d):
                        raise Violation('stream-mixed', 'host received a stream beginning %r' % d[:40])
                    continue
                sid = int(m.group(1))
                self.records(sid, d, 'host connection of session %d' % sid)
                if sid in self.ext and self.ext[sid] != c.peer[0]:
                    raise Violation('crossed', 'stream of session %d comes from %s instead of %s' % (sid, c.peer[0], self.ext[sid]))
                if c.peer[0] not in self.exts:
                    raise Violation('wrong-source', 'stream of session %d comes from %s' % (sid, c.peer[0]))
                self.ck.count(streams=1)


class Session:
    """A client and what it does."""

    def __init__(self, w, r, call):
        self.w, self.r, self.call = w, r, call
        self.tcp_used = False
        self.seq = {}
        self.ext = None
        self.node = None
        self.pos = 0
        self.nopen = 0

    def login(self, timeout=WAIT, **kw):
        end = time.monotonic() + timeout
        while not self.w.stop.is_set():
            self.t0 = time.monotonic()
            c = self.w.px.client(**kw)
            wait(lambda: len(c.raw) >= 8 or c.eof)
            if len(c.raw) >= 8:
                self.sid = self.w.sid()
                self.c = c
                c.greet(self.call, self.w.px.password)
                return True
            c.close()
            if not self.w.px.alive():
                self.w.px.p.wait(30)
                raise self.w.px.died('waiting for a session')
            if time.monotonic() > end:
                return False
            time.sleep(self.r.random() * 0.01)
        return False

    def num(self, k):
        self.seq[k] = self.seq.get(k, -1) + 1
        return self.seq[k]

    def out(self, node=None, port=None, size=None):
        node = node or self.r.choice(self.w.nodes)
        port = port or self.r.choice((5198, 5199))
        self.port = port
        p = self.w.payload(self.r, self.sid, self.num(('c', node.addr, port)), 'c', port, node, size=size)
        self.c.send(msg(UDP_DATA if port == 5198 else UDP_CONTROL, node.addr, p))
        return p, node, port

    def learn(self, timeout=WAIT):
        """The external address, from the first datagram which arrives."""
        p, node, port = self.out(size=5)

        def find():
            for x in node.dgrams[::-1]:
                if x[3] == p:
                    return x
        wait(lambda: find() or self.c.eof, timeout)
        x = find()
        if x is None:
            return False
        self.ext = x[1]
        with self.w.lk:
            self.w.ext.setdefault(self.sid, x[1])
        return True

    def inn(self, node=None, port=None, size=None):
        if self.ext is None:
            return None
        node = node or self.r.choice(self.w.nodes)
        port = port or self.r.choice((5198, 5199))
        p = self.w.payload(self.r, self.sid, self.num(('h', node.addr, port)), 'h', port, node, self.ext, size)
        node.sendto(port, p, self.ext)
        self.w.stamp(p)
        return p, node, port

    def roundtrip(self, limit, what):
        t = time.monotonic()
        p, node, port = self.out(size=20)
        if not wait(lambda: any(x[3] == p for x in node.dgrams[-4000:][::-1]) or self.c.eof, limit) or self.c.eof:
            raise Violation('interrupted' if self.c.eof else 'delayed', '%s: a datagram of session %d (%s) to a host: %s\n%s\n%s' % (
                what, self.sid, self.ext, self.c.eof or 'not relayed within %.0f s' % limit, self.w.px.log_text()[-800:], self.w.px.stacks()), 'progress')
        self.ext = self.ext or [x[1] for x in node.dgrams if x[3] == p][0]
        p, node, port = self.inn(size=20)
        if not self.c.wait_msgs(lambda m: any(x[2] == p for x in m[-4000:][::-1]), 'return', limit):
            raise Violation('interrupted' if self.c.eof else 'delayed', '%s: a datagram of a host to session %d (%s): %s\n%s\n%s' % (
                what, self.sid, self.ext, self.c.eof or 'not relayed within %.0f s' % limit, self.w.px.log_text()[-800:], self.w.px.stacks()), 'progress')
        self.w.ck.maxi(slowest_roundtrip_ms=int(1000 * (time.monotonic() - t)))
        self.w.ck.count(roundtrips=1)

    def recs(self, n):
        out = b''
        for _ in range(n):
            h = b's%d.%d.%d|' % (self.sid, self.nopen, self.pos)
            out += h + b'x' * (REC - len(h))
            self.pos += 1
        return out

    def tcp_open(self, node=None):
        self.tcp_used = True
        self.nopen += 1
        self.node = node or self.r.choice(self.w.nodes)
        self.c.send(msg(TCP_OPEN, self.node.addr))

    def tcp_data(self, n=None):
        self.tcp_used = True
        self.c.send(msg(TCP_DATA, payload=self.recs(n or self.r.choice([1, 3, 40, 100]))))

    def tcp_close(self):
        self.c.send(msg(TCP_CLOSE))

    def host_streams(self):
        """Hosts write on connections of this session, recognised by what came in."""
        for n in self.w.nodes:
            for c in list(n.conns):
                if not c.closed and not c.eof and c.data.startswith(b's%d.' % self.sid):
                    host_write(c, self.recs(self.r.choice([1, 20, 200])))


def host_write(c, data):
    """Writes whole records or marks the stream as no longer in step."""
    if not getattr(c, 'clean', True):
        return
    try:
        n = c.s.send(data, socket.MSG_DONTWAIT)
        if n % REC:
            c.clean = False
    except (BlockingIOError, OSError):
        pass


def churn(ck, b, net, seed, slots, vf, secs):
    """Sessions begin and end on the same slots with traffic everywhere."""
    w = World(ck, b, net, seed, slots, vf)
    try:
        ends = time.monotonic() + secs
        judged = []

        def worker(i):
            r = random.Random('%d:%d' % (seed, i))
            calls = ['K%dA%s' % (i % 10, chr(65 + i // 10) + x) for x in 'AB']
            while time.monotonic() < ends:
                s = Session(w, r, r.choice(calls))
                if not s.login(2.0):
                    continue
                ck.count(sessions=1)
                try:
                    if r.random() < 0.85:
                        s.learn(5)
                    for _ in range(r.choice([0, 1, 3, 10, 25])):
                        if s.c.eof:
                            break
                        k = r.random()
                        if k < 0.3:
                            for _ in range(r.choice([1, 1, 5])):
                                s.out()
                        elif k < 0.6:
                            for _ in range(r.choice([1, 1, 5])):
                                s.inn()
                        elif k < 0.7:
                            s.tcp_open()
                        elif k < 0.8 and s.nopen:
                            s.tcp_data()
                        elif k < 0.9 and s.nopen:
                            s.host_streams()
                        elif k < 0.93 and s.nopen:
                            s.tcp_close()
                        elif k < 0.96:
                            s.c.resume() if s.c.paused else s.c.pause()
                        else:
                            time.sleep(r.random() * 0.004)
                    # leave with traffic under way in both directions
                    if r.random() < 0.7:
                        for _ in range(r.choice([3, 10, 30])):
                            (s.out if r.random() < 0.5 else s.inn)()
                        if s.nopen:
                            s.tcp_data(20)
                            s.host_streams()
                    if s.c.paused:
                        if r.random() < 0.5:
                            s.c.resume()
                    how = r.random()
                    if how < 0.3:
                        s.c.close(rst=True)
                    elif how < 0.5:
                        s.c.s.shutdown(socket.SHUT_WR)
                        if not s.c.paused:
                            s.c.wait_eof(3)
                        s.c.close()
                    elif how < 0.6:
                        s.c.send(b'\xff' * 9)
                        s.c.wait_eof(2)
                        s.c.close()
                    else:
                        s.c.close()
                finally:
                    s.c.close()
                w.judge_client(s)
                with w.lk:
                    judged.append((s.sid, s.tcp_used))
        parallel([lambda i=i: worker(i) for i in range(slots + 2)], secs + 60)
        w.px.quiesce(10)
        w.judge_nodes()
        # everyone is gone: each slot gives undisturbed service
        last = []
        for i in range(slots):
            s = Session(w, w.r, 'Z%dZZ' % i)
            if not s.login():
                raise Violation('no-service', 'after the churn: no session\n%s\n%s' % (w.px.log_text()[-800:], w.px.stacks()), 'progress')
            last.append(s)
            s.roundtrip(WAIT, 'after the churn')
        time.sleep(0.02)
        for s in last:
            w.judge_client(s)
            s.c.close()
        w.judge_nodes()
        if w.px.san():
            raise Violation('sanitizer:' + w.px.san()[0][0], w.px.san()[0][1])
        w.px.down()
        w.px.end()
        for sid, tcp in judged:
            ck.case(('churn', seed, sid), nontrivial=True)
        ck.samples.append('%d slots, %d sessions in %.0f s, %s' % (slots, w.nsid, secs, vf)) if len(ck.samples) < 8 else None
    finally:
        w.stop.set()
        w.close()


def handover(ck, b, net, seed, vf, n):
    """One slot: a predecessor leaves with datagrams and stream bytes on their way, a successor follows at once."""
    w = World(ck, b, net, seed, 1, vf, 1)
    r = w.r
    node = w.nodes[0]
    try:
        for i in range(n):
            if ck.left() < 10:
                break
            a = Session(w, r, 'W1A')
            if not a.login():
                raise Violation('no-service', 'no session\n%s\n%s' % (w.px.log_text()[-800:], w.px.stacks()), 'progress')
            mode = r.choice(['udp', 'udp', 'tcp', 'tcp', 'tcpflood', 'stall', 'tcpopening', 'hostgone'])
            if not a.learn(10):
                a.c.close()
                continue
            nc = len(node.conns)
            if mode in ('tcp', 'tcpflood', 'hostgone'):
                a.tcp_open(node)
                a.tcp_data(1)
                wait(lambda: len(node.conns) > nc and len(node.conns[-1].data) >= REC, 5)
                if mode == 'tcpflood':
                    node.conns[-1].pause()
                    for _ in range(8):
                        a.c.s.setblocking(False)
                        try:
                            a.c.s.send(msg(TCP_DATA, payload=a.recs(500)))
                        except OSError:
                            break
                    a.c.s.settimeout(WAIT)
                for _ in range(r.choice([1, 5])):
                    host_write(node.conns[-1], a.recs(r.choice([1, 100, 1000])))
                if mode == 'hostgone':
                    node.conns[-1].close(rst=r.random() < 0.5)
            elif mode == 'tcpopening':
                a.tcp_open(node)
            elif mode == 'stall':
                a.c.pause()
            for _ in range(r.choice([0, 2, 20, 60])):
                a.inn(node)
            if mode == 'udp':
                for _ in range(r.choice([0, 2, 20])):
                    a.out(node)
            if mode == 'stall' and r.random() < 0.5:
                a.c.resume()
            a.c.close(rst=r.random() < 0.4)
            w.judge_client(a)
            s = Session(w, r, r.choice(['W1A', 'W1A', 'W2B']))
            early = r.random() < 0.5
            if not s.login():
                raise Violation('no-service', 'no session after the predecessor (%s)\n%s\n%s' % (mode, w.px.log_text()[-800:], w.px.stacks()), 'progress')
            if early:
                # nothing is asked for, so nothing may come
                time.sleep(r.choice([0.002, 0.02]))
                if not s.learn(10):
                    raise Violation('interrupted', 'successor after %s is not served (%s)\n%s' % (mode, s.c.eof, w.px.log_text()[-800:]), 'progress')
                w.judge_client(s)
            s.roundtrip(WAIT, 'after a predecessor (%s)' % mode)
            if mode.startswith('tcp') and r.random() < 0.7:
                n0 = len(node.conns)
                s.tcp_open(node)
                s.tcp_data(2)
                wait(lambda: len(node.conns) > n0 and len(node.conns[-1].data) >= 2 * REC or s.c.eof, 5)
                if len(node.conns) > n0:
                    host_write(node.conns[-1], s.recs(3))
                s.roundtrip(WAIT, 'with a stream after a predecessor (%s)' % mode)
            s.c.close()
            w.judge_client(s)
            ck.case(('handover', mode, early, s.call == 'W1A', tuple(sorted(vf))), sample='%s, successor %s' % (mode, s.call))
            ck.count(handovers=1)
        w.px.quiesce(10)
        w.judge_nodes()
        if w.px.san():
            raise Violation('sanitizer:' + w.px.san()[0][0], w.px.san()[0][1])
        w.px.down()
        w.px.end()
    finally:
        w.stop.set()
        w.close()


def nuisance(ck, b, net, seed, vf, secs):
    """Undisturbed sessions next to stalled, connecting, flooding and half-finished ones."""
    r = random.Random(seed)
    kinds = r.sample(['stalled', 'connecting', 'hoststall', 'preauth', 'flood', 'reopen', 'garbage', 'half'], 4)
    w = World(ck, b, net, seed, len(kinds) + 2, vf)
    w.r = r
    plugs = []
    bad = []
    sink = Node(net.node(9))
    try:
        victims = []
        for i in range(2):
            s = Session(w, r, 'V%dV' % i)
            if not s.login() or not s.learn():
                raise Violation('no-service', 'no session', 'progress')
            s.tcp_open(w.nodes[i])
            s.tcp_data(1)
            victims.append(s)
        loops = []

        def flood(s):
            while not w.stop.is_set() and not s.c.eof:
                s.out(w.nodes[0], size=900)
                time.sleep(0.0005)

        def more(s):
            while not w.stop.is_set():
                for port in (5198, 5199):
                    s.inn(port=port, size=3900)
                time.sleep(0.01)

        def reopen(s):
            while not w.stop.is_set() and not s.c.eof:
                s.tcp_open(sink)
                s.tcp_data(1)
                time.sleep(0.002)
        for k in kinds:
            s = Session(w, r, 'B%sB' % k[:3].upper())
            if k == 'preauth':
                s.c = w.px.client()
                bad.append(s)
                continue
            if k == 'half':
                s.c = w.px.client()
                s.c.send(b'W1A')
                bad.append(s)
                continue
            if not s.login(rcvbuf=4096):
                raise Violation('no-service', 'no session for %s' % k, 'progress')
            bad.append(s)
            if not s.learn():
                raise Violation('delayed', 'session %s is not served' % k, 'progress')
            if k == 'stalled':
                s.c.pause()
                first = r.choice((5198, 5199))
                for i in range(2600):
                    s.inn(port=first, size=3900)
                    if i % 20 == 19:
                        time.sleep(0.002)
                loops.append(threading.Thread(target=more, args=(s,), daemon=True))
            elif k == 'connecting':
                plugs += blackhole(net.node(8), 5200)
                s.c.send(msg(TCP_OPEN, net.node(8)))
                s.tcp_used = True
            elif k == 'hoststall':
                n = len(sink.conns)
                s.tcp_open(sink)
                if wait(lambda: len(sink.conns) > n, 5):
                    sink.conns[-1].pause()
                    s.c.s.settimeout(0.5)
                    try:
                        for _ in range(300):
                            s.c.s.sendall(msg(TCP_DATA, payload=s.recs(1000)))
                    except OSError:
                        pass
                    s.c.s.settimeout(WAIT)
            elif k == 'flood':
                loops.append(threading.Thread(target=flood, args=(s,), daemon=True))
            elif k == 'reopen':
                loops.append(threading.Thread(target=reopen, args=(s,), daemon=True))
            elif k == 'garbage':
                s.c.send(bytes([7]) + b'\0\0\0\0\xff\xff\xff\xff' + b'g' * 50)
            ck.count(**{'nuisance_' + k: 1})
        for t in loops:
            t.start()
        end = time.monotonic() + secs
        n = 0
        while time.monotonic() < end or n < 6:
            for s in victims:
                s.roundtrip(SLOW, 'next to %s' % kinds)
                if r.random() < 0.5:
                    # a stream of its own is opened without delay, too
                    st = sum(1 for m in s.c.msgs if m[0] == TCP_STATUS)
                    s.tcp_open(w.nodes[victims.index(s)])
                    if not s.c.wait_msgs(lambda m: sum(1 for x in m if x[0] == TCP_STATUS) > st, 'status', SLOW):
                        raise Violation('delayed', 'next to %s: a stream of session %d is not opened within %.0f s (%s)\n%s' % (kinds, s.sid, SLOW, s.c.eof, w.px.stacks()), 'progress')
                    ck.count(streams_opened=1)
                s.tcp_data(1)
            n += 1
        # the nuisances leave; the sessions stay, and all slots serve
        w.stop.set()
        for s in bad:
            s.c.close(rst=r.random() < 0.5)
        for t in loops:
            t.join(10)
        for c in sink.conns:
            c.close()
        for s in plugs:
            s.close()
        w.stop.clear()
        for s in victims:
            s.roundtrip(SLOW, 'after the end of %s' % kinds)
        if 'connecting' not in kinds:
            more = []
            for i in range(len(kinds)):
                s = Session(w, r, 'N%dN' % i)
                if not s.login():
                    raise Violation('no-service', 'slot not usable after %s\n%s\n%s' % (kinds, w.px.log_text()[-800:], w.px.stacks()), 'progress')
                s.roundtrip(WAIT, 'successor of %s' % kinds)
                more.append(s)
            for s in more:
                w.judge_client(s)
                s.c.close()
        for s in victims:
            if s.c.eof:
                raise Violation('interrupted', 'a session ended (%s) next to %s' % (s.c.eof, kinds), 'progress')
            w.judge_client(s)
            s.c.close()
        w.judge_nodes()
        if w.px.san():
            raise Violation('sanitizer:' + w.px.san()[0][0], w.px.san()[0][1])
        w.px.down()
        w.px.end()
        ck.case(('nuisance', tuple(sorted(kinds)), tuple(sorted(vf))), sample='victims next to %s: %d rounds' % (kinds, n))
    finally:
        w.stop.set()
        for s in plugs:
            s.close()
        sink.close()
        w.close()


def body(ck):
    flav = {'asan': build('asan'), 'tsan': build('tsan'), 'msan': build('msan')}
    pool = Pool(Net() for _ in range(6))
    r = ck.rng
    cases = []
    vfs = [{}, {'delay': 60, 'delay_us': 2000}, {'short_send': 300, 'short_recv': 300}, {'delay': 30, 'delay_us': 10000},
           {'short_send': 500, 'short_recv': 500, 'short_max': 7, 'delay': 20, 'delay_us': 3000}]
    for i in range(ck.n(8, 80)):
        f = ['asan', 'asan', 'msan', 'tsan'][i % 4]
        cases.append((pool.run, ck, flav[f], churn, r.randrange(1 << 30), r.choice([1, 2, 3, 5]), vfs[i % 5], ck.n(5.0, 15.0)))
    for i in range(ck.n(10, 100)):
        f = ['asan', 'asan', 'msan', 'asan', 'tsan'][i % 5]
        cases.append((pool.run, ck, flav[f], handover, r.randrange(1 << 30), vfs[i % 5] if i % 3 else {'delay': 60, 'delay_us': 8000}, ck.n(25, 60)))
    for i in range(ck.n(16, 80)):
        f = ['asan', 'asan', 'asan', 'msan'][i % 4]
        cases.append((pool.run, ck, flav[f], nuisance, r.randrange(1 << 30), vfs[i % 3], ck.n(1.5, 6.0)))
    ck.run_many(cases, 5)


ck = Check('P21', rule='one evaluation is one session of a churn, one hand-over of a slot or one run next to nuisances; distinct: sessions, and kinds of hand-over or nuisance')
ck.min_eval = 150
main(ck, body)
