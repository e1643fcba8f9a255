"""P25: a client which vanishes gives its slot back, one which is merely silent keeps it."""
from vf.core import Check, main, Violation, Inconclusive
from vf.build import build
from vf.scen import *

KEEP = 200                # the times of keepalive are this many times shorter
BOUND = 30.0              # 600/200 s, then ten tries of (at least) a second; 15 minutes would be 4.5 s and the tries
QUIET = 22.0              # over an hour
TCP_MD5SIG = 14


def vanish(c):
    """From now on nothing that is sent to the client is answered, as if its machine was off, and nothing of it arrives.

    Its kernel expects (and adds) a signature which the other side does not know of, so both sides discard every segment silently.
    This needs no privilege, other than socket filters or rules of a packet filter.
    """
    ip = c.s.getpeername()[0]
    peer = struct.pack('=HH4s', socket.AF_INET, 0, socket.inet_aton(ip)).ljust(128, b'\0')
    c.s.setsockopt(socket.IPPROTO_TCP, TCP_MD5SIG, peer + struct.pack('=BBHI', 0, 0, 6, 0) + b'secret'.ljust(80, b'\0'))


class State:
    """A client in some state of its life; later it is gone, or goes on."""

    def __init__(self, px, node, call, kind):
        self.px, self.node, self.call, self.kind = px, node, call, kind
        self.nc = None
        if kind in ('silent', 'half'):
            self.c = px.client()
            if self.c.nonce() is None:
                raise Violation('no-service', 'no challenge although a slot is free (%s)' % kind, kind='progress')
            if kind == 'half':
                self.c.send(call.encode()[:3])
            return
        self.c = c = px.session(call)
        self.src = echo(c, node, 'P25')
        if kind in ('tcp', 'tcpdata'):
            t = tag('tcp')
            c.send(msg(TCP_OPEN, node.addr) + msg(TCP_DATA, payload=t))
            if not wait(lambda: any(bytes(n.data) == t for n in list(node.conns))):
                raise Violation('no-relay', 'no TCP connection to the node', kind='progress')
            self.nc = [n for n in node.conns if bytes(n.data) == t][0]
            if not c.wait_msgs(lambda m: any(x[0] == TCP_STATUS for x in m), 'status'):
                raise Violation('no-status', 'no status', kind='progress')
            if kind == 'tcpdata':
                self.nc.send(b'x' * 3000)
                c.wait_msgs(lambda m: sum(len(x[2]) for x in m if x[0] == TCP_DATA) == 3000, 'data')
        if kind == 'message':
            self.rest = msg(UDP_DATA, node.addr, tag('late') + b'z' * 700)
            c.send(self.rest[:100])
        if kind == 'header':
            self.rest = msg(UDP_DATA, node.addr, tag('late') + b'z' * 700)
            c.send(self.rest[:5])

    def goes_on(self):
        """A client which was silent all the time is served as if it had not been."""
        c, px = self.c, self.px
        if c.eof or (self.kind != 'silent' and self.kind != 'half' and c.malformed):
            raise Violation('cut', 'a client which was silent (%s) for %.0f s, but there, was disconnected: %s\n%s' % (self.kind, QUIET, c.eof, px.log_text()[-1500:]), kind='progress')
        if self.kind == 'silent':
            c.greet(self.call, px.password)
        elif self.kind == 'half':
            c.greeted, c.parsed = True, 8
            c.send(self.call.encode()[3:] + b'\n' + answer(bytes(c.raw[:8]), px.password))
        elif self.kind in ('message', 'header'):
            c.send(self.rest[100 if self.kind == 'message' else 5:])
            want = self.rest[9:]
            if not wait(lambda: any(d[3] == want for d in self.node.dgrams)):
                raise Violation('lost', 'a message continued after a while did not arrive (%s)' % c.eof, kind='progress')
        if self.nc:
            t = tag('later')
            self.nc.send(t)
            if not c.wait_msgs(lambda m: b''.join(x[2] for x in m if x[0] == TCP_DATA).endswith(t), 'later data'):
                raise Violation('lost', 'data from the remote host after a silent time did not arrive (%s)' % c.eof, kind='progress')
        echo(c, self.node, 'P25')


KINDS = ['silent', 'half', 'idle', 'tcp', 'tcpdata', 'message', 'header']


def case(ck, b, net, seed, gone, stay, reg):
    r = random.Random(seed)
    node = Node(net.node(0))
    rg = Registrar(net.registrar)
    slots = len(gone) + len(stay)
    what = 'gone: %s; there: %s' % (' '.join(gone), ' '.join(stay))
    new = []
    try:
        with Proxy(b.host, net, slots, vf={'keep': KEEP, 'registrar': net.registrar, 'seed': seed % 1000 + 1}, reg={'reg_name': 'P25'} if reg else {}) as px:
            px.quiesce(5)
            fds0 = px.stats()['fds']
            order = [(k, 1) for k in gone] + [(k, 0) for k in stay]
            r.shuffle(order)
            states = [(State(px, node, 'V%dX' % i, k), g) for i, (k, g) in enumerate(order)]
            # what was sent to them has to be acknowledged before they vanish
            time.sleep(0.5)
            x = px.client()
            if x.nonce(5) is not None:
                raise Violation('slots', 'a client is served although all %d slots are in use' % slots)
            x.close()
            t0 = time.monotonic()
            for s, g in states:
                if g:
                    vanish(s.c)
            # their slots serve others
            tries = 0
            while len(new) < len(gone):
                left = t0 + BOUND - time.monotonic()
                if left < 0:
                    raise Violation('not-noticed', '%s: %d of %d vanished clients noticed within %.0f s, %d times as much in truth\n%s' % (
                        what, len(new), len(gone), BOUND, KEEP, px.log_text()[-1500:] + px.stacks()), kind='progress')
                c = px.login('N%dX' % len(new))
                if c is None:
                    tries += 1
                    time.sleep(0.2)
                    continue
                new.append(c)
            dt = time.monotonic() - t0
            srcs = [echo(c, node, 'P25') for c in new]
            if len(set(srcs)) != len(srcs):
                raise Violation('shared-address', '%s: newcomers share an external address: %s' % (what, srcs))
            for s, g in states:
                if g and s.nc and not wait(lambda: s.nc.eof):
                    raise Violation('host-open', '%s: the connection of a vanished client to its remote host stays open' % what, kind='progress')
            for c in new:
                c.close()
            # those who are there, though silent, are not cut
            time.sleep(max(0, t0 + QUIET - time.monotonic()))
            for s, g in states:
                if not g:
                    s.goes_on()
                    ck.count(silent=1)
            if reg:
                used = len(stay)
                m = lambda: [re.search(rb'status=(\w+)&', q[1]).group(1) + b''.join(re.findall(rb'\[(\d+/\d+)\]', q[1])) for q in rg.raw[-1:]]
                want = b'Busy' if used >= slots else b'Ready'
                want += b'%d/%d' % (used, slots) if slots > 1 else b''
                if not wait(lambda: m() == [want]):
                    raise Violation('report', '%s: the last report is %r, expected %r' % (what, m(), want), kind='progress')
            for s, g in states:
                s.c.close()
                if s.nc:
                    s.nc.close()
            px.down()
            if px.stats()['fds'] >= fds0 + 1 and not poll(lambda: px.stats()['fds'] <= fds0, 10, 0.05):
                raise Violation('descriptors', '%s: %d descriptors, %d at first' % (what, px.stats()['fds'], fds0), kind='progress')
            px.end()
            ck.count(vanished=len(gone), refused_meanwhile=tries)
            ck.maxi(noticed_ms=int(dt * 1000))
            for k in gone:
                ck.case((k, 'gone', slots, tuple(stay), reg, seed % 7), sample='%s; noticed after %.1f s' % (what, dt))
            for k in stay:
                ck.case((k, 'there', slots, tuple(gone), reg, seed % 7), sample=what)
    finally:
        for c in new:
            c.close()
        node.close()
        rg.close()


def body(ck):
    b = build('asan')
    pool = Pool([Net() for _ in range(12)])
    r = ck.rng
    cs = []
    for i in range(ck.n(16, 96)):
        gone = [KINDS[i % len(KINDS)]] + [r.choice(KINDS) for _ in range(i % 3)]
        stay = [KINDS[(i * 3 + 1) % len(KINDS)]] + [r.choice(KINDS) for _ in range(r.randrange(3))]
        cs.append((pool.run, ck, b, case, r.randrange(1 << 30), gone, stay, i % 2))
    ck.run_many(cs, 12)


ck = Check('P25', rule='one evaluation is one client which vanished or stayed silent, in some state of its life, judged by when its slot serves others, or by its going on',
           assumptions=['the kernel\'s keepalive is what notices; its times are divided by %d in the run' % KEEP,
                        'nothing sent to the client is unacknowledged when it vanishes (the kernel\'s retransmission times can not be shortened)'])
ck.min_eval = 30
main(ck, body)
