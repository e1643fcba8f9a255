"""Operations on a running or a closed proxy, each of which ends with nothing going on."""
from .scen import *
from .core import Violation, Inconclusive


class World:
    def __init__(self, ck, b, net, r, slots=2, reg=None, vf=None, loglevel=3):
        self.ck, self.b, self.net, self.r, self.slots = ck, b, net, r, slots
        self.node = Node(net.node(0))
        self.busy = Node(net.node(1), udp=False)       # resets at once
        self.busy.on_accept = lambda c: c.close(rst=True)
        self.rg = Registrar(net.registrar, mode=reg) if reg else None
        v = {'registrar': net.registrar, 'seed': r.randrange(1, 99999), 'short_recv': 100}
        v.update(vf or {})
        self.px = Proxy(b.host, net, slots=slots, allowed='^[A-Z0-9]+$', denied='^BAD', up=False, loglevel=loglevel, vf=v, reg={'reg_name': 'TEST'} if reg else None)
        self.n = 0
        self.made = []
        self.px.must('logmedium 1')

    def close(self):
        self.node.close()
        self.busy.close()
        if self.rg:
            self.rg.close()

    def measure(self):
        self.px.quiesce(10)
        s = self.px.stats()
        return s['fds'], s['threads'], s['heap']

    def settle(self, base, what, heap=None):
        """Waits for descriptors and threads to be back; returns the measurement."""
        out = [None]

        def same():
            out[0] = self.measure()
            return out[0][:2] == base[:2] and (heap is None or out[0][2] <= heap)
        if not poll(same, 10, 0.02) and out[0][:2] != base[:2]:
            raise Violation('not-released', '%s: %d descriptors and %d threads, %d and %d before: %s' % (
                what, out[0][0], out[0][1], base[0], base[1], self.px.cmd('fdlist')['fds']), kind='progress')
        return out[0]

    def idle(self):
        """The measurement while nothing is going on."""
        last, same, out = None, 0, None

        def stable():
            nonlocal last, same, out
            out = self.measure()
            same = same + 1 if out == last else 0
            last = out
            return same >= 10 and (self.rg is None or self.rg.active == 0)
        poll(stable, 20, 0.02)
        return out


# -- operations of a running proxy: each leaves no client behind ----------------------
def challenged(w, **kw):
    end = time.monotonic() + WAIT
    while True:
        c = w.px.client(**kw)
        w.made.append(c)
        if c.nonce() is not None:
            return c
        c.close()
        if time.monotonic() > end:
            raise Violation('no-service', 'no challenge although no client is connected\n%s' % w.px.stacks(), kind='progress')
        time.sleep(0.01)


def session(w):
    w.n += 1
    c = w.px.session('N%dC' % (w.n % 5))
    w.made.append(c)
    return c


def o_session(w):
    c = session(w)
    echo(c, w.node, 'P11')
    c.close(rst=w.r.random() < 0.5)


def o_badpw(w):
    c = challenged(w)
    c.greet('W1AW', 'wrong')
    c.wait_eof()
    c.close()


def o_badcall(w):
    c = challenged(w)
    c.greet(w.r.choice(['BADGUY', 'bad call']), w.px.password)
    c.wait_eof()
    c.close()


def o_longcall(w):
    c = challenged(w)
    c.send(b'A' * 40)
    c.wait_eof()
    c.close()


def o_abort(w):
    c = challenged(w)
    d = b'W1AW\n' + answer(c.nonce(), w.px.password)
    c.send(d[:w.r.randrange(0, len(d))])
    c.close(rst=w.r.random() < 0.5)


def o_knock(w):
    """Gone before being noticed."""
    for _ in range(3):
        w.px.client().close(rst=True)


def o_excess(w):
    cs = [session(w) for _ in range(w.slots)]
    for _ in range(2):
        c = w.px.client()
        c.wait_eof()
        c.close()
    for c in cs:
        c.close()


def o_unknown(w):
    c = session(w)
    c.send(msg(w.r.choice([0, 7, 99])))
    c.wait_eof()
    c.close()


def tcp(w, c, n, how):
    k, m0 = len(n.conns), len(c.msgs)
    c.send(msg(TCP_OPEN, n.addr))
    if not c.wait_msgs(lambda m: any(x[0] == TCP_STATUS for x in m[m0:]), 'TCP status'):
        raise Violation('no-status', 'no status of a TCP connection', kind='progress')
    wait(lambda: len(n.conns) > k)
    nc = n.conns[k]
    if how == 'client':
        c.send(msg(TCP_DATA, payload=b'hello') + msg(TCP_CLOSE))
        wait(lambda: nc.eof)
        nc.close()
    elif how == 'host':
        nc.send(b'bye')
        nc.close()
        c.wait_msgs(lambda m: any(x[0] == TCP_CLOSE for x in m[m0:]), 'TCP close')
    elif how == 'reset':
        nc.close(rst=True)
        c.wait_msgs(lambda m: any(x[0] == TCP_CLOSE for x in m[m0:]), 'TCP close')
    return nc


def o_tcp_client(w):
    c = session(w)
    for _ in range(2):
        tcp(w, c, w.node, 'client')
    c.close()


def o_tcp_host(w):
    c = session(w)
    for _ in range(2):
        tcp(w, c, w.node, 'host')
    tcp(w, c, w.node, 'reset')
    c.close()


def o_tcp_reopen(w):
    """Opened again and again without closing, then left."""
    c = session(w)
    for _ in range(3):
        tcp(w, c, w.node, None)
    c.close(rst=w.r.random() < 0.5)


def o_tcp_fail(w):
    c = session(w)
    n = 0
    for a in (w.net.node(77), '240.0.0.1', '255.255.255.255', '0.0.0.0'):
        for _ in range(2):
            c.send(msg(TCP_OPEN, a))
            n += 1
    c.wait_msgs(lambda m: len([x for x in m if x[0] == TCP_STATUS]) >= n, 'TCP statuses')
    c.close()


def o_tcp_reset(w):
    c = session(w)
    for _ in range(3):
        c.send(msg(TCP_OPEN, w.busy.addr) + msg(TCP_DATA, payload=b'x' * 500) * 2)
    c.wait_msgs(lambda m: len([x for x in m if x[0] == TCP_STATUS]) >= 3, 'TCP statuses')
    c.close()


def o_tcp_nothing(w):
    c = session(w)
    c.send(msg(TCP_DATA, payload=b'nobody there') * 2 + msg(TCP_CLOSE) * 2)
    echo(c, w.node, 'P11')
    c.close()


def o_udp(w):
    c = session(w)
    src = probe(c, w.node)
    for i in range(10):
        c.send(msg(UDP_DATA, w.node.addr, b'd' * 700) + msg(UDP_CONTROL, w.node.addr, b'c' * 70) + msg(UDP_DATA, '255.255.255.255', b'q') + msg(UDP_DATA, w.node.addr, b''))
        w.node.sendto(5198, b'r' * 500, src)
        w.node.sendto(5199, b'', src)
    echo(c, w.node, 'P11')
    c.close()


def o_taken(w):
    """The external port is in use by someone else."""
    ss = []
    try:
        for i in range(w.slots):
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            ss.append(s)
            port = w.r.choice([5198, 5199])

            def free():
                try:
                    s.bind((w.net.ext(i), port))
                    return True
                except OSError:
                    return False
            if not poll(free, 10, 0.02):
                raise Violation('port-held', 'external port %d is still in use with nobody connected' % port, kind='progress')
        c = challenged(w)
        c.greet('W1AW', w.px.password)
        if not c.wait_eof():
            raise Violation('not-refused', 'a client is kept although its external ports are in use', kind='progress')
        c.close()
    finally:
        for s in ss:
            s.close()


def o_drop(w):
    cs = [session(w)] + ([challenged(w)] if w.slots > 1 else [])
    w.px.cmd('drop')
    for c in cs:
        c.wait_eof()
        c.close()


def o_stalled(w):
    c = w.px.session('STALL', rcvbuf=4096)
    w.made.append(c)
    nc = tcp(w, c, w.node, None)
    c.pause()
    nc.s.setblocking(False)
    try:
        for _ in range(400):
            nc.s.send(b'z' * 262144)
    except OSError:
        pass
    c.close(rst=w.r.random() < 0.5)
    nc.s.settimeout(WAIT)
    wait(lambda: nc.eof)
    nc.close()


def o_partial(w):
    c = session(w)
    m = msg(w.r.choice([UDP_DATA, TCP_DATA, UDP_CONTROL]), w.node.addr, b'p' * 3000)
    c.send(m[:w.r.randrange(1, len(m))])
    c.close(rst=w.r.random() < 0.5)


def o_update(w):
    for _ in range(3):
        w.px.cmd('update')


def o_logs(w):
    """The log goes elsewhere and back while the proxy runs."""
    px = w.px
    for t in ('2 %s/other.log' % px.dir, '3', '2 /nonexistent/x', '1', '4', '0', '2 %s/other.log' % px.dir, '2 %s/other.log' % px.dir):
        px.cmd('logmedium ' + t)
        px.cmd('log 1 %s' % b'line\n'.hex())
    px.must('logmedium 1')


# -- operations of a closed proxy --------------------------------------------------------
def conf(w, text):
    p = w.px.dir + '/p11.conf'
    with open(p, 'w') as fp:
        fp.write(text)
    return p


GOOD = ('Password=TESTPASS\nPort=%d\nBindAddress=%s\nExternalBindAddress=%s\nAdditionalExternalBindAddresses=%s\nCallsignsAllowed=^[A-Z0-9]+$\nCallsignsDenied=^BAD\n'
        'RegistrationComment=Somewhere\nPublicAddress=1.2.3.4\n')


def good(w):
    net = w.net
    return GOOD % (w.px.port, net.proxy, net.ext(0), ','.join(net.ext(i) for i in range(1, w.slots)))


def c_load(w):
    w.px.must('load ' + conf(w, good(w)))


def c_load_twice(w):
    """Every key more than once."""
    g = good(w)
    w.px.must('load ' + conf(w, g + g.replace('TESTPASS', 'OTHER') + g))


def c_load_unset(w):
    g = good(w) + 'RegistrationName=Somebody\n'
    keys = [l.split('=')[0] for l in g.splitlines()]
    w.px.must('load ' + conf(w, g + ''.join('%s=\n' % k for k in keys if k not in ('Port', 'Password')) + g.replace('Somebody', '')))


def c_lives(w):
    """Whole lives of a handle."""
    px = w.px
    px.cmd('free')
    px.cmd('zero')
    px.must('init')
    px.must('loglevel 1')
    px.must('load ' + conf(w, good(w) + 'RegistrationName=%s\n' % ('TEST' if w.rg else '')))
    px.must('open')
    px.must('start')
    px.serve()
    c = session(w)
    echo(c, w.node, 'P11l')
    c.close()
    px.cmd('free')
    px.serve_ended()
    px.cmd('zero')
    px.must('init')
    px.must('loglevel 1')
    px.configure()
    px.must('logmedium 1')


def c_load_bad(w):
    g = good(w)
    for bad in ('Port=99999\n', 'Port=x\n', 'ConnectionTimeout=-1\n', 'Port=\n', 'Password=notset\n', 'ExternalBindAddress=\nAdditionalExternalBindAddresses=1.2.3.4,2.3.4.5\n',
                'junk\n=\n==\n#\n' + 'x' * 3000 + '=y\n'):
        w.px.ret('load ' + conf(w, g + bad))
    for p in (w.px.dir, w.px.dir + '/missing', '/dev/null'):
        w.px.ret('load ' + p)
    w.px.must('load ' + conf(w, g))


def c_cycle(w):
    w.px.must('open')
    w.px.must('start')
    w.px.serve()
    c = session(w)
    echo(c, w.node, 'P11c')
    if w.r.random() < 0.5:
        c.close()
    w.px.cmd('close')
    w.px.serve_ended()
    c.close()


def c_open_close(w):
    w.px.must('open')
    w.px.cmd('close')
    w.px.must('open')
    w.px.must('start')
    w.px.cmd('close')
    w.px.cmd('close')


def c_open_taken(w):
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    s.bind((w.net.proxy, w.px.port))
    s.listen(1)
    r = w.px.ret('open')
    s.close()
    if r >= 0:
        raise Violation('open-taken', 'opening reports success although the port is in use')
    w.px.cmd('close')


def c_open_invalid(w):
    px = w.px
    for k, v in (('calls_allowed', '('), ('calls_denied', '['), ('bind_addr', 'not.an.address.invalid'), ('bind_addr', '240.0.0.1'), ('password', None)):
        old = {'calls_allowed': px.allowed, 'calls_denied': px.denied, 'bind_addr': px.net.proxy, 'password': px.password}[k]
        px.setf(k, v)
        if px.ret('open') >= 0:
            raise Violation('open-invalid', 'opening succeeds with %s=%r' % (k, v))
        if w.r.random() < 0.5:
            px.cmd('close')
        px.setf(k, old)
    px.must('open')
    px.cmd('close')


def c_patterns(w):
    px = w.px
    for a, d in (('^A', None), (None, '^B'), (None, None), ('x', 'y')):
        px.setf('calls_allowed', a)
        px.setf('calls_denied', d)
        px.must('open')
        px.ret('auth ' + b'W1AW'.hex())
        px.cmd('close')
    px.setf('calls_allowed', px.allowed)
    px.setf('calls_denied', px.denied)
    px.must('open')
    px.cmd('close')


def c_logs(w):
    px = w.px
    for t in ('2 %s/other.log' % px.dir, '3', '2 /nonexistent/x', '1', '4', '0', '1'):
        px.cmd('logmedium ' + t)
        px.cmd('log 1 %s' % b'line\n'.hex())
        if w.r.random() < 0.5:
            px.must('open')
            px.cmd('close')
    px.must('logmedium 1')


def c_reinit(w):
    px = w.px
    px.cmd('free')
    px.must('init')
    px.configure()
    px.must('logmedium 1')


def c_shutdown(w):
    px = w.px
    px.up()
    c = session(w)
    px.cmd('shutdown')
    px.serve_ended()
    c.close() if w.r.random() < 0.5 else px.cmd('drop')
    px.cmd('close')
    c.close()


OPS = {k[2:]: v for k, v in sorted(globals().items()) if k.startswith('o_')}
COPS = {k[2:]: v for k, v in sorted(globals().items()) if k.startswith('c_')}
