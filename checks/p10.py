"""P10: shutdown, drop and close take effect promptly in every situation."""
from vf.core import Check, main, Violation, Inconclusive
from vf.build import build
from vf.scen import *

LIMIT = 30.0      # a lifecycle call which takes longer does not return promptly


class Scene:
    """One proxy with clients and hosts in some situation."""

    def __init__(self, ck, b, net, r, slots, reg, vf):
        self.ck, self.b, self.net, self.r, self.slots, self.reg = ck, b, net, r, slots, reg
        self.nodes = [Node(net.node(0))]
        self.rg = None
        self.stop = threading.Event()
        self.threads = []
        self.clients, self.healthy, self.plugs = [], [], []
        if reg:
            self.rg = Registrar(net.registrar, mode=reg if reg != 'blackhole' else 'refuse')
            if reg == 'blackhole':
                self.blackhole(net.registrar, 80)
        self.px = Proxy(b.host, net, slots=slots, denied='^BAD', up=False, loglevel=r.choice([2, 4]), vf=dict(vf, registrar=net.registrar, seed=r.randrange(1, 99999)),
                        reg={'reg_name': 'TEST'} if reg else None)
        self.base = None

    def blackhole(self, addr, port):
        self.plugs += blackhole(addr, port)

    def stat(self):
        s = self.px.stats()
        return (s['fds'], s['threads'])

    def prime(self):
        px = self.px
        px.must('open')
        px.cmd('close')
        px.quiesce(5)
        self.base = self.stat()
        px.cmd('logmedium 2 %s/proxy.log' % px.dir)

    def call(self, what, limit=LIMIT):
        t = time.monotonic()
        self.px.cmd(what, limit)
        d = time.monotonic() - t
        self.ck.maxi(**{'slowest_ms_' + what: int(d * 1000)})
        return d

    def bgloop(self, fn):
        def run():
            while not self.stop.is_set():
                try:
                    fn()
                except Exception:
                    return
        t = threading.Thread(target=run, daemon=True)
        t.start()
        self.threads.append(t)

    def quiet(self):
        self.stop.set()
        for t in self.threads:
            t.join(WAIT)
        self.threads = []
        self.stop = threading.Event()

    def nodeconn(self, c, node, rcvbuf=None):
        n0, m0 = len(node.conns), len(c.msgs)
        c.send(msg(TCP_OPEN, node.addr))
        if not wait(lambda: len(node.conns) > n0):
            raise Violation('no-tcp', 'a TCP connection was not opened', kind='progress')
        c.wait_msgs(lambda m: any(x[0] == TCP_STATUS for x in m[m0:]), 'TCP status')
        return node.conns[-1]

    def reset(self):
        self.quiet()
        for c in self.clients + self.healthy:
            c.close()
        for n in self.nodes[1:]:
            n.close()
        self.nodes = self.nodes[:1]
        self.clients, self.healthy = [], []

    def close(self):
        self.quiet()
        for c in self.clients + self.healthy:
            c.close()
        for n in self.nodes:
            n.close()
        for s in self.plugs:
            s.close()
        if self.rg:
            self.rg.close()


def stall(sc, sides):
    """Sends on each side until nothing is accepted any more and the proxy is at rest."""
    todo = [[s, d * ((1 << 20) // len(d)), 0] for s, d in sides]
    end = time.monotonic() + 15
    last = None
    while time.monotonic() < end:
        moved = False
        for t in todo:
            t[0].setblocking(False)
            try:
                while time.monotonic() < end:
                    k = t[0].send(t[1][t[2]:t[2] + 262144])
                    t[2] = (t[2] + k) % len(t[1])
                    moved = moved or k > 0
            except BlockingIOError:
                pass
            except OSError:
                return
        a = sc.px._activity()
        if not moved and a is not None and a == last:
            for t in todo:
                t[0].settimeout(WAIT)
            sc.ck.count(stalled=1)
            return
        last = a
        time.sleep(0.03)
    raise Inconclusive('a transfer could not be stalled')


# -- situations: each leaves its clients in sc.clients, those with a working session also in sc.healthy ---
def s_none(sc):
    pass


def s_silent(sc):
    c = sc.px.client()
    c.nonce()
    sc.clients.append(c)


def s_partial(sc):
    c = sc.px.client()
    n = c.nonce()
    d = b'W1AW\n' + answer(n, sc.px.password)
    c.send(d[:sc.r.randrange(1, len(d) - 1)])
    sc.clients.append(c)


def s_idle(sc):
    c = sc.px.session('IDLE')
    sc.clients.append(c)
    sc.healthy.append(c)


def s_header(sc):
    c = sc.px.session('HDR')
    m = msg(sc.r.choice([UDP_DATA, UDP_CONTROL, TCP_DATA, TCP_OPEN]), sc.nodes[0].addr, b'x' * 100)
    c.send(m[:sc.r.choice([1, 5, 8, 9, 30, 108]) if m[0] != TCP_OPEN else sc.r.randrange(1, 8)])
    sc.clients.append(c)


def s_halfclosed(sc):
    """The client waits for the end in turn."""
    c = sc.px.client()
    c.nonce()
    c.s.shutdown(socket.SHUT_WR)
    c.half = True
    sc.clients.append(c)


def s_udp(sc):
    c = sc.px.session('UDP')
    node = sc.nodes[0]
    src = probe(c, node, 'P10u')

    def flood():
        c.s.settimeout(1)
        try:
            c.s.sendall(b''.join(msg(UDP_DATA, node.addr, b'u' * 200) + msg(UDP_CONTROL, node.addr, b'v' * 300) for _ in range(20)))
        except OSError:
            sc.stop.wait(0.05)
        for _ in range(10):
            node.sendto(5198, b'w' * 150, src)
            node.sendto(5199, b'z' * 150, src)
        sc.stop.wait(0.001)
    sc.bgloop(flood)
    sc.clients.append(c)


def s_tcp(sc):
    """Bulk transfer both ways."""
    c = sc.px.session('TCP')
    node = Node(sc.net.node(5 + len(sc.nodes)), udp=False)
    sc.nodes.append(node)
    nc = sc.nodeconn(c, node)

    def up():
        c.s.settimeout(1)
        try:
            c.s.sendall(msg(TCP_DATA, payload=b'a' * 3000) * 5)
        except OSError:
            sc.stop.wait(0.05)

    def down():
        nc.s.settimeout(1)
        try:
            nc.s.sendall(b'b' * 20000)
        except OSError:
            sc.stop.wait(0.05)
        sc.stop.wait(0.001)
    sc.bgloop(up)
    sc.bgloop(down)
    sc.clients.append(c)


def s_stalled_client(sc):
    """The client does not read while a host sends more than fits."""
    c = sc.px.session('STALLC', rcvbuf=4096)
    node = Node(sc.net.node(5 + len(sc.nodes)), udp=False)
    sc.nodes.append(node)
    nc = sc.nodeconn(c, node)
    c.pause()
    stall(sc, [(nc.s, b'd')])
    sc.clients.append(c)


def s_stalled_client_udp(sc):
    c = sc.px.session('STALLU', rcvbuf=4096)
    node = sc.nodes[0]
    src = probe(c, node, 'P10s')
    c.pause()
    c.stalled = True

    def flood():
        for _ in range(50):
            node.sendto(5198, b'w' * 1000, src)
            node.sendto(5199, b'w' * 1000, src)
        sc.stop.wait(0.002)
    sc.bgloop(flood)
    time.sleep(0.2)
    sc.clients.append(c)


def s_stalled_host(sc):
    """The remote host does not read while the client sends more than fits."""
    c = sc.px.session('STALLH')
    node = Node(sc.net.node(5 + len(sc.nodes)), udp=False, rcvbuf=4096)
    sc.nodes.append(node)
    nc = sc.nodeconn(c, node)
    nc.pause()
    stall(sc, [(c.s, msg(TCP_DATA, payload=b'h' * 4087))])
    sc.clients.append(c)


def s_stalled_both(sc):
    c = sc.px.session('STALLB', rcvbuf=4096)
    node = Node(sc.net.node(5 + len(sc.nodes)), udp=False, rcvbuf=4096)
    sc.nodes.append(node)
    nc = sc.nodeconn(c, node)
    nc.pause()
    c.pause()
    stall(sc, [(nc.s, b'd'), (c.s, msg(TCP_DATA, payload=b'h' * 4087))])
    sc.clients.append(c)


def s_connecting(sc):
    """The remote host does not answer the attempt to connect."""
    c = sc.px.session('CONN')
    a = sc.net.node(20 + len(sc.nodes) + len(sc.plugs))
    sc.blackhole(a, 5200)
    if sc.r.random() < 0.5:
        # a connection which worked comes first
        nc = sc.nodeconn(c, sc.nodes[0])
        nc.send(b'first')
    c.send(msg(TCP_OPEN, a) + (b'' if sc.r.random() < 0.5 else msg(TCP_DATA, payload=b'later') * 3))
    if sc.r.random() < 0.7:
        sc.px.quiesce(2)
    sc.clients.append(c)


def s_vanished(sc):
    """The client of a session with a stalled host is gone."""
    s_stalled_host(sc)
    c = sc.clients.pop()
    c.close(rst=sc.r.random() < 0.5)


def s_closing(sc):
    """Clients and hosts go at this very moment."""
    c = sc.px.session('CLOSING')
    nc = sc.nodeconn(c, sc.nodes[0])
    sc.clients.append(c)
    t = threading.Timer(sc.r.random() * 0.01, lambda: (nc.close(rst=sc.r.random() < 0.5), c.s.shutdown(socket.SHUT_RDWR) if c.eof is None else 0))
    t.daemon = True
    t.start()


def s_churn(sc):
    px = sc.px

    def go():
        c = px.client()
        try:
            wait(lambda: len(c.raw) >= 8 or c.eof, 1)
            if len(c.raw) >= 8:
                c.greet(random.choice(['W1AW', 'K1RFD', 'BAD']), resp=answer(bytes(c.raw[:8]), random.choice([px.password, 'x'])))
                c.send(msg(UDP_DATA, sc.nodes[0].addr, b'churn') + msg(random.choice([TCP_OPEN, 55]), sc.nodes[0].addr))
                time.sleep(random.random() * 0.004)
        finally:
            c.close(rst=random.random() < 0.5)
    for _ in range(3):
        sc.bgloop(go)
    time.sleep(sc.r.random() * 0.05)


def s_full(sc):
    while len(sc.clients) < sc.slots:
        sc.r.choice([s_silent, s_idle, s_partial])(sc)


SIT = {k[2:]: v for k, v in sorted(globals().items()) if k.startswith('s_')}


def ended(sc, clients, what):
    """Every client sees the end of its connection."""
    for c in clients:
        if c.paused:
            c.resume()
        if not c.wait_eof():
            raise Violation('not-dropped', '%s: a client is still connected\n%s' % (what, sc.px.stacks()), kind='progress')


def hosts_ended(sc, what):
    for n in sc.nodes:
        for nc in n.conns:
            if nc.closed:
                continue
            if nc.paused:
                nc.resume()
            if not wait(lambda: nc.eof):
                raise Violation('host-not-dropped', '%s: the connection to a remote host is still open\n%s' % (what, sc.px.stacks()), kind='progress')


def rebind(sc, what):
    net = sc.net
    tests = [(socket.SOCK_STREAM, net.proxy, sc.px.port)]
    for i in range(sc.slots):
        tests += [(socket.SOCK_DGRAM, net.ext(i), p) for p in (5198, 5199)]
    for typ, a, p in tests:
        s = socket.socket(socket.AF_INET, typ)
        if typ == socket.SOCK_STREAM:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind((a, p))
            if typ == socket.SOCK_STREAM:
                s.listen(1)
        except OSError as e:
            raise Violation('port-not-released', '%s: %s:%d is still in use (%s): %s' % (what, a, p, e, sc.px.cmd('fdlist')['fds']), kind='progress')
        finally:
            s.close()
    sc.ck.count(ports_rebound=len(tests))


def serves(sc, what, slots=None):
    """All slots can be used, with relaying both ways and TCP."""
    px, cs = sc.px, []
    try:
        for i in range(sc.slots):
            cs.append(px.session('N%dEW' % i))
        srcs = {echo(c, sc.nodes[0], 'P10v') for c in cs}
        if len(srcs) != sc.slots:
            raise Violation('slots-shared', '%s: %d sessions relay from %s' % (what, sc.slots, srcs))
        works(sc, cs[-1], what)
    finally:
        for c in cs:
            c.close()
    sc.ck.count(full_service=1)


def works(sc, c, what):
    node = sc.nodes[0]
    echo(c, node, 'P10w')
    echo(c, node, 'P10w', 5199)
    m0 = len(c.msgs)
    nc = sc.nodeconn(c, node)
    nc.send(b'hello')
    if not c.wait_msgs(lambda m: b'hello' in b''.join(x[2] for x in m[m0:] if x[0] == TCP_DATA), 'TCP data'):
        raise Violation('session-broken', '%s: a session does not relay TCP' % what, kind='progress')
    c.send(msg(TCP_DATA, payload=b'there'))
    if not wait(lambda: b'there' in nc.data):
        raise Violation('session-broken', '%s: a session does not relay TCP' % what, kind='progress')
    nc.close()
    if not c.wait_msgs(lambda m: any(x[0] == TCP_CLOSE for x in m[m0:]), 'TCP close'):
        raise Violation('session-broken', '%s: the end of a TCP connection is not announced' % what, kind='progress')


def refused(sc, what):
    """Nobody is admitted any more."""
    for _ in range(2):
        c = sc.px.client()
        wait(lambda: c.eof or c.raw, 2)
        if c.raw:
            raise Violation('admitted-after-shutdown', '%s: a new client is challenged' % what)
        c.close()
    sc.ck.count(refused_after_shutdown=2)


def is_up(sc):
    sc.px.up()


def life(sc, sit, how):
    """From open to closed, in one situation, with one way to end."""
    px, ck = sc.px, sc.ck
    what = '%s with %s' % (how, '+'.join(sit))
    for s in sorted(sit, key=lambda s: s in ('udp', 'tcp', 'churn', 'stalled_client_udp', 'closing')):
        SIT[s](sc)
    if 'shutdown' in how and len(sc.clients) < sc.slots and 'churn' not in sit:
        s_idle(sc)
    if sc.r.random() < 0.3:
        time.sleep(sc.r.random() * 0.01)
    for step in how.split():
        if step == 'drop':
            victims = list(sc.clients)
            sc.call('drop')
            ended(sc, victims, what)
            # whatever the clients and hosts of the past are doing
            sc.quiet()
            serves(sc, what + ', then a drop')
            hosts_ended(sc, what)
            sc.reset()
            ck.count(drops=1)
        elif step == 'shutdown':
            sc.call('shutdown')
            if px.serve_ended() is None:
                raise Violation('hang:accept', '%s: the accept call did not return\n%s' % (what, px.stacks()), kind='progress')
            refused(sc, what)
            for c in sc.healthy:
                if c.eof:
                    raise Violation('session-ended', '%s: shutting down ended a session' % what)
                works(sc, c, what)
                ck.count(sessions_survived_shutdown=1)
        elif step == 'dropafter':
            # after a shutdown: everyone goes, nobody comes
            victims = list(sc.clients)
            sc.call('drop')
            ended(sc, victims, what)
            refused(sc, what)
        elif step == 'pair':
            # at the same time from two threads
            victims = list(sc.clients)
            ids = [px.bg(x) for x in sc.r.sample(['drop', 'shutdown', 'drop', 'shutdown'], 3)]
            for i in ids:
                px.reply(i, 'drop/shutdown', LIMIT)
            if px.serve_ended() is None and px.ret('serving'):
                pass      # only drops were drawn
            del victims
        elif step in ('close', 'free'):
            victims = list(sc.clients)
            sc.call(step)
            ended(sc, victims, what)
            if px.serve_ended() is None:
                raise Violation('hang:accept', '%s: the accept call did not return\n%s' % (what, px.stacks()), kind='progress')
            sc.quiet()
            rebind(sc, what)
            hosts_ended(sc, what)

            def same():
                px.quiesce(5)
                return sc.stat() == sc.base
            if not poll(same, 10, 0.02):
                raise Violation('not-released', '%s: descriptors and threads %s, %s before: %s' % (what, sc.stat(), sc.base, px.cmd('fdlist')['fds']), kind='progress')
            if step == 'free':
                px.must('init')
                px.configure()
            px.cmd('logmedium 2 %s/proxy.log' % px.dir)
    sc.reset()
    ck.case((tuple(sit), how, sc.reg, sc.slots), sample=what)


def run(ck, b, net, seed, slots, reg, vf, plan):
    r = random.Random(seed)
    sc = Scene(ck, b, net, r, slots, reg, vf)
    try:
        sc.prime()
        for sit, how in plan:
            if ck.left() < 15:
                ck.count(cut_short=1)
                break
            sc.px.up()
            life(sc, sit, how)
        sc.px.up()
        serves(sc, 'in the end')
        sc.call('close')
        sc.px.end()
    except BaseException:
        sc.px.cleanup()
        raise
    finally:
        sc.close()


def race(ck, b, net, seed, sits, rounds, dly, pm=1000):
    """Drops and closes at any moment of a TCP connection being opened, a login or a transfer, with the library's calls stretched."""
    r = random.Random(seed)
    sc = Scene(ck, b, net, r, 2, None, {'delay': pm, 'delay_us': dly})
    try:
        sc.prime()
        a = net.node(60)
        sc.blackhole(a, 5200)
        px = sc.px
        px.up()
        for i in range(rounds):
            if ck.left() < 15:
                break
            sit = sits[i % len(sits)]
            what = 'in the middle of: ' + sit
            slow, k = r.choice([0, 1, 1]) if sit != 'arrive' else 0, r.choice([8, 20])

            def stretch():
                # one kind of call takes longer than everything else
                if slow:
                    px.cmd('vf slow_mask %d' % (1 << {'connect': 9, 'arrive': 4}.get(sit, r.choice([4, 9]))))
                    px.cmd('vf slow_us %d' % (dly * k))
            if sit == 'arrive':
                stretch()
                c = px.client()
            elif sit == 'login':
                c = px.client()
                n = c.nonce()
                if n is None:
                    c.close()
                    continue
                stretch()
                with c.lock:
                    c.greeted, c.parsed = True, 8
                c.send(b'W1AW\n' + answer(n, px.password))
            else:
                c = px.session('RACE')
                probe(c, sc.nodes[0], 'P10r')
                stretch()
                if sit == 'connect':
                    c.send(msg(TCP_OPEN, a))
                elif sit == 'open':
                    c.send(msg(TCP_OPEN, sc.nodes[0].addr) + msg(TCP_DATA, payload=b'x'))
                elif sit == 'reopen':
                    c.send((msg(TCP_OPEN, sc.nodes[0].addr) + msg(TCP_CLOSE)) * 3 + msg(TCP_OPEN, sc.nodes[0].addr))
                elif sit == 'leave':
                    c.send(msg(TCP_OPEN, sc.nodes[0].addr))
                    c.s.shutdown(socket.SHUT_WR)
            time.sleep(r.random() * dly * (12e-6 if pm == 1000 else 1e-6))
            step = r.choice(['drop', 'drop', 'drop', 'close']) if sit != 'arrive' else 'close'
            sc.call(step)
            if slow:
                px.cmd('vf slow_us 0')
            if not c.wait_eof():
                raise Violation('not-dropped', '%s %s: the client is still connected\n%s' % (step, what, px.stacks()), kind='progress')
            c.close()
            if step == 'close':
                if px.serve_ended() is None:
                    raise Violation('hang:accept', 'the accept call did not return', kind='progress')
                rebind(sc, 'close ' + what)
                px.cmd('logmedium 2 %s/proxy.log' % px.dir)
                px.up()
            else:
                # the slot is free again promptly
                px.session('RACE').close()
            ck.case(('race', sit, step, i, dly), sample='%s %s' % (step, what))
        px.cmd('vf delay 0')
        serves(sc, 'after races')
        sc.call('close')
        px.end()
    except BaseException:
        sc.px.cleanup()
        raise
    finally:
        sc.close()


def odd(ck, b, net, seed):
    """Lifecycle calls in unusual places of the order, and closing right after starting."""
    r = random.Random(seed)
    sc = Scene(ck, b, net, r, 2, r.choice([None, 'ok', 'silent', 'refuse']), {'delay': r.choice([0, 300]), 'delay_us': 1000})
    px = sc.px
    try:
        sc.prime()
        for seq in ('shutdown', 'drop', 'close', 'close close', 'open close', 'open shutdown close', 'open drop close', 'open drop shutdown drop close close',
                    'open start close', 'open start shutdown close', 'open start drop close', 'open start serve close', 'open start serve shutdown shutdown close',
                    'open start serve drop drop close', 'open serve close', 'open shutdown start close', 'open free init', 'open start serve free init',
                    'free init', 'free free init', 'close free init', 'open start update close', 'update', 'open update close'):
            for step in seq.split():
                if step in ('open', 'start'):
                    px.must(step)
                elif step == 'serve':
                    px.serve()
                    if r.random() < 0.5:
                        time.sleep(r.random() * 0.003)
                elif step == 'init':
                    px.must('init')
                    px.configure()
                else:
                    sc.call(step)
            if 'serve' in seq and px.serve_ended() is None:
                raise Violation('hang:accept', '%s: the accept call did not return\n%s' % (seq, px.stacks()), kind='progress')
            rebind(sc, seq)
            px.cmd('logmedium 2 %s/proxy.log' % px.dir)
            ck.case((seq, sc.reg), sample=seq)
        px.up()
        serves(sc, 'after all sequences')
        sc.call('close')
        px.end()
    except BaseException:
        px.cleanup()
        raise
    finally:
        sc.close()


WAYS = ['close', 'drop close', 'shutdown close', 'shutdown dropafter close', 'drop shutdown close', 'free', 'pair close', 'drop drop close', 'shutdown free']


def body(ck):
    b = build('asan')
    pool = Pool(Net() for _ in range(8))
    r = ck.rng
    single = [[s] for s in SIT]
    cases = []
    names = sorted(SIT)

    def plans(ways, extra):
        todo = [([s], w) for s in names for w in ways]
        for _ in range(extra):
            todo.append((r.sample([n for n in names if n not in ('full', 'churn')], 2), r.choice(WAYS)))
            if r.random() < 0.4:
                todo[-1][0].append('churn')
        r.shuffle(todo)
        return todo
    todo = plans(WAYS[:6] if not ck.thorough else WAYS, ck.n(30, 400))
    size = 12
    for i in range(0, len(todo), size):
        slots = 3
        reg = r.choice([None, None, 'ok', 'refuse'])
        vf = r.choice([{}, {}, {'delay': 100, 'delay_us': 1000}, {'short_send': 300, 'short_recv': 300}])
        cases.append((pool.run, ck, b, run, r.randrange(1 << 30), slots, reg, vf, todo[i:i + size]))
    for reg in ('silent', 'blackhole', 'http500', 'garbage', 'slow', 'close', 'short'):
        plan = [(r.sample([n for n in names if n not in ('churn', 'full')], 2), w) for w in r.sample(WAYS, 2)]
        for p in plan:
            cases.insert(0, (pool.run, ck, b, run, r.randrange(1 << 30), 3, reg, {}, [p]))
    for _ in range(ck.n(2, 20)):
        cases.append((pool.run, ck, b, odd, r.randrange(1 << 30)))
    for dly, pm in ((1000, 1000), (8000, 80), (20000, 60), (8000, 80), (20000, 60)):
        for _ in range(ck.n(1, 6)):
            cases.append((pool.run, ck, b, race, r.randrange(1 << 30), ['arrive'], ck.n(120, 400), dly, pm))
    for dly in (300, 2000):
        for _ in range(ck.n(2, 12)):
            cases.append((pool.run, ck, b, race, r.randrange(1 << 30), ['connect', 'login', 'connect', 'open', 'reopen', 'leave'], ck.n(40, 150), dly))
    ck.run_many(cases, 8)


ck = Check('P10', rule='one evaluation is one lifecycle call sequence in one situation, judged on return times, ends of connections, released ports, '
           'descriptors and later service; distinct by situation, sequence, registration server behaviour and slots')
ck.min_eval = 100
main(ck, body)
