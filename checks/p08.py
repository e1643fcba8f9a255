"""P08: a misbehaving peer can hurt nobody but its own session."""
from vf.core import Check, main, Violation
from vf.build import build
from vf.scen import *

UNKNOWN = [0, 4, 6 + 1] + list(range(8, 256))
BIG = [4095, 4096, 4097, 5000, 8192, 12289, 65535, 65536, 100000, 300000]


def fuzz_before(r, c, px):
    """Bytes of a client which does not get in."""
    kind = r.choice(['nothing', 'random', 'long', 'exact', 'nul', 'fmt', 'short', 'newlines', 'badanswer', 'message', 'http', 'flood'])
    rb = r.randbytes
    if kind == 'random':
        d = rb(r.choice([1, 5, 10, 11, 12, 16, 27, 28, 29, 100, 5000]))
    elif kind == 'long':
        d = bytes(r.choice([65, 255, 1, 37]) for _ in range(r.choice([11, 12, 13, 27, 28, 64, 4096, 70000])))
    elif kind == 'exact':
        d = b'A' * r.choice([9, 10, 11]) + b'\n' + rb(r.randrange(0, 40))
    elif kind == 'nul':
        d = r.choice([b'\0', b'W1\0AW', b'\0\0\0', b'W1AW\0']) + b'\n' + rb(16)
    elif kind == 'fmt':
        d = r.choice([b'%s%s%s%n', b'%n%n%n', b'%999999d', b'%*d%*d', b'\x1b[2J%s']) + b'\n' + rb(16)
    elif kind == 'short':
        d = b'W1AW\n' + rb(r.randrange(0, 16))
    elif kind == 'newlines':
        d = b'\n' * r.choice([1, 2, 16, 17, 18, 40])
    elif kind == 'badanswer':
        d = b'W1AW\n' + rb(16) + rb(r.choice([0, 1, 50, 9000]))
    elif kind == 'message':
        d = b''.join(msg(r.randrange(1, 7), rb(4), rb(20)) for _ in range(r.randrange(1, 9)))
    elif kind == 'http':
        d = b'GET / HTTP/1.1\r\nHost: x\r\n\r\n'
    elif kind == 'flood':
        d = rb(200000)
    else:
        d = b''
    if kind != 'nothing' and r.random() < 0.2:
        pass
    else:
        c.nonce()
    c.send(d, pieces=r.choice([None, None, 3, 9]) if 20 < len(d) < 6000 else None, rng=r)
    return kind


def fuzz_session(r, c, px, node, dests, ck):
    """An admitted client misbehaving; returns kind and whether its session must be over."""
    rb = r.randbytes
    kind = r.choice(['unknown', 'unknown', 'unknown', 'trunc-header', 'trunc-data', 'trunc-huge', 'big', 'big', 'random', 'grammar', 'grammar', 'noconn',
                     'rst-mid', 'weird-dest', 'opens', 'zero', 'declared', 'declared'])
    if kind == 'unknown':
        t = r.choice(UNKNOWN) if r.random() < 0.7 else r.choice([0, 4, 7, 8, 255, 128])
        pre = msg(UDP_DATA, node.addr, b'before') if r.random() < 0.5 else b''
        c.send(pre + msg(t, rb(4), b'', size=r.choice([0, 1, 4096, 0xffffffff, 0x7fffffff])) + rb(r.choice([0, 0, 9, 5000])))
        return kind, 'over'
    if kind == 'trunc-header':
        c.send(msg(r.randrange(1, 7), rb(4))[:r.randrange(1, 9)])
        return kind, 'open'
    if kind in ('trunc-data', 'trunc-huge'):
        n = r.choice([1, 2, 100, 4096, 4097, 50000]) if kind == 'trunc-data' else r.choice([0xffffffff, 0x80000000, 0x7fffffff, 0x10000, 1 << 24])
        have = rb(r.choice([0, 1, 4095, 4096, 4097, 20000]))
        c.send(msg(r.choice([TCP_DATA, UDP_DATA, UDP_CONTROL]), r.choice(dests), have[:max(0, n - 1)], size=n))
        return kind, 'open'
    if kind == 'big':
        # declared lengths are honoured: the message after it is understood
        t = r.choice([TCP_DATA, UDP_DATA, UDP_CONTROL])
        opened = t == TCP_DATA and r.random() < 0.5
        n = r.choice(BIG)
        mk = tag('after-big')
        inner = msg(255, rb(4)) * (n // 9 + 1)
        c.send((msg(TCP_OPEN, node.addr) if opened else b'') + msg(t, node.addr, inner[:n]) + msg(UDP_CONTROL, node.addr, mk))
        if not wait(lambda: any(d[3] == mk for d in node.dgrams[::-1]) or c.eof):
            raise Violation('after-big', 'the message after one of type %d and %d bytes is not processed\n%s' % (t, n, px.stacks()), kind='progress')
        if not any(d[3] == mk for d in node.dgrams):
            if px.alive():
                raise Violation('length-not-honoured', 'a message of type %d and %d bytes is not consumed as declared: session ended with %s\n%s' % (
                    t, n, c.eof, px.log_text()[-700:]))
        return kind, 'usable'
    if kind == 'declared':
        # the data of a message of any declared length is only data, also when it looks like messages
        t = r.choice([TCP_DATA, UDP_DATA, UDP_DATA, UDP_CONTROL, UDP_CONTROL])
        n = r.choice([0xffffffff, 0x80000000, 0x7fffffff, 0xc0000000, 0x80000001, 0xfffffff7, 1 << 24, 1 << 25, (1 << 31) + 4096, 1 << r.randrange(17, 32), r.randrange(1 << 17, 1 << 32)])
        opened = t == TCP_DATA and r.random() < 0.5
        mk = tag('in-data')
        inner = msg(UDP_CONTROL, node.addr, mk)
        ends = (b'', inner[:r.randrange(1, 9)])[r.random() < 0.5]
        data = ends + inner * (r.choice([4096, 8192, 12288]) // len(inner) + 2)
        c.send((msg(TCP_OPEN, node.addr) if opened else b'') + msg(t, node.addr, data, size=n), pieces=r.choice([None, None, 5]), rng=r)

        end = time.monotonic() + 0.1

        def arrived():
            if c.eof or any(d[3] == mk for d in node.dgrams[::-1]):
                return True
            if opened:
                return any(mk in bytes(x.data) for x in node.conns)
            if t == TCP_DATA:
                # goes to whatever connection there was, if any
                return time.monotonic() > end
            return any(mk in d[3] for d in node.dgrams[::-1])
        if not wait(arrived):
            raise Violation('declared-stuck', 'the data of a message of type %d declaring %d bytes is not processed\n%s' % (t, n, px.stacks()), kind='progress')
        time.sleep(0.02)
        if any(d[3] == mk for d in node.dgrams):
            raise Violation('length-not-honoured', 'data within a message of type %d declaring %d bytes is taken for a message' % (t, n))
        if c.eof and px.alive():
            raise Violation('length-not-honoured', 'within a message of type %d declaring %d bytes the session ended with %s\n%s' % (t, n, c.eof, px.log_text()[-700:]))
        return kind, 'open'
    if kind == 'noconn':
        c.send(b''.join(msg(TCP_DATA, rb(4), rb(r.choice([1, 4096, 5000]))) if r.random() < 0.7 else msg(TCP_CLOSE) for _ in range(r.randrange(1, 30))))
        return kind, 'usable'
    if kind == 'random':
        d = rb(r.choice([9, 10, 30, 300, 5000]))
        # opens to arbitrary addresses might wait for a network
        c.send(bytes([r.choice([2, 3, 5, 6, 200])]) + d[1:])
        return kind, 'unknown'
    if kind == 'grammar':
        b = b''
        for _ in range(r.randrange(1, 25)):
            t = r.choice([TCP_OPEN, TCP_DATA, TCP_CLOSE, UDP_DATA, UDP_CONTROL])
            p = b'' if t in (TCP_OPEN, TCP_CLOSE) else rb(r.choice([0, 1, 8, 100, 4096, 4097]))
            b += msg(t, r.choice(dests), p)
        c.send(b, pieces=r.choice([None, 4, 20]) if len(b) > 40 else None, rng=r)
        return kind, 'usable'
    if kind == 'rst-mid':
        c.send(msg(TCP_OPEN, node.addr) + msg(TCP_DATA, node.addr, rb(3000))[:r.randrange(1, 2000)])
        c.close(rst=True)
        return kind, 'gone'
    if kind == 'weird-dest':
        c.send(b''.join(msg(r.choice([UDP_DATA, UDP_CONTROL]), a, rb(30)) for a in ('0.0.0.0', '255.255.255.255', '224.0.0.1', '240.0.0.1', px.net.ext(0),
                                                                                 px.net.ext(1), px.net.proxy) for _ in range(3)))
        return kind, 'usable'
    if kind == 'opens':
        c.send(b''.join(msg(TCP_OPEN, r.choice([node.addr, px.net(77), '255.255.255.255', px.net.ext(0)])) + (msg(TCP_CLOSE) if r.random() < 0.3 else b'')
                        for _ in range(r.randrange(1, 15))))
        return kind, 'usable'
    c.send(msg(r.choice([TCP_DATA, UDP_DATA, UDP_CONTROL, TCP_CLOSE]), rb(4)) * r.randrange(1, 40))
    return 'zero', 'usable'


def hostile(node, r, stop, targets):
    """Hosts sending rubbish to the external addresses."""
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    s.bind((node.addr, 0))
    try:
        while not stop.is_set():
            for _ in range(r.randrange(1, 8)):
                try:
                    s.sendto(r.randbytes(r.choice([0, 0, 1, 9, 100, 4087, 4088, 9000, 65507])), (r.choice(targets), r.choice([5198, 5199])))
                except OSError:
                    pass
            time.sleep(r.random() * 0.01)
    finally:
        s.close()


def scenario(ck, b, net, seed, vf, n, env=None):
    r = random.Random(seed)
    with Proxy(b.host, net, slots=4, vf=vf, loglevel=r.choice([1, 4]), denied=r.choice([None, '^BAD']), env=env) as px:
        node, evil, calm = Node(net.node(0)), Node(net.node(1)), Node(net.node(2))
        dests = [node.addr, evil.addr, net(77), '255.255.255.255', '240.0.0.1']
        style = [0]

        def rude(nc):
            q = random.Random(seed + len(evil.conns))
            k = q.randrange(5)
            if k == 0:
                nc.close(rst=True)
            elif k == 1:
                nc.send(q.randbytes(q.choice([1, 5000, 60000])))
                nc.close(rst=q.random() < 0.5)
            elif k == 2:
                nc.half_close()
            elif k == 3:
                nc.send(msg(255) * 500)
        evil.on_accept = rude
        stop = threading.Event()
        ht = None
        try:
            by = px.session('BYSTAND')
            bysrc = probe(by, calm, 'P08by')
            others = [px.net.ext(i) for i in range(4) if px.net.ext(i) != bysrc]
            ht = threading.Thread(target=hostile, args=(evil, random.Random(seed), stop, others), daemon=True)
            ht.start()
            byt = threading.Event()
            problem = []

            def bystander():
                # exactly its own echo, all the time
                k = 0
                q = random.Random(seed + 1)
                while not byt.is_set():
                    try:
                        echo(by, calm, 'P08by', q.choice([5198, 5199]))
                        ck.count(bystander_echoes=1)
                    except Violation as v:
                        problem.append(v)
                        return
                    k += 1
                    time.sleep(0.01)
            bt = threading.Thread(target=bystander, daemon=True)
            bt.start()

            def attacker(i):
                q = random.Random(seed * 31 + i)
                for k in range(n):
                    if problem:
                        return
                    c = px.client()
                    try:
                        if q.random() < 0.35:
                            kind = fuzz_before(q, c, px)
                            ck.case(('pre', kind, seed, i, k), sample='before admission: ' + kind)
                            ck.count(pre_admission=1)
                        else:
                            c.close()
                            c = px.session(q.choice(['W1AW', 'K1RFD', 'A', 'ABCDEFGHIJ', '%s%s%n', '\x01\xff']))
                            if q.random() < 0.3:
                                c.send(msg(TCP_OPEN, q.choice([evil.addr, node.addr])))
                            kind, fate = fuzz_session(q, c, px, node, dests, ck)
                            ck.case(('post', kind, seed, i, k), sample='admitted: ' + kind)
                            ck.count(**{'admitted_' + kind: 1})
                            if fate == 'over':
                                if not c.wait_eof():
                                    raise Violation('unknown-survives', 'a session survives a message of unknown type\n' + px.stacks(), kind='progress')
                            elif fate == 'usable' and q.random() < 0.6:
                                mk = tag('usable')
                                c.send(msg(UDP_DATA, node.addr, mk))
                                wait(lambda: any(d[3] == mk for d in node.dgrams[::-1]) or c.eof)
                                if not any(d[3] == mk for d in node.dgrams):
                                    if not px.alive():
                                        px.p.wait(30)
                                        raise px.died(kind)
                                    raise Violation('session-lost:' + kind, 'a session which only sent valid messages (%s) is %s\n%s\n%s' % (
                                        kind, 'over: %s' % c.eof if c.eof else 'stuck', px.log_text()[-900:], px.stacks()), kind='progress')
                            if c.malformed:
                                raise Violation('malformed-stream', 'after %s: %s' % (kind, c.malformed))
                            if any(m[0] == SYSTEM for m in c.msgs):
                                raise Violation('stray-system', 'an admitted client got a message of type 7')
                    finally:
                        c.close(rst=q.random() < 0.4)
                    if len(node.dgrams) > 5000:
                        del node.dgrams[:4000]
            parallel([lambda i=i: attacker(i) for i in range(3)])
            byt.set()
            bt.join(WAIT * 2)
            if not px.alive():
                px.p.wait(30)
                raise px.died('misbehaving peers')
            if problem:
                raise Violation('bystander:' + problem[0].key, 'another session was affected: ' + problem[0].msg, kind=problem[0].kind)
            if by.eof:
                raise Violation('bystander-ended', 'another session ended: %s' % by.eof)
            stop.set()
            ht.join(5)
            # later clients are served as before, on every slot
            cs = [px.session('LATER%d' % i) for i in range(3)]
            for c in cs:
                echo(c, node, 'P08later')
                c.close()
            by.close()
            ck.count(scenarios=1)
        finally:
            stop.set()
            for x in (node, evil, calm):
                x.close()


def body(ck):
    a, m = build('asan'), build('msan')
    net = Net()
    r = ck.rng
    for rep in range(ck.n(3, 20)):
        for b, vf in ((a, {}), (a, {'short_recv': 300, 'short_max': 5}), (a, {'short_send': 200, 'delay': 40, 'delay_us': 300}),
                      (m, {}), (m, {'short_recv': 200, 'short_send': 200})):
            ck.run_case(scenario, ck, b, net, r.randrange(1 << 30), dict(vf, seed=r.randrange(1, 99999)), ck.n(120, 400))


ck = Check('P08', rule='one evaluation is one misbehaving connection followed by its own verdict (ended or still usable), with sanitizers on and a bystander '
           'session echoing all the time; distinct by kind and position',
           assumptions=['TCP_OPEN is only sent for addresses which answer or fail at once; the network of a sandbox cannot swallow packets'])
ck.min_eval = 100
main(ck, body)
