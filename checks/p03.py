"""P03: at most one session per external address; slots never leak."""
from vf.core import Check, main, Violation
from vf.build import build
from vf.scen import *


def full_house(ck, px, node, slots, what):
    """Every slot can be taken at once, by distinct addresses, and no more."""
    cs = []
    try:
        for i in range(slots):
            cs.append(px.session('W%dAW' % i))
        srcs = [probe(c, node, what) for c in cs]
        if len(set(srcs)) != slots:
            raise Violation('shared-address', '%d simultaneous sessions relay from %s' % (slots, srcs))
        if not set(srcs) <= {px.net.ext(i) for i in range(slots)}:
            raise Violation('wrong-source', 'sessions relay from %s' % srcs)
        over(ck, px, what)
        for c, s in zip(cs, srcs):
            if probe(c, node, what) != s:
                raise Violation('address-changed', 'the external address of a session changed')
        ck.count(full_houses=1)
    finally:
        for c in cs:
            c.close()


def over(ck, px, what):
    """All slots are in use: a further connection is closed without a challenge."""
    c = px.client()
    try:
        if not wait(lambda: c.eof or c.raw):
            raise Violation('excess-not-closed', 'a connection beyond the slots is kept open without challenge', kind='progress')
        wait(lambda: c.eof, 0.5 if c.raw else WAIT)
        if c.raw:
            raise Violation('excess-challenged', 'a connection was challenged while all %d slots were in use (%s)' % (px.slots, what))
        ck.count(excess_refused=1)
    finally:
        c.close()


def history(ck, b, net, seed, slots):
    r = random.Random(seed)
    vf = {'seed': seed % 99991, 'short_recv': 100}
    if r.random() < 0.5:
        vf.update(delay=r.choice([50, 200]), delay_us=500)
    with Proxy(b.host, net, slots=slots, denied='^BAD', vf=vf) as px:
        node = Node(net.node(0))
        live = []        # [kind, client, src]
        try:
            for step in range(ck.n(60, 150)):
                op = r.choice(['silent', 'partial', 'login', 'login', 'login', 'badpw', 'badcall', 'long', 'close', 'close', 'over',
                               'opentcp', 'fill', 'unknown'])
                ck.case((seed, slots, step, op, len(live)), sample='slots=%d live=%d op=%s' % (slots, len(live), op))
                if op == 'fill':
                    while len(live) < slots:
                        c = px.session('N%dC' % len(live))
                        live.append(['session', c, probe(c, node, 'P03')])
                    over(ck, px, 'after filling')
                elif op == 'over':
                    if len(live) == slots:
                        over(ck, px, 'history')
                elif op == 'close':
                    if live:
                        k = live.pop(r.randrange(len(live)))
                        k[1].close(rst=r.random() < 0.5)
                elif op == 'unknown':
                    ss = [x for x in live if x[0] == 'session']
                    if ss:
                        k = r.choice(ss)
                        live.remove(k)
                        k[1].send(msg(r.choice([0, 4, 7, 8, 99, 255])))
                        if not k[1].wait_eof():
                            raise Violation('not-disconnected', 'a session survives a message of unknown type', kind='progress')
                        k[1].close()
                elif op == 'opentcp':
                    ss = [x for x in live if x[0] == 'session']
                    if ss:
                        k = r.choice(ss)
                        k[1].send(msg(TCP_OPEN, node.addr))
                elif len(live) < slots:
                    if op == 'login':
                        c = px.session(r.choice(['W1AW', 'K1RFD', 'N0C%d' % step]))
                        live.append(['session', c, probe(c, node, 'P03')])
                    else:
                        end = time.monotonic() + WAIT
                        while True:
                            c = px.client()
                            n = c.nonce()
                            if n is not None:
                                break
                            c.close()
                            if time.monotonic() > end:
                                raise Violation('no-service', 'no challenge while %d of %d slots are in use\n%s' % (
                                    len(live), slots, px.stacks()), kind='progress')
                            time.sleep(0.01)
                        if op == 'silent':
                            live.append(['silent', c, None])
                        elif op == 'partial':
                            c.send(b'W1AW\n' + answer(n, px.password)[:r.randrange(0, 15)])
                            live.append(['partial', c, None])
                        else:
                            if op == 'long':
                                c.send(b'A' * 40)
                            else:
                                c.greet('BAD1' if op == 'badcall' else 'W1AW', resp=answer(n, px.password if op == 'badcall' else 'x'))
                            if r.random() < 0.7:
                                if not c.wait_eof():
                                    raise Violation('not-disconnected', 'a refused client stays connected', kind='progress')
                            c.close(rst=r.random() < 0.5)
                # sessions in progress are undisturbed and on distinct addresses
                srcs = [x[2] for x in live if x[0] == 'session']
                if len(set(srcs)) != len(srcs):
                    raise Violation('shared-address', 'simultaneous sessions relay from %s' % srcs)
                for x in live:
                    if x[1].eof:
                        raise Violation('session-ended', 'an established %s connection ended without cause (%s) during %s\n%s' % (
                            x[0], x[1].eof, op, px.log_text()[-800:]))
                ck.maxi(most_live=len(live))
            for x in live:
                if x[0] == 'session' and probe(x[1], node, 'P03e') != x[2]:
                    raise Violation('address-changed', 'the external address of a session changed')
                x[1].close(rst=r.random() < 0.5)
            live = []
            full_house(ck, px, node, slots, 'after a history')
            # the same after dropping everyone and after reopening
            for i in range(slots):
                live.append(['session', px.session('N0CALL'), None])
            px.cmd('drop')
            for x in live:
                if not x[1].wait_eof():
                    raise Violation('not-dropped', 'a client survived a drop', kind='progress')
                x[1].close()
            live = []
            full_house(ck, px, node, slots, 'after a drop')
            px.down()
            px.up()
            full_house(ck, px, node, slots, 'after reopening')
        finally:
            for x in live:
                x[1].close()
            node.close()


def churn(ck, b, net, seed, slots, threads):
    """Concurrent clients; exclusive use of the addresses is watched throughout."""
    r0 = random.Random(seed)
    with Proxy(b.host, net, slots=slots, denied='^BAD', vf={'seed': seed % 99991, 'delay': r0.choice([0, 50, 200]), 'delay_us': 800}) as px:
        nodes = [Node(net.node(i)) for i in range(threads)]
        held, lk = {}, threading.Lock()
        peak = [0]
        try:
            seeds = [r0.randrange(1 << 30) for _ in range(threads)]

            def run(i):
                r = random.Random(seeds[i])
                end = time.monotonic() + WAIT
                good = 0
                for k in range(ck.n(40, 200)):
                    op = r.choice(['good', 'good', 'good', 'badpw', 'badcall', 'abort', 'half'])
                    c = px.client()
                    n = c.nonce()
                    ck.case((seed, i, k, op, n is None))
                    if n is None:
                        c.close()
                        ck.count(busy_refusals=1)
                        time.sleep(r.random() * 0.004)
                        if op == 'good' and threads <= slots and time.monotonic() > end:
                            raise Violation('no-service', 'never served with %d clients on %d slots' % (threads, slots), kind='progress')
                        continue
                    end = time.monotonic() + WAIT
                    if op == 'good':
                        c.greet('K%dABC' % r.randrange(threads), resp=answer(n, px.password))
                        src = probe(c, nodes[i], 'P03c')
                        with lk:
                            other = held.get(src)
                            if other is not None:
                                raise Violation('shared-address', 'two simultaneous sessions relay from %s' % src)
                            held[src] = i
                            peak[0] = max(peak[0], len(held))
                        for _ in range(r.randrange(3)):
                            if probe(c, nodes[i], 'P03d') != src:
                                raise Violation('address-changed', 'the external address of a session changed')
                        # still ours right before we let go
                        if c.eof:
                            raise Violation('session-ended', 'a session ended without cause (%s)' % c.eof)
                        with lk:
                            del held[src]
                        ck.count(sessions=1)
                        good += 1
                    elif op in ('badpw', 'badcall'):
                        c.greet('BADX' if op == 'badcall' else 'OK1', resp=answer(n, px.password if op == 'badcall' else 'y'))
                        if r.random() < 0.5 and not c.wait_eof():
                            raise Violation('not-disconnected', 'a refused client stays connected', kind='progress')
                    elif op == 'half':
                        c.send(b'W1AW\n123')
                    c.close(rst=r.random() < 0.4)
            parallel([lambda i=i: run(i) for i in range(threads)])
            ck.maxi(peak_sessions=peak[0])
            if peak[0] > slots:
                raise Violation('too-many-sessions', '%d simultaneous sessions on %d slots' % (peak[0], slots))
            full_house(ck, px, nodes[0], slots, 'after churn')
        finally:
            for n in nodes:
                n.close()


def taken(ck, b, net, seed, slots):
    """Some address cannot be used for a while: afterwards every slot is back, whoever was turned away meanwhile."""
    r = random.Random(seed)
    with Proxy(b.host, net, slots=slots, vf={'seed': seed % 99991}) as px:
        node = Node(net.node(0))
        live = []
        try:
            for rnd in range(ck.n(5, 12)):
                for c, s in live[r.randrange(min(len(live) + 1, slots)):]:
                    live.remove((c, s))
                    c.close(rst=r.random() < 0.5)
                px.quiesce()
                idle = [net.ext(i) for i in range(slots) if net.ext(i) not in [x[1] for x in live]]
                squat = []
                for a in r.sample(idle, r.randrange(1, len(idle) + 1)):
                    for p in r.choice([(5198,), (5199,), (5198, 5199)]):
                        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
                        bind(s, (a, p))
                        squat.append(s)
                bad = {s.getsockname()[0] for s in squat}
                for k in range(r.randrange(1, 2 * slots + 2)):
                    if len(live) == slots:
                        break
                    c = px.client()
                    n = c.nonce()
                    if n is None:
                        c.close()
                        continue
                    c.greet(r.choice(['W1AW', 'K1RFD', 'N%dC' % k]), resp=answer(n, px.password))
                    t = tag('t')
                    c.send(msg(UDP_DATA, node.addr, t))
                    if not wait(lambda: c.eof or any(x[3] == t for x in node.dgrams)):
                        raise Violation('undecided', 'a client is neither served nor turned away while an address is taken\n' + px.stacks(), kind='progress')
                    got = [x[1] for x in node.dgrams if x[3] == t]
                    ck.case((seed, rnd, k, slots, bool(got)), sample='slots=%d live=%d taken=%d %s' % (slots, len(live), len(bad), got))
                    if got:
                        if got[0] in bad or got[0] in [x[1] for x in live]:
                            raise Violation('shared-address', 'a session relays from %s, which is taken' % got[0])
                        live.append((c, got[0]))
                        ck.count(sessions_beside=1)
                    else:
                        c.close()
                        px.quiesce()
                        ck.count(turned_away=1)
                for s in squat:
                    s.close()
                for c, s in live:
                    if c.eof or probe(c, node, 'P03t') != s:
                        raise Violation('session-ended', 'an established session ended or changed while other addresses were taken')
                px.quiesce()
                if r.random() < 0.5:
                    # all the free slots can be taken now
                    while len(live) < slots:
                        c = px.session('N%dX' % len(live))
                        live.append((c, probe(c, node, 'P03u')))
                    if len({s for c, s in live}) != slots:
                        raise Violation('shared-address', 'simultaneous sessions relay from %s' % [s for c, s in live])
                    over(ck, px, 'after an address was taken')
                else:
                    for c, s in live:
                        c.close()
                    live = []
                    full_house(ck, px, node, slots, 'after an address was taken')
                    px.quiesce()
        finally:
            for c, s in live:
                c.close()
            node.close()


def body(ck):
    b = build('asan')
    net = Net()
    r = ck.rng
    for slots in (1, 2, 3, 5):
        for _ in range(ck.n(3, 12)):
            ck.run_case(history, ck, b, net, r.randrange(1 << 30), slots)
    for slots in (17, 40):
        for _ in range(ck.n(1, 4)):
            ck.run_case(history, ck, b, net, r.randrange(1 << 30), slots)
    for slots in (1, 2, 3, 5):
        for _ in range(ck.n(2, 10)):
            ck.run_case(taken, ck, b, net, r.randrange(1 << 30), slots)
    for slots, threads in ((1, 3), (2, 2), (3, 8), (8, 8), (6, 16)):
        for _ in range(ck.n(1, 6)):
            ck.run_case(churn, ck, b, net, r.randrange(1 << 30), slots, threads)


ck = Check('P03', rule='one evaluation is one step of a history (connects, greetings, refusals, aborts, unknown messages, closes, addresses taken by others) with the '
           'occupancy oracle applied after it; distinct by history, step, operation and occupancy')
ck.min_eval = 200
main(ck, body)
