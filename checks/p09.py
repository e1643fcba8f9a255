"""P09: no data race, lock-order inversion or misuse of synchronisation objects under any concurrent use."""
from vf.core import Check, main, Violation, Inconclusive
from vf.build import build
from vf.scen import *
from vf.ops import *
from vf.ops import tcp, session, challenged


# -- more operations, chosen for what they overlap ------------------------------------
def o_flood(w):
    """All directions at once, with an abrupt or an orderly end."""
    c = session(w)
    src = probe(c, w.node)
    k = len(w.node.conns)
    c.send(msg(TCP_OPEN, w.node.addr))
    wait(lambda: len(w.node.conns) > k or c.eof, 3)
    nc = w.node.conns[k] if len(w.node.conns) > k else None
    end = time.monotonic() + w.r.choice([0.05, 0.2, 0.4])

    def up():
        while time.monotonic() < end and not c.eof:
            c.send(msg(UDP_DATA, w.node.addr, b'u' * 900) + msg(TCP_DATA, payload=b't' * 2000) + msg(UDP_CONTROL, w.node.addr, b'c' * 90))
            time.sleep(0.001)

    def down():
        while time.monotonic() < end:
            w.node.sendto(5198, b'd' * 700, src)
            w.node.sendto(5199, b'e' * 70, src)
            try:
                if nc is not None:
                    nc.send(b'n' * 3000)
            except OSError:
                pass
            time.sleep(0.001)
    ts = [threading.Thread(target=f, daemon=True) for f in (up, down)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(30)
    if nc is not None and w.r.random() < 0.5:
        nc.close(rst=w.r.random() < 0.5)
    c.close(rst=w.r.random() < 0.5)


def o_openclose(w):
    """Connections opened and closed without waiting for anything."""
    c = session(w)
    for _ in range(6):
        c.send(msg(TCP_OPEN, w.r.choice([w.node.addr, w.busy.addr, w.net.node(77)])) + msg(TCP_DATA, payload=b'x' * 99) +
               (msg(TCP_CLOSE) if w.r.random() < 0.6 else b''))
    c.wait_msgs(lambda m: len([x for x in m if x[0] == TCP_STATUS]) >= 6, 'TCP statuses', 5)
    c.close(rst=w.r.random() < 0.5)


def o_vanish(w):
    """The client leaves while the proxy is connecting for it."""
    c = session(w)
    for _ in range(3):
        c.send(msg(TCP_OPEN, w.r.choice([w.node.addr, w.net.node(77)])))
    c.close(rst=True)


def o_same(w):
    """One callsign in two places."""
    cs = [w.px.session('SAME') for _ in range(min(2, w.slots))]
    for c in cs:
        w.made.append(c)
        c.close(rst=w.r.random() < 0.5)
    w.px.session('SAME').close()


CLIENT = [f for k, f in sorted(OPS.items()) if k not in ('taken', 'drop', 'update', 'logs')]
CLIENT += [o_flood, o_flood, o_openclose, o_openclose, o_vanish, o_same]


def api(w, r, drops):
    """One call of the library from a thread of its own."""
    px = w.px
    calls = ['update', 'log 1 %s' % b'hello\n'.hex(), 'log 4 %s' % b'hello\n'.hex(), 'ident', 'nonce', 'auth %s' % b'W1AW'.hex(), 'logmt 3 5 2 40',
             'authmt 5 %s:1,%s:0' % (b'W1AW'.hex(), b'BADX'.hex())]
    if drops and r.random() < 0.15:
        calls = ['drop']
    c = r.choice(calls)
    px.reply(px.bg(c), c)
    return c.split()[0]


def locks(ck, w):
    """What the monitor of nested locks saw."""
    m = w.px.cmd('lockmon')
    ck.count(watched_acquisitions=m['acquisitions'], nesting_orders=m['edges'], order_searches=m['checks'])
    ck.maxi(deepest_nesting=m['depth'])
    for rep in m['reports']:
        kind, detail = rep.split(' ', 1)
        where = subprocess.run(['addr2line', '-f', '-s', '-e', w.b.host] + ['0x%x' % (int(a, 16) - 1) for a in re.findall(r'([0-9a-f]+)(?=[XS;])', detail)],
                               stdout=subprocess.PIPE).stdout.decode().split('\n')
        fn = [a + ' ' + b for a, b in zip(where[::2], where[1::2])]
        raise Violation('locks:%s:%s' % (kind, '/'.join(sorted(set(where[::2]) - {''}))), '%s (%s) at %s' % (
            {'cycle': 'locks are nested in orders which can deadlock', 'not-held': 'a lock which was not held is released or waited with', 'freed-while-held': 'a lock is freed while held',
             'thread-ends-holding': 'a thread ends with a lock held', 'overlapping-holders': 'a lock is held by several', 'locked-again': 'a lock is acquired by its holder'}.get(kind, kind), detail, fn))


def judge(w, what):
    for key, text in w.px.san():
        raise Violation('sanitizer:' + key, '%s:\n%s' % (what, text[:3500]), witness=text)


def churn(ck, b, net, seed, reg, slots, vf, lives, dur, end, second=False):
    r = random.Random(seed)
    w = World(ck, b, net, r, slots, reg, vf, loglevel=r.choice([1, 3, 4, 4]))
    px = w.px
    seen = set()
    lk = threading.Lock()
    try:
        px.must('logmedium %s' % r.choice(['1', '2 %s/other.log' % px.dir, '3']))
        if second:
            other(px, net, True)
        for life in range(lives):
            px.up()
            stop = threading.Event()
            active = {}

            def client(i):
                rr = random.Random('%d:%d:%d' % (seed, life, i))
                while not stop.is_set():
                    f = rr.choice(CLIENT)
                    with lk:
                        active[i] = f.__name__
                        for o in active.values():
                            seen.add(tuple(sorted((o, f.__name__))))
                    try:
                        f(w)
                        ck.count(operations=1)
                    except (Violation, Inconclusive, OSError):
                        pass            # other checks decide about these; here they are disturbed on purpose
                    active.pop(i, None)

            def caller(i):
                rr = random.Random('%d:%d:a%d' % (seed, life, i))
                while not stop.is_set():
                    try:
                        n = api(w, rr, i == 0)
                    except Violation as v:
                        errs.append(v)
                        return
                    with lk:
                        for o in active.values():
                            seen.add((n, o))
                    ck.count(api_calls=1)
                    time.sleep(rr.choice([0, 0.002, 0.02]))
            errs = []
            ts = [threading.Thread(target=client, args=(i,), daemon=True) for i in range(slots + 3)]
            callers = [threading.Thread(target=caller, args=(i,), daemon=True) for i in range(2)]
            for t in ts + callers:
                t.start()
            time.sleep(dur)
            if end != 'busy':
                stop.set()
                for t in callers:
                    t.join(90)
            if end == 'calm':
                for t in ts:
                    t.join(30)
            ids = []
            for c in {'calm': ['shutdown'], 'busy': ['shutdown', 'update', 'drop'], 'both': ['shutdown', 'drop', 'drop', 'update'], 'drop': ['drop', 'shutdown']}[end]:
                ids.append((px.bg(c), c))
            for i, c in ids:
                px.reply(i, c)
            if not px.serve_ended(40):
                raise Violation('still-serving', 'the accept call did not return after shutdown\n%s' % px.stacks(), kind='progress')
            stop.set()
            for t in callers:
                t.join(90)
            if errs:
                raise errs[0]
            px.cmd('close')
            for t in ts:
                t.join(0.5)
            for c in w.made:
                c.close()
            w.made = []
            judge(w, 'life %d' % life)
        if second:
            other(px, net, False)
        px.cmd('free')
        locks(ck, w)
        ths = poll(lambda: px.stats()['threads'] == base_threads(), 5) or px.stats()['threads']
        if ths is not True and ths != base_threads():
            raise Violation('thread-left', '%s threads are left after the proxy was freed' % (ths - base_threads()), kind='progress')
        c = px.cmd('counters')
        if c['destroy_busy'] or c['close_ebadf'] or c['io_ebadf']:
            raise Violation('misuse', 'a held lock was destroyed or a closed descriptor used: %s' % c)
        ck.count(lock_operations=c['n_lock'], failed_calls=c['n_err'], delays=c['n_delay'], receives=c['n_recv'], sends=c['n_send'])
        px.p.stdin.write(b'x exit 0\n')
        px.p.stdin.flush()
        px.p.wait(60)
        judge(w, 'whole run')
        if px.p.returncode != 0:
            raise px.died('at exit')
        with lk:
            pairs = sorted(seen)
        for p in pairs:
            ck.case(('overlap',) + p, sample='%s overlapped %s' % p)
    except BaseException:
        # what the sanitizer saw matters more
        px.kill()
        rep = px.san()
        px.cleanup()
        if rep:
            raise Violation('sanitizer:' + rep[0][0], rep[0][1][:3500], witness=rep[0][1])
        raise
    finally:
        w.close()
        px.cleanup()


def base_threads():
    return 2        # the host's main thread and the sanitizer's background thread


def other(px, net, up):
    """A second proxy in the same process."""
    if up:
        px.must('1:init')
        px.cmd('1:logmedium 3')
        px.cmd('1:loglevel 4')
        px.setf('password', 'OTHER', '1:')
        px.setf('bind_addr', net(5), '1:')
        px.cmd('1:set port 8100')
        px.setf('bind_addr_ext', net.ext(60), '1:')
        px.must('1:open')
        px.must('1:start')
        px.cmd('1:serve 9001')
        px.other_stop = threading.Event()

        def go():
            while not px.other_stop.is_set():
                try:
                    c = Client(net(5), 8100, host=None)
                    if c.nonce() is not None:
                        c.greet('W2OTH', 'OTHER')
                        c.send(msg(UDP_DATA, net.node(0), b'x') + msg(TCP_OPEN, net.node(0)))
                        c.wait_msgs(lambda m: any(x[0] == TCP_STATUS for x in m), 'status', 3)
                    c.close()
                except (Violation, Inconclusive, OSError):
                    time.sleep(0.01)
        px.other_thread = threading.Thread(target=go, daemon=True)
        px.other_thread.start()
    else:
        px.cmd('1:shutdown')
        px.event(lambda e: e.get('ev') == 'serve_end' and e.get('tag') == 9001)
        px.other_stop.set()
        px.cmd('1:drop')
        px.cmd('1:free')
        px.other_thread.join(30)


def quick_lives(ck, b, net, seed, reg, slots, vf):
    """Lifecycle calls in quick succession, with and without clients in the middle of things."""
    r = random.Random(seed)
    w = World(ck, b, net, r, slots, reg, vf, loglevel=4)
    px = w.px
    try:
        for i in range(ck.n(6, 40)):
            px.must('open')
            if r.random() < 0.85:
                px.must('start')
                px.serve()
                n = r.randrange(0, 5)
                cs = []
                for k in range(n):
                    c = px.client()
                    cs.append(c)
                    x = r.random()
                    if x < 0.6 and c.nonce() is not None:
                        c.greet(r.choice(['W1AW', 'BADX', 'N%d' % k]), r.choice([px.password, 'nope']) if r.random() < 0.3 else px.password)
                        if r.random() < 0.7:
                            c.send(msg(TCP_OPEN, w.node.addr) + msg(UDP_DATA, w.node.addr, b'x'))
                    if r.random() < 0.3:
                        c.close(rst=True)
                time.sleep(r.choice([0, 0, 0.005, 0.03]))
                ids = [(px.bg(c), c) for c in r.choice([['shutdown'], ['shutdown', 'drop'], ['drop', 'shutdown', 'update'], ['update', 'shutdown']])]
                for k, c in ids:
                    px.reply(k, c)
                if not px.serve_ended(40):
                    raise Violation('still-serving', 'the accept call did not return after shutdown\n%s' % px.stacks(), kind='progress')
            else:
                cs = []
            px.cmd('close')
            for c in cs:
                c.close()
            ck.count(lives=1)
        px.cmd('free')
        locks(ck, w)
        px.p.stdin.write(b'x exit 0\n')
        px.p.stdin.flush()
        px.p.wait(60)
        judge(w, 'quick lives')
        ck.case(('lives', reg, slots, repr(vf)), sample='quick lives with registrar %s' % reg)
    except BaseException:
        px.kill()
        rep = px.san()
        px.cleanup()
        if rep:
            raise Violation('sanitizer:' + rep[0][0], rep[0][1][:3500], witness=rep[0][1])
        raise
    finally:
        w.close()
        px.cleanup()


def body(ck):
    b = build('tsan')
    pool = Pool(Net() for _ in range(4))
    r = ck.rng
    cases = []
    heavy = {'delay': 60, 'delay_us': 10000}
    light = {'delay': 200, 'delay_us': 300}
    for reg, slots, vf, end, second in ((None, 3, dict(light, lockmon=1), 'busy', False), ('ok', 2, heavy, 'both', False), ('ok', 3, {'short_send': 200, 'lockmon': 1}, 'calm', False), ('silent', 1, light, 'drop', True),
                                        ('garbage', 4, heavy, 'busy', True), ('refuse', 2, light, 'both', False), ('ok', 3, {'lockmon': 1, 'err': 10, 'err_mask': 3 << 10}, 'drop', True),
                                        (None, 3, dict(light, lockmon=1, err=3, err_mask=0x3ff8), 'both', False)):
        for _ in range(ck.n(1, 8)):
            cases.append((pool.run, ck, b, churn, r.randrange(1 << 30), reg, slots, vf, 2, ck.n(5, 12), end, second))
    for reg, slots, vf in ((None, 2, {'lockmon': 1}), ('ok', 3, dict(heavy, lockmon=1)), ('slow', 2, light), ('ok', 1, {})):
        for _ in range(ck.n(1, 6)):
            cases.append((pool.run, ck, b, quick_lives, r.randrange(1 << 30), reg, slots, vf))
    ck.run_many(cases, 4)


ck = Check('P09', rule='one evaluation is one pair of client operations or library calls observed to overlap in a run watched by ThreadSanitizer, or one series of quick lives; distinct by pair')
ck.min_eval = 50
main(ck, body)
