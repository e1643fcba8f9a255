"""P13: registration reports tell the truth and end with Off."""
import re

from vf.core import Check, main, Violation
from vf.build import build
from vf.scen import *

NAMES = ['W1AW', 'N0CALL', 'My Proxy', 'x', 'A' * 100, 'Club, Town & [Country]', 'a=b&c=d', '%s%n%d', 'caf\xe9', '#5A!zu', 'K1RFD-P']
COMMENTS = [None, '', 'Boston, MA', '[1/2]', 'B' * 200, '%d%%', 'x [0/3]']
ADDRS = [None, '203.0.113.9', 'proxy.example.org', '1.2.3.4']
PWS = ['PUBLIC', 'public', 'PUBLIC1', 'PUBLI', 'secret', 'Public']


class Watch:
    """Judges every report that arrives at the registration server."""

    def __init__(self, ck, px, rg, cfg, slots):
        self.ck, self.px, self.rg, self.cfg, self.slots = ck, px, rg, cfg, slots
        self.seen = len(rg.raw)
        self.states = []
        name, addr, com = cfg['reg_name'] or '', cfg['public_addr'] or '', cfg['reg_comment'] or ''
        d = hashlib.md5((name + addr + '#5A!zu').encode('latin1')).hexdigest().upper()
        e = lambda x: re.escape(x.encode('latin1'))
        self.re = re.compile(b'name=' + e(name) + b'&comment=' + e(com) + rb'( \[(\d+)/(\d+)\])?' + b'&public=' + e('Y' if cfg['password'] == 'PUBLIC' else 'N') +
                             rb'&status=(Ready|Busy|Off)&a=' + e(addr) + b'&d=' + d.encode() + b'&p=%d' % cfg['port'] + rb'&v=[\w.]+', re.S)
        self.off = 0

    def look(self):
        """Parses what has come in; returns the last state (status, used, total)."""
        rg = self.rg
        with rg.lock:
            new, bad = rg.raw[self.seen:], list(rg.bad)
            self.seen = len(rg.raw)
        if bad:
            raise Violation('malformed-report', bad[0])
        for head, body, n in new:
            lines = head.split(b'\r\n')
            hd = {}
            for ln in lines[1:]:
                m = re.fullmatch(rb'([A-Za-z-]+): ([^\r\n]*)', ln)
                if not m or m.group(1).lower() in hd:
                    raise Violation('malformed-report', 'header line %r in %r' % (ln, head))
                hd[m.group(1).lower()] = m.group(2)
            if lines[0] != b'POST /proxypost.jsp HTTP/1.1' or hd.get(b'host') != b'www.echolink.org' or \
                    hd.get(b'content-type') != b'application/x-www-form-urlencoded' or hd.get(b'content-length') != b'%d' % len(body):
                raise Violation('malformed-report', 'head %r, %d body bytes' % (head, len(body)))
            m = self.re.fullmatch(body)
            if not m:
                raise Violation('wrong-report', 'report %r does not say what is configured: %r' % (body, self.cfg))
            st = m.group(4).decode()
            u, t = (int(m.group(2)), int(m.group(3))) if m.group(1) else (None, 1)
            if st == 'Off':
                self.off += 1
            elif self.off:
                raise Violation('report-after-off', 'a report %r follows the final one' % body)
            if t not in (self.slots, 0) or (t == 1 and m.group(1)):
                raise Violation('wrong-total', 'report %r with %d slots' % (body, self.slots))
            if u is not None and u > self.slots:
                raise Violation('wrong-used', 'report %r with %d slots' % (body, self.slots))
            if st != 'Off' and u is not None and (st == 'Busy') != (u >= t):
                raise Violation('wrong-status', 'report %r says %s with %d of %d slots in use' % (body, st, u, t))
            self.states.append((st, u, t))
            self.ck.count(reports=1)
        return self.states[-1] if self.states else None

    def settle(self, timeout=WAIT):
        """Waits until neither the proxy nor the registration server does anything."""
        end = time.monotonic() + timeout
        same, last = 0, None
        while time.monotonic() < end:
            self.px.quiesce(5)
            k = (self.rg.active, len(self.rg.conns))
            if self.rg.active == 0 and k == last:
                same += 1
                if same >= 2:
                    return self.look()
            else:
                same = 0
            last = k
            time.sleep(0.005)
        return self.look()

    def expect(self, used, total=None, what=''):
        total = self.slots if total is None else total
        want = ('Busy' if used >= total else 'Ready', None if total == 1 else used, total)
        wait(lambda: self.look() == want)
        got = self.settle()
        self.ck.case((what, want, self.cfg['reg_name'], self.slots, len(self.states)), sample='%s: %r' % (what, want))
        if got != want:
            raise Violation('untrue-report', 'after %s the last report says %r, the truth is %r (all: %r)\n%s' % (
                what, got, want, self.states[-12:], self.px.stacks()), kind='progress')

    def final_off(self, what=''):
        got = self.settle()
        self.ck.case((what, 'off', self.slots, len(self.states)))
        if got is None or got[0] != 'Off' or self.off != 1:
            raise Violation('no-final-off', 'after closing (%s) the reports end with %r' % (what, self.states[-6:]), kind='progress')


def mkcfg(r, net):
    return {'reg_name': r.choice(NAMES), 'reg_comment': r.choice(COMMENTS), 'public_addr': r.choice(ADDRS), 'password': r.choice(PWS),
            'port': r.choice([8100, 1, 65535, 80, 12345]) if r.random() < 0.6 else r.randrange(1, 65536)}


def mkproxy(b, net, cfg, slots, vf=None, env=None):
    v = {'registrar': net.registrar, 'seed': 7}
    v.update(vf or {})
    return Proxy(b.host, net, slots=slots, password=cfg['password'], denied='^BAD', port=cfg['port'], vf=v, env=env, up=False,
                 reg=dict((k, cfg[k]) for k in ('reg_name', 'reg_comment', 'public_addr')))


def failed_login(px, r, how):
    end = time.monotonic() + WAIT
    while True:
        c = px.client()
        n = c.nonce()
        if n is not None or time.monotonic() > end:
            break
        c.close()
        time.sleep(0.01)
    if n is None:
        raise Violation('no-service', 'no challenge', kind='progress')
    if how == 'badpw':
        c.greet('W1AW', resp=answer(n, 'wrong'))
    elif how == 'badcall':
        c.greet('BAD', px.password)
    elif how == 'long':
        c.send(b'A' * 30)
    else:
        c.send(b'W1')
        c.close(rst=r.random() < 0.5)
        return
    if not c.wait_eof():
        raise Violation('not-disconnected', 'a refused client stays connected', kind='progress')
    c.close()


def story(ck, b, net, seed, slots, tsan=False):
    """A sequential history; the truth is checked after every step."""
    r = random.Random(seed)
    vf = {'short_send': r.choice([0, 0, 300]), 'short_recv': r.choice([0, 200])}
    rg = Registrar(net.registrar)
    node = Node(net.node(0))
    try:
        cfg = mkcfg(r, net)
        with mkproxy(b, net, cfg, slots, vf) as px:
            for life in range(2):
                if life:
                    # another life of the same handle, with another configuration
                    cfg = mkcfg(r, net)
                    px.port, px.password = cfg['port'], cfg['password']
                    px.reg = dict((k, cfg[k]) for k in ('reg_name', 'reg_comment', 'public_addr'))
                    px.configure()
                w = Watch(ck, px, rg, cfg, slots)
                px.must('open')
                px.must('start')
                px.serve()
                w.expect(0, what='start')
                live = []
                for step in range(r.randrange(4, 4 + ck.n(6, 14))):
                    op = r.choice(['in', 'in', 'in', 'out', 'out', 'badpw', 'badcall', 'long', 'abort', 'over', 'unknown', 'drop', 'overlap', 'overlap'])
                    if op == 'in' and len(live) < slots:
                        c = px.session('W%d' % step)
                        probe(c, node, 'P13')
                        live.append(c)
                    elif op == 'out' and live:
                        live.pop(r.randrange(len(live))).close(rst=r.random() < 0.5)
                    elif op == 'unknown' and live:
                        c = live.pop()
                        c.send(msg(77))
                        c.wait_eof()
                        c.close()
                    elif op == 'drop':
                        px.cmd('drop')
                        for c in live:
                            c.wait_eof()
                            c.close()
                        live = []
                    elif op == 'over':
                        if len(live) < slots:
                            continue
                        c = px.client()
                        c.wait_eof()
                        c.close()
                    elif op == 'overlap' and len(live) + 2 <= slots:
                        # someone is refused after the number of clients was reported
                        c = px.client()
                        n = c.nonce()
                        if n is None:
                            c.close()
                            continue
                        live.append(px.session('W%d' % step))
                        probe(live[-1], node, 'P13')
                        w.settle()
                        how = r.choice(['badpw', 'badcall', 'long', 'abort'])
                        op += ' ' + how
                        if how == 'badpw':
                            c.greet('W1AW', resp=b'x' * 16)
                        elif how == 'badcall':
                            c.greet('BAD', px.password)
                        elif how == 'long':
                            c.send(b'B' * 27)
                        c.close(rst=r.random() < 0.3)
                    elif op in ('badpw', 'badcall', 'long', 'abort'):
                        if len(live) == slots:
                            continue
                        failed_login(px, r, op)
                    else:
                        continue
                    w.expect(len(live), what=op)
                if r.random() < 0.5:
                    px.cmd('shutdown')
                    if not px.serve_ended():
                        raise Violation('hang:shutdown', 'accepting goes on after a shutdown', kind='progress')
                    w.expect(len(live), 0, 'shutdown')
                    if live:
                        live.pop().close()
                        w.expect(len(live), 0, 'leaving after a shutdown')
                px.down()
                for c in live:
                    c.close()
                w.final_off('close')
                if r.random() < 0.3:
                    # nothing more is said until the next start
                    px.must('open')
                    px.cmd('close')
                    w.settle()
                ck.count(lives=1)
            px.cmd('free')
            w.settle()
            if w.off != 1:
                raise Violation('no-final-off', '%d final reports in one life' % w.off)
    finally:
        node.close()
        rg.close()


def churn(ck, b, net, seed, slots, threads):
    """Concurrent arrivals and departures; once settled, the last report is true."""
    r0 = random.Random(seed)
    rg = Registrar(net.registrar)
    node = Node(net.node(0))
    cfg = mkcfg(r0, net)
    try:
        with mkproxy(b, net, cfg, slots, {'delay': r0.choice([0, 100, 300]), 'delay_us': 1500, 'seed': seed % 9973}) as px:
            w = Watch(ck, px, rg, cfg, slots)
            px.up()
            for rnd in range(ck.n(4, 12)):
                seeds = [r0.randrange(1 << 30) for _ in range(threads)]
                kept = []

                def run(i):
                    r = random.Random(seeds[i])
                    for _ in range(r.randrange(1, 12)):
                        c = px.client()
                        n = c.nonce()
                        if n is None:
                            c.close()
                            continue
                        k = r.choice(['good', 'good', 'bad', 'abort', 'keep'])
                        if k in ('good', 'keep'):
                            c.greet('N%dX' % i, px.password)
                            if k == 'keep' or r.random() < 0.5:
                                probe(c, node, 'P13c')
                            if k == 'keep':
                                kept.append(c)
                                return
                        elif k == 'bad':
                            c.greet('N%dX' % i, 'wrong')
                        c.close(rst=r.random() < 0.5)
                parallel([lambda i=i: run(i) for i in range(threads)])
                w.expect(len(kept), what='churn round')
                for c in kept:
                    c.close(rst=r0.random() < 0.5)
                w.expect(0, what='everyone leaving')
                ck.count(churn_rounds=1)
            px.down()
            w.final_off('churn')
    finally:
        node.close()
        rg.close()


def stampede(ck, b, net, seed, slots):
    """Everyone leaves at the same moment; and everyone leaves while the proxy closes."""
    r = random.Random(seed)
    rg = Registrar(net.registrar)
    rg.linger = 0.005
    cfg = mkcfg(r, net)
    try:
        with mkproxy(b, net, cfg, slots, {'delay': r.choice([200, 400, 700]), 'delay_us': r.choice([1000, 3000]), 'seed': seed % 9973}) as px:
            for life in range(ck.n(4, 10)):
                w = Watch(ck, px, rg, cfg, slots)
                rg.mode = 'ok'
                px.up()
                for rnd in range(ck.n(5, 12)):
                    cs = [px.session('N%d' % i) for i in range(slots)]
                    w.expect(slots, what='everyone arrived')
                    for c in cs:
                        c.close()
                    w.expect(0, what='everyone left at once')
                    ck.count(stampedes=1)
                cs = [px.session('N%d' % i) for i in range(slots)]
                w.expect(slots, what='everyone arrived')
                rg.mode = 'slow'
                t = r.random() * 0.02
                n = len(rg.raw)
                cs.pop().close()
                wait(lambda: len(rg.raw) > n)
                i = px.bg('close')
                time.sleep(t)
                for c in cs:
                    c.close()
                px.reply(i, 'close')
                px.serve_ended()
                w.final_off('everyone leaving meanwhile')
            px.cmd('free')
    finally:
        rg.close()


def many(ck, b, net, seed, slots):
    """Numbers of several digits, with texts of every length."""
    r = random.Random(seed)
    rg = Registrar(net.registrar)
    cfg = mkcfg(r, net)
    cfg['reg_name'] = r.choice(['x', 'A' * r.randrange(2, 300)])
    cfg['reg_comment'] = r.choice([None, 'c', 'B' * r.randrange(2, 300)])
    cfg['public_addr'] = r.choice([None, '1.2.3.4', 'h' * r.randrange(1, 200)])
    try:
        with mkproxy(b, net, cfg, slots) as px:
            w = Watch(ck, px, rg, cfg, slots)
            px.up()
            w.expect(0, what='start')
            live = []
            for n in sorted(k for k in (1, 9, 10, 11, slots - 1, slots, 99, 100, 101) if k <= slots):
                while len(live) < n:
                    live.append(px.session('N%d' % len(live)))
                w.expect(n, what='many arrived')
            for c in live[slots // 2:]:
                c.close()
            w.expect(slots // 2, what='many left')
            px.down()
            w.final_off('many')
            px.cmd('free')
    finally:
        rg.close()


def nameless(ck, b, net, seed):
    rg = Registrar(net.registrar)
    node = Node(net.node(0))
    r = random.Random(seed)
    try:
        for com in (None, 'comment'):
            with mkproxy(b, net, {'reg_name': None, 'reg_comment': com, 'public_addr': '1.2.3.4', 'password': 'PUBLIC', 'port': 8100}, 2) as px:
                for _ in range(2):
                    px.up()
                    c = px.session('W1AW')
                    probe(c, node, 'P13n')
                    failed_login(px, r, 'badpw')
                    px.cmd('update')
                    c.close()
                    probe(px.session('K1'), node, 'P13n')
                    px.cmd('drop')
                    px.cmd('shutdown')
                    px.down()
                    px.quiesce()
                    ck.case(('nameless', com))
                    if rg.conns:
                        raise Violation('unasked-report', 'the registration server was contacted without a registration name: %r' % rg.raw[:1])
                px.cmd('free')
    finally:
        node.close()
        rg.close()


HURRY = 1200      # ten minutes take half a second


def refreshed(ck, px, w, rg, n, want, what):
    """Without any event, n more reports come within n times ten minutes, and all are true."""
    h0, k0 = px.cmd('counters'), len(w.states)
    w.look()
    k0 = len(w.states)
    t0 = time.monotonic()
    wait(lambda: (w.look(), len(w.states) >= k0 + n)[1])
    h = px.cmd('counters')
    k = len(w.states) - k0
    info = '%s: %d reports without an event, in %.1f s, %d timed waits, the longest of %d ms' % (what, k, time.monotonic() - t0, h['n_hurry'] - h0['n_hurry'], h['hurry_max'])
    if k < n:
        raise Violation('no-refresh', info + '\n' + px.stacks(), kind='progress')
    # one report more or less may have been on its way
    ms = h['hurry_ms'] - h0['hurry_ms']
    if ms > 600000 * (k + 2):
        raise Violation('late-refresh', '%s; %d ms passed' % (info, ms), kind='progress')
    if ms < 60000 * (k - 2):
        raise Violation('hasty-refresh', '%s; only %d ms passed' % (info, ms), kind='progress')
    bad = [s for s in w.states[k0:] if s != want]
    if bad:
        raise Violation('untrue-report', '%s: %r, the truth is %r' % (what, bad, want), kind='progress')
    ck.count(refreshes=k)
    ck.case((what, want, w.slots), sample=info)


def refresh(ck, b, net, seed, slots):
    """Reports are repeated every ten minutes, and make up for reports which did not get through."""
    r = random.Random(seed)
    rg = Registrar(net.registrar)
    node = Node(net.node(0))
    cfg = mkcfg(r, net)
    st = lambda u, t=slots: ('Busy' if u >= t else 'Ready', None if t == 1 else u, t)
    try:
        with mkproxy(b, net, cfg, slots, vf={'hurry': HURRY, 'clock_step': 0}) as px:
            for life in range(2):
                w = Watch(ck, px, rg, cfg, slots)
                px.up()
                w.expect(0, what='refreshing start')
                refreshed(ck, px, w, rg, 4, st(0), 'idle')
                c = px.session('W1AW')
                probe(c, node, 'P13r')
                w.expect(1, what='arrival between refreshes')
                refreshed(ck, px, w, rg, r.randrange(3, 7), st(1), 'one client')
                # the wall clock is set
                step = r.choice([-3600, -31536000, 86400])
                px.cmd('vf clock_step %d' % step)
                refreshed(ck, px, w, rg, 2, st(1), 'the clock set by %d s' % step)
                ck.count(clock_steps=1)
                # lost reports
                mode = r.choice(['http500', 'close', 'garbage', 'refuse', 'short'])
                rg.mode = mode
                if mode == 'refuse':
                    rg.unlisten()
                c.close()
                px.quiesce(5)
                time.sleep(r.random() * 0.7)
                rg.mode = 'ok'
                if mode == 'refuse':
                    rg.listen()
                if not wait(lambda: w.look() == st(0)):
                    raise Violation('no-refresh', 'the departure was not reported while the server was in trouble (%s), nor later: %r\n%s' % (mode, w.states[-6:], px.stacks()), kind='progress')
                time.sleep(0.3)
                px.quiesce(5)
                refreshed(ck, px, w, rg, 3, st(0), 'after trouble')
                if r.random() < 0.5:
                    px.cmd('shutdown')
                    w.expect(0, 0, 'shutdown between refreshes')
                    refreshed(ck, px, w, rg, 3, ('Busy', 0, 0), 'shut down')
                px.down()
                w.final_off('refreshing')
                n = len(rg.conns)
                time.sleep(1.2)
                if len(rg.conns) != n:
                    raise Violation('report-after-off', 'closed, but still reporting')
            px.setf('reg_name', None)
            n = len(rg.conns)
            px.up()
            c = px.session('K1')
            probe(c, node, 'P13r')
            time.sleep(1.5)
            c.close()
            px.down()
            px.quiesce()
            ck.case(('refresh', 'nameless'))
            if len(rg.conns) != n:
                raise Violation('unasked-report', 'reports are repeated in a life without registration name')
    finally:
        node.close()
        rg.close()


def renamed(ck, b, net, *_):
    """A life without a name after one with a name, and back."""
    rg = Registrar(net.registrar)
    try:
        cfg = {'reg_name': 'W1AW', 'reg_comment': 'c', 'public_addr': None, 'password': 'x', 'port': 8100}
        with mkproxy(b, net, cfg, 1) as px:
            w = Watch(ck, px, rg, cfg, 1)
            px.up()
            w.expect(0, what='start')
            px.down()
            w.final_off()
            px.setf('reg_name', None)
            n = len(rg.conns)
            px.up()
            px.session('K1').close()
            px.down()
            px.quiesce()
            ck.case('renamed')
            if len(rg.conns) != n:
                raise Violation('unasked-report', 'a report was sent in a life without registration name')
            px.setf('reg_name', 'W1AW')
            w = Watch(ck, px, rg, cfg, 1)
            px.up()
            w.expect(0, what='start with a name again')
            px.down()
            w.final_off()
    finally:
        rg.close()


def trouble(ck, b, net, mode, seed):
    """A registration server in trouble affects neither service nor closing, and is told the truth once it is well."""
    r = random.Random(seed)
    rg = Registrar(net.registrar, mode='ok' if mode == 'noname' else mode)
    node = Node(net.node(0))
    slots = r.choice([1, 2, 3])
    cfg = mkcfg(r, net)
    # TCP_RST-like refusal: mode 'refuse' has no listener
    try:
        with mkproxy(b, net, cfg, slots, {'gai_fail': 1 if mode == 'noname' else 0}) as px:
            t0 = time.monotonic()
            px.up()
            for k in range(3):
                c = px.session('W%d' % k)
                t1 = time.monotonic()
                echo(c, node, 'P13t')
                if time.monotonic() - t1 > 8:
                    raise Violation('service-affected', 'relaying took %.1fs with a registration server that is %s' % (time.monotonic() - t1, mode), kind='progress')
                c.close()
                px.cmd('update')
            if time.monotonic() - t0 > 15:
                raise Violation('service-affected', 'three sessions took %.1fs with a registration server that is %s' % (time.monotonic() - t0, mode), kind='progress')
            ck.case(('trouble', mode, slots), sample='registration server: ' + mode)
            w = None
            if r.random() < 0.7:
                # it recovers
                w = Watch(ck, px, rg, cfg, slots)
                rg.mode = 'ok'
                if mode == 'refuse':
                    rg.listen()
                px.cmd('vf gai_fail 0')
                if mode == 'silent':
                    for c in list(rg.conns):
                        try:
                            c.shutdown(socket.SHUT_RDWR)
                        except OSError:
                            pass
                c = px.session('W1AW')
                probe(c, node, 'P13t')
                w.expect(1, what='recovery from ' + mode)
                c.close()
                w.expect(0, what='recovery from ' + mode)
                if r.random() < 0.5:
                    px.down()
                    w.final_off('recovery from ' + mode)
                    return
                rg.mode = mode if mode != 'noname' else 'ok'
                if mode == 'refuse':
                    rg.unlisten()
                px.cmd('update')
            t0 = time.monotonic()
            px.down(90)
            dt = time.monotonic() - t0
            ck.maxi(**{'close_ms_' + mode: int(dt * 1000)})
            if dt > 40:
                raise Violation('close-prevented', 'closing took %.1fs with a registration server that is %s' % (dt, mode), kind='progress')
            # and it can be started again
            px.up()
            c = px.session('W1AW')
            echo(c, node, 'P13t')
            c.close()
            if mode != 'silent':
                px.down(90)
            else:
                px.cmd('close', 90)
    finally:
        node.close()
        rg.close()


def body(ck):
    b = build('asan')
    nets = [Net() for _ in range(5)]
    r = ck.rng
    cs = [(nameless, r.randrange(1 << 30)), (renamed,)]
    for mode in ('silent', 'http500', 'garbage', 'close', 'short', 'slow', 'refuse', 'noname'):
        for _ in range(ck.n(2, 8) if mode != 'silent' else ck.n(1, 4)):
            cs.append((trouble, mode, r.randrange(1 << 30)))
    for slots in (2, 2, 3, 4, 8):
        for _ in range(ck.n(1, 6)):
            cs.append((stampede, r.randrange(1 << 30), slots))
    for slots in (1, 2, 3, 5):
        for _ in range(ck.n(4, 20)):
            cs.append((story, r.randrange(1 << 30), slots))
    for slots in (10, 13, 25, 104):
        for _ in range(ck.n(1, 6)):
            cs.append((many, r.randrange(1 << 30), slots))
    for slots in (1, 2, 4):
        for _ in range(ck.n(1, 8)):
            cs.append((refresh, r.randrange(1 << 30), slots))
    for slots, th in ((1, 3), (3, 6), (8, 8)):
        for _ in range(ck.n(2, 8)):
            cs.append((churn, r.randrange(1 << 30), slots, th))
    pool = Pool(nets)
    ck.run_many([(pool.run, ck, b) + c for c in cs], len(nets))


ck = Check('P13', rule='one evaluation is one settled situation (start, arrival, departure, refusal, drop, shutdown, close, churn, server trouble) whose '
           'last report is compared with the truth; every report sent is parsed and judged; distinct by situation and position in the history')
ck.min_eval = 60
main(ck, body)
