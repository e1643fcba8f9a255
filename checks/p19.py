"""P19: a failing allocation, thread, lock or socket call is survived and reported.

Every call the library makes during one activity is failed in turn (the 1st,
the 2nd, ... until the activity makes no further call); after each fault the
proxy has to be as usable as if it had not happened."""
import signal
import subprocess

from vf.core import Check, main, Violation
from vf.build import build
from vf.scen import *
from vf.sim import Proc

MASK = 0x1fff
SHORT = 0.4      # how long a step that was hit by the fault may be pending before it is given up


def check(cond, key, text, kind='safety'):
    if not cond:
        raise Violation(key, text, kind=kind)


class World:
    """A proxy handle under fault injection, with everything around it."""

    def __init__(self, ck, b, net, slots=2, reg=True, vf=None):
        self.ck, self.b, self.net, self.slots, self.reg = ck, b, net, slots, reg
        self.node = Node(net.node(0))
        self.rg = Registrar(net.registrar) if reg else None
        v = {'registrar': net.registrar, 'seed': 3}
        v.update(vf or {})
        self.px = Proxy(b.host, net, slots=slots, allowed='^[A-Z0-9]+$', denied='^BAD', up=False, loglevel=2, vf=v,
                        reg={'reg_name': 'TEST'} if reg else None)
        self.base = None
        self.hits = 0

    def prime(self):
        """One untroubled life first, so that one-time effects belong to the baseline."""
        self.verify('before any fault')
        self.px.quiesce(5)
        self.base = self.stat()

    def stat(self):
        s = self.px.stats()
        return (s['fds'], s['threads'])

    def settled(self):
        """The usage once nothing is in progress any more (a report to the registration server, say)."""
        self.px.quiesce(5)
        last, since, end = self.stat(), time.monotonic(), time.monotonic() + 10
        while time.monotonic() - since < 0.4 and time.monotonic() < end:
            time.sleep(0.05)
            s = self.stat()
            if s != last:
                last, since = s, time.monotonic()
        return last

    def arm(self, k, mask=MASK):
        self.px.cmd('vf fail_mask %d' % mask)
        self.px.cmd('vf fail_at %d' % k)
        self.px.cmd('vf armed 1')

    def fault(self):
        c = self.px.cmd('counters')
        return c['fail_hits'], c['fail_func'], c['close_ebadf'], c['io_ebadf'], c['destroy_busy']

    def disarm(self):
        self.px.cmd('vf armed 0')
        return self.fault()

    def baseline(self, what):
        def same():
            self.px.quiesce(5)
            return self.stat() == self.base
        if not poll(same, 10, 0.02):
            raise Violation('not-released', '%s: %s descriptors and threads are left, %s before: %s' % (
                what, self.stat(), self.base, self.px.cmd('fdlist')['fds']), kind='progress')

    def leaks(self, what):
        r = self.px.ret('leakcheck')
        check(not r, 'leak', '%s: memory is leaked\n%s' % (what, self.px.err_text()[-2500:]))
        c = self.px.cmd('counters')
        check(not c['close_ebadf'] and not c['io_ebadf'], 'stale-descriptor', '%s: a descriptor which was not open was used (%s)' % (what, c))
        check(not c['destroy_busy'], 'lock-destroyed', '%s: a held lock was destroyed' % what)

    def reinit(self):
        px = self.px
        px.must('init')
        px.cmd('logmedium 2 %s/proxy.log' % px.dir)
        px.cmd('loglevel 2')
        px.configure()

    def verify(self, what, stage=0, sessions=True):
        """A complete life from stage 0 (initialised), 1 (open), 2 (started) or 3 (serving), to closed."""
        px = self.px
        if stage < 1:
            r = px.ret('open')
            check(r == 0, 'unusable:open', '%s: opening returns %s\n%s' % (what, r, px.out_text()[-600:] + px.err_text()[-600:] + px.log_text()[-600:]), 'progress')
        if stage < 2:
            r = px.ret('start')
            check(r == 0, 'unusable:start', '%s: starting returns %s\n%s' % (what, r, px.log_text()[-600:]), 'progress')
        if stage < 3:
            px.serve()
        if sessions:
            self.service(what)
        px.cmd('close')
        check(px.serve_ended() is not None, 'hang:accept', '%s: the accept call did not return after closing' % what, 'progress')
        if self.base is not None:
            self.baseline(what + ', then closed')
        self.ck.count(lives=1)

    def service(self, what, busy=0):
        """All the slots serve; the unwelcome are refused; the registrar is told."""
        px, live = self.px, []
        n0 = len(self.rg.reports) if self.rg else 0
        try:
            for i in range(self.slots - busy):
                live.append(px.session('W%dAW' % i))
            srcs = set(echo(c, self.node, 'P19') for c in live)
            check(len(srcs) == len(live), 'slots-shared', '%s: %d sessions use %s' % (what, len(live), srcs))
            echo(live[0], self.node, 'P19', 5199)
            self.tcp(live[0], what)
            if self.rg:
                want = 'comment=%s' % ('%20' if 0 else '')
                ok = lambda: any('[%d/%d]' % (self.slots, self.slots) in str(x) for x in self.rg.reports[n0:]) or self.slots == 1
                check(wait(ok, WAIT), 'not-registered', '%s: the registration server is not told about the sessions: %s' % (what, self.rg.reports[n0:]), 'progress')
            live.pop().close()
            for call, pw, want in (('BADGUY', px.password, 2), ('bad', px.password, 2), ('W1AW', 'nonsense', 1)):
                c = px.session(call, password=pw)
                c.wait_eof()
                check(c.rest() == bytes([7, 0, 0, 0, 0, 1, 0, 0, 0, want]), 'admission', '%s: %r with password %r got %r' % (what, call, pw, c.rest()))
                c.close()
        finally:
            for c in live:
                c.close()

    def tcp(self, c, what, strict=True):
        """One TCP connection there and back; False if it was cut short (not strict)."""
        n0, m0 = len(self.node.conns), len(c.msgs)
        t = tag('tcp')

        def step(pred, text):
            if strict:
                if not c.wait_msgs(lambda m: pred(), text):
                    raise Violation('no-tcp', '%s: %s (client %s, messages %r)' % (what, text, c.eof, c.msgs[m0:][:5]), kind='progress')
                return True
            return self.pend(pred, c, what + ': ' + text)
        c.send(msg(TCP_OPEN, self.node.addr))
        if not step(lambda: any(m[0] == TCP_STATUS for m in c.msgs[m0:]), 'no status of a TCP connection'):
            return False
        st = [m for m in c.msgs[m0:] if m[0] == TCP_STATUS][0][2]
        if st != b'\0\0\0\0':
            check(not strict, 'no-tcp', '%s: a TCP connection is not possible: status %r' % (what, st), 'progress')
            return False
        if not wait(lambda: len(self.node.conns) > n0, WAIT):
            raise Violation('status-lie', '%s: status zero without a connection' % what, kind='progress')
        nc = self.node.conns[-1]
        try:
            c.send(msg(TCP_DATA, payload=t))
            if not step(lambda: t in nc.data, 'data of the client does not arrive'):
                return False
            nc.send(t[::-1])
            if not step(lambda: t[::-1] in b''.join(m[2] for m in c.msgs[m0:] if m[0] == TCP_DATA), 'data of the host does not arrive'):
                return False
            nc.close()
            return step(lambda: any(m[0] == TCP_CLOSE for m in c.msgs[m0:]), 'the end of the host is not announced')
        finally:
            nc.close()

    def pend(self, pred, c, text):
        """Waits for a step of an activity under fault: done, cut off, or hit by the fault."""
        end = time.monotonic() + WAIT
        while True:
            wait(lambda: pred() or c.eof, SHORT)
            if pred():
                return True
            if c.eof:
                return False
            if self.px.cmd('counters')['fail_hits'] and c.quiet():
                return False
            if time.monotonic() > end:
                raise Violation('hang:activity', '%s\n%s' % (text, self.px.stacks()), kind='progress')

    def close(self):
        self.node.close()
        if self.rg:
            self.rg.close()

    def done(self):
        """The end of the process: everything is released."""
        self.px.cmd('free')
        self.leaks('after freeing')
        self.px.end()


def quiet(self):
    n = len(self.raw)
    time.sleep(0.05)
    return len(self.raw) == n


Client.quiet = quiet


def sweep(ck, b, net, phase, start, step, slots, reg, vf):
    w = World(ck, b, net, slots, reg, vf)
    n = 0
    try:
        w.prime()
        k = start
        while True:
            f = PHASES[phase](w, k)
            what = '%s with %s (call %d) failing' % (phase, f[1], k)
            if not f[0]:
                break
            n += 1
            ck.case((phase, k, f[1], slots), sample=what)
            if n % 3 == 0 or phase in ('init', 'load'):
                w.leaks(what)
            if ck.left() < 20:
                ck.count(cut_short=1)
                break
            k += step
        ck.count(faults=n, **{'faults_' + phase: n})
        w.leaks(phase)
        w.done()
    finally:
        w.px.cleanup()
        w.close()


def ph_init(w, k):
    px = w.px
    px.cmd('free')
    px.cmd('zero')
    before = w.stat()
    w.arm(k)
    r = px.ret('init')
    f = w.disarm()
    what = 'init with %s (call %d) failing' % (f[1], k)
    if r != 0:
        check(w.stat() == before, 'not-released', '%s: %s descriptors and threads, %s before' % (what, w.stat(), before))
        if k % 2:
            px.cmd('free')
        w.reinit()
    else:
        px.cmd('logmedium 2 %s/proxy.log' % px.dir)
        px.cmd('loglevel 2')
        px.configure()
    w.verify(what)
    return f


def conf_text(w):
    net = w.net
    return ('Password=%s\nPort=%d\nBindAddress=%s\nExternalBindAddress=%s\nAdditionalExternalBindAddresses=%s\nCallsignsAllowed=^[A-Z0-9]+$\n'
            'CallsignsDenied=^BAD\n%sRegistrationComment=%s\nPublicAddress=\nConnectionTimeout=0\n' % (
                w.px.password, w.px.port, net.proxy, net.ext(0), ','.join(net.ext(i) for i in range(1, w.slots)),
                'RegistrationName=TEST\n' if w.reg else '', 'c' * 150))


def ph_load(w, k):
    px = w.px
    path = px.dir + '/c.conf'
    with open(path, 'w') as fp:
        fp.write(conf_text(w))
    if not hasattr(w, 'expect'):
        px.must('load ' + path)
        w.expect = {x: y for x, y in px.cmd('dump').items() if x != 'id'}
    if k % 2:
        # starting from an empty configuration
        px.cmd('free')
        w.reinit()
    w.arm(k)
    r = px.ret('load ' + path)
    f = w.disarm()
    what = 'load with %s (call %d) failing' % (f[1], k)
    if r == 0:
        got = {x: y for x, y in px.cmd('dump').items() if x != 'id'}
        check(got == w.expect, 'wrong-config', '%s: success was reported with the configuration %s instead of %s' % (what, got, w.expect))
    px.must('load ' + path)
    got = {x: y for x, y in px.cmd('dump').items() if x != 'id'}
    check(got == w.expect, 'wrong-config', 'after %s: the configuration is %s instead of %s' % (what, got, w.expect))
    w.verify(what, sessions=k % 4 == 0)
    return f


def ph_log(w, k):
    px = w.px
    new = '%s/new%d.log' % (px.dir, k)
    old = px.dir + '/old%d.log' % k
    px.must('open')
    px.must('logmedium 2 ' + old)
    medium = ('2 ' + new) if k % 2 else '1'
    w.arm((k + 1) // 2)
    r = px.ret('logmedium ' + medium)
    px.cmd('log 1 %s' % b'marker\n'.hex())
    f = w.disarm()
    what = 'logmedium %s with %s (call %d) failing' % (medium.split()[0], f[1], (k + 1) // 2)

    def has(p, t):
        try:
            with open(p) as fp:
                return t in fp.read()
        except OSError:
            return False
    px.cmd('log 1 %s' % b'later\n'.hex())
    px.cmd('fflush')
    where = [n for n, x in (('old', has(old, 'later')), ('new', has(new, 'later')), ('std', 'later' in px.out_text() + px.err_text())) if x]
    expect = ['old'] if r != 0 else [('new' if k % 2 else 'std')]
    if 'later' in px.out_text() + px.err_text() and expect != ['std']:
        where = [x for x in where if x != 'std'] or where
    check(where == expect, 'log-lost', '%s (returned %d): messages then go to %s instead of %s' % (what, r, where, expect))
    px.cmd('close')
    px.must('logmedium 2 %s/proxy.log' % px.dir)
    w.verify(what, sessions=False)
    if not f[0] and k % 2:
        return (1, '-')      # the other medium has its turn
    return f


def ph_open(w, k):
    """With a handle never opened before or not; afterwards it is opened again at once, closed first or freed first."""
    px = w.px
    hit = None
    for fresh, mode in ((1, 2), (0, 2), (1, 0), (0, 1)):
        if fresh:
            px.cmd('free')
            w.reinit()
        w.arm(k)
        r = px.ret('open')
        f = w.disarm()
        what = 'open with %s (call %d) failing' % (f[1], k)
        if f[0]:
            hit = f
        if r == 0:
            if fresh or f[0]:
                w.verify(what + ' (tolerated)', 1)
            else:
                px.cmd('close')
            px.cmd('logmedium 2 %s/proxy.log' % px.dir)
            continue
        px.cmd('logmedium 0')         # a log opened by the caller may stay open
        w.baseline(what)
        if mode == 0:
            px.cmd('close')
        elif mode == 1:
            px.cmd('free')
            w.baseline(what + ', then freed')
            w.reinit()
        px.cmd('logmedium 2 %s/proxy.log' % px.dir)
        w.verify('after ' + what + (', then closed', ', then freed', '')[mode])
        px.cmd('logmedium 2 %s/proxy.log' % px.dir)
    return hit or f


def ph_start(w, k):
    px = w.px
    for mode in (0, 1, 2):
        px.must('open')
        w.arm(k)
        r = px.ret('start')
        f = w.disarm()
        what = 'start with %s (call %d) failing' % (f[1], k)
        stage = 2
        if r != 0:
            if mode == 0:
                px.cmd('close')
                w.baseline(what + ', then closed')
                stage = 0
            elif mode == 1:
                stage = 1
            else:
                px.cmd('free')
                w.baseline(what + ', then freed')
                w.reinit()
                stage = 0
        w.verify('after ' + what, stage)
        px.cmd('logmedium 2 %s/proxy.log' % px.dir)
        if r == 0:
            break
    return f


def ph_serve(w, k):
    """A client logs in, uses everything and leaves, while another one is idle."""
    px, node = w.px, w.node
    if not getattr(w, 'up', False):
        px.up()
        w.first = px.session('FIRST')
        echo(w.first, node, 'first')
        w.up = True
        w.idle = w.settled()
    w.arm(k)
    c = px.client()
    try:
        done = activity(w, c, k)
        px.quiesce(5)
        f = w.disarm()
        what = 'serving with %s (call %d) failing' % (f[1], k)
        check(done or f[0], 'refused', 'serving without a fault: the client was cut short (%s)\n%s' % (c.eof, px.log_text()[-800:]), 'progress')
        if not px.ret('serving'):
            check(f[0], 'accept-ended', 'the accept call failed without a fault')
            px.serve()
        if done == 'left':
            pass
        elif not c.eof and c.greeted and c.in_session:
            # whoever is still connected is served
            try:
                echo(c, node, 'again')
                echo(c, node, 'again', 5199)
                w.tcp(c, 'again after ' + what)
            except Violation as v:
                if v.kind == 'progress':
                    raise Violation('half-served', '%s: the client stays connected, but is not served: %s' % (what, v.msg), kind='progress')
                raise
    finally:
        c.close()
    echo(w.first, node, 'others')
    w.service(what, 1)

    def same():
        px.quiesce(5)
        return w.stat() == w.idle
    check(poll(same, 10, 0.02), 'not-released', '%s: %s descriptors and threads, %s when idle: %s' % (what, w.stat(), w.idle, px.cmd('fdlist')['fds']), 'progress')
    if not f[0]:
        px.cmd('close')
        w.first.close()
        w.baseline('serving, then closed')
    return f


def activity(w, c, k):
    """True if everything worked, 'left' if it came to the client's end, False if cut short."""
    node = w.node
    c.in_session = False
    if c.eof or not w.pend(lambda: len(c.raw) >= 8, c, 'no challenge'):
        return False
    c.greet('W%dXX' % (k % 10), w.px.password)
    c.in_session = True
    for port, typ in ((5198, UDP_DATA), (5199, UDP_CONTROL)):
        t = tag('act')
        c.send(msg(typ, node.addr, t))
        find = lambda: [d for d in node.dgrams[::-1] if d[3] == t]
        if not w.pend(find, c, 'a datagram does not leave'):
            return False
        t2 = tag('back')
        node.sendto(port, t2, find()[0][1])
        if not w.pend(lambda: (typ, node.addr, t2) in c.msgs, c, 'a datagram does not come in'):
            return False
    if not w.tcp(c, 'serving', strict=False):
        return False
    c.close()
    return 'left'


def ph_close(w, k):
    px = w.px
    hits = None
    for how in ('close', 'shutdown;close', 'drop;shutdown;close', 'free'):
        px.up()
        c = px.session('W1AW')
        echo(c, w.node, 'close')
        w.tcp(c, 'before closing')
        c2 = px.client() if w.slots > 1 else None
        if c2:
            c2.nonce()
        w.arm(k)
        for x in how.split(';'):
            px.cmd(x)
        check(px.serve_ended() is not None, 'hang:accept', 'the accept call did not return', 'progress')
        f = w.disarm()
        what = '%s with %s (call %d) failing' % (how, f[1], k)
        for x in (c, c2):
            if x:
                check(x.wait_eof(), 'not-dropped', '%s: a client is still connected' % what, 'progress')
                x.close()
        w.baseline(what)
        if how == 'free':
            w.reinit()
        w.verify('after ' + what)
        px.cmd('logmedium 2 %s/proxy.log' % px.dir)
        if f[0]:
            hits = f
    return hits or f


def ph_refuse(w, k):
    """Clients which must not be admitted, one after another; then one which must."""
    px, node = w.px, w.node
    if not getattr(w, 'up', False):
        px.up()
        w.first = px.session('FIRST')
        echo(w.first, node, 'first')
        w.up = True
        w.idle = w.settled()
    hits = None
    for call, pw, want in (('BADGUY', px.password, 2), ('lower', px.password, 2), ('W1AW', 'nonsense', 1), ('BADGUY', '', 1), ('W1AWW1AWW1AW', px.password, 0)):
        w.arm(k)
        c = px.client()
        t = tag('unwelcome')
        try:
            if w.pend(lambda: len(c.raw) >= 8, c, 'no challenge'):
                c.greet(call, pw)
                c.send(msg(UDP_DATA, node.addr, t) + msg(UDP_CONTROL, node.addr, t))
                w.pend(lambda: any(d[3] == t for d in node.dgrams[::-1]), c, 'neither admitted nor refused')
                px.quiesce(5)
            f = w.disarm()
            what = 'refusing %r with %s (call %d) failing' % (call, f[1], k)
            if f[0]:
                hits = f
            check(not any(d[3] == t for d in node.dgrams), 'admitted', '%s: a client who gave %r and password %r is admitted' % (what, call, pw))
            check(c.eof or f[0] and not f[1].startswith('pcre'), 'not-refused', '%s: the client is still connected' % what, 'progress')
            ok = [bytes([7, 0, 0, 0, 0, 1, 0, 0, 0, want])] if want else [b'']
            if f[0]:
                ok.append(b'')
                # permission which can't be decided
                if want == 1:
                    ok.append(bytes([7, 0, 0, 0, 0, 1, 0, 0, 0, 2]))
            got = c.rest()
            check(got in ok or f[0] and any(got == x[:len(got)] for x in ok), 'refusal', '%s: got %r' % (what, got))
        finally:
            c.close()
        if not px.ret('serving'):
            check(f[0], 'accept-ended', 'the accept call failed without a fault')
            px.serve()
    echo(w.first, node, 'others')
    w.service('after failing call %d of refusals' % k, 1)

    def same():
        px.quiesce(5)
        return w.stat() == w.idle
    check(poll(same, 10, 0.02), 'not-released', 'after failing call %d of refusals: %s descriptors and threads, %s when idle' % (k, w.stat(), w.idle), 'progress')
    if not hits:
        px.cmd('close')
        w.first.close()
        w.baseline('serving, then closed')
    return hits or f


PHASES = {'refuse': ph_refuse, 'init': ph_init, 'load': ph_load, 'log': ph_log, 'open': ph_open, 'start': ph_start, 'serve': ph_serve, 'close': ph_close}


def released(net, slots, port=8100):
    """Every port of the daemon can be taken."""
    for addr, p, kind in [(net.proxy, port, socket.SOCK_STREAM)] + [(net.ext(i), p, socket.SOCK_DGRAM) for i in range(slots) for p in (5198, 5199)]:
        s = socket.socket(socket.AF_INET, kind)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind((addr, p))
            if kind == socket.SOCK_STREAM:
                s.listen(1)
        except OSError as e:
            return '%s:%d: %s' % (addr, p, e)
        finally:
            s.close()
    return None


def daemon(ck, b, net, start, step, slots, mode='F'):
    node = Node(net.node(0))
    rg = Registrar(net.registrar)
    conf = tempfile.mkdtemp(prefix='vfc')
    fg = 'F' in mode
    args = ['-F'] if fg else []
    if 'L' in mode:
        args += ['-L', conf + '/log']
    if 'S' in mode:
        args += ['-S']
    try:
        with open(conf + '/c', 'w') as fp:
            fp.write('Password=TESTPASS\nPort=8100\nBindAddress=%s\nExternalBindAddress=%s\nAdditionalExternalBindAddresses=%s\nCallsignsDenied=^BAD\nRegistrationName=TEST\n' % (
                net.proxy, net.ext(0), ','.join(net.ext(i) for i in range(1, slots))))
        k = start
        n = 0

        def said(d):
            t = d.text()
            for f in ('/log', '/sys'):
                try:
                    with open(conf + f, 'rb') as fp:
                        t += fp.read().decode('latin1')
                except OSError:
                    pass
            return t

        def complains(d):
            return re.search('rror|ailed|ailure|nable|lost', said(d))
        while True:
            for f in ('/log', '/sys'):
                if os.path.exists(conf + f):
                    os.unlink(conf + f)
            d = Daemon(b.openelpd, args + [conf + '/c'], {'fail_mask': MASK | 1 << 13 | 1 << 14, 'fail_at': k, 'armed': 1, 'registrar': net.registrar, 'seed': 1, 'syslog': conf + '/sys'})
            try:
                what = 'openelpd %s with call %d failing' % (' '.join(a.replace(conf, '') for a in args), k)
                gone = None
                if not fg:
                    try:
                        rc = d.p.wait(40)
                    except subprocess.TimeoutExpired:
                        raise Violation('hang:daemon', '%s: the starter does not return' % what, kind='progress')
                    pid = d.adopted(conf + '/c') if rc == 0 else None
                    if rc == 0 and pid:
                        d.p = Child(pid)
                    else:
                        gone = rc
                        pid = d.adopted(conf + '/c')
                        if pid:
                            os.kill(pid, 9)
                        check(not pid, 'left-behind', '%s: the starter failed, but leaves a process behind: %s' % (what, said(d)[-800:]))
                # a logged "Ready." may be lost with its log
                ready = poll(lambda: d.p.poll() is not None or serves(net))
                check(ready, 'hang:daemon', '%s: neither serves nor exits\n%s' % (what, said(d)[-800:]), 'progress')
                alone = d.p.poll() is not None
                if not alone:
                    # it serves: at least after one more attempt
                    ok = False
                    for i in range(3):
                        c = Client(net.proxy, 8100)
                        wait(lambda: len(c.raw) >= 8 or c.eof)
                        if len(c.raw) >= 8:
                            c.greet('W1AW', 'TESTPASS')
                            t = tag('d')
                            c.send(msg(UDP_DATA, node.addr, t))
                            if wait(lambda: any(x[3] == t for x in node.dgrams) or c.eof, 2) and not c.eof:
                                ok = True
                                c.close()
                                break
                        c.close()
                    if not ok:
                        # the fault may have ended it, which it has to say
                        check(poll(lambda: d.p.poll() is not None, 3) or complains(d), 'no-service', '%s: no service, and no message: %s' % (what, said(d)[-800:]), 'progress')
                    if d.p.poll() is None:
                        if not fg:
                            pr = '/proc/%d/' % d.p.pid
                            try:
                                cwd, fds = os.readlink(pr + 'cwd'), [os.readlink(pr + 'fd/%d' % i) for i in (0, 1, 2)]
                                check(cwd == '/' and fds == ['/dev/null'] * 3, 'half-daemon', '%s: it serves from %s with descriptors %s' % (what, cwd, fds))
                            except OSError:
                                pass
                        d.p.send_signal(signal.SIGTERM)
                    else:
                        alone = True
                try:
                    rc = d.p.wait(40)
                except subprocess.TimeoutExpired:
                    raise Violation('hang:daemon', '%s: does not end\n%s' % (what, d.stacks() if hasattr(d, 'stacks') else ''), kind='progress')
                hits, func = 0, '-'
                try:
                    with open(d.fault) as fp:
                        for ln in fp:
                            if int(ln.split()[1]) or func == '-':
                                _, hits, func = ln.split()
                except (OSError, ValueError):
                    pass
                what += ' (%s)' % func
                if d.san() or rc < 0 or rc == 99:
                    raise Violation('sanitizer:daemon' if d.san() else 'crash:daemon', '%s: ended with %d\n%s' % (what, rc, said(d)[-3000:]))
                if alone:
                    if rc == 0 and 'Shutting down' not in said(d) and fg:
                        raise Violation('silent-failure', '%s: could not start, and ends with status 0: %s' % (what, said(d)[-800:]))
                    # a daemon without a log has nowhere to say it
                    check(mode == '' and not gone or complains(d), 'no-message', '%s: ends with status %d and without a message: %s' % (what, rc, said(d)[-800:]))
                if gone is None or gone == 0:
                    left = poll(lambda: not released(net, slots), 5)
                    check(left, 'not-released', '%s: %s after its end' % (what, released(net, slots)), 'progress')
                if int(hits) == 0:
                    check(rc == 0 and not alone, 'exit-status', '%s: without a fault it ends with %d: %s' % (what, rc, said(d)[-800:]), 'progress')
                    break
                n += 1
                ck.case(('daemon', mode, k, func), sample=what + ': exit status %d%s' % (rc, ' by itself' if alone else ''))
                ck.count(**{'daemon_%s' % ('ended' if alone else 'served'): 1})
            finally:
                d.cleanup()
            if ck.left() < 20:
                ck.count(cut_short=1)
                break
            k += step
        ck.count(faults=n, faults_daemon=n)
    finally:
        node.close()
        rg.close()
        for f in ('/c', '/log', '/sys'):
            if os.path.exists(conf + f):
                os.unlink(conf + f)
        os.rmdir(conf)


def serves(net):
    s = socket.socket()
    s.settimeout(0.3)
    try:
        s.connect((net.proxy, 8100))
        return len(s.recv(8)) > 0
    except OSError:
        return False
    finally:
        s.close()


SPLIT = {'init': 1, 'load': 3, 'log': 1, 'open': 8, 'start': 3, 'serve': 4, 'refuse': 2, 'close': 4}


def body(ck):
    adopt()
    b = build('asan')
    pool = Pool(Net() for _ in range(8))
    cases = []
    for slots, reg, vf in ck.n([(2, True, {})], [(2, True, {}), (1, True, {}), (3, False, {}), (2, True, {'short_send': 500, 'short_recv': 500, 'short_max': 6}),
                                                (2, True, {'delay': 30, 'delay_us': 2000}), (4, True, {})]):
        for ph, m in SPLIT.items():
            for i in range(m):
                cases.append((pool.run, ck, b, sweep, ph, 1 + i, m, slots + (ph == 'serve'), reg, vf))
        for mode in ('F', 'L', 'S', '', 'FL', 'FS'):
            m = 4 if mode == 'F' or ck.tier != 'quick' else 2
            for i in range(m):
                cases.append((pool.run, ck, b, daemon, 1 + i, m, slots, mode))
    cases.sort(key=lambda c: c[4] not in ('open', 'serve', 'refuse') if c[3] is sweep else 0)
    ck.run_many(cases, 8)


ck = Check('P19', level='fault_enumeration', rule='one evaluation is one injected single fault (the k-th call of an activity), followed by full recovery; a distinct case is a distinct activity and call')
ck.min_eval = 150
main(ck, body)
