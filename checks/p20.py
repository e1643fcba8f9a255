"""P20: the daemon obeys its signals, options and configuration."""
import shutil

from vf.core import Check, main, Violation, Inconclusive
from vf.build import build
from vf.scen import *

END = 40.0        # how long an ending may take at most (a silent registrar costs 10 s)
TERM, INT, USR1 = signal.SIGTERM, signal.SIGINT, signal.SIGUSR1
PASS = 'TESTPASS'


def check(ok, key, text, kind='safety'):
    if not ok:
        raise Violation(key, text, kind)


def config(path, net, slots, reg=False, extra=''):
    with open(path, 'w') as fp:
        fp.write('Password=%s\nPort=8100\nBindAddress=%s\nExternalBindAddress=%s\n' % (PASS, net.proxy, net.ext(0)))
        if slots > 1:
            fp.write('AdditionalExternalBindAddresses=%s\n' % ','.join(net.ext(i) for i in range(1, slots)))
        if reg:
            fp.write('RegistrationName=TEST\n')
        fp.write(extra)


def released(net, slots, port=8100):
    """Every port of the daemon can be taken."""
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    try:
        s.bind((net.proxy, port))
        s.listen(1)
    except OSError as e:
        return 'port %d: %s' % (port, e)
    finally:
        s.close()
    for i in range(slots):
        for p in (5198, 5199):
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            try:
                s.bind((net.ext(i), p))
            except OSError as e:
                return '%s:%d: %s' % (net.ext(i), p, e)
            finally:
                s.close()
    return None


def healthy(d, what):
    rep = d.san()
    rc = d.p.poll()
    if rep:
        raise Violation('sanitizer:' + rep[0][0], '%s: %s' % (what, rep[0][1]))
    if rc is not None and rc < 0 and rc not in (-2, -10, -15, -9):
        raise Violation('crash:%d' % -rc, '%s: killed by signal %d: %s' % (what, -rc, d.text()[-1500:]))


def listening(net, port=8100):
    s = socket.socket()
    try:
        s.connect((net.proxy, port))
        return True
    except OSError:
        return False
    finally:
        s.close()


class Life:
    """One daemon from start to end."""

    def __init__(self, ck, b, net, r, slots, opts, reg=None, vf=None, shut=()):
        self.ck, self.net, self.r, self.slots, self.opts, self.reg = ck, net, r, slots, opts, reg
        self.fg = opts.get('F', False)
        self.log = opts.get('log')
        self.node = Node(net.node(0))
        self.plugs = []
        self.rg = None
        self.clients = []          # (client, call, src)
        self.others = []
        self.waiting = set()
        self.sent = set()
        self.what = 'openelpd %s%s%s' % (opts, ' registrar %s' % reg if reg else '', ' without descriptors %s' % (shut,) if shut else '')
        if reg == 'blackhole':
            self.plugs = blackhole(net.registrar, 80)
        elif reg:
            self.rg = Registrar(net.registrar, reg)
        self.cdir = tempfile.mkdtemp(prefix='vfc')
        self.conf = self.cdir + '/conf'
        config(self.conf, net, slots, bool(reg))
        args = []
        if self.fg:
            args.append('-F')
        if opts.get('d'):
            args.append('-d')
        if opts.get('q'):
            args.append('-q')
        self.logpath = None
        if self.log == 'file':
            self.logpath = self.cdir + '/log'
            args += ['-L', self.logpath]
        elif self.log == 'rel':
            args += ['-Llog']
        elif self.log == 'full':
            args += ['-L/dev/full']      # where everything is lost
        elif self.log == 'syslog':
            args.append('-S')
        r.shuffle(args) if self.log not in ('file',) else None
        args.insert(r.choice([0, len(args)]), self.conf)
        self.d = Daemon(b.openelpd, args, dict(vf or {}, registrar=net.registrar, seed=r.randrange(1, 99999), syslog=self.cdir + '/sys'), shut=shut)
        if self.log == 'rel':
            self.logpath = self.d.dir + '/log'
        ck.count(daemons=1)

    def close(self):
        for c, _, _ in self.clients:
            c.close()
        for c in self.others:
            c.close()
        self.d.cleanup()
        self.node.close()
        if self.rg:
            self.rg.close()
        for s in self.plugs:
            s.close()
        shutil.rmtree(self.cdir, ignore_errors=True)

    def fail(self, key, text, kind='progress'):
        healthy(self.d, self.what)
        if self.d.p.poll() is None and kind == 'progress':
            text += '\n' + Host.stacks(self.d)
        raise Violation(key, '%s: %s; output %s' % (self.what, text, self.d.text()[-700:]), kind)

    def detach(self):
        """Follows the daemonised process after its starter has reported success."""
        try:
            rc = self.d.p.wait(END)
        except subprocess.TimeoutExpired:
            self.fail('hang:starter', 'the starter does not return')
        if rc != 0:
            self.fail('starter-status', 'the starter returned %d' % rc)
        self.started = self.d.text()
        pid = poll(lambda: self.d.adopted(self.conf), 5)
        if not pid:
            self.fail('no-daemon', 'the starter returned success, but no daemon is left')
        self.d.p = Child(pid)

    def ready(self):
        """Waits until a client can log in."""
        if not self.fg:
            self.detach()
        self.login()
        if not self.fg:
            p = '/proc/%d/' % self.d.p.pid
            # what a closed terminal does to its processes no longer concerns it
            try:
                os.killpg(self.d.group, signal.SIGHUP)
            except ProcessLookupError:
                pass
            self.ck.count(daemonised=1)
            try:
                for fd in (0, 1, 2):
                    t = os.readlink(p + 'fd/%d' % fd)
                    check(t == '/dev/null', 'std-descriptor', '%s: descriptor %d of the daemon is %s' % (self.what, fd, t))
                check(os.readlink(p + 'cwd') == '/', 'cwd', '%s: the daemon stays in %s' % (self.what, os.readlink(p + 'cwd')))
            except OSError:
                if not poll(lambda: self.d.p.poll() is not None, 5):
                    raise
                self.fail('ended', 'ended by itself with %s' % self.d.p.poll())

    def login(self, timeout=WAIT):
        call = 'W%dX%s' % (self.r.randrange(10), ''.join(self.r.choice('ABCDEFGH') for _ in range(3)))
        end = time.monotonic() + timeout
        while True:
            c = Client(self.net.proxy, 8100)
            wait(lambda: len(c.raw) >= 8 or c.eof)
            if len(c.raw) >= 8:
                c.greet(call, PASS)
                try:
                    src = self.echo(c)
                    self.clients.append((c, call, src))
                    self.ck.count(sessions=1)
                    return c
                except Violation:
                    if not c.eof:
                        raise
            c.close()
            if self.d.p.poll() is not None:
                self.fail('ended', 'ended by itself with %s' % self.d.p.poll(), 'progress')
            if time.monotonic() > end:
                self.fail('no-service', 'no client is served')
            time.sleep(0.02)

    def echo(self, c, what='daemon'):
        t = tag(what)
        self.sent.add(t)
        c.send(msg(UDP_DATA, self.node.addr, t))
        wait(lambda: any(x[3] == t for x in self.node.dgrams) or c.eof)
        for x in self.node.dgrams[::-1]:
            if x[3] == t:
                break
        else:
            if not c.eof:
                self.fail('no-relay', 'datagram not relayed (%s, %d sessions)' % (what, len(self.clients)))
            raise Violation('session-lost', '%s: session lost' % self.what, 'progress')
        t2 = tag(what + 'r')
        self.sent.add(t2)
        self.node.sendto(5198, t2, x[1])
        if not c.wait_msgs(lambda m: any(y[2] == t2 for y in m[::-1]), 'echo'):
            if not c.eof:
                self.fail('no-return', 'datagram not returned')
            raise Violation('session-lost', '%s: session lost' % self.what, 'progress')
        return x[1]

    def situation(self):
        """Adds connections in other states."""
        r = self.r
        for kind in r.sample(['silent', 'half', 'tcp', 'opening', 'flood', 'stalled', 'gone'], r.randrange(0, 4)):
            if kind == 'silent':
                self.others.append(Client(self.net.proxy, 8100))
            elif kind == 'half':
                c = Client(self.net.proxy, 8100)
                c.send(b'W1A')
                self.others.append(c)
            elif kind == 'gone':
                Client(self.net.proxy, 8100).close(rst=True)
            elif len(self.clients) > 0:
                c, call, src = r.choice(self.clients)
                if kind == 'tcp':
                    n = len(self.node.conns)
                    c.send(msg(TCP_OPEN, self.node.addr))
                    wait(lambda: len(self.node.conns) > n, 2)
                    t = tag('tcp')
                    self.sent.add(t)
                    c.send(msg(TCP_DATA, payload=t))
                elif kind == 'opening':
                    self.plugs += blackhole(self.net.node(7), 5200) if not self.plugs else []
                    c.send(msg(TCP_OPEN, self.net.node(7)))
                    self.waiting.add(c)          # served again when that is decided
                elif kind == 'flood':
                    for i in range(60):
                        t = tag('f') + b'x' * r.randrange(700)
                        self.sent.add(t)
                        c.send(msg(r.choice((UDP_DATA, UDP_CONTROL)), self.node.addr, t))
                elif kind == 'stalled':
                    c.pause()
                    for i in range(100):
                        t = tag('s') + b'x' * 1000
                        self.sent.add(t)
                        self.node.sendto(5198, t, src)
            self.ck.count(**{'situation_' + kind: 1})

    def drain(self):
        """SIGUSR1 ends the acceptance of clients and nothing else."""
        self.signal(USR1)
        end = time.monotonic() + WAIT
        while True:
            c = Client(self.net.proxy, 8100)
            wait(lambda: len(c.raw) >= 8 or c.eof, 5)
            served = len(c.raw) >= 8
            c.close()
            if not served and c.eof:
                break
            if time.monotonic() > end:
                self.fail('still-accepting', 'clients are still accepted after SIGUSR1')
            time.sleep(0.02)
        for i in range(self.r.randrange(1, 4)):
            for c, call, src in self.clients:
                if c.paused or c in self.waiting:
                    continue
                if c.eof:
                    self.fail('session-ended', 'SIGUSR1 ended the session of %s' % call)
                self.echo(c, 'drain')
                self.ck.count(drained_echoes=1)
            c = Client(self.net.proxy, 8100)
            wait(lambda: len(c.raw) >= 8 or c.eof, 5)
            if len(c.raw) >= 8:
                self.fail('still-accepting', 'a client is accepted again after SIGUSR1', 'safety')
            c.close()
            if self.r.random() < 0.4:
                self.signal(USR1)
            if len(self.clients) > 1 and self.r.random() < 0.4:
                self.clients.pop()[0].close()
            time.sleep(self.r.choice([0, 0.03, 0.1]))
        if self.r.random() < 0.3:
            while self.clients:
                self.clients.pop()[0].close()
            time.sleep(0.15)
        if self.d.p.poll() is not None:
            self.fail('ended', 'SIGUSR1 ended the daemon with status %s' % self.d.p.poll())
        self.ck.count(drains=1)

    def suspend(self):
        """Being stopped and continued (or told what concerns it not) changes nothing."""
        r = self.r
        stop = threading.Event()
        todo = [x for x in self.clients if not x[0].paused and x[0] not in self.waiting and not x[0].eof]

        def traffic(c):
            while not stop.is_set():
                self.echo(c, 'suspended')
                self.ck.count(suspended_echoes=1)

        def signals():
            try:
                for _ in range(r.choice([1, 3, 30])):
                    self.signal(signal.SIGSTOP)
                    time.sleep(r.choice([0, 0.001, 0.02, 0.2]))
                    self.signal(signal.SIGCONT)
                    self.signal(r.choice([signal.SIGWINCH, signal.SIGURG, signal.SIGCHLD, signal.SIGCONT]))
                    time.sleep(r.choice([0, 0.0005, 0.01]))
            finally:
                self.signal(signal.SIGCONT)
                time.sleep(0.02)
                stop.set()
        parallel([lambda c=x[0]: traffic(c) for x in todo] + [signals])
        if self.d.p.poll() is not None:
            self.fail('ended', 'being stopped and continued ended the daemon with status %s' % self.d.p.poll())
        for c, call, src in todo:
            if c.eof:
                self.fail('session-ended', 'being stopped and continued ended the session of %s' % call)
            self.echo(c, 'continued')
        self.ck.count(suspensions=1)

    def signal(self, s):
        self.d.p.send_signal(s)
        self.ck.count(signals=1)

    def ends(self, allowed=(0,), strict=True):
        try:
            rc = self.d.p.wait(END)
        except subprocess.TimeoutExpired:
            self.fail('hang:end', 'does not end within %.0fs of the signal' % END)
        healthy(self.d, self.what)
        if rc not in allowed:
            self.fail('exit-status', 'ended with status %s' % rc, 'progress')
        for c in [x[0] for x in self.clients] + self.others:
            if c.paused:
                c.resume()
            if not c.wait_eof():
                self.fail('not-disconnected', 'a client is still connected')
            if c.greeted:
                check(c.malformed is None, 'malformed-stream', '%s: client received %s' % (self.what, c.malformed))
                for m in c.msgs:
                    if m[2]:
                        check(m[0] == TCP_STATUS or m[2] in self.sent, 'foreign-bytes', '%s: client received %r' % (self.what, m))
            else:
                check(len(c.raw) in (0, 8), 'foreign-bytes', '%s: unauthenticated client received %r' % (self.what, bytes(c.raw)))
        for x in self.node.dgrams:
            check(x[3] in self.sent, 'foreign-bytes', '%s: host received %r' % (self.what, x))
        for x in self.node.conns:
            wait(lambda: x.eof, 5)
            check(not x.data or bytes(x.data) in self.sent, 'foreign-bytes', '%s: host received %r' % (self.what, bytes(x.data[:200])))
        e = poll(lambda: not released(self.net, self.slots), 5)
        if not e:
            self.fail('not-released', '%s' % released(self.net, self.slots))
        if self.rg is not None and self.reg == 'ok' and rc == 0:
            last = self.rg.reports[-1] if self.rg.reports else None
            check(last is not None and 'Off' in repr(last), 'last-report', '%s: last report %r' % (self.what, last), 'progress')
        return rc

    def logs(self, calls):
        """Messages are where they belong, and nowhere else."""
        def rd(p):
            try:
                with open(p, 'rb') as fp:
                    return fp.read().decode('latin1')
            except (OSError, TypeError):
                return ''
        file, sysl = rd(self.logpath), rd(self.cdir + '/sys')
        out = self.d.out_text()
        err = self.d.err_text()
        quiet = self.opts.get('q')
        for call in calls:
            where = [n for n, t in (('out', out), ('err', err), ('file', file), ('sys', sysl)) if call in t]
            want = {'file': ['file'], 'rel': ['file'], 'full': [], 'syslog': ['sys'], None: ['out'] if self.fg else []}[self.log]
            if quiet and self.fg:
                # warnings may name it too
                want = where if not set(where) - set(want or ['out', 'err']) else want
            check(where == want, 'log-target', '%s: session of %s logged to %s, not %s' % (self.what, call, where, want))
        lines = out.split('\n')
        if quiet:
            check('Listening' not in out and 'Ready' not in out and 'onnected to' not in out, 'quiet', '%s: printed %r' % (self.what, out[:300]))
        # what was said before daemonising is said once
        for ln in set(lines):
            if 'Listening' in ln:
                check(lines.count(ln) == 1, 'repeated', '%s: %r is printed %d times' % (self.what, ln, lines.count(ln)))
        self.ck.count(log_bytes=len(out) + len(file) + len(sysl))


def life(ck, b, net, seed, opts, reg, vf, shut=(), lives=1):
    r = random.Random(seed)
    slots = r.choice([1, 2, 3])
    l = Life(ck, b, net, r, slots, opts, reg, vf, shut)
    try:
        l.ready()
        calls = [l.clients[0][1]]
        for i in range(1, slots):
            if r.random() < 0.6:
                l.login()
                calls.append(l.clients[-1][1])
        sig = (opts.get('F'), opts.get('log'), opts.get('q'), opts.get('d'), reg, shut)
        plan = []
        if r.random() < 0.5:
            l.situation()
        if r.random() < 0.3:
            l.suspend()
            plan.append('suspend')
            if len(l.clients) + len(l.others) < slots and r.random() < 0.5:
                l.login()
                calls.append(l.clients[-1][1])
        if r.random() < 0.5:
            l.drain()
            plan.append('drain')
        for _ in range(r.choice([1, 1, 1, 2, 5, 40])):
            s = r.choice([TERM, TERM, INT, INT, USR1])
            plan.append(s)
            l.signal(s)
            if r.random() < 0.5:
                time.sleep(r.choice([0, 0.0005, 0.003, 0.02]))
        if TERM not in plan and INT not in plan:
            plan.append(TERM)
            l.signal(TERM)
        if r.random() < 0.5:
            # more of them until it is gone
            plan.append('on')
            end = time.monotonic() + 3
            while l.d.p.poll() is None and time.monotonic() < end:
                l.signal(r.choice([TERM, INT, USR1]))
                time.sleep(r.random() * 0.002)
        rc = l.ends()
        if not shut:
            l.logs(calls)
        ck.case((sig, str(plan[:4]), slots), sample='%s signals %s: status %s' % (l.what, plan[:6], rc))
    finally:
        l.close()


def early(ck, b, net, seed, fg, how):
    """A signal at some point of the starting."""
    r = random.Random(seed)
    vf = r.choice([{}, {'delay': 300, 'delay_us': 3000}, {'delay': 60, 'delay_us': 20000}])
    l = Life(ck, b, net, r, r.choice([1, 3]), {'F': fg, 'log': r.choice([None, 'file'])}, r.choice([None, 'ok', 'slow']), vf)
    s = r.choice([TERM, INT, USR1])
    l.what += ' signal %d early (%s)' % (s, how)
    try:
        allowed = [0]
        if not fg:
            l.detach()
        if how == 'listening':
            t = time.monotonic()
            while not listening(net):
                if l.d.p.poll() is not None or time.monotonic() > t + WAIT:
                    l.fail('no-service', 'does not listen (status %s)' % l.d.p.poll())
        elif how == 'any':
            allowed.append(-s)
            time.sleep(r.random() * 0.12)
            if listening(net):
                allowed = [0]
        time.sleep(r.choice([0, r.random() * 0.002, r.random() * 0.03]))
        l.signal(s)
        ck.count(early_signals=1)
        if s == USR1:
            # at latest when everything is running, nobody is accepted any more
            end = time.monotonic() + WAIT
            while l.d.p.poll() is None:
                c = Client(net.proxy, 8100)
                wait(lambda: len(c.raw) >= 8 or c.eof, 5)
                ok = len(c.raw) < 8 and c.eof
                c.close()
                if ok:
                    break
                if time.monotonic() > end:
                    l.fail('still-accepting', 'clients are accepted after an early SIGUSR1')
                time.sleep(0.02)
            time.sleep(r.choice([0, 0.1]))
            t = r.choice([TERM, INT])
            l.signal(t)
            if -s in allowed:
                allowed.append(-t)
        rc = l.ends(allowed)
        ck.case(('early', fg, how, s, rc), sample='%s: status %d' % (l.what, rc))
    finally:
        l.close()


def again(ck, b, net, seed):
    """Started again at once with the same ports, several times."""
    r = random.Random(seed)
    for i in range(4):
        l = Life(ck, b, net, r, 2, {'F': r.random() < 0.5}, None, {})
        try:
            l.ready()
            l.login()
            l.situation()
            l.signal(r.choice([TERM, INT]))
            l.ends()
            ck.case(('again', i))
        finally:
            l.close()


def options(ck, b, net, seed, n):
    """Random command lines against an independent reading of them."""
    r = random.Random(seed)
    conf = tempfile.mkdtemp(prefix='vfc')
    try:
        config(conf + '/good', net, 1)
        fixed = [['-Lx', '-S'], ['-S', '-Lx'], ['-S', '-L', 'x'], ['-L', 'x', '-S'], ['-SLx'], ['-L'], ['-FL'], [conf + '/good', conf + '/good'],
                 ['-F', '--', ], ['-z'], ['--nothing']]
        for i in range(n + len(fixed)):
            if ck.left() < 10:
                return
            pool = ['-d', '-q', '-F', '-S', '-L', '-Lx', '-V', '-h', '-dF', '-qd', '-FS', '-dV', '-Vz', '-z', '-Fz', '-dL', '-E', '--debug', '--quiet', '--help', '--version',
                    '--', '--foo', '--debugx', '--d', '-', '', conf + '/good', conf + '/none', conf, '-Fq', '-SL', '-Fh']
            args = [r.choice(pool) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
            if r.random() < 0.3:
                args.insert(r.randrange(len(args) + 1), conf + '/good')
            want, o = read_args(args)
            if i >= n:
                args = fixed[i - n] + ([conf + '/good'] if '-L' not in fixed[i - n][-1] or r.random() < 0.5 else [])
                want, o = read_args(args)
            if want == 'run' and not o['F']:
                args = ['-F'] + args
                want, o = read_args(args)
            d = Daemon(b.openelpd, args, {'syslog': conf + '/sys'})
            what = 'openelpd %r' % args
            try:
                if want == 'run' and o['config'] == conf + '/good':
                    t = time.monotonic()
                    while not listening(net):
                        if d.p.poll() is not None or time.monotonic() > t + WAIT:
                            healthy(d, what)
                            raise Violation('no-service', '%s: does not serve (status %s): %s' % (what, d.p.poll(), d.text()[-500:]), 'progress')
                        time.sleep(0.003)
                    d.p.send_signal(TERM)
                try:
                    rc = d.p.wait(END)
                except subprocess.TimeoutExpired:
                    raise Violation('hang:options', '%s: does not return' % what, 'progress')
                healthy(d, what)
                out, err = d.out_text(), d.err_text()
                if want == 'help':
                    check(rc == 0 and 'Usage' in out and '-F' in out and not err, 'help', '%s: status %d, output %r %r' % (what, rc, out[:200], err[:200]))
                elif want == 'version':
                    check(rc == 0 and re.fullmatch(r'\d+\.\d+\S*\n', out) and not err, 'version', '%s: status %d, output %r %r' % (what, rc, out[:200], err[:200]))
                elif want == 'error':
                    check(rc != 0, 'status', '%s: accepted (status 0): %r' % (what, out[-300:]))
                    check(err.strip() != '', 'no-message', '%s: no error message' % what)
                elif o['config'] != conf + '/good':
                    check(rc != 0, 'status', '%s: status 0 without a usable configuration: %r' % (what, out[-300:]))
                    check(err.strip() != '', 'no-message', '%s: no error message: %r' % (what, out[-300:]))
                else:
                    check(rc == 0, 'exit-status', '%s: status %d: %r' % (what, rc, err[-300:]), 'progress')
                    dbg = [x for x in out.split('\n') if 'processing run' in x]
                    if o['q']:
                        check('Listening' not in out and not dbg, 'quiet', '%s: printed %r' % (what, out[:300]))
                    elif not o['L'] and not o['S']:
                        check('Listening' in out, 'log-target', '%s: printed %r' % (what, out[:300]))
                        check(o['d'] or not dbg, 'debug', '%s: prints debugging messages' % what)
                ck.case(('options', tuple(a.replace(conf, '') for a in args)), sample='%s: %s, status %d' % (what, want, rc))
                ck.count(command_lines=1)
            finally:
                d.cleanup()
    finally:
        shutil.rmtree(conf, ignore_errors=True)


def read_args(args):
    """What a command line asks for: help, version, error or run."""
    o = {'d': 0, 'F': 0, 'q': 0, 'S': 0, 'L': None, 'config': None}
    args = list(args)
    while args:
        a = args.pop(0)
        if a.startswith('--'):
            if a == '--help':
                return 'help', o
            if a == '--version':
                return 'version', o
            if a in ('--debug', '--quiet'):
                o[a[2]] = 1
                continue
            return 'error', o
        if len(a) > 1 and a[0] == '-':
            for j, c in enumerate(a[1:]):
                if c in 'dFq':
                    o[c] = 1
                elif c == 'h':
                    return 'help', o
                elif c == 'V':
                    return 'version', o
                elif c == 'S':
                    if o['L'] is not None:
                        return 'error', o
                    o['S'] = 1
                elif c == 'L':
                    if o['S']:
                        return 'error', o
                    if a[j + 2:]:
                        o['L'] = a[j + 2:]
                    elif args:
                        o['L'] = args.pop(0)
                    else:
                        return 'error', o
                    break
                else:
                    return 'error', o
            continue
        if a == '':
            return 'error', o
        if o['config'] is not None:
            return 'error', o
        o['config'] = a
    return 'run', o


def unusable(ck, b, net, seed):
    """Configurations which can't be used are refused with a message, also by the starter of a daemon."""
    r = random.Random(seed)
    conf = tempfile.mkdtemp(prefix='vfc')
    busy = socket.socket()
    bind(busy, (net(50), 8100))
    busy.listen(1)
    try:
        good = 'Password=%s\nPort=8100\nBindAddress=%s\nExternalBindAddress=%s\n' % (PASS, net.proxy, net.ext(0))
        bad = {'no password': good.replace('Password', '#'), 'bad port': good.replace('8100', '81x0'), 'huge port': good.replace('8100', '99999999999'),
               'port in use': good.replace(net.proxy, net(50)), 'foreign address': good.replace(net.proxy, '192.0.2.77'),
               'bad address': good.replace(net.proxy, 'not an address'), 'bad pattern': good + 'CallsignsDenied=([\n',
               'bad allowed': good + 'CallsignsAllowed=*\n', 'foreign external': good.replace(net.ext(0), '192.0.2.78'),
               'bad timeout': good + 'ConnectionTimeout=abc\n', 'empty': '', 'directory': None, 'missing': 0}
        names = sorted(bad)
        r.shuffle(names)
        for name in names:
            if ck.left() < 10:
                return
            p = conf + '/c'
            if bad[name] is None:
                p = conf
            elif bad[name] == 0:
                p = conf + '/missing'
            else:
                with open(p, 'w') as fp:
                    fp.write(bad[name])
            opt = r.choice([['-F'], [], ['-q'], ['-F', '-d'], ['-F', '-q'], ['-S', '-q']])
            if name in ('foreign external',):
                # found out when a session begins; not a matter of starting
                continue
            d = Daemon(b.openelpd, opt + [p], {'syslog': conf + '/sys'})
            what = 'openelpd %s with configuration "%s"' % (opt, name)
            try:
                try:
                    rc = d.p.wait(END)
                except subprocess.TimeoutExpired:
                    raise Violation('unusable-accepted:' + name, '%s: keeps running: %s' % (what, d.text()[-400:]), 'progress')
                healthy(d, what)
                check(rc != 0, 'unusable-status:' + name, '%s: status 0: %s' % (what, d.text()[-400:]))
                check(d.err_text().strip(), 'no-message:' + name, '%s: no error message' % what)
                left = d.adopted(p)
                if left:
                    os.kill(left, 9)
                check(not left, 'left-behind', '%s: a process is left behind' % what)
                ck.case(('unusable', name, tuple(opt)), sample='%s: status %d, %s' % (what, rc, d.err_text().strip()[:100]))
            finally:
                d.cleanup()
    finally:
        busy.close()
        shutil.rmtree(conf, ignore_errors=True)


def default_conf(ck, b, net, seed):
    """Without a configuration argument, ELProxy.conf of the working directory is used."""
    for fg in (True, False):
        mark = '-L%s.log' % net.base
        d = Daemon('/bin/sh', ['-c', 'printf "%%s" "$2" > ELProxy.conf; exec "$0" %s $1' % ('-F' if fg else ''), b.openelpd, mark,
                               'Password=%s\nPort=8101\nBindAddress=%s\nExternalBindAddress=%s\n' % (PASS, net.proxy, net.ext(0))])
        try:
            pid = None
            if not fg:
                check(d.p.wait(END) == 0, 'starter-status', 'openelpd with ELProxy.conf: starter returned %s: %s' % (d.p.poll(), d.text()[-500:]), 'progress')
            t = time.monotonic()
            while not listening(net, 8101):
                if (fg and d.p.poll() is not None) or time.monotonic() > t + WAIT:
                    healthy(d, 'default configuration')
                    raise Violation('default-config', 'ELProxy.conf is not used: %s' % d.text()[-500:], 'progress')
            if not fg:
                pid = poll(lambda: d.adopted(mark), 5)
                check(pid, 'no-daemon', 'no daemon left', 'progress')
                d.p = Child(pid)
            d.p.send_signal(TERM)
            try:
                rc = d.p.wait(END)
            except subprocess.TimeoutExpired:
                raise Violation('hang:end', 'does not end', 'progress')
            healthy(d, 'default configuration')
            check(rc == 0, 'exit-status', 'default configuration: status %d' % rc, 'progress')
            check(not listening(net, 8101), 'not-released', 'still listening after the end')
            ck.case(('default', fg))
        finally:
            d.cleanup()


def badlog(ck, b, net, seed, fg, bad):
    """A log which cannot be written is reported; the daemon serves without it, or does not start."""
    r = random.Random(seed)
    l = Life(ck, b, net, r, 2, {'F': fg, 'log': None}, None, {})
    l.d.kill()
    l.d.p.wait()
    l.d.cleanup()
    path = l.cdir + {'missing': '/none/log', 'directory': ''}[bad]
    args = (['-F'] if fg else []) + ['-L', path] + (['-d'] if r.random() < 0.5 else []) + [l.conf]
    l.d = d = Daemon(b.openelpd, args, {'registrar': net.registrar, 'seed': 1})
    l.what = 'openelpd %s with an unusable log file (%s)' % ('-F' if fg else '', bad)
    try:
        if not fg:
            try:
                rc = d.p.wait(END)
            except subprocess.TimeoutExpired:
                l.fail('hang:starter', 'the starter does not return')
            if rc == 0:
                pid = poll(lambda: d.adopted(l.conf), 5)
                check(pid, 'no-daemon', '%s: the starter returned success, but no daemon is left' % l.what, 'progress')
                d.p = Child(pid)
        poll(lambda: d.p.poll() is not None or listening(net), WAIT)
        refused = d.p.poll() is not None
        if not refused:
            l.fg = True                 # followed already
            l.ready()
            l.login()
            check(not os.path.exists(l.cdir + '/none'), 'log-created', '%s: something was created' % l.what)
            l.signal(r.choice([TERM, INT]))
            l.ends()
        else:
            healthy(d, l.what)
            check(d.p.poll() != 0, 'exit-status', '%s: refused with status 0' % l.what)
        check(re.search('ailed|rror|nable', d.text()), 'no-message', '%s: no message about it: %s' % (l.what, d.text()[-600:]))
        if fg and not refused:
            # what can't go to the file is still said where it can be read
            check('Shutting down' in d.text(), 'log-lost', '%s: messages are lost: %s' % (l.what, d.text()[-600:]))
        ck.case(('badlog', fg, bad, refused), sample='%s: %s' % (l.what, d.text().strip()[-200:]))
        ck.count(unusable_logs=1)
    finally:
        l.close()


def ipv6():
    try:
        with open('/proc/sys/net/ipv6/bindv6only') as fp:
            if fp.read().strip() != '0':
                return False
        with socket.socket(socket.AF_INET6) as s:
            s.bind(('::1', 0))
        return True
    except OSError:
        return False


def everywhere(ck, b, net, seed, fg, bind=None):
    """Without a BindAddress, clients are served on every address; with one, on that (which may be of IPv6)."""
    r = random.Random(seed)
    port = r.randrange(20000, 32000)
    cdir = tempfile.mkdtemp(prefix='vfc')
    node = Node(net.node(0))
    conf = cdir + '/conf'
    with open(conf, 'w') as fp:
        fp.write('Password=%s\nPort=%d\nExternalBindAddress=%s\nAdditionalExternalBindAddresses=%s,%s\n' % (PASS, port, net.ext(0), net.ext(1), net.ext(2)))
        if bind:
            fp.write('BindAddress=%s\n' % bind)
    d = Daemon(b.openelpd, (['-F'] if fg else ['-L', cdir + '/log']) + [conf], {'seed': 1})
    what = 'openelpd with BindAddress %s' % bind
    if bind and not ipv6():
        return
    cs = []
    try:
        if not fg:
            try:
                rc = d.p.wait(END)
            except subprocess.TimeoutExpired:
                raise Violation('hang:starter', '%s: the starter does not return' % what, 'progress')
            if rc and 'ddress already in use' in d.text():
                raise Inconclusive('port %d is taken' % port)
            pid = d.adopted(conf)
            check(rc == 0 and pid, 'no-daemon', '%s: starter returned %d: %s' % (what, rc, d.text()[-500:]), 'progress')
            d.p = Child(pid)
        for a in {None: (net.proxy, '127.0.0.1', net(77)), '::': ('::1', net.proxy, '127.0.0.1'), '::1': ('::1',) * 3}[bind]:
            end = time.monotonic() + WAIT
            while True:
                if d.p.poll() is not None:
                    healthy(d, what)
                    if 'ddress already in use' in d.text():
                        raise Inconclusive('port %d is taken' % port)
                    raise Violation('ended', '%s: ended with %s: %s' % (what, d.p.poll(), d.text()[-500:]), 'progress')
                c = Client(a, port)
                wait(lambda: len(c.raw) >= 8 or c.eof)
                if len(c.raw) >= 8:
                    c.greet('W1A' + 'ABC'[len(cs)], PASS)
                    cs.append(c)
                    t = tag('any')
                    c.send(msg(UDP_DATA, node.addr, t))
                    check(wait(lambda: any(x[3] == t for x in node.dgrams) or c.eof) and not c.eof, 'no-relay', '%s: no service through %s' % (what, a), 'progress')
                    src = [x[1] for x in node.dgrams if x[3] == t][0]
                    check(src in [net.ext(i) for i in range(3)], 'source', '%s: relayed from %s' % (what, src))
                    break
                c.close()
                if time.monotonic() > end:
                    raise Violation('no-service', '%s: not served at %s:%d: %s' % (what, a, port, d.text()[-500:]), 'progress')
                time.sleep(0.01)
            ck.count(sessions=1)
        d.p.send_signal(r.choice([TERM, INT]))
        try:
            rc = d.p.wait(END)
        except subprocess.TimeoutExpired:
            raise Violation('hang:end', '%s: does not end' % what, 'progress')
        healthy(d, what)
        check(rc == 0, 'exit-status', '%s: status %d' % (what, rc), 'progress')
        for c in cs:
            check(c.wait_eof(), 'not-disconnected', '%s: a client is still connected' % what, 'progress')
        ck.case(('everywhere', fg, bind), sample=what)
    finally:
        for c in cs:
            c.close()
        d.cleanup()
        node.close()
        shutil.rmtree(cdir, ignore_errors=True)


def body(ck):
    adopt()
    b = build('asan')
    bt = build('tsan')
    pool = Pool(Net() for _ in range(8))
    r = ck.rng
    cases = [(pool.run, ck, b, default_conf, 0)]
    for i in range(ck.n(8, 60)):
        cases.append((pool.run, ck, b, options, r.randrange(1 << 30), 25))
    for i in range(ck.n(3, 20)):
        cases.append((pool.run, ck, b, unusable, r.randrange(1 << 30)))
    for i in range(ck.n(2, 12)):
        cases.append((pool.run, ck, b, again, r.randrange(1 << 30)))
    for fg in (True, False):
        for how in ('listening', 'any') if fg else ('detached',):
            for _ in range(ck.n(24, 150)):
                cases.append((pool.run, ck, b, early, r.randrange(1 << 30), fg, how))
    for fg in (True, False):
        for _ in range(ck.n(1, 6)):
            for bad in ('missing', 'directory'):
                cases.append((pool.run, ck, b, badlog, r.randrange(1 << 30), fg, bad))
            for bind in (None, '::', '::1'):
                cases.append((pool.run, ck, b, everywhere, r.randrange(1 << 30), fg, bind))
    k = 0
    for _ in range(ck.n(6, 40)):
        for fg in (True, False):
            for log in (None, 'file', 'rel', 'syslog'):
                for q in (False, True):
                    opts = {'F': fg, 'log': log, 'q': q, 'd': r.random() < 0.3}
                    vf = r.choice([{}, {}, {'delay': 60, 'delay_us': 3000}, {'short_send': 300, 'short_recv': 300}])
                    k += 1
                    reg = ('silent' if k % 16 == 3 else r.choice([None, None, None, 'ok', 'ok', 'refuse', 'http500', 'blackhole' if r.random() < 0.1 else None]))
                    cases.append((pool.run, ck, bt if fg and r.random() < 0.3 else b, life, r.randrange(1 << 30), opts, reg, vf))
    for fg in (True, False):
        for shut in ((0,), (1,), (2,), (0, 1, 2), (1, 2)):
            for _ in range(ck.n(1, 4)):
                cases.append((pool.run, ck, b, life, r.randrange(1 << 30), {'F': fg, 'd': r.random() < 0.5, 'log': r.choice([None, 'file'])}, None, {}, shut))
        for _ in range(ck.n(2, 10)):
            cases.append((pool.run, ck, b, life, r.randrange(1 << 30), {'F': fg, 'd': True, 'log': 'full'}, r.choice([None, 'ok']), {}))
    r.shuffle(cases)
    ck.run_many(cases, 8)


ck = Check('P20', rule='one evaluation is one run of the daemon executable, from its start to its exit status; distinct cases differ in options, situation or signals')
ck.min_eval = 100
main(ck, body)
