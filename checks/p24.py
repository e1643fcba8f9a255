"""P24: proxy handles in one process do not affect each other."""
from vf.core import Check, main, Violation, Inconclusive
from vf.build import build
from vf.scen import *

BAD_PW = bytes([7, 0, 0, 0, 0, 1, 0, 0, 0, 1])
BAD_CALL = bytes([7, 0, 0, 0, 0, 1, 0, 0, 0, 2])
NH = 4
LETTERS = 'ABCD'


class H:
    """What one handle is supposed to be."""

    def __init__(self, wd, i):
        self.wd, self.i, self.p = wd, i, '%d:' % i
        self.state = 'none'           # none | init | open | up | drained
        self.sessions = []            # (client, node)
        self.n = 0
        self.lines = 0
        self.logging = False
        self.name, self.pw = None, 'none'

    def cmd(self, c, timeout=60):
        """At the same time as those of the other handles if there is a thread for each."""
        if not self.wd.threads:
            return self.wd.px.cmd(self.p + c, timeout)
        return self.wd.px.reply(self.wd.px.bg(self.p + c), c, timeout)

    def must(self, c):
        got = self.cmd(c)['ret']
        if got != 0:
            raise Violation('unexpected-return:' + c.split()[0], "handle %d: '%s' returned %s\n%s" % (self.i, c, got, self.wd.story()), kind='progress')

    def configure(self):
        r, net, i = self.wd.r, self.wd.net, self.i
        self.slots = r.choice([1, 2, 3])
        self.addr, self.port = (net(1), 8100 + i) if r.random() < 0.5 else (net(1 + i), 8100)
        self.pw = r.choice(['PW%dx' % i, 'PUBLIC', 'SAME'])
        # a callsign of this handle has its letter in it
        self.allowed = r.choice([None, '^[A-Z]\\d%s' % LETTERS[i]])
        self.denied = r.choice([None, 'X%s$' % LETTERS[i], 'X.$'])
        self.name = r.choice([None, 'NAME%d' % i])
        self.exts = [net.ext(10 * i + k) for k in range(self.slots)]
        for k, v in (('password', self.pw), ('bind_addr', self.addr), ('bind_addr_ext', self.exts[0]), ('calls_allowed', self.allowed),
                     ('calls_denied', self.denied), ('reg_name', self.name)):
            self.cmd('set %s' % k if v is None else 'set %s %s' % (k, v.encode().hex()))
        self.cmd('set port %d' % self.port)
        self.cmd('set ext_add ' + ','.join(self.exts[1:]))

    def permits(self, call):
        return not (self.denied and re.search(self.denied, call)) and not (self.allowed and not re.search(self.allowed, call))

    def retire(self):
        """What openelpd does before it closes: no thread of the caller is in the library any more."""
        if self.state == 'up':
            self.cmd('shutdown')
            self.served('a shutdown')
        self.cmd('drop')
        for c in self.sessions:
            if not c.wait_eof():
                raise Violation('not-dropped', 'handle %d: a session survives a drop\n%s' % (self.i, self.wd.story()), kind='progress')

    def served(self, what):
        if self.wd.px.event(lambda e: e.get('ev') == 'serve_end' and e.get('tag') == self.tag) is None:
            raise Violation('still-serving', 'handle %d goes on accepting after %s\n%s' % (self.i, what, self.wd.story()), kind='progress')

    def client(self):
        return Client(self.addr, self.port, host=self.wd.px)

    def challenged(self, what):
        end = time.monotonic() + WAIT
        while True:
            c = self.client()
            n = c.nonce()
            if n is not None:
                return c
            c.close()
            if not self.wd.px.alive():
                self.wd.px.p.wait(30)
                raise self.wd.px.died('waiting for a challenge')
            if time.monotonic() > end:
                raise Violation('no-service', 'handle %d (%s): no challenge: %s\n%s' % (self.i, what, self.wd.story(), self.wd.px.stacks()), kind='progress')
            time.sleep(0.01)

    def call(self):
        self.n += 1
        return 'W%d%sQ%d' % (self.n % 10, LETTERS[self.i], self.n % 7)

    def session(self, what):
        c = self.challenged(what)
        c.greet(self.call(), self.pw)
        self.sessions.append(c)
        self.echo(c, what)

    def echo(self, c, what):
        try:
            src = echo(c, self.wd.node, 'P24')
        except Violation as e:
            raise Violation('affected', 'handle %d (%s), a session does not relay any more: %s\n%s' % (self.i, what, e, self.wd.story()), kind=e.kind)
        if src not in self.exts:
            raise Violation('wrong-address', 'a session of handle %d leaves from %s, configured are %s\n%s' % (self.i, src, self.exts, self.wd.story()))
        self.wd.ck.count(echoes=1)

    def tcp(self, c, what):
        node, m0 = self.wd.node, len(c.msgs)
        wrong = lambda k, t: Violation('affected:' + k, 'handle %d (%s), TCP through a session: %s\n%s' % (self.i, what, t, self.wd.story()), kind='progress')

        def status(addr, want):
            n0 = len([m for m in c.msgs if m[0] == TCP_STATUS])
            c.send(msg(TCP_OPEN, addr))
            if not c.wait_msgs(lambda ms: len([m for m in ms if m[0] == TCP_STATUS]) > n0, 'TCP status'):
                raise wrong('no-status', 'no status for %s' % addr)
            got = [m for m in c.msgs if m[0] == TCP_STATUS][-1][2]
            if (got == bytes(4)) != want:
                raise wrong('status', 'the status for %s is %r' % (addr, got))
        if self.wd.r.random() < 0.4:
            status(self.wd.net.node(77), False)
        status(node.addr, True)
        t = tag('t%d' % self.i)
        c.send(msg(TCP_DATA, payload=t))
        find = lambda: next((n for n in list(node.conns) if bytes(n.data) == t), None)
        if not wait(find):
            raise wrong('lost', 'the node did not get %r: %r' % (t, [bytes(n.data)[:40] for n in node.conns][-8:]))
        n = find()
        n.send(t[::-1])
        got = lambda ms: b''.join(m[2] for m in ms[m0:] if m[0] == TCP_DATA)
        if not c.wait_msgs(lambda ms: len(got(ms)) >= len(t), 'the answer') or got(c.msgs) != t[::-1]:
            raise wrong('answer', '%r instead of %r' % (got(c.msgs), t[::-1]))
        c.send(msg(TCP_CLOSE))
        if not wait(lambda: n.eof):
            raise wrong('open', 'the connection is not closed')
        n.close()
        self.wd.ck.count(tcp=1)

    def refused(self, pw, call, want, what):
        c = self.challenged(what)
        c.greet(call, pw)
        if not c.wait_eof():
            raise Violation('admitted' if c.msgs or len(c.raw) == 8 else 'no-refusal', 'handle %d: %s with %s is not turned away (%s)\n%s' % (self.i, call, pw, bytes(c.raw), self.wd.story()), kind='progress')
        got = bytes(c.raw[8:])
        c.close()
        if got != want:
            raise Violation('refusal', 'handle %d (%s): %s with %s got %r instead of %r\n%s' % (self.i, what, call, pw, got, want, self.wd.story()))
        self.wd.ck.count(refusals=1)

    def verify(self, what):
        wd, r = self.wd, self.wd.r
        if self.state in ('up', 'drained'):
            for c in self.sessions:
                self.echo(c, what)
                if r.random() < 0.1:
                    self.tcp(c, what)
        if self.state == 'up' and len(self.sessions) < self.slots:
            k = r.random()
            other = r.choice([h for h in wd.hs if h is not self])
            if k < 0.25:
                opw = other.pw if other.state != 'none' and other.pw != self.pw else 'other'
                self.refused(opw, self.call(), BAD_PW, what)
            elif k < 0.5:
                call = 'W1%sX%s' % (LETTERS[r.randrange(NH)], LETTERS[r.randrange(NH)])
                if not self.permits(call):
                    self.refused(self.pw, call, BAD_CALL, what)
                else:
                    c = self.challenged(what)
                    c.greet(call, self.pw)
                    self.echo(c, what)
                    c.close()
        if self.state in ('open', 'up', 'drained'):
            for call in wd.calls:
                got = self.cmd('auth ' + call.encode().hex())['ret']
                if got != int(self.permits(call)):
                    raise Violation('permission', 'handle %d (allowed %s, denied %s) answers %d for %s after %s\n%s' % (self.i, self.allowed, self.denied, got, call, what, wd.story()))
        if self.logging:
            self.lines += 1
            t = 'mark-%d-%d' % (self.i, self.lines)
            self.cmd('log 0 ' + (t + '\n').encode().hex())
            for h in wd.hs:
                if wd.logtext(h).count(t + '\n') != int(h is self):
                    raise Violation('log', 'handle %d logged %s, the log of handle %d has it %d times\n%s' % (self.i, t, h.i, wd.logtext(h).count(t + '\n'), wd.story()))
        if self.name and self.state in ('up', 'drained') and wd.reports:
            used = len(self.sessions)
            total = self.slots if self.state == 'up' else 0
            want = ('Busy' if used >= total else 'Ready', None if total == 1 else (used, total))
            wd.report(self, want, what)


class Several:
    def __init__(self, ck, b, net, seed, vf, reports=True):
        self.threads = not reports
        self.ck, self.net, self.r, self.reports = ck, net, random.Random(seed), reports
        self.node = Node(net.node(0))
        self.rg = Registrar(net.registrar)
        v = {'registrar': net.registrar, 'seed': seed % 1000 + 1}
        v.update(vf)
        self.px = Host(b.host, vf=v)
        self.orderly = 'tsan' in b.dir
        self.hs = [H(self, i) for i in range(NH)]
        self.ops = []

    def story(self):
        return ' '.join(self.ops[-40:])

    def logtext(self, h):
        try:
            with open('%s/log%d' % (self.px.dir, h.i), 'rb') as fp:
                return fp.read().decode('latin1')
        except OSError:
            return ''

    def last(self, h):
        with self.rg.lock:
            raw = [x[1] for x in self.rg.raw]
        for body in reversed(raw):
            m = re.match(rb'name=(\w+)&comment=(?: \[(\d+)/(\d+)\])?&public=(Y|N)&status=(\w+)&', body)
            if not m:
                raise Violation('report', 'malformed report %r' % body)
            if m.group(1).decode() == 'NAME%d' % h.i:
                return m.group(5).decode(), (int(m.group(2)), int(m.group(3))) if m.group(2) else None
        return None

    def report(self, h, want, what):
        if not wait(lambda: self.last(h) == want):
            raise Violation('report', 'handle %d (%s): last report %r, the truth is %r\n%s\n%s' % (h.i, what, self.last(h), want, self.story(), self.px.stacks()), kind='progress')

    def close(self):
        self.node.close()
        self.rg.close()


def step(wd, h):
    """One operation of one handle; returns what it was."""
    r = wd.r
    if h.state == 'none':
        h.must('init')
        h.state = 'init'
        h.logging = False
        if r.random() < 0.8:
            h.must('logmedium 2 %s/log%d' % (wd.px.dir, h.i))
            h.logging = True
        else:
            h.cmd('logmedium 1')
            h.cmd('loglevel 0')
        h.cmd('loglevel %d' % r.choice([0, 1, 3, 4]))
        return 'init'
    if h.state == 'init':
        k = r.random()
        if k < 0.12:
            h.cmd('free')
            h.cmd('zero')
            h.state, h.logging = 'none', False
            return 'free'
        if not h.logging and r.random() < 0.5:
            h.must('logmedium 2 %s/log%d' % (wd.px.dir, h.i))
            h.logging = True
        h.configure()
        if k < 0.3:
            # fails: a port which another handle has, or a pattern
            busy = [o for o in wd.hs if o is not h and o.state in ('open', 'up')]
            if busy and r.random() < 0.6:
                o = r.choice(busy)
                wd.px.setf('bind_addr', o.addr, h.p)
                h.cmd('set port %d' % o.port)
                how = 'open-taken'
            else:
                wd.px.setf('calls_allowed', '(', h.p)
                how = 'open-pattern'
            if h.cmd('open')['ret'] >= 0:
                raise Violation('false-success', 'handle %d: %s succeeded\n%s' % (h.i, how, wd.story()), kind='progress')
            if not h.logging:
                h.cmd('logmedium 0')
            return how
        h.must('open')
        h.state = 'open'
        return 'open'
    if h.state == 'open':
        if r.random() < 0.2:
            h.cmd('close')
            h.state, h.logging = 'init', False
            return 'close-unstarted'
        h.must('start')
        wd.serves = getattr(wd, 'serves', 0) + 1
        h.tag = wd.serves
        h.cmd('serve %d' % h.tag)
        h.state = 'up'
        h.sessions = []
        return 'start'
    k = r.random()
    if h.state == 'up' and k < 0.45 and len(h.sessions) < h.slots:
        h.session('session')
        return 'session'
    if k < 0.6 and h.sessions:
        c = h.sessions.pop(r.randrange(len(h.sessions)))
        c.close(rst=r.random() < 0.3)
        return 'leave'
    if k < 0.65 and (h.sessions or r.random() < 0.2):
        h.cmd('drop')
        for c in h.sessions:
            if not c.wait_eof():
                raise Violation('not-dropped', 'handle %d: a session survives a drop\n%s' % (h.i, wd.story()), kind='progress')
            c.close()
        h.sessions = []
        return 'drop'
    if h.state == 'up' and k < 0.8:
        h.cmd('shutdown')
        h.served('a shutdown')
        h.state = 'drained'
        return 'shutdown'
    if k < 0.9:
        return 'nothing'
    # closed, while others are in use
    others = [o for o in wd.hs if o is not h and o.state in ('up', 'drained') and o.sessions]
    was = h.state
    if wd.orderly:
        h.retire()
    ident = wd.px.bg(h.p + 'close')
    for o in others:
        o.echo(r.choice(o.sessions), 'while handle %d is closed' % h.i)
    wd.px.reply(ident, 'close', 90)
    if was == 'up' and not wd.orderly:
        h.served('being closed')
    for c in h.sessions:
        if not c.wait_eof():
            raise Violation('not-dropped', 'handle %d: a session survives closing\n%s' % (h.i, wd.story()), kind='progress')
        c.close()
    h.sessions = []
    if h.name and wd.reports:
        if not wait(lambda: (wd.last(h) or ('',))[0] == 'Off'):
            raise Violation('report', 'handle %d: the last report after closing is %r\n%s' % (h.i, wd.last(h), wd.story()), kind='progress')
    if r.random() < 0.4:
        h.cmd('free')
        h.cmd('zero')
        h.state = 'none'
    else:
        h.state = 'init'
        h.cmd('logmedium 0')
    h.logging = False
    return 'close'


def history(ck, b, net, seed, vf, n):
    wd = Several(ck, b, net, seed, vf)
    r = wd.r
    try:
        wd.px.quiesce(5)
        s0 = wd.px.stats()
        for k in range(n):
            h = r.choice(wd.hs)
            what = step(wd, h)
            wd.ops.append('%d:%s' % (h.i, what))
            wd.px.quiesce(5)
            live = [o for o in wd.hs if o.state in ('up', 'drained')]
            wd.calls = ['K%d%sX%s' % (r.randrange(10), LETTERS[r.randrange(NH)], LETTERS[r.randrange(NH)]) for _ in range(2)]
            for o in wd.hs:
                o.verify('after ' + wd.ops[-1])
            ck.maxi(most_live=len(live), most_sessions=sum(len(o.sessions) for o in live))
            ck.case((seed, k, what, tuple((o.state, len(o.sessions)) for o in wd.hs)), sample=wd.ops[-1] + ' with ' + ' '.join('%s/%d' % (o.state, len(o.sessions)) for o in wd.hs))
        for o in wd.hs:
            if wd.orderly and o.state in ('up', 'drained'):
                o.retire()
            if o.state != 'none':
                wd.px.cmd(o.p + 'free', 90)
            for c in o.sessions:
                c.close()

        def base():
            wd.px.quiesce(5)
            s = wd.px.stats()
            return s['fds'] <= s0['fds'] and s['threads'] <= s0['threads'] + wd.orderly    # TSan has a thread of its own
        if not poll(base, 20, 0.05):
            raise Violation('not-released', 'descriptors and threads %r, %r at first: %s\n%s' % (wd.px.stats(), s0, wd.px.cmd('fdlist')['fds'], wd.story()), kind='progress')
        wd.px.end()
    except BaseException:
        wd.px.kill()
        rep = wd.px.san()
        if rep:
            raise Violation('sanitizer:' + rep[0][0], wd.story() + '\n' + rep[0][1][:3500], witness=rep[0][1])
        raise
    finally:
        wd.px.cleanup()
        wd.close()


def together(ck, b, net, seed, vf):
    """Lives of several handles at the same time, each with a thread of its own."""
    wd = Several(ck, b, net, seed, vf, reports=False)
    try:
        def life(h, s):
            r = random.Random(s)
            for k in range(ck.n(3, 10)):
                h.must('init')
                h.cmd('logmedium 2 %s/log%d' % (wd.px.dir, h.i))
                h.cmd('loglevel 4')
                h.configure()
                h.must('open')
                h.must('start')
                h.tag = h.i * 1000 + k
                h.cmd('serve %d' % h.tag)
                h.state = 'up'
                for _ in range(r.randrange(1, 4)):
                    c = h.challenged('together')
                    c.greet(h.call(), h.pw)
                    h.echo(c, 'together')
                    h.tcp(c, 'together')
                    if r.random() < 0.5:
                        h.refused('other', h.call(), BAD_PW, 'together') if h.slots > 1 else None
                    if r.random() < 0.7:
                        c.close()
                        end = time.monotonic() + WAIT
                        while r.random() < 0.5 and time.monotonic() < end:
                            if not h.permits('K1AXB') == (h.cmd('auth ' + b'K1AXB'.hex())['ret'] == 1):
                                raise Violation('permission', 'handle %d decides otherwise than configured' % h.i)
                    else:
                        h.cmd('drop')
                        if not c.wait_eof():
                            raise Violation('not-dropped', 'handle %d: a session survives a drop' % h.i, kind='progress')
                        c.close()
                if wd.orderly:
                    h.retire()
                h.cmd('close', 90)
                if not wd.orderly:
                    h.served('being closed')
                h.sessions, h.state = [], 'none'
                h.cmd('free')
                h.cmd('zero')
                ck.case(('together', seed, h.i, k))
                ck.count(lives_at_once=1)
        parallel([lambda h=h: life(h, seed + h.i) for h in wd.hs])
        wd.px.end()
    except BaseException:
        wd.px.kill()
        rep = wd.px.san()
        if rep:
            raise Violation('sanitizer:' + rep[0][0], rep[0][1][:3500], witness=rep[0][1])
        raise
    finally:
        wd.px.cleanup()
        wd.close()


def body(ck):
    a, t = build('asan'), build('tsan')
    pool = Pool([Net() for _ in range(5)])
    r = ck.rng
    cs = []
    for i in range(ck.n(24, 240)):
        b = t if i % 4 == 3 else a
        cs.append((pool.run, ck, b, history, r.randrange(1 << 30), r.choice([{}, {'delay': 100, 'delay_us': 2000}]), 80))
    for i in range(ck.n(8, 60)):
        cs.append((pool.run, ck, (t, a)[i % 2], together, r.randrange(1 << 30), {'delay': 60, 'delay_us': 1500} if i % 4 > 1 else {}))
    ck.run_many(cs, 5)


ck = Check('P24', rule='one evaluation is one operation on one of four proxy handles of a process, after which all four are compared with their models '
           '(relaying, refusals, permissions, log, reports); distinct by history and the states of all handles')
ck.min_eval = 100
main(ck, body)
