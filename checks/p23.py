"""P23: the bundled proxy client authenticates and reports failures correctly."""
import socket
import struct
import threading
import time
from vf.core import Check, main, Violation
from vf.build import build
from vf.unit import Unit
from vf.sim import Net, Host, Proxy, answer, poll, WAIT

CHARS = [chr(c) for c in range(32, 127)]


class Server:
    """A scripted proxy: answers one connection at a time, records all it receives."""

    def __init__(self, addr):
        self.addr = addr
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind((addr, 0))
        self.l.listen(16)
        self.port = self.l.getsockname()[1]

    def expect(self, mode, nonce, rcvbuf=None):
        self.got, self.eof, self.rst, self.conn = b'', False, False, None
        self.seen, self.stop = threading.Event(), False
        self.t = threading.Thread(target=self.run, args=(mode, nonce), daemon=True)
        self.t.start()

    def run(self, mode, nonce):
        self.l.settimeout(0.05)
        c = None
        while c is None:
            try:
                c, _ = self.l.accept()
            except socket.timeout:
                if self.stop:
                    return
        self.conn = c
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        k, arg = mode
        try:
            if k == 'full':
                c.sendall(nonce)
            elif k == 'extra':
                c.sendall(nonce + arg)
            elif k == 'pieces':
                i = 0
                for n in arg:
                    c.sendall(nonce[i:i + n])
                    i += n
                    time.sleep(0.003)
                if i < 8:
                    c.sendall(nonce[i:])
            elif k == 'partial':
                c.sendall(nonce[:arg])
                time.sleep(0.002)
                c.close()
                self.seen.set()
                return
            elif k == 'half':
                c.sendall(nonce[:arg])
                c.shutdown(socket.SHUT_WR)
            elif k == 'rst':
                c.sendall(nonce[:arg])
                time.sleep(0.002)
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                c.close()
                self.seen.set()
                return
            elif k == 'silent':
                c.sendall(nonce[:arg])
            self.seen.set()
            c.settimeout(0.05)
            while True:
                try:
                    d = c.recv(65536)
                except socket.timeout:
                    if self.stop:
                        return
                    continue
                except OSError:
                    self.rst = True
                    return
                if not d:
                    self.eof = True
                    return
                self.got += d
        except OSError:
            self.seen.set()

    def finish(self):
        self.stop = True
        self.t.join(30)
        if self.conn is not None:
            self.conn.close()

    def close(self):
        self.l.close()


class Cli:
    def __init__(self, exe, vf=None, env=None):
        e = dict(env or {})
        if vf:
            e['VF_WRAP'] = ','.join('%s=%s' % kv for kv in vf.items())
        self.u = Unit(exe, env=e)
        self.base = self.ints('fds')[0]

    def raw(self, cmd):
        r = self.u.ask(cmd)
        if r == 'hang':
            raise Violation('hang:' + cmd.split()[0], '%r did not return within 45 s' % cmd, kind='progress')
        return r

    def ints(self, cmd):
        return [int(x) for x in self.raw(cmd).split()]

    def set(self, i, k, v):
        if v is None:
            h = 'NULL'
        else:
            h = v.encode('latin1').hex() or '-'
        self.raw('set %d %s %s' % (i, k, h))

    def conf(self, i, srv, call, pw, port=None):
        self.set(i, 'host', srv.addr)
        self.set(i, 'port', str(port or srv.port))
        self.set(i, 'call', call)
        self.set(i, 'pw', pw)


def want(call, pw, nonce):
    return (call or '').encode('latin1') + b'\n' + answer(nonce, 'PUBLIC' if pw is None else pw)


def check(cond, key, text, kind='safety'):
    if not cond:
        raise Violation(key, text, kind=kind)


def judge_ok(ck, c, i, srv, mode, nonce, call, pw, what, extra_fds=0):
    """One connect against a cooperating server, which has to succeed."""
    srv.expect(mode, nonce)
    ret, fds = c.ints('conn %d' % i)
    w = want(call, pw, nonce)
    check(ret == 0, 'refused', '%s: connecting returned %d although the server offered the challenge %r' % (what, ret, nonce), 'progress')
    check(poll(lambda: len(srv.got) >= len(w)), 'greeting', '%s: reported success but only %r of %r was sent' % (what, srv.got, w), 'progress')
    check(srv.got == w, 'greeting', '%s: sent %r instead of %r (challenge %r, callsign %r, password %r)' % (what, srv.got, w, nonce, call, pw))
    check(fds == c.base + 1 + extra_fds, 'descriptors', '%s: %d descriptors open after connecting, %d before' % (what, fds, c.base))
    ck.count(logins=1)
    return w


def judge_end(ck, c, i, srv, w, what):
    check(not srv.eof and not srv.rst, 'closed-early', '%s: the client closed the connection although it reported success' % what)
    ret, fds = c.ints('disc %d' % i)
    check(fds == c.base, 'descriptors', '%s: %d descriptors open after disconnecting, %d at first' % (what, fds, c.base))
    check(poll(lambda: srv.eof or srv.rst), 'not-closed', '%s: the server never saw the connection end' % what, 'progress')
    check(srv.got == w, 'greeting', '%s: %r was sent besides the greeting' % (what, srv.got[len(w):]))
    srv.finish()


def rnonce(r):
    return b'%08x' % r.choice([r.getrandbits(31), r.getrandbits(32), 0, 0xffffffff, 0x80000000, 0xa, r.getrandbits(8)])


def rcall(r):
    k = r.randrange(6)
    if k == 0:
        return None
    if k == 1:
        return ''
    if k == 2:
        return ''.join(chr(r.choice(list(range(1, 10)) + list(range(11, 256)))) for _ in range(r.randrange(1, 12)))
    if k == 3:
        return 'C' * r.choice([10, 11, 16, 100, 5000])
    return ''.join(r.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-') for _ in range(r.randrange(1, 11)))


def rpw(r):
    k = r.randrange(6)
    if k == 0:
        return None
    if k == 1:
        return ''
    if k == 2:
        return ''.join(chr(r.randrange(1, 256)) for _ in range(r.choice([1, 7, 8, 55, 56, 64, 120, 4000])))
    if k == 3:
        return r.choice(['public', 'PUBLIC', 'Public', 'a', 'z', '`', '{', 'azAZ[]{}@`', '\xe1\xfa'])
    return ''.join(r.choice(CHARS) for _ in range(r.randrange(1, 40)))


def rmode(r):
    k = r.randrange(4)
    if k == 0:
        return ('pieces', [1] * 8)
    if k == 1:
        return ('pieces', [r.randrange(1, 8)])
    if k == 2:
        return ('extra', bytes(r.randrange(256) for _ in range(r.randrange(1, 60))))
    return ('full', None)


FAILS = [('partial', n) for n in range(8)] + [('rst', n) for n in (0, 1, 7)] + [('half', n) for n in (0, 4, 7)]


def judge_fail(ck, c, i, srv, mode, nonce, what):
    srv.expect(mode, nonce)
    ret, fds = c.ints('conn %d' % i)
    check(ret < 0, 'false-success', '%s: connecting returned %d although the server sent only %d characters of the challenge (%s)' % (what, ret, mode[1], mode[0]))
    check(fds == c.base, 'descriptors', '%s: %d descriptors open after the failed attempt (%s %d), %d before' % (what, fds, mode[0], mode[1], c.base))
    check(poll(lambda: mode[0] != 'half' or srv.eof or srv.rst), 'not-closed', '%s: the connection stays open after the failed attempt' % what, 'progress')
    check(srv.got == b'', 'answered-nothing', '%s: sent %r without having a challenge' % (what, srv.got))
    srv.finish()
    ck.count(failed_attempts=1)


def logins(ck, exe, net, seed, n, vf):
    """Random callsigns, passwords, challenges and failures in one handle's life."""
    import random
    r = random.Random(seed)
    srv = Server(net(r.randrange(2, 9)))
    c = Cli(exe, vf)
    try:
        c.raw('init 0')
        for k in range(n):
            call, pw, nonce = rcall(r), rpw(r), rnonce(r)
            what = 'attempt %d (seed %d, %s)' % (k, seed, vf)
            port = None
            c.conf(0, srv, call, pw)
            x = r.randrange(10)
            if x == 0:
                # nobody listens
                s = socket.socket()
                s.bind((srv.addr, 0))
                c.set(0, 'port', str(s.getsockname()[1]))
                ret, fds = c.ints('conn 0')
                s.close()
                check(ret < 0, 'false-success', '%s: connecting to a closed port returned %d' % (what, ret))
                check(fds == c.base, 'descriptors', '%s: %d descriptors open after the refused attempt, %d before' % (what, fds, c.base))
                ck.count(failed_attempts=1)
                ck.case('refused %d' % k)
            elif x == 1:
                c.set(0, r.choice(['host', 'port']), r.choice(['no such name', '256.1.1.1', '99999x', '', 'x' * 300]))
                ret, fds = c.ints('conn 0')
                if ret == 0:
                    raise Violation('false-success', '%s: connecting to an unresolvable server returned 0' % what)
                check(fds == c.base, 'descriptors', '%s: %d descriptors open after the unresolvable attempt, %d before' % (what, fds, c.base))
                ck.count(failed_attempts=1)
                ck.case('unresolvable %d' % k)
            elif x in (2, 3, 4):
                m = r.choice(FAILS)
                judge_fail(ck, c, 0, srv, m, nonce, what)
                ck.case('fail %s %d %s' % (m[0], m[1], k))
            else:
                m = rmode(r)
                w = judge_ok(ck, c, 0, srv, m, nonce, call, pw, what)
                judge_end(ck, c, 0, srv, w, what)
                ck.case('ok %s %r %r %r' % (m[0], call, pw, nonce), sample='%s: challenge %r -> %r' % (m[0], nonce, w[:60]))
            if r.random() < 0.1:
                c.raw('disc 0')
            if r.random() < 0.08:
                f = c.ints('free 0')
                check(f == [0, c.base], 'descriptors', '%s: after freeing: %s' % (what, f))
                if r.random() < 0.5:
                    check(c.ints('free 0')[0] == 0, 'free', 'freeing twice')
                c.raw('forget 0')
                check(c.ints('init 0')[0] == 0, 'init', 'a freed handle can not be initialised again')
        c.raw('free 0')
        check(c.ints('leak')[0] == 0, 'leak', 'memory is leaked: %s' % c.u.err_text()[-1500:])
        c.u.close()
    finally:
        c.u.cleanup()
        srv.close()


def repeated(ck, exe, net, seed):
    """Connecting again and again, without disconnecting in between; several handles at once."""
    import random
    r = random.Random(seed)
    srv = [Server(net(20 + i)) for i in range(6)]
    c = Cli(exe)
    try:
        for i in range(3):
            c.raw('init %d' % i)
        open_ = {}
        for k in range(40):
            i = r.randrange(3)
            s = r.choice([x for x in srv if x not in open_.values()])
            call, pw, nonce = 'K%dA' % k, rpw(r), rnonce(r)
            c.conf(i, s, call, pw)
            m = r.choice([rmode(r), rmode(r), r.choice(FAILS)])
            s.expect(m, nonce)
            ret, fds = c.ints('conn %d' % i)
            old = open_.pop(i, None)
            what = 'connecting handle %d again (%d of a seed %d run)' % (i, k, seed)
            if m in FAILS:
                check(ret < 0, 'false-success', '%s: returned %d with a server which does not send its challenge (%s)' % (what, ret, m))
            alive = len(open_) + (1 if ret == 0 else 0)
            # when the second attempt is refused outright the first connection may stay
            lim = c.base + alive + (1 if ret < 0 and old is not None else 0)
            check(c.base + alive <= fds <= lim, 'descriptors', '%s: %d descriptors open, %d connections alive, %d descriptors at first' % (what, fds, alive, c.base))
            if ret == 0:
                w = want(call, pw, nonce)
                check(poll(lambda: len(s.got) >= len(w)), 'greeting', '%s: reported success but only %r was sent' % (what, s.got), 'progress')
                check(s.got == w, 'greeting', '%s: sent %r instead of %r' % (what, s.got, w))
                open_[i] = s
                ck.case('repeated %d %s' % (k, m[0]))
            else:
                s.finish()
                c.raw('disc %d' % i)
            if old is not None:
                if ret == 0:
                    check(poll(lambda: old.eof or old.rst), 'not-closed', '%s: the earlier connection is still open' % what, 'progress')
                old.finish()
            ck.count(repeated_connects=1)
        for i in range(3):
            c.raw('free %d' % i)
        check(c.ints('fds')[0] == c.base, 'descriptors', 'descriptors are left open after freeing all clients')
        for s in open_.values():
            check(poll(lambda: s.eof or s.rst), 'not-closed', 'a connection survived freeing its client', 'progress')
            s.finish()
        check(c.ints('leak')[0] == 0, 'leak', 'memory is leaked: %s' % c.u.err_text()[-1500:])
        c.u.close()
    finally:
        c.u.cleanup()
        for s in srv:
            s.close()


def faults(ck, exe, net, seed, vf):
    """Each single operation the client performs fails once; then it has to work."""
    import random
    r = random.Random(seed)
    srv = Server(net(30))
    c = Cli(exe, vf)
    hits = 0
    try:
        for at in range(1, 60):
            call, pw, nonce = 'W1AW', rpw(r), rnonce(r)
            c.conf(0, srv, call, pw)
            c.raw('vf fail_mask %d' % 0xfff)
            c.raw('vf fail_at %d' % at)
            c.raw('vf armed 1')
            srv.expect(('full', None), nonce)
            iret = c.ints('init 0')[0]
            ret, fds = (c.ints('conn 0') if iret == 0 else (-1, c.ints('fds')[0]))
            c.raw('vf armed 0')
            f = c.raw('fault').split()
            what = 'with %s (call %d) failing' % (f[1], at)
            if f[0] == '0':
                check(ret == 0, 'refused', 'connecting returned %d without a fault' % ret, 'progress')
            if ret == 0:
                w = want(call, pw, nonce)
                check(poll(lambda: len(srv.got) >= len(w), 5), 'false-success', '%s connecting returned 0, but only %r of %r was sent' % (what, srv.got, w), 'progress')
                check(srv.got == w, 'false-success', '%s connecting returned 0, but %r instead of %r was sent' % (what, srv.got, w))
                check(fds == c.base + 1, 'descriptors', '%s %d descriptors are open instead of %d' % (what, fds, c.base + 1))
                c.raw('disc 0')
            else:
                check(fds == c.base, 'descriptors', '%s %d descriptors are left open, %d before' % (what, fds, c.base))
            srv.finish()
            if iret == 0:
                # and without the fault
                call, nonce = 'N0CALL', rnonce(r)
                c.conf(0, srv, call, pw)
                w = judge_ok(ck, c, 0, srv, ('full', None), nonce, call, pw, 'after an attempt ' + what)
                judge_end(ck, c, 0, srv, w, 'after an attempt ' + what)
            c.raw('free 0')
            check(c.ints('fds')[0] == c.base, 'descriptors', '%s a descriptor is left open after freeing' % what)
            c.raw('forget 0')
            check(c.ints('leak')[0] == 0, 'leak', '%s memory is leaked: %s' % (what, c.u.err_text()[-1500:]))
            if f[0] == '0':
                break
            hits += 1
            ck.case('fault %s %d' % (f[1], at), sample='%s failing: connect returned %d' % (f[1], ret))
        check(hits >= 8, 'harness', 'only %d faults were injected' % hits)
        ck.count(faults=hits)
        c.u.close()
    finally:
        c.u.cleanup()
        srv.close()


def interrupted(ck, exe, net, seed):
    """Disconnecting a client that is waiting for a silent server."""
    import random
    r = random.Random(seed)
    srv = Server(net(31))
    c = Cli(exe)
    try:
        c.raw('init 0')
        for k in range(6):
            nonce = rnonce(r)
            c.conf(0, srv, 'W1AW', None)
            srv.expect(('silent', r.randrange(8)), nonce)
            c.raw('connbg 0')
            check(srv.seen.wait(WAIT), 'no-connection', 'the client does not connect', 'progress')
            res = None
            end = time.monotonic() + WAIT
            while time.monotonic() < end:
                c.raw('disc 0')
                res = c.raw('done 0')
                if res != 'wait':
                    break
                time.sleep(0.005)
            check(res != 'wait', 'hang:disconnect', 'disconnecting does not end an attempt waiting for the challenge', 'progress')
            ret, fds = [int(x) for x in res.split()]
            check(ret < 0 and fds == c.base, 'false-success', 'a disconnected attempt returned %d with %d descriptors open (%d at first)' % (ret, fds, c.base))
            srv.finish()
            w = judge_ok(ck, c, 0, srv, ('full', None), nonce, 'W1AW', None, 'after an interrupted attempt')
            judge_end(ck, c, 0, srv, w, 'after an interrupted attempt')
            ck.count(interrupted=1)
            ck.case('interrupted %d' % k)
        c.raw('free 0')
        check(c.ints('leak')[0] == 0, 'leak', 'memory is leaked')
        c.u.close()
    finally:
        c.u.cleanup()
        srv.close()


def against_proxy(ck, b, net, seed):
    """The library's client against the library's proxy."""
    import random
    r = random.Random(seed)
    pw = r.choice(['secret', 'PUBLIC', 'MiXeD c4se', '\xe1z'])
    p = Proxy(b.host, net, slots=1, password=pw)
    c = Cli(b.unit_client)
    try:
        c.raw('init 0')
        for good in (True, False, True, True):
            call = 'K%dX' % r.randrange(10)
            given = pw if good else pw + 'x'
            if good and pw == 'PUBLIC' and r.random() < 0.5:
                given = None
            elif good and r.random() < 0.5:
                given = ''.join(ch.upper() if r.random() < 0.5 and 'a' <= ch <= 'z' else ch for ch in pw)
            c.set(0, 'host', net.proxy)
            c.set(0, 'port', str(p.port))
            c.set(0, 'call', call)
            c.set(0, 'pw', given)

            # the single slot must be free again
            def connect():
                ret, _ = c.ints('conn 0')
                return ret == 0
            check(poll(connect), 'refused', 'the library client can not connect to the library proxy', 'progress')
            if good:
                def taken():
                    k = p.client()
                    n = k.nonce()
                    k.close()
                    return not n
                check(poll(lambda: 'Connected to client \'%s\'' % call in p.log_text() or 'Reconnected to client \'%s\'' % call in p.log_text()), 'not-admitted',
                      'the client with the right password was not admitted', 'progress')
                check(taken(), 'not-admitted', 'the slot is not in use although the client with the right password is connected')
                fds = c.ints('disc 0')[1]
                check(fds == c.base, 'descriptors', '%d descriptors open after disconnecting, %d at first' % (fds, c.base))

            def free():
                k = p.client()
                try:
                    return k.nonce()
                finally:
                    k.close()
            check(poll(free), 'slot-kept', 'the slot does not become free after %s' % ('disconnecting' if good else 'a wrong password'), 'progress')
            ck.count(proxy_sessions=1)
            ck.case('proxy %s %s' % (good, call))
        c.raw('free 0')
        c.u.close()
        p.down()
    finally:
        c.u.cleanup()
        p.end()


def body(ck):
    r = ck.rng
    b = build('asan')
    ms = build('msan')
    net = Net()
    for k in range(ck.n(2, 40)):
        for exe, vf in ((b.unit_client, {}), (b.unit_client, {'short_send': 800, 'short_recv': 800, 'short_max': 5}), (ms.unit_client, {'short_recv': 300, 'short_max': 3})):
            ck.run_case(logins, ck, exe, net, r.getrandbits(28), 40, dict(vf, seed=r.randrange(1, 9999)))
        ck.run_case(repeated, ck, b.unit_client, net, r.getrandbits(28))
        ck.run_case(faults, ck, b.unit_client, net, r.getrandbits(28), {'short_send': 900, 'short_max': 7, 'seed': 5} if k % 2 else {'seed': 1})
        ck.run_case(interrupted, ck, b.unit_client, net, r.getrandbits(28))
        ck.run_case(against_proxy, ck, b, net, r.getrandbits(28))


ck = Check('P23', rule='one evaluation is one connection attempt judged by the server\'s record of it; a distinct case is a distinct callsign, password and challenge, way of failing or failing call')
ck.min_eval = 100
main(ck, body)
