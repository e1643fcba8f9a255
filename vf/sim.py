"""Simulated world around the real proxy: the process hosting it, EchoLink
clients, remote EchoLink nodes and the registration server."""
import errno
import hashlib
import json
import os
import random
import re
import selectors
import signal
import socket
import struct
import subprocess
import tempfile
import threading
import time

from .core import Violation, Inconclusive

TCP_OPEN, TCP_DATA, TCP_CLOSE, TCP_STATUS, UDP_DATA, UDP_CONTROL, SYSTEM = 1, 2, 3, 4, 5, 6, 7
WAIT = 20.0          # a generous bound for anything that takes milliseconds


def ip(a):
    return socket.inet_aton(a)


def msg(t, addr=b'\0\0\0\0', payload=b'', size=None):
    if isinstance(addr, str):
        addr = ip(addr)
    return struct.pack('<B4sI', t, addr, len(payload) if size is None else size) + payload


def answer(nonce, password):
    if isinstance(nonce, str):
        nonce = nonce.encode()
    if isinstance(password, str):
        password = password.encode('latin1')
    up = bytes(c - 32 if 97 <= c <= 122 else c for c in password)
    return hashlib.md5(up + nonce).digest()


def bind(s, addr):
    """Binds; a process being started may briefly hold a copy of a socket just closed."""
    end = time.monotonic() + 10
    while True:
        try:
            return s.bind(addr)
        except OSError as e:
            if e.errno != errno.EADDRINUSE or time.monotonic() > end:
                raise
        time.sleep(0.01)


# -- one reactor thread does all the reading --------------------------------
class Reactor(threading.Thread):
    def __init__(self):
        threading.Thread.__init__(self, daemon=True)
        self.sel = selectors.DefaultSelector()
        self.cv = threading.Condition()
        self.r, self.w = os.pipe()
        os.set_blocking(self.r, False)
        self.sel.register(self.r, selectors.EVENT_READ, None)
        self.ops = []
        self.start()

    def post(self, op, sock, cb=None):
        done = threading.Event()
        with self.cv:
            self.ops.append((op, sock, cb, done))
        os.write(self.w, b'x')
        if threading.current_thread() is not self:
            done.wait(10)

    def add(self, sock, cb):
        self.post('add', sock, cb)

    def remove(self, sock):
        self.post('del', sock)

    def run(self):
        while True:
            try:
                evs = self.sel.select(1.0)
            except OSError:
                continue
            with self.cv:
                ops, self.ops = self.ops, []
            for op, sock, cb, done in ops:
                try:
                    if op == 'add':
                        self.sel.register(sock, selectors.EVENT_READ, cb)
                    else:
                        self.sel.unregister(sock)
                except (KeyError, ValueError, OSError):
                    pass
                done.set()
            for k, _ in evs:
                if k.data is None:
                    try:
                        os.read(self.r, 65536)
                    except OSError:
                        pass
                    continue
                try:
                    k.data()
                except Exception:
                    import traceback
                    traceback.print_exc()
                    try:
                        self.sel.unregister(k.fileobj)
                    except (KeyError, ValueError):
                        pass

    def notify(self):
        with self.cv:
            self.cv.notify_all()

    def wait(self, pred, timeout=WAIT):
        end = time.monotonic() + timeout
        with self.cv:
            while True:
                v = pred()
                if v:
                    return v
                left = end - time.monotonic()
                if left <= 0:
                    return pred()
                self.cv.wait(min(left, 0.25))


_reactor = None


def reactor():
    global _reactor
    if _reactor is None:
        _reactor = Reactor()
    return _reactor


def wait(pred, timeout=WAIT):
    return reactor().wait(pred, timeout)


def poll(pred, timeout=WAIT, step=0.01):
    end = time.monotonic() + timeout
    while True:
        v = pred()
        if v:
            return v
        if time.monotonic() > end:
            return v
        time.sleep(step)


# -- addresses ----------------------------------------------------------------
class Net:
    """A private /24 of the loopback network, leased for the life of the check."""

    def __init__(self):
        for _ in range(500):
            a, b = random.SystemRandom().randint(16, 250), random.SystemRandom().randint(1, 250)
            s = socket.socket()
            try:
                s.bind(('127.%d.%d.254' % (a, b), 1023))
                self.base = '127.%d.%d.' % (a, b)
                self.lease = s
                return
            except OSError:
                s.close()
        raise RuntimeError('no loopback range')

    def __call__(self, n):
        return self.base + str(n)

    proxy = property(lambda self: self(1))

    def ext(self, i):
        return self(10 + i)

    def node(self, i):
        return self(100 + i)

    registrar = property(lambda self: self(200))


# -- the process under observation ----------------------------------------------
SAN_RE = re.compile(r'(ERROR: (?:Address|Leak|Undefined\w*|Thread)Sanitizer[^\n]*|runtime error:[^\n]*|'
                    r'AddressSanitizer:DEADLYSIGNAL|WARNING: ThreadSanitizer[^\n]*)')


def san_reports(text):
    """Sanitizer report blocks with a stable key each."""
    out = []
    lines = text.split('\n')
    for i, ln in enumerate(lines):
        m = re.search(r'(ERROR: (Address|Leak)Sanitizer: ([\w-]+)|WARNING: (?:Thread|Memory)Sanitizer: ([^(\n]+)|runtime error: (.*))', ln)
        if not m:
            continue
        kind = (m.group(3) or m.group(4) or m.group(5) or '').strip()
        kind = re.sub(r'0x[0-9a-f]+|\d+', 'N', kind)[:80]
        frames = []
        for l2 in lines[i:i + 60]:
            fm = re.match(r'\s*#\d+ (?:0x[0-9a-f]+ in )?(\w+) (?:.*/)?(src|harness)/(\w+\.c)', l2)
            fm = fm or re.match(r'\s*#\d+ (?:0x[0-9a-f]+ in )?(\w+) .*?/(src)/(\w+\.c)', l2)
            if fm and len(frames) < 4:
                frames.append('%s:%s' % (fm.group(3), fm.group(1)))
            if l2.startswith('SUMMARY'):
                break
        out.append((kind + '@' + '/'.join(frames[:2]), '\n'.join(lines[i:i + 45])))
    return out


class HostDied(Violation):
    pass


class Proc:
    """Common to the library host and the daemon."""

    def _san_env(self, extra):
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:halt_on_error=1:detect_stack_use_after_return=1'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
        env['MSAN_OPTIONS'] = 'exitcode=99:print_stats=0'
        env['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0'
        env['TZ'] = 'UTC'
        env.update(extra or {})
        return env

    def err_text(self):
        try:
            with open(self.errpath, 'rb') as fp:
                return fp.read().decode('latin1')
        except OSError:
            return ''

    def out_text(self):
        try:
            with open(self.outpath, 'rb') as fp:
                return fp.read().decode('latin1')
        except OSError:
            return ''

    def san(self):
        return san_reports(self.err_text())

    def died(self, what):
        rc = self.p.poll()
        rep = self.san()
        if rep:
            return HostDied('sanitizer:' + rep[0][0], '%s: process died (status %s)\n%s' % (what, rc, rep[0][1]),
                            witness=rep[0][1])
        if rc is not None and rc < 0:
            return HostDied('crash:signal%d' % -rc, '%s: process killed by signal %d; stderr tail: %s' % (
                what, -rc, self.err_text()[-1500:]))
        return HostDied('exit:%s' % rc, '%s: process exited unexpectedly (%s); stderr tail: %s' % (
            what, rc, self.err_text()[-1500:]))

    def _activity(self):
        """None while some thread is runnable, else the context switches so far."""
        tot = []
        base = '/proc/%d/task' % self.p.pid
        try:
            for t in sorted(os.listdir(base)):
                with open('%s/%s/stat' % (base, t)) as fp:
                    if fp.read().rsplit(')', 1)[1].split()[0] in 'RD':
                        return None
                with open('%s/%s/status' % (base, t)) as fp:
                    tot.append((t, tuple(re.findall(r'ctxt_switches:\s*(\d+)', fp.read()))))
        except OSError:
            return None
        return tot

    def quiesce(self, timeout=WAIT, window=0.004):
        """Waits until every thread of the process sleeps and none has run for a while."""
        end = time.monotonic() + timeout
        last, same = None, 0
        while time.monotonic() < end:
            a = self._activity()
            if a is not None and a == last:
                same += 1
                if same >= 3:
                    return True
            else:
                last, same = a, 0
            time.sleep(window)
        return False

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        try:
            self.p.wait(30)
        except subprocess.TimeoutExpired:
            pass


class Host(Proc):
    def __init__(self, exe, env=None, vf=None):
        self.dir = tempfile.mkdtemp(prefix='vfhost')
        self.outpath, self.errpath = self.dir + '/out', self.dir + '/err'
        r, w = os.pipe()
        e = self._san_env(env)
        e['VF_OUTFD'] = str(w)
        if vf:
            e['VF_WRAP'] = ','.join('%s=%s' % kv for kv in vf.items())
        with open(self.outpath, 'wb') as o, open(self.errpath, 'wb') as er:
            self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=o, stderr=er,
                                      pass_fds=(w,), env=e, cwd=self.dir)
        os.close(w)
        self.rfd = r
        self.replies, self.events = {}, []
        self.cv = threading.Condition()
        self.eof = False
        self.seq = 0
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()

    def _read(self):
        buf = b''
        while True:
            try:
                d = os.read(self.rfd, 65536)
            except OSError:
                d = b''
            if not d:
                break
            buf += d
            while b'\n' in buf:
                ln, buf = buf.split(b'\n', 1)
                try:
                    o = json.loads(ln.decode('latin1'))
                except ValueError:
                    continue
                with self.cv:
                    if 'ev' in o:
                        self.events.append(o)
                    else:
                        self.replies[o.get('id')] = o
                    self.cv.notify_all()
        with self.cv:
            self.eof = True
            self.cv.notify_all()
        os.close(self.rfd)

    def alive(self):
        return self.p.poll() is None and not self.eof

    def send(self, cmd, bg=False):
        self.seq += 1
        i = 'c%d' % self.seq
        try:
            self.p.stdin.write(('%s%s %s\n' % ('&' if bg else '', i, cmd)).encode('latin1'))
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self.p.wait(30)
            raise self.died('command ' + cmd)
        return i

    def reply(self, i, what='', timeout=60.0):
        end = time.monotonic() + timeout
        with self.cv:
            while i not in self.replies:
                if self.eof:
                    break
                left = end - time.monotonic()
                if left <= 0:
                    break
                self.cv.wait(min(left, 0.5))
            if i in self.replies:
                return self.replies.pop(i)
        if self.eof:
            try:
                self.p.wait(30)
            except subprocess.TimeoutExpired:
                pass
            raise self.died(what)
        raise Violation('hang:' + what.split()[0].lstrip('0123456789:'), "'%s' did not return within %.0fs\n%s" % (what, timeout, self.stacks()),
                        kind='progress')

    def stacks(self):
        try:
            o = subprocess.run(['gdb', '-p', str(self.p.pid), '-batch', '-ex', 'thread apply all bt 12'],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=40).stdout.decode('latin1')
            out = []
            for th in re.split(r'\n(?=Thread )', o):
                ls = th.split('\n')
                keep = [l for l in ls if l.startswith('#') and '/src/' in l]
                if keep and not (len(keep) == 2 and 'condvar_wait' in keep[0] and 'worker_func' in keep[1]):
                    out += [ls[0]] + keep
            return '\n'.join(out)[:3500]
        except Exception:
            return '(no stacks)'

    def cmd(self, c, timeout=60.0):
        return self.reply(self.send(c), c, timeout)

    def ret(self, c, timeout=60.0):
        return self.cmd(c, timeout).get('ret')

    def bg(self, c):
        return self.send(c, True)

    def setf(self, k, v, h=''):
        if v is None:
            return self.cmd('%sset %s' % (h, k))
        if isinstance(v, str):
            v = v.encode('latin1')
        return self.cmd('%sset %s %s' % (h, k, v.hex() or '-'))

    def must(self, c, timeout=60.0, want=0):
        r = self.ret(c, timeout)
        if r != want:
            raise Violation('unexpected-return:' + c.split()[0], "'%s' returned %s instead of %s\n%s" % (
                c, r, want, self.out_text()[-800:] + self.err_text()[-800:]), kind='progress')
        return r

    def event(self, pred, timeout=WAIT):
        end = time.monotonic() + timeout
        with self.cv:
            while True:
                for e in self.events:
                    if pred(e):
                        return e
                left = end - time.monotonic()
                if left <= 0 or self.eof:
                    return None
                self.cv.wait(min(left, 0.5))

    def stats(self):
        return self.cmd('stats')

    def end(self, check_exit=True):
        """Ends the process; a sanitizer report or abnormal end is a violation."""
        rc = None
        if self.p.poll() is None and not self.eof:
            try:
                self.send('exit 0')
                rc = self.p.wait(60)
            except subprocess.TimeoutExpired:
                self.kill()
                raise Violation('hang:exit', 'process did not exit', kind='progress')
            except HostDied:
                pass
        rc = self.p.wait(60)
        try:
            if check_exit and (rc not in (0, 66) or [r for r in self.san() if not r[0].startswith('data race')]):
                raise self.died('at exit')
        finally:
            self.cleanup()

    def cleanup(self):
        self.kill()
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.t.join(5)
        if not os.path.isdir(self.dir):
            return
        for f in os.listdir(self.dir):
            try:
                os.unlink(os.path.join(self.dir, f))
            except OSError:
                pass
        try:
            os.rmdir(self.dir)
        except OSError:
            pass

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.end()
        else:
            self.cleanup()
        return False


class Proxy(Host):
    """A host with a configured, opened, started and serving proxy."""

    def __init__(self, exe, net, slots=1, password='TESTPASS', allowed=None, denied=None, vf=None,
                 env=None, reg=None, port=8100, up=True, loglevel=4):
        Host.__init__(self, exe, env=env, vf=vf)
        self.net, self.slots, self.password, self.port = net, slots, password, port
        self.allowed, self.denied, self.reg = allowed, denied, reg or {}
        self.nserve = 0
        try:
            self.must('init')
            self.cmd('logmedium 2 %s/proxy.log' % self.dir)
            self.cmd('loglevel %d' % loglevel)
            self.configure()
            if up:
                self.up()
        except BaseException:
            self.cleanup()
            raise

    def configure(self):
        self.setf('password', self.password)
        self.setf('bind_addr', self.net.proxy)
        self.cmd('set port %d' % self.port)
        self.setf('bind_addr_ext', self.net.ext(0))
        self.cmd('set ext_add ' + ','.join(self.net.ext(i) for i in range(1, self.slots)))
        self.setf('calls_allowed', self.allowed)
        self.setf('calls_denied', self.denied)
        for k in ('reg_name', 'reg_comment', 'public_addr'):
            if k in self.reg:
                self.setf(k, self.reg[k])

    def up(self):
        self.must('open')
        self.must('start')
        self.serve()

    def serve(self):
        self.nserve += 1
        self.cmd('serve %d' % self.nserve)

    def serve_ended(self, timeout=WAIT):
        n = self.nserve
        return self.event(lambda e: e.get('ev') == 'serve_end' and e.get('tag') == n, timeout)

    def log_text(self):
        try:
            with open(self.dir + '/proxy.log', 'rb') as fp:
                return fp.read().decode('latin1')
        except OSError:
            return ''

    def down(self, timeout=60.0):
        self.cmd('close', timeout)
        self.serve_ended()

    def client(self, **kw):
        return Client(self.net.proxy, self.port, host=self, **kw)

    def login(self, call='N0CALL', password=None, tries=1, **kw):
        """A client admitted with right credentials; None if it was turned away."""
        for _ in range(tries):
            c = self.client(**kw)
            n = c.nonce()
            if n is None:
                c.close()
                time.sleep(0.05)
                continue
            c.greet(call, self.password if password is None else password)
            return c
        return None

    def session(self, call='N0CALL', timeout=WAIT, **kw):
        """As login, waiting until a slot is free."""
        end = time.monotonic() + timeout
        while True:
            c = self.login(call, **kw)
            if c is not None:
                return c
            if not self.alive():
                self.p.wait(30)
                raise self.died('waiting for a session')
            if time.monotonic() > end:
                raise Violation('no-service', 'no session for %s within %.0fs\n%s\n%s' % (
                    call, timeout, self.log_text()[-1500:], self.stacks()), kind='progress')
            time.sleep(0.02)


# -- the daemon ----------------------------------------------------------------------
def adopt():
    """Makes this process the parent of daemonised grandchildren."""
    import ctypes
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)      # PR_SET_CHILD_SUBREAPER


def my_children():
    out = []
    me = os.getpid()
    for n in os.listdir('/proc'):
        if n.isdigit():
            try:
                with open('/proc/%s/stat' % n) as fp:
                    st = fp.read().rsplit(')', 1)[1].split()
                if int(st[1]) == me:
                    out.append(int(n))
            except (OSError, ValueError, IndexError):
                pass
    return out


class Child:
    """A process which is this one's by adoption; like a Popen."""

    def __init__(self, pid):
        self.pid, self.returncode = pid, None

    def poll(self):
        if self.returncode is None:
            try:
                p, st = os.waitpid(self.pid, os.WNOHANG)
            except ChildProcessError:
                self.returncode = -255
                return self.returncode
            if p:
                self.returncode = os.waitstatus_to_exitcode(st)
        return self.returncode

    def wait(self, timeout=None):
        end = time.monotonic() + (timeout if timeout is not None else 1e9)
        while self.poll() is None:
            if time.monotonic() > end:
                raise subprocess.TimeoutExpired('daemon', timeout)
            time.sleep(0.01)
        return self.returncode

    def send_signal(self, s):
        if self.poll() is None:
            os.kill(self.pid, s)

    def kill(self):
        self.send_signal(signal.SIGKILL)


class Daemon(Proc):
    """openelpd itself.  p is the process started, later the daemon."""

    def __init__(self, exe, args, vf=None, shut=(), env=None):
        self.dir = tempfile.mkdtemp(prefix='vfd')
        self.outpath, self.errpath = self.dir + '/out', self.dir + '/err'
        self.fault = self.dir + '/fault'
        e = self._san_env({'VF_WRAP': ','.join('%s=%s' % kv for kv in (vf or {}).items()), 'VF_FAULT_OUT': self.fault})
        e['ASAN_OPTIONS'] = e['ASAN_OPTIONS'].replace('detect_leaks=0', 'detect_leaks=1') + ':log_path=' + self.dir + '/san'
        e['UBSAN_OPTIONS'] += ':log_path=' + self.dir + '/san'
        e['TSAN_OPTIONS'] += ':log_path=' + self.dir + '/san'
        e.update(env or {})
        cmd = [exe] + args
        if shut:
            cmd = ['/bin/sh', '-c', 'exec "$0" "$@" ' + ' '.join('%d%s&-' % (fd, '<' if fd == 0 else '>') for fd in shut)] + cmd
        with open(self.outpath, 'wb') as o, open(self.errpath, 'wb') as er:
            self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=o, stderr=er, env=e, cwd=self.dir, start_new_session=True)
        self.group = self.p.pid

    def adopted(self, mark):
        """The process left behind by a starter which has exited, told by its command line."""
        for pid in my_children():
            try:
                with open('/proc/%d/cmdline' % pid, 'rb') as fp:
                    if mark.encode() in fp.read().split(b'\0'):
                        return pid
            except OSError:
                pass
        return None

    def text(self):
        return self.out_text() + self.err_text()

    def san_text(self):
        t = self.err_text()
        for f in sorted(os.listdir(self.dir)):
            if f.startswith('san.'):
                with open(os.path.join(self.dir, f), 'rb') as fp:
                    t += fp.read().decode('latin1')
        return t

    def san(self):
        return san_reports(self.san_text())

    def cleanup(self):
        self.kill()
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))
        os.rmdir(self.dir)


# -- an EchoLink client -------------------------------------------------------------
class Client:
    def __init__(self, addr, port=8100, host=None, rcvbuf=None, src=None, nowait=False, timeout=WAIT):
        self.host = host
        self.s = socket.socket(socket.AF_INET6 if ':' in addr else socket.AF_INET)
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        if src:
            self.s.bind((src, 0))
        self.s.settimeout(timeout)
        self.raw = bytearray()
        self.eof = None            # None: open, 'eof' or an errno name
        self.parsed = 0
        self.msgs = []
        self.malformed = None
        self.greeted = False
        self.paused = False
        self.closed = False
        self.lock = threading.Lock()
        try:
            self.s.connect((addr, port))
        except OSError as e:
            self.eof = 'connect:%s' % e
            self.closed = True
            self.s.close()
            return
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.local = self.s.getsockname()
        reactor().add(self.s, self._readable)

    def _readable(self):
        try:
            d = self.s.recv(65536, socket.MSG_DONTWAIT)
        except (BlockingIOError, socket.timeout):
            return
        except OSError as e:
            d = None
            why = errno.errorcode.get(e.errno, str(e))
        with self.lock:
            if d is None or not d:
                self.eof = 'eof' if d is not None else why
                try:
                    reactor().sel.unregister(self.s)
                except (KeyError, ValueError):
                    pass
            else:
                self.raw += d
                self._parse()
        reactor().notify()

    def _parse(self):
        if not self.greeted:
            return
        while self.malformed is None:
            b = self.raw
            if len(b) - self.parsed < 9:
                return
            t, a, n = struct.unpack_from('<B4sI', b, self.parsed)
            if self.bad_header(t, n):
                self.malformed = 'offset %d: type %d size %d' % (self.parsed, t, n)
                return
            if len(b) - self.parsed < 9 + n:
                return
            self.msgs.append((t, socket.inet_ntoa(a), bytes(b[self.parsed + 9:self.parsed + 9 + n])))
            self.parsed += 9 + n

    @staticmethod
    def bad_header(t, n):
        if t == TCP_DATA:
            return not 1 <= n <= 65536
        if t == TCP_CLOSE:
            return n != 0
        if t == TCP_STATUS:
            return n != 4
        if t in (UDP_DATA, UDP_CONTROL):
            return not 1 <= n <= 65536
        if t == SYSTEM:
            return False
        return True

    def pause(self):
        if not self.paused:
            self.paused = True
            reactor().remove(self.s)

    def resume(self):
        if self.paused:
            self.paused = False
            reactor().add(self.s, self._readable)

    def nonce(self, timeout=WAIT):
        """The 8-byte challenge, or None if the proxy closed the connection."""
        wait(lambda: len(self.raw) >= 8 or self.eof, timeout)
        if len(self.raw) >= 8:
            return bytes(self.raw[:8])
        if self.eof:
            return None
        if self.host is not None and not self.host.alive():
            self.host.p.wait(30)
            raise self.host.died('waiting for a challenge')
        raise Violation('no-challenge', 'connection neither challenged nor closed within %.0fs%s' % (
            timeout, '\n' + self.host.stacks() if self.host else ''), kind='progress')

    def greet(self, call, password=None, resp=None, pieces=None, extra=b'', rng=None):
        if isinstance(call, str):
            call = call.encode('latin1')
        n = self.nonce()
        if resp is None:
            resp = answer(n, password)
        data = call + b'\n' + resp + extra
        with self.lock:
            self.greeted = True
            self.parsed = 8
            self._parse()
        self.send(data, pieces, rng)

    def send(self, data, pieces=None, rng=None):
        """False if the proxy has closed the connection."""
        try:
            if not pieces:
                self.s.sendall(data)
            else:
                r = rng or random
                cuts = sorted(r.sample(range(1, len(data)), min(pieces - 1, len(data) - 1)))
                for a, b in zip([0] + cuts, cuts + [len(data)]):
                    self.s.sendall(data[a:b])
                    if r.random() < 0.5:
                        time.sleep(0.0005)
            return True
        except socket.timeout:
            raise Violation('stalled-client-send', 'the proxy stopped reading from its client%s' % (
                '\n' + self.host.stacks() if self.host else ''), kind='progress')
        except OSError:
            return False

    def wait_msgs(self, pred, what, timeout=WAIT):
        """Waits until pred(list of messages) holds."""
        wait(lambda: pred(self.msgs) or self.eof or self.malformed, timeout)
        if self.malformed:
            raise Violation('malformed-stream', 'client stream is not a sequence of messages: %s; bytes %s' % (
                self.malformed, bytes(self.raw[self.parsed:self.parsed + 40]).hex()))
        if pred(self.msgs):
            return True
        if self.host is not None and not self.host.alive():
            self.host.p.wait(30)
            raise self.host.died('waiting for ' + what)
        return False

    def wait_eof(self, timeout=WAIT):
        wait(lambda: self.eof, timeout)
        return self.eof

    def rest(self):
        return bytes(self.raw[8:])

    def close(self, rst=False):
        if self.closed:
            return
        self.closed = True
        if rst:
            try:
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            except OSError:
                pass
        reactor().remove(self.s)
        self.s.close()


# -- a remote EchoLink node ----------------------------------------------------------
class NodeConn:
    def __init__(self, node, s, peer):
        self.node, self.s, self.peer = node, s, peer
        self.data = bytearray()
        self.eof = None
        self.closed = False
        self.paused = False
        s.settimeout(WAIT)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)

    def _readable(self):
        try:
            d = self.s.recv(262144, socket.MSG_DONTWAIT)
        except (BlockingIOError, socket.timeout):
            return
        except OSError as e:
            d = None
            why = errno.errorcode.get(e.errno, str(e))
        if d is None or not d:
            self.eof = 'eof' if d is not None else why
            try:
                reactor().sel.unregister(self.s)
            except (KeyError, ValueError):
                pass
        else:
            self.data += d
        reactor().notify()

    def send(self, data):
        try:
            self.s.sendall(data)
            return True
        except socket.timeout:
            raise Violation('stalled-node-send', 'the proxy stopped reading from the remote host', kind='progress')
        except OSError:
            return False

    def pause(self):
        self.paused = True
        reactor().remove(self.s)

    def resume(self):
        self.paused = False
        reactor().add(self.s, self._readable)

    def half_close(self):
        try:
            self.s.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def close(self, rst=False):
        if self.closed:
            return
        self.closed = True
        if rst:
            try:
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            except OSError:
                pass
        reactor().remove(self.s)
        self.s.close()


class Node:
    def __init__(self, addr, tcp=True, udp=True, backlog=256, accept=True, rcvbuf=None):
        self.addr = addr
        self.dgrams = []          # (port, src_ip, src_port, payload)
        self.conns = []
        self.udp = {}
        self.ls = None
        self.rcvbuf = rcvbuf
        self.on_accept = None
        if udp:
            for port in (5198, 5199):
                s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20)
                bind(s, (addr, port))
                self.udp[port] = s
                reactor().add(s, lambda s=s, port=port: self._dgram(s, port))
        if tcp:
            self.listen(backlog, accept)

    def listen(self, backlog=256, accept=True):
        self.ls = socket.socket()
        self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if self.rcvbuf:
            self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, self.rcvbuf)
        bind(self.ls, (self.addr, 5200))
        self.ls.listen(backlog)
        if accept:
            reactor().add(self.ls, self._accept)

    def unlisten(self):
        if self.ls is not None:
            reactor().remove(self.ls)
            self.ls.close()
            self.ls = None

    def _dgram(self, s, port):
        for _ in range(200):
            try:
                d, (a, p) = s.recvfrom(65536, socket.MSG_DONTWAIT)
            except (BlockingIOError, OSError):
                break
            self.dgrams.append((port, a, p, d))
        reactor().notify()

    def _accept(self):
        try:
            s, peer = self.ls.accept()
        except OSError:
            return
        c = NodeConn(self, s, peer)
        self.conns.append(c)
        if self.on_accept is not None:
            self.on_accept(c)
        if not c.closed:
            reactor().sel.register(s, selectors.EVENT_READ, c._readable)
        reactor().notify()

    def sendto(self, port, data, dest):
        self.udp[port].sendto(data, (dest, port))

    def close(self):
        self.unlisten()
        for s in self.udp.values():
            reactor().remove(s)
            s.close()
        self.udp = {}
        for c in self.conns:
            c.close()


def blackhole(addr, port):
    """A listener whose queue is full: connecting to it takes forever.  Returns what keeps it so."""
    plugs = []
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    bind(s, (addr, port))
    s.listen(0)
    plugs.append(s)
    for _ in range(3):
        q = socket.socket()
        q.setblocking(False)
        q.connect_ex((addr, port))
        plugs.append(q)
    time.sleep(0.02)
    return plugs


# -- the registration server -----------------------------------------------------------
class Registrar:
    """Stand-in for the registration web server.  mode: ok | http500 | silent | close | slow | garbage"""

    def __init__(self, addr, mode='ok', port=80):
        self.addr, self.mode = addr, mode
        self.reports = []           # parsed bodies
        self.raw = []
        self.bad = []
        self.conns = []
        self.active = 0
        self.linger = 0.05
        self.s = None
        self.lock = threading.Lock()
        self.stopped = False
        if mode != 'refuse':
            self.listen(port)

    def listen(self, port=80):
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind((self.addr, port))
        self.s.listen(64)
        threading.Thread(target=self._loop, args=(self.s,), daemon=True).start()

    def _loop(self, s):
        while not self.stopped:
            try:
                c, _ = s.accept()
            except OSError:
                return
            self.conns.append(c)
            with self.lock:
                self.active += 1
            threading.Thread(target=self._one, args=(c,), daemon=True).start()

    def _one(self, c):
        c.settimeout(120)
        buf = b''
        try:
            while b'\r\n\r\n' not in buf:
                d = c.recv(4096)
                if not d:
                    break
                buf += d
            if b'\r\n\r\n' in buf:
                head, body = buf.split(b'\r\n\r\n', 1)
                m = re.search(rb'^Content-Length: (\d+)\r?$', head, re.M)
                if not m:
                    with self.lock:
                        self.bad.append('no content length: %r' % head)
                    c.close()
                    return
                n = int(m.group(1))
                while len(body) < n:
                    d = c.recv(4096)
                    if not d:
                        break
                    body += d
                # anything after the body would be a wrong length
                c.settimeout(self.linger if self.mode == 'ok' else 0.2)
                try:
                    more = c.recv(4096)
                    body += more
                except (socket.timeout, OSError):
                    pass
                c.settimeout(120)
                with self.lock:
                    self.raw.append((head, body, n))
                    self.reports.append(self._parse(head, body, n))
                reactor().notify()
                mode = self.mode
                if mode == 'ok':
                    c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n')
                elif mode == 'slow':
                    for ch in b'HTTP/1.1 200 OK\r\n\r\n':
                        c.sendall(bytes([ch]))
                        time.sleep(0.01)
                elif mode == 'http500':
                    c.sendall(b'HTTP/1.1 500 Internal Server Error\r\n\r\n')
                elif mode == 'garbage':
                    c.sendall(b'\x00\xff' * 300)
                elif mode == 'short':
                    c.sendall(b'HTTP')
                elif mode == 'silent':
                    try:
                        c.recv(10)
                    except OSError:
                        pass
            else:
                with self.lock:
                    if buf:
                        self.bad.append('incomplete request %r' % buf[:300])
        except OSError:
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass
            with self.lock:
                self.active -= 1

    def unlisten(self):
        if self.s is not None:
            try:
                self.s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            self.s.close()
            self.s = None

    def _parse(self, head, body, n):
        lines = head.split(b'\r\n')
        if not lines[0].startswith(b'POST /proxypost.jsp HTTP/1.1'):
            self.bad.append('request line %r' % lines[0])
        if len(body) != n:
            self.bad.append('Content-Length %d but %d body bytes: %r' % (n, len(body), body[:300]))
        return body

    def close(self):
        self.stopped = True
        if self.s is not None:
            try:
                self.s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            self.s.close()
        for c in self.conns:
            try:
                c.close()
            except OSError:
                pass
