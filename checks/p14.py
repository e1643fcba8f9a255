"""P14: log messages reach exactly the selected target, whole and filtered by level."""
import re

from vf.core import Check, main, Violation
from vf.build import build
from vf.scen import *

NONE, STDOUT, FILE, SYSLOG, EVENTLOG = range(5)
STAMP = re.compile(rb'([A-Z][a-z]{2}) (\d\d) (\d\d):(\d\d):(\d\d) : ')
PRI = [2, 3, 4, 6, 7]
IDENT = re.compile(rb'OpenELP [\w.-]+\n')


def read(p):
    try:
        with open(p, 'rb') as fp:
            return fp.read()
    except OSError:
        return b''


def stamp_ok(m, t0, t1):
    """The stamp names a second between t0 and t1 (the process runs in UTC)."""
    for t in range(int(t0) - 1, int(t1) + 2):
        if time.strftime('%b %d %H:%M:%S : ', time.gmtime(t)).encode() == m.group(0):
            return True
    return False


FULL = '/dev/full'           # what is written there is lost, and that is all


class World:
    """The possible targets, and what each should contain."""

    def __init__(self, h, r):
        self.h, self.r = h, r
        self.paths = [h.dir + '/' + n for n in ('a.log', 'b.log', 'c.log')]
        self.want = {}               # sink -> list of (kind, bytes)
        self.medium, self.file = NONE, None
        self.level = 3
        self.pos = {}
        self.moved = {}
        self.t_from = time.time()
        for s in ('out', 'err', 'sys'):
            self.pos[s] = 0

    def sink_path(self, s):
        return {'out': self.h.outpath, 'err': self.h.errpath, 'sys': self.h.dir + '/syslog'}.get(s, s)

    def sink_of(self, lvl):
        if self.medium == STDOUT:
            return 'err' if lvl <= 1 else 'out'
        if self.medium == FILE:
            return self.file
        if self.medium == SYSLOG:
            return 'sys'
        return None

    def all_sinks(self):
        return ['out', 'err', 'sys'] + sorted(set(self.paths) | set(self.moved.values()))

    def grown(self):
        """New content per sink since the last look."""
        g = {}
        for s in self.all_sinks():
            d = read(self.sink_path(s))
            p = self.pos.get(s, 0)
            if len(d) < p:
                raise Violation('lost-content', 'a log file lost content it had: %s' % s)
            if len(d) > p:
                g[s] = d[p:]
            self.pos[s] = len(d)
        return g

    def judge(self, lvl, text, what, ident=False):
        """Exactly one message went to exactly the right sink, unless filtered."""
        g = self.grown()
        s = self.sink_of(lvl) if lvl <= self.level else None
        stray = [k for k in g if k != s]
        if stray:
            raise Violation('wrong-target', '%s: output %r appeared in %s, the selected target is %s (level %d, threshold %d)' % (
                what, g[stray[0]][:200], os.path.basename(stray[0]), s and os.path.basename(s), lvl, self.level))
        if s is None or s == FULL:
            return
        got = g.get(s, b'')
        if s == 'sys':
            m = re.fullmatch(rb'MSG (\d+) (.*)', got, re.S)
            if not m or not self.same(m.group(2), text, ident, True):
                raise Violation('wrong-message', '%s: syslog received %r instead of %r' % (what, got[:300], text))
            if int(m.group(1)) & 7 != PRI[lvl]:
                raise Violation('wrong-priority', '%s: level %d logged with syslog priority %s' % (what, lvl, m.group(1)))
            return
        if self.medium == FILE:
            m = STAMP.match(got)
            if not m or not stamp_ok(m, self.t_from, time.time()):
                raise Violation('wrong-stamp', '%s: file received %r, without a valid time stamp' % (what, got[:200]))
            got = got[m.end():]
        if not self.same(got, text, ident, False):
            raise Violation('wrong-message', '%s: target received %r instead of %s' % (what, got[:300], repr(text)[:300]))

    @staticmethod
    def same(got, text, ident, nl):
        if ident:
            return bool(IDENT.fullmatch(got))
        if nl and not text.endswith(b'\n'):
            text += b'\n'
        return got == text


def message(r, n):
    body = bytes(r.choice(b'abc XYZ%sdn\\\t"\'<>09-') for _ in range(r.choice([0, 1, 5, 30, 30, 200, 1000, 3500])))
    return b'm%d ' % n + body + (b'\n' if r.random() < 0.85 else b'')


def sequential(ck, b, net, seed):
    r = random.Random(seed)
    with Proxy(b.host, net, up=False, vf={'seed': 1}) as h:
        h.cmd('close')
        h.cmd('vf syslog %s/syslog' % h.dir)
        w = World(h, r)
        h.cmd('loglevel 3')
        w.grown()
        for p in w.paths[:2]:
            with open(p, 'wb') as fp:
                fp.write(b'earlier content\n')
        w.grown()
        base = h.stats()['fds']
        for n in range(ck.n(250, 600)):
            if w.medium == NONE and r.random() < 0.4:
                op = 'medium'
            else:
                op = r.choice(['log'] * 10 + ['level', 'medium', 'medium', 'medium', 'badmedium', 'append', 'rename', 'ident', 'fds', 'close', 'opn'])
            w.t_from = time.time()
            if op == 'log':
                lvl = r.randrange(5)
                text = message(r, n)
                h.cmd('log %d %s' % (lvl, text.hex()))
                w.judge(lvl, text, 'message')
                ck.case((seed, n), sample='medium=%d threshold=%d level=%d %d bytes' % (w.medium, w.level, lvl, len(text)))
                ck.count(messages=1, written=int(lvl <= w.level and w.medium != NONE))
            elif op == 'ident':
                h.cmd('ident')
                w.judge(3, None, 'ident', True)
            elif op == 'level':
                w.level = r.randrange(5)
                h.cmd('loglevel %d' % w.level)
            elif op == 'medium':
                old = w.medium
                m = r.choice([NONE, STDOUT, FILE, FILE, SYSLOG])
                f = FULL if r.random() < 0.15 else r.choice(w.paths)
                if h.ret('logmedium %d %s' % (m, f if m == FILE else '')) != 0:
                    if m == FILE and f == FULL:
                        w.judge(5, None, 'refused switch')
                        continue
                    raise Violation('switch-failed', 'switching from medium %d to %d (%s) failed' % (old, m, f))
                w.medium, w.file = m, f if m == FILE else None
                # syslog connections are opened and closed along
                d = read(w.sink_path('sys'))[w.pos['sys']:]
                if old == SYSLOG and m != SYSLOG:
                    if not d.startswith(b'CLOSE\n'):
                        raise Violation('not-released', 'syslog not released when switching to %d: %r' % (m, d))
                    w.pos['sys'] += 6
                elif old != SYSLOG and m == SYSLOG:
                    k = re.match(rb'OPEN openelp \d+\n', d)
                    if not k:
                        raise Violation('not-opened', 'syslog not opened: %r' % d)
                    w.pos['sys'] += k.end()
                if m != NONE:
                    w.judge(3, None, 'switch to %d' % m, True)
                else:
                    w.judge(5, None, 'switch to none')
                ck.count(switches=1)
            elif op == 'badmedium':
                k = r.choice(['nodir', 'isdir', 'eventlog', 'fault'])
                if k == 'eventlog':
                    ret = h.ret('logmedium %d' % EVENTLOG)
                elif k == 'fault':
                    h.cmd('vf fail_mask 4096')
                    h.cmd('vf fail_at 1')
                    h.cmd('vf armed 1')
                    ret = h.ret('logmedium 2 ' + r.choice(w.paths))
                    h.cmd('vf armed 0')
                else:
                    ret = h.ret('logmedium 2 ' + (h.dir + '/none/x.log' if k == 'nodir' else h.dir))
                if ret >= 0:
                    raise Violation('bad-target-accepted', 'switching to an unusable target (%s) returned %d' % (k, ret))
                w.judge(5, None, 'failed switch (%s)' % k)
                ck.count(failed_switches=1)
            elif op == 'append':
                # somebody else writes to the file: nothing may be overwritten
                p = r.choice(w.paths)
                with open(p, 'ab') as fp:
                    fp.write(b'foreign line\n')
                w.pos[p] = w.pos.get(p, 0) + 13
            elif op == 'rename':
                # log rotation: the open file keeps its name's successor until re-selected
                p = r.choice(w.paths)
                if os.path.exists(p):
                    q = '%s.%d' % (p, n)
                    os.rename(p, q)
                    w.pos[q] = w.pos.pop(p, 0)
                    w.moved[q] = q
                    if w.medium == FILE and w.file == p:
                        w.file = q
            elif op == 'fds':
                k = h.stats()['fds'] - base
                if k != (1 if w.medium == FILE else 0):
                    raise Violation('not-released', '%d descriptors open more than without log, medium is %d\n%s' % (k, w.medium, h.cmd('fdlist')['fds']))
            elif op == 'close':
                old = w.medium
                h.cmd('close')
                g = w.grown()
                if old == SYSLOG:
                    if not g.get('sys', b'').endswith(b'CLOSE\n'):
                        raise Violation('not-released', 'syslog not released by closing')
                ok = {NONE: [], STDOUT: ['out', 'err'], FILE: [w.file], SYSLOG: ['sys']}[old]
                if [k for k in g if k not in ok]:
                    raise Violation('wrong-target', 'closing wrote to %s with medium %d' % (list(g), old))
                w.medium, w.file = NONE, None
            elif op == 'opn':
                # opening without a target logs to the console
                old = w.medium
                h.must('open')
                if old == NONE:
                    w.medium = STDOUT
                g = w.grown()
                ok = {STDOUT: ['out', 'err'], FILE: [w.file], SYSLOG: ['sys']}[w.medium]
                if [k for k in g if k not in ok]:
                    raise Violation('wrong-target', 'opening wrote to %s with medium %d' % (list(g), w.medium))
                lvl = r.randrange(5)
                text = message(r, n)
                h.cmd('log %d %s' % (lvl, text.hex()))
                w.judge(lvl, text, 'message while open')
                h.cmd('close')
                w.medium, w.file = NONE, None
                w.grown()
        h.cmd('logmedium 2 ' + w.paths[0])
        h.cmd('free')
        if h.ret('leakcheck'):
            raise Violation('leak', 'memory is lost after logging\n' + h.err_text()[-2500:])
        k = h.stats()['fds'] - base
        if k > 0:
            raise Violation('not-released', '%d descriptors more after freeing\n%s' % (k, h.cmd('fdlist')['fds']))


LINE = re.compile(rb'<(\d+):(\d+):(\d+):(x*)>')


def whole(ck, lines, threads, want, what, strip):
    """Lines written by several threads: each whole, once, in its thread's order."""
    seen = {}
    for ln in lines:
        s = strip(ln)
        m = LINE.fullmatch(s) if s is not None else None
        if not m or len(m.group(4)) != int(m.group(3)):
            raise Violation('broken-line', '%s: line %r' % (what, ln[:300]))
        t, i = int(m.group(1)), int(m.group(2))
        if seen.get(t, 0) != i:
            raise Violation('line-order', '%s: thread %d wrote line %d when %d was due' % (what, t, i, seen.get(t, 0)))
        seen[t] = i + 1
    for t in threads:
        if seen.get(t, 0) != want:
            raise Violation('line-count', '%s: %d of %d lines of thread %d' % (what, seen.get(t, 0), want, t))


def concurrent(ck, b, net, seed, flavor):
    r = random.Random(seed)
    with Proxy(b.host, net, up=False, vf={'seed': seed % 977, 'delay': r.choice([0, 30]), 'delay_us': 300}) as h:
        h.cmd('vf syslog %s/syslog' % h.dir)
        h.cmd('loglevel 4')
        for n in range(ck.n(6, 20)):
            th, cnt, ln = r.randrange(2, 17), r.choice([20, 60]), r.choice([3, 40, 400, 3000, 6000])
            if ln >= 3000:
                cnt = 15
            m = r.choice([STDOUT, FILE, SYSLOG])
            f = h.dir + '/m%d' % n
            h.must('logmedium %d %s' % (m, f if m == FILE else ''))
            lv = r.choice([2, 3, 4])
            lv2 = r.choice([None, 0, 1, 4, 3])
            if m == SYSLOG and ln > 3000:
                ln = 300
            if r.random() < 0.3:
                h.cmd('loglevel 3')
            thr = 3 if r.random() < 0.5 else 4
            h.cmd('loglevel %d' % thr)
            o0, e0, s0 = len(read(h.outpath)), len(read(h.errpath)), len(read(h.dir + '/syslog'))
            t0 = time.time()
            h.cmd('logmt %d %d %d %d%s' % (th, cnt, lv, ln, '' if lv2 is None else ' %d' % lv2))
            levels = [lv if lv2 is None or t % 2 == 0 else lv2 for t in range(th)]
            on = [t for t in range(th) if levels[t] <= thr]
            got_o, got_e = read(h.outpath)[o0:], read(h.errpath)[e0:]
            got_s = read(h.dir + '/syslog')[s0:]
            ck.case((flavor, seed, n, m, th, cnt, ln, lv, lv2, thr), sample='medium=%d threads=%d lines=%d of %d bytes' % (m, th, cnt, ln))
            ck.count(concurrent_lines=cnt * th)
            what = 'medium %d, %d threads' % (m, th)
            if b'Sanitizer' in got_e:
                raise Violation('sanitizer', got_e.decode('latin1')[:3000])
            if m == STDOUT:
                o = [t for t in on if levels[t] > 1]
                e = [t for t in on if levels[t] <= 1]
                whole(ck, got_o.split(b'\n')[:-1], o, cnt, what + ' (stdout)', lambda s: s)
                whole(ck, got_e.split(b'\n')[:-1], e, cnt, what + ' (stderr)', lambda s: s)
                for t in [int(x) for x in re.findall(rb'<(\d+):', got_o)]:
                    if t not in o:
                        raise Violation('wrong-target', 'thread %d of level %d wrote to stdout' % (t, levels[t]))
                for t in [int(x) for x in re.findall(rb'<(\d+):', got_e)]:
                    if t not in e:
                        raise Violation('wrong-target', 'thread %d of level %d wrote to stderr' % (t, levels[t]))
                continue
            if got_o or got_e:
                raise Violation('wrong-target', 'console output with medium %d: %r' % (m, (got_o + got_e)[:200]))
            if m == FILE:
                def strip(s):
                    k = STAMP.match(s)
                    return s[k.end():] if k and stamp_ok(k, t0, time.time()) else None
                d = read(f)
                ls = d.split(b'\n')
                if ls and b'OpenELP' in ls[0]:
                    ls = ls[1:]
                whole(ck, ls[:-1], on, cnt, what, strip)
                if got_s:
                    raise Violation('wrong-target', 'syslog output with medium %d: %r' % (m, got_s[:200]))
            else:
                def strip(s):
                    k = re.match(rb'MSG (\d+) ', s)
                    if not k:
                        return None
                    x = LINE.fullmatch(s[k.end():])
                    if x and int(k.group(1)) & 7 != PRI[levels[int(x.group(1))]]:
                        return None
                    return s[k.end():]
                whole(ck, got_s.split(b'\n')[:-1], on, cnt, what, strip)
            if set(t for t in range(th)) - set(on):
                ck.count(filtered_threads=th - len(on))
        h.cmd('logmedium 0')
        rep = h.san()
        if rep:
            raise Violation('sanitizer:' + rep[0][0], rep[0][1])


def served(ck, b, net, seed):
    """The proxy's own messages while clients come and go."""
    r0 = random.Random(seed)
    m = r0.choice([FILE, FILE, SYSLOG, STDOUT])
    thr = r0.choice([4, 4, 3, 1])
    calls = ['%s%n%d', 'W1AW', '%99999d', '%x%x%x%x', 'K1\tA', '"quoted"']
    with Proxy(b.host, net, slots=4, denied='^DENY', up=False, loglevel=thr, vf={'seed': seed % 997, 'delay': r0.choice([0, 100]), 'delay_us': 300}) as px:
        px.cmd('vf syslog %s/syslog' % px.dir)
        f = px.dir + '/served.log'
        px.must('logmedium %d %s' % (m, f if m == FILE else ''))
        o0, e0, s0 = len(read(px.outpath)), len(read(px.errpath)), len(read(px.dir + '/syslog'))
        t0 = time.time()
        px.up()
        seeds = [r0.randrange(1 << 30) for _ in range(6)]
        used = []

        def run(i):
            r = random.Random(seeds[i])
            for _ in range(ck.n(12, 40)):
                c = px.client()
                n = c.nonce()
                if n is None:
                    c.close()
                    continue
                k = r.choice(['good', 'badpw', 'deny', 'abort', 'unknown'])
                call = r.choice(calls) if k != 'deny' else 'DENY%n%s'
                if k == 'abort':
                    c.send(b'W1')
                else:
                    c.greet(call, resp=answer(n, px.password if k != 'badpw' else 'z'), extra=msg(99) if k == 'unknown' else b'')
                    if k != 'good':
                        c.wait_eof()
                    used.append(call)
                c.close(rst=r.random() < 0.3)
        parallel([lambda i=i: run(i) for i in range(6)])
        px.quiesce()
        px.down()
        out, err, sl = read(px.outpath)[o0:], read(px.errpath)[e0:], read(px.dir + '/syslog')[s0:]
        d = {FILE: read(f), STDOUT: out + err, SYSLOG: sl}[m]
        lines = d.split(b'\n')
        ck.case(('served', seed, m, thr, len(lines)), sample='medium=%d threshold=%d lines=%d' % (m, thr, len(lines)))
        ck.count(own_lines=len(lines))
        if b'Sanitizer' in err:
            raise Violation('sanitizer', err.decode('latin1')[:3000])
        if m != STDOUT and (out or err):
            raise Violation('wrong-target', 'console output with medium %d: %r' % (m, (out + err)[:200]))
        if m != SYSLOG and sl:
            raise Violation('wrong-target', 'syslog output with medium %d: %r' % (m, sl[:200]))
        if lines[-1] != b'':
            raise Violation('broken-line', 'the log ends with an incomplete line %r' % lines[-1][:200])
        for ln in lines[:-1]:
            if m == FILE:
                k = STAMP.match(ln)
                if not k or not stamp_ok(k, t0, time.time()):
                    raise Violation('wrong-stamp', 'log line %r' % ln[:200])
                if STAMP.search(ln, k.end()) or k.end() == len(ln):
                    raise Violation('broken-line', 'log line %r' % ln[:200])
            if m == SYSLOG and not re.match(rb'(MSG [2-7] |CLOSE|OPEN openelp)', ln):
                raise Violation('broken-line', 'syslog %r' % ln[:200])
        if thr == 4 and m == FILE:
            # one line per refused and per served client, naming it literally
            n = sum(1 for ln in lines if b"'%s%n%d'" in ln or b"'DENY%n%s'" in ln)
            if n < 1:
                raise Violation('lost-message', 'no line names the clients %r' % used[:5])
        if thr == 1:
            for ln in lines:
                if re.search(rb'Incoming connection|Disconnected from|Listening for', ln):
                    raise Violation('not-filtered', 'threshold error, but logged %r' % ln)


def body(ck):
    b = build('asan')
    t = build('tsan')
    nets = [Net() for _ in range(4)]
    r = ck.rng
    cs = []
    for _ in range(ck.n(16, 100)):
        cs.append((b, sequential, r.randrange(1 << 30)))
    for _ in range(ck.n(4, 30)):
        cs.append((b, concurrent, r.randrange(1 << 30), 'asan'))
    for _ in range(ck.n(4, 20)):
        cs.append((t, concurrent, r.randrange(1 << 30), 'tsan'))
    for _ in range(ck.n(8, 40)):
        cs.append((b, served, r.randrange(1 << 30)))
    pool = Pool(nets)
    ck.run_many([(pool.run, ck, c[0]) + c[1:] for c in cs], len(nets))


ck = Check('P14', rule='one evaluation is one message (or one concurrent burst, or one served history) whose appearance in every possible target is compared '
           'with the model; distinct by history and position')
ck.min_eval = 500
main(ck, body)
