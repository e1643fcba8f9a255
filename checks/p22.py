"""P22: callsign permission follows the patterns and fails closed."""
import re

from vf.core import Check, main, Violation
from vf.build import build
from vf.scen import *

INVALID = ['(', ')', '[a', '*a', 'a**', '+', 'a{2,1}', '[z-a]', '(?<=a*)b', '\\', '(?P<n', '(?<n>a)(?<n>b)', '(?z)', 'a(?#', '[[:foo:]]', '\\x{110000000}',
           '(?1)', '\\1', '(?P>x)', '\\c', '[\\', '^(BAD', '(*NOSUCH)a', '(?(2)a|b', 'x{99999}']
# patterns whose evaluation stops with an error for the callsigns named
ERRORS = [('(*LIMIT_MATCH=2)^(A|B|C|D)*$', 'ABCDABCD'), ('(*NO_START_OPT)(*LIMIT_MATCH=1)(.+)+Z', 'AAAAAAAA'), ('(*NO_START_OPT)(*LIMIT_DEPTH=1)((.)(.))+X', 'AAAAAAAA'),
          ('(*LIMIT_HEAP=0)(*NO_START_OPT)(a|A)+Z', 'AAAAAAA'), ('(?R)', 'W1AW'),
          ('(*UTF)W1', 'W1\xff'), ('(*UTF)^.*$', '\xc3('), ('(*UTF)Q', '\x80'), ('(*LIMIT_MATCH=1)^(?:(W)|(1)|(A))+(?=Y)', 'W1AW1AW1A')]
CALLS = ['', 'A', 'W1AW', 'w1aw', 'K1RFD-L', 'N0CALL-R', 'KB1ABC', '2E0XYZ', 'ZZZZZZZZZZ', 'A1', '1A', 'W1AW ', ' W1AW', 'BAD', 'NOTBAD', 'BADX', 'bad', '*ECHO*',
         'A-B', 'A.B', 'a+b', '[X]', '(Y)', 'X$', '^X', '\xe9A', '\xff', '9', '99', 'AB', 'ABC', 'ABCD', 'G4ABC/M', 'W1AW-L', 'W1AW-R', 'AAAAAAAAA', 'Z', 'A #B', '# ']

SIMPLE = ['^W1AW$', '^BAD', '-R$', '-[LR]$', '^[A-Z0-9]{3,6}$', '^$', '.', '^[*].*[*]$', 'bad|BAD', '(?i)bad', '^(?!K1)', '\\*', 'W1', '^(W1AW|K1RFD)(-[LR])?$',
          'A{3}', '^\\d', '[^\x01-\x7f]', '(?:)', '\xe9', '[A-Z]$', '\\d\\d$', 'c[^-]*$']


def atom(r, d):
    x = r.random()
    if x < 0.45:
        c = r.choice('ABCXWKN0189-LRab*. #')
        return c if c in ' #' else re.escape(c)
    if x < 0.6:
        return r.choice(['[A-Z]', '[0-9]', '[^A-Z]', '[WKN]', '[A-Za-z0-9]', '[^-]', '[-LR]', '[a-z]', '[*]', '[^\\w]'])
    if x < 0.75:
        return r.choice(['.', '\\d', '\\w', '\\D', '\\W', '\\s', '\\S'])
    if d > 0:
        k = r.choice(['(%s)', '(?:%s)', '(?=%s)', '(?!%s)', '(?i:%s)'])
        return k % alt(r, d - 1)
    return r.choice('ABW1')


def seq(r, d):
    s = ''
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        a = atom(r, d)
        if not a.startswith(('(?=', '(?!')):
            a += r.choice(['', '', '', '', '?', '*', '+', '{2}', '{1,3}', '{2,}', '+?', '*?'])
        s += a
    if r.random() < 0.25:
        s = r.choice(['^', '\\b', '(?<=A)', '(?<!B)']) + s
    if r.random() < 0.25:
        s += r.choice(['$', '\\b', '\\Z'])
    return s


def alt(r, d):
    return '|'.join(seq(r, d) for _ in range(r.choice([1, 1, 1, 2, 3])))


def pattern(r):
    x = r.random()
    if x < 0.08:
        return ''
    if x < 0.25:
        return r.choice(SIMPLE)
    return alt(r, 2)


def want(denied, allowed, call):
    c = call.encode('latin1')
    if denied is not None and re.search(denied.encode('latin1'), c):
        return 0
    if allowed is not None and not re.search(allowed.encode('latin1'), c):
        return 0
    return 1


def hx(call):
    return call.encode('latin1').hex()


def judge(ck, h, denied, allowed, calls, hist):
    ids = [(c, h.send('auth ' + hx(c))) for c in calls]
    for c, i in ids:
        got, w = h.reply(i, 'auth')['ret'], want(denied, allowed, c)
        ck.case((denied, allowed, c), sample='denied=%r allowed=%r call=%r -> %d' % (denied, allowed, c, w))
        ck.count(permitted=w, refused=1 - w)
        if got != w:
            raise Violation('permission', 'callsign %r with denied=%r allowed=%r: %s, expected %s (history %r)' % (
                c, denied, allowed, got, w, hist[-3:]), witness=(denied, allowed, c))


def histories(ck, b, net, seed, n):
    r = random.Random(seed)
    with Proxy(b.host, net, up=False) as px:
        hist = []
        for i in range(n):
            x = r.random()
            denied = None if x < 0.3 else pattern(r)
            allowed = None if 0.15 < x < 0.5 else pattern(r)
            hist.append((denied, allowed))
            px.setf('calls_denied', denied)
            px.setf('calls_allowed', allowed)
            if r.random() < 0.2:
                # an open that fails must not influence the next one
                bad = r.choice(INVALID)
                k = r.choice(['calls_denied', 'calls_allowed'])
                px.setf(k, bad)
                if px.ret('open') >= 0:
                    raise Violation('invalid-accepted', 'opened with %s=%r' % (k, bad))
                ck.count(failed_opens=1)
                px.setf('calls_denied', denied)
                px.setf('calls_allowed', allowed)
            px.must('open')
            calls = r.sample(CALLS, 10) + [''.join(r.choice('ABWKN019-LRabc*. #') for _ in range(r.randrange(11))) for _ in range(8)]
            judge(ck, px, denied, allowed, calls, hist)
            if all(p is None or p in SIMPLE for p in (denied, allowed)):
                # asked by an application, a callsign may be longer
                judge(ck, px, denied, allowed, [''.join(r.choice('ABWKN019-LRabc*.') for _ in range(r.randrange(11, 60))) + r.choice(['', '', '-R', '-L', 'bad', '*', '9'])
                                                for _ in range(12)], hist)
            if r.random() < 0.1:
                q = ','.join('%s:%d' % (hx(c) or '-', want(denied, allowed, c)) for c in calls[:12] if c)
                bad = px.ret('authmt 150 ' + q)
                ck.count(concurrent_queries=150 * len(q.split(',')))
                if bad:
                    raise Violation('permission-concurrent', '%d concurrent queries answered wrongly: denied=%r allowed=%r calls=%r' % (
                        bad, denied, allowed, calls))
            if r.random() < 0.3:
                px.must('start')
                px.cmd('serve %d' % (i + 1))
                px.nserve = i + 1
                for c in calls[10:13]:
                    if not c or '\n' in c:
                        continue
                    login(ck, px, c, want(denied, allowed, c), (denied, allowed))
                px.down()
            else:
                px.cmd('close')
        px.cmd('free')
        if px.ret('leakcheck'):
            raise Violation('leak', 'memory is lost after using patterns\n' + px.err_text()[-2500:])


def login(ck, px, call, ok, what):
    end = time.monotonic() + WAIT
    while True:
        c = px.client()
        n = c.nonce()
        if n is not None or time.monotonic() > end:
            break
        c.close()
        time.sleep(0.01)
    try:
        if n is None:
            raise Violation('no-service', 'no challenge', kind='progress')
        c.greet(call, px.password, extra=b'' if not ok else msg(99))
        if not c.wait_eof():
            raise Violation('not-disconnected', 'login as %r (%r) neither refused nor served' % (call, what), kind='progress')
        got = c.rest()
        if got != (b'' if ok else msg(SYSTEM, payload=b'\x02')):
            raise Violation('login', 'login as %r with %r: the proxy sent %r, expected %s' % (call, what, got, 'admission' if ok else 'refusal code 2'))
        ck.count(logins=1)
    finally:
        c.close()


def failing(ck, b, net):
    """Patterns that can not be evaluated refuse; patterns that do not compile keep the proxy closed."""
    with Proxy(b.host, net, up=False) as px:
        for p, call in ERRORS:
            for denied, allowed in ((p, None), (None, p), (p, '.'), ('NEVER', p), (p, p)):
                px.setf('calls_denied', denied)
                px.setf('calls_allowed', allowed)
                px.must('open')
                got = px.ret('auth ' + hx(call))
                ck.case(('error', denied, allowed, call))
                ck.count(unevaluable=1)
                if got == 1:
                    raise Violation('not-fail-closed', 'callsign %r is permitted although denied=%r allowed=%r can not be evaluated for it' % (call, denied, allowed))
                px.must('start')
                px.serve()
                login(ck, px, call, 0, (denied, allowed))
                px.down()
        for p in INVALID:
            for k, o in (('calls_denied', 'calls_allowed'), ('calls_allowed', 'calls_denied')):
                for other in (None, 'X'):
                    px.setf(k, p)
                    px.setf(o, other)
                    ck.case(('invalid', k, p, other))
                    ck.count(failed_opens=1)
                    for _ in range(2):
                        if px.ret('open') >= 0:
                            raise Violation('invalid-accepted', 'opened with %s=%r' % (k, p))
                        c = px.client()
                        if not c.eof:
                            raise Violation('listening', 'listening after a failed open')
            px.setf('calls_denied', None)
            px.setf('calls_allowed', None)
            px.must('open')
            judge(ck, px, None, None, ['X', 'W1AW', ''], [p])
            px.cmd('close')
        px.cmd('free')
        if px.ret('leakcheck'):
            raise Violation('leak', 'memory is lost after failing patterns\n' + px.err_text()[-2500:])


def body(ck):
    b = build('asan')
    net = Net()
    r = ck.rng
    ck.run_case(failing, ck, b, net)
    for _ in range(ck.n(8, 60)):
        ck.run_case(histories, ck, b, net, r.randrange(1 << 30), 150)
    t = build('tsan')
    ck.run_case(histories, ck, t, net, r.randrange(1 << 30), ck.n(25, 100))


ck = Check('P22', rule='one evaluation is one permission query compared with an independent evaluation of the patterns (and, for some, the login '
           'of that callsign); distinct by patterns and callsign')
ck.min_eval = 1000
main(ck, body)
