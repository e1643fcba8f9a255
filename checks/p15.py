"""P15: digest and encoding helpers against independent implementations."""
import hashlib

from vf.core import Check, main, Violation
from vf.build import build
from vf.scen import *
from vf.unit import Unit


def up(b):
    return bytes(c - 32 if 97 <= c <= 122 else c for c in b)


def md5s(ck, u, n):
    r = ck.rng
    cases, lines = [], []
    edge = [0, 1, 2, 3, 54, 55, 56, 57, 62, 63, 64, 65, 118, 119, 120, 121, 127, 128, 129, 191, 192, 193, 255, 256, 257, 1000, 4096]
    for i in range(n):
        ln = edge[i % len(edge)] if i < 200 else r.choice(edge) if r.random() < 0.3 else r.randrange(0, 700)
        if i < 260:
            ln = i if i >= 200 else ln
        d = r.randbytes(ln) if r.random() < 0.8 else bytes([r.choice([0, 255, 128])]) * ln
        al = r.randrange(0, 8)
        if r.random() < 0.5:
            lines.append('digest %d %s' % (al, d.hex()))
            sig = ('digest', ln, al)
        else:
            k = r.choice([1, 2, 3, 5, 9, 30])
            ch = [r.choice([0, 1, 7, 8, 9, 55, 56, 63, 64, 65, 128, r.randrange(0, 200)]) for _ in range(k)]
            lines.append('pieces %d %s %s' % (al, ','.join(map(str, ch)), d.hex()))
            sig = ('pieces', ln, al, tuple(ch))
        cases.append((d, sig))
    for (d, sig), ans, ln in zip(cases, u.batch(lines), lines):
        exp = hashlib.md5(d).hexdigest()
        ck.case(sig + (hashlib.sha1(d).hexdigest()[:8],), sample=ln[:100])
        if ans != exp:
            raise Violation('md5', 'MD5 of %d bytes (%s) is %s instead of %s' % (len(d), sig[0], ans, exp), witness=ln)


def big(ck, u):
    # the length, in bits, takes two words: what is beyond the first comes from many pieces or from one
    sizes = [(1 << 20, 65536), (70000, 1), ((1 << 29) // 8 + 77, 1 << 16), ((1 << 29) + 100, 1 << 20), ((1 << 29) + 77, (1 << 29) + 77)]
    if ck.thorough:
        sizes += [((1 << 32) + 12345, (1 << 20) + 3), ((1 << 32) + 999, (1 << 32) + 999), ((1 << 30) + 1, (1 << 29) - 1), (5 << 29, 3 << 29)]
    for size, piece in sizes:
        seed = ck.rng.randrange(256)
        period = bytes((i * 131 + (i >> 8) * 7 + seed) & 255 for i in range(65536))
        block = (period * (piece // 65536 + 1))[:piece]
        h, done = hashlib.md5(), 0
        while done < size:
            m = min(piece, size - done)
            h.update(block if m == piece else block[:m])
            done += m
        ans = u.ask('big %d %d %d' % (size, piece, seed))
        ck.case(('big', size, piece), sample='%d bytes in pieces of %d' % (size, piece))
        if ans != h.hexdigest():
            raise Violation('md5-long', 'MD5 of %d bytes in pieces of %d is %s instead of %s' % (size, piece, ans, h.hexdigest()))


def responses(ck, u, n):
    r = ck.rng
    lines, exp = [], []
    for i in range(n):
        k = r.random()
        ln = i if i < 150 else r.choice([0, 1, 5, 8, 47, 48, 49, 55, 56, 57, 100, 1000]) if k < 0.4 else r.randrange(0, 64)
        alpha = r.choice([range(1, 256), range(97, 123), [96, 97, 122, 123, 64, 65, 90, 91, 223, 224, 255, 0xe9, 0xb5], range(128, 256), range(33, 127)])
        pw = bytes(r.choice(alpha) for _ in range(ln))
        nonce = r.choice([0, 1, 0xf, 0x10, 0xff, 0x100, 0xabcdef12, 0x7fffffff, 0x80000000, 0xffffffff, r.getrandbits(32), r.getrandbits(32)])
        lines.append('resp %d %s' % (nonce, pw.hex()))
        exp.append(hashlib.md5(up(pw) + b'%08x' % nonce).hexdigest())
    for ln, e, a in zip(lines, exp, u.batch(lines)):
        ck.case(('resp', ln), sample=ln[:80])
        if a != e:
            raise Violation('answer', 'expected answer for "%s" is %s instead of %s' % (ln[:200], a, e), witness=ln)


def misc(ck, u):
    r = ck.rng
    lines, exp = [], []
    for i in range(ck.n(600)):
        d = bytes([i % 256]) * 16 if i < 256 else r.randbytes(16)
        lines.append('str ' + d.hex())
        exp.append(d.hex().upper())
    for ln, e, a in zip(lines, exp, u.batch(lines)):
        ck.case(ln)
        if a != e:
            raise Violation('digest-string', 'digest %s renders as %s' % (ln[4:], a))
    lines, exp = [], []
    for i in range(ck.n(3000)):
        v = r.getrandbits(32)
        s = ''.join(r.choice([c.upper(), c]) for c in '%08x' % v)
        lines.append('parse ' + s)
        exp.append(str(v))
    for ln, e, a in zip(lines, exp, u.batch(lines)):
        ck.case(ln)
        if a != e:
            raise Violation('hex-parse', '%s gives %s instead of %s' % (ln, a, e))
    a = u.ask('ports')
    ck.case('ports')
    ck.count(ports=65536)
    if not a.startswith('ok'):
        raise Violation('port-string', 'port rendering: ' + a)


def remotes(ck, u):
    r = ck.rng
    for i in range(ck.n(60)):
        ip = r.choice(['127.0.0.1', '127.%d.%d.%d' % (r.randrange(256), r.randrange(256), r.randrange(1, 255)), '127.200.200.200', '::1', '::ffff:127.%d.2.3' % r.randrange(256), '::ffff:127.200.200.200'])
        port = r.choice([1024, 1025, 9999, 10000, 10001, 65535, 65534, 32768, 32767, 255 * 256, 256, 258, 1 + r.randrange(65535), 1025 + r.randrange(60000)])
        a = u.ask('remote %s %d' % (ip, port))
        if a == 'skip':
            ck.count(remote_skipped=1)
            continue
        ck.case(('remote', ip, port), sample='%s port %d -> %s' % (ip, port, a))
        ck.count(remote_addresses=1)
        if not a.startswith('ok'):
            raise Violation('remote-address', 'peer %s port %d is rendered as %s' % (ip, port, a))


def sweep(ck, step):
    p = build('plain')
    with Unit(p.unit_enc) as u:
        off = ck.rng.randrange(step) if step > 1 else 0
        a = u.ask('sweep %d %d 8' % (step, off))
        if not a.startswith('ok'):
            raise Violation('hex-roundtrip', 'value ' + a)
        ck.case(('sweep', step, off))
        ck.count(hex_roundtrips=int(a.split()[1]))


def body(ck):
    b = build('asan')

    def unit(f, *a):
        def one():
            with Unit(b.unit_enc) as u:
                f(ck, u, *a)
        ck.run_case(one)
    unit(md5s, ck.n(6000, 200000))
    unit(responses, ck.n(4000, 100000))
    unit(misc)
    unit(remotes)

    def bigone():
        with Unit(build('plain').unit_enc) as u:
            big(ck, u)
    ck.run_case(bigone)
    ck.run_case(sweep, ck, 1 if ck.thorough else 97)


ck = Check('P15', rule='one evaluation is one helper call compared with an independent implementation (Python hashlib, string formatting) or '
           'one sweep/table; distinct by operation, input, alignment and chunking',
           assumptions=['unaligned word reads of the x86 MD5 path are intended and not counted as undefined behaviour'])
ck.min_eval = 1000
main(ck, body)
