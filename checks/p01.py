"""P01: admission if and only if password answer and callsign are right."""
import re

from vf.core import Check, main, Violation
from vf.build import build
from vf.scen import *

BAD_PW = bytes([7, 0, 0, 0, 0, 1, 0, 0, 0, 1])
BAD_CALL = bytes([7, 0, 0, 0, 0, 1, 0, 0, 0, 2])
CALLCH = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-/*abz'


def configs(r):
    yield dict(password='TESTPASS')
    yield dict(password='MixedCasePw9', allowed='^(K1RFD|AK8V|W[0-9][A-Z]+)$', denied='.*-L$|.*-R$')
    yield dict(password='', denied='^N0')
    yield dict(password='caf\xe9 \xffz{`a@[', allowed='K|N|W')
    yield dict(password='PUBLIC', allowed='^[A-Z0-9]{0,6}(-[LR])?$', denied='BAD')
    for _ in range(3):
        n = r.choice([1, 7, 40, 47, 48, 49, 55, 56, 57, 100, 119, 120, 121, 500])
        yield dict(password=''.join(chr(r.choice([r.randint(33, 126), r.randint(97, 122), r.randint(128, 255)])) for _ in range(n)),
                   denied=r.choice([None, 'Z', '^W']), allowed=r.choice([None, '[0-9]', 'A|B|K|N']))


def permitted(cfg, call):
    if cfg.get('denied') and re.search(cfg['denied'], call):
        return False
    if cfg.get('allowed') and not re.search(cfg['allowed'], call):
        return False
    return True


def gen_call(r, cfg):
    k = r.random()
    if k < 0.4:
        return r.choice(['K1RFD', 'AK8V', 'N0CALL', 'W1AW', 'K1RFD-L', 'W1AW-R', 'BAD1', 'KBADX', 'N0A', 'A', 'W1', 'KZZ1', '', '*K1RFD*', 'k1rfd'])
    n = r.choice([0, 1, 2, 5, 6, 8, 9, 10, 10, 10])
    return ''.join(r.choice(CALLCH) for _ in range(n))


def gen_resp(r, cfg, nonce):
    """(kind, response bytes or None)"""
    pw = cfg['password'].encode('latin1')
    right = answer(nonce, pw)
    k = r.choice(['right'] * 10 + ['bit'] * 10 + ['byte', 'noupper', 'lower', 'prefix', 'suffix', 'empty', 'upnonce',
                 'nononce', 'othernonce', 'zero', 'random', 'rev', 'lastbyte', 'firstbyte', 'public', 'space', 'ff'])
    md5 = lambda b: hashlib.md5(b).digest()
    up = bytes(c - 32 if 97 <= c <= 122 else c for c in pw)
    if k == 'right':
        x = right
    elif k == 'bit':
        i = r.randrange(128)
        x = bytearray(right)
        x[i // 8] ^= 1 << (i % 8)
        x = bytes(x)
    elif k == 'byte':
        x = bytearray(right)
        x[r.randrange(16)] = r.randrange(256)
        x = bytes(x)
    elif k == 'noupper':
        x = md5(pw + nonce)
    elif k == 'lower':
        x = md5(pw.lower() + nonce)
    elif k == 'prefix':
        x = md5(up[:-1] + nonce)
    elif k == 'suffix':
        x = md5(up + b'X' + nonce)
    elif k == 'space':
        x = md5(up + b' ' + nonce)
    elif k == 'empty':
        x = md5(nonce)
    elif k == 'upnonce':
        x = md5(up + nonce.upper())
    elif k == 'nononce':
        x = md5(up)
    elif k == 'othernonce':
        x = md5(up + b'%08x' % ((int(nonce, 16) + r.choice([1, -1, 256])) & 0xffffffff))
    elif k == 'zero':
        x = b'\0' * 16
    elif k == 'ff':
        x = b'\xff' * 16
    elif k == 'random':
        x = bytes(r.randrange(256) for _ in range(16))
    elif k == 'rev':
        x = right[::-1]
    elif k == 'lastbyte':
        x = right[:15] + bytes([right[15] ^ (1 << r.randrange(8))])
    elif k == 'firstbyte':
        x = bytes([right[0] ^ (1 << r.randrange(8))]) + right[1:]
    elif k == 'public':
        x = answer(nonce, 'PUBLIC')
    return k, x, x == right


def attempt(ck, px, cfg, node, r, slotset):
    # a free worker may take a moment to become available again
    end = time.monotonic() + WAIT
    while True:
        c = px.client()
        nonce = c.nonce()
        if nonce is not None:
            break
        c.close()
        if time.monotonic() > end:
            raise Violation('no-service', 'no challenge although slots are free', kind='progress')
        time.sleep(0.01)
    try:
        if not re.fullmatch(rb'[0-9a-f]{8}', nonce):
            raise Violation('challenge-format', 'challenge is %r' % nonce)
        form = r.choice(['ok'] * 8 + ['long', 'short', 'nonl'])
        mark = tag('P01')
        extra, opened = b'', False
        if r.random() < 0.5:
            extra = msg(UDP_DATA, node.addr, b'X' + mark) + msg(UDP_CONTROL, node.addr, b'X' + mark)
            if r.random() < 0.3:
                extra += msg(TCP_OPEN, node.addr)
                opened = True
        pieces = r.choice([None, 2, 3, 5, 16])
        nconn = len(node.conns)
        if form in ('long', 'nonl'):
            # over-long callsign, or no newline where one must be
            n = r.choice([11, 11, 12, 15, 16, 30])
            call = ''.join(r.choice(CALLCH) for _ in range(n)) if form == 'long' else 'A' * 11
            _, resp, _ = gen_resp(r, cfg, nonce)
            resp = r.choice([resp, answer(nonce, cfg['password'])])
            if form == 'long':
                c.greet(call, resp=resp, pieces=pieces, extra=extra, rng=r)
            else:
                c.send(bytes(r.choice([65, 49, 0x20, 0xc3]) for _ in range(11)) + resp.replace(b'\n', b'x'))
            expect = b''
            kind = form
        elif form == 'short':
            call = gen_call(r, cfg)
            full = call.encode('latin1') + b'\n' + answer(nonce, cfg['password'])
            c.send(full[:r.randrange(0, len(full))])
            time.sleep(r.choice([0, 0, 0.002]))
            if c.rest():
                raise Violation('reply-to-incomplete', 'reply %s to an incomplete greeting' % c.rest().hex())
            c.s.shutdown(socket.SHUT_WR)
            expect = b''
            kind = form
            extra = b''
        else:
            call = gen_call(r, cfg)
            kind, resp, good = gen_resp(r, cfg, nonce)
            ok = permitted(cfg, call)
            c.greet(call, resp=resp, pieces=pieces, extra=extra, rng=r)
            expect = None if good and ok else BAD_PW if not good else BAD_CALL
        sig = (cfg['password'], cfg.get('allowed'), cfg.get('denied'), call, kind, form, bool(extra), pieces, expect)
        if expect is None:
            # admitted: it can use the network, in both directions, and was told nothing
            src = probe(c, node, 'P01adm')
            if src not in slotset:
                raise Violation('wrong-source', 'admitted client relayed from %s' % src)
            if [m for m in c.msgs if m[0] != TCP_STATUS or not opened] or c.malformed:
                raise Violation('reply-on-admission', 'admitted client was sent %s' % c.rest().hex())
            if extra:
                for p in (5198, 5199):
                    if not wait(lambda: any(d[0] == p and d[3] == b'X' + mark for d in node.dgrams)):
                        raise Violation('pipelined-lost', 'messages right behind a good greeting were not relayed', kind='progress')
            echo(c, node, 'P01echo')
            ck.count(admitted=1)
        else:
            if not c.wait_eof():
                raise Violation('not-disconnected:' + kind, 'refused client (%s, call %r) is still connected; got %s' % (
                    kind, call, c.rest().hex()), kind='progress')
            if c.rest() != expect:
                raise Violation('refusal-bytes:' + kind, 'client with %s answer / callsign %r (permitted=%s) got %s instead of %s' % (
                    kind, call, permitted(cfg, call), c.rest().hex(), expect.hex()), witness=sig)
            if any(mark in d[3] for d in node.dgrams):
                raise Violation('refused-had-effect', 'a refused client (%s) sent datagrams to the network' % kind, witness=sig)
            if opened and len(node.conns) > nconn and len(slotset) == 1:
                raise Violation('refused-had-effect', 'a refused client (%s) opened a TCP connection' % kind, witness=sig)
            ck.count(**{'refused_' + ('pw' if expect == BAD_PW else 'call' if expect == BAD_CALL else 'greeting'): 1})
            ck.refused_marks.append(mark)
        ck.case(sig, sample=repr(sig))
    finally:
        c.close()


def body(ck):
    b = build('asan')
    ck.refused_marks = []
    r = ck.rng
    net = Net()
    for ci, cfg in enumerate(list(configs(r)) * ck.n(1, 6)):
        slots = r.choice([1, 1, 3])

        def one():
            with Proxy(b.host, net, slots=slots, vf={'short_send': 100, 'short_recv': 200, 'seed': r.randrange(1 << 30)}, **cfg) as px:
                nodes = [Node(net.node(i)) for i in range(slots)]
                slotset = {net.ext(i) for i in range(slots)}
                try:
                    seeds = [r.randrange(1 << 30) for _ in range(slots)]

                    def run(i):
                        rr = random.Random(seeds[i])
                        for _ in range(ck.n(120 if slots == 1 else 45)):
                            attempt(ck, px, cfg, nodes[i], rr, slotset)
                    parallel([lambda i=i: run(i) for i in range(slots)])
                    # quiescent: nothing a refused client sent may have appeared late
                    s = px.session('K1RFD' if permitted(cfg, 'K1RFD') else 'W1AW') if permitted(cfg, 'K1RFD') or permitted(cfg, 'W1AW') else None
                    if s is not None:
                        echo(s, nodes[0])
                        s.close()
                    seen = b''.join(d[3] for n in nodes for d in n.dgrams)
                    for m in ck.refused_marks:
                        if m in seen:
                            raise Violation('refused-had-effect', 'a refused client sent datagrams to the network')
                finally:
                    for n in nodes:
                        n.close()
        ck.run_case(one)


ck = Check('P01', rule='one evaluation is one connection with a generated callsign, answer variant, fragmentation and '
           'pipelined suffix under a generated configuration; distinct by all of these; every one is non-trivial as it is judged by '
           'the admission oracle', assumptions=['MD5 and regular-expression reference: Python hashlib and re (common subset)'])
ck.min_eval = 30
main(ck, body)
