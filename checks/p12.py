"""P12: the configuration read equals what the file says, or loading fails."""
from vf.core import Check, main, Violation
from vf.build import build
from vf.scen import *

STR = {b'Password': 'password', b'BindAddress': 'bind_addr', b'PublicAddress': 'public_addr', b'CallsignsDenied': 'calls_denied',
       b'CallsignsAllowed': 'calls_allowed', b'RegistrationName': 'reg_name', b'RegistrationComment': 'reg_comment',
       b'ExternalBindAddress': 'bind_addr_ext'}
ADD = b'AdditionalExternalBindAddresses'
KEYS = list(STR) + [b'Port', b'ConnectionTimeout', ADD]


class Ref:
    """What a configuration file says."""

    def __init__(self):
        self.s = dict((v, None) for v in STR.values())
        self.port, self.timeout, self.add = 8100, 0, []
        self.first_bad = None

    def feed(self, data):
        """True if every line is acceptable; otherwise loading has to fail."""
        for ln in data.split(b'\n'):
            ln = ln.lstrip(b' \t\r\n')
            if not ln or ln[:1] in b'#=' or b'=' not in ln:
                continue
            k, v = ln.split(b'=', 1)
            k, v = k.rstrip(b' \t'), v.lstrip(b' \t').rstrip(b' \t\r\n')
            if k in STR:
                if k == b'Password':
                    if v == b'notset':
                        return False
                    self.s['password'] = v
                else:
                    self.s[STR[k]] = v or None
            elif k in (b'Port', b'ConnectionTimeout'):
                lim = 65535 if k == b'Port' else 4294967295
                v = v.lstrip(b'0') or v[-1:]
                if not v or v.strip(b'0123456789') or len(v) > 30 or int(v) > lim:
                    return False
                if k == b'Port':
                    self.port = int(v)
                else:
                    self.timeout = int(v)
            elif k == ADD:
                self.add = v.split(b',') if v else []
                if len(self.add) > 65535:
                    # more than a configuration can hold
                    return False
        return not (self.add and self.s['bind_addr_ext'] in (None, b'0.0.0.0'))

    def expect(self):
        d = dict((k, None if v is None else v.hex()) for k, v in self.s.items())
        d.update(port=self.port, timeout=self.timeout, add=[a.hex() for a in self.add], add_len=len(self.add))
        return d


def blank(r):
    return b''.join(r.choice([b' ', b'\t']) for _ in range(r.choice([0, 0, 0, 1, 1, 2, 5])))


def text(r, n=None):
    al = b'abcXYZ0189.,-_ #=;\t"\'\\/&%\xe9\xff[]()^$*+?|'
    n = r.choice([0, 1, 2, 3, 8, 20, 60]) if n is None else n
    return bytes(r.choice(al) for _ in range(n))


def addr(r):
    return r.choice([b'127.0.0.%d' % r.randrange(1, 255), b'10.1.2.3', b'0.0.0.0', b'localhost', b'192.168.100.200'])


def value(r, k):
    if k == b'Port':
        return r.choice([b'8100', b'0', b'1', b'65535', b'080', b'0000000000000000000000000080', b'5198', b'%d' % r.randrange(65536)])
    if k == b'ConnectionTimeout':
        return r.choice([b'0', b'1', b'65536', b'4294967295', b'%d' % r.randrange(1 << 32)])
    if k == ADD:
        return b','.join(r.choice([addr(r), addr(r), b'x', b'', b' 127.0.0.9 ']) for _ in range(r.choice([0, 1, 2, 3, 10, 40])))
    if k in (b'BindAddress', b'ExternalBindAddress', b'PublicAddress'):
        return r.choice([addr(r), addr(r), b'', text(r)])
    if k == b'Password':
        return r.choice([b'PUBLIC', b'notset1', b'NOTSET', b'notse', b'secret', text(r), text(r, r.randrange(300))])
    return r.choice([text(r), text(r), b'', text(r, r.randrange(100, 700))])


def bad_value(r, k):
    if k == b'Password':
        return b'notset'
    big = b'65536' if k == b'Port' else b'4294967296'
    return r.choice([big, b'99999999999999999999999', b'18446744073709551616', b'18446744073709559716', b'-1', b'+80', b'80a', b'a80', b'0x50',
                     b'8 0', b'80.0', b'1e3', b'', b'eighty', b'80,', b'80#', b'"80"', b'8100 # comment', b'--', b'\xb2'])


def line(r, k, v):
    """One assignment, padded so that its length is often near a buffer's."""
    pad = b''
    if r.random() < 0.15:
        n = r.choice([127, 128, 129, 255, 256, 257, 383, 384, 385, 512, 1024]) + r.randrange(-2, 3) - len(k) - len(v) - 1
        pad = b' ' * max(0, n)
    where = r.randrange(4) if pad else -1
    return (blank(r) + (pad if where == 0 else b'') + k + (pad if where == 1 else b'') + blank(r) + b'=' + blank(r) + (pad if where == 2 else b'') +
            v + (pad if where == 3 else b'') + blank(r))


def noise(r):
    k = r.choice(KEYS)
    return r.choice([
        b'', b'   ', b'\t', b'#', b'# ' + text(r), b'  #' + line(r, k, value(r, k)), b'=', b'==', b'  = 5', b'=' + k + b'=1', k, k + b' 5', k[:-1] + b'=9',
        k + b'x=1', k.lower() + b'=1', k.upper() + b'=1', b'x' + k + b'=1', b'Unknown=1', text(r).replace(b'=', b''), b'#' * 200, b'z' * r.randrange(600),
        b'z' * r.randrange(600) + b'=' + b'y' * r.randrange(600), k[:3] + b' ' + k[3:] + b'=1', b'Prot=1', b'Poor=99999', b'Passwort=notset',
        b'"' + k + b'"=1', b';' + k + b'=1', k + b':1',
    ])


def config(r):
    ls = []
    many = r.random() < 0.3
    for _ in range(r.choice([1, 3, 6, 12, 30])):
        x = r.random()
        if x < 0.6:
            k = r.choice(KEYS)
            if k == ADD and r.random() < 0.5:
                ls.append(line(r, b'ExternalBindAddress', b'127.0.0.5'))
            ls.append(line(r, k, value(r, k)))
        else:
            ls.append(noise(r))
    if many:
        k = r.choice(KEYS)
        for _ in range(r.randrange(2, 6)):
            ls.insert(r.randrange(len(ls) + 1), line(r, k, value(r, k)))
    if r.random() < 0.12:
        k = r.choice([b'Port', b'ConnectionTimeout', b'Password'])
        ls.insert(r.randrange(len(ls) + 1), line(r, k, bad_value(r, k)))
    if any(x.lstrip().startswith(ADD) for x in ls) and r.random() < 0.7:
        ls.append(line(r, b'ExternalBindAddress', b'127.0.0.6'))
    nl = r.choice([b'\n', b'\n', b'\n', b'\r\n'])
    data = nl.join(ls)
    if r.random() < 0.7:
        data += nl
    return data


def put(path, data):
    with open(path, 'wb') as fp:
        fp.write(data)


def show(data):
    return repr(data)[:1500]


def same(got, want):
    return [k for k in want if got.get(k) != want[k]]


def loads(ck, b, seed, n):
    r = random.Random(seed)
    with Host(b.host) as h:
        h.must('init')
        h.cmd('logmedium 2 %s/l.log' % h.dir)
        f = h.dir + '/c.conf'
        for i in range(n):
            ref = Ref()
            h.must('free')
            h.must('zero')
            h.must('init')
            files = [config(r) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            for j, data in enumerate(files):
                put(f, data)
                good = ref.feed(data)
                ret = h.ret('load ' + f)
                ck.case((data, j), sample=data.decode('latin1')[:120])
                ck.count(accepted=int(good), rejected=int(not good), bytes=len(data))
                if ret >= 0 and not good:
                    raise Violation('accepted', 'a file that must be refused was loaded (returned %d): %s' % (ret, show(data)), witness=data)
                if ret < 0 and good:
                    raise Violation('refused', 'a valid file was refused (%d): %s' % (ret, show(data)), witness=data)
                if not good:
                    break
                d = h.cmd('dump')
                diff = same(d, ref.expect())
                if diff:
                    raise Violation('misread:' + diff[0], 'after loading %s%s: %s is %r, the file says %r' % (
                        show(data), ' (after %d others)' % j if j else '', diff[0], d.get(diff[0]), ref.expect()[diff[0]]), witness=files)
                ck.maxi(longest_line=max(len(x) for x in data.split(b'\n')), most_additional=len(ref.add))
        h.must('free')
        if h.ret('leakcheck'):
            raise Violation('leak', 'memory is lost after loading configurations\n' + h.err_text()[-2500:])


def systematic(ck, b):
    """Every key with every blank arrangement, alone and overridden; every bad number."""
    with Host(b.host) as h:
        f = h.dir + '/c.conf'
        good = {b'Port': (b'81', b'4000'), b'ConnectionTimeout': (b'7', b'12'), ADD: (b'127.0.0.2', b'127.0.0.3,127.0.0.4')}
        cases = []
        for k in KEYS:
            v1, v2 = good.get(k, (b'first', b'second value'))
            pre = b'' if k != ADD else b'ExternalBindAddress=127.0.0.1\n'
            for fm in (b'%s=%s', b'%s =%s', b'%s= %s', b' %s = %s ', b'\t%s\t=\t%s\t', b'%s=%s\r', b'  %s  =  %s  \r', b'\r%s=%s', b' \r\t%s=%s'):
                for end in (b'', b'\n', b'\r\n'):
                    cases.append(pre + fm % (k, v1) + end)
                    cases.append(pre + fm % (k, v1) + b'\n' + fm % (k, v2) + end)
            if k not in (b'Port', b'ConnectionTimeout'):
                cases.append(pre + k + b'=' + v1 + b'\n' + k + b'=\n')
                cases.append(k + b'=   \t \r\n')
            for n in list(range(100, 140)) + list(range(240, 270)) + list(range(370, 390)):
                if k in STR:
                    cases.append(k + b'=' + b'v' * (n - len(k) - 1))
                    cases.append(k + b'=' + b'v' * (n - len(k) - 1) + b'\nPort=99\n')
        for k in (b'Port', b'ConnectionTimeout'):
            for v in (b'65536', b'4294967296', b'4295032896', b'-1', b'+1', b'1x', b'x1', b'1 1', b'', b' ', b'0x1', b'1.0', b'1e1', b'65535', b'65534',
                      b'4294967295', b'18446744073709551616', b'18446744073709551617', b'340282366920938463463374607431768211457', b'00', b'0', b'000001'):
                cases.append(k + b'=' + v + b'\n')
                cases.append(b'Password=x\n' + k + b'=5\n' + k + b'=' + v)
        for v in (b',', b',,', b'a,', b',a', b',a,', b',,a', b'a,,b', b'a,b,c', b'a', b' , ', b'a , b', b',a,b', b','.join(b'10.0.%d.%d' % (i // 250, i % 250) for i in range(900))):
            cases.append(b'ExternalBindAddress=127.0.0.1\n' + ADD + b'=' + v + b'\n')
            cases.append(ADD + b'=' + v + b'\nExternalBindAddress=127.0.0.1\n')
            cases.append(ADD + b'=x,y,z\n' + ADD + b'=' + v + b'\nExternalBindAddress=127.0.0.1')
            cases.append(ADD + b'=' + v)
            cases.append(ADD + b'=' + v + b'\nExternalBindAddress=0.0.0.0')
            cases.append(b'ExternalBindAddress=127.0.0.1\n' + ADD + b'=' + v + b'\nExternalBindAddress=')
            cases.append(ADD + b'=' + v + b'\n' + ADD + b'=')
        # more addresses than the number of them can count
        for n in (255, 256, 257, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 65600, 131072, 131073):
            v = b','.join(b'%d' % (i % 97) for i in range(n))
            cases.append(b'ExternalBindAddress=127.0.0.1\n' + ADD + b'=' + v + b'\n')
            cases.append(b'ExternalBindAddress=127.0.0.1\n' + ADD + b'=a,b\n' + ADD + b'=' + v + b'\nPort=5\n' + ADD + b'=c')
            cases.append(ADD + b'=' + b',' * n + b'\nExternalBindAddress=127.0.0.1')
        # lines and values of any length
        for n in (4095, 4096, 4097, 32766, 32768, 65535, 65536, 65537, 300000):
            for k in (b'Password', b'RegistrationComment', b'CallsignsDenied', b'BindAddress'):
                cases.append(k + b'=' + bytes(97 + (i * 7 + n) % 26 for i in range(n)) + b'\nPort=7\n')
            cases.append(b'#' * n + b'\nPort=9')
            cases.append(b'Port=' + b'0' * n + b'77\nConnectionTimeout=' + b' ' * n + b'12')
            cases.append(b'\n' * n + b'Port=65')
        for v in (b'notset', b' notset ', b'notset\r', b'NotSet', b'notsett', b'otset', b'"notset"', b'', b' '):
            cases.append(b'Password=' + v)
        cases += [b'', b'\n', b'#', b'=', b'\r\n\r\n', b'Port', b'Port\n=5', b'#Port=5', b' #Port=5', b'Port=5#', b'Password=a=b=c', b'Password==', b'Password= = ',
                  b'Password=#x', b'Password=x # y']
        # the sample which comes with the sources, as it is and with each setting given a value
        sample = os.path.join(os.environ.get('VF_REPO', '/repo'), 'doc', 'ELProxy.conf')
        if os.path.exists(sample):
            text = open(sample, 'rb').read()
            cases += [text, text.replace(b'\n', b'\r\n')]
            for k in KEYS:
                for v in good.get(k, (b'some value', b'127.0.0.9')):
                    cases.append(b'\n'.join(k + b'=' + v if x.startswith(k + b'=') else x for x in text.replace(b'notset', b'secret').split(b'\n')))
                    cases.append(cases[-1].replace(b'ExternalBindAddress=0.0.0.0', b'ExternalBindAddress=127.0.0.1'))
        for data in cases:
            put(f, data)
            ref = Ref()
            ok = ref.feed(data)
            h.must('zero')
            h.must('init')
            ret = h.ret('load ' + f)
            ck.case(('sys', data))
            ck.count(systematic=1)
            if (ret >= 0) != ok:
                raise Violation('accepted' if ret >= 0 else 'refused', 'loading %s returned %d' % (show(data), ret), witness=data)
            if ok:
                d = h.cmd('dump')
                diff = same(d, ref.expect())
                if diff:
                    raise Violation('misread:' + diff[0], 'after loading %s: %s is %r, the file says %r' % (
                        show(data), diff[0], d.get(diff[0]), ref.expect()[diff[0]]), witness=data)
            h.must('free')
        # not a readable file at all
        for p in (h.dir + '/none.conf', h.dir):
            h.must('zero')
            h.must('init')
            ck.case(('unreadable', p == h.dir))
            if h.ret('load ' + p) >= 0:
                raise Violation('accepted', 'loading %s succeeded' % ('a directory' if p == h.dir else 'a file that does not exist'))
            h.must('free')
        if h.ret('leakcheck'):
            raise Violation('leak', 'memory is lost after loading configurations\n' + h.err_text()[-2500:])


def opens(ck, b, net, seed):
    """Opening with a loaded file serves exactly as the file says, or fails."""
    r = random.Random(seed)
    with Host(b.host) as h:
        f = h.dir + '/c.conf'
        node = Node(net.node(0))
        try:
            for i in range(ck.n(40, 150)):
                why = r.choice([None, None, None, 'nopw', 'badre', 'badre2', 'noext', 'anyext', 'notset', 'badport', 'badbind'])
                slots = r.choice([1, 2, 3]) if why not in ('noext', 'anyext') else r.choice([2, 3])
                port = r.randrange(2000, 60000)
                pw = r.choice(['PUBLIC', 'x', 'Some Password', '', 'notset2'])
                denied, allowed = r.choice([None, '^BAD', '[0-9]X$']), r.choice([None, '^[A-Z]', 'B|N'])
                ls = ['Port=%d' % (port if why != 'badport' else port + 65536), 'BindAddress=%s' % (net.proxy if why != 'badbind' else '192.0.2.77')]
                if why != 'nopw':
                    ls.append('Password=' + ('notset' if why == 'notset' else pw))
                if why == 'anyext':
                    ls.append('ExternalBindAddress=0.0.0.0')
                elif why != 'noext':
                    ls.append('ExternalBindAddress=' + net.ext(0))
                if slots > 1:
                    ls.append(ADD.decode() + '=' + ','.join(net.ext(k) for k in range(1, slots)))
                if denied or why == 'badre':
                    ls.append('CallsignsDenied=' + ('^(BAD' if why == 'badre' else denied))
                if allowed or why == 'badre2':
                    ls.append('CallsignsAllowed=' + ('[A-' if why == 'badre2' else allowed))
                r.shuffle(ls)
                put(f, '\n'.join(ls).encode())
                h.must('zero')
                h.must('init')
                h.cmd('logmedium 2 %s/l.log' % h.dir)
                ret = h.ret('load ' + f)
                if ret >= 0:
                    ret = h.ret('open')
                ck.case(('open', why, slots, pw, denied, allowed), sample='%s slots=%d' % (why, slots))
                if (ret >= 0) != (why is None):
                    raise Violation('opened' if ret >= 0 else 'not-opened', 'configuration %r (%s) gave %d' % (ls, why or 'valid', ret), witness=ls)
                if why is not None:
                    c = Client(net.proxy, port, host=h)
                    if not c.eof:
                        raise Violation('listening', 'the proxy listens although opening failed (%s)' % why)
                    c.close()
                    ck.count(failed_opens=1)
                else:
                    h.must('start')
                    h.cmd('serve %d' % (i + 1))
                    cs, srcs = [], []
                    try:
                        for k in range(slots):
                            call = r.choice(['BAD1', 'W1X', 'N0CALL', '9A1B'])
                            import re as _re
                            ok = not (denied and _re.search(denied, call)) and (not allowed or bool(_re.search(allowed, call)))
                            c = Client(net.proxy, port, host=h)
                            if c.eof:
                                raise Violation('not-listening', 'the opened proxy does not accept on its port: %s' % c.eof, kind='progress')
                            cs.append(c)
                            if c.nonce() is None:
                                raise Violation('no-service', 'connection %d of %d slots refused' % (k, slots), kind='progress')
                            c.greet(call, pw)
                            if ok:
                                srcs.append(probe(c, node, 'P12'))
                            else:
                                if c.wait_eof() is None or c.rest()[-1:] != b'\x02':
                                    raise Violation('pattern-ignored', 'callsign %s was not refused with denied=%s allowed=%s: %r' % (
                                        call, denied, allowed, c.rest()))
                                break
                            ck.count(sessions=1)
                        if srcs != [net.ext(k) for k in range(len(srcs))] and set(srcs) - {net.ext(k) for k in range(slots)}:
                            raise Violation('wrong-address', 'sessions use %s, configured are %s' % (srcs, [net.ext(k) for k in range(slots)]))
                    finally:
                        for c in cs:
                            c.close()
                    h.cmd('close')
                h.must('free')
        finally:
            node.close()


def body(ck):
    b = build('asan')
    net = Net()
    r = ck.rng
    ck.run_case(systematic, ck, b)
    for _ in range(ck.n(6, 60)):
        ck.run_case(loads, ck, b, r.randrange(1 << 30), 400)
    for _ in range(ck.n(2, 10)):
        ck.run_case(opens, ck, b, net, r.randrange(1 << 30))


ck = Check('P12', rule='one evaluation is one configuration file loaded (and, for some, opened and used), compared setting by setting with an '
           'independent reading of the file; distinct by file content')
ck.min_eval = 1000
main(ck, body)
