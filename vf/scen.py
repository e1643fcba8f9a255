"""Pieces of scenario shared by several checks."""
import itertools
import threading
import time

from .core import Violation, Inconclusive
from .sim import *

_tag = itertools.count(1)


def tag(prefix='t'):
    return ('%s-%d-%d|' % (prefix, os.getpid(), next(_tag))).encode()


def probe(c, node, what='probe', port=5198, data=None):
    """Relays one tagged datagram to a node; returns the address it came from."""
    t = data or tag(what)
    c.send(msg(UDP_DATA if port == 5198 else UDP_CONTROL, node.addr, t))

    def find():
        for d in node.dgrams[::-1]:
            if d[3] == t:
                return d
    d = wait(lambda: find() or c.eof)
    d = find()
    if d is None:
        if c.host is not None and not c.host.alive():
            c.host.p.wait(30)
            raise c.host.died('relaying a datagram')
        raise Violation('no-relay:' + what, 'a datagram sent by an admitted client did not reach the node (client %s)%s' % (
            'connection ended: %s' % c.eof if c.eof else 'still connected', '\n' + c.host.log_text()[-1200:] if c.host else ''),
            kind='progress')
    return d[1]


def echo(c, node, what='echo', port=5198):
    """Round trip through the session in both directions."""
    src = probe(c, node, what, port)
    t = tag(what + 'r')
    node.sendto(port, t, src)
    typ = UDP_DATA if port == 5198 else UDP_CONTROL
    if not c.wait_msgs(lambda m: any(x == (typ, node.addr, t) for x in m[::-1]), 'an echoed datagram'):
        raise Violation('no-return:' + what, 'a datagram sent to the session did not reach its client (%s)%s' % (
            c.eof, '\n' + c.host.log_text()[-800:] if c.host else ''), kind='progress')
    return src


def parallel(fns, timeout=300):
    """Runs functions in threads, re-raising the first violation."""
    errs = []

    def go(f):
        try:
            f()
        except BaseException as e:
            errs.append(e)
    ts = [threading.Thread(target=go, args=(f,), daemon=True) for f in fns]
    for t in ts:
        t.start()
    end = time.monotonic() + timeout
    for t in ts:
        t.join(max(0.1, end - time.monotonic()))
    for e in errs:
        if isinstance(e, Violation) and e.kind == 'safety':
            raise e
    for e in errs:
        raise e
    if any(t.is_alive() for t in ts):
        raise Inconclusive('a scenario thread did not finish')


class Pool:
    """Lends each running case a network of its own."""

    def __init__(self, nets):
        self.free, self.lk = list(nets), threading.Lock()

    def run(self, ck, b, fn, *args):
        with self.lk:
            net = self.free.pop()
        try:
            fn(ck, b, net, *args)
        finally:
            with self.lk:
                self.free.append(net)
