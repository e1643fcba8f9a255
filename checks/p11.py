"""P11: descriptors, threads and memory return to their baseline after any history."""
from vf.core import Check, main, Violation, Inconclusive
from vf.build import build
from vf.scen import *
from vf.ops import *


def grow(w, name, fn, reps, running, base):
    """Repeats an operation; nothing may grow."""
    fn0 = fn

    def fn(w):
        try:
            fn0(w)
        except Violation as v:
            raise Violation(v.key, '%s: %s' % (name, v.msg), kind=v.kind)
    for _ in range(3):
        fn(w)
    m = [w.settle(base, name)]
    for rnd in range(3):
        for _ in range(reps):
            fn(w)
        m.append(w.settle(m[0], '%s, %d times' % (name, reps * (rnd + 1)), m[-1][2]))
        if m[-1][2] <= m[-2][2] and rnd:
            break
    d = [b[2] - a[2] for a, b in zip(m, m[1:])]
    w.ck.case(('grow', name, running), sample='%s repeated %d times: %r' % (name, reps * (len(m) - 1), m))
    w.ck.maxi(largest_heap_step=max(d))
    w.ck.count(operations=3 + reps * (len(m) - 1))
    if all(x >= reps for x in d) and len(d) == 3:
        raise Violation('memory-grows:' + name, '%s: allocated memory grows with every repetition: %s (per %d repetitions %s)' % (name, [x[2] for x in m], reps, d), kind='progress')


def growth(ck, b, net, seed, names, running, reg=None, slots=2, vf=None):
    r = random.Random(seed)
    w = World(ck, b, net, r, slots, reg, vf)
    px = w.px
    try:
        if running:
            px.up()
        base = w.idle()
        for n in names:
            if ck.left() < 10:
                break
            grow(w, n, (OPS if running else COPS)[n], ck.n(8, 60), running, base)
        finish(w, 'after ' + ', '.join(names))
    except BaseException:
        px.cleanup()
        raise
    finally:
        w.close()


def finish(w, what):
    px = w.px
    px.cmd('close')
    px.cmd('free')
    if px.ret('leakcheck'):
        raise Violation('leak', '%s: memory is leaked\n%s' % (what, px.err_text()[-2500:]))
    c = px.cmd('counters')
    if c['close_ebadf'] or c['io_ebadf'] or c['destroy_busy']:
        raise Violation('stale-descriptor', '%s: a descriptor which was not open was used, or a held lock destroyed (%s)' % (what, c))
    px.end()


def history(ck, b, net, seed, reg, slots, vf):
    """Random mixtures, several operations at a time; then everything is back."""
    r = random.Random(seed)
    w = World(ck, b, net, r, slots, reg, vf)
    px = w.px
    try:
        c_load(w)
        # the first life has the one-time effects
        px.must('open')
        px.cmd('close')
        closed = w.idle()
        lives = []
        for life in range(ck.n(3, 8)):
            px.up()
            idle = w.idle()
            names = []
            for _ in range(ck.n(3, 8)):
                batch = [r.choice([n for n in OPS if n not in ('taken', 'excess', 'drop', 'logs', 'stalled')]) for _ in range(r.choice([1, 3, 6]))]
                names += batch
                if len(batch) == 1:
                    OPS[r.choice(sorted(OPS))](w)
                else:
                    errs = []

                    def go(n):
                        try:
                            OPS[n](w)
                        except Violation as v:
                            # the slots may all be in use by the others
                            if v.kind == 'safety':
                                errs.append(v)
                        except Inconclusive:
                            pass
                    ts = [threading.Thread(target=go, args=(n,), daemon=True) for n in batch]
                    for t in ts:
                        t.start()
                    for t in ts:
                        t.join(120)
                    if errs:
                        raise errs[0]
                    if any(t.is_alive() for t in ts):
                        raise Inconclusive('an operation did not finish')
                ck.count(operations=len(batch))
                for c in w.made:
                    c.close()
                w.made = []
                w.settle(idle, 'after ' + ', '.join(names))
                ck.case((seed, life, tuple(batch)), sample='baseline after ' + ', '.join(names))
            px.cmd('close')
            px.serve_ended()
            lives.append(w.settle(closed, 'closed after ' + ', '.join(names)))
            COPS[r.choice(sorted(COPS))](w)
            w.settle(closed, 'closed')
            c_load(w)
        d = [b2[2] - a[2] for a, b2 in zip(lives, lives[1:])]
        ck.maxi(largest_heap_step_closed=max(d))
        finish(w, 'after a history')
    except BaseException:
        px.cleanup()
        raise
    finally:
        w.close()


def body(ck):
    b = build('asan')
    pool = Pool(Net() for _ in range(8))
    r = ck.rng
    cases = []
    for names, running in ((sorted(OPS), True), (sorted(COPS), False)):
        r.shuffle(names)
        for reg, slots, vf in ck.n([(None, 2, {}), ('ok', 1, {'delay': 100, 'delay_us': 1000})], [(None, 2, {}), ('ok', 1, {'delay': 100, 'delay_us': 1000}), ('http500', 3, {}), ('refuse', 2, {'short_send': 300})]):
            for i in range(0, len(names), 4):
                cases.append((pool.run, ck, b, growth, r.randrange(1 << 30), names[i:i + 4], running, reg, slots, vf))
    for reg, slots in ((None, 3), ('ok', 2), (None, 1), ('refuse', 4), ('garbage', 2)):
        for _ in range(ck.n(1, 8)):
            cases.append((pool.run, ck, b, history, r.randrange(1 << 30), reg, slots, r.choice([{}, {'delay': 50, 'delay_us': 3000}])))
    ck.run_many(cases, 8)


ck = Check('P11', rule='one evaluation is one comparison of descriptors, threads (and allocated bytes) with the baseline after repeated or mixed operations; distinct by operations')
ck.min_eval = 40
main(ck, body)
