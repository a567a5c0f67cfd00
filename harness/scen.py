"""Scenarios for the stream (what the source does, what the clients do)."""
import itertools
import random

ERRS = ['source', 'exit', 'stop', 'value', 'base', 'key', 'os', 'interrupt', 'falsy', 'gen', 'assertion', 'runtime']
KINDS = ('tup', 'dict', 'ident', 'str', 'opaque', 'float', 'ktup', 'empty')


# -- sources ---------------------------------------------------------------------------
def reads(rng, n=None, fail=0.0, ooo=0.0, badkey=0.0, none=0.25, slow=0.3, first=None):
    n = rng.randint(2, 7) if n is None else n
    k = rng.choice([0, 0, 1, -2]) if first is None else first
    out = []
    for _ in range(n):
        while rng.random() < none:
            out.append(['n', rng.choice([0, 0, 100])])
        d = rng.choice([1, 50, 300, 900]) if rng.random() < slow else 0
        x = rng.random()
        if x < fail:
            out.append(['x', d])
            continue
        if x < fail + badkey:
            out.append(['k', k, d])
            continue
        if x < fail + badkey + ooo and out:
            out.append(['i', k - rng.choice([1, 1, 2]), d])
            continue
        out.append(['i', k, d])
        k += rng.choice([1, 1, 1, 2, 3])
    return out


def session(rng, **kw):
    p_open = kw.pop('open_fail', 0)
    p_info = kw.pop('info_fail', 0)
    p_close = kw.pop('close_fail', 0.1)
    s = dict(reads=reads(rng, **kw))
    if rng.random() < p_open:
        s['open'] = 'fail'
    elif rng.random() < p_info:
        s['info'] = 'fail'
    if rng.random() < p_close:
        s['close'] = 'fail'
    if rng.random() < 0.5:
        s['err'] = rng.choice(ERRS[1:])
    if rng.random() < 0.2:
        s['open_d'] = rng.choice([1, 700])
    if rng.random() < 0.2:
        s['close_d'] = rng.choice([1, 700])
    return s


# -- reader calls ------------------------------------------------------------------------
def tri(rng):
    return rng.choice([None, None, True, False])


def opts(**kw):
    return {k: v for k, v in kw.items() if v is not None}


def rd_read(rng, r):
    return ['read', r, opts(n=rng.choice([None, None, 1, 2, 3]), peek=tri(rng),
                            ignore_no_item_found=rng.choice([None, True, True, False]), strict_n=tri(rng))]


def rd_block(rng, r):
    return ['read', r, opts(n=rng.choice([None, None, None, 2, 3]), peek=rng.choice([None, None, True, False]),
                            ignore_no_item_found=tri(rng), strict_n=rng.choice([None, None, True]), blocking=True)]


def rd_range(rng, r):
    lo = rng.randint(-2, 7)
    hi = lo + rng.randint(-1, 6)
    return ['range', r, lo, hi, opts(step=rng.choice([None, None, 2, 3]), peek=rng.choice([None, None, True]),
                                     ignore_no_item_found=tri(rng), only_new_items=rng.choice([None, True, True]),
                                     start_le=rng.choice([None, True]), stop_ge=rng.choice([None, None, True]))]


def rd_tail(rng, r):
    return ['tail', r, opts(peek=rng.choice([None, None, True]), ignore_no_item_found=tri(rng),
                            only_new_items=rng.choice([None, True]))]


def rd_head(rng, r):
    return ['head', r, opts(peek=rng.choice([None, None, True]))]


def mk(rng, r, plain=0.5):
    if rng.random() < plain:
        return ['mk', r]
    return ['mk', r, opts(read_size=rng.choice([None, 1, 2, 3]), peek=rng.choice([None, None, None, True]),
                          ignore_no_item_found=tri(rng), strict_n=rng.choice([None, None, True]))]


OPS = dict(
    read=lambda g, r: [rd_read(g, r)],
    block=lambda g, r: [rd_block(g, r)],
    range=lambda g, r: [rd_range(g, r)],
    tail=lambda g, r: [rd_tail(g, r)],
    head=lambda g, r: [rd_head(g, r)],
    next=lambda g, r: [['next', r, g.randint(1, 2)]],
    iter=lambda g, r: [['iter', r, g.choice([1, 2, 3, 12])]],
    sbiter=lambda g, r: [['sbiter', r + 'i', g.choice([1, 2, 12])]],
    last=lambda g, r: [['last', r]],
    stopped=lambda g, r: [['stopped', r]],
    info=lambda g, r: [['info', r]],
    same=lambda g, r: [['same', r, r + "'"], ['same', r, r]],
    mk=lambda g, r: [mk(g, r + "'")],
    remk=lambda g, r: [mk(g, r)],
    attach=lambda g, r: [['attach', r], ['last', r]],
    sbnext=lambda g, r: [['sbnext', g.randint(1, 3), g.choice(['next', 'call'])]],
    isrun=lambda g, r: [['isrun']],
    seek=lambda g, r: [['seek', r, g.randint(-2, 8)]],
    reset=lambda g, r: [['reset', r]],
    sjoin=lambda g, r: [['sjoin', g.choice([None, None, 1, 700])]],
    sinfo=lambda g, r: [['sinfo']],
    drop=lambda g, r: [['drop', g.choice([None, 1, 1, 2, 3, 0, -1])]],
    sleep=lambda g, r: [['sleep', g.choice([1, 100, 300, 1000])]],
    start=lambda g, r: [['start']],
    stop=lambda g, r: [['stop']],
)


def client(rng, r, weights, n):
    ops = [mk(rng, r)]
    names = list(weights)
    w = [weights[x] for x in names]
    for _ in range(n):
        ops += OPS[rng.choices(names, w)[0]](rng, r)
    return ops


READING = dict(read=5, block=2, range=4, tail=3, head=2, next=3, iter=2, last=2, sleep=2)


def gen(rng, *, clients=(2, 3), n_ops=(2, 5), weights=READING, auto=None, maxlens=(1, 2, 2, 3, 4, None),
        sess_kw=None, n_sess=(1, 1), lifecycle=None, drops=None, drop_n=(None, 1, 1, 2, 5, -1), kinds=KINDS, sleeps=(0.1, 0.2, 0.5, None), pre=0.3,
        special=None):
    """A random scenario.  special: weights of one more client (state changing calls)."""
    sess_kw = sess_kw or {}
    a = rng.random() < 0.6 if auto is None else auto
    ns = rng.randint(*n_sess)
    scn = dict(
        src=dict(kind=rng.choice(kinds), sleep=rng.choice([None, 0.25]), **{'class': rng.choice(['reader', 'reader', 'plain', 'protocol'])},
                 sessions=[session(rng, **sess_kw) for _ in range(ns)] + [dict(reads=[['i', 0], ['i', 1]])]),
        buf=dict(maxlen=rng.choice(maxlens), auto=a, sleep=rng.choice(sleeps)),
        via=rng.choice(['init', 'method']),
        clients={},
    )
    for i in range(rng.randint(*clients)):
        scn['clients']['ABCD'[i]] = client(rng, 'abcd'[i], weights, rng.randint(*n_ops))
    if not a:
        d = []
        for _ in range(rng.randint(1, 3) if drops is None else drops):
            d += [['sleep', rng.choice([1, 200, 600])], ['drop', rng.choice(drop_n)]]
        scn['clients']['D'] = d
    if special:
        scn['clients']['S'] = client(rng, 's', special, rng.randint(2, 4))
    names = list(scn['clients'])
    main = []
    if rng.random() < pre:
        main += rng.sample([['isrun'], ['mk', 'm'], ['sinfo'], ['sbnext', 1]], 2)
    for k in range(ns):
        if k and rng.random() < 0.4:
            main += [['stop'], ['sleep', rng.choice([1, 500])]]
        main += [['start']]
        if rng.random() < 0.3:
            main += [['isrun']]
        if k == 0:
            early = rng.random()
            if early < 0.2:
                main = main[:-1] + [['spawn', x] for x in names] + main[-1:]
            else:
                main += [['sleep', rng.choice([1, 200, 900])]] if early < 0.6 else []
                main += [['spawn', x] for x in names]
        main += [['sleep', rng.choice([1, 300, 800, 2000])]]
        if rng.random() < 0.15:
            main += [['q', 6000]]
    main += [['finish'], ['q', 6000]]
    for r in 'ab':
        if rng.random() < 0.5:
            main += rng.choice([[['iter', r, 12]], [['next', r, 9]], [['read', r, dict(blocking=True)]],
                                [['tail', r, {}], ['last', r]], [['range', r, -5, 40, {}]]])
    if rng.random() < 0.3:
        main += [['isrun'], ['sinfo']]
    scn['main'] = main
    return scn


FULL = [['mk', 'z'], ['range', 'z', -9, 59, dict(peek=True, ignore_no_item_found=True)],
        ['head', 'z', dict(peek=True)], ['tail', 'z', dict(peek=True)]]


def sess(*items, **kw):
    """sess(0, 1, 'n', 'x') -> a session script"""
    rd = []
    d = kw.pop('d', 0)
    for i in items:
        if isinstance(i, int):
            rd.append(['i', i, d])
        elif isinstance(i, (list, tuple)):
            rd.append(list(i))
        else:
            rd.append([i])
    return dict(reads=rd, **kw)


def scn(sessions, main, clients=None, maxlen=3, auto=True, sleep=0.25, kind='tup', **kw):
    if isinstance(sessions, dict):
        sessions = [sessions]
    return dict(src=dict(kind=kind, sleep=None, sessions=sessions), buf=dict(maxlen=maxlen, auto=auto, sleep=sleep),
                clients=clients or {}, main=main, **kw)


PEEKALL = dict(peek=True, ignore_no_item_found=True)


# -- families: name -> (templates, random generator) ---------------------------------------
def t_window():
    for maxlen in (1, 2, 3, None, 0):
        for kind in ('tup', 'ident', 'opaque', 'dict'):
            yield scn(sess(0, 1, 'n', 2, 3, 5, 6), [['start'], ['spawn', 'A'], ['sleep', 700], ['finish'], ['q', 3000], *FULL],
                      dict(A=[['mk', 'a'], ['range', 'a', -9, 50, PEEKALL], ['tail', 'a', PEEKALL_T], ['sleep', 250],
                              ['range', 'a', -9, 50, PEEKALL], ['read', 'a', dict(n=3, ignore_no_item_found=True)]]),
                      maxlen=maxlen, kind=kind)


PEEKALL_T = dict(peek=True, ignore_no_item_found=True)


def g_window(rng):
    return gen(rng, auto=True, maxlens=(0, 1, 1, 2, 2, 3, 4, None), weights=dict(range=4, tail=3, head=2, read=2, sleep=3),
               n_sess=(1, 2), sess_kw=dict(n=rng.randint(3, 9), fail=0.03))


def t_manual():
    for maxlen in (1, 2, 3, None):
        for drops in ([1], [2], [1, 1], [3], [5, 1], [-2, 1]):
            d = []
            for n in drops:
                d += [['sleep', 600], ['drop', n]]
            yield scn(sess(0, 1, 2, 'n', 3, 4, 5, 6), [['start'], ['spawn', 'A'], ['spawn', 'D'], ['sleep', 600], ['q', 3000], ['finish'], ['q', 3000], *FULL],
                      dict(A=[['mk', 'a'], ['range', 'a', -9, 50, PEEKALL], ['sleep', 500],
                              ['range', 'a', -9, 50, PEEKALL], ['iter', 'a', 3]], D=d), maxlen=maxlen, auto=False)
    # dropping is refused with automatic dropping
    yield scn(sess(0, 1, 2), [['start'], ['sleep', 500], ['drop', 1], ['drop', 0], *FULL, ['finish'], ['drop', None], ['range', 'z', -9, 50, {}]])
    yield scn(sess(0, 1, 2), [['drop', 1], ['start'], ['sleep', 500], ['drop', 0], ['finish'], ['drop', 1], *FULL], auto=False, maxlen=2)


def g_manual(rng):
    return gen(rng, auto=False, maxlens=(1, 2, 3, 4, None, 0), weights=dict(range=4, tail=2, head=2, read=2, sleep=3, drop=2, next=1),
               n_sess=(1, 2), drops=rng.randint(1, 5), sess_kw=dict(n=rng.randint(3, 9), fail=0.02))


def t_order():
    for bad in (1, 0, 2, -1):
        for maxlen in (1, 2, 4, None):
            for auto in (True, False):
                yield scn(sess(0, 1, 2, bad, 7, 8), [['start'], ['spawn', 'A'], ['sleep', 2000], ['isrun'], ['q', 3000], *FULL, ['isrun'],
                                                    ['start'], ['sleep', 300], ['finish'], ['q', 3000]],
                          dict(A=[['mk', 'a'], ['range', 'a', -9, 50, PEEKALL], ['iter', 'a', 9], ['stopped', 'a']]),
                          maxlen=maxlen, auto=auto)
    for kind in ('ident', 'str', 'float', 'ktup', 'opaque'):
        yield scn(sess(0, 0, 1), [['start'], ['sleep', 900], ['q', 3000], *FULL, ['isrun'], ['finish']], kind=kind)
        yield scn(sess(3, 2, 1), [['start'], ['sleep', 900], ['q', 3000], *FULL, ['isrun'], ['finish']], kind=kind)
        # keys that are not greater than others because they have no order with them
        for k in range(4):
            yield scn([sess(0, ['u', k, 0], 2, 3), sess(0, 1, 2, ['u', k + 1, 200], 3, 4)],
                      [['start'], ['spawn', 'A'], ['sleep', 900], ['q', 3000], *FULL, ['isrun'], ['start'], ['sleep', 900], *FULL, ['q', 3000], ['finish']],
                      dict(A=[['mk', 'a'], ['iter', 'a', 9], ['stopped', 'a']]), kind=kind, maxlen=2 + k % 2)


def g_order(rng):
    return gen(rng, weights=dict(range=4, tail=3, read=2, iter=2, sleep=2, next=1, block=1, stopped=1), n_sess=(1, 3),
               sess_kw=dict(n=rng.randint(3, 8), ooo=0.25))


def with_unordered(rng):
    s = g_order(rng)
    if s['buf']['auto'] and s['buf']['maxlen'] != 0:
        for x in s['src']['sessions']:
            at = [i for i, e in enumerate(x['reads']) if e[0] == 'i']
            if len(at) > 1 and rng.random() < 0.4:
                x['reads'][rng.choice(at[1:])][0] = 'u'
    return s


def t_fail():
    errs = itertools.cycle(ERRS)
    for pos in range(4):
        for what in ('x', ['x', 500], ['k', 9], ['k', 9, 300]):
            for close in ('ok', 'fail'):
                items = [0, 1, 2, 3]
                items.insert(pos, what)
                s = sess(*items, close=close, err=next(errs))
                yield scn([s, sess(0, 1)], [['start'], ['spawn', 'A'], ['spawn', 'B'], ['sleep', 1500], ['isrun'], ['q', 3000], *FULL, ['isrun'],
                                            ['start'], ['isrun'], ['sleep', 300], *FULL, ['finish'], ['q', 3000]],
                          dict(A=[['mk', 'a'], ['iter', 'a', 9]], B=[['mk', 'b'], ['read', 'b', dict(blocking=True)], ['read', 'b', dict(blocking=True)],
                                                                     ['stopped', 'b']]), maxlen=2 + pos % 2)
    for how in (dict(open='fail'), dict(info='fail'), dict(info='fail', close='fail'), dict(open='fail', err='base'), dict(info='fail', err='exit')):
        yield scn([sess(0, 1, **how), sess(0, 1)],
                  [['start'], ['isrun'], ['sinfo'], ['mk', 'm'], ['sbnext', 1], ['q', 2000], ['start'], ['isrun'], ['sleep', 300], *FULL, ['finish'], ['q', 3000]])
        yield scn([sess(0, 1), sess(0, 1, **how), sess(0, 1)],
                  [['start'], ['mk', 'a'], ['sleep', 300], ['start'], ['isrun'], ['sinfo'], ['mk', 'm'], ['attach', 'a'], ['sbnext', 1], ['stopped', 'a'],
                   ['q', 2000], ['iter', 'a', 5], ['body', 'ok', ['isrun'], ['sleep', 300], *FULL], ['q', 3000]])
        yield scn([sess(0, 1, open_d=500, **how), sess(0, 1)],
                  [['spawn', 'A'], ['start'], ['isrun'], ['start'], ['sleep', 400], ['finish'], ['q', 3000]],
                  dict(A=[['sleep', 100], ['mk', 'a'], ['isrun'], ['iter', 'a', 9]]))
        yield scn([sess(0, 1, **how), sess(0, 1)], [['body', 'ok', ['isrun']], ['isrun'], ['body', 'raise', ['sleep', 400], *FULL], ['q', 3000]])


def g_fail(rng):
    return gen(rng, weights=dict(range=2, tail=2, read=2, iter=3, sleep=2, next=2, block=3, stopped=2, isrun=1), n_sess=(1, 3),
               sess_kw=dict(n=rng.randint(2, 7), fail=0.12, badkey=0.06, ooo=0.06, open_fail=0.15, info_fail=0.1, close_fail=0.3))


def t_protocol():
    # slow reads and long sleeps while stopping and restarting
    for d in (0, 300, 1500, 2500):
        for sleep in (0.25, 3):
            yield scn([sess(0, 1, d=d), sess(0, 'n', 1, d=d), sess(0, 1)],
                      [['start'], ['sleep', 500], ['start'], ['sleep', 300], ['stop'], ['sleep', 100], ['start'], ['sleep', 400], ['finish'], ['q', 8000]],
                      sleep=sleep)
            yield scn([sess(0, 'n', 1, d=d, close_d=1700), sess(0, 1)],
                      [['start'], ['spawn', 'A'], ['sleep', 500], ['stop'], ['start'], ['sleep', 400], ['joinall'], ['finish'], ['q', 8000]],
                      dict(A=[['sleep', 400], ['stop'], ['isrun'], ['start']]), sleep=sleep)
    for how in ('ok', 'raise'):
        yield scn([sess(0, 1, 2, d=100), sess(0, 1)], [['body', how, ['sleep', 150]], ['q', 5000], ['body', how, ['sleep', 1], ['start'], ['sleep', 300]], ['q', 5000]])
    yield scn([sess(0, 1, 2), sess(0, 1), sess(0, 1)], [['spawn', 'A'], ['spawn', 'B'], ['start'], ['sleep', 300], ['joinall'], ['finish'], ['q', 5000]],
              dict(A=[['start'], ['isrun']], B=[['start'], ['stop'], ['isrun']]))
    yield scn([sess(0, 1, 2, 3, 4, d=200)], [['start'], ['sleep', 100], ['stop'], ['q', 4000], ['isrun'], ['stop'], ['q', 3000]])
    yield scn([sess('n', 'n', 'n')], [['start'], ['stop'], ['q', 4000], ['start'], ['stop'], ['stop'], ['q', 3000]])
    for d in (0, 2500):
        yield scn([sess(0, 'n', 1, d=d, close_d=700), sess(0, 'x'), sess(0)],
                  [['sjoin'], ['start'], ['spawn', 'A'], ['sjoin', 500], ['stop'], ['sjoin'], ['start'], ['sjoin'], ['isrun'], ['start'], ['sleep', 200], ['finish'], ['sjoin'], ['q', 3000]],
                  dict(A=[['sjoin'], ['isrun'], ['sjoin', 100], ['sjoin']]))


def g_protocol(rng):
    return gen(rng, clients=(0, 1), n_sess=(2, 3), weights=dict(read=2, isrun=2, sleep=2, iter=1), sleeps=(0.1, 0.2, 1.5, 3, None),
               sess_kw=dict(n=rng.randint(1, 6), slow=0.6, fail=0.05, open_fail=0.08, info_fail=0.08),
               special=dict(start=3, stop=3, isrun=1, sleep=3, sjoin=1))


def t_session():
    yield scn([sess(0, 1, 2), sess(0, 5, 6), sess(7)],
              [['isrun'], ['sinfo'], ['mk', 'x'], ['sbnext', 1], ['start'], ['isrun'], ['sinfo'], ['mk', 'a'], ['sleep', 400], ['read', 'a', {}], ['sbnext', 2],
               ['start'], ['isrun'], ['sinfo'], ['mk', 'b'], ['same', 'a', 'b'], ['stopped', 'a'], ['stopped', 'b'], ['info', 'a'], ['info', 'b'],
               ['sleep', 400], ['sbnext', 2], ['iter', 'a', 9], ['read', 'b', dict(n=3)], ['attach', 'a'], ['info', 'a'], ['last', 'a'], ['stopped', 'a'],
               ['same', 'a', 'b'], ['read', 'a', dict(ignore_no_item_found=True)], ['range', 'a', -1, 9, {}], ['stop'], ['isrun'], ['sinfo'], ['stopped', 'a'],
               ['sbnext', 4], ['q', 3000], ['start'], ['sleep', 300], ['sbnext', 2], ['finish'], ['sbnext', 1], ['q', 3000]])
    yield scn([sess(0, 1, 2, open_d=400), sess(0, 3, open_d=400), sess(7)],
              [['spawn', 'A'], ['spawn', 'B'], ['start'], ['sleep', 300], ['start'], ['sleep', 300], ['joinall'], ['finish'], ['q', 3000]],
              dict(A=[['sleep', 100], ['mk', 'a'], ['info', 'a'], ['isrun'], ['sinfo'], ['sleep', 1500], ['mk', 'a2'], ['same', 'a', 'a2'], ['info', 'a2'], ['attach', 'a'], ['info', 'a']],
                   B=[['isrun'], ['sleep', 900], ['sbnext', 1], ['sleep', 700], ['isrun'], ['sinfo'], ['sbnext', 2], ['sleep', 700], ['sbnext', 2]]))
    yield scn([sess(0, 'x'), sess(0, 3), sess(7)],
              [['start'], ['mk', 'a'], ['sleep', 300], ['isrun'], ['stopped', 'a'], ['sbnext', 2], ['start'], ['isrun'], ['mk', 'b'], ['same', 'a', 'b'],
               ['sleep', 300], ['sbnext', 3], ['stop'], ['isrun'], ['body', 'ok', ['sleep', 300], ['sbnext', 1], ['mk', 'c'], ['read', 'c', {}]], ['isrun'], ['q', 3000],
               ['iter', 'b', 9], ['iter', 'c', 9]])
    yield scn([sess(0, 1), sess(0, 1)],
              [['start'], ['sleep', 300], ['spawn', 'A'], ['spawn', 'B'], ['stop'], ['start'], ['joinall'], ['finish'], ['q', 3000]],
              dict(A=[['mk', 'a'], ['stopped', 'a'], ['isrun'], ['info', 'a'], ['sinfo'], ['stopped', 'a']], B=[['sbnext', 3], ['isrun'], ['sleep', 1300], ['sbnext', 3], ['isrun']]))


    for how in ('ok', 'fail'):
        yield scn([sess(0, 1), sess(0, open_d=300, open=how), sess(0, 1)],
                  [['start'], ['spawn', 'A'], ['start'], ['start'], ['joinall'], ['finish'], ['q', 3000]],
                  dict(A=[['sleep', 900], ['sinfo'], ['sleep', 100], ['sinfo'], ['sleep', 300], ['sinfo']]))


def g_session(rng):
    return gen(rng, clients=(1, 2), n_sess=(2, 3), n_ops=(3, 7),
               weights=dict(read=2, isrun=3, sleep=2, iter=1, mk=2, remk=1, same=3, info=3, stopped=2, attach=3, sinfo=2, last=1, tail=1),
               sess_kw=dict(n=rng.randint(1, 5), fail=0.05, open_fail=0.12, info_fail=0.08),
               special=dict(start=2, stop=2, isrun=1, sleep=3, sbnext=4, sbiter=1))


def t_read():
    for kw in ({}, dict(n=2), dict(n=3, strict_n=True), dict(n=2, peek=True), dict(n=3, ignore_no_item_found=True)):
        for maxlen in (2, 3):
            yield scn(sess(0, 1, 'n', 2, 4, 5), [['start'], ['spawn', 'A'], ['spawn', 'B'], ['sleep', 700], ['finish'], ['q', 3000], ['iter', 'a', 9]],
                      dict(A=[['mk', 'a']] + [['read', 'a', kw], ['last', 'a']] * 3, B=[['mk', 'b'], ['read', 'b', dict(ignore_no_item_found=True)], ['tail', 'b', PEEKALL_T], ['last', 'b']]), maxlen=maxlen)


def g_read(rng):
    return gen(rng, weights=dict(read=8, next=3, last=2, sleep=2, tail=1, head=1, seek=1, reset=1), sess_kw=dict(n=rng.randint(3, 8), none=0.15))


def t_cursor():
    for mkw in ({}, dict(read_size=2), dict(read_size=2, peek=True), dict(read_size=3, strict_n=True), dict(ignore_no_item_found=True)):
        yield scn(sess(0, 1, 'n', 2, 4), [['start'], ['spawn', 'A'], ['spawn', 'B'], ['sleep', 400], ['finish'], ['q', 3000]],
                  dict(A=[['mk', 'a', mkw], ['read', 'a', {}], ['last', 'a'], ['next', 'a'], ['last', 'a'], ['read', 'a', dict(n=1, peek=False, ignore_no_item_found=True)], ['last', 'a'],
                          ['range', 'a', 0, 9, {}], ['last', 'a']],
                       B=[['mk', 'b'], ['tail', 'b', PEEKALL_T], ['last', 'b'], ['head', 'b', dict(peek=True)], ['last', 'b'], ['range', 'b', 5, 9, {}], ['last', 'b'],
                          ['range', 'b', 0, 9, dict(peek=True)], ['last', 'b']]), maxlen=2)


def g_cursor(rng):
    w = dict(read=4, next=2, range=3, tail=3, head=2, sleep=2, seek=1, reset=1)
    s = gen(rng, weights=w, n_ops=(3, 5), sess_kw=dict(n=rng.randint(3, 7)))
    for k, ops in s['clients'].items():
        if k in 'ABC':
            out = []
            for o in ops:
                out.append(o)
                if o[0] in w and o[0] != 'sleep':
                    out.append(['last', o[1]])
            s['clients'][k] = out
    return s


def t_range():
    for kw in ({}, dict(only_new_items=True), dict(start_le=True), dict(stop_ge=True), dict(only_new_items=True, start_le=True, stop_ge=True, ignore_no_item_found=True)):
        for lo, hi in ((0, 5), (3, 4), (1, 9)):
            yield scn(sess(0, 1, 'n', 2, 4, 5), [['start'], ['spawn', 'A'], ['sleep', 700], ['finish'], ['q', 3000]],
                      dict(A=[['mk', 'a']] + [['range', 'a', lo, hi, kw]] * 4), maxlen=3)


def g_range(rng):
    return gen(rng, weights=dict(range=8, read=1, last=2, sleep=2, seek=1, reset=1), sess_kw=dict(n=rng.randint(3, 8), none=0.15))


def t_ends():
    for kw in ({}, dict(only_new_items=True), dict(only_new_items=True, ignore_no_item_found=True), dict(peek=True)):
        yield scn(sess(0, 1, 'n', 2, 4, 5), [['start'], ['spawn', 'A'], ['spawn', 'B'], ['sleep', 700], ['finish'], ['q', 3000]],
                  dict(A=[['mk', 'a']] + [['tail', 'a', kw]] * 4 + [['last', 'a']], B=[['mk', 'b']] + [['head', 'b', {}]] * 3 + [['last', 'b']]), maxlen=2)


def g_ends(rng):
    return gen(rng, weights=dict(tail=6, head=4, read=1, last=2, sleep=2, seek=1, reset=1), sess_kw=dict(n=rng.randint(3, 8), none=0.15))


def t_iter():
    for items in ((0, 1, 2), (0, 'n', 1), (0, 'x'), (0, 1, 0), ('n', 0, 1, 'n', 2), (0, ['i', 1, 300], ['i', 2, 300])):
        for mkw in ({}, dict(read_size=2), dict(ignore_no_item_found=True)):
            yield scn(sess(*items), [['start'], ['spawn', 'A'], ['spawn', 'B'], ['sleep', 260], ['stop'], ['joinall'], ['q', 3000]],
                      dict(A=[['mk', 'a', mkw], ['iter', 'a', 12]], B=[['sbiter', 'b', 12]]), maxlen=4)
            yield scn(sess(*items), [['start'], ['sbnext', 1], ['spawn', 'B'], ['sleep', 260], ['sbnext', 1], ['stop'], ['joinall'], ['q', 3000], ['sbnext', 4], ['sbiter', 'c', 12]],
                      dict(B=[['sbiter', 'b', 12]]), maxlen=4)
            yield scn(sess(*items), [['start'], ['spawn', 'A'], ['sleep', 260], ['stop'], ['joinall'], ['q', 3000], ['next', 'a', 2]],
                      dict(A=[['mk', 'a', mkw], ['next', 'a', 3], ['sleep', 200], ['next', 'a', 4], ['iter', 'a', 12]]), maxlen=2)
    yield scn([sess(0, 1), sess(5, 6)], [['start'], ['spawn', 'A'], ['sleep', 300], ['start'], ['spawn', 'B'], ['sleep', 200], ['finish'], ['q', 3000]],
              dict(A=[['mk', 'a'], ['iter', 'a', 12], ['sbiter', 'c', 12]], B=[['sbiter', 'b', 12], ['sbnext', 4]]))


    # nothing new for a long time
    for op in (['iter', 'a', 12], ['sbiter', 'a', 12]):
        yield scn(sess(0, ['i', 1, 110000], 2), [['start'], ['spawn', 'A'], ['sleep', 120000], ['stop'], ['joinall'], ['q', 3000]], dict(A=[['mk', 'a'], op]), maxlen=4)


def g_iter(rng):
    return gen(rng, weights=dict(iter=5, next=5, sbiter=3, read=1, sleep=2), n_sess=(1, 2), sess_kw=dict(n=rng.randint(1, 6), fail=0.08, ooo=0.04),
               special=dict(sbnext=3, sbiter=3, sleep=1) if rng.random() < 0.3 else None)


def t_block():
    for items in ((0, 1, 2), (0, 'n', 1), (0, 'x'), (0, 1, 0), ('n', 0, 1, 'n', 2), (0, ['i', 1, 300], ['i', 2, 300])):
        for kw in ({}, dict(n=2), dict(ignore_no_item_found=True), dict(peek=True), dict(n=3, strict_n=True)):
            b = ['read', 'a', dict(kw, blocking=True)]
            yield scn(sess(*items), [['start'], ['spawn', 'A'], ['spawn', 'B'], ['sleep', 260], ['stop'], ['joinall'], ['q', 3000]],
                      dict(A=[['mk', 'a'], b, b, b, ['last', 'a']], B=[['mk', 'b'], ['read', 'b', dict(blocking=True)], ['read', 'b', dict(blocking=True)], ['read', 'b', dict(blocking=True)]]), maxlen=4)


    b = ['read', 'a', dict(blocking=True)]
    yield scn(sess(0, ['i', 1, 110000], 2), [['start'], ['spawn', 'A'], ['sleep', 120000], ['stop'], ['joinall'], ['q', 3000]], dict(A=[['mk', 'a'], b, b, b, b]), maxlen=4)


def g_block(rng):
    return gen(rng, weights=dict(block=8, read=1, next=1, sleep=2, last=1), sess_kw=dict(n=rng.randint(1, 6), fail=0.1, ooo=0.05))


def t_snap():
    yield scn(sess(0, 1, 2, 3, 4, 5, 6), [['start'], ['spawn', 'A'], ['spawn', 'B'], ['spawn', 'C'], ['sleep', 300], ['finish'], ['q', 3000]],
              dict(A=[['mk', 'a'], ['range', 'a', 0, 9, PEEKALL], ['tail', 'a', PEEKALL_T], ['range', 'a', 0, 9, PEEKALL]],
                   B=[['mk', 'b'], ['read', 'b', dict(n=3, ignore_no_item_found=True)], ['read', 'b', dict(n=2, ignore_no_item_found=True)], ['head', 'b', dict(peek=True)]],
                   C=[['mk', 'c'], ['tail', 'c', PEEKALL_T], ['head', 'c', dict(peek=True)], ['range', 'c', 1, 4, dict(ignore_no_item_found=True)]]), maxlen=3)
    yield scn(sess(0, 1, 2, 3, 4, 5), [['start'], ['sleep', 10], ['spawn', 'A'], ['spawn', 'B'], ['spawn', 'D'], ['sleep', 300], ['finish'], ['q', 3000]],
              dict(A=[['mk', 'a'], ['range', 'a', 0, 9, PEEKALL], ['tail', 'a', PEEKALL_T], ['range', 'a', 0, 9, dict(only_new_items=True, ignore_no_item_found=True)]],
                   B=[['mk', 'b'], ['read', 'b', dict(n=3, ignore_no_item_found=True)], ['read', 'b', dict(n=2, strict_n=True, ignore_no_item_found=True)], ['head', 'b', dict(peek=True)]],
                   D=[['drop', 1], ['drop', 2], ['drop', 1]]), maxlen=3, auto=False, sleep=0.05)
    # many items at a time
    for auto, maxlen in ((False, 30), (False, None), (True, 24)):
        many = dict(ignore_no_item_found=True)
        yield scn(sess(*range(36)), [['start'], ['sleep', 40], ['spawn', 'A'], ['spawn', 'B'], ['spawn', 'D'], ['sleep', 300], ['finish'], ['q', 3000]],
                  dict(A=[['mk', 'a'], ['range', 'a', 0, 99, PEEKALL], ['range', 'a', 0, 99, PEEKALL], ['range', 'a', 3, 99, dict(many, peek=True)]],
                       B=[['mk', 'b'], ['read', 'b', dict(many, n=17)], ['head', 'b', dict(peek=True)], ['read', 'b', dict(many, n=12)]],
                       D=[['drop', 21], ['drop', 9]] if not auto else [['mk', 'd'], ['head', 'd', dict(peek=True)], ['range', 'd', 0, 99, PEEKALL]]), maxlen=maxlen, auto=auto, sleep=0.05)


def g_snap(rng):
    if rng.random() < 0.12:     # many items at a time
        return gen(rng, clients=(2, 2), auto=False, weights=dict(range=4, tail=2, head=3, read=1), maxlens=(12, 20, None), drops=3, sess_kw=dict(n=rng.randint(12, 28), none=0.02),
                   sleeps=(0.05, 0.1), drop_n=(1, 4, 9, 17))
    return gen(rng, clients=(3, 3), weights=dict(range=4, tail=3, head=2, read=4, next=2), maxlens=(2, 3), sess_kw=dict(n=rng.randint(4, 8), none=0.05, slow=0.1),
               sleeps=(0.05, 0.1))


def t_hang():
    full = dict(only_new_items=True, start_le=True, stop_ge=True, ignore_no_item_found=True)
    for auto in (True, False):
        for kw in (dict(only_new_items=True), full, dict(only_new_items=True, peek=True)):
            c = dict(A=[['mk', 'a'], ['read', 'a', dict(ignore_no_item_found=True)], ['range', 'a', 0, 9, kw], ['range', 'a', 0, 9, kw]],
                     B=[['mk', 'b'], ['head', 'b', {}], ['range', 'b', 5, 2, {}], ['tail', 'b', dict(only_new_items=True)], ['read', 'b', dict(n=2, strict_n=True)]])
            if not auto:
                c['D'] = [['drop', 9], ['drop', 1], ['drop', 1]]
            yield scn(sess(0, 1, 2, 3, 4), [['start'], ['spawn', 'A'], ['spawn', 'B'], *([['spawn', 'D']] if not auto else []), ['sleep', 300], ['finish'], ['q', 3000]],
                      c, maxlen=3, auto=auto, sleep=0.05)
    yield scn([sess(0, 1, 0), sess(0, 1)], [['start'], ['spawn', 'A'], ['spawn', 'B'], ['start'], ['sleep', 100], ['finish'], ['q', 3000]],
              dict(A=[['stop'], ['start'], ['isrun'], ['mk', 'a'], ['iter', 'a', 9]], B=[['isrun'], ['mk', 'b'], ['sbnext', 2], ['iter', 'b', 9]]))


def g_hang(rng):
    return gen(rng, clients=(2, 3), weights=dict(range=5, tail=2, head=2, read=3, next=2, block=2, iter=1, isrun=1, mk=1, attach=1),
               n_sess=(1, 2), drops=4, sess_kw=dict(n=rng.randint(3, 8), fail=0.05, ooo=0.05, badkey=0.03, open_fail=0.05), special=dict(start=1, stop=1, isrun=2, sleep=1, sbnext=2, sjoin=1))


FAMILIES = dict(
    window=(t_window, g_window), manual=(t_manual, g_manual), order=(t_order, with_unordered), fail=(t_fail, g_fail),
    protocol=(t_protocol, g_protocol), session=(t_session, g_session), read=(t_read, g_read), cursor=(t_cursor, g_cursor),
    range=(t_range, g_range), ends=(t_ends, g_ends), iter=(t_iter, g_iter), block=(t_block, g_block),
    snap=(t_snap, g_snap), hang=(t_hang, g_hang),
)
