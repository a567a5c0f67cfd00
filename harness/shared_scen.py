"""Scenarios for clients sharing a stream source (no stream2py here)."""


def sess(items=3, read_d=0, fail=-1, open_fail=0, open_d=0, close_d=0):
    return dict(items=items, read_d=read_d, fail=fail, open_fail=open_fail, open_d=open_d, close_d=close_d)


def t_shared():
    for script in ([sess()], [sess(open_d=5, close_d=5)], [sess(1, fail=1), sess()], [sess(open_fail=1), sess()], [sess(read_d=1500)]):
        # two first openers; the last closing while another opens; closing one after another
        yield dict(script=script, clients=[[['open', 'a'], ['see', 'a'], ['stopped', 'a']], [['open', 'b'], ['info', 'b'], ['stopped', 'b']]])
        yield dict(script=script, clients=[[['open', 'a'], ['close', 'a', 'close'], ['stopped', 'a']], [['open', 'b'], ['stopped', 'b'], ['see', 'b']]])
        yield dict(script=script, clients=[[['open', 'a'], ['close', 'a', 'leave'], ['close', 'a', 'close']], [['open', 'b'], ['close', 'b', 'raise']],
                                           [['open', 'c'], ['sleep', 1], ['stopped', 'c'], ['close', 'c', 'close'], ['open', 'd'], ['info', 'd']]])
        yield dict(script=script, clients=[[['open', 'a'], ['open', 'b'], ['close', 'a', 'close'], ['see', 'b'], ['close', 'b', 'close']],
                                           [['sleep', 1], ['open', 'c'], ['stopped', 'c'], ['see', 'c']]])


def g_shared(rng):
    script = []
    for _ in range(rng.randint(1, 4)):
        script.append(sess(rng.randint(0, 4), rng.choice([0, 0, 0, 50, 400, 1500]), rng.choice([-1, -1, -1, 0, 1, 2]), rng.random() < 0.15,
                           rng.choice([0, 0, 1, 30]), rng.choice([0, 0, 1, 30, 1500])))
    clients = []
    n = 0
    everyone = []
    for _ in range(rng.randint(2, 3)):
        ops, mine = [], []
        for _ in range(rng.randint(2, 7)):
            x = rng.random()
            if x < 0.3 or not mine:
                n += 1
                r = 'r%d' % n
                mine.append(r)
                everyone.append(r)
                ops.append(['open', r])
            elif x < 0.55:
                ops.append(['close', rng.choice(mine), rng.choice(['close', 'close', 'leave', 'raise'])])
            elif x < 0.7:
                ops.append(['sleep', rng.choice([1, 1, 10, 300, 1000])])
            else:
                ops.append([rng.choice(['stopped', 'info', 'see']), rng.choice(mine if rng.random() < 0.7 else everyone)])
        clients.append(ops)
    return dict(script=script, clients=clients)
