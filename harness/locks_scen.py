"""Lock scenarios (no stream2py here)."""

def t_locks():
    for lock, how in (('raw', 'raw'), ('deque', 'ctx'), ('deque', 'raise')):
        for pat in ('wrr', 'rwr', 'rrw', 'wwr', 'rww', 'rwrw', 'wrrw', 'rrww', 'rrr', 'www', 'wwrr'):
            # all at once; one after another while the first holds; overlapping
            for delay, hold in ((0, 0), (0, 10), (3, 10), (7, 10), (10, 10)):
                yield dict(lock=lock, users=[[[m, how, i * delay, hold]] for i, m in enumerate(pat)])
            yield dict(lock=lock, users=[[[m, how, i * 3, 10], [m, how, 0, 5]] for i, m in enumerate(pat)])
        # one long reader, a writer behind it, then many readers, then a writer
        yield dict(lock=lock, users=[[['r', how, 0, 50]], [['w', how, 5, 10]], [['r', how, 10, 5]], [['r', how, 15, 5]], [['w', how, 20, 5]]])
        # a first writer holds, others queue in every order
        yield dict(lock=lock, users=[[['w', how, 0, 30]], [['r', how, 5, 10]], [['w', how, 10, 5]], [['r', how, 15, 5]], [['w', how, 20, 5]]])
        # readers sharing in a chain, for long
        yield dict(lock=lock, users=[[['r', how, 0, 20], ['r', how, 5, 20]], [['r', how, 10, 20], ['r', how, 5, 20]], [['r', how, 0, 20], ['r', how, 5, 20]]])
        yield dict(lock=lock, users=[[['r', how, 0, 20], ['r', how, 5, 20]], [['r', how, 10, 20], ['r', how, 5, 20]], [['w', how, 25, 1], ['w', how, 5, 2]]])
    yield from t_pairs()
    yield from t_many()


def t_many():
    """A great many users."""
    for lock, how in (('raw', 'raw'), ('deque', 'ctx'), ('deque', 'raise')):
        for n in (12, 20, 40):
            yield dict(lock=lock, users=[[['r', how, i % 5, 60]] for i in range(n)])
            yield dict(lock=lock, users=[[['r', how, i % 5, 60]] for i in range(n)] + [[['w', how, 10, 5]], [['r', how, 15, 5]], [['r', how, 100, 5]]])
        yield dict(lock=lock, users=[[['r', how, i % 5, 60]] for i in range(130)])
        yield dict(lock=lock, users=[[['w', how, 0, 20]]] + [[['rw'[i % 4 == 3], how, 1 + i % 5, 5]] for i in range(16)])


def t_pairs():
    """Two locks at once: who uses one neither waits for the other nor lets anybody in there."""
    for lock in (['raw', 'raw'], ['deque', 'deque'], ['raw', 'deque']):
        for a in 'rw':
            for b in 'rw':
                for c in 'rw':
                    # one held for long, the other used meanwhile, by somebody else and by the holder
                    yield dict(lock=lock, users=[[[a, 'ctx', 0, 30, 0]], [[b, 'ctx', 3, 3, 1]], [[c, 'raise', 5, 3, 1]]])
                    yield dict(lock=lock, users=[[[a, 'ctx', 0, 3, 0, [[b, 'raise', 0, 10, 1, []]]]], [[c, 'raw', 5, 3, 1]], [['w', 'raw', 7, 3, 0]], [['r', 'raw', 10, 3, 0]]])
            # a writer waits at the one, readers come to the other
            yield dict(lock=lock, users=[[[a, 'raw', 0, 30, 0]], [['w', 'ctx', 3, 3, 0]], [['r', 'ctx', 5, 3, 1]], [['w', 'ctx', 6, 3, 1]], [['r', 'ctx', 8, 3, 0]]])


def g_pairs(rng):
    n = rng.randint(2, 5)
    pw = rng.choice([0.2, 0.5, 0.8])

    def op(which, deep):
        t = [rng.choice([0, 0, 1, 3, 5, 10]) for _ in '12']
        inner = [op(1, False) for _ in range(rng.randint(1, 2))] if deep and which == 0 and rng.random() < 0.4 else []
        return ['w' if rng.random() < pw else 'r', rng.choice(['raw', 'ctx', 'raise']), *t, which, inner]

    return dict(lock=[rng.choice(['raw', 'deque']) for _ in '12'],
                users=[[op(rng.randint(0, 1), True) for _ in range(rng.randint(1, 4))] for _ in range(n)])


def g_locks(rng):
    if rng.random() < 0.25:
        return g_pairs(rng)
    lock = rng.choice(['raw', 'deque', 'deque'])
    n = rng.randint(2, 5)
    pw = rng.choice([0.2, 0.5, 0.8])
    users = []
    for _ in range(n):
        users.append([['w' if rng.random() < pw else 'r', rng.choice(['raw', 'ctx', 'raise']), rng.choice([0, 0, 1, 3, 5, 10]),
                       rng.choice([0, 0, 1, 3, 5, 10, 20])] for _ in range(rng.randint(1, 4))])
    return dict(lock=lock, users=users)


def t_stall():
    """Readers that queue up, and a writer that comes when somebody leaves."""
    for lock, how in (('raw', 'raw'), ('deque', 'ctx'), ('deque', 'raise')):
        for first in 'wr':
            for late in (10, 10.001, 12):
                u = [[[first, how, 0, 10]], [['r', how, 3, 5]], [['r', how, 5, 5]], [['r', how, 7, 5]], [['w', how, late, 5]]]
                yield dict(lock=lock, users=u)
                yield dict(lock=lock, users=u + [[['r', how, 8, 5]]])
                yield dict(lock=lock, users=u + [[['w', how, late, 5]]])
                if first == 'r':
                    yield dict(lock=lock, users=u + [[['w', how, 1, 5]]])
        for pat in ('rrrw', 'rrwr', 'rwrr', 'wrrr', 'rrrrw', 'rrww'):
            for hold in (0, 5):
                yield dict(lock=lock, users=[[[m, how, 0, hold]] for m in pat])
