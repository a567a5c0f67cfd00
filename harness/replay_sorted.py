"""Executes generated operations on the real sorted collections."""
import copy
import json
import pickle
import random

from stream2py.utility.sorted_collection import SortedCollection
from stream2py.utility.sorted_deque import SortedDeque

ORDERED = [True]      # may items be compared with each other?


class Item:
    """Equal by b alone, told apart by serial."""

    def __init__(self, a, b, serial):
        self.a, self.b, self.serial = a, b, serial

    def __eq__(self, other):
        return isinstance(other, Item) and self.b == other.b

    __hash__ = None

    def __lt__(self, other):
        if not ORDERED[0]:
            raise TypeError('items were compared although there is a key function')
        if isinstance(other, Probe):
            return num(self) < other.n
        return num(self) < num(other)

    def __gt__(self, other):
        if isinstance(other, Probe):
            return num(self) > other.n
        return other < self

    def __repr__(self):
        return f'({self.a},{self.b})#{self.serial}'


class Incomparable:
    """A key that is neither greater nor less than nor equal to any."""

    __hash__ = None

    def no(self, other):
        return False

    __lt__ = __gt__ = __le__ = __ge__ = __eq__ = no


class Probe:
    """A key to search for where the items themselves are the keys."""

    def __init__(self, n):
        self.n = n

    def __lt__(self, other):
        return self.n < num(other)

    def __gt__(self, other):
        return self.n > num(other)

    def __eq__(self, other):
        return self.n == num(other)

    __hash__ = None


Item.__eq__ = lambda self, other: (
    num(self) == other.n if isinstance(other, Probe) else isinstance(other, Item) and self.b == other.b)


def num(x):
    return x.n if isinstance(x, Probe) else x.a * 10 + x.b


def key_a(x):
    return x.a


def key_b(x):
    return x.b


def key_raises(x):
    raise LookupError('no key')


def key_odd(x):
    return object()


KEYS = dict(A=key_a, B=key_b, I=None)


def make(rng, kind, key, mx, vals):
    """A real collection in a state, and its items."""
    ORDERED[0] = key == 'I'
    items = [Item(a, b, i) for i, (a, b, _) in enumerate(vals)]
    kw = dict(key=KEYS[key])
    cls = SortedCollection
    if kind == 'D':
        cls = SortedDeque
        kw['maxlen'] = None if mx == 99 else mx
    how = rng.choice(['ctor', 'right', 'left', 'append', 'rekey', 'rebound'])
    ordkey = {'A': lambda i: i.a, 'B': lambda i: i.b, 'I': num}[key]
    if how in ('append', 'rebound') and (kind != 'D' or how == 'append' and len({ordkey(i) for i in items}) < len(items)):
        how = 'ctor'
    if how == 'ctor' or how == 'rekey':
        # any order of the items with those of equal keys in theirs
        tags = items[:]
        rng.shuffle(tags)
        pos = {}
        for i in items:
            pos.setdefault(ordkey(i), []).append(i)
        order = [pos[ordkey(t)].pop(0) for t in tags]
        if how == 'rekey':
            o = cls(key=kw['key'], **({'maxlen': kw['maxlen']} if kind == 'D' else {}))
            o.clear()
            for i in order:
                o.insert_right(i)
        else:
            o = cls(order, **kw) if rng.random() < 0.8 else cls(iter(order), **kw)
    elif how == 'right':
        o = cls(**kw)
        for i in items:
            o.insert_right(i)
    elif how == 'left':
        o = cls(**kw)
        for i in reversed(items):
            o.insert(i)
    elif how == 'append':
        # run over the bound, so that the oldest ones leave
        o = cls(**kw)
        if mx != 99 and len(items) == mx and items:
            o.append(Item(-9, -9, -1))
        for i in items:
            o.append(i)
    elif how == 'rebound':
        o = cls(items, key=kw['key'])
        o.maxlen = kw['maxlen']
    return o, items, how


def perform(o, op, new, items, rng, key):
    """-> (result in the form of the spec, the collection to go on with)"""
    name = op[0]
    s = lambda x: [x]
    k = (lambda n: Probe(n)) if key == 'I' else (lambda n: n)
    if name in ('insert', 'insert_right', 'append', 'remove'):
        return ('ok', getattr(o, name)(new))
    if name in ('index', 'count'):
        return ('n', getattr(o, name)(new))
    if name == 'contains':
        return ('n', int(new in o))
    if name == 'drop':
        return ('ok', o.drop(op[1]))
    if name == 'drop1':
        return ('ok', o.drop())
    if name.startswith('find'):
        return ('item', getattr(o, name)(k(op[1])))
    if name == 'range':
        return ('list', o.range(k(op[1]), k(op[2]), *([] if op[3] == 1 and rng.random() < 0.5 else [op[3]])))
    if name == 'range_by_index':
        return ('list', o.range_by_index(op[1], op[2], *([] if op[3] == 1 and rng.random() < 0.5 else [op[3]])))
    if name == 'slice':
        return ('list', o[op[1]:op[2]:op[3]])
    if name == 'setkey':
        o.key = KEYS[op[1]]
        return ('ok', None)
    if name == 'delkey':
        del o.key
        return ('ok', None)
    if name == 'setmax':
        o.maxlen = None if op[1] == 99 else op[1]
        return ('ok', None)
    if name == 'delmax':
        del o.maxlen
        return ('ok', None)
    if name == 'badmax':
        o.maxlen = rng.choice([-1, 'x', 1.5])
        return ('ok', None)
    if name == 'badsetkey':
        o.key = rng.choice([key_raises, key_odd]) if len(items) > 1 else key_raises
        return ('ok', None)
    if name in ('badkey', 'nocmp'):
        x = Item(None, None, -5)
        if op[1] == 'append' and key != 'I' and rng.random() < 0.5:
            x.a = x.b = rng.choice([float('nan'), Incomparable()])
        if name == 'badkey':
            x = object()
        if op[1] == 'contains':
            x in o
        else:
            getattr(o, op[1])(x)
        return ('ok', None)
    if name == 'clear':
        return ('ok', o.clear())
    if name == 'iter':
        return ('list', list(o))
    if name == 'reversed':
        return ('list', list(reversed(o)))
    if name == 'len':
        return ('n', len(o))
    if name == 'getitem':
        return ('item', o[op[1]])
    raise AssertionError(name)


ERRORS = dict(
    find=ValueError, find_le=ValueError, find_lt=ValueError, find_ge=ValueError, find_gt=ValueError, find_last_gt=ValueError,
    index=ValueError, remove=ValueError, append=ValueError, insert=(ValueError, IndexError), insert_right=(ValueError, IndexError),
    drop=IndexError, drop1=IndexError, getitem=IndexError)


def same(xs, ys):
    return len(xs) == len(ys) and all(x is y for x, y in zip(xs, ys))


def look(o, kind, want, key, mx):
    """What is wrong with the state of a collection."""
    got = list(o)
    if not same(got, want):
        return f'holds {got}, specified {want}'
    if len(o) != len(want) or any(o[i] is not x for i, x in enumerate(want)):
        return 'len or indexing disagree with iteration'
    if kind == 'D' and o.maxlen != (None if mx == 99 else mx):
        return f'has maxlen {o.maxlen}, specified {mx}'
    k = o.key
    if KEYS[key] is not None and k is not KEYS[key] or KEYS[key] is None and want and k(want[0]) is not want[0]:
        return f'has key {k}, specified {key}'
    return None


def step(o, items, kind, was, op, res, post, rng):
    """Perform one generated operation -> (complaint, the collection to go on with, its items)"""
    key, mx, _ = was
    pkey, pmx, pseq = post
    name = op[0]
    ORDERED[0] = 'I' in (key, pkey)
    new = Item(op[1], op[2], 99) if name in ('insert', 'insert_right', 'append', 'remove', 'index', 'count', 'contains') else None
    if name == 'construct':
        items = [Item(v[0], v[1], i) for i, v in enumerate(op[1:])]
        kw = dict(maxlen=None if mx == 99 else mx) if kind == 'D' else {}
        o = type(o)(rng.choice([list, tuple, iter])(items), key=KEYS[key], **kw)
        want = [items[s - 1] for _, _, s in pseq]
        return look(o, kind, want, key, mx), o, want
    at = lambda s: new if s == 0 else items[s - 1]
    want = [at(x[2]) for x in pseq]
    if name in ('copy', 'pickle', 'deepcopy'):
        if name == 'copy':
            c = copy.copy(o) if rng.random() < 0.3 else o.copy()
        elif name == 'pickle':
            c = pickle.loads(pickle.dumps(o, rng.choice([0, 2, pickle.HIGHEST_PROTOCOL])))
        else:
            c = copy.deepcopy(o)
        if type(c) is not type(o):
            return f'gave a {type(c).__name__}', o, want
        citems = list(c)
        if name == 'copy' and not same(citems, items) or [(x.a, x.b, x.serial) for x in citems] != [(x.a, x.b, x.serial) for x in items]:
            return f'{name} holds {citems}', o, want
        err = look(c, kind, citems, key, mx) or look(o, kind, want, key, mx)
        if err:
            return err, o, want
        if rng.random() < 0.5:       # go on with the copy; the other one must not notice
            o, c, items, citems = c, o, citems, items
            want = items
        if citems and rng.random() < 0.5:
            c.remove(citems[0])
        elif rng.random() < 0.5:
            c.clear()
        return look(o, kind, want, key, mx), o, want
    try:
        got = perform(o, op, new, items, rng, key)
    except Exception as e:
        got = ('err', e)
    query = name in ('badkey', 'nocmp') and op[1] in ('index', 'count', 'contains')
    if query:
        pass
    elif got[0] == 'err':
        if res[0] != 'err':
            return f'raised {type(got[1]).__name__}: {got[1]}, specified {res}', o, want
        if not isinstance(got[1], ERRORS.get(name, Exception)):
            return f'raised {type(got[1]).__name__}', o, want
    elif res[0] != got[0]:
        return f'gave {got[1]}, specified {res}', o, want
    elif res[0] == 'item' and got[1] is not at(res[1]) or res[0] == 'n' and got[1] != res[1] or (
            res[0] == 'list' and not same(list(got[1]), [at(s) for s in res[1:]])):
        return f'gave {got[1]}, specified {res}', o, want
    return look(o, kind, want, pkey, pmx), o, want


def job_sorted(job):
    rng = random.Random(job['seed'])
    kind = job['skind']
    table = {}
    for was, op, res, post in job['rows']:
        table.setdefault(json.dumps(was), []).append((op, res, post))
    bad, n, smp = [], 0, None
    states = sorted(table)
    only = job.get('only')

    def fail(was, op, how, err, ops=()):
        bad.append(dict(what=f'{"SortedDeque" if kind == "D" else "SortedCollection"} {was} ({how}) {op}: {err}', was=was, op=op, ops=list(ops)))

    if job['mode'] == 'each':
        for st in states:
            was = json.loads(st)
            for op, res, post in table[st]:
                for _ in range(job['times']):
                    try:
                        o, items, how = make(rng, kind, *was)
                    except Exception as e:
                        fail(was, '-', 'building it', repr(e))
                        break
                    err = look(o, kind, items, was[0], was[1])
                    if err:
                        fail(was, '-', how, err)
                        break
                    n += 1
                    err, o, want = step(o, items, kind, was, op, res, post, rng)
                    if err:
                        fail(was, op, how, err)
                        break
                if len(bad) > 3:
                    return n, bad, smp
        smp = dict(state=json.loads(states[0]), op=table[states[0]][0][0], result=table[states[0]][0][1])
        return n, bad, smp
    by_name = {}
    for _ in range(job['walks']):
        st = rng.choice(states)
        was = json.loads(st)
        o, items, how = make(rng, kind, *was)
        ops = []
        for _ in range(job['length']):
            if st not in table:
                break
            if st not in by_name:
                g = by_name[st] = {}
                for r in table[st]:
                    if r[0][0] not in ('construct',):
                        g.setdefault(r[0][0], []).append(r)
            g = by_name[st]
            op, res, post = rng.choice(g[rng.choice(sorted(g))])
            ops.append(op)
            n += 1
            err, o, items = step(o, items, kind, was, op, res, post, rng)
            if err:
                fail(was, op, how, err + f' after {ops}', ops)
                break
            was = [post[0], post[1], [[a, b, i + 1] for i, (a, b, _) in enumerate(post[2])]]
            st = json.dumps(was)
        if len(bad) > 3:
            break
    return n, bad, dict(walk=ops)
