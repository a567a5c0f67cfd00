"""Records histories of real sorted collections of any size: every operation with its result
and what the collection holds after it.  Whether a history is right the specification says."""
import copy
import fractions
import functools
import pickle
import random

import replay_sorted
from replay_sorted import Item, Probe, num, perform

FREE = 999999
WRAPS = dict(
    int=int,
    float=float,
    str='{:08d}'.format,
    bytes=lambda n: b'%08d' % n,
    tuple=lambda n: (n // 7, n % 7),
    frac=lambda n: fractions.Fraction(n, 3),
    list=lambda n: [n],
)


def by(field, wrap, x):
    n = getattr(x, field)
    # what has no such number has no key, or a key of its own
    return WRAPS[wrap](n) if type(n) is int else n


class Recorder:
    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        self.wrap = rng.choice(sorted(WRAPS))
        self.keys = dict(A=functools.partial(by, 'a', self.wrap), B=functools.partial(by, 'b', self.wrap), I=None)
        self.serial = 0
        self.ev = []
        self.known = []
        self.size = rng.choice([0, 3, 10, 30, 70, 150, 250])
        self.spread = rng.choice([1, 6, self.size + 1, self.size * 8 + 1])
        self.key = rng.choice('AAABI')
        self.max = FREE
        if kind == 'D' and rng.random() < 0.6:
            self.max = rng.choice([0, 1, self.size // 2, self.size, self.size + 5, self.size * 2])

    def ordered(self, *keys):
        replay_sorted.ORDERED[0] = 'I' in keys

    def new(self):
        r = self.rng
        if self.known and r.random() < 0.6:
            x = r.choice(self.known)
            a, b = x.a, x.b
            if r.random() < 0.2:
                b = r.randrange(4)
        else:
            a, b = 2 * r.randrange(self.spread), r.randrange(4)
        self.serial += 1
        return Item(a, b, self.serial)

    def at_end(self):
        """An item that may go at the end, or nearly."""
        self.serial += 1
        top = max([x.a for x in self.known], default=0)
        return Item(max(0, top + self.rng.choice([-2, 0, 2, 2, 2, 4])), self.rng.randrange(4), self.serial)

    def probe(self):
        r = self.rng
        ns = {'A': lambda x: x.a, 'B': lambda x: x.b, 'I': num}[self.key]
        if self.known and r.random() < 0.8:
            n = ns(r.choice(self.known)) + r.choice([0, 0, 1, -1])
        else:
            n = r.randrange(-2, 20 * self.spread + 5)
        return max(n, 0)

    def k(self, n):
        return Probe(n) if self.key == 'I' else WRAPS[self.wrap](n)

    def start(self):
        items = [self.new() for _ in range(self.size)]
        self.rng.shuffle(items)
        self.known = items
        kw = dict(key=self.keys[self.key])
        cls = replay_sorted.SortedCollection
        if self.kind == 'D':
            cls = replay_sorted.SortedDeque
            kw['maxlen'] = None if self.max == FREE else self.max
        self.ordered(self.key)
        self.first = dict(kind=self.kind, key=self.key, max=self.max)
        self.o = cls(self.rng.choice([list, tuple, iter])(items), **kw)
        got = list(self.o)
        self.note('construct', s=[[x.a, x.b, x.serial] for x in items], x=['list'] + [x.serial for x in got])

    def note(self, o, x, **args):
        seq = list(self.o)
        mx = FREE if self.kind == 'C' or self.o.maxlen is None else self.o.maxlen
        ok = len(seq) == len(self.o) and all(self.o[i] is y for i, y in enumerate(seq))
        self.ev.append(dict(o=o, x=x, q=[y.serial for y in seq] if ok else [-1], m=mx, **args))
        self.known = seq

    def step(self):
        r = self.rng
        D = self.kind == 'D'
        n = len(self.known)
        name = r.choice(
            ['insert', 'insert_right'] * 3 + ['remove', 'index', 'count', 'contains'] * 2
            + ['find', 'find_le', 'find_lt', 'find_ge', 'find_gt', 'getitem'] + ['copy', 'pickle', 'deepcopy', 'reversed', 'badkey', 'nocmp', 'badsetkey', 'setkey']
            + (['append'] * 4 + ['find_last_gt', 'drop', 'drop', 'range', 'range', 'range_by_index', 'setmax', 'delmax'] if D else ['slice', 'slice'])
            + (['clear', 'delkey'] if r.random() < 0.1 else []))
        args = {}
        new = None
        op = [name]
        if name in ('insert', 'insert_right', 'append', 'remove', 'index', 'count', 'contains'):
            new = self.at_end() if name == 'append' else self.new()
            args = dict(v=[new.a, new.b, new.serial])
        elif name.startswith('find'):
            op.append(self.probe())
        elif name == 'range':
            op += [self.probe(), self.probe(), r.choice([1, 1, 2, 3, n + 1])]
            if r.random() < 0.7:
                op[1:3] = sorted(op[1:3])
        elif name in ('slice', 'range_by_index'):
            op += [r.randint(0, n + 1), r.randint(0, n + 1), r.choice([1, 1, 2, 5])]
        elif name == 'drop':
            op.append(r.choice([0, 1, 1, 2, n // 3, n // 2, n - 1 if n else 0, n, n + 1 if r.random() < 0.2 else 1]))
        elif name == 'getitem':
            op.append(r.randint(-n - 2, n + 1))
        elif name == 'setmax':
            op.append(r.choice([n, n + 1, n * 2, n // 2 + 1, max(n - 1, 0)]))
        elif name == 'setkey':
            op.append(r.choice('ABI'))
        elif name in ('badkey', 'nocmp'):
            if not n or self.key == 'I':
                return
            op.append(r.choice(['insert', 'insert_right', 'remove', 'index', 'count', 'contains'] + (['append'] if D else [])))
        elif name == 'badsetkey' and not n:
            return
        if len(op) > 1 and name not in ('setkey', 'badkey', 'nocmp'):
            args['n'] = op[1:]
        after = op[1] if name == 'setkey' else 'I' if name == 'delkey' else self.key
        self.ordered(self.key, after)
        if name in ('copy', 'pickle', 'deepcopy'):
            c = self.o.copy() if name == 'copy' else copy.deepcopy(self.o) if name == 'deepcopy' else pickle.loads(pickle.dumps(self.o))
            got = list(c)
            if r.random() < 0.6:
                # the other one goes on, and what happens to this one is no matter
                self.o, c = c, self.o
                c.clear()
            self.note(name, ['list'] + [y.serial for y in got])
            return
        try:
            if name == 'setkey':
                self.o.key = self.keys[op[1]]
                args['f'] = op[1]
                x = ['ok']
            else:
                how, got = self.perform(op, new)
                if how == 'item':
                    x = ['item', got.serial]
                elif how == 'list':
                    x = ['list'] + [y.serial for y in got]
                else:
                    x = [how] if how == 'ok' else [how, int(got)]
        except Exception as e:
            want = replay_sorted.ERRORS.get(name, Exception)
            x = ['err'] if isinstance(e, want) else ['err', type(e).__name__]
        if name in ('badkey', 'nocmp') and op[1] in ('index', 'count', 'contains'):
            x = ['err']      # raising and not finding are both answers
        self.key = after
        self.note(name, x, **args)

    def perform(self, op, new):
        name = op[0]
        if name.startswith('find') or name == 'range':
            ks = [self.k(n) for n in (op[1:3] if name == 'range' else op[1:2])]
            return ('list', self.o.range(*ks, op[3])) if name == 'range' else ('item', getattr(self.o, name)(*ks))
        return perform(self.o, op, new, self.known, self.rng, self.key)


def job_record_sorted(job):
    rng = random.Random(job['seed'])
    out = []
    for _ in range(job['histories']):
        rec = Recorder(rng, rng.choice('CDD'))
        rec.start()
        for _ in range(rng.choice([20, 40, 40, 150])):
            rec.step()
        out.append(dict(rec.first, ev=rec.ev))
    return len(out), [], out
