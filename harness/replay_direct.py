"""Executes generated histories of sources used directly on the real code."""
import random

import vsched
import world  # noqa: F401
from items import Opaque, SourceError
from stream2py import SourceReader, StreamSource
from stream2py.source_reader import QuickSourceReader
from stream2py.sources.http import HTTPResponseReader


class Leave(Exception):
    pass


class Base:
    def setup(self, values):
        self.values = values
        self.todo = []
        self.opens = self.closes = 0
        self.fail = False
        self.skipped = []
        self.answer = None
        return self

    def read(self):
        if not self.todo:
            if getattr(self, 'is_stopped', False):
                return None
            raise AssertionError('read more than there was')
        return self.values[self.todo.pop(0)]

    def valid(self, data):
        return any(data is self.values[i] for i in (1, 2))


class Reader(Base, SourceReader):
    def open(self):
        self.opens += 1
        if self.fail:
            raise SourceError('open')

    def close(self):
        self.closes += 1
        return self.answer

    def key(self, data):
        return data


class Quick(Base, QuickSourceReader):
    def open(self):
        self.opens += 1
        return super().open()

    def close(self):
        self.closes += 1
        super().close()
        return self.answer


class PlainQuick(Base, QuickSourceReader):
    """Only read is defined."""


class Valid(Quick):
    is_valid_data = Base.valid


class NoData(Valid):
    def when_no_data(self, _next=None):
        self.skipped.append(_next)
        return super().when_no_data(_next)


class Stream(Base, StreamSource):
    def open(self):
        self.opens += 1

    def close(self):
        self.closes += 1

    def key(self, data):
        return data

    @property
    def info(self):
        return {}


CLASSES = dict(reader=[Reader], quick=[Quick, PlainQuick], valid=[Valid], nodata=[NoData], stream=[Stream])
FALSY = [0, '', b'', [], {}, 0.0, False, ()]
OTHER = [1, 'x', b'\0', [0], {'a': 0}, -1.5, (None,)]


def life(path, first, rng, wrong, stat):
    cls = first[0]
    # every value that is not valid stands for so many, and every tick and opening
    z = 1
    if not any(p[0][0] == 'finish' for p in path):
        z = rng.choice([1] * 30 + [3] * 8 + [60, 12000])
    bad = (0, 3) if cls in ('valid', 'nodata') else (0,)
    expand = lambda todo: [v for v in todo for _ in range(z if v in bad else 1)]
    more = min(z, 60)
    kind = rng.choice(CLASSES[cls])
    values = [None, rng.choice(FALSY), rng.choice(OTHER) if rng.random() < 0.8 else Opaque(1, 1), rng.choice([(9, 9), 'skip me', object()])]
    tick = rng.choice([0.001, 0.05, 0.25, 2])

    def steps():
        s = vsched.SCHED
        away = 0        # time that passed on others' turns since this was opened
        src = kind().setup(values) if cls != 'stream' else kind(**({} if rng.random() < 0.5 else dict(reader_cls=world.stream2py.BufferReader))).setup(values)
        src.todo = expand(first[1])
        src.answer = rng.choice([None, None, True, False, 'closed', 0])
        if tick != 0.001 or rng.random() < 0.5:
            src.set_sleep_time_on_iter_none(tick)
        counted = kind is not PlainQuick
        it = None
        entered = 0
        done = []
        for op, res, post in path:
            t0 = s.clock
            yield
            away += s.clock - t0
            name = op[0]
            t0 = s.clock
            n0 = len(src.todo)
            try:
                if name == 'next':
                    if it is None or rng.random() < 0.2:
                        it = iter(src)
                    sk = len(src.skipped)
                    try:
                        x = next(it)
                        i = next((i for i, v in enumerate(values) if v is x), repr(x))
                        got = ['item', i, round((s.clock - t0) / 1e6 / tick / z, 3)]
                        if cls == 'nodata' and len(src.skipped) - sk != n0 - len(src.todo) - 1:
                            wrong.append(f'when_no_data got {src.skipped[sk:]} after {done}')
                    except StopIteration:
                        got = ['end']
                        it = None
                elif name == 'finish':
                    src.is_stopped = True
                    got = ['ok']
                elif name in ('enter', 'enterfail'):
                    src.fail = name == 'enterfail'
                    try:
                        for _ in range(more - 1):
                            try:
                                src.__enter__()
                                src.__exit__(None, None, None)
                            except SourceError:
                                pass
                        x = src.__enter__() if rng.random() < 0.7 else src.enter()
                    finally:
                        src.fail = False
                    got = ['self'] if x is src else ['odd']
                elif name == 'leave':
                    if op[1] == 'exc':
                        e = rng.choice([Leave, Leave, ValueError, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration])('body')
                        x = src.__exit__(type(e), e, None)
                        got = ['swallowed'] if x else ['raised']
                    else:
                        x = src.__exit__(None, None, None) if rng.random() < 0.7 else src.exit(None, None, None)
                        got = ['ok']
                elif name == 'tick':
                    s.sleep(tick * z)
                    got = ['ok']
                elif name == 'closed':
                    got = ['bool', int(src.closed)] if isinstance(src.closed, bool) else ['odd']
                elif name == 'stamp':
                    now = vsched.EPOCH * 1000000 + s.clock
                    got = ['now']
                    for who, f in (('the instance', src.get_timestamp), ('its class', type(src).get_timestamp)):
                        x = f()
                        if type(x) is not int or abs(x - now) > 2:
                            got = [f'{who} says {x!r} at {now}']
                elif name == 'opentime':
                    now = vsched.EPOCH * 1000000 + s.clock
                    x = src.open_time
                    got = ['ago', round((now - x - away) / 1e6 / tick / z, 2) if type(x) is int else repr(x)]
                    if src.info['open_time'] != x:
                        got = ['odd']
            except SourceError:
                got = ['raised']
            except Exception as e:
                got = ['raised ' + repr(e)]
            done.append(op)
            stat['n'] += 1
            if got != res:
                wrong.append(f'{op} of {kind.__name__} gave {got}, specified {res}, values {values}, after {done[:-1]}')
                return
            if src.todo != expand(post[1]):
                wrong.append(f'{op} of {kind.__name__} left {str(src.todo)[:100]} to read, specified {post[1]} (each {z} times if not valid) after {done[:-1]}')
                return
            entered += name == 'enter'
            if name == 'enter':
                away = 0
            if counted and [src.opens, src.closes] != [post[3] * more, post[4] + entered * (more - 1)]:
                wrong.append(f'{kind.__name__} was opened and closed {[src.opens, src.closes]} times, specified {post[3:5]} ({more} times each) after {done}')
                return

    return steps()


def run_paths(paths, rng):
    wrong = []
    stat = dict(n=0)
    s = vsched.Sched(vsched.make_strategy(['default']), max_steps=1500000, trace=False)
    s.run(lambda: world.take_turns([life(p, first, rng, wrong, stat) for p, first in paths], rng))
    if s.stuck or s.main_exc:
        wrong.append(f'{[[x[0] for x in path] for path, _ in paths]}: {s.stuck or repr(s.main_exc)}')
    return stat['n'], wrong


def stamps(rng):
    """Every class there is gives the time in integer microseconds."""
    wrong = []

    def main():
        s = vsched.SCHED
        for _ in range(20):
            s.sleep(rng.choice([0.001, 0.0015, 0.3, 1, 12345.678]))
            now = vsched.EPOCH * 1000000 + s.clock
            for c in (SourceReader, QuickSourceReader, StreamSource, HTTPResponseReader, Reader, Stream, PlainQuick):
                x = c.get_timestamp()
                if type(x) is not int or abs(x - now) > 2:
                    wrong.append(f'{c.__name__}.get_timestamp() gave {x!r} at {now}')

    s = vsched.Sched(vsched.make_strategy(['default']), max_steps=1500000, trace=False)
    s.run(main)
    if s.stuck or s.main_exc:
        wrong.append(f'get_timestamp: {s.stuck or repr(s.main_exc)}')
    return wrong[:2]


def job_direct(job):
    rng = random.Random(job['seed'])
    n, bad = 0, []
    bad += [dict(what='direct source: ' + x) for x in stamps(rng)]
    for some in world.pairs(job['paths'], rng):
        k, w = run_paths(some, rng)
        n += k
        bad += [dict(what='direct source: ' + x, paths=[[p[0] for p in path] for path, _ in some], first=[x for _, x in some]) for x in w]
        if len(bad) > 3:
            break
    return n, bad, dict(start=job['paths'][0][1], steps=[p[0] for p in job['paths'][0][0]])
