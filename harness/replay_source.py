"""Executes generated histories of a stream source and its readers on the real code."""
import random

import vsched
import world
from stream2py import StreamSource

PERIOD = 3.0      # longer than any wait of the stream


class Feed(StreamSource):
    """Gives the items it is told to, counts the calls it gets."""

    def __init__(self, variant):
        super().__init__()
        self.v = variant
        self.calls = []          # 'open' / 'close' in order
        self.sess = 0
        self.avail = 0
        self.pos = 0
        self.die = False
        self.fail_open = False
        self.is_open = False
        self.wrong = []
        self.raised = []

    def error(self, where):
        self.raised.append(world.ERRORS[self.v['err']](where))
        return self.raised[-1]

    def open(self):
        vsched.SCHED.sleep(self.v['open_d'])
        if self.is_open:
            self.wrong.append('opened while open')
        self.sess += 1
        self.calls.append(['open', self.sess])
        self.avail = self.pos = 0
        self.die = False
        if self.fail_open:
            raise self.error('open')
        self.is_open = True

    def read(self):
        if not self.is_open:
            self.wrong.append('read while closed')
        vsched.SCHED.sleep(self.v['read_d'])
        if self.die:
            raise self.error('read')
        if self.pos < self.avail:
            self.pos += 1
            return (self.sess * 100 + self.pos, 'x')
        return None

    def close(self):
        vsched.SCHED.sleep(self.v['close_d'])
        self.calls.append(['close', self.sess])
        if not self.is_open:
            self.wrong.append('closed while closed')
        self.is_open = False
        if self.v['close_fail']:
            raise self.error('close')

    def key(self, data):
        return data[0]

    @property
    def info(self):
        return {'session': self.sess}


class Leave(Exception):
    pass


def close_reader(r, how, rng):
    if how == 0:
        r.close()
    elif how == 1:
        r.exit()
    elif how == 2:
        with r as x:
            if x is not r:
                return 'entering a reader gave something else'
    else:
        try:
            with r:
                raise Leave
        except Leave:
            return None
        return 'leaving a reader swallowed the exception'


def life(path, variant, rng, wrong, stat):
    z = rng.choice([1] * 8 + [2, 7, 40])      # so many readers stand for one

    def steps():
        s = vsched.SCHED
        src = Feed(variant)
        others = []       # per reader the others it stands for
        readers = []
        done = []

        def settle():
            s.nojump += 1
            s.sleep(PERIOD * variant['slow'])
            s.wait_idle()
            s.nojump -= 1

        for op, res, post, obs in path:
            name = op[0]
            yield
            quiet = True
            try:
                if name == 'open':
                    kw = {}
                    if op[1] != 1 or rng.random() < 0.5:
                        kw['read_size'] = op[1]
                    if op[2]:
                        kw['strict_n'] = True
                    if op[3]:
                        kw['ignore_no_item_found'] = True
                    readers.append(src.open_reader(**kw))
                    others.append([src.open_reader() for _ in range(z - 1)])
                    got = ['ok']
                elif name == 'openfail':
                    src.fail_open = True
                    try:
                        src.open_reader()
                        got = ['ok']
                    finally:
                        src.fail_open = False
                elif name == 'close':
                    o = others[op[1] - 1]
                    first, again = rng.sample(o, len(o) // 2), rng.sample(o, len(o) // 2)
                    for x in first + again:
                        close_reader(x, rng.randrange(4), rng)
                    e = close_reader(readers[op[1] - 1], rng.randrange(4), rng)
                    for x in o:
                        close_reader(x, rng.randrange(4), rng)
                    got = ['ok'] if e is None else [e]
                    quiet = rng.random() < 0.7
                elif name == 'configure':
                    kw = dict(maxlen=op[2] or None, auto_drop=bool(op[3]))
                    if rng.random() < 0.5:
                        kw['sleep_time_on_read_none_s'] = rng.choice([0.1, 0.7])
                    x = src.configure_buffer(**kw)
                    got = ['ok'] if x is src else ['configuring gave something else']
                    quiet = False
                elif name == 'advance':
                    src.avail += 1
                    got = ['ok']
                elif name == 'die':
                    src.die = True
                    got = ['ok']
                elif name in ('read', 'readall'):
                    r = readers[op[1] - 1]
                    x = r.read() if name == 'read' else r.read(n=50, strict_n=False, ignore_no_item_found=True)
                    if x is None:
                        got = ['none']
                    elif isinstance(x, list):
                        got = ['list'] + [i[0] for i in x]
                    else:
                        got = ['item', x[0]]
            except vsched.Kill:
                raise
            except BaseException as e:
                got = ['err'] if type(e) is ValueError or any(e is x for x in src.raised) else ['raised ' + repr(e)]
            done.append(op)
            stat['n'] += 1
            if got != res:
                wrong.append(f'{op} gave {got}, specified {res}, {z} readers each, after {done[:-1]}')
                return
            if not quiet:
                continue
            settle()
            counts, stops, infos = obs
            want = [['open', i + 1] for i in range(len(counts))]
            seen = [c for c in src.calls if c[0] == 'open']
            closes = [sum(1 for c in src.calls if c == ['close', i + 1]) for i in range(len(counts))]
            if seen != want or closes != [c for _, c in counts] or src.wrong:
                wrong.append(f'the source got the calls {src.calls} {src.wrong}, specified openings and closings per session {counts}, after {done}')
                return
            if [int(r.is_stopped) for r in readers] != stops:
                wrong.append(f'readers report stopped {[int(r.is_stopped) for r in readers]}, specified {stops}, after {done}')
                return
            if any([x.is_stopped, x.source_reader_info] != [r.is_stopped, r.source_reader_info] for r, o in zip(readers, others) for x in o):
                wrong.append(f'readers opened together differ, after {done}')
                return
            if [r.source_reader_info for r in readers] != [{'session': i} for i in infos]:
                wrong.append(f'readers have the info {[r.source_reader_info for r in readers]}, specified sessions {infos}, after {done}')
                return
        for r, o in zip(readers, others):
            for x in [r, *o]:
                x.close()

    return steps()


def run_paths(paths, variants, rng):
    wrong = []
    stat = dict(n=0)
    s = vsched.Sched(vsched.make_strategy(['default']), max_steps=2000000, trace=False)
    s.run(lambda: world.take_turns([life(p, v, rng, wrong, stat) for p, v in zip(paths, variants)], rng))
    if s.stuck or s.main_exc:
        wrong.append(f'{[[x[0] for x in path] for path in paths]}: {s.stuck or repr(s.main_exc)}')
    return stat['n'], wrong


def job_source(job):
    rng = random.Random(job['seed'])
    n, bad = 0, []
    for some in world.pairs([p for p, _ in job['paths']], rng):
        vs = []
        for _ in some:
            q = rng.choice([1] * 9 + [50])
            vs.append(dict(slow=q, open_d=rng.choice([0, 0, 0.2]) * q, read_d=rng.choice([0, 0, 0.05, 1.3]) * q, close_d=rng.choice([0, 0, 0.3]) * q, close_fail=rng.random() < 0.1,
                           err=rng.choice(['source'] * 3 + list(world.ERRORS))))
        k, w = run_paths(some, vs, rng)
        n += k
        bad += [dict(what='stream source: ' + x, paths=[[p[0] for p in path] for path in some], variants=vs) for x in w]
        if len(bad) > 3:
            break
    return n, bad, dict(calls=[p[0] for p in job['paths'][0][0]])
