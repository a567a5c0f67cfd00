"""Executes generated histories of two stream buffers at once on the real code."""
import random

import vsched
import world
from items import Codec, KINDS
from replay_life import PERIOD, Feed
from stream2py import BufferReader, StreamBuffer
from stream2py.exceptions import StreamNotStartedError


class Twin(Feed):
    """Its keys lie between those of its twin, its info tells which it is."""

    def __init__(self, variant, codec, which):
        Feed.__init__(self, variant, codec)
        self.which = which

    def item(self, k):
        k = k // 100 * 100 + k % 100 * 10 + self.which
        return self.codec.make(k, k)

    other = None    # the other stream buffer, if this source looks at it whenever it is called

    def look(self):
        sb = self.other
        if sb is None:
            return
        if not isinstance(sb.is_running, bool):
            self.wrong.append('the other is neither running nor not')
        x = sb.source_reader_info
        if x is not None and x['which'] == self.which:
            self.wrong.append('the other shows the info of this one')
        try:
            r = sb.mk_reader()
        except StreamNotStartedError:
            return
        it = r.read(peek=True, ignore_no_item_found=True)
        if it is not None and self.codec.dec(it)[0] % 10 == self.which:
            self.wrong.append('the other shows items of this one')

    def open(self):
        self.look()
        Feed.open(self)

    def read(self):
        self.look()
        return Feed.read(self)

    def close(self):
        self.look()
        Feed.close(self)

    @property
    def info(self):
        self.look()
        i = {'session': self.sess, 'which': self.which}
        if self.which == 2 and self.v['shape']:
            return dict(i, more=None) if self.v['shape'] == 1 else More(i)
        return i


class More(dict):
    pass


class OtherReader(BufferReader):
    pass


def run_path(path, conf, v, rng):
    wrong = []
    stat = dict(n=0)

    def main():
        s = vsched.SCHED
        codec = Codec(v['items'])
        cls = v['class']
        srcs, sbs = [None], [None]
        for b, (maxlen, auto) in enumerate(conf, 1):
            src = (cls or Twin)(dict(v, sleep=v['sleeps'][b - 1]), codec, b)
            kw = dict(maxlen=maxlen, auto_drop=bool(auto))
            if v['own_sleep'] and b == 1:
                kw['sleep_time_on_read_none_s'] = v['own_sleep']
            srcs.append(src)
            sbs.append(src.stream_buffer(**kw) if v['method'] else StreamBuffer(src, **kw))
        if v['look']:
            srcs[1].other, srcs[2].other = sbs[2], sbs[1]
        slots = {}
        done = []

        def num(it):
            return codec.dec(it)[0]

        def items(x):
            if x is None:
                return ['none']
            if type(x) is list:
                return ['list'] + [num(i) for i in x]
            return ['item', num(x)]

        def perform(op):
            name, i = op[0], op[1]
            if name == 'start':
                (sbs[i].start if rng.random() < 0.6 else sbs[i].__enter__)()
            elif name == 'stop':
                if rng.random() < 0.6:
                    sbs[i].stop()
                else:
                    sbs[i].__exit__(None, None, None)
            elif name == 'die':
                srcs[i].die = 'raise'
            elif name == 'advance':
                srcs[i].avail += 1
            elif name == 'drop':
                sbs[i].drop()
            elif name == 'sbnext':
                return items(next(sbs[i]))
            elif name == 'mk':
                slots[i] = sbs[op[2]].mk_reader()
            elif name == 'attach':
                sbs[op[2]].attach_reader(slots[i])
            elif name == 'read':
                return items(slots[i].read(op[2], ignore_no_item_found=True))
            elif name == 'next':
                return items(next(slots[i]))
            elif name == 'tail':
                return items(slots[i].tail(only_new_items=True, ignore_no_item_found=True))
            elif name == 'news':
                return items(slots[i].range(codec.enc_key(0), codec.enc_key(999), only_new_items=True, ignore_no_item_found=True))
            elif name == 'forget':
                del slots[i].last_item
            elif name == 'same':
                x = slots[i].is_same_buffer(slots[op[2]])
                return [int(x) if isinstance(x, bool) else x]
            else:
                raise AssertionError(op)
            return ['ok']

        quiet = True
        for op, res, post, obs in path:
            try:
                got = perform(op)
            except StopIteration:
                got = ['stop']
            except vsched.Kill:
                raise
            except BaseException as e:
                good = {'mk': StreamNotStartedError, 'attach': StreamNotStartedError, 'sbnext': StreamNotStartedError,
                        'drop': (RuntimeError, IndexError, ValueError)}.get(op[0], ())
                got = ['err'] if isinstance(e, good) else [f'raised {e!r}']
            done.append(op)
            stat['n'] += 1
            if got != res:
                wrong.append(f'{op} gave {got}, specified {res}, after {done[:-1]}')
                return
            if op[0] in ('start', 'stop', 'die', 'advance', 'drop'):
                if op[0] in ('start', 'stop') and rng.random() < 0.2:
                    quiet = False
                else:
                    s.nojump += 1
                    s.sleep(PERIOD)
                    s.wait_idle()
                    s.nojump -= 1
                    quiet = True
            if not quiet:       # not everything that follows has happened
                continue
            runs, views = obs
            for b in (1, 2):
                on, n = runs[b - 1]
                opens = sum(c[0] == 'open' for c in srcs[b].calls)
                closes = [sum(c == ['close', i + 1] for c in srcs[b].calls) for i in range(n)]
                want = [1] * (n - 1) + [1 - on] if n else []
                if opens != n or closes != want or srcs[b].wrong:
                    wrong.append(f'source {b} got the calls {srcs[b].calls} {srcs[b].wrong}, specified {n} openings, closings {want}, after {done}')
                    return
                x = sbs[b].source_reader_info
                got = [bool(sbs[b].is_running), None if x is None else (x['which'], x['session'])]
                if got != [bool(on), (b, n) if n else None]:
                    wrong.append(f'stream buffer {b} shows [running, (source, session)] {got}, specified {[bool(on), (b, n)]}, after {done}')
                    return
            for i, view in enumerate(views):
                if view:
                    r = slots[i + 1]
                    x = r.source_reader_info
                    have = [num(y) for y in r.range(codec.enc_key(0), codec.enc_key(999), peek=True, ignore_no_item_found=True) or []]
                    seen = [] if r.last_item is None and r.last_key is None else [num(r.last_item)] if codec.dec_key(r.last_key, range(1000)) == num(r.last_item) else ['inconsistent']
                    got = [x['which'], x['session'], int(r.is_stopped), have, seen]
                    if got != view:
                        wrong.append(f'reader {i + 1} shows [source, session, stopped, items, last seen] {got}, specified {view}, after {done}')
                        return
        for b in (1, 2):
            srcs[b].other = None
        for b in (1, 2):
            if path[-1][3][0][b - 1][0]:
                sbs[b].stop()

    s = vsched.Sched(vsched.make_strategy(['default']), max_steps=600000, trace=False)
    s.run(main)
    if s.stuck or s.main_exc:
        wrong.append(f'{[x[0] for x in path]}: {s.stuck or repr(s.main_exc)}')
    return stat['n'], wrong


def job_twins(job):
    rng = random.Random(job['seed'])
    n, bad = 0, []
    for path, init in job['paths']:
        cls = None
        if rng.random() < 0.2:      # readers of another class, the same for both
            cls = type('Twin2', (Twin,), dict(buffer_reader_class=OtherReader))
        v = dict(open_d=rng.choice([0, 0, 0.2]), read_d=rng.choice([0, 0, 0.05]), close_d=rng.choice([0, 0, 0.3]), close_fail=rng.random() < 0.1, look=rng.random() < 0.3, shape=rng.choice([0, 0, 1, 2]),
                 sleeps=[rng.choice([0.3, 0.05, 1.5]) for _ in '12'], own_sleep=rng.choice([None, None, 0.2]), method=rng.random() < 0.3,
                 err=rng.choice(['source'] * 3 + list(world.ERRORS)), items=rng.choice(['tup'] + list(KINDS)))
        k, w = run_path(path, init[0], dict(v, **{'class': cls}), rng)
        n += k
        bad += [dict(what='two stream buffers: ' + x, path=[p[0] for p in path], variant=v) for x in w]
        if len(bad) > 3:
            break
    return n, bad, dict(calls=[p[0] for p in job['paths'][0][0]])
