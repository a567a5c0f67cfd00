"""Executes generated lives of a stream buffer on the real code."""
import random

import vsched
import world
from items import Codec, KINDS
from stream2py import SourceReader, StreamBuffer
from stream2py.exceptions import StreamNotStartedError

PERIOD = 4.0      # longer than any wait of the stream


class Feed(SourceReader):
    """Gives the items it is told to, counts the calls it gets."""

    def __init__(self, variant, codec):
        self.v = variant
        self.codec = codec
        self.calls = []
        self.sess = 0
        self.avail = self.pos = 0
        self.die = None
        self.fail = None
        self.is_open = False
        self.wrong = []
        self.raised = []
        self.busy = False

    def error(self, where):
        self.raised.append(world.ERRORS[self.v['err']](where))
        return self.raised[-1]

    def open(self):
        vsched.SCHED.sleep(self.v['open_d'])
        if self.is_open:
            self.wrong.append('opened while open')
        self.sess += 1
        self.calls.append(['open', self.sess])
        self.avail = self.pos = 0
        self.die = None
        if self.fail == 'open':
            raise self.error('open')
        self.is_open = True

    def item(self, k):
        it = self.codec.make(k, k)
        return it

    def read(self):
        if not self.is_open or self.busy:
            self.wrong.append('read while closed' if not self.is_open else 'read twice at once')
        self.busy = True
        try:
            vsched.SCHED.sleep(self.v['read_d'])
            if self.die == 'raise':
                raise self.error('read')
            if self.die == 'badkey':
                return self.codec.bad(self.sess * 100 + 50, 0)
            if self.die is not None:
                return self.item(self.die)
            if self.pos < self.avail:
                self.pos += 1
                return self.item(self.sess * 100 + self.pos)
            return None
        finally:
            self.busy = False

    def close(self):
        vsched.SCHED.sleep(self.v['close_d'])
        self.calls.append(['close', self.sess])
        if not self.is_open or self.busy:
            self.wrong.append('closed while ' + ('being read' if self.busy else 'closed'))
        self.is_open = False
        if self.v['close_fail']:
            raise self.error('close')

    def key(self, data):
        return self.codec.key(data)

    @property
    def info(self):
        if self.fail == 'info':
            raise self.error('info')
        return {'session': self.sess}

    @property
    def sleep_time_on_read_none_s(self):
        return self.v['sleep']


def run_path(path, conf, variant, rng):
    wrong = []
    stat = dict(n=0)
    maxlen, auto = conf

    def main():
        s = vsched.SCHED
        codec = Codec(variant['items'])
        src = Feed(variant, codec)
        kw = dict(maxlen=maxlen or None, auto_drop=bool(auto))
        if variant['own_sleep']:
            kw['sleep_time_on_read_none_s'] = variant['own_sleep']
        sb = StreamBuffer(src, **kw)
        slots = {}
        done = []
        last = [[], [], 0, 0]

        def settle():
            s.nojump += 1
            s.sleep(PERIOD * variant['slow'])
            s.wait_idle()
            s.nojump -= 1

        def num(it):
            return codec.dec(it)[0] if it is not None else None

        def items(x):
            if x is None:
                return ['none']
            if isinstance(x, list) and variant['items'] != 'empty' or type(x) is list:
                return ['list'] + [num(i) for i in x]
            return ['item', num(x)]

        def start():
            how = rng.randrange(3)
            x = sb
            if how == 0:
                sb.start()
            elif how == 1:
                x = sb.enter()
            else:
                x = sb.__enter__()
            return ['ok'] if x is sb else ['entering gave something else']

        def stop():
            how = rng.randrange(3)
            if how == 0:
                sb.stop()
            else:
                e = ValueError('x')
                if (sb.exit if how == 1 else sb.__exit__)(*rng.choice([(None, None, None), (ValueError, e, None)])):
                    return ['leaving swallows exceptions']
            return ['ok']

        def perform(op, res):
            """The answer of a call and whether to wait for what follows from it."""
            name = op[0]
            if name == 'start':
                if not src.calls:
                    for _ in range(variant['before']):       # a past that nothing is left of
                        src.avail = 1
                        start()
                        x = sb.mk_reader()
                        src.avail = 1
                        stop()
                    if variant['before']:
                        settle()
                        if [c for c, _ in src.calls] != ['open', 'close'] * variant['before']:
                            src.wrong.append(f'the first sessions were {src.calls}')
                    src.calls.clear()
                    src.sess = 0
                src.fail = None if op[1] == 'ok' else op[1]
                return start(), op[1] != 'ok' or rng.random() < 0.5
            if name == 'stop':
                return stop(), rng.random() < 0.5
            if name == 'advance':
                src.avail += 1
                return ['ok'], True
            if name == 'die':
                ways = ['raise', 'raise', 'badkey']
                if op[1]:
                    held = [k for o in last[1] if o and o[0] == src.sess for k in o[2]]
                    ways += held[-1:] + [src.sess * 100]
                src.die = rng.choice(ways)
                return ['ok'], True
            if name == 'isrun':
                x = sb.is_running
                return [int(x) if isinstance(x, bool) else x], False
            if name == 'sinfo':
                x = sb.source_reader_info
                return [0 if x is None else x.get('session')], False
            if name == 'join':
                sb.join()
                closes = [sum(1 for c in src.calls if c == ['close', i + 1]) for i in range(src.sess)]
                if closes != [c for _, c in last[0]]:
                    return [f'joined with the closings {closes}'], False
                return ['ok'], True
            if name == 'joinfor':
                t = s.clock
                sb.join(0.5)
                return (['ok'] if s.clock - t >= 0.49e6 else [f'joined after {s.clock - t} us']), True
            if name == 'mk':
                slots[op[1]] = sb.mk_reader()
                return ['ok'], False
            if name == 'attach':
                sb.attach_reader(slots[op[1]])
                return ['ok'], False
            if name == 'read':
                r = slots[op[1]]
                how = rng.randrange(4)
                if how == 0:
                    with r as x:
                        return items(x.read()), False
                if how == 1:
                    x = r.enter()
                    try:
                        return items(x.read()), False
                    finally:
                        r.exit()
                if how == 2:
                    r.close()      # only ends a session that was told to end with it
                return items(r.open().read() if how == 2 else r.read()), False
            if name == 'next':
                return items(next(slots[op[1]])), False
            if name == 'block':
                return items(slots[op[1]].read(n=2, blocking=True)), False
            if name == 'tail':
                return items(slots[op[1]].tail(only_new_items=True, ignore_no_item_found=True)), False
            if name == 'iter':
                return ['list'] + [num(i) for i in slots[op[1]]], False
            if name == 'same':
                return [int(slots[op[1]].is_same_buffer(slots[op[2]]))], False
            if name == 'sbnext':
                return items(next(sb) if rng.random() < 0.6 else sb()), False
            if name == 'sbiter':
                it = iter(sb)
                if len(res) > 1 and src.is_open and running[0]:
                    return ['list', num(next(it))], False
                return ['list'] + [num(i) for i in it], False
            if name == 'drop':
                if op[1] == 1 and rng.random() < 0.5:
                    sb.drop()
                else:
                    sb.drop(op[1])
                return ['ok'], True
            raise AssertionError(op)

        running = [0]
        for op, res, post, obs in path:
            quiet = True
            last[:] = obs if op[0] in ('join',) else last
            try:
                got, quiet = perform(op, res)
            except vsched.Kill:
                raise
            except StopIteration:
                got = ['stop']
            except BaseException as e:
                got = ['err']
                if op[0] == 'start':
                    if not any(e is x for x in src.raised):
                        got = [f'raised {e!r}, not what the source raised']
                elif op[0] in ('mk', 'attach', 'sbnext', 'sbiter'):
                    if not isinstance(e, StreamNotStartedError):
                        got = [f'raised {e!r}']
                elif op[0] in ('read', 'tail', 'drop'):
                    if not isinstance(e, (ValueError, IndexError, RuntimeError)):
                        got = [f'raised {e!r}']
                else:
                    got = [f'raised {e!r}']
            if got == ['stop'] and op[0] == 'start' and variant['err'] == 'stop':
                got = ['err']
            if op[0] == 'drop' and got == ['err']:
                quiet = True
            done.append(op)
            stat['n'] += 1
            last[:] = obs
            running[0] = obs[2]
            if res[0] == 'sig':
                ok = got in (['err'], ['none'])
            else:
                ok = got == res
            if not ok:
                wrong.append(f'{op} gave {got}, specified {res}, after {done[:-1]}')
                return
            if not quiet:
                continue
            settle()
            counts, views, run, cur = obs
            opens = [c for c in src.calls if c[0] == 'open']
            closes = [sum(1 for c in src.calls if c == ['close', i + 1]) for i in range(len(counts))]
            if len(opens) != len(counts) or closes != [c for _, c in counts] or src.wrong:
                wrong.append(f'the source got the calls {src.calls} {src.wrong}, specified openings and closings per session {counts}, after {done}')
                return
            if bool(sb.is_running) != bool(run):
                wrong.append(f'is_running is {sb.is_running}, specified {bool(run)}, after {done}')
                return
            x = sb.source_reader_info
            if (0 if x is None else x.get('session')) != cur:
                wrong.append(f'source_reader_info is {x}, specified session {cur}, after {done}')
                return
            for i, v in enumerate(views):
                if not v:
                    continue
                r = slots[i + 1]
                ses, stopped, keys, curk = v
                have = [num(x) for x in r.range(codec.enc_key(0), codec.enc_key(999), peek=True, ignore_no_item_found=True) or []]
                seen = [[codec.dec_key(r.last_key, range(1000)), num(r.last_item)]] if r.last_item is not None else []
                real = [r.source_reader_info.get('session'), int(r.is_stopped), have, seen]
                want = [ses, stopped, keys, [[k, k] for k in curk]]
                if real != want:
                    wrong.append(f'reader {i + 1} shows [session, stopped, items, last seen] {real}, specified {want}, after {done}')
                    return
        if src.sess and path[-1][2][1] and obs[2]:
            sb.stop()

    s = vsched.Sched(vsched.make_strategy(['default']), max_steps=150000, trace=False)
    s.run(main)
    if s.stuck or s.main_exc:
        wrong.append(f'{[x[0] for x in path]}: {s.stuck or repr(s.main_exc)}')
    return stat['n'], wrong


def job_life(job):
    rng = random.Random(job['seed'])
    n, bad = 0, []
    for path, init in job['paths']:
        z = rng.choice([1] * 9 + [50])
        v = dict(slow=z, before=0 if path[0][0][0] != 'start' else rng.choice([0] * 12 + [3, 30]), open_d=rng.choice([0, 0, 0.2]) * z, read_d=rng.choice([0, 0, 0.05, 1.3]) * z, close_d=rng.choice([0, 0, 0.3]) * z, close_fail=rng.random() < 0.1,
                 sleep=rng.choice([0.3, 0.05, 1.5]) * z, own_sleep=rng.choice([None, None, 0.2 * z]),
                 err=rng.choice(['source'] * 3 + list(world.ERRORS)), items=rng.choice(['tup'] + list(KINDS)))
        k, w = run_path(path, init[0], v, rng)
        n += k
        bad += [dict(what='stream buffer: ' + x, path=[p[0] for p in path], variant=v) for x in w]
        if len(bad) > 3:
            break
    return n, bad, dict(calls=[p[0] for p in job['paths'][0][0]])
