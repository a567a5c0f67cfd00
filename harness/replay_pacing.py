"""Measures, in virtual time, when the real code reads its source and looks for items."""
import random

import vsched
import world  # noqa: F401
from stream2py import BufferReader, SourceReader, StreamBuffer, StreamSource
from stream2py.simply import mk_stream_buffer

UNIT = 0.025


class Own(BufferReader):
    pass


class Script:
    def setup(self, script, dur):
        self.script, self.dur = script, dur
        self.pos = 0
        self.times = []
        self.free = False
        self.t0 = None
        return self

    def now(self):
        return vsched.SCHED.clock / 1e6

    def open(self):
        self.pos = 0
        self.times = []
        self.free = False

    def read(self):
        s = vsched.SCHED
        if self.pos >= len(self.script):
            while not self.free:
                s.sleep(0.5)
            return None
        self.times.append(self.now())
        x = self.script[self.pos]
        self.pos += 1
        if self.dur:
            s.sleep(self.dur * UNIT)
        return self.pos if x else None

    def close(self):
        pass

    def key(self, data):
        return data

    @property
    def info(self):
        return {}


class Reader(Script, SourceReader):
    pass


class Stream(Script, StreamSource):
    pass


def with_sleep(base, secs):
    if secs is None:
        return base

    class Paced(base):
        sleep_time_on_read_none_s = secs

    class Prop(base):
        @property
        def sleep_time_on_read_none_s(self):
            return secs

    return Paced, Prop


def whole(x, rng):
    """A whole number of seconds as an integer too."""
    return int(x) if x == int(x) and rng.random() < 0.6 else x


def run_case(row, rng):
    (arg, own, poll, dur), script, reads, got = row
    arg, own = ([None if x == 99 else whole(x * UNIT, rng) for x in (arg, own)])
    wrong = []
    via = rng.choice(['buffer', 'method', 'stream'] + (['simply'] if own is None else []))
    base = Stream if via == 'stream' else Reader
    cls = with_sleep(base, own)
    cls = rng.choice(cls) if isinstance(cls, tuple) else cls
    custom = rng.choice([None, 'attr', 'instance'] + (['ctor'] if via == 'stream' else []))
    kw = dict(read_size=rng.choice([1, 1, 2]), peek=rng.random() < 0.2, strict_n=rng.random() < 0.3, ignore_no_item_found=rng.random() < 0.5)
    if via == 'stream':
        kw.pop('peek')
    given = {k: v for k, v in kw.items() if rng.random() < 0.6 or v != dict(read_size=1).get(k, False)}
    how = rng.choice(['iter', 'blocking'] + (['sbiter'] if poll == 4 and via != 'stream' else []))

    keep = []

    def main():
        s = vsched.SCHED
        if custom == 'ctor':
            src = cls(reader_cls=Own)
        else:
            src = cls()
        src.setup(script, dur)
        if custom == 'attr':
            type(src).buffer_reader_class = Own
        elif custom == 'instance':
            src.buffer_reader_class = Own
        sb = cm = None
        if via == 'buffer':
            sb = StreamBuffer(src, maxlen=rng.choice([None, 500]), auto_drop=rng.choice([True, False]), **({} if arg is None and rng.random() < 0.5 else dict(sleep_time_on_read_none_s=arg)))
        elif via == 'method':
            sb = src.stream_buffer(rng.choice([None, 500]), **({} if arg is None and rng.random() < 0.5 else dict(sleep_time_on_read_none_s=arg)))
        elif via == 'stream':
            if arg is not None or rng.random() < 0.5:
                src.configure_buffer(maxlen=rng.choice([None, 500]), sleep_time_on_read_none_s=arg, auto_drop=rng.choice([True, False]))
        for session in range(rng.choice([1, 1, 2])):
            t0 = s.clock / 1e6
            if via == 'stream':
                r = src.open_reader(**given)
                want = Own if custom else BufferReader
            elif via == 'simply':
                src.open()
                cm = mk_stream_buffer(
                    read_stream=lambda _: src.read(), enumerate_data=False,
                    **({} if arg is None and rng.random() < 0.5 else dict(sleep_time_on_read_none_seconds=arg)))
                keep.append(sb)  # deleting a stream buffer stops it, which takes a second
                sb = cm.__enter__()
                r = sb.mk_reader(**given)
                want = BufferReader
            else:
                sb.start()
                r = sb.mk_reader(**given)
                want = Own if custom else BufferReader
            if type(r) is not want:
                wrong.append(f'reader of class {type(r).__name__}, specified {want.__name__} ({via}, {custom})')
            for k, v in kw.items():
                if getattr(r, k) != v:
                    wrong.append(f'reader made with {given} has {k}={getattr(r, k)} ({via})')
            if poll != 4 or rng.random() < 0.3:
                r.set_sleep_time_on_iter_none(poll * UNIT)
            times = []
            if how == 'sbiter':
                it = iter(sb)
            else:
                it = None
                r2 = src.open_reader() if via == 'stream' else sb.mk_reader()
                if poll != 4:
                    r2.set_sleep_time_on_iter_none(poll * UNIT)
            s.nojump += 1
            s.sleep(UNIT)
            if it is None:
                it = iter(r2) if how == 'iter' else None
            for _ in got:
                x = next(it) if it is not None else r2.read(blocking=True)
                times.append(s.clock / 1e6)
                if x is None:
                    break
            end = t0 + (reads[-1] + dur + 1) * UNIT
            if s.clock / 1e6 < end:
                s.sleep(end - s.clock / 1e6)
            s.nojump -= 1
            near = lambda xs, ys: len(xs) == len(ys) and all(abs(x - t0 - y * UNIT) < UNIT * 0.45 for x, y in zip(xs, ys))
            if not near(src.times, reads):
                wrong.append(f'source read at {[round(x - t0, 3) for x in src.times]}, specified {[y * UNIT for y in reads]}: script {script}, '
                             f'read takes {dur * UNIT}, time given {arg}, own time {own} ({via})')
            if not near(times, got):
                wrong.append(f'items were returned at {[round(x - t0, 3) for x in times]}, specified {[y * UNIT for y in got]}: script {script}, '
                             f'polling {poll * UNIT} ({how}, {via})')
            src.free = True
            s.sleep(1)
            if via == 'stream':
                r.close()
                if how != 'sbiter':
                    r2.close()
            elif via == 'simply':
                cm.__exit__(None, None, None)
            else:
                sb.stop()
            s.sleep(3 + (max(x or 0 for x in (arg, own)) + dur * UNIT))
            if wrong:
                return

    s = vsched.Sched(vsched.make_strategy(['default']), max_steps=300000, trace=False)
    s.run(main)
    if s.stuck or s.main_exc:
        wrong.append(f'{row}: {s.stuck or repr(s.main_exc)}')
    return wrong


def job_pacing(job):
    rng = random.Random(job['seed'])
    n, bad = 0, []
    for row in job['rows']:
        for _ in range(job['times']):
            for a in (Reader, Stream):
                if 'buffer_reader_class' in a.__dict__:
                    del a.buffer_reader_class
            n += 1
            bad += [dict(what='pacing: ' + x, row=row) for x in run_case(row, rng)]
        if len(bad) > 3:
            break
    return n, bad, dict(case=job['rows'][0])
