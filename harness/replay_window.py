"""Executes generated histories of large buffers on the real code."""
import json
import random

import vsched
from items import Codec
import world  # noqa: F401
from stream2py import SourceReader, StreamBuffer


class Burst(SourceReader):
    """Delivers items 0, 1, 2, ... as long as it has some."""

    def __init__(self, codec):
        self.codec = codec
        self.avail = 0

    def open(self):
        self.at = 0
        self.items = []

    def close(self):
        pass

    def read(self):
        if self.at >= self.avail:
            return None
        k = self.at
        self.at += 1
        it = self.codec.make(2 * k, k)
        self.items.append(it)
        return it

    def key(self, data):
        return self.codec.key(data)

    info = {}
    sleep_time_on_read_none_s = 0.5


def run_walk(steps, conf, kind, rng):
    maxlen, auto = conf
    wrong = []
    stat = [0]

    def main():
        s = vsched.SCHED
        codec = Codec(kind)
        src = Burst(codec)
        kw = {}
        if maxlen != 100 or rng.random() < 0.5:      # 100 is the default
            kw['maxlen'] = maxlen or None
        if not auto or rng.random() < 0.5:
            kw['auto_drop'] = bool(auto)
        sb = StreamBuffer(src, **kw)
        sb.start()
        r = sb.mk_reader()
        spy = sb.mk_reader()
        enc = codec.enc_key
        ek = lambda n: enc(2 * n)      # of the n-th item

        def settle():
            s.nojump += 1
            s.sleep(1.2)
            s.wait_idle()
            s.nojump -= 1

        def sure(x, n, strict=False):
            return x if n > 1 or x is None else [x]

        done = []
        for op, res, post in steps:
            name = op[0]
            try:
                if name == 'burst':
                    src.avail += op[1]
                    settle()
                    got = 'ok'
                elif name == 'drop':
                    try:
                        sb.drop(op[1])
                    finally:
                        settle()
                    got = 'ok'
                elif name == 'read':
                    n, times, peek = op[1:]
                    if times == 1:
                        x = r.read(n=n, peek=bool(peek), ignore_no_item_found=True)
                        got = x if n > 1 or x is None else [x]
                    else:
                        got = []
                        for _ in range(times):
                            x = next(r) if rng.random() < 0.5 else r.read(n=1, ignore_no_item_found=True)
                            if x is None:
                                break
                            got.append(x)
                        got = got or None
                elif name == 'strict':
                    got = r.read(n=op[1], strict_n=True, ignore_no_item_found=True)
                elif name == 'head':
                    got = [r.head()]
                elif name == 'tail':
                    got = r.tail(ignore_no_item_found=True)
                    got = got if got is None else [got]
                elif name == 'tailnew':
                    got = r.tail(only_new_items=True, ignore_no_item_found=True)
                    got = got if got is None else [got]
                elif name == 'pick':
                    a, b, new, le, ge, peek = op[1:]
                    kw = dict(only_new_items=new, start_le=le, stop_ge=ge)
                    kw = {k: v for k, v in kw.items() if v or rng.random() < 0.5}
                    got = r.range(enc(a), enc(b), **kw, peek=bool(peek), ignore_no_item_found=True) or None
                elif name == 'range':
                    a, b, st, peek = op[1:]
                    got = r.range(ek(a), ek(b), **({} if st == 1 else dict(step=st)), peek=bool(peek), ignore_no_item_found=True) or None
            except (ValueError, IndexError, RuntimeError) as e:
                got = e
            except Exception as e:
                wrong.append(f'{op} raised {e!r}, after {done}')
                return
            stat[0] += 1
            done.append(op)
            if res[0] == 'items':
                ok = isinstance(got, list) and same(got, src.items[res[1]:res[2]:res[3]])
            elif res[0] == 'none':
                ok = got is None or name == 'head' and isinstance(got, Exception)
            elif res[0] == 'err':
                ok = isinstance(got, Exception)
            else:
                ok = got == 'ok'
            if not ok:
                show = got if not isinstance(got, list) else f'{len(got)} items from {codec.dec(got[0])[0]} to {codec.dec(got[-1])[0]}'
                wrong.append(f'{op} gave {show}, specified {res}, with maxlen {maxlen} auto_drop {auto}, after {done[:-1]}')
                return
            seen = post[4]
            if (r.last_item is None) != (seen == 0) or seen and not same([r.last_item, r.last_key], [src.items[seen - 1], ek(seen - 1)]):
                wrong.append(f'{op} left the cursor at {r.last_key}, specified number {seen - 1}, with maxlen {maxlen} auto_drop {auto}, after {done[:-1]}')
                return
            if name in ('burst', 'drop'):
                x = spy.range(ek(-1), ek(10**6), peek=True, ignore_no_item_found=True) or []
                _, _, hi, lo, _ = post
                if not same(x, src.items[lo:hi]) or src.at != hi:
                    wrong.append(f'{op}: buffered are {len(x)} items {[codec.dec(i)[0] for i in x[:1] + x[-1:]]} of {src.at} read from the source, '
                                 f'specified {lo} to {hi}, with maxlen {maxlen} auto_drop {auto}, after {done[:-1]}')
                    return
        sb.stop()

    s = vsched.Sched(vsched.make_strategy(['default']), max_steps=10000000, trace=False)
    s.run(main)
    if s.stuck or s.main_exc:
        wrong.append(f'{[x[0] for x in steps]}: {s.stuck or repr(s.main_exc)}')
    return stat[0], wrong


def same(xs, ys):
    return len(xs) == len(ys) and all(x is y or type(x) in (int, tuple) and x == y for x, y in zip(xs, ys))


def job_window(job):
    rng = random.Random(job['seed'])
    n, bad, smp = 0, [], None
    for steps, conf in job['walks']:
        kind = rng.choice(['tup', 'ident', 'dict', 'ktup'])
        k, w = run_walk(steps, conf, kind, rng)
        n += k
        bad += [dict(what='large window: ' + x, walk=steps, conf=conf, items=kind) for x in w]
        smp = dict(conf=conf, steps=steps[:6])
        if len(bad) > 2:
            break
    return n, bad, smp
