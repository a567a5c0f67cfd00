"""Clients that open and close readers of one stream source at the same time; records the
calls, their answers and what the source gets."""
import threading

import vsched

from items import SourceError
from stream2py import StreamSource


class Feed(StreamSource):
    def __init__(self, s, script):
        super().__init__()
        self.s = s
        self.script = script
        self.n = 0
        self.k = None

    def open(self):
        s = self.s
        s.emit(k='open')
        k = self.script[min(self.n, len(self.script) - 1)]
        self.n += 1
        s.sleep(k['open_d'] / 1000) if k['open_d'] else s.point('src')
        if k['open_fail']:
            s.emit(k='opened', ok=0)
            raise SourceError('open')
        self.k, self.given = k, 0
        s.emit(k='opened', ok=1)

    def read(self):
        s, k = self.s, self.k
        s.sleep(k['read_d'] / 1000) if k['read_d'] else s.point('src')
        if k['fail'] == self.given:
            s.emit(k='fails')
            raise SourceError('read')
        if self.given < k['items']:
            self.given += 1
            s.emit(k='given')
            return (self.n, self.given)
        return None

    def close(self):
        s = self.s
        if s.kill:
            return
        s.emit(k='close')
        s.sleep(self.k['close_d'] / 1000) if self.k['close_d'] else s.point('src')
        s.emit(k='closed')

    def key(self, data):
        return data[1]

    @property
    def info(self):
        return {'session': self.n}


def no(*v):
    return dict(t='ok', v=[])


def boolean(x):
    return dict(t='bool', v=[int(x)] if isinstance(x, bool) else [])


def saw(x):
    return dict(t='saw', v=[] if x is None else list(x))


class Leave(Exception):
    pass


def run_shared(scn, strat):
    s = vsched.Sched(vsched.make_strategy(strat), max_steps=60000)

    def main():
        src = Feed(s, scn['script'])
        readers = {}
        number = {}

        def call(c, op, r, fn, conv):
            s.emit(k='call', c=c, op=op, r=r)
            s.point('call')
            try:
                res = conv(fn())
            except Exception as e:
                res = dict(t='err', v=[]) if isinstance(e, SourceError) and op == 'open' else dict(t='odd', v=[], e=repr(e))
            s.emit(k='ret', c=c, op=op, **dict(dict(e=''), **res))
            s.point('ret')

        def use(c, ops):
            for op, *a in ops:
                if op == 'sleep':
                    s.sleep(a[0] / 1000)
                    continue
                r = a[0]
                if op == 'open':
                    number[r] = len(number) + 1

                    def fn():
                        readers[r] = src.open_reader()

                    call(c, 'open', number[r], fn, no)
                    continue
                if r not in readers:
                    continue
                x = readers[r]
                if op == 'close':
                    if a[1] == 'leave':
                        def fn():
                            with x:
                                s.point('in')
                    elif a[1] == 'raise':
                        def fn():
                            try:
                                with x:
                                    raise Leave
                            except Leave:
                                pass
                    else:
                        fn = x.close
                    call(c, 'close', number[r], fn, no)
                elif op == 'stopped':
                    call(c, op, number[r], lambda: x.is_stopped, boolean)
                elif op == 'info':
                    call(c, op, number[r], lambda: x.source_reader_info, lambda i: dict(t='info', v=[i['session']]))
                elif op == 'see':
                    call(c, op, number[r], lambda: x.tail(peek=True, ignore_no_item_found=True), saw)

        ths = [threading.Thread(target=use, args=(i + 1, ops)) for i, ops in enumerate(scn['clients'])]
        for t in ths:
            t.start()
        for t in ths:
            t.join()

        def quiet():
            s.nojump += 1
            s.sleep(30)
            s.wait_idle()
            s.nojump -= 1
            s.emit(k='q')

        quiet()
        use(0, [[o, r] for r in list(readers) for o in ('stopped', 'info', 'see')])
        use(0, [['close', r, 'close'] for r in list(readers)])
        quiet()
        use(0, [['stopped', r] for r in list(readers)])

    s.run(main)
    if s.stuck:
        s.log.append(dict(k='stuck', why=s.stuck['why'], ts=s.clock))
    elif s.main_exc is not None or any(e != 'SourceError' for _, e, _ in s.exceptions):
        s.log.append(dict(k='crash', why=str(s.exceptions)[:300], ts=s.clock))
    else:
        s.log.append(dict(k='end', ts=s.clock))
    return dict(ev=s.log), s
