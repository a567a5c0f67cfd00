"""Runs a scenario against the real stream2py under the deterministic scheduler and records
what happens at its public boundary as a trace of events."""
import gc
import logging

import env
import vsched

vsched.install(env.PKG)

from items import Codec, SourceError  # noqa: E402
from stream2py import SourceReader, StreamBuffer  # noqa: E402
import stream2py  # noqa: E402
from stream2py.protocols import Source  # noqa: E402

assert stream2py.__file__.startswith(env.PKG), stream2py.__file__
logging.disable(logging.CRITICAL)
gc.disable()


def take_turns(lives, rng):
    """Runs several histories on things of their own, turn by turn: none may notice another."""
    lives = list(lives)
    while lives:
        x = rng.choice(lives)
        try:
            next(x)
        except StopIteration:
            lives.remove(x)


def pairs(paths, rng, share=0.25):
    """The histories to run, some of them two at a time."""
    paths = list(paths)
    while paths:
        yield [paths.pop(0) for _ in range(2 if len(paths) > 1 and rng.random() < share else 1)]


OPT = {None: 2, False: 0, True: 1}


def cur():
    return vsched.SCHED


class Info(dict):
    """The info of one session equals that of every other."""

    def __eq__(self, other):
        return isinstance(other, Info)

    def __ne__(self, other):
        return not isinstance(other, Info)

    __hash__ = None


class Break(BaseException):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False


ERRORS = dict(source=SourceError, value=ValueError, stop=StopIteration, key=KeyError, os=OSError, exit=SystemExit,
              interrupt=KeyboardInterrupt, base=Break, falsy=Falsy, gen=GeneratorExit, assertion=AssertionError, runtime=RuntimeError)


class Boundary:
    """Logs the calls a source receives and plays a scripted session per opening."""

    def setup(self, script, codec):
        self.script = script
        self.codec = codec
        self.n_open = 0
        self.pos = 0
        self.reads = 0
        self.sess = None
        self.serial = 0
        self.raised = []

    def error(self, where):
        e = ERRORS[(self.sess or {}).get('err', 'source')](where)
        self.raised.append(e)
        return e

    def _th(self):
        t = cur().me()
        return t.id if t is not None else -1

    def do_open(self):
        s = cur()
        th = self._th()
        s.emit(k='open', th=th)
        i = min(self.n_open, len(self.script) - 1)
        self.n_open += 1
        self.sess = self.script[i]
        self.pos = 0
        if self.sess.get('open_d'):
            s.sleep(self.sess['open_d'] * self.stretch / 1000)
        else:
            s.point('src')
        if self.sess.get('open') == 'fail':
            s.emit(k='opened', th=th, ok=0)
            raise self.error('open')
        s.emit(k='opened', th=th, ok=1)

    def left(self):
        if self.sess is None:
            return 0
        return sum(1 for e in self.sess['reads'][self.pos:] if e[0] != 'n')

    def backlog(self):
        return 0 if self.sess is None else len(self.sess['reads']) - self.pos

    def do_read(self):
        s = cur()
        th = self._th()
        s.emit(k='read', th=th)
        self.reads += 1
        sess = self.sess if self.sess is not None else {'reads': []}
        if self.pos < len(sess['reads']):
            e = sess['reads'][self.pos]
            self.pos += 1
        else:
            e = ['n', self.script[0].get('idle', 700)]  # nothing left
        what, *a = e
        d = a[-1] if (what in 'nx' and a) or len(a) > 1 else 0
        if d:
            s.sleep(d * self.stretch / 1000)
        else:
            s.point('src')
        if what == 'n':
            s.emit(k='readr', th=th, r='none', v=[])
            return None
        if what == 'x':
            s.emit(k='readr', th=th, r='raise', v=[])
            raise self.error('read')
        self.serial += 1
        if what == 'k':
            it = self.codec.bad(a[0], 1000 + self.serial)
            s.emit(k='readr', th=th, r='badkey', v=[[a[0], 1000 + self.serial]])
            return it
        if what == 'u':
            it = self.codec.unordered(a[0], 1000 + self.serial)
            s.emit(k='readr', th=th, r='unordered', v=[[a[0], 1000 + self.serial]])
            return it
        it = self.codec.make(a[0], 1000 + self.serial)
        s.emit(k='readr', th=th, r='item', v=[self.codec.dec(it)])
        return it

    def do_close(self):
        s = cur()
        if s is None or s.kill:
            return
        th = self._th()
        s.emit(k='close', th=th)
        sess = self.sess or {}
        if sess.get('close_d'):
            s.sleep(sess['close_d'] * self.stretch / 1000)
        else:
            s.point('src')
        ok = sess.get('close') != 'fail'
        s.emit(k='closed', th=th, ok=int(ok))
        if not ok:
            raise self.error('close')

    def do_info(self):
        if (self.sess or {}).get('info') == 'fail':
            cur().emit(k='infofail')
            raise self.error('info')
        return Info(session=self.n_open)


class Src(SourceReader):
    def __init__(self, script, codec, sleep):
        self.b = Boundary()
        self.b.setup(script, codec)
        self._sl = sleep

    def open(self):
        self.b.do_open()

    def read(self):
        return self.b.do_read()

    def close(self):
        self.b.do_close()

    def key(self, data):
        return self.b.codec.key(data)

    @property
    def info(self):
        return self.b.do_info()

    @property
    def sleep_time_on_read_none_s(self):
        return self._sl


class Plain:
    """Not derived from anything, only like a source."""

    key = Src.key
    info = Src.info

    def __init__(self, script, codec, sleep):
        self.b = Boundary()
        self.b.setup(script, codec)
        self.sleep_time_on_read_none_s = sleep
        self.open, self.read, self.close = self.b.do_open, self.b.do_read, self.b.do_close


class ByProtocol(Source):
    __init__, open, read, close, key, info = Src.__init__, Src.open, Src.read, Src.close, Src.key, Src.info
    sleep_time_on_read_none_s = Src.sleep_time_on_read_none_s


SOURCES = dict(reader=Src, plain=Plain, protocol=ByProtocol)


class World:
    def __init__(self, scn):
        self.scn = scn
        self.codec = Codec(scn['src'].get('kind', 'tup'))
        sc = scn['src']
        self.stretch = stretch = scn.get('stretch', 1)      # all times are so many times as long
        slow = lambda t: t and t * stretch
        self.src = SOURCES[sc.get('class', 'reader')](sc['sessions'], self.codec, slow(sc.get('sleep')))
        self.src.b.stretch = stretch
        b = scn['buf']
        if scn.get('via') == 'method' and isinstance(self.src, SourceReader):
            self.sb = self.src.stream_buffer(b['maxlen'], slow(b.get('sleep')), b['auto'])
        else:
            self.sb = StreamBuffer(
                self.src,
                maxlen=b['maxlen'],
                auto_drop=b['auto'],
                sleep_time_on_read_none_s=slow(b.get('sleep')),
            )
        self.readers = {}
        self.iters = {}
        self.rid = {}
        self.clients = {}
        self.sought = 0

    def r(self, name):
        if name not in self.rid:
            self.rid[name] = len(self.rid) + 1
        return self.rid[name]

    # -- results ------------------------------------------------------------------
    def item(self, x):
        c = self.codec
        if x is None:
            return dict(t='none', v=[], e='')
        if c.is_item(x):
            return dict(t='item', v=[c.dec(x)], e='')
        if type(x) is list:
            return dict(t='list', v=[c.dec(i) for i in x], e='')
        return dict(t='odd', v=[], e=type(x).__name__)

    def call(self, c, fields, fn, conv):
        s = cur()
        s.emit(k='call', c=c, **fields)
        s.point('call')
        try:
            x = fn()
        except vsched.Kill:
            raise
        except BaseException as e:
            if any(e is x for x in self.src.b.raised):
                res = dict(t='err', v=[], e='SourceError')
            elif isinstance(e, StopIteration):
                res = dict(t='stop', v=[], e='')
            else:
                res = dict(t='err', v=[], e=type(e).__name__)
        else:
            res = conv(x)
        s.emit(k='ret', c=c, op=fields['op'], **res)
        s.point('ret')
        return res

    @staticmethod
    def ok(x):
        return dict(t='ok', v=[], e='')

    @staticmethod
    def boolean(x):
        return dict(t='bool', v=[[int(x), 0]] if isinstance(x, bool) else [], e='')

    def info(self, x):
        if x is None:
            return dict(t='none', v=[], e='')
        return dict(t='info', v=[[x['session'], 0]], e='')

    # -- operations -----------------------------------------------------------------
    def run_ops(self, c, ops):
        for op in ops:
            if self.op(c, *op) is False:
                return False

    def op(self, c, name, *a):
        s = cur()
        return getattr(self, 'op_' + name)(c, s, *a)

    def op_spawn(self, c, s, name):
        from threading import Thread

        ops = self.scn['clients'][name]
        num = len(self.clients) + 1
        th = Thread(target=self.run_ops, args=(num, ops), name=name)
        self.clients[name] = th
        th.start()

    def op_join(self, c, s, name):
        self.clients[name].join()

    def op_joinall(self, c, s):
        for th in list(self.clients.values()):
            th.join()

    def op_finish(self, c, s):
        """Stop (again and again, clients may start) until every client is done."""
        for _ in range(12):
            alive = [th for th in self.clients.values() if th.is_alive()]
            self.op_stop(c, s)
            if not alive:
                return
            for th in alive:
                th.join(3 * self.stretch)
            if not any(th.is_alive() for th in alive):
                break
        for th in self.clients.values():
            th.join()
        self.op_stop(c, s)

    def op_sleep(self, c, s, ms):
        s.sleep(ms * self.stretch / 1000)

    def op_q(self, c, s, ms):
        """Let time pass until everything there is to do must have been done.  Counts only
        when nobody starts, stops or drops meanwhile."""
        n0 = self.src.b.reads
        i0 = len(s.log)
        busy = {}
        for e in s.log:
            if e['k'] == 'call':
                busy[e['c']] = e['op']
            elif e['k'] == 'ret':
                busy.pop(e['c'], None)
        s.emit(k='q0')
        s.nojump += 1
        s.sleep((ms / 1000 + self.src.b.backlog() * (1 + (self.scn['buf'].get('sleep') or 0.3))) * self.stretch)
        s.wait_idle()
        s.nojump -= 1
        change = ('start', 'stop', 'drop')
        if any(o in change for o in busy.values()) or any(
            e['k'] == 'call' and e['op'] in change for e in s.log[i0:]
        ):
            return
        s.emit(k='q', left=self.src.b.left(), reads=self.src.b.reads - n0)

    def op_start(self, c, s):
        self.call(c, dict(op='start'), self.sb.start, self.ok)

    def op_enter(self, c, s):
        self.call(c, dict(op='start'), self.sb.enter, self.ok)

    def op_stop(self, c, s):
        self.call(c, dict(op='stop'), self.sb.stop, self.ok)

    def op_exit(self, c, s):
        self.call(c, dict(op='stop'), lambda: self.sb.exit(None, None, None), self.ok)

    def op_body(self, c, s, how, *ops):
        """with the stream buffer: run ops inside; `how` == 'raise' leaves by exception."""
        sb = self.sb

        class Leave(Exception):
            pass

        def fn_enter():
            return sb.__enter__()

        r = self.call(c, dict(op='start'), fn_enter, self.ok)
        if r['t'] != 'ok':
            return
        self.run_ops(c, ops)
        et = (Leave, Leave(), None) if how == 'raise' else (None, None, None)

        def fn_exit():
            if sb.__exit__(*et):
                return 'swallowed'

        self.call(c, dict(op='stop'), fn_exit, lambda x: self.ok(x) if x is None else dict(t='odd', v=[], e=''))

    def op_isrun(self, c, s):
        self.call(c, dict(op='isrun'), lambda: self.sb.is_running, self.boolean)

    def op_sinfo(self, c, s):
        self.call(c, dict(op='sinfo'), lambda: self.sb.source_reader_info, self.info)

    def op_drop(self, c, s, n=None):
        if n is None:
            self.call(c, dict(op='drop', n=1), self.sb.drop, self.ok)
        else:
            self.call(c, dict(op='drop', n=n), lambda: self.sb.drop(n), self.ok)

    def op_mk(self, c, s, r, kw=None):
        kw = kw or {}
        f = dict(
            op='mk',
            r=self.r(r),
            n=kw.get('read_size', 1),
            peek=int(kw.get('peek', False)),
            ign=int(kw.get('ignore_no_item_found', False)),
            strict=int(kw.get('strict_n', False)),
        )

        def fn():
            self.readers[r] = self.sb.mk_reader(**kw)
            if self.stretch > 1:
                self.readers[r].set_sleep_time_on_iter_none(0.1 * self.stretch)
            self.iters.pop(r, None)

        self.call(c, f, fn, self.ok)

    def op_attach(self, c, s, r):
        if r not in self.readers:
            return
        self.call(c, dict(op='attach', r=self.r(r)), lambda: self.sb.attach_reader(self.readers[r]), self.ok)

    def op_read(self, c, s, r, kw=None):
        if r not in self.readers:
            return
        kw = kw or {}
        rd = self.readers[r]
        f = dict(
            op='read',
            r=self.r(r),
            n=kw.get('n', 0),
            peek=OPT[kw.get('peek')],
            ign=OPT[kw.get('ignore_no_item_found')],
            strict=OPT[kw.get('strict_n')],
            blk=int(kw.get('blocking', False)),
        )
        self.call(c, f, lambda: rd.read(**kw), self.item)

    def op_range(self, c, s, r, lo, hi, kw=None):
        if r not in self.readers:
            return
        kw = kw or {}
        rd = self.readers[r]
        f = dict(
            op='range',
            r=self.r(r),
            lo=lo,
            hi=hi,
            step=kw.get('step') or 1,
            peek=int(kw.get('peek', False)),
            ign=OPT[kw.get('ignore_no_item_found')],
            new=int(kw.get('only_new_items', False)),
            le=int(kw.get('start_le', False)),
            ge=int(kw.get('stop_ge', False)),
        )
        e = self.codec.enc_key
        self.call(c, f, lambda: rd.range(e(lo), e(hi), **kw), self.item)

    def op_head(self, c, s, r, kw=None):
        if r not in self.readers:
            return
        kw = kw or {}
        f = dict(op='head', r=self.r(r), peek=int(kw.get('peek', False)))
        self.call(c, f, lambda: self.readers[r].head(**kw), self.item)

    def op_tail(self, c, s, r, kw=None):
        if r not in self.readers:
            return
        kw = kw or {}
        f = dict(
            op='tail',
            r=self.r(r),
            peek=int(kw.get('peek', False)),
            ign=int(kw.get('ignore_no_item_found', False)),
            new=int(kw.get('only_new_items', False)),
        )
        self.call(c, f, lambda: self.readers[r].tail(**kw), self.item)

    def op_next(self, c, s, r, times=1):
        if r not in self.readers:
            return
        for _ in range(times):
            self.call(c, dict(op='next', r=self.r(r)), lambda: next(self.readers[r]), self.item)

    def op_sbnext(self, c, s, times=1, how='next'):
        fn = self.sb if how == 'call' else (lambda: next(self.sb))
        for _ in range(times):
            self.call(c, dict(op='sbnext'), fn, self.item)

    def op_iter(self, c, s, r, most=1000):
        """Iterate over a reader, at most so many items."""
        if r not in self.readers:
            return
        if r not in self.iters:
            self.iters[r] = iter(self.readers[r])
        self._iterate(c, r, most, 'iter')

    def op_sbiter(self, c, s, r, most=1000):
        """Iterate over the stream buffer (the reader it makes is called r)."""
        if r not in self.iters:
            self.iters[r] = iter(self.sb)
            self.rid.pop(r, None)
            self.rid[object()] = None  # a new reader number
        self._iterate(c, r, most, 'sbiter')

    def _iterate(self, c, r, most, op):
        it = self.iters[r]
        for _ in range(most):
            res = self.call(c, dict(op=op, r=self.r(r)), lambda: next(it), self.item)
            if res['t'] not in ('item', 'list'):
                self.iters.pop(r, None)
                break

    def op_last(self, c, s, r):
        if r not in self.readers:
            return
        rd = self.readers[r]

        def conv(x):
            it, key = x
            if it is None and key is None:
                return dict(t='last', v=[], e='')
            d = self.codec.dec(it)
            if self.codec.dec_key(key) != d[0]:
                d = [-98, -98]
            return dict(t='last', v=[d], e='')

        self.call(c, dict(op='last', r=self.r(r)), lambda: (rd.last_item, rd.last_key), conv)

    def op_seek(self, c, s, r, k):
        if r not in self.readers:
            return
        rd = self.readers[r]
        self.sought += 1
        it = self.codec.make(k, 8000 + self.sought)

        def fn():
            rd.last_item = it

        self.call(c, dict(op='seek', r=self.r(r), v=[self.codec.dec(it)]), fn, self.ok)

    def op_reset(self, c, s, r):
        if r not in self.readers:
            return

        def fn():
            del self.readers[r].last_item

        self.call(c, dict(op='reset', r=self.r(r)), fn, self.ok)

    def op_sjoin(self, c, s, late=None):
        fn = (lambda: self.sb.join()) if late is None else lambda: self.sb.join(late / 1000)
        self.call(c, dict(op='join', late=int(late is not None)), fn, self.ok)

    def op_stopped(self, c, s, r):
        if r not in self.readers:
            return
        self.call(c, dict(op='stopped', r=self.r(r)), lambda: self.readers[r].is_stopped, self.boolean)

    def op_info(self, c, s, r):
        if r not in self.readers:
            return
        self.call(c, dict(op='info', r=self.r(r)), lambda: self.readers[r].source_reader_info, self.info)

    def op_same(self, c, s, r, r2):
        if r not in self.readers or r2 not in self.readers:
            return
        self.call(
            c,
            dict(op='same', r=self.r(r), r2=self.r(r2)),
            lambda: self.readers[r].is_same_buffer(self.readers[r2]),
            self.boolean,
        )


def run_stream(scn, strat, max_steps=300000, **kw):
    """One run; returns the trace."""
    st = vsched.make_strategy(strat)
    s = vsched.Sched(st, max_steps=max_steps * (4 if scn.get('stretch') else 1), **kw)
    box = {}

    def main():
        w = box['w'] = World(scn)
        w.run_ops(0, scn['main'])

    s.run(main)
    if s.stuck:
        s.log.append(dict(k='stuck', why=s.stuck['why'], ts=s.clock))
    elif s.main_exc is not None:
        e = s.main_exc
        s.log.append(dict(k='crash', why=type(e).__name__ + ': ' + str(e), ts=s.clock))
    else:
        s.log.append(dict(k='end', ts=s.clock))
    b = scn['buf']
    box.clear()
    gc.collect() if s.steps % 64 == 0 else None
    return dict(
        maxlen=-1 if b['maxlen'] is None else b['maxlen'],
        auto=int(b['auto'] is True),
        ev=s.log,
    ), s
