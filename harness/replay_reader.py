"""Executes generated reader calls on real readers."""
import warnings

import vsched
import world

warnings.simplefilter('ignore', DeprecationWarning)


def job_reader(job):
    buf, cur, steps = job['buf'], job['cur'], job['steps']
    scn = dict(
        src=dict(kind=job['items'], sleep=0.1, sessions=[
            dict(reads=[['i', k] for k in cur]), dict(reads=[['i', k] for k in buf]), dict(reads=[])]),
        buf=dict(maxlen=None if job['via'] else len(buf) + 1, auto=True, sleep=0.1),
    )
    bad = []
    done = [0]

    def main():
        w = world.World(scn)
        sb = w.sb
        s = world.cur()
        readers = []

        def mk(op):
            if op[0] in ('def', 'defnext'):
                return sb.mk_reader(read_size=op[1], peek=bool(op[2]), strict_n=bool(op[3]), ignore_no_item_found=bool(op[4]))
            if op[0] == 'defrange':
                return sb.mk_reader(peek=bool(op[1]), ignore_no_item_found=bool(op[2]))
            return sb.mk_reader()

        sb.start()
        s.sleep(1)
        early = bool(cur) or job['via']
        if early:
            readers = [mk(x[0]) for x in steps]
            for i, r in enumerate(readers):
                if cur and i % 3:
                    r.tail()
                elif cur:
                    r.last_item = r.tail(peek=True)       # assigning the cursor
        sb.start()
        s.sleep(1)
        if early:
            for r in readers:
                sb.attach_reader(r)
        else:
            readers = [mk(x[0]) for x in steps]
            for r in readers[::3]:
                if buf:
                    r.tail(peek=False)
                    del r.last_item       # as if nothing had been read
        spy = sb.mk_reader()
        ek = w.codec.enc_key
        for i, (r, (op, t, v, c)) in enumerate(zip(readers, steps)):
            if job.get('only') is not None and i != job['only']:
                continue
            try:
                x = call(r, op, ek, i + len(buf))
            except StopIteration:
                got = ('stop', [])
            except (ValueError, IndexError):
                got = ('err', [])
            except Exception as e:
                got = ('raised ' + type(e).__name__, [])
            else:
                res = w.item(x)
                got = (res['t'], [k for k, _ in res['v']])
            done[0] += 1
            if got != (t, v):
                bad.append(dict(only=i, what=f'{op} on keys {buf} with cursor {cur} ({job["items"]}): got {got}, specified {(t, v)}'))
                continue
            lst = last(w, r)
            if lst != c:
                bad.append(dict(only=i, what=f'{op} on keys {buf} with cursor {cur} ({job["items"]}) left cursor {lst}, specified {c}'))
            if len(bad) > 3:
                return
        if job.get('only') is None and not bad:
            for i, (r, (op, t, v, c)) in enumerate(zip(readers, steps)):
                if last(w, r) != c:
                    bad.append(dict(what=f'other calls changed the cursor of a reader: {op} on keys {buf} with cursor {cur}: now {last(w, r)}, was {c}'))
                    break
        x = spy.range(ek(-3), ek(30), peek=True, ignore_no_item_found=True)
        got = [w.codec.dec(i)[0] for i in x or []]
        if got != buf:
            bad.append(dict(what=f'reading calls changed the buffer {buf} to {got}'))
        sb.stop()

    s = vsched.Sched(vsched.make_strategy(['default']), max_steps=2000000, trace=False)
    s.run(main)
    if s.stuck or s.main_exc:
        bad.append(dict(what=f'calls on keys {buf} with cursor {cur}: {s.stuck or repr(s.main_exc)}'))
    return done[0], bad, dict(buf=buf, cur=cur, step=steps[0], items=job['items'])


def last(w, r):
    it, key = r.last_item, r.last_key
    if it is None and key is None:
        return []
    d = w.codec.dec(it)
    return [d[0]] if w.codec.dec_key(key) == d[0] else ['inconsistent']


def said(style, **kw):
    """Options in keywords; what is the default need not be said."""
    return {k: bool(v) for k, v in kw.items() if v or not style & 1}


def call(r, op, ek, style=0):
    if op[0] == 'read':
        n, p, s, i = op[1:]
        kw = said(style, peek=p, strict_n=s, ignore_no_item_found=i)
        if n != 1 or not style & 1:
            kw['n'] = n
        return (r.next if style & 2 else r.read)(**kw)      # next is the old name
    if op[0] == 'range':
        lo, hi, st, p, i, nw, le, ge = op[1:]
        return r.range(ek(lo), ek(hi), *([st] if st > 1 else []), **said(style, peek=p, ignore_no_item_found=i, only_new_items=nw, start_le=le, stop_ge=ge))
    if op[0] == 'head':
        return r.head(**said(style, peek=op[1]))
    if op[0] == 'tail':
        return r.tail(**said(style, peek=op[1], ignore_no_item_found=op[2], only_new_items=op[3]))
    if op[0] == 'def':
        kw = {}
        if op[5]:
            kw['n'] = op[5]
        for name, x in zip(('peek', 'strict_n', 'ignore_no_item_found'), op[6:]):
            if x != 2:
                kw[name] = bool(x)
        return r.read(**kw)
    if op[0] == 'defnext':
        # running, so nothing to read is None
        return next(r)
    if op[0] == 'defrange':
        kw = {} if op[3] == 2 else dict(ignore_no_item_found=bool(op[3]))
        return r.range(ek(1), ek(2), **kw)
