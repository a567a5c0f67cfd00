"""Executes generated histories of the all-in-one helper on the real code."""
import random

import vsched
import world  # noqa: F401
from items import SourceError
from stream2py.simply import mk_stream_buffer

PERIOD = 3.0


class Leave(Exception):
    pass


class Token:
    def __len__(self):
        return 0


VALUES = dict(
    # values in increasing order, for streams whose data is the key
    key=[[0, 1, 2], ['', 'a', 'b'], [(), (0,), (1,)], [-0.5, 0.0, 0.5], [b'', b'\0', b'a'], [False, True, 2]],
    # any values
    any=[[0, '', False], [[], {}, ()], [{'v': 0}, {'v': 1}, {'v': 2}], [b'', 'None', 0.0], [set(), [0], None.__class__]],
)


def life(path, rng, wrong, stat):
    enum, keyed, maxlen, auto, cbs = path[0][2][0]
    z = rng.choice([1] * 40 + [40] * 5 + [300] * 5 + [1100]) if enum and not keyed else 1      # so many items stand for one
    vals = rng.choice(VALUES['key' if not (enum or keyed) else 'any'])
    toks = [rng.choice([Token, list, dict, object])() for _ in range(6)]
    if rng.random() < 0.15:      # nothing to hand on, or nothing much
        toks = [rng.choice([None, None, 0, '', ()])] * 6
    var = dict(
        read_d=rng.choice([0, 0, 0.05, 1.3]) if z < 1000 else 0, close_fail=rng.random() < 0.15, err=rng.choice([SourceError, StopIteration, ValueError]),
        leave=rng.choice([Leave, ValueError, KeyboardInterrupt, StopIteration, SystemExit, GeneratorExit]))

    class Script:
        calls = []
        queue = []
        opens = 0
        info_fails = open_fails = die = False

    sc = Script()
    sc.calls, sc.queue = [], []

    def inst():
        return toks[sc.opens - 1] if cbs in (1, 2) and sc.opens else None

    def open_stream():
        vsched.SCHED.point('src')
        sc.opens += 1
        sc.calls.append(['open', sc.opens])
        if sc.open_fails:
            raise SourceError('open')
        return toks[sc.opens - 1]

    def read_stream(x):
        if x is not inst():
            wrong.append(f'read callback got {x!r} instead of what open returned')
        if cbs in (1, 2) and not sc.opens:
            wrong.append('read before open')
        if cbs == 1 and sc.calls and sc.calls[-1][0] == 'close':
            wrong.append('read after close')
        vsched.SCHED.sleep(var['read_d'])
        if sc.die:
            sc.die = False
            raise var['err']('read')
        if sc.queue:
            return sc.queue.pop(0)
        return None

    def close_stream(x):
        if x is not inst():
            wrong.append(f'close callback got {x!r} instead of what open returned')
        vsched.SCHED.point('src')
        sc.calls.append(['close', sc.opens])
        if var['close_fail']:
            raise SourceError('close')

    def info(x):
        if x is not inst():
            wrong.append(f'info callback got {x!r} instead of what open returned')
        if sc.info_fails:
            raise SourceError('info')
        return {'n': sc.opens}

    def key(x):
        if enum:
            return vals_index(x[1])
        return vals_index(x)

    def vals_index(v):
        return next(i for i, w in enumerate(vals) if w is v)

    kw = dict(read_stream=read_stream)
    if cbs in (1, 2):
        kw['open_stream'] = open_stream
    if cbs in (1, 3):
        kw['close_stream'] = close_stream
    if keyed:
        kw['key'] = key
    if maxlen * z != 100:
        kw['maxlen'] = maxlen * z or None
    if not auto or rng.random() < 0.5:
        kw['auto_drop'] = bool(auto)
    if not enum or rng.random() < 0.5:
        kw['enumerate_data'] = bool(enum)
    if rng.random() < 0.5:
        kw['sleep_time_on_read_none_seconds'] = rng.choice([0.1, 0.5])
    names = [p[0][0] for p in path]
    if 'infofail' in names or rng.random() < 0.5:
        kw['info'] = info

    def steps():
        s = vsched.SCHED
        cm = mk_stream_buffer(**kw)
        sb = None
        done = []

        def settle():
            s.nojump += 1
            s.sleep(PERIOD + (len(sc.queue) * 3 if z < 1000 else 600))
            s.wait_idle()
            s.nojump -= 1

        for op, res, post in path:
            yield
            name = op[0]
            try:
                if name in ('enter', 'enterfail', 'infofail'):
                    sc.open_fails = name == 'enterfail'
                    sc.info_fails = name == 'infofail'
                    try:
                        sb = cm.__enter__()
                    finally:
                        sc.open_fails = sc.info_fails = False
                elif name == 'give':
                    sc.queue += [vals[op[1]]] * z
                elif name == 'die':
                    sc.die = True
                elif name == 'drop':
                    sb.drop(op[1] * z) if op[1] * z != 1 or rng.random() < 0.5 else sb.drop()
                elif name == 'stop':
                    sb.stop()
                elif name == 'start':
                    sb.start()
                elif name == 'leave':
                    if op[1] == 'exc':
                        e = var['leave']('body')
                        # what the with statement does
                        try:
                            if cm.__exit__(type(e), e, None):
                                got = ['swallowed']
                            else:
                                raise e
                        except BaseException as x:
                            if x is not e:
                                raise
                            raise SourceError('body')
                    elif cm.__exit__(None, None, None):
                        got = ['odd']
                got = ['ok'] if name != 'leave' or op[1] != 'exc' else ['swallowed']
            except SourceError:
                got = ['raised']
            except Exception as e:
                got = ['raised ' + repr(e)]
            done.append(op)
            stat['n'] += 1
            if got != res:
                wrong.append(f'{op} gave {got}, specified {res}, after {done[:-1]}')
                return
            settle()
            _, phase, sess = post
            want = [sum(x[3] for x in sess), sum(x[4] for x in sess)]
            seen = [sum(1 for c in sc.calls if c[0] == 'open'), sum(1 for c in sc.calls if c[0] == 'close')]
            if seen != want or [c for c in sc.calls if c[0] == 'open'] != [['open', i + 1] for i in range(want[0])]:
                wrong.append(f'callbacks ran {sc.calls}, specified {want[0]} open and {want[1]} close, after {done}')
            if cbs in (1,) and any(a[0] == b[0] for a, b in zip(sc.calls, sc.calls[1:])):
                wrong.append(f'open and close callbacks ran out of turn: {sc.calls} after {done}')
            if sb is not None:
                if sb.is_running != bool(sess[-1][2]):
                    wrong.append(f'is_running is {sb.is_running} after {done}')
                r = sb.mk_reader()
                x = r.read(n=20000, peek=True, ignore_no_item_found=True) or []
                def shape(i):
                    if enum:
                        return [i[0], vals_index(i[1])] if type(i) is tuple and len(i) == 2 else ['odd', repr(i)]
                    return [None, vals_index(i)]
                try:
                    have = [shape(i) for i in x]
                except StopIteration:
                    have = ['odd', x]
                spec = [[i[0] * z + j if enum else None, i[1]] for i in sess[-1][0] for j in range(z)]
                if have != spec:
                    wrong.append(f'the buffer holds {str(x)[:300]}, specified {str(spec)[:300]} of {vals}, {z} per step, after {done}')
                if 'info' in kw and sb.source_reader_info != {'n': sc.opens}:
                    wrong.append(f'source_reader_info is {sb.source_reader_info} after {done}')
            if wrong:
                return
        if sb is not None and path[-1][2][1] == 'in':
            cm.__exit__(None, None, None)

    return steps()


def run_paths(paths, rng):
    wrong = []
    stat = dict(n=0)
    s = vsched.Sched(vsched.make_strategy(['default']), max_steps=4000000, trace=False)
    s.run(lambda: world.take_turns([life(p, rng, wrong, stat) for p in paths], rng))
    if s.stuck or s.main_exc:
        wrong.append(f'{[[x[0] for x in path] for path in paths]}: {s.stuck or repr(s.main_exc)}')
    return stat['n'], wrong


def job_simply(job):
    rng = random.Random(job['seed'])
    n, bad = 0, []
    for some in world.pairs([p for p, _ in job['paths']], rng):
        k, w = run_paths(some, rng)
        n += k
        bad += [dict(what='all-in-one helper: ' + x, paths=[[p[0] for p in path] for path in some], options=[path[0][2][0] for path in some]) for x in w]
        if len(bad) > 3:
            break
    return n, bad, dict(steps=[p[0] for p in job['paths'][0][0]])
