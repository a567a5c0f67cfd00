"""Uses the readers-writer lock and the locked deque's contexts from many threads and
records who asked, got, left; and the moments nobody could go on."""
import random
import threading

import vsched

from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
from stream2py.utility.reader_writer_lock import RWLock


class Oops(Exception):
    pass


def user(s, locks, c, ops):
    """ops: [mode, how, delay ms, hold ms, which lock, uses of later locks while it holds this one]; how: raw, ctx, raise"""
    for op in ops:
        m, how, delay, hold, which, nested = (list(op) + [0, []])[:6] if len(op) < 6 else op
        lock = locks[which]
        if delay:
            s.sleep(delay / 1000)
        s.point('op')

        def inside():
            s.emit(k='got', c=c, lock=which)
            s.point('in')
            if hold:
                s.sleep(hold / 1000)
            if nested:
                user(s, locks, c, nested)
            s.point('in')
            s.emit(k='leave', c=c, lock=which)

        s.emit(k='ask', c=c, m=m, lock=which)
        s.point('ask')
        if how == 'raw' or not hasattr(lock, 'reader_lock'):
            (lock.reader_acquire if m == 'r' else lock.writer_acquire)()
            inside()
            (lock.reader_release if m == 'r' else lock.writer_release)()
        else:
            try:
                with (lock.reader_lock() if m == 'r' else lock.writer_lock()):
                    inside()
                    if how == 'raise':
                        raise Oops
            except Oops:
                pass
        s.emit(k='left', c=c, lock=which)
        s.point('left')


def run_lock(scn, strat):
    st = vsched.make_strategy(strat)
    s = vsched.Sched(st, max_steps=20000)
    s.fifo = strat[0] == 'stall'

    def main():
        locks = [RWLock() if x == 'raw' else RWLockSortedDeque([(1, 2)], key=lambda x: x[0], maxlen=4)
                 for x in (scn['lock'] if isinstance(scn['lock'], list) else [scn['lock']])]
        ths = [threading.Thread(target=user, args=(s, locks, i + 1, ops)) for i, ops in enumerate(scn['users'])]
        for t in ths:
            t.start()
        me = s.me()
        last = None
        while True:
            s.wait_idle()
            if s.frozen is not None:
                s.emit(k='idle1', c=s.frozen)
                s.frozen = None
                continue
            others = [t for t in s.threads if t is not me and t.state != 'done']
            if not others:
                return
            if len(s.log) != last:
                s.emit(k='idle')
                last = len(s.log)
            dl = [t.deadline for t in others if t.deadline is not None]
            if not dl:
                s.emit(k='stuck')
                return
            s.sleep(max(0, (min(dl) - s.clock) / 1e6))

    s.run(main)
    if s.stuck:
        s.log.append(dict(k='stuck', ts=s.clock))
    elif s.main_exc is not None or any(n != 'main' for n, _, _ in s.exceptions):
        s.log.append(dict(k='crash', why=str(s.exceptions)[:300], ts=s.clock))
    elif not (s.log and s.log[-1]['k'] == 'stuck'):
        s.log.append(dict(k='end', ts=s.clock))
    # what happens at one lock is judged on its own: no use of another shows there
    n = len(scn['lock']) if isinstance(scn['lock'], list) else 1
    trs = [dict(n=len(scn['users']), ev=[{k: x for k, x in e.items() if k != 'lock'} for e in s.log if e.get('lock', i) == i]) for i in range(n)]
    return trs[0] if n == 1 else dict(many=trs), s
