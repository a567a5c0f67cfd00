"""Runs jobs in worker processes; a worker that gives no sign of life is ended and its job
reported as hanging."""
import json
import os
import selectors
import subprocess
import tempfile
import time

import env

HANG_S = 60


class Worker:
    def __init__(self, script='worker.py'):
        self.err = tempfile.TemporaryFile('w+')
        self.p = subprocess.Popen(
            [env.PY, os.path.join(env.VERIF, 'harness', script)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            env=env.pyenv(), bufsize=0,
        )
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b''
        self.ready = self.again = False     # it has spoken; the job is given for the second time
        self.job = None
        self.since = time.time()

    def give(self, job):
        self.job = job
        self.since = time.time()
        self.p.stdin.write((json.dumps(job) + '\n').encode())

    def end(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass


class WorkerDied(Exception):
    pass


def run(jobs, n=None, deadline=None, script='worker.py', hang_s=HANG_S):
    """jobs: iterable of dicts; yields (job, result or None when it hung).  Stops giving
    out jobs at the deadline."""
    n = n or int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
    it = iter(jobs)
    sel = selectors.DefaultSelector()
    workers = []
    counter = 0
    deaths = 0

    def feed(w):
        nonlocal counter
        if deadline is not None and time.time() > deadline:
            w.job = None
            return False
        job = next(it, None)
        if job is None:
            w.job = None
            return False
        counter += 1
        job = dict(job, id=counter)
        w.give(job)
        return True

    def add():
        w = Worker(script)
        if feed(w):
            sel.register(w.p.stdout, selectors.EVENT_READ, w)
            workers.append(w)
            return True
        w.end()
        return False

    try:
        for _ in range(n):
            if not add():
                break
        while workers:
            for key, _ in sel.select(timeout=1):
                w = key.data
                try:
                    chunk = os.read(w.p.stdout.fileno(), 1 << 20)
                except BlockingIOError:
                    continue
                if not chunk:
                    w.p.wait()
                    w.err.seek(0)
                    err = w.err.read()[-3000:]
                    sel.unregister(w.p.stdout)
                    workers.remove(w)
                    w.end()
                    deaths += 1
                    if w.again and w.ready:
                        # it takes the process down with it, again: nothing came back
                        job = w.job
                        add()
                        yield job, None
                        continue
                    if deaths > 6:
                        raise WorkerDied(f'worker ended ({w.p.returncode}) on {json.dumps(w.job)[:2000]}\n' + err)
                    # once more, in a new process, and without what the interpreter may not bear
                    w2 = Worker(script)
                    w2.again = True
                    w2.give(dict(w.job, plain=True))
                    sel.register(w2.p.stdout, selectors.EVENT_READ, w2)
                    workers.append(w2)
                    continue
                w.since = time.time()
                w.ready = True
                w.buf += chunk
                while b'\n' in w.buf:
                    line, w.buf = w.buf.split(b'\n', 1)
                    if line == b'.':
                        continue
                    res = json.loads(line)
                    job = w.job
                    w.again = False
                    more = feed(w)
                    yield job, res['res']
                    if not more:
                        sel.unregister(w.p.stdout)
                        workers.remove(w)
                        w.end()
            now = time.time()
            for w in list(workers):
                if now - w.since > hang_s:
                    job = w.job
                    sel.unregister(w.p.stdout)
                    workers.remove(w)
                    w.end()
                    yield job, None
                    add()
    finally:
        for w in workers:
            w.end()
