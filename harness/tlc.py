"""Running TLC and reading what it says."""
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

import env

JARS = [
    '/opt/veriftools/tla/tla2tools.jar',
    '/opt/veriftools/tla/CommunityModules-deps.jar',
]


class TLCError(Exception):
    pass


class Result:
    pass


def run(module, cfg, *, envs=None, workers='auto', deadlock=False, timeout=600, extra=(), heap='6g', simulate=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg>; returns a Result with the output,
    the exit code and the counts."""
    meta = tempfile.mkdtemp(prefix='tlc.')
    try:
        cmd = [
            'java', f'-Xmx{heap}', '-Xss16m', '-XX:+UseParallelGC', '-Dtlc2.TLC.ide=none',
            '-cp', ':'.join(JARS), 'tlc2.TLC',
            '-metadir', meta, '-workers', str(workers), '-config', cfg, '-noGenerateSpecTE',
        ]
        if not deadlock:
            cmd.append('-deadlock')
        cmd += list(extra)
        cmd.append(module)
        e = dict(os.environ)
        e.update(envs or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=env.SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError(f'TLC on {module} did not end in {timeout} s')
        r = Result()
        r.out = p.stdout + p.stderr
        r.rc = p.returncode
        r.wall = time.time() - t0
        m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', r.out)
        r.generated, r.distinct = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        r.completed = 'Model checking completed' in r.out or 'Finished in' in r.out
        r.violated = re.findall(r'Invariant (\S+) is violated|(?:Temporal properties were violated)', r.out)
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def check_model(module, cfg, **kw):
    """An exhaustive model check that must pass."""
    r = run(module, cfg, **kw)
    if r.rc != 0 or 'No error has been found' not in r.out:
        raise TLCError(f'{module}/{cfg}: rc={r.rc}\n' + r.out[-3000:])
    return r


def prepare(traces):
    """Adds to every call the answer it got (x), so TLC need not guess."""
    for tr in traces:
        open_call = {}
        for ev in tr['ev']:
            if ev['k'] == 'call':
                ev['x'] = dict(t='', v=[])
                open_call[ev['c']] = ev
            elif ev['k'] == 'ret':
                open_call[ev['c']]['x'] = dict(t=ev['t'], v=ev['v'])
    return traces


def validate(module, traces, *, cfg=None, timeout=800, batch=4000):
    """Checks traces against a trace module.  Returns (rejected, counts) where rejected is
    a list of (index, position of the first event that no behaviour has, 0-based)."""
    cfg = cfg or module + '.cfg'
    rejected = []
    gen = dist = 0
    for base in range(0, len(traces), batch):
        part = traces[base:base + batch]
        with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
            json.dump(part, f)
        try:
            r = run(module, cfg, envs={'TRACES': f.name, 'SINGLE': '0'}, timeout=timeout)
        finally:
            os.unlink(f.name)
        if r.rc != 0:
            raise TLCError(f'{module}: rc={r.rc}\n' + r.out[-3000:])
        gen += r.generated
        dist += r.distinct
        acc = {int(x) for x in re.findall(r'<<"ACCEPTED", (\d+)>>', r.out)}
        rejected += [base + i for i in range(len(part)) if i + 1 not in acc]
    out = []
    for i in rejected[:5]:
        out.append((i, reached(module, traces[i], cfg, timeout)))
    out += [(i, None) for i in rejected[5:]]
    return out, dict(generated=gen, distinct=dist)


def reached(module, trace, cfg, timeout=300):
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump([trace], f)
    try:
        r = run(module, cfg, envs={'TRACES': f.name, 'SINGLE': '1'}, workers=1, timeout=timeout)
    finally:
        os.unlink(f.name)
    if r.rc != 0:
        raise TLCError(f'{module}: rc={r.rc}\n' + r.out[-3000:])
    ls = [int(x) for x in re.findall(r'<<"REACHED", (\d+)>>', r.out)]
    return max(ls) - 1 if ls else 0
