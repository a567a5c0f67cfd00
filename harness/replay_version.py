"""Executes generated histories of a package index on the packaging helper, against a
server on the loopback interface."""
import json
import os
import random
import socket
import sys

import env

os.environ['no_proxy'] = os.environ['NO_PROXY'] = '127.0.0.1'
if env.REPO not in sys.path:
    sys.path.insert(0, env.REPO)
import pack  # noqa: E402
from replay_http import server  # noqa: E402


def writer(rng):
    """How versions are written in this history: behind numbers they all share, and with the
    numbers of each place moved up, neither of which changes the order or what comes next."""
    head = [rng.choice([0, 1, 3, 10, 2026]) for _ in range(rng.choice([0, 0, 0, 1, 2, 3]))]
    up = [rng.choice([0, 0, 0, 1, 90, 990, 20260100]) for _ in range(8)]
    return lambda v: '.'.join(map(str, head + [x + u for x, u in zip(v, up)]))


def run_path(path, rng):
    text = writer(rng)
    sv = server()
    url = f'http://127.0.0.1:{sv.port}/' + rng.choice(['pypi/{package}/json', '{package}', 'simple/{package}/'])
    name = rng.choice(['stream2py', 'a', 'py2-store', 'x_y.z'])
    pre, wrong, n = None, [], 0
    rel, there = [], 0
    for op, res, post in path:
        sv.got = got_reqs = []
        names = [text(v) for v in rel]
        rng.shuffle(names)
        doc = dict(info=dict(version=rng.choice(['99.9', '0.0.0', '']), name=name), urls=[])
        if names or rng.random() < 0.7:
            doc['releases'] = {v: rng.choice([[], [dict(filename='f')]]) for v in names}
        sv.plan = dict(status=200 if there else rng.choice([404, 410]), format=rng.choice(['length', 'chunked', 'close']),
                       body=json.dumps(doc).encode(), piece=rng.choice([7, 10000]), delay=0)
        given = '4.5.%d' % rng.randrange(100)
        asked = False
        try:
            if op[0] == 'current':
                asked = True
                x = pack.current_pypi_version(name, url_template=url)
                want = text(res[1]) if res[0] == 'version' else None
            elif op[0] == 'next':
                asked = True
                x = pack.next_version_for_package(name, url, **({} if op[1] == 0 else dict(version_if_current_version_none=given)))
                want = text(res[1]) if res[0] == 'version' else '0.0.1' if op[1] == 0 else given
            elif op[0] == 'down':
                u = url
                how = rng.randrange(3)
                if how == 0:
                    sv.plan.update(status=rng.choice([500, 502, 503, 403, 429]))
                elif how == 1:
                    with socket.socket() as so:
                        so.bind(('127.0.0.1', 0))
                        u = f'http://127.0.0.1:{so.getsockname()[1]}/' + '{package}'
                else:
                    sv.plan.update(status=200, body=rng.choice([b'', b'<html>not now</html>', b'{"releases": {"1.0": ']))
                try:
                    x = pack.current_pypi_version(name, u) if op[1] == 0 else pack.next_version_for_package(name, u)
                    want = 'an error'
                except Exception:
                    x = want = None
            elif op[0] == 'increment':
                x, want = pack.increment_version(text(op[1])), text(res[1])
            else:
                x = want = None
        except Exception as e:
            x = repr(e)
        n += 1
        if x != want or type(x) is not type(want):
            wrong.append(f'{op} gave {x!r}, specified {want!r}, releases {names if there else "none: no such package"}')
        elif asked and [r['path'] for r in got_reqs] != [url.format(package=name)[len(f'http://127.0.0.1:{sv.port}'):]]:
            wrong.append(f'{op} asked the index for {[r["path"] for r in got_reqs]}, package {name!r}, template {url}')
        rel, there = post[0], post[1]
        if wrong:
            break
    return n, wrong


def job_version(job):
    rng = random.Random(job['seed'])
    n, bad = 0, []
    for path, first in job['paths']:
        k, w = run_path(path, rng)
        n += k
        bad += [dict(what='package index: ' + x, path=[p[0] for p in path]) for x in w]
        if len(bad) > 3:
            break
    return n, bad, dict(steps=[p[0] for p in job['paths'][0][0]])
