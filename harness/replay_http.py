"""Executes generated histories of the HTTP source on the real code, against a server on
the loopback interface that records what it gets."""
import random
import socket
import urllib.error

import vsched
import world  # noqa: F401
from stream2py.sources.http import HTTPResponseReader


class Server:
    """Answers each connection as planned, on threads the scheduler does not know."""

    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(50)
        self.port = self.sock.getsockname()[1]
        self.plan = None
        self.got = []
        vsched._real_start(self.accept, ())

    def accept(self):
        while True:
            c, _ = self.sock.accept()
            rec = dict(released=False)
            vsched._real_start(self.serve, (c, rec, self.plan, self.got))

    def serve(self, c, rec, plan, got):
        try:
            c.settimeout(20)
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            data = b''
            while b'\r\n\r\n' not in data:
                x = c.recv(65536)
                if not x:
                    return
                data += x
            head, body = data.split(b'\r\n\r\n', 1)
            lines = head.decode('latin1').split('\r\n')
            rec['method'], rec['path'], _ = lines[0].split(' ')
            rec['headers'] = {}
            for h in lines[1:]:
                k, v = h.split(':', 1)
                rec['headers'][k.strip().lower()] = v.strip()
            n = int(rec['headers'].get('content-length', 0))
            while len(body) < n:
                x = c.recv(65536)
                if not x:
                    break
                body += x
            rec['body'] = body
            rec['ok'] = plan['status'] == 200
            got.append(rec)
            if plan['status'] != 200:
                c.sendall(b'HTTP/1.1 %d Nope\r\nContent-Length: 2\r\nConnection: close\r\n\r\nno' % plan['status'])
            else:
                out = b'HTTP/1.1 200 OK\r\nContent-Type: application/octet-stream\r\nConnection: close\r\n'
                b = plan['body']
                if plan['format'] == 'length':
                    out += b'Content-Length: %d\r\n' % len(b)
                elif plan['format'] == 'chunked':
                    out += b'Transfer-Encoding: chunked\r\n'
                pieces = [out + b'\r\n']
                i = 0
                while i < len(b):
                    p = b[i:i + plan['piece']]
                    i += len(p)
                    pieces.append(b'%x\r\n%s\r\n' % (len(p), p) if plan['format'] == 'chunked' else p)
                if plan['format'] == 'chunked':
                    pieces.append(b'0\r\n\r\n')
                for p in pieces:
                    c.sendall(p)
                    if plan['delay']:
                        vsched.real_sleep(plan['delay'])
                if plan['format'] == 'close':
                    c.shutdown(socket.SHUT_WR)
            while c.recv(65536):
                pass
            rec['released'] = True
        except OSError as e:
            rec['released'] = not isinstance(e, TimeoutError)
        finally:
            c.close()


SERVERS = []


def server(i=0):
    while len(SERVERS) <= i:
        SERVERS.append(Server())
    return SERVERS[i]


def wait(cond, secs=8):
    t = vsched.real_monotonic() + secs
    while not cond():
        if vsched.real_monotonic() > t:
            return False
        vsched.real_sleep(0.002)
    return True


def run_paths(paths, rng):
    wrong = []
    stat = dict(n=0)
    s = vsched.Sched(vsched.make_strategy(['default']), max_steps=500000, trace=False)
    s.run(lambda: world.take_turns([life(p, first, rng, server(i), wrong, stat) for i, (p, first) in enumerate(paths)], rng))
    if s.stuck or s.main_exc:
        wrong.append(f'{[[x[0] for x in path] for path, _ in paths]}: {s.stuck or repr(s.main_exc)}')
    return stat['n'], wrong


def life(path, first, rng, sv, wrong, stat):
    (method, length, k, fmt) = first[0]
    z = rng.choice([1] * 9 + [700, 9001])       # so many bytes stand for one
    body = bytes(rng.choice([0, 10, 13, 32, 65, 66, 200, 255]) for _ in range(length * z))
    k *= z
    sv.plan = plan = dict(status=200, format=fmt, body=body, piece=rng.choice([1, 2, 100] if z == 1 else [3000, 70000]), delay=rng.choice([0, 0, 0, 0.003]))
    sv.got = got_reqs = []
    headers = rng.choice([None, {}, {'X-A': '1'}, {'User-Agent': 'u', 'Content-Type': 'application/json', 'x-b': 'a b'}])
    upper = method.upper()
    sent = b''
    kw = {}
    if upper != 'GET' or rng.random() < 0.5:      # a GET request carries no body
        kw['body'] = rng.choice(['', 'text', 'h\u00e9llo', b'', b'\x00\xff bytes', 'x' * 3000])
        sent = b'' if upper == 'GET' else kw['body'].encode() if isinstance(kw['body'], str) else kw['body']
    if upper != 'GET' or rng.random() < 0.5 or method != 'GET':
        kw['method'] = method
    if headers is not None:
        kw['headers'] = headers
    if k or rng.random() < 0.5:
        kw['response_read_args'] = rng.choice([k, (k,)]) if k else rng.choice([(), None])
    url = f'http://127.0.0.1:{sv.port}/p{rng.randrange(10)}?q=1'
    src = HTTPResponseReader(url, **kw)
    done = []
    last = 0
    asked = 0
    for op, res, post in path:
        yield
        name = op[0]
        try:
            if name in ('open', 'openfail'):
                plan['status'] = 200 if name == 'open' else rng.choice([404, 500])
                asked += 1
                src.open()
                got = ['ok']
            elif name == 'read':
                if rng.random() < 0.7:
                    vsched.SCHED.sleep(rng.choice([0.001, 0.5, 7]))
                x = src.read()
                now = vsched.EPOCH + vsched.SCHED.clock / 1e6
                if x is None:
                    got = ['none']
                else:
                    t, chunk = x
                    got = ['data', chunk]
                    if not abs(t - now) < 0.001 or t < last:
                        wrong.append(f'chunk stamped {t} after {last}, read at {now}')
                    last = t
            elif name == 'close':
                src.close()
                got = ['ok']
                if not wait(lambda: all(r['released'] for r in got_reqs if r['ok'])):
                    wrong.append(f'closing did not release the response, after {done}')
            elif name == 'info':
                i = src.info
                got = ['n', i['n_bytes_read']]
                if i['url'] != url:
                    wrong.append(f'info has the url {i["url"]}')
        except urllib.error.HTTPError:
            got = ['raised']
        except Exception as e:
            got = ['raised ' + repr(e)]
        done.append(op)
        stat['n'] += 1
        want = ['data', body[res[1] * z:res[2] * z]] if res[0] == 'data' else ['n', res[1] * z] if res[0] == 'n' else res
        if got != want:
            wrong.append(f'{op} gave {str(got)[:200]}, specified {str(want)[:200]}, body {body[:40]} ({len(body)} bytes) in format {fmt}, read limit {k}, after {done[:-1]}')
        if len(got_reqs) != post[3]:
            wrong.append(f'the server got {len(got_reqs)} requests, specified {post[3]}, after {done}')
        elif name in ('open', 'openfail'):
            r = got_reqs[-1]
            if r['method'] != method or r['path'] != url[url.index('/p'):] or r['body'] != sent:
                wrong.append(f'request was {r["method"]} {r["path"]} {r["body"]}, configured {method} {url} {sent}')
            for h, v in (headers or {}).items():
                if r['headers'].get(h.lower()) != v:
                    wrong.append(f'request had the header {h}: {r["headers"].get(h.lower())}, configured {v}')
        if wrong:
            break
    src.close()


def text_body(rng):
    """Decoded chunks concatenate to the decoded body, wherever it is cut."""
    sv = server()
    enc = rng.choice(['utf-8', 'utf-8', 'latin-1', 'utf-16', 'ascii'])
    text = ''.join(rng.choice('a\nb' if enc == 'ascii' else 'a\u00e9\u00ff' if enc == 'latin-1' else 'a\u00e9\u20ac\U0001f600') for _ in range(rng.randrange(12)))
    body = text.encode(enc)
    sv.plan = dict(status=200, format=rng.choice(['length', 'chunked', 'close']), body=body, piece=rng.choice([1, 3, 100]), delay=0)
    sv.got = []
    k = rng.choice([0, 1, 2, 3, 5])
    src = HTTPResponseReader(f'http://127.0.0.1:{sv.port}/', encoding=enc, response_read_args=(k,) if k else ())
    out = []
    try:
        for _ in range(2):
            out = []
            src.open()
            while True:
                x = src.read()
                if x is None:
                    break
                out.append(x[1])
                if len(out) > 100:
                    break
            src.close()
            src.close()
            if not all(type(x) is str and x for x in out) or ''.join(out) != text:
                return [f'body {body} as {enc}, read limit {k}, was delivered as {out}']
    except Exception as e:
        return [f'body {body} as {enc}, read limit {k}: {e!r} after {out}']
    if src.info['n_bytes_read'] != 2 * len(body):
        return [f'{src.info["n_bytes_read"]} bytes counted, {2 * len(body)} delivered']
    return []


def streamed(rng):
    """Through a stream buffer: the same chunks, in order."""
    sv = server()
    body = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 40)))
    sv.plan = dict(status=200, format=rng.choice(['length', 'chunked', 'close']), body=body, piece=7, delay=0)
    sv.got = []
    k = rng.choice([1, 2, 3, 5, 50])
    wrong = []

    def main():
        src = HTTPResponseReader(f'http://127.0.0.1:{sv.port}/', response_read_args=k)
        tick = rng.choice([0, 1, 2])
        old = src.read

        def read():
            vsched.SCHED.sleep(0.01 + tick)
            return old()

        src.read = read
        with src.stream_buffer(maxlen=None, auto_drop=rng.choice([True, False])) as sb:
            r = sb.mk_reader()
            out = []
            for _ in range(2000):
                x = next(r)
                if x is None:
                    if b''.join(out) == body:
                        break
                    vsched.SCHED.sleep(0.2)
                else:
                    out.append(x[1])
        if out != [body[i:i + k] for i in range(0, len(body), k)]:
            wrong.append(f'body {body} was streamed as {out}, read limit {k}')

    s = vsched.Sched(vsched.make_strategy(['default']), max_steps=500000, trace=False)
    s.run(main)
    if s.stuck or s.main_exc:
        wrong.append(f'streaming a body: {s.stuck or repr(s.main_exc)}')
    return wrong


def job_http(job):
    rng = random.Random(job['seed'])
    n, bad = 0, []
    for some in world.pairs(job['paths'], rng):
        m, w = run_paths(some, rng)
        n += m
        bad += [dict(what='HTTP source: ' + x, paths=[[p[0] for p in path] for path, _ in some], first=[x for _, x in some]) for x in w]
        if len(bad) > 3:
            break
    for _ in range(12):
        bad += [dict(what='HTTP source: ' + x) for x in text_body(rng) + streamed(rng)]
        n += 2
        if len(bad) > 3:
            break
    return n, bad, dict(start=job['paths'][0][1], steps=[p[0] for p in job['paths'][0][0]])
