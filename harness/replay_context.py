"""Executes generated histories of contextualized callables on the real code."""
import functools
import random

import env  # noqa: F401
from stream2py.util import ContextualizeCall, contextualize_with_instance


def kinds(name):
    """Exceptions of every kind, told apart from all others."""
    return tuple(type(name + b.__name__, (b,), {}) for b in (
        Exception, BaseException, StopIteration, KeyboardInterrupt, SystemExit, GeneratorExit, AttributeError, TypeError, KeyError))


BodyError, FuncError, EnterError, ExitError = (kinds(x) for x in ('Body', 'Func', 'Enter', 'Exit'))


FALSY = [None, False, 0, '', [], ()]
TRUTHY = [True, 1, 'yes', [0], object()]


class Log:
    def __init__(self, rng, e, x):
        self.rng, self.e, self.x = rng, e, x
        self.enters = []
        self.exits = []
        self.token = rng.choice([None, 0, object(), [], 'tok'])

    def enter(self, *args):
        self.enters.append(args)
        if self.e == 'raise':
            raise self.rng.choice(EnterError)
        return self.token

    def exit(self, *args):
        self.exits.append(args)
        if self.x == 'raise':
            raise self.rng.choice(ExitError)
        return self.rng.choice(TRUTHY if self.x == 'drop' else FALSY)


class Callee:
    """A callable object whose attributes have the names of those of its wrapper."""

    def __init__(self, log):
        self.func = self.enter_func = self.exit_func = 'mine'
        self.calls = 0
        self.args = None
        self.log = log

    def __call__(self, *args, **kw):
        """Called."""
        self.calls += 1
        self.args = (args, kw)
        if kw.get('fail'):
            raise self.log.rng.choice(FuncError)
        return self.args


class Inst(Callee):
    method = Callee.__call__

    def __enter__(self):
        return self.log.enter(self)

    def __exit__(self, *args):
        return self.log.exit(self, *args)


def build(kind, log, rng):
    """-> (contextualized, what is wrapped, the object with the counts)"""
    if kind == 'method':
        i = Inst(log)
        m = i.method
        return contextualize_with_instance(m), m, i, i
    kw = {}
    if log.e != 'dflt':
        kw['enter_func'] = rng.choice([lambda f: log.enter(f), lambda *a: log.enter(*a), log.enter, lambda f, extra=None: log.enter(f)])
    if log.x != 'dflt':
        kw['exit_func'] = rng.choice([lambda f, t, v, b: log.exit(f, t, v, b), lambda *a: log.exit(*a), lambda f, *a: log.exit(f, *a), log.exit])
    c = Callee(log)
    if kind == 'object':
        f = c
    elif kind == 'nested':
        f = ContextualizeCall(c, lambda f: log.enters.append('inner'), lambda *a: log.exits.append('inner'))
    else:

        def f(*args, **k):
            """Doc of f."""
            try:
                return c(*args, **k)
            finally:
                f.calls = c.calls

        f.calls = 0
        f.func = f.enter_func = f.exit_func = 'mine'
    return ContextualizeCall(f, **kw), f, c, f


class Done(Exception):
    pass


def run_path(path, first, rng):
    kind, e, x = first[:3]
    wrong = []
    n = [0]
    log = Log(rng, e, x)
    g, f, c, first_arg = build(kind, log, rng)
    steps = iter(path)
    done = []

    def check(op, res, got):
        n[0] += 1
        if got != res:
            wrong.append(f'{op} of a {kind} (enter {e}, exit {x}) gave {got}, specified {res}, after {done}')
        done.append(op)
        if wrong:
            raise Done

    def counts(post):
        if [c.calls, len(log.enters), len(log.exits)] != post[4:]:
            wrong.append(f'the wrapped, enter and exit ran {[c.calls, len(log.enters), len(log.exits)]} times, specified {post[4:]}, after {done}')
            raise Done

    def block():
        """Runs steps to the end of the block -> how it is left"""
        for op, res, post in steps:
            name = op[0]
            if name == 'call':
                args = tuple(rng.choice([0, None, [], 'a', object()]) for _ in range(rng.randrange(4)))
                kw = rng.choice([{}, dict(a=1), dict(func=2, self_=3), dict(enter_func=None, args=())])
                if op[1] == 'fail':
                    kw = dict(kw, fail=True)
                try:
                    y = g(*args, **kw)
                    got = ['value'] if y is c.args else ['another value']
                except FuncError:
                    got = ['raised']
                except Exception as ex:
                    got = [repr(ex)]
                if c.args is None or not (c.args[1] == kw and len(c.args[0]) == len(args) and all(a is b for a, b in zip(c.args[0], args))):
                    wrong.append(f'a {kind} was called with {c.args} instead of {args} {kw}')
                check(op, res, got)
            elif name == 'attr':
                try:
                    got = ['n', (g.__self__ if kind == 'method' else g).calls]
                except Exception as ex:
                    got = [repr(ex)]
                for a in ('__name__', '__doc__', '__qualname__', '__module__'):
                    if hasattr(f, a) and getattr(g, a) != getattr(f, a):
                        wrong.append(f'attribute {a} of a {kind} is {getattr(g, a)}')
                check(op, res, got)
            elif name == 'missing':
                try:
                    got = ['attr', repr(g.no_such_attribute)]
                except AttributeError:
                    got = ['noattr']
                except Exception as ex:
                    got = [repr(ex)]
                check(op, res, got)
            elif name == 'make':
                check(op, res, make(op, rng))
            elif name == 'leave':
                return op, res, post
            elif name == 'enter':
                body = rng.choice(BodyError)()
                left = None
                inside = False
                ne, nx = len(log.enters), len(log.exits)
                try:
                    with g as t:
                        inside = True
                        if e == 'dflt':
                            got = ['wrapped'] if t is f else ['something else']
                        else:
                            got = ['given'] if t is log.token else ['something else']
                            if len(log.enters) != ne + 1 or len(log.enters[-1]) != 1 or log.enters[-1][0] is not first_arg:
                                wrong.append(f'the enter function of a {kind} got {log.enters[ne:]}')
                        check(op, res, got)
                        counts(post)
                        left = block()
                        nx = len(log.exits)
                        if left is None:
                            raise Done
                        if left[0][1] == 'exc':
                            raise body
                    how = ['suppressed'] if left and left[0][1] == 'exc' else ['left']
                except Done:
                    raise
                except EnterError:
                    how = ['raised']
                except BodyError as ex:
                    how = ['body raised'] if ex is body else ['another exception']
                except ExitError:
                    how = ['exit raised']
                except Exception as ex:
                    how = [repr(ex)]
                if not inside:
                    check(op, res, how)
                    counts(post)
                    continue
                if wrong or left is None:
                    raise Done
                lop, lres, lpost = left
                if x != 'dflt':
                    a = log.exits[nx:]
                    want = (type(body), body) if lop[1] == 'exc' else (None, None)
                    if len(a) != 1 or len(a[0]) != 4 or a[0][0] is not first_arg or a[0][1:3] != want or (a[0][3] is None) != (lop[1] == 'ok'):
                        wrong.append(f'the exit function of a {kind} got {a}, {lop[1]}')
                check(lop, lres, how)
                counts(lpost)
                continue
            counts(post)
        return None

    try:
        block()
    except Done:
        pass
    return n[0], wrong


def shaped(n, var, rng):
    """A function that takes n arguments (and any number more), by position."""
    if n == 9:
        return rng.choice(['not callable', None, 4, [len]])
    how = rng.choice(['plain', 'plain', 'plain', 'named only', 'any named', 'partial', 'method', 'object'])
    names = list('abcd'[:n])
    opt = rng.randrange(n + 1)  # from here on with a default
    args = [x if i < opt else x + '=None' for i, x in enumerate(names)]
    if var:
        args.append('*more')
    if how == 'named only':
        args += ([] if var else ['*']) + ['k=None'] + (['m=None'] if rng.random() < 0.5 else [])
    if how == 'any named':
        args.append('**k')
    if how == 'partial':
        return functools.partial(eval(f"lambda {', '.join(['z'] + args)}: None"), None)
    if how in ('method', 'object'):
        f = eval(f"lambda {', '.join(['self'] + args)}: None")
        o = type('O', (), dict(f=f, __call__=f))()
        return o.f if how == 'method' else o
    return eval(f"lambda {', '.join(args)}: None")


def make(op, rng):
    _, c, en, ev, xn, xv = op
    f = rng.choice([len, lambda: 0, int]) if c else rng.choice([None, 3, 'f', [len]])
    try:
        ContextualizeCall(f, shaped(en, ev, rng), exit_func=shaped(xn, xv, rng))
        return ['ok']
    except TypeError:
        return ['refused']
    except Exception as ex:
        return [repr(ex)]


def job_context(job):
    rng = random.Random(job['seed'])
    n, bad = 0, []
    for path, first in job['paths']:
        k, w = run_path(path, first, rng)
        n += k
        bad += [dict(what='contextualized call: ' + x, path=[p[0] for p in path], first=first) for x in w]
        if len(bad) > 3:
            break
    return n, bad, dict(start=job['paths'][0][1], steps=[p[0] for p in job['paths'][0][0]])
