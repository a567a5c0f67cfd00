"""Fills in generated configurations, and joins generated addresses, with the packaging
helper."""
import copy
import random
import resource
import sys

import env

if env.REPO not in sys.path:
    sys.path.insert(0, env.REPO)
import pack  # noqa: E402

NAMES = ['a', 'filepath', 'root', 'x_y', 'Ext', 'name2', 'self_', 'maxi', 'd_', 'keyy', 'b1', 'B', 'version', 'url_2', '_x', 'Author', 'long_name_of_it', 'q9']
TEXTS = ['x', '', ' ', '/', 'two words', '%s', '$a', 'a.b', '\n', '0', 'é', ':', '!r', '[0]']
OTHER = [0, 3, 2.5, None, True, ['a', 'b'], ('x',)]
BODIES = ['a', 'project', 'https://pypi.org', 'x y', 'a/b', '?q=1', 'é', '.', 'a//b']


def fill(cfg, ans, rng):
    nk = len(cfg)
    names = rng.sample(NAMES, nk + 8)
    key = {i + 1: names[i] for i in range(nk)}
    outer = {11: names[nk], 12: names[nk + 1], 20: names[nk + 2]}
    spare = names[nk + 3:]
    kw = {outer[g]: rng.choice(TEXTS + [5, None, 1.5]) for g in (11, 12)}
    lits = {}
    if rng.random() < 0.08:      # a value from outside that refers to itself, or to nothing
        kw[outer[11]] = '{%s}' % rng.choice([outer[11], 'nobody'])
        if any(11 in t for t in cfg) and ans[0] == 'full':
            ans = ['outside']
    values = {i: rng.choice(OTHER) for i in key}
    d = {}
    stretch = rng.choice([0, 0, 0, 4, 8])
    rounds = rng.choice([None, None, None, 1, 2, 3, 40])     # of filling in
    if stretch == 8:
        rounds = 40
    length = 0
    items = []
    for i, t in enumerate(cfg, 1):
        if t == [30]:
            items.append((key[i], values[i]))
            continue
        out = ''
        for j, p in enumerate(t, 1):
            if p == 0:
                lits[100 * i + j] = rng.choice(TEXTS)
                out += lits[100 * i + j]
                continue
            nm = key.get(p) or outer[p]
            while spare and p in key and length < stretch and rng.random() < 0.8:     # by way of another name
                length += 1
                via = spare.pop()
                items.append((via, '{%s}' % nm))
                nm = via
            out += '{%s}' % nm
        items.append((key[i], out))
    rng.shuffle(items)
    d = dict(items)
    if rng.random() < 0.3:
        kw[rng.choice(list(d))] = 'not used'
    if rng.random() < 0.3:
        kw[rng.choice(['unused', 'other'])] = '{nothing}'
    keep = copy.deepcopy(d)
    try:
        x = pack.format_str_vals_of_dict(d, **kw, **({} if rounds is None else dict(max_formatting_loops=rounds)))
    except ValueError as e:
        got = 'refused'
        if ans[0] == 'missing' and outer[20] not in str(e):
            return f'the error for {keep} does not name {outer[20]!r}: {e}'
    except Exception as e:
        got = repr(e)
    else:
        got = 'full'
    if d != keep or list(d) != list(keep):
        return f'filling in changed its argument {keep} to {d}'
    if ans[0] != 'full':
        return None if got == 'refused' else f'filling in {keep} with {kw} gave {got} {x if got == "full" else ""}, specified: refused ({ans[0]})'
    if got == 'refused' and rounds is not None and rounds < 10:
        return None         # too few
    if got != 'full':
        return f'filling in {keep} with {kw}: {got}, specified {ans[1]}'

    def piece(c):
        return str(values[c - 1000]) if c > 1000 else lits[c] if c > 100 else str(kw[outer[c]])

    for i in key:
        want = values[i] if cfg[i - 1] == [30] else ''.join(piece(c) for c in ans[1][i - 1])
        if x.get(key[i]) != want or type(x[key[i]]) is not type(want):
            return f'filling in {keep} with {kw} gave {key[i]!r}: {x.get(key[i])!r}, specified {want!r}'
    if list(x) != list(d):
        return f'filling in {keep} gave the keys {list(x)}'
    return None


def join(tokens, ans, rng):
    bodies = [rng.choice(BODIES) for _ in tokens]
    args = ['/' * a + b + '/' * z for (a, z), b in zip(tokens, bodies)]
    want = '' if ans[0] == 'empty' else '/' * ans[1] + '/'.join(bodies) + '/' * ans[2]
    try:
        x = pack.ujoin(*args)
    except Exception as e:
        x = repr(e)
    return None if x == want else f'joining {args} gave {x!r}, specified {want!r}'


def part(text, ans, rng):
    """Only some of the names are known: the others stay as they are."""
    names = rng.sample(NAMES, 3)
    outer = {11: names[0], 12: names[1], 20: names[2]}
    kw = {outer[g]: rng.choice(TEXTS + [5, None, 1.5]) for g in (11, 12)}
    lits = [rng.choice(TEXTS) for _ in text]
    x = None
    want = ''.join(lits[a - 1] if a <= len(text) else str(kw[outer[a]]) if a in (11, 12) else '{%s}' % outer[a] for a in ans)
    t = ''.join('{%s}' % outer[p] if p else lits[i] for i, p in enumerate(text))
    try:
        x = pack.partial_formatter.format(t, **kw)
        if x == want:
            x, want = pack.partial_formatter.format_fields_set(t), {outer[p] for p in text if p}
    except Exception as e:
        x = repr(e)
    return None if x == want else f'filling in a part of {t!r} with {kw} gave {x!r}, specified {want!r}'


def job_template(job):
    rng = random.Random(job['seed'])
    resource.setrlimit(resource.RLIMIT_AS, (1 << 31, 1 << 31))  # nothing here needs more
    n, bad = 0, []
    for what, c, ans in job['rows']:
        for _ in range(job['times']):
            w = dict(fill=fill, join=join, part=part)[what](c, ans, rng)
            n += 1
            if w:
                bad.append(dict(what='packaging texts: ' + w, row=[what, c, ans]))
        if len(bad) > 3:
            break
    return n, bad, dict(row=job['rows'][0])
