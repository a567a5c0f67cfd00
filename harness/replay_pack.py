"""Executes generated histories of a configuration file on the packaging helper, in a
scratch directory."""
import os
import random
import shutil
import sys
import tempfile

import env

if env.REPO not in sys.path:
    sys.path.insert(0, env.REPO)
import pack  # noqa: E402

TEXTS = ['x', '', 'two words', 'a = b', 'a: b', '[sec]', 'x # y', '# y', '; y', 'line one\nline two', 'a,b', '1.2.3', '{a}', 'x\\ny', "'q'",
         'http://a/b#c', 'True', 'none', '-', '=x', 'one\n[two]\nb = c', 'caf\u00e9 \u2603', '\u6f22\u5b57', 'a\n\nb',
         '\U0001f389', 'x' * 5000, 'a\n' * 300 + 'b', '= \u00df']
ITEMS = ['x', 'y', 'two words', 'a = b', 'a: b', '[sec]', 'x # y', 'x ; y', '1', '=x', ':', 'License :: OSI', 'a,b', "'#'", '\\n', 'x>=1.0', 'na\u00efve', '\u6f22']
# no texts; per cent signs that stand for nothing; not to be encoded
BAD = [[1], [None], ['x', 2], [['y']], '100%', ['x', '%('], 'a %z', '\ud800', ['x', '\udfff'], 'y' * 9000 + '\udc80']
ATOMS = ['a', 'x1', 'see', 'License', 'http', '>=', '==', '~=', '1.2', ' ', ' ', ' ', ', ', ',', ': ', ':', '; ', ';', '=', ' = ', '#', '::', '//', '/', '[', ']',
         '(', ')', '{', '}', '"', "'", '\\', '-', '--', '.', '...', '*', '&', '|', '!', '?', '@', '$', '<', '>', '^', '~', '`', '+', '_', '\u00e9', '\u6f22', '  ']
OPTIONS = ['name', 'key_words', 'a b', 'x.y', 'long-description', 'url', 'k1', 'default', 'section']
SECTIONS = ['metadata', 'options', 'Options.Extras', 'a b', 'x:y', 'tool = z', 'default']


def missing(f, *a, **k):
    """Whether the call says that something is not there."""
    try:
        f(*a, **k)
    except (KeyError, OSError, ValueError, LookupError):
        return ['raises']
    return ['answers']


def phrase(rng):
    """Some line of text, with nothing around it and no comment."""
    while True:
        t = ''.join(rng.choice(ATOMS) for _ in range(rng.choice([1, 2, 4, 6, 9]))).strip()
        if t and t[0] not in '#;':
            return t


def run_path(path, rng, d):
    wrong = []
    texts = rng.sample(TEXTS, 9)
    texts = [phrase(rng) if rng.random() < 0.2 else t for t in texts]
    lists = [[phrase(rng) if rng.random() < 0.5 else rng.choice(ITEMS) for _ in range(n)] for n in (1, 2, 3, 2, 5)]
    if rng.random() < 0.2:
        lists[2] = ['x'] * 3
    value = {i: texts[i - 10] for i in range(10, 19)}
    value.update({20 + i: x for i, x in enumerate(lists)})
    opts = dict(enumerate(rng.sample(OPTIONS, 3)))
    secs = dict(enumerate(rng.sample(SECTIONS, 3)))
    dflt = rng.random() < 0.3  # leave out what is the default
    fn = os.path.join(d, 'setup.cfg')
    if os.path.exists(fn):
        os.unlink(fn)
    n = 0

    def cfg(pairs):
        ps = list(pairs)
        rng.shuffle(ps)
        return {opts[o]: value[v] for o, v in ps}

    def args(s):
        if dflt and s == 1:
            return {} if os.getcwd() == d else dict(config_file=fn)
        return dict(config_file=fn, section=secs[s])
    if dflt:
        secs = {i: x for i, x in zip((1, 2), ['metadata'] + [x for x in secs.values() if x != 'metadata'])}
    done = []
    for op, res, post in path:
        name = op[0]
        before = open(fn).read() if os.path.exists(fn) else None
        try:
            if name == 'write':
                c = cfg(op[2])
                keep = {k: list(v) if isinstance(v, list) else v for k, v in c.items()}
                arg = c if rng.random() < 0.7 else rng.choice([list, tuple, iter])(c.items())   # or pairs
                pack.write_configs(arg, **args(op[1]))
                got = ['ok'] if c == keep else ['changed its argument']
            elif name == 'writebad':
                got = missing_bad(args(op[1]), opts, rng)
                if (open(fn).read() if os.path.exists(fn) else None) != before:
                    got = ['changed the file']
            elif name == 'comment':
                comment(fn, rng)
                got = ['ok']
            elif name == 'read':
                if res == ['raises']:
                    got = missing(pack.read_configs, **args(op[1]))
                    if got == res and rng.random() < 0.2:
                        got = missing(pack.read_configs, fn, '')
                elif rng.random() < 0.15 and all(v < 20 for _, v in res[1]):    # only texts, as they are
                    x = pack.read_configs(postproc=None, **args(op[1]))
                    want = cfg(res[1])
                    got = res if same(x, want) else [repr(x), 'for', repr(want)]
                else:
                    if rng.random() < 0.1:      # in two steps
                        raw = pack.read_configs(postproc=None, **args(op[1]))
                        x = dict(pack.postprocess_ini_section_items(rng.choice([dict, list, tuple, iter])(raw.items())))
                    else:
                        x = pack.read_configs(**args(op[1]))
                    want = cfg(res[1])
                    got = res if same(x, want) else [repr(x), 'for', repr(want)]
            elif name == 'readall':
                if res == ['raises']:
                    got = missing(pack.read_configs, fn, None)
                else:
                    raw = rng.random() < 0.15 and all(v < 20 for c in res[1] if c[0] == 'yes' for _, v in c[1])
                    x = pack.read_configs(fn, None, **(dict(postproc=None) if raw else {}))
                    want = {secs[i + 1]: cfg(c[1]) for i, c in enumerate(res[1]) if c[0] == 'yes'}
                    x = {k: dict(v) for k, v in x.items() if k != 'DEFAULT' or v}
                    got = res if same(x, want) else [repr(x), 'for', repr(want)]
            if name != 'read' and name != 'readall':
                # whatever happened, every section reads as specified
                for i, c in enumerate(post[0]):
                    if c[0] == 'yes':
                        x = pack.read_configs(fn, secs[i + 1])
                        if not same(x, cfg(c[1])):
                            wrong.append(f'after {op} the section {secs[i + 1]!r} reads {x!r}, specified {cfg(c[1])!r}')
            elif (open(fn).read() if os.path.exists(fn) else None) != before:
                wrong.append(f'{op} changed the file')
        except Exception as e:
            got = ['raised ' + repr(e)]
        done.append(op)
        n += 1
        if got != res:
            wrong.append(f'{op} gave {got}, specified {res}, sections {secs}, options {opts}, values {value}, after {done[:-1]}')
        if wrong:
            break
    return n, wrong


def same(x, want):
    return x == want and all(type(x[k]) is type(want[k]) for k in want)


def missing_bad(kw, opts, rng):
    """Writing something that is neither a text nor a list of texts, or cannot be in such a file."""
    bad = dict([(opts[1], 'x'), (opts[2], rng.choice(BAD))])
    try:
        pack.write_configs(bad, **kw)
    except Exception:
        return ['raises']
    return ['answers']


def comment(fn, rng):
    out = []
    for line in open(fn).read().split('\n'):
        out.append(line)
        if line.startswith('['):
            out += rng.choice([['# a comment'], ['; a comment', ''], []])
        elif line.rstrip().endswith(' =') and not line.startswith('\t') and rng.random() < 0.5:
            out.append('\t# a comment in a list')
    if rng.random() < 0.5:
        out.insert(0, '# the file')
    with open(fn, 'w') as f:
        f.write('\n'.join(out))


def job_pack(job):
    rng = random.Random(job['seed'])
    n, bad = 0, []
    d = tempfile.mkdtemp(prefix='packcfg')
    was = os.getcwd()
    try:
        os.chdir(d)
        for path, first in job['paths']:
            k, w = run_path(path, rng, d)
            n += k
            bad += [dict(what='configuration file: ' + x, path=[p[0] for p in path]) for x in w]
            if len(bad) > 3:
                break
    finally:
        os.chdir(was)
        shutil.rmtree(d)
    return n, bad, dict(steps=[p[0] for p in job['paths'][0][0]])
