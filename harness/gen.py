"""Specification -> real code: has TLC print every transition of a generator module, has
the workers execute each on the real code and compare."""
import collections
import json
import random
import re

import pool
import tlc
import tours


def generate(ctx, module, cfg, timeout=800, **kw):
    """The tuples <<"X", ...>> that TLC prints."""
    r = tlc.run(module, cfg, timeout=timeout, heap='12g', **kw)
    out = []
    bad = []
    for line in r.out.splitlines():
        if line.startswith('"<<\\"X\\"'):
            out.append(parse(line))
        else:
            bad.append(line)
    if r.rc != 0:
        raise tlc.TLCError(f'{module}/{cfg}: rc={r.rc}\n' + '\n'.join(bad)[-3000:])
    ctx.model(cfg, r)
    return out


def parse(line):
    s = line[1:-1].replace('\\"', '"').replace('<<', '[').replace('>>', ']')
    s = s.replace('TRUE', 'true').replace('FALSE', 'false')
    return json.loads(s)[1:]


def replay(ctx, jobs, what, hang_s=120):
    """Runs the replay jobs; each result is [number of steps, list of mismatches]."""
    for job, res in pool.run(jobs, hang_s=hang_s):
        if res is None:
            ctx.violation(f'[{what}] a call never returned', dict(kind='job', job=job))
            continue
        n, bad, smp = res
        ctx.replayed += n
        ctx.runs += 1
        if smp is not None:
            ctx.sample(dict(generated=what, step=smp))
        for b in bad:
            ctx.violation(f'[{what}] ' + b['what'], dict(kind='replay', job={k: v for k, v in dict(job, only=b.get('only')).items() if k not in ('rows', 'paths')}, mismatch=b))


KINDS = ('tup', 'dict', 'ident', 'str', 'opaque', 'float', 'ktup', 'empty')


def reader(ctx, mode):
    rows = generate(ctx, 'ReaderGen', f'ReaderGen_{mode}{"" if ctx.quick else "_deep"}.cfg')
    by = collections.defaultdict(list)
    for buf, cur, op, t, v, c in rows:
        by[json.dumps([buf, cur])].append([op, t, v, c])
    rng = random.Random(ctx.seed)
    jobs = []
    for i, k in enumerate(sorted(by)):
        buf, cur = json.loads(k)
        steps = by[k]
        steps.sort(key=json.dumps)
        rng.shuffle(steps)
        kinds = ['tup', KINDS[1 + (i + ctx.seed) % 7]] if ctx.quick else KINDS
        for kind in kinds:
            for j in range(0, len(steps), 1500):
                jobs.append(dict(kind='reader', items=kind, buf=buf, cur=cur, steps=steps[j:j + 1500], via=(i + j) % 2))
    replay(ctx, jobs, 'reader ' + mode)


def sorted_seq(ctx):
    rows = generate(ctx, 'SortedSeq', f'SortedSeq{"" if ctx.quick else "_deep"}.cfg')
    by = {'C': collections.defaultdict(list), 'D': collections.defaultdict(list)}
    for kind, was, op, res, post in rows:
        by[kind][json.dumps(was)].append([was, op, res, post])
    jobs = []
    for kind, states in by.items():
        names = sorted(states)
        for j in range(0, len(names), 60):
            jobs.append(dict(kind='sorted', skind=kind, mode='each', seed=f'{ctx.seed}{j}', times=ctx.pick(1, 4),
                             rows=[r for k in names[j:j + 60] for r in states[k]]))
    replay(ctx, jobs, 'sorted collection, each step')
    jobs = []
    for kind, states in by.items():
        rows = [r for k in sorted(states) for r in states[k]]
        for j in range(ctx.pick(2, 8) if kind == 'C' else ctx.pick(6, 16)):
            jobs.append(dict(kind='sorted', skind=kind, mode='walk', seed=f'w{ctx.seed}{j}', walks=ctx.pick(2500, 20000), length=14, rows=rows))
    replay(ctx, jobs, 'sorted collection, sequences')


def sorted_recorded(ctx):
    """Histories of collections of hundreds of items, recorded and judged by TLC."""
    jobs = [dict(kind='record_sorted', seed=f'r{ctx.seed}{j}', histories=ctx.pick(12, 40)) for j in range(ctx.pick(16, 80))]
    traces = []
    for job, res in pool.run(jobs):
        if res is None:
            ctx.violation('[sorted collection, recorded] a call never returned', dict(kind='job', job=job))
            continue
        n, bad, trs = res
        ctx.runs += n
        for b in bad:
            ctx.violation('[sorted collection, recorded] ' + b['what'], dict(kind='job', job=job, mismatch=b))
        traces += [(job, i, t) for i, t in enumerate(trs or ())]
    rejected, c = tlc.validate('SortedTrace', [t for _, _, t in traces])
    ctx.traces += len(traces)
    ctx.states += c['distinct']
    ctx.transitions += c['generated']
    ctx.extra['recorded histories of sorted collections'] = dict(
        histories=len(traces), operations=sum(len(t['ev']) for _, _, t in traces),
        largest=max((len(e['q']) for _, _, t in traces for e in t['ev']), default=0))
    for i, at in rejected:
        job, k, t = traces[i]
        e = t['ev'][at] if at is not None and at < len(t['ev']) else {}
        what = {f: e[f] for f in e if f not in ('q', 's')}
        ctx.violation(f'[sorted collection, recorded] {"SortedDeque" if t["kind"] == "D" else "SortedCollection"} of {len(e.get("q", ()))} items: '
                      f'no specified behaviour for operation {e.get("o")} {str(what)[:300]}', dict(kind='job', job=job, history=k, position=at))


def paths(ctx, module, cfg, kind, what, length, init=None, per_job=60, **extra):
    """Behaviours of a module that together take every transition, executed as jobs of a kind."""
    rows = generate(ctx, module, cfg)
    g = tours.graph(rows)
    inits = [s for s in g if init(json.loads(s))] if init else [json.dumps(rows[0][0])]
    rng = random.Random(f'{ctx.seed}{cfg}')
    rng.shuffle(inits)
    ps = list(tours.all_tours(g, inits, rng, length))
    jobs = []
    for j in range(0, len(ps), per_job):
        jobs.append(dict(kind=kind, seed=f'{ctx.seed}{cfg}{j}', paths=ps[j:j + per_job], **extra))
    ctx.extra[f'behaviours {cfg}'] = len(ps)
    ctx.extra[f'transitions {cfg}'] = sum(len(es) for es in g.values())
    replay(ctx, jobs, what)


def stream_source(ctx):
    for cfg in ('life', 'config', 'read'):
        paths(ctx, 'StreamSource', f'StreamSource_{cfg}{"" if ctx.quick else "_deep"}.cfg', 'source', 'stream source ' + cfg, 25)


def life(ctx, *cfgs):
    for cfg in cfgs:
        paths(ctx, 'Life', f'Life_{cfg}{"" if ctx.quick else "_deep"}.cfg', 'life', 'life of a stream buffer ' + cfg, 25, lambda f: f[1] == [])


def twins(ctx, *cfgs):
    for cfg in cfgs:
        paths(ctx, 'Twins', f'Twins_{cfg}{"" if ctx.quick else "_deep"}.cfg', 'twins', 'two stream buffers ' + cfg, 25, lambda f: f[1] == [[], []])


def simply(ctx):
    paths(ctx, 'Simply', f'Simply_{ctx.pick("quick", "deep")}.cfg', 'simply', 'all-in-one helper', 16, lambda f: f[1] == 'new')


def direct(ctx):
    paths(ctx, 'DirectSource', f'DirectSource_{ctx.pick("quick", "deep")}.cfg', 'direct', 'direct source', 14,
          lambda f: f[3:] == [0, 0, 0, 0])


def context(ctx):
    paths(ctx, 'Context', f'Context_{ctx.pick("quick", "deep")}.cfg', 'context', 'contextualized call', 16, lambda f: f[3:] == [0, 0, 0, 0])


def http(ctx):
    paths(ctx, 'Http', f'Http_{ctx.pick("quick", "deep")}.cfg', 'http', 'HTTP source', 16, lambda f: f[1:] == [0, 0, 0, 0, 0])


def pacing(ctx):
    rows = generate(ctx, 'Pacing', f'Pacing_{ctx.pick("quick", "deep")}.cfg')
    random.Random(ctx.seed).shuffle(rows)
    jobs = [dict(kind='pacing', seed=f'{ctx.seed}p{j}', times=ctx.pick(2, 4), rows=rows[j:j + 80]) for j in range(0, len(rows), 80)]
    rows = generate(ctx, 'Pacing', f'Pacing_long{"" if ctx.quick else "_deep"}.cfg')
    jobs += [dict(kind='pacing', seed=f'{ctx.seed}l{j}', times=1, rows=rows[j:j + 4]) for j in range(0, len(rows), 4)]
    replay(ctx, jobs, 'pacing')


def pack(ctx):
    paths(ctx, 'Pack', f'Pack_{ctx.pick("quick", "deep")}.cfg', 'pack', 'configuration file', 18, lambda f: f[1] == 0)


def version(ctx):
    paths(ctx, 'Version', f'Version_{ctx.pick("quick", "deep")}.cfg', 'version', 'package index', 18, lambda f: f == [[], 0, 0])


def template(ctx):
    rows = generate(ctx, 'Template', f'Template_{ctx.pick("quick", "deep")}.cfg')
    rng = random.Random(ctx.seed)
    rng.shuffle(rows)
    if ctx.quick:
        rows = [r for i, r in enumerate(rows) if r[0] != 'fill' or i % 2 == 0]
    jobs = [dict(kind='template', seed=f'{ctx.seed}t{j}', times=ctx.pick(1, 3), rows=rows[j:j + 2000]) for j in range(0, len(rows), 2000)]
    replay(ctx, jobs, 'packaging texts')


def window(ctx, auto=(0, 1), n=None, most=()):
    """Random walks over the generated transitions of large buffers."""
    rows = generate(ctx, 'Window', f'Window_{ctx.pick("quick", "deep")}.cfg')
    g = collections.defaultdict(lambda: collections.defaultdict(list))
    for pre, op, res, post in rows:
        if pre[0][1] in auto:
            g[json.dumps(pre)][op[0]].append((op, res, post))
    for s in g.values():
        for rs in s.values():
            rs.sort(key=json.dumps)
    inits = sorted(s for s in g if json.loads(s)[1:] == [0, 0, 0, 0])
    rng = random.Random(f'{ctx.seed}window')
    jobs = []
    for i in range(n or ctx.pick(24, 400)):
        walks = []
        for init in inits:
            s, steps = init, []
            while s in g and len(steps) < 30:
                names = sorted(g[s])
                w = [(8 if x == 'burst' else 4) if not steps else 5 if x in most else 1 for x in names]
                st = rng.choice(g[s][rng.choices(names, w)[0]])
                steps.append(st)
                s = json.dumps(st[2])
            walks.append([steps, json.loads(init)[0]])
        jobs.append(dict(kind='window', seed=f'{ctx.seed}w{i}', walks=walks))
    replay(ctx, jobs, 'large windows')
