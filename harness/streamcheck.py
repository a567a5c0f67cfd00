"""Real code -> specification: runs scenarios under many schedules and has TLC decide
whether the specification has a behaviour with each recorded trace."""
import json
import random
import time

import pool
import scen
import tlc


def strip(tr):
    for e in tr['ev']:
        e.pop('ts', None)
    return tr


def describe(tr, pos):
    ev = tr['ev']
    if pos is None or pos >= len(ev):
        return 'trace not accepted'
    e = dict(ev[pos])
    e.pop('x', None)
    c = ''
    if e['k'] == 'ret':
        for q in reversed(ev[:pos]):
            if q['k'] == 'call' and q['c'] == e['c']:
                q = {k: v for k, v in q.items() if k not in ('x', 'k', 'c', 'ts')}
                c = ' of call ' + json.dumps(q)
                break
        return f"{e['op']} answered {e['t']} {e['v']}{' ' + e['e'] if e['e'] else ''}, which nothing allows here{c}"
    if e['k'] in ('stuck', 'end', 'crash'):
        pend = {}
        for q in ev[:pos]:
            if q['k'] == 'call':
                pend[q['c']] = q['op']
            elif q['k'] == 'ret':
                pend.pop(q['c'], None)
        return f"{e['k']}: {e.get('why', '')} calls without return: {sorted(pend.values())}"
    return 'not allowed here: ' + json.dumps(e)


def random_strats(rng, n, pcts=1, jump=True):
    out = []
    for _ in range(n):
        out.append(['random', rng.randrange(1 << 30), rng.choice([0.02, 0.1, 0.3]), rng.choice([0.2, 0.6]),
                    rng.choice([0, 0, 0.02]) if jump else 0])
    for _ in range(pcts):
        out.append(['pct', rng.randrange(1 << 30), rng.choice([1, 2, 3]), rng.choice([300, 800])])
    return out


class Collector:
    """Collects distinct traces; validates them in batches."""

    def __init__(self, ctx, module='StreamTrace', family='', batch=4000, kind='stream', prepare=True, prop_filter=None):
        self.ctx, self.module, self.family, self.batch, self.kind = ctx, module, family, batch, kind
        self.seen = set()
        self.todo = []
        self.prepare = prepare
        self.steps = 0
        self.prop_filter = prop_filter
        self.stuck = 0

    def add(self, job, res):
        ctx = self.ctx
        if res is None:
            ctx.violation('a call never returned (no progress at all): scenario family ' + self.family,
                          dict(kind='job', job=job))
            return []
        new = []
        for r in res:
            ctx.runs += 1
            self.steps += r['steps']
            for tr in map(strip, r['tr'].get('many', [r['tr']])):
                h = hash(json.dumps(tr, sort_keys=True))
                if h in self.seen:
                    continue
                self.seen.add(h)
                self.todo.append((tr, job['scn'], r['strat']))
                self.stuck += tr['ev'][-1]['k'] in ('stuck', 'crash')
                new.append(r)
        if len(self.todo) >= self.batch:
            self.flush()
        return new

    def flush(self):
        if not self.todo:
            return
        L, self.todo = self.todo, []
        traces = [x[0] for x in L]
        if self.prepare:
            tlc.prepare(traces)
        rej, c = tlc.validate(self.module, traces)
        ctx = self.ctx
        ctx.traces += len(L)
        ctx.states += c['distinct']
        ctx.transitions += c['generated']
        for i, (tr, scn, st) in enumerate(L[:1]):
            ctx.sample(dict(family=self.family, strategy=st, scenario=scn, events=len(tr['ev']),
                            first_events=[{k: v for k, v in e.items() if k != 'x'} for e in tr['ev'][:6]]))
        for i, p in rej:
            tr, scn, st = L[i]
            ctx.violation(f'[{self.family}] ' + describe(tr, p) if p is not None else f'[{self.family}] trace not accepted',
                          dict(kind=self.kind, module=self.module, scn=scn, strat=st, first_unmatched=p,
                               trace=dict(tr, ev=[{k: v for k, v in e.items() if k != 'x'} for e in tr['ev']])))


def preempt_points(rec, rng, most):
    """(step, rank) where another thread could run instead, or time pass: a sample, with
    every place in the code (by thread and by who else could run) before any place twice."""
    groups = {}
    for step, n, ns, kind, loc, run in rec:
        for r in range(n):
            groups.setdefault((*loc, run[r]), []).append((step, r))
        if n == 0 and ns:
            groups.setdefault((*loc, -1), []).append((step, 0))
    if sum(map(len, groups.values())) <= most:
        return sorted(p for g in groups.values() for p in g)
    groups = list(groups.values())
    rng.shuffle(groups)
    for g in groups:
        rng.shuffle(g)
    pts = []
    for i in range(max(map(len, groups))):
        for g in groups:
            if i < len(g):
                pts.append(g[i])
        if len(pts) >= most:
            break
    return sorted(pts[:most])


def run_family(ctx, fam, *, n_random, strats, n_pre, pre_points, deadline, cap, kind='stream', module='StreamTrace',
               source=None, prepare=True, chunk=8, pre2=0):
    """n_random random scenarios besides the templates, `strats` schedules each; for n_pre
    scenarios (and all templates if they fit) single preemptions at pre_points places, and
    pre2 random pairs of preemptions."""
    templates, gen = source or scen.FAMILIES[fam]
    rng = random.Random(f'{ctx.seed}/{fam}')
    T = list(templates())
    S = T + [gen(rng) for _ in range(n_random)]
    L = [slow(rng, s) for s in S if rng.random() < 0.12] if kind == 'stream' else []
    col = Collector(ctx, module=module, family=fam, kind=kind, prepare=prepare)
    t_end = time.time() + deadline

    def jobs():
        for s in T + L + S[len(T):]:
            yield dict(kind=kind, scn=s, strats=[['default']] + random_strats(rng, strats))

    for job, res in pool.run(jobs(), deadline=t_end):
        col.add(job, res)
        if len(col.seen) > cap or col.stuck > 3 or ctx.violations:
            break
    if ctx.violations or col.stuck > 3:
        col.flush()
        return col
    # systematic preemptions
    P = T if len(T) <= n_pre else rng.sample(T, n_pre)
    P = P + S[len(T):len(T) + max(0, n_pre - len(P))]
    recs = []

    def how(i):
        return 'fpreempt' if i % 3 == 0 else 'preempt'

    for job, res in pool.run((dict(kind=kind, scn=s, at=i, strats=[[how(i), {}, True]]) for i, s in enumerate(P)), deadline=t_end):
        col.add(job, res)
        if res:
            recs.append((job['at'], job['scn'], res[0]['rec']))
    recs.sort(key=lambda x: x[0])

    def pjobs():
        for i, s, rec in recs:
            rng = random.Random(f'{ctx.seed}/{fam}/{i}')
            pts = preempt_points(rec, rng, pre_points)
            st = [[how(i), [[a, b]]] for a, b in pts]
            allp = preempt_points(rec, rng, 10**9)
            for _ in range(pre2):
                if len(allp) >= 2:
                    st.append([how(i), sorted(map(list, rng.sample(allp, 2)))])
            for j in range(0, len(st), chunk):
                yield dict(kind=kind, scn=s, strats=st[j:j + chunk])

    for job, res in pool.run(pjobs(), deadline=t_end):
        col.add(job, res)
        if len(col.seen) > 2 * cap or col.stuck > 3 or ctx.violations:
            break
    col.flush()
    ctx.extra.setdefault('scheduling_points_executed', 0)
    ctx.extra['scheduling_points_executed'] += col.steps
    ctx.extra.setdefault('scenarios', {})[fam] = len(S)
    return col


def slow(rng, scn):
    """The same with all waits a great many times as long.

    Where the code waits at intervals of its own (0.1 s unless told otherwise), a long wait
    is many steps, so these are not made as long."""
    own = 'sbiter' in json.dumps(scn) or not (scn['buf'].get('sleep') or scn['src'].get('sleep'))
    return dict(scn, stretch=rng.choice([4, 8]) if own else rng.choice([20, 1000, 50000]))


def run_stalls(ctx, scenarios, per, deadline, chunk=10):
    """Every scenario with a thread standing still at each of `per` places in turn."""
    col = Collector(ctx, module='RWLockTrace', family='stalled locks', kind='lock', prepare=False)
    t_end = time.time() + deadline
    recs = []
    for job, res in pool.run((dict(kind='lock', scn=s, at=i, strats=[['stall', -1, True]]) for i, s in enumerate(scenarios)), deadline=t_end):
        col.add(job, res)
        if res:
            recs.append((job['at'], job['scn'], res[0]['rec']))
    recs.sort(key=lambda x: x[0])

    def jobs():
        for i, s, rec in recs:
            rng = random.Random(f'{ctx.seed}/stall/{i}')
            at = sorted(rng.sample(rec, per)) if len(rec) > per else rec
            st = [['stall', a] for a in at]
            for j in range(0, len(st), chunk):
                yield dict(kind='lock', scn=s, strats=st[j:j + chunk])

    for job, res in pool.run(jobs(), deadline=t_end):
        col.add(job, res)
        if col.stuck > 3 or ctx.violations:
            break
    col.flush()
    ctx.extra['scheduling_points_executed'] = ctx.extra.get('scheduling_points_executed', 0) + col.steps
    return col
