"""Paths through a transition graph printed by TLC that together take every transition."""
import collections
import json


def graph(rows):
    """rows: [pre, op, res, post, obs...] -> (edges by state name, all names)"""
    g = collections.defaultdict(list)
    seen = set()
    for r in rows:
        k = json.dumps(r)
        if k in seen:
            continue
        seen.add(k)
        g[json.dumps(r[0])].append((json.dumps(r[3]), [r[1], r[2], r[3]] + r[4:]))
    return g


def all_tours(g, inits, rng, length):
    """Paths from the initial states."""
    todo = {s: list(range(len(es))) for s, es in g.items()}
    for v in todo.values():
        rng.shuffle(v)
    for init in inits:
        for path in tours(g, init, rng, length, todo):
            yield path, json.loads(init)


def tours(g, init, rng, length, todo, limit=None):
    """Yields paths (lists of steps) from init until every transition reachable from there
    is covered (or so many paths were given)."""
    left = sum(len(v) for v in todo.values())
    # distance to the nearest state with work left is approximated by a search of few steps
    count = 0
    parent = None
    while left and (limit is None or count < limit):
        path = []
        s = init
        progress = False
        while len(path) < length:
            if todo.get(s):
                i = todo[s].pop()
                left -= 1
                progress = True
                nxt, step = g[s][i]
                path.append(step)
                s = nxt
                continue
            hop = _near(g, todo, s, min(length - len(path) - 1, 4), 300)
            if hop is None:
                break
            for nxt, step in hop:
                path.append(step)
                s = nxt
        if not progress:
            # what is left is far away: go there on a shortest path
            if parent is None:
                parent = _tree(g, init)
            t = next((x for x in todo if todo[x] and x in parent), None)
            if t is None:
                return
            path = []
            x = t
            while parent[x] is not None:
                px, step = parent[x]
                path.append(step)
                x = px
            path.reverse()
            s = t
            while len(path) < length + 10 and todo.get(s):
                i = todo[s].pop()
                left -= 1
                nxt, step = g[s][i]
                path.append(step)
                s = nxt
        count += 1
        yield path


def _near(g, todo, s, depth, width):
    if depth <= 0:
        return None
    seen = {s}
    front = [(s, [])]
    for _ in range(depth):
        nf = []
        for x, p in front:
            for nxt, step in g.get(x, ()):
                if nxt in seen:
                    continue
                seen.add(nxt)
                q = p + [(nxt, step)]
                if todo.get(nxt):
                    return q
                nf.append((nxt, q))
                if len(seen) > width:
                    return None
        front = nf
    return None


def _tree(g, init):
    parent = {init: None}
    dq = collections.deque([init])
    while dq:
        x = dq.popleft()
        for nxt, step in g.get(x, ()):
            if nxt not in parent:
                parent[nxt] = (x, step)
                dq.append(nxt)
    return parent
