"""Turns the labelled transition graph TLC printed into scripts covering its edges."""
import collections, json, random


def read_graph(text):
    """-> (edges: node -> [(op, node)], initial nodes are those never targeted first)"""
    edges = {}
    for line in text.splitlines():
        i = line.find('@T ')
        if i < 0:
            continue
        body = line[i + 3:].rstrip()
        if body.endswith('"'):
            body = body[:-1]
        body = body.replace('\\"', '"').replace('\\\\', '\\')
        try:
            e = json.loads(body)
        except ValueError:
            continue
        edges.setdefault(e['f'], {})[json.dumps(e['o'], sort_keys=True)] = e['t']
    return {n: [(o, t) for o, t in d.items()] for n, d in edges.items()}


def tours(edges, init, rng, max_events, max_len=400):
    """Lists of ops, each from the initial state, that together take every edge
    reachable from there (unless the budget ends first), and what was covered."""
    parent = {init: None}
    q = collections.deque([init])
    order = []
    while q:
        n = q.popleft()
        order.append(n)
        for o, t in edges.get(n, ()):
            if t not in parent:
                parent[t] = (n, o)
                q.append(t)
    todo, total = {}, 0
    for n in order:
        l = list(edges.get(n, ()))
        rng.shuffle(l)
        todo[n] = l
        total += len(l)

    def nearest(src, reach):
        """Shortest path from src to a state with an untaken edge."""
        seen = {src: None}
        q = collections.deque([(src, 0)])
        while q:
            n, d = q.popleft()
            if todo[n]:
                path = []
                while seen[n] is not None:
                    path.append(seen[n])
                    n = seen[n][0]
                return [(o, t) for _, o, t in reversed(path)]
            if d < reach:
                for o, t in edges.get(n, ()):
                    if t not in seen:
                        seen[t] = (n, o, t)
                        q.append((t, d + 1))
        return None

    pending = list(order)
    rng.shuffle(pending)
    covered = used = 0
    out = []
    for n in pending:
        while todo[n] and used < max_events:
            path, m = [], n
            while parent[m] is not None:
                path.append(parent[m][1])
                m = parent[m][0]
            path.reverse()
            cur = n
            while len(path) < max_len:
                if not todo[cur]:
                    hop = nearest(cur, 4)
                    if hop is None:
                        break
                    path += [o for o, _ in hop]
                    cur = hop[-1][1] if hop else cur
                o, t = todo[cur].pop()
                covered += 1
                path.append(o)
                cur = t
            used += len(path)
            out.append([json.loads(o) for o in path])
        if used >= max_events:
            break
    return out, dict(graph_states=len(order), graph_transitions=total, transitions_covered=covered, calls=used)
