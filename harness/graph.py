"""Turning TLC's labelled transition graph into walks that cover every transition."""
import collections
import json


def walks(edges, init_key, max_len=25, limit=None):
    """edges: list of [src, dst, label].  Returns a list of label lists that together cover every
    edge reachable from init (or as many as `limit` walks allow) and the number covered."""
    key = lambda st: json.dumps(st, sort_keys=True)
    out = collections.defaultdict(list)
    for src, dst, lab in edges:
        out[key(src)].append([key(dst), lab, False])
    result = []
    covered = 0
    init = key(init_key)
    # BFS tree from init for entry paths
    while limit is None or len(result) < limit:
        # find the nearest uncovered edge from init
        cur, path = init, []
        progress = False
        while len(path) < max_len:
            nxt = next((e for e in out[cur] if not e[2]), None)
            if nxt is not None:
                nxt[2] = True
                covered += 1
                progress = True
                path.append(nxt[1])
                cur = nxt[0]
                continue
            route = _route(out, cur, max_len - len(path))
            if route is None:
                break
            for e in route:
                path.append(e[1])
                cur = e[0]
        if not progress:
            break
        result.append(path)
    return result, covered


def _route(out, start, depth):
    """Shortest path to a node with an uncovered edge (edges already covered on the way)."""
    seen = {start: None}
    queue = collections.deque([(start, 0)])
    while queue:
        node, d = queue.popleft()
        if d and any(not e[2] for e in out[node]):
            path = []
            while seen[node] is not None:
                prev, e = seen[node]
                path.append(e)
                node = prev
            return path[::-1]
        if d >= depth - 1:
            continue
        for e in out[node]:
            if e[0] not in seen:
                seen[e[0]] = (node, e)
                queue.append((e[0], d + 1))
    return None
