"""State graphs printed by TLC and walks which take their transitions."""
import json
import os
from collections import deque


class Graph:
    """states and edges in an order which does not depend on TLC's threads"""

    def __init__(self, path):
        edges, states = set(), {}
        dump = lambda x: json.dumps(x, sort_keys=True)  # noqa
        for line in open(path):
            e = json.loads(line)
            p, q = dump(e["p"]), dump(e["q"])
            states[p], states[q] = e["p"], e["q"]
            edges.add((p, dump(e["c"]), q))
        order = sorted(states)
        self.ids = {k: i for i, k in enumerate(order)}
        self.states = [states[k] for k in order]
        self.edges = [(self.ids[p], json.loads(c), self.ids[q]) for p, c, q in sorted(edges)]
        self.out = [[] for _ in self.states]
        for i, (p, _, _) in enumerate(self.edges):
            self.out[p].append(i)

    def node(self, s):
        return self.ids[json.dumps(s, sort_keys=True)]


def walks(g, start, targets, rng, length, limit=None):
    """walks from a start state (a node or a list of them) taking every reachable target edge, each at most
    `length` transitions long: lists of edge numbers"""
    starts = start if isinstance(start, list) else [start]
    todo = {}
    for i in targets:
        todo.setdefault(g.edges[i][0], []).append(i)
    for v in sorted(todo):
        rng.shuffle(todo[v])
    left = len(targets)

    def path(u, room):
        """shortest path from u to a node with something to do"""
        prev = {u: None}
        q = deque([(u, 0)])
        while q:
            x, n = q.popleft()
            if todo.get(x):
                p = []
                while prev[x] is not None:
                    e = prev[x]
                    p.append(e)
                    x = g.edges[e][0]
                return p[::-1]
            if n >= room:
                continue
            for e in g.out[x]:
                y = g.edges[e][2]
                if y not in prev:
                    prev[y] = e
                    q.append((y, n + 1))
        return None
    done = 0
    while left:
        took = False
        everywhere = len(starts) == len(g.states)
        for s0 in starts:
            if everywhere and not todo.get(s0):
                continue
            u, w, new = s0, [], 0
            while len(w) < length:
                if todo.get(u):
                    e = todo[u].pop()
                    left -= 1
                    new += 1
                    w.append(e)
                    u = g.edges[e][2]
                    continue
                p = path(u, min(4 if everywhere else length, max(0, length - len(w) - 1)) if new else 10 ** 6)
                if p is None:
                    break
                w += p
                if p:
                    u = g.edges[p[-1]][2]
            if new:
                took = True
                done += len(w)
                yield s0, w
                if limit and done >= limit:
                    return
        if not took:
            return


def graph_of(name):
    return Graph(os.path.join(os.environ["VERIF_WORK"], name + ".graph"))
