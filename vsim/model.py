"""Small executable reference models: what a correct run has to produce."""
import heapq, math
from itertools import product

ACC = 1e-6
TOL = 2.5e-6  # values this close to each other count as equal ("documented accuracy")
EARTH_KM = 6371.0


class Reject(Exception):
    """The input has to be rejected."""


def close(a, b, rel=1e-9, abs_=1e-9):
    return a == b or abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


class Ref:
    """The graph which map data describes."""
    def __init__(self, g, level=False, metric_ids=None):
        ids = sorted({e[1] for e in g['edges']} | {e[2] for e in g['edges']})
        self.ids = ids
        self.idx = {i: k for k, i in enumerate(ids)}
        self.coord, self.level = {}, {i: 0 for i in ids}
        for x in g['nodes']:
            self.coord[x[0]] = (float(x[1]), float(x[2]))
            if level and x[0] in self.level:
                self.level[x[0]] = x[3]
        for i in ids:
            if i not in self.coord:
                raise Reject('node %d has no coordinates' % i)
        E = [dict(id=e[0], src=e[1], dst=e[2], m=[float(x) for x in e[3]], sc=e[4], pos=k) for k, e in enumerate(g['edges'])]
        E.sort(key=lambda e: (self.idx[e['src']], -self.level[e['dst']], self.idx[e['dst']], -1 if e['id'] is None else e['id']))
        new = {}
        out = []
        for e in E:
            if out:
                p = out[-1]
                if p['id'] == e['id'] and (p['src'], p['dst']) == (e['src'], e['dst']) and all(abs(a - b) <= ACC for a, b in zip(p['m'], e['m'])):
                    new[e['pos']] = len(out) - 1
                    continue
            new[e['pos']] = len(out)
            out.append(e)
        for k, e in enumerate(out):
            e['idx'] = k
            e['sc'] = [new[e['sc'][0]], new[e['sc'][1]]] if e['sc'] else None
            e['m'] = [ACC if abs(x) <= ACC else x for x in e['m']]
            if any(x < ACC for x in e['m']):
                raise Reject('metric too small')
        seen = set()
        for e in out:
            if e['id'] is not None:
                if e['id'] in seen:
                    raise Reject('duplicated edge id')
                seen.add(e['id'])
        self.edges = out
        self.dim = g['dim']
        self.metric_ids = list(metric_ids or ['m%d' % i for i in range(self.dim)])
        self.means = None
        self.adj()

    def adj(self):
        self.out = {i: [] for i in self.ids}
        for e in self.edges:
            self.out[e['src']].append(e)

    def number_edges(self):
        for e in self.edges:
            e['id'] = e['idx']

    def normalize(self):
        n = len(self.edges)
        self.means = [sum(e['m'][i] for e in self.edges) / n for i in range(self.dim)]
        for e in self.edges:
            e['m'] = [x / m for x, m in zip(e['m'], self.means)]
            e['m'] = [ACC if abs(x) <= ACC else x for x in e['m']]

    def reachable(self, s):
        seen, st = {s}, [s]
        while st:
            for e in self.out[st.pop()]:
                if e['dst'] not in seen:
                    seen.add(e['dst'])
                    st.append(e['dst'])
        return seen

    def weight(self, e, alphas):
        return sum(a * x for a, x in zip(alphas, e['m']))

    def dists(self, s, alphas):
        d = {s: 0.0}
        done = set()
        q = [(0.0, s)]
        while q:
            c, v = heapq.heappop(q)
            if v in done:
                continue
            done.add(v)
            for e in self.out[v]:
                w = c + self.weight(e, alphas)
                if w < d.get(e['dst'], math.inf):
                    d[e['dst']] = w
                    heapq.heappush(q, (w, e['dst']))
        return d

    def count_paths(self, s, alphas, tol=1e-6):
        """Number of cheapest paths to every node (capped), and one predecessor each.  Weights > 0."""
        d = self.dists(s, alphas)
        cnt, pred = {s: 1}, {}
        for v in sorted(d, key=lambda v: d[v]):
            if v == s:
                continue
            c = 0
            for u in d:
                for e in self.out[u]:
                    if e['dst'] == v and u != v and abs(d[u] + self.weight(e, alphas) - d[v]) <= tol:
                        c += cnt.get(u, 1)
                        pred[v] = e
            cnt[v] = min(c, 1000)
        return d, cnt, pred

    def unique_path(self, s, t, alphas, cache=None, tol=1e-6):
        if cache is None or s not in cache:
            r = self.count_paths(s, alphas, tol)
            if cache is not None:
                cache[s] = r
        else:
            r = cache[s]
        d, cnt, pred = r
        if t not in d or cnt[t] != 1:
            return None
        p = []
        while t != s:
            e = pred[t]
            p.append(e)
            t = e['src']
        return p[::-1]

    def flatten(self, k):
        e = self.edges[k]
        if not e['sc']:
            return [k]
        return self.flatten(e['sc'][0]) + self.flatten(e['sc'][1])


# ------------------------------------------------------------------ dumps of the library's graph
class Dump:
    def __init__(self):
        self.nodes, self.edges, self.f, self.b, self.means = [], [], {}, {}, {}
        self.counts = None


def parse_api(out):
    """Output of apirun: graphs by name, failures by name, results by number, and whether it ended."""
    graphs, failed, res, ended = {}, {}, {}, False
    cur = None
    for l in out.splitlines():
        w = l.split(' ')
        k = w[0]
        if k == 'graph':
            cur = graphs[w[1]] = Dump()
            cur.counts = [int(x) for x in w[2:6]]
        elif k == 'mean':
            cur.means[int(w[1])] = float(w[2])
        elif k == 'n':
            cur.nodes.append((int(w[1]), int(w[2]), float(w[3]), float(w[4]), int(w[5]), int(w[6])))
        elif k == 'e':
            cur.edges.append(dict(idx=int(w[1]), id=None if w[2] == '-' else int(w[2]), src=int(w[3]), dst=int(w[4]), is_sc=w[5] == '1',
                                  sc=None if w[6] == '-' else [int(x) for x in w[6].split(',')], back=w[7],
                                  m=[float(x) for x in w[8].split(',') if x] if len(w) > 8 else []))
        elif k in ('f', 'b'):
            (cur.f if k == 'f' else cur.b)[int(w[1])] = [tuple(int(y) for y in x.split('>')) for x in w[2:] if x]
        elif k == 'failed':
            failed[w[1]] = ' '.join(w[2:])
        elif k == 'r':
            ps = []
            i = 2
            while i + 2 < len(w) + 0 and w[i]:
                raw, flat, c = w[i], w[i + 1], w[i + 2]
                def pp(x):
                    _, s, d, es = x.split(':')
                    return int(s), int(d), [int(y) for y in es.split(',') if y]
                ps.append((pp(raw), pp(flat), [float(y) for y in c.split(',') if y]))
                i += 3
            res[int(w[1])] = ps
        elif k == 'end':
            ended = True
    return graphs, failed, res, ended


def same_sig(a, b, rel):
    return len(a) == len(b) and all(len(x) == len(y) and x[:2] == y[:2] and all(close(p, q, max(rel, 1e-8), TOL) for p, q in zip(x[2:], y[2:])) for x, y in zip(a, b))


def compare(ref, d, name='graph', level=True, rel=1e-9, coord_tol=0.0, ids=True):
    """Differences between a reference graph and the library's, as text."""
    out = []

    def bad(s):
        if len(out) < 5:
            out.append('%s: %s' % (name, s))
    n, m = len(ref.ids), len(ref.edges)
    if d.counts != [n, m, m, ref.dim]:
        bad('nodes, forward edges, backward edges, dimension are %s instead of %s' % (d.counts, [n, m, m, ref.dim]))
    if [x[1] for x in d.nodes] != ref.ids:
        bad('node ids are %s... instead of %s...' % ([x[1] for x in d.nodes][:8], ref.ids[:8]))
        return out
    for x in d.nodes:
        i = x[1]
        if x[0] != x[5]:
            bad('node id %d leads to index %d instead of %d' % (i, x[5], x[0]))
        if abs(x[2] - ref.coord[i][0]) > coord_tol or abs(x[3] - ref.coord[i][1]) > coord_tol:
            bad('node %d lies at %s instead of %s' % (i, x[2:4], ref.coord[i]))
        if level and x[4] != ref.level[i]:
            bad('node %d has level %d instead of %d' % (i, x[4], ref.level[i]))
    if len(d.edges) != m:
        bad('%d edges instead of %d' % (len(d.edges), m))
    # The order of parallel edges is free, so edges are matched by what they are.
    if any(not 0 <= e['src'] < n or not 0 <= e['dst'] < n for e in d.edges):
        bad('an edge leads to a node which does not exist')
        return out

    def rnd(xs):
        return tuple(float('%.9e' % x) for x in xs)

    def group(es):
        g = {}
        for e in es:
            g.setdefault((e['s'], e['t']), []).append(e)
        for k in g:
            g[k].sort(key=lambda e: (-1 if e['id'] is None or not ids else e['id'], rnd(e['m']), e['sig']))
        return g

    def view(es, conv):
        es = [dict(e, s=conv(e['src']), t=conv(e['dst'])) for e in es]

        def sig(k):
            return (es[k]['s'], es[k]['t']) + rnd(es[k]['m']) if 0 <= k < len(es) else ('none',)
        for e in es:
            e['sig'] = (sig(e['sc'][0]), sig(e['sc'][1])) if e['sc'] else ()
        return group(es)
    def alike(e, r):
        return (not ids or e['id'] == r['id']) and len(e['m']) == len(r['m']) \
            and all(close(x, y, rel, TOL) for x, y in zip(e['m'], r['m'])) and bool(e['sc']) == bool(r['sc']) and same_sig(e['sig'], r['sig'], rel)

    def rematch(a, b):
        """Parallel edges, matched with the wanted ones, because sorting may be misled by tolerances."""
        ok = [[alike(e, r) for e in a] for r in b]
        of = {}

        def seek(k, seen):
            for j in range(len(a)):
                if ok[k][j] and j not in seen:
                    seen.add(j)
                    if j not in of or seek(of[j], seen):
                        of[j] = k
                        return True
            return False
        if not all(seek(k, set()) for k in range(len(b))):
            return a
        at = {k: j for j, k in of.items()}
        return [a[at[k]] for k in range(len(b))]
    have, want = view(d.edges, lambda i: ref.ids[i]), view(ref.edges, lambda i: i)
    for k in sorted(set(have) | set(want)):
        a, b = have.get(k, []), want.get(k, [])
        if len(a) != len(b):
            bad('%d edges %d->%d instead of %d' % (len(a), *k, len(b)))
            continue
        if len(a) > 1 and not all(alike(e, r) for e, r in zip(a, b)):
            a = rematch(a, b)
        for e, r in zip(a, b):
            if ids and e['id'] != r['id']:
                bad('edge %d->%d has id %s instead of %s' % (*k, e['id'], r['id']))
            if e['id'] is not None and e['back'] != str(e['idx']):
                bad('edge id %d leads to index %s instead of %d' % (e['id'], e['back'], e['idx']))
            if len(e['m']) != len(r['m']) or not all(close(x, y, rel, TOL) for x, y in zip(e["m"], r["m"])):
                bad('edge %d->%d (id %s) has metrics %s instead of %s' % (*k, e['id'], e['m'], r['m']))
            elif e['is_sc'] != bool(r['sc']) or bool(e['sc']) != bool(r['sc']) or not same_sig(e['sig'], r['sig'], rel):
                bad('edge %d->%d (id %s) skips edges %s instead of %s' % (*k, e['id'], e['sig'], r['sig']))
    got = [e['id'] for e in d.edges]
    if not ids and any(x is not None for x in got) and (None in got or len(set(got)) != len(got)):
        bad('edge ids are not unique: %s' % got[:10])
    fw, bw = {k: [] for k in range(n)}, {k: [] for k in range(n)}
    for e in d.edges:
        fw[e['src']].append((e['idx'], e['dst']))
        bw[e['dst']].append((e['idx'], e['src']))
    for k in range(n):
        if sorted(d.f.get(k, [])) != sorted(fw[k]):
            bad('edges leaving node %d are %s instead of %s' % (ref.ids[k], d.f.get(k), fw[k]))
        if sorted(d.b.get(k, [])) != sorted(bw[k]):
            bad('edges entering node %d are %s instead of %s' % (ref.ids[k], d.b.get(k), bw[k]))
    if ref.means is not None:
        if len(d.means) != ref.dim or not all(close(d.means[i], ref.means[i], rel) for i in range(ref.dim)):
            bad('means are %s instead of %s' % (d.means, ref.means))
    elif d.means:
        bad('means are %s without normalisation' % d.means)
    return out


def haversine(a, b):
    la, lb = math.radians(a[0]), math.radians(b[0])
    dla, dlo = math.radians(b[0] - a[0]), math.radians(b[1] - a[1])
    h = math.sin(dla / 2) ** 2 + math.cos(la) * math.cos(lb) * math.sin(dlo / 2) ** 2
    return 2 * EARTH_KM * math.asin(min(1.0, math.sqrt(h)))
