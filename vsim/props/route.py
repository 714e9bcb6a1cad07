"""Routing through the library's API (and the program): Dijkstra, contraction hierarchies, alternatives (C10, C11, C12)."""
import re
from .. import gen, model
from ..core import Prop, V, sched, clocks, noise, ERR
from . import eval as ev

REAL = ['osmgraphing library (configs, fmi-parser, graph builder, Dijkstra, paths, explorator)', 'std threads and their synchronisation']
STUB = ['thread scheduler, futex, clocks, getrandom, CPU count and file I/O (shim/sim.c)', 'apirun (our driver) in place of a caller of the library']
TRI = 'CGAL triangulation behind nd-triangulation (ndtri/: exact hull facets with seeded facet order)'


def graph(rng, ch, n=None, dim=None, kind=None, loops=False):
    n = n or rng.randint(2, 24)
    g = gen.graph(rng, n=n, dim=dim, kind=kind, loops=loops, shape=rng.choice([None, None, 'random', 'grid', 'grid']), m=rng.choice([None, None, 2 * n, 4 * n]))
    o = None
    if ch:
        o = g
        g = gen.contract(rng, g, ratio=rng.choice([.2, .5, .8, 1.0, 1.0]), max_edges=500)
    nc, ec = gen.default_cols(g, level=ch, sc=ch)
    s = dict(g=g, nc=nc, ec=ec, units=gen.units(rng, g['dim']), ch=ch, norm=rng.random() < .2)
    if o:
        s['orig'] = o
    return s


def ends(rng, g):
    """Two nodes, mostly connected ones."""
    ids = sorted({e[1] for e in g['edges']} | {e[2] for e in g['edges']})
    a, b = rng.choice(ids), rng.choice(ids)
    if rng.random() < .7:
        # walk there
        out = {}
        for e in g['edges']:
            out.setdefault(e[1], []).append(e[2])
        b = a
        for _ in range(rng.randint(1, 12)):
            if b not in out:
                break
            b = rng.choice(out[b])
    return a, b


def history(rng, gs, n, pick, period=None):
    """A long history of queries: most of them stay around one node for a while, some cross the map, often with a period of 256."""
    qs = []
    at = []
    for x in gs:
        out = {}
        for e in x['g']['edges']:
            out.setdefault(e[1], []).append(e[2])
        at.append((out, sorted({e[1] for e in x['g']['edges']} | {e[2] for e in x['g']['edges']})))
    T = rng.choice([1, 1, 1, 2]) if not period else 1
    while len(qs) < n:
        p = period or rng.choice([256, 256, 255, rng.randint(10, 300)])
        c = rng.randint(1, 9)
        k = rng.randrange(len(gs))
        for _ in range(c):
            qs.append(pick(k, 0 if T == 1 else rng.randrange(T), *ends(rng, gs[k]['g'])))
            if rng.random() < .2:
                k = rng.randrange(len(gs))
        k = rng.randrange(len(gs))
        out, ids = at[k]
        home = rng.choice(ids)
        for _ in range(p - c):
            b = home
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                b = rng.choice(out.get(b) or [b])
            qs.append(pick(k, 0 if T == 1 else rng.randrange(T), home, b))
    return qs[:n]


def cfg_of(x, k):
    return gen.yaml({'parsing': gen.parsing('map%d.fmi' % k, x['nc'], x['ec'], x['units'], normalize=x['norm'] or None)})


def setup(scn, W, refs):
    """Writes all maps and begins the script."""
    s = ''
    for k, x in enumerate(scn['graphs']):
        if not x.get('edit'):
            W.write('map%d.fmi' % k, gen.fmi(x['g'], x['nc'], x['ec']))
            W.write('cfg%d.yaml' % k, cfg_of(x, k))
        if x.get('after') is None:
            s += 'load g%d cfg%d.yaml\ndump g%d\n' % (k, k, k)
        ref = model.Ref(x['g'], level=x['ch'])
        if x['norm']:
            ref.normalize()
        refs.append(ref)
    for k, (algo, al, tol) in enumerate(scn['rcfgs']):
        s += 'rcfg r%d %s %s %s\n' % (k, algo, ','.join(map(repr, al)), ','.join('inf' if t is None else repr(t) for t in tol))
    return s


def script(scn, head, refs, only=None):
    """Queries in order; a graph which comes `after` another one takes its place with its first query, between two phases."""
    s = head
    open_ = False
    live = {k for k, x in enumerate(scn['graphs']) if x.get('after') is None}
    for k, (tid, g, r, a, b, x) in enumerate(scn['queries']):
        while g not in live:
            # the next of its chain
            n = g
            while scn['graphs'][n]['after'] not in live:
                n = scn['graphs'][n]['after']
            o = scn['graphs'][n]['after']
            if open_:
                s += 'run\n'
                open_ = False
            if scn['graphs'][n].get('edit'):
                s += 'edit g%d g%d' % (o, n)
                for e, f in zip(refs[o].edges, refs[n].edges):
                    for i, (v, w) in enumerate(zip(e['m'], f['m'])):
                        if v != w:
                            s += ' %d,%d,%r' % (e['idx'], i, w)
                s += '\ndump g%d\n' % n
            else:
                s += 'drop g%d\nload g%d cfg%d.yaml\ndump g%d\n' % (o, n, n, n)
            live.discard(o)
            live.add(n)
        if only is None or k == only:
            s += '%s %d g%d r%d %d %d\n' % ('x' if x else 'q', tid, g, r, a, b)
            open_ = True
    return s + 'run\n'


def chain(rng, gs, ch, **kw):
    """Some graphs are freed and replaced by others while the routing objects live on, or get other weights."""
    if rng.random() < .6:
        return
    for _ in range(rng.choice([1, 1, 2, 3])):
        o = rng.choice([k for k in range(len(gs)) if all(x.get('after') != k for x in gs)])
        old = gs[o]
        if not ch and not old['norm'] and rng.random() < .5:
            # other weights; edges keep their order
            pairs = [(e[1], e[2]) for e in old['g']['edges']]
            if len(set(pairs)) < len(pairs):
                continue
            es = [list(e) for e in old['g']['edges']]
            vs = [e[3] for e in es]
            if rng.random() < .5:
                rng.shuffle(vs)
            for e, v in zip(es, vs):
                e[3] = [rng.choice([x, x, x + 1, x * 2, .25]) for x in v]
            new = dict(old, g=dict(old['g'], edges=es), edit=True)
        elif not ch and rng.random() < .6:
            # same nodes and number of edges, other edges
            es = [list(e) for e in old['g']['edges']]
            ids = sorted({e[1] for e in es} | {e[2] for e in es})
            for e in es:
                if rng.random() < .4:
                    e[rng.choice([1, 2])] = rng.choice(ids)
                e[3] = [x if rng.random() < .7 else x + rng.choice([.25, 1, 7]) for x in e[3]]
            new = dict(old, g=dict(old['g'], edges=[e for e in es if e[1] != e[2]] or old['g']['edges']))
            new.pop('edit', None)
        else:
            new = graph(rng, ch, dim=old['g']['dim'], **kw)
        new['after'] = o
        gs.append(new)


def ask(rng, scn):
    """Some queries are put to the program, too."""
    if rng.random() < .12:
        scn['cli'] = rng.getrandbits(20)
        scn['plans']['cli'] = noise(rng, clocks(rng, sched(rng, False)), heavy=rng.random() < .3, write=False)


def chained(scn):
    """The queries in an order in which replaced graphs are not asked any more."""
    gs = scn['graphs']
    if all(x.get('after') is None for x in gs):
        return
    n = len(scn['queries'])
    # every graph of a chain gets its time
    start, end = {}, {}
    for k, x in enumerate(gs):
        o = x.get('after')
        start[k] = 0 if o is None else None
        end[k] = n
    for k, x in enumerate(gs):
        if x.get('after') is not None:
            o = x['after']
            start[k] = (start[o] + n) // 2
            end[o] = start[k]
    out = []
    for k, q in enumerate(scn['queries']):
        if start[q[1]] <= k < end[q[1]]:
            out.append(q)
            continue
        # the member of its chain which is there at this time
        root = q[1]
        while gs[root].get('after') is not None:
            root = gs[root]['after']
        m = root
        while not start[m] <= k < end[m]:
            m = next(j for j, x in enumerate(gs) if x.get('after') == m)
        ids = {e[1] for e in gs[m]['g']['edges']} | {e[2] for e in gs[m]['g']['edges']}
        r = [j for j, (g, c) in enumerate(scn['at']) if g == m]
        if q[3] in ids and q[4] in ids and r:
            out.append([q[0], m, r[k % len(r)]] + q[3:])
        elif r:
            ids = sorted(ids)
            out.append([q[0], m, r[k % len(r)], ids[q[3] % len(ids)], ids[q[4] % len(ids)]] + q[5:])
    scn['queries'] = out or scn['queries'][:1]


class Walk:
    """Follows the paths of answers in the graph the library has."""
    def __init__(self, ref, dump):
        self.ref, self.d = ref, dump
        self.cache = {}

    def dists(self, s, al):
        k = (s, tuple(al))
        if k not in self.cache:
            self.cache[k] = self.ref.dists(s, al)
        return self.cache[k]

    def follow(self, path, s, t, flat):
        """(costs, complaint) of an answered path."""
        src, dst, es = path
        ids = self.ref.ids
        if not (0 <= src < len(ids) and 0 <= dst < len(ids)) or (ids[src], ids[dst]) != (s, t):
            return None, 'leads from node-index %d to %d' % (src, dst)
        at = src
        c = [0.0] * self.ref.dim
        for k in es:
            if not 0 <= k < len(self.d.edges):
                return None, 'uses edge %d, which does not exist' % k
            e = self.d.edges[k]
            if e['src'] != at:
                return None, 'is not contiguous: edge %d (%d->%d) follows node-index %d' % (k, e['src'], e['dst'], at)
            if flat and e['is_sc']:
                return None, 'still contains the shortcut %d' % k
            at = e['dst']
            c = [x + y for x, y in zip(c, e['m'])]
        if at != dst:
            return None, 'ends at node-index %d instead of %d' % (at, dst)
        return c, None


def tol_of(x, path):
    """Accuracy of comparing costs: exact values differ by at least 1/4, normalised ones only by the documented accuracy per edge."""
    return 1e-6 if not x['norm'] else 2e-6 * (len(path) + 4)


def valid(scn):
    for x in scn['graphs']:
        ids = {e[1] for e in x['g']['edges']} | {e[2] for e in x['g']['edges']}
        if not ids or not ids <= {y[0] for y in x['g']['nodes']}:
            return False
    gone = set()
    for _, g, r, a, b, _ in scn['queries']:
        if g in gone:
            return False
        while scn['graphs'][g].get('after') is not None:
            gone.add(scn['graphs'][g]['after'])
            g = scn['graphs'][g]['after']
    for _, g, r, a, b, _ in scn['queries']:
        ids = {e[1] for e in scn['graphs'][g]['g']['edges']} | {e[2] for e in scn['graphs'][g]['g']['edges']}
        if a not in ids or b not in ids:
            return False
    return bool(scn['queries'])


NODES = r'from \(Node: \{ id: (-?\d+), .*?\) to \(Node: \{ id: (-?\d+), '


def told(text, ex):
    """Answers in the messages of the program: [source, destination, costs]; None if nothing is recognised."""
    out = []
    n = 0
    for l in text.split('\n'):
        m = re.search(r'No path (?:found )?' + NODES, l)
        if m:
            out.append([int(m.group(1)), int(m.group(2)), []])
            continue
        m = re.search(r'Path costs \[(.*?)\] ' + NODES, l)
        if m and not ex:
            out.append([int(m.group(2)), int(m.group(3)), [tuple(map(float, m.group(1).split(',')))]])
            continue
        m = re.search(r'Found (\d+) path', l)
        if m and ex:
            n = int(m.group(1))
            out.append([None, None, []])
            continue
        m = re.search(r'\{ src-id: (-?\d+), dst-id: (-?\d+), costs: Some\(\[(.*?)\]\)|\{ src-id: (-?\d+), dst-id: (-?\d+), costs: \[(.*?)\]', l)
        if m and ex and out:
            s, d, c = m.groups()[:3] if m.group(1) else m.groups()[3:]
            out[-1][:2] = [int(s), int(d)]
            out[-1][2].append(tuple(map(float, c.split(','))))
    return [tuple(x) for x in out] or None


class Route(Prop):
    stub = STUB
    real = REAL
    wall = {'quick': 240, 'thorough': 3000}

    def shrink_lists(self, scn):
        return [['queries']] + [['graphs', k, 'g', l] for k, x in enumerate(scn['graphs'])
                                if not x['ch'] and not x.get('edit') and not any(y.get('edit') and y['after'] == k for y in scn['graphs']) for l in ('edges', 'nodes')]

    def valid(self, scn):
        return valid(scn)

    def nontrivial(self, scn, s):
        return s['measure'].get('answers', 0) > 0

    def answers(self, scn, W, key='run', only=None, env=None):
        refs = []
        head = setup(scn, W, refs)
        r = W.api(script(scn, head, refs, only), key, env=env)
        graphs, failed, res, ended = model.parse_api(r.out)
        if r.hung:
            return None, [V('hang', 'the queries never end: ' + r.how())]
        asked = {q[1] for k, q in enumerate(scn['queries'])}
        if not r.ok or not ended or failed or any('g%d' % k not in graphs for k in asked):
            return None, [V('fails', 'the queries fail: %s %s' % (r.how(), failed))]
        walks = []
        for k, ref in enumerate(refs):
            if 'g%d' % k not in graphs:
                walks.append(None)
                continue
            d = model.compare(ref, graphs['g%d' % k])
            if d:
                return None, [V('graph', d[0])]
            walks.append(Walk(ref, graphs['g%d' % k]))
        return (walks, res), []

    def path(self, scn, W, walks, q, p):
        """Checks one answered path: (costs, complaints)."""
        tid, g, r, a, b, x = q
        w = walks[g]
        raw, flat, costs = p
        c, bad = w.follow(raw, a, b, False)
        if bad:
            return None, [V('path', 'the route %d->%d %s' % (a, b, bad))]
        f, bad = w.follow(flat, a, b, True)
        if bad:
            return None, [V('unpack', 'the unpacked route %d->%d %s' % (a, b, bad))]
        t = tol_of(scn['graphs'][g], flat[2])
        if not all(model.close(p, q, 1e-7, t) for p, q in zip(c, f)):
            return None, [V('unpack', 'the route %d->%d costs %s, unpacked %s' % (a, b, c, f))]
        if len(costs) != len(f) or not all(model.close(p, q, 1e-9, 1e-6) for p, q in zip(costs, f)):
            return None, [V('costs', 'the route %d->%d tells costs %s, but its edges cost %s' % (a, b, costs, f))]
        return f, []

    def printed(self, scn, W, res, env=None):
        """The program answers some of the queries of one kind in one run; it has to print what was answered (and checked) already."""
        if scn.get('cli') is None:
            return []
        _, g, r, _, _, ex = scn['queries'][scn['cli'] % len(scn['queries'])]
        x = scn['graphs'][g]
        if x.get('edit'):
            return []
        ks = [k for k, q in enumerate(scn['queries']) if (q[1], q[2], q[5]) == (g, r, ex)][:40]
        algo, al, tol = scn['rcfgs'][r]
        algo = {'d': 'Dijkstra', 'ch': 'CHDijkstra'}[algo]
        ms = [dict({'id': 'm%d' % i, 'alpha': a}, **({} if t is None else {'tolerated-scale': t})) for i, (a, t) in enumerate(zip(al, tol)) if a > 0]
        W.write('trips.route-pairs', gen.route_pairs_text([[*scn['queries'][k][3:5], 1 + k % 3] for k in ks], scn['cli']))
        W.write('cli.yaml', gen.yaml({'parsing': gen.parsing('map%d.fmi' % g, x['nc'], x['ec'], x['units'], normalize=x['norm'] or None),
                                      'routing': {'route-pairs-file': 'trips.route-pairs', 'algorithm': {'Explorator': {'algo': algo}} if ex else algo, 'metrics': ms}}, scn['cli']))
        o = W.run('cli', ['-c', 'cli.yaml', '-l', 'INFO', '--routing'], 'cli', env=env)
        if o.hung:
            return [V('hang', 'routing never ends: ' + o.how())]
        if not o.ok:
            return [V('fails', 'routing fails: ' + o.how())]
        have = told(o.out + o.err, ex)
        if have is None:
            return []   # in other words than known here
        W.count('printed', len(have))
        want = [(*scn['queries'][k][3:5], sorted(tuple(p[2]) for p in res[k])) for k in ks]
        if len(have) != len(want):
            return [V('printed', 'the program prints %d answers for %d queries' % (len(have), len(want)))]
        for a, b in zip(have, want):
            same = len(a[2]) == len(b[2]) and all(len(u) == len(v) and all(model.close(m, n, 1e-9, 1e-6) for m, n in zip(u, v)) for u, v in zip(sorted(a[2]), b[2]))
            if (a[0] not in (None, b[0])) or (a[1] not in (None, b[1])) or not same:
                return [V('printed', 'the program prints %s for the query answered by %s' % (a, b))]
        return []

    def best(self, scn, W, walks, q, ps):
        """Checks the answer of a shortest-path query."""
        tid, g, r, a, b, x = q
        w = walks[g]
        al = scn['rcfgs'][r][1]
        W.count('answers')
        d = w.dists(a, al)
        if not ps:
            if b in d:
                return [V('missed', 'no route %d->%d is found, but there is one of cost %r' % (a, b, d[b]))]
            W.count('unconnected')
            return []
        if b not in d:
            return [V('invented', 'a route %d->%d is found, but there is none' % (a, b))]
        c, bad = self.path(scn, W, walks, q, ps[0])
        if bad:
            return bad
        have = sum(x * y for x, y in zip(al, c))
        if not model.close(have, d[b], 1e-9, tol_of(scn['graphs'][g], ps[0][1][2]) * max(1.0, sum(al))):
            return [V('optimal', 'the route %d->%d costs %r, the cheapest one %r' % (a, b, have, d[b]))]
        return []


class C10(Route):
    id = 'C10'
    counts = {'quick': 3000, 'thorough': 60000}
    rule = 'distinct (scenario, execution hash) with answered queries; most with several threads on shared graphs and with changes of the graph between queries of one object'
    assumptions = ['weights are non-negative', 'sequentially consistent memory']

    def gen(self, rng, i, tier):
        if rng.random() < .12 and i % 1500 != 7:
            # plain and hierarchical queries of the same objects
            scn = C11.gen(self, rng, i, tier)
            scn['plans']['alone'] = {'seed': 1}
            return dict(scn, alone=rng.random() < .3, pick=rng.randrange(1000))
        gs = [graph(rng, False, n=rng.choice([2, 3, rng.randint(3, 10), rng.randint(8, 30), rng.randint(30, 80)]), loops=rng.random() < .2) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        chain(rng, gs, False, n=rng.choice([3, 10, 20]))
        rc = []
        for _ in range(rng.randint(1, 3)):
            al = [rng.choice([0, 0, 1, 1, 2, .5, 10]) * 1.0 for _ in range(5)]
            rc.append(al if any(al) else [1.0] * 5)
        rcfgs, at = [], {}
        for k, x in enumerate(gs):
            for j, al in enumerate(rc):
                at[k, j] = len(rcfgs)
                rcfgs.append(['d', al[:x['g']['dim']], [None] * x['g']['dim']])
        T = rng.choice([1, 2, 2, 3, 4])
        qs = []
        for _ in range(rng.choice([1, 2, 5, rng.randint(5, 25), rng.randint(10, 60)])):
            k = rng.randrange(len(gs))
            g = gs[k]['g']
            qs.append([rng.randrange(T), k, at[k, rng.randrange(len(rc))], *ends(rng, g), 0])
            if rng.random() < .1:
                qs.append(list(qs[-1]))
        if i % 1500 == 7:
            # counters of two bytes
            gs = [graph(rng, False, n=rng.randint(6, 14), kind='unique')]
            rcfgs, at = [['d', [1.0] * gs[0]['g']['dim'], [None] * gs[0]['g']['dim']]], {(0, 0): 0}   # one graph
            qs = history(rng, gs, 65_560, lambda k, t, a, b: [t, k, 0, a, b, 0], period=65_536)
        elif rng.random() < .06:
            qs = history(rng, gs, rng.choice([280, 600, 900]), lambda k, t, a, b: [t, k, at[k, rng.randrange(len(rc))], a, b, 0])
        p = noise(rng, sched(rng), heavy=rng.random() < .1, write=False)
        if len(qs) > 200:
            p['maxev'] = 3_000_000_000
        scn = dict(graphs=gs, rcfgs=rcfgs, queries=qs, plans={'run': p, 'alone': {'seed': 1}}, alone=rng.random() < .3, pick=rng.randrange(1000))
        scn['at'] = [[g, j] for g, j in at]
        chained(scn)
        ask(rng, scn)
        return scn

    def judge(self, scn, W):
        out, bad = self.answers(scn, W)
        if bad:
            return bad
        walks, res = out
        for k, q in enumerate(scn['queries']):
            if k not in res:
                return [V('lost', 'query %d is not answered' % k)]
            bad = self.best(scn, W, walks, q, res[k])
            if bad:
                return bad
        if scn['alone']:
            k = scn['pick'] % len(scn['queries'])
            out, bad = self.answers(scn, W, 'alone', k)
            if bad:
                return bad
            a, b = res[k], out[1].get(0, [])
            if [p[2] for p in a] != [p[2] for p in b]:
                return [V('history', 'the route %d->%d costs %s after other queries, and %s alone' % (*scn['queries'][k][3:5], [p[2] for p in a], [p[2] for p in b]))]
            W.count('compared_alone')
        return self.printed(scn, W, res)


class C11(Route):
    id = 'C11'
    counts = {'quick': 4000, 'thorough': 60000}
    rule = 'distinct (scenario, execution hash) with answered queries on contracted graphs'
    assumptions = ['weights are non-negative', 'hierarchies are built by our own contraction (any order, any share of the nodes; the rest keeps the highest level)']

    def gen(self, rng, i, tier):
        gs = [graph(rng, True, n=rng.choice([2, 3, rng.randint(3, 10), rng.randint(8, 30)]), dim=rng.choice([1, 1, 2, 3, 4])) for _ in range(rng.choice([1, 1, 1, 2]))]
        chain(rng, gs, True, n=rng.choice([3, 8, 16]))
        rc = []
        for _ in range(rng.randint(1, 3)):
            al = [rng.choice([0, 1, 1, 2, .5, 10]) * 1.0 for _ in range(5)]
            rc.append(al if any(al) else [1.0] * 5)
        rcfgs, at = [], {}
        for k, x in enumerate(gs):
            for j, al in enumerate(rc):
                for algo in ('ch', 'd'):
                    at[k, j, algo] = len(rcfgs)
                    rcfgs.append([algo, al[:x['g']['dim']], [None] * x['g']['dim']])
        T = rng.choice([1, 2, 2, 3, 4])
        qs = []
        for _ in range(rng.choice([2, 5, rng.randint(5, 25), rng.randint(20, 60)])):
            k = rng.randrange(len(gs))
            g = gs[k]['g']
            qs.append([rng.randrange(T), k, at[k, rng.randrange(len(rc)), rng.choice(['ch', 'ch', 'ch', 'd'])], *ends(rng, g), 0])
        if rng.random() < .04:
            qs = history(rng, gs, rng.choice([280, 600, 900]), lambda k, t, a, b: [t, k, at[k, rng.randrange(len(rc)), rng.choice(['ch', 'ch', 'ch', 'd'])], a, b, 0])
        scn = dict(graphs=gs, rcfgs=rcfgs, queries=qs, plans={'run': dict(noise(rng, sched(rng), heavy=rng.random() < .1, write=False), **({'maxev': 3_000_000_000} if len(qs) > 200 else {}))})
        scn['at'] = [[g, j] for g, j, _ in at]
        chained(scn)
        ask(rng, scn)
        return scn

    def judge(self, scn, W):
        out, bad = self.answers(scn, W)
        if bad:
            return bad
        walks, res = out
        origs = {}
        for k, q in enumerate(scn['queries']):
            if k not in res:
                return [V('lost', 'query %d is not answered' % k)]
            bad = self.best(scn, W, walks, q, res[k])
            if bad:
                return bad
            # against the original map
            tid, g, r, a, b, _ = q
            x = scn['graphs'][g]
            if res[k] and any(walks[g].d.edges[e]['is_sc'] for e in res[k][0][0][2]):
                W.count('with_shortcuts')
            if x['norm'] or not res[k]:
                continue
            if g not in origs:
                origs[g] = Walk(model.Ref(x['orig']), None)
            al = scn['rcfgs'][r][1]
            have = sum(p * c for p, c in zip(al, res[k][0][2]))
            d = origs[g].dists(a, al)
            if not model.close(have, d[b], 1e-9, 1e-5):
                return [V('optimal', 'the route %d->%d costs %r in the contracted map, %r in the original' % (a, b, have, d[b]))]
        return self.printed(scn, W, res)


def pareto(ref, s, t, dims, cap=400):
    """Cost vectors (of some metrics) of all routes which no other one beats; None if there are too many."""
    labels = {s: [tuple([0.0] * len(dims))]}
    todo = [(s, labels[s][0])]
    n = 0
    while todo:
        v, c = todo.pop()
        if c not in labels[v]:
            continue
        for e in ref.out[v]:
            x = tuple(a + e['m'][k] for a, k in zip(c, dims))
            L = labels.setdefault(e['dst'], [])
            if any(all(p <= q for p, q in zip(y, x)) for y in L):
                continue
            L[:] = [y for y in L if not all(p <= q for p, q in zip(x, y))]
            L.append(x)
            n += 1
            if n > 20 * cap or len(L) > cap:
                return None
            todo.append((e['dst'], x))
    return labels.get(t, [])


def corners(front):
    """Routes of a front of two metrics which are clearly the cheapest ones for some weights (which sum up to one): (weights, costs)."""
    pts = sorted(set(front))
    hull = []
    for p in pts:
        while len(hull) > 1 and (hull[-1][0] - hull[-2][0]) * (p[1] - hull[-2][1]) - (hull[-1][1] - hull[-2][1]) * (p[0] - hull[-2][0]) <= 0:
            hull.pop()
        hull.append(p)
    out = []
    for l, m, r in zip(hull, hull[1:], hull[2:]):
        dx, dy = r[0] - l[0], l[1] - r[1]
        if dx <= 0 or dy <= 0:
            continue
        al = (dy / (dx + dy), dx / (dx + dy))
        if al[0] * l[0] + al[1] * l[1] - al[0] * m[0] - al[1] * m[1] > 1e-2:
            out.append((al, m))
    return out


class C12(Route):
    id = 'C12'
    counts = {'quick': 4000, 'thorough': 60000}
    rule = 'distinct (scenario, execution hash) with answered queries for alternatives between different, connected nodes'
    stub = STUB + [TRI]
    assumptions = ['weights are non-negative', 'the hull library returns the facets of the convex hull, in any order']

    def gen(self, rng, i, tier):
        ch = rng.random() < .35
        gs = [graph(rng, ch, n=rng.choice([3, rng.randint(4, 10), rng.randint(8, 20), rng.randint(10, 26)]), dim=rng.choice([1, 2, 2, 3, 3, 3, 4, 4]), kind=rng.choice(['unique', 'unique', 'mid', 'small', 'tie']))
              for _ in range(rng.choice([1, 1, 1, 2]))]
        chain(rng, gs, ch, n=rng.choice([3, 8, 16]), kind=rng.choice(['unique', 'mid', 'tie']))
        rcfgs, at = [], {}
        nr = rng.randint(1, 3)
        for k, x in enumerate(gs):
            dim = x['g']['dim']
            for j in range(nr):
                al = [rng.choice([0, 1, 1, 1, 2, .5, .0625]) * 1.0 for _ in range(dim)]
                if not any(al):
                    al = [1.0] * dim
                two = dim > 1 and rng.random() < .35
                if two:
                    # exactly two metrics of all
                    al = [rng.choice([1.0, 2.0, .5]) if j in (0, rng.randint(1, dim - 1)) else 0.0 for j in rng.sample(range(dim), dim)]
                    if sum(a > 0 for a in al) < 2:
                        al = [1.0 if j < 2 else 0.0 for j in range(dim)]
                tol = [rng.choice([None, 1.0, 1.1, 1.25, 1.5, 2.0, 5.0]) if a and rng.random() < .6 else None for a in al] if rng.random() < (.5 if not two else .15) else [None] * dim
                at[k, j] = len(rcfgs)
                rcfgs.append([rng.choice(['ch', 'd']) if x['ch'] else 'd', al, tol])
        T = rng.choice([1, 2, 2, 3, 4])
        qs = []
        for _ in range(rng.choice([1, 2, 4, rng.randint(3, 12)])):
            k = rng.randrange(len(gs))
            g = gs[k]['g']
            qs.append([rng.randrange(T), k, at[k, rng.randrange(nr)], *ends(rng, g), 0 if rng.random() < .15 else 1])
        if rng.random() < .015:
            qs = history(rng, gs, rng.choice([270, 300]), lambda k, t, a, b: [t, k, at[k, rng.randrange(nr)], a, b, 0 if rng.random() < .15 else 1])
        scn = dict(graphs=gs, rcfgs=rcfgs, queries=qs, tri=rng.choice([0, rng.getrandbits(32)]), alone=rng.random() < .3, pick=rng.randrange(1000),
                    plans={'run': dict(noise(rng, sched(rng), heavy=rng.random() < .05, write=False), **({'maxev': 3_000_000_000} if len(qs) > 200 else {})), 'alone': {'seed': 1}})
        scn['at'] = [[g, j] for g, j in at]
        chained(scn)
        ask(rng, scn)
        return scn

    def judge(self, scn, W):
        env = {'SIM_TRI_SEED': str(scn['tri'])}
        out, bad = self.answers(scn, W, env=env)
        if bad:
            return bad
        walks, res = out
        for k, q in enumerate(scn['queries']):
            if k not in res:
                return [V('lost', 'query %d is not answered' % k)]
            bad = self.alternatives(scn, W, walks, q, res[k]) if q[5] else self.best(scn, W, walks, q, res[k])
            if bad:
                return bad
        if scn['alone']:
            k = scn['pick'] % len(scn['queries'])
            out, bad = self.answers(scn, W, 'alone', k, env=env)
            if bad:
                return bad
            a, b = res[k], out[1].get(0, [])
            if sorted(p[2] for p in a) != sorted(p[2] for p in b):
                return [V('history', 'the routes %d->%d cost %s after other queries, and %s alone' % (*scn['queries'][k][3:5], [p[2] for p in a], [p[2] for p in b]))]
            W.count('compared_alone')
        return self.printed(scn, W, res, env)

    def alternatives(self, scn, W, walks, q, ps):
        tid, g, r, a, b, _ = q
        w = walks[g]
        x = scn['graphs'][g]
        _, al, tol = scn['rcfgs'][r]
        dims = [k for k, v in enumerate(al) if v > 0]
        cs = []
        for p in ps:
            c, bad = self.path(scn, W, walks, q, p)
            if bad:
                return bad
            cs.append(c)
        W.count('answers')
        unit = [[1.0 if j == k else 0.0 for j in range(len(al))] for k in range(len(al))]
        best = {k: w.dists(a, unit[k]).get(b) for k in dims}
        conn = best[dims[0]] is not None
        if ps and not conn:
            return [V('invented', 'routes %d->%d are found, but there are none' % (a, b))]
        if not conn:
            W.count('unconnected')
            return []
        if a == b:
            return []
        W.count('connected')
        W.count('alternatives', len(ps))
        eps = max([tol_of(x, p[1][2]) for p in ps] or [1e-6])
        limit = {k: (None if tol[k] is None else best[k] * tol[k]) for k in dims}
        for p, c in zip(ps, cs):
            for k in dims:
                if limit[k] is not None and c[k] > limit[k] + max(eps, 2e-6) * (1 + tol[k]):
                    return [V('tolerance', 'an alternative %d->%d costs %r in metric %d, tolerated is %r' % (a, b, c[k], k, limit[k]))]
        for j in range(len(cs)):
            for k in range(j):
                if all(abs(p - q) <= 5e-7 for p, q in zip(cs[j], cs[k])):
                    return [V('twice', 'two alternatives %d->%d cost the same: %s' % (a, b, cs[j]))]
        front = pareto(w.ref, a, b, dims)
        if front is not None:
            W.count('compared_with_all_routes')
            for c in cs:
                for f in front:
                    if all(f[j] < c[k] - 1e-5 - eps for j, k in enumerate(dims)):
                        return [V('beaten', 'the alternative %d->%d of costs %s is beaten by a route of costs %s' % (a, b, c, f))]
        def covers(al):
            d = w.dists(a, al)[b]
            return any(sum(p * q for p, q in zip(al, c)) <= d + eps * 2 * max(1, sum(al)) for c in cs)
        if all(tol[k] is None for k in dims):
            if not ps:
                return [V('missed', 'no route %d->%d is found, but there is one' % (a, b))]
            for k in dims:
                if not covers(unit[k]):
                    return [V('incomplete', 'no alternative %d->%d is cheapest in metric %d (%r)' % (a, b, k, best[k]))]
            if not covers([1.0 if k in dims else 0.0 for k in range(len(al))]):
                return [V('incomplete', 'no alternative %d->%d is cheapest for equal weights' % (a, b))]
            if len(dims) == 2 and front is not None and any(abs((c[dims[0]] - cs[0][dims[0]]) * (d[dims[1]] - cs[0][dims[1]]) - (c[dims[1]] - cs[0][dims[1]]) * (d[dims[0]] - cs[0][dims[0]])) > 1e-2
                                                            for c in cs[1:] for d in cs[1:]):
                W.count('fronts')
                for al2, f in corners(front):
                    z = [0.0] * len(al)
                    for k, v in zip(dims, al2):
                        z[k] = v
                    W.count('corners')
                    if not covers(z):
                        return [V('hull', 'no alternative %d->%d is cheapest for the weights %s, but costs %s are possible' % (a, b, z, f))]
        elif not ps:
            # nothing tolerated: then the cheapest route of every single metric must break a tolerance.  Ties may hide
            # tolerated ones, so this is decided only where each of these routes is the only one of its kind.
            for k in dims:
                p = w.ref.unique_path(a, b, [1.0 if j == k else 0.0 for j in range(len(al))])
                if p is None:
                    continue
                c = [sum(e['m'][j] for e in p) for j in range(len(al))]
                if all(limit[j] is None or c[j] <= limit[j] * (1 - 1e-6) - 1e-6 * 1 for j in dims if j != k):
                    return [V('missed', 'no route %d->%d is offered, but one of costs %s is tolerated' % (a, b, c))]
        return []

    def nontrivial(self, scn, s):
        return s['measure'].get('connected', 0) > 0
