"""Generates maps, route-pairs and configs.  Everything is explicit in the scenario (JSON)."""
import json, math, random

DIST = ('Meters', 'Kilometers')
TIME = ('Seconds', 'Minutes', 'Hours')
UNITS = DIST + TIME + ('KilometersPerHour', 'LaneCount', 'F64')


def metric(rng, kind):
    """Values are multiples of 1/4 and small enough that sums of them are exact in f64 (but the last two kinds)."""
    if kind == 'unique':
        return rng.randint(4, 4_000_000) / 4
    if kind == 'tie':
        return rng.choice([1.0, 1.0, 2.0, 3.0])
    if kind == 'small':
        return rng.randint(4, 40) / 4
    if kind == 'precise':
        # as measured or computed by someone: all digits count, sums are no longer exact
        return rng.uniform(.5, 1000)
    if kind == 'wide':
        return rng.choice([10 ** rng.uniform(-2, 8), round(10 ** rng.uniform(-2, 8), rng.randint(2, 9))])
    return rng.randint(4, 4000) / 4


def coords(rng):
    return round(rng.uniform(-89, 89), rng.choice([1, 4, 7])), round(rng.uniform(-179, 179), rng.choice([1, 4, 7]))


def near(rng, c, d=.3):
    return round(c[0] + rng.uniform(-d, d), 7), round(c[1] + rng.uniform(-d, d), 7)


def node_ids(rng, n):
    k = rng.choice(['dense', 'sparse', 'neg', 'big'] if rng.random() < .95 else ['huge'])
    if k == 'dense':
        return list(range(n))
    lo, hi = {'sparse': (0, 50 * n), 'neg': (-20 * n, 20 * n), 'big': (10**9, 6 * 10**9), 'huge': (-2**60, 2**62)}[k]
    s = set()
    while len(s) < n:
        s.add(rng.randint(lo, hi))
    return sorted(s)


def graph(rng, n=None, m=None, dim=None, kind=None, edge_ids=None, shape=None, multi=True, loops=False, corner=False):
    """A map: nodes [id, lat, lon, level] and edges [id, src, dst, metrics, shortcut] in file order."""
    n = n or rng.randint(2, 24)
    dim = dim or rng.randint(1, 4)
    kind = kind or rng.choice(['unique', 'tie', 'small', 'mid'])
    shape = shape or rng.choice(['random', 'random', 'grid', 'line', 'dag', 'islands', 'star'])
    ids = node_ids(rng, n)
    center = (rng.uniform(-60, 60), rng.uniform(-150, 150))
    if rng.random() < .1:
        center = rng.choice([(0.0, 0.0), (51.5, 0.0), (0.0, 9.0)])
    nodes = []
    # a region, one block of houses (with several nodes at one place), or half a continent
    d = .3 if rng.random() < .85 else rng.choice([5e-5, 3e-7, 20.0])
    twins = rng.random() < .15
    for i in ids:
        la, lo = near(rng, center, d)
        if twins and nodes and rng.random() < .5:
            x = rng.choice(nodes)
            la, lo = near(rng, (x[1], x[2]), rng.choice([1e-7, 2e-5, 2e-4]))
        if corner and rng.random() < .3:
            la, lo = rng.choice([(90.0, lo), (-90.0, lo), (la, 180.0), (la, -180.0), (0.0, 0.0), (la, 0.0), (0.0, lo), (-1e-7, 1e-7)])
        nodes.append([i, la, lo, 0])
    pairs = []
    if shape == 'grid':
        w = max(1, int(math.sqrt(n)))
        for k in range(n):
            for j in ((k + 1) if (k + 1) % w else None, k + w):
                if j is not None and j < n:
                    pairs.append((k, j))
                    if rng.random() < .8:
                        pairs.append((j, k))
    elif shape == 'line':
        for k in range(n - 1):
            pairs.append((k, k + 1))
            if rng.random() < .5:
                pairs.append((k + 1, k))
    elif shape == 'star':
        for k in range(1, n):
            if rng.random() < .6:
                pairs.append((0, k))
            if rng.random() < .6:
                pairs.append((k, 0))
    m = m if m is not None else rng.randint(max(1, n // 2), 3 * n)
    tries = 0
    while len(pairs) < m and tries < 20 * m + 50:
        tries += 1
        a, b = rng.randrange(n), rng.randrange(n)
        if a == b and not (loops and rng.random() < .3):
            continue
        if shape == 'dag' and a > b:
            a, b = b, a
        if shape == 'islands' and (a * 3 // n) != (b * 3 // n):
            continue
        if not multi and (a, b) in pairs:
            continue
        pairs.append((a, b))
    if not multi:
        pairs = list(dict.fromkeys(pairs))
    if not pairs:
        pairs = [(0, 1)]
    rng.shuffle(pairs)
    eids = None
    if edge_ids if edge_ids is not None else rng.random() < .5:
        k = rng.choice(['seq', 'rand', 'rev'])
        eids = list(range(len(pairs))) if k == 'seq' else list(range(len(pairs), 0, -1)) if k == 'rev' else rng.sample(range(10 * len(pairs) + 10 if rng.random() < .9 else 2**61), len(pairs))
    edges = [[eids[k] if eids else None, ids[a], ids[b], [metric(rng, kind) for _ in range(dim)], None] for k, (a, b) in enumerate(pairs)]
    used = {e[1] for e in edges} | {e[2] for e in edges}
    nodes = [x for x in nodes if x[0] in used or rng.random() < .5]
    rng.shuffle(nodes)
    return {'nodes': nodes, 'edges': edges, 'dim': dim}


def contract(rng, g, ratio=1.0, max_edges=3000, share=False):
    """A contraction hierarchy of a map for all non-negative weightings: contracted nodes get their
    rank as level, the core the highest one; shortcuts name the positions of the edges they skip."""
    ids = sorted({e[1] for e in g['edges']} | {e[2] for e in g['edges']})
    edges = [list(e[:4]) + [None] for e in g['edges']]
    live = set(ids)
    level = {i: 0 for i in ids}
    out, inn = {i: set() for i in ids}, {i: set() for i in ids}
    for k, e in enumerate(edges):
        if e[1] != e[2]:
            out[e[1]].add(k)
            inn[e[2]].add(k)
    todo = int(len(ids) * ratio)
    rank, same = 0, []
    # tools that contract in rounds give one level to many nodes, others leave gaps
    rounds = rng.random() < .3
    gaps = rng.choice([[1], [1], [1], [1, 2, 1000], [1, 70000], [1, 300, 2**33]])
    nid = max([e[0] for e in edges if e[0] is not None] or [0]) + 1
    anyorder = rng.random() < .4
    for _ in range(todo):
        def cost(v):
            return (len([k for k in inn[v] if edges[k][1] in live]) * len([k for k in out[v] if edges[k][2] in live]), rng.random())
        v = rng.choice(sorted(live)) if anyorder else min(sorted(live), key=cost)
        if cost(v)[0] + len(edges) > max_edges:
            break
        live.discard(v)
        if not (rounds and same and rng.random() < .7 and all(edges[k][1] not in same for k in inn[v]) and all(edges[k][2] not in same for k in out[v])):
            rank, same = rank + (rng.choice(gaps) if same else 0), []
        level[v] = rank
        same.append(v)
        for a in sorted(inn[v]):
            u = edges[a][1]
            if u not in live:
                continue
            for b in sorted(out[v]):
                w = edges[b][2]
                if w not in live or w == u:
                    continue
                m = [x + y for x, y in zip(edges[a][3], edges[b][3])]
                if any(edges[k][2] == w and all(x <= y for x, y in zip(edges[k][3], m)) for k in out[u]):
                    continue
                edges.append([nid if edges[a][0] is not None else None, u, w, m, [a, b]])
                nid += 1
                out[u].add(len(edges) - 1)
                inn[w].add(len(edges) - 1)
    top = rank + (1 if same else 0) + rng.randint(0, 3)
    nodes = []
    for x in g['nodes']:
        nodes.append([x[0], x[1], x[2], top if x[0] in live else level.get(x[0], 0)])
    # the order of lines is not the order of contraction
    perm = list(range(len(edges)))
    if rng.random() < .7:
        rng.shuffle(perm)
    pos = {old: new for new, old in enumerate(perm)}
    es = []
    for old in perm:
        e = list(edges[old])
        if e[4]:
            e[4] = [pos[e[4][0]], pos[e[4][1]]]
        es.append(e)
    return {'nodes': nodes, 'edges': es, 'dim': g['dim']}


# ------------------------------------------------------------------ text maps
def default_cols(g, level=False, sc=False, eid=None):
    eid = any(e[0] is not None for e in g['edges']) if eid is None else eid
    n = ['id', 'lat', 'lon'] + (['level'] if level else [])
    e = (['id'] if eid else []) + ['src', 'dst'] + ['m%d' % i for i in range(g['dim'])] + (['sc0', 'sc1'] if sc else [])
    return n, e


def shuffle_cols(rng, n, e):
    n, e = list(n), list(e)
    rng.shuffle(n)
    m = [c for c in e if c[0] == 'm']
    rest = [c for c in e if c[0] != 'm'] + ['m'] * len(m)
    rng.shuffle(rest)
    it = iter(m)  # metrics keep their order
    e = [next(it) if c == 'm' else c for c in rest]
    for l in (n, e):
        for _ in range(rng.randint(0, 2)):
            l.insert(rng.randrange(len(l) + 1), 'ign')
    return n, e


def num(x):
    return repr(x) if not float(x).is_integer() or abs(x) > 1e15 else ('%d' % x)


def ncell(c, x):
    return {'id': lambda: str(x[0]), 'lat': lambda: num(x[1]), 'lon': lambda: num(x[2]), 'level': lambda: str(x[3]), 'ign': lambda: '_'}[c]()


def ecell(c, e):
    if c == 'id':
        return ('ch%d' % e[0]) if len(e) > 5 and e[5] else str(e[0])
    if c == 'src':
        return str(e[1])
    if c == 'dst':
        return str(e[2])
    if c == 'sc0':
        return '-1' if not e[4] else str(e[4][0])
    if c == 'sc1':
        return '-1' if not e[4] else str(e[4][1])
    if c == 'ign':
        return 'x'
    return num(e[3][int(c[1:])])


def fmi(g, ncols, ecols, style=None, ncount=None, ecount=None):
    """The text of a map; `style` (a seed) adds comments, blank lines, odd white space and extra lines."""
    rng = random.Random(style) if style is not None else None
    L = []

    def extra():
        if rng and rng.random() < .12:
            L.append(rng.choice(['', '# comment', '#1', '# 1 2 3', '#', '#\t7 7']) if rng.random() < .97 else '#' + '1 2 ' * rng.choice([300, 2100, 5000]))

    def sep():
        return rng.choice([' ', ' ', '\t', '  ', ' \t ']) if rng else ' '

    def line(cells):
        extra()
        s = cells[0]
        for c in cells[1:]:
            s += sep() + c
        if rng and rng.random() < .1:
            s = rng.choice([' ', '\t']) + s + rng.choice(['', ' ', '\t'])
        L.append(s)
    if rng and rng.random() < .5:
        L += ['# a map', '# with comments', '']
    if not rng or rng.random() < .7:
        L.append(str(g['dim']))
    extra()
    L.append(str(len(g['nodes']) if ncount is None else ncount))
    extra()
    L.append(str(len(g['edges']) if ecount is None else ecount))
    for x in g['nodes']:
        line([ncell(c, x) for c in ncols] + (['9'] if rng and rng.random() < .1 else []))
    for e in g['edges']:
        line([ecell(c, e) for c in ecols] + (['9'] if rng and rng.random() < .1 else []))
    end = '\n'
    if rng:
        if rng.random() < .2:
            L += ['', '# end']
        if rng.random() < .15:
            end = '\r\n'
    s = end.join(L)
    return s if rng and rng.random() < .3 else s + end


NCAT = {'id': {'meta': {'info': 'NodeId', 'id': 'node-id'}}, 'lat': {'metric': {'unit': 'Latitude', 'id': 'latitude'}},
        'lon': {'metric': {'unit': 'Longitude', 'id': 'longitude'}}, 'level': {'meta': {'info': 'CHLevel', 'id': 'ch-level'}}, 'ign': 'ignored'}
ECAT = {'id': {'meta': {'info': 'EdgeId', 'id': 'edge-id'}}, 'src': {'meta': {'info': 'SrcId', 'id': 'src-id'}},
        'dst': {'meta': {'info': 'DstId', 'id': 'dst-id'}}, 'sc0': {'meta': {'info': 'ShortcutIdx0', 'id': 'sc-idx-0'}},
        'sc1': {'meta': {'info': 'ShortcutIdx1', 'id': 'sc-idx-1'}}, 'ign': 'ignored'}


def parsing(map_file, ncols, ecols, units, gen_nodes=(), gen_edges=(), normalize=None, vehicles=None):
    """The parsing-part of a config.  Metric column i has id m<i>."""
    def ecat(c):
        return ECAT[c] if c in ECAT else {'metric': {'unit': units[int(c[1:])], 'id': c}}
    p = {'map-file': map_file, 'nodes': [NCAT[c] for c in ncols], 'edges': {'data': [ecat(c) for c in ecols]}}
    if normalize is not None:
        p['edges']['will_normalize_metrics_by_mean'] = normalize
    if vehicles:
        p['vehicles'] = vehicles
    if gen_nodes or gen_edges:
        p['generating'] = {'nodes': list(gen_nodes), 'edges': list(gen_edges)}
    return p


GEN_N_IDX = {'meta': {'info': 'NodeIdx', 'id': 'node-idx'}}


def gen_meta(*infos):
    name = {'SrcIdx': 'src-idx', 'DstIdx': 'dst-idx', 'SrcLat': 'src-lat', 'SrcLon': 'src-lon', 'DstLat': 'dst-lat', 'DstLon': 'dst-lon', 'EdgeId': 'edge-id'}
    return [{'meta': {'info': i, 'id': name[i]}} for i in infos]


def units(rng, dim):
    return [rng.choice(UNITS) for _ in range(dim)]


def yaml(cfg, style=None):
    """A config: JSON (which is YAML), or with a `style` (a seed) blocks with comments, some of which are long."""
    if style is None:
        return json.dumps(cfg, indent=1) + '\n'
    rng = random.Random(style)
    L = []

    def comment(pad):
        if rng.random() < .08:
            L.append(pad + '# ' + rng.choice(['comment', 'a: b', '- c', '{']))

    def scalar(x):
        if isinstance(x, str) and rng.random() < .3 and x.replace('-', '').replace('_', '').isalpha() and x not in ('true', 'false', 'null', 'yes', 'no', 'on', 'off', 'y', 'n', 'inf', 'nan'):
            return x
        return json.dumps(x)

    def put(x, pad, lead):
        """Appends x; lead: the beginning of its first line, to which pad belongs."""
        if isinstance(x, dict) and x and rng.random() < .93:
            if lead.rstrip().endswith(':'):
                L.append(lead.rstrip())
                lead = pad
            items = list(x.items())
            if rng.random() < .5:
                rng.shuffle(items)
            for n, (k, v) in enumerate(items):
                if n:
                    comment(pad)
                put(v, pad + '  ', (lead if n == 0 else pad) + k + ': ')
        elif isinstance(x, (list, tuple)) and x and rng.random() < .93:
            if lead.rstrip().endswith(':'):
                L.append(lead.rstrip())
                lead = pad
            for n, v in enumerate(x):
                if n:
                    comment(pad)
                put(v, pad + '  ', (lead if n == 0 else pad) + '- ')
        else:
            L.append(lead + (scalar(x) if not isinstance(x, (dict, list, tuple)) else json.dumps(x)))
    if rng.random() < .3:
        L.append('# a config')
    if rng.random() < .15:
        L += ['# ' + '0123456789' * rng.choice([5, 9])] * rng.choice([30, 100, 900, 1500])
    if rng.random() < .2:
        L.append('---')
    put(cfg, '', '')
    if rng.random() < .2:
        L += ['', '# end']
    return '\n'.join(L) + '\n'


def route_pairs_text(pairs, style=None, count=None):
    rng = random.Random(style) if style is not None else None
    L = ['# route-pairs'] if rng and rng.random() < .5 else []
    L.append(str(len(pairs) if count is None else count))
    for s, d, n in pairs:
        if rng and rng.random() < .1:
            L.append(rng.choice(['', '# comment']))
        L.append('%d%s%d %d' % (s, rng.choice([' ', '\t']) if rng else ' ', d, n))
    return '\n'.join(L) + ('' if rng and rng.random() < .3 else '\n')
