"""OSM PBF maps (C06)."""
import random, struct, zlib
from .. import gen, model
from ..core import Prop, V, sched, clocks, noise, ERR

# highway -> (default speed, lanes, cars, bicycles, pedestrians): yes 2, only if not picky 1, no 0
ROADS = {
    'motorway': (130, 3, 2, 0, 0), 'motorway_link': (50, 1, 2, 0, 0), 'trunk': (100, 2, 2, 0, 0), 'trunk_link': (50, 1, 2, 0, 0),
    'primary': (100, 2, 2, 1, 0), 'primary_link': (30, 1, 2, 1, 0), 'secondary': (70, 1, 2, 1, 0), 'secondary_link': (30, 1, 2, 1, 0),
    'tertiary': (70, 1, 2, 2, 0), 'tertiary_link': (30, 1, 2, 2, 0), 'unclassified': (50, 1, 2, 2, 0), 'residential': (50, 1, 2, 2, 2),
    'living_street': (15, 1, 2, 2, 2), 'track': (30, 1, 1, 1, 2), 'cycleway': (25, 1, 0, 2, 0), 'pedestrian': (5, 1, 0, 1, 2), 'path': (15, 1, 0, 1, 2),
}
ROADS['footway'] = ROADS['steps'] = ROADS['pedestrian']
ROADS['Residential'] = ROADS['residential']
NOROADS = ['construction', 'proposed', 'bus_stop', 'platform', 'rest_area', 'abandoned', 'never heard of']
SPEEDS = {'de:urban': 50, 'DE:urban': 50, 'de:living_street': 15, 'de:zone30': 30, 'something else': None, '30 mph': 50, 'de:zone:30': 30, '20 mph': 30, '60 mph': 100, '50 mph': 80, '40 mph': 70, '15 mph': 25, 'walk': 15, '5 mph': 15,
          'de:motorway': 130, 'none': None, 'signals': None}
ONEWAY = {'yes': (True, False), '1': (True, False), '-1': (True, True), 'no': (False, False), 'reversible': (False, False), 'alternating': (False, False), 'Yes': (True, False), 'maybe': (False, False)}
VEH = ['Car', 'Bicycle', 'Pedestrian']


# ------------------------------------------------------------------ encoder
def varint(x):
    x &= (1 << 64) - 1
    out = bytearray()
    while True:
        b = x & 127
        x >>= 7
        if x:
            out.append(b | 128)
        else:
            out.append(b)
            return bytes(out)


def zig(x):
    return (x << 1) ^ (x >> 63) if x < 0 else x << 1


def fint(n, x):
    return varint(n << 3) + varint(x)


def fbytes(n, b):
    return varint(n << 3 | 2) + varint(len(b)) + b


def packed(n, xs):
    return fbytes(n, b''.join(varint(x) for x in xs)) if xs else b''


def deltas(xs):
    out, last = [], 0
    for x in xs:
        out.append(zig(x - last))
        last = x
    return out


class Strings:
    def __init__(self):
        self.s = [b'']
        self.at = {}

    def get(self, x):
        b = x.encode()
        if b not in self.at:
            self.at[b] = len(self.s)
            self.s.append(b)
        return self.at[b]


def blob(kind, payload, style):
    if style == 'raw':
        b = fbytes(1, payload)
    else:
        b = fint(2, len(payload)) + fbytes(3, zlib.compress(payload, {'zlib': 6, 'zlib0': 0}[style]))
    h = fbytes(1, kind.encode()) + fint(3, len(b))
    return struct.pack('>I', len(h)) + h + b


def encode(m):
    """The bytes of a file, and the offsets at which blobs end."""
    nodes = {x[0]: x for x in m['nodes']}
    ways = {w['id']: w for w in m['ways']}
    out, ends = b'', [0]
    out += blob('OSMHeader', fbytes(4, b'OsmSchema-V0.6') + fbytes(4, b'DenseNodes'), 'raw')
    ends.append(len(out))
    for bl in m['blocks']:
        st = Strings()
        groups = b''
        gr, lo, la = bl['gran'], bl['lon_off'], bl['lat_off']

        def co(x):
            # decimicro degrees * 100 = nano degrees
            return (x[1] * 100 - la) // gr, (x[2] * 100 - lo) // gr
        for kind, ids in bl['groups']:
            g = b''
            if kind == 'dense':
                xs = [nodes[i] for i in ids if i in nodes]
                kv = []
                for x in xs:
                    for k, v in x[3]:
                        kv += [st.get(k), st.get(v)]
                    kv.append(0)
                d = packed(1, deltas([x[0] for x in xs]))
                if any(kv):
                    kvb = packed(10, kv)
                else:
                    kvb = b''
                d += packed(8, deltas([co(x)[0] for x in xs])) + packed(9, deltas([co(x)[1] for x in xs])) + kvb
                g += fbytes(2, d)
            elif kind == 'nodes':
                for i in ids:
                    if i not in nodes:
                        continue
                    x = nodes[i]
                    b = fint(1, zig(x[0])) + packed(2, [st.get(k) for k, _ in x[3]]) + packed(3, [st.get(v) for _, v in x[3]])
                    g += fbytes(1, b + fint(8, zig(co(x)[0])) + fint(9, zig(co(x)[1])))
            elif kind == 'ways':
                for i in ids:
                    if i not in ways:
                        continue
                    w = ways[i]
                    g += fbytes(3, fint(1, w['id']) + packed(2, [st.get(k) for k, _ in w['tags']]) + packed(3, [st.get(v) for _, v in w['tags']]) +
                                packed(8, deltas(w['refs'])))
            else:
                for i in ids:
                    g += fbytes(4, fint(1, i) + packed(2, [st.get('type')]) + packed(3, [st.get('route')]) + packed(8, [st.get('outer')]) +
                                packed(9, deltas([m['nodes'][0][0] if m['nodes'] else 1])) + packed(10, [0]))
            groups += fbytes(2, g)
        p = fbytes(1, b''.join(fbytes(1, s) for s in st.s)) + groups
        if gr != 100:
            p += fint(17, gr)
        if la:
            p += fint(19, la)
        if lo:
            p += fint(20, lo)
        out += blob('OSMData', p, bl['style'])
        ends.append(len(out))
        if bl.get('unknown'):
            out += blob('Unknown', b'x' * 7, 'raw')
            ends.append(len(out))
    return out, ends


def is_boundary(data, k):
    """Whether a file cut to k bytes looks like a complete one."""
    p = 0
    while p + 4 <= len(data):
        if p <= k < p + 4:
            return True
        n = struct.unpack('>I', data[p:p + 4])[0]
        h = data[p + 4:p + 4 + n]
        q, size = 0, 0
        while q < len(h):
            key, q = rd(h, q)
            if key & 7 == 2:
                l, q = rd(h, q)
                q += l
            else:
                v, q = rd(h, q)
                if key >> 3 == 3:
                    size = v
        p += 4 + n + size
    return k >= p


def rd(b, q):
    x = s = 0
    while True:
        c = b[q]
        q += 1
        x |= (c & 127) << s
        s += 7
        if c < 128:
            return x, q


# ------------------------------------------------------------------ meaning
def road(w, veh, picky):
    """(speed, lanes) of a way if it is a street for these vehicles."""
    t = dict(map(tuple, w['tags']))
    r = ROADS.get(t.get('highway'))
    if r is None or len(w['refs']) < 2:
        return None
    a = r[2 + VEH.index(veh)]
    if a == 0 or (a == 1 and picky):
        return None
    s = t.get('maxspeed')
    if s is None:
        v = r[0]
    elif s.isdigit():
        v = max(5, int(s))
    else:
        v = SPEEDS.get(s) or r[0]
    return float(v), float(r[1])


def pairs_of(w):
    t = dict(map(tuple, w['tags']))
    one, rev = ONEWAY.get(t.get('oneway'), (False, False))
    r = w['refs'][::-1] if rev else w['refs']
    p = list(zip(r, r[1:]))
    return p if one else p + [(b, a) for a, b in reversed(p)]


def expected(m):
    """The map in the form of gen.graph."""
    es = []
    order = {i: k for k, i in enumerate(i for bl in m['blocks'] for kind, ids in bl['groups'] if kind == 'ways' for i in ids)}
    for w in sorted((w for w in m['ways'] if w['id'] in order), key=lambda w: order[w['id']]):
        r = road(w, m['veh'], m['picky'])
        if r:
            mets = [{'s': r[0], 'l': r[1]}[c] for c in m['mets']]
            for a, b in pairs_of(w):
                es.append([None, a, b, mets, None])
    packed_nodes = {i for bl in m['blocks'] for kind, ids in bl['groups'] if kind in ('dense', 'nodes') for i in ids}
    return {'nodes': [[x[0], x[1] * 1e-7, x[2] * 1e-7, 0] for x in m['nodes'] if x[0] in packed_nodes], 'edges': es, 'dim': len(m['mets'])}


def config(m):
    ed = [{'meta': {'info': 'SrcId', 'id': 'src-id'}}, {'meta': {'info': 'DstId', 'id': 'dst-id'}}]
    for c in m['mets']:
        ed.append({'metric': {'unit': {'s': 'KilometersPerHour', 'l': 'LaneCount'}[c], 'id': {'s': 'speed', 'l': 'lanes'}[c]}})
    if m['colseed'] is not None:
        rng = random.Random(m['colseed'])
        if rng.random() < .5:
            ed.append('ignored')
        ms = [x for x in ed if isinstance(x, dict) and 'metric' in x]
        rng.shuffle(ed)
        it = iter(ms)
        ed = [next(it) if isinstance(x, dict) and 'metric' in x else x for x in ed]
    ge = []
    if m['eid']:
        ge += gen.gen_meta('EdgeId')
    if m['len']:
        ge.append({'haversine': {'unit': 'Kilometers', 'id': 'km'}})
        if m['dur'] and 's' in m['mets']:
            ge.append({'calc': {'result': {'id': 'dur', 'unit': m['dur']}, 'a': {'id': 'km', 'unit': 'Kilometers'}, 'b': {'id': 'speed', 'unit': 'KilometersPerHour'}}})
    veh = {'category': m['veh'], 'are_drivers_picky': m['picky']}
    return gen.parsing(m.get('name', 'map.osm.pbf'), ['id', 'lat', 'lon'], [], [], gen_edges=ge, vehicles=veh) | {'edges': {'data': ed}}


def reference(m):
    ref = model.Ref(expected(m))
    if m['eid']:
        ref.number_edges()
    if m['len']:
        for e in ref.edges:
            e['m'].append(model.haversine(ref.coord[e['src']], ref.coord[e['dst']]))
        ref.dim += 1
        if m['dur'] and 's' in m['mets']:
            f = {'Seconds': 3600.0, 'Minutes': 60.0, 'Hours': 1.0}[m['dur']]
            k = m['mets'].index('s')
            for e in ref.edges:
                e['m'].append(f * e['m'][len(m['mets'])] / e['m'][k])
            ref.dim += 1
    return ref


def build(m):
    """(bytes, parsing-config, reference graph)."""
    data, _ = encode(m)
    return data, config(m), reference(m)


def compare(ref, d):
    return model.compare(ref, d, level=False, rel=1e-8, coord_tol=1e-11, ids=False)


# ------------------------------------------------------------------ generator
def coordinate(rng, c):
    la = round(c[0] * 10**7 + rng.uniform(-3, 3) * 10**rng.choice([4, 5, 6]))
    lo = round(c[1] * 10**7 + rng.uniform(-3, 3) * 10**rng.choice([4, 5, 6]))
    return la, lo


def small_map(rng, ways=8, missing=False):
    n = max(2, int(ways * rng.choice([.7, 1.5, 3])))
    ids = gen.node_ids(rng, n)
    ids = [i for i in ids if i > 0] or [1, 2]
    if len(ids) < 2:
        ids.append(ids[-1] + 7)
    c = (rng.uniform(-60, 60), rng.uniform(-150, 150))
    gran = rng.choice([100, 100, 100, 1000, 50])
    nodes = []
    for i in ids:
        la, lo = coordinate(rng, c)
        if gran == 1000:
            la, lo = la // 10 * 10, lo // 10 * 10
        nodes.append([i, la, lo, [['name', 'n%d' % i]] if rng.random() < .1 else ([['highway', 'crossing'], ['x', 'ü']] if rng.random() < .1 else [])])
    roads = list(ROADS)
    few = rng.choice([None, ['residential', 'primary'], ['residential', 'track', 'path'], ['motorway', 'cycleway', 'living_street']])
    uses, W = {}, []
    mets = rng.choice([['s'], ['l'], ['s', 'l'], ['l', 's'], ['s']])
    for k in range(ways):
        L = rng.choice([2, 2, 3, 4, 6, 12, 1, 0])
        refs = []
        for _ in range(L):
            refs.append(rng.choice(ids) if rng.random() < .3 or not refs else ids[(ids.index(refs[-1]) + rng.choice([-1, 1, 1, 2])) % len(ids)])
        if L > 2 and rng.random() < .15:
            refs[-1] = refs[0]
        tags = []
        x = rng.random()
        if x < .85:
            tags.append(['highway', rng.choice(few or roads)])
        elif x < .93:
            tags.append(['highway', rng.choice(NOROADS)])
        if rng.random() < .4:
            tags.append(['maxspeed', rng.choice([str(rng.randint(0, 140)), str(rng.choice([5, 30, 50, 70, 100])), rng.choice(list(SPEEDS))])])
        if rng.random() < .4:
            tags.append(['oneway', rng.choice(list(ONEWAY))])
        if rng.random() < .3:
            tags.append(rng.choice([['name', 'street %d' % k], ['lanes', '4'], ['surface', 'asphalt']]))
        rng.shuffle(tags)
        w = {'id': 1000 + 3 * k, 'tags': tags, 'refs': refs}
        # a pair of nodes is joined at most twice, so that the order of equal edges cannot matter
        cnt = {}
        for a, b in pairs_of(w):
            cnt[a, b] = cnt.get((a, b), 0) + 1
        if any(uses.get(p, 0) + v > 2 for p, v in cnt.items()):
            w['refs'] = refs[:1]
        else:
            for p, v in cnt.items():
                uses[p] = uses.get(p, 0) + v
        W.append(w)
    # packing
    def chunks(xs, size):
        out = []
        while xs:
            s = size if size else rng.randint(1, max(1, len(xs)))
            out.append(xs[:s])
            xs = xs[s:]
        return out
    nid = [x[0] for x in nodes]
    order = rng.choice(['sorted', 'sorted', 'shuffled', 'ways first'])
    if order == 'shuffled':
        rng.shuffle(nid)
    sz = rng.choice([None, 1, 2, 8000, 8000, 3])
    nb = [[rng.choice(['dense', 'dense', 'nodes']), c] for c in chunks(nid, sz)]
    wb = [['ways', c] for c in chunks([w['id'] for w in W], rng.choice([None, 1, 2, 8000, 3]))]
    gs = wb + nb if order == 'ways first' else nb + wb
    if order == 'shuffled':
        rng.shuffle(gs)
    if rng.random() < .2:
        gs.insert(rng.randrange(len(gs) + 1), ['relations', [5, 6]])
    blocks = []
    for g in gs:
        if blocks and rng.random() < .2:
            blocks[-1]['groups'].append(g)
            continue
        blocks.append({'groups': [g], 'style': rng.choice(['raw', 'zlib', 'zlib', 'zlib0']), 'gran': gran, 'unknown': rng.random() < .02,
                       'lat_off': rng.choice([0, 0, 0, 1000 * rng.randint(-10**7, 10**7)]), 'lon_off': rng.choice([0, 0, 0, 1000 * rng.randint(-10**7, 10**7)])})
    m = dict(nodes=nodes, ways=W, blocks=blocks, veh=rng.choice(['Car', 'Car', 'Bicycle', 'Pedestrian']), picky=rng.random() < .5, mets=mets,
             eid=rng.random() < .3, len=rng.random() < .7, dur=rng.choice([None, 'Seconds', 'Minutes', 'Hours']), colseed=rng.choice([None, rng.getrandbits(20)]))
    if not expected(m)['edges']:
        # at least one street
        m['ways'].append({'id': 999, 'tags': [['highway', 'residential']], 'refs': [ids[0], ids[1]]})
        m['blocks'].append({'groups': [['ways', [999]]], 'style': 'raw', 'gran': gran, 'lat_off': 0, 'lon_off': 0})
    if missing:
        used = sorted({e[1] for e in expected(m)['edges']})
        x = rng.choice(used)
        m['nodes'] = [y for y in m['nodes'] if y[0] != x]
    return m


class C06(Prop):
    id = 'C06'
    counts = {'quick': 2500, 'thorough': 40000}
    wall = {'quick': 240, 'thorough': 3000}
    rule = 'distinct (scenario, execution hash) in which a PBF map was decoded by at least two threads (or had to be rejected)'
    real = ['osmgraphing library (configs, pbf-parser, street categories, graph builder)', 'osmpbfreader, par-map, futures-cpupool, flate2, protobuf']
    stub = ['thread scheduler, futex, CPU count, clocks, getrandom and file I/O (shim/sim.c)']
    assumptions = ['a pair of nodes is joined by at most two streets per direction', 'street types whose documented table and code disagree (service, road) are left out']

    def gen(self, rng, i, tier):
        m = small_map(rng, ways=rng.choice([1, 2, 3, rng.randint(2, 12), rng.randint(10, 60)]), missing=rng.random() < .04)
        if rng.random() < .15:
            m['name'] = rng.choice(['x.pbf', 'MAP.OSM.PBF', 'a.fmi.pbf', 'sub.fmi/map.pbf', 'a b.osm.pbf', './x.Pbf'])
        a = sched(rng)
        b = sched(rng)
        noise(rng, clocks(rng, a), write=False)
        noise(rng, clocks(rng, b), write=False)
        return dict(pbf=m, plans={'a': a, 'b': b})

    def judge(self, scn, W):
        from .parse import load
        m = scn['pbf']
        data, _ = encode(m)
        W.write(m.get('name', 'map.osm.pbf'), data)
        W.write('cfg.yaml', gen.yaml({'parsing': config(m)}, m['colseed']))
        ra, a = load(W, key='a')
        if ra.hung:
            return [V('hang', 'loading the map never ends: ' + ra.how())]
        try:
            ref = reference(m)
        except model.Reject as e:
            W.count('rejected')
            return [V('accepts', 'the map is loaded though ' + str(e))] if a else []
        if a is None:
            return [V('fails', 'a correct map is not loaded: %s %s' % (ra.how(), ra.out[:200]))]
        diff = compare(ref, a)
        if diff:
            return [V('graph', '; '.join(diff))]
        rb, b = load(W, key='b')
        if rb.hung:
            return [V('hang', 'loading the map never ends: ' + rb.how())]
        if ra.out != rb.out:
            return [V('differs', 'the graph depends on scheduling, processors or the delivery of bytes')]
        W.count('graphs', 2)
        W.count('edges', len(ref.edges))
        return []

    def nontrivial(self, scn, s):
        return bool(s['measure']) and s['tot'].get('maxlive', 0) >= 2

    def shrink_lists(self, scn):
        return [['pbf', 'ways'], ['pbf', 'blocks'], ['pbf', 'nodes']]

    def valid(self, scn):
        try:
            return bool(expected(scn['pbf'])['edges'])
        except Exception:
            return False
