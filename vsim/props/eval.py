"""Evaluating a balance: the master and its workers (C01, C02, C03)."""
import re
from collections import Counter
from .. import gen, model
from ..core import Prop, V, sched, clocks, noise, ERR

REAL = ['osmgraphing binary (main, config, parsers, graph builder, Dijkstra, explorator, master/worker threads, writers)',
        'std threads, mutexes and condvars, crossbeam/mpsc channels, stdio', 'rand_pcg']
STUB = ['thread scheduler, futex, clocks, getrandom, CPU count and file I/O (shim/sim.c)',
        'CGAL triangulation behind nd-triangulation (ndtri/, not installed here; an own convex-hull-free Delaunay with seeded facet order)']


def base(rng, big=False, kind=None, n=None, ch=None, dim=None, shape=None):
    """A map with its columns, units and parsing-config; contracted with some chance."""
    g = gen.graph(rng, n=n, kind=kind, dim=dim, shape=shape)
    ch = rng.random() < .3 if ch is None else ch
    if ch:
        g = gen.contract(rng, g, ratio=rng.choice([.5, .9, 1.0]), max_edges=400)
    nc, ec = gen.default_cols(g, level=ch, sc=ch)
    if rng.random() < .5:
        nc, ec = gen.shuffle_cols(rng, nc, ec)
    un = gen.units(rng, g['dim'])
    return dict(g=g, nc=nc, ec=ec, units=un, ch=ch, style=rng.choice([None, rng.getrandbits(30)]), norm=rng.random() < .15)


def metrics_of(rng, g, explore=False):
    """Considered metrics: [id, alpha, tolerated scale]."""
    k = rng.randint(1, g['dim'])
    ms = sorted(rng.sample(range(g['dim']), k))
    out = []
    for m in ms:
        tol = None
        if explore and rng.random() < .3:
            tol = rng.choice([1.0, 1.25, 1.5, 2.0, 10.0])
        out.append(['m%d' % m, rng.choice([1, 1, 2, 3]), tol])
    return out


def alphas_of(scn):
    a = [0.0] * scn['g']['dim']
    for i, al, _ in scn['metrics']:
        a[int(i[1:])] = float(al)
    return a


def has_eid(scn):
    return scn['g']['edges'][0][0] is not None


def parsing_cfg(scn):
    ge = [] if has_eid(scn) else gen.gen_meta('EdgeId')
    return gen.parsing('map.fmi', scn['nc'], scn['ec'], scn['units'], gen_edges=ge, normalize=scn['norm'] or None)


def eval_cfg(scn, threads, results='res', seed=None):
    algo = scn['algo']
    r = {'route-pairs-file': 'trips.route-pairs', 'algorithm': algo if not algo.startswith('X') else {'Explorator': {'algo': algo[1:]}},
         'metrics': []}
    for i, al, tol in scn['metrics']:
        m = {'id': i}
        if al is not None:
            m['alpha'] = al
        if tol is not None:
            m['tolerated-scale'] = tol
        r['metrics'].append(m)
    ev = {'results-dir': results, 'monitoring': {'edges-info': {
        'file': 'edges-info.csv', 'with_shortcuts': scn.get('wsc', False), 'ids': [{'id': 'edge-id'}] + [{'id': 'm%d' % i} for i in range(scn['g']['dim'])]}}}
    if scn.get('smarts') is not None:
        ev['monitoring']['export_vehicles_for_SMARTS'] = scn['smarts']
    if threads is not None:
        ev['number_of_threads'] = threads
    if seed is not None:
        ev['seed'] = seed
    return {'parsing': parsing_cfg(scn), 'routing': r, 'evaluating_balance': ev}


def put(scn, W):
    W.write('map.fmi', gen.fmi(scn['g'], scn['nc'], scn['ec'], scn['style']))
    W.write('trips.route-pairs', gen.route_pairs_text(scn['pairs'], scn.get('pstyle')))


def reference(scn):
    ref = model.Ref(scn['g'], level=scn['ch'])
    if not has_eid(scn):
        ref.number_edges()
    if scn['norm']:
        ref.normalize()
    return ref


def trips(rng, g, n, zero=True):
    ids = sorted({e[1] for e in g['edges']} | {e[2] for e in g['edges']})
    out = []
    for _ in range(n):
        s, d = rng.choice(ids), rng.choice(ids)
        c = rng.choice([1, 1, 1, 1, 2, 3, 7] if rng.random() < .99 else [30, 255, 256, 300]) if not (zero and rng.random() < .05) else 0
        out.append([s, d, c])
        if rng.random() < .1:
            out.append(list(rng.choice(out)))
    return out[:n]


def patience(pairs):
    """Long lists may take more steps."""
    n = sum(p[2] for p in pairs)
    return {'maxev': 3 * 10**9} if n > 1500 else {}


def n_trips(rng, tier='quick'):
    return rng.choice([0, 1, 2, 5, rng.randint(3, 49), rng.randint(45, 55), rng.randint(76, 90), rng.randint(90, 300), rng.randint(90, 300),
                       rng.randint(300, 900), rng.randint(900, 5000) if rng.random() < .2 else 80])


def read_workloads(W, d):
    """{edge id: count} or None; a list of complaints about the form."""
    t = W.text(d + '/abs_workloads.csv')
    if t is None:
        return None, ['abs_workloads.csv is missing']
    L = t.split('\n')
    if L[0].split(' ') != ['edge-id', 'num_routes']:
        return None, ['first line of abs_workloads.csv is %r' % L[0]]
    if L[-1] != '':
        return None, ['abs_workloads.csv does not end with a line break']
    out = {}
    for l in L[1:-1]:
        w = l.split(' ')
        try:
            a, b = w
            a, b = int(a), int(b)
        except ValueError:
            return None, ['abs_workloads.csv has a line %r' % l]
        if a in out:
            return None, ['abs_workloads.csv names edge %d twice' % a]
        out[a] = b
    return out, []


VEH = re.compile(r'<vehicle id="(-?\d+)->(-?\d+)"[^>]*>\n((?:<node id="-?\d+"/>\n)*)</vehicle>\n')


def read_vehicles(W, d):
    t = W.text(d + '/smarts.xml')
    if t is None:
        return None, ['smarts.xml is missing']
    a, b = t.find('<data>\n'), t.rfind('</data>\n')
    if a < 0 or b < 0 or t[b:] != '</data>\n':
        return None, ['smarts.xml is incomplete']
    body = t[a + 7:b]
    out, end = [], 0
    for m in VEH.finditer(body):
        if m.start() != end:
            return None, ['smarts.xml has %r' % body[end:m.start()][:80]]
        end = m.end()
        out.append((int(m[1]), int(m[2]), [int(x) for x in re.findall(r'"(-?\d+)"', m[3])]))
    if end != len(body):
        return None, ['smarts.xml has %r' % body[end:][:80]]
    return out, []


def judge_results(scn, W, d, ref, pairs, count=None):
    """Workloads and vehicles against the requested trips."""
    out = []
    alphas = alphas_of(scn)
    explore = scn['algo'].startswith('X')
    wl, bad = read_workloads(W, d)
    for b in bad:
        out.append(V('form', b))
    if bad:
        return out
    shown = [e for e in ref.edges if scn.get('wsc') or not e['sc']]
    if sorted(wl) != sorted(e['id'] for e in shown):
        out.append(V('edges', 'abs_workloads.csv lists edges %s instead of %s' % (sorted(wl)[:10], sorted(e['id'] for e in shown)[:10])))
        return out
    for e in shown:
        if e['sc'] and wl[e['id']]:
            out.append(V('shortcut', 'shortcut %d has workload %d' % (e['id'], wl[e['id']])))
    base = [e for e in ref.edges if not e['sc']]
    dist, want = {}, Counter()
    for s, t, c in pairs:
        if s not in dist:
            dist[s] = ref.dists(s, alphas)
        if t in dist[s]:
            want[s, t] += c
    W.count('trips', sum(want.values()))
    W.count('unconnected_pairs', sum(1 for s, t, c in pairs if t not in dist[s]))
    # conservation
    bal = Counter()
    for e in base:
        bal[e['src']] += wl[e['id']]
        bal[e['dst']] -= wl[e['id']]
    for (s, t), c in want.items():
        bal[s] -= c
        bal[t] += c
    off = {k: v for k, v in bal.items() if v}
    if off:
        out.append(V('conservation', 'trips leaving minus entering node %d differ by %+d from the requested ones (%d nodes affected)' % (*sorted(off.items())[0], len(off))))
    fuzzy, slack = is_fuzzy(scn), slack_of(scn, ref, alphas)
    if not explore:
        have = sum(wl[e['id']] * ref.weight(e, alphas) for e in base)
        need = sum(c * dist[s][t] for (s, t), c in want.items())
        if not model.close(have, need, 1e-7, 1e-3 + sum(want.values()) * (slack if fuzzy else 0)):
            out.append(V('cost', 'all workloads cost %r, the requested trips on cheapest paths %r' % (have, need)))
        uniq = Counter()
        allu = True
        cache = {}
        for (s, t), c in want.items():
            if not c or s == t:
                continue
            p = unique_base_path(ref, s, t, alphas, cache, slack)
            if p is None:
                allu = False
                break
            for e in p:
                uniq[e['id']] += c
        if allu:
            W.count('exact_workload_runs')
            for e in base:
                if wl[e['id']] != uniq[e['id']]:
                    out.append(V('workload', 'edge %d (%d->%d) has workload %d, but %d trips use it' % (e['id'], e['src'], e['dst'], wl[e['id']], uniq[e['id']])))
                    break
    if scn.get('smarts'):
        vs, bad = read_vehicles(W, d)
        for b in bad:
            return out + [V('form', b)]
        have = Counter((s, t) for s, t, _ in vs)
        if have != +want:
            k = sorted(set(have) | set(want), key=lambda k: have[k] == want[k])[0]
            out.append(V('vehicles', '%d vehicles go %d->%d instead of %d' % (have[k], *k, want[k])))
        use = Counter()
        par = {}
        for e in base:
            par.setdefault((e['src'], e['dst']), []).append(e)
        for s, t, ns in vs:
            W.count('vehicles')
            if (ns and (ns[0], ns[-1]) != (s, t)) or (not ns and s != t):
                out.append(V('path', 'vehicle %d->%d visits %s' % (s, t, ns[:20])))
                break
            c = 0.0
            for a, b in zip(ns, ns[1:]):
                if (a, b) not in par:
                    out.append(V('path', 'vehicle %d->%d goes %d->%d where no edge is' % (s, t, a, b)))
                    return out
                use[a, b] += 1
                c += min(ref.weight(e, alphas) for e in par[a, b])
            if not explore and s in dist and t in dist[s] and not model.close(c, dist[s][t], 1e-9, 2e-6 * (len(ns) + 4) * max(1.0, sum(alphas)) if fuzzy else 1e-6):
                out.append(V('optimal', 'vehicle %d->%d takes a path of cost %r, the cheapest one costs %r' % (s, t, c, dist[s][t])))
                break
        for k, es in par.items():
            if sum(wl[e['id']] for e in es) != use[k]:
                out.append(V('workload', 'edges %d->%d have workload %d, but %d vehicles use them' % (*k, sum(wl[e['id']] for e in es), use[k])))
                break
    elif W.exists(d + '/smarts.xml'):
        out.append(V('form', 'smarts.xml was not asked for'))
    return out


def is_fuzzy(scn):
    """Normalised metrics: every edge may be off by the documented accuracy (a metric of zero counts as 1e-6)."""
    return bool(scn.get('norm') or 'updates' in scn)


def slack_of(scn, ref, alphas):
    return 2e-6 * (len(ref.ids) + 4) * max(1.0, sum(alphas)) if is_fuzzy(scn) else 1e-6


def unique_base_path(ref, s, t, alphas, cache, slack=1e-6):
    """The cheapest path in terms of non-shortcut edges, if there is exactly one."""
    if 'base' not in cache:
        b = model.Ref.__new__(model.Ref)
        b.__dict__.update(ref.__dict__)
        b.edges = [e for e in ref.edges if not e['sc']]
        b.adj()
        cache['base'] = b
    return cache['base'].unique_path(s, t, alphas, cache.setdefault('p', {}), slack)


def shrink_graph(scn):
    return [['pairs'], ['g', 'edges'], ['g', 'nodes']] if not scn.get('ch') else [['pairs']]


class C01(Prop):
    id = 'C01'
    counts = {'quick': 2500, 'thorough': 40000}
    wall = {'quick': 240, 'thorough': 3000}
    rule = 'distinct (scenario, interleaving hash) with at least one context switch between the threads and at least one trip'
    real, stub = REAL, STUB
    assumptions = ['preemption inside the program happens at basic-block edges and atomic operations of the crates built from /repo and at libc calls',
                   'sequentially consistent memory']

    def gen(self, rng, i, tier):
        kind = rng.choice(['unique', 'unique', 'unique', 'tie', 'small', 'mid'])
        scn = base(rng, kind=kind, n=rng.choice([2, 3, rng.randint(4, 12), rng.randint(10, 40)]))
        g = scn['g']
        x = g['dim'] >= 2 and rng.random() < .15
        al = rng.choice(['Dijkstra', 'CHDijkstra']) if scn['ch'] else 'Dijkstra'
        scn['algo'] = ('X' if x else '') + al
        scn['metrics'] = metrics_of(rng, g)
        n = n_trips(rng) if not x else rng.choice([1, 5, 60, 120])
        scn['pairs'] = trips(rng, g, n)
        if len(g['nodes']) <= 3 and not x and rng.random() < .03:
            rng.choice(scn['pairs'] or [[0, 0, 0]])[2] = rng.choice([65535, 65537, 66000, 131073])
        scn['pstyle'] = rng.choice([None, rng.getrandbits(30)])
        scn['smarts'] = rng.choice([None, False, True, True])
        scn['wsc'] = rng.random() < .3
        scn['threads'] = rng.choice([1, 2, 2, 3, 4, 4, 8, 13, 40])
        scn['seed'] = rng.choice([None, rng.getrandbits(32)])
        p = noise(rng, clocks(rng, sched(rng)), heavy=rng.random() < .3)
        p.update(patience(scn['pairs']))
        scn['plans'] = {'run': p}
        return scn

    def judge(self, scn, W):
        put(scn, W)
        W.write('cfg.yaml', gen.yaml(eval_cfg(scn, scn['threads'], seed=scn['seed']), scn['pstyle']))
        r = W.cli('cfg.yaml', ['--evaluating_balance'], 'run')
        if r.hung:
            return [V('hang', 'the evaluation of %d route-pairs by %d workers never ends: %s' % (len(scn['pairs']), scn['threads'], r.how()))]
        if not r.ok:
            return [V('fails', 'a correct evaluation fails: ' + r.how())]
        return judge_results(scn, W, 'res', reference(scn), scn['pairs'])

    def nontrivial(self, scn, s):
        return s['tot'].get('switches', 0) > 0 and s['measure'].get('trips', 0) > 0

    def shrink_lists(self, scn):
        return shrink_graph(scn)

    def valid(self, scn):
        ids = {e[1] for e in scn['g']['edges']} | {e[2] for e in scn['g']['edges']}
        return bool(scn['g']['edges']) and ids <= {x[0] for x in scn['g']['nodes']} and all(p[0] in ids and p[1] in ids for p in scn['pairs'])


class C02(Prop):
    id = 'C02'
    counts = {'quick': 1200, 'thorough': 20000}
    wall = {'quick': 240, 'thorough': 3000}
    rule = 'distinct (scenario, interleaving hash of all its runs) in which at least two runs of the same input differ in scheduling, clock or worker count'
    real, stub = REAL, STUB
    assumptions = C01.assumptions

    def gen(self, rng, i, tier):
        portion = rng.random() < .4
        rich = portion and rng.random() < .5    # many alternatives for most of the trips
        if rich:
            scn = base(rng, kind=rng.choice(['unique', 'mid']), n=rng.randint(10, 28), dim=rng.choice([2, 2, 3]), shape=rng.choice(['grid', 'random']))
        else:
            scn = base(rng, kind='unique' if not portion else rng.choice(['tie', 'tie', 'small', 'unique']), n=rng.randint(3, 30))
        g = scn['g']
        x = g['dim'] >= 2 and portion and (rich or rng.random() < .8)
        al = rng.choice(['Dijkstra', 'CHDijkstra']) if scn['ch'] else 'Dijkstra'
        scn['algo'] = ('X' if x else '') + al
        scn['metrics'] = metrics_of(rng, g, x)
        if x and len(scn['metrics']) < 2:
            scn['metrics'] = [['m%d' % k, 1, None] for k in range(g['dim'])]
        if rich:
            scn['metrics'] = [['m%d' % k, 1, rng.choice([2.0, 10.0]) if rng.random() < .1 else None] for k in range(g['dim'])]
        scn['portion'] = portion
        scn['pairs'] = trips(rng, g, rng.randint(1, 79) if portion else n_trips(rng))
        scn['smarts'] = rng.random() < .6
        scn['wsc'] = rng.random() < .3
        scn['seed'] = rng.choice([None, rng.getrandbits(32)])
        k = rng.choice([2, 2, 3])
        scn['threads'] = [1] * k if portion else [rng.choice([1, 1, 2, 3, 4, 8, 16]) for _ in range(k)]
        scn['plans'] = {}
        for j in range(k):
            p = noise(rng, clocks(rng, sched(rng)), heavy=rng.random() < .2)
            if j == 0 and rng.random() < .3:
                p = {'seed': 1, 'mode': 'rr'}
            elif rich and rng.random() < .3:
                p['slow'] = rng.choice([10**7, 10**8, 10**9, 10**10])
            p.update(patience(scn['pairs']))
            scn['plans']['run%d' % j] = p
        if not portion:
            ref = reference(scn)
            al, cache = alphas_of(scn), {}
            scn['pairs'] = [p for p in scn['pairs'] if p[0] == p[1] or unique_base_path(ref, p[0], p[1], al, cache, slack_of(scn, ref, al)) is not None
                            or p[1] not in ref.reachable(p[0])]
        return scn

    def judge(self, scn, W):
        put(scn, W)
        res = []
        for j, t in enumerate(scn['threads']):
            W.write('cfg%d.yaml' % j, gen.yaml(eval_cfg(scn, t, 'res%d' % j, scn['seed'])))
            r = W.cli('cfg%d.yaml' % j, ['--evaluating_balance'], 'run%d' % j)
            if not r.ok:
                return [V('fails', 'a correct evaluation fails: ' + r.how())]
            f = {k[5:]: v for k, v in W.files('res%d' % j).items()}
            if not scn['portion'] and 'smarts.xml' in f:
                vs, bad = read_vehicles(W, 'res%d' % j)
                if bad:
                    return [V('form', bad[0])]
                f['smarts.xml'] = repr(sorted(vs)).encode()
            res.append(f)
        W.count('compared_runs', len(res))
        W.count('alternatives', 1 if scn['algo'][0] == 'X' else 0)
        for j in range(1, len(res)):
            if res[j] != res[0]:
                k = sorted(k for k in set(res[j]) | set(res[0]) if res[j].get(k) != res[0].get(k))[0]
                return [V('differs', '%s differs between two runs of the same input and seed (%d and %d workers): %s' %
                          (k, scn['threads'][0], scn['threads'][j], first_diff(res[0].get(k), res[j].get(k))))]
        return []

    def nontrivial(self, scn, s):
        return bool(scn['pairs'])

    def shrink_lists(self, scn):
        return shrink_graph(scn)

    def valid(self, scn):
        return C01.valid(self, scn) and (scn['portion'] or True)


def first_diff(a, b):
    if a is None or b is None:
        return 'only one run wrote it'
    for x, y in zip(a.split(b'\n'), b.split(b'\n')):
        if x != y:
            return '%r against %r' % (x[:120], y[:120])
    return 'one is longer'


class C03(Prop):
    id = 'C03'
    counts = {'quick': 5000, 'thorough': 40000}
    wall = {'quick': 240, 'thorough': 3000}
    rule = 'distinct (scenario, interleaving hash) in which the fault of the scenario was met, or which has none and ran to its end with context switches'
    real, stub = REAL, STUB
    assumptions = C01.assumptions + ['a run is given 300 million basic-block edges and 60 s before it counts as not ending']

    def gen(self, rng, i, tier):
        scn = base(rng, n=rng.randint(2, 16), ch=False)
        g = scn['g']
        scn['algo'] = rng.choice(['Dijkstra', 'Dijkstra', 'Dijkstra', 'XDijkstra']) if g['dim'] >= 2 else 'Dijkstra'
        scn['metrics'] = metrics_of(rng, g, False)
        scn['pairs'] = trips(rng, g, rng.choice([1, 2, 10, 49, 50, 51, 81, 130, 300]))
        scn['smarts'] = rng.choice([None, True])
        scn['threads'] = rng.choice([1, 2, 3, 4, 8])
        f = rng.choice(['none', 'none', 'node', 'node', 'node', 'node', 'thread', 'thread', 'zero', 'zerothreads', 'pairs', 'map', 'cfg', 'metric', 'manybad',
                        'rerr', 'nosuch'])
        p = noise(rng, clocks(rng, sched(rng)), heavy=rng.random() < .2)
        scn['fault'] = f
        far = 10**12 + rng.randint(0, 1000)
        if f in ('node', 'manybad'):
            for _ in range(1 if f == 'node' else rng.randint(2, 20)):
                k = rng.randrange(len(scn['pairs']))
                scn['pairs'][k] = [scn['pairs'][k][0], far, 1] if rng.random() < .5 else [far, scn['pairs'][k][1], 1]
        elif f == 'thread':
            p['faults'] = [['thread', '*', rng.randint(1, scn['threads']), rng.choice(['err', 'stick']), ERR['EAGAIN']]]
        elif f in ('zerothreads', 'zero'):
            scn['threads'] = 0
            if f == 'zero':
                scn['pairs'] = rng.choice([scn['pairs'], scn['pairs'][:1]])
        elif f == 'rerr':
            p['faults'] = [['read', rng.choice(['map.fmi', 'trips', 'cfg.yaml']), rng.randint(1, 2), rng.choice(['err', 'stick']), ERR['EIO']]]
        scn['plans'] = {'run': p}
        return scn

    def judge(self, scn, W):
        put(scn, W)
        f = scn['fault']
        cfg = eval_cfg(scn, scn['threads'])
        if f == 'pairs':
            t = gen.route_pairs_text(scn['pairs']).split('\n')
            t[-2] = '1 x 1'
            W.write('trips.route-pairs', '\n'.join(t))
        elif f == 'map':
            t = gen.fmi(scn['g'], scn['nc'], scn['ec']).split('\n')
            t[-2] = t[-2].replace('1', 'q').replace('2', 'q').replace('3', 'q').replace('4', 'q').replace('5', 'q') + ' q'
            t[-2] = 'q ' * len(scn['ec'])
            W.write('map.fmi', '\n'.join(t))
        elif f == 'metric':
            cfg['routing']['metrics'].append({'id': 'nope'})
        elif f == 'nosuch':
            W.remove('trips.route-pairs')
        W.write('cfg.yaml', gen.yaml(cfg) if f != 'cfg' else gen.yaml(cfg)[:-40])
        r = W.cli('cfg.yaml', ['--evaluating_balance'], 'run')
        if r.hung:
            return [V('hang', 'fault %s: the run does not end: %s' % (f, r.how()))]
        if f == 'none' or (f in ('thread', 'rerr') and not any(r.hits)):
            if not r.ok:
                return [V('fails', 'a correct evaluation fails: ' + r.how())]
            W.count('fault_free')
            return judge_results(scn, W, 'res', reference(scn), scn['pairs'])
        W.count('fault_' + f)
        if r.ok:
            return [V('success', 'fault %s: the run reports success' % f)]
        if not r.failed and r.rc <= 0:
            return [V('killed', 'fault %s: the run ends by %s' % (f, r.how()))]
        if W.exists('res/abs_workloads.csv'):
            return [V('lie', 'fault %s: the run fails but leaves workloads' % f)]
        return []

    def nontrivial(self, scn, s):
        return any(k.startswith('fault') for k in s['measure'])

    def shrink_lists(self, scn):
        return [['pairs']] if scn['fault'] in ('node', 'manybad', 'none') else []
