"""Balancing: the iterated pipeline with its child processes (C13)."""
import os, sys
from .. import gen, model
from ..core import Prop, V, sched, clocks, noise, ERR, VERIF
from . import eval as ev

REAL = ['osmgraphing binary (balancing pipeline, configs, parsers, builder, routing, master/worker threads, update rule, writers)',
        'multi-ch-constructor binary of the repository (it drives cmake and multi-ch)']
STUB = ['thread scheduler, clocks, getrandom, CPU count, file I/O and its failures, process death (shim/sim.c)',
        'the external programs cmake and multi-ch (vsim/stubs/: contracts for all weightings; fails, dies or writes broken files on demand)',
        'CGAL triangulation behind nd-triangulation (ndtri/)']
CWD = 'externals/multi-ch-constructor'

CMAKE = '''#!/bin/sh
R=%(root)s
n=$(cat "$R/stub/n" 2>/dev/null || echo 0)
n=$((n+1)); echo $n > "$R/stub/n"
{ printf 'cmake\\t%%s' "$PWD"; for a in "$@"; do printf '\\t%%s' "$a"; done; echo; } >> "$R/stub/log"
a=; [ -e "$R/stub/act.$n" ] && a=$(cat "$R/stub/act.$n")
case "$a" in exit*) exit 3;; kill*) kill -9 $$;; esac
case "$1" in
  -Bbuild) mkdir -p build; for x in "$@"; do case "$x" in GRAPH_DIM=*) echo "${x#GRAPH_DIM=}" > build/dim;; esac; done;;
  --build) [ -e build/dim ] || exit 5; cp build/dim build/multi-ch.dim; cp "$R/stub/multi-ch" build/multi-ch;;
  *) exit 6;;
esac
'''
MULTI = '''#!/bin/sh
exec %(py)s -S -E -B %(verif)s/vsim/stubs/multich.py %(root)s "$0" "$@"
'''


def put_stubs(scn, W):
    W.write('bin/cmake', CMAKE % {'root': W.root})
    W.write('stub/multi-ch', MULTI % {'py': sys.executable, 'verif': VERIF, 'root': W.root})
    for f in ('bin/cmake', 'stub/multi-ch'):
        os.chmod(W.path(f), 0o755)
    W.write('stub/seed', str(scn['stubseed']))
    W.write(CWD + '/CMakeLists.txt', '')
    for n, a in scn.get('acts', {}).items():
        W.write('stub/act.%s' % n, a)


# ------------------------------------------------------------------ configs
def wid(scn):
    return 'm%d' % scn['g']['dim']


def configs(scn):
    g, d = scn['g'], scn['g']['dim']
    un = scn['units'] + ['F64']
    nch = scn['nch']            # m0..m<nch-1> go through the hierarchy, the others through edges-info.csv
    ge = ([] if ev.has_eid(scn) else gen.gen_meta('EdgeId')) + gen.gen_meta('SrcIdx', 'DstIdx')
    main = gen.parsing('map.fmi', scn['nc'], scn['ec'], scn['units'], gen_nodes=[gen.GEN_N_IDX],
                       gen_edges=ge + [{'custom': {'id': wid(scn), 'unit': 'F64', 'default': 1.0}}], normalize=scn['norm'] or None)
    routing = {'route-pairs-file': 'in/trips.route-pairs', 'algorithm': scn['algo'] if scn['algo'][0] != 'X' else {'Explorator': {'algo': scn['algo'][1:]}},
               'metrics': [dict([('id', i)] + ([('alpha', a)] if a is not None else [])) for i, a, _ in scn['metrics']]}
    b = {'seed': scn['seed'], 'number_of_threads': scn['threads'], 'results-dir': 'res', 'iter-0-cfg': 'in/init.yaml', 'iter-i-cfg': 'in/iteration.yaml',
         'optimizing_with': {'metric-id': wid(scn), 'method': 'averaging' if scn['corr'] is None else {'explicit_euler': {'correction': scn['corr']}}},
         'number_of_metric-updates': scn['updates'],
         'multi-ch-constructor': {'fmi-graph': 'graph.fmi', 'contracted-graph': 'graph.ch.fmi', 'dimension': nch + 1, 'contraction-ratio': scn['ratio'],
                                  'number_of_threads': scn['chthreads'], 'is_printing_osm-ids': True, 'is_using_external_edge-ids': True},
         'monitoring': {'edges-info': {'file': 'edges-info.csv', 'with_shortcuts': scn['wsc'], 'ids': [{'id': 'edge-id'}] + [{'id': 'm%d' % k} for k in range(d + 1)]}}}
    if scn['smarts'] is not None:
        b['monitoring']['export_vehicles_for_SMARTS'] = scn['smarts']
    if scn['min'] is not None:
        b['min_new_metric'] = scn['min']
    if scn['zeroerr'] is not None:
        b['throw_err_when_new_metric_is_zero'] = scn['zeroerr']
    wg = {'map-file': 'balanced_graph.fmi', 'nodes': [{'id': 'node-idx'}, {'id': 'node-id'}, {'id': 'latitude'}, {'id': 'longitude'}],
          'edges': {'with_shortcuts': False, 'will_denormalize_metrics_by_mean': False,
                    'ids': [{'id': 'edge-id'}, {'id': 'src-id'}, {'id': 'dst-id'}] + [{'id': 'm%d' % k} for k in range(d + 1)]}}
    cfg = {'parsing': main, 'routing': routing, 'balancing': b, 'writing': {'graph': wg}}

    def iteration(first):
        chm = ['m%d' % k for k in range(nch)] + ([] if first else [wid(scn)])
        out = ['m%d' % k for k in range(nch, d)]
        w = {'graph': {'map-file': 'graph.fmi', 'nodes': [{'id': 'node-idx'}, {'id': 'node-id'}, {'id': 'latitude'}, {'id': 'longitude'}, 'ignored', 'ignored'],
                       'edges': {'with_shortcuts': False, 'will_denormalize_metrics_by_mean': scn['denorm'],
                                 'ids': [{'id': 'edge-id'}, {'id': 'src-idx'}, {'id': 'dst-idx'}] + [{'id': m} for m in chm] + ['ignored', 'ignored']}},
             'edges-info': {'file': 'edges-info.csv', 'with_shortcuts': False, 'will_denormalize_metrics_by_mean': scn['denorm'],
                            'ids': [{'id': 'edge-id'}] + [{'id': m} for m in out]}}
        p = gen.parsing('graph.ch.fmi', ['ign', 'id', 'lat', 'lon', 'ign', 'level'], ['id', 'src', 'dst'] + chm + ['sc0', 'sc1'], un,
                        gen_nodes=[gen.GEN_N_IDX],
                        gen_edges=gen.gen_meta('SrcIdx', 'DstIdx') + ([{'custom': {'id': wid(scn), 'unit': 'F64', 'default': 1.0}}] if first else []) +
                        [{'custom': {'id': m, 'unit': un[int(m[1:])], 'default': 1.0}} for m in out] +
                        ([{'merge': {'from': 'edges-info.csv', 'edge-id': 'edge-id', 'edges-info': [{'id': 'edge-id'}] + [{'id': m} for m in out]}}] if out else []))
        return {'writing': w, 'parsing': p}
    return cfg, iteration(True), iteration(False)


def put(scn, W):
    W.write('map.fmi', gen.fmi(scn['g'], scn['nc'], scn['ec'], scn['style']))
    W.write('in/trips.route-pairs', gen.route_pairs_text(scn['pairs'], scn['pstyle']))
    c, i0, i1 = configs(scn)
    W.write('cfg.yaml', gen.yaml(c, scn['pstyle']))
    W.write('in/init.yaml', gen.yaml(i0, scn['pstyle']))
    W.write('in/iteration.yaml', gen.yaml(i1, scn['pstyle']))
    put_stubs(scn, W)


# ------------------------------------------------------------------ reading what a run left
class Bad(Exception):
    pass


def rows(W, name):
    t = W.text(name)
    if t is None:
        raise Bad('%s is missing' % name)
    if not t.endswith('\n'):
        raise Bad('%s does not end with a line break' % name)
    return [l.split() for l in t.split('\n') if l and not l.startswith('#')]


def read_map(W, name, nm):
    """(nodes, edges) of a written map: edges are [id, a, b, [metrics], rest]."""
    R = rows(W, name)
    try:
        if len(R[0]) == len(R[1]) == len(R[2]) == 1:
            R = R[1:]
        nn, ne = int(R[0][0]), int(R[1][0])
        if len(R) != 2 + nn + ne:
            raise Bad('%s announces %d nodes and %d edges, %d lines follow' % (name, nn, ne, len(R) - 2))
        nodes = [(int(r[0]), int(r[1]), float(r[2]), float(r[3]), *r[4:]) for r in R[2:2 + nn]]
        edges = [(int(r[0]), int(r[1]), int(r[2]), [float(x) for x in r[3:3 + nm]], r[3 + nm:]) for r in R[2 + nn:]]
    except (ValueError, IndexError) as e:
        raise Bad('%s is malformed: %s' % (name, e))
    return nodes, edges


def read_table(W, name, cols):
    R = rows(W, name)
    if not R or R[0] != cols:
        raise Bad('the first line of %s is %s instead of %s' % (name, R[:1], cols))
    out = {}
    try:
        for r in R[1:]:
            if len(r) != len(cols) or int(r[0]) in out:
                raise ValueError(r)
            out[int(r[0])] = [float(x) for x in r[1:]]
    except ValueError as e:
        raise Bad('%s is malformed: %s' % (name, e))
    return out


def update(scn, it, wl, old):
    """The documented update of the optimised metric, or None if it has to be refused."""
    n = len(wl)
    mean = sum(wl) / n
    if mean <= 1e-6:
        return None
    new = []
    for w, o in zip(wl, old):
        w /= mean
        new.append(o + (w - o) * scn['corr'] if scn['corr'] is not None else (it * o + w) / (it + 1))
    if scn['min'] is not None:
        new = [max(x, scn['min']) for x in new]
    elif scn['zeroerr'] is not False and min(new) <= 1e-6:
        return None
    mean = sum(new) / n
    if mean <= 1e-6:
        return None
    return [x / mean for x in new]


def near(a, b):
    return model.close(a, b, 1e-7, 5e-6)


def judge_results(scn, W, res, updates_done, complete):
    """Checks the first `updates_done` iterations, and the whole tree if the run was successful."""
    g, d, nch = scn['g'], scn['g']['dim'], scn['nch']
    ref = ev.reference(scn)
    un = scn['units']
    # what the iterations work with
    want0 = {e['id']: list(e['m']) for e in ref.edges}
    if scn['norm'] and scn['denorm']:
        want0 = {e['id']: [x * m for x, m in zip(e['m'], ref.means)] for e in ref.edges}
    ends = {e['id']: (e['src'], e['dst']) for e in ref.edges}
    out = []
    metric = {i: 1.0 for i in ends}  # the optimised metric of the graph which the iteration starts with
    for it in range(updates_done):
        p = '%s/%d/' % (res, it)
        nm = nch + (1 if it else 0)
        nodes, edges = read_map(W, p + 'graph.fmi', nm)
        if [x[1] for x in nodes] != ref.ids or [x[0] for x in nodes] != list(range(len(nodes))):
            return [V('nodes', '%sgraph.fmi has nodes %s instead of %s' % (p, [x[1] for x in nodes][:10], ref.ids[:10]))]
        for x in nodes:
            if not (near(x[2], ref.coord[x[1]][0]) and near(x[3], ref.coord[x[1]][1])):
                return [V('nodes', '%sgraph.fmi: node %d lies at %s' % (p, x[1], x[2:4]))]
        if sorted(e[0] for e in edges) != sorted(ends):
            return [V('edges', '%sgraph.fmi has edges %s instead of %s' % (p, sorted(e[0] for e in edges)[:10], sorted(ends)[:10]))]
        for i, a, b, ms, rest in edges:
            if not (0 <= a < len(ref.ids) and 0 <= b < len(ref.ids)) or (ref.ids[a], ref.ids[b]) != ends[i]:
                return [V('edges', '%sgraph.fmi: edge %d leads %d->%d (indices) instead of %s (ids)' % (p, i, a, b, ends[i]))]
            w = want0[i][:nch] + ([metric[i]] if it else [])
            if not all(near(x, y) for x, y in zip(ms, w)):
                return [V('metrics' if it == 0 or not near(ms[-1], w[-1]) else 'metrics', '%sgraph.fmi: edge %d has metrics %s instead of %s' % (p, i, ms, w))]
        info = read_table(W, p + 'edges-info.csv', ['edge-id'] + ['m%d' % k for k in range(nch, d)])
        if sorted(info) != sorted(ends) or not all(near(x, y) for i in info for x, y in zip(info[i], want0[i][nch:])):
            return [V('info', '%sedges-info.csv has %s instead of %s' % (p, sorted(info.items())[:4], [(i, want0[i][nch:]) for i in sorted(ends)][:4]))]
        src = 'in/init.yaml' if it == 0 else 'in/iteration.yaml'
        if W.read(p + 'iteration.yaml') != W.read(src):
            return [V('config', '%siteration.yaml is not a copy of %s' % (p, src))]
        # the hierarchy, which the stub wrote
        chn, che = read_map(W, p + 'graph.ch.fmi', nm)
        h = {'dim': d + 1, 'nodes': [[x[1], x[2], x[3], int(x[5])] for x in chn], 'edges': []}
        for i, a, b, ms, rest in che:
            sc = [int(x) for x in rest]
            m = ms[:nch] + (info[i] if i in info else [1.0] * (d - nch)) + [ms[-1] if it else 1.0]
            h['edges'].append([i, a, b, m, sc if sc[0] >= 0 else None])
        try:
            R = model.Ref(h, level=True)
        except model.Reject as e:
            return [V('accepted', 'iteration %d goes on with a graph which has to be refused: %s' % (it, e))]
        s2 = dict(scn, metrics=[m for m in scn['metrics'] if it or m[0] != wid(scn)], g={'dim': d + 1})
        for v in ev.judge_results(s2, W, p + 'stats', R, scn['pairs']):
            v.msg = 'iteration %d: %s' % (it, v.msg)
            v.trips = True
            out.append(v)
        if out:
            return out
        wl, _ = ev.read_workloads(W, p + 'stats')
        new = update(scn, it, [wl.get(e['id'], 0) for e in R.edges], [e['m'][-1] for e in R.edges])
        if new is None:
            return [V('accepted', 'iteration %d goes on with a metric which has to be refused' % it)]
        st = read_table(W, p + 'stats/edges-info.csv', ['edge-id'] + ['m%d' % k for k in range(d + 1)])
        shown = {e['id']: e['m'][:-1] + [x] for e, x in zip(R.edges, new) if scn['wsc'] or not e['sc']}
        if sorted(st) != sorted(shown):
            return [V('stats', '%sstats/edges-info.csv has edges %s instead of %s' % (p, sorted(st)[:10], sorted(shown)[:10]))]
        for i in sorted(st):
            if not near(st[i][-1], shown[i][-1]):
                return [V('update', 'iteration %d: edge %d has the new metric %r instead of %r' % (it, i, st[i][-1], shown[i][-1]))]
            if not all(near(x, y) for x, y in zip(st[i], shown[i])):
                return [V('stats', '%sstats/edges-info.csv: edge %d has %s instead of %s' % (p, i, st[i], shown[i]))]
        before, metric = metric, {e['id']: x for e, x in zip(R.edges, new) if not e['sc']}
        W.count('updates_checked')
    if not complete:
        return out
    # the balanced graph: what the last iteration starts with
    nodes, edges = read_map(W, res + '/balanced_graph.fmi', d + 1)
    n = updates_done
    base = want0 if n > 1 else {e['id']: e['m'] for e in ref.edges}
    if sorted((i, a, b) for i, a, b, _, _ in edges) != sorted((i, *ends[i]) for i in ends) or [x[1] for x in nodes] != ref.ids:
        return [V('balanced', 'balanced_graph.fmi has other nodes or edges than the map')]
    for i, a, b, ms, _ in edges:
        w = base[i] + [before[i]]
        if not all(near(x, y) for x, y in zip(ms, w)) or len(ms) != len(w):
            return [V('balanced', 'balanced_graph.fmi: edge %d has metrics %s instead of %s' % (i, ms, w))]
    for a, b in (('cfg.yaml', 'cfg.yaml'), ('trips.route-pairs', 'in/trips.route-pairs')):
        if W.read(res + '/' + a) != W.read(b):
            return [V('copy', '%s/%s is not a copy of %s' % (res, a, b))]
    return out


def log_of(W):
    return [l.split('\t') for l in (W.text('stub/log') or '').splitlines()]


def judge_calls(scn, W, res, its, start=0):
    """The child processes were called as configured."""
    L = log_of(W)[start:]
    for it in range(its):
        c = L[3 * it:3 * it + 3]
        if len(c) < 3:
            return [V('calls', 'iteration %d called %s' % (it, c))]
        dim = scn['nch'] + (1 if it else 0)
        if c[0][0] != 'cmake' or 'GRAPH_DIM=%d' % dim not in c[0] or c[0][1] != W.path(CWD):
            return [V('calls', 'iteration %d configures the contraction by %s, dimension is %d' % (it, c[0], dim))]
        a = c[2]
        o = dict(zip(a, a[1:]))
        want = {'--threads': str(scn['chthreads']), '--percent': scn['ratio'], '--text': '%s/%d/graph.fmi' % (res, it), '--write': '%s/%d/graph.ch.fmi' % (res, it)}
        if a[0] != 'multi-ch' or any(o.get(k) != v for k, v in want.items()):
            return [V('calls', 'iteration %d contracts by %s' % (it, a))]
    if len(L) != 3 * its:
        return [V('calls', '%d child processes instead of %d' % (len(L), 3 * its))]
    return []


FAULTS = ['none', 'none', 'none', 'none', 'child', 'child', 'child', 'io', 'io', 'io', 'quota', 'spawn', 'crash', 'twice', 'node', 'thread', 'refuse', 'mchc']


class C13(Prop):
    id = 'C13'
    counts = {'quick': 1200, 'thorough': 30000}
    wall = {'quick': 240, 'thorough': 3000}
    rule = ('distinct (scenario, interleaving hash) with at least one checked metric-update, or in which the fault of the scenario was met')
    real, stub = REAL, STUB
    assumptions = ev.C01.assumptions + ['cmake and multi-ch keep their documented interface (the real ones are not part of the repository)',
                                        'the hierarchy is configured as in resources/*/balancing/ (osm-ids and edge-ids are piped through)']

    def gen(self, rng, i, tier, faults=FAULTS):
        g = gen.graph(rng, n=rng.choice([2, 3, rng.randint(4, 12), rng.randint(8, 20)]), dim=rng.randint(1, 4), kind=rng.choice(['unique', 'unique', 'small', 'mid', 'tie']),
                      multi=rng.random() < .5)
        nc, ec = gen.default_cols(g)
        if rng.random() < .4:
            nc, ec = gen.shuffle_cols(rng, nc, ec)
        scn = dict(g=g, nc=nc, ec=ec, units=gen.units(rng, g['dim']), ch=False, style=rng.choice([None, rng.getrandbits(30)]), norm=rng.random() < .6)
        scn['denorm'] = rng.random() < .2
        scn['nch'] = rng.randint(1, g['dim'])
        f = scn['fault'] = rng.choice(faults)
        x = rng.random() < .2
        al = rng.choice(['Dijkstra', 'CHDijkstra'])
        scn['algo'] = ('X' if x else '') + al
        ms = sorted(rng.sample(range(scn['nch']), rng.randint(1, scn['nch'])))
        scn['metrics'] = [['m%d' % m, rng.choice([None, 1, 2]), None] for m in ms]
        if rng.random() < .85:
            scn['metrics'].append([wid(scn), rng.choice([None, 1, 3]), None])
        scn['metrics'] = [[m, 1 if a is None else a, t] for m, a, t in scn['metrics']]
        scn['updates'] = rng.choice([0, 1, 1, 2, 2, 3]) if rng.random() < .9 else rng.randint(4, 7)
        scn['corr'] = rng.choice([None, None, .5, .1, 1.0, 1.5])
        scn['min'] = rng.choice([.1, .01, .5, 1.0])
        scn['zeroerr'] = rng.choice([None, True, False])
        scn['threads'] = rng.choice([1, 2, 3, 4, 8])
        scn['chthreads'] = rng.choice([1, 4, 7])
        scn['ratio'] = rng.choice(['100', '99.8', '50', '0'])
        scn['smarts'] = rng.choice([None, False, True])
        scn['wsc'] = rng.random() < .3
        scn['seed'] = rng.getrandbits(32)
        scn['stubseed'] = rng.getrandbits(30)
        scn['pstyle'] = rng.choice([None, rng.getrandbits(30)])
        if x and 'm0' not in [m[0] for m in scn['metrics']]:
            scn['metrics'].insert(0, ['m0', 1, None])
        ref = ev.reference(dict(scn, norm=False))
        # at least one real trip, or there is nothing to balance with
        e = rng.choice(g['edges'])
        scn['pairs'] = ev.trips(rng, g, rng.choice([0, 3, 20, 60, 120])) + [[e[1], e[2], rng.choice([1, 1, 5])]]
        rng.shuffle(scn['pairs'])
        p = noise(rng, clocks(rng, sched(rng)), heavy=rng.random() < .15)
        n = scn['updates'] + 1
        if f == 'child':
            it = rng.randrange(n)
            which = rng.choice([1, 2, 3, 3, 3, 3])
            a = rng.choice(['exit', 'kill']) if which < 3 else rng.choice(['exit', 'kill', 'exitafter', 'killafter', 'none', 'killmid %d' % rng.getrandbits(20),
                                                                         'trunc %d' % rng.getrandbits(20), 'garbage %d' % rng.getrandbits(20)])
            scn['acts'] = {str(3 * it + which): a}
        elif f == 'spawn':
            p['faults'] = [['spawn', '*', rng.randint(1, 3 * n), 'err', rng.choice([ERR['EAGAIN'], ERR['ENOMEM'], ERR['ENOENT']])]]
        elif f == 'io':
            op = rng.choice(['open', 'read', 'write', 'write', 'write', 'mkdir', 'creat'])
            sub = rng.choice(['*', 'res/', '.fmi', 'edges-info', 'abs_work', 'iteration.yaml', 'route-pairs', 'graph.ch.fmi', 'balanced', 'smarts', 'cfg.yaml'])
            if op == 'mkdir':
                sub = rng.choice(['*', 'stats', 'utc_'])
            e = {'open': ['EACCES', 'EMFILE', 'EIO'], 'read': ['EIO'], 'write': ['ENOSPC', 'EIO', 'EDQUOT'], 'mkdir': ['EACCES', 'ENOSPC'], 'creat': ['ENOSPC', 'EACCES']}[op]
            p['faults'] = [[op, sub, rng.choice([1, 1, 2, 3, 5, 9]), rng.choice(['err', 'stick']), ERR[rng.choice(e)]]]
        elif f == 'quota':
            p['quota'] = rng.choice([100, 1000, 3000, 10000, 30000])
        elif f == 'crash':
            p['faults'] = [[rng.choice(['write', 'creat', 'read', 'mkdir', 'spawn']), '*', rng.randint(1, 60), 'crash', 0]]
        elif f == 'node':
            scn['pairs'][rng.randrange(len(scn['pairs']))] = [10**12, e[1], 1]
        elif f == 'thread':
            p['faults'] = [['thread', '*', rng.randint(1, scn['threads'] * n), rng.choice(['err', 'stick']), ERR['EAGAIN']]]
        elif f == 'refuse':
            k = rng.choice(['zero', 'zero', 'notrips', 'nonew'])
            if k == 'zero':
                scn['min'] = None
                scn['zeroerr'] = rng.choice([None, True, False, False])
                scn['corr'] = rng.choice([None, .5, 1.0])
            elif k == 'notrips':
                scn['pairs'] = [[e[1], e[1], 1]] if rng.random() < .5 else []
            else:
                scn['min'], scn['corr'], scn['zeroerr'] = None, .5, None
        scn['plans'] = {'run': p}
        if f in ('crash', 'twice'):
            q = noise(rng, sched(rng), heavy=rng.random() < .15)
            p['real'] = rng.randint(10**9, 2 * 10**9) * 10**9
            p.pop('jumps', None)
            p.pop('slow', None)
            q['real'] = p['real'] + (0 if rng.random() < .6 else rng.choice([1, 2, 86400]) * 10**9)
            scn['plans']['again'] = q
        return scn

    def judge(self, scn, W):
        try:
            return self.judge_(scn, W)
        except Bad as e:
            return [V('form', str(e))]

    def judge_(self, scn, W):
        f = scn['fault']
        put(scn, W)
        if f == 'mchc':
            return self.mchc(scn, W)
        inputs = {k: W.read(k) for k in ('map.fmi', 'in/trips.route-pairs', 'cfg.yaml', 'in/init.yaml', 'in/iteration.yaml')}
        r = W.cli('cfg.yaml', ['--balancing'], 'run')
        if r.hung:
            return [V('hang', 'fault %s: the run does not end: %s' % (f, r.how()))]
        for k, b in inputs.items():
            if W.read(k) != b:
                return [V('input', 'the run changed its input %s' % k)]
        dirs = sorted(os.listdir(W.path('res'))) if W.exists('res') else []
        n = scn['updates'] + 1
        met = any(r.hits) if r.hits and scn['plans']['run'].get('faults') else r.st.get('n_enospc', 0) > 0
        if f == 'child':
            k, a = next(iter(scn['acts'].items()))
            met = len(log_of(W)) >= int(k)
            if not met:
                return [V('calls', 'only %d child processes ran' % len(log_of(W)))]
        if f == 'node':
            met = True
        if f == 'crash' and met:
            W.count('fault_crash')
            if not r.crashed:
                return [V('crash', 'simulated crash ends in %s' % r.how())]
            return self.again(scn, W, dirs)
        if f == 'refuse':
            return self.refuse(scn, W, r, dirs)
        if met:
            W.count('fault_' + f)
            if r.ok:
                return [V('success', 'fault %s %s: the run reports success' % (f, scn.get('acts') or scn['plans']['run'].get('faults') or ''))]
            if not r.failed:
                return [V('killed', 'fault %s: the run ends by %s' % (f, r.how()))]
            return self.partial(scn, W, r, dirs)
        if not r.ok:
            return [V('fails', 'a correct run fails: ' + r.how())]
        if len(dirs) != 1:
            return [V('dirs', 'res contains %s' % dirs)]
        res = 'res/' + dirs[0]
        vs = judge_results(scn, W, res, n, True) or judge_calls(scn, W, res, n)
        if vs or f != 'twice':
            W.count('complete_runs')
            return vs
        return self.again(scn, W, dirs)

    def iterations(self, W, res):
        its = sorted(int(x) for x in os.listdir(W.path(res)) if x.isdigit() and W.exists('%s/%s/stats' % (res, x)))
        return its

    def partial(self, scn, W, r, dirs):
        """After an orderly failure: earlier iterations are complete and right, nothing is reported beyond."""
        if not dirs:
            return []
        if len(dirs) != 1:
            return [V('dirs', 'res contains %s' % dirs)]
        res = 'res/' + dirs[0]
        its = self.iterations(W, res)
        if its != list(range(len(its))):
            return [V('iterations', 'there are results of the iterations %s' % its)]
        if scn['fault'] == 'child':
            k = int(next(iter(scn['acts'])))
            if len(its) != (k - 1) // 3 + 1 or len(log_of(W)) != k:
                return [V('later', 'child process %d failed (%s), but %d iterations were begun and %d child processes called' % (
                    k, scn['acts'][str(k)], len(its), len(log_of(W))))]
            if W.exists('%s/%d/stats/abs_workloads.csv' % (res, its[-1])):
                return [V('later', 'child process %d failed (%s), but workloads are reported' % (k, scn['acts'][str(k)]))]
        if len(its) > 1:
            return judge_results(scn, W, res, len(its) - 1, False)
        return []

    def refuse(self, scn, W, r, dirs):
        """Workloads may be zero: whether the update is refused is known if cheapest paths are unique."""
        if not r.ok and not r.failed:
            return [V('killed', 'the run ends by ' + r.how())]
        if len(dirs) != 1:
            return [V('dirs', 'res contains %s' % dirs)]
        res = 'res/' + dirs[0]
        its = self.iterations(W, res)
        W.count('refuse_ok' if r.ok else 'refuse_failed')
        if r.ok:
            return judge_results(scn, W, res, scn['updates'] + 1, True)
        vs = judge_results(scn, W, res, len(its) - 1, False) if len(its) > 1 else []
        if vs:
            return vs
        if scn['algo'][0] == 'X' or not its:
            return [] if its else [V('fails', 'a correct run fails: ' + r.how())]
        return self.justified(scn, W, r, res, its[-1])

    def justified(self, scn, W, r, res, it):
        """The failed iteration `it` had to fail."""
        g, d, nch = scn['g'], scn['g']['dim'], scn['nch']
        p = '%s/%d/' % (res, it)
        nm = nch + (1 if it else 0)
        chn, che = read_map(W, p + 'graph.ch.fmi', nm)
        h = {'dim': nm, 'nodes': [[x[1], x[2], x[3], int(x[5])] for x in chn],
             'edges': [[i, a, b, ms, [int(x) for x in rest] if rest[0] != '-1' else None] for i, a, b, ms, rest in che]}
        if not it:
            h['dim'] += 1
            for e in h['edges']:
                e[3] = e[3] + [1.0]
        try:
            R = model.Ref(h, level=True)
        except model.Reject:
            return []
        al = [0.0] * (nch + 1)
        for m, a, _ in scn['metrics']:
            if m == wid(scn):
                al[nch] = float(a) if it else 0.0
            else:
                al[int(m[1:])] = float(a)
        cache, use = {}, {}
        for s, t, c in scn['pairs']:
            if s == t or not c or t not in R.reachable(s):
                continue
            q = ev.unique_base_path(R, s, t, al, cache, ev.slack_of(scn, R, al))
            if q is None:
                return []
            for e in q:
                use[e['id']] = use.get(e['id'], 0) + c
        W.count('refusals_justified')
        if update(scn, it, [use.get(e['id'], 0) for e in R.edges], [e['m'][-1] for e in R.edges]) is not None:
            return [V('fails', 'iteration %d: a correct update fails: %s' % (it, r.how()))]
        return []

    def again(self, scn, W, dirs):
        """A second run must leave the files of the first one alone."""
        old = W.files('res')
        calls = len(log_of(W))
        W.remove('stub/n')
        r = W.cli('cfg.yaml', ['--balancing'], 'again')
        if r.hung:
            return [V('hang', 'the second run does not end: ' + r.how())]
        for k, b in old.items():
            if W.read(k) != b:
                return [V('overwritten', 'a second run changed %s of an earlier one (%d bytes, now %d)' % (k, len(b), len(W.read(k) or b'')))]
        new = [x for x in os.listdir(W.path('res')) if x not in dirs]
        W.count('second_runs')
        same = scn['plans']['again'].get('real') == scn['plans']['run'].get('real')
        if r.ok:
            if len(new) != 1:
                return [V('dirs', 'after a second run there are new results %s' % new)]
            res = 'res/' + new[0]
            return judge_results(scn, W, res, scn['updates'] + 1, True)
        if not same and dirs:
            return [V('fails', 'a correct second run fails: ' + r.how())]
        for x in dirs:
            fs = set(k for k in W.files('res/' + x))
            if fs - set(old):
                return [V('mixed', 'a second run adds %s to the results of an earlier one' % sorted(fs - set(old))[:3])]
        return []

    def mchc(self, scn, W):
        """The repository's own driver of the contraction tool."""
        g = scn['g']
        ids = [x[0] for x in g['nodes']]
        idx = {i: k for k, i in enumerate(ids)}
        L = [str(g['dim']), str(len(ids)), str(len(g['edges']))]
        L += ['%d %d %r %r 0 0' % (k, x[0], x[1], x[2]) for k, x in enumerate(g['nodes'])]
        L += [' '.join(['%d' % k, '%d' % idx[e[1]], '%d' % idx[e[2]]] + [repr(m) for m in e[3]] + ['-1', '-1']) for k, e in enumerate(g['edges'])]
        W.write('g.fmi', '\n'.join(L) + '\n')
        c = {'fmi-graph': 'g.fmi', 'contracted-graph': 'h.fmi', 'dimension': g['dim'], 'is_printing_osm-ids': True, 'is_using_external_edge-ids': True}
        c['contraction-ratio'] = scn['ratio']
        c['number_of_threads'] = scn['chthreads']
        W.write('cfg.yaml', gen.yaml({'multi-ch-constructor': c}))
        k = scn['stubseed'] % 7
        act = [None, None, 'exit', 'kill', 'exitafter', 'killmid 5', 'killafter'][k]
        which = 3 if k > 3 else 1 + scn['stubseed'] // 7 % 3
        if act:
            W.write('stub/act.%d' % which, act)
        r = W.run('mchc', ['-c', 'cfg.yaml', '-l', 'ERROR'], 'run')
        if r.hung:
            return [V('hang', 'the constructor does not end: ' + r.how())]
        W.count('constructor_runs')
        if act:
            return [V('success', 'child process %d fails (%s): the constructor reports success' % (which, act))] if r.ok else []
        if not r.ok:
            return [V('fails', 'a correct construction fails: ' + r.how())]
        a = log_of(W)
        o = dict(zip(a[-1], a[-1][1:]))
        if len(a) != 3 or 'GRAPH_DIM=%d' % g['dim'] not in a[0] or o.get('--percent') != scn['ratio'] or o.get('--threads') != str(scn['chthreads']) \
                or o.get('--text') != 'g.fmi' or o.get('--write') != 'h.fmi':
            return [V('calls', 'the constructor calls %s' % a)]
        return []

    def nontrivial(self, scn, s):
        return any(k.startswith(('updates', 'fault', 'refus', 'second', 'constr')) for k in s['measure'])

    def shrink_lists(self, scn):
        return [['pairs'], ['g', 'edges'], ['g', 'nodes']] if scn['fault'] in ('none', 'refuse', 'twice') else [['pairs']]

    def valid(self, scn):
        ids = {e[1] for e in scn['g']['edges']} | {e[2] for e in scn['g']['edges']}
        return bool(scn['g']['edges']) and ids <= {x[0] for x in scn['g']['nodes']} and (
            scn['fault'] == 'refuse' or any(p[0] != p[1] and p[2] for p in scn['pairs']))


# ------------------------------------------------------------------ balancing as a part of other properties
def twice_same(scn, W):
    """One portion for one worker: nothing may differ between two runs."""
    put(scn, W)
    trees = []
    for j in ('run', 'again'):
        old = set(os.listdir(W.path('res'))) if W.exists('res') else set()
        W.remove('stub/n')
        r = W.cli('cfg.yaml', ['--balancing'], j)
        if not r.ok:
            return [V('fails', 'a correct balancing fails: ' + r.how())]
        new = set(os.listdir(W.path('res'))) - old
        if len(new) != 1:
            return []
        d = 'res/%s/' % new.pop()
        trees.append({k[len(d):]: b for k, b in W.files(d[:-1]).items()})
    W.count('compared_balancings')
    for k in sorted(set(trees[0]) | set(trees[1])):
        if trees[0].get(k) != trees[1].get(k):
            return [V('differs', '%s differs between two balancing runs of the same input and seed: %s' % (k, ev.first_diff(trees[0].get(k), trees[1].get(k))))]
    return []


def crashed(scn, W):
    """Whatever a crashed run leaves is a beginning of what an undisturbed one writes, and a further run is not affected."""
    put(scn, W)
    inputs = {k: W.read(k) for k in ('map.fmi', 'in/trips.route-pairs', 'cfg.yaml', 'in/init.yaml', 'in/iteration.yaml')}
    trees = []
    for j in ('ref', 'run', 'again'):
        old = set(os.listdir(W.path('res'))) if W.exists('res') else set()
        W.remove('stub/n')
        r = W.cli('cfg.yaml', ['--balancing'], j)
        for k, b in inputs.items():
            if W.read(k) != b:
                return [V('input', 'the run changed its input %s' % k)]
        if j != 'run' and not r.ok:
            return [V('fails', 'a correct balancing fails: ' + r.how())]
        if j == 'run' and not r.crashed:
            if r.ok:
                return []
            return [V('crash', 'simulated crash ends in %s' % r.how())]
        new = set(os.listdir(W.path('res'))) - old
        d = 'res/%s/' % new.pop() if new else None
        trees.append({k[len(d):]: b for k, b in W.files(d[:-1]).items()} if d else {})
    ref, torn, again = trees
    W.count('crashed_balancings')
    for k, b in torn.items():
        if k not in ref:
            return [V('extra', 'a crashed balancing leaves %s, which an undisturbed one does not write' % k)]
        if not ref[k].startswith(b):
            return [V('notprefix', '%s is no beginning of the correct file after a crash of balancing: %s' % (k, ev.first_diff(ref[k], b)))]
    for k in sorted(set(ref) | set(again)):
        if ref.get(k) != again.get(k):
            return [V('rerun', '%s differs after a crash from that of an undisturbed balancing: %s' % (k, ev.first_diff(ref.get(k), again.get(k))))]
    return []


def calm(rng, scn):
    """One worker with one portion, and tools without faults."""
    scn['threads'] = 1
    scn['pairs'] = scn['pairs'][:70]
    scn.pop('acts', None)
    return scn


def gen_same(rng, scn):
    scn = calm(rng, scn)
    for j in ('run', 'again'):
        p = noise(rng, clocks(rng, sched(rng)), heavy=rng.random() < .15)
        p['real'] = rng.randint(10**9, 2 * 10**9) * 10**9
        scn['plans'][j] = p
    return scn


def gen_crash(rng, scn):
    scn = calm(rng, scn)
    now = rng.randint(10**9, 2 * 10**9)
    for k, j in enumerate(('ref', 'run', 'again')):
        p = noise(rng, sched(rng), heavy=rng.random() < .15) if j != 'ref' else {'seed': 1}
        p['real'] = (now + k * 86400) * 10**9
        scn['plans'][j] = p
    op = rng.choice(['write', 'write', 'write', 'write', 'creat', 'mkdir', 'spawn', 'read'])
    sub = rng.choice(['*', 'res/', '.fmi', 'edges-info', 'abs_work', 'balanced', 'smarts']) if op in ('write', 'creat') else '*'
    scn['plans']['run']['faults'] = [[op, sub, rng.choice([1, 1, 2, 3, rng.randint(1, 12), rng.randint(1, 60)]), 'crash', rng.choice([0, 1, rng.randint(1, 200), rng.randint(1, 9000)])]]
    return scn


def gen_input(rng, scn):
    """A read or open of an input fails."""
    scn['fault'] = 'io'
    op = rng.choice(['read', 'read', 'open'])
    scn['plans']['run']['faults'] = [[op, rng.choice(['map.fmi', 'route-pairs', 'route-pairs', 'edges-info', 'graph.ch.fmi', 'iteration.yaml', 'init.yaml', 'cfg.yaml']), rng.choice([1, 1, 2, 3, 4]),
                                      rng.choice(['err', 'stick']), ERR[rng.choice(['EIO', 'EIO', 'EACCES'])]]]
    return scn


# property: share of scenarios, their faults, what to adapt, how to judge, which violations belong to the property
ELSEWHERE = {
    'C01': (.10, ['none'], None, None, lambda v: getattr(v, 'trips', False)),
    'C02': (.10, ['none'], gen_same, twice_same, lambda v: v.kind == 'differs'),
    'C03': (.08, ['none', 'child', 'child', 'node', 'node', 'thread', 'spawn'], None, None, lambda v: v.kind in ('hang', 'success', 'later', 'fails', 'killed')),
    'C05': (.06, ['none'], gen_input, None, lambda v: v.kind == 'success'),
    'C07': (.10, ['none', 'io', 'io', 'io', 'quota', 'quota'], None, None, lambda v: v.kind in ('success', 'form', 'copy', 'config')),
    'C08': (.08, ['twice', 'crash'], None, None, lambda v: v.kind in ('overwritten', 'mixed', 'input')),
    'C15': (.15, ['none'], gen_crash, crashed, lambda v: v.kind in ('input', 'extra', 'notprefix', 'rerun')),
}


def with_balancing(cls):
    share, faults, adapt, judge, mine = ELSEWHERE[cls.id]

    class P(cls):
        real = list(cls.real) + ['balancing pipeline, in %d %% of the scenarios' % round(100 * share)]
        stub = list(cls.stub) + [x for x in STUB if x not in cls.stub]

        def __init__(self, *a):
            super().__init__(*a)
            self.bal = C13(*a)

        def gen(self, rng, i, tier):
            if rng.random() >= share:
                return super().gen(rng, i, tier)
            scn = self.bal.gen(rng, i, tier, faults)
            if adapt:
                scn = adapt(rng, scn)
            scn['balancing'] = True
            return scn

        def judge(self, scn, W):
            if not scn.get('balancing'):
                return super().judge(scn, W)
            try:
                return [v for v in (judge or self.bal.judge_)(scn, W) or () if mine(v)]
            except Bad as e:
                return [v for v in [V('form', str(e))] if mine(v)]

        def nontrivial(self, scn, s):
            return bool(s['measure']) if scn.get('balancing') else super().nontrivial(scn, s)

        def shrink_lists(self, scn):
            return self.bal.shrink_lists(scn) if scn.get('balancing') else super().shrink_lists(scn)

        def valid(self, scn):
            return self.bal.valid(scn) if scn.get('balancing') else super().valid(scn)
    P.__name__ = cls.__name__
    return P
