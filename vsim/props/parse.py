"""Reading maps and edge-infos (C04, C05, C16)."""
import random
from .. import gen, model
from ..core import Prop, V, sched, clocks, noise, ERR

REAL = ['osmgraphing library (configs, fmi/pbf/csv parsers, graph builder, graph accessors)', 'osmgraphing binary for route-pairs and configs']
STUB = ['scheduler, clocks, getrandom and file I/O (shim/sim.c)']


def ioplan(rng, threads=False):
    return noise(rng, clocks(rng, sched(rng, threads)), write=False)


def load(W, cfg='cfg.yaml', key='run', name='g', **kw):
    """Loads a graph through the library: (Result, Dump or None)."""
    r = W.api('load %s %s\ndump %s\n' % (name, cfg, name), key, **kw)
    graphs, failed, _, ended = model.parse_api(r.out)
    if r.ok and not ended:
        return r, None
    return r, graphs.get(name) if r.ok else None


class C04(Prop):
    id = 'C04'
    counts = {'quick': 8000, 'thorough': 60000}
    wall = {'quick': 240, 'thorough': 3000}
    rule = 'distinct (scenario, execution hash) whose map loads (or has to be rejected); most with short or interrupted reads'
    real, stub = REAL, STUB
    assumptions = ['metric values lie between 10^-2 and 10^8, or are 0, or tiny; coordinates have at most 7 decimals']

    def gen(self, rng, i, tier):
        n = rng.choice([2, 2, 3, rng.randint(4, 10), rng.randint(10, 60), rng.randint(60, 300) if rng.random() < .2 else 8])
        ch = rng.random() < .35
        huge = rng.random() < .002
        if huge:
            n, ch = rng.choice([20000, 70000]), False
        g = gen.graph(rng, n=n, dim=rng.randint(1, 5) if not huge else 1, kind=rng.choice([None, None, 'precise', 'wide']), loops=rng.random() < .3, corner=rng.random() < .1, **({'m': 70000, 'shape': 'random'} if huge else {}))
        if ch:
            g = gen.contract(rng, g, ratio=rng.choice([.3, .7, 1.0]), max_edges=600)
        if rng.random() < .4:
            # duplicates of edges, next to or far from the original
            for _ in range(rng.randint(1, 6)):
                k = rng.randrange(len(g['edges']))
                e = g['edges'][k]
                if e[4]:
                    continue
                o, k = k, k + 1 if not ch and rng.random() < .5 else len(g['edges'])
                if ch and rng.random() < .8:
                    # shortcuts may refer to any of both
                    for x in g['edges']:
                        if x[4]:
                            x[4] = [k if y == o and rng.random() < .5 else y for y in x[4]]
                g['edges'].insert(k, [max(x[0] for x in g['edges']) + 1 if e[0] is not None and rng.random() < .9 else e[0]] + list(e[1:3]) + [list(e[3])] + [None])
        if rng.random() < .2:
            for _ in range(rng.randint(1, 4)):
                e = rng.choice(g['edges'])
                e[3][rng.randrange(g['dim'])] = rng.choice([0.0, 1e-7, 5e-7, 1e-6, 2e-6])
        bad = rng.random()
        if bad < .03:
            x = rng.choice(g['nodes'])
            g['nodes'].remove(x)
        elif bad < .05:
            rng.choice(g['edges'])[3][0] = -rng.choice([1.0, .25, 1e-3])
        elif bad < .07 and g['edges'][0][0] is not None:
            rng.choice(g['edges'])[0] = rng.choice(g['edges'])[0]
        if ch and g['edges'][0][0] is not None and rng.random() < .6:
            for e in g['edges']:
                e.append(1 if e[4] else 0)
        level = ch or rng.random() < .15
        if level and not ch:
            for x in g['nodes']:
                x[3] = rng.randint(0, 4) if rng.random() < .8 else rng.choice([255, 256, 300, 65536, 2**32 + 5])
        nc, ec = gen.default_cols(g, level=level, sc=ch)
        if rng.random() < .7:
            nc, ec = gen.shuffle_cols(rng, nc, ec)
        p = ioplan(rng)
        if huge:
            p = dict({k: v for k, v in p.items() if k not in ('pshort', 'peintr', 'slow')}, maxev=5 * 10**9)
        name = 'map.fmi' if rng.random() < .8 else rng.choice(['a.b.fmi', 'a b.fmi', 'sub/map.fmi', 'x.pbf.fmi', 'gr\u00f6\u00dfe.fmi', './map.fmi', 'MAP.FMI', 'sub.csv/x.Fmi', '.x.fmi'])
        return dict(name=name, g=g, nc=nc, ec=ec, units=gen.units(rng, g['dim']), level=level, ch=ch, style=rng.choice([None, rng.getrandbits(30), rng.getrandbits(30)]),
                    norm=rng.choice([None, False, True]), eid=g['edges'][0][0] is None and rng.random() < .3, plans={'run': p})

    def judge(self, scn, W):
        g = scn['g']
        W.write(scn['name'], gen.fmi(g, scn['nc'], scn['ec'], scn['style']))
        ge = gen.gen_meta('EdgeId') if scn['eid'] else []
        W.write('cfg.yaml', gen.yaml({'parsing': gen.parsing(scn['name'], scn['nc'], scn['ec'], scn['units'], gen_edges=ge, normalize=scn['norm'])}, scn['style']))
        r, d = load(W)
        if r.hung:
            return [V('hang', 'loading the map never ends: ' + r.how())]
        try:
            ref = model.Ref(g, level=scn['level'])
            if scn['norm']:
                n = len(ref.edges)
                if any(sum(e['m'][k] for e in ref.edges) / n <= 2e-6 for k in range(ref.dim)):
                    return []
                ref.normalize()
        except model.Reject as e:
            W.count('rejected')
            return [V('accepts', 'the map is loaded though ' + str(e))] if d else []
        if d is None:
            return [V('fails', 'a correct map is not loaded: %s %s' % (r.how(), r.out[:200]))]
        W.count('graphs')
        W.count('edges', len(ref.edges))
        diff = model.compare(ref, d, ids=not scn['eid'])
        return [V('graph', '; '.join(diff))] if diff else []

    def nontrivial(self, scn, s):
        return bool(s['measure'])

    def shrink_lists(self, scn):
        return [['g', 'edges'], ['g', 'nodes']] if not scn['ch'] else []

    def valid(self, scn):
        return bool(scn['g']['edges'])


class C05(Prop):
    id = 'C05'
    counts = {'quick': 4000, 'thorough': 60000}
    wall = {'quick': 240, 'thorough': 3000}
    rule = 'distinct (scenario, execution hash) in which the fault was met (error, early end of file, or missing bytes) or the unfaulted input was loaded completely'
    real, stub = REAL, STUB
    assumptions = ['a file that ends early counts as truncated if fewer records follow than its header declares (maps, route-pairs), if a PBF blob is cut, or if the YAML is cut']

    def gen(self, rng, i, tier):
        what = rng.choice(['map', 'map', 'map', 'pbf', 'pbf', 'csv', 'pairs', 'pairs', 'cfg'])
        how = rng.choice(['none', 'err', 'err', 'stick', 'open', 'trunc', 'cut', 'cut'])
        big = rng.random() < .4
        n = rng.randint(150, 400) if big else rng.randint(2, 30)
        scn = dict(what=what, how=how)
        plan = sched(rng, threads=what == 'pbf')
        noise(rng, plan, heavy=rng.random() < .6, write=False)
        if what == 'pbf':
            from . import pbf
            scn['pbf'] = pbf.small_map(rng, ways=rng.randint(20, 120) if big else rng.randint(2, 10))
            name = 'map.osm.pbf'
        else:
            g = gen.graph(rng, n=min(n, 30) if what == 'pairs' else n, dim=rng.randint(1, 3), edge_ids=True)
            nc, ec = gen.default_cols(g)
            nc, ec = (gen.shuffle_cols(rng, nc, ec) if rng.random() < .5 else (nc, ec))
            scn.update(g=g, nc=nc, ec=list(ec) + ['ign'], units=gen.units(rng, g['dim']))
            name = {'map': 'map.fmi', 'csv': 'info.csv', 'pairs': 'trips.route-pairs', 'cfg': 'cfg.yaml'}[what]
            if what == 'csv':
                scn['csv'] = [[e[0], gen.metric(rng, rng.choice(['mid', 'precise']))] for e in g['edges']]
                rng.shuffle(scn['csv'])
            if what == 'pairs':
                ids = sorted({e[1] for e in g['edges']} | {e[2] for e in g['edges']})
                scn['pairs'] = [[rng.choice(ids), rng.choice(ids), rng.choice([1, 1, 2, 9])] for _ in range(rng.randint(60, 1200) if big else rng.randint(1, 30))]
                scn['mode'] = rng.choice(['--routing', '--evaluating_balance', '--evaluating_balance'])
        nth = rng.choice([1, 1, 2, 2, 3, 4, 5, rng.randint(1, 30)])
        if 'chunk' in plan and plan['chunk'] < 20:
            nth = rng.choice([nth, rng.randint(1, 400)])
        if how in ('err', 'stick'):
            plan['faults'] = [['read', name, nth, how, rng.choice([ERR['EIO'], ERR['EIO'], ERR['ENOMEM'], ERR['EAGAIN'], ERR['EISDIR']])]]
        elif how == 'open':
            plan['faults'] = [['open', name, rng.choice([1, 1, 2, 2, 3]), rng.choice(['err', 'stick']), rng.choice([ERR['EIO'], ERR['EMFILE'], ERR['EACCES'], ERR['ENOENT']])]]
        elif how == 'trunc':
            plan['faults'] = [['read', name, nth, 'trunc', rng.choice([0, 0, 1, rng.randint(1, 5000)])]]
        elif how == 'cut':
            scn['cut'] = rng.random()
            scn['cutkind'] = rng.choice(['any', 'any', 'line'])
        if what != 'cfg' or how not in ('trunc', 'cut'):
            # the end of blocks may be missing without anybody being able to tell
            scn['ystyle'] = rng.choice([None, rng.getrandbits(30)])
        scn['plans'] = {'run': plan}
        return scn

    def texts(self, scn):
        """File name -> content; which file the fault concerns."""
        if scn['what'] == 'pbf':
            from . import pbf
            data, cfg, _ = pbf.build(scn['pbf'])
            return {'map.osm.pbf': data, 'cfg.yaml': gen.yaml({'parsing': cfg}, scn.get('ystyle')).encode()}, 'map.osm.pbf'
        g = scn['g']
        f = {'map.fmi': gen.fmi(g, scn['nc'], scn['ec']).encode()}
        ge = []
        target = 'map.fmi'
        cfg = {}
        if scn['what'] == 'csv':
            f['info.csv'] = ('edge-id extra\n' + ''.join('%d %s x\n' % (a, gen.num(b)) for a, b in scn['csv'])).encode()
            ge = [{'custom': {'unit': 'F64', 'id': 'extra', 'default': 7.5}},
                  {'merge': {'from': 'info.csv', 'edge-id': 'edge-id', 'edges-info': [{'id': 'edge-id'}, {'id': 'extra'}, 'ignored']}}]
            target = 'info.csv'
        elif scn['what'] == 'pairs':
            f['trips.route-pairs'] = gen.route_pairs_text(scn['pairs']).encode()
            cfg['routing'] = {'route-pairs-file': 'trips.route-pairs', 'algorithm': 'Dijkstra', 'metrics': [{'id': 'm0'}]}
            cfg['evaluating_balance'] = {'results-dir': 'res', 'number_of_threads': 1, 'monitoring': {'edges-info': {'file': 'edges-info.csv', 'ids': [{'id': 'edge-id'}]}}}
            target = 'trips.route-pairs'
        elif scn['what'] == 'cfg':
            target = 'cfg.yaml'
        cfg['parsing'] = gen.parsing('map.fmi', scn['nc'], scn['ec'], scn['units'], gen_edges=ge)
        f['cfg.yaml'] = gen.yaml(cfg, scn.get('ystyle')).encode()
        return f, target

    def cut(self, scn, data):
        """The file with its end missing, and whether the loss can be told."""
        body = data.rstrip()
        k = int(scn['cut'] * len(body))
        if scn['cutkind'] == 'line' and scn['what'] != 'pbf':
            k = data.rfind(b'\n', 0, k) + 1
        if scn['what'] == 'pbf':
            from . import pbf
            return data[:k], not pbf.is_boundary(data, k)
        return data[:k], scn['what'] != 'csv'

    def judge(self, scn, W):
        files, target = self.texts(scn)
        detectable = True
        if scn['how'] == 'cut':
            files[target], detectable = self.cut(scn, files[target])
        for k, v in files.items():
            W.write(k, v)
        if scn['what'] == 'pairs':
            r = W.cli('cfg.yaml', [scn['mode']], 'run')
            good = r.ok
        else:
            r, d = load(W)
            good = d is not None
        if r.hung:
            return [V('hang', '%s of %s: loading never ends: %s' % (scn['how'], scn['what'], r.how()))]
        met = scn['how'] == 'cut' or any(r.hits)
        if scn['how'] == 'none' or not met:
            if not good:
                return [V('fails', 'intact input is not loaded: %s %s' % (r.how(), r.out[:200]))]
            W.count('intact')
            return self.complete(scn, W, None if scn['what'] == 'pairs' else d)
        W.count('faulted_%s_%s' % (scn['what'], scn['how']))
        if not good:
            W.count('reported')
            return []
        if scn['how'] in ('err', 'stick', 'open'):
            return [V('error', '%s of %s fails with errno %d, but loading succeeds' % (scn['plans']['run']['faults'][0][0], target, scn['plans']['run']['faults'][0][4]))]
        if scn['how'] == 'cut':
            return [V('cut', '%s is cut to %d bytes, but loading succeeds' % (target, len(files[target])))] if detectable else []
        # the end of the file came too early in one of the passes over it
        if scn['what'] in ('csv', 'pbf'):
            return []
        v = self.complete(scn, W, None if scn['what'] == 'pairs' else d)
        return [V('trunc', '%s ends early, but loading succeeds: %s' % (target, v[0].msg))] if v else []

    def complete(self, scn, W, d):
        """Complaints unless everything that was described is there."""
        if scn['what'] == 'pbf':
            from . import pbf
            _, _, ref = pbf.build(scn['pbf'])
            diff = pbf.compare(ref, d)
        elif scn['what'] == 'pairs':
            if scn['mode'] == '--routing':
                return []
            from . import eval as ev
            s = dict(scn, ch=False, norm=False, algo='Dijkstra', metrics=[['m0', 1, None]], smarts=None)
            return ev.judge_results(s, W, 'res', model.Ref(scn['g']), scn['pairs'])
        else:
            ref = model.Ref(scn['g'])
            if scn['what'] == 'csv':
                val = dict(map(tuple, scn['csv']))
                for e in ref.edges:
                    e['m'].append(val[e['id']])
                ref.dim += 1
            diff = model.compare(ref, d, level=False)
        return [V('graph', '; '.join(diff))] if diff else []

    def nontrivial(self, scn, s):
        return bool(s['measure'])

    def shrink_lists(self, scn):
        return [['pairs']] if 'pairs' in scn else []


CONV = {'Meters': ('d', 1.0), 'Kilometers': ('d', 1000.0), 'Seconds': ('t', 1.0), 'Minutes': ('t', 60.0), 'Hours': ('t', 3600.0)}


def convert(a, b, x):
    if a == b or b == 'F64' or a == 'F64':
        return x
    if a in CONV and b in CONV and CONV[a][0] == CONV[b][0]:
        return x * CONV[a][1] / CONV[b][1]
    raise model.Reject('unit %s cannot become %s' % (a, b))


class C16(Prop):
    id = 'C16'
    counts = {'quick': 8000, 'thorough': 60000}
    wall = {'quick': 240, 'thorough': 3000}
    rule = 'distinct (scenario, execution hash) with at least one generated or merged metric, or a merge that has to be rejected'
    real, stub = REAL, STUB
    assumptions = ['at most five metrics per edge (the capacity the library is built for)']

    def gen(self, rng, i, tier):
        g = gen.graph(rng, n=rng.choice([2, 3, rng.randint(4, 12), rng.randint(12, 60)]), dim=rng.randint(1, 3), loops=rng.random() < .2, multi=False)
        un = gen.units(rng, g['dim'])
        hasid = g['edges'][0][0] is not None
        nc, ec = gen.default_cols(g)
        if rng.random() < .6:
            nc, ec = gen.shuffle_cols(rng, nc, ec)
        steps = []
        cur = [['m%d' % k, un[k]] for k in range(g['dim'])]
        haveid = hasid
        if not hasid and rng.random() < .7:
            steps.append({'op': 'eid'})
            haveid = True
        nid = 0
        for _ in range(rng.randint(1, 7)):
            k = rng.choice(['custom', 'haversine', 'copy', 'convert', 'calc', 'merge', 'merge', 'merge', 'meta'])
            room = len(cur) < 5
            nid += 1
            if k == 'meta':
                info = rng.choice(['SrcIdx', 'DstIdx', 'SrcLat', 'SrcLon', 'DstLat', 'DstLon'])
                if not any(s['op'] == 'meta' and s['info'] == info for s in steps):
                    steps.append({'op': 'meta', 'info': info})
            elif k == 'custom' and room:
                u = rng.choice(gen.UNITS)
                dflt = rng.choice([None, 0.0, 1.0, 3.25, 100.0])
                steps.append({'op': 'custom', 'unit': rng.choice([None, u]), 'id': 'g%d' % nid, 'default': dflt})
                cur.append(['g%d' % nid, steps[-1]['unit'] or 'F64'])
            elif k == 'haversine' and room:
                steps.append({'op': 'haversine', 'id': 'g%d' % nid})
                cur.append(['g%d' % nid, 'Kilometers'])
            elif k in ('copy', 'convert') and (room or k == 'convert'):
                c = rng.choice(cur)
                ok = [u for u in gen.UNITS if u == c[1] or u == 'F64' or c[1] == 'F64' or (u in CONV and c[1] in CONV and CONV[u][0] == CONV[c[1]][0])]
                to = rng.choice(ok)
                steps.append({'op': k, 'from': list(c), 'to': ['g%d' % nid, to]})
                if k == 'copy':
                    cur.append(['g%d' % nid, to])
                else:
                    cur[cur.index(c)] = ['g%d' % nid, to]
            elif k == 'calc' and room:
                km = [c for c in cur if c[1] == 'Kilometers']
                sp = [c for c in cur if c[1] == 'KilometersPerHour']
                hh = [c for c in cur if c[1] == 'Hours']
                if km and sp:
                    u = rng.choice(['Seconds', 'Minutes', 'Hours'])
                    steps.append({'op': 'calc', 'a': list(rng.choice(km)), 'b': list(rng.choice(sp)), 'to': ['g%d' % nid, u]})
                    cur.append(['g%d' % nid, u])
                elif km and hh:
                    steps.append({'op': 'calc', 'a': list(rng.choice(km)), 'b': list(rng.choice(hh)), 'to': ['g%d' % nid, 'KilometersPerHour']})
                    cur.append(['g%d' % nid, 'KilometersPerHour'])
            elif k == 'merge' and haveid:
                mids = rng.sample([c[0] for c in cur], rng.randint(1, len(cur)))
                cols = ['edge-id'] + mids
                rng.shuffle(cols)
                for _ in range(rng.randint(0, 2)):
                    cols.insert(rng.randrange(len(cols) + 1), None)
                # rows: [edge (src, dst, id), values]
                es = rng.sample(range(len(g['edges'])), rng.choice([len(g['edges']), rng.randint(0, len(g['edges']))]))
                rows = [[e, [gen.metric(rng, rng.choice(['mid', 'precise', 'wide'])) if rng.random() < .9 else rng.choice([1e-3, 123456.75]) for _ in mids]] for e in es]
                for _ in range(rng.randint(0, 2)):
                    if rows:
                        rows.append([rng.choice(rows)[0], [gen.metric(rng, 'mid') for _ in mids]])
                steps.append({'op': 'merge', 'cols': cols, 'mids': mids, 'rows': rows, 'header': rng.choice([None, True, False]), 'style': rng.choice([None, rng.getrandbits(30)]),
                              'bad': rng.choice([None] * 9 + ['unknown', 'column', 'value', 'idvalue']) if rows else None, 'badrow': rng.random()})
        return dict(g=g, nc=nc, ec=ec, units=un, steps=steps, norm=rng.choice([None, False, True]), style=rng.choice([None, rng.getrandbits(30)]),
                    plans={'run': ioplan(rng)})

    def judge(self, scn, W):
        g = scn['g']
        W.write('map.fmi', gen.fmi(g, scn['nc'], scn['ec'], scn['style']))
        ref = model.Ref(g)
        byend = {(e['src'], e['dst']): e for e in ref.edges}
        names = ['m%d' % k for k in range(g['dim'])]
        gs = []
        bad = None
        nmerge = 0
        for s in scn['steps']:
            op = s['op']
            if op == 'eid':
                gs += gen.gen_meta('EdgeId')
                ref.number_edges()
            elif op == 'meta':
                gs += gen.gen_meta(s['info'])
            elif op == 'custom':
                c = {'id': s['id']}
                if s['unit'] is not None:
                    c['unit'] = s['unit']
                if s['default'] is not None:
                    c['default'] = s['default']
                gs.append({'custom': c})
                for e in ref.edges:
                    e['m'].append(s['default'] or 0.0)
                names.append(s['id'])
            elif op == 'haversine':
                gs.append({'haversine': {'unit': 'Kilometers', 'id': s['id']}})
                for e in ref.edges:
                    e['m'].append(model.haversine(ref.coord[e['src']], ref.coord[e['dst']]))
                names.append(s['id'])
            elif op in ('copy', 'convert'):
                gs.append({op: {'from': {'id': s['from'][0], 'unit': s['from'][1]}, 'to': {'id': s['to'][0], 'unit': s['to'][1]}}})
                k = names.index(s['from'][0])
                for e in ref.edges:
                    x = convert(s['from'][1], s['to'][1], e['m'][k])
                    if op == 'copy':
                        e['m'].append(x)
                    else:
                        e['m'][k] = x
                if op == 'copy':
                    names.append(s['to'][0])
                else:
                    names[k] = s['to'][0]
            elif op == 'calc':
                gs.append({'calc': {'result': {'id': s['to'][0], 'unit': s['to'][1]}, 'a': {'id': s['a'][0], 'unit': s['a'][1]}, 'b': {'id': s['b'][0], 'unit': s['b'][1]}}})
                a, b = names.index(s['a'][0]), names.index(s['b'][0])
                f = {'Seconds': 3600.0, 'Minutes': 60.0, 'Hours': 1.0, 'KilometersPerHour': 1.0}[s['to'][1]]
                for e in ref.edges:
                    with_zero = e['m'][b] == 0
                    e['m'].append(float('nan') if with_zero else f * e['m'][a] / e['m'][b])
                    if with_zero:
                        return []
                names.append(s['to'][0])
            elif op == 'merge':
                fn = 'info%d.csv' % nmerge
                nmerge += 1
                L = self.lines(s, g, byend, ref)
                W.write(fn, '\n'.join(L) + ('\n' if L and (s['style'] is None or s['style'] % 4) else ''))
                m = {'from': fn, 'edge-id': 'edge-id', 'edges-info': ['ignored' if c is None else {'id': c} for c in s['cols']]}
                if s['header'] is not None:
                    m['with_header-line'] = s['header']
                gs.append({'merge': m})
                if s['bad'] and not bad:
                    bad = s['bad']
                for row, vals in s['rows']:
                    e = byend[g['edges'][row][1], g['edges'][row][2]]
                    for mid, v in zip(s['mids'], vals):
                        e['m'][names.index(mid)] = v
        ref.dim = len(names)
        W.write('cfg.yaml', gen.yaml({'parsing': gen.parsing('map.fmi', scn['nc'], scn['ec'], scn['units'], gen_edges=gs, normalize=scn['norm'])}, scn['style']))
        r, d = load(W)
        if r.hung:
            return [V('hang', 'loading the map never ends: ' + r.how())]
        if bad:
            W.count('bad_' + bad)
            return [V('accepts', 'a merge with a bad line (%s) succeeds' % bad)] if d else []
        if scn['norm']:
            n = len(ref.edges)
            if any(abs(sum(e['m'][k] for e in ref.edges) / n) <= 2e-6 for k in range(ref.dim)):
                return []
            ref.normalize()
        if d is None:
            return [V('fails', 'correct steps fail: %s %s' % (r.how(), r.out[:200]))]
        W.count('graphs')
        W.count('steps', len(scn['steps']))
        diff = model.compare(ref, d, rel=1e-8)
        return [V('metrics', '; '.join(diff))] if diff else []

    def lines(self, s, g, byend, ref):
        rng = random.Random(s['style']) if s['style'] is not None else None
        L = []
        while rng and rng.random() < .2:
            L.append(rng.choice(['', '# 3 4 5', '# values']))
        if s['header'] is not False:
            L.append(' '.join(c or '_' for c in s['cols']))
        k = int(s['badrow'] * len(s['rows']))
        for n, (row, vals) in enumerate(s['rows']):
            e = byend[g['edges'][row][1], g['edges'][row][2]]
            val = dict(zip(s['mids'], [gen.num(v) for v in vals]))
            val['edge-id'] = str(e['id'])
            if s['bad'] and n == k:
                if s['bad'] == 'unknown':
                    val['edge-id'] = str(max(x['id'] for x in ref.edges) + 5)
                elif s['bad'] == 'value':
                    val[s['mids'][0]] = '1,5'
                elif s['bad'] == 'idvalue':
                    val['edge-id'] = 'e7'
            cells = [val[c] if c else '_' for c in s['cols']]
            if s['bad'] == 'column' and n == k:
                last = max(x for x, c in enumerate(s['cols']) if c)
                cells = cells[:last]
            if rng and rng.random() < .1:
                L.append(rng.choice(['', '# 3 4 5']))
            if rng and rng.random() < .05 and s['bad'] != 'column':
                cells.append(rng.choice(['7', 'x', '#']))
            L.append((rng.choice([' ', '\t', '  ']) if rng else ' ').join(cells))
            if rng and rng.random() < .05:
                L[-1] = rng.choice([' ', '\t', '']) + L[-1] + rng.choice([' ', '\r', '\t'])
        return L

    def nontrivial(self, scn, s):
        return bool(s['measure']) and bool(scn['steps'])

    def shrink_lists(self, scn):
        return [['steps']] + [['steps', k, 'rows'] for k, s in enumerate(scn['steps']) if s['op'] == 'merge']
