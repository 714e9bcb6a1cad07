"""Exports: completeness, no overwriting, round trips, crashes (C07, C08, C09, C15)."""
import os
from .. import gen, model
from ..core import Prop, V, sched, clocks, noise, ERR
from . import eval as ev, rp

REAL = ['osmgraphing binary and library (configs, parsers, graph builder, routing, all writers)', 'std BufWriter and File']
STUB = ['thread scheduler, clocks, getrandom, CPU count, file I/O and its failures, process death (shim/sim.c)']

NID = {'id': 'node-id', 'lat': 'latitude', 'lon': 'longitude', 'level': 'ch-level', 'idx': 'node-idx'}
EID = {'id': 'edge-id', 'src': 'src-id', 'dst': 'dst-id', 'sc0': 'sc-idx-0', 'sc1': 'sc-idx-1', 'srcidx': 'src-idx', 'dstidx': 'dst-idx',
       'srclat': 'src-lat', 'srclon': 'src-lon', 'dstlat': 'dst-lat', 'dstlon': 'dst-lon'}
META = {'srcidx': 'SrcIdx', 'dstidx': 'DstIdx', 'srclat': 'SrcLat', 'srclon': 'SrcLon', 'dstlat': 'DstLat', 'dstlon': 'DstLon'}
INT = ('id', 'src', 'dst', 'sc0', 'sc1', 'srcidx', 'dstidx', 'level', 'idx')


# ------------------------------------------------------------------ scenario
def world(rng, n=None, ch=None, kind=None):
    """A map and what to write of it."""
    scn = ev.base(rng, n=n or rng.choice([2, 3, rng.randint(4, 12), rng.randint(10, 40)]), ch=ch, kind=kind)
    g = scn['g']
    # normalised metrics have an absolute accuracy, which tiny values among huge ones do not survive
    scn['norm'] = rng.random() < .35 and kind != 'wide'
    scn['eid'] = not ev.has_eid(scn) and rng.random() < .6
    scn['metas'] = rng.sample(sorted(META), rng.choice([0, 0, 2, 6]))
    nodes = ['id', 'lat', 'lon'] + (['level'] if scn['ch'] else [])
    edges = ['src', 'dst'] + ['m%d' % k for k in range(g['dim'])] + (['sc0', 'sc1'] if scn['ch'] else [])
    if ev.has_eid(scn) or scn['eid']:
        edges.append('id')
    scn['nidx'] = rng.random() < .4
    onc, oec = list(nodes), list(edges)
    if scn['nidx']:
        onc.append('idx')
    oec += scn['metas']
    for l in (onc, oec):
        if rng.random() < .7:
            rng.shuffle(l)
        for _ in range(rng.choice([0, 0, 1, 2])):
            l.insert(rng.randrange(len(l) + 1), 'ign')
    scn['onc'], scn['oec'] = onc, oec
    scn['wsc'] = scn['ch'] and rng.random() < .7
    scn['denorm'] = rng.choice([None, False, True, True]) if scn['norm'] else rng.choice([None, False, True])
    return scn


def edge_ids(oec):
    return ['ignored' if c == 'ign' else {'id': EID.get(c, c)} for c in oec]


def source_cfg(scn, map_file='map.fmi'):
    ge = (gen.gen_meta('EdgeId') if scn['eid'] else []) + gen.gen_meta(*[META[m] for m in scn['metas']])
    return gen.parsing(map_file, scn['nc'], scn['ec'], scn['units'], gen_nodes=[gen.GEN_N_IDX] if scn['nidx'] else [], gen_edges=ge, normalize=scn['norm'] or None)


def graph_cfg(scn, out):
    e = {'ids': edge_ids(scn['oec'])}
    if scn['wsc'] or scn.get('wscset'):
        e['with_shortcuts'] = scn['wsc']
    if scn['denorm'] is not None:
        e['will_denormalize_metrics_by_mean'] = scn['denorm']
    return {'map-file': out, 'nodes': ['ignored' if c == 'ign' else {'id': NID[c]} for c in scn['onc']], 'edges': e}


def info_cfg(scn, out, cols=None):
    e = {'file': out, 'ids': edge_ids(cols or scn['oec'])}
    if scn['wsc']:
        e['with_shortcuts'] = True
    if scn['denorm'] is not None:
        e['will_denormalize_metrics_by_mean'] = scn['denorm']
    return e


def back_cfg(scn, map_file, normalize=None, extra=()):
    """A config that reads an exported map again."""
    nc = [c if c in ('id', 'lat', 'lon', 'level') else 'ign' for c in scn['onc']]
    ec = [c if c in ('id', 'src', 'dst', 'sc0', 'sc1') or c[0] == 'm' else 'ign' for c in scn['oec']]
    if not scn['wsc']:
        ec = ['ign' if c in ('sc0', 'sc1') else c for c in ec]
    return gen.parsing(map_file, nc, ec, scn['units'], normalize=normalize, gen_nodes=[gen.GEN_N_IDX] if scn['nidx'] else [],
                       gen_edges=gen.gen_meta(*[META[m] for m in scn['metas']]) + list(extra))


def reference(scn):
    ref = model.Ref(scn['g'], level=scn['ch'])
    if scn['eid']:
        ref.number_edges()
    if scn['norm']:
        ref.normalize()
    return ref


def shown_value(scn, ref, e, k, denorm=None):
    d = scn['denorm'] if denorm is None else denorm
    return e['m'][k] * ref.means[k] if scn['norm'] and d else e['m'][k]


def exported(scn, ref):
    """The graph a reader of the exported map gets (metrics in column order)."""
    order = [int(c[1:]) for c in scn['oec'] if c[0] == 'm']
    es = [e for e in ref.edges if scn['wsc'] or not e['sc']]
    g = {'dim': len(order), 'nodes': [[i, *ref.coord[i], ref.level[i]] for i in ref.ids],
         'edges': [[e['id'] if 'id' in scn['oec'] else None, e['src'], e['dst'], [shown_value(scn, ref, e, k) for k in order], e['sc']] for e in es]}
    return model.Ref(g, level='level' in scn['onc'])


# ------------------------------------------------------------------ content of exported files
def cell_of(scn, ref, e, c, denorm):
    if c == 'ign':
        return '_'
    if c == 'id':
        return e['id']
    if c in ('src', 'dst'):
        return e[c]
    if c in ('srcidx', 'dstidx'):
        return ref.idx[e[c[:3]]]
    if c[3:] in ('lat', 'lon'):
        return ref.coord[e[c[:3]]][0 if c[3:] == 'lat' else 1]
    if c in ('sc0', 'sc1'):
        return -1 if not e['sc'] else 0
    return shown_value(scn, ref, e, int(c[1:]), denorm)


def typed(c, s):
    if c == 'ign':
        return s
    if c in INT:
        return int(s)
    return float(s)


def key(row):
    return tuple(float('%.6e' % x) if isinstance(x, float) else x for x in row)


def same_rows(have, want, what):
    if len(have) != len(want):
        return ['%d %s instead of %d' % (len(have), what, len(want))]
    # integers (ids) first: they decide the order, floats only break ties
    def k(r):
        return tuple(x for x in r if not isinstance(x, float)), key(r)
    for a, b in zip(sorted(have, key=k), sorted(want, key=k)):
        for x, y in zip(a, b):
            if isinstance(y, float):
                if not model.close(x, y, 1e-9, model.TOL):
                    return ['%s %s instead of %s' % (what, a, b)]
            elif x != y:
                return ['%s %s instead of %s' % (what, a, b)]
    return []


def parse_rows(lines, cols, what):
    out = []
    for l in lines:
        w = l.split(' ')
        if len(w) != len(cols):
            raise ValueError('%s line %r does not have %d columns' % (what, l[:100], len(cols)))
        try:
            out.append(tuple(typed(c, s) for c, s in zip(cols, w)))
        except ValueError:
            raise ValueError('%s line %r is malformed' % (what, l[:100]))
    return out


def check_edges(scn, ref, lines, cols, denorm=None):
    es = [e for e in ref.edges if scn['wsc'] or not e['sc']]
    have = parse_rows(lines, cols, 'edge')
    if 'sc0' in cols and scn['wsc']:
        a, b = cols.index('sc0'), cols.index('sc1')
        s, d = cols.index('src'), cols.index('dst')
        ms = [k for k, c in enumerate(cols) if c[0] == 'm']
        for r in have:
            if r[a] < 0 and r[b] < 0:
                continue
            if not (0 <= r[a] < len(have) and 0 <= r[b] < len(have)):
                return ['shortcut %s names edges which do not exist' % (r,)]
            x, y = have[r[a]], have[r[b]]
            if x[s] != r[s] or x[d] != y[s] or y[d] != r[d] or not all(model.close(x[k] + y[k], r[k], 1e-7, 1e-5) for k in ms):
                return ['shortcut %s names edges %s and %s' % (r, x, y)]
    have = [tuple(0 if c in ('sc0', 'sc1') and x >= 0 else x for c, x in zip(cols, r)) for r in have]
    want = [tuple(cell_of(scn, ref, e, c, denorm) for c in cols) for e in es]
    return same_rows(have, want, 'edges')


def check_graph_file(scn, ref, text):
    """Complaints about an exported map."""
    if text is None:
        return ['the map was not written']
    if not text.endswith('\n'):
        return ['the map does not end with a line break']
    L = [l for l in text.split('\n') if l and not l.startswith('#')]
    es = [e for e in ref.edges if scn['wsc'] or not e['sc']]
    dim = len([c for c in scn['oec'] if c[0] == 'm'])
    if L[:3] != [str(dim), str(len(ref.ids)), str(len(es))]:
        return ['the map starts with %s instead of %s' % (L[:3], [dim, len(ref.ids), len(es)])]
    n = len(ref.ids)
    try:
        have = parse_rows(L[3:3 + n], scn['onc'], 'node')
        want = []
        for i in ref.ids:
            v = {'id': i, 'lat': ref.coord[i][0], 'lon': ref.coord[i][1], 'level': ref.level[i], 'idx': ref.idx[i], 'ign': '_'}
            want.append(tuple(v[c] for c in scn['onc']))
        bad = same_rows(have, want, 'nodes')
        return bad or check_edges(scn, ref, L[3 + n:], scn['oec'])
    except ValueError as e:
        return [str(e)]


def check_info_file(scn, ref, text, cols=None, denorm=None):
    if text is None:
        return ['the edges-info was not written']
    cols = cols or scn['oec']
    if not text.endswith('\n'):
        return ['the edges-info does not end with a line break']
    L = text.split('\n')[:-1]
    if L[0].split(' ') != ['_' if c == 'ign' else EID.get(c, c) for c in cols]:
        return ['the header of the edges-info is %r' % L[0]]
    try:
        return check_edges(scn, ref, L[1:], cols, denorm)
    except ValueError as e:
        return [str(e)]


# ------------------------------------------------------------------ jobs of the program
FLAG = {'graph': '--writing_graph', 'info': '--writing_edges', 'pairs': '--writing_route-pairs', 'eval': '--evaluating_balance'}


def add_jobs(rng, scn, jobs):
    g = scn['g']
    scn['jobs'] = jobs
    scn['algo'] = rng.choice(['Dijkstra', 'CHDijkstra']) if scn['ch'] else 'Dijkstra'
    scn['metrics'] = ev.metrics_of(rng, g)
    scn['max'] = rng.choice([1, 5, 30, 400, 5000])
    scn['smarts'] = rng.choice([None, True])
    scn['threads'] = rng.choice([1, 2, 3])
    scn['pairs'] = ev.trips(rng, g, rng.choice([1, 3, 20, 60]))
    if 'eval' in jobs and not (ev.has_eid(scn) or scn['eid']):
        scn['eid'] = True
        scn['oec'].insert(rng.randrange(len(scn['oec']) + 1), 'id')
    return scn


def eval_cols(scn):
    return ['id'] + ['m%d' % i for i in range(scn['g']['dim'])]


def job_cfg(scn, tag=''):
    cfg = {'parsing': source_cfg(scn), 'writing': {}}
    cfg['writing']['graph'] = graph_cfg(scn, 'out%s.fmi' % tag)
    cfg['writing']['edges-info'] = info_cfg(scn, 'out%s.csv' % tag)
    cfg['writing']['route-pairs'] = {'file': 'out%s.route-pairs' % tag, 'random_or_all': {'seed': 7, 'max_count': scn['max']}}
    c = ev.eval_cfg(scn, scn['threads'], 'res' + tag)
    cfg['routing'], cfg['evaluating_balance'] = c['routing'], c['evaluating_balance']
    return cfg


def outputs(scn, tag=''):
    o = []
    for j in scn['jobs']:
        o += {'graph': ['out%s.fmi' % tag], 'info': ['out%s.csv' % tag], 'pairs': ['out%s.route-pairs' % tag],
              'eval': ['res%s/edges-info.csv' % tag, 'res%s/abs_workloads.csv' % tag] + (['res%s/smarts.xml' % tag] if scn['smarts'] else [])}[j]
    return o


def flags(scn):
    return [FLAG[j] for j in scn['jobs']]


def check_outputs(scn, W, ref, tag=''):
    out = []
    for j in scn['jobs']:
        if j == 'graph':
            out += ['map: ' + x for x in check_graph_file(scn, ref, W.text('out%s.fmi' % tag))]
        elif j == 'info':
            out += ['edges-info: ' + x for x in check_info_file(scn, ref, W.text('out%s.csv' % tag))]
        elif j == 'pairs':
            t = W.text('out%s.route-pairs' % tag)
            out += ['route-pairs: ' + x for x in (['not written'] if t is None else rp.check_pairs(t, ref, scn['max']))]
        else:
            out += ['evaluation: ' + x for x in check_info_file(scn, ref, W.text('res%s/edges-info.csv' % tag), eval_cols(scn), False)]
            out += ['evaluation: ' + v.msg for v in ev.judge_results(scn, W, 'res' + tag, ref, scn['pairs'])]
    return out


def put(scn, W):
    W.write('map.fmi', gen.fmi(scn['g'], scn['nc'], scn['ec'], scn['style']))
    W.write('trips.route-pairs', gen.route_pairs_text(scn['pairs'], scn['style']))


def some_jobs(rng):
    return rng.choice([['graph'], ['graph'], ['info'], ['pairs'], ['eval'], ['eval'], ['graph', 'info'], ['graph', 'pairs'], ['graph', 'info', 'pairs', 'eval']])


def size(rng):
    """Small ones fit into one buffer, large ones need many writes."""
    return rng.choice([2, 4, rng.randint(5, 15), rng.randint(20, 40), rng.randint(80, 200)])


def tokens(b):
    return sum(len(l.split()) for l in b.split(b'\n') if not l.lstrip().startswith(b'#'))


def valid(scn):
    ids = {e[1] for e in scn['g']['edges']} | {e[2] for e in scn['g']['edges']}
    return bool(ids) and ids <= {x[0] for x in scn['g']['nodes']} and all(p[0] in ids and p[1] in ids for p in scn.get('pairs', ()))


def shrinkable(scn):
    return ([['g', 'edges'], ['g', 'nodes']] if not scn['ch'] else []) + [['pairs']]


class Export(Prop):
    real, stub = REAL, STUB
    wall = {'quick': 240, 'thorough': 3000}

    def shrink_lists(self, scn):
        return shrinkable(scn)

    def valid(self, scn):
        return valid(scn)


class C07(Export):
    id = 'C07'
    counts = {'quick': 3000, 'thorough': 60000}
    rule = 'distinct (scenario, execution hash) in which an injected failure of creating or writing was met, or all outputs were compared with the reference'
    assumptions = ['failures that only close() would report are not injected: the standard library does not let a program see them']

    def gen(self, rng, i, tier):
        big = rng.random() < .12
        if big:
            # every output needs several buffers, so that writing fails before the last flush as well
            jobs = rng.choice([['eval'], ['eval'], ['pairs'], ['graph'], ['info']])
            scn = add_jobs(rng, world(rng, n=rng.choice([40, 70]) if jobs == ['pairs'] else rng.choice([300, 500, 800]), ch=False), jobs)
            scn['max'] = rng.choice([400, 900])
        else:
            jobs = some_jobs(rng)
            scn = add_jobs(rng, world(rng, n=size(rng) if jobs[0] in ('graph', 'info') and len(jobs) == 1 else rng.choice([3, 8, rng.randint(5, 30)])), jobs)
        p = noise(rng, clocks(rng, sched(rng, 'eval' in jobs)), heavy=rng.random() < (.2 if big else .5), read=rng.random() < .3)
        how = rng.choice(['none', 'write', 'write', 'write', 'stick', 'quota', 'quota', 'create', 'mkdir'])
        target = rng.choice(outputs(scn)).split('/')[-1]
        if how in ('write', 'stick'):
            k = rng.choice([1, 1, 2, 3, rng.randint(1, 8), rng.randint(1, 40)]) if not big else rng.choice([1, 1, 1, 2, 3])
            if p.get('pwshort') and rng.random() < .5:
                k = rng.randint(1, 300)
            p['faults'] = [['write', target, k, 'err' if how == 'write' else 'stick', rng.choice([ERR['EIO'], ERR['ENOSPC'], ERR['EDQUOT'], ERR['EFBIG'], ERR['EAGAIN']])]]
        elif how == 'create':
            p['faults'] = [['creat', target, 1, rng.choice(['err', 'stick']), rng.choice([ERR['EACCES'], ERR['EMFILE'], ERR['ENOSPC'], ERR['EROFS'], ERR['EIO']])]]
        elif how == 'mkdir':
            p['faults'] = [['mkdir', '*', 1, 'stick', rng.choice([ERR['EACCES'], ERR['ENOSPC'], ERR['EROFS']])]]
        elif how == 'quota':
            scn['quota'] = rng.random()
            scn['late'] = rng.random() < .5
        scn['how'] = how
        scn['plans'] = {'run': p}
        return scn

    def judge(self, scn, W):
        put(scn, W)
        ref = reference(scn)
        plan = dict(scn['plans']['run'])
        if 'quota' in scn:
            # the size of everything is known from an undisturbed run
            W.write('cfg0.yaml', gen.yaml(job_cfg(scn, '0')))
            r = W.cli('cfg0.yaml', flags(scn))
            if not r.ok:
                return [V('fails', 'a correct export fails: ' + r.how())]
            size = sum(len(W.read(o) or b'') for o in outputs(scn, '0'))
            q = size - 1 - int(scn['quota'] * min(size - 1, 40)) if scn['late'] else int(scn['quota'] * size)
            plan['quota'] = max(0, q)
        W.write('cfg.yaml', gen.yaml(job_cfg(scn), scn['style']))
        r = W.cli('cfg.yaml', flags(scn), 'run', plan=plan)
        if r.hung:
            return [V('hang', 'the export never ends: ' + r.how())]
        met = any(r.hits) or r.st['n_enospc']
        if r.ok:
            if met:
                f = (plan.get('faults') or [['write', '', 0, 'disk full', plan.get('quota')]])[0]
                return [V('success', '%s of %s failed (%s %s), but the run reports success' % (f[0], f[1] or 'an output', f[3], f[4]))]
            W.count('complete')
            bad = check_outputs(scn, W, ref)
            return [V('content', '; '.join(bad[:3]))] if bad else []
        if not met:
            return [V('fails', 'a correct export fails: ' + r.how())]
        W.count('met_' + scn['how'])
        return []

    def nontrivial(self, scn, s):
        return bool(s['measure'])


class C08(Export):
    id = 'C08'
    counts = {'quick': 3500, 'thorough': 60000}
    rule = 'distinct (scenario, execution hash) in which a destination existed before, appeared during the run, or was left by a crashed or failed run'
    assumptions = []

    def gen(self, rng, i, tier):
        jobs = some_jobs(rng)
        scn = add_jobs(rng, world(rng, n=rng.choice([2, 4, rng.randint(5, 30)])), jobs)
        scn['how'] = rng.choice(['exists', 'exists', 'race', 'race', 'again', 'crash', 'fail', 'input', 'clash'])
        scn['target'] = rng.choice(outputs(scn))
        scn['content'] = rng.choice(['bytes', 'bytes', 'empty', 'link', 'dangling', 'dir', 'long', 'readonly'])
        p = noise(rng, clocks(rng, sched(rng, 'eval' in jobs)), heavy=rng.random() < .4)
        if scn['how'] == 'race':
            p['faults'] = [['creat', scn['target'].split('/')[-1], 1, 'race', 0]]
        q = noise(rng, clocks(rng, sched(rng, 'eval' in jobs)), heavy=rng.random() < .4)
        k = rng.choice([1, 1, 2, rng.randint(1, 20)])
        if scn['how'] == 'crash':
            q['faults'] = [['write', scn['target'].split('/')[-1], k, 'crash', rng.choice([0, 1, 100, 5000])]]
        elif scn['how'] == 'fail':
            q['faults'] = [['write', scn['target'].split('/')[-1], k, 'stick', ERR['EIO']]]
        scn['plans'] = {'first': q, 'run': p}
        return scn

    def judge(self, scn, W):
        put(scn, W)
        cfg = job_cfg(scn)
        how, t = scn['how'], scn['target']
        must_fail = True
        if how == 'input':
            # the destination is the input itself, or the config
            if 'graph' in scn['jobs']:
                cfg['writing']['graph']['map-file'] = 'map.fmi'
            elif 'pairs' in scn['jobs']:
                cfg['writing']['route-pairs']['file'] = 'trips.route-pairs'
            elif 'info' in scn['jobs']:
                W.write('info.csv', 'edge-id x\n')
                cfg['writing']['edges-info']['file'] = 'info.csv'
            else:
                W.write('res/edges-info.csv', 'old\n')
        elif how == 'clash':
            # two outputs with the same name
            if 'eval' in scn['jobs']:
                cfg['evaluating_balance']['monitoring']['edges-info']['file'] = 'abs_workloads.csv'
            else:
                W.write(t, 'old\n')
        elif how == 'exists':
            c = scn['content']
            if c == 'dir':
                os.makedirs(W.path(t))
            elif c in ('link', 'dangling'):
                os.makedirs(os.path.dirname(W.path(t)), exist_ok=True)
                if c == 'link':
                    W.write('elsewhere', 'precious\n')
                os.symlink(W.path('elsewhere'), W.path(t))
            else:
                W.write(t, {'bytes': 'precious\n', 'empty': '', 'long': 'precious\n' * 20000, 'readonly': 'precious\n'}[c])
                if c == 'readonly':
                    os.chmod(W.path(t), 0o444)
        W.write('cfg.yaml', gen.yaml(cfg))
        if how in ('again', 'crash', 'fail'):
            r = W.cli('cfg.yaml', flags(scn), 'first')
            if r.hung:
                return [V('hang', 'the export never ends: ' + r.how())]
            must_fail = any(W.exists(o) for o in outputs(scn))
        before = self.snapshot(W)
        r = W.cli('cfg.yaml', flags(scn), 'run')
        if r.hung:
            return [V('hang', 'the export never ends: ' + r.how())]
        after = self.snapshot(W)
        for k, v in before.items():
            if k.startswith('script'):
                continue
            if after.get(k) != v:
                return [V('damaged', '%s: %s existed before and was changed (%s)' % (how, k, 'removed' if k not in after else 'now %d bytes' % len(after[k][1])))]
        if how == 'race':
            must_fail = any(r.hits)
            if must_fail and after.get(t, (0, b''))[1] != b'written by somebody else\n':
                return [V('damaged', '%s appeared while the run was going on and was overwritten' % t)]
        W.count('case_' + how)
        if r.ok and must_fail:
            return [V('success', '%s: %s existed, but the run reports success' % (how, t))]
        if not r.ok and not must_fail:
            return [V('fails', 'a correct export fails: ' + r.how())]
        return []

    def snapshot(self, W):
        out = {}
        for d, ds, fs in os.walk(W.root):
            for f in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]:
                p = os.path.join(d, f)
                k = os.path.relpath(p, W.root)
                if os.path.islink(p):
                    out[k] = ('link', os.readlink(p).encode())
                else:
                    with open(p, 'rb') as h:
                        out[k] = ('file', h.read())
        return out

    def nontrivial(self, scn, s):
        return bool(s['measure'])


class C09(Export):
    id = 'C09'
    counts = {'quick': 1500, 'thorough': 60000}
    rule = 'distinct (scenario, execution hash) in which a written graph was read again and compared'
    assumptions = ['normalised graphs: metrics of one map differ by less than 10^4; bytes of a second export are compared for graphs without normalisation']

    def gen(self, rng, i, tier):
        scn = world(rng, n=rng.choice([2, 3, rng.randint(4, 12), rng.randint(10, 40), rng.randint(40, 120)]), kind=rng.choice([None, None, 'precise', 'wide']))
        if ev.has_eid(scn) or scn['eid']:
            scn['merge'] = rng.random() < .5
            scn['infocols'] = rng.sample(scn['oec'], len(scn['oec'])) if rng.random() < .7 else list(scn['oec'])
        scn['pairs'] = ev.trips(rng, scn['g'], 6)
        al = [rng.choice([0, 1, 1, 2, 5]) for _ in range(scn['g']['dim'])]
        scn['alphas'] = al if any(al) else [1] * len(al)
        scn['plans'] = {k: noise(rng, clocks(rng, sched(rng, False)), heavy=rng.random() < .6) for k in ('write', 'read', 'again', 'merge')}
        return scn

    def judge(self, scn, W):
        put(scn, W)
        ref = reference(scn)
        cfg = {'parsing': source_cfg(scn), 'writing': {'graph': graph_cfg(scn, 'out.fmi')}}
        fl = ['--writing_graph']
        if scn.get('merge'):
            cfg['writing']['edges-info'] = info_cfg(scn, 'out.csv', scn['infocols'])
            fl.append('--writing_edges')
        W.write('cfg.yaml', gen.yaml(cfg))
        r = W.cli('cfg.yaml', fl, 'write')
        if not r.ok:
            return [V('fails', 'a correct export fails: ' + r.how())]
        text = W.text('out.fmi')
        bad = check_graph_file(scn, ref, text)
        if not bad and scn.get('merge'):
            bad = check_info_file(scn, ref, W.text('out.csv'), scn['infocols'])
        if bad:
            return [V('content', '; '.join(bad[:3]))]
        # reading it again
        want = exported(scn, ref)
        W.write('back.yaml', gen.yaml({'parsing': back_cfg(scn, 'out.fmi')}))
        order = [int(c[1:]) for c in scn['oec'] if c[0] == 'm']
        al0 = [float(a) for a in scn['alphas']]
        # weigh both graphs alike: an exported metric may be a multiple of the one in memory
        al = [al0[k] / (ref.means[k] if scn['norm'] and scn['denorm'] else 1.0) for k in order]
        s = 'load g cfg.yaml\nload h back.yaml\ndump h\n'
        algo = 'ch' if scn['ch'] and scn['wsc'] else 'd'
        s += 'rcfg a %s %s %s\n' % (algo, ','.join(map(repr, al0)), ','.join(['inf'] * len(al0)))
        s += 'rcfg b %s %s %s\n' % (algo, ','.join(map(repr, al)), ','.join(['inf'] * len(al)))
        for a, b, _ in scn['pairs']:
            s += 'q 0 g a %d %d\nq 0 h b %d %d\n' % (a, b, a, b)
        s += 'run\n'
        r = W.api(s, 'read')
        graphs, failed, res, ended = model.parse_api(r.out)
        if not r.ok or 'h' not in graphs or not ended:
            return [V('unreadable', 'the exported map cannot be read: %s %s' % (r.how(), failed))]
        diff = model.compare(want, graphs['h'], level='level' in scn['onc'])
        if diff:
            return [V('graph', 'after reading again: ' + '; '.join(diff))]
        W.count('read_again')
        for k in range(len(scn['pairs'])):
            a, b = res.get(2 * k, []), res.get(2 * k + 1, [])
            if len(a) != len(b):
                return [V('query', 'route %d->%d has %d answers before and %d after the export' % (*scn['pairs'][k][:2], len(a), len(b)))]
            if a:
                x, y = sum(p * q for p, q in zip(al0, a[0][2])), sum(p * q for p, q in zip(al, b[0][2]))
                if not model.close(x, y, 1e-6, 1e-5):
                    return [V('query', 'route %d->%d costs %r before and %r after the export' % (*scn['pairs'][k][:2], x, y))]
                W.count('queries')
        # once more
        if not scn['norm']:
            W.write('again.yaml', gen.yaml({'parsing': back_cfg(scn, 'out.fmi'), 'writing': {'graph': graph_cfg(scn, 'out2.fmi')}}))
            if not (scn['ch'] and not scn['wsc']):
                r = W.cli('again.yaml', ['--writing_graph'], 'again')
                if not r.ok:
                    return [V('fails', 'exporting an exported map fails: ' + r.how())]
                if W.text('out2.fmi') != text:
                    return [V('again', 'a second export differs: ' + ev.first_diff(text.encode(), W.read('out2.fmi')))]
                W.count('second_exports')
        # metrics by edges-info
        if scn.get('merge'):
            ms = [c for c in scn['infocols'] if c[0] == 'm']
            free = 5 - scn['g']['dim']
            ms = ms[:free]
            if not ms:
                return []
            ge = [{'custom': {'unit': 'F64', 'id': 'x' + m, 'default': 1.0}} for m in ms]
            ei = ['ignored' if c not in ms + ['id'] else {'id': 'edge-id' if c == 'id' else 'x' + c} for c in scn['infocols']]
            ge.append({'merge': {'from': 'out.csv', 'edge-id': 'edge-id', 'edges-info': ei}})
            src = dict(source_cfg(scn))
            src['edges'] = dict(src['edges'])
            src['edges'].pop('will_normalize_metrics_by_mean', None)
            src['generating'] = {'nodes': [], 'edges': (gen.gen_meta('EdgeId') if scn['eid'] else []) + ge}
            W.write('merge.yaml', gen.yaml({'parsing': src}))
            r = W.api('load m merge.yaml\ndump m\n', 'merge')
            graphs, failed, _, ended = model.parse_api(r.out)
            if not r.ok or 'm' not in graphs:
                return [V('unmergeable', 'the edges-info cannot be merged: %s %s' % (r.how(), failed))]
            byid = {e['id']: e for e in ref.edges}
            for e in graphs['m'].edges:
                x = byid[e['id']]
                if x['sc'] and not scn['wsc']:
                    continue
                for j, m in enumerate(ms):
                    v = shown_value(scn, ref, x, int(m[1:]))
                    if not model.close(e['m'][scn['g']['dim'] + j], v, 1e-9, model.TOL):
                        return [V('merge', 'edge %d gets %s = %r back instead of %r' % (e['id'], m, e['m'][scn['g']['dim'] + j], v))]
            W.count('merged')
        return []

    def nontrivial(self, scn, s):
        return bool(s['measure'].get('read_again'))


class C15(Export):
    id = 'C15'
    counts = {'quick': 1500, 'thorough': 60000}
    rule = 'distinct (scenario, execution hash) in which the process died while exporting'
    assumptions = ['a crash ends the process between or within writes; a power loss additionally takes a random tail of every unfinished output']

    def gen(self, rng, i, tier):
        jobs = some_jobs(rng)
        scn = add_jobs(rng, world(rng, n=size(rng) if jobs[0] in ('graph', 'info') and len(jobs) == 1 else rng.choice([3, 8, rng.randint(5, 30)])), jobs)
        p = noise(rng, clocks(rng, sched(rng, 'eval' in jobs)), heavy=rng.random() < .5)
        op = rng.choice(['write', 'write', 'write', 'write', 'creat', 'read', 'mkdir'])
        k = rng.choice([1, 1, 2, 3, rng.randint(1, 8)]) if not p.get('pwshort') else rng.choice([1, 2, rng.randint(1, 10), rng.randint(1, 400)])
        t = rng.choice(outputs(scn)).split('/')[-1] if op in ('write', 'creat') else rng.choice(['map.fmi', 'cfg.yaml']) if op == 'read' else '*'
        p['faults'] = [[op, t, 1 if op in ('creat', 'mkdir') else k, 'crash', rng.choice([0, 0, 1, rng.randint(1, 200), rng.randint(1, 8192), 10**6])]]
        scn['power'] = rng.choice([None, None, [self.tear(rng) for _ in range(4)]])
        # further remains of a power loss
        scn['tears'] = [[rng.randrange(4), rng.choice([[1, 1], [1, 2], self.tear(rng)])] for _ in range(rng.choice([0, 0, 1, 2]))]
        scn['rerun'] = rng.choice(['clean', 'fresh'])
        scn['plans'] = {'ref': {'seed': 1}, 'run': p, 'rerun': noise(rng, clocks(rng, sched(rng, 'eval' in jobs)), heavy=rng.random() < .3)}
        if rng.random() < .15:
            q = dict(scn['plans']['rerun'])
            q['faults'] = [['write', t if op in ('write', 'creat') else '*', rng.randint(1, 3), 'crash', rng.randint(0, 300)]]
            scn['plans']['second'] = q
        # workers may take trips in any order, which shows in the order of vehicles
        if 'eval' in jobs:
            scn['threads'] = 1
        return scn

    def judge(self, scn, W):
        put(scn, W)
        W.write('cfg0.yaml', gen.yaml(job_cfg(scn, '0')))
        W.write('cfg.yaml', gen.yaml(job_cfg(scn), scn['style']))
        inputs = {k: W.read(k) for k in ('map.fmi', 'trips.route-pairs', 'cfg.yaml', 'cfg0.yaml')}
        r = W.cli('cfg0.yaml', flags(scn), 'ref')
        if not r.ok:
            return [V('fails', 'a correct export fails: ' + r.how())]
        full = {o: W.read(o0) for o, o0 in zip(outputs(scn), outputs(scn, '0'))}
        for step in ('run', 'second'):
            if step not in scn['plans']:
                continue
            if step == 'second':
                for o in outputs(scn):
                    W.remove(o)
            r = W.cli('cfg.yaml', flags(scn), step)
            if r.hung:
                return [V('hang', 'the export never ends: ' + r.how())]
            if not r.crashed:
                if not r.ok:
                    return [V('fails', 'a correct export fails: ' + r.how())]
            else:
                W.count('crashes')
            if r.crashed and scn['power']:
                for o, q in zip(outputs(scn), scn['power']):
                    b = W.read(o)
                    if b:
                        os.truncate(W.path(o), self.torn_at(b, q))
                        W.count('lost_tails')
            bad = self.leftovers(scn, W, full, inputs, r)
            if bad:
                return bad
        for k, q in scn.get('tears', ()):
            o = outputs(scn)[k % len(outputs(scn))]
            if full[o] is None or not r.crashed:
                continue
            b = full[o]
            W.write(o, b[:self.torn_at(b, q)])
            bad = self.leftovers(scn, W, {o: b}, inputs, r)
            if bad:
                return bad
            W.count('lost_tails')
        # rerun
        for k, v in inputs.items():
            if W.read(k) != v:
                return [V('input', 'input %s was changed' % k)]
        tag = ''
        if scn['rerun'] == 'clean':
            for o in outputs(scn):
                W.remove(o)
        else:
            tag = 'B'
            W.write('cfgB.yaml', gen.yaml(job_cfg(scn, tag)))
        r = W.cli('cfg%s.yaml' % tag, flags(scn), 'rerun')
        if not r.ok:
            return [V('rerun', 'a rerun after the crash fails: ' + r.how())]
        for o, ot in zip(outputs(scn), outputs(scn, tag)):
            if W.read(ot) != full[o]:
                return [V('rerun', 'a rerun after the crash writes another %s: %s' % (o, ev.first_diff(full[o], W.read(ot))))]
        W.count('reruns')
        return []

    @staticmethod
    def tear(rng):
        """Where the tail gets lost: anywhere, or behind some tokens of one of the first or last lines with data."""
        if rng.random() < 0.6:
            return rng.random()
        return [rng.choice([0, 1, 1, 2, 2, 3, 4, -1, -2]), rng.randint(0, 4)]

    @staticmethod
    def torn_at(b, q):
        if not isinstance(q, list):
            return int(q * (len(b) + 1))
        at, pos = [], 0
        for l in b.split(b'\n'):
            if l.strip() and not l.startswith(b'#'):
                at.append((pos, l))
            pos += len(l) + 1
        if not at:
            return len(b)
        pos, l = at[max(-len(at), min(q[0], len(at) - 1))]
        return min(len(b), pos + len(b' '.join(l.split(b' ')[:q[1]])) + (1 if q[1] else 0))

    def leftovers(self, scn, W, full, inputs, r):
        for o, want in full.items():
            b = W.read(o)
            if b is None:
                continue
            if not want.startswith(b):
                return [V('prefix', '%s is not the beginning of the correct file after the crash: %s' % (o, ev.first_diff(want[:len(b)], b)))]
            if tokens(b) == tokens(want):
                continue        # only comments, line breaks or a part of the last number are missing
            W.count('torn_files')
            if o == 'out.fmi':
                W.write('torn.yaml', gen.yaml({'parsing': back_cfg(scn, o)}))
                r = W.api('load t torn.yaml\ndump t\n')
                graphs, _, _, _ = model.parse_api(r.out)
                if r.hung:
                    return [V('hang', 'loading a torn map never ends')]
                if r.ok and 't' in graphs:
                    last = want[:len(b) + 1].split(b'\n')[-1]
                    if self.only_ignored(scn, want, b):
                        continue
                    return [V('torn', 'a map cut after %d of %d bytes is loaded' % (len(b), len(want)))]
                W.count('torn_rejected')
            elif o == 'out.route-pairs':
                cfg = job_cfg(scn, 'T')
                cfg['routing']['route-pairs-file'] = o
                W.write('torn.yaml', gen.yaml(cfg))
                r = W.cli('torn.yaml', ['--routing'])
                if r.hung:
                    return [V('hang', 'reading torn route-pairs never ends')]
                if r.ok:
                    return [V('torn', 'route-pairs cut after %d of %d bytes are accepted' % (len(b), len(want)))]
                W.count('torn_rejected')
        return []

    def only_ignored(self, scn, want, b):
        """Whether only columns which the reader skips are missing at the end of the last line."""
        if b'\n' in want[len(b):].rstrip(b'\n'):
            return False
        have = b.split(b'\n')[-1].split()
        cols = scn['oec']
        rest = cols[len(have):]
        back = [c if c in ('id', 'src', 'dst', 'sc0', 'sc1') or c[0] == 'm' else 'ign' for c in rest]
        if not scn['wsc']:
            back = ['ign' if c in ('sc0', 'sc1') else c for c in back]
        return all(c == 'ign' for c in back)

    def nontrivial(self, scn, s):
        return bool(s['measure'].get('crashes'))
