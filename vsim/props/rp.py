"""Generated route-pairs (C14)."""
from .. import gen, model
from ..core import Prop, V, sched, clocks, noise, ERR
from . import eval as ev

REAL = ['osmgraphing binary (configs, fmi-parser, graph builder, Dijkstra, writer of route-pairs)', 'rand_pcg']
STUB = ['scheduler, clocks, getrandom and file I/O (shim/sim.c)']


def records(text):
    return [l.split() for l in text.split('\n') if l and not l.startswith('#')]


def check_pairs(text, ref, max_count):
    """Complaints about a file of generated route-pairs."""
    if not text.endswith('\n'):
        return ['the file does not end with a line break']
    R = records(text)
    try:
        if len(R[0]) != 1:
            raise ValueError
        n = int(R[0][0])
        pairs = [tuple(int(x) for x in r) for r in R[1:]]
        if any(len(p) != 3 for p in pairs):
            raise ValueError
    except (ValueError, IndexError):
        return ['the file is malformed: %r' % text[:200]]
    out = []
    if n != len(pairs):
        out.append('%d route-pairs are announced, %d follow' % (n, len(pairs)))
    if n > max_count:
        out.append('%d route-pairs are written, at most %d were requested' % (n, max_count))
    if len(set(p[:2] for p in pairs)) != len(pairs):
        out.append('a route-pair is written twice')
    if pairs != sorted(pairs):
        out.append('the route-pairs are not sorted')
    reach = {}
    for s, t, c in pairs:
        if c != 1:
            out.append('route-pair %d %d has count %d' % (s, t, c))
            break
        if s not in ref.idx or t not in ref.idx:
            out.append('route-pair %d %d names a node the map does not have' % (s, t))
            break
        if s == t:
            out.append('route-pair %d %d leads nowhere' % (s, t))
            break
        if s not in reach:
            reach[s] = ref.reachable(s)
        if t not in reach[s]:
            out.append('there is no route %d->%d' % (s, t))
            break
    k = len(ref.ids)
    if not out and k * k <= max_count:
        want = sum(len(ref.reachable(s)) - 1 for s in ref.ids)
        if want != n:
            out.append('%d of %d possible route-pairs are written though all are requested' % (n, want))
    return out


class C14(Prop):
    id = 'C14'
    counts = {'quick': 2000, 'thorough': 60000}
    wall = {'quick': 240, 'thorough': 3000}
    rule = 'distinct (scenario, execution hash) in which two runs under different schedules, clocks and I/O patterns wrote route-pairs'
    real, stub = REAL, STUB
    assumptions = []

    def gen(self, rng, i, tier):
        # large ones need thousands of attempts
        large = rng.random() < .02
        scn = ev.base(rng, n=rng.randint(36, 64) if large else rng.choice([2, 3, rng.randint(2, 6), rng.randint(6, 14), rng.randint(10, 24)]))
        g = scn['g']
        n = len(model.Ref(g).ids)
        scn['algo'] = rng.choice(['Dijkstra', 'CHDijkstra']) if scn['ch'] else 'Dijkstra'
        scn['metrics'] = ev.metrics_of(rng, g)
        scn['max'] = rng.choice([0, 1, rng.randint(1, 10), rng.randint(1, n * n), n * n - 1, n * n, n * n + 1, n * n * 3, 10**5])
        if large:
            scn['max'] = rng.choice([1024, rng.randint(500, 3000), n * n - 1, n * n // 2])
        scn['seed'] = rng.choice([None, 0, 42, rng.getrandbits(32), rng.getrandbits(63)])
        scn['plans'] = {k: noise(rng, clocks(rng, sched(rng, False)), heavy=rng.random() < .5) for k in ('a', 'b')}
        return scn

    def cfg(self, scn, out):
        cfg = ev.eval_cfg(scn, 1)
        del cfg['evaluating_balance'], cfg['routing']['route-pairs-file']
        r = {'max_count': scn['max']}
        if scn['seed'] is not None:
            r['seed'] = scn['seed']
        cfg['writing'] = {'route-pairs': {'file': out, 'random_or_all': r}}
        return cfg

    def judge(self, scn, W):
        W.write('map.fmi', gen.fmi(scn['g'], scn['nc'], scn['ec'], scn['style']))
        ref = ev.reference(scn)
        texts = []
        for k in ('a', 'b'):
            W.write('cfg-%s.yaml' % k, gen.yaml(self.cfg(scn, k + '.route-pairs')))
            r = W.cli('cfg-%s.yaml' % k, ['--writing_route-pairs'], k)
            if r.hung:
                return [V('hang', 'generating route-pairs never ends: ' + r.how())]
            if not r.ok:
                return [V('fails', 'route-pairs are not generated: ' + r.how())]
            t = W.text(k + '.route-pairs')
            if t is None:
                return [V('missing', 'the run succeeds without writing the route-pairs')]
            bad = check_pairs(t, ref, scn['max'])
            if bad:
                return [V('pairs', '; '.join(bad))]
            texts.append(records(t))
        if texts[0] != texts[1]:
            return [V('differs', 'two runs of the same map and seed write different route-pairs')]
        W.count('files', 2)
        W.count('pairs', len(texts[0]) - 1)
        # what was written is a valid request
        if scn.get('use', True) and len(texts[0]) > 1:
            cfg = self.cfg(scn, 'c.route-pairs')
            cfg['routing']['route-pairs-file'] = 'a.route-pairs'
            W.write('cfg-c.yaml', gen.yaml(cfg))
            r = W.cli('cfg-c.yaml', ['--routing'])
            if not r.ok:
                return [V('unusable', 'the written route-pairs cannot be used: ' + r.how())]
        return []

    def nontrivial(self, scn, s):
        return s['measure'].get('files', 0) == 2

    def shrink_lists(self, scn):
        return [['g', 'edges'], ['g', 'nodes']] if not scn['ch'] else []

    def valid(self, scn):
        ids = {e[1] for e in scn['g']['edges']} | {e[2] for e in scn['g']['edges']}
        return bool(ids) and ids <= {x[0] for x in scn['g']['nodes']}
