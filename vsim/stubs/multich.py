"""Stands in for the external multi-ch-constructor: contracts a text map for all weightings.
Arguments: ROOT, then what the program under test passes.  ROOT/stub/ holds its orders and its log."""
import json, os, random, signal, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from vsim import gen


def main(root, args):
    d = os.path.join(root, 'stub')
    try:
        n = int(open(d + '/n').read())
    except OSError:
        n = 0
    n += 1
    with open(d + '/n', 'w') as f:
        f.write('%d\n' % n)
    with open(d + '/log', 'a') as f:
        f.write('multi-ch\t' + '\t'.join(args) + '\n')
    try:
        act = open(d + '/act.%d' % n).read().strip()
    except OSError:
        act = ''
    if act == 'exit':
        return 3
    if act == 'kill':
        os.kill(os.getpid(), signal.SIGKILL)
    o, flags = {}, set()
    k = 0
    while k < len(args):
        if args[k] in ('--using-osm-ids', '--external-edge-ids'):
            flags.add(args[k])
            k += 1
        elif args[k] == '':
            k += 1
        elif args[k] in ('--threads', '--text', '--percent', '--write') and k + 1 < len(args):
            o[args[k]] = args[k + 1]
            k += 2
        else:
            return 4
    dim = int(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[2])), 'multi-ch.dim')).read())
    share = float(o['--percent']) / 100
    rows = [l.split() for l in open(o['--text']) if l.strip() and not l.startswith('#')]
    # "dim", "number of nodes", "number of edges"
    rows = rows[1:] if len(rows[0]) == 1 and len(rows) > 2 and len(rows[2]) == 1 else rows
    nn, ne = int(rows[0][0]), int(rows[1][0])
    rows = rows[2:]
    if len(rows) != nn + ne:
        return 5
    nodes = [[int(r[1]), float(r[2]), float(r[3]), 0] for r in rows[:nn]]
    for k, r in enumerate(rows[:nn]):
        if int(r[0]) != k or len(r) != 6:
            return 6
    eid = '--external-edge-ids' in flags
    off = 1 if eid else 0
    edges = []
    for r in rows[nn:]:
        if len(r) != off + 4 + dim:
            return 7
        edges.append([int(r[0]) if eid else None, int(r[off]), int(r[off + 1]), [float(x) for x in r[off + 2:off + 2 + dim]], None])
    osm = '--using-osm-ids' in flags
    ids = [x[0] for x in nodes]
    # contract by index, so that the choice does not depend on the ids
    g = {'dim': dim, 'nodes': [[k] + x[1:] for k, x in enumerate(nodes)], 'edges': edges}
    rng = random.Random(open(d + '/seed').read().strip() + '/%d' % n)
    h = gen.contract(rng, g, ratio=share, max_edges=300)
    if osm:
        for e in h['edges']:
            e[1], e[2] = ids[e[1]], ids[e[2]]
    h['nodes'].sort(key=lambda x: x[0])
    for x in h['nodes']:
        x[0] = ids[x[0]]
    L = ['# stub of multi-ch-constructor', str(dim), str(len(h['nodes'])), str(len(h['edges']))]
    for k, x in enumerate(h['nodes']):
        L.append('%d %d %r %r 0 %d' % (k, x[0], x[1], x[2], x[3]))
    for e in h['edges']:
        L.append(' '.join((['%d' % e[0]] if eid else []) + ['%d' % e[1], '%d' % e[2]] + [repr(m) for m in e[3]] +
                          ['%d' % s for s in (e[4] or [-1, -1])]))
    w = act.split()
    if w and w[0] in ('trunc', 'killmid'):
        cut = 4 + int(w[1]) % (len(L) - 4)
        L = L[:cut]
    elif w and w[0] == 'garbage':
        k = 4 + int(w[1]) % (len(L) - 4)
        c = L[k].split()
        # a column which is read
        j = 1 if k < 4 + nn else off
        c[j] = 'broken'
        L[k] = ' '.join(c)
    if act != 'none':
        with open(o['--write'], 'w') as f:
            f.write('\n'.join(L) + '\n')
    if act == 'exitafter':
        return 3
    if act == 'killafter' or (w and w[0] == 'killmid'):
        os.kill(os.getpid(), signal.SIGKILL)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1], sys.argv[3:]))
