import importlib, os, sys
from . import core, props


def main(argv):
    prop = props.ALL[argv[0]]()
    if len(argv) > 2 and argv[1] == '--replay':
        return core.replay(prop, argv[2])
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in argv[1:]:
        if a in ('quick', 'thorough'):
            tier = a
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    n = os.environ.get('VSIM_COUNT')
    if n:
        prop.counts = dict(prop.counts, **{tier: int(n)})
        prop.wall = dict(prop.wall, **{tier: 36000})
    return core.check(prop, tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
