import importlib, pkgutil

ALL = {}
for m in pkgutil.iter_modules(__path__):
    mod = importlib.import_module(__name__ + '.' + m.name)
    for k in vars(mod).values():
        if isinstance(k, type) and getattr(k, 'id', '') and k.__module__ == mod.__name__:
            ALL[k.id] = k

from . import bal
for k in bal.ELSEWHERE:
    ALL[k] = bal.with_balancing(ALL[k])
