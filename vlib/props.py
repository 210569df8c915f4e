"""The case sets of the properties."""
from . import cases1, cases2, cases3, cases4

PROPS = {}
for _n in range(1, 21):
    for _m in (cases1, cases2, cases3, cases4):
        f = getattr(_m, 'c%02d' % _n, None)
        if f:
            PROPS['C%02d' % _n] = f
