"""C06: derivatives after any history of changes are those at the current contents."""
import many
from engine import Session
from refops import OPS
from .c05 import change, life

CASES = {'quick': 1200, 'thorough': 20000}
RULE = ('a distinct observation is (operation, input shapes, parameters, kind of the last change, target) of a '
        'derivative compared with the reference Jacobian at the current contents')
REQUIRED = ('derivative', 'final derivative', 'change:set', 'change:items', 'change:shape', 'change:param',
            'life', 'life:param', 'life:shape', 'several inputs')
NAMES = sorted(k for k in OPS if not (OPS[k].nondiff and OPS[k].nin != 2))
NAMES += [k for k in NAMES if OPS[k].attrs] * 2


def case(ch, rng, mon, tier, i):
    if i % 4 == 2:
        many.several(ch, rng, mon, ('derivative',), 'several inputs')
    s = Session(ch, rng, mon)
    s.build(rng.randint(3, 9), rng.randint(1, 4))
    last = 'build'
    held = []          # derivative targets asked for before: the caches to be invalidated
    for step in range(rng.randint(4, 13)):
        q = rng.rand()
        if q < .45:
            last = change(s, mon, rng) or last
        elif q < .6:
            s.check_value(s.pick(s.nodes), 'read', last)
        elif q < .94:
            n = s.pick(s.ops())
            if n is not None:
                t = s.pick_target(n)
                if s.check_jac(n, t, 'derivative', last):
                    held.append((n, t))
        else:
            s.grow()
    ns = set(s.nodes)
    for n, t in held:
        if n in ns and t in ns:
            s.check_jac(n, t, 'final derivative', last)
    for n in sorted(s.ops(), key=lambda m: rng.rand())[:5]:
        for t in s.targets(n):
            if t.kind == 'leaf' or rng.rand() < .3:
                s.check_jac(n, t, 'final derivative', last)
    for k in range(2):
        life(ch, rng, mon, NAMES[(2 * i + k) % len(NAMES)], lambda s, n, t, last: s.check_jac(n, t, 'life', last))
