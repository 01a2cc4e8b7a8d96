"""C05: reading any expression after any history of changes gives the value of the current contents."""
import numpy as np

import many
from engine import Session
from refops import OPS

CASES = {'quick': 1600, 'thorough': 30000}
RULE = ('a distinct observation is (operation read, input shapes, parameters, kind of the last change) of a value '
        'compared with a from-scratch reference evaluation of the current contents')
REQUIRED = ('read', 'final read', 'change:set', 'change:items', 'change:shape', 'change:param', 'life', 'life:param',
            'life:shape', 'crowd', 'several inputs')
NAMES = sorted(OPS)


def change(s, mon, rng):
    q = rng.rand()
    if q < .35:
        k, n = 'set', s.set_leaf()
    elif q < .55:
        k, n = 'items', s.set_items()
    elif q < .75:
        k, n = 'shape', s.reshape_leaf()
    elif q < .95:
        k, n = 'param', s.change_param()
    else:
        k, n = 'drop', s.drop()
    if n is not None:
        mon.saw('change:' + k)
        return k
    return None


def life(ch, rng, mon, name, probe):
    """One operation lives through changes of its parameters, of its inputs and of their shapes, and is looked at
    in between (so that everything it remembers is filled in)."""
    s = Session(ch, rng, mon)
    op = OPS[name]
    for _ in range(25):
        s.nodes = []
        a = s.leaf()
        if op.nin == 2 and rng.rand() < .6:
            s.leaf(shape=op.second(rng, a.x.shape))
        n = s.try_op(op, a)
        if n is not None:
            break
    else:
        mon.skip('no arguments')
        return
    if rng.rand() < .4:
        s.grow(first=n)
    last = 'build'
    for step in range(rng.randint(3, 8)):
        for t in [i for i in n.ins if i.kind == 'leaf']:
            if rng.rand() < .8:
                probe(s, n, t, last)
        for _ in range(1 + (rng.rand() < .3)):
            q = rng.rand()
            if q < .35 and op.attrs:
                k = 'param' if s.change_param() is not None else None
            elif q < .7:
                k = 'shape' if s.reshape_leaf() is not None else None
            elif q < .8:
                k = 'rewire' if s.rewire() is not None else None
            else:
                k = 'set' if s.set_leaf() is not None else None
            if k is not None:
                mon.saw('life:' + k)
                last = k
    for m in s.ops():
        for t in [i for i in m.ins if i.kind == 'leaf']:
            probe(s, m, t, last)


def crowd(ch, rng, mon):
    """Very many expressions on one variable, wide and deep."""
    n = int(rng.randint(400, 2600))
    x = ch.Ch(np.array([1., 2.]))
    y = ch.Ch(np.array([.5, .25]))
    wide = [x * float(k) if k % 3 else y + x * float(k) for k in range(n)]
    deep = [x + 1.]
    for k in range(int(rng.randint(50, 250))):
        deep.append(deep[-1] + (y if k % 7 == 0 else 1.))
    for rep in range(3):
        for e in wide:
            e.r
        deep[-1].r
        v = np.round(rng.uniform(-3, 3, 2), 3)
        if rng.rand() < .3:
            x[:] = v
        else:
            x.x = v
        w = y.r.copy()
        mon.saw('crowd', (n, len(deep)))
        for k, e in enumerate(wide):
            if not np.allclose(e.r, v * k + (0 if k % 3 else w), 1e-12, 1e-12):
                mon.fail('crowd', 'expression %d of %d on one variable is stale' % (k, n))
        ks = np.arange(len(deep) - 1)
        if not np.allclose(deep[-1].r, v + 1 + np.sum(ks % 7 == 0) * w + np.sum(ks % 7 != 0), 1e-11, 1e-11):
            mon.fail('crowd', 'top of a chain of %d is stale' % len(deep))
        y.x = np.round(rng.uniform(-1, 1, 2), 3)


def case(ch, rng, mon, tier, i):
    if i % 4 == 2:
        many.several(ch, rng, mon, ('value',), 'several inputs')
    if i % 160 == 7:
        crowd(ch, rng, mon)
    s = Session(ch, rng, mon)
    s.build(rng.randint(3, 10), rng.randint(1, 4))
    last = 'build'
    for step in range(rng.randint(4, 14)):
        q = rng.rand()
        if q < .5:
            last = change(s, mon, rng) or last
        elif q < .85:
            n = s.pick(s.nodes)
            s.check_value(n, 'read', last)
        elif q < .93:
            n = s.pick(s.ops())
            if n is not None and s.good(n):     # a derivative read in between must not hide a later change
                t = s.pick_target(n)
                if s.good(t):
                    n.ch.dr_wrt(t.ch)
        else:
            s.grow()
    for n in sorted(s.nodes, key=lambda m: rng.rand()):
        s.check_value(n, 'final read', last)
    life(ch, rng, mon, NAMES[i % len(NAMES)], lambda s, n, t, last: s.check_value(n, 'life', last))
