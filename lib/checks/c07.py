"""C07: rewiring a graph takes full effect on values and derivatives."""
import numpy as np
import scipy.sparse as sp

import many
from engine import Session, compare, dense
from refops import A

CASES = {'quick': 1200, 'thorough': 20000}
RULE = ('a distinct observation is (operation read, input shapes, parameters, kind of rewiring, target) of a value or '
        'derivative compared with the reference evaluation of the rewired graph')
REQUIRED = ('value after rewiring', 'derivative after rewiring', 'change:rewire', 'change:substitute',
            'old input has no effect', 'new input has effect', 'plain array as input', 'called', 'several inputs',
            'setting replaced throughout')


def poke(s, n):
    """Change a variable below n (or n itself) in chumpy and in the reference, when the graph tolerates it."""
    lv = [m for m in s.reach(n) if m.kind == 'leaf']
    lv.sort(key=lambda m: m.tag)
    m = s.pick(lv)
    if m is None:
        return None
    old = m.x
    new = A(s.rand_val(old.shape))
    if s.tentative(lambda: setattr(m, 'x', new), lambda: setattr(m, 'x', old)):
        m.ch.x = np.array(new)
        s.mon.note('poke %d' % m.tag)
        return m
    return None


def shared_setting(ch, rng, mon):
    """One matrix used as a setting in several places of a graph is replaced throughout it."""
    d = rng.randint(1, 5)

    def matrix():
        m = np.round(rng.randn(d, d), 2)
        return sp.csc_matrix(m) if rng.rand() < .5 else m

    def full(m):
        return m.toarray() if sp.issparse(m) else m
    mats = [matrix() for _ in range(rng.randint(1, 4))]
    x = ch.Ch(np.round(rng.randn(d), 2))
    nodes, how = [x], [None]
    for _ in range(rng.randint(1, 7)):
        k = rng.randint(len(nodes))
        if rng.rand() < .6:
            j = rng.randint(len(mats))
            nodes.append(ch.MatVecMult(mats[j], nodes[k]))
            how.append(('m', j, k))
        else:
            l = rng.randint(len(nodes))
            nodes.append(nodes[k] + nodes[l])
            how.append(('+', k, l))
    cur = {n: (mats[h[1]] if h is not None and h[0] == 'm' else None) for n, h in enumerate(how)}

    def reach(n):
        seen, todo = set(), [n]
        while todo:
            a = todo.pop()
            if a not in seen:
                seen.add(a)
                h = how[a]
                todo += [] if h is None else ([h[2]] if h[0] == 'm' else [h[1], h[2]])
        return seen

    def judge(kind):
        V, J = [], []
        for n, h in enumerate(how):
            if h is None:
                V.append(np.array(x.x))
                J.append(np.eye(d))
            elif h[0] == 'm':
                V.append(full(cur[n]).dot(V[h[2]]))
                J.append(full(cur[n]).dot(J[h[2]]))
            else:
                V.append(V[h[1]] + V[h[2]])
                J.append(J[h[1]] + J[h[2]])
        for n, h in enumerate(how):
            if h is None or rng.rand() < .3:
                continue
            if h[0] == 'm':
                mon.check(nodes[n].mtx is cur[n], kind, 'node %d reports a matrix that is not its own' % n, ('which', h[0]))
            if rng.rand() < .7:
                bad = compare(np.asarray(nodes[n].r, float), V[n], 1e-9)
                mon.check(not bad, kind, lambda: 'value of node %d of %s: %s' % (n, how, bad), ('value', d, h[0]))
            if rng.rand() < .7:
                bad = compare(dense(nodes[n].dr_wrt(x)), J[n], 1e-9)
                mon.check(not bad, kind, lambda: 'derivative of node %d of %s: %s' % (n, how, bad), ('derivative', d, h[0]))
    mon.note('shared setting %s' % how)
    judge('setting before replacement')
    for _ in range(rng.randint(1, 4)):
        n = rng.randint(1, len(nodes))
        here = [m for m in sorted(reach(n)) if cur[m] is not None]
        if not here:
            continue
        old, new = cur[here[rng.randint(len(here))]], matrix()
        mon.note('replace a matrix below %d' % n)
        nodes[n].replace(old, new)
        hit = [m for m in here if cur[m] is old]
        for m in hit:
            cur[m] = new
        mon.saw('setting replaced throughout', (d, len(hit), hit[-1] == n, sp.issparse(old), sp.issparse(new)))
        judge('setting replaced throughout')


def case(ch, rng, mon, tier, i):
    if i % 5 == 3:
        shared_setting(ch, rng, mon)
    if i % 4 == 2:
        many.several(ch, rng, mon, ('value', 'derivative', 'old'), 'several inputs')
    s = Session(ch, rng, mon)
    s.build(rng.randint(3, 9), rng.randint(2, 4))
    last = 'build'
    for step in range(rng.randint(3, 9)):
        # warm the caches the rewiring has to invalidate
        for n in s.ops():
            q = rng.rand()
            if q < .4:
                s.check_value(n, 'value', last)
            elif q < .7:
                s.check_jac(n, s.pick_target(n), 'derivative', last)
        touched = None
        if rng.rand() < .65:
            r = s.rewire()
            if r is not None:
                n, old, new = r
                touched = (n, [o for o in old if o not in new and o.kind != 'const'], [m for m in new if m not in old and m.kind != 'const'])
                if any(m.kind == 'const' and m not in old for m in new):
                    mon.saw('plain array as input', 'called')
                mon.saw('change:rewire')
                last = 'rewire'
        else:
            r = s.substitute()
            if r is not None:
                root, old, new = r
                touched = (root, [old], [new])
                mon.saw('change:substitute')
                last = 'substitute'
        if touched is None:
            continue
        up = [m for m in s.ops() if touched[0] in s.reach(m)]
        if rng.rand() < .3:
            for m in s.nodes:                      # what was not rewired stays as it is
                if m not in up:
                    s.check_value(m, 'elsewhere', last)
        if rng.rand() < .5:
            for m in up:
                s.check_value(m, 'value after rewiring', last)
        for o in touched[1]:
            if poke(s, o):
                for m in up:
                    s.check_value(m, 'old input has no effect', last)
        for o in touched[2]:
            if poke(s, o):
                for m in up:
                    s.check_value(m, 'new input has effect', last)
        for m in up[:4]:
            for t in s.targets(m):
                if t.kind == 'leaf' or rng.rand() < .2:
                    s.check_jac(m, t, 'derivative after rewiring', last)
            for o in touched[1]:
                s.check_jac(m, o, 'derivative after rewiring', last) if o.kind == 'leaf' else None
        if rng.rand() < .2:
            s.drop()
    for n in s.ops():
        s.check_value(n, 'value after rewiring', last)
