"""C11: redundancy removal changes no value and no derivative, now or after later changes of the variables."""
import numpy as np

from engine import Node, Session
from refops import OPS, AxisOp, Binary, Det, Extremum1, Extremum2, NonDiffUnary, Reorder, Unary

CASES = {'quick': 1500, 'thorough': 25000}
RULE = ('a distinct observation is (phase, operation, input shapes, parameters, target) of a value or derivative after '
        'redundancy removal compared with the unmerged reference graph')
REQUIRED = ('value', 'derivative', 'value after change', 'derivative after change', 'merged', 'near-duplicate', 'same numbers', 'large parameters')


FAMILIES = (Unary, NonDiffUnary, Binary, Extremum1, Extremum2, AxisOp, Det, Reorder)


def twin(s, n, near):
    """Write the operation n down again: on the same inputs, or with one thing different."""
    rng = s.rng
    ins, p, op = list(n.ins), dict(n.p), n.op
    p['form'] = int(rng.randint(n.op.forms))
    if near:
        q = rng.randint(5)
        if q >= 3:                                     # a sibling: another operation of the same kind and inputs
            sib = [k for k in sorted(OPS) if k != n.name and OPS[k].nin == op.nin and
                   [c for c in type(OPS[k]).__mro__ if c in type(op).__mro__][0] in FAMILIES]
            if not sib:
                return None
            op = OPS[sib[rng.randint(len(sib))]]
            p2 = op.gen(rng, [s.val(i).shape for i in ins])
            if p2 is None:
                return None
            if isinstance(op, AxisOp) and 'axis' in p2 and 'axis' in p and (p['axis'] is None) == (p2['axis'] is None):
                p2['axis'] = p['axis']                 # nothing but the operation itself differs
            p = p2
            p['form'] = int(rng.randint(op.forms))
        elif q == 0:                                     # another variable with equal contents
            k = rng.randint(len(ins))
            if ins[k].kind != 'leaf':
                return None
            ins[k] = s.leaf(x=np.array(ins[k].x))
        elif q == 1 and len(ins) > 1:                  # inputs swapped
            ins = ins[::-1]
        else:
            p2 = n.op.gen(rng, [s.val(i).shape for i in ins])
            if not p2:
                return None
            p = dict(p2, form=p['form'])
            if rng.rand() < .5:                        # parameters that differ in the last digits only
                p = dict(n.p, form=p['form'])
                fl = [k for k in sorted(p) if isinstance(p[k], float) or
                      isinstance(p[k], np.ndarray) and p[k].dtype.kind == 'f' and p[k].size]
                if not fl:
                    return None
                k = fl[rng.randint(len(fl))]
                p[k] = p[k] * (1. + 10. ** -rng.randint(5, 11))
    else:                                              # twins of the inputs, built bottom-up
        for k, i in enumerate(ins):
            if i.kind == 'op' and rng.rand() < .5:
                t = twin(s, i, False)
                if t is not None:
                    ins[k] = t
    m = Node('op', op=op, ins=ins, p=p)
    if not s.good(m):
        return None
    return s.realise(m)


def distinct(o, seen):
    if id(o) not in seen:
        seen[id(o)] = o
        for k in o.dterms:
            c = getattr(o, k, None)
            if hasattr(c, 'dterms'):
                distinct(c, seen)
    return seen


def large(ch, rng, mon):
    """Operations whose parameters are arrays too long to be told apart at a glance."""
    n = int(rng.randint(1500, 4000))
    x = ch.Ch(rng.randn(n))
    k1 = rng.permutation(n)[:n - 200]
    k2 = k1.copy()
    j = rng.randint(10, len(k1) - 10)
    k2[j], k2[j + 1] = k2[j + 1], k2[j]
    M = rng.randn(40, 40)
    N = M.copy()
    N[rng.randint(5, 35), rng.randint(5, 35)] += 1.
    y = ch.Ch(rng.randn(40))
    parts = [x[k1], x[k2], x[k1.copy()] * 2., ch.MatVecMult(mtx=M, vec=y), ch.MatVecMult(mtx=N, vec=y),
             ch.clip(x, np.zeros(n) - 1., np.ones(n))]
    refs = [lambda: x.x[k1], lambda: x.x[k2], lambda: x.x[k1] * 2., lambda: M.dot(y.x), lambda: N.dot(y.x),
            lambda: np.clip(x.x, -1., 1.)]
    lo = -np.ones(n)
    lo[n // 2] = .5
    parts.append(ch.clip(x, lo, np.ones(n)))
    refs.append(lambda: np.clip(x.x, lo, 1.))
    root = ch.concatenate([p.ravel() for p in parts])
    if rng.rand() < .5:
        root.r
    root.remove_redundancy()
    for rep in range(2):
        if rep:
            x.x = rng.randn(n)
            y[rng.randint(40)] = 3.
        want = [f() for f in refs]
        mon.saw('large parameters', rep)
        got = root.r
        if not np.allclose(got, np.concatenate(want), 1e-9, 1e-12):
            mon.fail('large parameters', 'value changed by redundancy removal')
        t = rng.randn(n)
        J = root.dr_wrt(x)
        bounds = [(-1., 1.), (lo, 1.)]
        inside = [(x.x > a) & (x.x < b) for a, b in bounds]
        wantj = np.concatenate([t[k1], t[k2], 2. * t[k1], np.zeros(80), t * inside[0], t * inside[1]])
        if not np.allclose(np.asarray(J.dot(t)).ravel(), wantj, 1e-9, 1e-12):
            mon.fail('large parameters', 'derivative changed by redundancy removal')


def case(ch, rng, mon, tier, i):
    if i % 50 == 9:
        large(ch, rng, mon)
    s = Session(ch, rng, mon)
    s.build(rng.randint(2, 7), rng.randint(1, 4))
    pool = s.ops()
    if not pool:
        return
    made = []
    for _ in range(rng.randint(1, 5)):
        n = s.pick(pool)
        near = rng.rand() < .4
        t = twin(s, n, near)
        if t is not None:
            made.append((n, t))
            if near:
                mon.saw('near-duplicate', n.name)
    # tie everything together in one expression
    root = None
    for n in [q for pair in made for q in pair] + s.ops()[-2:]:
        if not s.good(n):
            continue
        m = Node('op', op=OPS['sum'], ins=[n], p={'axis': None, 'form': 0})
        if not s.good(m) or s.realise(m) is None:
            continue
        if root is None:
            root = m
        else:
            name = ('add', 'multiply', 'subtract')[rng.randint(3)]
            k = Node('op', op=OPS[name], ins=[root, m], p={'form': 2})
            if not s.good(k):
                continue
            k = s.realise(k)
            root = k
    if root is None:
        return
    tops = [root]
    extra = s.grow()
    if extra is not None:
        tops.append(extra)
    for n in s.nodes:
        if rng.rand() < .3:
            s.check_value(n, 'value before')
    if rng.rand() < .4:
        s.check_jac(root, s.pick([t for t in s.targets(root) if t.kind == 'leaf'] or s.leaves()), 'derivative before')
    numbers = [(n, np.array(n.ch.r)) for n in s.nodes if n.kind == 'op' and s.good(n)]
    before = len(distinct(root.ch, {}))
    (root if rng.rand() < .8 else tops[-1]).ch.remove_redundancy()
    after = len(distinct(root.ch, {}))
    mon.note('remove_redundancy: %d -> %d objects' % (before, after))
    if after < before:
        mon.saw('merged', before - after)
    for n, v in numbers:
        mon.check(n.ch.r.tobytes() == v.tobytes(), 'same numbers', lambda: 'node %s (%s) read %s before the removal and '
                  '%s after it' % (n.tag, n.name, v, n.ch.r), s.sig(n))
    lv = s.leaves()
    for rep in range(2):
        ph = 'before change' if rep == 0 else ''
        for k in range(1 if rep == 0 else rng.randint(1, 4)):
            if rep:
                s.set_leaf() if rng.rand() < .6 else s.set_items()
            order = list(s.nodes)
            for n in order[::-1] if rng.rand() < .5 else order:
                s.check_value(n, 'value after change' if rep else 'value')
            for n in tops + s.ops()[-2:]:
                for t in lv:
                    if t in s.reach(n) or rng.rand() < .1:
                        s.check_jac(n, t, 'derivative after change' if rep else 'derivative',
                                    get=(lambda: n.ch.dr_wrt(t.ch, reverse_mode=True)) if rng.rand() < .2 else None)
        if rng.rand() < .2:
            root.ch.remove_redundancy()
