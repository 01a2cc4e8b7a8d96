"""C10: pickled and copied graphs behave like the original, independently of it, and leave it alone."""
import copy
import pickle

import numpy as np
import scipy.sparse as sp

import many
from engine import Node, Session, compare, dense
from refops import A
from .c05 import change

CASES = {'quick': 1200, 'thorough': 20000}
RULE = ('a distinct observation is (side, way of copying, operation, input shapes, parameters, target) of a value or '
        'derivative of original or copy compared with its own reference after independent later changes')
REQUIRED = ('copy value', 'copy derivative', 'original value', 'original derivative', 'sharing', 'after changes', 'original wrapped', 'copy wrapped', 'marks', 'shallow')


def clone(s, nodes, chs):
    """A second session mirroring the same graph on other chumpy objects."""
    t = Session(s.ch, s.rng, s.mon, alias=s.alias)
    m = {}

    def get(n):
        if n not in m:
            k = Node(n.kind, n.op, [get(i) for i in n.ins], dict(n.p) if n.p is not None else None, None,
                     None if n.x is None else np.array(n.x))
            k.pinned, k.tag, k.shapes0 = n.pinned, n.tag, n.shapes0
            if n.kind == 'const':
                k.ch = n.ch
            m[n] = k
        return m[n]

    for n in nodes:
        get(n)
    for n, c in zip(nodes, chs):
        m[n].ch = c
    t.count = s.count
    return t, m


def sweep(s, mon, rng, side, how, full):
    for n in s.nodes:
        s.check_value(n, side + ' value', how)
    for n in s.ops()[::-1][:4 if full else 2]:
        for t in s.targets(n):
            if t.ch is not None and (t.kind == 'leaf' or rng.rand() < .3):
                s.check_jac(n, t, side + ' derivative', how)


BODIES = (
    lambda m: lambda x, y: m.sin(x) * y + x,
    lambda m: lambda x, y: m.exp(x * .3) - y * y * x,
    lambda m: lambda y, x: (x - y) * m.cos(x),
    lambda m: lambda x, y: m.concatenate((x * y, m.sin(x))),
    lambda m: lambda x, y: m.sum(x * x) * y,
    lambda m: lambda x, y, unused: x / (2. + y * y),
)


def slope(f, args, k):
    """Jacobian of f in argument k, by complex steps."""
    cols = []
    for j in range(args[k].size):
        z = [a.astype(complex) for a in args]
        z[k].ravel()[j] += 1e-30j
        cols.append(np.imag(np.ravel(f(*z))) / 1e-30)
    return np.array(cols).T


def wrapped(ch, rng, mon):
    """Functions wrapped as expressions, grouped or not, taken along by pickling and copying."""
    from chumpy.ch import ChGroup
    n = int(rng.randint(1, 4))
    B = BODIES[rng.randint(len(BODIES))]
    b = np.round(rng.randn(3, n), 3)
    body_c, body_n = B(ch), B(np)
    xfirst = body_n.__code__.co_varnames[0] == 'x'
    fn = (lambda x, y: (body_n(x, y) if len(body_n.__code__.co_varnames) == 2 else body_n(x, y, None)) if xfirst
          else body_n(y, x))
    leaves = [ch.Ch(v.copy()) for v in b[:2]]
    ex = leaves[0] * 2. if rng.rand() < .5 else leaves[0]
    gain = 2. if ex is not leaves[0] else 1.
    l = ch.Ch(body_c)
    kind = 'lambda'
    if rng.rand() < .3 and body_n.__code__.co_argcount == 2:
        kind = 'group'
        l = ChGroup(l, {'x': ex, 'y': leaves[1]})
    elif rng.rand() < .5:
        l.x, l.y = ex, leaves[1]
    else:
        l.set(x=ex, y=leaves[1])
    root = l * 1.5 + 1.
    if rng.rand() < .4:
        root.r
    if rng.rand() < .4:
        root.dr_wrt(leaves[0])
    objs = [root, l] + leaves
    how = rng.randint(3)
    if how == 0:
        got = pickle.loads(pickle.dumps(objs, int(rng.randint(0, pickle.HIGHEST_PROTOCOL + 1))))
    elif how == 1:
        got = copy.deepcopy(objs)
    else:
        c = ch.copy(root) if rng.rand() < .5 else root.copy()
        got = [c] + [None] * 3
    sides = [[objs, [b[0], b[1]], 'original'], [got, [b[0], b[1]], 'copy']]

    def look(side, when):
        o, x, name = side
        want = fn(x[0] * gain, x[1]) * 1.5 + 1.
        mon.saw(name + ' wrapped', (kind, how, when, n))
        bad = compare(o[0].r, want, 1e-9)
        if bad:
            mon.fail(name + ' wrapped', '%s %d %s: %s' % (kind, how, when, bad))
        for k in range(2):
            if o[2 + k] is None:
                continue
            J = dense(o[0].dr_wrt(o[2 + k]))
            wj = slope(lambda p, q: fn(p * gain, q) * 1.5, x, k)
            bad = compare(np.zeros_like(wj) if J is None else J, wj, 1e-9)
            if bad:
                mon.fail(name + ' wrapped', 'derivative %d of %s %d %s: %s' % (k, kind, how, when, bad))
    for side in sides if rng.rand() < .5 else sides[::-1]:
        look(side, 'at once')
    for _ in range(rng.randint(1, 5)):
        side = sides[rng.randint(2)]
        o, x, name = side
        k = rng.randint(2)
        if o[2] is None:
            continue
        v = np.round(rng.randn(n), 3)
        q = rng.rand()
        if q < .5:
            o[2 + k].x = v.copy()
        elif q < .75:
            o[2 + k][:] = v
        elif k == 1:                                   # bind another variable
            o[3] = ch.Ch(v.copy())
            o[1].y = o[3]
        else:
            continue
        x[k] = v
        for s in sides if rng.rand() < .5 else [side]:
            look(s, 'after change')
    for side in sides:
        look(side, 'at the end')


def marks(ch, rng, mon):
    """Requested formats, labels and attributes of the user's own come along."""
    n = int(rng.randint(2, 5))
    x = ch.Ch(np.round(rng.randn(n), 3))
    fmt = lambda: ({}, {'make_dense': True}, {'make_sparse': True})[rng.randint(3)]
    makers = (lambda e, f: ch.multiply(e, 3., **f), lambda e, f: ch.sin(e, **f), lambda e, f: ch.sum(e, axis=0, **f),
              lambda e, f: ch.add(e, x, **f), lambda e, f: ch.Select(a=e, idxs=np.arange(e.size)[::-1], **f))
    chain, e = [], x
    for _ in range(int(rng.randint(1, 5))):
        f = fmt()
        e = makers[rng.randint(len(makers))](e, f)
        if rng.rand() < .4:
            e.label = 'node %d' % len(chain)
        if rng.rand() < .4:
            e.remark = {'k': len(chain)}
        chain.append((e, f))
    if rng.rand() < .3:
        x.label = 'free'
    if rng.rand() < .5:
        e.dr_wrt(x)
    objs = [q for q, f in chain] + [x]
    how = int(rng.randint(4))
    if how == 0:
        got = pickle.loads(pickle.dumps(objs, int(rng.randint(0, pickle.HIGHEST_PROTOCOL + 1))))
    elif how == 1:
        got = copy.deepcopy(objs)
    elif how == 2:
        got = ch.copy(objs)
    else:
        got = pickle.loads(pickle.dumps(copy.deepcopy(objs)))
    for side, os in (('copy', got), ('original', objs)):
        for k, (q, f) in enumerate(chain):
            o = os[k]
            for name in ('label', 'remark'):
                mon.saw('marks', (how, side, name, hasattr(q, name)))
                if getattr(o, name, None) != getattr(q, name, None):
                    mon.fail('marks', '%s of the %s is %r, was %r' % (
                        name, side, getattr(o, name, None), getattr(q, name, None)))
            J = o.dr_wrt(os[-1])
            mon.saw('marks', (how, side, type(q).__name__, tuple(f)))
            if f and sp.issparse(J) != ('make_sparse' in f):
                mon.fail('marks', 'derivative of the %s of %s made with %s is %s' % (side, type(q).__name__, f, type(J)))
        if getattr(os[-1], 'label', None) != getattr(x, 'label', None):
            mon.fail('marks', 'label of the variable is lost')


def shallow(ch, rng, mon):
    """copy.copy() of a single operation: the same inputs, settings of its own."""
    n = int(rng.randint(1, 4))
    rv = lambda: np.round(rng.uniform(-1.5, 1.5, n), 3)
    kind = many.Kind(ch, rng, nd=int(rng.randint(1, 4)), nt=int(rng.randint(1, 4)))
    pool = [ch.Ch(rv()) for _ in range(rng.randint(1, 4))]
    have = dict((k, pool[rng.randint(len(pool))]) for k in kind.d)
    have.update((k, float(np.round(rng.uniform(-.5, 1.), 3))) for k in kind.t)
    objs = [[kind.cls(**have), have, 'original']]
    mon.note('shallow %s %s' % (kind.style, sorted(have)))
    last = 'made'
    for step in range(rng.randint(4, 14)):
        o, have, who = objs[rng.randint(len(objs))]
        q = int(rng.randint(8))
        if q == 0 and len(objs) < 3:
            objs.append([copy.copy(o), dict(have), 'copy'])
            last = 'copied'
        elif q == 1:
            k = kind.t[rng.randint(len(kind.t))]
            have[k] = float(np.round(rng.uniform(-.5, 1.), 3))
            setattr(o, k, have[k])
            last = 'term'
        elif q == 2:
            k = kind.d[rng.randint(len(kind.d))]
            have[k] = pool[rng.randint(len(pool))] if rng.rand() < .5 else ch.Ch(rv())
            setattr(o, k, have[k])
            last = 'rewired'
        elif q == 3:
            pool[rng.randint(len(pool))].x = rv()
            last = 'contents'
        else:
            v = dict((k, have[k].r if k in kind.d else have[k]) for k in have)
            sig = (who, last, len(objs), tuple(map(str, kind.style)))
            mon.note('look at %s after %s' % (who, last))
            if q < 7:
                bad = compare(o.r, A(kind.value(v)), 1e-9)
                mon.check(not bad, 'shallow', lambda: 'value of the %s: %s' % (who, bad), sig)
            else:
                x = have[kind.d[rng.randint(len(kind.d))]]
                ref = np.diag(sum(kind.slope(v, k) for k in kind.d if have[k] is x) * np.ones(n))
                bad = compare(dense(o.dr_wrt(x)), ref, 1e-9)
                mon.check(not bad, 'shallow', lambda: 'derivative of the %s: %s' % (who, bad), sig)


def case(ch, rng, mon, tier, i):
    if i % 3 == 1:
        marks(ch, rng, mon)
    if i % 3 == 2:
        shallow(ch, rng, mon)
    if i % 3 == 0:
        wrapped(ch, rng, mon)
    s = Session(ch, rng, mon)
    s.build(rng.randint(2, 9), rng.randint(1, 4))
    if not s.ops():
        return
    for n in s.nodes:                       # caches in any state
        q = rng.rand()
        if q < .3:
            s.check_value(n, 'original value', 'before')
        elif q < .6 and n.kind == 'op':
            s.check_jac(n, s.pick_target(n), 'original derivative', 'before')
    for _ in range(rng.randint(3)):         # changes that nobody has looked at yet
        change(s, mon, rng)
    if not s.ops():
        return
    how = rng.randint(5)
    root = s.ops()[-1]
    if how <= 2:
        nodes = list(s.nodes)
        objs = [n.ch for n in nodes]
        if how == 0:
            proto = rng.randint(0, pickle.HIGHEST_PROTOCOL + 1)
            got = pickle.loads(pickle.dumps(objs, proto))
            name = 'pickle%d' % proto
        elif how == 1:
            got = copy.deepcopy(objs)
            name = 'deepcopy'
        else:
            got = ch.copy(objs) if rng.rand() < .5 else pickle.loads(pickle.dumps(tuple(objs), 2))
            name = 'graph list'
        t, m = clone(s, nodes, got)
        t.nodes = [m[n] for n in nodes]
    else:
        c = root.ch.copy() if how == 3 else ch.copy(root.ch)
        name = 'copy'
        nodes = sorted(s.reach(root), key=lambda n: -1 if n.tag is None else n.tag)
        t, m = clone(s, nodes, [None if n.kind != 'const' else n.ch for n in nodes])
        m[root].ch = c
        todo = [root]
        while todo:                         # name the copied inputs as the user would
            n = todo.pop()
            names = s.names_of(n)
            if names is None:
                continue
            for k, q in enumerate(n.ins):
                if q.kind == 'const' or getattr(n.ch, names[k], None) is not q.ch:
                    continue
                got = getattr(m[n].ch, names[k])
                mon.saw('sharing', (n.name, q.name, m[q].ch is None))
                if m[q].ch is None:
                    m[q].ch = got
                    todo.append(q)
                elif m[q].ch is not got:
                    mon.fail('sharing', 'input %s of %s is shared in the original but not in the copy' % (names[k], n.name))
        t.nodes = [m[n] for n in nodes if n.kind != 'const' and m[n].ch is not None]
    mon.note('copied: ' + name)
    if any(a.ch is b.ch for a in s.nodes for b in t.nodes if a.ch is not None):
        mon.fail('sharing', 'the copy shares an object with the original')
    order = [(s, 'original'), (t, 'copy')]
    if rng.rand() < .5:
        order.reverse()
    for q, side in order:
        sweep(q, mon, rng, side, name, False)
    for step in range(rng.randint(1, 5)):
        q, side = order[rng.randint(2)]
        if name == 'copy' and side == 'copy':
            k = q.set_leaf()                # structure of unnamed inputs cannot be followed
        elif rng.rand() < .75:
            k = change(q, mon, rng)
        else:
            k = q.rewire()
        if k is not None:
            mon.saw('after changes', (name, side, str(k)[:5] if isinstance(k, str) else 'x'))
        if rng.rand() < .5:
            n = q.pick(q.nodes)
            q.check_value(n, side + ' value', name + '/later')
    if rng.rand() < .3:                     # a copy does not need the original
        if name != 'copy':
            order = [(t, 'copy')]
            for n in s.nodes:
                n.ch = None
            s.nodes = []
    for q, side in order:
        sweep(q, mon, rng, side, name + '/later', True)
