"""C23: what the user has let go of is released: weak references watch every object of graphs that were read,
differentiated, changed, rewired, copied and minimised, while their inputs stay alive."""
import copy
import gc
import pickle
import weakref

import numpy as np

from engine import Session
from .c05 import change

CASES = {'quick': 260, 'thorough': 5000}
RULE = ('a distinct observation is (operation or kind of object, how it was used before it was let go, what was kept) of '
        'an object found released, or found alive because something kept needs it')
REQUIRED = ('expression released', 'needed expression kept', 'values released', 'derivative released',
            'replaced input released', 'wrapped released', 'rebound argument released', 'copy released',
            'minimised released', 'slice released', 'merged released', 'after failure released', 'kept value')
BATCH = 6


def use(s, mon, rng, used):
    """Fill in everything an expression can remember."""
    for step in range(rng.randint(2, 8)):
        q = rng.rand()
        n = s.pick(s.nodes)
        if q < .3:
            if s.good(n):
                n.ch.r
                used.add('read')
        elif q < .6 and n.kind == 'op' and s.good(n):
            t = s.pick_target(n)
            if s.good(t):
                how = rng.randint(4)
                if how == 0:
                    n.ch.dr_wrt(t.ch, reverse_mode=True)
                    used.add('reverse')
                elif how == 1:
                    n.ch.lop(t.ch, np.ones((1, s.val(n).size)))
                    used.add('lop')
                else:
                    n.ch.dr_wrt(t.ch)
                    used.add('forward')
        elif q < .7 and n.kind == 'op' and s.good(n):
            lf = [t for t in s.targets(n) if t.kind == 'leaf' and t.x.ndim > 0]
            if lf:
                t = s.pick(lf)
                k = t.ch[rng.randint(t.x.shape[0]):]       # a view made for one question
                n.ch.dr_wrt(k)
                used.add('view')
        elif q < .9:
            used.add(change(s, mon, rng) or 'read')
        elif s.rewire() is not None:
            used.add('rewire')
    return used


def made_of(roots):
    """Everything the given expressions are made of."""
    seen, todo = {}, list(roots)
    while todo:
        o = todo.pop()
        if id(o) not in seen:
            seen[id(o)] = o
            for k in list(o.dterms) + list(o.terms):
                c = getattr(o, k, None)
                if hasattr(c, 'dterms'):
                    todo.append(c)
    return seen


def graph(ch, rng, mon, watch, keep):
    s = Session(ch, rng, mon)
    s.build(rng.randint(2, 9), rng.randint(1, 4))
    if not s.ops():
        return
    used = use(s, mon, rng, set())
    kept = [n for n in s.leaves()]
    if rng.rand() < .5:
        kept += [n for n in s.ops() if rng.rand() < .15]
    for n in s.nodes:                                 # an expression notices its new inputs when it is next evaluated
        if n.kind == 'op' and s.good(n):
            n.ch.r
    need = made_of([k.ch for k in kept])
    how = '+'.join(sorted(used))
    only = len(kept) == len(s.leaves())
    for n in s.nodes:
        if n.kind != 'op':
            continue
        if id(n.ch) in need:
            watch.append((weakref.ref(n.ch), 'needed expression kept', (n.name, how), True))
            continue
        watch.append((weakref.ref(n.ch), 'expression released', (n.name, how, only), False))
        if only and s.good(n):
            watch.append((weakref.ref(n.ch.r), 'values released', (n.name, how), False))
            if rng.rand() < .3:
                t = s.pick_target(n)
                if s.good(t) and t is not n:
                    J = n.ch.dr_wrt(t.ch)
                    if J is not None:
                        watch.append((weakref.ref(J), 'derivative released', (n.name, t.name, how), False))
                    del J
    keep.append([(k.ch, np.array(s.val(k)) if s.good(k) else None, k.name) for k in kept])


def replaced(ch, rng, mon, watch, keep):
    """An input that was replaced is let go of as soon as its user has been evaluated again."""
    s = Session(ch, rng, mon)
    s.build(rng.randint(2, 7), rng.randint(1, 3))
    if not s.ops():
        return
    use(s, mon, rng, set())
    got = None
    for _ in range(4):
        got = s.rewire()
        if got is not None:
            break
    if got is None:
        return
    n, old, new = got
    gone = [m for k, m in enumerate(old) if m is not new[k] and m.kind != 'const']
    order = list(s.ops())
    rng.shuffle(order)
    for m in order:
        if s.good(m):
            m.ch.r
    keep.append(n.ch)
    for m in s.nodes:
        if m not in gone and not any(id(g.ch) in made_of([m.ch]) for g in gone):
            keep.append(m.ch)
    used = made_of([o for o in keep if hasattr(o, 'dterms')])
    for g in gone:
        if id(g.ch) not in used:
            watch.append((weakref.ref(g.ch), 'replaced input released', (n.name, g.name), False))


def wrapped(ch, rng, mon, watch, keep):
    x, y, z = [ch.Ch(np.round(rng.randn(2), 2)) for _ in range(3)]
    ex = ch.sin(x) if rng.rand() < .5 else x * 2.
    k = float(np.round(rng.rand(), 2))
    f = ch.Ch(lambda a, b: ch.exp(a * k) * b + a)
    kind = 'lambda'
    if rng.rand() < .4:
        from chumpy.ch import ChGroup
        f = ChGroup(f, {'a': ex, 'b': y})
        kind = 'group'
    else:
        f.a = ex
        f.b = y
    top = f * 2.
    for _ in range(rng.randint(4)):
        q = rng.randint(3)
        if q == 0:
            top.r
        elif q == 1:
            top.dr_wrt(x)
        else:
            x.x = np.round(rng.randn(2), 2)
    if rng.rand() < .5:
        f.a = z                                        # the old argument is let go of
        top.r
        top.dr_wrt(z)
        watch.append((weakref.ref(ex), 'rebound argument released', (kind,), False))
        keep.append((x, y, z, f, top))
        mon.check(top.dr_wrt(x) is None, 'kept value', 'derivative with respect to a rebound argument')
    else:
        for o, what in ((f, kind), (top, 'top'), (ex, 'argument')):
            watch.append((weakref.ref(o), 'wrapped released', (kind, what), False))
        keep.append((x, y, z))


def copies(ch, rng, mon, watch, keep):
    x = ch.Ch(np.round(rng.randn(3), 2))
    e = ch.concatenate((ch.sin(x), x[1:] * 2.))
    root = e * e + 1.
    if rng.rand() < .5:
        root.dr_wrt(x)
    how = rng.randint(3)
    c = pickle.loads(pickle.dumps(root)) if how == 0 else copy.deepcopy(root) if how == 1 else root.copy()
    if rng.rand() < .7:
        c.r
    if rng.rand() < .5:
        root.r
    for top in (c, root):                              # questions about views, of either
        kids = [o for o in made_of([top]).values() if type(o) is ch.Ch and o.size == 3]
        for v in [kids[0][1:], kids[0][::-1]] if kids and rng.rand() < .6 else ():
            q = rng.randint(4)
            if q == 0:
                top.dr_wrt(v)
            elif q == 1:
                top.dr_wrt(v, reverse_mode=True)
            elif q == 2:
                top.lop(v, np.ones((1, top.size)))
            else:
                top.a.dr_wrt(v)
            watch.append((weakref.ref(v), 'slice released', (q, 'of copy' if top is c else 'of original'), False))
        del kids
    v = top = None
    for o, what in ((c, 'top'), (c.a, 'inner')):
        watch.append((weakref.ref(o), 'copy released', (how, what), False))
    if rng.rand() < .5:
        keep.append((root, np.array(root.r), 'root'))
    else:                                              # the copy outlives the original
        watch.pop()
        watch.pop()
        watch.append((weakref.ref(root), 'copy released', (how, 'original'), False))
        keep.append((c, np.array(c.r), 'copy'))
    keep.append(x)


def minimised(ch, rng, mon, watch, keep):
    n = int(rng.randint(1, 4))
    x, y = ch.Ch(rng.randn(n)), ch.Ch(rng.randn(n))
    t = rng.randn(n)
    r1 = x * 2. - t
    r2 = ch.sin(y) - .1 + x
    obj = ch.concatenate((r1, r2))
    if rng.rand() < .5:
        free = [x, y]
    else:
        free = [x[:1], y]
    method = ('dogleg', 'BFGS', 'CG', 'Newton-CG', 'trust-ncg', 'L-BFGS-B', 'dogleg')[rng.randint(7)]
    opt = dict(disp=False, maxiter=3)
    if method == 'dogleg' and rng.rand() < .3:
        opt['treat_as_dense'] = True
    fun = obj if rng.rand() < .7 else [r1, r2] if rng.rand() < .5 else {'p': r1, 'q': r2}
    ch.minimize(fun, free, method=method, options=opt)
    for o, what in ((obj, 'objective'), (r1, 'residual'), (r2, 'residual'), (free[0] if free[0] is not x else obj, 'slice')):
        watch.append((weakref.ref(o), 'minimised released', (method, type(fun).__name__, what, len(free)), False))
    keep.append((x, y))


def slices(ch, rng, mon, watch, keep):
    """Views made in order to ask or to assign something, on variables and expressions that live on."""
    x = ch.Ch(rng.randn(4, 3))
    e = ch.sin(x) * 2.
    e.r
    for _ in range(rng.randint(1, 4)):
        v = x[rng.randint(3):] if rng.rand() < .5 else x.T[1:] if rng.rand() < .5 else x.reshape(-1)[2:]
        q = rng.randint(7)
        if q == 0:
            v.r
        elif q == 1:
            e.dr_wrt(v)
        elif q == 4:
            e.dr_wrt(v, reverse_mode=True)
        elif q == 5:
            e.lop(v, np.ones((1, e.size)))
        elif q == 6:
            e.lmult_wrt(np.ones((2, e.size)), v)
        elif q == 2:
            v[0] = float(rng.randint(4))
        else:
            w = e[1:]
            w.dr_wrt(x)
            watch.append((weakref.ref(w), 'slice released', (q, 'of expression'), False))
        watch.append((weakref.ref(v), 'slice released', (q,), False))
    keep.append((x, e))
    keep.append((e, np.array(e.r), 'expression'))


def merged(ch, rng, mon, watch, keep):
    x = ch.Ch(np.round(rng.randn(3), 2))
    a, b = ch.sin(x), ch.sin(x)
    p, q = a * 2., b * 2.
    root = p + q
    if rng.rand() < .5:
        root.dr_wrt(x)
    root.remove_redundancy()
    root.r
    inside = made_of([root])
    for o in (a, b):
        live = id(o) in inside
        watch.append((weakref.ref(o), 'needed expression kept' if live else 'merged released', 'twin', live))
    keep.append((root, 4. * np.sin(x.r), 'merged'))
    keep.append(x)


def failed(ch, rng, mon, watch, keep):
    x = ch.Ch(np.round(rng.randn(3), 2))
    k = rng.randint(4)
    if k == 0:
        e = ch.sin(x).reshape((2, 2)) * 2.
    elif k == 1:
        e = ch.linalg.inv(ch.Ch(np.zeros((2, 2)))) + ch.sum(x)
    elif k == 2:
        e = ch.sin(x) + ch.Ch(np.ones(2))
    else:
        e = ch.cumsum(ch.Ch(np.ones((2, 2))) * ch.sum(x), axis=0)
    bad = False
    for _ in range(rng.randint(1, 3)):
        try:
            (e.dr_wrt(x) if k == 3 or rng.rand() < .3 else e.r)
        except Exception:
            bad = True
    mon.check(bad, 'after failure released', 'an impossible request was honoured (%d)' % k)
    watch.append((weakref.ref(e), 'after failure released', (k,), False))
    keep.append((x, np.array(x.r), 'variable'))


KINDS = (graph, graph, graph, replaced, wrapped, copies, minimised, slices, merged, failed)


def case(ch, rng, mon, tier, i):
    watch, keep = [], []
    for j in range(BATCH):
        KINDS[(i * BATCH + j) % len(KINDS)](ch, rng, mon, watch, keep)
    for k in range(6):
        gc.collect()
        if not any(w() is not None for w, kind, sig, live in watch if not live):
            break
    for w, kind, sig, live in watch:
        if live:
            mon.check(w() is not None, kind, lambda: 'an expression that something kept is made of has vanished', sig)
        else:
            mon.check(w() is None, kind, lambda: '%s %s: still alive although nothing the user holds is made of it: %r' % (
                kind, sig, type(w())), sig)
    for q in keep:                                     # and what was kept still works
        for t in (q if isinstance(q, list) else [q]):
            if isinstance(t, tuple) and len(t) == 3 and isinstance(t[2], str) and t[1] is not None:
                mon.saw('kept value', t[2])
                if not np.allclose(t[0].r, t[1], 1e-9, 1e-12):
                    mon.fail('kept value', '%s reads %s after others were released, was %s' % (t[2], t[0].r, t[1]))
