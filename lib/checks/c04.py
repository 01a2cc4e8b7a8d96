"""C04: every route to a derivative describes the same linear map."""
import numpy as np
import scipy.sparse as sp

import refops
from engine import Node, Session, compare, dense

CASES = {'quick': 1500, 'thorough': 25000}
RULE = ('a distinct observation is (operation, input shapes, parameters, target, route, position in the query order) of '
        'a derivative obtained by that route, compared with the reference')
REQUIRED = ('forward', 'reverse', 'lmult', 'lop', 'make_dense', 'make_sparse', 'repeat')


def product(s, n, t, route, L, get, V, T, scale, idxs):
    """Judge L * Jacobian."""
    D = dense(get())
    s.mon.saw(route, s.sig(n, (t.name, s.val(t).shape, L.shape[0], idxs is None)))
    ref = L.dot(T.reshape(T.shape[0], -1).T) if T is not None else None
    if D is None:
        if T is not None and np.abs(ref).max() > 1e-9 * scale * np.abs(L).max():
            s.mon.fail(route, 'd(%s %s)/d(%s %s): None, expected %s' % (n.tag, n.name, t.tag, t.name, ref))
        return
    if T is None:
        if np.any(D != 0):
            s.mon.fail(route, 'no dependence of %s on %s, got %s' % (n.name, t.name, D))
        return
    D = np.atleast_2d(D)
    if D.shape != (L.shape[0], V.shape[1]):
        s.mon.fail(route, 'd(%s %s)/d(%s %s): shape %s, expected %s' % (
            n.tag, n.name, t.tag, t.name, D.shape, (L.shape[0], V.shape[1])))
    bad = compare(D.dot(V.T), ref, 1e-9, scale * max(1., np.abs(L).max()) * L.shape[1])
    if bad:
        s.mon.fail(route, 'd(%s %s)/d(%s %s): %s' % (n.tag, n.name, t.tag, t.name, bad))


def formats(ch, rng, mon, s):
    """Operations written with make_dense / make_sparse."""
    ns = [n for n in s.usable() if n.kind == 'op' or rng.rand() < .3]
    a = s.pick(ns)
    if a is None:
        return
    name = ('make_dense', 'make_sparse')[rng.randint(2)]
    kw = {name: True}
    q = rng.randint(5)
    b = s.pick([m for m in s.usable() if refops.compatible(s.val(m).shape, s.val(a).shape)])
    if q == 0:
        op, ins, mk = 'add', [a, b], lambda: ch.add(a=a.ch, b=b.ch, **kw)
    elif q == 1:
        op, ins, mk = 'multiply', [a, b], lambda: ch.multiply(a=a.ch, b=b.ch, **kw)
    elif q == 2:
        op, ins, mk = 'sin', [a], lambda: ch.sin(a.ch, **kw)
    elif q == 3:
        op, ins, mk = 'sum', [a], lambda: ch.sum(a.ch, axis=None, **kw)
    else:
        op, ins, mk = 'UDense', [a], lambda: refops.user_classes(ch)['UDense'](x=a.ch, **kw)
    n = Node('op', op=refops.OPS[op], ins=ins, p={'axis': None, 'form': 0})
    if not s.good(n):
        return
    n.ch = mk()
    s.mon.note('%d=%s(%s) %s' % (s.count, op, [m.tag for m in ins], name))
    s.add(n)
    top = s.grow(first=n)
    for t in s.targets(n)[::-1][:4]:
        if t is n:
            continue
        for rep in range(2):
            box = []

            def get():
                box.append(n.ch.dr_wrt(t.ch))
                return box[-1]
            if s.check_jac(n, t, name, 'repeat' if rep else 'first', get=get) and box and box[0] is not None:
                if sp.issparse(box[0]) != (name == 'make_sparse'):
                    mon.fail(name, '%s: got %s' % (name, type(box[0])))
        if top is not None:
            s.check_jac(top, t, name, 'above')


def case(ch, rng, mon, tier, i):
    s = Session(ch, rng, mon)
    s.build(rng.randint(2, 8), rng.randint(1, 4))
    if rng.rand() < .3:
        formats(ch, rng, mon, s)
        return
    queries = []
    for n in s.ops()[::-1][:3]:
        ts = s.targets(n)
        for t in ts:
            if t is n or (t.kind != 'leaf' and rng.rand() < .6):
                continue
            queries.append((n, t, None))
            if t.kind == 'leaf' and rng.rand() < .3:
                queries.append((n, t, refops.gen_key(rng, s.val(t).shape)))
        u = s.pick([m for m in s.leaves() if m not in ts])
        if u is not None:
            queries.append((n, u, None))
    work = []
    for n, t, key in queries:
        if not (s.good(n) and s.good(t)):
            continue
        idxs = None
        if key is not None:
            idxs = np.ravel(np.arange(s.val(t).size).reshape(s.val(t).shape)[key])
            if len(np.unique(idxs)) != len(idxs):
                continue
        V, st, T, scale = s.ref_jac(n, t, idxs)
        if st and T is None:
            mon.skip('not differentiable here')
            continue
        w = t.ch if key is None else t.ch[key]
        m = s.val(n).size
        routes = ['forward', 'reverse', 'lmult', 'lop', 'repeat']
        for r in routes:
            if r != 'repeat' and rng.rand() < .25:
                continue
            if r in ('lmult', 'lop'):
                k = rng.randint(3)
                L = np.ones((1, m)) if k == 0 else rng.randn(1 if k == 1 else rng.randint(1, 4), m)
                Ls = L
                if rng.rand() < .3:
                    Ls = (sp.csc_matrix, sp.csr_matrix)[rng.randint(2)](L)
                f = (lambda n=n, w=w, Ls=Ls: n.ch.lmult_wrt(Ls, w)) if r == 'lmult' else \
                    (lambda n=n, w=w, Ls=Ls: n.ch.lop(w, Ls))
                work.append((r, n, t, idxs, V, T, scale, L, f))
            else:
                f = (lambda n=n, w=w: n.ch.dr_wrt(w)) if r != 'reverse' else \
                    (lambda n=n, w=w: n.ch.dr_wrt(w, reverse_mode=True))
                work.append((r, n, t, idxs, V, T, scale, None, f))
    for k in rng.permutation(len(work)):
        r, n, t, idxs, V, T, scale, L, f = work[k]
        mon.note('%s d%s/d%s%s' % (r, n.tag, t.tag, '' if idxs is None else ' slice'))
        if L is None:
            L = np.eye(s.val(n).size)
        product(s, n, t, r, L, f, V, T, scale, idxs)
        if rng.rand() < .15:      # drop caches, or touch a variable without changing it: routes restart cold
            lf = s.pick(s.leaves())
            lf.ch.x = np.array(lf.x)
            mon.note('touch %s' % lf.tag)
