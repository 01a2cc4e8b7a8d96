"""C12: dogleg runs under a monitor: probe operations see every evaluated point, the step callback sees every accepted
point, and snapshots of all variables judge what was touched."""
import numpy as np
import scipy.sparse as sp

import refops
from engine import Session, compare, brief

CASES = {'quick': 1500, 'thorough': 30000}
RULE = ('a distinct observation is (monitor, problem family, free-variable layout, options class, number of accepted '
        'steps, number of rejected trials) of one minimisation')
REQUIRED = ('accepted step does not increase', 'final point is the last accepted', 'other entries untouched',
            'objective consistent', 'linear problem solved', 'iteration limit', 'evaluation limit',
            'restored after rejected trial', 'non-finite trial survived', 'classical problem solved', 'objective in pieces')

_cls = {}


class TooMany(Exception):
    pass


def classes(ch):
    if _cls:
        return _cls

    class Probe(ch.Ch):
        """Passes a through and reports every evaluation."""
        dterms = ('a',)
        terms = ('log',)

        def compute_r(self):
            self.log.evaluated(self.a.r)
            return self.a.r.ravel()

        def compute_dr_wrt(self, wrt):
            if wrt is self.a:
                return sp.eye(self.a.size, self.a.size)

    class Hostile(ch.Ch):
        """Well behaved near c, something else away from it; the derivative may be wrong everywhere."""
        dterms = ('a',)
        terms = ('c', 'radius', 'how', 'M')

        def compute_r(self):
            v = self.a.r.ravel()
            far = np.abs(v - self.c).max() > self.radius
            if far and self.how == 'nan':
                return v * np.nan
            if far and self.how == 'one nan':
                v = v.copy()
                v[0] = np.nan
                return v
            if far and self.how == 'inf':
                return v * np.inf
            if far and self.how == 'cliff':
                return v + 100. * np.sign(v + .1)
            return v

        def compute_dr_wrt(self, wrt):
            if wrt is self.a:
                if self.how == 'wrong':
                    return self.M
                return sp.eye(self.a.size, self.a.size)

    _cls.update(Probe=Probe, Hostile=Hostile)
    return _cls


class Log(object):
    """Every evaluation of the residual: the point is identified by the residual's own free inputs."""

    def __init__(self, point, cap):
        self.point, self.cap = point, cap
        self.keys = set()
        self.n = 0
        self.nonfinite = 0

    def evaluated(self, v):
        self.n += 1
        self.keys.add(self.point())
        if not np.all(np.isfinite(v)):
            self.nonfinite += 1
        if self.n > self.cap:
            raise TooMany('%d evaluations of the residual' % self.n)


def content(c):
    return np.array(np.atleast_1d(np.asarray(c.x, dtype=np.float64)))


class Free(object):
    """One free variable: a leaf, or a slice of one."""

    def __init__(self, var, leaf, idx):
        self.var, self.leaf, self.idx = var, leaf, np.asarray(idx)


def slices(ch, rng, leaf, size, shape):
    """Some disjoint slices of a leaf, possibly nested."""
    flat = np.arange(size).reshape(shape)
    q = rng.randint(5)
    if q == 0 and len(shape) >= 1 and shape[0] > 1:
        k = rng.randint(1, shape[0])
        parts = [(leaf[:k], flat[:k]), (leaf[k:], flat[k:])]
    elif q == 1 and len(shape) == 2 and shape[1] > 1:
        k = rng.randint(1, shape[1])
        parts = [(leaf[:, k:], flat[:, k:]), (leaf[:, :k], flat[:, :k])]
    elif q == 2:
        parts = [(leaf[::2], flat[::2])]
        if len(flat) > 1:
            parts.append((leaf[1::2], flat[1::2]))
    elif q == 3 and shape[0] > 2:
        parts = [(leaf[1:][1:], flat[1:][1:]), (leaf[:1], flat[:1])]
        if rng.rand() < .5 and shape[0] > 3:
            parts[0] = (leaf[::-1][1:][:2], flat[::-1][1:][:2])
            parts[1] = (leaf[:1], flat[:1])
    else:
        order = rng.permutation(size)
        k = rng.randint(1, size + 1)
        order = np.sort(order[:k]) if rng.rand() < .5 else order[:k]
        key = np.unravel_index(order, shape)
        parts = [(leaf[key], flat[key])]
    if rng.rand() < .5:
        parts = parts[:1]
    elif rng.rand() < .5:
        parts = parts[::-1]
    return [Free(v, leaf, f.ravel()) for v, f in parts]


def options(rng, dense_ok=True):
    o = {'disp': bool(rng.rand() < .3)}
    cls = []
    q = rng.rand()
    if q < .35:
        o['maxiter'] = int(rng.randint(1, 8))
        cls.append('maxiter')
    elif q < .6:
        o['maxiter'] = int(rng.randint(8, 60))
    q = rng.rand()
    if q < .3:
        o['max_fevals'] = int(rng.randint(1, 12))
        cls.append('fevals')
    q = rng.randint(5)
    if q == 0:
        o['sparse_solver'] = 'cg'
    elif q == 1:
        o['sparse_solver'] = lambda a, b, M=None: np.linalg.lstsq(a.toarray(), np.asarray(b), rcond=None)[0]
    elif q == 2:
        o['sparse_solver'] = 'spsolve'
    cls.append('solver%d' % min(q, 3))
    if rng.rand() < .5:
        o['delta_0'] = float(10 ** rng.uniform(-3, 3))
        cls.append('delta')
    if rng.rand() < .3:
        o['treat_as_dense'] = True
        cls.append('dense')
    if rng.rand() < .3:
        o['e_3'] = float(10 ** rng.uniform(-4, -.3))
        cls.append('e3')
    if rng.rand() < .2:
        o['e_1'] = float(10 ** rng.uniform(-12, -1))
    if rng.rand() < .2:
        o['e_2'] = float(10 ** rng.uniform(-12, -2))
    return o, tuple(cls)


def bound(o):
    # a trust region of at most 1e20 can be quartered fewer than 600 times before it underflows
    return (o.get('maxiter', 200) + 2) * 700


def run(ch, rng, mon, fam, obj, frees, allleaves, o, cls, check, flat=None):
    """Minimise under observation. obj(probe log) builds the objective; check(where) judges the whole objective."""
    C = classes(ch)
    before = [content(c) for c in allleaves]
    watched = sorted(set(id(f.leaf) for f in frees))
    leafof = dict((id(f.leaf), f.leaf) for f in frees)

    def point():
        return tuple(content(leafof[k]).tobytes() for k in watched)

    log = Log(point, bound(o))
    probe = C['Probe'](a=obj, log=log)
    target = probe
    q = rng.randint(5)
    several = [probe]
    if q < 3 and obj.size > 1 and rng.rand() < .6:        # the same residuals, in pieces
        flat_ = probe.ravel() if len(obj.shape) > 1 else probe
        cuts = sorted(set([0, obj.size] + [int(k) for k in rng.randint(1, obj.size, size=rng.randint(1, 4))]))
        several = [flat_[a:b] for a, b in zip(cuts[:-1], cuts[1:])]
    if q == 0:
        target = several
    elif q == 1:
        target = tuple(several)
    elif q == 2:
        target = dict(('residual%d' % k, e) for k, e in enumerate(several))
    if q < 3:
        mon.saw('objective in pieces', (q, len(several)))
    steps = []

    def on_step(st):
        r = np.array(st.r).ravel()
        steps.append((float(np.sum(r ** 2)), point(), r.copy()))
        if len(steps) > 1:
            a, b = steps[-2][0], steps[-1][0]
            mon.saw('accepted step does not increase', (fam, cls))
            if not b <= a * (1 + 1e-12):
                mon.fail('accepted step does not increase', 'sum of squares went from %r to %r (%s)' % (a, b, o))
        if rng2.rand() < .3:
            check('at step %d' % len(steps))

    rng2 = np.random.RandomState(rng.randint(2 ** 31 - 1))
    r0 = np.array(obj.r).ravel()
    sse0 = float(np.sum(r0 ** 2))
    p0 = point()
    mon.note('%s, %d free variables, options %s' % (fam, len(frees), o))
    free_vars = [f.var for f in frees]
    try:
        if rng.rand() < .5:
            ch.minimize(target, x0=free_vars, method='dogleg', callback=on_step, options=o)
        elif rng.rand() < .5 and target is probe:
            probe.minimize(free_vars, callback=on_step, options=o)
        else:
            from chumpy.optimization_internal import minimize_dogleg
            minimize_dogleg(target, free_vars, on_step=on_step, **o)
    except TooMany as e:
        mon.fail('terminates', '%s with options %s' % (e, o))
    except AssertionError:
        if flat is None or not flat():      # a sparse Jacobian without any entry is refused
            raise
        mon.skip('zero Jacobian')
    rejected = len(log.keys) - len(steps)
    sig = (fam, cls, len(frees), min(len(steps), 6), min(max(rejected, 0), 6))
    # limits
    maxiter = o.get('maxiter', 200)
    mon.check(len(steps) - 1 <= maxiter, 'iteration limit',
              lambda: '%d accepted steps with maxiter=%d' % (len(steps) - 1, maxiter), sig)
    if 'max_fevals' in o:
        mon.check(len(log.keys) <= o['max_fevals'] + 2, 'evaluation limit',
                  lambda: '%d points evaluated with max_fevals=%d' % (len(log.keys), o['max_fevals']), sig)
    # where the variables are
    if steps:
        mon.saw('final point is the last accepted', sig)
        if log.n > len(steps) and rejected > 0:
            mon.saw('restored after rejected trial', sig)
        if log.nonfinite:
            mon.saw('non-finite trial survived', sig)
        for k, (w, want) in enumerate(zip(watched, steps[-1][1])):
            now = content(leafof[w]).ravel()
            bad = compare(now, np.frombuffer(want), 1e-12, max(1., np.abs(now).max())) if np.all(np.isfinite(now)) else \
                'non-finite variable %s' % brief(now)
            if bad and np.all(np.isfinite(np.frombuffer(p0[k]))):
                mon.fail('final point is the last accepted', 'variable %d: %s (accepted %d, rejected %d, options %s)' %
                         (k, bad, len(steps) - 1, rejected, o))
        bad = compare(np.array(obj.r).ravel(), steps[-1][2], 1e-9) if np.all(np.isfinite(steps[-1][2])) else None
        if bad:
            mon.fail('objective consistent', 'objective after minimising is not the one at the last accepted point: ' + bad)
    # untouched entries
    sel = {}
    for f in frees:
        sel.setdefault(id(f.leaf), []).append(f.idx)
    for c, b in zip(allleaves, before):
        now = content(c)
        idx = sel.get(id(c))
        keep = np.ones(b.size, bool)
        if idx is not None:
            keep[np.concatenate(idx)] = False
        mon.saw('other entries untouched', (fam, idx is None, bool(keep.all()), bool(keep.any())))
        if now.shape != b.shape and not (now.size == b.size == 1):
            mon.fail('other entries untouched', 'variable changed shape from %s to %s' % (b.shape, now.shape))
        if now.ravel()[keep].tobytes() != b.ravel()[keep].tobytes():
            mon.fail('other entries untouched', 'entries that are not free changed: %s -> %s (free %s)' % (
                brief(b), brief(now), None if idx is None else [list(q) for q in idx]))
    check('after minimising')
    sse = float(np.sum(np.array(obj.r) ** 2))
    if np.isfinite(sse0):
        mon.check(sse <= sse0 * (1 + 1e-9), 'final not worse than start', lambda: '%r -> %r' % (sse0, sse), sig)
    return log, steps


def make_leaf(ch, rng, n):
    """A variable with n entries: (leaf, shape)."""
    q = rng.randint(8)
    v = np.round(rng.randn(n), 3)
    if n == 1 and q < 3:
        c = ch.Ch(float(v[0]))
        if q == 1:
            c.x = float(v[0])
        elif q == 2:
            c.x = int(np.round(v[0]))
        return c, (1,)
    if q == 3:
        c = ch.Ch(v)
        c.x = np.round(v).astype(int)
        return c, (n,)
    if q in (4, 5) and n > 1:
        s = refops.factor_shape(rng, n)
        c = ch.Ch(v.reshape(s))
        if q == 5:
            c.x = np.asfortranarray(v.reshape(s))
        return c, tuple(s)
    return ch.Ch(v), (n,)


def linear(ch, rng, mon, exact):
    nv = rng.randint(1, 4)
    leaves, shapes, frees = [], [], []
    for k in range(nv):
        n = int(rng.randint(1, 6))
        c, s = make_leaf(ch, rng, n)
        leaves.append(c)
        shapes.append(s)
        q = rng.rand()
        if q < .5 or n == 1:
            frees.append(Free(c, c, np.arange(n)))
        elif q < .9:
            frees += slices(ch, rng, c, n, s)
    if not frees:
        c, n = leaves[0], int(np.prod(shapes[0]))
        frees = [Free(c, c, np.arange(n))]
    if rng.rand() < .3:
        frees = [frees[k] for k in rng.permutation(len(frees))]
    total = sum(f.idx.size for f in frees)
    rows = total + rng.randint(0, 4)
    for _ in range(50):
        mats = [np.round(rng.randn(rows, content(c).size), 2) for c in leaves]
        if rng.rand() < .4:          # sparse structure
            mats = [m * (rng.rand(*m.shape) < .6) for m in mats]
        where = dict((id(c), k) for k, c in enumerate(leaves))
        cols = np.hstack([mats[where[id(f.leaf)]][:, f.idx] for f in frees])
        if np.linalg.cond(cols) < 50:
            break
    else:
        mon.skip('ill-conditioned draw')
        return
    b = np.round(rng.randn(rows), 3)
    expr = None
    for c, m in zip(leaves, mats):
        q = rng.randint(3)
        if q == 0:
            e = ch.MatVecMult(sp.csc_matrix(m), c.ravel())
        elif q == 1:
            e = ch.array(m).dot(c.ravel())
        else:
            e = ch.sum(ch.multiply(m, c.ravel().reshape((1, -1))), axis=1)
        expr = e if expr is None else expr + e
    obj = expr - b
    if rng.rand() < .3:
        k = rng.randint(0, rows + 1)
        obj = ch.concatenate([obj[j] for j in ([slice(0, k), slice(k, None)] if 0 < k < rows else [slice(None)])])

    def check(where):
        ref = sum(m.dot(content(c).ravel()) for m, c in zip(mats, leaves)) - b
        mon.saw('objective consistent', ('linear', where[:5]))
        bad = compare(np.array(obj.r).ravel(), ref, 1e-9)
        if bad:
            mon.fail('objective consistent', where + ': ' + bad)
        for c, m in zip(leaves, mats):
            J = obj.dr_wrt(c)
            J = J.toarray() if sp.issparse(J) else np.asarray(J)
            bad = compare(J, m, 1e-9)
            if bad:
                mon.fail('objective consistent', where + ' derivative: ' + bad)

    o, cls = options(rng)
    if exact:
        for k in ('maxiter', 'max_fevals', 'e_3', 'e_1', 'e_2'):
            o.pop(k, None)
        cls = tuple(k for k in cls if k not in ('maxiter', 'fevals', 'e3'))
    fixed = sum(m.dot(content(c).ravel()) for m, c in zip(mats, leaves)) - b - \
        cols.dot(np.concatenate([content(f.leaf).ravel()[f.idx] for f in frees]))
    want = np.linalg.lstsq(cols, -fixed, rcond=None)[0]
    run(ch, rng, mon, 'linear', obj, frees, leaves, o, cls, check)
    if exact:
        got = np.concatenate([content(f.leaf).ravel()[f.idx] for f in frees])
        mon.saw('linear problem solved', (total, rows, len(frees), cls))
        bad = compare(got, want, 1e-9)
        if bad:
            mon.fail('linear problem solved', '%s, options %s' % (bad, o))


def graph(ch, rng, mon):
    """Residuals that are random expressions of several variables."""
    skip = set(refops.LINALG) | set(refops.NONDIFF) | {'cross'}
    s = Session(ch, rng, mon, ops=[k for k in refops.OPS if k not in skip])
    s.build(rng.randint(2, 8), rng.randint(1, 4))
    roots = [n for n in s.ops() if s.good(n)]
    if not roots:
        mon.skip('no graph')
        return
    root = roots[-1 - int(rng.randint(min(3, len(roots))))]
    if rng.rand() < .4:              # data term and regulariser
        other = s.pick([n for n in s.nodes if n.kind != 'const' and s.good(n)])
        a, b = s.grow('ravel', first=root), s.grow('ravel', first=other)
    lv = []
    for n in s.leaves():
        if n in s.reach(root):
            V, st, T, sc = s.ref_jac(root, n)
            if st and T is not None and np.abs(T).max() > 1e-6:
                lv.append(n)
    lv = [n for n in lv if rng.rand() < .8] or lv[:1]
    if not lv:
        mon.skip('no free variable')
        return
    frees = []
    for n in lv:
        if rng.rand() < .65:
            frees.append(Free(n.ch, n.ch, np.arange(n.x.size)))
        else:
            frees += slices(ch, rng, n.ch, n.x.size, n.x.shape)
    o, cls = options(rng)
    o.setdefault('maxiter', 25)

    def flat():
        for n in s.leaves():
            n.x = content(n.ch)
        s.dirty()
        if not s.good(root):
            return True
        for f in frees:
            n = [m for m in lv if m.ch is f.leaf][0]
            V, st, T, sc = s.ref_jac(root, n, f.idx)
            if T is not None and np.abs(T).max() > 1e-9 * sc:
                return False
        return True

    def check(where):
        for n in s.leaves():
            n.x = content(n.ch)
        s.dirty()
        for n in [root] + [m for m in s.ops() if rng.rand() < .5]:
            s.check_value(n, 'objective consistent', where[:5])
        if where.startswith('after'):
            for n in lv:
                s.check_jac(root, n, 'objective consistent', where)

    run(ch, rng, mon, 'graph', root.ch, frees, [n.ch for n in s.leaves()], o, cls, check, flat=flat)


def hostile(ch, rng, mon):
    """Trials that are non-finite or worse, and derivatives that point the wrong way."""
    C = classes(ch)
    n = int(rng.randint(1, 5))
    c, s = make_leaf(ch, rng, n)
    extra = ch.Ch(rng.randn(3))
    m = np.round(rng.randn(n + rng.randint(0, 3), n), 2) + np.eye(n + 3, n)[:0].sum()
    b = np.round(rng.randn(m.shape[0]) * 3, 2)
    lin = ch.array(m).dot(c.ravel()) - b
    how = ['nan', 'one nan', 'inf', 'cliff', 'wrong'][rng.randint(5)]
    k = m.shape[0]
    M = np.round(rng.randn(k, k), 2) if rng.rand() < .5 else -np.eye(k)
    h = C['Hostile'](a=lin, c=np.array(lin.r).ravel(), radius=float(10 ** rng.uniform(-3, .5)), how=how, M=M)
    obj = h
    if rng.rand() < .4:
        obj = ch.concatenate([h, extra * 1.])
    if rng.rand() < .3:
        obj = obj * 2.
    frees = [Free(c, c, np.arange(n))]
    if n > 1 and rng.rand() < .3:
        frees = slices(ch, rng, c, n, s)
    o, cls = options(rng)
    o.setdefault('maxiter', 15)

    def check(where):
        ref = m.dot(content(c).ravel()) - b
        mon.saw('objective consistent', ('hostile', how))
        bad = compare(np.array(lin.r).ravel(), ref, 1e-9)
        if bad:
            mon.fail('objective consistent', '%s (%s): %s' % (where, how, bad))

    if np.linalg.norm(m[:, np.concatenate([f.idx for f in frees])]) == 0:
        mon.skip('no dependence')
        return
    run(ch, rng, mon, 'hostile ' + how, obj, frees, [c, extra], o, cls, check)


def classical(ch, rng, mon):
    """Zero-residual problems dogleg solves from these starts."""
    q = rng.randint(4)
    o = {'disp': False}
    if rng.rand() < .4:
        o['delta_0'] = float(10 ** rng.uniform(-1, 1))
    if rng.rand() < .3:
        o['treat_as_dense'] = True
    if q == 0:
        x = ch.Ch(np.array([-1.2, 1.]) + .2 * rng.randn(2))
        obj = ch.concatenate([10. * (x[1:2] - x[:1] ** 2.), 1. - x[:1]])
        want, lv = [np.ones(2)], [x]
        f = lambda: np.array([10 * (content(x)[1] - content(x)[0] ** 2), 1 - content(x)[0]])
        frees = [Free(x, x, [0, 1])] if rng.rand() < .5 else [Free(x[1:], x, [1]), Free(x[:1], x, [0])]
    elif q == 1:
        t = np.linspace(0, 1, 7)
        a, k = ch.Ch(1. + .3 * rng.randn()), ch.Ch(-.5 + .3 * rng.randn())
        obj = a * ch.exp(k * t) - 1.5 * np.exp(-1.2 * t)
        want, lv = [np.array([1.5]), np.array([-1.2])], [a, k]
        f = lambda: content(a) * np.exp(content(k) * t) - 1.5 * np.exp(-1.2 * t)
        frees = [Free(v, v, [0]) for v in lv]
    elif q == 2:       # triangulation: distances to fixed points
        P = np.array([[0, 0], [1, 0], [0, 1], [1.3, 1.7]])
        goal = np.round(rng.uniform(.2, .8, 2), 2)
        x = ch.Ch(np.array([.5, .5]) + .1 * rng.randn(2))
        d = P - x.reshape((1, 2))
        obj = ch.sqrt(ch.sum(d ** 2., axis=1)) - np.sqrt(((P - goal) ** 2).sum(axis=1))
        f = lambda: np.sqrt(((P - content(x)) ** 2).sum(axis=1)) - np.sqrt(((P - goal) ** 2).sum(axis=1))
        want, lv, frees = [goal], [x], [Free(x, x, [0, 1])]
    else:
        m = np.round(rng.randn(3, 3) * .3, 2) + 2 * np.eye(3)
        x = ch.Ch(rng.randn(3))
        g = np.round(rng.randn(3), 2)
        obj = ch.array(m).dot(x) + .2 * ch.sin(x) - (m.dot(g) + .2 * np.sin(g))
        f = lambda: m.dot(content(x)) + .2 * np.sin(content(x)) - (m.dot(g) + .2 * np.sin(g))
        want, lv, frees = [g], [x], [Free(x, x, [0, 1, 2])]

    def check(where):
        mon.saw('objective consistent', ('classical', q))
        bad = compare(np.array(obj.r).ravel(), f(), 1e-9)
        if bad:
            mon.fail('objective consistent', where + ': ' + bad)

    if rng.rand() < .15:                               # already there
        for v, w in zip(lv, want):
            v.x = w.reshape(v.shape).copy()
    run(ch, rng, mon, 'classical%d' % q, obj, frees, lv, o, ('delta_0' in o, 'treat_as_dense' in o), check)
    mon.saw('classical problem solved', (q, len(o)))
    for v, w in zip(lv, want):
        bad = compare(content(v).ravel(), w, 1e-5)
        if bad:
            mon.fail('classical problem solved', 'problem %d: %s options %s' % (q, bad, o))


def case(ch, rng, mon, tier, i):
    q = rng.randint(10)
    if q < 2:
        linear(ch, rng, mon, False)
    elif q < 5:
        linear(ch, rng, mon, True)
    elif q < 7:
        graph(ch, rng, mon)
    elif q < 9:
        hostile(ch, rng, mon)
    else:
        classical(ch, rng, mon)
