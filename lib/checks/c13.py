"""C13: a monitor sits between chumpy and scipy.optimize.minimize. Every value, gradient and curvature product that
crosses the boundary is compared with the reference at the point asked about; a hostile driver chooses the order of
the questions, and real solvers bring their own."""
import numpy as np
import scipy.optimize
import scipy.sparse as sp

import refops
from engine import Session, Reject, compare, brief
from checks.c12 import Free, slices, content, make_leaf

CASES = {'quick': 1100, 'thorough': 20000}
RULE = ('a distinct observation is (kind of question, method or hostile driver, size class of the objective, free-'
        'variable layout, whether the point was asked about before) of one question answered or one run finished')
REQUIRED = ('objective value', 'gradient', 'curvature product', 'curvature matrix', 'final variables',
            'other entries untouched', 'not worse than start', 'bounds respected', 'linear problem solved',
            'settings delivered', 'revisited point', 'answer after point array was overwritten')

REAL = scipy.optimize.minimize
METHODS = ('Nelder-Mead', 'Powell', 'CG', 'BFGS', 'Newton-CG', 'L-BFGS-B', 'TNC', 'COBYLA', 'SLSQP', 'trust-ncg',
           'trust-krylov', 'trust-constr')
DESCENT = ('Nelder-Mead', 'CG', 'BFGS', 'Newton-CG', 'L-BFGS-B', 'TNC', 'trust-ncg', 'trust-krylov')
BOUNDED = ('L-BFGS-B', 'TNC', 'SLSQP', 'Powell', 'Nelder-Mead', 'trust-constr')


class Stop(Exception):
    pass


class Patched(object):
    """Stand between chumpy and scipy, however chumpy refers to it."""

    def __init__(self, fn):
        self.fn = fn

    def __enter__(self):
        import sys
        self.undo = []
        mods = [scipy.optimize] + [m for k, m in list(sys.modules.items()) if k.startswith('chumpy') and m is not None]
        for m in mods:
            for k, v in list(vars(m).items()):
                if v is REAL:
                    self.undo.append((m, k))
                    setattr(m, k, self.fn)

    def __exit__(self, *a):
        for m, k in self.undo:
            setattr(m, k, REAL)


class Oracle(object):
    """The objective as a function of the stacked free variables, computed from the reference nodes only."""

    def __init__(self, s, parts, frees):
        self.s, self.parts, self.frees = s, parts, frees
        self.base = dict((n, n.x.copy()) for n in s.leaves())
        self.node = dict((id(n.ch), n) for n in s.leaves())
        self.n = sum(f.idx.size for f in frees)
        self.scalar = sum(s.val(p).size for p in parts) == 1

    def move(self, vs):
        for n, b in self.base.items():
            n.x = b.copy()
        k = 0
        for f in self.frees:
            n = self.node[id(f.leaf)]
            n.x.ravel()[f.idx] = vs[k:k + f.idx.size]
            k += f.idx.size
        self.s.dirty()

    def residual(self, vs):
        if not np.all(np.isfinite(vs)):
            raise Reject('non-finite point')
        self.move(vs)
        return np.concatenate([self.s.val(p).ravel() for p in self.parts])

    def value(self, vs):
        r = self.residual(vs)
        return r[0] if self.scalar else float(np.sum(r ** 2))

    def jac(self, vs):
        """(J, scale), or None where it does not exist."""
        self.residual(vs)
        cols, scale = [], 1.
        for f in self.frees:
            n = self.node[id(f.leaf)]
            k = f.idx.size
            W = np.zeros((k, n.x.size))
            W[np.arange(k), f.idx] = 1
            blocks = []
            for p in self.parts:
                st, T, sc = self.s.tangents(p, {n: W.reshape((k,) + n.x.shape)})
                if st and T is None:
                    return None
                scale = max(scale, sc)
                blocks.append(T.reshape(k, -1).T if st else np.zeros((self.s.val(p).size, k)))
            cols.append(np.vstack(blocks))
        return np.hstack(cols), scale

    def grad(self, vs):
        q = self.jac(vs)
        if q is None:
            return None
        J, sc = q
        return (J.ravel(), sc) if self.scalar else (2 * J.T.dot(self.residual(vs)), sc * sc)


class Boundary(object):
    """Judges the questions of one minimisation."""

    def __init__(self, mon, orc, sig, fun, jac, hessp, hess, args):
        self.mon, self.orc, self.sig = mon, orc, sig
        self.f, self.j, self.hp, self.h, self.args = fun, jac, hessp, hess, args
        self.asked = {}
        self.count = 0

    def begin(self, vs, what):
        self.count += 1
        k = np.array(vs, dtype=float).tobytes()
        seen = self.asked.get(k)
        self.asked[k] = what
        if seen:
            self.mon.saw('revisited point', (self.sig, seen, what))
        return seen or 'new'

    def tell(self, kind, bad, vs):
        if bad:
            self.mon.fail(kind, 'question %d, at %s: %s' % (self.count, brief(vs), bad))

    def fun(self, vs, *a):
        q = self.begin(vs, 'fun')
        at = np.array(vs, dtype=float)
        got = self.f(vs, *self.args)
        if isinstance(got, tuple):
            got = got[0]
        try:
            ref = self.orc.value(at)
        except Reject:
            self.mon.skip('outside the box')
            return got
        self.mon.saw('objective value', (self.sig, q))
        if np.size(got) != 1:
            self.mon.fail('objective value', 'not a number: %r' % (got,))
        self.tell('objective value', compare(np.float64(np.ravel(got)[0]), ref, 1e-8), at)
        return got

    def jac(self, vs, *a):
        q = self.begin(vs, 'jac')
        at = np.array(vs, dtype=float)
        try:
            ref = self.orc.grad(at)
        except Reject:
            ref = None
        got = self.j(vs, *self.args)
        if ref is None:
            self.mon.skip('not differentiable here')
            return got
        self.mon.saw('gradient', (self.sig, q))
        self.tell('gradient', compare(np.array(got).ravel(), ref[0], 1e-7, ref[1]), at)
        return got

    def gn(self, at):
        try:
            q = self.orc.jac(at)
        except Reject:
            q = None
        return q

    def hessp(self, vs, p, *a):
        q = self.begin(vs, 'hessp')
        at = np.array(vs, dtype=float)
        d = np.array(p, dtype=float)
        ref = self.gn(at)
        got = self.hp(vs, p, *self.args)
        if ref is None:
            self.mon.skip('not differentiable here')
            return got
        J, sc = ref
        self.mon.saw('curvature product', (self.sig, q))
        self.tell('curvature product', compare(np.array(got).ravel(), 2 * J.T.dot(J.dot(d)), 1e-7,
                                               sc * sc * max(1., np.abs(d).max())), at)
        return got

    def hess(self, vs, *a):
        q = self.begin(vs, 'hess')
        at = np.array(vs, dtype=float)
        ref = self.gn(at)
        got = self.h(vs, *self.args)
        if ref is None:
            self.mon.skip('not differentiable here')
            return got
        J, sc = ref
        self.mon.saw('curvature matrix', (self.sig, q))
        G = got.toarray() if sp.issparse(got) else np.asarray(got)
        self.tell('curvature matrix', compare(G, 2 * J.T.dot(J), 1e-7, sc * sc), at)
        return got


def hostile(mon, rng, orc, sig):
    """A solver that asks anything at any point in any order, reusing and overwriting its arrays."""

    def solver(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, **kw):
        if not isinstance(args, tuple):
            args = (args,)
        if jac is True:
            both = fun
            fun, jac = (lambda v, *a: both(v, *a)[0]), (lambda v, *a: both(v, *a)[1])
        b = Boundary(mon, orc, sig, fun, jac, hessp, hess, args)
        x0 = np.array(x0, dtype=float)
        pool = [x0.copy()]
        for _ in range(30):
            if len(pool) > 5:
                break
            base = pool[rng.randint(len(pool))]
            q = rng.randint(4)
            if q == 0:
                c = base + .3 * rng.randn(x0.size)
            elif q == 1:
                c = base.copy()
                c[rng.randint(x0.size)] += .2 * rng.randn()
            elif q == 2:
                c = base + 1e-9 * rng.randn(x0.size)
            else:
                c = np.round(rng.uniform(-1.5, 1.5, x0.size), 2)
            try:
                orc.value(c)
                pool.append(c)
            except Reject:
                pass
        work = x0.copy()
        for _ in range(rng.randint(4, 14)):
            pt = pool[rng.randint(len(pool))]
            if rng.rand() < .5:
                if not np.array_equal(work, pt):
                    mon.saw('answer after point array was overwritten', sig)
                work[:] = pt
                vs = work
            else:
                vs = pt.copy()
            q = rng.randint(4)
            if q == 0:
                b.fun(vs)
            elif q == 1 and jac is not None and orc.grad(pt) is not None:
                b.jac(vs)
            elif q == 2 and hessp is not None and orc.jac(pt) is not None:
                b.hessp(vs, rng.randn(x0.size))
            elif q == 3 and hess is not None and orc.jac(pt) is not None:
                b.hess(vs)
            if rng.rand() < .15:           # overwrite the array just used
                vs[:] = 1e3 * rng.randn(x0.size)
        end = pool[rng.randint(len(pool))].copy()
        if rng.rand() < .1:      # it may also end, or have been, somewhere non-finite
            end[rng.randint(x0.size)] = np.inf
            if x0.size > 1 and np.isfinite(orc.value(pool[0])):
                fun(end, *args)
                k = int(np.flatnonzero(np.isfinite(end))[0])
                end[k] += .25
        return scipy.optimize.OptimizeResult(x=end, fun=0., success=True)
    return solver


def watched(mon, orc, sig, box):
    """The real solver, with every question judged."""

    def solver(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, **kw):
        if not isinstance(args, tuple):
            args = (args,)
        b = Boundary(mon, orc, sig, fun, jac if callable(jac) else None, hessp, hess, args)
        box['start'] = np.array(x0, dtype=float)
        if jac is True:
            res = REAL(fun, x0, args=args, method=method, jac=True, hess=hess, hessp=hessp, **kw)
        else:
            res = REAL(b.fun, x0, args=(), method=method, jac=b.jac if jac is not None else None,
                       hess=b.hess if hess is not None else None, hessp=b.hessp if hessp is not None else None, **kw)
        box['x'] = np.array(res.x, dtype=float)
        box['res'] = res
        return res
    return solver


def stacked(frees):
    return np.concatenate([content(f.leaf).ravel()[f.idx] for f in frees])


def untouched(mon, frees, allleaves, before, sig):
    sel = {}
    for f in frees:
        sel.setdefault(id(f.leaf), []).append(f.idx)
    for c, b in zip(allleaves, before):
        now = content(c)
        keep = np.ones(b.size, bool)
        if id(c) in sel:
            keep[np.concatenate(sel[id(c)])] = False
        mon.saw('other entries untouched', (sig, bool(keep.all()), bool(keep.any())))
        if now.shape != b.shape:
            mon.fail('other entries untouched', 'variable changed shape from %s to %s' % (b.shape, now.shape))
        if now.ravel()[keep].tobytes() != b.ravel()[keep].tobytes():
            mon.fail('other entries untouched', 'entries that are not free changed: %s -> %s' % (brief(b), brief(now)))


def setup(ch, rng, mon):
    skip = set(refops.LINALG) | set(refops.NONDIFF) | {'cross'}
    s = Session(ch, rng, mon, ops=[k for k in refops.OPS if k not in skip])
    s.build(rng.randint(2, 8), rng.randint(1, 4))
    roots = [n for n in s.ops() if s.good(n)]
    if not roots:
        return None
    parts = [roots[-1]]
    if rng.rand() < .4:
        parts.append(s.pick(roots))
        if rng.rand() < .3:
            parts.append(s.pick(s.leaves()))
        if rng.rand() < .25:                # a fit of many terms
            parts += [s.pick(roots) for _ in range(rng.randint(4, 12))]
    lv = []
    for n in s.leaves():
        ok = False
        for p in parts:
            if n in s.reach(p):
                V, st, T, sc = s.ref_jac(p, n)
                ok = ok or (st and T is not None and np.abs(T).max() > 1e-6)
        if ok:
            lv.append(n)
    lv = [n for n in lv if rng.rand() < .8] or lv[:1]
    if not lv:
        return None
    frees = []
    for n in lv:
        if rng.rand() < .65:
            frees.append(Free(n.ch, n.ch, np.arange(n.x.size)))
        else:
            frees += slices(ch, rng, n.ch, n.x.size, n.x.shape)
    if rng.rand() < .3:
        frees = frees[::-1]
    q = rng.randint(3)
    if len(parts) == 1 and q < 2:
        target = parts[0].ch
    elif q == 0:
        target = [p.ch for p in parts]
    elif q == 1:
        target = tuple(p.ch for p in parts)
    else:
        target = dict(('part%d' % k, p.ch) for k, p in enumerate(parts))
    return s, parts, frees, target


def finish(mon, s, orc, frees, want, sig):
    got = stacked(frees)
    mon.saw('final variables', sig)
    fin = np.isfinite(want)
    if not fin.all():
        mon.saw('final variables', ('non-finite solution',) + sig)
    bad = compare(got[fin], want[fin], 1e-12)
    if bad or not np.array_equal(got[~fin], want[~fin], equal_nan=True):
        mon.fail('final variables', 'variables do not hold the solution: got %s, expected %s' % (got, want))
    if not fin.all():
        return
    orc.move(want)
    for p in s.ops():
        s.check_value(p, 'objective after', 'after')


def settings(rng, n):
    """What a caller may want the solver to know."""
    out = {}
    if rng.rand() < .4:
        half = np.round(rng.uniform(.5, 3., n), 2)
        out['bounds'] = [(-h if rng.rand() < .8 else None, h if rng.rand() < .8 else None) for h in half]
    if rng.rand() < .3:
        out['constraints'] = [{'type': ('eq', 'ineq')[rng.randint(2)], 'fun': lambda v, *a: np.sum(v)}
                              for _ in range(rng.randint(1, 3))]
        if rng.rand() < .3:
            out['constraints'] = out['constraints'][0]
        elif rng.rand() < .3:
            out['constraints'] = tuple(out['constraints'])
    if rng.rand() < .5:
        out['tol'] = float(10. ** -rng.randint(1, 10)) if rng.rand() < .9 else 0.
    if rng.rand() < .5:
        out['options'] = {'maxiter': int(rng.randint(1, 50))}
        if rng.rand() < .3:
            out['options']['disp'] = False
        if rng.rand() < .1:
            out['options'] = {}
    return out


def delivered(mon, given, sink, method, sig):
    kw = sink['kw']

    def pairs(b):
        if b is None:
            return None
        if hasattr(b, 'lb'):
            b = list(zip(np.ravel(b.lb), np.ravel(b.ub)))
        return [(-np.inf if lo is None else float(lo), np.inf if hi is None else float(hi)) for lo, hi in b]

    def rules(c):
        return [c] if isinstance(c, dict) or not hasattr(c, '__len__') else list(c or ())
    got = dict(method=str(kw.get('method')).lower(), tol=kw.get('tol'), options=kw.get('options') or {},
               bounds=pairs(kw.get('bounds')), constraints=rules(kw.get('constraints') or ()))
    want = dict(method=method.lower(), tol=given.get('tol'), options=given.get('options') or {},
                bounds=pairs(given.get('bounds')), constraints=rules(given.get('constraints', ())))
    for k in want:
        mon.check(got[k] == want[k], 'settings delivered',
                  lambda: 'the caller gave %s=%s, the solver received %s' % (k, want[k], got[k]),
                  (k, tuple(sorted(given)), method))


def driver_case(ch, rng, mon):
    z = setup(ch, rng, mon)
    if z is None:
        mon.skip('no problem')
        return
    s, parts, frees, target = z
    orc = Oracle(s, parts, frees)
    method = ('BFGS', 'Newton-CG', 'trust-ncg', 'Powell', 'SLSQP', 'CG')[rng.randint(6)]
    sig = ('driver', method, orc.scalar, len(frees))
    leaves = [n.ch for n in s.leaves()]
    before = [content(c) for c in leaves]
    sink = {}
    solver = hostile(mon, rng, orc, sig)

    start = stacked(frees)

    def fn(fun, x0, *a, **k):
        sink['x0'] = np.array(x0, dtype=float)
        sink['kw'] = dict(k)
        names = ('args', 'method', 'jac', 'hess', 'hessp', 'bounds', 'constraints', 'tol', 'callback', 'options')
        sink['kw'].update(zip(names, a))
        res = solver(fun, x0, *a, **k)
        sink['x'] = np.array(res.x)
        return res
    calls = []
    cb = (lambda *v: calls.append(1)) if rng.rand() < .3 else None
    given = settings(rng, orc.n)
    mon.note('driver %s, %d parts, %d free, %s' % (method, len(parts), len(frees), given))
    with Patched(fn):
        ch.minimize(target, x0=[f.var for f in frees], method=method, callback=cb, **given)
    if 'x' not in sink:
        raise RuntimeError('the solver was never called')
    delivered(mon, given, sink, method, sig)
    mon.check(np.array_equal(sink['x0'], start), 'settings delivered',
              lambda: 'the solver was started at %s, the variables held %s' % (sink['x0'], start), ('x0',) + sig)
    if cb is not None and callable(sink['kw'].get('callback')):
        k = len(calls)
        sink['kw']['callback'](sink['x0'])
        mon.check(len(calls) > k, 'settings delivered', 'the callback given to the solver does not run the caller\'s',
                  ('callback',) + sig)
    untouched(mon, frees, leaves, before, sig)
    finish(mon, s, orc, frees, sink['x'], sig)


def real_case(ch, rng, mon):
    z = setup(ch, rng, mon)
    if z is None:
        mon.skip('no problem')
        return
    s, parts, frees, target = z
    orc = Oracle(s, parts, frees)
    method = METHODS[rng.randint(len(METHODS))]
    if orc.scalar and method.startswith('trust'):
        method = 'BFGS'
    if rng.rand() < .3:
        method = method.lower() if method != 'trust-constr' else method
    opts = {'maxiter': int(rng.randint(1, 7))}
    sig = ('real', method, orc.scalar, len(frees))
    leaves = [n.ch for n in s.leaves()]
    before = [content(c) for c in leaves]
    box = {}
    calls = []
    cb = (lambda *v: calls.append(1)) if rng.rand() < .3 and method.lower() not in ('trust-constr', 'tnc') else None
    f0 = orc.value(stacked(frees))
    mon.note('real %s, %d parts, %d free' % (method, len(parts), len(frees)))
    try:
        with Patched(watched(mon, orc, sig, box)):
            ch.minimize(target, x0=[f.var for f in frees], method=method, callback=cb, options=opts)
    except (ValueError, RuntimeError, ArithmeticError, np.linalg.LinAlgError) as e:
        try:
            inside = orc.jac(stacked(frees)) is not None
        except Reject:
            inside = False
        if solver_gave_up(e) or not inside:
            mon.skip('solver gave up or left the domain')
            return
        raise
    untouched(mon, frees, leaves, before, sig)
    finish(mon, s, orc, frees, box['x'], sig)
    if method.lower() in [d.lower() for d in DESCENT]:
        try:
            f1 = orc.value(box['x'])
        except Reject:
            mon.skip('outside the box')
            return
        mon.check(f1 <= f0 + 1e-9 * max(1., abs(f0)), 'not worse than start',
                  lambda: '%s went from %r to %r' % (method, f0, f1), sig)


def solver_gave_up(e):
    """Raised inside scipy itself, not in a question it asked."""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return 'site-packages/scipy' in last and '/optimize/' in last


def linear_case(ch, rng, mon):
    """Well-conditioned problems every gradient method solves; bounds where the method has them."""
    nv = rng.randint(1, 3)
    s = Session(ch, rng, mon)
    leaves, frees = [], []
    for k in range(nv):
        n = int(rng.randint(1, 4))
        x = np.round(rng.randn(n), 3)
        leaves.append(s.leaf(x=x))
        if n > 1 and rng.rand() < .4:
            frees += slices(ch, rng, leaves[-1].ch, n, (n,))
        else:
            frees.append(Free(leaves[-1].ch, leaves[-1].ch, np.arange(n)))
    total = sum(f.idx.size for f in frees)
    rows = max(total, 2) + rng.randint(0, 3)
    for _ in range(60):
        mats = [np.round(rng.randn(rows, n.x.size), 2) for n in leaves]
        cols = np.hstack([mats[leaves.index([n for n in leaves if n.ch is f.leaf][0])][:, f.idx] for f in frees])
        if np.linalg.cond(cols) < 8:
            break
    else:
        mon.skip('ill-conditioned draw')
        return
    b = np.round(rng.randn(rows), 2)
    expr = None
    for n, m in zip(leaves, mats):
        e = ch.MatVecMult(sp.csc_matrix(m), n.ch) if rng.rand() < .5 else ch.array(m).dot(n.ch)
        expr = e if expr is None else expr + e
    target = expr - b
    fixed = sum(m.dot(n.x.ravel()) for m, n in zip(mats, leaves)) - b - cols.dot(stacked(frees))
    f = lambda v: float(np.sum((cols.dot(v) + fixed) ** 2))
    v0 = stacked(frees)
    method = ('CG', 'BFGS', 'Newton-CG', 'L-BFGS-B', 'TNC', 'SLSQP', 'trust-ncg', 'trust-krylov', 'trust-constr')[
        rng.randint(9)]
    if rng.rand() < .4:
        method = BOUNDED[rng.randint(len(BOUNDED))]
    bounds = None
    if method in BOUNDED and rng.rand() < .7:
        half = rng.uniform(.05, .6, total)
        bounds = list(zip(v0 - half, v0 + half))
        if rng.rand() < .3:
            bounds[0] = (bounds[0][0], None)
    before = [content(n.ch) for n in leaves]
    box = {}

    def solver(fun, x0, **kw):
        res = REAL(fun, x0, **kw)
        box['x'] = np.array(res.x)
        return res
    kw = {}
    if rng.rand() < .3:
        kw['tol'] = 1e-9
    if rng.rand() < .3:
        kw['callback'] = lambda *a: None
    if method == 'trust-constr':
        kw['options'] = {'maxiter': 300}
        kw.pop('callback', None)
    if method == 'TNC':
        kw.pop('callback', None)
    mon.note('linear %s bounds %s' % (method, bounds))
    with Patched(solver):
        ch.minimize(target, x0=[q.var for q in frees], method=method, bounds=bounds, **kw)
    sig = (method, bounds is not None, total, len(frees))
    v = stacked(frees)
    mon.saw('final variables', ('linear',) + sig)
    bad = compare(v, box['x'], 1e-12)
    if bad:
        mon.fail('final variables', 'variables do not hold the solution: ' + bad)
    untouched(mon, frees, [n.ch for n in leaves], before, sig)
    bad = compare(np.array(target.r), cols.dot(v) + fixed, 1e-9)
    mon.check(not bad, 'objective after', bad)
    if bounds is not None:
        lo = np.array([-np.inf if q[0] is None else q[0] for q in bounds])
        hi = np.array([np.inf if q[1] is None else q[1] for q in bounds])
        mon.check(bool(np.all(v >= lo - 1e-7) and np.all(v <= hi + 1e-7)), 'bounds respected',
                  lambda: '%s: %s outside %s' % (method, v, bounds), sig)
        ref = scipy.optimize.lsq_linear(cols, -fixed, (lo, hi), tol=1e-12)
        best = f(ref.x)
    else:
        best = f(np.linalg.lstsq(cols, -fixed, rcond=None)[0])
    if method == 'Powell' or (method == 'Nelder-Mead'):
        return
    mon.check(f(v) <= best + 2e-2 * (f(v0) - best) + 1e-6, 'linear problem solved',
              lambda: '%s reached %r, optimum %r, start %r' % (method, f(v), best, f(v0)), sig)


def constrained_case(ch, rng, mon):
    """A constraint is honoured by the methods that support it."""
    n = int(rng.randint(2, 4))
    x = ch.Ch(np.round(rng.randn(n), 2))
    goal = np.round(rng.randn(n), 2)
    target = (x - goal) * 1.
    c = float(np.round(goal.sum() + rng.choice([-1, 1]) * rng.uniform(.5, 1.5), 2))
    method = ('SLSQP', 'COBYLA', 'trust-constr')[rng.randint(3)]
    eq = method != 'COBYLA' and rng.rand() < .5
    sgn = 1. if c > goal.sum() else -1.
    cons = [{'type': 'eq' if eq else 'ineq', 'fun': lambda v, *a: sgn * (np.sum(v) - c)}]
    ch.minimize(target, x0=[x], method=method, constraints=cons)
    want = goal + (c - goal.sum()) / n
    got = content(x)
    mon.check(np.abs(got - want).max() < 2e-2, 'constraint honoured',
              lambda: '%s %s: got %s, expected %s' % (method, eq, got, want), (method, eq, n))


def case(ch, rng, mon, tier, i):
    q = rng.randint(20)
    if q < 10:
        driver_case(ch, rng, mon)
    elif q < 14:
        real_case(ch, rng, mon)
    elif q < 19:
        linear_case(ch, rng, mon)
    else:
        constrained_case(ch, rng, mon)
