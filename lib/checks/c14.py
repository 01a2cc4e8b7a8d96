"""C14: linear algebra values and derivatives, for leaves and expressions as matrices, before and after changes."""
import numpy as np

import refops
from engine import Session, Reject, compare, dense

CASES = {'quick': 2000, 'thorough': 40000}
RULE = ('a distinct observation is (function, matrix shape, kind of matrix expression, number of changes so far, value '
        'or derivative) compared with NumPy or an exact directional derivative')
REQUIRED = ('value', 'jacobian', 'value after change', 'jacobian after change', 'svd value', 'svd derivative',
            'lstsq value', 'lstsq derivative', 'slogdet of several', 'singular value', 'hard matrix')

HELP = {'multiply': 1., 'add': 1., 'subtract': .5, 'dot': 1., 'transpose': 1., 'reshape': .7, 'getitem': .7, 'sin': .4,
        'mean': .2, 'sum': .3, 'concatenate': .3, 'USparse': .2, 'UScalar': .2}
LIN = dict((k, 3.) for k in refops.LINALG)


def matrix(rng, shape, cond=30.):
    for _ in range(200):
        m = np.round(rng.randn(*shape), 3)
        if rng.rand() < .3 and shape[-1] == shape[-2]:
            m = m + 2 * np.eye(shape[-1])
        if np.all(np.linalg.cond(m) < cond):
            return m
    return np.round(m + 3 * np.eye(*shape[-2:]), 3)


def mshape(rng, square=False, big=6):
    q = rng.randint(4)
    d = int(rng.randint(1, big))
    if square or q == 0:
        return (d, d)
    return (d, int(rng.randint(1, big)))


class Mat(object):
    """A matrix that is an expression of leaves, with its value and tangents known."""

    def __init__(self, ch, rng, shape, cond=30.):
        self.rng, self.shape = rng, shape
        self.kind = rng.randint(7)
        self.cond = cond
        self.draw()
        self.ch_leaves = [ch.Ch(x.copy()) for x in self.x]
        L = self.ch_leaves
        k = self.kind
        if k == 0:
            self.ch = L[0]
        elif k == 1:
            self.ch = L[0].T
        elif k == 2:
            self.ch = L[0] + L[1]
        elif k == 3:
            self.ch = L[0][1:, :-1]
        elif k == 4:
            self.ch = L[0].dot(L[1])
        elif k == 5:
            self.ch = L[0].reshape(shape)
        else:
            self.ch = ch.concatenate([L[0], L[1]], axis=0) if shape[0] > 1 else L[0] * 1.

    def draw(self):
        r, s, k = self.rng, self.shape, self.kind
        for _ in range(100):
            m = matrix(r, s, self.cond)
            if k == 1:
                x = [m.T.copy()]
            elif k == 2:
                b = np.round(r.randn(*((1, s[1]) if r.rand() < .3 else s)), 3)
                if hasattr(self, 'x'):
                    b = np.round(r.randn(*self.x[1].shape), 3)
                x = [m - b, b]
            elif k == 3:
                big = r.randn(s[0] + 1, s[1] + 1)
                big[1:, :-1] = m
                x = [big]
            elif k == 4:
                x = [matrix(r, (s[0], s[0]), 5.), None]
                x[1] = np.linalg.solve(x[0], m)
            elif k == 5:
                x = [m.ravel().copy()]
            elif k == 6 and s[0] > 1:
                x = [m[:1].copy(), m[1:].copy()]
            else:
                x = [m]
            break
        self.x = x

    def value(self, xs=None):
        x = self.x if xs is None else xs
        k = self.kind
        return {0: lambda: x[0], 1: lambda: x[0].T, 2: lambda: x[0] + x[1], 3: lambda: x[0][1:, :-1],
                4: lambda: x[0].dot(x[1]), 5: lambda: x[0].reshape(self.shape),
                6: lambda: np.concatenate(x, axis=0)}[k]()

    def tangent(self, j, t):
        """Tangent of the matrix when leaf j moves along t."""
        k = self.kind
        z = [np.zeros_like(v) for v in self.x]
        z[j] = t
        if k == 4:
            return t.dot(self.x[1]) if j == 0 else self.x[0].dot(t)
        return self.value(z)

    def change(self):
        """New contents in chumpy and here."""
        r = self.rng
        if r.rand() < .5:
            self.draw()
            for c, x in zip(self.ch_leaves, self.x):
                if r.rand() < .5:
                    c.x = x.copy()
                else:
                    c[:] = x.copy()
        else:
            for _ in range(20):
                j = r.randint(len(self.x))
                x = [v.copy() for v in self.x]
                k = tuple(r.randint(d) for d in x[j].shape)
                x[j][k] += np.round(r.randn() * .3, 3)
                if np.linalg.cond(self.value(x)) < 2 * self.cond:
                    self.x = x
                    self.ch_leaves[j][k] = x[j][k]
                    break


def session(ch, rng, mon):
    ops = dict(HELP)
    ops.update(LIN)
    s = Session(ch, rng, mon, ops=ops, sizemax=80)
    for _ in range(rng.randint(1, 3)):
        q = rng.randint(6)
        if q == 0:
            d = int(rng.randint(1, 4))
            shape = (int(rng.randint(1, 4)), d, d)
        elif q == 1:
            d = int(rng.randint(1, 3))
            shape = (int(rng.randint(1, 3)), int(rng.randint(1, 3)), d, d)
        elif q < 4:
            shape = mshape(rng, True, 5)
        else:
            shape = mshape(rng, False, 5)
        s.leaf(x=matrix(rng, shape))
    lin = []
    for _ in range(rng.randint(3, 9)):
        if rng.rand() < .5:
            n = s.grow(refops.LINALG[rng.randint(len(refops.LINALG))] if not isinstance(refops.LINALG, set) else
                       sorted(refops.LINALG)[rng.randint(len(refops.LINALG))])
        else:
            n = s.grow()
    changes = 0
    for step in range(rng.randint(3, 9)):
        suffix = ' after change' if changes else ''
        ops_ = [n for n in s.ops() if s.good(n)]
        if not ops_:
            return
        lin = [n for n in ops_ if n.name in refops.LINALG] or ops_
        n = s.pick(lin) if rng.rand() < .7 else s.pick(ops_)
        q = rng.rand()
        if q < .3:
            s.check_value(n, 'value' + suffix, changes)
        elif q < .7:
            s.check_jac(n, s.pick_target(n), 'jacobian' + suffix, str(changes))
        else:
            k = [s.set_leaf, s.set_items, s.reshape_leaf][rng.randint(3)]()
            changes += k is not None
    for n in s.ops():
        s.check_value(n, 'value' + (' after change' if changes else ''), 'end')


def look(mon, kind, sig, got, want, scale=None, tol=1e-7):
    mon.saw(kind, sig)
    bad = compare(got, want, tol, scale)
    if bad:
        mon.fail(kind, '%s: %s' % (sig, bad))


def jacs(mon, kind, sig, expr, m, ref):
    """Directional derivatives of expr wrt the leaves of m, against ref(dM)."""
    for j, c in enumerate(m.ch_leaves):
        J = dense(expr.dr_wrt(c))
        for _ in range(2):
            t = m.rng.randn(*m.x[j].shape)
            want = np.asarray(ref(m.tangent(j, t)), dtype=float).ravel()
            if J is None:
                look(mon, kind, sig, 0 * want, want)
            else:
                if J.shape != (want.size, t.size):
                    mon.fail(kind, '%s: Jacobian shape %s, expected %s' % (sig, J.shape, (want.size, t.size)))
                look(mon, kind, sig, J.dot(t.ravel()), want, max(1., np.abs(J).max(), np.abs(want).max()), 1e-6)


def svd_case(ch, rng, mon):
    shape = mshape(rng, False, 5)
    for _ in range(50):
        m = Mat(ch, rng, shape, 20.)
        s = np.linalg.svd(m.value(), compute_uv=False)
        if s.min() > .1 and (len(s) < 2 or np.diff(s[::-1]).min() > .05):
            break
    else:
        mon.skip('close singular values')
        return
    u, d, v = ch.linalg.svd(m.ch)
    # further expressions of the factors that do not depend on their signs
    rec = (u * d.reshape((1, -1))).dot(v)
    proj = u.dot(u.T)
    for rep in range(rng.randint(1, 4)):
        if rep:
            m.change()
            s = np.linalg.svd(m.value(), compute_uv=False)
            if s.min() < .1 or (len(s) > 1 and np.diff(s[::-1]).min() < .05):
                mon.skip('close singular values')
                continue
        M = m.value()
        sig = (shape, m.kind, rep)
        order = rng.permutation(3)
        vals = {}
        for k in order:
            vals[k] = np.array([u, d, v][k].r)
        U, D, V = vals[0], vals[1], vals[2]
        k = min(shape)
        if U.shape != (shape[0], k) or D.shape != (k,) or V.shape != (k, shape[1]):
            mon.fail('svd value', '%s: shapes %s %s %s' % (sig, U.shape, D.shape, V.shape))
        look(mon, 'svd value', sig, D, np.linalg.svd(M, compute_uv=False))
        look(mon, 'svd value', sig, (U * D).dot(V), M)
        look(mon, 'svd value', sig, U.T.dot(U), np.eye(k))
        look(mon, 'svd value', sig, V.dot(V.T), np.eye(k))
        look(mon, 'svd value', sig, rec.r, M)
        look(mon, 'svd value', sig, proj.r, U.dot(U.T))
        W = V.T
        S2 = D ** 2
        F = S2[None, :] - S2[:, None]
        np.fill_diagonal(F, 1.)
        F = 1. / F
        np.fill_diagonal(F, 0.)

        def du(dM):
            P = U.T.dot(dM).dot(W)
            A1 = U.dot(F * (P * D[None, :] + D[:, None] * P.T))
            return A1 + (np.eye(shape[0]) - U.dot(U.T)).dot(dM).dot(W) / D[None, :]

        def dv(dM):
            P = U.T.dot(dM).dot(W)
            B = W.dot(F * (D[:, None] * P + P.T * D[None, :]))
            return (B + (np.eye(shape[1]) - W.dot(W.T)).dot(dM.T).dot(U) / D[None, :]).T

        which = rng.randint(4)
        if which == 0:
            jacs(mon, 'svd derivative', ('d',) + sig, d, m, lambda dM: np.einsum('ik,ij,jk->k', U, dM, W))
        elif which == 1:
            jacs(mon, 'svd derivative', ('u',) + sig, u, m, du)
        elif which == 2:
            jacs(mon, 'svd derivative', ('v',) + sig, v, m, dv)
        else:
            jacs(mon, 'svd derivative', ('product',) + sig, rec, m, lambda dM: dM)


def lstsq_case(ch, rng, mon):
    shape = mshape(rng, False, 5)
    m = Mat(ch, rng, shape)
    b = np.round(rng.randn(*((shape[0],) if rng.rand() < .6 else (shape[0], int(rng.randint(1, 4))))), 3)
    cb = ch.Ch(b.copy())
    x, res, _, _ = ch.linalg.lstsq(m.ch, cb)
    for rep in range(rng.randint(1, 4)):
        if rep:
            if rng.rand() < .6:
                m.change()
            if rng.rand() < .6:
                b = np.round(rng.randn(*b.shape), 3)
                cb.x = b.copy()
        M = m.value()
        sig = (shape, b.ndim, m.kind, rep)
        P = np.linalg.pinv(M)
        want = np.linalg.lstsq(M, b, rcond=-1)[0]
        seq = rng.permutation(4)
        for k in seq:
            if k == 0:
                look(mon, 'lstsq value', ('x',) + sig, x.r, want)
            elif k == 1:
                r = M.dot(want) - b
                look(mon, 'lstsq value', ('residuals',) + sig, res.r, np.atleast_1d((r ** 2).sum(axis=0)))
            elif k == 2:
                i1, i2 = np.eye(shape[0]), np.eye(shape[1])
                dP = lambda t: -P.dot(t).dot(P) + P.dot(P.T).dot(t.T).dot(i1 - M.dot(P)) + \
                    (i2 - P.dot(M)).dot(t.T).dot(P.T).dot(P)
                jacs(mon, 'lstsq derivative', ('x',) + sig, x, m, lambda dM: dP(dM).dot(b))
            else:
                J = dense(x.dr_wrt(cb))
                t = rng.randn(*b.shape)
                look(mon, 'lstsq derivative', ('b',) + sig, J.dot(t.ravel()), P.dot(t).ravel())


def slogdet_case(ch, rng, mon):
    ms = [Mat(ch, rng, mshape(rng, True, 5)) for _ in range(rng.randint(2, 4))]
    sign, ld = ch.linalg.slogdet(*[m.ch for m in ms])
    for rep in range(rng.randint(1, 4)):
        if rep:
            ms[rng.randint(len(ms))].change()
        ref = [np.linalg.slogdet(m.value()) for m in ms]
        sig = (tuple(m.shape for m in ms), rep)
        if rng.rand() < .5:
            for k, q in enumerate(sign):
                look(mon, 'slogdet of several', ('sign',) + sig, q.r, np.atleast_1d(ref[k][0]))
        look(mon, 'slogdet of several', ('log',) + sig, ld.r, np.array([r[1] for r in ref]))
        for k, q in enumerate(sign):
            look(mon, 'slogdet of several', ('sign',) + sig, q.r, np.atleast_1d(ref[k][0]))
        k = rng.randint(len(ms))
        inv = np.linalg.inv(ms[k].value())
        e = np.zeros(len(ms))
        e[k] = 1
        jacs(mon, 'slogdet of several', sig, ld, ms[k], lambda dM: e * np.trace(inv.dot(dM)))


def singular_case(ch, rng, mon):
    """Values at singular matrices, and through them to regular ones again."""
    d = int(rng.randint(2, 4))
    x = ch.Ch(matrix(rng, (d, d)))
    det, (sign, ld), nrm = ch.linalg.det(x), ch.linalg.slogdet(x), ch.linalg.norm(x)
    for rep in range(4):
        m = matrix(rng, (d, d))
        if rep % 2 == 0:
            m = np.round(m)
            m[-1] = 0. if rng.rand() < .5 else m[0]
            if rng.rand() < .3:
                m = np.zeros((d, d))
        x.x = m.copy()
        sig = (d, rep % 2)
        ref = np.linalg.slogdet(m)
        look(mon, 'singular value', ('det',) + sig, det.r, np.atleast_1d(np.linalg.det(m)), 1.)
        if ref[0] == 0 or rep % 2:
            look(mon, 'singular value', ('sign',) + sig, sign.r, np.atleast_1d(ref[0]))
            mon.check(bool(np.array_equal(np.exp(ld.r), np.exp(np.atleast_1d(ref[1])))) or
                      compare(ld.r, np.atleast_1d(ref[1]), 1e-9) is None, 'singular value',
                      lambda: 'log|det| %s expected %s' % (ld.r, ref[1]))
        look(mon, 'singular value', ('norm',) + sig, nrm.r, np.atleast_1d(np.linalg.norm(m)))


def scaled_case(ch, rng, mon):
    """Values for badly scaled, ill-conditioned and larger matrices; errors are measured against the conditioning."""
    n = int(rng.randint(1, 5)) if rng.rand() < .6 else int(rng.randint(5, 14))
    m = n if rng.rand() < .5 else int(rng.randint(1, 14))
    k = min(n, m)
    q = rng.randint(4)

    def draw():
        u = np.linalg.qr(rng.randn(n, k))[0]
        v = np.linalg.qr(rng.randn(m, k))[0]
        if q == 0:
            d = 10. ** rng.uniform(-7, 1, k)
        elif q == 1:
            d = rng.uniform(1, 2, k)
            d[-1] = 10. ** -rng.randint(2, 9)
        else:
            d = rng.uniform(.5, 3, k)
        return (u * d).dot(v.T) * (10. ** rng.randint(-9, 10) if q == 2 else 1.)

    x = ch.Ch(draw())
    nrm = ch.linalg.norm(x)
    dd = ch.linalg.svd(x)[1]
    u1, d1, v1 = ch.linalg.svd(x)
    pv = ch.linalg.pinv(x) if n != m else None
    b = rng.randn(n)
    ls = ch.linalg.lstsq(x, ch.Ch(b))[0]
    sq = (ch.linalg.inv(x), ch.linalg.det(x), ch.linalg.slogdet(x)) if n == m else None
    for rep in range(2):
        if rep:
            x.x = draw()
        M = x.x
        s = np.linalg.svd(M, compute_uv=False)
        top, cond = s[0], s[0] / s[-1]
        sig = (n, m, int(q), rep)
        look(mon, 'hard matrix', ('norm',) + sig, nrm.r / top, np.atleast_1d(np.linalg.norm(M)) / top, 1., 1e-12)
        look(mon, 'hard matrix', ('singular values',) + sig, dd.r / top, s / top, 1., 1e-12)
        look(mon, 'hard matrix', ('product of factors',) + sig, (u1.r * d1.r).dot(v1.r) / top, M / top, 1., 1e-12)
        P = np.linalg.pinv(M)
        big = np.abs(P).max()
        tol = 1e-12 * max(cond, 10.) ** 2              # through the normal equations
        if tol < 1e-4:
            if pv is not None:
                look(mon, 'hard matrix', ('pinv',) + sig, pv.r / big, P / big, 1., tol)
            look(mon, 'hard matrix', ('lstsq',) + sig, ls.r / big, P.dot(b) / big, 1., 100 * tol)
        if sq is not None:
            look(mon, 'hard matrix', ('inverse',) + sig, sq[0].r / big, P / big, 1., 1e-12 * max(cond, 10.))
            ref = np.linalg.slogdet(M)
            D = np.atleast_1d(np.linalg.det(M))
            look(mon, 'hard matrix', ('det',) + sig, sq[1].r / D, np.ones(1), 1., 1e-12 * max(cond, 10.))
            look(mon, 'hard matrix', ('sign',) + sig, sq[2][0].r, np.atleast_1d(ref[0]))
            look(mon, 'hard matrix', ('log',) + sig, sq[2][1].r, np.atleast_1d(ref[1]), 1., 1e-12 * max(cond, 10.))


def case(ch, rng, mon, tier, i):
    if i % 3 == 0:
        scaled_case(ch, rng, mon)
    q = rng.randint(10)
    if q < 4:
        session(ch, rng, mon)
    elif q < 7:
        svd_case(ch, rng, mon)
    elif q == 7:
        lstsq_case(ch, rng, mon)
    elif q == 8:
        slogdet_case(ch, rng, mon)
    else:
        singular_case(ch, rng, mon)
