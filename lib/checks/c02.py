"""C02: the Jacobian of every single operation with respect to each input."""
import numpy as np

from engine import Node, Session, brief, compare, dense, short
import refops
from refops import A, OPS, USER, gen_key

CASES = {'quick': 5000, 'thorough': 80000}
RULE = ('a distinct observation is (operation, input shapes, parameters, spelling, input position or aliasing, data '
        'class) of a local Jacobian compared with the exact derivative')
REQUIRED = ('jacobian', 'jacobian, shared input', 'large', 'magnitude', 'huge', 'var/std', 'not finite', 'undefined quotient')
NAMES = [k for k in sorted(OPS) if k not in USER and k not in
         ('signdet',) and not (OPS[k].nondiff and OPS[k].nin != 2)]


class Big(Session):
    """Larger arrays, where dense results get converted to sparse ones."""
    def rand_shape(self):
        r = self.rng
        k = r.randint(4)
        if k == 0:
            return (int(r.randint(6, 24)),)
        if k == 1:
            return (int(r.randint(3, 7)), int(r.randint(3, 7)))
        if k == 2:
            return (1, int(r.randint(5, 24))) if r.rand() < .5 else (int(r.randint(5, 24)), 1)
        return tuple(int(d) for d in r.randint(2, 5, size=3))


class Huge(Session):
    """Sizes well beyond the examples, in case something depends on a threshold."""
    def rand_shape(self):
        r = self.rng
        k = r.randint(4)
        if k == 0:
            return (int(r.randint(60, 260)),)
        if k == 1:
            return (int(r.randint(8, 16)), int(r.randint(8, 16)))
        if k == 2:
            return (1, int(r.randint(60, 200))) if r.rand() < .5 else (int(r.randint(60, 200)), 1)
        return tuple(int(d) for d in r.randint(4, 7, size=3))


HUGE = [k for k in NAMES if k not in ('inv', 'det', 'logabsdet', 'pinv', 'svd_d', 'tensordot', 'power')]

MAGNITUDES = ('add', 'subtract', 'maximum', 'minimum', 'amax', 'amin', 'nanmax', 'nanmin', 'sort', 'absolute', 'negative',
              'clip', 'sum', 'mean', 'cumsum', 'multiply', 'concatenate', 'square', 'SumOfSquares', 'norm', 'dot', 'cross')


def single(ch, rng, mon, name, big, mag=None):
    s = Huge(ch, rng, mon, sizemax=1200) if big == 2 else Big(ch, rng, mon, sizemax=200) if big else Session(ch, rng, mon)
    if mag:
        s.mag, s.vmax, s.tmax, s.rel = mag, 1e30, 1e30, True
        refops.NEAR[0] = min(1e-5, 1e-4 * mag)
    op = OPS[name]
    try:
        measure(s, rng, mon, op, big, mag)
    finally:
        refops.NEAR[0] = 1e-5


def measure(s, rng, mon, op, big, mag):
    for _ in range(25):
        s.nodes = []
        a = s.leaf()
        if op.nin == 2 and rng.rand() < .6:
            s.leaf(shape=op.second(rng, a.x.shape))
        n = s.try_op(op, a)
        if n is not None:
            break
    else:
        mon.skip('no arguments')
        return
    shared = len(n.ins) > 1 and len(set(n.ins)) < len(n.ins)
    kind = 'magnitude' if mag else 'huge' if big == 2 else 'large' if big else ('jacobian, shared input' if shared else 'jacobian')
    for t in [i for i in n.ins if i.kind == 'leaf']:
        if rng.rand() < .3:
            s.check_value(n, 'value')
        s.check_jac(n, t, kind, '%s %d of %d' % (n.p['form'], n.ins.index(t), len(n.ins)))


def varstd(ch, rng, mon):
    s = Session(ch, rng, mon)
    x = A(s.rand_val(s.rand_shape())) + .01
    name = 'var' if rng.rand() < .5 else 'std'
    ax = None if rng.rand() < .4 else int(rng.randint(-x.ndim, x.ndim))
    c = ch.Ch(x)
    e = getattr(ch, name)(c, axis=ax)
    t = rng.randn(*x.shape)
    m = np.mean(x, axis=ax, keepdims=True)
    tm = np.mean(t, axis=ax, keepdims=True)
    mon.saw('var/std', (name, x.shape, ax))
    got = A(e.r)
    refs = []
    for mm, tt in ((m, t - tm), (0., t)):     # true definition, or the uncentred one of the known finding (C01)
        v = np.mean((x - mm) ** 2, axis=ax)
        d = 2 * np.mean((x - mm) * tt, axis=ax)
        if name == 'std':
            v = np.sqrt(v)
            with np.errstate(all='ignore'):
                d = d / (2 * v)
        refs.append((A(v), A(d)))
    for v, d in refs:
        if v.shape == got.shape and np.allclose(v, got, 1e-9, 1e-9):
            if np.any(np.abs(v) < 1e-3) or not np.all(np.isfinite(d)):
                return
            J = dense(e.dr_wrt(c))
            bad = 'None' if J is None else compare(J.dot(t.ravel()), d.ravel(), 1e-9, max(1., np.abs(d).max()))
            if bad:
                mon.fail('var/std', '%s(axis=%s) of shape %s: %s' % (name, ax, x.shape, bad))
            return
    mon.skip('value is off')


STEADY = ('add', 'subtract', 'negative', 'sum', 'mean', 'cumsum', 'transpose', 'rollaxis', 'swapaxes', 'reshape', 'ravel',
          'getitem', 'Select', 'tile', 'repeat', 'roll', 'rot90', 'fliplr', 'flipud', 'squeeze', 'expand_dims',
          'atleast_1d', 'atleast_2d', 'atleast_3d', 'concatenate', 'vstack', 'hstack', 'dstack', 'diag', 'diagflat')
POINT = ('nan_to_num', 'maximum', 'minimum', 'sort')
HARD = np.array([np.nan, np.inf, -np.inf, 1e300, -1e300, 5e-324, 0., -0.])


def nonfinite(ch, rng, mon, name):
    """Derivatives that are well defined although the contents are not finite."""
    s = Session(ch, rng, mon)
    op = OPS[name]

    def data(shape):
        h = HARD[1:5] if name in ('maximum', 'minimum', 'sort') else HARD
        x = s.rand_val(shape)
        if name == 'sort':                 # distinct along every axis
            return np.where(np.arange(x.size).reshape(shape) == rng.randint(x.size), h[rng.randint(len(h))], x)
        return np.where(rng.rand(*shape) < .5, h[rng.randint(len(h), size=shape)], x)

    for _ in range(30):
        sa = s.rand_shape()
        shapes = [sa]
        if op.nin == 2:
            shapes.append(op.second(rng, A(np.zeros(sa)).shape))
        elif op.nin is None:
            shapes += [sa] * rng.randint(0, 3)
        v = [A(data(q)) for q in shapes]
        p = op.gen(rng, [u.shape for u in v])
        if p is not None and op.valid([u.shape for u in v], p):
            break
    else:
        mon.skip('no arguments')
        return
    if name in ('maximum', 'minimum') and np.any(np.subtract(*np.broadcast_arrays(*[np.where(np.isinf(u), np.sign(u) * 2e300, u)
                                                                                   for u in v])) == 0):
        mon.skip('ties')
        return
    p = dict(p, form=int(rng.randint(op.forms)))
    x = [ch.Ch(u.copy()) for u in v]
    out = op.f([u.copy() for u in v], p)
    mon.note('%s %s %s' % (name, short(p), [u.tolist() for u in v]))
    c = op.build(ch, x, p)
    if rng.rand() < .5:
        c.r
    for k, u in enumerate(v):
        cols = []
        for q in range(u.size):
            t = np.zeros(u.size)
            t[q] = 1.
            t = t.reshape(u.shape)
            if name == 'nan_to_num':
                d = np.where(np.isfinite(u), t, 0.)
            elif name in ('maximum', 'minimum'):
                a, b = np.broadcast_arrays(*v)
                mine = (a > b) if (name == 'maximum') == (k == 0) else (a < b)
                d = np.where(mine, np.broadcast_to(t, mine.shape), 0.)
            elif name == 'sort':
                d = np.take_along_axis(t.reshape(1, -1) if p['axis'] is None else t,
                                       np.argsort(u.reshape(1, -1) if p['axis'] is None else u,
                                                  axis=-1 if p['axis'] is None else p['axis']),
                                       axis=-1 if p['axis'] is None else p['axis'])
            else:
                with np.errstate(all='ignore'):
                    d = op.jvp([np.zeros_like(w) for w in v], p, k, t, np.zeros_like(out))
            cols.append(np.ravel(d))
        want = np.array(cols).T
        if c is x[k]:
            continue
        J = dense(c.dr_wrt(x[k]))
        mon.saw('not finite', (name, k, tuple(w.shape for w in v), short(p), p['form']))
        if J is None:
            J = np.zeros_like(want)
        bad = 'None' if J is None else compare(J, want, 1e-12)
        if bad:
            mon.fail('not finite', 'derivative of %s%s at %s with respect to input %d: %s' % (
                name, short(p), [brief(w) for w in v], k, bad))


def undefined_quotients(ch, rng, mon):
    """NanDivide is 0 where the quotient is undefined, and so is its derivative there."""
    s = Session(ch, rng, mon)
    sa = s.rand_shape()
    sb = OPS['NanDivide'].second(rng, A(np.zeros(sa)).shape)
    v = [A(s.rand_val(q)) for q in (sa, sb)]
    v[1] = np.where(rng.rand(*v[1].shape) < .4, 0., v[1])
    v[0] = np.where(rng.rand(*v[0].shape) < .3, 0., v[0])
    x = [ch.Ch(u.copy()) for u in v]
    y = ch.NanDivide(*x)
    if rng.rand() < .5:
        y.r
    if rng.rand() < .3:
        y, up = y * 2., 2.
    else:
        up = 1.
    a, b = np.broadcast_arrays(*v)
    dead = b == 0
    safe = np.where(dead, 1., b)
    mon.note('NanDivide %s' % [u.tolist() for u in v])
    for k, d in enumerate((np.where(dead, 0., 1. / safe), np.where(dead, 0., -a / safe ** 2))):
        if np.any(~dead & (np.abs(safe) < .05)):
            mon.skip('nearly undefined')
            return
        want = np.zeros((a.size, v[k].size))
        cols = np.broadcast_to(np.arange(v[k].size).reshape(v[k].shape), a.shape).ravel()
        want[np.arange(a.size), cols] = up * d.ravel()
        J = dense(y.dr_wrt(x[k]))
        mon.saw('undefined quotient', (tuple(u.shape for u in v), k, int(dead.sum()), up))
        bad = compare(np.zeros_like(want) if J is None else J, want, 1e-9)
        if bad:
            mon.fail('undefined quotient', 'derivative of NanDivide at %s with respect to input %d: %s' % (
                [brief(w) for w in v], k, bad))


def case(ch, rng, mon, tier, i):
    if i % 12 == 7:
        undefined_quotients(ch, rng, mon)
    if i % 5 == 0:
        pick = POINT if rng.rand() < .4 else STEADY
        nonfinite(ch, rng, mon, pick[rng.randint(len(pick))])
    single(ch, rng, mon, NAMES[i // 8 % len(NAMES)], False)
    single(ch, rng, mon, NAMES[rng.randint(len(NAMES))], False)
    if i % 3 == 0:
        single(ch, rng, mon, NAMES[rng.randint(len(NAMES))], True)
    if i % 4 == 0:
        single(ch, rng, mon, MAGNITUDES[rng.randint(len(MAGNITUDES))], False,
               10. ** (rng.randint(2, 12) if rng.rand() < .5 else -rng.randint(3, 14)))
    if i % 6 == 0:
        single(ch, rng, mon, HUGE[rng.randint(len(HUGE))], 2)
    if i % 15 == 0:
        varstd(ch, rng, mon)
