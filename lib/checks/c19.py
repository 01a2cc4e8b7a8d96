"""C19: structure of everything handed out: values, shapes, Jacobians, absent derivatives."""
import numpy as np
import scipy.sparse as sp

from checks import c05
from engine import Node, Session, compare
from refops import A

CASES = {'quick': 1600, 'thorough': 30000}
RULE = ('a distinct observation is (operation, input shapes, parameters, what was handed out, last change) of a value or '
        'derivative whose structure was inspected')
REQUIRED = ('value structure', 'value is read-only', 'reported shape', 'derivative structure', 'absent derivative',
            'present derivative', 'leaf:number', 'leaf:int', 'leaf:fortran', 'leaf:strided', 'leaf:bool', 'leaf:float32',
            'leaf:list', 'leaf:zero-d', 'leaf:read-only', 'leaf:assigned', 'lop structure', 'reverse structure', 'conversion')


def odd_leaf(ch, rng, mon, s):
    """A variable given in an unusual form."""
    shape = s.rand_shape()
    q = rng.randint(10)
    x = np.array(np.round(rng.randn(*shape), 2))
    assign = rng.rand() < .5
    if q == 0:
        x = np.round(rng.randn(1), 2)
        raw, kind = (float(x[0]), 'number') if rng.rand() < .6 else (np.float64(x[0]), 'number')
        if rng.rand() < .3:
            raw = int(rng.randint(1, 5))
            x = np.array([float(raw)])
    elif q == 1:
        raw, kind = rng.randint(-4, 5, shape), 'int'
        x = raw.astype(float)
    elif q == 2:
        raw, kind = np.asfortranarray(x), 'fortran'
    elif q == 3:
        big = np.repeat(x, 2, axis=-1)
        raw, kind = big[..., ::2], 'strided'
    elif q == 4:
        raw, kind = x > 0, 'bool'
        x = raw.astype(float)
    elif q == 5:
        raw, kind = x.astype(np.float32), 'float32'
        x = raw.astype(float)
    elif q == 6:
        raw, kind = x.tolist(), 'list'
        assign = False
    elif q == 7:
        x = np.round(rng.randn(1), 2)
        raw, kind = np.array(x[0]), 'zero-d'
    elif q == 8:
        raw, kind = np.array(x), 'read-only'
        raw.flags.writeable = False
    else:
        raw, kind = x.T.copy().T, 'strided'
    if assign:
        c = ch.Ch(np.zeros(2)) if rng.rand() < .5 else ch.Ch(x.copy())
        if rng.rand() < .5:
            c.r
        c.x = raw
        mon.saw('leaf:assigned', (kind, x.shape))
    else:
        c = ch.Ch(raw)
    mon.saw('leaf:' + kind, (assign, x.shape))
    mon.note('leaf %s %s%s' % (kind, x.shape, ' assigned' if assign else ''))
    return s.add(Node('leaf', ch=c, x=A(x).copy()))


def value(s, mon, rng, n, last):
    if not s.good(n):
        mon.skip('value outside the box')
        return
    ref = s.val(n)
    c = n.ch
    sig = s.sig(n, (last,))
    # what is reported may be asked before the value itself
    first = rng.rand() < .5
    if first:
        rep = (tuple(c.shape), int(c.size), int(c.ndim), len(c))
    v = c.r
    if not first:
        rep = (tuple(c.shape), int(c.size), int(c.ndim), len(c))
    who = '%s node %s (%s)' % (last, n.tag, n.name)
    mon.check(type(v) is np.ndarray and v.dtype == np.float64 and v.dtype.isnative, 'value structure',
              lambda: '%s: %s of %s' % (who, type(v), getattr(v, 'dtype', None)), sig)
    mon.check(v.flags['C_CONTIGUOUS'] and v.ndim >= 1, 'value structure',
              lambda: '%s: flags %s, %d dimensions' % (who, v.flags, v.ndim))
    mon.check(v.shape == ref.shape, 'value structure', lambda: '%s: shape %s, expected %s' % (who, v.shape, ref.shape))
    mon.check(rep == (v.shape, v.size, v.ndim, v.shape[0]), 'reported shape',
              lambda: '%s: reports %s, value has shape %s' % (who, rep, v.shape), sig)
    mon.check(c.dtype == np.float64 and c.itemsize == 8 and c.flat[0] == v.ravel()[0] or v.ravel()[0] != v.ravel()[0],
              'reported shape', lambda: '%s: %s %s' % (who, c.dtype, c.itemsize))
    ro = not v.flags.writeable
    try:
        v[(0,) * v.ndim] = 1e9
        wrote = True
    except ValueError:
        wrote = False
    mon.check(ro and not wrote, 'value is read-only', lambda: '%s: the value can be written' % who, sig)
    a = np.array(c)
    mon.check(type(a) is np.ndarray and a.shape == v.shape and a.dtype == np.float64, 'reported shape',
              lambda: '%s: converts to %s %s' % (who, a.dtype, a.shape))


def conversions(s, mon, rng, n, last):
    """Everything that turns an expression into something plain shows its value."""
    if not s.good(n):
        mon.skip('value outside the box')
        return
    ref, c = s.val(n), n.ch
    who = '%s node %s (%s)' % (last, n.tag, n.name)
    q = int(rng.randint(9))
    near = lambda a, b=ref: compare(np.asarray(a, dtype=float), b, 1e-9)
    if q == 0:
        bad = near(np.asarray(c)) or near(np.array(c, dtype=np.float64)) or near(np.asanyarray(c))
    elif q == 1:
        bad = near(list(c.flat), ref.ravel())
    elif q == 2:
        bad = near(c.r.tolist()) or near([c.r[k] for k in range(len(c))])
    elif q == 3:
        k = tuple(int(rng.randint(d)) for d in ref.shape)
        f = c[k]
        bad = near([float(f)], ref[k].reshape(1)) or (None if abs(int(f) - ref[k]) <= 1 + 1e-9 * abs(ref[k]) and int(f) == int(
            f.r[0]) else 'int() is %r for %r' % (int(f), ref[k]))
    elif q == 4:
        bad = near(np.sort(c.r, axis=None), np.sort(ref, axis=None)) or near(np.sum(np.asarray(c)), np.sum(ref)) or near(
            np.multiply(np.asarray(c), 2.), 2. * ref)
    elif q == 5:
        t = str(c)
        bad = None if t == str(c.r) or str(c.r) in t else 'str() is %r' % t
    elif q == 6:
        bad = None if repr(c) and str(np.asarray(c.r)) in repr(c) else 'repr() is %r' % repr(c)
    elif q == 7:
        bad = near(np.tensordot(np.ones(ref.shape[0]), np.asarray(c), (0, 0)), np.tensordot(np.ones(ref.shape[0]), ref, (0, 0)))
    else:
        bad = None if (ref.size == 1) == (c.size == 1) and np.shape(c) == ref.shape and np.size(c) == ref.size else \
            'np.shape %s np.size %s' % (np.shape(c), np.size(c))
    mon.check(not bad, 'conversion', lambda: '%s, conversion %d: %s' % (who, q, bad), s.sig(n, (last, q)))


def derivative(s, mon, rng, n, t, last):
    if not s.good(n) or not s.good(t):
        mon.skip('value outside the box')
        return
    V, st, T, scale = s.ref_jac(n, t)
    if st and T is None:
        mon.skip('not differentiable here')
        return
    mode = rng.randint(3)
    rows, cols = s.val(n).size, s.val(t).size
    sig = s.sig(n, (last, t.name, s.val(t).shape, mode))
    who = '%s d(%s %s)/d(%s %s)' % (last, n.tag, n.name, t.tag, t.name)
    if mode == 2:
        k = rng.randint(1, 4)
        J = n.ch.lop(t.ch, np.round(rng.randn(k, rows), 2))
        if J is not None:
            # a product of single elements may come back as a plain number
            mon.check(np.shape(J) == (k, cols) or (k * cols == 1 and np.size(J) == 1), 'lop structure',
                      lambda: '%s: product has shape %s, expected %s' % (who, getattr(J, 'shape', None), (k, cols)), sig)
    else:
        J = n.ch.dr_wrt(t.ch, reverse_mode=True) if mode else n.ch.dr_wrt(t.ch)
        kind = 'reverse structure' if mode else 'derivative structure'
        if J is not None:
            mon.check((isinstance(J, np.ndarray) or sp.issparse(J)) and J.ndim == 2 and J.shape == (rows, cols), kind,
                      lambda: '%s: %s of shape %s, expected %s' % (who, type(J), getattr(J, 'shape', None), (rows, cols)),
                      sig)
            mon.check(J.dtype.kind in 'fiu', kind, lambda: '%s: entries of type %s' % (who, J.dtype))
    if not st:
        mon.check(J is None, 'absent derivative', lambda: '%s: no dependence, yet %s' % (who, J), sig)
    elif np.abs(T).max() > 1e-9 * scale:
        mon.check(J is not None, 'present derivative', lambda: '%s: None, expected %s' % (who, T), sig)
    elif J is None:
        mon.skip('derivative is zero here')


def case(ch, rng, mon, tier, i):
    s = Session(ch, rng, mon)
    for _ in range(rng.randint(1, 4)):
        odd_leaf(ch, rng, mon, s)
    for _ in range(rng.randint(2, 8)):
        s.grow()
    last = 'build'
    for step in range(rng.randint(1, 4)):
        for n in s.nodes:
            if n.kind == 'const':
                continue
            if rng.rand() < .7:
                value(s, mon, rng, n, last)
            if rng.rand() < .3:
                conversions(s, mon, rng, n, last)
            ts = s.targets(n) if n.kind == 'op' else [n]
            for t in ts + [s.pick(s.leaves())]:
                if t is not None and rng.rand() < .4:
                    derivative(s, mon, rng, n, t, last)
            if n.kind == 'op' and rng.rand() < .2:
                derivative(s, mon, rng, n, n, last)
        if rng.rand() < .5:
            last = c05.change(s, type(mon)('quiet'), rng) or last
        if rng.rand() < .5:
            s.grow()
