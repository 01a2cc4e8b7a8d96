"""C09: indexing, assignment through views, and derivatives with respect to slices, against a NumPy index model."""
import numpy as np

import refops
from engine import Session, brief, short
from refops import A, gen_key

CASES = {'quick': 3000, 'thorough': 50000}
RULE = ('a distinct observation is (what was done, shape, index or chain of views, kind of contents) of a read, an '
        'assignment (every element of the variable compared bit for bit) or a derivative with respect to a view')
REQUIRED = ('read', 'read of expression', 'assign direct', 'assign through view', 'follow-up', 'derivative wrt view', 'large read', 'large assign', 'large derivative')
WEIRD = np.array([0., -0., np.nan, np.inf, -np.inf, 1e300, 5e-324, .1 + .2, 1. / 3, -1e-17, 12345678.9])


def same(a, b):
    return a.shape == b.shape and a.tobytes() == b.tobytes()


def views(ch, rng, c, idx, depth, injective_only=False):
    """Apply `depth` random indexing/reordering views to both the chumpy object and the index array."""
    desc = []
    for _ in range(depth):
        q = rng.randint(12)
        nd = idx.ndim
        if q < 5:
            key = gen_key(rng, idx.shape)
            if injective_only and len(np.unique(idx[key])) != np.size(idx[key]):
                continue
            c, idx = c[key], np.atleast_1d(idx[key])
            desc.append('[%s]' % short(key))
        elif q == 5:
            c, idx = c.T, idx.T
            desc.append('T')
        elif q == 6:
            ax = tuple(int(k) for k in rng.permutation(nd))
            c, idx = c.transpose(ax), idx.transpose(ax)
            desc.append('transpose%s' % (ax,))
        elif q == 7:
            sh = refops.factor_shape(rng, idx.size)
            c, idx = c.reshape(sh), idx.reshape(sh)
            desc.append('reshape%s' % (sh,))
        elif q == 8:
            c, idx = c.ravel(), idx.ravel()
            desc.append('ravel')
        elif q == 9:
            a, b = int(rng.randint(-nd, nd)), int(rng.randint(-nd, nd))
            c, idx = ch.swapaxes(c, a, b), np.swapaxes(idx, a, b)
            desc.append('swapaxes(%d,%d)' % (a, b))
        elif q == 10:
            k = int(rng.randint(-3, 4))
            c, idx = ch.roll(c, k), np.roll(idx, k)
            desc.append('roll(%d)' % k)
        elif nd >= 1:
            c, idx = ch.flipud(c), np.flipud(idx)
            desc.append('flipud')
    return c, idx, '.'.join(desc)


def contents(s, rng, shape):
    q = rng.randint(4)
    x = s.rand_val(shape)
    if q == 0:
        x = np.where(rng.rand(*shape) < .5, WEIRD[rng.randint(len(WEIRD), size=shape)], x)
    return x, ('special' if q == 0 else 'plain')


def leaf(ch, rng, x, kind):
    q = rng.randint(6)
    if q == 0 and kind == 'plain':
        xi = np.round(x * 3).astype(int)
        return ch.Ch(xi) if rng.rand() < .5 else _late(ch, xi), xi.astype(float), 'int'
    if q == 1:
        r = x.copy()
        r.flags.writeable = False
        c = ch.Ch(np.zeros(1))
        c.x = r
        return c, x, 'read-only'
    if q == 2:
        c = ch.Ch(np.zeros(1))
        c.x = ch.Ch(x.copy()).r
        return c, x, 'from .r'
    if q == 3 and x.ndim > 1:
        return ch.Ch(np.asfortranarray(x)), x, 'fortran'
    if q == 4:
        return ch.Ch(np.repeat(x, 2, axis=0)[::2]), x, 'strided'
    return ch.Ch(x.copy()), x, 'owned'


def _late(ch, xi):
    c = ch.Ch(np.zeros(1))
    c.x = xi
    return c


def reading(ch, rng, mon, s):
    sh = s.rand_shape() or (1,)
    x, kind = contents(s, rng, sh)
    c, x, store = leaf(ch, rng, x, kind)
    key = gen_key(rng, x.shape)
    got = c[key].r
    ref = A(x[key])
    mon.saw('read', (x.shape, short(key), kind, store))
    if not same(got, np.ascontiguousarray(ref)):
        mon.fail('read', 'x[%s] of %s: got %s expected %s' % (short(key), brief(x), brief(got), brief(ref)))
    e = c * 2. if kind == 'plain' else -c
    xe = x * 2. if kind == 'plain' else -x
    v, idx, desc = views(ch, rng, e, np.arange(x.size).reshape(x.shape), rng.randint(1, 4))
    got = v.r
    ref = np.ascontiguousarray(xe.ravel()[idx])
    mon.saw('read of expression', (x.shape, desc, kind))
    if not same(got, ref):
        mon.fail('read of expression', '%s of %s: got %s expected %s' % (desc, brief(xe), brief(got), brief(ref)))


def value_for(s, rng, shape, special):
    """Something assignable to a selection of that shape."""
    v = s.rand_val(shape)
    if special:
        v = np.where(rng.rand(*shape) < .5, WEIRD[rng.randint(len(WEIRD), size=shape)], v) if shape else v
    q = rng.randint(5)
    if q == 0:
        f = float(v.ravel()[0])
        return f, np.broadcast_to(f, shape), 'scalar'
    if q == 1 and len(shape) > 1:
        return v[0], np.broadcast_to(v[0], shape), 'row'
    if q == 2:
        return v.tolist(), v, 'list'
    if q == 3 and np.all(np.abs(v) < 1e6):
        k = np.round(v).astype(int)
        return k, k.astype(float), 'ints'
    return v, v, 'array'


def assigning(ch, rng, mon, s):
    sh = s.rand_shape() or (1,)
    x, kind = contents(s, rng, sh)
    c, x, store = leaf(ch, rng, x, kind)
    x = np.ascontiguousarray(x.astype(float))
    other = ch.Ch(np.arange(3.))
    watch = [(c[::-1], lambda x: x[::-1]), (-c, lambda x: -x), (ch.concatenate((c.ravel(), other)),
                                                              lambda x: np.concatenate((x.ravel(), np.arange(3.))))]
    for step in range(rng.randint(1, 5)):
        if rng.rand() < .5:
            for w, f in watch:
                w.r
        depth = rng.randint(0, 4)
        v, idx, desc = views(ch, rng, c, np.arange(x.size).reshape(x.shape), depth, True)
        key = gen_key(rng, idx.shape)
        where = idx[key]
        if len(np.unique(where)) != np.size(where):
            continue
        raw, full, how = value_for(s, rng, np.shape(where), kind == 'special')
        new = x.copy()
        new.ravel()[np.ravel(where)] = np.ravel(full)
        mon.note('%s%s = %s (%s)' % (desc, short(key), how, store))
        before = other.r.copy()
        v[key] = raw
        got = A(c.r)
        direct = not desc
        mon.saw('assign direct' if direct else 'assign through view', (x.shape, desc, short(key), how, kind, store))
        if not same(np.ascontiguousarray(got), new):
            mon.fail('assign', 'x%s[%s] = %s on %s: got %s expected %s' % (
                '.' + desc if desc else '', short(key), brief(np.asarray(raw)), brief(x), brief(got), brief(new)))
        if not same(other.r, before):
            mon.fail('assign', 'an unrelated variable changed')
        x = new
        store = 'owned'
        for w, f in watch:
            mon.saw('follow-up')
            ref = np.ascontiguousarray(f(x))
            if not same(w.r, ref):
                mon.fail('follow-up', 'after the assignment %s, an expression reads %s, expected %s' % (
                    desc, brief(w.r), brief(ref)))


def deriving(ch, rng, mon, s):
    s.build(rng.randint(2, 6), rng.randint(1, 3))
    for n in s.ops()[::-1][:3]:
        lv = [t for t in s.reach(n) if t.kind == 'leaf']
        lv.sort(key=lambda t: t.tag)
        for t in lv:
            if not s.good(t):
                continue
            w, idx, desc = views(ch, rng, t.ch, np.arange(s.val(t).size).reshape(s.val(t).shape), rng.randint(1, 4))
            if not desc:
                continue
            rev = rng.rand() < .3
            s.check_jac(n, t, 'derivative wrt view', desc + ('/reverse' if rev else ''), idxs=idx.ravel(),
                        get=lambda: n.ch.dr_wrt(w, reverse_mode=True) if rev else n.ch.dr_wrt(w))
            if rng.rand() < .3:
                s.set_leaf()
                s.check_jac(n, t, 'derivative wrt view', desc + '/after change', idxs=idx.ravel(),
                            get=lambda: n.ch.dr_wrt(w))


def large(ch, rng, mon):
    """Arrays with more elements than small index types can count."""
    n = int((300, 40000, 66000, 140000)[rng.randint(4)]) + int(rng.randint(0, 9))
    sh = (n,) if rng.rand() < .5 else (n // 4, 4) if rng.rand() < .5 else (3, n // 3)
    x = rng.randn(*sh)
    c = ch.Ch(x.copy())
    ref = x.copy()
    for _ in range(3):
        row = rng.randint(sh[0])
        keys = [slice(row, None), slice(None, None, -7), np.array([sh[0] - 1, 0, row]), row, slice(-3, None)]
        if len(sh) > 1:
            keys += [(slice(None), int(rng.randint(sh[1]))), (row, slice(None, None, -1))]
        key = keys[rng.randint(len(keys))]
        got = c[key].r
        mon.saw('large read', (n // 1000, len(sh), short(key)))
        if not same(got, np.ascontiguousarray(A(ref[key]))):
            mon.fail('large read', 'x[%s] of a %s array is wrong' % (short(key), sh))
        v = rng.randn(*ref[key].shape) if rng.rand() < .6 else 7.25
        ref[key] = v
        (c if rng.rand() < .5 else c[::-1][::-1])[key] = v
        mon.saw('large assign', (n // 1000, len(sh), short(key)))
        if not same(c.r, ref):
            mon.fail('large assign', 'after x[%s] = ... on a %s array %d elements are wrong' % (
                short(key), sh, int((c.r != ref).sum())))
        idx = np.arange(x.size).reshape(sh)
        w, idx = (c.T[..., -1:], idx.T[..., -1:]) if rng.rand() < .5 else (c[key], idx[key])
        idx = np.ravel(idx)
        e = ch.sum(c * c)
        J = e.dr_wrt(w)
        J = J.toarray() if hasattr(J, 'toarray') else np.asarray(J)
        mon.saw('large derivative', (n // 1000, len(sh), short(key)))
        if J.shape != (1, idx.size) or not np.allclose(J.ravel(), 2 * ref.ravel()[idx], 1e-9, 1e-12):
            mon.fail('large derivative', 'wrong derivative with respect to x[%s] of a %s array' % (short(key), sh))


def case(ch, rng, mon, tier, i):
    if i % 150 == 7:
        large(ch, rng, mon)
    s = Session(ch, rng, mon)
    reading(ch, rng, mon, s)
    assigning(ch, rng, mon, s)
    if i % 2 == 0:
        deriving(ch, rng, mon, s)
