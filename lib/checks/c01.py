"""C01: values of operations and of compositions equal NumPy's."""
import numpy as np

from engine import Session, brief, short
from refops import A, LINALG, OPS, USER

CASES = {'quick': 4000, 'thorough': 60000}
RULE = ('a distinct observation is (operation or function, input shapes, parameters, spelling, class of input data) of a '
        'value compared element for element with NumPy')
REQUIRED = ('special values', 'plain operand', 'composition', 'var/std', 'more functions', 'nested concatenation')
NAMES = [k for k in sorted(OPS) if k not in USER]
POOL = np.array([np.nan, np.inf, -np.inf, 0., -0., 1., -1., 2.5, -.5, .5, 3., 1e-300, -1e12, 1e12, 7., -2., .999, 1e-8])
MOVES = ('transpose', 'rollaxis', 'swapaxes', 'reshape', 'ravel', 'getitem', 'Select', 'tile', 'repeat', 'roll', 'rot90',
         'fliplr', 'flipud', 'squeeze', 'expand_dims', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'concatenate',
         'vstack', 'hstack', 'dstack', 'negative', 'absolute', 'diag', 'diagflat')

SUMS = ('sum', 'mean', 'cumsum', 'dot', 'tensordot', 'cross', 'SumOfSquares', 'norm', 'MatVecMult')


def differ(got, ref, floor=1e-3):
    """Element-for-element disagreement, NaN and infinities included."""
    got, ref = np.asarray(got), np.asarray(ref)
    if got.shape != ref.shape:
        return 'shape %s, expected %s' % (got.shape, ref.shape)
    with np.errstate(all='ignore'):
        if not np.array_equal(np.isnan(got), np.isnan(ref)):
            return 'NaN pattern: got %s expected %s' % (brief(got), brief(ref))
        inf = np.isinf(ref)
        if not np.array_equal(np.isinf(got), inf) or not np.array_equal(got[inf], ref[inf]):
            return 'infinities: got %s expected %s' % (brief(got), brief(ref))
        f = np.isfinite(ref)
        if not np.all(np.abs(got[f] - ref[f]) <= 1e-9 * np.maximum(np.abs(ref[f]), floor)):
            return 'got %s expected %s' % (brief(got), brief(ref))
    return None


PLAIN = [k for k in NAMES if hasattr(OPS[k], 'consts')]


def special(ch, rng, mon, name, plain=.3):
    s = Session(ch, rng, mon)
    op = OPS[name]
    style = rng.randint(3)

    def data(shape):
        if style == 0 or name in LINALG:
            return s.rand_val(shape)
        x = POOL[rng.randint(len(POOL), size=shape)]
        if name in SUMS:
            x = np.where(np.abs(x) == 1e12, x / 1e11, x)
        return np.where(rng.rand(*shape) < .5, x, s.rand_val(shape)) if style == 1 else x

    for _ in range(30):
        sa = s.rand_shape()
        shapes = [sa]
        if op.nin == 2:
            shapes.append(op.second(rng, A(np.zeros(sa)).shape))
        elif op.nin is None:
            shapes += [sa] * rng.randint(0, 3)
        v = [A(data(q)) for q in shapes]
        if op.nin == 2 and shapes[0] == shapes[1] and rng.rand() < .2:
            v[1] = v[0]
        p = op.gen(rng, [u.shape for u in v])
        if p is not None and op.valid([u.shape for u in v], p):
            break
    else:
        mon.skip('no arguments')
        return
    p = dict(p, form=int(rng.randint(op.forms)))
    with np.errstate(all='ignore'):
        try:
            ref = op.f([u.copy() for u in v], p)
        except (np.linalg.LinAlgError, ValueError):
            mon.skip('NumPy refuses')
            return
    x = [ch.Ch(u.copy()) for u in v]
    if len(v) == 2 and v[0] is v[1]:
        x[1] = x[0]
    elif hasattr(op, 'consts') and rng.rand() < plain:      # one side is a plain number or array
        k = rng.randint(2)
        if rng.rand() < .6 and name != 'concatenate':
            c = POOL[rng.randint(len(POOL))] if rng.rand() < .6 else float(rng.randint(-4, 5))
            v[k] = A(c)
            x[k] = float(c) if rng.rand() < .7 else int(c) if np.isfinite(c) and c == int(c) and 0 < abs(c) < 99 else np.float64(c)
            if name == 'power' and rng.rand() < .6:
                v[1 - k] = np.round(v[1 - k])
                x[1 - k] = ch.Ch(v[1 - k].copy())
        else:
            x[k] = v[k].copy()
        with np.errstate(all='ignore'):
            ref = op.f([u.copy() for u in v], p)
        mon.saw('plain operand', (name, k, p['form']))
    mon.note('%s %s %s' % (name, short(p), [u.tolist() for u in v]))
    got = op.build(ch, x, p).r
    mon.saw('special values', (name, tuple(u.shape for u in v), short(p), p['form'], style))
    bad = differ(got, ref, 100. if name in SUMS + LINALG else 1e-3)
    if bad is None and name in MOVES:
        z = (ref == 0)
        if not np.array_equal(np.signbit(got[z]), np.signbit(ref[z])):
            bad = 'signed zeros: got %s expected %s' % (brief(got), brief(ref))
    if bad:
        mon.fail('special values', '%s%s of %s: %s' % (name, short(p), [brief(u) for u in v], bad))


def varstd(ch, rng, mon):
    s = Session(ch, rng, mon)
    x = A(s.rand_val(s.rand_shape()))
    name = 'var' if rng.rand() < .5 else 'std'
    ax = None if rng.rand() < .4 else int(rng.randint(-x.ndim, x.ndim))
    got = getattr(ch, name)(ch.Ch(x), axis=ax).r
    true = A(getattr(np, name)(x, axis=ax))
    unc = A(np.mean(x ** 2, axis=ax))
    if name == 'std':
        unc = np.sqrt(unc)
    mon.saw('var/std', (name, x.shape, ax))
    if got.shape == true.shape and np.allclose(got, true, 1e-9, 1e-9):
        return
    if got.shape == unc.shape and np.allclose(got, unc, 1e-9, 1e-9):
        mon.known_finding('uncentred-' + name, '%s is computed without subtracting the mean' % name)
        return
    mon.fail('var/std', '%s(axis=%s) of %s: got %s expected %s' % (name, ax, brief(x), brief(got), brief(true)))


def more(ch, rng, mon):
    """Spellings and functions outside the operation table."""
    s = Session(ch, rng, mon)
    x = A(s.rand_val(s.rand_shape()))
    c = ch.Ch(x.copy())
    nd = x.ndim
    ax = int(rng.randint(-nd, nd))
    arr = s.rand_val(x.shape, 1)
    cases = [
        ('cumsum axis', lambda: ch.cumsum(c, axis=ax), lambda: np.cumsum(x, axis=ax)),
        ('cumsum method axis', lambda: c.cumsum(axis=ax), lambda: np.cumsum(x, axis=ax)),
        ('pos', lambda: +c, lambda: x),
        ('raw input', lambda: ch.sin(x), lambda: np.sin(x)),
        ('raw inputs', lambda: ch.add(x, arr), lambda: x + arr),
        ('array op Ch', lambda: arr * c - arr / (c + 10.), lambda: arr * x - arr / (x + 10.)),
        ('array ** Ch', lambda: arr ** c, lambda: arr ** x),
        ('number ** Ch', lambda: 2. ** c, lambda: 2. ** x),
        ('int op Ch', lambda: 3 - c * 2 + 1, lambda: 3 - x * 2 + 1),
        ('int / Ch', lambda: 3 / (c + 7), lambda: 3 / (x + 7)),
        ('array compare', lambda: arr > c, lambda: arr > x),
        ('array <=', lambda: arr <= c, lambda: arr <= x),
        ('number <', lambda: .5 < c, lambda: .5 < x),
        ('atleast several', lambda: ch.atleast_2d(c, ch.Ch(arr))[1], lambda: np.atleast_2d(arr)),
        ('asarray', lambda: ch.asarray(c), lambda: x),
        ('asarray raw', lambda: ch.asarray(arr), lambda: arr),
        ('ascontiguousarray', lambda: ch.ascontiguousarray(c), lambda: x),
        ('copy', lambda: ch.copy(c), lambda: x),
        ('abs', lambda: ch.abs(c), lambda: np.abs(x)),
        ('max', lambda: ch.max(c, axis=ax), lambda: np.max(x, axis=ax)),
        ('min', lambda: ch.min(c, axis=ax), lambda: np.min(x, axis=ax)),
        ('float leaf', lambda: ch.Ch(float(x.ravel()[0])) + ch.Ch(2), lambda: x.ravel()[0] + 2),
        ('list leaf', lambda: ch.Ch(x.tolist()) * 1, lambda: x),
        ('raw concatenate', lambda: ch.concatenate((arr, c, arr), axis=ax), lambda: np.concatenate((arr, x, arr), axis=ax)),
        ('raw dot', lambda: ch.dot(arr.ravel(), c.ravel()), lambda: np.dot(arr.ravel(), x.ravel())),
        ('iteration', lambda: ch.Ch(np.array([q for q in c.r])), lambda: x),
        ('norm axis', lambda: ch.linalg.norm(c), lambda: np.sqrt((x ** 2).sum())),
        ('integers', lambda: ch.Ch(np.arange(4)) / 3, lambda: np.arange(4) / 3.),
        ('booleans', lambda: ch.Ch(x > 0) + c, lambda: (x > 0) + x),
        ('float()', lambda: ch.Ch(float(c.ravel()[0])), lambda: x.ravel()[:1]),
        ('int()', lambda: ch.Ch(int(c.ravel()[-1] * 10.)), lambda: float(int(x.ravel()[-1] * 10.))),
        ('raw squeeze', lambda: ch.Ch(ch.squeeze(arr[None])), lambda: np.squeeze(arr[None])),
        ('raw expand_dims', lambda: ch.Ch(ch.expand_dims(arr, ax)), lambda: np.expand_dims(arr, ax)),
        ('raw ravel', lambda: ch.ravel(arr), lambda: arr.ravel()),
        ('raw transpose', lambda: ch.transpose(arr), lambda: arr.T),
        ('raw reshape', lambda: ch.reshape(arr, (-1,)), lambda: arr.ravel()),
        ('raw sum', lambda: ch.sum(arr, axis=ax), lambda: arr.sum(axis=ax)),
        ('raw maximum', lambda: ch.maximum(arr, c), lambda: np.maximum(arr, x)),
        ('chained compare', lambda: (c > arr) * (c != 0.) + (c <= .5), lambda: 1. * (x > arr) * (x != 0.) + (x <= .5)),
        ('abs()', lambda: abs(c - .3), lambda: abs(x - .3)),
        ('len', lambda: ch.Ch(len(c)), lambda: len(x)),
        ('np.array', lambda: ch.Ch(np.array(c)), lambda: x),
        ('method mean', lambda: c.mean(axis=ax), lambda: x.mean(axis=ax)),
        ('method sum', lambda: c.sum(axis=ax), lambda: x.sum(axis=ax)),
        ('method min', lambda: c.min(axis=ax), lambda: x.min(axis=ax)),
        ('method max', lambda: c.max(axis=ax), lambda: x.max(axis=ax)),
        ('method floor', lambda: c.floor() + c.ceil(), lambda: np.floor(x) + np.ceil(x)),
        ('method squeeze', lambda: c.squeeze(), lambda: x.squeeze()),
        ('method reshape', lambda: c.reshape(-1, 1), lambda: x.reshape(-1, 1)),
        ('method transpose', lambda: c.transpose(), lambda: x.transpose()),
        ('int power', lambda: (c + 9.) ** -2, lambda: (x + 9.) ** -2),
        ('Ch power Ch', lambda: (c + 9.) ** ch.Ch(.5), lambda: (x + 9.) ** .5),
    ]
    name, f, g = cases[rng.randint(len(cases))]
    ref = A(g())
    got = f().r
    mon.saw('more functions', (name, x.shape, ax))
    bad = differ(got, ref, 1.)
    if bad:
        mon.fail('more functions', '%s of %s: %s' % (name, brief(x), bad))


def nested(ch, rng, mon):
    """Concatenations of concatenations (and of stacks), axes of either sign, all pieces of one kind of shape."""
    nd = int(rng.randint(1, 5))
    d = int(rng.randint(1, 4))
    shape = [d if rng.rand() < .7 else int(rng.randint(1, 4)) for _ in range(nd)]

    def piece(depth, shape):
        if depth == 0 or rng.rand() < .25:
            x = np.round(rng.randn(*shape), 3)
            return (x, ch.Ch(x.copy()), 'x') if rng.rand() < .9 else (x, x.copy(), 'a')
        ax = int(rng.randint(-nd, nd))
        cuts, rest = [], shape[ax]
        while rest > 0:
            k = int(rng.randint(1, rest + 1))
            cuts.append(k)
            rest -= k
        ps = []
        for k in cuts:
            s2 = list(shape)
            s2[ax] = k
            ps.append(piece(depth - 1, s2))
        ref = np.concatenate([p[0] for p in ps], axis=ax)
        return ref, ch.concatenate([p[1] for p in ps], axis=ax), '%d(%s)' % (ax, ','.join(p[2] for p in ps))

    shape = [k * (2 if rng.rand() < .5 else 1) for k in shape]
    ref, c, desc = piece(int(rng.randint(1, 4)), shape)
    q = rng.randint(4)
    if q == 1:
        ref, c, desc = np.vstack((ref, ref)), ch.vstack((c, c)), 'v' + desc
    elif q == 2:
        ref, c, desc = np.hstack((ref, ref)), ch.hstack((c, c)), 'h' + desc
    elif q == 3:
        ref, c, desc = np.dstack((ref, ref)), ch.dstack((c, c)), 'd' + desc
    got = getattr(c, 'r', c)
    mon.saw('nested concatenation', (tuple(shape), desc))
    bad = differ(got, ref)
    if bad:
        mon.fail('nested concatenation', '%s of %s: %s' % (desc, shape, bad))


def case(ch, rng, mon, tier, i):
    special(ch, rng, mon, NAMES[i // 8 % len(NAMES)])
    for _ in range(2):
        special(ch, rng, mon, NAMES[rng.randint(len(NAMES))])
    if i % 4 == 2:
        special(ch, rng, mon, 'power' if rng.rand() < .2 else PLAIN[rng.randint(len(PLAIN))], 1.)
    if i % 20 == 0:
        varstd(ch, rng, mon)
    if i % 3 == 0:
        more(ch, rng, mon)
    if i % 3 == 1:
        nested(ch, rng, mon)
    if i % 4 == 0:
        s = Session(ch, rng, mon)
        s.build(rng.randint(3, 14), rng.randint(1, 4))
        for n in s.nodes[::-1] if rng.rand() < .5 else s.nodes:
            s.check_value(n, 'composition')
